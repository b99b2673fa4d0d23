// Stand-in: jsoncons is not installed here. Only what protocols/cbor.hpp uses is provided.
#pragma once
