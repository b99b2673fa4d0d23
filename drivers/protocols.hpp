#pragma once
#include "common.hpp"
#include <zerialize/protocols/zera.hpp>
#include <zerialize/protocols/msgpack.hpp>
#include <zerialize/protocols/flex.hpp>
namespace drv {
template <class P> inline constexpr const char* pcode = "?";
template <> inline constexpr const char* pcode<zerialize::Zera> = "Z";
template <> inline constexpr const char* pcode<zerialize::MsgPack> = "M";
template <> inline constexpr const char* pcode<zerialize::Flex> = "F";
template <class F> void with_proto(int i, F&& f) {
    switch (i) { case 0: f(zerialize::Zera{}); break; case 1: f(zerialize::MsgPack{}); break; default: f(zerialize::Flex{}); }
}
// Serialize v; returns "ok", "S" (SerializationError) or "X" (anything else).
template <class P> std::string write_value_bytes(const V& v, std::string& bytes) {
    try {
        typename P::RootSerializer rs{}; typename P::Serializer w{rs};
        emit(v, w);
        zerialize::ZBuffer b = rs.finish();
        bytes.assign(reinterpret_cast<const char*>(b.data()), b.size());
        return "ok";
    } catch (const zerialize::SerializationError&) { return "S"; }
    catch (...) { return "X"; }
}
}
