"""What each property's check runs: model configurations, drivers and trace specifications."""
import os
STUB = "-I" + os.path.join(os.path.dirname(os.path.abspath(__file__)), "drivers", "stub")
COMMON = ["TLC evaluates the TLA+ definitions faithfully", "g++ 13 and AddressSanitizer are correct",
          "msgpack-c and flatbuffers as installed are part of the system under test",
          "inputs outside the generated families are not observed"]
PROPS = {
    "C01": dict(level="model_checking", assumptions=COMMON, technique="TLA+ value model; TLC trace validation of write/read-back observations",
                note="Every recorded round trip is decided by TLC against the value model; boundary and random values, not all values.",
                runs=[dict(driver="d_c01.cpp", trace="TraceC01", min_distinct=3000)]),
    "C05": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of the ZERA wire format (decoder, canonical form); TLC decides every recorded writer output",
                note="An independent decoder written in TLA+ from ZERA.md reads the recorded bytes; the format definition itself is model-checked (decode inverts encode).",
                models=[dict(module="MCZera", cfg="MCZera.cfg", thorough_cfg="MCZeraDeep.cfg")],
                runs=[dict(driver="d_c05.cpp", trace="TraceC05", min_distinct=1000)]),
    "C06": dict(level="model_checking", assumptions=COMMON, technique="TLA+ reader state machine over ZERA bytes; TLC validates recorded sessions on mutated, foreign and random messages; ASan watches the accesses",
                note="Each recorded read is compared with the outcome set the format prescribes for those bytes; memory safety is observed by AddressSanitizer on exactly sized buffers.",
                models=[dict(module="MCZera", cfg="MCZeraMut.cfg", thorough_cfg="MCZeraMutDeep.cfg")],
                runs=[dict(driver="d_c06.cpp", trace="TraceC06", min_distinct=3000)]),
    "C07": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of MessagePack (decoder, every head size); TLC decides recorded writer output and recorded reads of foreign encodings",
                note="An independent decoder in TLA+ reads the writer's bytes; foreign messages with non-minimal heads are decoded in TLA+ and compared with what the reader showed. The definition itself is model-checked.",
                models=[dict(module="MCMsgPack", cfg="MCMsgPack.cfg", thorough_cfg="MCMsgPackDeep.cfg")],
                runs=[dict(driver="d_c07.cpp", trace="TraceC07", min_distinct=3000)]),
    "C08": dict(level="model_checking", assumptions=COMMON, technique="TLA+ reader state machine over MessagePack bytes; TLC validates recorded sessions on truncated, corrupt, random and deeply nested input; ASan watches the accesses",
                note="Each recorded read is compared with the outcome set the bytes prescribe; all 1-byte inputs (thorough: all 2-byte inputs), mutants of valid messages, nesting up to 2 million levels.",
                models=[dict(module="MCMsgPack", cfg="MCMsgPackMut.cfg", thorough_cfg="MCMsgPackMutDeep.cfg"), dict(module="MCMsgPack", cfg="MCMsgPackBytes.cfg", thorough_cfg="MCMsgPackBytesDeep.cfg")],
                runs=[dict(driver="d_c08.cpp", trace="TraceC08", min_distinct=6000)]),
    "C03": dict(level="model_checking", assumptions=COMMON, technique="TLA+ reader model over values; TLC validates the recorded accessor matrix",
                note="Every predicate and accessor on every boundary value and kind, at the root and nested, for each protocol; random values besides.",
                runs=[dict(driver="d_c03.cpp", trace="TraceReader", min_distinct=1500)]),
    "C04": dict(level="model_checking", assumptions=COMMON, technique="TLA+ reader state machine (handles stand for values); TLC validates recorded reading sessions",
                note="Random interleavings of reads through root and sub-value handles with keys and indices around the existing ones; containers up to 70000 entries.",
                runs=[dict(driver="d_c04.cpp", trace="TraceReader", min_distinct=3000)]),
    "C02": dict(level="model_checking", assumptions=COMMON, technique="TLA+ chain-of-translations state machine over logical values; TLC validates recorded chains",
                note="Random chains of up to five translations through all protocols, from whole messages and sub-values, boundary and random values and messages of another encoder, each hop decided by TLC. A model-checked system spec joins the three format definitions: every value written, mutated and translated through every chain keeps its meaning.",
                models=[dict(module="MCSystem", cfg="MCSystem.cfg", thorough_cfg="MCSystemDeep.cfg")],
                runs=[dict(driver="d_c02.cpp", trace="TraceC02", min_distinct=2000)]),
    "C09": dict(level="model_checking", assumptions=COMMON, technique="TLA+ writer state machine; TLC enumerates call histories, the driver replays them on the real writers, TLC validates the outcomes",
                note="All call histories up to 6 (thorough 9) calls ending in finish or one illegal call, and random long ones, on the three writers.",
                runs=[dict(driver="d_c09.cpp", trace="TraceC09", min_distinct=1000, gen=dict(module="GenWriter", cfg="GenWriter.cfg", thorough_cfg="GenWriterDeep.cfg", min=300))]),
    "C15": dict(level="model_checking", assumptions=COMMON, technique="TLA+ writer state machine; TLC validates the writer calls recorded from every front end",
                note="A recording writer behind built-in types, containers, builders, dynamic values, type-erased and custom types and reader copies, each stored, copied, moved and repeated; TLC runs every call sequence through the writer machine.",
                runs=[dict(driver="d_c15.cpp", trace="TraceC15", min_distinct=2000)]),
    "C16": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of Base64, model-checked against the rolling-buffer machine; TLC validates recorded encodings and decodings",
                note="Every byte value at every place of a quantum, every pair of sextets, all lengths to 300 and some thousands, texts mutated around valid ones; thorough: all two-byte strings.",
                models=[dict(module="MCBase64", cfg="MCBase64.cfg", thorough_cfg="MCBase64Deep.cfg")],
                runs=[dict(driver="d_c16.cpp", trace="TraceC16", min_distinct=1500)]),
    "C13": dict(level="model_checking", assumptions=COMMON, technique="TLA+ ownership machine; TLC checks it, enumerates histories that are replayed on real ZBuffers with instrumented deleters, and validates what was shown and released",
                note="All histories of 5 (thorough 7) constructions, moves, assignments, swaps and destructions over three buffers, random histories of up to 45 operations over five; vector, uint8_t*, char*, void* sources, new[] and malloc told apart; up to 5 MiB; released pointers, leaks and dumps.",
                runs=[dict(driver="d_c13.cpp", trace="TraceC13", min_distinct=3000, gen=dict(module="GenZBuffer", cfg="GenZBuffer.cfg", thorough_cfg="GenZBufferDeep.cfg", min=1000))]),
    "C14": dict(level="model_checking", assumptions=COMMON, technique="TLA+ lifetime machine; TLC checks it, enumerates histories that are replayed on real readers under AddressSanitizer, and validates everything read",
                note="All histories of 5 (thorough 6) constructions, copies, moves, assignments, swaps, part extractions and destructions over three objects (protocols in turn), random histories of up to 30 operations over six.",
                runs=[dict(driver="d_c14.cpp", trace="TraceC14", min_distinct=3000, gen=dict(module="GenLifetime", cfg="GenLifetime.cfg", thorough_cfg="GenLifetimeDeep.cfg", min=1000))]),
    "C10": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of tensors as messages, model-checked; TLC validates recorded write/translate/read round trips of real xtensor and Eigen objects",
                note="All thirteen element types; xtensor containers, adaptors, row/column-major, sliced, strided, reversed, transposed views; Eigen row/column-major, fixed and dynamic; rank 0 to 8, zero sizes; alone and nested, via translations; owning and view forms.",
                models=[dict(module="MCTensor", cfg="MCTensor.cfg", thorough_cfg="MCTensorDeep.cfg")],
                runs=[dict(driver="d_c10.cpp", trace="TraceC10", min_distinct=1000, flags=["-O0", f"-DPROTO={p}"]) for p in (0, 1, 2)]),
    "C11": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of tensor messages; TLC enumerates messages around it, the driver reads them as tensors, TLC validates every outcome",
                note="Thousands of messages enumerated by TLC (every combination of dimensions around 0, 1, 2^16, 2^29, 2^31, 2^32, 2^63 and negative, wrong kinds, dtypes, blob sizes one off) and corrupted messages, each read in 40 ways (types, ranks, fixed dimensions, both libraries, owning and view) and asked isTensor; the same parts as maps (any order, other entries, misnamed or missing ones) read in 22 ways.",
                models=[dict(module="MCTensor", cfg="MCTensor.cfg", thorough_cfg="MCTensorDeep.cfg")],
                runs=[dict(driver="d_c11.cpp", trace="TraceC11", min_distinct=3000, flags=["-O0", f"-DPROTO={p}"], gen=dict(module="GenTensor", cfg="GenTensor.cfg", thorough_cfg="GenTensorDeep.cfg", min=3000)) for p in (0, 1, 2)]),
    "C12": dict(level="model_checking", assumptions=COMMON, technique="TLA+ rules of placement and alignment; TLC validates recorded addresses of strings, keys, blobs and tensor elements",
                note="Every piece of thousands of messages at all sixteen base alignments; tensor views of thirteen element types in both libraries, behind fillers of all lengths, copied, moved, and after the buffer is gone where they own a copy.",
                models=[dict(module="MCTensor", cfg="MCTensor.cfg", thorough_cfg="MCTensorDeep.cfg")],
                runs=[dict(driver="d_c12.cpp", trace="TraceC12", min_distinct=2000, flags=["-O0", f"-DPROTO={p}"]) for p in (0, 1, 2)]),
    "C17": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of FlexBuffers (well-formedness, decoder); TLC decides recorded writer output and recorded reads of foreign messages",
                note="An independent decoder in TLA+ reads the writer's bytes; messages forged by another encoder (every slot width, typed and fixed vectors, indirect numbers, shared strings and keys, key-typed values, filler) are decoded in TLA+ and compared with what the reader showed. The definition itself is model-checked.",
                models=[dict(module="MCFlex", cfg="MCFlex.cfg", thorough_cfg="MCFlexDeep.cfg"), dict(module="MCFlex", cfg="MCFlexMut.cfg", thorough_cfg="MCFlexMutDeep.cfg")],
                runs=[dict(driver="d_c17.cpp", trace="TraceC17", min_distinct=3000)]),
    "C18": dict(level="model_checking", assumptions=COMMON + ["ThreadSanitizer sees every conflicting access of the executed operations"], technique="TLA+ machine of threads sharing messages, model-checked over all interleavings; TLC validates what real threads recorded under ThreadSanitizer",
                note="Three threads per case read the same reader, copies and sub-values, translate, print, decode tensors and serialize the same values with every protocol; the same work alone, after litter and after failed writes.",
                models=[dict(module="MCShared", cfg="MCShared.cfg", thorough_cfg="MCSharedDeep.cfg")],
                runs=[dict(driver="d_c18.cpp", trace="TraceC18", min_distinct=500, san="thread")]),
    "C19": dict(level="model_checking", assumptions=COMMON, technique="TLA+ definition of the debug text, model-checked to be unambiguous; TLC decides every recorded text",
                note="Texts of whole messages and of parts, of what the writers and of what another encoder wrote, deep and long containers, large blobs, every byte value in strings and keys, boundary numbers, random nested values; doubles exactly when whole and small, else by sign and class.",
                models=[dict(module="MCDebug", cfg="MCDebug.cfg", thorough_cfg="MCDebugDeep.cfg")],
                runs=[dict(driver="d_c19.cpp", trace="TraceC19", min_distinct=3000)]),
    "C20": dict(level="model_checking", assumptions=COMMON + ["jsoncons is not installed: a stand-in encoder takes its place (the reader under test does not use it)"], technique="TLA+ reader state machine over CBOR bytes; TLC validates recorded sessions on well-formed, truncated, corrupt, random and deeply nested input; ASan watches the accesses",
                note="Each recorded read is compared with the outcome set the bytes prescribe: every head size, definite and indefinite lengths, chunked strings, half, single and double floats, tags and other simple values; all 1-byte inputs (thorough: all 2-byte inputs), mutants, nesting up to 2 million levels. The definition itself is model-checked.",
                models=[dict(module="MCCbor", cfg="MCCbor.cfg", thorough_cfg="MCCborDeep.cfg"), dict(module="MCCbor", cfg="MCCborMut.cfg", thorough_cfg="MCCborMutDeep.cfg"), dict(module="MCCbor", cfg="MCCborBytes.cfg", thorough_cfg="MCCborBytesDeep.cfg")],
                runs=[dict(driver="d_c20.cpp", trace="TraceC20", min_distinct=6000, flags=[STUB])]),
    "C21": dict(level="model_checking", assumptions=COMMON + ["jsoncons is not installed: a stand-in encoder written from RFC 8949 takes its place"], technique="TLA+ definition of CBOR (decoder, every head size, definite and indefinite); TLC decides recorded writer output, recorded reads of foreign messages and recorded chains of translations",
                note="What the CBOR writer calls its encoder to produce, foreign messages with every head size, indefinite containers and chunked strings, and chains of up to four translations between CBOR and the other three protocols.",
                models=[dict(module="MCCbor", cfg="MCCbor.cfg", thorough_cfg="MCCborDeep.cfg"), dict(module="MCSystem", cfg="MCSystem.cfg")],
                runs=[dict(driver="d_c21.cpp", trace="TraceC21", min_distinct=3000, flags=[STUB])]),
    "C22": dict(level="model_checking", assumptions=COMMON + ["yyjson and jsoncons are not installed: stand-ins written from their documentation take their place, so their own parsing and printing are not under test", "the C library's strtod says which double a numeral stands for"], technique="TLA+ definition of JSON texts, once as a recursive parser and once as a byte machine (model-checked to agree); TLC decides recorded writer output, reading sessions, writer histories and chains of translations",
                note="Every text the writer makes is parsed in TLA+ and compared with the value; sessions on foreign, malformed and random texts; writer histories against the writer machine; translations between JSON and the four other protocols. What JSON cannot hold (non-finite numbers, text that is not UTF-8) must be refused.",
                models=[dict(module="MCJson", cfg="MCJson.cfg", thorough_cfg="MCJsonDeep.cfg"), dict(module="MCJson", cfg="MCJsonMut.cfg"), dict(module="MCJson", cfg="MCJsonBytes.cfg", thorough_cfg="MCJsonBytesDeep.cfg")],
                runs=[dict(driver="d_c22.cpp", trace="TraceC22", min_distinct=6000, flags=[STUB])]),
}
