#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py > MANIFEST.json)."""
import json, re, os
here = os.path.dirname(os.path.abspath(__file__))
main = open(os.path.join(here, "../harness/src/main.rs")).read()
built = sorted(set(re.findall(r'"(C\d\d)" =>', main)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "../properties.jsonl"))]
COMMON = ("Exhaustive within the bounds listed per space in the evidence file; nothing is sampled. Trusted: the reference "
          "model harness/src/refm.rs (checked against RFC 5769, FIPS 180, RFC 1321 and RFC 2202 vectors on every run), rustc, "
          "bytecodec, and the exploration framework. Data values outside the stated alphabets are not covered. ")
T = {
 "C01": ("exhaustive bounded enumeration of messages, real encoder compared byte for byte with a reference model", "All headers; all attribute lists up to a depth over boundary values of all 32 types; all raw types and lengths."),
 "C02": ("exhaustive bounded enumeration of messages through encoder and decoder", "All headers; all attribute lists up to a depth over boundary values of all 32 types."),
 "C03": ("exhaustive bounded enumeration of received messages, decode then encode, for six attribute sets", "All padding contents, all attribute types, lists of wire attributes up to a depth."),
 "C04": ("exhaustive bounded enumeration of byte strings (mutation and grammar spaces), decoder outcome compared with a reference model", "Single-byte mutations at every position, truncations, all type/length fields, all short attribute regions."),
 "C05": ("exhaustive enumeration of fragmentations (environment answers) of the input", "All splittings up to a cut bound, all compositions of windows and short inputs."),
 "C06": ("exhaustive enumeration of output buffer schedules", "All buffer size sequences up to a bound per message."),
 "C07": ("explicit exploration of decoder histories, each compared with a fresh decoder", "All histories up to the depth bound over an alphabet of complete, broken, rejected and truncated inputs and fragmentations."),
 "C08": ("explicit exploration of encoder histories with refused messages, each compared with a fresh encoder", "All histories up to the depth bound."),
 "C09": ("exhaustive bounded enumeration of FINGERPRINT messages and mutations against a reference CRC model", "All single-byte substitutions and bit flips of a message alphabet, all positions and multiplicities."),
 "C10": ("exhaustive bounded enumeration of credentials, messages and mutations against a reference HMAC model", "All single-byte substitutions, all password lengths up to a bound, all credential confusions."),
 "C11": ("exhaustive enumeration of ports, octets and transaction id bytes against a reference XOR model", "All ports, all values of each address octet and transaction id byte."),
 "C12": ("exhaustive enumeration of finite value domains against a reference model", "All 16-bit arguments, all boundary lengths of text and byte domains."),
 "C13": ("exhaustive enumeration of wire values per attribute type against a reference model", "All values of every byte position, all 16-bit fields, all lengths up to a bound, both directions."),
 "C14": ("exploration of build/decode histories against a list model", "All attribute types; all histories of additions up to a depth after four start messages."),
 "C15": ("exhaustive enumeration of message sizes around the limits", "All sizes near every limit, alone and in combination."),
 "C16": ("exhaustive enumeration of hook behaviours (record, change, fail) per attribute position, observed through instrumented attributes", "All attribute lists up to a depth with every assignment of hook behaviours."),
 "C17": ("complete enumeration of the type field domain", "Complete: the whole finite domain is enumerated, so this is a full decision for type fields."),
 "C18": ("exhaustive enumeration of attribute types and enum compositions against the attributes alone", "All 65536 types for predefined and custom enums in several orders."),
 "C19": ("exhaustive enumeration of fragmentations, buffer schedules and reuse histories of the public value codecs", "All compositions of short values; all reuse pairs."),
 "C20": ("exhaustive enumeration of streams and reader schedules", "All sequences of messages up to a depth with all short-read schedules up to a bound."),
 "C21": ("complete enumeration of the finite registry", "Complete: every constant is compared with the registry."),
 "C22": ("exhaustive enumeration of error kinds and of broken messages", "All error kinds and all broken messages of the mutation spaces."),
 "C23": ("exhaustive exploration of two-party exchanges over the real codecs", "All requests of a bounded alphabet, each answered and the answer decoded."),
 "C24": ("exhaustive enumeration of inputs under a counting allocator", "All announced lengths and truncations of an alphabet, measured peak and leak."),
 "C25": ("fault enumeration: error and panic injected at every callback of every bounded run, drop ledger as oracle", "All single and double fault placements for all attribute lists up to a depth."),
 "C26": ("exhaustive enumeration of value pairs, and of operation sequences over messages and their clones, against a content model", "All pairs over boundary and one-bit-neighbour values; all operation sequences up to the depth bound."),
 "C27": ("systematic exploration of all interleavings of public calls under a controlled scheduler (baton hand-off between real threads)", "All interleavings of all pairs and bounded triples of scripts, four placements on threads."),
 "C28": ("exploration of repeated histories under a counting allocator, steady state as oracle", "All inputs and pairs of inputs in every way of ending them, 48 rounds each."),
 "C29": ("exhaustive enumeration of sequences of public calls against a byte-position model", "All call sequences up to the depth bound on message and value codecs."),
}
checks = []
for i in built:
    t, n = T[i]
    checks.append({"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                   "technique": "explicit-state model checking of the implementation: " + t, "level": "model_checking", "level_note": n + " " + COMMON})
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in props if i not in built],
     "notes": "No hooks: everything is driven through the public API. Genuine defects: KNOWN_FINDINGS.txt; design: DESIGN.md."}
print(json.dumps(m, indent=1))
