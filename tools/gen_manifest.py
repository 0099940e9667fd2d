#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {}
def t(p, tech, note): T[p] = (tech, note)
COMMON = " Oracle: reference model in mc/ref, written from the MessagePack specification and the documented API, sharing no code with /repo. Assumes the bounds listed in the evidence file."
t("C01", "explicit-state enumeration of value trees over all encoder x decoder pairs against a reference model", "All value trees up to a size, all scalars on wire boundaries, all flavours.")
t("C02", "exhaustive enumeration of values and packer call sequences, bytes compared with a reference encoder", "Byte-exact.")
t("C03", "explicit-state search over construction histories, bytes and hash canonical per content", "All histories up to a depth ending in the same content give the same bytes.")
t("C04", "exhaustive enumeration of byte strings and token sequences against a reference decoder", "All byte strings up to a length, all structured items, truncations and mutations.")
t("C05", "exhaustive enumeration of declared sizes and nestings with measured allocation bounds", "Allocation measured per decode against a linear bound in the supplied bytes.")
t("C06", "exhaustive enumeration of read segmentations (environment model of io.Reader)", "Every segmentation of short streams and every answer script of the reader up to a bound.")
t("C07", "fault enumeration at every byte of every stream (cuts and reader failures)", "Every cut and every failure position.")
t("C08", "fault enumeration at every write call and byte position (environment model of io.Writer)", "Every failing write call and every partial write.")
t("C09", "explicit-state search over version trees: every derived value rechecks all earlier ones", "All operation trees up to a depth from many start sizes and flavours.")
t("C10", "explicit-state search over operation histories against a sequence model", "All operation paths up to a depth from every start; all views compared after each.")
t("C11", "explicit-state search over operation histories against a sorted multimap model", "All operation paths up to a depth from every start; all views compared after each.")
t("C12", "explicit-state search over operation histories against a sorted integer multimap model, fast appends on and off", "All operation paths up to a depth from every start; all views compared after each.")
t("C13", "explicit-state search over interleavings of updates, operations and copies", "All histories of updates, operations and copies up to a depth.")
t("C14", "exhaustive enumeration of container x position x element x getter against a coercion model", "All getters on all element kinds in all flavours.")
t("C15", "exhaustive enumeration of value pairs against an equality model", "All ordered pairs of an alphabet of values and flavours.")
t("C16", "exhaustive enumeration of number pairs against exact arithmetic", "All ordered pairs of a number alphabet, all conversions.")
t("C17", "exhaustive enumeration of strings up to a length against a reference parser", "All strings over a number alphabet up to a length, all text forms.")
t("C18", "exhaustive enumeration of values, JSON parsed back and compared with the model", "All values of the codec families; JSON parsed with a token parser.")
t("C19", "exhaustive enumeration of struct types x field subsets x payloads", "All field subsets of a zoo of struct types.")
t("C20", "exhaustive enumeration of byte strings, mutations and unsupported types for struct decoding", "All mutations and truncations of encodings, all short byte strings, into every type of the zoo.")
t("C21", "fault enumeration of every alteration of sealed boxes", "Every bit flip, truncation, extension and key substitution.")
t("C22", "explicit-state enumeration of buffer reuse: every buffer overwritten after every call", "Every decode and encode entry point, buffers overwritten and reused.")
t("C23", "stateless model checking of the instrumented real code under a controlled scheduler with preemption bounding", "All schedules up to a preemption bound with scheduling points before every statement; race detector on.")
t("C24", "explicit-state search over sequences of values and reading interleavings", "All value sequences up to a length over all writer x reader pairs.")
t("C25", "exhaustive enumeration of headers, cuts, parser functions and packer call sequences against a token model", "All first bytes with all 8- and 16-bit contents, boundary contents otherwise; all packer call sequences up to a length.")
t("C26", "exhaustive enumeration of values x constructors x decoders x operations against the content model", "All values of the codec families, all constructors, all operations from every start.")
t("C27", "exhaustive enumeration of values with foreign nodes, foreign packers, unpackers and parsers, and of their failing calls", "All values of the tree families with seven placements of foreign nodes; every failing call.")
t("C28", "explicit-state exploration of arrival histories: every division of the bytes, the state checked whenever the reader is asked for more", "All sequences of up to four values, all divisions into arrivals of short ones; dialogues over pipes.")
t("C29", "exhaustive enumeration of settings, of all changes from one to another, and of values and operation histories under them", "All ordered pairs of settings on the same values; sparse list histories with every pattern of fast appends.")
t("C30", "systematic fault injection: every call of user code as the place of every kind of end, and of re-entry by every operation", "Every operation that calls user code x values and containers of user types x every call x four kinds of end; re-entry by all operations.")
t("C31", "exhaustive enumeration of operations, sizes and key spreads with instrumented elements; bounds on calls, allocation and time", "Every operation x every container kind x every size up to a bound and powers of two beyond x key spreads and orders; calls of elements are counted exactly, memory from the runtime, time only against a limit a dozen times what it takes.")
done = set(re.findall(r'All\["(C\d\d)"\] =', "".join(open(os.path.join(here, "mc/props", f)).read() for f in os.listdir(os.path.join(here, "mc/props")) if f.endswith(".go"))))
if os.path.exists(os.path.join(here, "mc/c23.sh")): done.add("C23")
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": [], "not_applicable": []}
for p in sorted(T):
    if p in done:
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
            "technique": "model checking: " + T[p][0], "level": "model_checking", "level_note": T[p][1] + COMMON})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
if not m["not_applicable"]: del m["not_applicable"]
m["notes"] = "No hooks in /repo: checks build the working tree through a replace directive; C23 instruments a copy of the source with scheduling points at build time. Replay: ./check.sh replay replay/<id>.json"
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
