"""mkmanifest.py: writes MANIFEST.json"""
import json, os
LIB = ("Records of the real library (in-process, through its public API, rebuilt from /repo) are judged by TLC against "
       "spec/%s.tla; the abstract algorithm is checked exhaustively in spec/%s.tla and every scenario of that model is replayed. "
       "Exhaustive for the model's constants and for the small inputs replayed; sampled by seed beyond. Trusted: the recorder's projection, TLC.")
CLI = ("Runs of the real huff program, as an unprivileged user in a scratch directory, are judged by TLC against spec/TraceCli.tla "
       "from complete directory listings; the design is checked exhaustively in spec/%s.tla and its scenarios are replayed. %s"
       "Exhaustive for the models' constants and the listed grids; sampled by seed beyond. Trusted: the bench's projection of the directory, TLC.")
FAULT = "Faults and kill points are injected at every libc call on files of the scratch directory (LD_PRELOAD). "
N = {
 "C01": ("TLA+ codec model; replay of its scenarios; TLC judges round-trip traces", LIB % ("TraceLib", "Codec")),
 "C02": ("TLA+ Huffman construction over all tie orders; TLC judges tree traces", LIB % ("TraceLib", "HuffBuild")),
 "C03": ("TLA+ optimal cost oracle; TLC judges trees and codes built", LIB % ("TraceLib", "HuffBuild")),
 "C04": ("TLA+ tree encoding automaton; TLC judges write/read traces", LIB % ("TraceLib", "TreeBin")),
 "C05": ("TLA+ tree reader automaton; all short bit vectors replayed and judged", LIB % ("TraceLib", "TreeBin")),
 "C06": ("TLA+ container format; TLC judges serialisation traces", LIB % ("TraceLib", "Container")),
 "C07": ("TLA+ container reader; every prefix/corruption replayed and judged", LIB % ("TraceLib", "Container")),
 "C08": ("TLA+ count collections; model histories replayed, all views judged", LIB % ("TraceWeights", "ByteCounts")),
 "C09": ("TLA+ threaded counting over all schedules; replay and judging", LIB % ("TraceWeights", "ThreadCount")),
 "C10": ("TLA+ codec model; TLC judges compression with supplied trees", LIB % ("TraceLib", "Codec")),
 "C19": ("TLA+ editing histories of branches; histories replayed and judged", LIB % ("TraceBranch", "Branches")),
 "C20": ("TLA+ decoder over any data; its scenarios replayed and judged", LIB % ("TraceLib", "Decoder")),
 "C21": ("TLA+ two's complement model; TLC judges recorded conversions", LIB.replace("and every scenario of that model is replayed", "over small words") % ("TraceLib", "Letters")),
 "C11": ("TLA+ block streaming model; replay over block size pairs; judging", CLI % ("Blocks", "")),
 "C12": ("TLA+ block model and format; TLC judges files, both directions", CLI % ("Blocks", "")),
 "C13": ("TLA+ program state machine with kills; fault/kill enumeration judged", CLI % ("Huff", FAULT)),
 "C14": ("TLA+ program state machine with faults; fault enumeration judged", CLI % ("Huff", FAULT)),
 "C15": ("TLA+ program state machine; all its start states replayed and judged", CLI % ("Huff", "")),
 "C16": ("TLA+ program state machine and format; corruptions replayed, judged", CLI % ("Huff", "")),
 "C17": ("TLA+ argument grammar and state machine; runs replayed and judged", CLI % ("Huff", "")),
 "C18": ("TLA+ file system and path model; path grids replayed and judged", CLI % ("Huff", "")),
 "C23": ("TLA+ model of two runs; its interleavings forced on real runs, judged", CLI % ("Pair", "The runs are stopped and continued at every libc call on files of the scratch directory (LD_PRELOAD). ")),
 "C24": ("TLA+ meaning of command lines; all short ones replayed and judged", CLI % ("ArgForms", "")),
 "C25": ("TLA+ model of threads sharing trees; real threads' records judged by TLC",
   "Records of real threads that use the library at the same time (natively, and in Miri, which interleaves them anywhere by seed) are "
   "judged by TLC against spec/TraceLib.tla, TraceBranch.tla and TraceWeights.tla thread by thread; spec/Sharing.tla is checked "
   "exhaustively over all interleavings and its sets of calls are replayed. Schedules of the real code are sampled. Trusted: the "
   "recorder's projection, TLC."),
 "C22": ("TLA+ program state machine; kinds of errors returned judged by TLC", CLI % ("Huff", "They are made through huff::cli::process_args, whose error's kind is recorded. ")),
}
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
assert sorted(N) == sorted(props)
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py",
  "checks": [{"property": p, "quick_cmd": "python3 bin/check.py %s" % p,
              "thorough_cmd": "python3 bin/check.py %s --thorough" % p,
              "technique": N[p][0], "level": "model_checking", "level_note": N[p][1]} for p in props],
  "not_applicable": []}, open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
