#!/usr/bin/env python3
"""Writes MANIFEST.json from the list below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC = "explicit-state exploration of a reference machine for B, every run replayed on compiled code"
checks = [
 ("P01", MC, "model_checking", "All operator trees up to 4 operators with all operand values of boundary domains, at -O0 and -O2. Trusts the reference interpreter, clang's back end and the C replay driver."),
 ("P02", MC, "model_checking", "All assignment/increment forms over all lvalue shapes to a bounded depth; every cell is compared after each run."),
 ("P03", MC, "model_checking", "All function bodies up to a bounded number of statements, every sequence of condition outcomes up to the trace bound."),
 ("P04", MC, "model_checking", "All declaration shapes, sizes and access forms within bounds, with full dumps of the words."),
 ("P05", MC, "model_checking", "All argument counts and callee kinds within bounds, nested and recursive calls."),
 ("P06", MC, "model_checking", "All bytes and byte pairs in literals, all boundary numbers, in every literal position."),
 ("P07", "exhaustive enumeration of layouts (separator insertions at every token boundary) compared with the canonical layout", "exploration", "Every single and pair of separator choices at every boundary of a corpus, all short token sequences, on the real front end."),
 ("P08", "exhaustive enumeration of short inputs and of all single mutations of a corpus on the real compiler", "exploration", "All token sequences, byte strings, truncations and mutations within bounds, each compiled in process twice; violations confirmed with the real command."),
 ("P09", "exhaustive enumeration of programs, each emitted module judged by LLVM's verifier and code generator", "exploration", "All statement and definition sequences within bounds; the judge is LLVM 18 itself."),
 ("P10", "explicit-state exploration of the reference machine, replayed through every optimization level, debug flag and output route", "model_checking", "All programs of the bounded families at -O0..-O3 with and without -g through executable, -c, -S, --emit-llvm and tool chain routes."),
 ("P11", "exhaustive enumeration of command lines against a model of the driver; each transition replayed on the real command with recording tools", "model_checking", "All option/input sequences within bounds; files, arguments, status and leftovers compared with the driver model."),
 ("P12", "exhaustive fault injection: every system call of every scenario fails once, every tool failure mode", "fault_enumeration", "strace fault injection at every I/O call of each scenario; a run must either complete with the right files or fail with a status and a message."),
 ("P13", "explicit-state exploration of compile histories in one process, against isolated compilation", "model_checking", "All sequences of files within bounds through one process, compared byte for byte with separate compilation."),
 ("P14", "explicit-state exploration of the reference machine, replayed on every ordered partition of the definitions into files", "model_checking", "All ordered partitions of 4-5 definitions and the input kinds, each linked by the command and run."),
 ("P15", "explicit-state exploration of a symbol-table machine; every program of the space translated and its verdict compared, accepted programs run against the reference machine", "model_checking", "All sequences of declarations and uses of a name over up to three (four for the short list) top-level elements, all label and case sequences within bounds."),
 ("P16", "exhaustive replay of a reference output machine's call sequences on the real runtime library", "model_checking", "All formats up to length 7 over the conversion alphabet, all boundary values, all stream histories of six calls; both streams compared byte for byte."),
 ("P17", "exhaustive replay of a reference input machine's histories on the real runtime library", "model_checking", "All histories of seven arrivals and reads, all short streams, all byte positions and values; results and surrounding memory compared."),
 ("P19", "exhaustive enumeration of token sequences in every syntactic context and of all edits of a corpus; every verdict of the real front end compared with a reference recognizer's", "exploration", "All token sequences up to length 4 to 7 in 38 contexts, all single-token edits of the corpus, all pairs of edits of small programs; violations confirmed with the real command."),
 ("P20", "stateless exploration with dynamic partial-order reduction of the real commands under a controlled scheduler; exhaustive crash points and command histories", "model_checking", "All classes of interleavings of the file operations of all pairs (and a core of triples) of 60 command forms; every interruption point followed by a repetition; all histories of two (a core of three) commands. The tool chain is a stand-in whose output depends on its inputs."),
 ("P21", "explicit-state exploration of the reference machine, replayed in executables for 64-bit ARM and RISC-V run by an instruction interpreter", "model_checking", "Every n-th program of the enumerations of P01 to P06 with all its runs, and whole programs over the argument domains of every run-time routine, at each optimization level on both processors. macOS and instructions the interpreter does not know are not covered."),
 ("P18", "explicit-state exploration of a command machine replayed in real executables linked by the compiler", "model_checking", "All command sequences within bounds, all statuses, shapes of main, argument and environment counts; status, output and stack alignment compared."),
]
done = {c[0] for c in checks}
m = {"version": 1, "setup_cmd": "bash setup.sh",
 "checks": [{"property": p, "quick_cmd": "bash run.sh " + p, "thorough_cmd": "VERIF_TIER=thorough bash run.sh %s thorough" % p,
   "evidence_file": "evidence/%s.json" % p, "technique": t, "level": l, "level_note": n} for p, t, l, n in checks],
 "not_applicable": [],
 "notes": "No hooks are committed in /repo: the in-process worker is added with go build -overlay."}
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in done:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
