#!/usr/bin/env python3
"""Writes MANIFEST.json"""
import json, os
T = {
 "C01": "stateful property-based testing: generated histories of transactions against an executable reference model of the documented commit order",
 "C02": "stateful property-based testing: generated histories and concurrent threads against a set of all indices ever handed out",
 "C03": "stateful property-based testing: generated redirections (both forms, chains, cycles) against the reference model; ablation of the redirections attributes failures",
 "C04": "stateful property-based testing: generated removals (existing, same-transaction, reserved) against the reference model, no dangling link",
 "C05": "stateful property-based testing: metamorphic probes (redirect or remove every node and compare all its incoming links with a full scan) plus the built-in back-link check",
 "C06": "stateful property-based testing on generated bidirectional declarations: symmetry invariant after every commit",
 "C07": "stateful property-based testing on generated bidirectional declarations against a fixpoint model of exactly which opposite links appear, vanish or are refused",
 "C08": "stateful property-based testing on generated annotated declarations: accept/reject against the expanded annotations",
 "C09": "stateful property-based testing: differential comparison of every read access path with each other and the model",
 "C10": "stateful property-based testing: interleaved transactions, all graphs compared after every recorded call; serial execution as metamorphic partner",
 "C11": "property-based testing: random nodes of generated declarations, reflection answers against the declaration",
 "C12": "stateful property-based testing: serialization round trips through several formats inside histories",
 "C13": "stateful property-based testing: switch_context inside histories, isomorphism oracle",
 "C14": "stateful property-based testing: merges inside histories against the reference model",
 "C15": "stateful property-based testing: user checks that log and fail on generated items, against the model's difference of before and after",
 "C16": "stateful property-based testing with injected malformed calls at generated points of histories: rejected, and graph unchanged where promised",
 "C17": "differential property-based testing: the same generated histories in a build with and one without the debug feature",
 "C18": "differential property-based testing: declarations with groups against generated twins with every group written out",
 "C19": "stateful property-based testing: logged closures in histories, multiset of runs against the model; is_empty against the model",
 "C20": "property-based testing of the macros and types: generated well-formed programs, and the same with one generated fault, each compiled; the compiler must accept the former and reject the latter; shrunk by removing parts",
 "C21": "stateful property-based testing: integrity checks at generated points of histories with internal and external links, against a scan of all nodes read from the graph",
 "C22": "stateful property-based testing: operation sequences on node arenas of generated declarations against a map, all views compared after every operation",
 "C23": "property-based testing: sequences of link edits on random nodes of generated declarations against the declared fields, all link queries compared after every edit",
 "C24": "differential property-based testing: the same generated histories in a build with and one without debug assertions",
 "C25": "stateful property-based testing: nodes and closures count their copies; after every call of a history the counts are compared with what graphs and open transactions hold in the reference model",
}
NOTE = "Sampled: {} generated cases per quick run over about 40 generated declarations and twins, ten or more times that and three further sets of declarations in the thorough run; nothing is exhaustive. Failures are shrunk to a minimal history (replays/)."
NOTE20 = "Sampled: 264 pairs of programs (well-formed, with one fault) of 33 kinds of fault per quick run, 15 times that in the thorough run; not exhaustive. A failure is shrunk by removing parts of the program (replays/)."
checks = []
for k in sorted(T):
    checks.append({"property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
                   "technique": T[k], "level": "exploration", "level_note": NOTE.format("6,000 to 32,000") if k != "C20" else NOTE20})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": []}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
open(p, "a").write("\n")
