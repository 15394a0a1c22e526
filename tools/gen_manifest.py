#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; keeps it in step with properties.jsonl."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
TRACE = "TLA+ model checked with TLC; recorded traces of the real code checked against it by TLC"
GEN = "TLA+ model checked with TLC; behaviours generated from it replayed into the real code"
DYN = ("All behaviours of the design model within the stated bounds satisfy the property; "
       "seeded histories of the real index, with every observable recorded after every call, "
       "are accepted or rejected by the trace specification. Histories are sampled; vectors "
       "have small integer components so that distances are exact.")
BUF = ("The buffer algorithms refine the abstract rule for every sequence of operations over small "
       "universes of candidates (TLC, exhaustive); distinct steps of the real buffers, from a bounded "
       "exhaustive enumeration and from long random runs, are each checked against the same rule.")
OPS = ("The specification computes the result of every recorded call from its arguments and the real "
       "result must be equal; design models over all small instances show that the computed results "
       "have the stated properties. Inputs to the real code are sampled (pruning also enumerated on "
       "small arrangements); components are small integers so that distances are exact.")
THR = ("Design models with liveness (TLC, exhaustive within the stated bounds); the real classes run "
       "under a controlled scheduler that replaces the standard synchronisation types, schedules being "
       "enumerated up to a preemption bound for small plans and sampled for larger ones; each distinct "
       "execution is checked, including happens-before computed from the recorded memory orders.")
CORE = ("Design model checked exhaustively within the stated bounds; seeded histories of calls on the real "
        "code, with everything read back after each call, are accepted or rejected by the trace "
        "specification. Inputs to the real code are sampled.")
CLAIMED = {
    "C19": (TRACE, CORE), "C20": (TRACE, CORE),
    "C09": (TRACE, CORE), "C24": (TRACE, CORE),
    "C27": (TRACE, CORE), "C28": (TRACE, CORE),
    "C29": (TRACE, CORE), "C30": (TRACE, CORE),
    "C23": (TRACE, CORE), "C25": (TRACE, CORE), "C26": (TRACE, CORE),
    "C15": (TRACE, CORE + " Saves are stopped, or their writes refused, at sampled points of their "
            "calls and bytes; a loss of power, which loses writes already made, is not considered."),
    "C16": (TRACE, CORE + " Saves are stopped, or their writes refused, at sampled points of their "
            "calls and bytes; a loss of power, which loses writes already made, is not considered."),
    "C17": (TRACE, CORE), "C18": (TRACE, CORE), "C21": (TRACE, CORE),
    "C06": (TRACE, THR), "C07": (TRACE, THR), "C22": (TRACE, THR),
    "C08": (TRACE, THR + " Static splits are enumerated for small sizes and sampled up to 2^62."),
    "C01": (TRACE, DYN), "C02": (TRACE, DYN), "C03": (TRACE, DYN), "C04": (TRACE, DYN),
    "C05": (TRACE, DYN),
    "C10": (TRACE, BUF), "C11": (TRACE, BUF),
    "C12": (TRACE, OPS), "C13": (TRACE, OPS), "C14": (TRACE, OPS),
}
try:
    from manifest_more import MORE
    CLAIMED.update(MORE)
except ImportError:
    pass
HOOKS = {"guard": "SVS_VERIF_HOOKS", "enable": "the checks compile their drivers against /repo/include with -DSVS_VERIF_HOOKS=1",
         "source_commits": []}
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'",
     "hooks": HOOKS,
     "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        m["checks"].append({"property": p, "quick_cmd": "./check %s quick" % p,
                            "thorough_cmd": "./check %s thorough" % p,
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
