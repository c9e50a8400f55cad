#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (run by hand after editing it).
import json
REF = "path-sensitive dataflow summaries (gated SSA with BDD guards) compared with a reference function by clause subsumption and induction over loops"
REFNOTE = "All inputs and states of any size; no execution and no solver. Calls of the standard library are axiomatised or uninterpreted; an undecided comparison is an alarm."
CHECKS = {
 **{p: (REF, "other", REFNOTE) for p in "C01 C02 C03 C04 C05 C06 C07 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26".split()},
 "C08": ("lock-set, lock-state and lock-order dataflow over the inlined program (gated SSA)", "other",
         "Decides the locking discipline that makes concurrent use race-free; scheduling itself is not explored."),
 "C09": ("typestate of pooled objects and taint of their leftovers over the inlined program", "other",
         "Every public operation that reaches a pool is analysed, for all inputs and earlier uses."),
 "C27": ("abstract interpretation of the code and a reference side by side over a domain of characters, summarised runs and symbolic positions (list segments), to a fixpoint", "other",
         "All pairs of strings of any length; no execution and no solver. Bytes are distinguished as far as the two functions mention them; an operation the domain does not follow is an alarm."),
}
NA = {}
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": p, "quick_cmd": f"bash check.sh {p}", "thorough_cmd": f"bash check.sh {p}", "technique": t, "level": l, "level_note": n} for p, (t, l, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
