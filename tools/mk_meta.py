#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, CS, EC, B, U = "src/generic.rs", "src/cycle_safe.rs", "src/generic/equiv_classes.rs", "src/basic.rs", "src/utils.rs"
DS, WS, RO, LI, LA = "src/deep_safe.rs", "src/wide_safe.rs", "src/robust.rs", "src/lib.rs", "src/like_anticipated.rs"
RN = "src/cycle_safe/modes/interleave/random/mod.rs"
RNGS = ["src/cycle_safe/modes/interleave/random/" + x for x in ("mod.rs", "wyrng.rs", "oorandom.rs", "fastrand.rs")]
M_MAIN = ("Equiv::equiv and Equiv::equiv_main", G)
M_ITER = ("EdgesIter::get_next", G)
M_INT = ("Interleave::do_edges", CS)
M_UF = ("EquivClasses::same_class, Class::get_rep_and_weight", EC)
M_LAZY = ("LazierIterator::next over LazyVecQueue/LazyVecStack", U)
M_LIM = ("Limited::do_traverse", B)
M_CALL = ("CallStack::recur", B)
M_PRE = ("precheck_interleave::equiv, Equiv::from", G)

P = []
def prop(id, title, st, over, q, why, files, mech, observe, technique, note, claimed=True, level="exploration", na=None):
    P.append(dict(id=id, title=title, st=st, over=over, q=q, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note, claimed=claimed, level=level, na=na))

exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["st"],
            "quantifier": {"over": p["over"], "text": p["q"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"], "level": p["level"], "level_note": p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if not p["claimed"]],
    "notes": "No hooks in /repo: every monitor observes through the crate's public traits (Node, Id, Cmp, Index, Table, Rc, RNG, RecurMode, DescendMode), a counting allocator and the stack pointer.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
