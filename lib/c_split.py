"""I01: dividing the input among add calls never changes the digest."""
import harness, algos
from core import *

def check(prop, tier, seed):
    jobs = []
    shakes = [algos.shake(128, 32), algos.shake(256, 32)] + ([algos.shake(128, 400)] if tier == "thorough" else [])
    for a in [x for x in algos.A if not x.name.startswith("SHAKE")] + shakes:
        c = alg_cfg(a, I01=1, seed=seed, main="I01")
        if tier != "thorough": c["boundary"] = 1
        jobs.append(Job(a.name, harness.source(a, spec=False), c, weight=a.B * a.B * (9 if a.prop == "H03" or a.name in ("Whirlpool", "SM3") else 1)))
    for a in [algos.cshake(128, 32, 0, 0), algos.cshake(256, 32, 2, 3)] + ([algos.cshake(256, 32, 0, 0), algos.cshake(128, 32, 2, 3)] if tier == "thorough" else []):
        c = alg_cfg(a, I01=1, seed=seed, main="I01")
        if tier != "thorough": c["boundary"] = 1
        jobs.append(Job(a.name, harness.source(a, spec=False), c, weight=a.B * a.B * 9))
    t, c = harness.tuple_recorded(); c.update(main="I01", seed=seed)
    jobs.append(Job("TupleHash over a recording hash", t, c, weight=10))
    o = Outcome(prop, tier, seed)
    res = run_jobs(jobs)
    o.add_results(res)
    for r in res:
        t = r["count"].get("transitions", 0) + r["count"].get("recorded_streams_compared", 0); o.oblige(t + len(r["incomplete"]) + len(r["findings"]), t)
        for k in ("transitions", "canonical_states", "digest_states_checked", "witness_histories_compared", "cells_equal_by_random_interpretation"): o.n[k] = o.n.get(k, 0) + r["count"].get(k, 0)
    o.assumptions = ["messages of at most 2^61-1 bytes", "clang's front end translates the headers faithfully",
                     "state bytes equal under random interpretation but with different value numbers differ with probability below 2^-500"]
    return o.finish("Inductive invariant over add calls: for every number of bytes held (block count p symbolic, every remainder k) the abstract state after one add of all bytes is the canonical state; every add of r or q*B+r further bytes (q symbolic) from a canonical state must lead to the canonical state of the new total, or to one whose differing cells no digest reads.",
                    "violation: a history whose digest evaluates differently under random interpretation from that of one add of the same bytes", {k: v for k, v in o.n.items() if k not in ("obligations", "discharged")})
