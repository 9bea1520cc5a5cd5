"""H01-H03, H05-H07: the digest of every message equals the published definition (value-number equality with spec/*.h)."""
import harness, algos
from core import *

def digest_jobs(prop, tier, seed):
    jobs = []
    for a in algos.A:
        if a.prop != prop or a.name.startswith("SHAKE"): continue
        jobs.append(Job(a.name, harness.source(a), alg_cfg(a, H=prop, seed=seed), weight=a.B * (9 if a.prop == "H03" or a.name in ("Whirlpool", "SM3") else 1)))
    if prop == "H03":
        for bits in (128, 256):
            rate = 200 - bits // 4
            def j(d, ks=None, w=1):
                a = algos.shake(bits, d)
                c = alg_cfg(a, H=prop, seed=seed)
                if ks: c["ks"] = ",".join(map(str, ks))
                jobs.append(Job(a.name + ("" if ks is None else "@" + c["ks"]), harness.source(a), c, weight=w))
            if tier == "thorough":
                for d in (32, 400): j(d, None, 9000 if d == 400 else 3000)
                for d in sorted({1, 2, 7, 8, 9, 64, rate - 1, rate, rate + 1, rate + 8, 2 * rate - 1, 2 * rate, 2 * rate + 1, 3 * rate, 512, 1000}): j(d, (0, 1, rate // 2, rate - 2, rate - 1), 100)
            else:
                j(bits // 4, None, 3000)
                for d in (1, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1, 400): j(d, (0, 1, rate - 1), 300)
    return jobs

def check(prop, tier, seed):
    o = Outcome(prop, tier, seed)
    res = run_jobs(digest_jobs(prop, tier, seed))
    o.add_results(res)
    for r in res:
        c = r["count"]
        ident = sum(v for k, v in c.items() if k.endswith("_bytes_identical")); rnd = sum(v for k, v in c.items() if k.endswith("_bytes_by_random_interpretation"))
        n = ident + rnd + len(r["incomplete"]) + len(r["findings"])
        o.oblige(n, ident + rnd)
        o.n["identical_value_number"] = o.n.get("identical_value_number", 0) + ident; o.n["equal_by_random_interpretation"] = o.n.get("equal_by_random_interpretation", 0) + rnd
    o.assumptions = ["the definitions in spec/*.h are the published ones (each was compared with independent implementations or published vectors while developing)",
                     "clang's front end translates the headers faithfully", "messages of at most 2^61-1 bytes; sequences of more than one add call reduce to one call by I01",
                     "value pairs equal under random interpretation but with different value numbers differ with probability below 2^-500"]
    return o.finish("Abstract interpretation with global value numbering of construct/add/finalize/read over a symbolic message of every length class (n blocks + k bytes, every k, n = 0 and n >= 1 symbolic); chaining values after n blocks are related to the reference by induction over the block step; digest bytes must have the value number of the reference definition.",
                    "violation: a state or digest byte whose value number evaluates differently from the reference's under random interpretation", {"identical_value_number": o.n.get("identical_value_number", 0), "equal_by_random_interpretation": o.n.get("equal_by_random_interpretation", 0)})
