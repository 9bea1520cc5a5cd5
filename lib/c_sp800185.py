"""H04: cSHAKE and TupleHash equal SP 800-185."""
import harness, algos
from core import *

def check(prop, tier, seed):
    jobs = []; thorough = tier == "thorough"
    for bits in (128, 256):
        rate = 200 - bits // 4
        def cs(d, n, c, ks=None, w=100, const=False):
            a = algos.cshake(bits, d, n, c); cfg = alg_cfg(a, H=prop, seed=seed)
            if ks: cfg["ks"] = ",".join(map(str, ks))
            if const: cfg["keyconst"] = 1
            jobs.append(Job(a.name + ("/fixed strings" if const else ""), harness.source(a), cfg, weight=w))
        edge = (0, 1, rate - 2, rate - 1)
        cs(bits // 4, 0, 0, None, 3000); cs(bits // 4, 2, 3, None, 3000)
        # prefix lengths around the end of a block, length encodings of one, two and three bytes
        for n, c in ((1, 0), (0, 1), (31, 0), (32, 0), (0, 31), (0, 32), (9, 0), (0, rate - 8), (0, rate - 7), (0, rate - 6), (rate - 7, 0), (rate // 2, rate // 2 - 8)): cs(bits // 4, n, c, edge)
        for n, c in ((1000, 31), (8191, 0), (0, 8192), (3, 2 * rate - 9)) + (((8192, 8191), (0, 40000)) if thorough else ()): cs(bits // 4, n, c, (0, 1, rate - 1), const=True)
        for d in (1, rate, rate + 1, 400) + ((2 * rate, 1000) if thorough else ()):
            cs(d, 0, 0, edge); cs(d, 4, 4, edge, 300)
        for d, c in ((bits // 4, 0), (64, 5), (31, rate - 22), (32, rate - 17)) + (((8192, 0), (rate + 1, 2)) if thorough else ()):
            a = algos.tuplehash(bits, d, c)
            sh = [(), (0,), (1,), (3, 6), (6, 3), (9,), (31, 32), (200, 0, 1), (rate - 3, rate), (rate - 2,), (rate - 1,), (2 * rate, 2)]
            if thorough: sh += [(i,) for i in range(rate)] + [(i, j) for i in (0, 1, 2) for j in range(rate - 12, rate + 2)] + [(8191, 8192)]
            t, c2 = harness.tuple_shapes(a, sh); cfg = alg_cfg(a, seed=seed, main=prop); cfg.update(c2)
            jobs.append(Job(a.name, t, cfg, weight=2000))
    t, c = harness.tuple_recorded(); c.update(main=prop, seed=seed)
    jobs.append(Job("TupleHash over a recording hash", t, c, weight=10))
    o = Outcome(prop, tier, seed)
    res = run_jobs(jobs); o.add_results(res)
    for r in res:
        c = r["count"]; n = sum(v for k, v in c.items() if k.endswith("_identical") or k.endswith("_by_random_interpretation") or k == "recorded_streams_compared")
        o.oblige(n + len(r["incomplete"]) + len(r["findings"]), n)
    o.assumptions = ["the definitions in spec/keccak.h and spec/tuple.h are the published ones", "clang's front end translates the headers faithfully", "messages of at most 2^61-1 bytes, tuple elements of at most 2^50 bytes",
                     "value pairs equal under random interpretation but with different value numbers differ with probability below 2^-500"]
    return o.finish("cSHAKE: as H03 for every message length class, with symbolic function name and customization strings of enumerated lengths (fixed contents for the longest). TupleHash: the template is analysed over a recording stand-in for cSHAKE with element and digest lengths symbolic in every range of encoded length, so the stream it passes on is left_encode, the element's own bytes, and right_encode for every length; whole digests of the real type are compared for a set of tuple shapes with symbolic contents.",
                    "violation: a digest or encoded byte whose value number evaluates differently from the reference's, another function name, or other calls on the wrapped hash")
