"""P01: the digest on big-endian and 32-bit targets and for any input alignment."""
import os
import harness, algos
from core import *
from c_modes import ks_for

SHIM = os.path.join(VERIF, "lib", "shim")
SYS = ["-nostdinc++", "-isystem", SHIM, "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include", "-D__regparm__(x)="]
def target(t): return ["--target=" + t] + SYS
HOST = ("64-bit little-endian", "c++14", [])
QUICK = [("64-bit big-endian", "c++14", target("powerpc64-linux-gnu")), ("32-bit little-endian", "c++14", target("i386-linux-gnu")), ("32-bit big-endian", "c++20", target("powerpc-linux-gnu"))]
MORE = [("s390x", "c++20", target("s390x-linux-gnu")), ("aarch64 big-endian", "c++17", target("aarch64_be-linux-gnu")), ("armv7", "c++14", target("armv7-linux-gnueabihf")), ("mips", "c++14", target("mips-linux-gnu")),
        ("powerpc64 c++20", "c++20", target("powerpc64-linux-gnu")), ("i386 c++20", "c++20", target("i386-linux-gnu"))]

def algs(tier):
    r = [a for a in algos.A if not a.name.startswith("SHAKE")]
    r += [algos.shake(128, 200), algos.shake(256, 32), algos.cshake(128, 32, 2, 3), algos.cshake(256, 32, 0, 0)]
    return r

def check(prop, tier, seed):
    targets = QUICK + (MORE if tier == "thorough" else [])
    jobs, key = [], []
    for a in algs(tier):
        for n, std, tg in [HOST] + targets:
            c = alg_cfg(a, H="P01", O01=1, main="P01", seed=seed)
            ks = ks_for(a, tier)
            if ks: c["ks"] = ",".join(map(str, ks))
            heavy = a.prop in ("H03", "H04") or a.name in ("Whirlpool", "SM3", "MD2")
            jobs.append(Job("%s [%s]" % (a.name, n), harness.source(a, extra="}\n" + harness.ops(a) + 'extern "C" {'), c, std=std, target=tg, weight=a.B * (9 if heavy else 1)))
            key.append((a.name, n))
    o = Outcome(prop, tier, seed)
    res = run_jobs(jobs)
    by = {}
    for k, r in zip(key, res): by.setdefault(k[0], []).append((k[1], r))
    nalign = 0
    for name, rs in by.items():
        host = rs[0][1]
        wrong = lambda r: [f for f in r["findings"] if f["prop"] in ("P01", "O01", "H01")]
        align = lambda r: [f for f in r["findings"] if f["prop"] == "M01" and f["kind"] == "align"]
        memory = lambda r: [f for f in r["findings"] if f["prop"] == "M01" and f["kind"] != "align"]
        hostwrong, hostmem = wrong(host), memory(host)
        if hostwrong: o.undecided.append("%s: deviates from its definition on the usual target; targets not compared with it" % name)
        for i, (n, r) in enumerate(rs):
            if r["compile_error"] and not host["compile_error"] and i:
                o.undecided.append("%s: does not compile for %s with the host's C++ library: %s" % (name, n, r["compile_error"][-300:])); r["compile_error"] = None; continue
            for f in align(r)[:2]: o.find(r["name"], f["msg"], f["where"], f["kind"])
            if i and not hostwrong:
                for f in wrong(r)[:2]: o.find(r["name"], f["msg"] + " (not so on the usual 64-bit little-endian target)", f["where"], f["kind"])
            if i and not hostmem and not hostwrong:
                for f in memory(r)[:1]: o.find(r["name"], f["msg"] + " (not so on the usual 64-bit little-endian target)", f["where"], f["kind"])
            bad = len(r["findings"]); r["findings"] = []
            c = r["count"]; d = sum(v for k, v in c.items() if k.endswith(("_bytes_identical", "_bytes_by_random_interpretation")) or k == "output_bytes")
            o.oblige(d + len(r["incomplete"]) + bad, d)
    o.add_results(res)
    o.assumptions = ["clang's front end lays out and lowers code for each target as that target's compilers do", "the C++ library's headers of this machine stand in for the target's",
                     "messages of at most 2^61-1 bytes (2^30 bytes in one call on 32-bit targets)", "values equal under random interpretation but with different value numbers differ with probability below 2^-500"]
    return o.finish("Every hasher is compiled to the intermediate representation of big-endian and 32-bit targets and analysed there as for H01-H07 and O01: memory is laid out in the target's byte order and word size, and the message is a "
                    "sequence of unknown bytes at an address with no known alignment. Every access that the compiler is allowed to assume is aligned is checked against what is known of its object's alignment.",
                    "violation: a digest or output value that agrees with the definition on x86-64 and evaluates differently on another target, or an access to the input (or to a member) that assumes more alignment than it has",
                    dict(targets=[t[0] for t in [HOST] + targets]))
