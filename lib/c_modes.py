"""C01: the digest does not depend on language mode, assertions, span implementation or the headers included before."""
import os, re, glob
import harness, algos
from core import *
import harness

MODES = [("c++14", "c++14", []), ("c++14 NDEBUG", "c++14", ["-DNDEBUG"]), ("c++17", "c++17", []), ("c++17 NDEBUG", "c++17", ["-DNDEBUG"]),
         ("c++20", "c++20", []), ("c++20 NDEBUG", "c++20", ["-DNDEBUG"]), ("c++20 bundled span", "c++20", ["-DUSE_STD_SPAN_CHOCOBO1_HASH=0"])]

def headers(): return sorted(os.path.basename(f) for f in glob.glob(os.path.join(harness.REPO, "src", "*.h")))

TOK = re.compile(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d[\w.]*|[^\s\w]', re.S)
def shared_blocks():
    """macro -> {token text of the guarded block: [headers that carry it]} for the blocks guarded by the same macro in several headers"""
    r = {}
    for h in headers():
        lines = open(os.path.join(harness.REPO, "src", h), errors="replace").read().replace("\\\n", " ").split("\n")
        st = []
        for i, l in enumerate(lines):
            m = re.match(r"\s*#\s*(ifndef|ifdef|if|endif)\b\s*(\w*)", l)
            if not m: continue
            if m.group(1) == "endif":
                if not st: continue
                k, name, at = st.pop()
                if k == "ifndef" and name and re.search(r"#\s*define\s+%s\b" % name, "\n".join(lines[at:i])):
                    t = " ".join(x for x in TOK.findall("\n".join(lines[at + 1:i])) if not x.startswith(("//", "/*")))
                    r.setdefault(name, {}).setdefault(t, []).append(h)
            else: st.append((m.group(1), m.group(2), i))
    return {k: v for k, v in r.items() if sum(map(len, v.values())) > 1}

def orders():
    """lists of headers to include before the analysed one: every variant of every shared block comes first in one of them"""
    hs = headers(); os_ = [("after all headers", hs), ("after all headers in reverse order", hs[::-1])]
    first = lambda order, who, h0: next((h for h in order if h in who), None)
    blocks = shared_blocks()
    covered = lambda var, allh: any(first(o, allh, None) in var for _, o in os_)
    for name, vs in sorted(blocks.items()):
        allh = {h for v in vs.values() for h in v}
        for t, var in vs.items():
            if not covered(set(var), allh): os_.append(("after all headers, %s first" % var[0], [var[0]] + [h for h in hs if h != var[0]]))
    return os_, blocks

def algs(tier):
    r = [a for a in algos.A if not a.name.startswith("SHAKE")]
    r += [algos.shake(128, 200), algos.shake(256, 32), algos.cshake(128, 32, 2, 3), algos.cshake(256, 32, 0, 0)]
    return r

def ks_for(a, tier):
    if tier == "thorough": return None
    B = a.B
    if B < 16: return None
    lf = 16 if B == 128 else 8
    return sorted({0, 1, B // 2, B - lf - 1, B - lf, B - 2, B - 1})

def check(prop, tier, seed):
    os_, blocks = orders()
    variants = [(n, std, extra, []) for n, std, extra in MODES] + [("c++14 " + n, "c++14", [], o) for n, o in os_] + [("c++20 " + n, "c++20", [], o) for n, o in os_[:1]]
    jobs, key = [], []
    for a in algs(tier):
        for n, std, extra, order in variants:
            c = alg_cfg(a, H="C01", O01=1, main="C01", seed=seed)
            ks = ks_for(a, tier)
            if ks: c["ks"] = ",".join(map(str, ks))
            pre = "".join('#include "%s"\n' % h for h in order if h != a.header)
            ops = harness.ops(a)
            jobs.append(Job("%s [%s]" % (a.name, n), harness.source(a, pre=pre, extra="}\n" + ops + 'extern "C" {'), c, std=std, extra=extra, weight=a.B * (9 if a.prop in ("H03", "H04") or a.name in ("Whirlpool", "SM3") else 1)))
            key.append((a.name, n))
    o = Outcome(prop, tier, seed)
    res = run_jobs(jobs)
    by = {}
    for k, r in zip(key, res): by.setdefault(k[0], []).append((k[1], r))
    for r in res: r["findings"] = [dict(f, prop=prop) for f in r["findings"] if f["prop"] in ("C01", "O01", "H01")]
    for name, rs in by.items():
        ok = [n for n, r in rs if not r["findings"] and not r["compile_error"]]; bad = [n for n, r in rs if r["findings"]]
        if bad and not ok:
            for n, r in rs: r["findings"] = []
            o.undecided.append("%s: deviates from its definition in every mode; modes not compared with each other" % name)
        for n, r in rs:
            if n in bad:
                for f in r["findings"][:2]: o.find(r["name"], f["msg"] + " (not so in: %s)" % ", ".join(ok[:3]), f["where"], f["kind"])
            r["findings"] = []
            c = r["count"]; d = sum(v for k, v in c.items() if k.endswith(("_bytes_identical", "_bytes_by_random_interpretation")) or k == "output_bytes")
            o.oblige(d + len(r["incomplete"]) + (n in bad), d)
    o.add_results(res)
    o.assumptions = ["clang's front end translates the headers faithfully in every mode", "a shared block that is token-identical in two headers means the same in both"]
    return o.finish("Every hasher is analysed as for H01-H07 and O01 in each language mode (C++14/17/20, with and without NDEBUG, standard and bundled span) and after all other headers in orders that let every variant of every block shared between headers be the one that is used.",
                    "violation: a digest or output value that agrees with the definition in one mode and evaluates differently in another",
                    dict(modes=[v[0] for v in variants], shared_blocks={k: len(v) for k, v in blocks.items()}))
