"""K01: constant-expression witnesses - programs that build only if construct/add/finalize/read are constant expressions with the right value."""
import os, re, json, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
import harness, algos
from core import *

MODES = [(cxx, std) for cxx in ("clang++", "g++") for std in ("c++17", "c++20")]
FLAGS = {"clang++": ["-fconstexpr-steps=2147483647", "-ferror-limit=2", "-fconstexpr-backtrace-limit=0"], "g++": ["-fconstexpr-ops-limit=4294967296", "-fconstexpr-loop-limit=100000000", "-fmax-errors=2"]}
PARTIAL = {"HAS_160"}   # its addData and finalize are not declared constexpr
KAT = os.path.join(harness.VERIF, "spec", "constexpr_kat.json")

def algs(): return [a for a in algos.A if a.header not in ("sha3.h", "cshake.h", "tuple_hash.h")]
def lengths(a, tier):
    B = max(a.B, 16) if a.name == "CRC_32" else max(a.B, 4)
    lf = 16 if B == 128 else 8
    l = {0, 1, B // 2, B - lf - 2, B - lf - 1, B - lf, B - 1, B, B + 1, 2 * B - lf - 1, 2 * B, 2 * B + 3, 3 * B + 1}
    if tier == "thorough": l |= set(range(0, 2 * B + 2)) | {5 * B - 1, 8 * B + 1}
    return sorted(x for x in l if x >= 0)
def splits(a):
    """pieces of one message: span then array, with empty pieces, over a block boundary"""
    B = max(a.B, 16) if a.name == "CRC_32" else max(a.B, 4)
    return [(1, 0, B - 1), (B - 1, B + 2), (3, 2 * B, 1), (B, B), (2, 1)]

def message(n): return bytes((i * 7 + n * 13 + (i >> 6)) & 255 for i in range(n))
CORE = r"""
#include <array>
#include <cstddef>
#include <cstdint>
%(inc)s
#include "%(header)s"
using T = %(ctype)s;
using D = T::ResultArrayType;
constexpr T::Byte KEY[16] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15};
constexpr bool eq(const D &a, const T::Byte (&b)[%(D)d]) { for (std::size_t i = 0; i < %(D)d; ++i) if (a[i] != b[i]) return false; return a.size() == %(D)d; }
template <std::size_t N> struct M { T::Byte v[N ? N : 1] = {}; };
template <std::size_t N> constexpr M<N> msg() { M<N> m; for (std::size_t i = 0; i < N; ++i) m.v[i] = static_cast<T::Byte>((i * 7 + N * 13 + (i >> 6)) & 255); return m; }
#define MAKE T h%(ctor)s
// one span
template <std::size_t N> constexpr D one() { const M<N> m = msg<N>(); MAKE; h.addData(T::Span<const T::Byte>(m.v, N)); h.finalize(); return h.toArray(); }
// one array; the calls chained; after a reset
template <std::size_t N> constexpr D arr() { const M<N> m = msg<N>(); MAKE; h.addData(m.v).finalize(); h.reset(); h.addData(m.v); return h.finalize().toArray(); }
// pieces
template <std::size_t N> constexpr D pieces(std::size_t a, std::size_t b) { const M<N> m = msg<N>(); MAKE; h.addData(T::Span<const T::Byte>(m.v, a)); h.addData(T::Span<const T::Byte>(m.v + a, b)); T c(h); c.addData(T::Span<const T::Byte>(m.v + a + b, N - a - b)); c.finalize(); return c.toArray(); }
constexpr bool same() { MAKE; const T x(h); return x == h && !(x != h); }
template <std::size_t N> constexpr std::uint8_t low() { const M<N> m = msg<N>(); MAKE; h.addData(T::Span<const T::Byte>(m.v, N)); h.finalize(); return static_cast<std::uint8_t>(h); }
"""
def ctor(a): return "(T::Span<const T::Byte>(KEY, 16))" if a.name == "SipHash" else "%s" % ("{}" if not a.ctor else "{%s}" % a.ctor)

def core(a): return CORE % dict(inc=a.includes, header=a.header, ctype=a.ctype, D=a.D, ctor=ctor(a))
def lit(b): return "{" + ",".join(map(str, b)) + "}"
def witnesses(a, tier, kat):
    """(what it shows, text)"""
    w = []
    k = kat[a.name]
    w.append(("construction, copy and comparison", "constexpr T made%s;\nstatic_assert(same(), \"\");" % ctor(a)))
    if a.name in PARTIAL: return w
    for n in lengths(a, tier):
        if str(n) not in k: continue
        e = lit(bytes.fromhex(k[str(n)]))
        w.append(("%d bytes in one span" % n, 'constexpr T::Byte e%d[] = %s; static_assert(eq(one<%d>(), e%d), "value of one<%d>");' % (n, e, n, n, n)))
        if n: w.append(("%d bytes as an array, twice with a reset in between" % n, 'constexpr T::Byte f%d[] = %s; static_assert(eq(arr<%d>(), f%d), "value of arr<%d>");' % (n, e, n, n, n)))
    for p in splits(a):
        n = sum(p); x = p[0]; y = p[1] if len(p) > 2 else 0
        if str(n) not in k: continue
        w.append(("%d bytes in pieces of %d, %d and %d, copied before the last" % (n, x, y, n - x - y), 'constexpr T::Byte g%d_%d[] = %s; static_assert(eq(pieces<%d>(%d, %d), g%d_%d), "value of pieces<%d>");' % (n, x, lit(bytes.fromhex(k[str(n)])), n, x, y, n, x, n)))
    n = a.B + 1 if str(a.B + 1) in k else 1
    if str(n) in k: w.append(("conversion to an integer", 'static_assert(low<%d>() == %d, "value of low");' % (n, bytes.fromhex(k[str(n)])[0])))
    return w

def build(cxx, std, text, work, tag):
    src = os.path.join(work, tag + ".cpp")
    open(src, "w").write(text)
    p = subprocess.run([cxx, "-std=" + std, "-fsyntax-only", "-w"] + FLAGS[cxx] + ["-I" + os.path.join(harness.REPO, "src"), src], capture_output=True, text=True, timeout=600)
    return p.returncode, p.stderr
def reason(err):
    ls = [l for l in err.splitlines() if re.search(r"error:|note: non-constexpr|note: (read|subexpression|cast|function|undefined)|is not a constant|call to non", l)]
    return " | ".join(re.sub(r"^\S*/(src/)?", "", l)[:220] for l in ls[:3]) or err[:300]

def check(prop, tier, seed):
    kat = json.load(open(KAT))
    o = Outcome(prop, tier, seed)
    work = tempfile.mkdtemp(prefix="hashan.")
    total = [0]
    def unit(x):
        a, cxx, std = x; t = time.time(); tag = re.sub(r"\W", "_", "%s_%s_%s" % (a.name, cxx, std))
        ws = witnesses(a, tier, kat)
        r = dict(name="%s %s -std=%s" % (a.name, cxx, std), n=len(ws), bad=[], none=None)
        rc, err = build(cxx, std, core(a) + "\n".join(t for _, t in ws) + "\n", work, tag)
        if rc:
            rc0, err0 = build(cxx, std, '%s\n#include "%s"\nint main() {}\n' % (a.includes, a.header), work, tag)
            if rc0: r["none"] = err0[:800]
            else:
                # which witnesses fail
                def one(w): return w[0], build(cxx, std, core(a) + w[1] + "\n", work, tag)
                for w in ws:
                    if time.time() > DEADLINE[0] or len(r["bad"]) >= 3: break
                    what, (rc1, err1) = one(w)
                    if rc1: r["bad"].append((what, reason(err1)))
                if not r["bad"]: r["bad"].append(("all witnesses together", reason(err)))
        r["wall"] = round(time.time() - t, 2)
        return r
    try:
        with ThreadPoolExecutor(WORKERS) as ex: res = list(ex.map(unit, sorted([(a, c, s) for a in algs() for c, s in MODES], key=lambda x: -x[0].B)))
    finally: shutil.rmtree(work, ignore_errors=True)
    # a wrong value is this property's only if the run-time code is right: a hasher wrong at run time too is H01-H07's
    isval = lambda why: "static assertion failed" in why and "constant" not in why
    vals = sorted({r["name"].split()[0] for r in res if any(isval(w) for _, w in r["bad"])})
    wrong = set()
    if vals:
        byname = {a.name: a for a in algs()}
        jobs = [Job(n, harness.source(byname[n]), alg_cfg(byname[n], H="K01", main="K01", seed=seed), std="c++17") for n in vals]
        wrong = {r["name"] for r in run_jobs(jobs) if any(f["prop"] == "K01" for f in r["findings"])}
    for r in res:
        if r["name"].split()[0] in wrong:
            if any(isval(w) for _, w in r["bad"]): o.undecided.append("%s: deviates from its definition at run time too; values not compared" % r["name"])
            r["bad"] = [x for x in r["bad"] if not isval(x[1])]
    for r in res:
        if r["none"]: o.noanswer.append("%s: the header does not compile: %s" % (r["name"], r["none"])); continue
        for what, why in r["bad"]: o.find(r["name"], "%s is not a constant expression with the run-time value: %s" % (what, why), "", "constexpr")
        o.oblige(r["n"], r["n"] - len(r["bad"]))
        o.instances.append(dict(name=r["name"], wall_s=r["wall"], witnesses=r["n"]))
    o.assumptions = ["the expected values in spec/constexpr_kat.json are the run-time digests (the run-time code is compared with the definitions by H01-H07)"]
    return o.finish("For every hasher whose interface is declared constexpr, witness programs for both compilers in C++17 and C++20 require construction, adding spans, arrays and pieces of every padding class, finalizing, resetting, copying, comparing and reading the digest to be constant expressions of the right value; a witness that does not build is the violation, with the compiler's reason.",
                    "violation: a witness that does not build although the header itself does", dict(compilers_and_modes=["%s -std=%s" % m for m in MODES]))

def generate():
    """development-time: writes the expected values (natively computed) to spec/constexpr_kat.json"""
    kat = {}
    for a in algs():
        ns = sorted(set(lengths(a, "thorough")) | {sum(p) for p in splits(a)} | {a.B + 1})
        t = core(a) + "#include <cstdio>\nint main() { std::size_t ns[] = {%s}; for (auto n : ns) { T::Byte m[4096]; for (std::size_t i = 0; i < n; ++i) m[i] = (T::Byte)((i * 7 + n * 13 + (i >> 6)) & 255); MAKE; h.addData(T::Span<const T::Byte>(m, n)); h.finalize(); std::printf(\"%%zu %%s\\n\", n, h.toString().c_str()); } }\n" % ",".join(map(str, ns))
        open("/tmp/w/k/g.cpp", "w").write(t)
        subprocess.check_call(["g++", "-std=c++17", "-O1", "-w", "-I" + os.path.join(harness.REPO, "src"), "/tmp/w/k/g.cpp", "-o", "/tmp/w/k/g"])
        kat[a.name] = dict(l.split() for l in subprocess.check_output(["/tmp/w/k/g"], text=True).splitlines())
    with open(KAT, "w") as f: f.write("{\n" + ",\n".join('"%s": %s' % (n, json.dumps(v)) for n, v in kat.items()) + "\n}\n")
