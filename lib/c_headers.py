"""X01: every header stands alone, combines with every other, and defines nothing outside the library's names."""
import os, re, subprocess, tempfile, shutil, time, itertools
from concurrent.futures import ThreadPoolExecutor
import harness, algos
from core import *
SRC = os.path.join(harness.REPO, "src")
MODES = [(c, s) for c in ("g++", "clang++") for s in ("c++14", "c++17", "c++20")]
def headers(): return sorted(f for f in os.listdir(SRC) if f.endswith(".h"))
def types():
    return list(algos.A) + [algos.cshake(128, 32, 0, 0), algos.tuplehash(256, 32, 0)]

USE = r"""
namespace vx_use {
template <class X> auto arr(const X &h, int) -> decltype(h.toArray(), 0) { const auto a = h.toArray(); return static_cast<int>(a[0]); }
template <class X> int arr(const X &, long) { return 0; }
template <class X> auto in(X &h, const void *p, int) -> decltype(h.nextData(p, 1), 0)
{
	unsigned char b[3] = {}; unsigned w[3] = {};
	h.nextData(p, 3); h.nextData(b); h.nextData(w); h.nextData(typename X::template Span<const unsigned char>(b, 3)); h.nextData(typename X::template Span<unsigned>(w, 3)); return 0;
}
template <class X> int in(X &h, const void *p, long)
{
	unsigned char b[3] = {}; unsigned w[3] = {};
	h.addData(p, 3); h.addData(b); h.addData(w); h.addData(typename X::template Span<const unsigned char>(b, 3)); h.addData(typename X::template Span<unsigned>(w, 3)); return 0;
}
template <class X> unsigned long long use(X &h, const void *p)
{
	X c(h); in(c, p, 0); c.finalize(); const X &k = c; unsigned long long r = static_cast<unsigned char>(k) + static_cast<unsigned short>(k) + static_cast<unsigned>(k) + static_cast<unsigned long long>(k);
	r += k.toString().size() + k.toVector().size() + static_cast<unsigned long long>(arr(k, 0)) + (k == h) + (k != h) + std::hash<X>()(k); X m(static_cast<X &&>(c)); m.reset(); return r;
}
}
"""
def use(a, i):
    t = "vx_t%d" % i
    return "using %s = %s; unsigned long long vx_u%d(%s &h, const void *p) { return vx_use::use(h, p); }\n" % (t, a.ctype, i, t) + (
        "%s vx_c%d(const unsigned char *key) { (void)key; return %s; }\n" % (t, i, t + ("(%s::Span<const %s::Byte>(key, 16))" % (t, t) if a.name == "SipHash" else "(%s)" % a.ctor if a.ctor else "()")))

def cc(cxx, std, text, work, tag, args=("-fsyntax-only",)):
    src = os.path.join(work, re.sub(r"\W", "_", tag) + ".cpp")
    open(src, "w").write(text)
    p = subprocess.run([cxx, "-std=" + std, "-O0", "-w", "-I" + SRC] + list(args) + [src], capture_output=True, text=True, timeout=600)
    return p.returncode, p.stdout, p.stderr
def reason(err):
    ls = [l for l in err.splitlines() if "error" in l]
    return " | ".join(re.sub(r"^\S*/(src/)?", "", l)[:260] for l in ls[:2]) or err[:300]

# ---- what a translation unit declares outside the library's namespaces, read off the preprocessed text
TOK = re.compile(r'R"([^(\s]*)\(.*?\)\1"|"(?:\\.|[^"\\])*"|\'(?:\\.|[^\'\\])*\'|[A-Za-z_]\w*|\d[\w.\']*|::|->|<<|>>|.', re.S)
def own(f): return f.startswith(SRC + os.sep) and not f.startswith(os.path.join(SRC, "gsl") + os.sep)
def split(pre):
    """(file, line, text) chunks and macro events of the library's own files"""
    f, ln, chunks, macros = "", 0, [], []
    for l in pre.splitlines():
        m = re.match(r'# (\d+) "((?:\\.|[^"\\])*)"', l)
        if m: ln = int(m.group(1)); f = os.path.normpath(m.group(2)); continue
        if re.match(r"\s*#\s*(define|undef)\b", l):
            if own(f):
                k = re.match(r"\s*#\s*(define|undef)\s+(\w+)", l); macros.append((k.group(1), k.group(2), f, ln))
        elif not re.match(r"\s*#", l) and own(f): chunks.append((f, ln, l))
        ln += 1
    return chunks, macros
def tokens(chunks):
    out = []
    for f, ln, l in chunks:
        for m in TOK.finditer(l):
            if not m.group(0).isspace(): out.append((m.group(0), f, ln))
    return out
def outside(toks):
    """declarations at global scope, and in namespace std, that are not the library's"""
    bad, i, n, names = [], 0, len(toks), set()
    def block(i):            # i at an opening bracket: index after its partner
        d = 0
        while i < n:
            if toks[i][0] in "([{": d += 1
            elif toks[i][0] in ")]}":
                d -= 1
                if d == 0: return i + 1
            i += 1
        return n
    def stmt(i):             # end of the declaration that starts at i
        while i < n:
            t = toks[i][0]
            if t == ";": return i + 1
            if t == "{":
                i = block(i)
                if i < n and toks[i][0] == ";": i += 1
                return i
            i = block(i) if t in "([" else i + 1
        return n
    def text(i, j): return " ".join(t[0] for t in toks[i:min(j, i + 14)])
    def scope(i, end, std):
        while i < end:
            t = toks[i][0]
            if t == ";": i += 1; continue
            if t in ("static_assert", "_Pragma"): i = stmt(i) if t == "static_assert" else block(i + 1); continue
            if t == "namespace" or (t == "inline" and toks[i + 1][0] == "namespace"):
                j = i + (2 if t == "inline" else 1)
                while toks[j][0] not in ("{", "="): j += 1
                nm = "".join(x[0] for x in toks[i + (2 if t == "inline" else 1):j])
                if toks[j][0] == "=": bad.append((toks[i], "namespace alias " + nm)); i = stmt(i); continue
                e = block(j)
                first = nm.split("::")[0]
                if std: bad.append((toks[i], "namespace %s inside namespace std" % (nm or "(unnamed)")))
                elif first == "std": scope(j + 1, e - 1, True)
                elif first != "Chocobo1": bad.append((toks[i], "namespace %s" % (nm or "(unnamed)")))
                names.add(first); i = e; continue
            j = stmt(i)
            if std:
                k = i
                if toks[k][0] == "template":
                    k += 1
                    d = 0
                    while True:
                        x = toks[k][0]; d += x.count("<") if x in ("<", "<<") else 0; d -= len(x) if x in (">", ">>") else 0; k += 1
                        if d == 0: break
                    while toks[k][0] == "[": k = block(k)
                if not (toks[i][0] == "template" and toks[k][0] in ("struct", "class") and toks[k + 1][0] == "hash" and toks[k + 2][0] == "<"): bad.append((toks[i], "addition to namespace std: " + text(i, j)))
            else: bad.append((toks[i], "declaration at global scope: " + text(i, j)))
            i = j
    scope(0, n, False)
    return bad, names

def check(prop, tier, seed):
    o = Outcome(prop, tier, seed)
    work = tempfile.mkdtemp(prefix="hashan.")
    hs = headers(); al = types(); res = []
    byh = {h: [(i, a) for i, a in enumerate(al) if a.header == h] for h in hs}
    tmpl = [(i, a) for i, a in enumerate(al) if a.name in ("Tiger1_160", "SHA3_256", "SipHash", "FNV32_1a", "SHA2_256", "Blake2") or a.header in ("cshake.h", "tuple_hash.h")]
    broken = {}
    def alone(x):
        h, (cxx, std) = x; r = []; tag = "alone %s %s %s" % (h, cxx, std)
        inc = '#include "%s"\n' % h
        rc, _, err = cc(cxx, std, inc, work, tag)
        if rc: return [(h, "does not compile as the first and only include with %s -std=%s: %s" % (cxx, std, reason(err)), "self-contained")], 1
        if not byh[h]: return [], 1
        body = inc + inc + USE + "".join(use(a, i) for i, a in byh[h])
        obj = os.path.join(work, re.sub(r"\W", "_", tag) + ".o")
        rc, _, err = cc(cxx, std, body, work, tag + " use", ("-c", "-o", obj))
        if rc:
            rc2, _, err2 = cc(cxx, std, "#include <string>\n#include <vector>\n#include <cstdint>\n#include <array>\n#include <functional>\n#include <limits>\n#include <algorithm>\n#include <cassert>\n#include <climits>\n#include <numeric>\n#include <stdexcept>\n#include <iterator>\n#include <type_traits>\n#include <utility>\n" + body, work, tag + " std")
            return [(h, "its members do not compile when it is the only include with %s -std=%s%s: %s" % (cxx, std, "" if rc2 else " (they do after the standard headers)", reason(err)), "self-contained")], 2
        nm = subprocess.run(["nm", "-C", obj], capture_output=True, text=True).stdout; k = 0
        for l in nm.splitlines():
            m = re.match(r"(?:[0-9a-f]+)?\s+(\S) (.*)", l)
            if not m: continue
            t, s = m.groups()
            if "vx_u" in s and s.startswith("vx_u") or s.startswith("vx_c"): continue
            k += 1
            if t in "TDBRGSC": r.append((h, "%s is defined in every translation unit that includes it: two of them cannot be linked (%s -std=%s)" % (s[:160], cxx, std), "multiple-definition"))
            elif t == "U" and "Chocobo1::" in s and "vx_" not in s.split("(")[0]: r.append((h, "%s is used but nowhere defined: programs do not link without optimisation (%s -std=%s)" % (s[:160], cxx, std), "undefined"))
        os.remove(obj)
        # names
        src = os.path.join(work, re.sub(r"\W", "_", tag) + ".cpp"); open(src, "w").write(inc)
        pre = subprocess.run([cxx, "-std=" + std, "-I" + SRC, "-E", "-dD", src], capture_output=True, text=True).stdout
        chunks, macros = split(pre); live = {}
        for kind, n, f, ln in macros:
            if kind == "define": live[n] = (f, ln)
            else: live.pop(n, None)
        for n, (f, ln) in live.items():
            k += 1
            if "CHOCOBO1" not in n: r.append((h, "macro %s stays defined after the include" % n, "macro", "%s:%d" % (os.path.basename(f), ln)))
        for kind, n, f, ln in macros:
            if kind == "undef" and n not in {m for q, m, _, l2 in macros if q == "define"} and "CHOCOBO1" not in n: r.append((h, "macro %s of the including program is undefined by the include" % n, "macro", "%s:%d" % (os.path.basename(f), ln)))
        toks = tokens(chunks); bad, names = outside(toks); k += len(toks)
        for (t, f, ln), what in bad: r.append((h, what, "names", "%s:%d" % (os.path.basename(f), ln)))
        return r, k
    def order(x):
        (cxx, std), seq, what = x
        text = "".join('#include "%s"\n' % h for h in seq)
        if len(seq) > 2: text += USE + "".join(use(a, i) for i, a in tmpl)
        else: text += USE + "".join(use(a, i) for h in dict.fromkeys(seq) for i, a in byh[h][:1])
        rc, _, err = cc(cxx, std, text, work, "order %s %s %s" % (cxx, std, what))
        return ([("%s" % what, "does not compile with %s -std=%s: %s" % (cxx, std, reason(err)), "combination")] if rc else []), 1
    try:
        with ThreadPoolExecutor(WORKERS) as ex:
            jobs = [(h, m) for h in hs for m in MODES]
            for x, (r, k) in zip(jobs, ex.map(alone, jobs)):
                for y in r: broken.setdefault(x[0], []).append(y)
                res.append((("alone", x[0], "%s -std=%s" % x[1]), r, k))
            bad = {h for (w, h, m), r, k in res if any(y[2] == "self-contained" for y in r)}
            good = [h for h in hs if h not in bad]
            seqs = []
            for i, h in enumerate(good):
                rest = good[i + 1:] + good[:i]
                for m in MODES: seqs.append((m, [h] + rest, "all headers, %s first" % h)); seqs.append((m, [h] + rest[::-1], "all headers, %s first, the rest in reverse" % h))
            if tier != "quick":
                for a, b in itertools.permutations(good, 2):
                    for m in MODES: seqs.append((m, [a, b], "%s then %s" % (a, b)))
            for x, (r, k) in zip(seqs, ex.map(order, seqs)): res.append((("order", x[2], "%s -std=%s" % x[0]), r, k))
    finally: shutil.rmtree(work, ignore_errors=True)
    seen = set(); nb = 0
    for key, r, k in res:
        o.oblige(k, k - len(r) if k >= len(r) else 0)
        for y in r:
            nb += 1
            if (y[0], y[1][:80]) in seen or len(seen) > 40: continue
            seen.add((y[0], y[1][:80])); o.find(y[0], y[1], y[3] if len(y) > 3 else "", y[2])
    o.instances = [dict(name=h) for h in hs]
    o.assumptions = ["the headers of the bundled GSL (src/gsl) keep their own macro and namespace names", "a header that needs a standard header only through another standard header is not told apart"]
    return o.finish("Each header alone is compiled by both compilers in every language mode with every member of every hasher type used; the symbols of the unoptimised object, the macros left defined and the declarations of the preprocessed text are classified; all headers are compiled together with each of them first and the rest in both directions%s." % ("" if tier == "quick" else ", and in every ordered pair"),
                    "violation: a combination that does not compile, a strong or undefined library symbol, a macro without CHOCOBO1 in its name that stays defined, or a declaration outside namespace Chocobo1 other than a specialisation of std::hash",
                    dict(compilers_and_modes=["%s -std=%s" % m for m in MODES], headers=len(hs), orders=len(seqs)))
