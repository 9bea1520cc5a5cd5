"""D01, D02: flow analysis of the command-line program (engine/cliflow.cpp).

src/program/*.cpp is compiled from a copy that sits next to recorder headers instead of the library's; every path of the program over the
arguments, the files' sizes and the open/read results is followed, and each way it can end is judged against the documented interface."""
import os, re, json, shutil, subprocess, tempfile, glob, time
from concurrent.futures import ThreadPoolExecutor
import core
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HASHAN_REPO", "/repo")
# documented name -> (class, kind): plain | xof <length> | cxof <length> <customization> | tuple <length> <customization>
NAMES = {
 "-blake1-224": "Blake1_224", "-blake1-256": "Blake1_256", "-blake1-384": "Blake1_384", "-blake1-512": "Blake1_512", "-blake2": "Blake2", "-blake2s": "Blake2s",
 "-crc-32": "CRC_32", "-cshake-128": "CSHAKE_128", "-cshake-256": "CSHAKE_256", "-fnv32_1a": "FNV32_1a", "-fnv64_1a": "FNV64_1a", "-has160": "HAS_160",
 "-md2": "MD2", "-md4": "MD4", "-md5": "MD5", "-ripemd-128": "RIPEMD_128", "-ripemd-160": "RIPEMD_160", "-ripemd-256": "RIPEMD_256", "-ripemd-320": "RIPEMD_320",
 "-siphash": "SipHash", "-sha1": "SHA1", "-sha2-224": "SHA2_224", "-sha2-256": "SHA2_256", "-sha2-384": "SHA2_384", "-sha2-512": "SHA2_512",
 "-sha2-512-224": "SHA2_512_224", "-sha2-512-256": "SHA2_512_256", "-sha3-224": "SHA3_224", "-sha3-256": "SHA3_256", "-sha3-384": "SHA3_384", "-sha3-512": "SHA3_512",
 "-shake-128": "SHAKE_128", "-shake-256": "SHAKE_256", "-sm3": "SM3", "-tiger1-128": "Tiger1_128", "-tiger1-160": "Tiger1_160", "-tiger1-192": "Tiger1_192",
 "-tiger2-128": "Tiger2_128", "-tiger2-160": "Tiger2_160", "-tiger2-192": "Tiger2_192", "-tuple-hash-128": "TupleHash_128", "-tuple-hash-256": "TupleHash_256", "-whirlpool": "Whirlpool"}
OTHERS = ["FNV32_0", "FNV32_1", "FNV64_0", "FNV64_1", "HAS_V"]
CLASSES = sorted(set(NAMES.values())) + OTHERS
KIND = {"SHAKE_128": "xof", "SHAKE_256": "xof", "CSHAKE_128": "cxof", "CSHAKE_256": "cxof", "TupleHash_128": "tuple", "TupleHash_256": "tuple", "SipHash": "keyed"}
ARGC = {"plain": 3, "keyed": 3, "xof": 4, "cxof": 5, "tuple": 5}
TMPL = {"plain": "Plain", "keyed": "Keyed", "xof": "Xof", "cxof": "CXof", "tuple": "Tup"}
def kind(n): return KIND.get(NAMES[n], "plain")

def build(work):
    """Compile the program against the recorder headers; returns (bitcode, main file) or raises Undecided text."""
    X = os.path.join(work, "X"); src = os.path.join(X, "src"); prog = os.path.join(src, "program"); os.makedirs(src)
    shutil.copytree(os.path.join(REPO, "src", "program"), prog)
    decl = "#pragma once\n#include \"vp_hash.h\"\nnamespace Chocobo1 {\n" + "".join("using %s = vp::%s<%d>;\n" % (c, TMPL[KIND.get(c, "plain")], i) for i, c in enumerate(CLASSES)) + "}\n"
    open(os.path.join(work, "vp_all.h"), "w").write(decl)
    # a header of the library is replaced by the recorders; any other header is kept
    for h in glob.glob(os.path.join(REPO, "src", "*.h")):
        t = open(h, errors="replace").read()
        if re.search(r"namespace\s+Chocobo1", t): open(os.path.join(src, os.path.basename(h)), "w").write('#pragma once\n#include "vp_all.h"\n')
        else: shutil.copy(h, src)
    files = sorted(glob.glob(os.path.join(prog, "*.cpp")))
    if not files: return None, "the program has no source file"
    tu = os.path.join(work, "tu.cpp")
    main = [f for f in files if re.search(r"\bmain\s*\(", open(f, errors="replace").read())]
    if len(main) != 1: return None, "the program's main function was not found"
    open(tu, "w").write("".join('#include "%s"\n' % f for f in files) + '#include "vp_support.h"\n')
    bc = os.path.join(work, "p.bc")
    cmd = ["clang++", "-std=c++14", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-w", "-fno-access-control", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-U_FORTIFY_SOURCE", "-D__NO_CTYPE", "-ferror-limit=3",
           "-I", os.path.join(HERE, "cli"), "-I", work, "-emit-llvm", "-c", tu, "-o", bc]
    r = subprocess.run(cmd, capture_output=True, text=True, timeout=300)
    if r.returncode:
        m = re.search(r"([^\n]*error:[^\n]*)", r.stderr); return None, "the program could not be compiled against the recorders: " + (m.group(1)[-200:] if m else r.stderr[-200:])
    b2 = os.path.join(work, "q.bc")
    r = subprocess.run(["opt-18", "-passes=internalize,globaldce", "--internalize-public-api-list=main", bc, "-o", b2], capture_output=True, text=True)
    return (b2 if r.returncode == 0 else bc), os.path.basename(main[0])

FILE = "in put.bin"
def scenarios(prop, tier):
    S = []; thorough = tier == "thorough"
    def add(id, args, lo=None, hi=None, **kw): S.append(dict(id="%s#%d" % (id, len(S)), args=args, lo=len(args) if lo is None else lo, hi=len(args) if hi is None else hi, **kw))
    def valid(n, file=FILE, length="=32", custom="cust"):
        k = kind(n); a = ["=hash", "=" + n]
        if k == "xof": a += [length]
        if k in ("cxof", "tuple"): a += [length, "=" + custom]
        return a + ["=" + file]
    if prop == "D01":
        for n in NAMES:
            k = kind(n); add(n, valid(n), what="valid", name=n, custom="cust", length=32, file=FILE)
            full = ["=hash", "=" + n, "=32", "=cust", "=" + FILE, "=x", "=y", "=z", "=w"]
            for c in list(range(2, 9)):
                if c != ARGC[k]: add(n + " with %d arguments" % (c - 1), full[:c - 1] + ["=" + FILE] if c > 2 else full[:2], what="reject")
            add(n + " with 8 or more arguments", full, lo=9, hi=2**31 - 1, what="reject")
        add("no arguments", ["=hash"], what="reject"); add("nothing at all", [], what="reject0")
        for L in range(0, 25 if not thorough else 41):
            for c in (3, 4, 5): add("a name of %d characters with %d arguments" % (L, c - 1), ["=hash", "?%d" % L] + ["=32", "=cust"][:c - 3] + ["=" + FILE], what="unknown")
        for bad in ["md5", "--md5", "-MD5", "-md5 ", " -md5", "-md", "-md55", "-sha", "-sha2", "-sha3", "-", "-blake", "-blake2b", "-blake1", "-sha2_256", "-fnv32", "-fnv32_1", "-crc32", "-crc-3", "-tiger", "-tiger1", "-sha2-512-25", "-tuple-hash", "-shake", "-sm", "-whirlpoo", "-whirlpool2", "-invalid"]:
            add("name %s" % bad, ["=hash", "=" + bad, "=" + FILE], what="reject")
        for n in [x for x in NAMES if kind(x) in ("xof", "cxof", "tuple")]:
            for L in ([0, 1, 2, 5, 9, 10, 11, 19, 20, 24] if not thorough else range(0, 41)): add("%s with a length text of %d characters" % (n, L), valid(n, length="?%d" % L), what="length", name=n, custom="cust", file=FILE, L=L)
            for t, v in [("1", 1), ("7", 7), ("16", 16), ("64", 64), ("200", 200), ("1000", 1000), ("100000", 100000), ("2147483647", 2147483647)]:
                add("%s %s" % (n, t), valid(n, length="=" + t), what="valid", name=n, custom="cust", length=v, file=FILE)
            for t in ["-1", "-32", "abc", "", "12x", "12 ", "1.5", "2147483648", "4294967296", "4294967328", "99999999999999999999", "-99999999999999999999", "0x10", "1e2", "3 2", "-", "+"]:
                add("%s '%s'" % (n, t), valid(n, length="=" + t), what="reject")
            if kind(n) != "xof":
                for cu in ["", "a", "Email Signature", "%s%n%d", "x" * 300, "-md5", "64"]:
                    add("%s customised '%s'" % (n, cu[:20]), valid(n, custom=cu), what="valid", name=n, custom=cu, length=32, file=FILE)
        for n in ["-md5", "-siphash", "-shake-128", "-cshake-256", "-tuple-hash-128"]:
            for f in ["-md5", "32", "%s%d%n", "a" * 200]: add("%s on '%s'" % (n, f[:20]), valid(n, file=f), what="valid", name=n, custom="cust", length=32, file=f)
    else:
        for n in (NAMES if thorough else ["-md5", "-crc-32", "-siphash", "-shake-256", "-cshake-128", "-tuple-hash-128", "-tuple-hash-256", "-sha3-512", "-blake2", "-whirlpool", "-tiger2-192"]):
            if n == "-tuple-hash-128" or (thorough and n == "-tuple-hash-256"): add("%s reads=%d" % (n, 4200 if thorough else 2100), valid(n), what="valid", name=n, custom="cust", length=32, file=FILE)
            for f in [FILE, "-", "dir/%s.bin", "f" * 120]: add("%s on %s" % (n, f[:12]), valid(n, file=f), what="valid", name=n, custom="cust", length=32, file=f)
    return S

def zero(l): return l[0] == 0 and (l[1] == 0 or l[2] < 0)
def same(a, b): return a[0] == b[0] and (a[1] if a[2] >= 0 else 0) == (b[1] if b[2] >= 0 else 0) and (a[2] if a[1] else -1) == (b[2] if b[1] else -1)

def judge_content(d, r, k):
    """None if the printed digest is that of the whole file, else what is wrong"""
    if d["desc"]: return "the digest printed is of a hasher in the wrong state (%s)" % d["desc"].strip(";")
    f = [i for i, x in enumerate(r["files"]) if x["st"] == 1]
    seg = list(d["seg"])
    if k == "tuple":
        m = [i for i, s in enumerate(seg) if s["k"] == 3]
        if len(m) != 1 or m[0] != 0: return "the file is not passed as exactly one item (%d items)" % len(m)
        seg = seg[1:]
    for s in seg:
        if s["k"] == 1: return "%d bytes that are not from the file are hashed (%r)" % (s["len"][0], s["lit"][:20])
        if s["k"] == 2: return "%s are hashed" % (s["lit"] or "unknown bytes")
        if s["k"] == 3: return "items are delimited where there is only one file"
    if len(f) != 1: return "the file was not read to its end exactly once"
    total = r["files"][f[0]]["pos"]
    if not seg: return None if zero(total) else "nothing of the file is hashed (%s bytes)" % size(total)
    if len(seg) > 1: return "the file's bytes are not hashed once each in order (%s)" % "; ".join("bytes %s..+%s" % (size(s["pos"]), size(s["len"])) for s in seg[:4])
    if not zero(seg[0]["pos"]): return "the hashed data starts at byte %s of the file" % size(seg[0]["pos"])
    if not same(seg[0]["len"], total): return "%s bytes are hashed of a file of %s bytes" % (size(seg[0]["len"]), size(total))
    return None
def size(l): return str(l[0]) if not l[1] or l[2] < 0 else ("%d + n" % l[0] if l[1] == 1 else "%d + %d n" % (l[0], l[1]))

def judge(prop, s, r, o):
    """adds findings for one way the program can end"""
    w = s["what"]; end = r["end"]; code = r["code"]; digs = r["digests"]; where = r["where"] or r["at"]
    env = ", ".join(r["env"]); given = s["id"].split("#")[0]
    def find(p, msg, wh=None):
        if p == prop: o.find("src/program", "%s%s: %s" % (given, " [%s]" % env if env else "", msg), re.sub(r"^.*?/X/", "", wh or where), "cli")
    if end == "undecided": o.undecided.append("src/program: " + "%s: %s" % (given, r["msg"])); return
    if end == "bad":
        find("D02" if w == "valid" and s.get("name") and prop == "D02" else "D01", r["msg"], r["at"]); return
    failed = end != "exit" or code != 0
    openfail = any(e == "open fails" for e in r["env"]); err = any(f["st"] == 2 for f in r["files"])
    if end != "exit":
        if w in ("reject", "unknown", "length"): find("D01", "the program is ended by %s" % end, r["at"])
        elif w == "valid": find("D02", "the program is ended by %s" % end, r["at"])
        return
    if w in ("reject", "reject0"):
        if digs: find("D01", "a digest of %s is printed instead of an error" % CLASSES[digs[0]["cls"]])
        elif not failed and w == "reject": find("D01", "rejected with a successful exit status", r["at"])
        return
    if w == "unknown":
        a = r["args"][1]
        if not a["open"] and a["v"] in NAMES:
            if digs and CLASSES[digs[0]["cls"]] != NAMES[a["v"]]: find("D01", "%s prints a digest of %s" % (a["v"], CLASSES[digs[0]["cls"]]))
            return
        if digs: find("D01", "the undocumented name '%s' prints a digest of %s" % (a["v"], CLASSES[digs[0]["cls"]]))
        elif not failed: find("D01", "an unknown name ends with a successful exit status", r["at"])
        return
    n = s["name"]; cls = NAMES[n]; k = kind(n)
    if w == "length":
        num = [x for x in r["notes"] if x.startswith("num ")]
        if not num and digs: o.undecided.append("src/program: " + "%s: how the length was obtained is not known" % given); return
        if not num:
            if s["L"] == 0 and not failed: find("D01", "an empty length is accepted", r["at"])
            return
        q = num[0].split()
        if q[1] != "all":
            if digs: find("D01", "a length text that is not %s is accepted" % ("a number" if q[1] == "none" else "within range" if q[1] == "range" else "entirely a number"))
            elif not failed: find("D01", "an invalid length ends with a successful exit status", r["at"])
            return
        lo, hi = r["syms"][int(q[3])]
        if digs:
            if lo < 0: find("D01", "a negative length such as %d is accepted" % lo)
            elif hi > 2**31 - 1: find("D01", "a length such as %d, which the hasher cannot take, is accepted" % hi)
            elif any(not (d["len"][2] == int(q[3]) and d["len"][0] == 0 and d["len"][1] == 1) and not (lo == hi == d["len"][0] and (d["len"][1] == 0 or d["len"][2] < 0)) for d in digs): find("D01", "the digest length used is not the length given")
        elif failed and not openfail and not err and not r["files"]:
            a, b = max(lo, 1), min(hi, 65536)
            if a <= b: find("D01", "the valid length %d is rejected" % a, r["at"])
        elif not failed and not openfail and not err: find("D01", "nothing is printed for a valid length", r["at"])
        return
    # a valid invocation
    want = "<stdin>" if s["file"] == "-" else s["file"]
    bad = [f["name"] for f in r["files"] if f["name"] != want and (f["reads"] or f["name"] != "<stdin>")]
    if bad: find("D01", "the file '%s' is used, not the one named last" % bad[0]); return
    if openfail and not [f for f in r["files"] if f["name"] == want and f["st"]] or err:
        why = "a read error" if err else "a file that cannot be opened"
        if digs: find("D02", "a digest is printed despite %s" % why)
        elif not failed: find("D02", "the exit status is success despite %s" % why, r["at"])
        elif end == "exit" and not r["err"] and not r["out"]: find("D02", "no error is reported for %s" % why, r["at"])
        return
    if not [f for f in r["files"] if f["name"] == want]:
        find("D01", "a valid invocation %s without the file being opened" % ("is rejected" if failed else "succeeds"), r["at"]); return
    done = [f for f in r["files"] if f["name"] == want and f["st"] == 1]
    if failed: find("D02" if done or r["files"] else "D01", "the program ends with a failure (%s, status %d) although the file could be read" % (end, code), r["at"]); return
    if not digs: find("D02", "no digest is printed", r["at"]); return
    if len(set(d["text"] for d in digs)) > 1 or len(digs) > 1: find("D01", "more than one digest is printed"); return
    d = digs[0]
    if CLASSES[d["cls"]] != cls: find("D01", "a digest of %s is printed" % CLASSES[d["cls"]])
    elif k in ("xof", "cxof", "tuple") and not (d["len"][0] == s["length"] and (d["len"][1] == 0 or d["len"][2] < 0)): find("D01", "the digest length is %s" % size(d["len"]))
    elif k in ("cxof", "tuple") and d["custom"] != s["custom"]: find("D01", "the customization string is '%s'" % d["custom"][:40])
    elif k == "cxof" and d["name"]: find("D01", "a function name '%s' is used" % d["name"][:40])
    elif k == "keyed" and d["name"] != "\0" * 16: find("D01", "the key is not the all-zero key")
    if not done: find("D02", "the digest is printed although the file was not read to its end"); return
    c = judge_content(d, r, k)
    if c: find("D02", c)

def check(prop, tier, seed):
    o = core.Outcome(prop, tier, seed); core.build_engine(); work = tempfile.mkdtemp(prefix="cli.")
    paths = fix = bounded = 0; total = {}
    try:
        bc, main = build(work)
        if bc is None: o.undecided.append("src/program: " + main); S = []
        else:
            S = scenarios(prop, tier); W = int(os.environ.get("HASHAN_JOBS", os.cpu_count() or 4)); parts = [S[i::W] for i in range(W)]
            def one(i):
                f = os.path.join(work, "s%d" % i)
                open(f, "w").write("".join("\t".join([s["id"], str(s["lo"]), str(s["hi"])] + s["args"]) + "\n" for s in parts[i]))
                with open(f + ".o", "w") as out:
                    try: rc = subprocess.run([os.path.join(core.VERIF, "build", "cliflow"), bc, f, main], stdout=out, stderr=subprocess.DEVNULL, timeout=max(30, core.DEADLINE[0] - time.time())).returncode
                    except subprocess.TimeoutExpired: rc = -1
                res = []
                for l in open(f + ".o", errors="replace"):
                    try: res.append(json.loads(l))
                    except ValueError: pass
                return rc, res
            with ThreadPoolExecutor(W) as ex: rs = list(ex.map(one, range(W)))
            byid = {s["id"]: s for s in S}; ended = set()
            for rc, res in rs:
                for r in res:
                    if r["end"] == "total": total = r; o.functions.update(r["fns"]); continue
                    if r["end"] == "summary": ended.add(r["id"]); paths += r["paths"]; fix += r["fixpoints"]; bounded += r["bounded"]; continue
                    n = len(o.findings); judge(prop, byid[r["id"]], r, o); o.oblige(1, 1 if len(o.findings) == n and r["end"] != "undecided" else 0)
            for s in S:
                if s["id"] not in ended: o.undecided.append("src/program: %s: not finished" % s["id"].split("#")[0]); o.oblige(1, 0)
    finally: shutil.rmtree(work, ignore_errors=True)
    o.instances = [dict(name="src/program", scenarios=len(S), paths=paths, fixpoints=fix, bounded=bounded, functions=total.get("functions", 0), steps=total.get("steps", 0))]
    return o.finish(EXPL[prop] % (len(S), paths, fix, bounded), RULE[prop])
EXPL = {
 "D01": "%d argument classes of the program in src/program were followed over every path (%d ways to end, %d read loops closed by a fixpoint, %d not followed beyond their last read); each way to end was compared with the documented interface.",
 "D02": "%d argument classes of the program in src/program were followed over every path and every result of opening and reading the file (%d ways to end, %d read loops closed by a fixpoint, %d not followed beyond their last read); each digest printed was compared with the segments of the file that had been fed."}
RULE = {
 "D01": "a documented name with the documented arguments ends in printing the digest of a hasher of that class, constructed with that length and customization, of the file named last; every other argument vector ends in failure with no digest printed",
 "D02": "the digest printed on a path is of exactly one segment [0, size) of the file's stream; a path on which opening or reading fails ends in failure with a message and no digest"}
