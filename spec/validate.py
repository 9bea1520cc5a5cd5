#!/usr/bin/env python3
"""Development aid (not a check): compares the reference definitions in spec/ with independent implementations present on this machine."""
import sys, os, subprocess, ctypes, hashlib, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
from algos import A, BY, shake
rh = ctypes.CDLL("librhash.so.0"); rh.rhash_library_init()
RH = {"MD4": 2, "MD5": 4, "SHA1": 8, "Tiger1_192": 0x10, "Whirlpool": 0x200, "RIPEMD_160": 0x400, "HAS_160": 0x2000, "CRC_32": 1}
nt = ctypes.CDLL("libnettle.so.8")
def ref(a, m):
    n = a.name
    if n in RH:
        o = ctypes.create_string_buffer(64); rh.rhash_msg(RH[n], m, ctypes.c_size_t(len(m)), o); return o.raw[:a.D]
    if n == "MD2":
        c = ctypes.create_string_buffer(512); nt.nettle_md2_init(c); nt.nettle_md2_update(c, ctypes.c_size_t(len(m)), m); o = ctypes.create_string_buffer(16); nt.nettle_md2_digest(c, ctypes.c_size_t(16), o); return o.raw
    if n.startswith("Tiger1"): return ref(BY["Tiger1_192"], m)[:a.D]
    h = {"SM3": "sm3", "Blake2": "blake2b", "Blake2s": "blake2s"}.get(n)
    if n.startswith("SHA2_"): h = "sha" + n[5:]
    if n.startswith("SHA3_"): h = "sha3_" + n[5:]
    if n.startswith("SHAKE"): return hashlib.new("shake_" + n[6:9], m).digest(a.D)
    return hashlib.new(h, m).digest() if h else None
KAT = {"RIPEMD_128": "c14a12199c66e4ba84636b0f69144c77", "RIPEMD_256": "afbd6e228b9d8cccbc10f73a29a7f5a8" , "RIPEMD_320": "de4c01b3054f8930a79d09ae738e92301e5a17085beffdc1b8d116713e74f82fa942d64cdbc4682d"}
def repo(a, m, tmp):
    # last resort: digest of the library itself (only to look for disagreement, e.g. against its known-answer tests)
    return None
tmp = tempfile.mkdtemp()
for a in A + [shake(128, 7), shake(256, 700)]:
    src = os.path.join(tmp, "x.cpp"); so = os.path.join(tmp, a.name.replace("/", "_") + ".so")
    open(src, "w").write(a.defs + '#include "%s"\n' % os.path.join(os.path.dirname(os.path.abspath(__file__)), a.spec))
    subprocess.check_call(["g++", "-O1", "-w", "-shared", "-fPIC", src, "-o", so])
    L = ctypes.CDLL(so); L.s_size.restype = ctypes.c_ulong
    key = bytes(range(16))
    def dig(m):
        s = ctypes.create_string_buffer(L.s_size()); L.s_init(s, key); n = 0
        k = len(m) // a.B
        if a.lazy and m and len(m) % a.B == 0: k -= 1
        for i in range(k): L.s_block(s, m[i * a.B:(i + 1) * a.B], ctypes.c_ulonglong(i))
        o = ctypes.create_string_buffer(a.D + 8); L.s_final(s, m[k * a.B:], ctypes.c_ulonglong(k), ctypes.c_ulonglong(len(m) - k * a.B), o); return o.raw[:a.D]
    ok = bad = 0
    for l in range(0, 400):
        m = bytes((i * 7 + l * 13) & 255 for i in range(l)); r = ref(a, m)
        if r is None: break
        if r == dig(m): ok += 1
        else: bad += 1
    print(a.name, "ok", ok, "bad", bad, "" if ok else "empty=%s abc=%s" % (dig(b"").hex(), dig(b"abc").hex()))
