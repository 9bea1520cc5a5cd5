#!/usr/bin/env python3
"""Derives the constants of the reference definitions from their published derivations; prints spec/tables.h."""
from math import isqrt
from decimal import Decimal, getcontext
def primes(n):
    r, c = [], 2
    while len(r) < n:
        if all(c % p for p in r): r.append(c)
        c += 1
    return r
def icbrt(n):
    x = 1 << ((n.bit_length() + 2) // 3 + 1)
    while True:
        y = (2 * x + n // (x * x)) // 3
        if y >= x: return x
        x = y
def fsqrt(p, bits): return isqrt(p << (2 * bits)) & ((1 << bits) - 1)
def fcbrt(p, bits): return icbrt(p << (3 * bits)) & ((1 << bits) - 1)
def pi_bits(n):
    # pi * 2^n by Machin's formula
    g = n + 64
    def at(x):
        s = t = (1 << g) // x; k, sg = 3, -1
        while t:
            t //= x * x; s += sg * (t // k); k += 2; sg = -sg
        return s
    return (4 * (4 * at(5) - at(239))) >> 64
def arr(t, name, v, w): print("static const %s %s[%d] = {%s};" % (t, name, len(v), ",".join("0x%0*xull" % (w // 4, x) if w > 32 else "0x%0*xu" % (w // 4, x) for x in v)))
print("// Generated by gen_tables.py from the published derivations.")
P = primes(80)
arr("u32", "K256", [fcbrt(p, 32) for p in P[:64]], 32)
arr("u64", "K512", [fcbrt(p, 64) for p in P[:80]], 64)
arr("u32", "IV256", [fsqrt(p, 32) for p in P[:8]], 32)
arr("u32", "IV224", [fsqrt(p, 64) & 0xffffffff for p in P[8:16]], 32)
arr("u64", "IV512", [fsqrt(p, 64) for p in P[:8]], 64)
arr("u64", "IV384", [fsqrt(p, 64) for p in P[8:16]], 64)
# SHA-512/t: IV generation function of FIPS 180-4 5.3.6
def sha512c(h, block):
    M = (1 << 64) - 1
    ror = lambda x, n: ((x >> n) | (x << (64 - n))) & M
    w = [int.from_bytes(block[8 * i:8 * i + 8], 'big') for i in range(16)]
    K = [fcbrt(p, 64) for p in P[:80]]
    for t in range(16, 80):
        s0 = ror(w[t-15], 1) ^ ror(w[t-15], 8) ^ (w[t-15] >> 7); s1 = ror(w[t-2], 19) ^ ror(w[t-2], 61) ^ (w[t-2] >> 6)
        w.append((w[t-16] + s0 + w[t-7] + s1) & M)
    a, b, c, d, e, f, g, hh = h
    for t in range(80):
        T1 = (hh + (ror(e, 14) ^ ror(e, 18) ^ ror(e, 41)) + ((e & f) ^ (~e & g)) + K[t] + w[t]) & M
        T2 = ((ror(a, 28) ^ ror(a, 34) ^ ror(a, 39)) + ((a & b) ^ (a & c) ^ (b & c))) & M
        hh, g, f, e, d, c, b, a = g, f, e, (d + T1) & M, c, b, a, (T1 + T2) & M
    return [(x + y) & M for x, y in zip(h, (a, b, c, d, e, f, g, hh))]
for t in (224, 256):
    m = b"SHA-512/%d" % t
    blk = m + b"\x80" + bytes(128 - 16 - len(m) - 1) + (8 * len(m)).to_bytes(16, 'big')
    arr("u64", "IV512_%d" % t, sha512c([fsqrt(p, 64) ^ 0xa5a5a5a5a5a5a5a5 for p in P[:8]], blk), 64)
# MD5: floor(2^32 |sin i|)
getcontext().prec = 60
def dsin(x):
    x = Decimal(x); s = t = x; k = 1
    while abs(t) > Decimal(10) ** -50 or k < 200:
        t = -t * x * x / ((k + 1) * (k + 2)); s += t; k += 2
        if k > 600: break
    return s
getcontext().prec = 120
arr("u32", "KMD5", [int(abs(dsin(i + 1)) * 2 ** 32) for i in range(64)], 32)
# pi: BLAKE constants and the MD2 permutation
pb = pi_bits(16 * 64 + 64)
frac = (pb >> 0) & ((1 << (16 * 64 + 64)) - 1)
arr("u32", "CB256", [(frac >> (16 * 64 + 64 - 32 * (i + 1))) & 0xffffffff for i in range(16)], 32)
arr("u64", "CB512", [(frac >> (16 * 64 + 64 - 64 * (i + 1))) & ((1 << 64) - 1) for i in range(16)], 64)
digs = str(pi_bits(4200) * 10 ** 1000 >> 4200)
pos = 0
def rnd(n):
    # RFC 1319 permutation: Fisher-Yates driven by decimal digits of pi
    global pos
    x, y = int(digs[pos]), 10; pos += 1
    if n > 10: x, y, pos = x * 10 + int(digs[pos]), 100, pos + 1
    if n > 100: x, y, pos = x * 10 + int(digs[pos]), 1000, pos + 1
    return rnd(n) if x >= n * (y // n) else x % n
S = list(range(256))
for i in range(2, 257):
    j = rnd(i); S[j], S[i - 1] = S[i - 1], S[j]
arr("u8", "SMD2", S, 8)
# CRC-32 polynomial division table (one byte)
def crc(b):
    for _ in range(8): b = (b >> 1) ^ (0xedb88320 if b & 1 else 0)
    return b
arr("u32", "TCRC", [crc(i) for i in range(256)], 32)
# WHIRLPOOL S-box from its mini-boxes
E = [0x1, 0xB, 0x9, 0xC, 0xD, 0x6, 0xF, 0x3, 0xE, 0x8, 0x7, 0x4, 0xA, 0x2, 0x5, 0x0]
R = [0x7, 0xC, 0xB, 0xD, 0xE, 0x4, 0x9, 0xF, 0x6, 0x3, 0x8, 0xA, 0x2, 0x5, 0x1, 0x0]
Ei = [E.index(i) for i in range(16)]
W = []
for x in range(256):
    u, l = E[x >> 4], Ei[x & 15]; r = R[u ^ l]
    W.append((E[u ^ r] << 4) | Ei[l ^ r])
arr("u8", "SWP", W, 8)
# Whirlpool: row contribution of matrix entry q: S(x) times the circulant row (1,1,4,1,8,5,2,9) over GF(2^8)/0x11d, column 0 first
def gmul(a, k):
    r = 0
    while k:
        if k & 1: r ^= a
        a = (a << 1) ^ (0x11d if a & 128 else 0); k >>= 1
    return r
CIR = [1, 1, 4, 1, 8, 5, 2, 9]
for q in range(8): arr("u64", "WROW%d" % q, [int.from_bytes(bytes(gmul(W[x], CIR[(j - q) % 8]) for j in range(8)), 'big') for x in range(256)], 64)
# Tiger S-boxes from the designers' generator
M = (1 << 64) - 1
def tiger_compress(T, st, x):
    a, b, c = st; x = list(x)
    def rd(a, b, c, x, mul):
        c ^= x; by = [(c >> (8 * i)) & 255 for i in range(8)]
        a = (a - (T[0][by[0]] ^ T[1][by[2]] ^ T[2][by[4]] ^ T[3][by[6]])) & M
        b = (b + (T[3][by[1]] ^ T[2][by[3]] ^ T[1][by[5]] ^ T[0][by[7]])) & M
        return a, (b * mul) & M, c
    def ps(a, b, c, mul):
        a, b, c = rd(a, b, c, x[0], mul); b, c, a = rd(b, c, a, x[1], mul); c, a, b = rd(c, a, b, x[2], mul); a, b, c = rd(a, b, c, x[3], mul)
        b, c, a = rd(b, c, a, x[4], mul); c, a, b = rd(c, a, b, x[5], mul); a, b, c = rd(a, b, c, x[6], mul); b, c, a = rd(b, c, a, x[7], mul)
        return a, b, c
    def ks():
        x[0] = (x[0] - (x[7] ^ 0xA5A5A5A5A5A5A5A5)) & M; x[1] ^= x[0]; x[2] = (x[2] + x[1]) & M; x[3] = (x[3] - (x[2] ^ ((~x[1] & M) << 19 & M))) & M
        x[4] ^= x[3]; x[5] = (x[5] + x[4]) & M; x[6] = (x[6] - (x[5] ^ ((~x[4] & M) >> 23))) & M; x[7] ^= x[6]
        x[0] = (x[0] + x[7]) & M; x[1] = (x[1] - (x[0] ^ ((~x[7] & M) << 19 & M))) & M; x[2] ^= x[1]; x[3] = (x[3] + x[2]) & M
        x[4] = (x[4] - (x[3] ^ ((~x[2] & M) >> 23))) & M; x[5] ^= x[4]; x[6] = (x[6] + x[5]) & M; x[7] = (x[7] - (x[6] ^ 0x0123456789ABCDEF)) & M
    aa, bb, cc = a, b, c
    a, b, c = ps(a, b, c, 5); ks(); a, b, c = rot(ps, a, b, c, 7, 1); ks(); a, b, c = rot(ps, a, b, c, 9, 2)
    return [a ^ aa, (b - bb) & M, (c + cc) & M]
def rot(ps, a, b, c, mul, which):
    if which == 1:
        c, a, b = ps(c, a, b, mul)
    else:
        b, c, a = ps(b, c, a, mul)
    return a, b, c
def tiger_tables(text=b"Tiger - A Fast New Hash Function, by Ross Anderson and Eli Biham", passes=5):
    col8 = [[(i & 255)] * 8 for i in range(1024)]
    st = [0x0123456789ABCDEF, 0xFEDCBA9876543210, 0xF096A5B4C3B2E187]
    x = [int.from_bytes(text[8 * i:8 * i + 8], 'little') for i in range(8)]
    abc = 2
    word = lambda r: int.from_bytes(bytes(col8[r]), 'little')
    for _ in range(passes):
        for i in range(256):
            for sb in range(0, 1024, 256):
                abc += 1
                if abc == 3:
                    abc = 0
                    T = [[word(256 * t + j) for j in range(256)] for t in range(4)]
                    st = tiger_compress(T, st, x)
                sc = st[abc].to_bytes(8, 'little')
                for col in range(8):
                    o = sb + sc[col]
                    col8[sb + i][col], col8[o][col] = col8[o][col], col8[sb + i][col]
    return [word(r) for r in range(1024)]
import sys
t = tiger_tables()
for k in range(4): arr("u64", "TIG%d" % (k + 1), t[256 * k:256 * k + 256], 64)
