"""Generates the translation unit analysed for one hash type and compiles it to LLVM bitcode (never linked, never run)."""
import os, subprocess, hashlib
VERIF = os.environ.get("HASHAN_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("HASHAN_REPO", "/repo")

CORE = r"""
#include <new>
#include <type_traits>
#include <utility>
#include <cstddef>
using T = %(ctype)s;
template <class X> auto put(const X &h, unsigned char *o, int) -> decltype(h.toArray(), void()) { const auto a = h.toArray(); for (std::size_t i = 0; i < a.size(); ++i) o[i] = a[i]; }
template <class X> void put(const X &h, unsigned char *o, long) { const auto a = h.toVector(); for (std::size_t i = 0; i < a.size(); ++i) o[i] = a[i]; }
extern "C" {
unsigned long h_size() { return sizeof(T); }
unsigned long h_align() { return alignof(T); }
void h_ctor(void *p, const unsigned char *key) { (void)key; new (p) T%(ctor)s; }
void h_dtor(T *p) { p->~T(); }
void h_add(T *p, const unsigned char *d, std::size_t n) { p->%(addfn)s(d, n); }
void h_fin(T *p) { p->finalize(); }
void h_reset(T *p) { p->reset(); }
void h_arr(const T *p, unsigned char *o) { put(*p, o, 0); }
%(extra)s
}
"""

def ctor_args(a):
    if a.name == "SipHash": return "(T::Span<const T::Byte>(key, 16))"
    return "(%s)" % a.ctor if a.ctor else "()"

def source(a, spec=True, extra="", pre="", addfn="addData"):
    s = "#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n"
    if spec:
        s += a.defs + 'namespace spec {\n#include "%s/spec/%s"\n}\n' % (VERIF, a.spec)
        for l in a.defs.splitlines(): s += "#undef %s\n" % l.split()[1]
    s += a.includes + pre + '#include "%s"\n' % a.header
    s += CORE % dict(ctype=a.ctype, ctor=ctor_args(a), addfn=addfn, extra=extra)
    return s

BASE = ["-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-gline-tables-only", "-Wno-everything", "-ferror-limit=3"]

def compile_bc(src_text, out, std="c++14", extra=(), target=()):
    src = out[:-3] + ".cpp"
    with open(src, "w") as f: f.write(src_text)
    cmd = ["clang++", "-std=" + std] + BASE + list(target) + ["-I" + os.path.join(REPO, "src")] + list(extra) + ["-c", "-emit-llvm", src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return r.returncode, r.stderr

# entry points for copies, outputs, comparison and the input overloads
OPS = r"""
#include <string>
#include <vector>
#include <cstdint>
template <class X> void asg_(X &a, const X &b, std::true_type) { a = b; }
template <class X> void asg_(X &, const X &, std::false_type) {}
template <class X> void masg_(X &a, X &b, std::true_type) { a = std::move(b); }
template <class X> void masg_(X &, X &, std::false_type) {}
template <class X> auto arr_(const X &h, unsigned char *o, int) -> decltype(h.toArray(), (unsigned long)0) { const auto a = h.toArray(); for (std::size_t i = 0; i < a.size(); ++i) o[i] = a[i]; return a.size(); }
template <class X> unsigned long arr_(const X &, unsigned char *, long) { return 0; }
extern "C" {
unsigned long h_assignable() { return std::is_copy_assignable<T>::value; }
unsigned long h_massignable() { return std::is_move_assignable<T>::value; }
void h_copy(void *d, const T *s) { new (d) T(*s); }
void h_move(void *d, T *s) { new (d) T(std::move(*s)); }
void h_assign(T *d, const T *s) { asg_(*d, *s, std::is_copy_assignable<T>()); }
void h_massign(T *d, T *s) { masg_(*d, *s, std::is_move_assignable<T>()); }
%(base)s
unsigned h_eq(const T *a, const T *b) { return *a == *b ? 1u : 0u; }
unsigned h_ne(const T *a, const T *b) { return *a != *b ? 1u : 0u; }
unsigned long h_str(const T *p, unsigned char *o) { const std::string s = p->toString(); for (std::size_t i = 0; i < s.size(); ++i) o[i] = (unsigned char)s[i]; return s.size(); }
unsigned long h_vec(const T *p, unsigned char *o) { const auto s = p->toVector(); for (std::size_t i = 0; i < s.size(); ++i) o[i] = s[i]; return s.size(); }
unsigned long h_array(const T *p, unsigned char *o) { return arr_(*p, o, 0); }
uint8_t h_u8(const T *p) { return static_cast<uint8_t>(*p); }
uint16_t h_u16(const T *p) { return static_cast<uint16_t>(*p); }
uint32_t h_u32(const T *p) { return static_cast<uint32_t>(*p); }
uint64_t h_u64(const T *p) { return static_cast<uint64_t>(*p); }
unsigned long long h_ull(const T *p) { return static_cast<unsigned long long>(*p); }
std::size_t h_size_t(const T *p) { return static_cast<std::size_t>(*p); }
std::size_t h_hash(const T *p) { return std::hash<T>()(*p); }
%(ctor2)s
}
"""

def ops(a):
    c2 = ""
    if a.alt: c2 = "void h_ctor2(void *p, const unsigned char *key) { (void)key; new (p) T%s; }" % a.alt
    base = ""
    if a.alias: base = """void h_copy_b(void *d, const T *s) { new (d) T(static_cast<const T::BaseType &>(*s)); }
void h_move_b(void *d, T *s) { new (d) T(static_cast<T::BaseType &&>(*s)); }
void h_assign_b(T *d, const T *s) { *d = static_cast<const T::BaseType &>(*s); }
void h_massign_b(T *d, T *s) { *d = static_cast<T::BaseType &&>(*s); }"""
    return OPS % dict(ctor2=c2, base=base)

def overload_ops(a, addfn="addData"):
    """Input overloads: returns source text and the configuration naming them."""
    B = a.B if a.B > 1 else 16
    s = 'struct S3_ { unsigned char b[3]; };\nextern "C" {\n'; fixed = []; spans = []
    for n in sorted({1, 2, 3, 8, B - 1, B, B + 1, 2 * B, 2 * B + 5}):
        s += "const void *h_bytes_%d(T *p, const unsigned char *d) { return &p->%s(*reinterpret_cast<const T::Byte (*)[%d]>(d)); }\n" % (n, addfn, n); fixed.append("h_bytes_%d:%d" % (n, n))
    for u, sz in (("uint16_t", 2), ("uint32_t", 4), ("uint64_t", 8), ("char", 1), ("S3_", 3)):
        for n in sorted({1, 2, 5, B // sz, B // sz + 1, 2 * B // sz + 1}):
            s += "const void *h_arr_%s_%d(T *p, const unsigned char *d) { return &p->%s(*reinterpret_cast<const %s (*)[%d]>(d)); }\n" % (u, n, addfn, u, n); fixed.append("h_arr_%s_%d:%d" % (u, n, n * sz))
        s += "const void *h_span_%s(T *p, const unsigned char *d, std::size_t n) { return &p->%s(T::Span<const %s>(reinterpret_cast<const %s *>(d), n)); }\n" % (u, addfn, u, u); spans.append("h_span_%s:%d" % (u, sz))
        if u != "char": s += "const void *h_mspan_%s(T *p, unsigned char *d, std::size_t n) { return &p->%s(T::Span<%s>(reinterpret_cast<%s *>(d), n)); }\n" % (u, addfn, u, u); spans.append("h_mspan_%s:%d" % (u, sz))
    s += "const void *h_span_byte(T *p, const unsigned char *d, std::size_t n) { return &p->%s(T::Span<const T::Byte>(d, n)); }\n" % addfn; spans.append("h_span_byte:1")
    s += "const void *h_mspan_byte(T *p, unsigned char *d, std::size_t n) { return &p->%s(T::Span<T::Byte>(d, n)); }\n" % addfn; spans.append("h_mspan_byte:1")
    return s + "}\n", dict(fixed=",".join(fixed), spans=",".join(spans))

# TupleHash over a recording stand-in for the hash it wraps (rec_* are never defined: the analyser records their arguments)
TUPLE_REC = r"""
#include <string>
#include <vector>
#include <new>
#include <cstdint>
extern "C" { void rec_add(const void *, const void *, std::size_t); void rec_ctor(const void *, int, const void *, std::size_t, const void *, std::size_t); void rec_finalize(const void *); void rec_reset(const void *); }
struct Rec
{
	using Byte = uint8_t;
	template <typename X, std::size_t E = gsl::dynamic_extent> using Span = gsl::span<X, E>;
	Rec(int d, const std::string &n = {}, const std::string &c = {}) { rec_ctor(this, d, n.data(), n.size(), c.data(), c.size()); }
	void reset() { rec_reset(this); }
	Rec &finalize() { rec_finalize(this); return *this; }
	Rec &addData(Span<const Byte> x) { rec_add(this, x.data(), x.size()); return *this; }
	Rec &addData(const void *p, std::size_t n) { rec_add(this, p, n); return *this; }
	template <std::size_t N> Rec &addData(const Byte (&x)[N]) { rec_add(this, x, N); return *this; }
	std::string toString() const { return {}; }
	std::vector<Byte> toVector() const { return {}; }
	unsigned char pad_ = 0;
};
using T = Chocobo1::Hash::TupleHash_NS::TupleHash<Rec>;
extern "C" {
unsigned long h_size() { return sizeof(T); }
unsigned long h_align() { return alignof(T); }
void h_ctor(void *p, int d, const unsigned char *k, std::size_t n) { new (p) T(d, std::string(reinterpret_cast<const char *>(k), n)); }
void h_fin(T *p) { p->finalize(); }
void h_reset(T *p) { p->reset(); }
void h_ptr(T *p, const unsigned char *d, std::size_t n) { p->nextData(d, n); }
void h_span_byte(T *p, const unsigned char *d, std::size_t n) { p->nextData(T::Span<const T::Byte>(d, n)); }
%s
}
"""
def tuple_recorded():
    """Source and configuration of the recording analysis."""
    elems = ["h_ptr:1:-1:", "h_span_byte:1:-1:"]; s = ""
    for u, sz in (("uint16_t", 2), ("uint32_t", 4), ("uint64_t", 8), ("char", 1)):
        s += "void h_span_%s(T *p, const unsigned char *d, std::size_t n) { p->nextData(T::Span<const %s>(reinterpret_cast<const %s *>(d), n)); }\n" % (u, u, u); elems.append("h_span_%s:%d:-1:A01" % (u, sz))
        for n in (1, 3, 33): s += "void h_arr_%s_%d(T *p, const unsigned char *d) { p->nextData(*reinterpret_cast<const %s (*)[%d]>(d)); }\n" % (u, n, u, n); elems.append("h_arr_%s_%d:%d:%d:A01" % (u, n, sz, n))
    for n in (1, 31, 32, 8192): s += "void h_bytes_%d(T *p, const unsigned char *d) { p->nextData(*reinterpret_cast<const T::Byte (*)[%d]>(d)); }\n" % (n, n); elems.append("h_bytes_%d:1:%d:A01" % (n, n))
    pre = "#include <bits/c++config.h>\n#undef _GLIBCXX_EXTERN_TEMPLATE\n#define _GLIBCXX_EXTERN_TEMPLATE 0\n"
    return pre + '#include "tuple_hash.h"\n' + TUPLE_REC % s, dict(B=1, G=1, D=1, key=16, recorded=1, elems=",".join(elems))

def tuple_shapes(a, shapes):
    """Whole digests of tuples with elements of the given lengths."""
    s = "}\nextern \"C\" {\n"
    for i, sh in enumerate(shapes):
        at = 0; body = ""
        for n in sh: body += " p->nextData(d + %d, %d);" % (at, n); at += n
        s += "void h_hist_%d(T *p, const unsigned char *d) {%s }\n" % (i, body)
        s += "void s_hist_%d(const unsigned char *key, const unsigned char *d, unsigned char *o) { static const spec::u64 lens[] = {%s}; spec::tuple_hash(key, d, lens, %d, o); }\n" % (i, ", ".join(map(str, sh)) or "0", len(sh))
    return source(a, extra=s, addfn="nextData"), dict(shapes=len(shapes), totals=",".join(str(sum(x)) for x in shapes))
