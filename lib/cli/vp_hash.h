// The library's classes as recorders: what is constructed, what is fed, what is printed.
#pragma once
#include <array>
#include <cstdint>
#include <cstddef>
#include <cstdlib>
#include <string>
#include <vector>
#include <utility>
extern "C" { int vp_new(int cls, long len, const char *n, long nl, const char *c, long cl); int vp_add(int h, const void *p, long n); int vp_next(int h, const void *p, long n); int vp_fin(int h); void vp_text(int h, char *out); }
namespace vp
{
struct View
{
	const void *p; long n; View(const void *q, long m) : p(q), n(m) {}
	template <typename T> View(const T &c) : p(c.data()), n((long)(c.size() * sizeof(*c.data()))) {}
};
static inline int hx(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
template <typename D> struct Ops
{
	int h; long pad[4] = {}; D &self() { return static_cast<D &>(*this); }
	void reset() { h = D::fresh(*this); }
	D &finalize() { h = vp_fin(h); return self(); }
	std::string toString() const { char b[33]; vp_text(h, b); return std::string(b, 32); }
	std::vector<uint8_t> toVector() const { char b[33]; vp_text(h, b); std::vector<uint8_t> v; for (int i = 0; i < 16; ++i) v.push_back((uint8_t)(hx(b[2 * i]) * 16 + hx(b[2 * i + 1]))); return v; }
	std::array<uint8_t, 16> toArray() const { char b[33]; vp_text(h, b); std::array<uint8_t, 16> v; for (int i = 0; i < 16; ++i) v[i] = (uint8_t)(hx(b[2 * i]) * 16 + hx(b[2 * i + 1])); return v; }
};
template <typename D> struct Add : Ops<D>
{
	D &addData(const View &v) { this->h = vp_add(this->h, v.p, v.n); return this->self(); }
	D &addData(const void *p, const long int n) { this->h = vp_add(this->h, p, n); return this->self(); }
	template <typename T, size_t N> D &addData(const T (&a)[N]) { this->h = vp_add(this->h, a, (long)sizeof(a)); return this->self(); }
};
template <int C> struct Plain : Add<Plain<C>> { Plain() { this->h = vp_new(C, -1, "", 0, "", 0); } static int fresh(const Ops<Plain<C>> &) { return vp_new(C, -1, "", 0, "", 0); } };
template <int C> struct Xof : Add<Xof<C>> { int l; explicit Xof(int n) : l(n) { this->h = vp_new(C, n, "", 0, "", 0); } static int fresh(const Ops<Xof<C>> &o) { return vp_new(C, static_cast<const Xof &>(o).l, "", 0, "", 0); } };
template <int C> struct CXof : Add<CXof<C>>
{
	int l; std::string n_, c_; explicit CXof(int n, const std::string &nm = {}, const std::string &cu = {}) : l(n), n_(nm), c_(cu) { this->h = fresh(*this); }
	static int fresh(const Ops<CXof<C>> &o) { auto &x = static_cast<const CXof &>(o); return vp_new(C, x.l, x.n_.data(), (long)x.n_.size(), x.c_.data(), (long)x.c_.size()); }
};
template <int C> struct Tup : Ops<Tup<C>>
{
	int l; std::string c_; explicit Tup(int n, const std::string &cu = {}) : l(n), c_(cu) { this->h = fresh(*this); }
	static int fresh(const Ops<Tup<C>> &o) { auto &x = static_cast<const Tup &>(o); return vp_new(C, x.l, "", 0, x.c_.data(), (long)x.c_.size()); }
	Tup &nextData(const View &v) { this->h = vp_next(this->h, v.p, v.n); return *this; }
	Tup &nextData(const void *p, const long int n) { this->h = vp_next(this->h, p, n); return *this; }
	template <typename T, size_t N> Tup &nextData(const T (&a)[N]) { this->h = vp_next(this->h, a, (long)sizeof(a)); return *this; }
};
template <int C> struct Keyed : Add<Keyed<C>>
{
	std::string k_; Keyed(const View &k) : k_((const char *)k.p, (size_t)k.n) { this->h = fresh(*this); } template <size_t N> Keyed(const uint8_t (&k)[N]) : Keyed(View(k, (long)N)) {}
	static int fresh(const Ops<Keyed<C>> &o) { auto &x = static_cast<const Keyed &>(o); return vp_new(C, -1, x.k_.data(), (long)x.k_.size(), "", 0); }
};
}
