// Definitions of run-time library functions that live in libstdc++.so, so that the analysis can follow them.
#pragma once
#include "vp_io.h"
#include <map>
#include <functional>
struct vp_in { std::istream s; vp_in() { s.vp_h = vp_stdin(); } };
extern "C" { char vp_stdout_obj[8], vp_stderr_obj[8]; }
struct vp_FILE { int h; bool eof, err; int back; };
static vp_FILE vp_stdin_file = {0, false, false, -1};
extern "C" {
FILE *stdout = (FILE *)vp_stdout_obj; FILE *stderr = (FILE *)vp_stderr_obj; FILE *stdin = (FILE *)&vp_stdin_file;
static int vp_fh(vp_FILE *f) { if (f == &vp_stdin_file && !f->h) f->h = vp_stdin(); return f->h; }
FILE *fopen(const char *n, const char *) { int h = vp_open(n); if (!h) return nullptr; vp_FILE *f = (vp_FILE *)::operator new(sizeof(vp_FILE)); f->h = h; f->eof = f->err = false; f->back = -1; return (FILE *)f; }
int fclose(FILE *f) { if (f == (FILE *)&vp_stdin_file || f == (FILE *)vp_stdout_obj || f == (FILE *)vp_stderr_obj) return 0; ::operator delete((void *)f); return 0; }
size_t fread(void *p, size_t s, size_t n, FILE *F)
{
	vp_FILE *f = (vp_FILE *)F; size_t want = s * n, k = 0; if (!want || f->eof || f->err) return 0; if (f->back >= 0) { *(char *)p = (char)f->back; f->back = -1; k = 1; }
	if (k < want) { long r = vp_read(vp_fh(f), (char *)p + k, (long)(want - k)); if (r < 0) { f->err = true; return k / s; } if ((size_t)r < want - k) f->eof = true; k += (size_t)r; }
	return s == 1 ? k : k / s;
}
int fgetc(FILE *F) { vp_FILE *f = (vp_FILE *)F; if (f->back >= 0) { int c = f->back; f->back = -1; return c; } if (f->eof || f->err) return -1; unsigned char c; long r = vp_read(vp_fh(f), &c, 1); if (r < 0) { f->err = true; return -1; } if (r == 0) { f->eof = true; return -1; } return c; }
int getc(FILE *f) { return fgetc(f); }
int ungetc(int c, FILE *F) { vp_FILE *f = (vp_FILE *)F; f->back = c; f->eof = false; return c; }
#undef feof
#undef ferror
int feof(FILE *f) { return ((vp_FILE *)f)->eof; }
int ferror(FILE *f) { if (f == (FILE *)vp_stdout_obj || f == (FILE *)vp_stderr_obj) return 0; return ((vp_FILE *)f)->err; }
void clearerr(FILE *f) { ((vp_FILE *)f)->eof = ((vp_FILE *)f)->err = false; }
}
template class std::basic_string<char>;
namespace std
{
exception::~exception() noexcept {} const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {} const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_exception::~bad_exception() noexcept {} const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
#define VP_E(T, B) T::T(const char *s) : B(s) {} T::T(const string &s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const char *) {} logic_error::logic_error(const string &) {} logic_error::~logic_error() noexcept {} const char *logic_error::what() const noexcept { return "std::logic_error"; }
logic_error::logic_error(const logic_error &) noexcept {}
runtime_error::runtime_error(const char *) {} runtime_error::runtime_error(const string &) {} runtime_error::~runtime_error() noexcept {} const char *runtime_error::what() const noexcept { return "std::runtime_error"; }
runtime_error::runtime_error(const runtime_error &) noexcept {}
domain_error::~domain_error() noexcept {} domain_error::domain_error(const char *s) : logic_error(s) {} domain_error::domain_error(const string &s) : logic_error(s) {}
VP_E(invalid_argument, logic_error) VP_E(out_of_range, logic_error) VP_E(length_error, logic_error) VP_E(range_error, runtime_error) VP_E(overflow_error, runtime_error) VP_E(underflow_error, runtime_error)
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); } void __throw_out_of_range(const char *s) { throw out_of_range(s); } void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_logic_error(const char *s) { throw logic_error(s); } void __throw_domain_error(const char *s) { throw domain_error(s); } void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_alloc(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
istream cin; ostream cout, cerr, clog;
static struct vp_streams { vp_streams() { cin.vp_h = vp_stdin(); cout.vp_fd = 1; cerr.vp_fd = clog.vp_fd = 2; } } vp_streams_init;
// std::map and std::set: an unbalanced tree keeps the same order
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
	x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept
{
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	_Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept
{
	if (x->_M_parent && x->_M_parent->_M_parent == x && x->_M_color == _S_red && x->_M_left && x->_M_right && x->_M_parent->_M_left != x && x->_M_parent->_M_right != x) return x->_M_right;
	if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	_Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// the value does not matter to a correct program
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *b = (const unsigned char *)p; size_t h = seed; for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
}
#include <unordered_map>
namespace std { namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k = n < 1 ? 1 : n | 1; _M_next_resize = k; return k; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > _M_next_resize || bkt == 1) { size_t w = 2 * (elt + ins) + 11; return {true, _M_next_bkt(w)}; } return {false, 0}; }
} }
