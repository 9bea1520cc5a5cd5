// Model of the parts of <iostream>, <istream>, <ostream>, <fstream> and <cstdio> input that a command-line program uses. The
// operations on files end in vp_open / vp_read, whose results the analysis branches over. Behaviour follows libstdc++.
#pragma once
#include <iosfwd>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <exception>
#include <new>
#include <stdexcept>
extern "C" {
int vp_open(const char *name); int vp_stdin(); long vp_read(int h, void *buf, long n); void vp_out(int fd, const char *p, long n);
extern char vp_stdout_obj[8], vp_stderr_obj[8];
}
namespace std {
typedef long streamsize_vp;
class ios_base
{
public:
	enum openmode_vp { in = 8, out = 16, binary = 4, ate = 2, app = 1, trunc = 32 };
	typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags;
	static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
	enum seekdir { beg, cur, end };
	static bool sync_with_stdio(bool = true) { return true; }
	class failure : public runtime_error { public: explicit failure(const char *s) : runtime_error(s) {} };
};
inline unsigned operator|(ios_base::openmode_vp a, ios_base::openmode_vp b) { return (unsigned)a | (unsigned)b; }
inline unsigned operator|(unsigned a, ios_base::openmode_vp b) { return a | (unsigned)b; }
template<> class basic_ios<char, char_traits<char>> : public ios_base
{
public:
	unsigned vp_st = 0, vp_ex = 0; int vp_h = 0, vp_fd = 0;
	bool good() const { return vp_st == 0; } bool eof() const { return vp_st & eofbit; } bool fail() const { return vp_st & (badbit | failbit); } bool bad() const { return vp_st & badbit; }
	unsigned rdstate() const { return vp_st; } void setstate(unsigned s) { clear(vp_st | s); }
	void clear(unsigned s = 0) { vp_st = s; if (vp_st & vp_ex) throw failure("stream"); }
	unsigned exceptions() const { return vp_ex; } void exceptions(unsigned e) { vp_ex = e; clear(vp_st); }
	explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
	basic_ostream<char, char_traits<char>> *tie(basic_ostream<char, char_traits<char>> *) { return nullptr; }
	virtual ~basic_ios() {}
};
template<> class basic_ostream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
public:
	basic_ostream() {}
	basic_ostream &write(const char *p, long n) { vp_out(vp_fd, p, n); return *this; }
	basic_ostream &put(char c) { vp_out(vp_fd, &c, 1); return *this; }
	basic_ostream &flush() { return *this; }
	basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
	basic_ostream &operator<<(bool v) { return put(v ? '1' : '0'); }
	basic_ostream &operator<<(int v) { return *this << (long)v; } basic_ostream &operator<<(unsigned v) { return *this << (unsigned long)v; }
	basic_ostream &operator<<(long v) { char b[32]; int n = snprintf(b, 32, "%ld", v); return write(b, n); }
	basic_ostream &operator<<(unsigned long v) { char b[32]; int n = snprintf(b, 32, "%lu", v); return write(b, n); }
	basic_ostream &operator<<(long long v) { return *this << (long)v; } basic_ostream &operator<<(unsigned long long v) { return *this << (unsigned long)v; }
};
typedef basic_ostream<char, char_traits<char>> vp_os;
inline vp_os &operator<<(vp_os &o, const char *s) { return o.write(s, (long)strlen(s)); }
inline vp_os &operator<<(vp_os &o, char c) { return o.put(c); }
inline vp_os &operator<<(vp_os &o, const string &s) { return o.write(s.data(), (long)s.size()); }
inline vp_os &endl(vp_os &o) { return o.put('\n'); }
inline vp_os &flush(vp_os &o) { return o; }
template<> class basic_istream<char, char_traits<char>> : virtual public basic_ios<char, char_traits<char>>
{
	long vp_g = 0; bool vp_peeked = false; unsigned char vp_pk = 0;
	// up to n bytes; -1 on an error
	long vp_take(char *p, long n)
	{
		if (n <= 0) return 0; long k = 0; if (vp_peeked) { *p = (char)vp_pk; vp_peeked = false; k = 1; if (n == 1) return 1; }
		long r = vp_read(vp_h, p + k, n - k); return r < 0 ? r : r + k;
	}
public:
	basic_istream() {}
	typedef int int_type; typedef char char_type;
	basic_istream &read(char *p, long n)
	{
		vp_g = 0; if (!good()) { setstate(failbit); return *this; }
		long r = vp_take(p, n); if (r < 0) { setstate(badbit); return *this; }
		vp_g = r; if (r != n) setstate(eofbit | failbit);
		return *this;
	}
	long readsome(char *p, long n) { vp_g = 0; if (!good()) { setstate(failbit); return 0; } long r = vp_take(p, n); if (r < 0) { setstate(badbit); return 0; } vp_g = r; if (r == 0 && n) setstate(eofbit); return r; }
	long gcount() const { return vp_g; }
	int get()
	{
		vp_g = 0; if (!good()) { setstate(failbit); return -1; } char c; long r = vp_take(&c, 1); if (r < 0) { setstate(badbit); return -1; } if (r == 0) { setstate(eofbit | failbit); return -1; } vp_g = 1; return (unsigned char)c;
	}
	basic_istream &get(char &c) { vp_g = 0; if (!good()) { setstate(failbit); return *this; } long r = vp_take(&c, 1); if (r < 0) setstate(badbit); else if (r == 0) setstate(eofbit | failbit); else vp_g = 1; return *this; }
	int peek()
	{
		vp_g = 0; if (!good()) return -1; if (vp_peeked) return vp_pk; char c; long r = vp_read(vp_h, &c, 1); if (r < 0) { setstate(badbit); return -1; } if (r == 0) { setstate(eofbit); return -1; } vp_peeked = true; vp_pk = (unsigned char)c; return vp_pk;
	}
};
template<> class basic_iostream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>, public basic_ostream<char, char_traits<char>> {};
template<> class basic_ifstream<char, char_traits<char>> : public basic_istream<char, char_traits<char>>
{
public:
	basic_ifstream() {}
	explicit basic_ifstream(const char *n, unsigned = 8) { open(n); } explicit basic_ifstream(const string &n, unsigned = 8) { open(n.c_str()); }
	basic_ifstream(basic_ifstream &&o) : basic_istream<char, char_traits<char>>() { vp_h = o.vp_h; vp_st = o.vp_st; o.vp_h = 0; }
	basic_ifstream(const basic_ifstream &) = delete; basic_ifstream &operator=(const basic_ifstream &) = delete;
	basic_ifstream &operator=(basic_ifstream &&o) { vp_h = o.vp_h; vp_st = o.vp_st; o.vp_h = 0; return *this; }
	void open(const char *n, unsigned = 8) { vp_h = vp_open(n); if (!vp_h) setstate(failbit); else clear(); } void open(const string &n, unsigned m = 8) { open(n.c_str(), m); }
	bool is_open() const { return vp_h != 0; } void close() { if (!vp_h) setstate(failbit); vp_h = 0; }
	~basic_ifstream() {}
};
extern istream cin; extern ostream cout, cerr, clog;
}
