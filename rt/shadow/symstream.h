// Minimal stream library used only when the code is compiled for symbolic execution.
#ifndef SYMSTREAM_H
#define SYMSTREAM_H
#include <iosfwd>
#include <string>
#include <cstring>
#include <bits/stl_iterator_base_types.h>
#include <exception>
#include <stdexcept>
#include <new>
#include <system_error>
#include <type_traits>
#include <utility>
#include <cctype>
extern "C" { int __sym_fmt_double(double, int, int, char*); int __sym_fmt_int(long, int, char*); long __sym_parse_double(const char*, long, double*); long __sym_parse_int(const char*, long, int, long*, int);
  void __symfs_write(const char* name, const char* p, unsigned long n, int append); int __symfs_find(const char* name, const char** p, unsigned long* n); }
namespace std {
typedef long streamsize_;
class locale { public: typedef int category; static const category none = 0, ctype = 1, numeric = 2, collate = 4, time = 8, monetary = 16, messages = 32, all = 63; locale() {} explicit locale(const char*) {} explicit locale(const string&) {} locale(const locale&) {} locale(const locale&, const char*, category) {} template <class F> locale(const locale&, F*) {} locale& operator=(const locale&) { return *this; } static locale global(const locale& l) { return l; } static const locale& classic() { static locale l; return l; } string name() const { return "C"; } bool operator==(const locale&) const { return true; } bool operator!=(const locale&) const { return false; } };
class ios_base { public:
  typedef unsigned openmode; typedef unsigned iostate; typedef unsigned fmtflags; typedef int seekdir;
  static const openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
  static const iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
  static const fmtflags fixed = 1, scientific = 2, left = 4, right = 8, hex = 16, dec = 32, boolalpha = 64, showpoint = 128, internal = 256, floatfield = 3, adjustfield = 268, basefield = 4144, skipws = 512, showpos = 1024, uppercase = 2048, oct = 4096, showbase = 8192, unitbuf = 16384;
  static const seekdir beg = 0, cur = 1, end = 2;
  class failure : public runtime_error { public: explicit failure(const string& s) : runtime_error(s) {} };
  class Init { public: Init() {} };
  fmtflags _f; int _prec; int _w;
  ios_base() : _f(skipws | dec), _prec(6), _w(0) {}
  virtual ~ios_base() {}
  fmtflags flags() const { return _f; } fmtflags flags(fmtflags x) { fmtflags o = _f; _f = x; return o; }
  fmtflags setf(fmtflags x) { fmtflags o = _f; _f |= x; return o; } fmtflags setf(fmtflags x, fmtflags m) { fmtflags o = _f; _f = (_f & ~m) | x; return o; } void unsetf(fmtflags x) { _f &= ~x; }
  long precision() const { return _prec; } long precision(long p) { long o = _prec; _prec = (int)p; return o; }
  long width() const { return _w; } long width(long p) { long o = _w; _w = (int)p; return o; }
  typedef unsigned open_mode; locale getloc() const { return locale(); } locale imbue(const locale& l) { return l; }
  static bool sync_with_stdio(bool = true) { return true; }
};
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
template <class C, class T> class basic_streambuf { public: typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type; basic_string<C, T>* _to; basic_string<C, T>* _from; unsigned long _at; basic_streambuf() : _to(0), _from(0), _at(0) {} virtual ~basic_streambuf() {}
  streamsize sputn(const C* p, streamsize n) { if (_to) _to->append(p, n); else for (streamsize i = 0; i < n; i++) sputc(p[i]); return n; } int_type sputc(C c) { if (_to) { _to->push_back(c); return T::to_int_type(c); } return overflow(T::to_int_type(c)); } int_type sgetc() { return _from && _at < _from->size() ? T::to_int_type((*_from)[_at]) : T::eof(); } int_type sbumpc() { int_type c = sgetc(); if (!T::eq_int_type(c, T::eof())) _at++; return c; } int_type snextc() { sbumpc(); return sgetc(); } int_type sungetc() { if (!_at) return T::eof(); _at--; return sgetc(); } int_type sputbackc(C) { return sungetc(); } streamsize sgetn(C* p, streamsize n) { streamsize i = 0; while (_from && i < n && _at < _from->size()) p[i++] = (*_from)[_at++]; return i; } streamsize in_avail() { return _from ? (streamsize)(_from->size() - _at) : 0; } int pubsync() { return sync(); } locale getloc() const { return locale(); }
  protected: virtual int_type overflow(int_type c = T::eof()) { return c; } virtual streamsize xsputn(const C*, streamsize n) { return n; } virtual int_type underflow() { return T::eof(); } virtual int sync() { return 0; } };
template <class C, class T> class basic_ios : public ios_base { public:
  typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef long pos_type; typedef long off_type;
  iostate _st; C _fill; basic_streambuf<C, T> _own; basic_streambuf<C, T>* _buf; basic_ios() : _st(0), _fill(' '), _buf(&_own) {} basic_ios(const basic_ios& o) : ios_base(o), _st(o._st), _fill(o._fill), _own(o._own), _buf(o._buf == &o._own ? &_own : o._buf) {} explicit basic_ios(basic_streambuf<C, T>* b) : _st(0), _fill(' '), _buf(b) {} void init(basic_streambuf<C, T>* b) { _buf = b; } void _bind(basic_string<C, T>* from, basic_string<C, T>* to) { _own._from = from; _own._to = to; _buf = &_own; }
  template <class S> void _move(S& o) { _own._at = o._own._at; _st = o._st; _f = o._f; _prec = o._prec; _w = o._w; _fill = o._fill; }
  explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
  bool good() const { return _st == 0; } bool eof() const { return _st & eofbit; } bool fail() const { return _st & (badbit | failbit); } bool bad() const { return _st & badbit; }
  iostate rdstate() const { return _st; } void clear(iostate s = goodbit) { _st = s; } void setstate(iostate s) { _st |= s; } C fill() const { return _fill; } C fill(C c) { C o = _fill; _fill = c; return o; }
  void exceptions(iostate) {} iostate exceptions() const { return 0; } basic_streambuf<C, T>* rdbuf() const { return _buf; } basic_streambuf<C, T>* rdbuf(basic_streambuf<C, T>* b) { basic_streambuf<C, T>* o = _buf; _buf = b; clear(); return o; } basic_ostream<C, T>* tie() const { return 0; } basic_ostream<C, T>* tie(basic_ostream<C, T>*) { return 0; } C widen(char c) const { return (C)c; } char narrow(C c, char) const { return (char)c; }
  basic_ios& copyfmt(const basic_ios& o) { _f = o._f; _prec = o._prec; return *this; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> { public:
  basic_ostream() {} explicit basic_ostream(basic_streambuf<C, T>* b) { this->_buf = b; } virtual ~basic_ostream() {} basic_string<C, T>* _S() const { return this->_buf ? this->_buf->_to : 0; }
  class sentry { public: explicit sentry(basic_ostream&) {} explicit operator bool() const { return true; } };
  basic_ostream& _put(const C* p, unsigned long n) {
    if (_S()) { unsigned long w = this->_w > 0 ? (unsigned long)this->_w : 0; if (w > n && !(this->_f & ios_base::left)) _S()->append(w - n, this->_fill); _S()->append(p, n); if (w > n && (this->_f & ios_base::left)) _S()->append(w - n, this->_fill); }
    this->_w = 0; return *this; }
  basic_ostream& write(const C* p, streamsize n) { if (_S()) _S()->append(p, n); return *this; } basic_ostream& put(C c) { if (_S()) _S()->push_back(c); return *this; } basic_ostream& flush() { return *this; }
  long tellp() { return _S() ? (long)_S()->size() : 0; } basic_ostream& seekp(long) { return *this; } basic_ostream& seekp(long, int) { return *this; }
  basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; } basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
  basic_ostream& operator<<(double v) { if (!_S()) { this->_w = 0; return *this; } char b[512]; int n = __sym_fmt_double(v, this->_prec, this->_f & ios_base::fixed ? 1 : this->_f & ios_base::scientific ? 2 : 0, b); return _put(b, n); }
  basic_ostream& operator<<(float v) { return *this << (double)v; } basic_ostream& operator<<(long double v) { return *this << (double)v; }
  basic_ostream& _int(long v, int u) { if (!_S()) { this->_w = 0; return *this; } char b[72]; int n = 0; if (this->_f & (ios_base::hex | ios_base::oct)) { unsigned long x = (unsigned long)v, base = this->_f & ios_base::hex ? 16 : 8; char t[32]; int k = 0; do { int d = (int)(x % base); t[k++] = (char)(d < 10 ? '0' + d : (this->_f & ios_base::uppercase ? 'A' : 'a') + d - 10); x /= base; } while (x); if (this->_f & ios_base::showbase) { b[n++] = '0'; if (base == 16) b[n++] = this->_f & ios_base::uppercase ? 'X' : 'x'; } while (k) b[n++] = t[--k]; } else { if ((this->_f & ios_base::showpos) && !u && v >= 0) b[n++] = '+'; n += __sym_fmt_int(v, u, b + n); } return _put(b, n); }
  basic_ostream& operator<<(long v) { return _int(v, 0); } basic_ostream& operator<<(unsigned long v) { return _int((long)v, 1); } basic_ostream& operator<<(int v) { return _int(this->_f & (ios_base::hex | ios_base::oct) ? (long)(unsigned long)(unsigned)v : v, 0); } basic_ostream& operator<<(unsigned v) { return _int((long)(unsigned long)v, 1); }
  basic_ostream& operator<<(short v) { return _int(v, 0); } basic_ostream& operator<<(unsigned short v) { return _int(v, 0); } basic_ostream& operator<<(long long v) { return _int((long)v, 0); } basic_ostream& operator<<(unsigned long long v) { return _int((long)v, 1); }
  basic_ostream& operator<<(bool v) { if (this->_f & ios_base::boolalpha) return v ? _put("true", 4) : _put("false", 5); return _int(v ? 1 : 0, 0); }
  basic_ostream& operator<<(decltype(nullptr)) { return _put("nullptr", 7); } basic_ostream& operator<<(const void*) { return _put("0x1", 3); } basic_ostream& operator<<(basic_streambuf<C, T>* b) { if (b && b->_from && b->_at < b->_from->size()) { basic_string<C, T> x(b->_from->data() + b->_at, b->_from->size() - b->_at); b->_at = b->_from->size(); if (_S()) _S()->append(x); } else this->setstate(ios_base::failbit); return *this; }
};
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o._put(&c, 1); }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = (char)c; return o._put(&d, 1); }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = (char)c; return o._put(&d, 1); }
template <class T> inline basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._put(s, strlen(s)); }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { return o._put(s.data(), s.size()); }
template <class C, class T> inline basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { o.put('\n'); return o; }
template <class C, class T> inline basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { o.put('\0'); return o; }
template <class C, class T> inline basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
template <class X> inline basic_ostream<char>& operator<<(basic_ostream<char>&& o, const X& x) { return o << x; }
template <class C, class T> class basic_istream : virtual public basic_ios<C, T> { public:
  long _cnt; basic_istream() : _cnt(0) {} explicit basic_istream(basic_streambuf<C, T>* b) : _cnt(0) { this->_buf = b; } virtual ~basic_istream() {} basic_string<C, T>* _R() const { return this->_buf ? this->_buf->_from : 0; } unsigned long& _P() const { return this->_buf->_at; }
  typedef typename T::int_type int_type;
  bool _ws() { if (!this->good() || !_R()) { this->setstate(ios_base::failbit); return false; } while ((this->_f & ios_base::skipws) && _P() < _R()->size()) { C c = (*_R())[_P()]; if (c == ' ' || (c >= '\t' && c <= '\r')) _P()++; else break; } if (_P() >= _R()->size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; } return true; }
  basic_istream& operator>>(double& v) { if (!_ws()) return *this; double d = 0; long n = __sym_parse_double(_R()->data() + _P(), _R()->size() - _P(), &d); if (n <= 0) { v = 0; this->setstate(ios_base::failbit); } else { v = d; _P() += n; if (_P() >= _R()->size()) this->setstate(ios_base::eofbit); } return *this; }
  basic_istream& operator>>(float& v) { double d = v; *this >> d; v = (float)d; return *this; }
  basic_istream& _ri(long& v, int u) { if (!_ws()) return *this; long d = 0; long n = __sym_parse_int(_R()->data() + _P(), _R()->size() - _P(), this->_f & ios_base::hex ? 16 : this->_f & ios_base::oct ? 8 : 10, &d, u); if (n <= 0) { v = 0; this->setstate(ios_base::failbit); } else { v = d; _P() += n; if (_P() >= _R()->size()) this->setstate(ios_base::eofbit); } return *this; }
  basic_istream& operator>>(long& v) { return _ri(v, 0); } basic_istream& operator>>(unsigned long& v) { long x = (long)v; _ri(x, 1); v = (unsigned long)x; return *this; } basic_istream& operator>>(long long& v) { long x = (long)v; _ri(x, 0); v = x; return *this; } basic_istream& operator>>(unsigned long long& v) { long x = (long)v; _ri(x, 1); v = (unsigned long long)x; return *this; }
  basic_istream& operator>>(int& v) { long x = v; _ri(x, 0); if (x > 2147483647L) { x = 2147483647L; this->setstate(ios_base::failbit); } if (x < -2147483648L) { x = -2147483648L; this->setstate(ios_base::failbit); } v = (int)x; return *this; }
  basic_istream& operator>>(unsigned& v) { long x = v; _ri(x, 0); v = (unsigned)x; return *this; } basic_istream& operator>>(short& v) { long x = v; _ri(x, 0); v = (short)x; return *this; } basic_istream& operator>>(bool& v) { long x = v; if (_ri(x, 0)) { if (x != 0 && x != 1) this->setstate(ios_base::failbit); v = x != 0; } return *this; }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
  int_type get() { if (!this->good() || !_R() || _P() >= _R()->size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return T::eof(); } return T::to_int_type((*_R())[_P()++]); }
  basic_istream& get(C& c) { int_type x = get(); if (x != T::eof()) c = (C)x; return *this; } int_type peek() { if (!this->good() || !_R()) return T::eof(); if (_P() >= _R()->size()) { this->setstate(ios_base::eofbit); return T::eof(); } return T::to_int_type((*_R())[_P()]); }
  basic_istream& read(C* p, streamsize n) { _cnt = 0; while (_cnt < n) { if (!_R() || _P() >= _R()->size()) { this->setstate(ios_base::eofbit | ios_base::failbit); break; } p[_cnt++] = (*_R())[_P()++]; } return *this; } streamsize gcount() const { return _cnt; }
  basic_istream& ignore(streamsize n = 1, int_type d = T::eof()) { while (n-- > 0) { int_type x = get(); if (x == T::eof()) { this->clear(ios_base::eofbit); break; } if (x == d) break; } return *this; }
  long tellg() { return this->fail() ? -1 : (long)_P(); } basic_istream& seekg(long p) { this->_st &= ~ios_base::eofbit; _P() = p; return *this; } basic_istream& seekg(long p, int dir) { this->_st &= ~ios_base::eofbit; _P() = dir == 0 ? p : dir == 1 ? _P() + p : (_R() ? _R()->size() : 0) + p; return *this; }
  basic_istream& unget() { this->_st &= ~ios_base::eofbit; if (_R() && _P()) _P()--; return *this; } basic_istream& putback(C) { if (_P()) _P()--; return *this; }
  basic_istream& getline(C* b, streamsize n, C d = '\n') { streamsize i = 0; _cnt = 0; for (;;) { int_type x = get(); if (x == T::eof()) { if (i) this->clear(ios_base::eofbit); break; } if (x == d) { _cnt = i + 1; break; } if (i >= n - 1) { _P()--; this->setstate(ios_base::failbit); break; } b[i++] = (C)x; _cnt = i; } b[i] = 0; return *this; }
  basic_istream& get(C* b, streamsize n, C d = '\n') { streamsize i = 0; while (i < n - 1) { int_type x = peek(); if (x == T::eof()) break; if (x == d) break; b[i++] = (C)get(); } b[i] = 0; _cnt = i; if (!i) this->setstate(ios_base::failbit); return *this; } streamsize readsome(C* p, streamsize n) { streamsize k = _R() ? (streamsize)(_R()->size() - _P()) : 0; if (k > n) k = n; read(p, k); return k; } int sync() { return 0; }
  class sentry { bool ok; public: explicit sentry(basic_istream& i, bool no = false) { ok = no ? i.good() : i._ws(); } explicit operator bool() const { return ok; } };
};
template <class C, class T> inline basic_istream<C, T>& ws(basic_istream<C, T>& i) { if (i.good()) { while (i._R() && i._P() < i._R()->size() && isspace((unsigned char)(*i._R())[i._P()])) i._P()++; } return i; }
template <class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, unsigned char& c) { if (i._ws()) c = (unsigned char)(*i._R())[i._P()++]; return i; }
template <class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char* p) { unsigned long w = i.width() > 0 ? (unsigned long)i.width() - 1 : (unsigned long)-1; i.width(0); if (!i._ws()) { *p = 0; return i; } while (w-- && i._P() < i._R()->size()) { char c = (*i._R())[i._P()]; if (c == ' ' || (c >= '\t' && c <= '\r')) break; *p++ = c; i._P()++; } *p = 0; if (i._P() >= i._R()->size()) i.setstate(ios_base::eofbit); return i; }
template <class T> inline basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c) { if (i._ws()) c = (*i._R())[i._P()++]; return i; }
inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s) { if (!i._ws()) return i; s.clear(); while (i._P() < i._R()->size()) { char c = (*i._R())[i._P()]; if (c == ' ' || (c >= '\t' && c <= '\r')) break; s.push_back(c); i._P()++; } if (i._P() >= i._R()->size()) i.setstate(ios_base::eofbit); return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char d) { if (!i.good() || !i._R()) { i.setstate(ios_base::failbit); return i; } s.clear(); if (i._P() >= i._R()->size()) { i.setstate(ios_base::eofbit | ios_base::failbit); return i; } for (;;) { if (i._P() >= i._R()->size()) { i.setstate(ios_base::eofbit); break; } char c = (*i._R())[i._P()++]; if (c == d) break; s.push_back(c); } return i; }
inline basic_istream<char>& getline(basic_istream<char>& i, string& s) { return getline(i, s, '\n'); }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> { public: basic_iostream() {} explicit basic_iostream(basic_streambuf<C, T>*) {} virtual ~basic_iostream() {} };
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringbuf : public basic_streambuf<C, T> { public: basic_string<C, T, A> _b; basic_stringbuf() { this->_from = this->_to = &_b; } explicit basic_stringbuf(unsigned) { this->_from = this->_to = &_b; } explicit basic_stringbuf(const basic_string<C, T, A>& s, unsigned = 0) : _b(s) { this->_from = this->_to = &_b; } basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; this->_at = 0; } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_filebuf : public basic_streambuf<C, T> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T> { public: basic_string<C, T, A> _b; basic_ostringstream(basic_ostringstream&& o) : _b(std::move(o._b)) { this->_bind(0, &_b); this->_move(o); } basic_ostringstream& operator=(basic_ostringstream&& o) { _b = std::move(o._b); this->_move(o); return *this; } void swap(basic_ostringstream& o) { basic_ostringstream x(std::move(*this)); *this = std::move(o); o = std::move(x); } basic_ostringstream() { this->_bind(0, &_b); } explicit basic_ostringstream(unsigned) { this->_bind(0, &_b); } explicit basic_ostringstream(const basic_string<C, T, A>& s, unsigned = 0) : _b(s) { this->_bind(0, &_b); } basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; } };
_GLIBCXX_END_NAMESPACE_CXX11
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_istringstream : public basic_istream<C, T> { public: basic_string<C, T, A> _b; basic_istringstream(basic_istringstream&& o) : _b(std::move(o._b)) { this->_bind(&_b, 0); this->_move(o); } basic_istringstream& operator=(basic_istringstream&& o) { _b = std::move(o._b); this->_move(o); return *this; } void swap(basic_istringstream& o) { basic_istringstream x(std::move(*this)); *this = std::move(o); o = std::move(x); } basic_istringstream() { this->_bind(&_b, 0); } explicit basic_istringstream(const basic_string<C, T, A>& s, unsigned = 0) : _b(s) { this->_bind(&_b, 0); } basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; this->_P() = 0; } };
_GLIBCXX_END_NAMESPACE_CXX11
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C, class T, class A> class basic_stringstream : public basic_iostream<C, T> { public: basic_string<C, T, A> _b; basic_stringstream(basic_stringstream&& o) : _b(std::move(o._b)) { this->_bind(&_b, &_b); this->_move(o); } basic_stringstream& operator=(basic_stringstream&& o) { _b = std::move(o._b); this->_move(o); return *this; } void swap(basic_stringstream& o) { basic_stringstream x(std::move(*this)); *this = std::move(o); o = std::move(x); } basic_stringstream() { this->_bind(&_b, &_b); } explicit basic_stringstream(unsigned) { this->_bind(&_b, &_b); } explicit basic_stringstream(const basic_string<C, T, A>& s, unsigned = 0) : _b(s) { this->_bind(&_b, &_b); } basic_string<C, T, A> str() const { return _b; } void str(const basic_string<C, T, A>& s) { _b = s; this->_P() = 0; } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class C, class T> class basic_ofstream : public basic_ostream<C, T> { public: basic_string<C, T> _b; string _n; bool _op, _app; basic_ofstream(basic_ofstream&& o) : _b(std::move(o._b)), _n(o._n), _op(o._op), _app(o._app) { this->_bind(0, &_b); this->_move(o); o._op = false; } basic_ofstream& operator=(basic_ofstream&& o) { close(); _b = std::move(o._b); _n = o._n; _op = o._op; _app = o._app; this->_move(o); o._op = false; return *this; } basic_ofstream() : _op(false), _app(false) { this->_bind(0, &_b); } explicit basic_ofstream(const char* n, unsigned m = ios_base::out) : _op(false) { this->_bind(0, &_b); open(n, m); } explicit basic_ofstream(const string& n, unsigned m = ios_base::out) : _op(false) { this->_bind(0, &_b); open(n.c_str(), m); }
  void open(const char* n, unsigned m = ios_base::out) { _n = n; _op = true; _app = (m & ios_base::app) != 0; _b.clear(); } void open(const string& n, unsigned m = ios_base::out) { open(n.c_str(), m); } bool is_open() const { return _op; } void close() { if (_op) __symfs_write(_n.c_str(), _b.data(), _b.size(), _app); _op = false; } ~basic_ofstream() { close(); } };
template <class C, class T> class basic_ifstream : public basic_istream<C, T> { public: basic_string<C, T> _b; bool _op; basic_ifstream(basic_ifstream&& o) : _b(std::move(o._b)), _op(o._op) { this->_bind(&_b, 0); this->_move(o); o._op = false; } basic_ifstream& operator=(basic_ifstream&& o) { _b = std::move(o._b); _op = o._op; this->_move(o); o._op = false; return *this; } basic_ifstream() : _op(false) { this->_bind(&_b, 0); } explicit basic_ifstream(const char* n, unsigned m = ios_base::in) : _op(false) { this->_bind(&_b, 0); open(n, m); } explicit basic_ifstream(const string& n, unsigned m = ios_base::in) : _op(false) { this->_bind(&_b, 0); open(n.c_str(), m); }
  void open(const char* n, unsigned = ios_base::in) { const char* p; unsigned long k; if (__symfs_find(n, &p, &k)) { _b.assign(p, k); _op = true; this->_P() = 0; this->clear(); } else { _op = false; this->setstate(ios_base::failbit); } } void open(const string& n, unsigned m = ios_base::in) { open(n.c_str(), m); } bool is_open() const { return _op; } void close() { _op = false; } ~basic_ifstream() {} };
template <class C, class T> class basic_fstream : public basic_iostream<C, T> { public: basic_string<C, T> _b; string _n; bool _op, _wr; basic_fstream(basic_fstream&& o) : _b(std::move(o._b)), _n(o._n), _op(o._op), _wr(o._wr) { this->_bind(&_b, &_b); this->_move(o); o._op = false; } basic_fstream& operator=(basic_fstream&& o) { close(); _b = std::move(o._b); _n = o._n; _op = o._op; _wr = o._wr; this->_move(o); o._op = false; return *this; } basic_fstream() : _op(false), _wr(false) { this->_bind(&_b, &_b); } explicit basic_fstream(const char* n, unsigned m = 3) : _op(false) { this->_bind(&_b, &_b); open(n, m); } explicit basic_fstream(const string& n, unsigned m = 3) : _op(false) { this->_bind(&_b, &_b); open(n.c_str(), m); }
  void open(const char* n, unsigned m = 3) { _n = n; _wr = (m & 2) != 0; const char* p; unsigned long k; if (__symfs_find(n, &p, &k)) { _op = true; _b.assign(p, (m & 16) ? 0 : k); } else if (_wr) _op = true; else this->setstate(ios_base::failbit); } void open(const string& n, unsigned m = 3) { open(n.c_str(), m); } bool is_open() const { return _op; } void close() { if (_op && _wr) __symfs_write(_n.c_str(), _b.data(), _b.size(), 0); _op = false; } ~basic_fstream() { close(); } };
template <class C, class T> class istreambuf_iterator { public: typedef input_iterator_tag iterator_category; typedef C value_type; typedef long difference_type; typedef const C* pointer; typedef C reference; typedef typename T::int_type int_type; typedef basic_streambuf<C, T> streambuf_type; typedef basic_istream<C, T> istream_type; basic_streambuf<C, T>* _i; istreambuf_iterator() : _i(0) {} istreambuf_iterator(basic_istream<C, T>& i) : _i(i.rdbuf()) {} istreambuf_iterator(basic_streambuf<C, T>* b) : _i(b) {}
  bool _end() const { return !_i || T::eq_int_type(_i->sgetc(), T::eof()); } C operator*() const { return T::to_char_type(_i->sgetc()); } istreambuf_iterator& operator++() { _i->sbumpc(); return *this; } istreambuf_iterator operator++(int) { istreambuf_iterator r = *this; _i->sbumpc(); return r; } bool equal(const istreambuf_iterator& o) const { return _end() == o._end(); } };
template <class C, class T> inline bool operator==(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return a.equal(b); } template <class C, class T> inline bool operator!=(const istreambuf_iterator<C, T>& a, const istreambuf_iterator<C, T>& b) { return !a.equal(b); }
template <class C, class T> class ostreambuf_iterator { public: typedef output_iterator_tag iterator_category; typedef void value_type; typedef void difference_type; typedef void pointer; typedef void reference; typedef basic_streambuf<C, T> streambuf_type; typedef basic_ostream<C, T> ostream_type; basic_streambuf<C, T>* _o; ostreambuf_iterator(basic_ostream<C, T>& o) : _o(o.rdbuf()) {} ostreambuf_iterator(basic_streambuf<C, T>* b) : _o(b) {} ostreambuf_iterator& operator=(C c) { if (_o) _o->sputc(c); return *this; } ostreambuf_iterator& operator*() { return *this; } ostreambuf_iterator& operator++() { return *this; } ostreambuf_iterator& operator++(int) { return *this; } bool failed() const { return false; } };
template <class C> inline bool isspace(C c, const locale&) { return c == ' ' || (c >= '\t' && c <= '\r'); } template <class C> inline bool isdigit(C c, const locale&) { return c >= '0' && c <= '9'; } template <class C> inline bool isupper(C c, const locale&) { return c >= 'A' && c <= 'Z'; } template <class C> inline bool islower(C c, const locale&) { return c >= 'a' && c <= 'z'; } template <class C> inline bool isalpha(C c, const locale& l) { return isupper(c, l) || islower(c, l); } template <class C> inline bool isalnum(C c, const locale& l) { return isalpha(c, l) || isdigit(c, l); } template <class C> inline C toupper(C c, const locale& l) { return islower(c, l) ? (C)(c - 32) : c; } template <class C> inline C tolower(C c, const locale& l) { return isupper(c, l) ? (C)(c + 32) : c; }
class ctype_base { public: typedef unsigned short mask; static const mask upper = 1, lower = 2, alpha = 3, digit = 4, xdigit = 8, space = 16, print = 32, graph = 7 | 64, cntrl = 128, punct = 64, alnum = 7, blank = 256; };
template <class C> class _Ctype : public ctype_base { public: bool is(mask m, C c) const { locale l; mask k = (isupper(c, l) ? 1 : 0) | (islower(c, l) ? 2 : 0) | (isdigit(c, l) ? 4 | 8 : 0) | (((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) ? 8 : 0) | (isspace(c, l) ? 16 : 0) | ((c >= ' ' && c < 127) ? 32 : 0) | ((c > ' ' && c < 127 && !isalnum(c, l)) ? 64 : 0) | ((c >= 0 && c < 32) || c == 127 ? 128 : 0) | (c == ' ' || c == '\t' ? 256 : 0); return (k & m) != 0; }
  C tolower(C c) const { return std::tolower(c, locale()); } C toupper(C c) const { return std::toupper(c, locale()); } const C* tolower(C* b, const C* e) const { for (; b < e; b++) *b = tolower(*b); return e; } const C* toupper(C* b, const C* e) const { for (; b < e; b++) *b = toupper(*b); return e; } C widen(char c) const { return (C)c; } char narrow(C c, char) const { return (char)c; } const C* narrow(const C* b, const C* e, char, char* o) const { while (b < e) *o++ = (char)*b++; return e; } const char* widen(const char* b, const char* e, C* o) const { while (b < e) *o++ = (C)*b++; return e; } };
template <> class ctype<char> : public _Ctype<char> {};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
template <class C> class collate { public: typedef basic_string<C> string_type; string_type transform(const C* b, const C* e) const { return string_type(b, e); } int compare(const C* a, const C* b, const C* c, const C* d) const { return string_type(a, b).compare(string_type(c, d)); } };
_GLIBCXX_END_NAMESPACE_CXX11
template <class F> struct _Facet { static F f; }; template <class F> F _Facet<F>::f;
template <class F> inline const F& use_facet(const locale&) { return _Facet<typename remove_const<F>::type>::f; } template <class F> inline bool has_facet(const locale&) throw() { return true; }
struct _Setb { int n; }; struct _Setif { unsigned f; }; struct _Resif { unsigned f; };
inline _Setb setbase(int n) { _Setb r = {n}; return r; } inline _Setif setiosflags(unsigned f) { _Setif r = {f}; return r; } inline _Resif resetiosflags(unsigned f) { _Resif r = {f}; return r; }
template <class S> inline S& _base(S& s, int n) { s.setf(n == 16 ? ios_base::hex : n == 8 ? ios_base::oct : ios_base::dec, ios_base::basefield); return s; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setb w) { return _base(o, w.n); } template <class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, _Setb w) { return _base(o, w.n); } template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setif w) { o.setf(w.f); return o; } template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Resif w) { o.unsetf(w.f); return o; } template <class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, _Setif w) { o.setf(w.f); return o; } template <class C, class T> inline basic_istream<C, T>& operator>>(basic_istream<C, T>& o, _Resif w) { o.unsetf(w.f); return o; }
struct _Quoted { const string* s; string* t; char d, e; };
inline _Quoted quoted(const string& s, char d = '"', char e = '\\') { _Quoted r = {&s, 0, d, e}; return r; } inline _Quoted quoted(string& s, char d = '"', char e = '\\') { _Quoted r = {&s, &s, d, e}; return r; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const _Quoted& q) { string r(1, q.d); for (unsigned long i = 0; i < q.s->size(); i++) { char c = (*q.s)[i]; if (c == q.d || c == q.e) r += q.e; r += c; } r += q.d; return o._put(r.data(), r.size()); }
struct _Setw { int n; }; struct _Setp { int n; }; struct _Setfl { char c; };
inline _Setw setw(int n) { _Setw r = {n}; return r; } inline _Setp setprecision(int n) { _Setp r = {n}; return r; } inline _Setfl setfill(char c) { _Setfl r = {c}; return r; }
template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setw w) { o.width(w.n); return o; } template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setp w) { o.precision(w.n); return o; } template <class C, class T> inline basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, _Setfl w) { o.fill(w.c); return o; }
extern ostream cout, cerr, clog; extern istream cin;
}
#endif
