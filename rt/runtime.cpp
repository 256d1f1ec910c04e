// C++ runtime pieces the symbolic executor needs as bitcode (libstdc++.so parts that are not header-only).
#include <symstream.h>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>
#include <functional>
#include <new>
#include <typeinfo>
#include <ctime>
#include <cstdarg>
#include <cstdlib>
#include <cerrno>
#include <chrono>
#include <cstdio>
#include <unistd.h>
#include <sys/time.h>
#include <sys/stat.h>
template class std::basic_string<char>;
namespace {
struct F { char* name; char* p; unsigned long n; F* next; }; F* files;
}
extern "C" {
void __symfs_write(const char* name, const char* p, unsigned long n, int append) {
    F* f = files; while (f && strcmp(f->name, name)) f = f->next;
    if (!f) { f = new F; f->name = new char[strlen(name) + 1]; strcpy(f->name, name); f->p = 0; f->n = 0; f->next = files; files = f; }
    unsigned long o = append ? f->n : 0; char* q = new char[o + n + 1]; if (o) __builtin_memcpy(q, f->p, o); if (n) __builtin_memcpy(q + o, p, n); q[o + n] = 0; f->p = q; f->n = o + n;
}
int __symfs_find(const char* name, const char** p, unsigned long* n) { F* f = files; while (f && strcmp(f->name, name)) f = f->next; if (!f) return 0; *p = f->p; *n = f->n; return 1; }
// folders are files whose name ends in a slash
static char* symfs_dir(const char* name) { unsigned long k = strlen(name); while (k > 1 && name[k - 1] == '/') k--; char* d = new char[k + 2]; __builtin_memcpy(d, name, k); d[k] = '/'; d[k + 1] = 0; return d; }
static bool symfs_isdir(const char* name) { if (!*name) return false; char* d = symfs_dir(name); const char* p; unsigned long n; return !strcmp(d, "./") || !strcmp(d, "//") || __symfs_find(d, &p, &n); }
int mkdir(const char* name, mode_t) { const char* p; unsigned long n; if (!*name || symfs_isdir(name) || __symfs_find(name, &p, &n)) { errno = *name ? EEXIST : ENOENT; return -1; } char* d = symfs_dir(name); unsigned long k = strlen(d) - 1; while (k && d[k - 1] != '/') k--; if (k > 1) { d[k - 1] = 0; if (!symfs_isdir(d)) { errno = ENOENT; return -1; } } __symfs_write(symfs_dir(name), "", 0, 0); return 0; }
int stat(const char* name, struct stat* s) { const char* p; unsigned long n; if (symfs_isdir(name)) { s->st_mode = S_IFDIR | 0755; s->st_size = 0; return 0; } if (__symfs_find(name, &p, &n)) { s->st_mode = S_IFREG | 0644; s->st_size = n; return 0; } return -1; }
int remove(const char* name) { F** f = &files; while (*f && strcmp((*f)->name, name)) f = &(*f)->next; if (!*f) return -1; *f = (*f)->next; return 0; }
char* __xpg_basename(char* s) { static char dot[2] = "."; if (!s || !*s) { dot[0] = '.'; dot[1] = 0; return dot; } unsigned long k = strlen(s); while (k > 1 && s[k - 1] == '/') s[--k] = 0; if (k == 1 && *s == '/') return s; unsigned long i = k; while (i && s[i - 1] != '/') i--; return s + i; }
char* dirname(char* s) { static char dot[2] = "."; if (!s) return dot; unsigned long k = strlen(s); while (k > 1 && s[k - 1] == '/') k--; while (k && s[k - 1] != '/') k--; if (!k) return dot; while (k > 1 && s[k - 1] == '/') k--; s[k] = 0; return s; }
}
namespace std {
ostream cout, cerr, clog; istream cin;
// ---- red-black tree primitives as a plain (unbalanced) search tree with the same header layout
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    _Rb_tree_node_base *nl = h._M_left, *nr = h._M_right;
    if (nl == z) nl = _Rb_tree_increment(z); if (nr == z) nr = _Rb_tree_decrement(z);
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (!h._M_parent) { h._M_left = &h; h._M_right = &h; } else { h._M_left = nl; h._M_right = nr; }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t p = n < 2 ? 2 : n; _M_next_resize = p; return p; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > nb) return {true, (ne + ni) * 2 + 1}; return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + c[i]; return h; }
// ---- exceptions
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; } bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info*, void**, unsigned) const { return false; } bool type_info::__do_upcast(const __cxxabiv1::__class_type_info*, void**) const { return false; }
static const char* dup(const char* s) { char* p = new char[strlen(s) + 1]; strcpy(p, s); return p; }
__cow_string::__cow_string() : _M_p(dup("")) {} __cow_string::__cow_string(const std::string& s) : _M_p(dup(s.c_str())) {} __cow_string::__cow_string(const char* s, size_t n) : _M_p(dup(std::string(s, n).c_str())) {}
__cow_string::__cow_string(const __cow_string& o) _GLIBCXX_NOTHROW : _M_p(dup(o._M_p)) {} __cow_string& __cow_string::operator=(const __cow_string& o) _GLIBCXX_NOTHROW { _M_p = dup(o._M_p); return *this; } __cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {} __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }
#define EX(T) T::T(const string& s) : _M_msg(s) {} T::T(const char* s) : _M_msg(string(s)) {} T::T(const T& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(const T& o) noexcept { _M_msg = o._M_msg; return *this; } T::T(T&& o) noexcept : exception(o), _M_msg(o._M_msg) {} T& T::operator=(T&& o) noexcept { _M_msg = o._M_msg; return *this; } T::~T() noexcept {} const char* T::what() const noexcept { return *(const char* const*)&_M_msg; }
EX(logic_error) EX(runtime_error)
#define DX(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
DX(domain_error, logic_error) DX(invalid_argument, logic_error) DX(length_error, logic_error) DX(out_of_range, logic_error) DX(range_error, runtime_error) DX(overflow_error, runtime_error) DX(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); } void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_system_error(int) { throw runtime_error("system"); } void __throw_bad_function_call() { throw bad_function_call(); }
const nothrow_t nothrow{};
}
extern "C" { struct TI_ { const void* v; const char* n; }; extern const TI_ ti_d __asm__("_ZTId"); const TI_ ti_d = {0, "d"}; extern const TI_ ti_i __asm__("_ZTIi"); const TI_ ti_i = {0, "i"}; }

// ---- formatted output and files of the C library over the same files in memory
namespace {
void pad(std::string& o, const std::string& t, long w, bool left, bool zero) { std::string f; long k = (long)t.size(); if (left) { o += t; for (; k < w; k++) o += ' '; } else if (zero) { size_t i = !t.empty() && (t[0] == '-' || t[0] == '+') ? 1 : 0; o.append(t, 0, i); for (; k < w; k++) o += '0'; o.append(t, i, std::string::npos); } else { for (; k < w; k++) o += ' '; o += t; } }
void based(std::string& t, unsigned long v, unsigned b, bool up) { char c[32]; int k = 0; do { int d = (int)(v % b); c[k++] = (char)(d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10); v /= b; } while (v); while (k) t += c[--k]; }
std::string format(const char* f, va_list& a) { std::string o;
    for (; *f; f++) { if (*f != '%') { o += *f; continue; } f++; if (*f == '%') { o += '%'; continue; }
        bool left = false, zero = false, plus = false, sharp = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') sharp = true; else if (*f != ' ') break; }
        long w = 0, p = -1; if (*f == '*') { w = va_arg(a, int); if (w < 0) { left = true; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; if (*f == '.') { f++; p = 0; if (*f == '*') { p = va_arg(a, int); f++; } else while (*f >= '0' && *f <= '9') p = p * 10 + *f++ - '0'; }
        int l = 0; for (; *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'h' || *f == 'L'; f++) { if (*f == 'L') l = 9; else if (*f != 'h') l++; }
        std::string t; char b[600];
        switch (*f) {
        case 'd': case 'i': { long v = l ? va_arg(a, long) : va_arg(a, int); int n = __sym_fmt_int(v, 0, b); t.assign(b, n); if (plus && t[0] != '-') t = "+" + t; break; }
        case 'u': { unsigned long v = l ? va_arg(a, unsigned long) : va_arg(a, unsigned); int n = __sym_fmt_int((long)v, 1, b); t.assign(b, n); break; }
        case 'x': case 'X': case 'o': { unsigned long v = l ? va_arg(a, unsigned long) : va_arg(a, unsigned); if (sharp) t = *f == 'o' ? "0" : *f == 'x' ? "0x" : "0X"; based(t, v, *f == 'o' ? 8 : 16, *f == 'X'); break; }
        case 'p': { va_arg(a, void*); t = "0x1"; break; }
        case 'c': t = std::string(1, (char)va_arg(a, int)); zero = false; break;
        case 's': { const char* s = va_arg(a, const char*); if (!s) s = "(null)"; while (*s && p != 0) { t += *s++; if (p > 0) p--; } zero = false; break; }
        case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { double v = l == 9 ? (double)va_arg(a, long double) : va_arg(a, double); int n = __sym_fmt_double(v, p < 0 ? 6 : (int)p, *f == 'f' || *f == 'F' ? 1 : *f == 'e' || *f == 'E' ? 2 : 0, b); t.assign(b, n); if (plus && t[0] != '-') t = "+" + t; break; }
        default: __builtin_trap(); }
        pad(o, t, w, left, zero); }
    return o; }
int copyout(char* d, size_t n, const std::string& s) { if (n) { size_t k = s.size() < n - 1 ? s.size() : n - 1; __builtin_memcpy(d, s.data(), k); d[k] = 0; } return (int)s.size(); }
struct CF { std::string name, b; unsigned long at = 0; bool rd = false, wr = false, app = false, eof = false, con = true; };
CF console;
}
#undef stdin
#undef stdout
#undef stderr
extern "C" {
FILE *stdin = (FILE*)&console, *stdout = (FILE*)&console, *stderr = (FILE*)&console;
#define VA(f) va_list a; va_start(a, f); std::string s = format(f, a); va_end(a);
int vsnprintf(char* d, size_t n, const char* f, va_list x) { va_list a; va_copy(a, x); std::string s = format(f, a); va_end(a); return copyout(d, n, s); }
int vsprintf(char* d, const char* f, va_list x) { return vsnprintf(d, (size_t)1 << 30, f, x); }
int snprintf(char* d, size_t n, const char* f, ...) { VA(f) return copyout(d, n, s); } int sprintf(char* d, const char* f, ...) { VA(f) return copyout(d, (size_t)1 << 30, s); }
int printf(const char*, ...) { return 1; } int puts(const char*) { return 1; } int fflush(FILE*) { return 0; }
static CF* file(void* f) { return (CF*)f; }
int fputs(const char* t, FILE* f) { CF* c = file(f); if (c && c->wr) { if (c->app) c->at = c->b.size(); c->b.replace(c->at, strlen(t) < c->b.size() - c->at ? strlen(t) : c->b.size() - c->at, t); c->at += strlen(t); } return 1; }
size_t fwrite(const void* p, size_t w, size_t n, FILE* f) { CF* c = file(f); if (c->con) return n; if (!c->wr) return 0; size_t k = w * n; if (c->app) c->at = c->b.size(); size_t r = c->b.size() - c->at; c->b.replace(c->at, k < r ? k : r, (const char*)p, k); c->at += k; return n; }
int fputc(int ch, FILE* f) { char c = (char)ch; return fwrite(&c, 1, 1, f) == 1 ? (unsigned char)c : -1; } int putc(int ch, FILE* f) { return fputc(ch, f); }
int vfprintf(FILE* f, const char* t, va_list x) { if (file(f)->con) return 1; va_list a; va_copy(a, x); std::string s = format(t, a); va_end(a); fwrite(s.data(), 1, s.size(), f); return (int)s.size(); }
int fprintf(FILE* f, const char* t, ...) { if (file(f)->con) return 1; VA(t) fwrite(s.data(), 1, s.size(), f); return (int)s.size(); }
FILE* fopen(const char* n, const char* m) { const char* p; unsigned long k = 0; bool there = __symfs_find(n, &p, &k); bool plus = strchr(m, '+') != 0; if (*m == 'r' && !there) return 0; CF* c = new CF; c->name = n; c->at = 0; c->eof = c->con = false; c->rd = *m == 'r' || plus; c->wr = *m != 'r' || plus; c->app = *m == 'a'; if (there && *m != 'w') c->b.assign(p, k); if (c->wr) __symfs_write(n, c->b.data(), c->b.size(), 0); return (FILE*)c; }
int fclose(FILE* f) { CF* c = file(f); if (c->con) return 0; if (c->wr) __symfs_write(c->name.c_str(), c->b.data(), c->b.size(), 0); delete c; return 0; }
int fgetc(FILE* f) { CF* c = file(f); if (!c || !c->rd || c->at >= c->b.size()) { if (c) c->eof = true; return -1; } return (unsigned char)c->b[c->at++]; } int getc(FILE* f) { return fgetc(f); } int ungetc(int ch, FILE* f) { CF* c = file(f); if (c->at) c->at--; c->eof = false; return ch; }
char* fgets(char* d, int n, FILE* f) { int i = 0; while (i < n - 1) { int c = fgetc(f); if (c < 0) break; d[i++] = (char)c; if (c == '\n') break; } if (!i) return 0; d[i] = 0; return d; }
size_t fread(void* d, size_t w, size_t n, FILE* f) { size_t i = 0; for (; i < w * n; i++) { int c = fgetc(f); if (c < 0) break; ((char*)d)[i] = (char)c; } return w ? i / w : 0; }
int feof(FILE* f) { return file(f)->eof; } int ferror(FILE*) { return 0; } int fseek(FILE* f, long o, int wh) { CF* c = file(f); c->eof = false; c->at = wh == 0 ? o : wh == 1 ? c->at + o : c->b.size() + o; return 0; } long ftell(FILE* f) { return (long)file(f)->at; } void rewind(FILE* f) { fseek(f, 0, 0); }
int rename(const char* a, const char* b) { const char* p; unsigned long n; if (!__symfs_find(a, &p, &n)) return -1; __symfs_write(b, p, n, 0); return remove(a); }
int rmdir(const char* n) { return remove(symfs_dir(n)); } int unlink(const char* n) { return remove(n); } int access(const char* n, int) { const char* p; unsigned long k; return symfs_isdir(n) || __symfs_find(n, &p, &k) ? 0 : -1; } int lstat(const char* n, struct stat* s) { return stat(n, s); }
static int scan(const char* s, const char* f, va_list& a, long* used) { const char* b = s; int n = 0;
    for (; *f; f++) { if (isspace(*f)) { while (isspace(*s)) s++; continue; } if (*f != '%') { if (*s != *f) break; s++; continue; } f++; if (*f == '%') { while (isspace(*s)) s++; if (*s != '%') break; s++; continue; }
        bool skip = false; if (*f == '*') { skip = true; f++; } long w = 0; while (*f >= '0' && *f <= '9') w = w * 10 + *f++ - '0'; int l = 0; for (; *f == 'l' || *f == 'h' || *f == 'z'; f++) if (*f != 'h') l++;
        if (*f == 'n') { *va_arg(a, int*) = (int)(s - b); continue; } if (*f != 'c' && *f != '[') while (isspace(*s)) s++; if (!*s) { if (!n) n = -1; break; }
        if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x') { long v = 0; long k = __sym_parse_int(s, strlen(s), *f == 'x' ? 16 : 10, &v, *f == 'u' || *f == 'x'); if (k <= 0) break; s += k; if (!skip) { if (l) *va_arg(a, long*) = v; else *va_arg(a, int*) = (int)v; n++; } }
        else if (*f == 'f' || *f == 'g' || *f == 'e') { double v = 0; long k = __sym_parse_double(s, strlen(s), &v); if (k <= 0) break; s += k; if (!skip) { if (l) *va_arg(a, double*) = v; else *va_arg(a, float*) = (float)v; n++; } }
        else if (*f == 's') { char* d = skip ? 0 : va_arg(a, char*); while (*s && !isspace(*s) && (!w || w-- > 1)) { if (d) *d++ = *s; s++; } if (d) { *d = 0; n++; } }
        else if (*f == 'c') { if (!skip) { *va_arg(a, char*) = *s; n++; } s++; }
        else if (*f == '[') { f++; bool neg = *f == '^'; if (neg) f++; const char* q = f; if (*f) f++; while (*f && *f != ']') f++; char* d = skip ? 0 : va_arg(a, char*); long k = 0; while (*s && (!w || k < w)) { bool in = false; for (const char* t = q; t < f; t++) in = in || *t == *s; if (in == neg) break; if (d) *d++ = *s; s++; k++; } if (!k) break; if (d) { *d = 0; n++; } }
        else __builtin_trap(); }
    *used = s - b; return n; }
int vsscanf(const char* s, const char* f, va_list x) { va_list a; va_copy(a, x); long u = 0; int n = scan(s, f, a, &u); va_end(a); return n; }
int __isoc23_sscanf(const char* s, const char* f, ...) { va_list a; va_start(a, f); long u = 0; int n = scan(s, f, a, &u); va_end(a); return n; } int __isoc99_sscanf(const char* s, const char* f, ...) { va_list a; va_start(a, f); long u = 0; int n = scan(s, f, a, &u); va_end(a); return n; }
int __isoc23_fscanf(FILE* g, const char* f, ...) { CF* c = file(g); va_list a; va_start(a, f); long u = 0; int n = scan(c->b.c_str() + c->at, f, a, &u); va_end(a); c->at += u; if (c->at >= c->b.size()) c->eof = true; return n; } int __isoc99_fscanf(FILE* g, const char* f, ...) { CF* c = file(g); va_list a; va_start(a, f); long u = 0; int n = scan(c->b.c_str() + c->at, f, a, &u); va_end(a); c->at += u; if (c->at >= c->b.size()) c->eof = true; return n; }
void __cxa_bad_cast() { throw std::bad_cast(); } void __cxa_bad_typeid() { throw std::bad_typeid(); }
double difftime(time_t a, time_t b) { return (double)(a - b); } static struct tm when; struct tm* localtime(const time_t*) { when.tm_mday = 1; return &when; } struct tm* gmtime(const time_t* t) { return localtime(t); } size_t strftime(char* d, size_t, const char*, const struct tm*) { *d = 0; return 0; } int gettimeofday(struct timeval* t, void*) { if (t) __builtin_memset(t, 0, 16); return 0; }
}
namespace std { namespace chrono { inline namespace _V2 { __attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(); } __attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(); } } } }
