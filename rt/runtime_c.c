/* C library pieces the symbolic executor needs as bitcode. */
unsigned long strlen(const char* s) { unsigned long n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, unsigned long n) { const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b; for (unsigned long i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
int bcmp(const void* a, const void* b, unsigned long n) { return memcmp(a, b, n); }
int strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
int strncmp(const char* a, const char* b, unsigned long n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
void* memchr(const void* p, int c, unsigned long n) { const unsigned char* x = (const unsigned char*)p; for (unsigned long i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void*)(x + i); return 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, unsigned long n) { unsigned long i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int ispunct(int c) { return c > 32 && c < 127 && !isalnum(c); }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int __sym_errno; int* __errno_location(void) { return &__sym_errno; }
long __sym_parse_double(const char*, long, double*); long __sym_parse_int(const char*, long, int, long*, int);
double strtod(const char* s, char** e) { double d = 0; long n = __sym_parse_double(s, strlen(s), &d); if (e) *e = (char*)s + n; return n ? d : 0; }
float strtof(const char* s, char** e) { return (float)strtod(s, e); }
double atof(const char* s) { return strtod(s, 0); }
long strtol(const char* s, char** e, int b) { long d = 0; long n = __sym_parse_int(s, strlen(s), b, &d, 0); if (e) *e = (char*)s + n; return n ? d : 0; }
long long strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long strtoul(const char* s, char** e, int b) { long d = 0; long n = __sym_parse_int(s, strlen(s), b, &d, 1); if (e) *e = (char*)s + n; return n ? (unsigned long)d : 0; }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
int atoi(const char* s) { return (int)strtol(s, 0, 10); }
char* getenv(const char*) { return 0; } __attribute__((weak)) int fileno(void*) { return 1; } __attribute__((weak)) int isatty(int) { return 0; }
long time(long* t) { if (t) *t = 0; return 0; } long clock(void) { return 0; }

double sqrt(double);
double cabs(double re, double im) { return re == 0 ? (im < 0 ? -im : im) : im == 0 ? (re < 0 ? -re : re) : sqrt(re * re + im * im); }
double hypot(double a, double b) { return cabs(a, b); }

unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); } long long __isoc23_strtoll(const char* s, char** e, int b) { return strtol(s, e, b); }
long atol(const char* s) { return strtol(s, 0, 10); } long long atoll(const char* s) { return strtol(s, 0, 10); } long double strtold(const char* s, char** e) { return strtod(s, e); }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, unsigned long n) { unsigned long k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
char* strstr(const char* a, const char* b) { unsigned long n = strlen(b); for (;; a++) { if (!strncmp(a, b, n)) return (char*)a; if (!*a) return 0; } }
unsigned long strspn(const char* a, const char* b) { unsigned long n = 0; while (a[n] && strchr(b, a[n])) n++; return n; }
unsigned long strcspn(const char* a, const char* b) { unsigned long n = 0; while (a[n] && !strchr(b, a[n])) n++; return n; }
char* strpbrk(const char* a, const char* b) { a += strcspn(a, b); return *a ? (char*)a : 0; }
static char* strtokat; char* strtok_r(char* s, const char* d, char** at) { if (!s) s = *at; if (!s) return 0; s += strspn(s, d); if (!*s) { *at = 0; return 0; } char* e = s + strcspn(s, d); if (*e) { *e = 0; *at = e + 1; } else *at = 0; return s; }
char* strtok(char* s, const char* d) { return strtok_r(s, d, &strtokat); }
void* malloc(unsigned long); char* strdup(const char* s) { char* p = (char*)malloc(strlen(s) + 1); return strcpy(p, s); }
int strcasecmp(const char* a, const char* b) { for (;; a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } }
int strncasecmp(const char* a, const char* b, unsigned long n) { for (; n; n--, a++, b++) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int isprint(int c) { return c >= 32 && c < 127; } int isgraph(int c) { return c > 32 && c < 127; } int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; } int isblank(int c) { return c == ' ' || c == 9; } int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
char* strerror(int n) { return (char*)"error"; } void perror(const char* s) {}
static void swapb(char* a, char* b, unsigned long n) { while (n--) { char c = *a; *a++ = *b; *b++ = c; } }
void qsort(void* p, unsigned long n, unsigned long w, int (*f)(const void*, const void*)) { char* a = (char*)p; for (unsigned long i = 1; i < n; i++) for (unsigned long j = i; j > 0 && f(a + (j - 1) * w, a + j * w) > 0; j--) swapb(a + (j - 1) * w, a + j * w, w); }
void* bsearch(const void* k, const void* p, unsigned long n, unsigned long w, int (*f)(const void*, const void*)) { unsigned long lo = 0, hi = n; while (lo < hi) { unsigned long m = lo + (hi - lo) / 2; const char* q = (const char*)p + m * w; int c = f(k, q); if (!c) return (void*)q; if (c < 0) hi = m; else lo = m + 1; } return 0; }
static unsigned long seed = 1; void srand(unsigned s) { seed = s; } int rand(void) { seed = (seed * 1103515245UL + 12345UL) & 0x7fffffffUL; return (int)seed; }
double rint(double), log(double), exp(double), fabs(double), floor(double); long lrint(double x) { return (long)rint(x); } long long llrint(double x) { return (long long)rint(x); }
double log2(double x) { double y = log(x) / 0.693147180559945309417; double r = floor(y + .5); return fabs(y - r) < 1e-14 ? r : y; } double log1p(double x) { return x == 0 ? 0 : log(1 + x); } double expm1(double x) { return x == 0 ? 0 : exp(x) - 1; }
double ldexp(double x, int e) { for (; e > 0; e--) x *= 2; for (; e < 0; e++) x /= 2; return x; } double scalbn(double x, int e) { return ldexp(x, e); } double frexp(double x, int* e) { *e = 0; if (x == 0 || x != x || x - x != 0) return x; while (fabs(x) >= 1) { x /= 2; ++*e; } while (fabs(x) < .5) { x *= 2; --*e; } return x; }
int ilogb(double x) { int e; frexp(x, &e); return e - 1; } double logb(double x) { return ilogb(x); } double fdim(double a, double b) { return a > b ? a - b : 0; } double remainder(double a, double b) { return a - rint(a / b) * b; }
double sinh(double x) { return (exp(x) - exp(-x)) / 2; } double cosh(double x) { return (exp(x) + exp(-x)) / 2; } double tanh(double x) { return (exp(x) - exp(-x)) / (exp(x) + exp(-x)); } double fma(double a, double b, double c) { return a * b + c; }
double _Complex __muldc3(double a, double b, double c, double d) { double _Complex r; __real__ r = a * c - b * d; __imag__ r = a * d + b * c; return r; }
double _Complex __divdc3(double a, double b, double c, double d) { double _Complex r; double n = c * c + d * d; __real__ r = (a * c + b * d) / n; __imag__ r = (b * c - a * d) / n; return r; }
int putchar(int c) { return c; }
typedef int wch; unsigned long wcslen(const wch* s) { unsigned long n = 0; while (s[n]) n++; return n; } wch* wmemcpy(wch* d, const wch* s, unsigned long n) { for (unsigned long i = 0; i < n; i++) d[i] = s[i]; return d; } wch* wmemset(wch* d, wch c, unsigned long n) { for (unsigned long i = 0; i < n; i++) d[i] = c; return d; } int wmemcmp(const wch* a, const wch* b, unsigned long n) { for (unsigned long i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; } const wch* wmemchr(const wch* a, wch c, unsigned long n) { for (unsigned long i = 0; i < n; i++) if (a[i] == c) return a + i; return 0; }
typedef struct { int quot, rem; } div_t_; div_t_ div(int a, int b) { div_t_ r = {a / b, a % b}; return r; } typedef struct { long quot, rem; } ldiv_t_; ldiv_t_ ldiv(long a, long b) { ldiv_t_ r = {a / b, a % b}; return r; }
