// Native replay driver: feeds a solver-produced input vector to the same harness linked with the real code.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <csignal>
#include <dlfcn.h>
#include <unistd.h>
struct In { std::string name; char kind; std::string v; };
static std::vector<In> ins; static size_t pos = 0; static int fails = 0; static bool nonstrict = false;
static const In& next(const char* name) {
    if (pos >= ins.size()) { printf("INPUTS-EXHAUSTED %s\n", name); fflush(stdout); _exit(fails ? 1 : 78); }
    if (ins[pos].name != name) { printf("INPUT-MISMATCH want %s have %s\n", name, ins[pos].name.c_str()); fflush(stdout); _exit(fails ? 1 : 78); }
    return ins[pos++];
}
extern "C" {
double sym_real(const char* n, double lo, double hi) { double d = strtod(next(n).v.c_str(), 0); if (d < lo || d > hi) { printf("ASSUMEFAIL range %s\n", n); fflush(stdout); _exit(fails ? 1 : 77); } return d; }
long sym_int(const char* n, long, long) { return strtol(next(n).v.c_str(), 0, 10); }
double sym_dyadic(const char* n, double, double, long den) { return (double)strtol(next(n).v.c_str(), 0, 10) / den; }
int sym_bool(const char* n) { return (int)strtol(next(n).v.c_str(), 0, 10); }
int sym_choice(const char* n, int) { return (int)strtol(next(n).v.c_str(), 0, 10); }
void sym_assume(int c) { if (!c) { printf("ASSUMEFAIL\n"); fflush(stdout); _exit(fails ? 1 : 77); } }
void sym_check(int c, const char* id) { if (!c) { printf("CHECKFAIL %s\n", id); fflush(stdout); fails++; } }
void sym_check_close(double a, double b, double tol, const char* id) { if (!(a == b || std::fabs(a - b) <= tol)) { printf("CHECKFAIL %s (%.17g vs %.17g)\n", id, a, b); fflush(stdout); fails++; } }
void sym_reach(const char* id) { printf("REACH %s\n", id); }
void sym_observe_real(const char* id, double v) { printf("OBS %s %.17g\n", id, v); }
void sym_observe_int(const char* id, long v) { printf("OBS %s %ld\n", id, v); }
static void onabrt(int) { fflush(stdout); _exit(fails ? 1 : 0); }
void sym_allow_abort(void) { signal(SIGABRT, onabrt); }
int sym_is_symbolic(void) { return 0; }
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    FILE* f = fopen(argv[2], "r"); char line[4096];
    while (f && fgets(line, sizeof line, f)) { char nm[2048], v[1024], k; if (sscanf(line, "%2047s %c %1023s", nm, &k, v) == 3) ins.push_back({nm, k, v}); }
    if (f) fclose(f);
    void (*e)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!e) { printf("NOENTRY\n"); return 2; }
    e(); printf("DONE\n"); fflush(stdout); return fails ? 1 : 0;
}
