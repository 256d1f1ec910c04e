// @property P29
// @bounds consoles of 1 to 200 columns and unknown ones, indents of 0 to 30, names of up to 30 letters, tasks of 1 to 1e17 steps (values around each change of unit), any time up to 120 hours in whole milliseconds, up to 3 advances, up to two tasks one after the other
// @entry p29_begin shards=8 reach=whole,cut,none
// @entry p29_end shards=8 reach=whole,cut
// @entry p29_time reach=long
// @entry p29_digits
// @entry p29_name reach=shortened
// @entry p29_again shards=4
// @entry p29_steps
// @entry p29_elsewhere
// @entry p29_unknown
#include "common.h"
#include "util/ProgressBar.h"
#include <cstdarg>
#include <sstream>
#include <sys/ioctl.h>
typedef SEMBA::Util::ProgressBar Bar; typedef std::vector<std::string> Words;
static int columns = 80; static bool console = true, broken = false; static int other = 0; static long long msec = 0;
extern "C" {
int isatty(int fd) { return fd == 1 ? console : other != 0; }
int ioctl(int fd, unsigned long what, ...) noexcept { if ((fd == 1 ? broken || !console : !other) || what != TIOCGWINSZ) return -1; va_list a; va_start(a, what); struct winsize* w = va_arg(a, struct winsize*); va_end(a); w->ws_row = 24; w->ws_col = (unsigned short)(fd == 1 ? columns : other); w->ws_xpixel = w->ws_ypixel = 0; return 0; }
}
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return system_clock::time_point(system_clock::duration(1000000000000LL + msec * 1000000LL)); } } } }
struct Taken { std::stringstream out; std::streambuf* o; Taken() { o = std::cout.rdbuf(out.rdbuf()); } ~Taken() { std::cout.rdbuf(o); } std::string take() { std::string s = out.str(); out.str(""); return s; } };
static const unsigned long SZ[14] = {1, 7, 99999, 100000, 12345678, 99999999, 100000000, 54321987654UL, 99999999999UL, 100000000000UL, 99999999999999UL, 100000000000000UL, 54321098765432109UL, 100000000000000000UL};
static const char* ST[14] = {"    1 ", "    7 ", "99999 ", "  100K", "12345K", "99999K", "  100M", "54321M", "99999M", "  100G", "99999G", "  100T", "54321T", "  100P"};
static std::string label(int n) { std::string s = "task of a name as long as can be "; return s.substr(0, (size_t)n); }
static bool at(const std::string& s, size_t p, const std::string& w) { return s.size() >= p + w.size() && s.compare(p, w.size(), w) == 0; }
// What a line has to hold; time is empty when any will do
static void line(const std::string& l, size_t width, size_t prev, const std::string& name, const std::string& steps, const std::string& time, bool done) {
    sym_check(l.size() < width || l.empty(), "within-the-console"); if (l.size() >= width) return; for (size_t i = 0; i < l.size(); i++) sym_check(l[i] >= ' ' && l[i] < 127, "one-line");
    size_t i = 0; while (i < prev && i < l.size()) { sym_check(l[i] == ' ', "indented"); i++; } if (l.size() <= prev) { sym_check(width < 10 + prev || prev > 6, "name-fits"); sym_reach("none"); return; }
    size_t k = 0; while (k < name.size() && i < l.size() && l[i] == name[k]) { i++; k++; }
    if (k < name.size()) { sym_check(at(l, i, "...") && k > 0, "shortened"); if (!at(l, i, "...")) return; i += 3; sym_check(i <= prev + 20, "room-for-the-rest"); }
    size_t s = l.find_first_not_of(' ', i); if (s == std::string::npos) { sym_check(width < prev + 40, "steps-fit"); sym_reach("cut"); return; }
    s -= steps.size() - steps.substr(steps.find_first_not_of(' ')).size(); sym_check(s > i && s <= l.size() && at(l, s, steps), "steps"); if (!at(l, s, steps)) return; i = s + steps.size(); if (i >= l.size()) { sym_check(width < prev + 50, "time-fits"); sym_reach("cut"); return; }
    sym_check(l[i] == ' ' && l.size() >= i + 9 && l[i + 3] == ':' && l[i + 6] == ':' && (time.empty() || at(l, i + 1, time)), "time"); i += 9; if (i > l.size()) return; s = l.find_first_not_of(' ', i); if (s == std::string::npos) { sym_check(width < prev + 55, "share-fits"); sym_reach("cut"); return; }
    if (l[s] == '[') { size_t n = 0; i = s + 1; while (i < l.size() && l[i] == (done ? '#' : '-')) { i++; n++; } sym_check(n > 0 && i < l.size() && l[i] == ']', "bar"); if (i >= l.size()) return; i++; sym_check(l.size() + 1 == width, "bar-fills-the-line"); }
    else { i = s; while (i > 0 && l[i - 1] == ' ') i--; sym_check(width < prev + 60, "bar-fits"); }
    sym_check(i < l.size() && l.size() - i >= 5, "share"); if (i >= l.size()) return; s = l.find_first_not_of(' ', i); sym_check(s != std::string::npos && s > i && l.substr(s) == (done ? "100%" : "0%"), "share"); sym_reach("whole");
}
static std::string body(const std::string& o, bool end) { if (end) { sym_check(!o.empty() && o[o.size() - 1] == '\n', "goes-to-the-next-line"); if (o.empty()) return o; } std::string b = end ? o.substr(0, o.size() - 1) : o; if (b.empty()) return b; sym_check(b[0] == '\r', "over-the-former-line"); return b.substr(1); }
static const int NM[6] = {0, 3, 8, 12, 20, 30}, PV[6] = {0, 2, 4, 6, 14, 30};
ENTRY p29_begin() { columns = 1 + sym_choice("columns", 200); int s = sym_choice("size", 14), n = 3, p = 1; int how = sym_choice("how", 3); if (how) s = 4; if (how == 0 && columns % 17) return; if (how == 1) n = sym_choice("name", 6); if (how == 2) p = sym_choice("prev", 6); Taken t; Bar b; b.init(label(NM[n]), SZ[s], (size_t)PV[p]); line(body(t.take(), false), (size_t)columns, (size_t)PV[p], label(NM[n]), std::string("    0 /") + ST[s], "", false); }
ENTRY p29_end() { columns = 1 + sym_choice("columns", 200); int s = sym_choice("size", 14), n = 3, p = 1; int how = sym_choice("how", 3); if (how) s = 4; if (how == 0 && columns % 17) return; if (how == 1) n = sym_choice("name", 6); if (how == 2) p = sym_choice("prev", 6); int adv = sym_choice("advanced", 2); Taken t; Bar b; b.init(label(NM[n]), SZ[s], (size_t)PV[p]); t.take(); msec += 3723900; if (adv) b.advance(SZ[s]); b.end(); line(body(t.take(), true), (size_t)columns, (size_t)PV[p], label(NM[n]), std::string(ST[s]) + "/" + ST[s], "01:02:03", true); b.end(); b.advance(); sym_check(t.take().empty(), "nothing-after-the-end"); }
ENTRY p29_time() { long s = symi("seconds", 0, 432000), ms = symi("milliseconds", 0, 999); int adv = sym_choice("advanced", 3); Taken t; Bar b; b.init("task", 10, 2); t.take(); if (adv) { msec = adv == 1 ? 500 : 5000; if (msec > s * 1000) msec = 0; b.advance(4); } sym_assume(s * 1000 + ms >= msec); msec = s * 1000 + ms; b.end(); std::string l = body(t.take(), true); size_t k = l.find("/   10 "); sym_check(k != std::string::npos, "steps"); if (k == std::string::npos) return; size_t z = l.find(" [", k); sym_check(z != std::string::npos, "bar"); if (z == std::string::npos) return; std::string c = l.substr(k + 8, z - k - 8); int n = 0; for (size_t i = 0; i < c.size(); i++) if (c[i] == ':') { c[i] = ' '; n++; } std::stringstream r(c); long h = -1, m = -1, q = -1; r >> h >> m >> q; sym_check(n == 2 && !r.fail(), "hours-minutes-seconds"); bool ok; if (s >= 360000) { sym_reach("long"); ok = h == 99 && m == 99 && q == 99; } else ok = h == s / 3600 && m == s / 60 % 60 && q == s % 60; sym_check(ok, "whole-time-of-the-task"); }
ENTRY p29_digits() { static const long T[10] = {0, 1, 59, 60, 61, 599, 3600, 35999, 359999, 360000}; static const char* D[10] = {"00:00:00", "00:00:01", "00:00:59", "00:01:00", "00:01:01", "00:09:59", "01:00:00", "09:59:59", "99:59:59", "99:99:99"}; int k = sym_choice("time", 10), w = sym_choice("columns", 3); columns = w == 0 ? 38 : w == 1 ? 80 : 132; Taken t; Bar b; b.init("task", 10, 2); t.take(); msec = T[k] * 1000 + 400; b.end(); line(body(t.take(), true), (size_t)columns, 2, "task", "   10 /   10 ", D[k], true); }
ENTRY p29_name() { static const int W[8] = {20, 40, 60, 80, 90, 100, 101, 150}; columns = W[sym_choice("columns", 8)]; int n = 1 + sym_choice("name", 30), p = PV[1 + sym_choice("prev", 3)]; Taken t; Bar b; b.init(label(n), 5, (size_t)p); std::string l = body(t.take(), false), w = label(n); if (l.size() <= (size_t)p || at(l, (size_t)p, w)) return; sym_reach("shortened"); size_t d = l.find("...", (size_t)p); sym_check(d != std::string::npos && at(l, 0, std::string((size_t)p, ' ') + w.substr(0, d - (size_t)p)), "begins-as-the-name"); if (d == std::string::npos) return; int m = (int)(d + 3) - p; sym_check(m < n, "shorter"); Bar o; o.init(label(m), 5, (size_t)p); std::string k = body(t.take(), false); sym_check(at(k, (size_t)p, label(m)), "whole-if-it-fits"); sym_check(k.size() <= d + 3 || l.size() <= d + 3 || k.substr(d + 3) == l.substr(d + 3), "the-rest-in-its-place"); }
ENTRY p29_again() { int w0 = 1 + sym_choice("columns", 60), n = sym_choice("name", 4), same = sym_choice("same", 2); Taken t; Bar b, o; columns = w0; b.init("first task", 5, 2); msec += 1000; b.advance(2); b.end(); t.take(); columns = 80; Bar& x = same ? b : o; msec = 0; x.init(label(NM[n]), 7, 2); line(body(t.take(), false), 80, 2, label(NM[n]), "    0 /    7 ", "", false); msec = 59000; x.end(); line(body(t.take(), true), 80, 2, label(NM[n]), "    7 /    7 ", "00:00:59", true); std::cout << 12; sym_check(t.take() == "12", "numbers-after-it"); }
ENTRY p29_steps() { long a0 = symi("first", 0, 60), a1 = symi("second", 0, 60); int more = sym_choice("more", 2); Taken t; Bar b; b.init("task", (size_t)20, 2); t.take(); b.advance((size_t)a0); b.advance((size_t)a1); if (more) b.advance(); std::string mid = t.take(); b.end(); line(body(t.take(), true), 80, 2, "task", "   20 /   20 ", "", true); if (!mid.empty()) { size_t k = mid.find('/'); sym_check(k != std::string::npos && at(mid, k, "/   20 "), "whole-of-the-task"); } }
ENTRY p29_elsewhere() { console = false; other = sym_choice("other", 2) ? 60 : 0; int p = sym_choice("prev", 4), n = sym_choice("name", 6), none = sym_choice("empty", 2); Taken t; Bar b; b.advance(); b.end(); sym_check(t.take().empty(), "nothing-before-it-begins"); sym_check(!b.isConsole(), "not-a-console"); if (sym_choice("default", 2)) { b.init(label(NM[n]), none ? 0 : 5); p = 1; } else b.init(label(NM[n]), none ? 0 : 5, (size_t)PV[p]); sym_check(t.take() == (none ? "" : std::string((size_t)PV[p], ' ') + label(NM[n]) + "\n"), "name-once"); b.advance(3); b.end(); sym_check(t.take().empty(), "nothing-else"); }
ENTRY p29_unknown() { int how = sym_choice("how", 3); other = sym_choice("other", 2) ? 60 : 0; broken = how == 0; columns = how == 1 ? 0 : 80; Taken t; Bar b; sym_check(b.isConsole(), "a-console"); b.init("task", how == 2 ? 0 : 5, 2); sym_check(t.take().empty(), "nothing-without-room"); b.advance(); sym_check(t.take().empty(), "nothing-while-it-goes"); b.end(); std::string e = t.take(); sym_check(e == (how == 2 ? "" : "\n"), "only-the-end-of-the-line"); }
