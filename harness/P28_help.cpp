// @property P28
// @bounds texts of up to 5 (thorough 6) words of up to 12 letters separated by blanks and line ends, consoles of 1 to 300 columns and unknown ones; up to 2 positions, 2 options, 2 switches and a group, plain or exclusive, each required or not, with and without own names for the value; helps of up to 3 (thorough 4) pieces of text and placeholders; program paths of up to 5 (thorough 6) characters
// @assume headings are shorter than the console, of at least 24 columns where the column of the helps is checked; exclusive groups hold at least one argument
// @entry p28_fill shards=4 reach=broken,one
// @entry p28_console reach=known,unknown
// @entry p28_usage shards=8 reach=exclusive,plain
// @entry p28_aligned reach=broken,one
// @entry p28_help shards=4
// @entry p28_places shards=4
// @entry p28_column shards=4 reach=broken,one
// @entry p28_program
// @entry p28_kept
#include "common.h"
#include "argument/Parser.h"
#include <iostream>
#include <sstream>
#include <cstdarg>
#include <sys/ioctl.h>
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace A = SEMBA::Argument; typedef std::vector<std::string> Words; typedef std::list<std::string> Txt;
static int columns = 0; static bool console = false, broken = false; static int other = 0; // columns of the other console, if any, that is not written to
extern "C" {
int isatty(int fd) { return fd == 1 ? console : other != 0; }
int ioctl(int fd, unsigned long what, ...) noexcept { if ((fd == 1 ? broken || !console : !other) || what != TIOCGWINSZ) return -1; va_list a; va_start(a, what); struct winsize* w = va_arg(a, struct winsize*); va_end(a); w->ws_row = 24; w->ws_col = (unsigned short)(fd == 1 ? columns : other); w->ws_xpixel = w->ws_ypixel = 0; return 0; }
}
struct Taken { std::stringstream out, err; std::streambuf *o, *e; Taken() { o = std::cout.rdbuf(out.rdbuf()); e = std::cerr.rdbuf(err.rdbuf()); } ~Taken() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static std::string usage(const A::Parser& p) { Taken t; p.printUsage(); return t.out.str(); }
static std::string help(const A::Parser& p) { Taken t; p.printHelp(); return t.out.str(); }
static Words split(const std::string& s) { Words r; std::string c; for (size_t i = 0; i < s.size(); i++) { if (s[i] == ' ' || s[i] == '\n' || s[i] == '\t') { if (!c.empty()) r.push_back(c); c.clear(); } else c += s[i]; } if (!c.empty()) r.push_back(c); return r; }
static Words lines(const std::string& s) { Words r; std::string c; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\n') { r.push_back(c); c.clear(); } else c += s[i]; } if (!c.empty()) r.push_back(c); return r; }
static size_t lead(const std::string& s) { size_t i = 0; while (i < s.size() && s[i] == ' ') i++; return i; }
static Words& operator+=(Words& a, const Words& b) { for (size_t i = 0; i < b.size(); i++) a.push_back(b[i]); return a; }
static std::string letters(int n, int which) { return std::string((size_t)n, (char)('a' + which)); }
// The lines hold these words, each as many as fit, those after the first from the given column on
static void filled(const Words& ls, const Words& words, long width, size_t column, bool& cut) {
    size_t k = 0; for (size_t l = 0; l < ls.size(); l++) {
        Words w = split(ls[l]); sym_check(!w.empty(), "no-empty-lines"); if (w.empty()) return; if (l) sym_check(lead(ls[l]) == column, "continued-in-its-column");
        size_t length = lead(ls[l]); for (size_t i = 0; i < w.size(); i++) { length += w[i].size() + (i ? 1 : 0); sym_check(k < words.size() && w[i] == words[k], "words-kept-in-order"); if (k >= words.size()) return; k++; }
        sym_check(ls[l].size() == length, "words-one-blank-apart"); sym_check((long)length <= width || w.size() == 1, "lines-fit-in-the-console");
        if (k < words.size() && l + 1 < ls.size()) { cut = true; sym_check((long)(length + 1 + words[k].size()) > width, "lines-are-full"); }
    }
    sym_check(k == words.size(), "no-words-lost");
}
ENTRY p28_fill() {
    const int N = THOROUGH ? 6 : 5; static const int L[3] = {1, 5, 12}; int n = 1 + sym_choice("n", N); std::string text; Words words; for (int i = 0; i < n; i++) { words.push_back(letters(L[sym_choice(nm("length", i).c_str(), i < 4 ? 3 : 2)], i)); int s = i == 1 ? sym_choice("apart", 4) : 0; text += words.back() + (s == 0 ? " " : s == 1 ? "  " : s == 2 ? "\n" : "\t \n"); }
    if (sym_choice("before", 2)) text = "\n " + text; console = true; columns = (int)symi("columns", 8, 40); A::Parser p; p.usage(text); bool cut = false; filled(lines(usage(p)), words, columns, 0, cut); sym_reach(cut ? "broken" : "one");
}
ENTRY p28_console() {
    int how = sym_choice("how", 4); other = sym_choice("other", 2) ? 17 : 0; long c = symi("columns", 1, 300); console = how != 0; broken = how == 1; columns = how == 2 ? 0 : (int)c; long w = how == 3 ? c : 80; int last = 15 + sym_choice("last", 5); Words words; words.push_back(letters(30, 0)); words.push_back(letters(30, 1)); words.push_back(letters(last, 2)); words.push_back("d");
    A::Parser p; p.usage(words[0] + " " + words[1] + " " + words[2] + " d"); bool cut = false; filled(lines(usage(p)), words, w, 0, cut); sym_reach(how == 3 ? "known" : "unknown");
}
struct Item { std::string form, inside, help; }; // as listed, as shown in an exclusive group
static std::string up(std::string s) { for (size_t i = 0; i < s.size(); i++) if (s[i] >= 'a' && s[i] <= 'z') s[i] = (char)(s[i] - 32); return s; }
template <class T> static std::string value(T* a, const std::string& name, int k) { if (k == 1) { a->metavar(Txt({"ROW", "col"})); return "ROW col"; } if (k == 2) { a->metavar(Txt({"V"})); return "V"; } return up(name); }
template <class G> static Item position(G& g, const std::string& name, const std::string& h) {
    Item r; r.help = h; int k = sym_choice((name + "value").c_str(), THOROUGH ? 3 : 2); if (sym_choice((name + "many").c_str(), 2)) { A::MultiPosition<int>* a = new A::MultiPosition<int>(name); a->help(h); std::string v = value(a, name, k); r.form = v + " [" + v + " ...]"; g.addPosition(a); } else { A::Position<int>* a = new A::Position<int>(name); a->help(h); r.form = value(a, name, k); g.addPosition(a); }
    r.inside = r.form; return r;
}
template <class G> static Item option(G& g, const std::string& name, char s, const std::string& h) {
    Item r; r.help = h; int how = sym_choice((name + "ids").c_str(), 3), kind = sym_choice((name + "kind").c_str(), 4); bool req = sym_choice((name + "required").c_str(), 2); std::string id = how == 1 ? "--" + name : std::string("-") + s, f;
    if (kind == 0) { A::Option<int>* a = how == 0 ? new A::Option<int>(s, name) : how == 1 ? new A::Option<int>(name) : new A::Option<int>(name, s); a->help(h); a->required(req); f = id + " " + value(a, name, sym_choice((name + "value").c_str(), 2)); g.addOption(a); }
    if (kind == 1) { A::MultiOption<int>* a = how == 0 ? new A::MultiOption<int>(s, name) : how == 1 ? new A::MultiOption<int>(name) : new A::MultiOption<int>(name, s); a->help(h); a->required(req); std::string v = value(a, name, sym_choice((name + "value").c_str(), 2)); f = id + " " + v + " [" + v + " ...]"; g.addOption(a); }
    if (kind == 2) { A::Switch* a = how == 0 ? new A::Switch(s, name) : how == 1 ? new A::Switch(name) : new A::Switch(name, s); a->help(h); a->required(req); f = id; g.addOption(a); }
    if (kind == 3) { A::MultiSwitch* a = how == 0 ? new A::MultiSwitch(s, name) : how == 1 ? new A::MultiSwitch(name) : new A::MultiSwitch(name, s); a->help(h); a->required(req); f = id + " [" + id + " ...]"; g.addOption(a); }
    r.inside = f; r.form = req ? f : "[" + f + "]"; return r;
}
template <class G> static Item simple(G& g, int kind, const std::string& name, char s, const std::string& h) { // few paths
    Item r; r.help = h; if (kind == 0) { A::Position<int>* a = new A::Position<int>(name); a->help(h); g.addPosition(a); r.form = r.inside = up(name); } else if (kind == 1) { A::Option<int>* a = new A::Option<int>(s, name); a->help(h); g.addOption(a); r.inside = std::string("-") + s + " " + up(name); r.form = "[" + r.inside + "]"; } else { A::Switch* a = new A::Switch(name); a->help(h); a->required(); g.addOption(a); r.inside = r.form = "--" + name; } return r;
}
static std::string join(const Words& w, const std::string& by) { std::string r; for (size_t i = 0; i < w.size(); i++) r += (i ? by : "") + w[i]; return r; }
static void start(A::Parser& p, const std::string& as) { std::vector<std::string> a; a.push_back(as); p.args(a); }
ENTRY p28_usage() {
    A::Parser p; start(p, "dir/tool"); Words want; int shape = sym_choice("shape", 4); bool ex = false;
    if (shape == 0) { want.push_back(position(p, "first", "").form); if (sym_choice("two", 2)) want.push_back(position(p, "second", "").form); }
    if (shape == 1) { want.push_back(option(p, "alpha", 'a', "").form); want.push_back(simple(p, 1, "beta", 'b', "").form); }
    if (shape == 2) { ex = true; A::MEGroup& g = p.addMutuallyExclusiveGroup(); bool req = sym_choice("required", 2); if (req) g.required(); Words in; in.push_back(option(g, "alpha", 'a', "").inside); if (sym_choice("more", 2)) in.push_back(simple(g, 1 + sym_choice("kind", 2), "gamma", 'g', "").inside); std::string s = join(in, " | "); want.push_back(req ? "(" + s + ")" : "[" + s + "]"); }
    if (shape == 3) { int order = sym_choice("order", 2); A::Group& g = p.addGroup("other"); A::MEGroup *m = order ? &p.addMutuallyExclusiveGroup() : &g.addMutuallyExclusiveGroup(); bool req = sym_choice("required", 2); if (req) m->required(); ex = true; int o = sym_choice("kind", 3); bool both = sym_choice("both", 2);
        std::string a = simple(*m, 1, "delta", 'd', "").inside, b = simple(*m, 2, "omega", 'o', "").inside, c = simple(g, o, "inner", 'i', "").form, d = both ? simple(g, (o + 1) % 3, "nested", 'n', "").form : "", e = simple(p, sym_choice("own", 3), "own", 'w', "").form; want.push_back(e); if (both) { bool swap = o == 2 ? true : false; if (o == 0 || o == 1 || o == 2) { bool dFirst = ((o + 1) % 3) == 0; (void)swap; want.push_back(dFirst ? d : c); want.push_back(dFirst ? c : d); } } else want.push_back(c); want.push_back((req ? "(" : "[") + a + " | " + b + (req ? ")" : "]")); }
    std::string text = "usage: tool " + join(want, " "); sym_reach(ex ? "exclusive" : "plain"); Words got = split(usage(p)); sym_check(join(got, " ") == text, "usage-as-defined"); sym_check(usage(p) == usage(p), "same-when-asked-again");
}
ENTRY p28_aligned() {
    A::Parser p; static const char* N[3] = {"p", "tool", "simulate"}; std::string prog = N[sym_choice("name", 3)]; start(p, prog); Words want; want.push_back(simple(p, 0, "file", 'f', "").form); want.push_back(simple(p, 1, letters(3 + 6 * sym_choice("length", 2), 0), 'a', "").form); want.push_back(simple(p, 2, "verbose", 'v', "").form); want.push_back(simple(p, 1, "last", 'l', "").form);
    console = true; columns = (int)symi("columns", 16, 60); Words words = split("usage: " + prog + " " + join(want, " ")); bool cut = false; filled(lines(usage(p)), words, columns, 8 + prog.size(), cut); sym_reach(cut ? "broken" : "one");
}
static std::string said(const Item& i) { return i.inside + (i.help.empty() ? "" : " " + i.help); }
ENTRY p28_help() {
    A::Parser p; start(p, "tool"); Words pos, opt, all; bool d = sym_choice("description", 2), e = sym_choice("epilog", 2); if (d) p.description("what ${PROG} is for"); if (e) p.epilog("see ${PROG} too");
    int np = sym_choice("positions", 3), no = sym_choice("options", 3); std::string h = sym_choice("helped", 2) ? "some help" : ""; Words use, pf, of; for (int i = 0; i < np; i++) { Item t = simple(p, 0, nm("pos", i), 'p', h); pf.push_back(t.form); pos.push_back(said(t)); } for (int i = 0; i < no; i++) { Item t = simple(p, 1 + i, nm("opt", i), (char)('o' + i), i ? "other" : h); of.push_back(t.form); opt.push_back(said(t)); }
    use += pf; use += of; Words body; if (np) { body.push_back("positional arguments:"); body += pos; } if (no) { body.push_back("optional arguments:"); body += opt; }
    int g = sym_choice("group", 4); if (g == 1) { A::Group& q = p.addGroup("things", "about them"); Item t = simple(q, 1, "inner", 'i', h); use.push_back(t.form); body.push_back("things about them"); body.push_back(said(t)); } if (g == 2) { A::MEGroup& q = p.addMutuallyExclusiveGroup(); Item t = simple(q, 1, "inner", 'i', h), u = simple(q, 2, "outer", 'u', "that"); use.push_back("[" + t.inside + " | " + u.inside + "]"); body.push_back("mutually exclusive group:"); body.push_back(said(t)); body.push_back(said(u)); }
    if (g == 3) { A::Group& q = p.addGroup("things"); q.description("about them"); A::MEGroup& m = q.addMutuallyExclusiveGroup(); m.required(); Item t = simple(m, 1, "inner", 'i', h), u = simple(m, 1, "upper", 'u', ""); use.push_back("(" + t.inside + " | " + u.inside + ")"); body.push_back("things about them mutually exclusive group:"); body.push_back(said(t)); body.push_back(said(u)); }
    Words w; w.push_back("usage: tool"); w += use; if (d) w.push_back("what tool is for"); w += body; if (e) w.push_back("see tool too"); std::string got = help(p); sym_check(join(split(got), " ") == join(w, " "), "help-says-everything-in-order"); 
    std::string first = usage(p); sym_check(got.substr(0, first.size()) == first, "begins-with-the-usage");
}
ENTRY p28_places() {
    static const char* P[6] = {"abc", "${DEFAULT}", "${CHOICES}", "${PROG}", "${", "-"}; const int N = THOROUGH ? 4 : 3; int n = 1 + sym_choice("n", N), kind = sym_choice("kind", 2), nd = sym_choice("defaults", 3), nc = sym_choice("choices", 3); std::string def = nd == 0 ? "" : nd == 1 ? "one" : "one two", ch = nc == 0 ? "" : nc == 1 ? "one two, b" : "one"; if (nc == 0 && nd == 2) { ch = ""; }
    std::string text, want; for (int i = 0; i < n; i++) { int k = sym_choice(nm("piece", i).c_str(), 6); text += P[k]; want += k == 1 ? def : k == 2 ? ch : k == 3 ? std::string("tool") : std::string(P[k]); if (i == 0 && sym_choice("blank", 2)) { text += " "; want += " "; } }
    A::Parser p; start(p, "tool"); std::vector<Txt> c; if (nc == 1) { c.push_back(Txt({"one", "two"})); c.push_back(Txt({"b"})); } if (nc == 2) c.push_back(Txt({"one"})); Txt d; if (nd) d.push_back("one"); if (nd == 2) d.push_back("two"); std::string form;
    if (kind) { auto* a = new A::Option<std::string>('x', "extra"); a->help(text); if (nc) a->choices(c); if (nd) a->defaultVal(d); p.addOption(a); form = "-x EXTRA"; } else { auto* a = new A::Position<std::string>("extra"); a->help(text); if (nc) a->choices(c); if (nd) a->defaultVal(d); p.addPosition(a); form = "EXTRA"; }
    bool flag = kind && sym_choice("switch", 2); if (flag) { auto* s = new A::Switch("quiet"); s->help("be<${DEFAULT}${CHOICES}>"); p.addOption(s); }
    std::string head = std::string("usage: tool ") + (kind ? "[" + form + "]" : form) + (flag ? " [--quiet]" : "") + (kind ? " optional" : " positional") + " arguments: " + form + " "; sym_check(join(split(help(p)), " ") == join(split(head + want + (flag ? " --quiet be<>" : "")), " "), "placeholders-replaced");
}
ENTRY p28_column() {
    A::Parser p; start(p, "t"); int len = sym_choice("name", 3); std::string name = letters(2 + 4 * len, 5), form; int kind = sym_choice("kind", 3); form = simple(p, kind, name, 'x', "").inside; A::Parser q; start(q, "t"); std::string h; Words words; for (int i = 0; i < 4; i++) { words.push_back(letters(i == 1 ? 2 + 5 * sym_choice("length", 3) : 3 + i, i)); h += words.back() + " "; } bool pos = kind == 0; simple(q, kind, name, 'x', h);
    console = true; columns = (int)symi("columns", 24, THOROUGH ? 90 : 60); Words ls = lines(help(q)); size_t at = 0; while (at < ls.size() && ls[at] != (pos ? "positional arguments:" : "optional arguments:")) at++; sym_check(at < ls.size(), "under-its-heading"); if (at >= ls.size()) return; at++; size_t tab = (size_t)(columns / 8); std::string line = " " + form; Words rest;
    if (line.size() >= tab) { sym_check(at < ls.size() && ls[at] == line, "argument-on-its-own-line"); at++; } else { sym_check(at < ls.size() && ls[at].substr(0, line.size()) == line, "argument-before-its-help"); if (at < ls.size()) { ls[at] = std::string(line.size(), ' ') + ls[at].substr(line.size()); } } for (; at < ls.size(); at++) rest.push_back(ls[at]);
    sym_check(!rest.empty() && lead(rest[0]) == tab, "help-starts-in-its-column"); bool cut = false; filled(rest, words, columns, tab, cut); sym_reach(cut ? "broken" : "one");
}
ENTRY p28_program() {
    static const char C[4] = {'/', '\\', 'a', 'b'}; int n = 1 + sym_choice("n", THOROUGH ? 6 : 5); std::string as; for (int i = 0; i < n; i++) as += C[sym_choice(nm("letter", i).c_str(), i < 2 ? 4 : 3)]; size_t from = 0; for (size_t i = 0; i < as.size(); i++) if (as[i] == '/' || as[i] == '\\') from = i + 1; std::string want = from < as.size() ? as.substr(from) : as;
    A::Parser p; p.addOption(new A::Switch("verbose")); bool c = sym_choice("raw", 2); if (c) { const char* v[2] = {as.c_str(), "--verbose"}; sym_check(p.parse(2, v)("verbose").getBool(), "arguments-read"); } else { Words a; a.push_back(as); a.push_back("--verbose"); sym_check(p.parse(a)("verbose").getBool(), "arguments-read"); } sym_check(p.getProg() == want, "name-without-its-folder"); sym_check(usage(p) == "usage: " + want + " [--verbose]\n", "name-in-the-usage");
    p.usage("call ${PROG} or ${PROG}."); sym_check(usage(p) == "call " + want + " or " + want + ".\n", "name-in-own-usage");
}
ENTRY p28_kept() {
    A::Parser p; int why = sym_choice("why", 4); auto* o = new A::Option<int>('n', "number"); o->required(why == 1); p.addOption(o); p.addOption(new A::Switch("flag")); p.addPosition(new A::Position<int>("value")); Words a; a.push_back("x/tool"); a.push_back("12"); if (why == 0) a.push_back("--none"); if (why == 2) { a.push_back("-n"); a.push_back("word"); } long v = symi("v", 0, 9); if (why == 3) { a.push_back("-n"); a.push_back(std::to_string(v)); }
    bool thrown = false; std::string out, err, what; { Taken t; try { A::Object r = p.parse(a); sym_check(r("number").getInt() == v, "parsed"); } catch (const std::exception& e) { thrown = true; what = e.what(); } out = t.out.str(); err = t.err.str(); } sym_check(thrown == (why != 3), "refused-when-wrong");
    if (thrown) { sym_check(out == usage(p), "refusals-show-the-usage"); sym_check(err.substr(0, 6) == "tool: " && err.find(what) != std::string::npos, "refusals-say-why"); } else sym_check(out.empty() && err.empty(), "nothing-shown"); std::string h = help(p); sym_check(help(p) == h, "same-when-asked-again"); { Words b; b.push_back("tool"); b.push_back("12"); b.push_back("--flag"); b.push_back("-n"); b.push_back("3"); Taken t; A::Object r = p.parse(b); sym_check(r("flag").getBool() && r("number").getInt() == 3, "still-parses"); }
}
