// @property P21
// @bounds settings objects built by 3 (thorough 4) operations over 3 names, nested up to 2 levels; any int or real of up to 1e9 in size set and read back, with a table of reals that need all their digits; command lines of up to 8 words using every way of giving each kind of argument; every order of two parses
// @entry p21_number reach=int,real
// @entry p21_exact
// @entry p21_overflow reach=refused,kept
// @entry p21_several reach=few,many,list
// @entry p21_type
// @entry p21_dictionary reach=erased,nested
// @entry p21_array
// @entry p21_child
// @entry p21_own
// @entry p21_merge
// @entry p21_options reach=given,absent
// @entry p21_switches
// @entry p21_cluster reach=joined,apart
// @entry p21_positions reach=left,missing
// @entry p21_words reach=left,missing,apart
// @entry p21_places reach=excluded,required,given
// @entry p21_abbreviated reach=ambiguous,unknown
// @entry p21_choices reach=refused,accepted
// @entry p21_groups reach=excluded,required,kept
// @entry p21_refused
// @entry p21_again
// @entry p21_define reach=refused
// @entry p21_known
// @entry p21_copies
// @entry p21_shown reach=empty,nested
#include "common.h"
#include "argument/Parser.h"
#ifndef THOROUGH
#define THOROUGH 0
#endif
namespace A = SEMBA::Argument; typedef A::Object Obj; typedef std::vector<std::string> Args; typedef std::list<std::string> Txt;
struct Silent : A::Formatter { Silent() : A::Formatter(0) {} void printUsage() {} void printHelp() {} };
static std::string txt(long v) { return std::to_string(v); }
static std::string word(long v) { std::stringstream s; s << v; return s.str(); }
static Args operator+(Args a, const std::string& b) { a.push_back(b); return a; }
enum Why { FINE, UNKNOWN, REQUIRED, MULTIPLE, CHOICES, INCORRECT, FEW, AMBIGUOUS, EMPTY, EXCLUDED, GREQUIRED, OTHER };
static Why run(A::Parser& p, const Args& a, Obj& o) { try { o = p.parse(a); return FINE; } catch (const A::Error::Unknown&) { return UNKNOWN; } catch (const A::Error::Required&) { return REQUIRED; } catch (const A::Error::Multiple&) { return MULTIPLE; } catch (const A::Error::NotChoices&) { return CHOICES; } catch (const A::StringParser::Error::Incorrect&) { return INCORRECT; } catch (const A::StringParser::Error::NotEnough&) { return FEW; } catch (const A::Error::Ambiguous&) { return AMBIGUOUS; } catch (const A::Error::Empty&) { return EMPTY; } catch (const A::Error::Group::Excluded&) { return EXCLUDED; } catch (const A::Error::Group::Required&) { return GREQUIRED; } catch (const std::exception&) { return OTHER; } }
ENTRY p21_number() {
    Obj o; if (sym_choice("real", 2)) { double v = symr("v", -1e9, 1e9); sym_check(&o.setReal(v) == &o, "returns-itself"); sym_check(o.isReal() && o.isNumber() && o.isString(), "a-number"); sym_check(o.getReal() == v && o.get<double>() == v, "real-read-back"); Obj c(o); sym_check(c.getReal() == v, "real-copied"); sym_reach("real"); }
    else { int v = (int)symi("v", -2147483647L - 1, 2147483647L); o.setInt(v); sym_check(o.isInt() && o.isReal() && o.isNumber() && o.isString(), "an-integer"); sym_check(o.getInt() == v && o.get<int>() == v && o.getReal() == (double)v, "integer-read-back"); Obj c; c = o; sym_check(c.getInt() == v, "integer-copied"); sym_check(o.isBool() == (v == 0 || v == 1), "only-0-and-1-are-logical"); sym_reach("int"); }
    sym_check(!o.isNull() && !o.isObject() && !o.isArray() && o.size() == 0, "only-a-value"); o.setNull(); sym_check(o.isNull() && !o.isString() && o.getString().empty(), "emptied");
}
ENTRY p21_exact() {
    static const double V[12] = {0.1, 1.0 / 3, -2.0 / 3, 1e-300, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789.12345679, 299792458.0, 8.854187817620389e-12, 9007199254740991.0, -0.30000000000000004, 3.141592653589793}; int i = sym_choice("v", 12), how = sym_choice("how", 4); Obj o; if (how == 0) o.setReal(V[i]); else if (how == 1) o = V[i]; else if (how == 2) { o.set(V[i], V[11 - i]); sym_check((o.get<double, double>().second) == V[11 - i], "second-exact"); sym_check((o.get<double, double>().first) == V[i], "first-exact"); return; } else { o("a")("b").setReal(V[i]); Obj c(o); sym_check(c("a")("b").getReal() == V[i], "member-exact"); return; } sym_check(o.getReal() == V[i], "every-digit-kept");
}
ENTRY p21_overflow() { double v = symr("v", -5e9, 5e9); Obj o; o.setReal(v); int r = 0; bool ok = true; try { r = o.getInt(); } catch (const std::logic_error&) { ok = false; } if (v > 2147483648.0 || v < -2147483648.0) { sym_check(!ok, "too-large-refused"); sym_reach("refused"); } else if (v <= 2147483647.0) { sym_check(ok, "in-range-read"); if (ok) sym_check(r <= v && v < (double)r + 1, "rounded-down"); sym_reach("kept"); } }
ENTRY p21_several() {
    int n = sym_choice("n", 4); long v[3]; for (int i = 0; i < 3; i++) v[i] = symi(nm("v", i), -100000, 100000); double d = symr("d", -9, 9); Obj o; switch (sym_choice("how", 4)) {
    case 0: { o.set((int)v[0], d, std::string("some words")); auto t = o.get<int, double, std::string>(); sym_check(std::get<0>(t) == v[0] && std::get<1>(t) == d && std::get<2>(t) == "some words", "mixed-values"); sym_check((o.is<int, double, std::string>()) && !o.is<int>() && !(o.is<int, double>()), "how-many-values"); bool many = false; try { (void)o.get<int, double>(); } catch (const A::StringParser::Error::TooMany&) { many = true; } sym_check(many, "too-many-refused"); sym_reach("many"); break; }
    case 1: { o.set((int)v[0], (int)v[1]); auto p = o.get<long, long>(); sym_check(p.first == v[0] && p.second == v[1], "pair"); bool few = false; try { (void)o.get<int, int, int>(); } catch (const A::StringParser::Error::NotEnough&) { few = true; } sym_check(few && !(o.is<int, int, int>()), "not-enough-refused"); sym_reach("few"); break; }
    case 2: { std::string all; Txt each; for (int i = 0; i < n; i++) { all += (i ? " " : "") + word(v[i]); each.push_back(word(v[i])); } bool one = sym_choice("one", 2); if (one) o.setString(all); else o.setGenericString(each); std::vector<int> r; if (!(one && n == 0)) r = o.get<std::vector<int>>(); sym_check(r.size() == (size_t)n, "list-length"); for (int i = 0; i < n && i < (int)r.size(); i++) sym_check(r[i] == v[i], "list-values"); sym_check(o.getString() == all, "list-text"); sym_reach("list"); break; }
    default: { o.setString(word(v[0]) + " " + word(v[1]) + "  " + word(v[0])); auto t = o.get<int, int, int>(); sym_check(std::get<0>(t) == v[0] && std::get<1>(t) == v[1] && std::get<2>(t) == v[0], "values-in-one-text"); auto s = o.get<int, std::vector<int>>(); sym_check(s.first == v[0] && s.second.size() == 2 && s.second[0] == v[1] && s.second[1] == v[0], "value-and-list"); break; } }
}
ENTRY p21_type() {
    Obj o; int k = sym_choice("kind", 4); if (k == 1) o("a").setInt(1); if (k == 2) o.addValue(Obj()); if (k == 3) o.setString("text"); sym_check(o.isNull() == (k == 0) && o.isObject() == (k == 1) && o.isArray() == (k == 2) && o.isString() == (k == 3), "its-type"); sym_check(!o.isNumber() && !o.isBool() && !o.isInt() && !o.isReal(), "no-number"); int want = sym_choice("want", 3); bool r = false, wrong = false; A::Object::Type t = A::Object::Type::Null; try { if (want == 0) (void)o.getBool(); else if (want == 1) (void)o.getReal(); else (void)o.get<std::string>(); } catch (const A::Error::Object::NotType& e) { r = true; t = e.getType(); } catch (const A::StringParser::Error::Error&) { wrong = true; }
    if (k != 3) sym_check(r && t == (want == 0 ? A::Object::Type::Bool : want == 1 ? A::Object::Type::Number : A::Object::Type::String), "wrong-type-named"); else sym_check(!r && wrong == (want != 2), "text-is-no-number"); if (sym_choice("bool", 2)) { bool b = sym_choice("b", 2); o.setBool(b); sym_check(o.isBool() && o.getBool() == b && o.isString(), "logical-read-back"); o.setFalse(); sym_check(!o.getBool(), "false"); o.setTrue(); sym_check(o.getBool(), "true"); } o.setArray(); sym_check(o.isArray(), "made-an-array"); o.setObject(); sym_check(o.isObject() && o.size() == 0, "made-a-dictionary"); o.setType(A::Object::Type::Array); sym_check(o.isArray() && o.size() == 0, "type-changed"); }
typedef std::vector<std::pair<std::string, long>> Model;
static bool agree(const Obj& o, const Model& m) { if (!o.isObject() || o.size() != m.size()) return false; bool r = true; for (size_t i = 0; i < m.size(); i++) { r = r && o.getName(i) == m[i].first && o.existsName(m[i].first) && o(i).getInt() == m[i].second && o(m[i].first).getInt() == m[i].second; } return r; }
ENTRY p21_dictionary() {
    const int N = THOROUGH ? 4 : 3; const char* names[3] = {"ab", "a", "c d"}; Obj o; o.setObject(); Model m; for (int s = 0; s < N; s++) { int w = sym_choice(nm("name", s).c_str(), 3), op = sym_choice(nm("op", s).c_str(), 4); std::string n = names[w]; long v = symi(nm("v", s), -1000, 1000); size_t at = 0; while (at < m.size() && m[at].first != n) at++; if (op == 3) { o.eraseMember(n); if (at < m.size()) { m.erase(m.begin() + at); sym_reach("erased"); } } else { if (op == 0) o(n).setInt((int)v); else { Obj x; x.setInt((int)v); if (op == 1) { o.addMember(n, x); sym_check(x.getInt() == v, "added-value-untouched"); } else o.addMember(n, std::move(x)); } if (at < m.size()) m[at].second = v; else m.push_back(std::make_pair(n, v)); } Obj c(o); sym_check(agree(o, m), "members-in-order"); sym_check(agree(c, m), "copied-members"); for (int i = 0; i < 3; i++) { bool h = false; for (auto& e : m) h = h || e.first == names[i]; sym_check(o.existsName(names[i]) == h, "existing-names"); } }
    Obj p; p("in") = o; p("in")("x")("y").setInt(7); sym_check(agree(o, m), "nested-copy-apart"); sym_check(p("in").size() == m.size() + 1 && p("in")("x")("y").getInt() == 7, "nested-member"); p("in").eraseMember("x"); sym_check(agree(p("in"), m), "nested-members"); p("none"); sym_check(!p.existsName("none") && p.existsName("in"), "null-member-does-not-exist"); sym_reach("nested"); Obj q; q.setInt(3); sym_check(!q.existsName("in"), "values-have-no-members");
}
ENTRY p21_array() {
    const int N = THOROUGH ? 5 : 4; Obj o; o.setArray(); std::vector<long> m; for (int s = 0; s < N; s++) { int op = sym_choice(nm("op", s).c_str(), 4); long v = symi(nm("v", s), -1000, 1000); if (op == 2 && !m.empty()) { size_t i = sym_choice(nm("i", s).c_str(), (int)m.size()); o.eraseValue(i); m.erase(m.begin() + i); } else if (op == 3 && !m.empty()) { o.addValue(o(m.size() / 2)); m.push_back(m[m.size() / 2]); } else { Obj x; x.setInt((int)v); if (op == 0) o.addValue(x); else o.addValue(std::move(x)); m.push_back(v); } sym_check(o.isArray() && o.size() == m.size(), "length"); for (size_t i = 0; i < m.size() && i < o.size(); i++) sym_check(o(i).getInt() == m[i], "values-in-order"); }
    bool out = false; try { (void)o(m.size()); } catch (const std::out_of_range&) { out = true; } sym_check(out, "beyond-the-end-refused"); Obj c; c.setInt(1); c = o; o.setArray(); o = Obj(); sym_check(c.size() == m.size() && o.isNull() && o.size() == 0, "copied"); for (size_t i = 0; i < m.size(); i++) sym_check(c(i).getInt() == m[i], "copied-values");
}
ENTRY p21_child() {
    long v = symi("v", -1000, 1000), w = symi("w", -1000, 1000); Obj o; bool arr = sym_choice("array", 2); o("k")("x").setInt((int)v); o("k")("y").setInt((int)w); if (arr) { Obj k = o; o.setArray(); o.addValue(Obj()); o.addValue(k("k")); } Obj& kid = arr ? o(1) : o("k"); switch (sym_choice("how", 5)) { case 0: o = kid; break; case 1: { const Obj& c = kid; o = Obj(c); break; } case 2: o = std::move(kid); break; case 3: { Obj& self = o; o = self; sym_check(arr ? o(1)("x").getInt() == v : o("k")("x").getInt() == v, "assigned-to-itself"); return; } default: { Obj t(std::move(o)); sym_check(arr ? t(1)("y").getInt() == w : t("k")("y").getInt() == w, "moved"); o = std::move(t); sym_check(arr ? o(1)("y").getInt() == w : o("k")("y").getInt() == w, "moved-back"); return; } } sym_check(o.isObject() && o.size() == 2 && o("x").getInt() == v && o("y").getInt() == w, "takes-its-member"); o.addMember("z", o("x")); sym_check(o.size() == 3 && o("z").getInt() == v && o("x").getInt() == v, "repeats-its-member");
}
// kinds: 0 null, 1 value, 2 array, 3 dictionary
struct Ref { int kind; long v; std::map<std::string, Ref> m; Ref() : kind(0), v(0) {} };
static Ref gen(const std::string& n, int depth, Obj& o) { Ref r; r.kind = sym_choice((n + "k").c_str(), depth ? 4 : 3); if (r.kind == 1 || r.kind == 2) { r.v = symi(n + "v", -1000, 1000); Obj x; x.setInt((int)r.v); if (r.kind == 1) o = x; else o.addValue(x); } if (r.kind == 3) { o.setObject(); const char* names[2] = {"p", "q"}; int which = sym_choice((n + "m").c_str(), depth > 1 ? 3 : 2); for (int i = 0; i < 2; i++) if (depth > 1 ? (which == 2 || which == i) : which == i) r.m[names[i]] = gen(n + names[i], depth - 1, o(names[i])); } return r; }
static Ref merge(const Ref& a, const Ref& b) { if (b.kind == 0) return a; if (a.kind == 0) return b; if (a.kind == 3 && b.kind == 3) { Ref r = a; for (auto& e : b.m) r.m[e.first] = r.m.count(e.first) ? merge(r.m[e.first], e.second) : e.second; return r; } if (a.kind == 3) return a; return b; }
static bool match(const Obj& o, const Ref& r) { switch (r.kind) { case 0: return o.isNull(); case 1: return o.isString() && o.getInt() == r.v; case 2: return o.isArray() && o.size() == 1 && o(0).getInt() == r.v; } if (!o.isObject() || o.size() != r.m.size()) return false; bool k = true; for (auto& e : r.m) { bool has = false; for (size_t i = 0; i < o.size(); i++) has = has || o.getName(i) == e.first; if (!has) return false; k = k && match(o(e.first), e.second); } return k; }
static bool two(const Obj& o, long v, long w) { auto p = o.get<long, long>(); return p.first == v && p.second == w; }
// An object takes a value, a text or its parts from within itself.
ENTRY p21_own() {
    long v = symi("v", -1000, 1000), w = symi("w", -1000, 1000); int from = sym_choice("from", 3), how = sym_choice("how", 6); Obj o; if (from == 0) { o("k").set((int)v, (int)w); o("l").setInt(3); } else if (from == 1) { Obj k; k.set((int)v, (int)w); o.addValue(k); o.addValue(Obj()); } else o.set((int)v, (int)w); Obj& kid = from == 0 ? o("k") : from == 1 ? o(0) : o; size_t before = from == 1 ? 2 : 0;
    if (how < 3) { if (from == 2 && how == 2) return; if (how == 0) o.addValue(kid); else if (how == 1) { const Obj& c = kid; o.addValue(c); } else o.addValue(std::move(kid)); sym_check(o.isArray() && o.size() == before + 1, "value-added"); if (o.size() != before + 1) return; const Obj& n = o(before); sym_check(n.isString() && n.getGenericString().size() == 2 && two(n, v, w), "own-value-kept"); if (from == 1 && how < 2) sym_check(two(o(0), v, w), "source-kept"); }
    else if (how == 3) { o.setGenericString(kid.getGenericString()); sym_check(o.isString() && o.getGenericString().size() == 2 && two(o, v, w), "own-parts-kept"); }
    else if (how == 4) { o.setString(kid.getGenericString().front()); sym_check(o.isString() && o.getGenericString().size() == 1 && o.getInt() == v, "own-text-kept"); }
    else { o.setString(kid.getString()); sym_check(o.isString() && o.getGenericString().size() == 1 && !o.isNumber(), "own-joined-text"); }
}
ENTRY p21_merge() { Obj a, b; Ref ra = gen("a", THOROUGH ? 2 : 1, a), rb = gen("b", 2, b); if (!THOROUGH && sym_choice("swap", 2)) { std::swap(a, b); std::swap(ra, rb); } Ref want = merge(ra, rb); sym_check(match(a + b, want), "merged"); sym_check(match(a, ra) && match(b, rb), "merged-objects-untouched"); Obj c(a); c += b; sym_check(match(c, want), "merged-in-place"); a += a; sym_check(match(a, ra), "merged-with-itself"); }
static void six(const std::string& n, char s, const std::string& l, int how, const std::string& v, Args& a) { std::string sh = std::string("-") + s; (void)n; switch (how) { case 0: a.push_back(sh); a.push_back(v); break; case 1: a.push_back(sh + v); break; case 2: a.push_back("--" + l); a.push_back(v); break; case 3: a.push_back("--" + l + "=" + v); break; case 4: a.push_back("--" + l.substr(0, 3)); a.push_back(v); break; case 5: a.push_back("--" + l.substr(0, 2) + "=" + v); break; } }
ENTRY p21_options() {
    A::Parser p; p.formatter(new Silent); p.addOption(new A::Option<int>("Number", 'n', "number")); p.addOption(new A::Option<double>('r', "real")); A::Option<std::string>* text = new A::Option<std::string>("Text", 't', "text"); text->defaultVal({"unset"}); p.addOption(text); p.addOption(new A::MultiOption<int>("Multi", 'm', "multi")); p.addOption(new A::Option<int, int>("Pair", "pair"));
    long n = symi("n", -100000, 100000), m0 = symi("m0", 20, 100000), m1 = symi("m1", 20, 100000); double r = symr("r", 0, 99); std::stringstream rs; rs << r; int hn = sym_choice("hn", 7), ht = sym_choice("ht", 3), hr = sym_choice("hr", 2), nm_ = sym_choice("nm", 3); bool pr = sym_choice("pair", 2); Args a; a.push_back("prog"); if (pr) { a.push_back("--pair"); a.push_back(word(m1)); a.push_back(word(m0)); } if (nm_ > 0) six("m", 'm', "multi", hn % 6, word(m0), a); if (hn < 6) six("n", 'n', "number", hn, word(n), a); if (ht) { a.push_back(ht == 1 ? "--text=two words" : "-t"); if (ht == 2) a.push_back("x"); } if (nm_ > 1) six("m", 'm', "multi", (hn + 3) % 6, word(m1), a); if (hr) six("r", 'r', "real", (hn + 1) % 6, rs.str(), a);
    if (a.size() == 1) a.push_back("--pair=1"), a.push_back("2"), pr = true, m1 = 1, m0 = 2; Obj o; Why why = run(p, a, o); sym_check(why == FINE, "accepted"); if (why) return; sym_check(o.existsName("Number") == (hn < 6) && o.existsName("real") == (hr == 1) && o.existsName("Multi") == (nm_ > 0) && o.existsName("Pair") == pr && o.existsName("Text"), "only-what-was-given"); if (hn < 6) sym_check(o("Number").getInt() == n, "integer-given"); if (hr) sym_check(o("real").getReal() == r, "real-given"); sym_check(o("Text").getString() == (ht == 0 ? "unset" : ht == 1 ? "two words" : "x"), "text-given"); if (pr) { auto q = o("Pair").get<long, long>(); sym_check(q.first == m1 && q.second == m0, "pair-given"); } if (nm_) { sym_check(o("Multi").isArray() && o("Multi").size() == (size_t)nm_, "every-repetition"); if (o("Multi").size() == (size_t)nm_) { sym_check(o("Multi")(0).getInt() == m0, "first-repetition"); if (nm_ > 1) sym_check(o("Multi")(1).getInt() == m1, "second-repetition"); } } if (hn < 6) sym_reach("given"); else sym_reach("absent");
}
ENTRY p21_switches() {
    A::Parser p; p.formatter(new Silent); p.addOption(new A::Switch("Verbose", 'v', "verbose")); int d = sym_choice("default", 3); A::Switch* s = new A::Switch('w', "warn"); if (d) s->defaultVal(d == 2); p.addOption(s); A::MultiSwitch* q = new A::MultiSwitch("Quiet", 'q', "quiet"); bool dq = sym_choice("dq", 2); if (dq) q->defaultVal(0); p.addOption(q); p.addOption(new A::Option<int>('n', "number")); long n = symi("n", 20, 99999); Args a; a.push_back("prog"); int hv = sym_choice("hv", 3), hw = sym_choice("hw", 3), hq = sym_choice("hq", 4), hn = sym_choice("hn", 3); if (hn == 2) { std::string w = "-"; if (hv) w += "v"; for (int i = 0; i < hq; i++) w += "q"; if (hw) w += "w"; w += "n" + word(n); a.push_back(w); } else { if (hn == 1) { a.push_back("--number"); a.push_back(word(n)); } for (int i = 0; i < hq; i++) a.push_back(i == 1 ? "--quiet" : "-q"); if (hv) a.push_back(hv == 1 ? "-v" : "--verb"); if (hw) a.push_back(hw == 1 ? "--warn" : "-w"); } if (a.size() == 1) return;
    Obj o; Why why = run(p, a, o); sym_check(why == FINE, "accepted"); if (why) return; sym_check(o.existsName("Verbose") == (hv > 0), "switch-given"); if (hv) sym_check(o("Verbose").getBool(), "switch-on"); sym_check(o.existsName("warn") == (hw > 0 || d > 0), "switch-with-default"); if (hw || d) sym_check(o("warn").getBool() == (hw ? d != 2 : d == 2), "switch-turned-from-its-default"); sym_check(o.existsName("Quiet") == (hq > 0 || dq), "repeated-switch-given"); if (hq || dq) sym_check(o("Quiet").getInt() == hq, "times-switched"); sym_check(o.existsName("number") == (hn > 0), "number-given"); if (hn) sym_check(o("number").getInt() == n, "number-joined-to-switches");
}
// several short options in one argument, each with its value joined to it, the last one's also apart
ENTRY p21_cluster() {
    A::Parser p; p.formatter(new Silent); p.addOption(new A::Option<int>('n', "number")); p.addOption(new A::Option<int>('r', "rank")); p.addOption(new A::MultiOption<int>('m', "many")); p.addOption(new A::Switch('s', "switch")); p.addOption(new A::MultiSwitch('q', "quiet")); int len = 1 + sym_choice("len", THOROUGH ? 4 : 3), k[4], c[5] = {0, 0, 0, 0, 0}; bool apart = sym_choice("apart", 2), before = THOROUGH && sym_choice("before", 2); long v[4], w = symi("w", 20, 99999); std::string t = "-"; static const char O[6] = "nrmsq"; Args a; a.push_back("prog"); if (before) { a.push_back("-m"); a.push_back(word(w)); } for (int i = 0; i < len; i++) { k[i] = sym_choice(nm("k", i).c_str(), 5); if (c[k[i]]++ && k[i] != 2 && k[i] != 4) return; v[i] = symi(nm("v", i), 20, 99999); t += O[k[i]]; if (k[i] < 3 && !(apart && i == len - 1)) t += word(v[i]); } if (apart && k[len - 1] >= 3) return; a.push_back(t); if (apart) { a.push_back(word(v[len - 1])); sym_reach("apart"); } else sym_reach("joined");
    Obj o; Why why = run(p, a, o); sym_check(why == FINE, "accepted"); if (why) return; sym_check(o.existsName("number") == (c[0] > 0) && o.existsName("rank") == (c[1] > 0) && o.existsName("many") == (c[2] > 0 || before) && o.existsName("switch") == (c[3] > 0) && o.existsName("quiet") == (c[4] > 0), "only-what-was-given"); size_t m = 0; if (before) { sym_check(o("many").size() == (size_t)c[2] + 1 && o("many")(0).getInt() == w, "value-before"); m = 1; } for (int i = 0; i < len; i++) { if (k[i] == 0) sym_check(o("number").getInt() == v[i], "value-joined"); if (k[i] == 1) sym_check(o("rank").getInt() == v[i], "value-joined"); if (k[i] == 2) { bool there = o("many").isArray() && o("many").size() == (size_t)c[2] + before; sym_check(there, "every-repetition"); if (there) sym_check(o("many")(m).getInt() == v[i], "value-of-the-repetition"); m++; } } if (c[3]) sym_check(o("switch").getBool(), "switch-on"); if (c[4]) sym_check(o("quiet").getInt() == c[4], "times-switched");
}
ENTRY p21_positions() {
    A::Parser p; p.formatter(new Silent); p.addOption(new A::Option<int>('n', "number")); p.addPosition(new A::Position<int>("First")); p.addPosition(new A::Position<std::string>("Second")); long n = symi("n", 20, 99999), v[3]; for (int i = 0; i < 3; i++) v[i] = symi(nm("v", i), -99999, 99999); int k = sym_choice("k", 4), opt = sym_choice("opt", 2), split = sym_choice("split", 4); bool sep = sym_choice("sep", 2); if (k == 0 && !opt) return; if (split > k || (!opt && split < k) || (!opt && !sep && split != k)) return; Args a; a.push_back("dir/prog"); int at = 0; for (; at < split; at++) a.push_back(word(v[at])); if (opt) { a.push_back(sym_choice("long", 2) ? "--number" : "-n"); a.push_back(word(n)); } if (sep) a.push_back("--"); for (; at < k; at++) a.push_back(word(v[at]));
    Obj o; Why why = run(p, a, o); if (k < 2) { sym_check(why == REQUIRED, "missing-position-reported"); sym_reach("missing"); return; } if (k > 2) { sym_check(why == UNKNOWN, "left-over-position-reported"); sym_reach("left"); return; } sym_check(why == FINE, "accepted"); if (why) return; sym_check(o("First").getInt() == v[0] && o("Second").getInt() == v[1], "positions-in-order"); if (opt) sym_check(o("number").getInt() == n, "option-beside-positions"); else sym_check(!o.existsName("number"), "no-option"); sym_check(p.getProg() == "prog", "program-name");
}
// what counts as an option, as a value and as the name of the program
ENTRY p21_words() {
    A::Parser p; p.formatter(new Silent); bool plus = sym_choice("prefix", 2); std::string d = plus ? "+" : "-"; if (plus) p.prefixChars("+"); p.addOption(new A::Option<int>('n', "number")); p.addOption(new A::Option<std::string>('t', "text")); p.addPosition(new A::Position<std::string>("First")); p.addPosition(new A::Position<std::string>("Second"));
    static const char* P[6] = {"prog", "/a/b/prog", "a\\b\\prog", "dir/", "/a.b\\c/prog x", "a\\b/prog"}; static const char* Q[6] = {"prog", "prog", "prog", "dir/", "prog x", "prog"}; const std::string W[10] = {d, d + "5", "word", d + d + d, d + d + "1", d + d + "a1", d + d + "1a", "=x", d + "=n", d + d + "a"}; const std::string T[4] = {"a=b", "=", "==c", "k=" + d + "n"};
    int wi = sym_choice("w", 10), form = sym_choice("form", 4), tf = sym_choice("tf", 4), nb = sym_choice("nb", 3), mid = form ? sym_choice("mid", 2) : 0, ne = sym_choice("ne", 4); long n = symi("n", 20, 99999); int pi = form == 0 ? wi % 6 : wi == 2 ? tf : 0; Args a, want; a.push_back(P[pi]); std::string text; for (int i = 0; i < nb; i++) want.push_back(i ? "second" : W[wi]); a.insert(a.end(), want.begin(), want.end());
    if (form == 1) { a.push_back(d + d + "number=" + word(n)); } if (form == 2) { text = T[tf]; a.push_back(d + d + "text=" + text); } if (form == 3) { text = W[wi]; a.push_back(d + d + "text="); a.push_back(text); sym_reach("apart"); } if (mid) { a.push_back(W[(wi + 3) % 10]); want.push_back(a.back()); } const std::string E[3] = {d + "n", d + d, d + d + "number=" + word(n)}; if (ne) a.push_back(d + d); for (int i = 0; i < ne; i++) { a.push_back(E[i]); want.push_back(E[i]); } if (a.size() == 1) return;
    std::pair<Obj, Args> r; bool ok = true, req = false; try { r = p.parseKnownArgs(a); } catch (const A::Error::Required&) { ok = false; req = true; } catch (...) { ok = false; } sym_check(p.getProg() == Q[pi], "program-name"); if (want.size() < 2) { sym_check(req, "missing-position-reported"); sym_reach("missing"); return; } sym_check(ok, "accepted"); if (!ok) return; sym_check(r.first("First").getString() == want[0] && r.first("Second").getString() == want[1], "positions-in-order"); sym_check(r.first.existsName("number") == (form == 1) && r.first.existsName("text") == (form > 1), "only-what-was-given"); if (form == 1) sym_check(r.first("number").getInt() == n, "number-given"); if (form > 1) sym_check(r.first("text").getString() == text, "text-given"); Args left(1, Q[pi]); if (want.size() > 2) { left.push_back("--"); left.insert(left.end(), want.begin() + 2, want.end()); sym_reach("left"); } sym_check(r.second == left, "what-is-left");
}
// positions of the parser, of a group and of an exclusive group, in every order, parsed twice
ENTRY p21_places() {
    static const int O[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; A::Parser p; p.formatter(new Silent); A::Group& g = p.addGroup("sub"); A::MEGroup& me = p.addMutuallyExclusiveGroup(); bool req = sym_choice("required", 2); if (req) me.required(); me.addOption(new A::Switch('x', "xx")); int oi = sym_choice("order", 6); for (int i = 0; i < 3; i++) { if (O[oi][i] == 0) p.addPosition(new A::Position<int>("Top")); else if (O[oi][i] == 1) g.addPosition(new A::Position<int>("In")); else me.addPosition(new A::Position<int>("Ex")); } bool two = sym_choice("two", 2);
    for (int i = 0; i < 3; i++) { static const char* N[3] = {"Top", "In", "Ex"}; sym_check(p.childPosition(i).getName() == N[O[oi][i]], "positions-of-the-groups"); }
    if (two) me.addPosition(new A::Position<int>("Ey")); else if (sym_choice("bad", 2)) { static const char* M[3] = {"Argument Top:", "Argument In:", "Argument Ex:"}; int b = sym_choice("which", 3); Args a(1, "prog"); for (int i = 0; i <= b; i++) a.push_back(i == b ? std::string("x1") : word(symi(nm("v", i), 20, 99999))); std::stringstream e; std::streambuf* was = std::cerr.rdbuf(e.rdbuf()); Obj o; Why why = run(p, a, o); std::cerr.rdbuf(was); sym_check(why == INCORRECT, "wrong-value-refused"); std::string m = e.str(); for (int i = 0; i < 3; i++) sym_check((m.find(M[O[oi][i]]) != std::string::npos) == (i == b), "names-the-argument"); return; }
    sym_check(p.numChildPositions() == 3 + (size_t)two && p.numPositions() == 1 && g.numPositions() == 1 && me.numPositions() == 1 + (size_t)two, "how-many");
    for (int s = 0; s < 2; s++) { int k = sym_choice(nm("k", s).c_str(), 4); bool x = sym_choice(nm("x", s).c_str(), 2); if (k == 0 && !x) continue; long v[3]; bool has[3] = {false, false, false}; int at[3] = {0, 0, 0}; Args a(1, "prog"); for (int i = 0; i < k; i++) { v[i] = symi(nm("v", 3 * s + i), 20, 99999); a.push_back(word(v[i])); has[O[oi][i]] = true; at[O[oi][i]] = i; } if (x) a.push_back("-x"); Obj o; Why why = run(p, a, o); if (x && has[2]) { sym_check(why == EXCLUDED || (why == REQUIRED && !(has[0] && has[1])), "only-one-of-the-exclusive"); sym_reach("excluded"); continue; } if (two && k == 3) { a.push_back("21"); sym_check(run(p, a, o) == EXCLUDED, "only-one-of-the-exclusive-positions"); continue; } if (!has[0] || !has[1]) { sym_check(why == REQUIRED || (why == GREQUIRED && req && !x && !has[2]), "missing-position-reported"); sym_reach("required"); continue; } if (req && !x && !has[2]) { sym_check(why == GREQUIRED, "one-of-the-required"); continue; } sym_check(why == FINE, "accepted"); if (why) continue; sym_check(o("Top").getInt() == v[at[0]] && o("sub")("In").getInt() == v[at[1]], "positions-of-the-groups-read"); sym_check(o.existsName("Ex") == has[2] && o.existsName("xx") == x, "exclusive-given"); if (has[2]) sym_check(o("Ex").getInt() == v[at[2]], "exclusive-position-read"); sym_reach("given"); }
}
ENTRY p21_abbreviated() {
    A::Parser p; p.formatter(new Silent); bool allow = sym_choice("allow", 2); if (!allow) p.allowAbbrev(false); const char* names[4] = {"verb", "verbose", "version", "other"}; for (int i = 0; i < 4; i++) p.addOption(new A::Option<int>(names[i], (char)('a' + i), names[i])); int i = sym_choice("name", 4), len = 2 + sym_choice("len", 6); std::string w = names[i]; sym_assume(len <= (int)w.size()); w = w.substr(0, len); long v = symi("v", -9999, 9999); int hit = -1, n = 0; for (int j = 0; j < 4; j++) { std::string f = names[j]; if (f == w) { hit = j; n = 1; break; } if (allow && f.substr(0, w.size()) == w) { hit = j; n++; } } Args a; a.push_back("prog"); if (sym_choice("joined", 2)) a.push_back("--" + w + "=" + word(v)); else { a.push_back("--" + w); a.push_back(word(v)); }
    Obj o; Why why = run(p, a, o); if (n == 0) { sym_check(why == UNKNOWN, "unknown-refused"); sym_reach("unknown"); } else if (n > 1) { sym_check(why == AMBIGUOUS, "ambiguous-refused"); sym_reach("ambiguous"); } else { sym_check(why == FINE && o.size() == 1 && o.existsName(names[hit]) && o(names[hit]).getInt() == v, "the-option-it-abbreviates"); }
}
ENTRY p21_choices() {
    A::Parser p; p.formatter(new Silent); A::Option<std::string>* c = new A::Option<std::string>('c', "colour"); c->choices({{"red"}, {"green"}}); p.addOption(c); A::Option<int, std::string>* s = new A::Option<int, std::string>('s', "size"); s->choices({{"*", "cm"}, {"30", "mm"}}); p.addOption(s); static const char* C[4] = {"red", "green", "blue", "re"}; static const char* U[3] = {"cm", "mm", "km"}; int ci = sym_choice("c", 4), ui = sym_choice("u", 3); long n = sym_choice("n", 2) ? 30 : symi("v", 100, 999); Args a; a.push_back("prog"); bool col = sym_choice("col", 2); if (col) { a.push_back("--colour"); a.push_back(C[ci]); } else { a.push_back("-s"); a.push_back(word(n)); a.push_back(U[ui]); } Obj o; Why why = run(p, a, o); bool ok = col ? ci < 2 : (ui == 0 || (ui == 1 && n == 30)); sym_check(why == (ok ? FINE : CHOICES), "only-the-choices"); if (!ok) { sym_reach("refused"); try { (void)p.parse(a); } catch (const A::Error::NotChoices& e) { sym_check(e.getArg().getName() == (col ? "colour" : "size") && e.getChoices().size() == 2, "choices-reported"); sym_check(std::string(e.what()).find(col ? "green" : "cm") != std::string::npos, "choices-explained"); } return; } sym_reach("accepted"); if (col) sym_check(o("colour").getString() == C[ci], "choice-kept"); else { auto q = o("size").get<int, std::string>(); sym_check(q.first == n && q.second == U[ui], "choice-with-a-free-value"); }
}
ENTRY p21_groups() {
    A::Parser p; p.formatter(new Silent); A::Group& g = p.addGroup("sub", "a group"); g.addOption(new A::Option<int>('n', "number")); A::Option<int>* d = new A::Option<int>('d', "depth"); d->defaultVal({"4"}); g.addOption(d); A::Group& gg = g.addGroup("deep"); gg.addOption(new A::Switch("Deep", 'z', "deepest")); p.addOption(new A::Option<int>("Number", 't', "top")); A::MEGroup& me = p.addMutuallyExclusiveGroup(); bool req = sym_choice("required", 2); if (req) me.required(); me.addOption(new A::Switch('x', "xx")); me.addOption(new A::Option<int>('y', "yy")); long n = symi("n", 20, 99999), t = symi("t", 20, 99999); bool hn = sym_choice("hn", 2), hx = sym_choice("hx", 2), hy = sym_choice("hy", 2), hz = sym_choice("hz", 2); Args a; a.push_back("prog"); a.push_back("-t"); a.push_back(word(t)); if (hn) { a.push_back("--number"); a.push_back(word(n)); } if (hx) a.push_back("-x"); if (hz) a.push_back("--deepest"); if (hy) { a.push_back("--yy"); a.push_back(word(n)); } Obj o; Why why = run(p, a, o); if (hx && hy) { sym_check(why == EXCLUDED, "only-one-of-the-exclusive"); sym_reach("excluded"); return; } if (req && !hx && !hy) { sym_check(why == GREQUIRED, "one-of-the-required"); sym_reach("required"); return; }
    sym_check(why == FINE, "accepted"); if (why) return; sym_check(o("Number").getInt() == t && !o.existsName("number"), "outside-the-group"); sym_check(o.existsName("sub") && o("sub").existsName("number") == hn && o("sub")("depth").getInt() == 4, "inside-its-group"); if (hn) sym_check(o("sub")("number").getInt() == n, "value-in-its-group"); sym_check(o("sub")("deep").existsName("Deep") == hz, "group-in-a-group"); sym_check(o.existsName("xx") == hx && o.existsName("yy") == hy, "exclusive-given"); if (hy) sym_check(o("yy").getInt() == n, "exclusive-value"); sym_reach("kept");
}
static void define(A::Parser& p) { p.formatter(new Silent); A::Option<int>* n = new A::Option<int>("Number", 'n', "number"); n->required(); p.addOption(n); p.addOption(new A::Option<int, int>('p', "pair")); p.addOption(new A::Switch('s', "switch")); p.addOption(new A::MultiSwitch('q', "quiet")); p.addOption(new A::MultiOption<int>('m', "multi")); A::Position<int>* o = new A::Position<int>("Pos"); p.addPosition(o); }
struct Line { Args a; Why why; long n, pos; int q, m; bool s; };
static Line line(const std::string& k, bool bad) { Line l; l.a.push_back("prog"); l.n = symi(k + "n", 20, 99999); l.pos = symi(k + "p", 20, 99999); l.q = sym_choice((k + "q").c_str(), 2); l.m = sym_choice((k + "m").c_str(), 2); l.s = sym_choice((k + "s").c_str(), 2); int b = bad ? sym_choice((k + "bad").c_str(), 10) : 0; l.why = FINE; if (b != 1) { l.a.push_back("-n"); l.a.push_back(b == 2 ? "x12" : word(l.n)); } else l.why = REQUIRED; if (b == 2) l.why = INCORRECT; for (int i = 0; i < l.q; i++) l.a.push_back("-q"); for (int i = 0; i < l.m; i++) { l.a.push_back("-m"); l.a.push_back(word(l.n + i)); } if (l.s) l.a.push_back("--switch"); if (b == 3) { l.a.push_back("-n"); l.a.push_back("1"); l.why = MULTIPLE; } if (b == 4) { l.a.push_back("--pair"); l.a.push_back("1"); l.why = FEW; } if (b == 5) { l.a.push_back("--unknown"); l.why = UNKNOWN; } if (b == 6) { l.a.push_back("-k"); l.why = UNKNOWN; } if (b == 8) { l.a.push_back("-s"); l.a.push_back("-s"); l.why = MULTIPLE; } if (b == 7) { l.a = Args(1, "prog"); l.why = EMPTY; return l; } l.a.push_back("--"); if (b != 9) l.a.push_back(word(l.pos)); else l.why = REQUIRED; return l; }
static void expect(const Line& l, Why why, const Obj& o, const char* id) { sym_check(why == l.why, id); if (why || l.why) return; sym_check(o("Number").getInt() == l.n && o("Pos").getInt() == l.pos, id); sym_check(o.existsName("switch") == l.s && o.existsName("quiet") == (l.q > 0) && o.existsName("multi") == (l.m > 0), id); if (l.q) sym_check(o("quiet").getInt() == l.q, id); if (l.m) sym_check(o("multi").size() == (size_t)l.m && o("multi")(0).getInt() == l.n, id); }
ENTRY p21_refused() { A::Parser p; define(p); Line l = line("a", true); Obj o; o.setInt(5); Why why = run(p, l.a, o); expect(l, why, o, "refused-for-its-reason"); if (why) sym_check(o.isString() && o.getInt() == 5, "nothing-returned"); }
ENTRY p21_again() { A::Parser p; define(p); Line l = line("a", true); Obj o; Why why = run(p, l.a, o); expect(l, why, o, "first-time"); Line m = line("b", false); Obj r; why = run(p, m.a, r); expect(m, why, r, "second-time"); if (l.why == FINE) expect(l, FINE, o, "first-result-untouched"); }
ENTRY p21_define() {
    A::Parser p; define(p); Line l = line("a", false); int k = sym_choice("k", 8); bool sub = sym_choice("sub", 2), me = sym_choice("me", 2); A::GroupBase* g = &p; if (sub) { if (me) g = &p.addMutuallyExclusiveGroup(); else g = &p.addGroup("sub"); } bool no = false, nul = false, id = false; bool own = sub && !me; bool want = true; try { switch (k) { case 0: g->addOption(new A::Switch("New", 'n')); break; case 1: g->addOption(new A::Switch("New", 'x', "number")); break; case 2: want = !own; g->addOption(new A::Switch("Number", 'x', "xx")); break; case 3: want = !own; g->addPosition(new A::Position<int>("Pos")); break; case 4: want = !own; g->addPosition(new A::Position<int>("Number")); break; case 5: g->addOption(0); break; case 6: g->addOption(new A::Switch("7", '7', "x")); break; default: want = false; g->addOption(new A::Switch("New", 'x', "xx")); break; } } catch (const A::Error::Group::Repeated&) { no = true; } catch (const A::Error::Group::NullArgument&) { nul = true; } catch (const A::Error::NoIdentifier&) { id = true; }
    sym_check((no || nul || id) == want && nul == (k == 5) && id == (k == 6), "repeated-arguments-refused"); if (!want && (k == 3 || k == 4)) return; sym_reach("refused"); Obj o; Why why = run(p, l.a, o); expect(l, why, o, "the-others-still-work"); sym_check(p.existsOption('n') && p.existsOption("number") && p.existsOption('x') == (!want && k != 3 && k != 4), "identifiers"); if (want && k != 5 && k != 6) { bool again = false; try { g->addOption(new A::Switch("New", 'x', "xx")); } catch (...) { again = true; } sym_check(!again, "free-identifiers-stay-free"); l.a.insert(l.a.begin() + 1, "-x"); why = run(p, l.a, o); sym_check(why == FINE && (own ? o("sub") : o)("New").getBool(), "added-afterwards"); }
}
ENTRY p21_known() {
    A::Parser p; p.formatter(new Silent); p.addOption(new A::Option<int>('n', "number")); p.addPosition(new A::Position<int>("Pos")); long n = symi("n", 20, 9999), q = symi("q", 20, 9999), u = symi("u", 20, 9999), e = symi("e", 20, 9999); int hu = sym_choice("unknown", 4); bool extra = sym_choice("extra", 2); Args a; a.push_back("prog"); a.push_back(word(q)); if (extra) a.push_back(word(e)); if (hu == 1) a.push_back("--other=" + word(u)); if (hu == 2) { a.push_back("--other"); a.push_back(word(u)); } if (hu == 3) a.push_back("-k"); a.push_back("-n"); a.push_back(word(n)); std::pair<Obj, Args> r; bool ok = true; try { r = p.parseKnownArgs(a); } catch (...) { ok = false; } sym_check(ok, "unknown-allowed"); if (!ok) return; sym_check(r.first("number").getInt() == n && r.first("Pos").getInt() == q, "known-read"); std::string left; for (auto& s : r.second) left += s + ";"; sym_check(!r.second.empty() && r.second[0] == "prog", "program-first"); auto has = [&](const std::string& w) { for (auto& s : r.second) if (s == w) return true; return false; }; sym_check(has("--other") == (hu == 1 || hu == 2) && has("-k") == (hu == 3), "unknown-options-listed"); if (hu == 1 || hu == 2) sym_check(has(word(u)), "their-values-listed"); if (extra) sym_check(has(word(e)) && has("--"), "extra-positions-listed"); sym_check(r.second.size() == 1 + (size_t)(hu == 0 ? 0 : hu == 3 ? 1 : 2) + (extra ? 2 : 0), "nothing-else-listed");
}
ENTRY p21_copies() {
    A::Parser p; p.formatter(new Silent); A::Option<int> n("Number", 'n', "number"); bool req = sym_choice("req", 2); n.required(req); n.help("help")->metavar({"N"}); n.choices({{"31"}, {"*"}}); if (!req) n.defaultVal({"8"}); A::Position<int> q("Pos"); A::Switch s('s', "switch"); s.defaultVal(true); A::MultiSwitch m("Many", 'm', "many"); m.defaultVal(2); A::MultiOption<int> o("Opt", "opt"); A::MultiPosition<int> r("Rest"); sym_check(r.getName() == "Rest", "name"); A::Option<int>* c = new A::Option<int>(n); sym_check(c->getName() == "Number" && c->getHelp() == "help" && c->getMetavar() == Txt(1, "N") && c->getChoices().size() == 2 && c->getRequired() == req && c->getDefault().size() == (req ? 0 : 1) && c->hasShortIdentifier() && c->getShortIdentifier() == 'n' && c->hasLongIdentifier() && c->getLongIdentifier() == "number" && c->getArgName() == n.getArgName(), "option-copied"); p.addOption(c); p.addPosition(new A::Position<int>(q)); p.addOption(new A::Switch(s)); p.addOption(new A::MultiSwitch(m)); p.addOption(new A::MultiOption<int>(o)); p.addPosition(new A::MultiPosition<int>(r));
    long v = symi("v", 20, 9999), w = symi("w", 20, 9999); bool hn = sym_choice("hn", 2); int hm = sym_choice("hm", 3); Args a; a.push_back("prog"); a.push_back(word(w)); a.push_back(word(v)); if (hn) a.push_back("-n" + word(v)); for (int i = 0; i < hm; i++) a.push_back("-m"); Obj b; Why why = run(p, a, b); if (req && !hn) { sym_check(why == REQUIRED, "copy-required"); return; } sym_check(why == FINE, "accepted"); if (why) return; sym_check(b("Number").getInt() == (hn ? v : 8) && b("Pos").getInt() == w && b("switch").getBool() && b("Many").getInt() == 2 + hm && b("Rest").size() == 1 && b("Rest")(0).getInt() == v && !b.existsName("Opt"), "copies-behave-alike");
}
// Appends how a value of a chosen kind is shown to "out" and gives the value.
static Obj shown(const std::string& n, size_t depth, bool text, std::string& out, int deep) {
    Obj o; int k = sym_choice((n + "kind").c_str(), deep ? 8 : 6); std::string pad(depth + 2, ' '), end = std::string(depth, ' ');
    switch (k) {
    case 0: out += "null"; break;
    case 1: { long v = sym_choice((n + "v").c_str(), 2) ? 0 : -123456; o.setInt((int)v); out += text ? "\"" + txt(v) + "\"" : txt(v); break; }
    case 2: o.setString("2.5"); out += text ? "\"2.5\"" : "2.5"; break;
    case 3: o.setString("some words"); out += "\"some words\""; break;
    case 4: { Txt w; int c = sym_choice((n + "c").c_str(), 3); for (int i = 0; i < c; i++) { w.push_back(i ? "b" : "a"); out += (i ? " \"" : "\"") + w.back() + "\""; } o.setGenericString(w); break; }
    case 5: o.setBool(sym_choice((n + "b").c_str(), 2)); out += text ? "\"" + o.getString() + "\"" : o.getString(); break;
    default: { bool dict = k == 6; int c = sym_choice((n + "size").c_str(), deep > 1 ? 3 : 2); if (dict) o.setObject(); else o.setArray(); out += dict ? "{\n" : "[\n"; for (int i = 0; i < c; i++) { std::string name = i ? "a" : "the b"; out += pad + (dict ? "\"" + name + "\" : " : ""); Obj m = shown(n + (i ? "1" : "0"), depth + 2, text, out, i == 0 ? deep - 1 : 0); if (dict) o(name) = m; else o.addValue(m); out += i + 1 < c ? ",\n" : "\n"; } out += end + (dict ? "}" : "]"); sym_reach(c ? "nested" : "empty"); } }
    return o;
}
ENTRY p21_shown() {
    bool text = sym_choice("text", 2); std::string want; Obj o = shown("o", 0, text, want, THOROUGH ? 3 : 2); std::stringstream s; std::streambuf* was = std::cout.rdbuf(s.rdbuf()); if (text) o.printInfo(true); else o.printInfo(); std::cout.rdbuf(was); sym_check(s.str() == want + "\n", "shows-every-value-in-order");
}
