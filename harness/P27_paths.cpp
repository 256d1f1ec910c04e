// @property P27
// @bounds every path of up to 6 characters (8 thorough) out of letters, dots, blanks and slashes, and a table of paths; every subset of four files and folders that exist; folder names of the stated table
// @assume file names made of dots only are no names of projects
// @entry p27_split shards=4 reach=nested,plain
// @entry p27_const shards=2
// @entry p27_extension shards=4 reach=some,none
// @entry p27_project shards=2
// @entry p27_recombine shards=2
// @entry p27_relative shards=4 reach=inside,outside
// @entry p27_copies
// @entry p27_kinds
// @entry p27_folders
// @entry p27_remove reach=removed,kept
// @entry p27_open
// @entry p27_full
// @entry p27_listing
#include "common.h"
#include "filesystem/Project.h"
#include <fstream>
#include <cstdlib>
#include <dirent.h>
#ifndef THOROUGH
#define THOROUGH 0
#endif
using SEMBA::FileSystem::Project;
static std::string command; static int commands = 0; static const char* listing[8]; static int listed = 0, opened = 0; static std::string listedDir; static dirent entry; static bool realfails = false;
extern "C" {
int system(const char* c) { command = c; commands++; return 0; } // nothing is run: the command is only recorded
char* realpath(const char* p, char* out) { if (realfails) return 0; std::string r = std::string("/where/") + p; char* q = out ? out : (char*)malloc(r.size() + 1); for (size_t i = 0; i <= r.size(); i++) q[i] = r.c_str()[i]; return q; }
DIR* opendir(const char* d) { listedDir = d; if (listedDir == "none") return 0; opened++; listed = 0; return (DIR*)&listing; }
struct dirent* readdir(DIR*) { if (!listing[listed]) return 0; const char* s = listing[listed++]; int i = 0; do entry.d_name[i] = s[i]; while (s[i++]); return &entry; }
int closedir(DIR*) { opened--; return 0; }
}
static const int MAX = THOROUGH ? 8 : 6;
// any text of letters, dots, blanks and slashes
static std::string text(const char* n, int lo, int hi, bool slashes = true) { int k = lo + sym_choice((std::string(n) + "len").c_str(), hi - lo + 1); std::string r; for (int i = 0; i < k; i++) { int c = (int)symi(nm(n, i), 0, slashes ? 3 : 2); r += (char)(c == 0 ? 'a' : c == 1 ? '.' : c == 2 ? ' ' : '/'); } return r; }
static size_t stem(const std::string& p) { size_t k = p.size(); while (k > 1 && p[k - 1] == '/') k--; return k; }
// last component, and everything before it
static std::string lastOf(const std::string& p) { size_t k = stem(p), i = k; while (i > 0 && p[i - 1] != '/') i--; return p.substr(i, k - i); }
static std::string before(const std::string& p) { size_t k = stem(p), i = k; while (i > 0 && p[i - 1] != '/') i--; while (i > 0 && p[i - 1] == '/') i--; return p.substr(0, i); }
static bool dots(const std::string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] != '.') return false; return true; }
static bool only(const std::string& s) { for (size_t i = 0; i < s.size(); i++) if (s[i] != '/') return false; return true; }
static std::string path(const char* n) { std::string s = text(n, 1, MAX); sym_assume(!only(s)); return s; }
ENTRY p27_split() { std::string s = path("c"); Project p(s); std::string b = lastOf(s), f = before(s), g = p.getFolder(); sym_check(p.getBasename() == b, "last-component"); sym_reach(f.empty() ? "plain" : "nested"); sym_check(!g.empty() && g[g.size() - 1] == '/', "folder-ends-in-a-slash"); if (!f.empty()) sym_check(g == f + "/", "folder-before-the-name"); else sym_check(g == (s[0] == '/' ? "/" : "./"), "folder-of-a-plain-name"); }
ENTRY p27_const() { std::string s = text("c", 0, MAX); const Project p(s); Project q(p); int k = sym_choice("query", 6); if (k == 0) p.getBasename(); else if (k == 1) p.getFolder(); else if (k == 2) p.getExtension(); else if (k == 3) p.getProjectName(); else if (k == 4) p.isFolder(); else p.relativeTo(Project("a/")); sym_check(p.getFilename() == s && p.toStr() == s && p == q, "queries-leave-the-path"); }
ENTRY p27_extension() { std::string s = path("c"), b = lastOf(s); Project p(s); size_t i = b.rfind('.'); std::string e = p.getExtension(); bool has = i != std::string::npos && i > 0; sym_assume(!dots(b)); sym_reach(has ? "some" : "none"); sym_check(e == (has ? b.substr(i) : std::string()), "extension-of-the-name"); }
ENTRY p27_project() { std::string s = path("c"), b = lastOf(s); sym_assume(!dots(b)); size_t i = b.rfind('.'); std::string n = i != std::string::npos && i > 0 ? b.substr(0, i) : b; Project p(s); sym_check(p.getProjectName() == n && p.getOutputName() == n, "name-without-extension"); sym_check(p.getOutputFilename() == p.getFolder() + n, "output-next-to-the-project"); sym_check(n.size() == b.size() || n + p.getExtension() == b, "name-and-extension"); }
ENTRY p27_recombine() { std::string s = path("c"); Project p(s); Project q(p.getFolder() + p.getBasename()); sym_check(q.getFolder() == p.getFolder() && q.getBasename() == p.getBasename() && q.getExtension() == p.getExtension() && q.getProjectName() == p.getProjectName(), "same-parts-again"); }
ENTRY p27_relative() { std::string d = text("d", 1, 3), f = text("f", 1, 3); sym_assume(!only(d)); if (d[d.size() - 1] != '/') d += '/'; sym_assume(f[0] != '/' && d[d.size() - 2] != '/'); Project base(d + "x"), p(d + f); sym_check(p.relativeTo(base) == f, "path-inside-the-folder"); sym_reach("inside"); Project far("b/" + d + f); bool in = false; std::string z = "b/" + d + f; in = z.compare(0, d.size(), d) == 0; if (!in) { sym_reach("outside"); sym_check(far.relativeTo(base) == z, "path-outside-the-folder"); } }
ENTRY p27_copies() { std::string s = text("c", 0, 4), u = text("u", 0, 3); Project p(s), q(p), e; e = q; sym_check(e == p && q == s && e.getFilename() == s, "copies-of-the-path"); q.setFilename(u); sym_check(q.getFilename() == u && e.getFilename() == s && (q == e) == (u == s), "copies-are-independent"); }
static void file(const char* n) { std::ofstream f(n); f << "x"; }
ENTRY p27_kinds() { bool a = sym_choice("a", 2), d = sym_choice("d", 2); if (a) file("plain"); if (d) Project("folder").makeDir(); sym_check(!Project("plain").isFolder() && Project("folder").isFolder() == d && Project("folder/").isFolder() == d && !Project("missing").isFolder() && !Project("missing/").isFolder() && !Project("").isFolder(), "folders-that-exist"); sym_check(Project("plain").canOpen() == a && !Project("missing").canOpen() && !Project("plain").canExecute() && !Project("missing").canExecute(), "files-that-exist"); bool refused = false; try { Project(a ? "plain" : "missing").exec("x"); } catch (const std::ios_base::failure&) { refused = true; } sym_check(refused && commands == 0, "only-programs-are-run"); 
    if (d) { file("folder/in"); Project f("folder"), g("folder/"), in("folder/in"); sym_check(in.relativeTo(f) == "in" && in.relativeTo(g) == "in" && in.relativeTo(in) == "in", "relative-to-a-folder"); Project("folder/sub").makeDir(); file("folder/sub/in"); Project u("folder/sub"), deep("folder/sub/in"); sym_check(deep.relativeTo(u) == "in" && deep.relativeTo(f) == "sub/in" && deep.relativeTo(in) == "sub/in" && u.relativeTo(f) == "sub", "relative-to-a-folder-below"); } }
static const char* NAMES[11] = {"'q' it", "up/down", "out", "out/", "my out", "it's", "a;b", "$HOME", "-x", "a&b", "\"q\""};
ENTRY p27_folders() { std::string n = NAMES[sym_choice("name", 11)]; int k = sym_choice("there", 3); Project p(n); if (n == "up/down") Project("up").makeDir(); if (k == 1) p.makeDir(); if (k == 2 && n[n.size() - 1] != '/') file(n.c_str()); bool ok = true; try { p.makeDir(); } catch (const std::logic_error&) { ok = false; } bool file = k == 2 && n[n.size() - 1] != '/'; sym_check(ok == !file && p.isFolder() == ok && commands == 0, "made-unless-a-file"); }
// words of a command as the shell splits them; false if it would do anything else
static bool words(const std::string& c, std::vector<std::string>& w) { w.clear(); size_t i = 0; while (i < c.size()) { if (c[i] == ' ') { i++; continue; } std::string x; while (i < c.size() && c[i] != ' ') { char k = c[i]; if (k == '\'') { for (i++; i < c.size() && c[i] != '\''; i++) x += c[i]; if (i >= c.size()) return false; i++; } else if (k == '"') { for (i++; i < c.size() && c[i] != '"'; i++) { if (c[i] == '$' || c[i] == '`') return false; if (c[i] == '\\' && i + 1 < c.size()) i++; x += c[i]; } if (i >= c.size()) return false; i++; } else if (k == '\\') { if (++i >= c.size()) return false; x += c[i++]; } else { if (std::string(";&|<>()$`*?[]#~=%!{}\n\t").find(k) != std::string::npos) return false; x += k; i++; } } w.push_back(x); } return true; }
ENTRY p27_remove() { std::string n = NAMES[sym_choice("name", 11)]; bool there = sym_choice("there", 2); Project p(n); if (n == "up/down") Project("up").makeDir(); if (there) p.makeDir(); p.rmDir(); if (!there) { sym_reach("kept"); sym_check(commands == 0, "nothing-to-remove"); return; } sym_reach("removed"); if (commands == 0) { sym_check(!p.isFolder(), "folder-is-removed"); return; } std::vector<std::string> w; bool ok = words(command, w); int targets = 0; bool opts = true, only = true; if (ok && w.size() > 1 && w[0] == "rm") for (size_t i = 1; i < w.size(); i++) { if (opts && w[i] == "--") { opts = false; continue; } if (opts && !w[i].empty() && w[i][0] == '-') { only = only && w[i].find_first_not_of("-rRf") == std::string::npos; continue; } targets++; only = only && w[i] == n; } sym_check(ok && commands == 1 && targets == 1 && only, "only-that-folder-is-removed"); }
ENTRY p27_open() { bool there = sym_choice("there", 2), bin = sym_choice("binary", 2); if (there) file("data.txt"); bool ok = true; try { std::ifstream f; Project("data.txt").openAsInput(f); std::string s; f >> s; sym_check(s == "x", "opened-to-read"); } catch (const std::ios_base::failure&) { ok = false; } sym_check(ok == there, "missing-files-are-reported"); { std::ofstream o; Project("new.txt").openFile(o, !bin); o << "text"; } std::ifstream i("new.txt"); std::string t; i >> t; sym_check(t == "text", "opened-to-write"); }
ENTRY p27_full() { realfails = sym_choice("fails", 2); std::string r; bool ok = true; try { r = Project("name").getFullPath(); } catch (const std::ios_base::failure&) { ok = false; } sym_check(realfails ? !ok || r.empty() || r == "name" : ok && r == "/where/name", "full-path"); }
struct Open : public Project { std::vector<std::string> list(const std::string& d, const std::string& e) const { return getFilesBasenames_(d, e); } };
ENTRY p27_listing() { static const char* F[5] = {"a.msh", "b.msh.old", "c.dat", "msh", ".msh"}; int n = 0; bool in[5]; for (int i = 0; i < 5; i++) { in[i] = sym_choice(nm("file", i).c_str(), 2); if (in[i]) listing[n++] = F[i]; } listing[n] = 0; std::vector<std::string> r = Open().list("folder", ".msh"), e; for (int i = 0; i < 5; i += 4) if (in[i]) e.push_back(F[i]); sym_check(r == e && listedDir == "folder" && opened == 0, "files-with-the-extension"); sym_check(Open().list("none", ".msh").empty() && opened == 0, "no-such-folder"); }
