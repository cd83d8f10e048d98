// P25: project paths and the operations on the folders and files they name.
// The worker drops to an unprivileged user and works in a folder of its own.
#include "mc.h"
#include <dirent.h>
#include <grp.h>
#include <limits.h>
#include <fstream>
#include "filesystem/Project.h"
using SEMBA::FileSystem::Project;
typedef std::string Str;

static Str box;                                    // scratch folder everything happens in
static void contain() {
    if (!box.empty()) return;
    char b[PATH_MAX]; if (!getcwd(b, sizeof b)) _exit(9);
    Str here = b;
    box = here + "/box";
    mkdir(box.c_str(), 0755);
    if (getuid() == 0) {
        chmod(here.c_str(), 0711); chmod((here + "/..").c_str(), 0711);
        if (chown(box.c_str(), 65534, 65534) || setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(9);
    }
    if (chdir(box.c_str())) _exit(9);
}
// --- what is in a folder: path -> kind and contents
typedef std::map<Str, Str> Tree;
static void scan(const Str& dir, const Str& rel, Tree& t) {
    DIR* d = opendir(dir.c_str());
    if (!d) { t[rel + "!"] = "unreadable"; return; }
    while (dirent* e = readdir(d)) {
        Str n = e->d_name;
        if (n == "." || n == "..") continue;
        Str p = dir + "/" + n, r = rel + n;
        struct stat s; if (lstat(p.c_str(), &s)) continue;
        if (S_ISDIR(s.st_mode)) { t[r] = "folder"; scan(p, r + "/", t); }
        else if (S_ISLNK(s.st_mode)) { char b[PATH_MAX]; ssize_t k = readlink(p.c_str(), b, sizeof b); t[r] = "link " + Str(b, k > 0 ? k : 0); }
        else { std::ifstream f(p.c_str()); std::ostringstream o; o << f.rdbuf(); t[r] = "file " + o.str(); }
    }
    closedir(d);
}
static void wipe(const Str& dir, bool self) {
    chmod(dir.c_str(), 0755);
    DIR* d = opendir(dir.c_str());
    if (d) {
        while (dirent* e = readdir(d)) {
            Str n = e->d_name, p = dir + "/" + n;
            if (n == "." || n == "..") continue;
            struct stat s; if (lstat(p.c_str(), &s)) continue;
            if (S_ISDIR(s.st_mode)) wipe(p, true); else unlink(p.c_str());
        }
        closedir(d);
    }
    if (self) rmdir(dir.c_str());
}
static void put(const Str& p, const Str& s, int mode = 0644) { { std::ofstream f(p.c_str()); f << s; } chmod(p.c_str(), mode); }
static Str show(const Tree& t) { Str r; for (auto& p : t) r += p.first + " (" + p.second + "), "; return r; }
static Str diff(const Tree& a, const Tree& b) {
    Str r;
    for (auto& p : a) { auto i = b.find(p.first); if (i == b.end()) r += "lost " + p.first + "; "; else if (i->second != p.second) r += "changed " + p.first + ": " + i->second + "; "; }
    for (auto& p : b) if (!a.count(p.first)) r += "new " + p.first + "; ";
    return r;
}
static Str quote(const Str& s) { return "'" + s + "'"; }

// --- paths as text
static std::vector<Str> parts(const Str& s) {       // where a path leads, written canonically
    std::vector<Str> r; Str w;
    for (size_t i = 0; i <= s.size(); i++) {
        if (i < s.size() && s[i] != '/') { w += s[i]; continue; }
        if (!w.empty() && w != ".") r.push_back(w);
        w.clear();
    }
    return r;
}
static void split(const Str& p, Str& folder, Str& base) {    // POSIX dirname and basename
    Str s = p;
    if (s.empty()) { folder = "./"; base = "."; return; }
    while (s.size() > 1 && s[s.size() - 1] == '/') s.erase(s.size() - 1);
    if (s == "/") { folder = "/"; base = "/"; return; }
    size_t k = s.rfind('/');
    base = k == Str::npos ? s : s.substr(k + 1);
    if (k == Str::npos) { folder = "./"; return; }
    Str f = s.substr(0, k);
    while (!f.empty() && f[f.size() - 1] == '/') f.erase(f.size() - 1);
    folder = f + "/";
}
static bool isDir(const Str& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISDIR(s.st_mode); }
static void text(const Str& p) {
    const Project q(p);
    Str f, b; split(p, f, b);
    Str gf = q.getFolder(), gb = q.getBasename(), ge = q.getExtension(), gn = q.getProjectName();
    mc::step(8);
    mc::state(gf + "|" + gn + "|" + ge);
    // what "//" stands for is left to the system
    MC_CHECK(gf == f || (p.compare(0, 2, "//") == 0 && gf == "/" + f), "folder", quote(gf) << " expected " << quote(f));
    MC_CHECK(gb == b, "base-name", quote(gb) << " expected " << quote(b));
    size_t d = b.rfind('.');
    Str e = d == Str::npos || d == 0 ? "" : b.substr(d);
    MC_CHECK(ge == e, "extension", quote(ge) << " expected " << quote(e));
    MC_CHECK(gn == b.substr(0, b.size() - e.size()), "project-name", quote(gn));
    MC_CHECK(gn + ge == gb, "name-and-extension-rejoin", quote(gn) << " and " << quote(ge) << " are not " << quote(gb));
    MC_CHECK(parts(gf + gb) == parts(p) && ((gf + gb)[0] == '/') == (p[0] == '/'), "folder-and-name-rejoin", quote(gf + gb));
    MC_CHECK(q.getOutputName() == gn && q.getOutputFilename() == gf + gn, "output-name", quote(q.getOutputName()) << " " << quote(q.getOutputFilename()));
    MC_CHECK(q.getFilename() == p && q.toStr() == p, "whole-name", quote(q.getFilename()));
    MC_CHECK(q.isFolder() == isDir(p), "is-folder", q.isFolder());
    MC_CHECK(q == p && Str(q.c_str()) == p, "query-changed-path", quote(q));
    Project c(q), a("zz"); a = q;
    MC_CHECK(c == q && a == q, "copy", quote(c) << quote(a));
    a.setFilename("other.x");
    MC_CHECK(a.getFilename() == "other.x" && q == p, "set-name", quote(a));
    mc::outcome(e.empty() ? "path without extension" : "path with extension");
}
static void texts() {
    const Str alpha = mc::pick(Str("a./ "), Str("ab./ \\"));
    auto word = [&](const std::vector<unsigned>& s) { Str w; for (unsigned i : s) w += alpha[i]; return w; };
    auto prepare = [&] {
        contain();
        wipe(box, false);
        mkdir("a", 0755); mkdir("a/a", 0755); mkdir("a.", 0755); mkdir("a/.a", 0755); mkdir(" ", 0755); put("aa", "x"); put("a.a", "x"); put("a/aa", "");
    };
    static bool ready = false;
    std::vector<Str> shorter;
    for (unsigned n = 0; n <= 6; n++) mc::sequences(alpha.size(), n, [&](const std::vector<unsigned>& s) {
        Str p = word(s);
        if (n <= 4 && p.compare(0, 2, "//")) shorter.push_back(p);
        mc::run([=] { return "path " + quote(p); }, [&] { if (!ready) { prepare(); ready = true; } text(p); });
    });
    // relative to every folder
    for (auto& r : shorter) mc::run([=] { return "paths relative to " + quote(r); }, [&] {
        if (!ready) { prepare(); ready = true; }
        const Project to(r);
        Str f, b; split(r, f, b);
        Str dir = isDir(r) ? r : f;
        for (auto& p : shorter) {
            const Project q(p);
            Str got = q.relativeTo(to);
            Str d = dir; if (d.empty() || d[d.size() - 1] != '/') d += "/";
            Str want = p == dir ? "" : p.compare(0, d.size(), d) == 0 ? p.substr(d.size()) : p;
            mc::step();
            MC_CHECK(got == want, "relative-to", quote(p) << " became " << quote(got) << " expected " << quote(want));
            if (got != p) MC_CHECK(parts(d + got) == parts(p), "relative-rejoins", quote(d) << " and " << quote(got) << " are not " << quote(p));
            MC_CHECK(q == p && to == r, "query-changed-path", "");
        }
        mc::outcome("relative to", shorter.size());
    });
}

// --- operations
static const char* SCRIPT = "#!/bin/sh\nfor i in \"$@\"; do printf '<%s>' \"$i\"; done > ran.txt\n";
enum State { ABSENT, EMPTY, FULL, FILE_, EXE, LINK, DANGLING, NOPARENT, LOCKED, NSTATES };
static const char* stateName[] = {"absent", "an empty folder", "a folder with contents", "a file", "an executable file", "a link to a folder", "a dangling link", "in a missing folder", "a folder with a locked part"};
enum Op { MAKE, RM, CHANGE, EXEC, OPEN, OPENB, INPUT, QUERIES, FULLPATH, NOPS };
static const char* opName[] = {"make folder", "delete folder", "change to folder", "execute", "open for writing", "open for writing (binary)", "open for reading", "queries", "full path"};
static void world(const Str& name, int st) {
    if (chdir(box.c_str())) _exit(9);
    wipe(box, false);
    put("keep", "k"); mkdir("e", 0755); put("e/inner", "i"); mkdir("d", 0755); put("d/x", "dx"); put("de", "f"); put("ls", SCRIPT, 0755);
    mkdir("target", 0755); put("target/t", "tt"); put("-r", "dash"); mkdir("*", 0755); put("*/s", "s");
    if (name.find('/') != Str::npos && st != NOPARENT) mkdir(name.substr(0, name.find('/')).c_str(), 0755);
    struct stat s;
    if (lstat(name.c_str(), &s) == 0) { if (S_ISDIR(s.st_mode)) wipe(name, true); else unlink(name.c_str()); }
    if (st == EMPTY || st == FULL || st == LOCKED) mkdir(name.c_str(), 0755);
    if (st == FULL) {
        put(name + "/f", "1"); put(name + "/.hidden", "2"); mkdir((name + "/sub").c_str(), 0755); put(name + "/sub/g", "3", 0444);
        if (symlink((box + "/target").c_str(), (name + "/link").c_str()) || symlink("nowhere", (name + "/sub/dangling").c_str())) _exit(9);
    }
    if (st == LOCKED) { put(name + "/f", "1"); mkdir((name + "/sub").c_str(), 0755); put(name + "/sub/g", "3"); chmod((name + "/sub").c_str(), 0555); }
    if (st == FILE_) put(name, "content\nof file");
    if (st == EXE) put(name, SCRIPT, 0755);
    if (st == LINK && symlink((box + "/target").c_str(), name.c_str())) _exit(9);
    if (st == DANGLING && symlink("nowhere", name.c_str())) _exit(9);
}
static Str cwd() { char b[PATH_MAX]; return getcwd(b, sizeof b) ? b : "?"; }
static bool under(const Str& p, const Str& root) { return p == root || p.compare(0, root.size() + 1, root + "/") == 0; }
static void operate(const Str& name, const Str& path, int st, int op, const Str& args) {
    contain();
    world(name, st);
    Tree before, after; scan(box, "", before);
    const Project p(path);
    const bool folder = st == EMPTY || st == FULL || st == LINK || st == LOCKED;
    const bool slash = path[path.size() - 1] == '/';
    bool threw = false; Str got;
    mc::step();
    MC_REQUIRE(isDir(name) == folder, "harness", "world");
    auto call = [&](const std::function<void()>& f) { try { f(); } catch (const std::exception&) { threw = true; } };
    auto same = [&](const char* sig) { scan(box, "", after); MC_CHECK(after == before, sig, diff(before, after)); };
    switch (op) {
    case MAKE: {
        call([&] { p.makeDir(); });
        Tree want = before;
        bool can = st == ABSENT || folder;
        if (st == ABSENT) want[name] = "folder";
        scan(box, "", after);
        MC_CHECK(after == want, "make-folder", diff(want, after));
        MC_CHECK(threw == !can, "make-folder-reports", (threw ? "error" : "no error"));
        break; }
    case RM: {
        call([&] { p.rmDir(); });
        Tree want;
        for (auto& e : before) if (!folder || !under(e.first, name)) want.insert(e);
        scan(box, "", after);
        if (st == LOCKED) { Tree rest; for (auto& e : after) if (!under(e.first, name)) rest.insert(e); after = rest; }
        MC_CHECK(after == want, "delete-folder", diff(want, after));
        MC_CHECK(!threw, "delete-folder-throws", "");
        break; }
    case CHANGE: {
        call([&] { p.changeDir(); });
        Str c = cwd();
        MC_CHECK(c == (folder ? box + "/" + (st == LINK ? "target" : name) : box), "change-folder", "now in " << c);
        Project w("before"); w.setToCurrentWorkingDir();
        MC_CHECK(w == c, "current-folder", quote(w));
        if (chdir(box.c_str())) _exit(9);
        same("change-folder-touches"); break; }
    case EXEC: {
        call([&] { p.exec(args); });
        Tree want = before;
        bool can = st == EXE && !slash;
        if (can) {
            std::istringstream in(args); Str w, o; while (in >> w) o += "<" + w + ">";
            want["ran.txt"] = "file " + o;
        }
        scan(box, "", after);
        MC_CHECK(after == want, "execute", diff(want, after));
        MC_CHECK(threw == !can, "execute-reports", (threw ? "error" : "no error"));
        break; }
    case OPEN: case OPENB: {
        bool can = (st == ABSENT || st == FILE_ || st == EXE || st == DANGLING) && !slash;
        { std::ofstream f; call([&] { p.openFile(f, op == OPEN); });
          MC_CHECK(threw == !can && f.is_open() == can, "open-for-writing-reports", (threw ? "error" : "no error"));
          if (can) f << "new"; }
        Tree want = before;
        if (can && st == DANGLING) { want[name.find('/') == Str::npos ? "nowhere" : name.substr(0, name.find('/')) + "/nowhere"] = "file new"; }
        else if (can) want[name] = "file new";
        scan(box, "", after);
        MC_CHECK(after == want, "open-for-writing", diff(want, after));
        break; }
    case INPUT: {
        bool can = (st == FILE_ || st == EXE) && !slash;
        if (folder) break;                          // opening a folder is left open
        std::ifstream f; call([&] { p.openAsInput(f); });
        MC_CHECK(threw == !can, "open-for-reading-reports", (threw ? "error" : "no error"));
        if (can) { std::ostringstream o; o << f.rdbuf(); MC_CHECK("file " + o.str() == before[name], "open-for-reading", quote(o.str())); }
        same("open-for-reading-touches"); break; }
    case QUERIES:
        MC_CHECK(p.isFolder() == folder, "is-folder", p.isFolder());
        MC_CHECK(p.canExecute() == (st == EXE && !slash), "can-execute", p.canExecute());
        if (!folder) MC_CHECK(p.canOpen() == ((st == FILE_ || st == EXE) && !slash), "can-open", p.canOpen());
        same("query-touches"); break;
    case FULLPATH: {
        call([&] { got = p.getFullPath(); });
        bool can = folder || ((st == FILE_ || st == EXE) && !slash);
        MC_CHECK(threw == !can, "full-path-reports", (threw ? "error" : "no error"));
        if (can) { Str want = box + "/" + (st == LINK ? "target" : name) + (folder ? "/" : ""); MC_CHECK(got == want, "full-path", quote(got) << " expected " << quote(want)); }
        same("full-path-touches"); break; }
    }
    MC_CHECK(p == path, "operation-changed-path", quote(p));
    mc::state(MC_STR(op << st << threw << show(after)));
    mc::outcome(MC_STR(opName[op] << (threw ? ": refused" : ": done")));
}
static void operations() {
    std::vector<Str> names = {"d", "d.x", "d e", "d;e", "d'e", "d\"e", "$(touch boom)", "`touch boom`", "$HOME", "*", "?e", "-r", "--help", "~", "d&", "d|cat", "d>keep", "d\\e", ".hid", "d\ne",
                              "sub/d", "sub d/e", "d.y/e.z", "ls", "a(b)", "[de]", "{d,e}", "#d", "!d", "d=e"};
    for (auto& n : names) for (int v = 0; v < 6; v++) for (int st = 0; st < NSTATES; st++) for (int op = 0; op < NOPS; op++) {
        if (st == NOPARENT && n.find('/') == Str::npos) continue;
        if (v >= 3 && (op == EXEC || op == OPEN || op == OPENB)) { if (!mc::thorough() && v > 3) continue; }
        std::vector<Str> argl = {""};
        if (op == EXEC) { argl.push_back("one"); argl.push_back("-a two  three"); }
        for (auto& a : argl)
        mc::run([=] { return MC_STR(opName[op] << " " << quote(n) << " which is " << stateName[st] << (v % 3 == 0 ? "" : v % 3 == 1 ? ", as ./" : ", by its absolute path") << (v >= 3 ? ", with trailing slash" : "") << (a.empty() ? "" : " with arguments " + a)); }, [&] {
            contain();
            Str p = (v % 3 == 0 ? "" : v % 3 == 1 ? "./" : box + "/") + n + (v >= 3 ? "/" : "");
            operate(n, p, st, op, a);
        });
    }
    // deep folders
    for (int depth = 1; depth <= mc::pick(10, 14); depth++) mc::run([=] { return MC_STR("working folder " << depth << " levels of 200 letters deep"); }, [&] {
        contain();
        if (chdir(box.c_str())) _exit(9);
        wipe(box, false);
        Str want = box;
        for (int i = 0; i < depth; i++) {
            Str n(200, 'a' + i);
            Project p(n); p.makeDir(); p.changeDir(); want += "/" + n;
            Project w("before"); w.setToCurrentWorkingDir();
            MC_CHECK(w == want, "current-folder", "length " << w.size() << " expected " << want.size());
            MC_CHECK(Project(".").getFullPath() == want + "/", "full-path", Project(".").getFullPath().size());
            mc::step(4);
        }
        if (chdir(box.c_str())) _exit(9);
        Project(Str(200, 'a')).rmDir();
        Tree t; scan(box, "", t);
        MC_CHECK(t.empty(), "delete-folder", show(t).substr(0, 300));
    });
    mc::run([] { return Str("full path of the root folder"); }, [] { MC_CHECK(Project("/").getFullPath() == "/" && Project("//").getFullPath() == "/", "full-path", Project("/").getFullPath()); });
}
// names, extensions, depths and folders of every size of a ladder
static void sizes() {
    std::vector<int> ns; for (int n = 1; n <= mc::pick(24, 40); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 200, 250}) ns.push_back(n);
    for (int n : ns) mc::run([=] { return MC_STR("paths of size " << n); }, [&] {
        contain(); if (chdir(box.c_str())) _exit(9); wipe(box, false);
        const Str x(n, 'x'), y(n, 'y'); Str deep, dots, slashes(n, '/'), mix; 
        for (int i = 0; i < n; i++) { deep += MC_STR("f" << i << "/"); dots += "a."; mix += i % 3 == 0 ? "/" : i % 3 == 1 ? "b.c" : "d e"; }
        for (auto& p : {x, y + "." + x, "." + x, x + ".", deep, deep + x, deep + "n." + y, dots, dots + x, "q" + slashes, "/q" + slashes + "r.s", "q." + slashes, mix, "/" + deep + mix, deep + dots, x + "/" + y + ".z", "./" + deep, "/" + x}) text(p);
        // relative to a folder of that depth and of that length
        Str up;
        for (auto& b : {deep, x + "/", "/" + deep}) for (auto& e : {x, Str("k/") + y, dots + "z"}) {
            mkdir(x.c_str(), 0755);
            const Project q(b + e), to(b);
            if (!isDir(b)) { Str f, bn; split(b, f, bn); Str got = q.relativeTo(to); Str d = f; if (d[d.size() - 1] != '/') d += "/"; MC_CHECK(parts(d + got) == parts(b + e), "relative-rejoins", quote(got)); }
            else MC_CHECK(q.relativeTo(to) == e, "relative-to", quote(q.relativeTo(to)));
        }
        mc::outcome("paths of a size");
    });
    for (int n : ns) for (int st = 0; st < NSTATES; st++) for (int op = 0; op < NOPS; op++) {
        if (st == NOPARENT) continue;
        mc::run([=] { return MC_STR(opName[op] << " a name of " << n << " letters which is " << stateName[st]); }, [&] {
            contain();
            Str name(n, 'x'); for (int i = 1; i < n; i += 5) name[i] = ' ';
            name[n - 1] = 'e'; if (name == "e") name = "q";
            Str args; if (op == EXEC) for (int i = 0; i < n; i++) args += MC_STR("a" << i << " ");
            operate(name, box + "/" + name, st, op, args);
        });
    }
    // a folder with n files and folders, n deep, is removed whole, and its neighbours of almost the same name stay
    for (int n : ns) for (int shape = 0; shape < 2; shape++) mc::run([=] { return MC_STR("delete folder with " << n << (shape ? " folders in one another" : " files and folders")); }, [&] {
        contain(); if (chdir(box.c_str())) _exit(9); wipe(box, false);
        Project("d").makeDir(); Str at = "d";
        mkdir("dd", 0755); put("dd/x", "1"); put("d.", "2"); mkdir("D", 0755);
        for (int i = 0; i < n; i++) {
            if (shape) { at += "/l"; Project(at).makeDir(); put(at + "/file", "3"); }
            else { put(MC_STR("d/f" << i), "4"); put(MC_STR("d/ f " << i), "5", 0); Project(MC_STR("d/s" << i)).makeDir(); put(MC_STR("d/s" << i << "/-x"), "6"); }
        }
        Tree made; scan(box, "", made);
        MC_CHECK(made.size() == size_t(shape ? 2 * n : 4 * n) + 5, "make-folder", made.size());
        if (shape) { Project deep(at); MC_CHECK(deep.getFullPath() == box + "/" + at + "/", "full-path", deep.getFullPath()); deep.changeDir(); MC_CHECK(cwd() == box + "/" + at, "change-folder", cwd()); if (chdir(box.c_str())) _exit(9); }
        Project("d").rmDir();
        Tree t; scan(box, "", t);
        Tree want; want["dd"] = "folder"; want["dd/x"] = "file 1"; want["d."] = "file 2"; want["D"] = "folder";
        MC_CHECK(t == want, "delete-folder", diff(want, t));
        mc::outcome("folder of a size"); mc::step(n);
    });
}
static void body() { texts(); operations(); sizes(); }
int main(int c, char** v) { return mc::main_(c, v, body); }
