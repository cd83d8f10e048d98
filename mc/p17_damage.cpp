// P17: every single damage of reference problem documents, read by the real
// parser: a reported error, or exactly the problem the damaged document still
// declares.  Never a crash, a hang, or a value nobody wrote.
#include "docs.h"
using namespace prob;
static void run(const Str& what, const J& j, bool geometry) {
    mc::run([&] { return what + ": " + text(j); }, [&] {
        files();
        std::istringstream in(text(j));
        mc::step();
        Str kind = what.substr(0, what.find(' '));
        Data* d = nullptr;
        try { d = new Data(SEMBA::Parser::JSON::Parser().read(in)); } catch (const mc::CaseAbort&) { throw; } catch (...) { mc::outcome(kind + " refused"); return; }
        std::unique_ptr<Data> own(d);
        if (!d->mesh) {
            MC_CHECK(geometry, "mesh-lost", "the geometry was lost though it is not damaged");
            MC_CHECK(d->sources && d->sources->size() == 0 && d->outputRequests && d->outputRequests->size() == 0, "dangling", "sources or output requests without a mesh");
            mc::outcome(kind + " without geometry");
        } else {
            checkProblem(j, *d);
            try { Data copy(*d); checkConsistent(copy); } catch (const std::exception&) { mc::outcome(kind + " not copied"); }
            mc::state(shape(*d));
            mc::outcome(kind + " read");
        }
        d->printInfo();
    });
}
static void garbage(const Str& what, const Str& t) {
    mc::run([&] { return what + ": " + t; }, [&] {
        files(); std::istringstream in(t); mc::step();
        bool refused = MC_THROWS({ SEMBA::Parser::JSON::Parser p; Data d = p.read(in); });
        MC_CHECK(refused, "truncated-accepted", "the truncated file was accepted");
        mc::outcome(what);
    });
}
static bool huge(const Str& path) { return path.find("grids") != Str::npos; }      // no grids of 2^32 cells
static void damage(const J& root, J& node, const Str& path, bool geo) {
    auto with = [&](const Str& what, const J& v) { J save = node; node = v; run(what + " " + path, root, geo); node = save; };
    const std::vector<J> other = {J(), J::boolean(true), J(0), J(-1), J(0.5), J(7), J::num("4294967297"), J(""), J("x"), J("3"), J("{0 0 0}"), J::arr(), J::arr({1}), J::arr({J()}), J::obj(), J::obj({{"x", 1}})};
    for (auto& v : other) if (!(v.k == node.k && v.s == node.s && v.a.size() == node.a.size() && v.o.size() == node.o.size())) with("retyped", v);
    if (node.k == J::STR) {
        with("respelt", node.s + "x"); with("respelt", "x" + node.s); if (node.s.size()) with("respelt", node.s.substr(1));
        if (node.s.size()) with("respelt", node.s.substr(0, node.s.size() - 1));
        std::vector<std::pair<size_t, size_t>> tok; const Str t = node.s;
        for (size_t i = 0; i < t.size();) {
            if (strchr(" \t{}", t[i])) { i++; continue; }
            size_t e = i; while (e < t.size() && !strchr(" \t{}", t[e])) e++;
            tok.push_back({i, e}); i = e;
        }
        if (tok.size() > 1) for (auto& k : tok) {
            Str a = t.substr(0, k.first), b = t.substr(k.second), w = t.substr(k.first, k.second - k.first);
            for (const char* v : {"", "x", "-1", "0", "99", "1.5", "nan", "inf", "1e999", "1x", "4294967297", "18446744073709551617", "}", "{"}) if (w != v && !(huge(path) && strlen(v) > 5)) with("reworded", a + v + b);
            with("reworded", a + w + " " + w + b);
        }
    }
    if (node.k == J::ARR) for (size_t i = 0; i < node.a.size(); i++) {
        J v = node; v.a.erase(v.a.begin() + i); with("lost", v);
        v = node; v.a.insert(v.a.begin() + i, node.a[i]); with("doubled", v);
        if (i) { v = node; std::swap(v.a[i], v.a[i - 1]); with("swapped", v); }
        for (auto& o : other) { v = node; v.a.insert(v.a.begin() + i, o); with("inserted", v); }
    }
    if (node.k == J::OBJ) for (size_t i = 0; i < node.o.size(); i++) {
        J v = node; v.o.erase(v.o.begin() + i); with("lost", v);
        v = node; v.o[i].first += "x"; with("renamed", v);
        for (size_t k = 0; k < node.o.size(); k++) if (k != i) { v = node; v.o[i].second = node.o[k].second; with("mixed", v); }
    }
    for (auto& c : node.a) damage(root, c, path + "/[]", geo);
    for (auto& c : node.o) damage(root, c.second, path + "/" + c.first, geo);
}
static bool geometric(const Str& s) { return s == "materials" || s == "grids" || s == "layers" || s == "coordinates" || s == "elements"; }
static void body() {
    std::vector<J> docs;
    J d = base(); docs.push_back(d);
    // the sections whose damage is enumerated on each document
    auto section = [&](const Str& s, const J& v) { J d = base(); d.set(s, J::arr({v})); J& n = d.at(s); damage(d, n.a[0], s + "/[]", geometric(s)); };
    damage(d, d, "", true);
    auto mats = materials(); auto srcs = sources(); auto outs = outputs(); auto grds = grids(); auto cons = connectors();
    std::set<Str> seen;
    // one of each set of keys and labels
    auto fresh = [&](const Str& s, const J& v) {
        if (mc::thorough()) return true;
        Str k = s; std::function<void(const J&)> sig = [&](const J& j) { for (auto& p : j.o) { k += "," + p.first; if (p.second.k == J::STR && p.first != "name" && p.first.find("ox") == Str::npos && !isdigit(p.second.s.c_str()[0]) && p.second.s[0] != '{') k += "=" + p.second.s; if (p.second.k == J::OBJ) sig(p.second); } };
        sig(v); return seen.insert(k).second;
    };
    for (auto m : mats) { m.set("materialId", 1); if (fresh("materials", m)) { J d = base(); d.at("materials").a[0] = m; damage(d, d.at("materials").a[0], "materials/[]", true); } }
    for (auto& c : cons) if (fresh("connectorOnPoint", c)) section("connectorOnPoint", c);
    for (size_t i = 0; i < srcs.size(); i++) if (fresh("sources", srcs[i]) && (mc::thorough() || i % 4 == 0 || srcs[i]["magnitude"]["type"].s != "Gaussian" && i % 9 == 0)) section("sources", srcs[i]);
    for (size_t i = 0; i < outs.size(); i++) if (fresh("outputRequests", outs[i]) && i % mc::pick<size_t>(7, 5) == 0) section("outputRequests", outs[i]);
    for (size_t i = 0; i < grds.size(); i++) if (fresh("grids", grds[i])) section("grids", grds[i]);
    // truncations
    for (int st = 0; st < mc::pick<int>(2, NSTYLE); st++) { Str t = text(base(), st); for (size_t i = 0; i < t.size(); i++) if (st != PRETTY || i % 5 == 0 || mc::thorough()) garbage("truncated", t.substr(0, i)); }
    J small = base(); small.set("sources", J::arr({srcs.back()})).set("outputRequests", J::arr({outs.back()})).set("grids", J::arr({grds.back()}));
    Str t = text(small); for (size_t i = 0; i < t.size(); i++) garbage("truncated", t.substr(0, i));
    // damages of the file of positions
    Str g = "\"xs\": [0, 1, 2.5], \"ys\": [-1, 0, 4], \"zs\": [0, 0.5]\n";
    for (size_t i = 0; i <= g.size() + 1; i++) mc::run([&] { return "positions " + (i <= g.size() ? g.substr(0, i) : Str("none")); }, [&] {
        files(); if (i <= g.size()) { FILE* f = fopen("cut.dat", "w"); fputs(g.substr(0, i).c_str(), f); fclose(f); } else unlink("cut.dat");
        J d = base(); J gr = grds.back(); gr.set("filename", "cut.dat"); d.set("grids", J::arr({gr}));
        std::istringstream in(text(d)); mc::step();
        try { Data r = SEMBA::Parser::JSON::Parser().read(in); if (r.mesh) { MC_CHECK(i + 1 >= g.size() && i <= g.size(), "truncated-accepted", "a truncated file of positions was accepted"); checkProblem(d, r); } mc::outcome(r.mesh ? "positions read" : "positions without geometry"); }
        catch (const mc::CaseAbort&) { throw; } catch (const std::exception&) { mc::outcome("positions refused"); }
    });
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }
