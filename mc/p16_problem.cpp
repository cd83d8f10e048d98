// P16: every document of a bounded grammar of problem files, read by the real
// parser and compared field by field with the problem it declares.
#include "docs.h"
using namespace prob;
static void run(const Str& what, const J& j, int style = COMPACT) {
    mc::run([&] { return what + ": " + text(j, style); }, [&] {
        files();
        std::istringstream in(text(j, style));
        Data d = SEMBA::Parser::JSON::Parser().read(in);
        mc::step();
        checkProblem(j, d);
        mc::state(shape(d));
        mc::outcome(what);
    });
}
// problems of every size of a ladder: as many vertices, elements, layers, materials, sources and outputs, with identifiers of every magnitude
static J sized(size_t n, size_t idBase, int k) {
    typedef long long L; auto cid = [&](size_t i) { return L(idBase + 1 + (k == 1 ? (i * 7) % 1024 * 3 : i)); };
    J d = base(); d.set("connectorOnPoint", J::arr()); d.set("sources", J::arr()); d.set("outputRequests", J::arr());
    J c = J::arr(), l = J::arr(), m = J::arr(); size_t nc = n + 9; const double f = k == 2 ? 1e4 : 0.5;
    for (size_t i = 0; i < nc; i++) c.push(MC_STR(std::setprecision(12) << cid(i) << " " << f * (i % 4 == 1 ? 1 : i % 4 == 3 ? 0.25 : 0) << " " << f * (i % 4 == 2 ? 1 : i % 4 == 3 ? 0.375 : 0) << " " << f * (i * 0.75 + (i * i) % 3 * 0.125)));
    for (size_t r = 0; r < 2; r++) for (size_t i = 0; i < 42; i++) /* flat sheets */ c.push(MC_STR(std::setprecision(12) << cid(nc + i + r * 50) << " " << double(i / 2) << " " << (i % 2) * 2.5 << " " << -50. - 25. * r));
    if (k == 1) std::reverse(c.a.begin(), c.a.end()); d.set("coordinates", c);
    for (size_t i = 0; i < n; i++) { size_t id = k == 1 ? idBase + 3 * (n - i) : idBase + 1 + i; l.push(J::obj({{"id", J::num(MC_STR(id))}, {"name", MC_STR("layer" << i)}})); }
    d.set("layers", l); auto mats = materials();
    for (size_t i = 0; i < n; i++) { J x = mats[(i * 5 + k) % mats.size()]; x.set("materialId", J::num(MC_STR((k == 1 ? idBase + 2 * (n - i) : idBase + 1 + i)))).set("name", MC_STR("material " << i)); m.push(x); }
    d.set("materials", m);
    auto layer = [&](size_t i) { return i % 5 == 4 ? L(0) : L(k == 1 ? idBase + 3 * (n - i % n) : idBase + 1 + i % n); }; auto mat = [&](size_t i) { return i % 7 == 6 ? L(0) : L(k == 1 ? idBase + 2 * (n - i % n) : idBase + 1 + i % n); };
    static const struct { const char* s; size_t v; } kinds[] = {{"hexahedra", 8}, {"tetrahedra", 4}, {"quadrilateral", 4}, {"triangle", 3}, {"line", 2}};
    J es = J::obj(); size_t at = 0; std::vector<L> lines, surfs;
    for (auto& kd : kinds) {
        J list = J::arr(); bool flat = kd.v == 4 && kd.s[0] == 'q'; size_t many = kd.v == 2 || kd.v == 3 ? n : std::min<size_t>(n, 40);
        for (size_t i = 0; i < many; i++) {
            L id = L(idBase + 1 + (k == 1 ? 4000 - at : at)); at++; Str t = MC_STR(id << " " << mat(i) << " " << layer(i + 1));
            if (flat) { for (size_t v : {0, 2, 3, 1}) t += MC_STR(" " << cid(nc + 2 * (i % 20) + i / 20 % 2 * 50 + v)); }
            else for (size_t v = 0; v < kd.v; v++) t += MC_STR(" " << cid((i + v) % nc));
            list.push(t); if (kd.v == 2) lines.push_back(id); if (kd.v == 3) surfs.push_back(id);
        }
        es.set(kd.s, list);
    }
    d.set("elements", es); auto srcs = sources(); auto outs = outputs();
    auto some = [&](const std::vector<L>& from, size_t i) { J r = J::arr(); size_t many = i % 3 == 0 ? from.size() : 1 + i % from.size(); for (size_t q = 0; q < many; q++) r.push(J::num(MC_STR(from[(q + i) % from.size()]))); return r; };
    std::vector<L> points; for (size_t i = 0; i < nc; i++) points.push_back(cid(i));
    for (size_t i = 0; i < n; i++) {
        J s = srcs[(i * 17 + k * 3) % srcs.size()]; Str t = s["sourceType"].s; if (t == "waveguidePort" || t == "temPort") s = srcs[0], t = "planewave";
        if (s.has("coordIds")) s.set("coordIds", some(points, i)); if (s.has("elemIds")) s.set("elemIds", some(lines, i)); d.at("sources").push(s);
        J o = outs[(i * 29 + k * 7) % outs.size()]; o.set("name", MC_STR("request " << i)); Str g = o["gidOutputType"].s; if (g == "OutRq_on_point") o.set("elemIds", some(points, i)); if (g == "OutRq_on_line") o.set("elemIds", some(lines, i)); if (g == "OutRq_on_surface") o.set("elemIds", some(surfs, i)); d.at("outputRequests").push(o);
        J x = connector("Conn_sRLC", 1); x.set("coordIds", J::num(MC_STR(points[i]))).set("resistance", 10. * i); d.at("connectorOnPoint").push(x);
    }
    J w = simple(1, "layered", "SIBC"); w.set("surfaceType", "Layers").set("materialId", J::num(MC_STR(idBase + 70000))); J ly = J::arr(); for (size_t i = 0; i < n; i++) ly.push(J::obj({{"thickness", 1e-3 * (i + 1)}, {"permittivity", 2.0 + i}, {"permeability", 3.0 + i % 9}, {"elecCond", 10.0 * i}}));
    w.set("layers", ly).set("useSembaVectorFitting", J::boolean(true)).set("freqMin", 1e6).set("freqMax", 1e9 * n).set("numberOfPoles", (int) n); d.at("materials").push(w);
    if (k == 0) { J g = J::obj({{"gridType", "nativeGiD"}, {"corner", "{0 0 0}"}, {"boxSize", "{1 2 3}"}, {"nGridPoints", MC_STR("{" << n + 1 << " 3 " << n + 2 << "}")}}); J xs = J::arr(), ys = J::arr({0, 1, 3}), zs = J::arr(); for (size_t i = 0; i <= n; i++) xs.push(0.5 * i + 0.01 * (i % 3)); for (size_t i = 0; i <= n + 1; i++) zs.push(-10.0 + i * 0.75); g.set("xCoordinates", xs).set("yCoordinates", ys).set("zCoordinates", zs); d.set("grids", J::arr({g})); }
    else if (k == 1) d.set("grids", J::arr({J::obj({{"gridType", "gridCondition"}, {"type", "Number_of_cells"}, {"numberOfCells", MC_STR("{" << n << " 2 " << n + 3 << "}")}, {"layerBox", "{2 1 3 0 0 0}"}})}));
    for (size_t i = 0; i < n; i++) d.at("solverOptions").set(MC_STR("option " << i), i % 2 ? J(double(i) * 1.5) : J(MC_STR("text " << i)));
    J deep = J("end"); for (size_t i = 0; i < std::min<size_t>(n, 60); i++) deep = J::obj({{"in", deep}}); d.at("solverOptions").set("nested", deep);
    return d;
}
static void body() {
    { std::vector<size_t> S; for (size_t n = 1; n <= 34; n++) S.push_back(n); for (size_t n : {64, 65, 100, 128, 129, 257}) S.push_back(n);
      for (size_t n : S) for (int k = 0; k < 3; k++) for (size_t b : {0ul, 250ul, 65530ul, (1ul << 31) - 5, (1ul << 32) - 5, 1ul << 40}) { if (n > 40 && b > 0 && b != 65530) continue; if (!mc::thorough() && n > 12 && (n + k) % 3 && b > 0) continue; run("sizes", sized(n, b, k), n % NSTYLE); } }
    // Every kind and parameter of material, source, output, grid, connector, one at a time and at each place of its list.
    auto mats = materials(); auto srcs = sources(); auto outs = outputs(); auto grds = grids(); auto cons = connectors();
    std::vector<double> scales = {1.0, 0.25, 1e-3};
    for (int st = 0; st < NSTYLE; st++) { run("base", base(), st); for (double s : scales) { J d = base(); d.set("solverOptions", solver(s)); run("base", d, st); } }
    for (size_t i = 0; i < mats.size(); i++) for (int pos = 0; pos < 3; pos++) for (int st = 0; st < (pos ? 1 : (int)NSTYLE); st++) {
        J d = base(); J m = mats[i]; m.set("materialId", 40); d.at("materials").a.insert(d.at("materials").a.begin() + pos, m);
        d.at("elements").at("triangle").push("90 40 1 1 2 3"); run("material", d, st);
    }
    for (size_t i = 0; i < mats.size(); i++) for (size_t k = 0; k < mats.size(); k++) {
        J d = base(); J a = mats[i], b = mats[k]; a.set("materialId", 17); b.set("materialId", 8); d.set("materials", J::arr({a, b}));
        d.set("elements", J::obj({{"hexahedra", J::arr({"1 17 1 1 2 3 4 5 6 7 8"})}, {"tetrahedra", J::arr({"7 8 5 1 2 4 5"})}, {"quadrilateral", J::arr({"3 17 1 1 2 3 4"})}, {"triangle", J::arr({"5 8 0 5 6 21"})}, {"line", J::arr({"11 0 5 21 30"})}}));
        run("two materials", d);
    }
    for (size_t i = 0; i < cons.size(); i++) for (size_t k = 0; k <= cons.size(); k++) {
        J d = base(); J a = cons[i]; a.set("coordIds", 12); J l = J::arr({a}); if (k < cons.size()) l.push(cons[k]);
        d.set("connectorOnPoint", l); run("connector", d);
    }
    for (size_t i = 0; i < srcs.size(); i++) for (int pos = 0; pos < 2; pos++) for (double s : scales) {
        J d = base(); d.set("solverOptions", solver(s)); if (pos) d.at("sources").a.insert(d.at("sources").a.begin(), srcs[i]); else d.set("sources", J::arr({srcs[i]}));
        run("source", d, pos ? SPREAD : COMPACT);
    }
    for (size_t i = 0; i < srcs.size(); i++) for (size_t k = 0; k < srcs.size(); k++) {
        if (!mc::thorough() && (i * 7 + k) % 5) continue;
        J d = base(); d.set("sources", J::arr({srcs[i], srcs[k]})); run("two sources", d);
    }
    for (size_t i = 0; i < outs.size(); i++) for (int v = 0; v < 2; v++) {
        J d = base(); if (v) { d.set("solverOptions", solver(0.5)); d.at("outputRequests").push(outs[i]); } else d.set("outputRequests", J::arr({outs[i]}));
        run("output", d, v ? REVERSED : COMPACT);
    }
    for (size_t i = 0; i < grds.size(); i++) for (double s : scales) { J d = base(); d.set("solverOptions", solver(s)); d.set("grids", J::arr({grds[i]})); run("grid", d); }
    // vertices
    static const std::vector<Str> num = {"0", "-0", "1", "-1", "2.5", "-2.5e0", "+3", ".5", "5.", "1e-3", "-1E+2", "1e10", "1.7976931348623157e308", "2.2250738585072014e-308", "0.1", "1e-12", "123456789.987654321", "00012"};
    static const std::vector<Str> ids = {"40", "041", "4000000000", "100000", "999"};
    static const std::vector<Str> seps = {" ", "   ", "\t", "\n", " \r\n"};
    for (auto& x : num) for (auto& y : num) for (size_t s = 0; s < mc::pick<size_t>(1, seps.size()); s++) {
        J d = base(); auto& se = seps[s];
        d.at("coordinates").push("40" + se + x + se + y + se + "7"); d.at("coordinates").push(se + "41" + se + y + se + "7" + se + x + se);
        d.at("elements").at("line").push("60 4 1 40 41"); run("vertex", d);
    }
    for (auto& id : ids) for (auto& se : seps) for (size_t pos = 0; pos < 3; pos++) {
        J d = base(); auto& c = d.at("coordinates").a; c.insert(c.begin() + (pos * c.size()) / 2, J(id + se + "4" + se + "5" + se + "6"));
        d.at("elements").at("line").push("60" + se + "1" + se + "5" + se + id + se + "1"); run("vertex", d);
    }
    // elements: every order of the vertices, every material, layer and id
    static const std::vector<Str> eids = {"50", "4", "4000000000"};
    static const std::vector<Str> mid = {"0", "1", "3", "4"}, lid = {"0", "1", "5"};
    static const struct { const char* n; std::vector<int> v; } kinds[] = {{"line", {1, 7}}, {"triangle", {1, 2, 5}}, {"quadrilateral", {1, 2, 3, 4}}, {"tetrahedra", {1, 2, 4, 5}}, {"hexahedra", {1, 2, 3, 4, 5, 6, 7, 8}}};
    for (int k = 0; k < 5; k++) {
        std::vector<int> v = kinds[k].v; std::sort(v.begin(), v.end()); size_t n = 0;
        do {
            if (k == 2) { auto o = std::find(v.begin(), v.end(), 1) - v.begin(); if (v[(o + 2) % 4] != 3) continue; }
            if (k == 4 && n++ % mc::pick<size_t>(400, 7)) continue;
            Str t; for (int x : v) t += MC_STR(" " << x);
            for (auto& m : mid) for (auto& l : lid) for (auto& e : eids) {
                J d = base(); d.at("elements").at(kinds[k].n).push(e + " " + m + " " + l + t); run("element", d);
            }
        } while (std::next_permutation(v.begin(), v.end()));
    }
    // any of the sections of elements empty, or holding several
    for (int s = 0; s < 32; s++) for (int rep = 1; rep <= 3; rep++) {
        J d = base(); int id = 100; J e = J::obj();
        for (int k = 0; k < 5; k++) {
            J l = J::arr(); Str t; for (int x : kinds[k].v) t += MC_STR(" " << x);
            if (s >> k & 1) for (int r = 0; r < rep; r++) l.push(MC_STR(id-- << " " << (r + k) % 2 * 4 << " " << (r % 2 ? 5 : 0) << t));
            e.set(kinds[k].n, l);
        }
        d.set("elements", e); run("sections", d, s % NSTYLE);
    }
    // layers
    static const std::vector<Str> names = {"", "a", "body", " spaced name ", "\"quoted\"\\", "tab\tnew\nline", "caf\xc3\xa9", "0", "null"};
    for (auto& a : names) for (auto& b : names) for (int o = 0; o < 3; o++) {
        J d = base(); J l = J::arr({J::obj({{"id", o == 1 ? 77 : 2}, {"name", a}}), J::obj({{"id", 1}, {"name", b}}), J::obj({{"id", 5}, {"name", "skin"}})});
        if (o == 2) std::reverse(l.a.begin(), l.a.end());
        d.set("layers", l); d.at("materials").a[0].set("name", a); d.at("outputRequests").a[0].set("name", b); run("names", d, o);
    }
    // solver options of any shape
    static const std::vector<J> vals = {J(""), J("text"), J("10"), J("with spaces and \"quotes\""), J(0), J(-7), J(2147483647), J(0.1), J(-2.5e-12), J(1e300), J(3.0), J::num("1E3"), J::num("-0.0"), J::boolean(true), J::boolean(false), J::obj()};
    for (auto& v : vals) for (auto& w : vals) for (int s = 0; s < 3; s++) {
        J d = base(); J o = J::obj({{"a", v}, {"b", w}});
        if (s == 0) d.at("solverOptions").set("extra", v).set("zeta", w);
        else if (s == 1) d.at("solverOptions").set("mesher", o);
        else d.at("solverOptions").set("mesher", J::obj({{"deep", J::obj({{"er", o}, {"w", w}})}, {"v", v}}));
        run("solver options", d, s);
    }
    { J d = base(); d.del("solverOptions"); for (int st = 0; st < NSTYLE; st++) run("no solver", d, st); }
    // Every combination of empty and populated lists.
    for (int s = 0; s < 64; s++) for (int st = 0; st < NSTYLE; st++) {
        J d = base();
        if (s & 1) d.set("sources", J::arr()); else for (size_t k = 3; k < srcs.size(); k += 5) d.at("sources").push(srcs[k]);
        if (s & 2) d.set("outputRequests", J::arr()); else for (size_t k = 1; k < outs.size(); k += 17) d.at("outputRequests").push(outs[k]);
        if (s & 4) d.set("connectorOnPoint", J::arr());
        if (s & 8) { d.set("materials", J::arr()); for (auto& e : d.at("elements").o) for (auto& x : e.second.a) { std::istringstream i(x.s); Str a, b, r; i >> a >> b; std::getline(i, r); x.s = a + " 0" + r; } }
        else for (size_t k = 0; k < mats.size(); k += 4) { J m = mats[k]; m.set("materialId", 100 + k); d.at("materials").push(m); }
        if (s & 16) d.set("solverOptions", solver(1e-3));
        if (s & 32) { d.set("comment", "not read"); d.at("materials").push(J(simple(60, "more", "PEC"))); d.at("materials").a.back().set("unknown", J::arr({1, J::obj({{"x", 2}})})); }
        run("combined", d, st);
    }
    // Pairs: each source with each output, each grid with each source
    for (size_t i = 0; i < srcs.size(); i++) for (size_t k = 0; k < outs.size(); k++) {
        if (!mc::thorough() && (i * 11 + k) % 17) continue;
        J d = base(); d.set("sources", J::arr({srcs[i]})); d.set("outputRequests", J::arr({outs[k]})); d.set("grids", J::arr({grds[(i + k) % grds.size()]})); run("pairs", d);
    }
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }
