// P06: rectilinear grids.
//  A  every combination of line patterns over the axes, every query at every point
//     of a lattice finer than the cells
//  B  construction from a box and steps or cell counts
//  C  every history of grid edits up to the depth bound, all queries after each edit
#include "geo.h"
using namespace geo;
typedef std::vector<double> V;
static const double TOL = 1e-2;
struct ModelGrid { V l[3]; };
static Grid3 real(const ModelGrid& m) { std::vector<double> p[3] = { m.l[0], m.l[1], m.l[2] }; return Grid3(p); }
static std::string rM(const ModelGrid& m) { return mc::vec(m.l[0]) + mc::vec(m.l[1]) + mc::vec(m.l[2]); }
static V steps(const V& l) { V r; for (size_t i = 0; i + 1 < l.size(); i++) r.push_back(l[i + 1] - l[i]); return r; }

struct Q { double x; int line; int cell; double frac; int out; };   // line >= 0: within tolerance of that line
// lattice of query points of an axis with what the oracle says of each
static std::vector<Q> lattice(const V& l, bool fine) {
    std::vector<Q> r; V s = steps(l); int n = s.size();
    for (int i = 0; i <= n; i++) {
        double m = i == 0 ? s[0] : i == n ? s[n - 1] : std::min(s[i - 1], s[i]);
        r.push_back(Q{l[i], i, std::min(i, n), 0, 0});
        if (fine) {
            r.push_back(Q{l[i] + 0.003 * m, i, i < n ? i : n, i < n ? 0.003 * m / s[i] : 0, i == n ? 1 : 0});
            r.push_back(Q{l[i] - 0.003 * m, i, i > 0 ? i - 1 : 0, i > 0 ? 1 - 0.003 * m / s[i - 1] : 0, i == 0 ? -1 : 0});
        }
        if (i < n) for (double f : fine ? V{0.125, 0.25, 0.45, 0.55, 0.75, 0.875} : V{0.25, 0.75}) r.push_back(Q{l[i] + f * s[i], -1, i, f, 0});
    }
    for (double f : fine ? V{0.1, 0.6, 1.0, 7.0} : V{0.6}) {
        r.push_back(Q{l[0] - f * s[0], -1, 0, -f, -1});
        r.push_back(Q{l[n] + f * s[n - 1], -1, n, f, 1});
    }
    // within the tolerance of a line by one of its cells but not by the other: either answer is right
    std::vector<Q> f;
    for (auto& q : r) {
        bool amb = false;
        for (int i = 0; i <= n; i++) {
            double a = i ? s[i - 1] : s[0], b = i < n ? s[i] : s[n - 1], d = std::fabs(q.x - l[i]);
            if (d > 0.95 * TOL * std::min(a, b) && d < 1.05 * TOL * std::max(a, b)) amb = true;
        }
        if (!amb) f.push_back(q);
    }
    return f;
}
static void axisQueries(const Grid3& g, const ModelGrid& mm, int d, int level) {
    ModelGrid m = mm;
    {   // the lines agree with the model up to rounding; from then on the exact values are the implementation's
        V gp = g.getPos(d); const V& l = m.l[d];
        MC_REQUIRE(gp.size() == l.size(), "line-count", "axis " << d << mc::vec(gp) << " not " << mc::vec(l));
        for (size_t i = 0; i < l.size(); i++) MC_REQUIRE(mc::near(gp[i], l[i], 1e-10), "line-position", "axis " << d << mc::vec(gp) << " not " << mc::vec(l));
        m.l[d] = gp;
    }
    const V& l = m.l[d]; V s = steps(l); int n = s.size();
    std::string w = MC_STR("axis " << d << mc::vec(l) << " ");
    MC_REQUIRE(g.getNumCells()(d) == n, "number-of-cells", w << g.getNumCells()(d));
    MC_CHECK(mc::near(g.getOrigin()(d), l[0], 1e-12), "origin", w << g.getOrigin()(d));
    V gp = g.getPos(d), gs = g.getStep(d);
    MC_REQUIRE(gp.size() == l.size() && gs.size() == s.size(), "line-count", w);
    for (int i = 0; i <= n; i++) MC_CHECK(mc::near(gp[i], l[i], 1e-10) && g.getPos(d, i) == gp[i], "line-position", w << i << " " << gp[i]);
    for (int i = 0; i < n; i++) MC_CHECK(mc::near(gs[i], s[i], 1e-10) && mc::near(g.getStep(d, i), s[i], 1e-10), "step", w << i << " " << gs[i] << " " << g.getStep(d, i));
    double mx = *std::max_element(s.begin(), s.end()), mn = *std::min_element(s.begin(), s.end());
    if (mx < 1.005 * mn || mx > 1.02 * mn) MC_CHECK(g.isRegular(d) == (mx < 1.01 * mn), "regular-axis", w << g.isRegular(d));
    for (auto& q : lattice(l, level > 0)) {
        bool err = false;
        auto a = g.getCellPair(d, q.x, true, TOL, &err);
        bool errA = err;
        auto b = g.getCellPair(d, q.x, false, TOL, &err);
        std::string at = MC_STR(w << "x=" << q.x << " ");
        MC_CHECK(err == errA, "outside-report-depends-on-rounding", at);
        // exact location
        long int i = -9; double rel = -9;
        bool in = g.getNaturalCell(Math::Constants::CartesianAxis(d), q.x, i, rel);
        double x = q.x; int e = -1; for (int k = 0; k < n; k++) if (l[k] <= x && x < l[k + 1]) e = k;
        MC_CHECK(in == (e >= 0), "natural-cell-inside", at << in);
        if (e >= 0 && in) MC_CHECK(i == e && mc::near(rel, (x - l[e]) / s[e], 1e-9), "natural-cell", at << i << "+" << rel);
        if (!in) MC_CHECK(i == (x < l[0] ? 0 : n), "natural-cell-outside", at << i);
        MC_CHECK(g.isInto(d, x) == (l[0] <= x && x <= l[n]), "is-into", at);
        if (q.line >= 0) {
            MC_CHECK(!err, "line-reported-outside", at);
            MC_CHECK(a.first == q.line && a.second == 0.0, "line-not-recognised", at << a.first << "+" << a.second);
            MC_CHECK(b.first == q.line && b.second == 0.0, "line-not-recognised-exact", at << b.first << "+" << b.second);
        } else {
            MC_CHECK(err == (q.out != 0), "outside-report", at << err);
            MC_CHECK(b.first == q.cell && mc::near(b.second, q.frac, 1e-9), "cell", at << b.first << "+" << b.second << " not " << q.cell << "+" << q.frac);
            int c = q.cell; double f = q.frac;
            if (q.out == 0 && f >= 0.5) { c++; f -= 1; }
            MC_CHECK(a.first == c && mc::near(a.second, f, 1e-9), "nearest-line", at << a.first << "+" << a.second << " not " << c << "+" << f);
        }
        MC_CHECK(g.getCell(d, q.x, true, TOL) == a.first && g.getCell(d, q.x, false, TOL) == b.first, "get-cell", at);
    }
    mc::step(n);
    if (level == 0) return;
    // ranges
    std::vector<Q> c = lattice(l, false);
    for (auto& a : c) for (auto& b : c) {
        if (a.x > b.x) continue;
        V r = g.getPosInRange(d, a.x, b.x), want;
        for (double v : l) if (v >= a.x - 1e-12 && v <= b.x + 1e-12) want.push_back(v);
        bool same = r.size() == want.size();
        for (size_t k = 0; same && k < r.size(); k++) same = mc::near(r[k], want[k], 1e-10);
        MC_CHECK(same, "positions-in-range", w << a.x << ".." << b.x << " " << mc::vec(r));
    }
    mc::step(c.size());
}
static void query(const Grid3& g, const ModelGrid& m, bool deep, int level = 1) {
    std::string w = rM(m);
    for (int d = 0; d < 3; d++) axisQueries(g, m, d, level);
    int n[3]; for (int d = 0; d < 3; d++) n[d] = m.l[d].size() - 1;
    double mn = 1e99, mx = 0; V all;
    bool reg = true;
    for (int d = 0; d < 3; d++) { V s = steps(m.l[d]); for (double v : s) { mn = std::min(mn, v); mx = std::max(mx, v); } reg = reg && g.isRegular(d); }
    MC_CHECK(mc::near(g.getMinimumSpaceStep(), mn, 1e-10), "minimum-step", w << g.getMinimumSpaceStep());
    MC_CHECK(g.isRegular() == reg, "regular", w);
    if (mx < 1.005 * mn || mx > 1.02 * mn) MC_CHECK(g.isCartesian() == (mx < 1.01 * mn), "cartesian", w << g.isCartesian());
    MC_CHECK(!g.hasZeroSize(), "zero-size", w);
    R3 lo(m.l[0][0], m.l[1][0], m.l[2][0]), hi(m.l[0].back(), m.l[1].back(), m.l[2].back());
    BoxR3 bb = g.getFullDomainBoundingBox();
    MC_CHECK(eq(bb.getMin(), lo) && eq(bb.getMax(), hi), "domain-box", w << p(bb.getMin()) << p(bb.getMax()));
    BoxI3 cb = g.getFullDomainBoundingCellBox();
    MC_CHECK(eqI(cb.getMin(), I3(0, 0, 0)) && eqI(cb.getMax(), I3(n[0], n[1], n[2])), "domain-cell-box", w << p(cb.getMin()) << p(cb.getMax()));
    if (level > 0) {
        std::vector<R3> ps = g.getPos();
        typedef std::array<double, 3> A; std::vector<A> sg, sm;
        for (auto& q : ps) sg.push_back(A{{q(0), q(1), q(2)}});
        for (double x : g.getPos(0)) for (double y : g.getPos(1)) for (double z : g.getPos(2)) sm.push_back(A{{x, y, z}});
        std::sort(sg.begin(), sg.end()); std::sort(sm.begin(), sm.end());
        MC_CHECK(sg == sm, "all-positions", w << ps.size());
    }
    mc::state(renderGrid(g));
    if (!deep) return;
    for (int i = 0; i <= n[0]; i++) for (int j = 0; j <= n[1]; j++) for (int k = 0; k <= n[2]; k++) {
        R3 q = g.getPos(I3(i, j, k));
        MC_CHECK(eq(q, R3(m.l[0][i], m.l[1][j], m.l[2][k])), "position-of-index", w << p(I3(i, j, k)) << p(q));
        MC_CHECK(eqI(g.getCell(q), I3(i, j, k)) && eqI(g.getCell(q, false), I3(i, j, k)) && g.isCell(q), "index-of-position", w << p(I3(i, j, k)) << p(g.getCell(q)));
    }
    std::vector<Q> L[3]; for (int d = 0; d < 3; d++) L[d] = lattice(m.l[d], false);
    for (auto& x : L[0]) for (auto& y : L[1]) for (auto& z : L[2]) {
        const Q* q[3] = { &x, &y, &z };
        R3 pt(x.x, y.x, z.x);
        bool out = false, in = true, line = true; I3 cell(0, 0, 0), box(0, 0, 0); R3 fr(0, 0, 0);
        for (int d = 0; d < 3; d++) {
            out = out || q[d]->out; line = line && q[d]->line >= 0;
            cell(d) = q[d]->line >= 0 ? q[d]->line : q[d]->cell; fr(d) = q[d]->line >= 0 ? 0 : q[d]->frac;
            box(d) = std::min(cell(d), n[d] - 1);
        }
        in = !out;
        std::string at = MC_STR(w << p(pt) << " ");
        MC_CHECK(g.isInto(pt) == in, "is-into-3d", at);
        MC_CHECK(g.isCell(pt) == line, "is-cell", at);
        bool err = false;
        auto b = g.getCellPair(pt, false, TOL, &err);
        MC_CHECK(err == out, "outside-report-3d", at << err);
        MC_CHECK(eqI(b.first, cell) && eq(b.second, fr), "cell-3d", at << p(b.first) << p(b.second));
        bool in2 = false;
        auto f = g.getCVecI3Fractional(pt, in2);
        MC_CHECK(in2 == in, "fractional-inside", at << in2);
        if (in && in2) MC_CHECK(eqI(I3(f), cell) && eq(f.len_, fr), "fractional", at << p(I3(f)) << p(f.len_));
        if (in) {
            BoxI3 bi = g.getBoxIContaining(pt); BoxR3 br = g.getBoxRContaining(pt);
            MC_CHECK(eqI(bi.getMin(), box) && eqI(bi.getMax(), I3(box(0) + 1, box(1) + 1, box(2) + 1)), "containing-cell", at << p(bi.getMin()) << p(bi.getMax()));
            bool c = true; for (int d = 0; d < 3; d++) c = c && br.getMin()(d) <= pt(d) + 1e-12 && pt(d) <= br.getMax()(d) + 1e-12 && mc::near(br.getMin()(d), m.l[d][box(d)]) && mc::near(br.getMax()(d), m.l[d][box(d) + 1]);
            MC_CHECK(c, "containing-box", at << p(br.getMin()) << p(br.getMax()));
        }
    }
    // centres of cells of the whole domain and of each cell
    for (int a = 0; a < 2; a++) for (int i = 0; i < n[0]; i++) for (int j = 0; j < n[1]; j++) {
        I3 A(i, j, 0), B(a ? n[0] : i + 1, j + 1, a ? n[2] : 1);
        auto cs = g.getCenterOfCellsInside(g.getBoundingBox(BoxI3(A, B)));
        size_t want = size_t(B(0) - A(0)) * (B(1) - A(1)) * (B(2) - A(2)), hit = 0;
        for (int x = A(0); x < B(0); x++) for (int y = A(1); y < B(1); y++) for (int z = A(2); z < B(2); z++)
            for (auto& c : cs) if (eq(c, R3((m.l[0][x] + m.l[0][x + 1]) / 2, (m.l[1][y] + m.l[1][y + 1]) / 2, (m.l[2][z] + m.l[2][z + 1]) / 2))) { hit++; break; }
        MC_CHECK(cs.size() == want && hit == want, "cell-centres", w << p(A) << p(B) << " " << cs.size() << "/" << want);
    }
    mc::step(L[0].size() * L[1].size() * L[2].size());
}
static const std::vector<V> AX = { {0, 1}, {0, 1, 2}, {-1, 0, 0.5, 3}, {10, 12, 12.5}, {-4, -3, -1}, {-1e-3, 0, 2e-3}, {0.1, 0.2, 0.3, 0.4}, {-2, -1, 0, 1, 2}, {100, 103, 106}, {2, 10, 11} };
static void partA() {
    unsigned n = mc::pick(7u, 10u);
    for (unsigned a = 0; a < n; a++) for (unsigned b = 0; b < n; b++) for (unsigned c = 0; c < n; c++) {
        ModelGrid m{{AX[a], AX[b], AX[c]}};
        mc::run([&] { return "lines " + rM(m); }, [&] { query(real(m), m, true); });
        mc::run([&] { return "lines, set " + rM(m); }, [&] {
            Grid3 g; std::vector<double> p[3] = { m.l[0], m.l[1], m.l[2] }; g.setPos(p);
            Grid3 h; h = g; query(h, m, false);
            Grid3 k(g); g.applyScalingFactor(3); query(k, m, false);
            bool bad = MC_THROWS({ std::vector<double> e[3] = { m.l[0], {}, m.l[2] }; k.setPos(e); });
            MC_CHECK(bad, "empty-axis-accepted", "");
        });
    }
}
static void partB() {
    V lo = {0, -1, 0.1, 2.5, -0.3}, st = {0.1, 0.2, 0.25, 0.3, 0.5, 1, 3};
    for (double o : lo) for (double s : st) for (int k = 1; k <= mc::pick(12, 40); k++) for (double ex : {0.0, 0.3, 0.7}) for (int ax = 0; ax < 3; ax++) {
        double len = (k - 1 + (ex == 0 ? 1 : ex)) * s;
        mc::run([&] { return MC_STR("box of length " << len << " from " << o << " step " << s << " axis " << ax); }, [&] {
            R3 a(o, o, o), b(o + 1, o + 2, o + 3), d(1, 1, 1);
            b(ax) = o + len; d(ax) = s;
            ModelGrid m;
            for (int q = 0; q < 3; q++) { int nc = q == ax ? k : q + 1; for (int i = 0; i <= nc; i++) m.l[q].push_back(o + i * d(q)); }
            query(Grid3(BoxR3(a, b), d), m, false);
        });
        if (ex != 0) continue;
        mc::run([&] { return MC_STR("box of length " << len << " from " << o << " in " << k << " cells axis " << ax); }, [&] {
            R3 a(o, o, o), b(o + 1, o + 2, o + 3); I3 n(1, 2, 3); n(ax) = k; b(ax) = o + len;
            ModelGrid m;
            for (int q = 0; q < 3; q++) for (int i = 0; i <= n(q); i++) m.l[q].push_back(o + i * (b(q) - a(q)) / n(q));
            query(Grid3(BoxR3(a, b), n), m, false);
        });
    }
    for (int mask = 1; mask < 8; mask++) for (double o : lo) for (double len : st)
        mc::run([&] { return MC_STR("no step on axes " << mask << " from " << o << " length " << len); }, [&] {
            R3 a(o, o, o), b(o + len, o + 2 * len, o + 4 * len), d(len, len, len);
            ModelGrid m;
            for (int q = 0; q < 3; q++) {
                if (mask >> q & 1) { d(q) = 0; m.l[q] = {a(q), b(q)}; }
                else for (int i = 0; i <= (1 << q); i++) m.l[q].push_back(o + i * len);
            }
            query(Grid3(BoxR3(a, b), d), m, false);
        });
}
// ---- C
struct Op { int kind; int d, b; double pad, siz; V st; };
static std::vector<Op> ops() {
    std::vector<Op> r;
    r.push_back(Op{0, 0, 0, 2, 0, {}});                 // scale
    r.push_back(Op{0, 0, 0, 0.25, 0, {}});
    for (int d = 0; d < 3; d++) for (int b = 0; b < 2; b++) {
        r.push_back(Op{1, d, b, 0, 0, d == 0 ? V{0.5} : d == 1 ? V{1, 2} : V{}});
        r.push_back(Op{2, d, b, d == 0 ? 3.0 : d == 1 ? 0.004 : 1.5, 0, {}});       // padding with the size of the bound cell
        r.push_back(Op{2, d, b, d == 0 ? 20.0 : 30.0, d == 1 ? 4.0 : 2.5, {}});     // graded padding
    }
    r.push_back(Op{2, 1, 0, 0, 0, {}});                 // nothing asked for
    r.push_back(Op{2, 1, 1, 1, 5, {}});                 // cell larger than the padding: refused with a warning
    r.push_back(Op{3, 0, 0, 0, 0, {}});                 // enlarge all bounds at once
    r.push_back(Op{4, 0, 0, 0, 0, {}});                 // copy and assign over
    return r;
}
static std::string rOp(const Op& o) { static const char* k[] = {"scale", "add", "enlarge", "enlarge-all", "copy"}; return MC_STR(k[o.kind] << "(axis" << o.d << " bound" << o.b << " pad" << o.pad << " size" << o.siz << mc::vec(o.st) << ") "); }
static void enlargeModel(const Grid3& g, ModelGrid& m, int d, int b, double pad, double siz) {
    if (std::fabs(siz) > std::fabs(pad) || pad == 0) return;
    V s = steps(m.l[d]);
    double d12 = b ? s.back() : s.front();
    V& l = m.l[d];
    if (siz == 0 || siz <= d12 * (1 + 1e-9)) {
        double k = std::floor(pad / d12); int n = pad / d12 <= k + 0.01 ? int(k) : int(std::ceil(pad / d12));
        for (int i = 0; i < n; i++) { if (b) l.push_back(l.back() + d12); else l.insert(l.begin(), l.front() - d12); }
        mc::outcome("uniform padding");
        return;
    }
    mc::outcome("graded padding");
    // graded: the old lines stay, new ones are beyond the bound, cells grow from the bound cell to about the size asked for, the last one
    // of exactly that size, and the whole as wide as the padding up to one cell
    V gp = g.getPos(d);
    MC_REQUIRE(gp.size() > l.size(), "graded-no-cells", mc::vec(gp));
    size_t k = gp.size() - l.size();
    V old(b ? gp.begin() : gp.begin() + k, b ? gp.end() - k : gp.end());
    bool same = old.size() == l.size(); for (size_t i = 0; same && i < l.size(); i++) same = mc::near(old[i], l[i], 1e-10);
    MC_REQUIRE(same, "graded-lines-moved", mc::vec(gp) << " from " << mc::vec(l));
    V ns = steps(gp), add;
    for (size_t i = 0; i < k; i++) add.push_back(b ? ns[l.size() - 1 + i] : ns[k - 1 - i]);
    double sum = 0;
    for (size_t i = 0; i < k; i++) { sum += add[i]; MC_CHECK(add[i] >= d12 * (1 - 1e-6) && add[i] <= siz * 1.25, "graded-cell-size", mc::vec(add) << " between " << d12 << " and " << siz); if (i + 1 < k) MC_CHECK(add[i + 1] >= add[i] * 0.8, "graded-not-growing", mc::vec(add)); }
    MC_CHECK(mc::near(add.back(), siz, 1e-9), "graded-last-cell", mc::vec(add) << " " << siz);
    MC_CHECK(std::fabs(sum - pad) <= siz, "graded-padding", sum << " instead of " << pad);
    l = gp;
}
static void partC() {
    std::vector<Op> al = ops();
    std::vector<ModelGrid> start = { {{ {0, 1}, {0, 1}, {0, 1} }}, {{ {-1, 0, 0.5}, {2, 4, 5}, {0, 1, 2, 3} }}, {{ {0.1, 0.2, 0.3}, {-3, -2}, {10, 11, 13, 17} }} };
    for (auto& s0 : start) for (unsigned depth = 1; depth <= mc::pick(3u, 4u); depth++)
        mc::sequences(al.size(), depth, [&](const std::vector<unsigned>& seq) {
            mc::run([&] { std::string s = "edits of " + rM(s0) + ": "; for (unsigned i : seq) s += rOp(al[i]); return s; }, [&] {
                ModelGrid m = s0; Grid3 g = real(m);
                for (unsigned i : seq) {
                    const Op& o = al[i];
                    auto ax = Math::Constants::CartesianAxis(o.d); auto bd = Math::Constants::CartesianBound(o.b);
                    switch (o.kind) {
                    case 0: g.applyScalingFactor(o.pad); for (auto& l : m.l) for (double& x : l) x *= o.pad; break;
                    case 1: g.setAdditionalSteps(ax, bd, o.st);
                        for (double s : o.st) { if (o.b) m.l[o.d].push_back(m.l[o.d].back() + s); else m.l[o.d].insert(m.l[o.d].begin(), m.l[o.d].front() - s); }
                        break;
                    case 2: g.enlargeBound(ax, bd, o.pad, o.siz); enlargeModel(g, m, o.d, o.b, o.pad, o.siz); break;
                    case 3: {
                        R3 p1(2, 0, 1), p2(0, 3, 2);
                        g.enlarge(std::make_pair(p1, p2), std::make_pair(R3(0, 0, 0), R3(0, 0, 0)));
                        for (int d = 0; d < 3; d++) { enlargeModel(g, m, d, 0, p1(d), 0); enlargeModel(g, m, d, 1, p2(d), 0); }
                        break;
                    }
                    default: { Grid3 k(g); g.applyScalingFactor(5); query(k, m, false); g = k; g = *&g; }
                    }
                    mc::step();
                }
                query(g, m, seq.size() == 1, seq.size() < 3);
            });
        });
}
// ---- D: axes of every number of cells of a ladder, and of every magnitude
static void sizes() {
    std::vector<int> ns; for (int n = 1; n <= mc::pick(24, 40); n++) ns.push_back(n);
    for (int n : {64, 65, 129}) ns.push_back(n);
    auto axis = [](int n, double u, double off, int shape) {
        V l; double x = off;
        for (int i = 0; i <= n; i++) { l.push_back(x); x += u * (shape == 0 ? 1 : shape == 1 ? 1 + i % 3 * 0.5 : (i < n / 2 ? 1 + 0.1 * i : 1 + 0.1 * (n - i))); }
        return l;
    };
    for (int n : ns) for (int d = 0; d < 3; d++) for (int e = n > 12 ? 0 : -9; e <= (n > 12 ? 0 : 6); e += mc::pick(5, 1)) for (int shape = 0; shape < 3; shape++) for (double off : {0.0, -0.5 * n, 40.0}) {
        if (n > 12 && (n + d + shape) % 3 && !mc::thorough()) continue;
        if (n > 65 && (shape == 2 || off > 0)) continue;
        const double u = std::pow(10.0, e);
        ModelGrid m; for (int q = 0; q < 3; q++) m.l[q] = q == d ? axis(n, u, off * u, shape) : axis(q + 1, u, 0, 0);
        mc::run([&] { return MC_STR(n << " cells on axis " << d << " of size 1e" << e << " from " << off << " of them, pattern " << shape); }, [&] {
            Grid3 g = real(m);
            query(g, m, n <= 6);
            Grid3 k(g), a; a = k; g.applyScalingFactor(3);
            ModelGrid t = m; for (auto& l : t.l) for (double& x : l) x *= 3;
            query(g, t, false, 0); query(a, m, false, 0);
            // more cells put at either end
            for (int b = 0; b < 2; b++) {
                V st; for (int i = 0; i < std::min(n, 30); i++) st.push_back(u * (1 + i % 2));
                a.setAdditionalSteps(Math::Constants::CartesianAxis(d), Math::Constants::CartesianBound(b), st);
                for (double s : st) { V& l = m.l[d]; if (b) l.push_back(l.back() + s); else l.insert(l.begin(), l.front() - s); }
            }
            query(a, m, false, n > 65 ? 0 : 1);
            mc::outcome("axis of a size");
        });
    }
    // from boxes of n cells of each magnitude
    for (int n : ns) for (int ax = 0; ax < 3; ax++) for (int e = -9; e <= 6; e += mc::pick(5, 1)) for (int by = 0; by < 2; by++) mc::run([=] { return MC_STR("box of " << n << (by ? " cells" : " steps") << " of 1e" << e << " on axis " << ax); }, [&] {
        const double u = std::pow(10.0, e);
        R3 a(-u, 2 * u, 0), b = a, st(u, u, u); I3 c(1, 1, 1);
        ModelGrid m;
        for (int q = 0; q < 3; q++) { int k = q == ax ? n : q + 1; b(q) = a(q) + k * u; c(q) = k; for (int i = 0; i <= k; i++) m.l[q].push_back(a(q) + i * u); }
        query(by ? Grid3(BoxR3(a, b), c) : Grid3(BoxR3(a, b), st), m, false, n > 65 ? 0 : 1);
        mc::outcome("box of a size");
    });
}
static void body() { sizes(); partA(); partB(); partC(); }
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }
