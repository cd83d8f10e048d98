// P07: boxes as sets of points.
//  A  every pair of boxes of a lattice, of both scalar types, against the points of a finer lattice
//  B  every history of points and boxes added to a box, empty ones included
//  C  every split of every box by steps and by grids
#include "geo.h"
using namespace geo;
template<class T> struct Tr;
template<> struct Tr<double> { typedef BoxR3 B; typedef R3 V; static double half() { return 0.5; } };
template<> struct Tr<int> { typedef BoxI3 B; typedef I3 V; static int half() { return 1; } };
template<class T> using V3 = typename Tr<T>::V;
template<class T> using B3 = typename Tr<T>::B;
template<class T> static std::string rb(const T& b) { return p(b.getMin()) + p(b.getMax()); }

template<class T> static std::vector<B3<T>> boxes(const std::vector<T>& vals) {
    std::vector<B3<T>> r;
    std::vector<std::pair<T, T>> iv;
    for (size_t i = 0; i < vals.size(); i++) for (size_t j = i; j < vals.size(); j++) iv.push_back(std::make_pair(vals[i], vals[j]));
    for (auto& x : iv) for (auto& y : iv) for (auto& z : iv) r.push_back(B3<T>(V3<T>(x.first, y.first, z.first), V3<T>(x.second, y.second, z.second)));
    return r;
}
template<class T> static bool in(const B3<T>& b, const V3<T>& q) {
    for (int d = 0; d < 3; d++) if (q(d) < b.getMin()(d) || q(d) > b.getMax()(d)) return false;
    return true;
}
template<class V> static bool eqv(const V& a, const V& b) { for (int d = 0; d < 3; d++) if (!mc::near(a(d), b(d), 1e-12)) return false; return true; }

template<class T> static void one(const std::vector<T>& vals) {
    typedef V3<T> V; typedef B3<T> B;
    // any two opposite corners give the same box
    for (auto& b : boxes<T>(vals)) for (int mask = 0; mask < 8; mask++)
        mc::run([&] { return MC_STR(typeid(T).name() << " box " << rb(b) << " from corners " << mask); }, [&] {
            V lo = b.getMin(), hi = b.getMax(), a = lo, c = hi;
            for (int d = 0; d < 3; d++) if (mask >> d & 1) std::swap(a(d), c(d));
            B x(a, c), y(std::make_pair(a, c)), z; z.set(std::make_pair(c, a));
            MC_CHECK(eqv(x.getMin(), lo) && eqv(x.getMax(), hi) && eqv(y.getMin(), lo) && eqv(y.getMax(), hi) && eqv(z.getMin(), lo) && eqv(z.getMax(), hi), "corners", rb(x) << rb(y) << rb(z));
            MC_CHECK(x == y && y == z && x == b, "equality", rb(x) << rb(y));
            int nd = 0, dir = -1, nor = -1;
            for (int d = 0; d < 3; d++) { if (lo(d) != hi(d)) { nd++; if (dir < 0) dir = d; } else if (nor < 0) nor = d; }
            MC_CHECK(x.isPoint() == (nd == 0) && x.isLine() == (nd == 1) && x.isSurface() == (nd == 2) && x.isVolume() == (nd == 3), "dimension", rb(x));
            if (nd == 1) MC_CHECK(int(x.getDirection()) == dir, "direction", rb(x) << x.getDirection()); else MC_CHECK(MC_THROWS(x.getDirection()), "direction-of-non-line", rb(x));
            if (nd == 2) MC_CHECK(int(x.getNormal()) == nor, "normal", rb(x) << x.getNormal()); else MC_CHECK(MC_THROWS(x.getNormal()), "normal-of-non-surface", rb(x));
            V len = x.getLength();
            MC_CHECK(eqv(len, V(hi(0) - lo(0), hi(1) - lo(1), hi(2) - lo(2))), "length", p(len));
            auto ps = x.getPos();
            std::set<std::string> got, want;
            for (auto& q : ps) got.insert(p(q));
            for (int k = 0; k < 8; k++) want.insert(p(V(k & 1 ? hi(0) : lo(0), k & 2 ? hi(1) : lo(1), k & 4 ? hi(2) : lo(2))));
            MC_CHECK(ps.size() == want.size() && got == want, "corner-positions", rb(x) << mc::vec(got));
            // consecutive corners of a surface share an edge; the two faces of a volume are stacked
            if (nd >= 2) for (size_t k = 0; k < ps.size(); k++) {
                size_t f = k / 4, o = f * 4 + (k + 1) % 4; int df = 0; for (int d = 0; d < 3; d++) df += ps[k](d) != ps[o](d);
                MC_CHECK(df == 1, "corner-order", rb(x));
            }
            MC_CHECK(eqv(x.getBound(Math::Constants::L), lo) && eqv(x.getBound(Math::Constants::U), hi), "bound", rb(x));
            for (int d = 0; d < 3; d++) for (int u = 0; u < 2; u++) {
                auto ax = Math::Constants::CartesianAxis(d); auto bd = Math::Constants::CartesianBound(u);
                auto q = x.getPosOfBound(ax, bd);
                std::set<std::string> g2, w2; for (auto& v : q) g2.insert(p(v));
                for (int k = 0; k < 8; k++) if (((k >> d) & 1) == u) w2.insert(p(V(k & 1 ? hi(0) : lo(0), k & 2 ? hi(1) : lo(1), k & 4 ? hi(2) : lo(2))));
                MC_CHECK(q.size() == 4 && g2 == w2, "bound-positions", rb(x) << d << u << mc::vec(g2));
                if (nd == 3) {
                    B f = x.getBoundAsBox(ax, bd); V a2 = lo, b2 = hi; (u ? a2(d) : b2(d)) = u ? hi(d) : lo(d);
                    MC_CHECK(eqv(f.getMin(), a2) && eqv(f.getMax(), b2), "bound-box", rb(f));
                }
            }
            for (double k : {0.5, 1.0, 2.0, 10.0}) { B s = x; s.scale(k); if (std::is_floating_point<T>::value) for (int d = 0; d < 3; d++) MC_CHECK(mc::near(s.getMin()(d), lo(d) * k) && mc::near(s.getMax()(d), hi(d) * k), "scale", rb(s)); else MC_CHECK(s == x, "scale-integers", rb(s)); }
            // to the other scalar type and back
            BoxR3 r(x); BoxI3 i; i = r; B back; back = r;
            MC_CHECK(back == x, "conversion", rb(back));
            for (int d = 0; d < 3; d++) MC_CHECK(mc::near(r.getMin()(d), lo(d)) && i.getMin()(d) == int(lo(d)) && i.getMax()(d) == int(hi(d)), "conversion-values", rb(i));
            mc::step(30); mc::state(MC_STR(typeid(T).name() << rb(x)));
        });
}
template<class T> static void pairs(const std::vector<T>& vals, const std::vector<T>& pts, unsigned skip) {
    typedef V3<T> V; typedef B3<T> B;
    std::vector<B> bs = boxes<T>(vals);
    std::vector<V> ps; for (T x : pts) for (T y : pts) for (T z : pts) ps.push_back(V(x, y, z));
    for (size_t ai = 0; ai < bs.size(); ai++) for (size_t bi = 0; bi < bs.size(); bi++) {
        if (skip > 1 && (ai + bi) % skip) continue;
        const B &a = bs[ai], &b = bs[bi];
        mc::run([&] { return MC_STR(typeid(T).name() << " boxes " << rb(a) << " and " << rb(b)); }, [&] {
            B u = a; u += b; B v = a; v << b; B i = a.intersect(b);
            bool meet = true, sub = true, strict = true, equal = true;
            V lo = a.getMin(), hi = a.getMax();
            for (int d = 0; d < 3; d++) {
                T al = a.getMin()(d), ah = a.getMax()(d), bl = b.getMin()(d), bh = b.getMax()(d);
                meet = meet && std::max(al, bl) <= std::min(ah, bh);
                sub = sub && bl <= al && ah <= bh;
                strict = strict && bl < al && ah < bh;
                equal = equal && al == bl && ah == bh;
                lo(d) = std::min(al, bl); hi(d) = std::max(ah, bh);
            }
            MC_CHECK(eqv(u.getMin(), lo) && eqv(u.getMax(), hi), "union", rb(u));
            MC_CHECK(eqv(v.getMin(), lo) && eqv(v.getMax(), hi), "union-stream", rb(v));
            MC_CHECK(a.isIntersected(b) == meet, "meets", a.isIntersected(b));
            MC_CHECK((a == b) == equal, "equal", (a == b));
            MC_CHECK((a <= b) == sub, "contained", (a <= b));
            MC_CHECK((a < b) == strict && (b > a) == strict, "strictly-contained", (a < b));
            for (auto& q : ps) {
                bool ia = in<T>(a, q), ib = in<T>(b, q);
                MC_CHECK(a.isInnerPoint(q) == ia, "inner-point", p(q));
                MC_CHECK(i.isInnerPoint(q) == (ia && ib), "intersection", p(q) << rb(i));
            }
            if (meet) for (int d = 0; d < 3; d++) MC_CHECK(i.getMin()(d) == std::max(a.getMin()(d), b.getMin()(d)) && i.getMax()(d) == std::min(a.getMax()(d), b.getMax()(d)), "intersection-box", rb(i));
            B c; c = a; c = *&c;
            MC_CHECK(c == a, "assignment", rb(c));
            mc::step(ps.size()); mc::state(rb(u) + rb(i) + MC_STR(meet << sub << strict));
        });
    }
}
template<class T> static void hist(const std::vector<T>& vals, unsigned depth) {
    typedef V3<T> V; typedef B3<T> B;
    std::vector<V> ps; std::vector<B> bs;
    for (size_t i = 0; i < vals.size(); i++) { ps.push_back(V(vals[i], vals[(i + 1) % vals.size()], vals[0])); ps.push_back(V(vals[(i + 2) % vals.size()], vals[i], vals[i])); }
    for (size_t i = 0; i + 1 < vals.size(); i++) bs.push_back(B(V(vals[i], vals[0], vals[i]), V(vals[i + 1], vals[i], vals.back())));
    bs.push_back(B());                          // an empty box
    unsigned n = ps.size() + 2 * bs.size() + 1;
    for (unsigned dep = 1; dep <= depth; dep++) mc::sequences(n, dep, [&](const std::vector<unsigned>& seq) {
        mc::run([&] { return MC_STR(typeid(T).name() << " additions " << mc::vec(seq)); }, [&] {
            B b; bool any = false, inf = false; V lo = vals.empty() ? V() : V(0, 0, 0), hi = lo;
            auto grow = [&](const V& q) { for (int d = 0; d < 3; d++) { if (!any || q(d) < lo(d)) lo(d) = q(d); } for (int d = 0; d < 3; d++) if (!any || q(d) > hi(d)) hi(d) = q(d); any = true; };
            for (unsigned s : seq) {
                if (s < ps.size()) { b << ps[s]; grow(ps[s]); }
                else if (s < ps.size() + 2 * bs.size()) {
                    unsigned k = (s - ps.size()) / 2;
                    if ((s - ps.size()) % 2) b += bs[k]; else b << bs[k];
                    if (k + 1 < bs.size()) { grow(bs[k].getMin()); grow(bs[k].getMax()); }
                } else { b.setInfinity(); inf = true; }
                mc::step();
            }
            for (auto& q : ps) {
                bool w = inf || (any && lo(0) <= q(0) && q(0) <= hi(0) && lo(1) <= q(1) && q(1) <= hi(1) && lo(2) <= q(2) && q(2) <= hi(2));
                MC_CHECK(b.isInnerPoint(q) == w, "accumulated-points", rb(b) << p(q));
            }
            if (any && !inf) MC_CHECK(eqv(b.getMin(), lo) && eqv(b.getMax(), hi), "accumulated-box", rb(b) << " not " << p(lo) << p(hi));
            mc::state(rb(b));
        });
    });
}
// the pieces are the product of one partition per axis
template<class T> static void pieces(const std::vector<B3<T>>& ps, const B3<T>& b, const V3<T>* step, const std::vector<double>* lines) {
    std::vector<std::pair<double, double>> iv[3];
    std::set<std::string> uniq;
    for (auto& q : ps) {
        for (int d = 0; d < 3; d++) iv[d].push_back(std::make_pair(double(q.getMin()(d)), double(q.getMax()(d))));
        MC_CHECK(uniq.insert(rb(q)).second, "piece-twice", rb(q));
    }
    size_t prod = 1;
    for (int d = 0; d < 3; d++) {
        std::sort(iv[d].begin(), iv[d].end()); iv[d].erase(std::unique(iv[d].begin(), iv[d].end()), iv[d].end());
        prod *= iv[d].size();
        MC_REQUIRE(!iv[d].empty(), "no-pieces", rb(b));
        MC_CHECK(mc::near(iv[d].front().first, b.getMin()(d), 1e-12) && mc::near(iv[d].back().second, b.getMax()(d), 1e-12), "pieces-do-not-cover", "axis " << d << " " << iv[d].front().first << ".." << iv[d].back().second);
        for (size_t k = 0; k < iv[d].size(); k++) {
            if (k) MC_CHECK(iv[d][k - 1].second == iv[d][k].first, "gap-or-overlap", "axis " << d << " " << iv[d][k - 1].second << " " << iv[d][k].first);
            if (b.getMin()(d) != b.getMax()(d)) MC_CHECK(iv[d][k].second > iv[d][k].first, "empty-piece", "axis " << d);
            if (step && (*step)(d) > 0) MC_CHECK(iv[d][k].second - iv[d][k].first <= (*step)(d) * (1 + 1e-9), "piece-too-long", "axis " << d << " " << iv[d][k].second - iv[d][k].first);
            if (step && (*step)(d) > 0 && b.getMax()(d) - b.getMin()(d) >= (*step)(d) && k) { double m = iv[d][k].first / (*step)(d); MC_CHECK(mc::near(m, std::floor(m + 0.5), 1e-9), "cut-off-step", iv[d][k].first); }
        }
        if (lines) {
            std::vector<double> want, got;
            for (double l : lines[d]) if (l > b.getMin()(d) + 1e-12 && l < b.getMax()(d) - 1e-12) want.push_back(l);
            for (size_t k = 1; k < iv[d].size(); k++) got.push_back(iv[d][k].first);
            MC_CHECK(got == want, "cuts-not-at-lines", "axis " << d << mc::vec(got) << " not " << mc::vec(want));
        }
    }
    MC_CHECK(ps.size() == prod, "piece-count", ps.size() << " " << prod);
    mc::step(ps.size()); mc::outcome(ps.size() > 1 ? "split" : "one piece");
}
template<class T> static void chops(const std::vector<T>& vals, const std::vector<T>& steps) {
    typedef V3<T> V; typedef B3<T> B;
    for (auto& b : boxes<T>(vals)) {
        for (T x : steps) for (T y : steps) for (T z : steps) {
            if (!mc::thorough() && x != y && y != z && x != z && std::is_floating_point<T>::value) continue;
            mc::run([&] { return MC_STR(typeid(T).name() << " box " << rb(b) << " by steps " << p(V(x, y, z))); }, [&] {
                V st(x, y, z); auto ps = b.chop(st); pieces<T>(ps, b, &st, nullptr);
                mc::state(MC_STR(typeid(T).name() << ps.size() << rb(ps.front()) << rb(ps.back())));
            });
        }
        static const std::vector<std::vector<double>> ax = { {0, 1}, {-2, -1, 0, 1, 2, 3}, {-1, 4}, {1, 2, 3}, {-5, 9}, {-9, -8}, {8, 9} };
        for (size_t i = 0; i < ax.size(); i++) for (size_t j = 0; j < ax.size(); j++) {
            std::vector<double> l[3] = { ax[i], ax[j], ax[(i + j) % ax.size()] };
            mc::run([&] { return MC_STR(typeid(T).name() << " box " << rb(b) << " by grid " << mc::vec(l[0]) << mc::vec(l[1]) << mc::vec(l[2])); }, [&] {
                auto ps = b.chop(Grid3(l)); pieces<T>(ps, b, nullptr, l);
                mc::state(MC_STR(typeid(T).name() << ps.size() << rb(ps.front()) << rb(ps.back())));
            });
        }
    }
}
// boxes of every magnitude, and split in n pieces
static void sizes() {
    for (int e = -12; e <= 12; e += mc::pick(3, 1)) {
        const double u = std::pow(10.0, e);
        one<double>({-u, 0, 0.5 * u, 3 * u});
        pairs<double>({-u, 0, 2 * u}, {-1.5 * u, -u, 0, 2 * u, 2.5 * u}, mc::pick(7, 2));
        hist<double>({-u, 0.5 * u, 2 * u}, 2);
    }
    for (int u : {1000, 1 << 20, 1 << 28}) { one<int>({-u, 0, 1, 3 * u}); pairs<int>({-u, 0, 3 * u}, {-u - 1, -u, 0, 3 * u, 3 * u + 1}, mc::pick(7, 2)); hist<int>({-u, 0, u}, 2); }
    std::vector<int> ns; for (int n = 1; n <= mc::pick(24, 40); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 257}) ns.push_back(n);
    for (int n : ns) for (int d = 0; d < 3; d++) for (int e = -6; e <= 6; e += mc::pick(6, 2)) for (double off : {0.0, -0.5, 0.25}) mc::run([=] { return MC_STR("box split in " << n << " on axis " << d << " of size 1e" << e << " from " << off); }, [&] {
        const double u = std::ldexp(1.0, e);       // steps which are exact, so that cuts are where they are
        R3 a(u, u, -u), b(2 * u, 3 * u, u), st(u, u, u); a(d) = off * u; b(d) = (off + n) * u;
        BoxR3 x(a, b);
        pieces<double>(x.chop(st), x, &st, nullptr);
        std::vector<double> l[3]; for (int q = 0; q < 3; q++) { l[q].push_back(a(q) - u); for (int i = 0; i <= (q == d ? n : 2); i++) l[q].push_back(a(q) + (i + i % 2 * 0.125) * u); }
        pieces<double>(x.chop(Grid3(l)), x, nullptr, l);
        I3 ai(1, 1, -1), bi(2, 3, 1), si(1, 1, 1); ai(d) = int(off * 8) ; bi(d) = ai(d) + n;
        BoxI3 y(ai, bi); pieces<int>(y.chop(si), y, &si, nullptr);
        mc::state(MC_STR("pieces " << n << d << e << off));
    });
}
static void body() {
    sizes();
    one<double>({-1, 0, 0.5, 3}); one<int>({-2, 0, 1, 4});
    if (mc::thorough()) { pairs<double>({-1, 0, 0.5, 3}, {-2, -1, -0.5, 0, 0.25, 0.5, 1, 3}, 3); pairs<int>({-2, 0, 1, 4}, {-3, -2, -1, 0, 1, 4}, 3); }
    pairs<double>({-1, 0, 2}, {-1.5, -1, -0.5, 0, 2, 2.5}, 1); pairs<int>({-2, 0, 1}, {-3, -2, -1, 0, 1, 2}, 1);
    hist<double>({-1, 0.5, 2}, mc::pick(4u, 5u)); hist<int>({-1, 0, 2}, mc::pick(4u, 5u));
    chops<double>({-1, 0.1, 0.6, 3}, {0, 0.25, 1, 2, 5, -1}); chops<int>({-1, 0, 2, 4}, {0, 1, 2, 3, 9, -1});
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }
