// P02: position lookup of coordinate groups against a reference list.
// Alphabet of 22 operations (unstructured and structured positions forced to
// collide, overlapping allowed or not, removal, replacement, rescaling, copies);
// every sequence up to the depth bound on fresh real groups.
#include "mc.h"
#include "geometry/coordinate/Group.h"
#include "geometry/coordinate/Conformal.h"
#include "geometry/coordinate/Relative.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef Coordinate::Group<> G;
typedef Math::CVecR3 R3;
typedef Math::CVecI3 I3;

// position alphabets
static const R3 RP[] = { R3(0, 0, 0), R3(1, 2, 3), R3(-1, 0.5, 4), R3(1, 2, -3), R3(0.1 + 0.2, 1, 1), R3(1, 3, 2) };
static const I3 IP[] = { I3(0, 0, 0), I3(1, 2, 3), I3(-1, 2, 3), I3(1, 3, 2) };
static const unsigned NR = 6, NI = 4;

struct Item { size_t id; bool real; double p[3]; const Coord* ptr; };
typedef std::vector<Item> Model;
static bool same(const double* a, const double* b) {
    for (int d = 0; d < 3; d++) if (std::fabs(a[d] - b[d]) > 1e-12 * (1 + std::fabs(a[d]))) return false;
    return true;
}
static Item item(const Coord* c) {
    Item i; i.id = c->getId().toInt(); i.ptr = c; i.real = c->is<CoordR3>();
    for (int d = 0; d < 3; d++) i.p[d] = i.real ? c->castTo<CoordR3>()->pos()(d) : (double)c->castTo<CoordI3>()->pos()(d);
    return i;
}
static std::string render(const Model& m) {
    std::string s;
    for (auto& i : m) s += MC_STR(i.id << (i.real ? "r" : "i") << i.p[0] << "," << i.p[1] << "," << i.p[2] << " ");
    return "[" + s + "]";
}
static void compare(G& g, const Model& m, const char* w) {
    const G& c = g;
    MC_REQUIRE(c.size() == m.size(), "size", w << c.size() << " model " << render(m));
    for (size_t i = 0; i < m.size(); i++) {
        MC_REQUIRE(c(i) == m[i].ptr, "position-order", w << i << render(m));
        Item it = item(c(i));
        MC_CHECK(it.id == m[i].id && it.real == m[i].real && same(it.p, m[i].p), "coordinate-intact", w << i << " model " << render(m));
        MC_CHECK(c.getId(CoordId(m[i].id)) == m[i].ptr, "id-lookup", w << i << render(m));
    }
    // look up every position of the alphabet and every stored position
    auto lookR = [&](const R3& q) {
        double p[3] = { q(0), q(1), q(2) };
        std::set<const Coord*> want;
        for (auto& i : m) if (i.real && same(i.p, p)) want.insert(i.ptr);
        const CoordR3* got = c.getPos(q);
        MC_CHECK(want.empty() == (got == nullptr), "lookup-position-real", w << " " << q.toStr() << " found=" << (got != nullptr) << " model " << render(m));
        if (got && !want.empty()) MC_CHECK(want.count(got), "lookup-position-real-wrong", w << q.toStr() << render(m));
    };
    auto lookI = [&](const I3& q) {
        double p[3] = { (double)q(0), (double)q(1), (double)q(2) };
        std::set<const Coord*> want;
        for (auto& i : m) if (!i.real && same(i.p, p)) want.insert(i.ptr);
        const CoordI3* got = c.getPos(q);
        MC_CHECK(want.empty() == (got == nullptr), "lookup-position-int", w << " " << q.toStr() << " found=" << (got != nullptr) << " model " << render(m));
        if (got && !want.empty()) MC_CHECK(want.count(got), "lookup-position-int-wrong", w << q.toStr() << render(m));
        auto all = c.getAllInPos(q);
        std::set<const Coord*> have;
        for (size_t i = 0; i < all.size(); i++) have.insert(all(i));
        MC_CHECK(have == want && all.size() == want.size(), "all-in-position", w << q.toStr() << " got " << all.size() << " want " << want.size() << " model " << render(m));
    };
    for (unsigned i = 0; i < NR; i++) { lookR(RP[i]); lookR(RP[i] * 2.0); lookR(RP[i] * -1.0); }
    lookR(R3(0.3, 1, 1)); lookR(R3(0.3000001, 1, 1));   // equal within rounding / different
    lookR(R3(7, 7, 7)); lookI(I3(7, 7, 7));
    for (unsigned i = 0; i < NI; i++) { lookI(IP[i]); }
    for (auto& i : m) if (i.real) lookR(R3(i.p[0], i.p[1], i.p[2]));
}
struct World {
    G a, b; Model ma, mb;
    bool inR(const R3& q) { for (auto& i : ma) { double p[3] = {q(0), q(1), q(2)}; if (i.real && same(i.p, p)) return true; } return false; }
    bool inI(const I3& q) { for (auto& i : ma) { double p[3] = {(double)q(0), (double)q(1), (double)q(2)}; if (!i.real && same(i.p, p)) return true; } return false; }
    std::set<size_t> ids() { std::set<size_t> s; for (auto& i : ma) s.insert(i.id); return s; }
    void created(const Coord* c, const char* what) {
        MC_REQUIRE(c != nullptr, "add-position-null", what);
        size_t id = c->getId().toInt();
        MC_CHECK(id != 0 && !ids().count(id), "auto-id-in-use", what << id << render(ma));
        ma.push_back(item(c));
    }
    void addR(const R3& q, bool overlap) {
        bool was = inR(q);
        const Coord* c = a.addPos(q, overlap);
        if (was && !overlap) { MC_CHECK(c != nullptr && c == a.getPos(q) && a.size() == ma.size(), "add-existing-position", q.toStr() << render(ma)); mc::outcome("reused position"); }
        else { created(c, "addPos"); mc::outcome("new position"); }
    }
    void addI(const I3& q, bool overlap) {
        bool was = inI(q);
        const Coord* c = a.addPos(q, overlap);
        if (was && !overlap) { MC_CHECK(c != nullptr && c == a.getPos(q) && a.size() == ma.size(), "add-existing-position", q.toStr() << render(ma)); mc::outcome("reused position"); }
        else { created(c, "addPos"); mc::outcome("new position"); }
    }
    template<typename V, typename In> void addMany(const std::vector<V>& v, bool overlap, In in) {
        size_t n = ma.size();
        // a list is matched against what the group held before the call
        std::vector<bool> held; for (auto& q : v) held.push_back((this->*in)(q));
        auto r = a.addPos(v, overlap);
        size_t made = 0, at = 0;
        for (auto& q : v) {
            if (held[at++] && !overlap) continue;
            MC_REQUIRE(n + made < a.size(), "add-many-missing", q.toStr());
            created(a(n + made), "addPos many"); made++;
            MC_CHECK(made <= r.size() && r(made - 1) == ma.back().ptr, "add-many-returns-new", made);
        }
        MC_CHECK(r.size() == made, "add-many-returns", "returned " << r.size() << " new " << made);
    }
    bool op(unsigned o) {
        switch (o) {
        case 0: case 1: case 2: case 3: addR(RP[o], false); return true;
        case 4: addR(RP[1], true); return true;
        case 5: addR(RP[4], false); return true;
        case 6: case 7: case 8: addI(IP[o - 6], false); return true;
        case 9: addI(IP[1], true); return true;
        case 10: addMany(std::vector<R3>{ RP[5], RP[1], RP[5] }, false, &World::inR); return true;
        case 11: addMany(std::vector<I3>{ IP[3], IP[0], IP[3] }, false, &World::inI); return true;
        case 12: addMany(std::vector<R3>{ RP[0], RP[0] }, true, &World::inR); return true;
        case 13: if (ma.empty()) return false; a.remove(0); ma.erase(ma.begin()); return true;
        case 14: if (ma.size() < 2) return false; a.remove(ma.size() - 1); ma.pop_back(); return true;
        case 15: { if (ma.size() < 2) return false; a.remove(std::vector<size_t>{ ma.size() - 1, 0 }); ma.pop_back(); ma.erase(ma.begin()); return true; }
        case 16: scale(2.0); return true;
        case 17: scale(-1.0); return true;
        case 18: { b = a; mb = ma; G t; std::swap(ma, mb); t = a; a = b; b = t; return true; }
        case 19: { if (ma.empty()) return false;
            auto* k = a.clone(); Model r;
            MC_REQUIRE(k->size() == ma.size(), "clone-size", k->size());
            b = a; mb = ma;
            G n; n = *k; delete k;
            for (size_t i = 0; i < ma.size(); i++) { MC_CHECK(n(i) != ma[i].ptr && *n(i) == *ma[i].ptr, "clone", i); r.push_back(item(n(i))); }
            a = n; ma = r; cloned = true; return true; }
        case 20: { // explicit id, conformal/relative coordinates also live in the structured index
            CoordConf* c = new CoordConf(CoordId(nextId()), IP[1], Math::Constants::y, 0.25); a.add(c); ma.push_back(item(c)); return true; }
        case 21: { CoordR3* c = new CoordR3(CoordId(nextId()), RP[2]); a.add(c); ma.push_back(item(c)); return true; }
        case 22: { if (ma.empty()) return false; // replacement
            CoordR3* c = new CoordR3(CoordId(nextId()), RP[3]); a.set(0, c); ma[0] = item(c); return true; }
        case 23: { if (ma.empty()) return false; a.clear(); ma.clear(); return true; }
        case 24: { if (ma.empty()) return false; size_t id = ma[ma.size() / 2].id; a.removeId(CoordId(id));
            ma.erase(ma.begin() + ma.size() / 2); return true; }
        case 25: { // refused: nothing changes, in the position index either
            if (ma.empty()) return false; bool t = false;
            try { a.add(new CoordR3(CoordId(ma[0].id), R3(7, 7, 7))); } catch (const std::exception&) { t = true; }
            MC_CHECK(t, "repeated-id-accepted", ma[0].id); mc::outcome("repeated id refused"); return true; }
        case 26: case 27: { // from a group without index
            Plain g; Model r = plain(g); if (o == 26) a = g; else a = std::move(g); ma = r; return true; }
        case 28: { Plain g; Model r = plain(g); auto got = a.add(g); MC_REQUIRE(got.size() == r.size() && g.size() == r.size(), "add-group-returns", got.size());
            for (size_t i = 0; i < r.size(); i++) { MC_CHECK(got(i) == r[i].ptr, "add-group-returns", i); ma.push_back(r[i]); } return true; }
        }
        return false;
    }
    typedef SEMBA::Group::Group<Coord> Plain;
    Model plain(Plain& g) {
        Model r; size_t id = nextId();
        for (Coord* c : {(Coord*)new CoordI3(CoordId(id), IP[2]), (Coord*)new CoordR3(CoordId(id + 1), RP[1]), (Coord*)new CoordRel(CoordId(id + 2), IP[1], R3(0.5, 0, 0))}) { g.add(c); r.push_back(item(c)); }
        return r;
    }
    bool cloned = false;
    size_t nextId() { auto s = ids(); return s.empty() ? 3 : *s.rbegin() + 2; }
    void scale(double f) {
        a.applyScalingFactor(f);
        // the items are shared with b unless b was left behind by a clone
        for (Model* m : { &ma, &mb }) for (auto& i : *m) {
            bool inA = false; for (auto& j : ma) inA |= j.ptr == i.ptr;
            if (i.real && inA) for (int d = 0; d < 3; d++) i.p[d] *= f;
        }
        scaledShared = false;
        for (auto& i : mb) for (auto& j : ma) if (i.ptr == j.ptr && i.real) scaledShared = true;
    }
    bool scaledShared = false;
};
static const unsigned NOPS = 29;
static const char* names[NOPS] = {"addR 0","addR 1","addR 2","addR 3","addR 1 overlap","addR 0.1+0.2","addI 0","addI 1","addI 2","addI 1 overlap",
    "addR {5,1,5}","addI {3,0,3}","addR {0,0} overlap","remove first","remove last","remove {last,first}","scale 2","scale -1","share and swap","clone","add conformal",
    "add with id","replace first","clear","removeId middle","add repeated id","assign plain group","move plain group","add plain group"};
static void run(const std::vector<unsigned>& seq) {
    mc::run([&] { std::string s; for (unsigned o : seq) s += std::string(names[o]) + "; "; return s; }, [&] {
        World w;
        for (unsigned o : seq) {
            bool en = w.op(o);
            if (!en) { mc::outcome("not enabled"); return; }
            mc::step();
        }
        compare(w.a, w.ma, "A ");
        // a second group sharing items that were rescaled through the first one has no way to know
        if (!w.scaledShared) compare(w.b, w.mb, "B ");
        mc::state(render(w.ma) + render(w.mb));
    });
}
// groups of every size of a ladder: positions spread over every magnitude, some held twice, found again after each change
static void sizes() {
    std::vector<size_t> S; for (size_t n = 1; n <= 36; n++) S.push_back(n); for (size_t n : {64, 65, 100, 128, 129, 257}) S.push_back(n);
    for (size_t n : S) for (int k = 0; k < 5; k++) for (size_t base : n > 64 ? std::vector<size_t>{size_t(0), size_t(65530)} : std::vector<size_t>{size_t(0), size_t(250), size_t(65530), (size_t(1) << 31) - 3, (size_t(1) << 32) - 3}) mc::run([&] { return MC_STR(n << " coordinates of kind " << k << " with ids above " << base); }, [&] {
        const double mag[5] = {1, 1e-6, 1e5, 40, 1e3}; const Math::Int im[5] = {1, 3, 40000, 1000000, 255};
        Model m; G g; auto R = [&](size_t i) { return R3(mag[k] * double((i * 5) % (n + 2)), -mag[k] * double(i % 4) * 0.25, mag[k] * double(i / 4)); }; auto I = [&](size_t i) { return I3(Math::Int(i % (k + 2)) * im[k], -Math::Int(i / (k + 2)) * im[k], Math::Int((i * 3) % 7)); };
        if (base) { // with given identifiers, the last position repeated
            for (size_t i = 0; i < n; i++) { Coord* c = i % 3 == 1 ? (Coord*) new CoordI3(CoordId(base + i + 1), I(i)) : i % 3 == 2 && i % 2 ? (Coord*) new CoordRel(CoordId(base + i + 1), I(i), R3(0.25, 0, 0)) : (Coord*) new CoordR3(CoordId(base + i + 1), R(i)); g.add(c); m.push_back(item(c)); }
        }
        for (size_t i = 0; i < n; i++) { // then by position: held ones are given back
            size_t before = g.size(); bool was = false; const Coord* c; if (i % 2) { I3 q = I(i); double p[3] = {(double) q(0), (double) q(1), (double) q(2)}; for (auto& x : m) was |= !x.real && same(x.p, p); c = g.addPos(q); } else { R3 q = R(i); double p[3] = {q(0), q(1), q(2)}; for (auto& x : m) was |= x.real && same(x.p, p); c = g.addPos(q); }
            mc::step(); MC_REQUIRE(c != nullptr && g.size() == before + !was, "add-existing-position", i << " of " << n << " known " << was); if (!was) { MC_CHECK(c->getId().toInt() != 0, "auto-id-zero", ""); for (auto& x : m) MC_CHECK(x.id != c->getId().toInt(), "auto-id-in-use", x.id); m.push_back(item(c)); }
        }
        auto every = [&](const char* w) { compare(g, m, w); for (auto& x : m) if (!x.real) { I3 q(Math::Int(x.p[0]), Math::Int(x.p[1]), Math::Int(x.p[2])); size_t want = 0; for (auto& y : m) want += !y.real && same(x.p, y.p); mc::step(); MC_CHECK(g.getAllInPos(q).size() == want && g.getPos(q) != nullptr, "all-in-position", w << x.id << " of " << n); q(0) += 1; want = 0; double p[3] = {(double) q(0), (double) q(1), (double) q(2)}; for (auto& y : m) want += !y.real && same(p, y.p); MC_CHECK(g.getAllInPos(q).size() == want && (g.getPos(q) != nullptr) == (want > 0), "all-in-position", w << "next to " << x.id << " of " << n); }
            for (auto& x : m) if (x.real) { R3 q(x.p[0], x.p[1] + 0.03 * mag[k], x.p[2]); mc::step(); MC_CHECK(g.getPos(q) == nullptr, "lookup-position-real", w << "next to " << x.id << " of " << n); } };
        every("made "); if (n > 20 && k > 1) { mc::outcome("sizes"); return; }
        { G c; c = *std::unique_ptr<G>(g.clone()); MC_REQUIRE(c.size() == m.size(), "clone-size", ""); for (size_t i = 0; i < m.size(); i++) { MC_CHECK(c(i) != m[i].ptr && *c(i) == *m[i].ptr, "clone", i); if (m[i].real) MC_CHECK(c.getPos(R3(m[i].p[0], m[i].p[1], m[i].p[2])) != nullptr, "clone-lookup", i); else MC_CHECK(c.getPos(I3(Math::Int(m[i].p[0]), Math::Int(m[i].p[1]), Math::Int(m[i].p[2]))) != nullptr, "clone-lookup", i); } }
        g.applyScalingFactor(-0.5); for (auto& x : m) if (x.real) for (int d = 0; d < 3; d++) x.p[d] *= -0.5; every("rescaled ");
        std::vector<size_t> out; for (size_t i = m.size(); i-- > 0;) if (i % 3 == 0 && m.size() - out.size() > 1) { out.push_back(i); m.erase(m.begin() + i); } g.remove(out); every("removed ");
        while (m.size() > n / 3) { size_t i = m.size() / 2; if (i % 2) g.removeId(CoordId(m[i].id)); else g.remove(i); m.erase(m.begin() + i); } every("removed one by one ");
        mc::outcome("sizes"); mc::state(MC_STR("size " << n << " " << k << " " << base));
    });
}
static void body() {
    sizes();
    for (unsigned d = 1; d <= mc::pick(4u, 5u); d++) mc::sequences(NOPS, d, run);
    // construction from position lists, every list of length <= 4 over the alphabet
    for (unsigned d = 0; d <= mc::pick(4u, 6u); d++) mc::sequences(4, d, [&](const std::vector<unsigned>& s) {
        mc::run([&] { return "construct from positions " + mc::vec(s); }, [&] {
            std::vector<R3> r; std::vector<I3> n;
            for (unsigned i : s) { r.push_back(RP[i]); n.push_back(IP[i]); }
            CoordR3Group gr(r); CoordI3Group gi(n);
            mc::step(2);
            MC_REQUIRE(gr.size() == s.size() && gi.size() == s.size(), "construct-size", gr.size());
            for (size_t i = 0; i < s.size(); i++) {
                MC_CHECK(gr(i)->getId().toInt() == i + 1 && gi(i)->getId().toInt() == i + 1, "construct-ids", i);
                MC_CHECK(gr(i)->pos() == r[i] && gi(i)->pos() == n[i], "construct-positions", i);
                MC_CHECK(gr.getPos(r[i]) && gr.getPos(r[i])->pos() == r[i] && gi.getPos(n[i]) && gi.getPos(n[i])->pos() == n[i], "construct-lookup", i);
                MC_CHECK(gi.getAllInPos(n[i]).size() == (size_t)std::count(s.begin(), s.end(), s[i]), "construct-all-in-position", i);
            }
            mc::state("C" + mc::vec(s));
        });
    });
}
int main(int c, char** v) { return mc::main_(c, v, body); }
