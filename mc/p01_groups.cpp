// P01: identified groups against a reference "ordered list of unique ids".
// Alphabet: 26 operations on two groups A and B of layers (ids forced to
// collide in {1,2,3,5}); every operation sequence up to the depth bound is run
// on fresh real groups and after every operation everything observable is
// compared with the model, in both groups.
#include "mc.h"
#include "geometry/layer/Group.h"
#include "physicalModel/Group.h"
#include "physicalModel/predefined/PEC.h"
#include "physicalModel/predefined/PMC.h"
#include "physicalModel/volume/Classic.h"
#include "source/Group.h"
#include "geometry/element/Node.h"
#include "geometry/element/Line2.h"
#include "geometry/element/Group.h"
#include "source/PlaneWave.h"
#include "source/Generator.h"
#include "math/function/Gaussian.h"
#include "outputRequest/Group.h"
#include "outputRequest/FarField.h"
#include "outputRequest/OutputRequest.h"
using namespace SEMBA;
using namespace SEMBA::Geometry;
typedef Layer::Group<> G;
typedef Layer::Layer L;
typedef SEMBA::Group::Group<L> BaseG;

struct Item { size_t id; const L* ptr; std::string name; };
typedef std::vector<Item> Model;

static int live = 0;
struct Counted : public L {
    Counted(LayerId id, const std::string& n) : SEMBA::Class::Identifiable<LayerId>(id), L(id, n) { live++; }
    Counted(const Counted& r) : SEMBA::Class::Identifiable<LayerId>(r), L(r) { live++; }
    ~Counted() { live--; }
    Counted* clone() const { return new Counted(*this); }
};

static bool has(const Model& m, size_t id) { for (auto& i : m) if (i.id == id) return true; return false; }
static size_t maxId(const Model& m) { size_t r = 0; for (auto& i : m) r = std::max(r, i.id); return r; }
static std::string render(const Model& m) {
    std::string s = "[";
    for (auto& i : m) s += std::to_string(i.id) + ":" + i.name + " ";
    return s + "]";
}

// Everything observable on a group agrees with the model.
static void compare(G& g, const Model& m, const char* which) {
    const G& c = g;
    MC_REQUIRE(c.size() == m.size(), "size", which << " size " << c.size() << " model " << render(m));
    MC_CHECK(c.empty() == m.empty(), "empty", which);
    std::vector<LayerId> ids = c.getIds();
    MC_REQUIRE(ids.size() == m.size(), "getIds-size", which << ids.size());
    for (size_t i = 0; i < m.size(); i++) {
        MC_REQUIRE(c.get(i) == m[i].ptr && g.get(i) == m[i].ptr && c(i) == m[i].ptr, "position-lookup", which << " position " << i << " model " << render(m));
        MC_CHECK(c(i)->getName() == m[i].name, "item-intact", which << i << c(i)->getName());
        MC_CHECK(ids[i].toInt() == m[i].id, "getIds", which << " position " << i << " id " << ids[i].toInt());
        MC_CHECK(c.get(i)->getId().toInt() == m[i].id, "item-id", which << " position " << i);
        MC_CHECK(c.getName(m[i].name) != nullptr && c.getName(m[i].name)->getName() == m[i].name, "name-lookup", which << m[i].name);
    }
    MC_CHECK(c.getName("nobody") == nullptr, "name-lookup-missing", which);
    for (size_t id : {0, 1, 2, 3, 4, 5, 6, 99}) {
        bool in = has(m, id);
        MC_CHECK(c.existId(LayerId(id)) == in, "existId", which << " id " << id << " exists=" << c.existId(LayerId(id)) << " model " << render(m));
        const L* want = nullptr;
        for (auto& i : m) if (i.id == id) want = i.ptr;
        const L* got = nullptr; L* got2 = nullptr; bool thrown = false, thrown2 = false;
        try { got = c.getId(LayerId(id)); } catch (const SEMBA::Group::Error::Id::NotExists<LayerId>& e) { thrown = true; MC_CHECK(e.getId() == LayerId(id), "not-exists-names-id", e.what()); }
        try { got2 = g.getId(LayerId(id)); } catch (const SEMBA::Group::Error::Id::NotExists<LayerId>&) { thrown2 = true; }
        MC_CHECK(thrown == !in && thrown2 == !in, "id-lookup-throws", which << " id " << id << " model " << render(m));
        MC_CHECK(got == want && got2 == want, "id-lookup", which << " id " << id << " model " << render(m));
    }
    // selections share the items, in the order of the group
    std::vector<LayerId> want = { LayerId(5), LayerId(1), LayerId(99), LayerId(1) };
    auto sel = g.getId(want);
    auto csel = c.getId(want);
    std::vector<const L*> exp;
    for (auto& i : m) if (i.id == 1 || i.id == 5 || i.id == 99) exp.push_back(i.ptr);
    MC_REQUIRE(sel.size() == exp.size() && csel.size() == exp.size(), "select-ids-size", which << sel.size() << " " << csel.size());
    for (size_t i = 0; i < exp.size(); i++) MC_CHECK(sel(i) == exp[i] && csel(i) == exp[i], "select-ids", which << i);
    if (m.size() > 0) {
        std::vector<size_t> pos = { m.size() - 1, 0 };
        auto p = g.get(pos); auto cp = c.get(pos);
        size_t n = m.size() > 1 ? 2 : 1;
        MC_REQUIRE(p.size() == n && cp.size() == n, "select-positions-size", which);
        MC_CHECK(p(0) == m[0].ptr && p(n - 1) == m.back().ptr && cp(0) == m[0].ptr && cp(n - 1) == m.back().ptr, "select-positions", which);
        MC_CHECK(sel.getIds().size() == sel.size(), "select-is-group", which);
    }
}

struct World {
    G a, b; Model ma, mb; int n = 0; std::string last;
    L* fresh(size_t id) { n++; return new Counted(LayerId(id), "item" + std::to_string(n)); }
    static Item item(const L* l) { return Item{ l->getId().toInt(), l, l->getName() }; }
    std::string err;
    template<typename F> bool throws(const F& f) {
        try { f(); return false; }
        catch (const SEMBA::Group::Error::Id::Zero<LayerId>&) { return true; }
        catch (const SEMBA::Group::Error::Id::Duplicated<LayerId>& e) { err = e.what(); return true; }
    }
    static bool acceptable(const Model& m, const std::vector<size_t>& ids) {
        std::set<size_t> s;
        for (size_t i : ids) { if (i == 0 || has(m, i) || !s.insert(i).second) return false; }
        return true;
    }
    void add(const std::vector<size_t>& ids, bool single) {
        std::vector<L*> v; Model add;
        for (size_t i : ids) { L* l = fresh(i); v.push_back(l); add.push_back(item(l)); }
        bool ok = acceptable(ma, ids);
        // a second owner, so a refused item stays observable
        BaseG keep(v);
        bool t = throws([&] { if (single) { auto r = a.add(v[0]); MC_CHECK(r.size() == 1 && r(0) == v[0], "add-returns", ""); }
                              else { auto r = a.add(v); MC_CHECK(r.size() == v.size(), "add-returns", ""); } });
        MC_CHECK(t == !ok, "add-refusal", "refused=" << t << " should be " << !ok);
        if (ok) ma.insert(ma.end(), add.begin(), add.end());
        mc::outcome(ok ? "add accepted" : "add refused");
    }
    void addId(unsigned k, bool single) {
        std::vector<L*> v;
        for (unsigned i = 0; i < k; i++) v.push_back(fresh(7));   // the previous id is irrelevant
        std::set<size_t> used;
        for (auto& i : ma) used.insert(i.id);
        if (single) a.addId(v[0]); else a.addId(v);
        for (unsigned i = 0; i < k; i++) {
            size_t id = v[i]->getId().toInt();
            MC_CHECK(id != 0 && used.insert(id).second, "auto-id-in-use", "assigned " << id << " with " << render(ma));
            ma.push_back(item(v[i]));
        }
        mc::outcome("auto id");
    }
    void removePos(std::vector<size_t> pos, bool single) {
        if (single) a.remove(pos[0]); else a.remove(pos);
        Model r; std::set<size_t> s(pos.begin(), pos.end());
        for (size_t i = 0; i < ma.size(); i++) if (!s.count(i)) r.push_back(ma[i]);
        ma = r;
    }
    void removeId(const std::vector<size_t>& ids, bool single) {
        std::vector<LayerId> v; for (size_t i : ids) v.push_back(LayerId(i));
        if (single) a.removeId(v[0]); else a.removeId(v);
        Model r; std::set<size_t> s(ids.begin(), ids.end());
        for (auto& i : ma) if (!s.count(i.id)) r.push_back(i);
        ma = r;
    }
    bool op(unsigned o) {   // false: not enabled in this state
        switch (o) {
        case 0: add({1}, true); return true;
        case 1: add({2}, true); return true;
        case 2: add({5}, true); return true;
        case 3: add({0}, true); return true;
        case 4: addId(1, true); return true;
        case 5: addId(2, false); return true;
        case 6: add({3, 1}, false); return true;
        case 7: add({2, 2}, false); return true;
        case 8: if (ma.empty()) return false; removePos({0}, true); return true;
        case 9: if (ma.size() < 2) return false; removePos({ma.size() - 1}, true); return true;
        case 10: if (ma.size() < 2) return false; removePos({ma.size() - 1, 0}, false); return true;
        case 11: removeId({1}, true); return true;
        case 12: removeId({2}, true); return true;
        case 13: removeId({5, 99, 1}, false); return true;
        case 14: if (ma.empty()) return false; a.clear(); ma.clear(); return true;
        case 15: b = a; mb = ma; return true;
        case 16: { // swap roles
            G t; t = a; a = b; b = t; std::swap(ma, mb); return true; }
        case 17: { a = std::move(b); b.clear(); ma = mb; mb.clear(); return true; }
        case 18: { // the whole of b
            std::vector<size_t> ids; for (auto& i : mb) ids.push_back(i.id);
            bool ok = acceptable(ma, ids);
            bool t = throws([&] { a.add(b); });
            MC_CHECK(t == !ok, "add-group-refusal", "refused=" << t << " should be " << !ok << " a=" << render(ma) << " b=" << render(mb));
            if (ok) ma.insert(ma.end(), mb.begin(), mb.end());
            mc::outcome(ok ? "merge accepted" : "merge refused");
            return true; }
        case 19: { if (ma.empty()) return false;
            SEMBA::Group::Group<L>* cl = a.clone(); cloneInto(b, mb, *cl, ma); delete cl; return true; }
        case 20: { if (ma.empty()) return false; // by value
            G t; t = a.cloneElems(); cloneInto(b, mb, t, ma); return true; }
        case 21: { // a selection becomes the other group
            std::vector<LayerId> v = { LayerId(2), LayerId(1) };
            b = a.getId(v); Model r; for (auto& i : ma) if (i.id == 1 || i.id == 2) r.push_back(i); mb = r; return true; }
        case 22: { G& ref = a; a = ref; return true; }
        case 23: { G copy(a); compare(copy, ma, "copy"); copy.clear(); return true; }
        case 24: { if (ma.empty()) return false; // replace the first item by one with another id
            size_t id = has(ma, 3) ? 2 : 3; L* l = fresh(id); BaseG keep(l);
            bool ok = ma[0].id == id || !has(ma, id);
            bool t = throws([&] { a.set(0, l); });
            MC_CHECK(t == !ok, "replace-refusal", "refused=" << t << " should be " << !ok);
            if (ok) ma[0] = item(l);
            mc::outcome(ok ? "replace accepted" : "replace refused");
            return true; }
        case 25: add({(size_t)1 << 40}, true); return true;
        }
        return false;
    }
    static void cloneInto(G& dst, Model& md, BaseG& src, const Model& m) {
        dst = src;
        md.clear();
        MC_REQUIRE(dst.size() == m.size(), "clone-size", "");
        for (size_t i = 0; i < m.size(); i++) {
            MC_CHECK(dst(i) != m[i].ptr, "clone-shares-item", i);
            MC_CHECK(*dst(i) == *m[i].ptr, "clone-equal", i);
            MC_CHECK(typeid(*dst(i)) == typeid(*m[i].ptr), "clone-type", i);
            md.push_back(item(dst(i)));
        }
    }
};
static const char* names[26] = {"add 1","add 2","add 5","add 0","addId","addId x2","add {3,1}","add {2,2}","remove first","remove last",
    "remove {last,first}","removeId 1","removeId 2","removeId {5,99,1}","clear","B=A","swap","A=move(B)","A.add(B)","B=A.clone","B=A.cloneElems",
    "B=A.getId{2,1}","A=A","copy","replace first","add 2^40"};

static void run(const std::vector<unsigned>& seq) {
    mc::run([&] { std::string s; for (unsigned o : seq) s += std::string(names[o]) + "; "; return s; }, [&] {
        live = 0;
        {
            World w;
            for (unsigned o : seq) {
                bool en = w.op(o);
                if (!en) { mc::outcome("not enabled"); break; }
                mc::step();
                // every proper prefix is a case of its own
                if (&o != &seq.back()) continue;
                compare(w.a, w.ma, "A ");
                compare(w.b, w.mb, "B ");
                mc::state(render(w.ma) + render(w.mb));
            }
        }
        MC_CHECK(live == 0, "items-destroyed-once", live << " items alive after their groups are gone");
    });
}

// Selection by type on a group of heterogeneous items: every mix of three
// concrete types with a two-level hierarchy, length up to 5.
static void types() {
    using namespace SEMBA::PhysicalModel;
    for (unsigned len = 0; len <= mc::pick(5u, 7u); len++)
    mc::sequences(3, len, [&](const std::vector<unsigned>& s) {
        mc::run([&] { return "types " + mc::vec(s); }, [&] {
            PhysicalModel::Group<> g;
            std::vector<PhysicalModel::PhysicalModel*> v;
            for (unsigned i = 0; i < s.size(); i++) {
                PhysicalModel::Id id(i + 1);
                PhysicalModel::PhysicalModel* m = s[i] == 0 ? (PhysicalModel::PhysicalModel*)new Predefined::PEC(id) :
                    s[i] == 1 ? (PhysicalModel::PhysicalModel*)new Predefined::PMC(id) : new Volume::Classic(id, "m", 2.0, 1.0, 0.0, 0.0);
                v.push_back(m); g.add(m);
            }
            const PhysicalModel::Group<>& c = g;
            auto filt = [&](std::function<bool(unsigned)> f) { std::vector<const PhysicalModel::PhysicalModel*> r; for (unsigned i = 0; i < s.size(); i++) if (f(s[i])) r.push_back(v[i]); return r; };
            auto pre = filt([](unsigned k) { return k < 2; });
            auto cla = filt([](unsigned k) { return k == 2; });
            auto pec = filt([](unsigned k) { return k == 0; });
            #define CMP(GRP, REF, NAME) do { auto r = GRP; MC_REQUIRE(r.size() == REF.size(), NAME "-size", r.size() << " want " << REF.size()); \
                for (size_t i = 0; i < REF.size(); i++) MC_CHECK((const void*)dynamic_cast<const void*>(r(i)) == (const void*)dynamic_cast<const void*>(REF[i]), NAME, i); mc::step(); } while (0)
            CMP(g.getOf<Predefined::Predefined>(), pre, "select-type");
            CMP(c.getOf<Predefined::Predefined>(), pre, "select-type-const");
            CMP(c.getOf<Volume::Volume>(), cla, "select-type-const");
            CMP(g.getOfOnly<Predefined::PEC>(), pec, "select-exact-type");
            CMP(c.getOfOnly<Predefined::PEC>(), pec, "select-exact-type-const");
            std::vector<const PhysicalModel::PhysicalModel*> none;
            CMP(c.getOfOnly<Predefined::Predefined>(), none, "select-exact-type-base");
            MC_CHECK(c.sizeOf<Predefined::Predefined>() == pre.size() && c.sizeOf<Volume::Classic>() == cla.size(), "count-type", c.sizeOf<Predefined::Predefined>());
            MC_CHECK(c.emptyOf<Volume::Classic>() == cla.empty(), "empty-type", "");
            mc::state("T" + mc::vec(s));
            // clone: same types, same ids, distinct objects
            auto* k = c.clone();
            MC_REQUIRE(k->size() == v.size(), "clone-size", k->size());
            for (size_t i = 0; i < v.size(); i++)
                MC_CHECK((*k)(i) != v[i] && typeid(*(*k)(i)) == typeid(*v[i]) && (*k)(i)->getId() == v[i]->getId() && (*k)(i)->getName() == v[i]->getName(), "clone-heterogeneous", i);
            delete k;
        });
    });
}

typedef std::string Str2;
// The groups of each kind, assigned from and to plain groups of their items.
template<class K, class E> struct Kinds {
    typedef SEMBA::Group::Group<E> Plain; typedef std::vector<const E*> V;
    K a, b; Plain p; V ma, mb, mp; size_t n = 0; std::function<E*(size_t)> make;
    template<class X> static auto nm(const X* x, int) -> decltype(std::string(x->getName())) { return x->getName(); }
    template<class X> static std::string nm(const X* x, long) { return std::to_string(x->getId().toInt()); }
    template<class X> static auto ids(X& g, const V& m, int) -> decltype(g.getIds(), void()) {
        auto l = g.getIds(); MC_REQUIRE(l.size() == m.size(), "kind-ids", l.size());
        for (size_t i = 0; i < m.size(); i++) { MC_CHECK(l[i] == m[i]->getId() && g.existId(l[i]) && g.getId(l[i]) == m[i], "kind-ids", i); }
        decltype(l) all = l; auto sel = g.getId(all); MC_CHECK(sel.size() == m.size(), "kind-ids", "selection");
    }
    template<class X> static void ids(X&, const V&, long) {}
    template<class X> static void same(X& g, const V& m, const char* w) {
        const X& c = g; MC_REQUIRE(g.size() == m.size() && g.empty() == m.empty(), "kind-size", w << " holds " << g.size() << " instead of " << m.size());
        for (size_t i = 0; i < m.size(); i++) MC_CHECK(g(i) == m[i] && c(i) == m[i] && c.get(i) == m[i] && !nm(m[i], 0).empty(), "kind-item", w << " " << i);
        ids(g, m, 0);
    }
    static const unsigned N = 15;
    bool op(unsigned o) {
        Plain& pb = b;
        switch (o) {
        case 0: { E* e = make(++n); a.add(e); ma.push_back(e); return true; }
        case 1: { E* e = make(++n); p.add(e); mp.push_back(e); return true; }
        case 2: { K& r = (b = p); MC_CHECK(&r == &b, "kind-returns", ""); mb = mp; return true; }
        case 3: { K& r = (b = std::move(p)); MC_CHECK(&r == &b, "kind-returns", ""); mb = mp; p.clear(); mp.clear(); return true; }
        case 4: b = a; mb = ma; return true;
        case 5: p = a; mp = ma; return true;
        case 6: { K& r = (b = pb); MC_CHECK(&r == &b, "kind-returns", ""); return true; }
        case 7: { K& r = (b = std::move(pb)); MC_CHECK(&r == &b, "kind-returns", ""); return true; }
        case 8: { K c(p); same(c, mp, "made of a plain group"); return true; }
        case 9: { K c(std::move(p)); same(c, mp, "made of a moved group"); p.clear(); mp.clear(); return true; }
        case 10: if (ma.empty()) return false; a.remove(0); ma.erase(ma.begin()); return true;
        case 11: b.clear(); mb.clear(); return true;
        case 12: { auto* c = a.clone(); b = *c; delete c; MC_REQUIRE(b.size() == ma.size(), "kind-size", "copy"); mb.clear(); for (size_t i = 0; i < b.size(); i++) { MC_CHECK(b(i) != ma[i] && nm(b(i), 0) == nm(ma[i], 0) && typeid(*b(i)) == typeid(*ma[i]), "kind-copy", i); mb.push_back(b(i)); } return true; }
        case 13: { const K& ca = a; SEMBA::Group::Group<const E> c(ca); MC_REQUIRE(c.size() == ma.size(), "kind-size", "constant"); for (size_t i = 0; i < ma.size(); i++) MC_CHECK(c(i) == ma[i], "kind-item", i); return true; }
        case 14: { K c(a); K d(std::move(c)); same(d, ma, "moved copy"); c = d; same(c, ma, "assigned copy"); return true; }
        }
        return false;
    }
    static void all(const char* name, std::function<E*(size_t)> make) {
        for (unsigned d = 1; d <= mc::pick(4u, 5u); d++) mc::sequences(N, d, [&](const std::vector<unsigned>& s) {
            if (s[0] > 1) return;   // (on empty groups nothing can differ)
            mc::run([=] { return Str2(name) + mc::vec(s); }, [&] {
                Kinds k; k.make = make;
                for (unsigned o : s) { if (!k.op(o)) return; mc::step(); }
                same(k.a, k.ma, "A"); same(k.b, k.mb, "B"); same(k.p, k.mp, "plain");
                mc::state(Str2(name) + std::to_string(k.ma.size()) + "/" + std::to_string(k.mb.size()) + "/" + std::to_string(k.mp.size()));
            });
        });
    }
};
static void kinds() {
    static const CoordR3 at(CoordId(1), Math::CVecR3(0.0)); static const CoordR3* v[2] = {&at, &at};
    Kinds<Element::Group<ElemR>, ElemR>::all("elements ", [](size_t i) -> ElemR* { if (i % 2) return new NodR(ElemId(i), v); return new LinR2(ElemId(i), v); });
    Kinds<PhysicalModel::Group<>, PhysicalModel::PhysicalModel>::all("models ", [](size_t i) -> PhysicalModel::PhysicalModel* { if (i % 2) return new PhysicalModel::Predefined::PEC(PhysicalModel::Id(i)); return new PhysicalModel::Volume::Classic(PhysicalModel::Id(i), "m", 2.0, 1.0, 0.0, 0.0); });
    Kinds<Layer::Group<>, L>::all("layers ", [](size_t i) { return new L(LayerId(i), "layer" + std::to_string(i)); });
    Kinds<Source::Group<>, Source::Base>::all("sources ", [](size_t i) -> Source::Base* { if (i % 2) return new Source::PlaneWave(new Source::Magnitude::Magnitude(new Math::Function::Gaussian(1.0, 0.0, 1.0)), Element::Group<Vol>(), (Math::Int)i, 0.5); return new Source::Generator(new Source::Magnitude::Magnitude(new Math::Function::Gaussian(1.0, 0.0, 1.0)), Element::Group<Nod>(), Source::Generator::voltage, Source::Generator::hard); });
    Kinds<OutputRequest::Group<>, OutputRequest::Base>::all("requests ", [](size_t i) -> OutputRequest::Base* { if (i % 2) return new OutputRequest::OutputRequest<Elem>(OutputRequest::Domain(), OutputRequest::Base::electric, "r" + std::to_string(i), Element::Group<Elem>()); return new OutputRequest::FarField(OutputRequest::Domain(), "far" + std::to_string(i), Element::Group<Vol>(), 0, 1, 1, 0, 1, 1); });
}

// groups of every size on a ladder, with ids of every magnitude
static size_t idOf(int pattern, size_t i, size_t n) {
    switch (pattern) {
    case 0: return i + 1;
    case 1: return n - i;
    case 2: return 7 * i + 3;
    case 3: return 65530 + i;
    case 4: return 2147483640u + (n - i);
    case 5: return 4294967290u + i;
    default: return i % 2 ? 1000000 + i : 1 + i;
    }
}
static void sizes() {
    std::vector<size_t> ns; for (size_t n = 1; n <= (size_t) mc::pick(34, 70); n++) ns.push_back(n);
    for (size_t n : {64, 65, 100, 128, 129, 257}) if (n > ns.back()) ns.push_back(n);
    for (size_t n : ns) for (int pat = 0; pat < 7; pat++) mc::run([=] { return MC_STR("group of " << n << " with ids " << idOf(pat, 0, n) << ", " << (n > 1 ? idOf(pat, 1, n) : 0) << ".. "); }, [=] {
        live = 0;
        {
            World w; std::vector<size_t> ids; for (size_t i = 0; i < n; i++) ids.push_back(idOf(pat, i, n));
            if (pat % 2) { for (size_t i : ids) w.add({i}, true); } else w.add(ids, false);
            auto full = [&](const char* what) { compare(w.a, w.ma, what); mc::step(); for (auto& i : w.ma) { MC_REQUIRE(w.a.existId(LayerId(i.id)) && w.a.getId(LayerId(i.id)) == i.ptr, "id-lookup", what << " id " << i.id); }
                std::vector<LayerId> v; for (size_t i = w.ma.size(); i-- > 0;) if (i % 3 != 1) v.push_back(LayerId(w.ma[i].id));
                auto s = w.a.getId(v); size_t k = 0; MC_REQUIRE(s.size() == v.size(), "select-ids-size", s.size()); for (size_t i = 0; i < w.ma.size(); i++) if (i % 3 != 1) MC_CHECK(s(k++) == w.ma[i].ptr, "select-ids", what << i); };
            full("built");
            for (size_t i : {size_t(0), n / 2, n - 1}) w.add({ids[i]}, true);       // taken
            full("refused");
            G c = w.a; Model mc0 = w.ma;
            w.addId(3, false); w.addId(1, true); full("numbered");
            MC_CHECK(w.a.getId(LayerId(w.ma.back().id)) == w.ma.back().ptr, "auto-id-found", "");
            // one position after another, from a copy each time
            for (size_t i = 0; i < n; i += (n > 40 ? n / 5 : 1)) { World x; x.a = w.a; x.ma = w.ma; x.n = w.n; x.removePos({i}, true); compare(x.a, x.ma, "one removed"); for (auto& q : x.ma) MC_REQUIRE(x.a.getId(LayerId(q.id)) == q.ptr, "id-lookup", "after removing " << i);
                MC_CHECK(!x.a.existId(LayerId(w.ma[i].id)), "removed-id-left", i); x.add({w.ma[i].id}, true); compare(x.a, x.ma, "put back"); }
            std::vector<size_t> odd; for (size_t i = 1; i < w.ma.size(); i += 2) odd.push_back(i);
            w.removePos(odd, false); full("odd ones removed");
            std::vector<size_t> gone; for (size_t i = 0; i < w.ma.size(); i += 3) gone.push_back(w.ma[i].id);
            w.removeId(gone, false); if (!w.ma.empty()) full("ids removed");
            w.addId(2, false); full("numbered again");
            compare(c, mc0, "copy"); 
            G e; e = w.a.cloneElems(); MC_REQUIRE(e.size() == w.ma.size(), "clone-size", ""); for (size_t i = 0; i < e.size(); i++) MC_CHECK(e(i) != w.ma[i].ptr && e(i)->getId() == w.a(i)->getId() && e.getId(e(i)->getId()) == e(i), "clone", i);
            mc::state(render(w.ma)); mc::outcome("sizes");
        }
        MC_CHECK(live == 0, "leak", live << " items left");
    });
}
static void body() {
    types(); kinds(); sizes();
    for (unsigned d = 1; d <= mc::pick(4u, 5u); d++) mc::sequences(26, d, run);
}
int main(int c, char** v) { return mc::main_(c, v, body); }
