// P23: output requests and their domains.
#include "geo.h"
#include "outputRequest/OutputRequest.h"
#include "outputRequest/BulkCurrent.h"
#include "outputRequest/FarField.h"
#include "outputRequest/Group.h"
using namespace geo;
typedef OutputRequest::Domain Dom;
typedef OutputRequest::Base Req;
typedef std::string Str;

struct D { bool t, f, log, tr; double v[6]; Str file; };
static Dom mk(const D& d) { return Dom(d.t, d.v[0], d.v[1], d.v[2], d.f, d.v[3], d.v[4], d.v[5], d.log, d.tr, d.file); }
static Str file(const D& d) { return d.tr ? d.file : Str(); }
static bool same(const D& a, const D& b) {
    for (int i = 0; i < 6; i++) if (a.v[i] != b.v[i]) return false;
    return a.t == b.t && a.f == b.f && a.log == b.log && a.tr == b.tr && file(a) == file(b);
}
static Str str(const D& d) {
    return MC_STR((d.t ? "time " : "") << (d.f ? "frequency " : "") << (d.log ? "log " : "") << (d.tr ? "transfer " : "") << "(" << d.v[0] << "," << d.v[1] << "," << d.v[2] << ";" << d.v[3] << "," << d.v[4] << "," << d.v[5] << ") '" << d.file << "'");
}
static void compare(const Dom& x, const D& d) {
    mc::step();
    bool ok = x.isTimeDomain() == d.t && x.isFrequencyDomain() == d.f && x.isLogFrequencySweep() == d.log && x.isUsingTransferFunction() == d.tr;
    MC_CHECK(ok, "domain-flags", x.isTimeDomain() << x.isFrequencyDomain() << x.isLogFrequencySweep() << x.isUsingTransferFunction() << " expected " << str(d));
    double g[6] = {x.getInitialTime(), x.getFinalTime(), x.getSamplingPeriod(), x.getInitialFrequency(), x.getFinalFrequency(), x.getFrequencyStep()};
    for (int i = 0; i < 6; i++) MC_CHECK(g[i] == d.v[i], "domain-values", "value " << i << " is " << g[i] << " expected " << d.v[i]);
    MC_CHECK(x.getTransferFunctionFile() == file(d), "domain-file", x.getTransferFunctionFile());
    Dom::Type want = d.t ? (d.f ? (d.tr ? Dom::ALL : Dom::TIFR) : (d.tr ? Dom::TITR : Dom::TIME)) : (d.f ? (d.tr ? Dom::FRTR : Dom::FREQ) : (d.tr ? Dom::TRAN : Dom::NONE));
    MC_CHECK(x.getDomainType() == want, "domain-kind", x.getDomainType() << " expected " << want);
}
static std::vector<D> domains() {
    std::vector<D> r;
    const double val[5][6] = {{0, 0, 0, 0, 0, 0}, {1, 2, 0.5, 1e6, 1e9, 1e7}, {1e-9, 1e-6, 1e-12, 5, 5, 5}, {1, 2, 0.5, 1e6, 1e9, 2e7}, {0, 2, 0.5, 1e6, 1e9, 1e7}};
    for (int f = 0; f < 16; f++) for (int v = 0; v < 5; v++) for (int n = 0; n < 5; n++) {
        D d; d.t = f & 1; d.f = f & 2; d.log = f & 4; d.tr = f & 8; static const char* const names[] = {"other", "tf.txt", "tf.txs", "sf.txt", "tf.tx"}; d.file = names[n];
        for (int i = 0; i < 6; i++) d.v[i] = val[v][i];
        r.push_back(d);
    }
    // and one of them changed in each single value
    for (int i = 0; i < 6; i++) { D d = r[2]; d.v[i] += 0.25; r.push_back(d); }
    return r;
}
static void domain() {
    static std::vector<D> all = domains();
    for (size_t a = 0; a < all.size(); a++) mc::run([=] { return "domain " + str(all[a]); }, [&] {
        const D& d = all[a];
        const Dom x = mk(d);
        compare(x, d);
        mc::state(str(d)); mc::outcome(MC_STR("domain of kind " << x.getDomainType()));
        Dom c(x), e; compare(e, D{false, false, false, false, {0,0,0,0,0,0}, ""});
        compare(c, d);
        for (size_t b = 0; b < all.size(); b++) {
            Dom y = mk(all[b]);
            bool s = same(d, all[b]);
            MC_CHECK((x == y) == s && (y == x) == s, "domain-equality", "with " << str(all[b]) << ": " << (x == y));
            y = x;
            compare(y, d); MC_CHECK(y == x, "domain-assigned-equal", "");
            y = *&y; compare(y, d);
            Dom z = mk(all[b]);
            z.setFinalTime(d.v[1]); z.setSamplingPeriod(d.v[2]);
            D w = all[b]; w.v[1] = d.v[1]; w.v[2] = d.v[2];
            compare(z, w);
        }
        c.setFinalTime(77); c.setSamplingPeriod(78);
        compare(x, d);
    });
}
// ---------------------------------------------------------------- requests
struct World {
    Coordinate::Group<CoordR3> cs; PhysicalModel::Group<> ms; Element::Group<ElemR> es;
    std::vector<const Element::Base*> e;
    World() {
        const double c[8][3] = {{0,0,0},{1,0,0},{1,1,0},{0,1,0},{0,0,1},{1,0,1},{1,1,1},{0,1,1}};
        for (int i = 0; i < 8; i++) cs.add(new CoordR3(Coordinate::Id(i + 1), R3(c[i][0], c[i][1], c[i][2])));
        ms.add(new PhysicalModel::Predefined::PEC(MatId(1), "metal"));
        int types[4] = {NODE, LINE, TRI3, HEX};
        for (int m = 0; m < 2; m++) for (int t = 0; t < 4; t++) {
            std::vector<const CoordR3*> v; for (unsigned i : vertsOf(types[t])) v.push_back(cs(i));
            es.add(makeR(types[t], 1 + t + 4 * m, v, nullptr, m ? ms(0) : nullptr));
        }
        for (int i = 0; i < 8; i++) e.push_back(es(i));
    }
    Element::Group<const Elem> pick(unsigned mask) const { Element::Group<const Elem> r; for (int i = 0; i < 8; i++) if (mask >> i & 1) r.add(dynamic_cast<const Elem*>(e[i])); return r; }
};
static Str targets(const World& w, const Req& r) {
    Element::Group<const Elem> g = r.elems(); Str s;
    for (size_t i = 0; i < g.size(); i++) for (int k = 0; k < 8; k++) if (dynamic_cast<const Element::Base*>(g(i)) == w.e[k]) s += char('0' + k);
    return MC_STR(s << "/" << g.size());
}
static Str targets(unsigned mask) { Str s; int n = 0; for (int k = 0; k < 8; k++) if (mask >> k & 1) { s += char('0' + k); n++; } return MC_STR(s << "/" << n); }
static const D dom1 = {true, false, false, false, {0, 1, 0.5, 0, 0, 0}, ""}, dom2 = {false, true, true, true, {0, 0, 0, 1, 2, 3}, "f"};
enum Kind { GENERIC, BULK, FAR, NKINDS };
struct M { Kind k; Req::Type type; Str name; D d; Str tg; double ang[6]; int dir, skip; };
static Req* make(const World& w, M& m, Kind k, Req::Type type, const Str& name, const D& d, unsigned mask, int par) {
    m.k = k; m.type = type; m.name = name; m.d = d; m.tg = targets(mask); m.dir = par % 3; m.skip = par + 1;
    for (int i = 0; i < 6; i++) m.ang[i] = 0.1 * (i + 1) + par;
    if (k == GENERIC) {
        Element::Group<Elem> g; for (int i = 0; i < 8; i++) if (mask >> i & 1) g.add(const_cast<Elem*>(dynamic_cast<const Elem*>(w.e[i])));
        return new OutRqElem(mk(d), type, name, g);
    }
    if (k == BULK) return new OutputRequest::BulkCurrent(mk(d), name, w.pick(mask), Math::Constants::CartesianAxis(m.dir), m.skip, type);
    Element::Group<Vol> g; for (int i = 0; i < 8; i++) if (mask >> i & 1) g.add(const_cast<Vol*>(dynamic_cast<const Vol*>(w.e[i])));
    return new OutputRequest::FarField(mk(d), name, g, m.ang[0], m.ang[1], m.ang[2], m.ang[3], m.ang[4], m.ang[5]);
}
static void compare(const World& w, const Req& r, const M& m, const char* which = "") {
    mc::step();
    MC_CHECK(r.getName() == m.name, "request-name", which << r.getName() << " expected " << m.name);
    MC_CHECK(r.getType() == m.type, "request-type", which << r.getType() << " expected " << m.type);
    MC_CHECK(targets(w, r) == m.tg, "request-targets", which << targets(w, r) << " expected " << m.tg);
    compare(r.domain(), m.d);
    const auto* b = dynamic_cast<const OutputRequest::BulkCurrent*>(&r);
    const auto* f = dynamic_cast<const OutputRequest::FarField*>(&r);
    MC_REQUIRE((b != nullptr) == (m.k == BULK) && (f != nullptr) == (m.k == FAR), "request-kind", which);
    if (b) MC_CHECK(int(b->getDir()) == m.dir && int(b->getSkip()) == m.skip, "bulk-current", which << int(b->getDir()) << " " << b->getSkip());
    if (f) {
        double g[6] = {f->getInitialTheta(), f->getFinalTheta(), f->getStepTheta(), f->getInitialPhi(), f->getFinalPhi(), f->getStepPhi()};
        for (int i = 0; i < 6; i++) MC_CHECK(g[i] == m.ang[i], "far-field-angles", which << "angle " << i << " is " << g[i]);
    }
    std::ostringstream o; std::streambuf* sb = std::cout.rdbuf(o.rdbuf());
    try { r.printInfo(); } catch (...) { std::cout.rdbuf(sb); throw; }
    std::cout.rdbuf(sb);
    MC_CHECK(o.str().find(m.name) != Str::npos, "printed-name", o.str());
}
static const std::vector<Req::Type> types = {Req::electric, Req::magnetic, Req::electricFieldNormals, Req::magneticFieldNormals, Req::surfaceCurrentDensity, Req::bulkCurrentElectric, Req::bulkCurrentMagnetic, Req::current, Req::voltage, Req::electricFarField};
static void requests() {
    // every kind, type and set of targets
    for (int k = 0; k < NKINDS; k++) for (size_t t = 0; t < types.size(); t++) for (unsigned mask = 0; mask < 256; mask++) {
        if (k == BULK && types[t] != Req::bulkCurrentElectric && types[t] != Req::bulkCurrentMagnetic) continue;
        if (k == FAR && (types[t] != Req::electricFarField || (mask & ~0x88u))) continue;
        mc::run([=] { return MC_STR((k == GENERIC ? "request" : k == BULK ? "bulk current" : "far field") << " of type " << types[t] << " on elements " << targets(mask) << " (4-7 have a material)"); }, [&] {
            World w; M m;
            bool bulk = types[t] == Req::bulkCurrentElectric || types[t] == Req::bulkCurrentMagnetic;
            bool must = k == GENERIC && bulk && (mask & 0xf0);
            Req* r = nullptr; bool threw = false;
            try { r = make(w, m, Kind(k), types[t], "a name", mask % 2 ? dom1 : dom2, mask, mask % 5); } catch (const OutputRequest::Error::Material&) { threw = true; }
            mc::outcome(threw ? "bulk current on a material refused" : "request made");
            MC_REQUIRE(threw == must, "bulk-current-on-material", (threw ? "refused" : "accepted"));
            if (!r) return;
            compare(w, *r, m);
            mc::state(MC_STR(k << t << m.tg));
            delete r;
        });
    }
    // every history of three changes to a request and its copy
    const int NOPS = 10;
    auto opName = [](unsigned o) -> const char* { static const char* n[] = {"rename", "later final time", "sampling", "other domain", "set targets", "no targets", "add a target", "clone and go on with the clone", "copy and go on with the original", "put in a group, copy the group"}; return n[o]; };
    for (int k = 0; k < NKINDS; k++) for (unsigned n = 0; n <= mc::pick(3u, 4u); n++) mc::sequences(NOPS, n, [&](const std::vector<unsigned>& seq) {
        mc::run([=] { Str s = k == GENERIC ? "request:" : k == BULK ? "bulk current:" : "far field:"; for (unsigned o : seq) s += Str(" ") + opName(o) + ","; return s; }, [&] {
            World w;
            std::vector<std::pair<Req*, M>> live; M m;
            Req* r = make(w, m, Kind(k), k == FAR ? Req::electricFarField : k == BULK ? Req::bulkCurrentMagnetic : Req::electric, "start", dom1, 8, 2);
            live.push_back(std::make_pair(r, m));
            size_t cur = 0;
            std::vector<OutputRequest::Group<>*> groups;
            int at = 0;
            for (unsigned o : seq) {
                at++;
                Req* x = live[cur].first; M& y = live[cur].second;
                switch (o) {
                case 0: y.name = MC_STR("name " << at); x->setName(y.name); break;
                case 1: y.d.v[1] = 10 + at; x->domain().setFinalTime(10 + at); break;
                case 2: y.d.v[2] = 20 + at; x->domain().setSamplingPeriod(20 + at); break;
                case 3: y.d = dom2; x->domain() = mk(dom2); break;
                case 4: y.tg = targets(0x80); x->set(w.pick(0x80)); break;
                case 5: y.tg = targets(0); x->set(w.pick(0)); break;
                case 6: {
                    unsigned cand = y.tg.find('3') == Str::npos ? 3 : 7;
                    if (y.tg.find(char('0' + cand)) != Str::npos && y.tg.find('/') > y.tg.find(char('0' + cand))) break;
                    x->add(w.pick(1u << cand));
                    size_t s = y.tg.find('/'); y.tg = y.tg.substr(0, s) + char('0' + cand) + "/" + std::to_string(s + 1);
                    break; }
                case 7: case 8: {
                    Req* c = dynamic_cast<Req*>(x->clone());
                    MC_REQUIRE(c && c != x, "clone", "");
                    live.push_back(std::make_pair(c, M(y)));
                    if (o == 7) cur = live.size() - 1;
                    break; }
                default: {
                    OutputRequest::Group<> g; std::vector<Req*> own;
                    for (auto& l : live) { Req* c = dynamic_cast<Req*>(l.first->clone()); g.add(c); }
                    OutputRequest::Group<>* h = g.clone();
                    MC_REQUIRE(h->size() == live.size(), "group-copy", h->size());
                    for (size_t i = 0; i < live.size(); i++) {
                        MC_CHECK((*h)(i) != g(i), "group-copy", "shares an element");
                        compare(w, *(*h)(i), live[i].second, "copied group: ");
                        g(i)->setName("changed"); g(i)->domain().setFinalTime(-1);
                        compare(w, *(*h)(i), live[i].second, "copied group after change: ");
                    }
                    delete h; }
                }
                for (auto& l : live) compare(w, *l.first, l.second);
            }
            // originals and copies live apart
            for (size_t i = 0; i < live.size(); i++) {
                delete live[i].first; 
                for (size_t j = i + 1; j < live.size(); j++) compare(w, *live[j].first, live[j].second);
            }
            mc::outcome("history");
        });
    });
}
// many targets, long names, large and tiny values
static void sizes() {
    for (int e = -300; e <= 300; e += mc::pick(25, 5)) for (int sign = -1; sign <= 1; sign += 2) mc::run([=] { return MC_STR("domain and angles of size " << sign << "e" << e); }, [&] {
        const double x = sign * std::pow(10.0, e);
        for (int f = 0; f < 16; f++) {
            D d; d.t = f & 1; d.f = f & 2; d.log = f & 4; d.tr = f & 8; d.file = "some/file.txt";
            for (int i = 0; i < 6; i++) d.v[i] = x * (1 + i / 7.0);
            compare(mk(d), d);
            Dom y(mk(d)), z; z = y; compare(z, d); MC_CHECK(y == z, "domain-equality", "");
            for (int i = 0; i < 6; i++) {
                D o = d; o.v[i] = std::nextafter(d.v[i], 0.0);
                MC_CHECK(!(mk(o) == mk(d)), "domain-equality", "value " << i << " the nearest other number");
            }
            z.setFinalTime(-x); z.setSamplingPeriod(x / 2); d.v[1] = -x; d.v[2] = x / 2; compare(z, d);
        }
        World w;
        OutputRequest::FarField r(mk(dom1), "far", Element::Group<Vol>(), x, 2 * x, 3 * x, 4 * x, 5 * x, 6 * x);
        const auto* c = dynamic_cast<const OutputRequest::FarField*>(dynamic_cast<Req*>(r.clone()));
        double g[6] = {c->getInitialTheta(), c->getFinalTheta(), c->getStepTheta(), c->getInitialPhi(), c->getFinalPhi(), c->getStepPhi()};
        for (int i = 0; i < 6; i++) MC_CHECK(g[i] == (i + 1) * x, "far-field-angles", "angle " << i << " is " << g[i]);
        delete c;
        mc::outcome("magnitude");
    });
    std::vector<int> ns; for (int n = 0; n <= mc::pick(20, 40); n++) ns.push_back(n);
    for (int n : {63, 64, 65, 100, 127, 128, 129, 257, 1000}) ns.push_back(n);
    for (int n : ns) for (int k = 0; k < NKINDS; k++) for (int bad = -1; bad < 3; bad++) {
        // bad: no element has a material, or the first, middle or last one
        if (bad >= 0 && (n == 0 || k != GENERIC)) continue;
        mc::run([=] { return MC_STR((k == GENERIC ? "request" : k == BULK ? "bulk current" : "far field") << " on " << n << " elements" << (bad < 0 ? "" : bad == 0 ? ", the first with a material" : bad == 1 ? ", the middle one with a material" : ", the last with a material")); }, [&] {
            World w;
            Element::Group<ElemR> own; std::vector<const Element::Base*> e;
            const int at = bad < 0 ? -1 : bad == 0 ? 0 : bad == 1 ? n / 2 : n - 1;
            for (int i = 0; i < n; i++) {
                int t = k == FAR ? HEX : i % 3 == 0 ? NODE : i % 3 == 1 ? LINE : TRI3;
                std::vector<const CoordR3*> v; for (unsigned j : vertsOf(t)) v.push_back(w.cs(j));
                own.add(makeR(t, 2 + 3 * i, v, nullptr, i == at ? w.ms(0) : nullptr)); e.push_back(own(i));
            }
            const Str name(n, 'n');
            const D d = {true, true, false, true, {0, 1, 0.5, 2, 3, 4}, Str(n, 'f')};
            Req* r = nullptr; bool threw = false;
            try {
                if (k == GENERIC) { Element::Group<Elem> g; for (auto x : e) g.add(const_cast<Elem*>(dynamic_cast<const Elem*>(x))); r = new OutRqElem(mk(d), Req::bulkCurrentElectric, name, g); }
                else if (k == BULK) { Element::Group<const Elem> g; for (auto x : e) g.add(dynamic_cast<const Elem*>(x)); r = new OutputRequest::BulkCurrent(mk(d), name, g, Math::Constants::y, n); }
                else { Element::Group<Vol> g; for (auto x : e) g.add(const_cast<Vol*>(dynamic_cast<const Vol*>(x))); r = new OutputRequest::FarField(mk(d), name, g, 1, 2, 3, 4, 5, 6); }
            } catch (const OutputRequest::Error::Material&) { threw = true; }
            MC_REQUIRE(threw == (bad >= 0), "bulk-current-on-material", (threw ? "refused" : "accepted"));
            mc::outcome(threw ? "bulk current on a material refused" : "request made");
            if (!r) return;
            auto see = [&](const Req& q, int from, int count) {
                mc::step();
                MC_CHECK(q.getName() == name, "request-name", q.getName().size());
                compare(q.domain(), d);
                Element::Group<const Elem> g = q.elems();
                bool ok = int(g.size()) == count;
                for (int i = 0; ok && i < count; i++) ok = dynamic_cast<const Element::Base*>(g(i)) == e[from + i];
                MC_CHECK(ok, "request-targets", g.size() << " targets expected " << count);
                const auto* b = dynamic_cast<const OutputRequest::BulkCurrent*>(&q);
                if (b) MC_CHECK(b->getDir() == Math::Constants::y && int(b->getSkip()) == n, "bulk-current", b->getSkip());
            };
            see(*r, 0, n);
            Req* c = dynamic_cast<Req*>(r->clone());
            r->setName("other"); r->set(Element::Group<const Elem>());
            see(*c, 0, n);
            MC_CHECK(r->elems().empty(), "request-targets", r->elems().size());
            // half of them set, the other half added one by one
            Element::Group<const Elem> g; for (int i = 0; i < n / 2; i++) g.add(dynamic_cast<const Elem*>(e[i]));
            c->set(g); see(*c, 0, n / 2);
            for (int i = n / 2; i < n; i++) { Element::Group<const Elem> o; o.add(dynamic_cast<const Elem*>(e[i])); c->add(o); }
            see(*c, 0, n);
            delete r; see(*c, 0, n);
            // and that many requests in a group
            OutputRequest::Group<> many; 
            for (int i = 0; i < std::min(n, 130); i++) { Req* q = dynamic_cast<Req*>(c->clone()); q->setName(MC_STR("request " << i)); q->domain().setFinalTime(i); many.add(q); }
            OutputRequest::Group<>* h = many.clone(); OutputRequest::Group<> a; a = many;
            for (size_t i = 0; i < many.size(); i++) { many(i)->setName("x"); many(i)->domain().setFinalTime(-1); }
            MC_REQUIRE(h->size() == many.size() && a.size() == many.size(), "group-copy", h->size());
            for (size_t i = 0; i < many.size(); i++) MC_CHECK((*h)(i)->getName() == MC_STR("request " << i) && (*h)(i)->domain().getFinalTime() == double(i), "group-copy", (*h)(i)->getName());
            delete h; delete c;
        });
    }
}
static void body() { domain(); requests(); sizes(); }
int main(int c, char** v) { return mc::main_(c, v, body); }
