// P24: solver and mesher options read from settings.
#include "mc.h"
#include "argument/Parser.h"
#include "solver/Options.h"
#include "mesher/Options.h"
#include "geometry/BoundTerminations.h"
#include "physicalModel/PhysicalModel.h"
using namespace SEMBA;
typedef Argument::Object Obj;
typedef std::string Str;

// ------------------------------------------------------------- solver
struct SV { bool has[10] = {}; int v[10] = {}; };           // which key, which of its values
static const char* sk[10] = {"runSimulation", "finalTime", "numberOfTimeSteps", "timeStep", "cfl", "defaultSamplingPeriod", "forceRestarting", "resumeSimulation", "flush", "additionalArguments"};
static const double sv[10][3] = {{0, 1, 0}, {0.75, 0, 1e-6}, {50, 0, 3}, {0.25, 2, 1e-13}, {0.5, 0.9, 1}, {0.125, 0, 7}, {1, 0, 1}, {1, 0, 1}, {60, 0, 0.5}, {0, 1, 2}};
static const char* args[3] = {"-a", "-x 1 -y", "word"};
static bool isB(int k) { return k == 0 || k == 6 || k == 7; }
static Obj mk(const SV& s, bool reverse) {
    Obj o; o.setObject();
    for (int n = 0; n < 10; n++) {
        int k = reverse ? 9 - n : n;
        if (!s.has[k]) continue;
        if (isB(k)) o(sk[k]).setBool(sv[k][s.v[k]]);
        else if (k == 2) o(sk[k]).setInt(sv[k][s.v[k]]);
        else if (k == 9) o(sk[k]).setString(args[s.v[k]]);
        else o(sk[k]).setReal(sv[k][s.v[k]]);
    }
    return o;
}
struct Ref {                                               // what the options hold
    bool run = true, force = false, resume = false, steps = false;
    double fin = 0, dt = 0, cfl = 0.8, per = 0, flush = 0; Str extra;
    void set(const SV& s) {
        if (s.has[0]) run = sv[0][s.v[0]];
        if (s.has[1]) { fin = sv[1][s.v[1]]; steps = false; }
        if (s.has[2]) { fin = sv[2][s.v[2]]; steps = true; }
        if (s.has[3]) dt = sv[3][s.v[3]];
        if (s.has[4]) cfl = sv[4][s.v[4]];
        if (s.has[5]) per = sv[5][s.v[5]];
        if (s.has[6]) force = sv[6][s.v[6]];
        if (s.has[7]) resume = sv[7][s.v[7]];
        if (s.has[8]) flush = sv[8][s.v[8]];
        if (s.has[9]) extra = args[s.v[9]];
    }
};
static Str describe(const SV& s) {
    Str r; for (int k = 0; k < 10; k++) if (s.has[k]) r += MC_STR(" " << sk[k] << "=" << (k == 9 ? Str(args[s.v[k]]) : MC_STR(sv[k][s.v[k]])));
    return r.empty() ? " nothing" : r;
}
static void compare(const Solver::Options& o, const Ref& r) {
    mc::step();
    MC_CHECK(o.isRunSimulation() == r.run, "run", o.isRunSimulation());
    MC_CHECK(o.isForceRestarting() == r.force, "force-restarting", o.isForceRestarting());
    MC_CHECK(o.isResumeSimulation() == r.resume, "resume", o.isResumeSimulation());
    MC_CHECK(o.getTimeStep() == r.dt, "time-step", o.getTimeStep() << " expected " << r.dt);
    MC_CHECK(o.getCFL() == r.cfl, "cfl", o.getCFL() << " expected " << r.cfl);
    MC_CHECK(o.getSamplingPeriod() == r.per, "sampling-period", o.getSamplingPeriod() << " expected " << r.per);
    MC_CHECK(o.getFlush() == r.flush, "flush", o.getFlush() << " expected " << r.flush);
    MC_CHECK(o.getAdditionalArguments() == r.extra, "additional-arguments", o.getAdditionalArguments());
    double ft = r.steps ? r.fin * r.dt : r.fin;
    MC_CHECK(mc::near(o.getFinalTime(), ft, 1e-15), "final-time", o.getFinalTime() << " expected " << ft);
    double q = r.dt == 0 ? 0 : r.fin / r.dt;
    bool exact = r.steps || std::fabs(q - std::round(q)) < 1e-15 || std::fabs(q - std::round(q)) > std::max(1e-9, q * 1e-15);
    size_t n = r.steps ? (size_t)r.fin : r.dt == 0 ? 0 : (size_t)std::ceil(q);
    if (exact) MC_CHECK(o.getNumberOfTimeSteps() == n, "number-of-time-steps", o.getNumberOfTimeSteps() << " expected " << n);
    std::map<Str, Str> want, got;
    if (r.cfl != 0.8) want["-cfl"] = MC_STR(std::setprecision(6) << r.cfl);
    if (r.resume) want["-r"] = std::to_string(r.steps ? (size_t)r.fin : (size_t)std::floor(r.dt == 0 ? r.fin : q));
    if (r.force) want["-s"] = "";
    if (r.flush != 0) want["-flush"] = MC_STR(std::setprecision(6) << r.flush);
    std::istringstream in(o.toArgsStr()); Str w, last;
    while (in >> w) if (w[0] == '-') { last = w; got[w]; } else got[last] = w;
    if (exact) MC_CHECK(got == want, "arguments", o.toArgsStr());
    mc::state(MC_STR(o.toStr() << o.getNumberOfTimeSteps()));
}
static void solver() {
    for (int mask = 0; mask < 1024; mask++) for (int var = 0; var < mc::pick(3, 9); var++) {
        SV s; for (int k = 0; k < 10; k++) { s.has[k] = mask >> k & 1; s.v[k] = var < 3 ? var : (k * var + var / 3 + k / 2) % 3; }
        mc::run([=] { return "solver options:" + describe(s); }, [&] {
            for (int rev = 0; rev < 2; rev++) {
                Solver::Options o; Ref r;
                compare(o, r);
                const Obj set = mk(s, rev);
                o.set(set); r.set(s);
                compare(o, r);
                mc::outcome("solver options read");
                Solver::Options c(o), a; a = o;
                compare(c, r); compare(a, r);
                // read a second time other settings on top of them
                for (int k = 0; k < 10; k++) for (int v = 0; v < 3; v++) {
                    SV t; t.has[k] = true; t.v[k] = v;
                    Solver::Options p(o); Ref q = r;
                    p.set(mk(t, false)); q.set(t);
                    compare(p, q);
                }
                compare(o, r);
                for (int k = 0; k < 10; k++) MC_CHECK(set.existsName(sk[k]) == s.has[k], "settings-changed", sk[k]);
            }
        });
    }
    // unknown names are ignored, refused values refused
    for (int k = 0; k < 10; k++) for (int bad = 0; bad < 5; bad++)
        mc::run([=] { return MC_STR("solver options: " << sk[k] << (bad == 0 ? " negative" : bad == 1 ? " = word" : bad == 2 ? " null" : bad == 3 ? " misspelt" : " in upper case")); }, [&] {
            Obj o; o.setObject();
            Str name = sk[k];
            if (bad == 0) { if (k != 2) return; o(name).setInt(-1); }
            if (bad == 1) { if (k == 9) return; o(name).setString("word"); }
            if (bad == 2) o(name).setNull();
            if (bad == 3) o(name + "s").setReal(1);
            if (bad == 4) { for (auto& c : name) c = toupper(c); if (name == sk[k]) return; o(name).setReal(1); }
            Solver::Options x;
            bool threw = MC_THROWS(x.set(o));
            MC_CHECK(threw == (bad < 2), "refusal", (threw ? "refused" : "accepted"));
            mc::outcome(threw ? "solver options refused" : "solver options read");
            compare(x, Ref());
        });
    // step counts
    for (int n = 0; n <= mc::pick(64, 1000); n++) for (double dt : {0.0, 0.7, 0.1, 1e-12, 0.25, 3.3e-9, 2e-15})
        mc::run([=] { return MC_STR(n << " steps of " << dt); }, [&] {
            Solver::Options o; Ref r; r.steps = true; r.fin = n; r.dt = dt; r.resume = true;
            o.setNumberOfTimeSteps(n); o.setTimeStep(dt); o.setResumeSimulation(true);
            compare(o, r);
            MC_CHECK(o.getNumberOfTimeSteps() == size_t(n), "number-of-time-steps", o.getNumberOfTimeSteps());
        });
    for (int n = 0; n <= 40; n++) for (int q = 1; q <= 9; q++)
        mc::run([=] { return MC_STR("final time " << n << "/4 in steps of " << q << "/8"); }, [&] {
            Solver::Options o; o.setFinalTime(n / 4.); o.setTimeStep(q / 8.);
            size_t want = (2 * n + q - 1) / q;                  // least count that reaches the end
            MC_CHECK(o.getNumberOfTimeSteps() == want, "number-of-time-steps", o.getNumberOfTimeSteps() << " expected " << want);
            // whatever ended it before
            Solver::Options b; Ref r; r.dt = q / 8.; b.setTimeStep(r.dt);
            b.setNumberOfTimeSteps(7); r.steps = true; r.fin = 7; compare(b, r);
            b.setFinalTime(n / 4.); r.steps = false; r.fin = n / 4.; compare(b, r);
            b.setResumeSimulation(true); r.resume = true; compare(b, r);
            b.setNumberOfTimeSteps(n); r.steps = true; r.fin = n; compare(b, r);
        });
    // solver information
    for (int a = 0; a < 64; a++) for (int b = 0; b < 64; b++)
        mc::run([=] { return MC_STR("solver settings " << a << " and " << b); }, [&] {
            const char* nm[3] = {"x", "y", "z"};
            Obj p, q; p.setObject(); q.setObject();
            for (int i = 0; i < 3; i++) { if (a >> 2 * i & 3) p(nm[i]).setInt((a >> 2 * i & 3)); if (b >> 2 * i & 3) q(nm[i]).setInt(10 + (b >> 2 * i & 3)); }
            Solver::Info i("name", p);
            Solver::Info s = i + q, c(s), m(std::move(c)), e; e.setSettings(s.getSettings()); e.setName("other");
            const Solver::Info* all[3] = {&s, &m, &e};
            for (int w = 0; w < 3; w++) {
                MC_CHECK(all[w]->getName() == (w == 2 ? "other" : "name"), "solver-name", all[w]->getName());
                for (int k = 0; k < 3; k++) {
                    int x = a >> 2 * k & 3, y = b >> 2 * k & 3, want = y ? 10 + y : x;
                    const Obj& g = all[w]->getSettings();
                    MC_CHECK(g.existsName(nm[k]) == (want > 0) && (want == 0 || g(nm[k]).getInt() == want), "solver-settings", nm[k]);
                }
            }
            for (int k = 0; k < 3; k++) MC_CHECK(i.getSettings().existsName(nm[k]) == ((a >> 2 * k & 3) > 0), "settings-changed", nm[k]);
            mc::step(4); mc::outcome("solver information joined");
        });
}
// ------------------------------------------------------------- mesher
static const char* mb[8] = {"contourRefinement", "snap", "unwantedConnectionsInfo", "structuredCellsInfo", "vtkExport", "postmshExport", "postsmbExport", "slantedWires"};
static const bool mbDef[8] = {false, false, false, false, false, true, false, false};
static const char* mr[4] = {"slantedThreshold", "forbiddenLength", "geometryScalingFactor", "subgridPoints"};
static const double mrDef[4] = {1, 1, 1, 0};
static const char* bn[6] = {"lowerXBound", "upperXBound", "lowerYBound", "upperYBound", "lowerZBound", "upperZBound"};
static const char* bt[6] = {"PEC", "PMC", "PML", "Periodic", "MUR1", "MUR2"};
static const char* mo[4] = {"Structured", "Relaxed", "Slanted", "Conformal"};
static const char* me[3] = {"AMesher", "DMesher", "HMesher"};
struct MR { int b[8]; double r[4]; int mode = 0, mesher = 1, bound[6]; MR() { for (int i = 0; i < 8; i++) b[i] = mbDef[i]; for (int i = 0; i < 4; i++) r[i] = mrDef[i]; for (int& x : bound) x = -1; } };
static void compare(const Mesher::Options& o, const MR& r) {
    mc::step();
    bool b[8] = {o.isContourRefinement(), o.isSnap(), o.isUnwantedConnectionsInfo(), o.isStructuredCellsInfo(), o.isVtkExport(), o.isPostmshExport(), o.isPostsmbExport(), o.isSlanted()};
    for (int i = 0; i < 8; i++) MC_CHECK(b[i] == bool(r.b[i]), "switch", mb[i] << " is " << b[i]);
    double x[4] = {o.getSlantedThreshold(), o.getForbiddenLength(), o.getScalingFactor(), double(o.getSubgridPoints())};
    for (int i = 0; i < 4; i++) MC_CHECK(x[i] == r.r[i], "number", mr[i] << " is " << x[i] << " expected " << r.r[i]);
    MC_CHECK(int(o.getMode()) == r.mode, "mode", int(o.getMode()) << " expected " << r.mode);
    MC_CHECK(o.isStructured() == (r.mode == 0) && o.isRelaxed() == (r.mode == 1 || r.mode == 2), "mode-kind", o.isStructured() << o.isRelaxed());
    MC_CHECK(int(o.getMesher()) == r.mesher, "mesher", int(o.getMesher()) << " expected " << r.mesher);
    for (int i = 0; i < 6; i++) {
        Str want = r.bound[i] < 0 ? "Undefined" : bt[r.bound[i]], got = Mesher::Options::toStr(o.getBoundTermination(i / 2, i % 2));
        MC_CHECK(got == want, "bound", bn[i] << " is " << got << " expected " << want);
        const Geometry::Bound* bnd = o.getBoundTerminations()(i / 2, i % 2);
        MC_CHECK((bnd == nullptr) == (r.bound[i] < 0), "bounds", bn[i]);
    }
    MC_CHECK(o.isGridStepSet() == (o.getGridStep() != Math::CVecR3(0.0)), "grid-step", "");
}
struct MK { int k, v; };                                   // key 0-7 switch, 8-11 number, 12 mode, 13 mesher, 14-19 bound
static const int NV[20] = {2,2,2,2,2,2,2,2, 3,3,3,3, 4, 3, 6,6,6,6,6,6};
static const double nums[3] = {0.5, 2, 0};
static Str nameOf(const MK& m) { return m.k < 8 ? mb[m.k] : m.k < 12 ? mr[m.k - 8] : m.k == 12 ? "mode" : m.k == 13 ? "mesher" : bn[m.k - 14]; }
static Str valueOf(const MK& m) { return m.k < 8 ? (m.v ? "1" : "0") : m.k < 12 ? MC_STR((m.k == 11 ? m.v : nums[m.v])) : m.k == 12 ? mo[m.v] : m.k == 13 ? me[m.v] : bt[m.v]; }
static void put(Obj& o, const MK& m) {
    Str n = nameOf(m);
    if (m.k < 8) o(n).setBool(m.v); else if (m.k < 11) o(n).setReal(nums[m.v]); else if (m.k == 11) o(n).setInt(m.v); else o(n).setString(valueOf(m));
}
static void put(MR& r, const MK& m) {
    if (m.k < 8) r.b[m.k] = m.v; else if (m.k < 11) r.r[m.k - 8] = nums[m.v]; else if (m.k == 11) r.r[3] = m.v; else if (m.k == 12) r.mode = m.v; else if (m.k == 13) r.mesher = m.v; else r.bound[m.k - 14] = m.v;
}
static void mesherCase(const std::vector<MK>& ms) {
    mc::run([=] { Str s = "mesher options:"; for (auto& m : ms) s += " " + nameOf(m) + "=" + valueOf(m); return s; }, [&] {
        Obj s; s.setObject(); MR r;
        for (auto& m : ms) { put(s, m); put(r, m); }
        // memory of an earlier object must not show
        alignas(Mesher::Options) unsigned char mem[sizeof(Mesher::Options)];
        for (int fill = 0; fill < 2; fill++) {
            memset(mem, fill ? 0xff : 0x01, sizeof mem);
            Mesher::Options* o = new (mem) Mesher::Options();
            compare(*o, MR());
            o->set(s);
            compare(*o, r);
            Mesher::Options c(*o), a; a = *o;
            compare(c, r); compare(a, r);
            o->~Options();
            compare(c, r); compare(a, r);               // the copies outlive it
            Obj none; none.setObject(); c.set(none); compare(c, r);
        }
        mc::state(MC_STR(ms.size())); mc::outcome("mesher options read");
    });
}
static void mesher() {
    mesherCase({});
    for (int a = 0; a < 20; a++) for (int u = 0; u < NV[a]; u++) {
        mesherCase({MK{a, u}});
        for (int b = a + 1; b < 20; b++) for (int v = 0; v < NV[b]; v++) {
            mesherCase({MK{a, u}, MK{b, v}});
            if (mc::thorough()) for (int c = b + 1; c < 20; c++) for (int w = 0; w < NV[c]; w++) mesherCase({MK{a, u}, MK{b, v}, MK{c, w}});
        }
    }
    for (int m = 0; m < 256; m++) { std::vector<MK> k; for (int i = 0; i < 8; i++) k.push_back(MK{i, m >> i & 1}); mesherCase(k); }
    for (int v = 0; v < 36; v++) for (int without = -1; without < 20; without++) {
        std::vector<MK> k; for (int i = 0; i < 20; i++) if (i != without) k.push_back(MK{i, (v + i * (v / 6)) % NV[i]});
        mesherCase(k);
    }
    // choices that are none
    std::vector<Str> bad = {"", "pec", "PE", "PECC", " PEC", "MUR", "MUR3", "Structured ", "structured", "Relaxe", "DMesher2", "dmesher", "None", "0", "Undefined"};
    for (int k = 12; k < 20; k++) for (auto& b : bad)
        mc::run([=] { return "mesher options: " + nameOf(MK{k, 0}) + "='" + b + "'"; }, [&] {
            Obj s; s.setObject(); s(nameOf(MK{k, 0})).setString(b);
            Mesher::Options o;
            MC_CHECK(MC_THROWS(o.set(s)), "unknown-choice-accepted", "");
            compare(o, MR()); mc::outcome("mesher options refused");
        });
    for (int k = 12; k < 20; k++) for (int j = 12; j < 20; j++) for (int v = 0; v < NV[j]; v++) {
        int kind = k < 14 ? k : 14, kj = j < 14 ? j : 14;
        if (kind == kj) continue;
        mc::run([=] { return "mesher options: " + nameOf(MK{k, 0}) + "=" + valueOf(MK{j, v}); }, [&] {
            Obj s; s.setObject(); s(nameOf(MK{k, 0})).setString(valueOf(MK{j, v}));
            Mesher::Options o;
            MC_CHECK(MC_THROWS(o.set(s)), "unknown-choice-accepted", "");
            compare(o, MR()); mc::outcome("mesher options refused");
        });
    }
    for (int k = 0; k < 12; k++) mc::run([=] { return "mesher options: " + nameOf(MK{k, 0}) + "=word"; }, [&] {
        Obj s; s.setObject(); s(nameOf(MK{k, 0})).setString("word");
        Mesher::Options o;
        MC_CHECK(MC_THROWS(o.set(s)), "wrong-type-accepted", "");
        compare(o, MR()); mc::outcome("mesher options refused");
    });
    // setters
    mc::run([] { return Str("mesher options set one by one"); }, [] {
        for (int i = 0; i < 27; i++) {
            Mesher::Options o; MR r;
            Math::CVecR3 g(i % 3, i / 3 % 3 * 0.5, i / 9);
            o.setGridStep(g); o.setOutputName("out" + std::to_string(i));
            MC_CHECK(o.getGridStep() == g && o.isGridStepSet() == (i > 0), "grid-step", i);
            MC_CHECK(o.getOutputName() == "out" + std::to_string(i), "output-name", o.getOutputName());
            compare(o, r);
        }
        for (int d = 0; d < 3; d++) for (int p = 0; p < 2; p++) {
            Mesher::Options o; MR r;
            o.setBoundTermination(d, p, new PhysicalModel::Bound::PML(MatId(0))); r.bound[2 * d + p] = 2; compare(o, r);
            o.setBoundTermination(d, p, new PhysicalModel::Bound::PEC(MatId(0))); r.bound[2 * d + p] = 0; compare(o, r);
            o.setBoundTermination(d, p, nullptr); r.bound[2 * d + p] = -1; compare(o, r);
        }
    });
    // terminations all at once
    mc::product({3, 3, 3, 3, 3, 3}, [&](const std::vector<unsigned>& k) {
        mc::run([=] { return "terminations " + mc::vec(k); }, [&] {
            typedef std::array<std::array<const Geometry::Bound*, 2>, 3> All;
            auto make = [](unsigned t) -> const Geometry::Bound* { return t == 0 ? nullptr : t == 1 ? (const Geometry::Bound*)new PhysicalModel::Bound::PEC(MatId(0)) : new PhysicalModel::Bound::PML(MatId(0)); };
            All b, n;
            for (int i = 0; i < 6; i++) { b[i / 2][i % 2] = make(k[i]); n[i / 2][i % 2] = make((k[i] + 1) % 3); }
            Geometry::BoundTerminations3 x(b), y, z(x); y = z;
            for (int i = 0; i < 6; i++) {
                MC_CHECK(x(i / 2, i % 2) == b[i / 2][i % 2] && y(i / 2, i % 2) == b[i / 2][i % 2] && z(i / 2, i % 2) == b[i / 2][i % 2], "terminations", bn[i]);
            }
            z.setBounds(n); x = z;
            for (int i = 0; i < 6; i++) {
                MC_CHECK(z(i / 2, i % 2) == n[i / 2][i % 2] && x(i / 2, i % 2) == n[i / 2][i % 2], "terminations-replaced", bn[i]);
                const Geometry::Bound* keep = y(i / 2, i % 2);
                MC_CHECK(keep == b[i / 2][i % 2] && (!keep || keep->getId() == MatId(0)), "terminations-copy", bn[i]);
            }
            mc::step(6); mc::outcome("terminations");
        });
    });
    // the options offered on the command line
    std::vector<Str> words = {"Structured", "Relaxed", "Slanted", "Conformal", "structured", "Struct", "", "1"};
    for (auto& w : words) for (int x = 0; x < 3; x++) mc::run([=] { return "command line --mode '" + w + "'" + (x == 1 ? " --vtkexport --gridstep 1 2.5 3" : x == 2 ? " --length 0.25" : ""); }, [&] {
        Argument::Parser p; Argument::Group& g = p.addGroup("mesher");
        Mesher::Options().addArguments(g);
        std::vector<Str> l = {"EXE", "--mode"}; if (!w.empty()) l.push_back(w);
        if (x == 1) for (auto s : {"--vtkexport", "--gridstep", "1", "2.5", "3"}) l.push_back(s);
        if (x == 2) for (auto s : {"--length", "0.25"}) l.push_back(s);
        bool ok = w == mo[0] || w == mo[1] || w == mo[2] || w == mo[3], threw = false;
        Obj r; try { r = p.parse(l); } catch (const std::exception&) { threw = true; }
        MC_REQUIRE(threw == !ok, "command-line-mode", (threw ? "refused" : "accepted"));
        mc::step(); mc::outcome(threw ? "command line refused" : "command line read");
        if (!threw) {
            const Obj& m = r("mesher");
            MC_CHECK(m("Mode").getString() == w, "command-line-mode", m("Mode").getString());
            MC_CHECK(m.existsName("VTK Export") ? m("VTK Export").getBool() == (x == 1) : x != 1, "command-line-switch", "");
            if (x == 1) MC_CHECK(m("gridstep").getString() == "1 2.5 3", "command-line-step", m("gridstep").getString());
            if (x == 2) MC_CHECK(m("Forbidden length").getReal() == 0.25, "command-line-length", "");
        }
    });
}
static void body() { solver(); mesher(); }
int main(int c, char** v) { return mc::main_(c, v, body); }
