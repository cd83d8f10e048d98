// P28: the problem described in the GiD front end is the problem the library reads.
#include "gid.h"
#include "docs.h"
#include "solver/Options.h"
#include "mesher/Options.h"
#include "geometry/BoundTerminations.h"

using namespace gid; using namespace prob; namespace Solver = SEMBA::Solver; namespace Mesher = SEMBA::Mesher; typedef SEMBA::Data Data;
using prob::nums;
typedef std::vector<std::pair<Str, Str>> Answers;
static std::vector<Form> prb, cnd, mat;
static std::unique_ptr<Template> tpl;
static void load() { if (tpl) return; prb = readForms(dir() + "/semba.prb"); cnd = readForms(dir() + "/semba.cnd"); mat = readForms(dir() + "/semba.mat"); tpl.reset(new Template(dir() + "/semba.bas")); }
static J N(const Str& s) { return J::num(s); }
static J B(const Str& s) { return J::boolean(s != "0"); }

// ---- what a project means
static J magnitude(Form& f) {
    Str t = f.get("Magnitude");
    if (t == "File") return J::obj({{"type", "File"}, {"filename", f.get("File")}});
    J m = J::obj({{"type", t}, {"frequencyMaximum", N(f.get("Frequency_maximum"))}}); if (t == "Band_limited") m.set("frequencyMinimum", N(f.get("Frequency_minimum")));
    return m;
}
static J domain(Form& f) {
    J d = J::obj(); Str w = f.get("Domain");
    if (w != "Frequency") d.set("initialTime", N(f.get("Initial_time"))).set("finalTime", N(f.get("Final_time"))).set("samplingPeriod", N(f.get("Sampling_period")));
    if (w != "Time") {
        d.set("initialFrequency", N(f.get("Initial_Frequency"))).set("finalFrequency", N(f.get("Final_Frequency"))).set("frequencyStep", N(f.get("Frequency_step"))).set("logFrequencySweep", B(f.get("Log_frequency_sweep")));
        if (f.get("Use_transfer_function") == "1") d.set("transferFunctionFile", f.get("Transfer_function_file"));
    }
    return d;
}
static Str braces(const Str& s) { return "{" + s + "}"; }
static J material(Project& p, const Mat& m0) {
    Mat m = m0; Form& f = m.f; Str t = f.get("TypeId");
    J j = J::obj({{"materialId", m.id}, {"name", m.name}});
    auto ask = [&](const char* key, const char* q) { j.set(key, N(f.get(q))); };
    Str ax = t == "PML" || t == "Anisotropic" ? f.get("Local_Axes") == "-GLOBAL-" ? "{0.0 0.0 0.0} {0.0 0.0 0.0}" : p.axes : "";
    if (t.find("Conn_") == 0) {
        j.set("materialType", "Connector").set("connectorType", t);
        if (t == "Conn_dispersive") j.set("filename", f.get("File")); else if (t != "Conn_short" && t != "Conn_open") { ask("resistance", "Resistance"); ask("inductance", "Inductance"); ask("capacitance", "Capacitance"); }
        return j;
    }
    j.set("materialType", t);
    if (t == "PML") j.set("localAxes", ax);
    if (t == "Classic") { ask("permittivity", "Permittivity"); ask("permeability", "Permeability"); ask("electricConductivity", "ElecCond"); ask("magneticConductivity", "MagnCond"); }
    if (t == "Dispersive") j.set("filename", f.get("File"));
    if (t == "Thin_gap") ask("width", "Width");
    if (t == "Anisotropic") {
        j.set("localAxes", ax).set("anisotropicModel", f.get("Anisotropic_model"));
        if (f.get("Anisotropic_model") == "Crystal") { j.set("relativePermittivityPrincipalAxes", f.get("Relative_permittivity_principal_axes")); ask("crystalRelativePermeability", "Crystal_relative_permeability"); }
        else { ask("kappa", "Kappa"); ask("ferriteRelativePermeability", "Ferrite_relative_permeability"); ask("ferriteRelativePermittivity", "Ferrite_relative_permittivity"); }
    }
    if (t == "Wire") {
        Str w = f.get("WireType"); ask("radius", "Radius"); j.set("wireType", w);
        if (w == "Dispersive") j.set("filename", f.get("File")); else { ask("resistance", "Resistance"); ask("inductance", "Inductance"); }
        if (w == "SeriesParallel") { ask("capacitance", "Capacitance"); ask("parallelResistance", "Parallel_Resistance"); ask("parallelInductance", "Parallel_Inductance"); ask("parallelCapacitance", "Parallel_Capacitance"); }
    }
    if (t == "SIBC") {
        j.set("surfaceType", f.get("SurfaceType"));
        if (f.get("SurfaceType") == "File") j.set("filename", f.get("File"));
        else {
            std::istringstream w(f.get("Layers")); Str a, b, c, d; w >> a; J l = J::arr(); while (w >> a >> b >> c >> d) l.push(J::obj({{"thickness", N(a)}, {"permittivity", N(b)}, {"permeability", N(c)}, {"elecCond", N(d)}}));
            j.set("layers", l).set("useSembaVectorFitting", B(f.get("Use_semba_vector_fitting"))); ask("freqMin", "Freq_min"); ask("freqMax", "Freq_max"); ask("numberOfPoles", "Number_of_poles");
        }
    }
    return j;
}
static J solverOptions(Form& f) {
    J o = J::obj({{"solver", f.get("Solver")}, {"runSimulation", B(f.get("Run_simulation"))}});
    if (f.get("Ending") == "Final_time") o.set("finalTime", N(f.get("Final_time"))); else o.set("numberOfTimeSteps", N(f.get("Number_of_time_steps")));
    o.set("timeStep", N(f.get("Time_step"))).set("cfl", N(f.get("CFL"))).set("defaultSamplingPeriod", N(f.get("Default_sampling_period"))).set("forceRestarting", B(f.get("Force_restarting"))).set("resumeSimulation", B(f.get("Resume_simulation")));
    o.set("flush", f.get("Flush").empty() ? J(0) : N(f.get("Flush"))).set("geometryScalingFactor", N(f.get("scaling_factor")));
    { static const std::map<Str, Str> metres = {{"m", "1"}, {"cm", "1e-2"}, {"mm", "1e-3"}, {"nm", "1e-9"}}; auto u = metres.find(f.get("model_units")); if (u != metres.end()) o.set("geometryScalingFactor", N(u->second)); }
    if (!f.get("Additional_arguments").empty()) o.set("additionalArguments", f.get("Additional_arguments"));
    o.set("compositesModel", f.get("Composites_model")).set("wiresFlavor", f.get("Wires_flavor")).set("mtln", B(f.get("MTLN"))).set("minDistanceWires", N(f.get("Min_distance_wires"))).set("mapVTK", B(f.get("Map_VTK")));
    J m = J::obj(); for (const char* a : {"lower", "upper"}) for (const char* d : {"X", "Y", "Z"}) m.set(Str(a) + d + "Bound", f.get(Str(a) + "_" + d + "_bound"));
    m.set("contourRefinement", B(f.get("Contour_refinement"))).set("unwantedConnectionsInfo", B(f.get("Unwanted_connections_info"))).set("structuredCellsInfo", B(f.get("Structured_Cells_info"))).set("vtkExport", B(f.get("VTK_Export")));
    m.set("postmshExport", B(f.get("postmsh_Export"))).set("postsmbExport", B(f.get("postsmb_Export"))).set("mesher", f.get("Mesher")).set("mode", f.get("Mode")).set("subgridPoints", N(f.get("Subgrid_points"))).set("snap", B(f.get("Snap")));
    m.set("forbiddenLength", N(f.get("Forbidden_length"))).set("slantedWires", B(f.get("Slanted_wires"))).set("slantedThreshold", N(f.get("Segments_filter_threshold")));
    return o.set("mesherOptions", m);
}
static const gid::Layer& layerOf(Project& p, int id) { for (auto& l : p.layers) if (l.id == id) return l; return p.layers[0]; }
// several entries with one entity are one port; lines with the same answers are one source; requests of one name are one
static J expected(Project& p, const Str& text) {
    J d = J::obj({{"_format", "Semba Data File in JSON format"}, {"_version", OPENSEMBA_VERSION}, {"solverOptions", solverOptions(p.data)}});
    J ms = J::arr(); for (auto& m : p.mats) ms.push(material(p, m)); d.set("materials", ms);
    J gs = J::arr();
    for (auto& e : p.conds["grid"]) {
        Form& f = e.f; J g = J::obj({{"gridType", "gridCondition"}, {"type", f.get("Type")}, {"layerBox", layerOf(p, e.ent).box}});
        if (f.get("Type") == "Number_of_cells") g.set("numberOfCells", braces(f.get("Number_of_cells"))); else g.set("stepSize", braces(f.get("Step_size"))).set("fitSizeToBox", B(f.get("Fit_size_to_box")));
        if (f.get("boundary_padding_type") != "None") g.set("boundaryPaddingType", f.get("boundary_padding_type")).set("lowerPadding", braces(f.get("Lower_padding"))).set("upperPadding", braces(f.get("Upper_padding"))).set("lowerPaddingMeshSize", braces(f.get("Lower_padding_mesh_size"))).set("upperPaddingMeshSize", braces(f.get("Upper_padding_mesh_size")));
        gs.push(g);
    }
    for (auto& e : p.conds["gridfromfile"]) gs.push(J::obj({{"gridType", "positionsFromFile"}, {"filename", e.f.get("File")}}));
    if (p.boxsize != "0.0 0.0 0.0") {
        J g = J::obj({{"gridType", "nativeGiD"}, {"corner", braces(p.corner)}, {"boxSize", braces(p.boxsize)}, {"nGridPoints", braces(p.ngrid)}}); const char* k[3] = {"xCoordinates", "yCoordinates", "zCoordinates"};
        size_t at = 0; for (int i = 0; i < 3; i++) { size_t a = p.xyz.find('{', at), b = p.xyz.find('}', a); std::istringstream w(p.xyz.substr(a + 1, b - a - 1)); Str v; J l = J::arr(); while (w >> v) l.push(N(v)); g.set(k[i], l); at = b; }
        gs.push(g);
    }
    d.set("grids", gs);
    J ls = J::arr(); for (auto& l : p.layers) ls.push(J::obj({{"id", l.id}, {"name", l.name}})); d.set("layers", ls);
    J cs = J::arr(); for (auto& n : p.nodes) cs.push(MC_STR(n.id << " " << n.x[0] << " " << n.x[1] << " " << n.x[2])); d.set("coordinates", cs);
    J es = J::obj({{"hexahedra", J::arr()}, {"tetrahedra", J::arr()}, {"quadrilateral", J::arr()}, {"triangle", J::arr()}, {"line", J::arr()}});
    for (auto& e : p.elems) { Str k = low(e.type); if (k == "linear") k = "line"; std::vector<int> v = e.v; if (k == "tetrahedra") std::swap(v[1], v[2]); Str t = MC_STR(e.id << " " << e.mat << " " << e.layer); for (int x : v) t += MC_STR(" " << x); es.at(k).push(t); }   // tetrahedra are oriented the other way in GiD
    d.set("elements", es);
    J con = J::arr();
    for (const char* n : {"short", "open", "rlc"}) for (auto& e : p.conds[n]) {
        J c = J::obj({{"materialType", "Connector"}, {"connectorType", e.f.get("TypeId")}, {"coordIds", e.ent}}); if (!strcmp(n, "rlc")) c.set("resistance", N(e.f.get("Resistance"))).set("inductance", N(e.f.get("Inductance"))).set("capacitance", N(e.f.get("Capacitance")));
        con.push(c);
    }
    d.set("connectorOnPoint", con);
    J so = J::arr();
    for (auto& e : p.conds["planewave"]) {
        Form& f = e.f; Str m = f.get("Definition_mode"); J s = J::obj({{"sourceType", "planewave"}, {"definitionMode", m}, {"magnitude", magnitude(f)}, {"layerBox", layerOf(p, e.ent).box}});
        if (m == "by_vectors") s.set("directionVector", braces(f.get("Direction_vector"))).set("polarizationVector", braces(f.get("Polarization_vector")));
        else if (m == "by_angles") s.set("directionTheta", N(f.get("Direction_theta"))).set("directionPhi", N(f.get("Direction_phi"))).set("polarizationAlpha", N(f.get("Polarization_alpha"))).set("polarizationBeta", N(f.get("Polarization_beta")));
        else s.set("numberOfRandomPlanewaves", N(f.get("Number_of_random_planewaves"))).set("relativeVariationOfRandomDelay", N(f.get("Relative_variation_of_random_delay")));
        so.push(s);
    }
    for (auto& e : p.conds["generator_on_line"]) so.push(J::obj({{"sourceType", "generator"}, {"type", e.f.get("type")}, {"magnitude", magnitude(e.f)}, {"coordIds", J::arr({e.ent})}}));
    {   // in no particular order: the order of the text is taken
        std::vector<std::pair<Str, J>> g;
        for (auto& e : p.conds["source_on_line"]) {
            Str key; for (auto& q : e.f.q) if (q.name != "entityId") key += q.value + "|";
            size_t i = 0; while (i < g.size() && g[i].first != key) i++;
            if (i == g.size()) g.push_back({key, J::obj({{"sourceType", "sourceOnLine"}, {"type", e.f.get("type")}, {"hardness", e.f.get("Hardness")}, {"magnitude", magnitude(e.f)}, {"elemIds", J::arr()}})});
            g[i].second.at("elemIds").push(e.ent);
        }
        try {
            auto t = nlohmann::json::parse(text);
            for (auto& s : t.at("sources")) if (s.at("sourceType").get<Str>() == "sourceOnLine") for (size_t i = 0; i < g.size(); i++) if (!s.at("elemIds").empty() && s.at("elemIds").at(0).get<int>() == g[i].second["elemIds"].a[0].i()) { so.push(g[i].second); g.erase(g.begin() + i); break; }
        } catch (const std::exception&) {}
        for (auto& x : g) so.push(x.second);
    }
    for (const char* n : {"waveguide_port", "tem_port"}) {
        Str last; J s;
        for (auto& e : p.conds[n]) {
            Form& f = e.f;
            if (f.get("entityId") != last) {
                if (!last.empty()) so.push(s); last = f.get("entityId");
                if (!strcmp(n, "tem_port")) s = J::obj({{"sourceType", "temPort"}, {"magnitude", magnitude(f)}, {"origin", p.points[atoi(f.get("Origin").c_str())]}, {"innerRadius", N(f.get("Inner_radius"))}, {"outerRadius", N(f.get("Outer_radius"))}, {"excitationMode", f.get("Mode")}, {"elemIds", J::arr()}});
                else s = J::obj({{"sourceType", "waveguidePort"}, {"shape", f.get("Shape")}, {"magnitude", magnitude(f)}, {"excitationMode", f.get("Mode")}, {"firstMode", N(f.get("FirstMode"))}, {"secondMode", N(f.get("SecondMode"))}, {"elemIds", J::arr()}});
            }
            s.at("elemIds").push(e.ent);
        }
        if (!last.empty()) so.push(s);
    }
    d.set("sources", so);
    J out = J::arr();
    auto common = [&](const Str& kind, Form& f) { J o = J::obj({{"gidOutputType", kind}, {"name", f.get("Name")}, {"type", f.get("Type")}, {"domain", domain(f)}}); if (f.get("Type").find("bulk") == 0) o.set("direction", f.get("Direction")).set("skip", N(f.get("Skip"))); return o; };
    for (const char* n : {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface"}) {
        std::map<Str, J> g;
        for (auto& e : p.conds[low(n)]) { Str k = e.f.get("Name"); if (!g.count(k)) g[k] = common(n, e.f).set("elemIds", J::arr()); g[k].at("elemIds").push(e.ent); }
        for (auto& x : g) out.push(x.second);
    }
    for (auto& e : p.conds["outrq_on_layer"]) out.push(common("OutRq_on_layer", e.f).set("box", layerOf(p, e.ent).box));
    for (auto& e : p.conds["far_field"]) {
        J o = common("Far_field", e.f).set("box", layerOf(p, e.ent).box);
        for (const char* a : {"initial", "final", "step"}) for (const char* b : {"theta", "phi"}) { Str k = Str(a) + (*b == 't' ? "Theta" : "Phi"), q = Str(a) + "_" + b; o.set(k, N(e.f.get(q))); }
        out.push(o);
    }
    return d.set("outputRequests", out);
}

// ---- the project the cases start from
static Entry entry(const Str& cond, int ent, const Answers& a) {
    Entry e{ent, form(cnd, cond)};
    for (auto& x : a) { if (x.first == "entityId") { e.f.at(x.first).value = x.second; continue; } MC_REQUIRE(e.f.can(x.first), "front-end-question", cond << ": " << x.first << " cannot be answered"); e.f.set(x.first, x.second); }
    return e;
}
static void add(Project& p, const Str& cond, int ent, const Answers& a = {}) { p.conds[low(cond)].push_back(entry(cond, ent, a)); }
static Mat material(int id, const Str& name, const Str& kind, const Answers& a = {}) { Mat m{id, name, form(mat, kind)}; for (auto& x : a) { MC_REQUIRE(m.f.can(x.first), "front-end-question", kind << ": " << x.first << " cannot be answered"); m.f.set(x.first, x.second); } return m; }
static Project blank(bool grid = true) {
    Project p; p.data = form(prb, "problem data");
    for (auto& c : cnd) p.conds[low(c.name)];
    p.mats = {material(1, "metal", "PEC"), material(4, "glass", "Classic", {{"Permittivity", "2.5"}})};
    p.layers = {{1, "body", "{2 1 3 0 0 0}"}, {5, "skin", "{1.5 1 2.5 0 0.5 -1}"}};
    p.nodes = {{1, {0, 0, 0}}, {2, {1, 0, 0}}, {3, {1, 1, 0}}, {4, {0, 1, 0}}, {5, {0, 0, 1}}, {6, {1, 0, 1}}, {7, {1, 1, 1}}, {8, {0, 1, 1}}, {21, {2.5, -0.5, 0.25}}, {12, {3, 1, 0}}, {13, {3, 0, 0}}, {30, {-1e-3, -2, -12.3456789}}};
    p.elems = {{"Hexahedra", 1, 4, 1, {1, 2, 3, 4, 5, 6, 7, 8}}, {"Tetrahedra", 7, 0, 5, {1, 2, 4, 5}}, {"Quadrilateral", 3, 1, 1, {1, 2, 3, 4}}, {"Quadrilateral", 10, 0, 1, {2, 13, 12, 3}}, {"Quadrilateral", 14, 1, 5, {5, 6, 7, 8}}, {"Triangle", 5, 4, 0, {5, 6, 21}}, {"Linear", 11, 1, 5, {21, 30}}, {"Linear", 2, 0, 0, {1, 30}}};
    p.points[3] = "{0.5 0.5 0}"; p.points[8] = "{0.0 1.0 1.0}";
    if (grid) add(p, "Grid", 1, {{"Number_of_cells", "4 2 3"}});
    return p;
}
static void checkOptions(const J& so, const Data& d) {
    Solver::Options o; o.set(d.solver->getSettings()); J m = so["mesherOptions"];
    MC_CHECK(o.isRunSimulation() == so["runSimulation"].b() && o.isForceRestarting() == so["forceRestarting"].b() && o.isResumeSimulation() == so["resumeSimulation"].b(), "solver-option", "a flag differs");
    MC_CHECK(o.getTimeStep() == so["timeStep"].d() && o.getCFL() == so["cfl"].d() && o.getSamplingPeriod() == so["defaultSamplingPeriod"].d() && o.getFlush() == so["flush"].d(), "solver-option", "a value differs");
    if (so.has("finalTime")) MC_CHECK(o.getFinalTime() == so["finalTime"].d(), "solver-option", "final time " << o.getFinalTime()); else MC_CHECK(o.getNumberOfTimeSteps() == (size_t)so["numberOfTimeSteps"].i(), "solver-option", o.getNumberOfTimeSteps() << " steps");
    MC_CHECK(o.getAdditionalArguments() == so["additionalArguments"].s, "solver-option", "arguments " << o.getAdditionalArguments());
    Mesher::Options q; q.set(d.solver->getSettings()("mesherOptions"));
    for (int k = 0; k < 3; k++) for (int e = 0; e < 2; e++) { Str n = Str(e ? "upper" : "lower") + "XYZ"[k] + "Bound"; MC_CHECK(Mesher::Options::toStr(q.getBoundTermination(k, e)) == m[n].s, "mesher-option", n << " is " << Mesher::Options::toStr(q.getBoundTermination(k, e)) << " instead of " << m[n].s); }
    MC_CHECK((int)q.getMesher() == prob::label(m["mesher"], {{"DMesher", (int)Mesher::Options::Mesher::DMesher}, {"AMesher", (int)Mesher::Options::Mesher::AMesher}, {"HMesher", (int)Mesher::Options::Mesher::HMesher}}, "mesher"), "mesher-option", "mesher");
    typedef Mesher::Options::Mode M; MC_CHECK((int)q.getMode() == prob::label(m["mode"], {{"Structured", (int)M::structured}, {"Conformal", (int)M::conformal}, {"Relaxed", (int)M::relaxed}, {"Slanted", (int)M::slanted}}, "mode"), "mesher-option", "mode");
    MC_CHECK(q.isContourRefinement() == m["contourRefinement"].b() && q.isUnwantedConnectionsInfo() == m["unwantedConnectionsInfo"].b() && q.isStructuredCellsInfo() == m["structuredCellsInfo"].b() && q.isVtkExport() == m["vtkExport"].b() && q.isPostmshExport() == m["postmshExport"].b() && q.isPostsmbExport() == m["postsmbExport"].b() && q.isSnap() == m["snap"].b() && q.isSlanted() == m["slantedWires"].b(), "mesher-option", "a flag differs");
    MC_CHECK(q.getSubgridPoints() == m["subgridPoints"].i() && q.getForbiddenLength() == m["forbiddenLength"].d() && q.getSlantedThreshold() == m["slantedThreshold"].d(), "mesher-option", "a value differs");
}
static void check(Project& p) {
    prob::files(); { std::ofstream g("grid.json"); g << "\"xs\": [0, 1, 2.5], \"ys\": [-1, 0, 4], \"zs\": [0, 0.5]\n"; }
    tell(p);
    Str t = tpl->write(p); mc::step();
    MC_CHECK(tpl->warnings.empty(), "front-end-warning", "the front end warns: " << tpl->warnings[0]);
    J e = expected(p, t);
    std::unique_ptr<Data> d;
    try { std::istringstream in(t); d.reset(new Data(SEMBA::Parser::JSON::Parser().read(in))); } catch (const std::exception& x) { MC_REQUIRE(false, "refused", "the library refuses what the front end wrote: " << x.what()); }
    prob::checkProblem(e, *d); checkOptions(e["solverOptions"], *d);
    mc::state(t);
}
static Str show(const Answers& a) { Str r; for (auto& x : a) r += " " + x.first + "=" + x.second; return r; }
template<class F> static void doc(const Str& what, const F& build) { mc::run([=] { return what; }, [=] { load(); Project p = build(); check(p); }); }

// ---- the answers each kind is given
struct Kind { const char* n; std::vector<Answers> a; };
static std::vector<Answers> cross(const std::vector<Answers>& a, const std::vector<Answers>& b) { std::vector<Answers> r; for (auto& x : a) for (auto& y : b) { Answers z = x; z.insert(z.end(), y.begin(), y.end()); r.push_back(z); } return r; }
static const std::vector<Answers> mags = {{{"Frequency_maximum", "2.5e8"}}, {{"Magnitude", "Band_limited"}, {"Frequency_maximum", "3e8"}, {"Frequency_minimum", "1e6"}}, {{"Magnitude", "File"}, {"File", "signal.exc"}}};
static const std::vector<Answers> doms = {{{"Final_time", "1e-8"}, {"Sampling_period", "2e-10"}}, {{"Domain", "Frequency"}, {"Initial_Frequency", "1e6"}, {"Final_Frequency", "1e9"}, {"Frequency_step", "5e5"}},
    {{"Domain", "Frequency"}, {"Initial_Frequency", "1e6"}, {"Final_Frequency", "1e9"}, {"Frequency_step", "5e5"}, {"Log_frequency_sweep", "1"}, {"Use_transfer_function", "1"}, {"Transfer_function_file", "tf.dat"}},
    {{"Domain", "All"}, {"Initial_time", "1e-9"}, {"Final_time", "2e-8"}, {"Final_Frequency", "1e9"}, {"Frequency_step", "1e6"}}, {{"Domain", "All"}, {"Final_Frequency", "2e9"}, {"Use_transfer_function", "1"}, {"Transfer_function_file", "tf.dat"}},
    {{"Domain", "All"}, {"Domain", "Time"}, {"Final_time", "3e-8"}}, {{"Domain", "Frequency"}, {"Use_transfer_function", "1"}, {"Domain", "Time"}, {"Domain", "Frequency"}, {"Final_Frequency", "3e9"}}};
static std::vector<Kind> sourceKinds() {
    return {{"Planewave", cross({{}, {{"Direction_vector", "0.6 0 -0.8"}, {"Polarization_vector", "0 -1 0"}}, {{"Definition_mode", "by_angles"}, {"Direction_theta", "45"}, {"Direction_phi", "90"}, {"Polarization_alpha", "135"}, {"Polarization_beta", "90"}}, {{"Definition_mode", "randomized_multisource"}, {"Number_of_random_planewaves", "5"}, {"Relative_variation_of_random_delay", "0.25"}}}, mags)},
            {"Generator_on_line", cross({{}, {{"type", "current"}}}, mags)},
            {"Source_on_line", cross({{}, {{"type", "magneticField"}, {"Hardness", "hard"}}, {{"Hardness", "hard"}}}, mags)},
            {"Waveguide_port", cross({{}, {{"FirstMode", "2"}, {"SecondMode", "1"}}}, mags)},
            {"TEM_port", cross({{{"Origin", "3"}, {"Inner_radius", "0.125"}, {"Outer_radius", "0.75"}}, {{"Mode", "Current"}, {"Origin", "8"}, {"Inner_radius", "0.25"}, {"Outer_radius", "0.5"}}}, mags)}};
}
// entities of the n-th use of a kind: layers, nodes, lines, or the elements of a surface
static std::vector<std::vector<int>> places(const Str& kind) {
    if (kind == "Planewave" || kind == "OutRq_on_layer" || kind == "Far_field") return {{1}, {5}};
    if (kind == "Generator_on_line" || kind == "OutRq_on_point") return {{21}, {8, 1}};
    if (kind == "Source_on_line" || kind == "OutRq_on_line") return {{11}, {2}};
    return {{3, 10}, {14}};
}
static void place(Project& p, const Str& kind, size_t n, Answers a, bool surface) {
    auto at = places(kind)[n % 2]; for (int e : at) { Answers b = a; if (surface) b.insert(b.begin(), {"entityId", std::to_string(n + 5)}); add(p, kind, e, b); }
}
static bool ported(const Str& k) { return k == "Waveguide_port" || k == "TEM_port" || k == "Source_on_line"; }
static std::vector<Kind> outputKinds() {
    std::vector<Kind> r; static const char* kinds[] = {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface", "OutRq_on_layer"};
    for (auto k : kinds) {
        std::vector<Answers> t = {{{"Type", "electricField"}}, {{"Type", "magneticField"}}, {{"Type", "bulkCurrentElectric"}}, {{"Type", "bulkCurrentElectric"}, {"Direction", "y"}, {"Skip", "3"}}, {{"Type", "bulkCurrentMagnetic"}, {"Direction", "z"}, {"Skip", "2"}}};
        if (k == kinds[0]) t.push_back({{"Type", "current"}}); else if (k != kinds[1]) for (const char* x : {"electricFieldNormals", "magneticFieldNormals", "surfaceCurrentDensity"}) t.push_back({{"Type", x}});
        r.push_back({k, cross(t, doms)});
    }
    r.push_back({"Far_field", cross({{}, {{"Initial_theta", "10"}, {"Final_theta", "170"}, {"Step_theta", "5"}, {"Initial_phi", "20"}, {"Final_phi", "340"}, {"Step_phi", "2.5"}}}, doms)});
    return r;
}
static std::vector<std::pair<Str, Answers>> materialKinds() {
    std::vector<std::pair<Str, Answers>> r = {{"PEC", {}}, {"PMC", {}}, {"PML", {}}, {"PML", {{"Local_Axes", "mine"}}}, {"Classic", {}}, {"Classic", {{"Permittivity", "80.1"}, {"Permeability", "0.5"}, {"ElecCond", "1e7"}, {"MagnCond", "1e-3"}}}, {"Dispersive_Material", {{"File", "poles.dat"}}},
        {"Surface_Impedance", {{"SurfaceType", "File"}, {"File", "skin.mibc"}}}};
    for (const char* l : {"4 0.5 1.0 1.0 10.0", "8 0.1 2.0 3.0 4.0 0.2 5.0 6.0 7.0", "12 1 2 3 4 5 6 7 8 9 10 11 12"}) { r.push_back({"Surface_Impedance", {{"Layers", l}}}); r.push_back({"Surface_Impedance", {{"Layers", l}, {"Freq_min", "1e6"}, {"Freq_max", "2e9"}, {"Number_of_poles", "7"}, {"Use_semba_vector_fitting", "1"}}}); }
    for (const char* a : {"-GLOBAL-", "mine"}) { r.push_back({"Anisotropic", {{"Local_Axes", a}, {"Relative_permittivity_principal_axes", "1 2.5 3"}, {"Crystal_relative_permeability", "1.5"}}}); r.push_back({"Anisotropic", {{"Local_Axes", a}, {"Anisotropic_model", "Ferrite"}, {"Kappa", "0.5"}, {"Ferrite_relative_permeability", "2.0"}, {"Ferrite_relative_permittivity", "3.0"}}}); }
    r.push_back({"Cable", {}}); r.push_back({"Cable", {{"Radius", "1e-3"}, {"Resistance", "2.0"}, {"Inductance", "3e-7"}}}); r.push_back({"Cable", {{"Radius", "0.125"}, {"WireType", "Dispersive"}, {"File", "wire.dat"}}});
    r.push_back({"Cable", {{"Radius", "0.25"}, {"WireType", "SeriesParallel"}, {"Resistance", "1.0"}, {"Inductance", "2.0"}, {"Capacitance", "3.0"}, {"Parallel_Resistance", "4.0"}, {"Parallel_Inductance", "5.0"}, {"Parallel_Capacitance", "6.0"}}});
    r.push_back({"Connector_short", {}}); r.push_back({"Connector_open", {}}); for (const char* c : {"Connector_series_RLC", "Connector_series_L_parallel_RC"}) r.push_back({c, {{"Resistance", "50"}, {"Inductance", "1e-9"}, {"Capacitance", "2e-12"}}});
    r.push_back({"Connector_dispersive", {{"File", "conn.dat"}}}); r.push_back({"Thin_gap", {}}); r.push_back({"Thin_gap", {{"Width", "1e-3"}}});
    return r;
}
// answers a question may be given
static std::vector<Str> answers(const Question& q) {
    if (!q.choices.empty()) return q.choices;
    Str n = low(q.name);
    if (n == "additional_arguments") return {"", "-mpi"};
    if (n == "flush") return {"", "0", "2.5"};
    if (n == "number_of_time_steps" || n == "subgrid_points") return {"0", "7"};
    if (n == "scaling_factor") return {"1.0", "1e-3"};
    return {q.value, "0.375"};
}
static void body() {
    try { load(); } catch (const mc::CaseAbort&) { return; }
    // 1. every answer of the problem data, and every pair of answers
    Form f0 = form(prb, "problem data");
    struct Ed { Str q, v; }; std::vector<Ed> eds; for (auto& q : f0.q) if (low(q.name) != "solver") for (auto& v : answers(q)) eds.push_back(Ed{q.name, v});
    doc("project with the answers proposed", [] { return blank(); });
    for (auto& a : eds) for (auto& b : eds) {
        bool same = a.q == b.q && a.v == b.v;
        if (!mc::thorough() && !same && f0.at(a.q).deps.empty() && f0.at(b.q).deps.empty()) continue;    // pairs of independent answers: thorough
        mc::run([=] { return "problem data: " + a.q + "=" + a.v + ", then " + b.q + "=" + b.v; }, [=] {
            Project p = blank(); for (auto& e : {a, b}) if (p.data.can(e.q)) p.data.set(e.q, e.v); check(p);
        });
    }
    // 2. questionnaires: what can be answered depends on the answers, not on their history
    auto forms = [&](std::vector<Form>& fs, const char* what) {
        for (auto& f1 : fs) {
            Form f = f1; f.open(); std::vector<Ed> ed; std::set<Str> rel;
            for (auto& q : f.q) if (!q.deps.empty()) { rel.insert(low(q.name)); for (auto& d : q.deps) for (auto& a : d.second) rel.insert(low(a.target)); }
            for (auto& q : f.q) if (rel.count(low(q.name))) for (auto& v : q.choices.empty() ? std::vector<Str>{q.value} : q.choices) ed.push_back(Ed{q.name, v});
            for (auto& q : f.q) for (auto& d : q.deps) mc::run([=] { return Str(what) + " " + f.name + ": " + q.name + "=" + d.first; }, [=] {
                Form g = f; for (auto& a : d.second) { MC_CHECK(a.what == "SET" || a.what == "RESTORE" || a.what == "HIDE", "front-end-question", "action " << a.what); g.at(a.target); }
            });
            if (ed.empty()) continue;
            size_t n = ed.size(); int depth = n <= 12 ? 4 : mc::pick(2, 3);
            for (int len = 1; len <= depth; len++) {
                size_t total = 1; for (int i = 0; i < len; i++) total *= n;
                size_t blockN = 500; for (size_t from = 0; from < total; from += blockN) mc::run([=] { return MC_STR(what << " " << f.name << ": histories " << from << ".. of " << len << " answers"); }, [=] {
                    for (size_t k = from; k < std::min(total, from + blockN); k++) {
                        Form g = f; size_t c = k; Str hist; for (int i = 0; i < len; i++, c /= n) { auto& e = ed[c % n]; if (!g.can(e.q)) continue; g.set(e.q, e.v); hist += " " + e.q + "=" + e.v; }
                        Form h = g; h.open(); mc::step();
                        for (size_t i = 0; i < g.q.size(); i++) MC_REQUIRE(g.q[i].state == h.q[i].state, "question-state", "after" << hist << " question " << g.q[i].name << " is " << g.q[i].state << ", with the same answers from the start it is " << h.q[i].state << " (E answerable, S fixed, H hidden)");
                        for (auto& q : g.q) if (!q.choices.empty()) MC_REQUIRE(std::find(q.choices.begin(), q.choices.end(), q.value) != q.choices.end(), "question-value", "after" << hist << " question " << q.name << " is answered " << q.value);
                        for (auto& q : g.q) for (auto& d : q.deps) if (d.first == q.value) for (auto& a : d.second) if (a.what == "SET" && a.value != "#CURRENT#") MC_REQUIRE(g.get(a.target) == a.value || g.can(a.target), "question-value", "after" << hist << " question " << a.target << " is fixed to " << g.get(a.target));
                    }
                });
            }
        }
    };
    forms(prb, "problem data"); forms(cnd, "condition"); forms(mat, "material");
    // 3. materials alone, before and after another
    auto mk = materialKinds();
    for (size_t i = 0; i < mk.size(); i++) for (size_t k = 0; k <= mk.size(); k++) doc("materials: " + mk[i].first + show(mk[i].second) + (k < mk.size() ? ", " + mk[k].first + show(mk[k].second) : Str()), [=] {
        auto kinds = materialKinds(); Project p = blank(); p.mats.clear(); p.mats.push_back(material(4, "first", kinds[i].first, kinds[i].second)); if (k < kinds.size()) p.mats.push_back(material(1, "second_one", kinds[k].first, kinds[k].second));
        else for (auto& e : p.elems) if (e.mat == 1) e.mat = 0;
        return p;
    });
    // 4. sources and output requests: one, and each after each other
    auto lists = [&](const std::vector<Kind>& ks, const char* what) {
        struct U { size_t k, a; }; std::vector<U> us; for (size_t k = 0; k < ks.size(); k++) for (size_t a = 0; a < ks[k].a.size(); a++) us.push_back(U{k, a});
        auto put = [ks, what](Project& p, U u, size_t n) { Answers a = ks[u.k].a[u.a]; Str kind = ks[u.k].n; if (*what == 'o') a.insert(a.begin(), {"Name", "request" + std::to_string(9 - n)}); place(p, kind, n, a, ported(kind)); };
        for (auto& u : us) for (size_t n = 0; n < 2; n++) doc(MC_STR(what << ": " << ks[u.k].n << show(ks[u.k].a[u.a]) << " at place " << n), [=] { Project p = blank(); put(p, u, n); return p; });
        for (size_t i = 0; i < us.size(); i++) for (size_t j = 0; j < us.size(); j++) {
            if (!mc::thorough() && *what == 'o' && (i + 3 * j) % 7) continue;
            auto u = us[i], v = us[j];
            doc(MC_STR(what << ": " << ks[u.k].n << show(ks[u.k].a[u.a]) << " and " << ks[v.k].n << show(ks[v.k].a[v.a])), [=] { Project p = blank(); put(p, u, 0); put(p, v, 1); return p; });
        }
        // any number of each kind
        for (int m = 0; m < 243; m++) doc(MC_STR(what << ": numbers of each kind " << m / 81 << m / 27 % 3 << m / 9 % 3 << m / 3 % 3 << m % 3), [=] {
            Project p = blank(); int c = m; for (size_t k = 0; k < ks.size(); k++, c /= 3) for (int n = 0; n < c % 3; n++) put(p, U{k, (m + n) % ks[k].a.size()}, n);
            return p;
        });
    };
    auto sk = sourceKinds(); auto ok = outputKinds();
    lists(sk, "sources"); lists(ok, "outputs");
    // one request over several entities, several over one
    for (auto k : {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface", "OutRq_on_layer", "Far_field"}) for (int n = 0; n < 8; n++) doc(MC_STR("outputs: repeated " << k << " " << n), [=] {
        Project p = blank(); Str kk = k; auto at = places(k); for (int i = 0; i < 3; i++) for (int e : at[(n >> i) & 1]) add(p, k, e, {{"Name", MC_STR("r" << (n + i) % 3)}, {"Final_time", MC_STR((n + i) % 3 << "e-8")}});
        return p;
    });
    // 5. connectors
    for (int m = 0; m < 64; m++) doc(MC_STR("connectors: " << m % 4 << " shorts, " << m / 4 % 4 << " open, " << m / 16 << " RLC"), [=] {
        static const int at[9] = {21, 1, 8, 30, 2, 13, 3, 4, 5}; Project p = blank(); int k = 0;
        for (int i = 0; i < m % 4; i++) add(p, "Short", at[k++]); for (int i = 0; i < m / 4 % 4; i++) add(p, "Open", at[k++]); for (int i = 0; i < m / 16; i++) add(p, "RLC", at[k++], {{"Resistance", MC_STR(50 + i)}, {"Inductance", "1e-9"}, {"Capacitance", "2e-12"}});
        return p;
    });
    // 6. grids
    for (const char* n : {"1 1 1", "4 2 3", "10 1 7"}) for (int step = 0; step < 3; step++) for (const char* pad : {"None", "by_number_of_cells", "by_distance"}) for (const char* lo : {"0 0 0", "1 2 3"}) for (const char* up : {"0 0 0", "2 1 0"}) for (int layer : {1, 5}) for (int m = 0; m < 2; m++)
        doc(MC_STR("grid: " << n << " " << step << " " << pad << " " << lo << " " << up << " " << layer << " " << m), [=] {
            Project p = blank(false); Answers a; if (step) { a = {{"Type", "Step_size"}, {"Step_size", m ? "0.5 0.25 0.5" : "0.4 0.3 0.7"}, {"Fit_size_to_box", step == 1 ? "1" : "0"}}; } else a = {{"Number_of_cells", n}};
            a.push_back({"boundary_padding_type", pad}); if (Str(pad) != "None") { a.push_back({"Lower_padding", lo}); a.push_back({"Upper_padding", up}); if (m) { a.push_back({"Lower_padding_mesh_size", "0.5 0.5 0.5"}); a.push_back({"Upper_padding_mesh_size", "1 0.25 0.5"}); } }
            add(p, "Grid", layer, a); return p;
        });
    doc("grid from a file", [] { Project p = blank(false); add(p, "GridFromFile", 5); return p; });
    for (const char* xyz : {"{0 0.5 1.0} {0.0 0.25 2.0} {-1 0 1 3}", "{0 1} {0 2} {0 3}"}) for (const char* c : {"0 0 0", "0.5 -1.0 2.25"}) for (const char* mode : {"Structured", "Relaxed"}) doc(MC_STR("native grid " << xyz << " " << c), [=] { Project p = blank(false); p.corner = c; p.boxsize = "1 2 3"; p.ngrid = "3 3 4"; p.xyz = xyz; p.data.set("Mode", mode); return p; });
    // 7. elements of each kind, materials and layers of each, numbers of layers
    for (int m = 0; m < 243; m++) doc(MC_STR("elements: " << m), [=] {
        Project p = blank(); p.elems.clear(); static const struct { const char* n; std::vector<int> v; } k[] = {{"Hexahedra", {1, 2, 3, 4, 5, 6, 7, 8}}, {"Tetrahedra", {1, 2, 4, 5}}, {"Quadrilateral", {1, 2, 3, 4}}, {"Triangle", {5, 6, 21}}, {"Linear", {21, 30}}};
        int c = m, id = 1000; for (int i = 0; i < 5; i++, c /= 3) for (int n = 0; n < c % 3; n++) p.elems.push_back(gid::Elem{k[i].n, id += 7 * i + 1, (n + i) % 2 ? 4 : 0, (m + n) % 2 ? 5 : 1, k[i].v});
        return p;
    });
    for (int n = 1; n <= 4; n++) for (int pts = 1; pts <= 12; pts++) doc(MC_STR(n << " layers, " << pts << " nodes"), [=] { Project p = blank(); p.elems.clear(); p.nodes.resize(pts); for (int i = 2; i < n; i++) p.layers.push_back(gid::Layer{40 - i, MC_STR("layer" << i), "{1 1 1 0 0 0}"}); if (n == 1) p.layers.resize(1); return p; });
    // 8. each source with each output request and each kind of unit
    for (size_t i = 0; i < sk.size(); i++) for (size_t j = 0; j < ok.size(); j++) for (const char* u : {"m", "cm", "mm", "nm", "other"}) for (int n = 0; n < 4; n++) doc(MC_STR(sk[i].n << " with " << ok[j].n << " in " << u << " " << n), [=] {
        Project p = blank(); p.data.set("model_units", u); if (Str(u) == "other") p.data.set("scaling_factor", "0.0254"); auto S = sourceKinds(); auto O = outputKinds();
        place(p, S[i].n, n % 2, S[i].a[n % S[i].a.size()], ported(S[i].n)); Answers a = O[j].a[(5 * n + i) % O[j].a.size()]; a.insert(a.begin(), {"Name", "out"}); place(p, O[j].n, n / 2, a, false); return p;
    });
    // many requests of one kind, each with its name
    for (const char* k : {"OutRq_on_point", "OutRq_on_line", "OutRq_on_surface", "OutRq_on_layer", "Far_field"}) for (int n = 1; n <= 24; n++) doc(MC_STR(n << " requests " << k), [=] {
        Project p = blank(); for (int i = 0; i < n; i++) for (const Kind& o : ok) if (Str(o.n) == k) { Answers a = o.a[i % o.a.size()]; a.insert(a.begin(), {"Name", MC_STR("request" << (i * 7) % 24)}); place(p, k, i, a, false); } return p;
    });
    // 9. writing twice: the second text is the first
    for (int m = 0; m < 32; m++) mc::run([=] { return MC_STR("written twice " << m); }, [=] {
        Project p = blank(); for (size_t i = 0; i < 5; i++) if (m >> i & 1) { place(p, sk[i].n, 0, sk[i].a[0], ported(sk[i].n)); Answers a = ok[i].a[0]; a.insert(a.begin(), {"Name", "out"}); place(p, ok[i].n, 0, a, false); }
        tell(p); Str a = tpl->write(p), b = tpl->write(p); mc::step(); MC_CHECK(a == b, "written-twice", "the second text differs"); check(p);
    });
    // 10. bounding boxes of any padding
    static const double pads[] = {0, 0.5, 2};
    for (int m = 0; m < 729; m++) mc::run([=] { return MC_STR("bounding box with paddings " << m); }, [=] {
        Project p = blank(); tell(p); double pad[6], box[6] = {2, 1, 3, -0.5, 0, -1}; int c = m; Str s = "set ::M(bbox) {{2 1 3 -0.5 0 -1}}; semba::createBoundingBox"; for (int i = 0; i < 6; i++, c /= 3) { pad[i] = pads[c % 3]; s += MC_STR(" " << pad[i]); }
        bool bad; Str r = Tcl::get().eval(s + "; join $::M(process) \\n", bad); MC_REQUIRE(!bad, "front-end-script", r); mc::step();
        // the rectangle at the bottom, extruded to the top
        std::istringstream in(r); Str l; std::vector<double> rect, tr; while (std::getline(in, l)) { std::istringstream w(l); Str x; char* e; bool isR = l.find("Rectangle") != Str::npos, isT = l.find("Translation") != Str::npos; while (w >> x) { double v = strtod(x.c_str(), &e); if (!*e) { if (isR) rect.push_back(v); else if (isT) tr.push_back(v); } } }
        MC_REQUIRE(rect.size() == 6 && tr.size() == 6, "bounding-box", "unexpected commands " << r);
        double lo[3], hi[3]; for (int i = 0; i < 3; i++) { lo[i] = box[3 + i] - pad[3 + i]; hi[i] = box[i] + pad[i]; }
        for (int i = 0; i < 2; i++) MC_CHECK(std::min(rect[i], rect[3 + i]) == lo[i] && std::max(rect[i], rect[3 + i]) == hi[i] && tr[i] == tr[3 + i], "bounding-box", "axis " << i << ": " << r);
        MC_CHECK(rect[2] == rect[5] && ((rect[2] == lo[2] && tr[5] - tr[2] == hi[2] - lo[2]) || (rect[2] == hi[2] && tr[5] - tr[2] == lo[2] - hi[2])), "bounding-box", "height: " << r);
    });
    for (int m = 0; m < 12; m++) mc::run([=] { return MC_STR("padding edited " << m); }, [=] {
        static const char* ax[6] = {"xMax", "yMax", "zMax", "xMin", "yMin", "zMin"}; Str s = MC_STR("set ::BoundingBoxDataPriv(samesizes) " << m / 6 << ";"); for (int i = 0; i < 6; i++) s += MC_STR("set ::BoundingBoxDataPriv(size," << ax[i] << ") " << i << ";");
        s += MC_STR("set ::BoundingBoxDataPriv(size," << ax[m % 6] << ") 9; semba::OnChangeBoundingBoxSize " << ax[m % 6] << "; set r {}; foreach a {xMax yMax zMax xMin yMin zMin} {lappend r $::BoundingBoxDataPriv(size,$a)}; set r");
        bool bad; Str r = Tcl::get().eval(s, bad), want; MC_REQUIRE(!bad, "front-end-script", r); for (int i = 0; i < 6; i++) want += MC_STR((i ? " " : "") << (i == m % 6 || m / 6 ? 9 : i)); mc::step(); MC_CHECK(r == want, "bounding-box", r << " instead of " << want);
    });
    // 11. the launcher runs the solver once on the project, wherever it is
    static const std::vector<Str> names = {"p", "two words", "a.b", "x  y", "$HOME", "it's", "(1)", "a&b", "-n"};
    for (auto& n : names) for (auto& pl : names) for (auto& pt : names) for (int st = 0; st < 2; st++) mc::run([=] { return "launching '" + n + "' of '" + pl + "' with '" + pt + "'"; }, [=] {
        if (n == "-n" || pl[0] == '-' || pt[0] == '-') return;
        Str root = mc::scratchDir() + "/launch"; if (system(("rm -rf '" + root + "'").c_str())) {} mkdir(root.c_str(), 0755);
        Str proj = root + "/" + pl + ".gid", type = root + "/" + pt; mkdir(proj.c_str(), 0755); if (pl + ".gid" != pt) mkdir(type.c_str(), 0755); mkdir((type + "/bin").c_str(), 0755);
        Str exe = type + "/bin/semba"; { std::ofstream o(exe.c_str()); o << "#!/bin/sh\necho run >> '" << root << "/args'\nfor a; do echo \"[$a]\" >> '" << root << "/args'; done\necho standard output\necho error output >&2\nexit " << st << "\n"; } chmod(exe.c_str(), 0755);
        pid_t k = fork();
        if (!k) { if (chdir(proj.c_str())) _exit(9); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); execlp("bash", "bash", (dir() + "/semba.unix.bat").c_str(), n.c_str(), proj.c_str(), type.c_str(), (char*)0); _exit(9); }
        int ws; waitpid(k, &ws, 0); mc::step();
        auto rd = [](const Str& f) { std::ifstream i(f.c_str()); std::ostringstream o; o << i.rdbuf(); return o.str(); };
        MC_CHECK(rd(root + "/args") == "run\n[-i]\n[" + proj + "/" + n + ".dat]\n", "launcher", "the solver was run as: " << rd(root + "/args"));
        MC_CHECK(rd(proj + "/" + n + ".log").find("standard output") != Str::npos, "launcher", "the output is not in the log"); MC_CHECK(rd(proj + "/" + n + ".err") == "error output\n", "launcher", "the errors are not in the file of errors");
    });
}
int main(int argc, char** argv) { return mc::main_(argc, argv, body); }
