// The values each section of a problem document ranges over (P16, P17).
#pragma once
#include "problem.h"
namespace prob {
inline std::vector<J> materials() {
    std::vector<J> r;
    for (const char* n : {"", "m", "a long name"}) for (const char* t : {"PEC", "PMC", "SMA"}) r.push_back(simple(1, n, t));
    static const std::vector<Str> axes = {"{0 0 0} {0 0 0}", "{0.0 0.0 0.0} {1.0 2.0 3.0}", "{0.1 -0.2 0.3} {-1 0.5 1e3}", "{1.5 0 -3e-1}{0 1 0}"};
    for (auto& a : axes) {
        J m = simple(1, "pml", "PML"); m.set("localAxes", a); r.push_back(m);
        J c = simple(1, "crystal", "Anisotropic"); c.set("anisotropicModel", "Crystal").set("localAxes", a).set("crystalRelativePermeability", 1.5);
        J c2 = c; c.set("relativePermittiviy", "{1 2.5 3}"); c2.set("relativePermittivityPrincipalAxes", "{4 5 6.25}"); r.push_back(c); r.push_back(c2);
        J f = simple(1, "ferrite", "Anisotropic"); f.set("anisotropicModel", "Ferrite").set("localAxes", a).set("kappa", 0.5).set("ferriteRelativePermeability", 2.0).set("ferriteRelativePermittivity", 3.0); r.push_back(f);
    }
    r.push_back(classic(1, "vacuum", 1, 1, 0, 0)); r.push_back(classic(1, "c", 2, 3, 4, 5)); r.push_back(classic(1, "d", 80.1, 0.5, 1e7, 1e-3)); r.push_back(classic(1, "e", 1, 2, 0, 3));
    J ci = simple(1, "ints", "Classic"); ci.set("permittivity", 4).set("permeability", 3).set("electricConductivity", 2).set("magneticConductivity", 1); r.push_back(ci);
    J di = simple(1, "poles", "Dispersive"); di.set("filename", "poles.dat"); r.push_back(di);
    J w = simple(1, "wire", "Wire"); w.set("radius", 1e-3).set("wireType", "Standard").set("resistance", 2.0).set("inductance", 3e-7); r.push_back(w);
    w.set("radius", 0.0).set("resistance", 0).set("inductance", 0); r.push_back(w);
    w.set("radius", 0.25).set("wireType", "SeriesParallel").set("resistance", 1.0).set("inductance", 2.0).set("capacitance", 3.0).set("parallelResistance", 4.0).set("parallelInductance", 5.0).set("parallelCapacitance", 6.0); r.push_back(w);
    J wd = simple(1, "wd", "Wire"); wd.set("radius", 0.125).set("wireType", "Dispersive").set("filename", "wire.dat"); r.push_back(wd);
    J s = simple(1, "sibc", "SIBC"); s.set("surfaceType", "File").set("filename", "skin.mibc"); r.push_back(s);
    for (int n = 1; n <= 3; n++) for (int fit = 0; fit < 2; fit++) {
        J m = simple(1, "layers", "SIBC"); m.set("surfaceType", "Layers"); J l = J::arr();
        for (int i = 0; i < n; i++) l.push(J::obj({{"thickness", 0.5 + i}, {"permittivity", 2.0 + i}, {"permeability", 3.0 + i}, {"elecCond", 10.0 * i}}));
        m.set("layers", l).set("useSembaVectorFitting", J::boolean(fit)); if (fit) m.set("freqMin", 1e6 * n).set("freqMax", 1e9 * n).set("numberOfPoles", 5 + n);
        r.push_back(m);
    }
    J g = simple(1, "gap", "Thin_gap"); g.set("width", 1e-3); r.push_back(g); g.set("width", 0.0); r.push_back(g);
    for (const char* t : {"Conn_short", "Conn_open", "Conn_matched", "Conn_sRLC", "Conn_pRLC", "Conn_sLpRC", "Conn_dispersive"}) {
        J c = simple(1, "conn", "Connector"); c.set("connectorType", t);
        if (!strcmp(t, "Conn_dispersive")) c.set("filename", "conn.dat");
        else if (strcmp(t, "Conn_short") && strcmp(t, "Conn_open")) c.set("resistance", 50).set("inductance", 1e-9).set("capacitance", 2e-12);
        r.push_back(c);
    }
    return r;
}
inline std::vector<J> connectors() {
    std::vector<J> r; int at[] = {21, 1, 8, 30, 2, 13, 21};
    int k = 0; for (auto& m : materials()) if (m["materialType"].s == "Connector") { J c = m; c.del("materialId").del("name"); c.set("coordIds", at[k++]); r.push_back(c); }
    return r;
}
inline std::vector<J> magnitudes() {
    J f = J::obj({{"type", "File"}, {"filename", "signal.exc"}}), b = J::obj({{"type", "Band_limited"}, {"frequencyMinimum", 1e6}, {"frequencyMaximum", 3e8}});
    return {gaussian(), gaussian(2.5e6), b, f};
}
inline std::vector<J> sources() {
    std::vector<J> r;
    for (auto& m : magnitudes()) {
        for (const char* box : {"{1.5 1 2.5 0 0.5 -1}", "{2 2 2 -2 -2 -2}", "{ 1.0e0 0.5 .5   0 0 0 }"}) {
            J p = planewave(); p.set("magnitude", m).set("layerBox", box); r.push_back(p);
            p.set("directionVector", "{0.6 0 -0.8}").set("polarizationVector", "{0 -1 0}"); r.push_back(p);
        }
        for (int th = 0; th <= 90; th += 45) for (int ph = 0; ph <= 180; ph += 90) {
            J p = planewave(); p.set("magnitude", m).del("directionVector").del("polarizationVector");
            p.set("definitionMode", "by_angles").set("directionTheta", th).set("directionPhi", ph).set("polarizationAlpha", 90 + th).set("polarizationBeta", ph); r.push_back(p);
        }
        J p = planewave(); p.set("magnitude", m).del("directionVector").del("polarizationVector"); p.set("definitionMode", "randomized_multisource").set("numberOfRandomPlanewaves", 5).set("relativeVariationOfRandomDelay", 0.25); r.push_back(p);
        for (const char* t : {"voltage", "current"}) for (auto& ids : {J::arr({1}), J::arr({21, 8}), J::arr({30, 13, 2})})
            r.push_back(J::obj({{"sourceType", "generator"}, {"type", t}, {"coordIds", ids}, {"magnitude", m}}));
        for (const char* t : {"electricField", "magneticField"}) for (const char* h : {"soft", "hard"}) for (auto& ids : {J::arr({11}), J::arr({2, 11})})
            r.push_back(J::obj({{"sourceType", "sourceOnLine"}, {"type", t}, {"hardness", h}, {"elemIds", ids}, {"magnitude", m}}));
        for (const char* mode : {"TE", "TM"}) for (int a = 0; a <= 2; a++) for (int b = 0; b <= 2; b++) {
            if (!a && !b) continue;
            r.push_back(J::obj({{"sourceType", "waveguidePort"}, {"shape", "Rectangular"}, {"excitationMode", mode}, {"firstMode", a}, {"secondMode", b}, {"elemIds", (a + b) % 2 ? J::arr({3}) : J::arr({10, 3})}, {"magnitude", m}}));
        }
        for (const char* mode : {"Voltage", "Current"}) for (const char* o : {"{0 0 0}", "{0.5 0.5 0}"})
            r.push_back(J::obj({{"sourceType", "temPort"}, {"excitationMode", mode}, {"origin", o}, {"innerRadius", 0.125}, {"outerRadius", 0.75}, {"elemIds", J::arr({10})}, {"magnitude", m}}));
    }
    return r;
}
inline std::vector<J> domains() {
    J t = timeDomain();
    J f = J::obj({{"initialFrequency", 1e6}, {"finalFrequency", 1e9}, {"frequencyStep", 5e5}, {"logFrequencySweep", J::boolean(false)}});
    J l = f; l.set("logFrequencySweep", J::boolean(true)).set("transferFunctionFile", "tf.dat");
    J b = t; for (auto& p : f.o) b.set(p.first, p.second);
    J z = J::obj({{"initialTime", 0}, {"finalTime", 0}, {"samplingPeriod", 0}});
    return {t, f, l, b, J::obj(), z};
}
inline std::vector<J> outputs() {
    std::vector<J> r;
    auto doms = domains();
    static const std::vector<Str> types = {"electricField", "magneticField", "electricFieldNormals", "magneticFieldNormals", "current", "surfaceCurrentDensity", "bulkCurrentElectric", "bulkCurrentMagnetic"};
    static const std::vector<Str> boxes = {"{1 1 1 0 0 0}", "{0.5 2 3 0.5 -1 0}", "{0.5 2 3 -0.5 2 0}", "{1 2 3 0 0 3}", "{0 0 1 0 0 0}", "{2 0 1 1 0 1}", "{0 2 1 0 1 1}", "{1 2 3 1 2 3}"};
    for (auto& t : types) for (auto& d : doms) for (int g = 0; g < 4; g++) {
        static const char* gid[] = {"OutRq_on_layer", "OutRq_on_point", "OutRq_on_line", "OutRq_on_surface"};
        bool bulk = t.find("bulk") == 0;
        for (size_t v = 0; v < (g == 0 ? boxes.size() : 3); v++) {
            J o = J::obj({{"gidOutputType", gid[g]}, {"name", MC_STR("out" << r.size())}, {"type", t}, {"domain", d}});
            if (g == 0) o.set("box", boxes[v]);
            if (g == 1) o.set("elemIds", v == 0 ? J::arr({1}) : v == 1 ? J::arr({21, 30}) : J::arr());
            if (g == 2) o.set("elemIds", v == 0 ? J::arr({11}) : v == 1 ? J::arr({2, 11}) : J::arr());
            if (g == 3) o.set("elemIds", v == 0 ? J::arr({5}) : v == 1 ? J::arr({10, 5, 3}) : J::arr());
            if (bulk) o.set("direction", v % 3 == 0 ? "x" : v % 3 == 1 ? "y" : "z").set("skip", int(v));
            r.push_back(o);
        }
    }
    for (auto& d : doms) for (auto& b : {boxes[0], Str("{2 2 2 -1 -1.5 -2}"), Str("{3.25 1e1 1e2 3 1 1}")}) {
        J o = J::obj({{"gidOutputType", "Far_field"}, {"name", MC_STR("far" << r.size())}, {"type", "farField"}, {"domain", d}, {"box", b}});
        int k = 0; for (const char* a : {"initialTheta", "finalTheta", "stepTheta", "initialPhi", "finalPhi", "stepPhi"}) o.set(a, k++ * 15 + (double)(r.size() % 7));
        r.push_back(o);
    }
    return r;
}
inline std::vector<J> grids() {
    std::vector<J> r;
    static const std::vector<Str> boxes = {"{2 1 3 0 0 0}", "{1 1 1 -1 -2 -0.5}", "{0.3 10 1e3 0.1 -10 0}"};
    for (auto& b : boxes) for (const char* n : {"{1 1 1}", "{4 2 3}", "{10 1 7}"}) r.push_back(J::obj({{"gridType", "gridCondition"}, {"type", "Number_of_cells"}, {"numberOfCells", n}, {"layerBox", b}}));
    for (const char* n : {"{0.5 0.25 1.0}", "{0.3 0.4 0.7}", "{1 1 1}", "{5 5 5}"}) for (int fit = 0; fit < 2; fit++)
        r.push_back(J::obj({{"gridType", "gridCondition"}, {"type", "Step_size"}, {"stepSize", n}, {"fitSizeToBox", J::boolean(fit)}, {"layerBox", boxes[0]}}));
    std::vector<J> plain = r;
    for (size_t i : {1ul, 9ul, 10ul, 11ul, 12ul}) for (const char* ty : {"by_number_of_cells", "by_distance"}) for (int same = 0; same < 2; same++) for (const char* lo : {"{0 0 0}", "{1 2 3}", "{4 0 2}"}) for (const char* up : {"{0 0 0}", "{2 1 0}"}) {
        J g = plain[i]; g.set("boundaryPaddingType", ty).set("lowerPadding", lo).set("upperPadding", up).set("lowerPaddingMeshSize", "{0.5 0.5 0.5}").set("upperPaddingMeshSize", "{1 0.25 0.5}"); if (same) g.set("lowerPaddingMeshSize", "{0.0 0.0 0.0}").set("upperPaddingMeshSize", "{1 0 0}"); r.push_back(g);
    }
    J n = J::obj({{"gridType", "nativeGiD"}, {"corner", "{0 0 0}"}, {"boxSize", "{1 2 3}"}, {"nGridPoints", "{3 3 4}"}, {"xCoordinates", J::arr({0, 0.5, 1.0})}, {"yCoordinates", J::arr({0.0, 0.25, 2.0})}, {"zCoordinates", J::arr({-1, 0, 1, 3})}});
    r.push_back(n); n.set("xCoordinates", J::arr()).set("yCoordinates", J::arr()).set("zCoordinates", J::arr()).set("corner", "{-1 0 2}"); r.push_back(n);
    r.push_back(J::obj({{"gridType", "positionsFromFile"}, {"filename", "grid.dat"}}));
    return r;
}
} // namespace prob
