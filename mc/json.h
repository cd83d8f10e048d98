// In-memory problem documents: built by the harness, written as JSON text for
// the library and read directly by the oracle (no parser in between).
#pragma once
#include "mc.h"
#include <climits>
struct J {
    enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k;
    std::string s;                                    // number spelling, string, "true"/"false"
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
    J() : k(NUL) {}
    J(const char* v) : k(STR), s(v) {}
    J(const std::string& v) : k(STR), s(v) {}
    J(int v) : k(NUM), s(std::to_string(v)) {}
    J(size_t v) : k(NUM), s(std::to_string(v)) {}
    J(double v) : k(NUM), s(MC_STR(v)) { if (s.find_first_of(".e") == std::string::npos) s += ".0"; }
    static J num(const std::string& v) { J j; j.k = NUM; j.s = v; return j; }
    static J boolean(bool v) { J j; j.k = BOOL; j.s = v ? "true" : "false"; return j; }
    static J arr(const std::vector<J>& v = {}) { J j; j.k = ARR; j.a = v; return j; }
    static J obj(const std::vector<std::pair<std::string, J>>& v = {}) { J j; j.k = OBJ; j.o = v; return j; }
    bool has(const std::string& n) const { for (auto& p : o) if (p.first == n) return true; return false; }
    const J& operator[](const std::string& n) const { for (auto& p : o) if (p.first == n) return p.second; static J none; return none; }
    J& at(const std::string& n) { for (auto& p : o) if (p.first == n) return p.second; o.push_back(std::make_pair(n, J())); return o.back().second; }
    J& set(const std::string& n, const J& v) { at(n) = v; return *this; }
    J& del(const std::string& n) { for (size_t i = 0; i < o.size(); i++) if (o[i].first == n) { o.erase(o.begin() + i); break; } return *this; }
    J& push(const J& v) { a.push_back(v); return *this; }
    // what the value means as a number; whatever is not a number compares unequal to everything
    double d() const { return k == NUM ? strtod(s.c_str(), 0) : k == BOOL ? s == "true" : NAN; }
    long i() const { double v = d(); return v == v && fabs(v) < 1e18 ? (long)v : LONG_MIN; }
    bool is(const char* v) const { return k == STR && s == v; }
    // the items a list stands for (a lone value is a list of one)
    std::vector<J> items() const { if (k == ARR) return a; if (k == NUL) return {}; if (k != OBJ) return {*this}; std::vector<J> r; for (auto& p : o) r.push_back(p.second); return r; }
    bool b() const { return s == "true"; }
};
enum Style { COMPACT, PRETTY, REVERSED, SPREAD, NSTYLE };
inline std::string quoted(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t";
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += (char)c;
    }
    return r + "\"";
}
inline void writeJson(const J& j, int style, int depth, std::string& r) {
    auto nl = [&](int d) { if (style == PRETTY) { r += "\n"; r.append(4 * d, ' '); } else if (style == SPREAD) r += "\r\n\t "; };
    switch (j.k) {
    case J::NUL: r += "null"; break;
    case J::STR: r += quoted(j.s); break;
    case J::BOOL: case J::NUM: r += j.s; break;
    case J::ARR:
        r += "[";
        for (size_t i = 0; i < j.a.size(); i++) { if (i) r += ","; nl(depth + 1); writeJson(j.a[i], style, depth + 1, r); }
        nl(depth); r += "]"; break;
    case J::OBJ:
        r += "{";
        for (size_t i = 0; i < j.o.size(); i++) {
            auto& p = j.o[style == REVERSED ? j.o.size() - 1 - i : i];
            if (i) r += ","; nl(depth + 1); r += quoted(p.first) + (style == COMPACT ? ":" : " : "); writeJson(p.second, style, depth + 1, r);
        }
        nl(depth); r += "}"; break;
    }
}
inline std::string text(const J& j, int style = COMPACT) { std::string r; writeJson(j, style, 0, r); return r; }
