// Bounded-exhaustive explorer used by every harness in /verif/mc.
//
// A harness is a deterministic enumeration of cases (an operation history, an
// input document, a shape...).  Every case is executed on the real OpenSEMBA
// code and compared, step by step, against a reference model.  The explorer
//   * numbers the cases, and splits them over worker processes (shards);
//   * survives crashes and hangs of the code under test (they are violations
//     of the case that was running) and resumes with the next case;
//   * counts cases, transitions (operations executed on the implementation)
//     and distinct observed states (64-bit hash of a canonical rendering);
//   * can re-run one case alone (replay).
// No sampling anywhere: no harness draws a random number.
#pragma once
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <algorithm>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <stdexcept>
#include <typeinfo>
#include <unordered_set>
#include <vector>

namespace mc {

struct Shared {
    volatile uint64_t current;   // index (1-based) of the case being run
    volatile uint64_t cases, transitions;
    volatile uint64_t heartbeat;
    volatile int done;
};

struct State {
    bool thorough = false;
    bool replay = false;
    uint64_t replayIdx = 0;
    unsigned shard = 0, nshards = 1;
    uint64_t resumeAfter = 0;
    uint64_t idx = 0;
    Shared* sh = nullptr;
    int outfd = -1;
    std::function<std::string()> describe;
    std::string desc;
    std::unordered_set<uint64_t> states;
    std::map<std::string, uint64_t> outcomes;
    std::map<std::string, uint64_t> vcount;
    std::vector<std::string> samples;
    uint64_t nviol = 0;
};
inline State& S() { static State s; return s; }

inline bool thorough() { return S().thorough; }
template<typename A> A pick(A quick, A deep) { return thorough() ? deep : quick; }

inline std::string esc(const std::string& in) {
    std::string r;
    for (size_t i = 0; i < in.size(); i++) {
        unsigned char c = in[i];
        if (c == '\n') r += "\\n";
        else if (c == '\t') r += "\\t";
        else if (c == '\r') r += "\\r";
        else if (c == '\\') r += "\\\\";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r;
}
inline void emit(const std::string& line) {
    std::string l = line + "\n";
    if (S().outfd >= 0) { ssize_t n = write(S().outfd, l.data(), l.size()); (void)n; }
    else { fwrite(l.data(), 1, l.size(), stderr); }
}
inline uint64_t fnv(const std::string& s) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.size(); i++) { h ^= (unsigned char)s[i]; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
// An observed state (canonical rendering of what the implementation shows).
inline void state(const std::string& canon) { S().states.insert(fnv(canon)); }
// n operations executed on the implementation and compared with the model.
inline void step(uint64_t n = 1) { S().sh->transitions += n; S().sh->heartbeat++; }
inline void outcome(const std::string& k, uint64_t n = 1) { S().outcomes[k] += n; }

// sig identifies what fails (which law of the oracle); the case description
// tells on which input.
inline void violation(const std::string& sig, const std::string& detail) {
    State& s = S();
    s.nviol++;
    uint64_t n = ++s.vcount[sig];
    if (n > 300 && !s.replay) return;
    std::string d = s.describe ? s.describe() : std::string("(outside a case)");
    emit("V\t" + esc(sig) + "\t" + std::to_string(s.idx) + "\t" + esc(d) + "\t" + esc(detail));
}

struct CaseAbort {};
#define MC_STR(expr) ([&]{ std::ostringstream mc_os_; mc_os_ << std::setprecision(17) << expr; return mc_os_.str(); }())
// Record and go on.
#define MC_CHECK(cond, sig, detail) do { if (!(cond)) { ::mc::violation(sig, MC_STR(detail)); } } while (0)
// Record and leave the case (the rest of it would only echo this failure).
#define MC_REQUIRE(cond, sig, detail) do { if (!(cond)) { ::mc::violation(sig, MC_STR(detail)); throw ::mc::CaseAbort(); } } while (0)
// Expected: expr throws a std::exception (or anything).  Returns bool.
#define MC_THROWS(...) ([&]{ try { __VA_ARGS__; return false; } catch (const ::mc::CaseAbort&) { throw; } catch (...) { return true; } }())

template<typename D, typename B>
void run(const D& describe, const B& body) {
    State& s = S();
    s.idx++;
    if (s.replay) {
        if (s.idx != s.replayIdx) return;
    } else {
        if (s.idx % s.nshards != s.shard) return;
        if (s.idx <= s.resumeAfter) return;
    }
    s.sh->current = s.idx;
    s.sh->heartbeat++;
    s.describe = describe;
    if (s.replay) {
        emit("C\t" + std::to_string(s.idx) + "\t" + esc(describe()));
    }
    s.sh->cases++;
    if (s.samples.size() < 2 || (s.idx & (s.idx - 1)) == 0) {
        if (s.samples.size() < 24) s.samples.push_back(describe());
    }
    try {
        body();
    } catch (const CaseAbort&) {
    } catch (const std::exception& e) {
        violation(std::string("unexpected-exception:") + typeid(e).name(),
                  std::string("unexpected exception: ") + e.what());
    } catch (...) {
        violation("unexpected-exception:unknown", "unexpected non-standard exception");
    }
    s.describe = nullptr;
}

inline void finishWorker() {
    State& s = S();
    std::ostringstream o;
    emit("E\t" + std::to_string(s.idx));
    for (auto& p : s.outcomes) emit("O\t" + esc(p.first) + "\t" + std::to_string(p.second));
    for (auto& p : s.vcount) emit("N\t" + esc(p.first) + "\t" + std::to_string(p.second));
    for (auto& p : s.samples) emit("S\t" + esc(p.substr(0, 2000)));
    std::string buf;
    for (uint64_t h : s.states) {
        char b[24]; snprintf(b, sizeof b, "H\t%016llx\n", (unsigned long long)h);
        buf += b;
        if (buf.size() > 60000) { ssize_t n = write(s.outfd, buf.data(), buf.size()); (void)n; buf.clear(); }
    }
    if (!buf.empty()) { ssize_t n = write(s.outfd, buf.data(), buf.size()); (void)n; }
    s.sh->done = 1;
}

// usage: harness OUTFILE [--thorough] [--shards N] [--case IDX] [--scratch DIR]
inline std::string& scratchDir() { static std::string d; return d; }

inline int main_(int argc, char** argv, void (*body)()) {
    State& s = S();
    std::string out;
    unsigned nsh = 8;
    double limit = 60;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") s.thorough = true;
        else if (a == "--shards") nsh = atoi(argv[++i]);
        else if (a == "--case") { s.replay = true; s.replayIdx = strtoull(argv[++i], 0, 10); }
        else if (a == "--scratch") scratchDir() = argv[++i];
        else if (a == "--limit") limit = atof(argv[++i]);
        else out = a;
    }
    if (scratchDir().empty()) { fprintf(stderr, "need --scratch DIR\n"); return 2; }
    std::string base = scratchDir();
    if (s.replay) nsh = 1;
    std::vector<Shared*> sh(nsh);
    for (auto& p : sh) {
        p = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*)p, 0, sizeof(Shared));
    }
    int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (fd < 0) { perror(out.c_str()); return 2; }
    std::vector<pid_t> pid(nsh, 0);
    std::vector<uint64_t> resume(nsh, 0), hb(nsh, 0), crashes(nsh, 0);
    std::vector<double> since(nsh, 0);
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; };
    auto spawn = [&](unsigned k) {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0) {
            s.sh = sh[k]; s.shard = k; s.nshards = nsh; s.resumeAfter = resume[k]; s.outfd = fd;
            scratchDir() = base + "/w" + std::to_string(k);
            mkdir(scratchDir().c_str(), 0755);
            if (chdir(scratchDir().c_str())) _exit(3);
            if (!s.replay) {
                // the library prints; keep the check's own output clean
                int dn = open("/dev/null", O_WRONLY);
                dup2(dn, 1);
                int ef = open("stderr.txt", O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(ef, 2);
            }
            body();
            s.describe = nullptr;
            finishWorker();
            _exit(0);
        }
        pid[k] = p; hb[k] = sh[k]->heartbeat; since[k] = now();
    };
    for (unsigned k = 0; k < nsh; k++) spawn(k);
    unsigned live = nsh;
    while (live) {
        usleep(5000);
        for (unsigned k = 0; k < nsh; k++) {
            if (!pid[k]) continue;
            int st;
            pid_t r = waitpid(pid[k], &st, WNOHANG);
            bool hang = false;
            if (r == 0) {
                if (sh[k]->heartbeat != hb[k]) { hb[k] = sh[k]->heartbeat; since[k] = now(); continue; }
                if (now() - since[k] < limit) continue;
                kill(pid[k], SIGKILL);
                waitpid(pid[k], &st, 0);
                hang = true;
            }
            pid[k] = 0;
            if (!hang && sh[k]->done && WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
            uint64_t idx = sh[k]->current;
            std::string how = hang ? "hang" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                                              : "exit " + std::to_string(WEXITSTATUS(st));
            std::string tail;
            {
                std::string fn = base + "/w" + std::to_string(k) + "/stderr.txt";
                FILE* f = fopen(fn.c_str(), "r");
                if (f) { char b[6000]; size_t n = fread(b, 1, sizeof b - 1, f); b[n] = 0; tail = b; fclose(f); }
            }
            std::string l = "X\t" + std::to_string(idx) + "\t" + how + "\t" + esc(tail) + "\n";
            ssize_t n = write(fd, l.data(), l.size()); (void)n;
            resume[k] = idx;
            if (s.replay || ++crashes[k] > 40 || sh[k]->done) {
                if (!s.replay) { std::string c = "A\tabandoned\n"; n = write(fd, c.data(), c.size()); }
                live--; continue;
            }
            spawn(k);
        }
    }
    uint64_t cases = 0, tr = 0;
    for (auto p : sh) { cases += p->cases; tr += p->transitions; }
    std::string l = "T\t" + std::to_string(cases) + "\t" + std::to_string(tr) + "\n";
    ssize_t n = write(fd, l.data(), l.size()); (void)n;
    return 0;
}

// ---------------------------------------------------------------- helpers
inline bool near(double a, double b, double tol = 1e-9) {
    if (a == b) return true;
    if (std::isnan(a) || std::isnan(b)) return false;
    double m = std::max(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= tol * std::max(1.0, m);
}
template<typename T> std::string vec(const T& v) {
    std::ostringstream o; o << std::setprecision(17) << "[";
    bool f = true;
    for (auto& x : v) { if (!f) o << " "; f = false; o << x; }
    o << "]"; return o.str();
}
// Every sequence of length 0..depth (or exactly depth) over {0..n-1}.
template<typename F> void sequences(unsigned n, unsigned depth, const F& f) {
    std::vector<unsigned> seq;
    std::function<void()> rec = [&] {
        if (seq.size() == depth) { f(seq); return; }
        for (unsigned i = 0; i < n; i++) { seq.push_back(i); rec(); seq.pop_back(); }
    };
    rec();
}
template<typename F> void product(const std::vector<unsigned>& dims, const F& f) {
    std::vector<unsigned> cur(dims.size(), 0);
    for (unsigned d : dims) if (d == 0) return;
    while (true) {
        f(cur);
        size_t k = 0;
        while (k < dims.size() && ++cur[k] == dims[k]) { cur[k] = 0; k++; }
        if (k == dims.size()) return;
    }
}
} // namespace mc
