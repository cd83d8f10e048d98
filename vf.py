#!/usr/bin/env python3
"""Driver of the OpenSEMBA checks.

  vf.py setup                      build every harness from /repo's working tree
  vf.py check PXX [--thorough]     build, explore, write evidence/PXX.json, exit 0 / 1
  vf.py replay FILE                re-run the case recorded in a replay file

Objects are cached in /verif/build under a key made of the compiler command and
the *contents* of every file the translation unit read, so a check never uses an
object that does not correspond to /repo's current working tree.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
CXX = "g++"
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
COMMON = ["-g1", "-w", "-O1", "-D_GLIBCXX_ASSERTIONS", '-DOPENSEMBA_VERSION="0.14"'] + SAN
INC = ["-I" + REPO + "/external", "-I" + REPO + "/external/json", "-I" + REPO + "/external/gidpost",
       "-I" + REPO + "/src", "-I" + REPO + "/src/core", "-I" + HERE + "/mc"]
CXXFLAGS = ["-std=c++14"] + COMMON + INC
CFLAGS = COMMON + INC
JOBS = os.cpu_count() or 4
_hash = {}


def fhash(p):
    h = _hash.get(p)
    if h is None:
        try:
            with open(p, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        _hash[p] = h
    return h


def deps_of(dfile):
    s = open(dfile).read().replace("\\\n", " ")
    return sorted(set(s.split(":", 1)[1].split()))


def compile_tu(src):
    """Returns (object path, error text)."""
    cc = ["gcc"] + CFLAGS if src.endswith(".c") else [CXX] + CXXFLAGS
    name = hashlib.sha1((" ".join(cc) + src).encode()).hexdigest()[:16]
    slot = os.path.join(BUILD, "obj", name)
    meta, obj = slot + ".json", slot + ".o"
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if all(fhash(p) == h for p, h in m.items()):
                return obj, None
        except ValueError:
            pass
    for p in (meta, obj):
        if os.path.exists(p):
            os.remove(p)
    d = slot + ".d"
    r = subprocess.run(cc + ["-MMD", "-MF", d, "-c", src, "-o", obj], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, r.stdout
    json.dump({p: fhash(p) for p in deps_of(d)}, open(meta, "w"))
    return obj, None


def lib_sources():
    res = []
    for top in ("src/core", "src/parser", "src/exporter", "src/mesher", "src/solver"):
        for root, _, files in os.walk(os.path.join(REPO, top)):
            res += [os.path.join(root, f) for f in files if f.endswith(".cpp")]
    gp = os.path.join(REPO, "external/gidpost")
    res += [os.path.join(gp, f) for f in sorted(os.listdir(gp)) if f.endswith(".c")]
    return sorted(res)


def harness_src(prop):
    g = sorted(glob.glob(os.path.join(HERE, "mc", prop.lower() + "_*.cpp")))
    if not g:
        sys.exit("no harness for " + prop)
    return g[0]


def all_props():
    return sorted({os.path.basename(f).split("_")[0].upper() for f in glob.glob(os.path.join(HERE, "mc", "p[0-9]*_*.cpp"))})


def build(props):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    libs, harn = lib_sources(), [harness_src(p) for p in props]
    objs, errs = {}, []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        # biggest first: the harnesses
        futs = {ex.submit(compile_tu, s): s for s in harn + libs}
        for f in cf.as_completed(futs):
            o, e = f.result()
            if e:
                errs.append((futs[f], e))
            objs[futs[f]] = o
    if errs:
        for s, e in errs:
            sys.stderr.write("cannot compile %s\n%s\n" % (s, e[:6000]))
        sys.exit(2)
    libo = [objs[s] for s in libs]
    key = hashlib.sha1("".join(fhash(o) for o in libo).encode()).hexdigest()
    lib, stamp = os.path.join(BUILD, "libsemba.a"), os.path.join(BUILD, "libsemba.key")
    if not (os.path.exists(lib) and os.path.exists(stamp) and open(stamp).read() == key):
        if os.path.exists(lib):
            os.remove(lib)
        subprocess.run(["ar", "qcs", lib] + libo, check=True)
        open(stamp, "w").write(key)

    def link(p):
        o = objs[harness_src(p)]
        exe = os.path.join(BUILD, p.lower())
        k = key + fhash(o)
        st = exe + ".key"
        if os.path.exists(exe) and os.path.exists(st) and open(st).read() == k:
            return None
        r = subprocess.run([CXX] + SAN + ["-o", exe, o, lib, "-lz", "-ldl", "-lpthread"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            r = subprocess.run([CXX] + SAN + ["-o", exe, o, lib, "-ldl", "-lpthread"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return r.stdout
        open(st, "w").write(k)
        return None
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for p, e in zip(props, ex.map(link, props)):
            if e:
                sys.stderr.write("cannot link %s\n%s\n" % (p, e[:6000]))
                sys.exit(2)
    fcntl.flock(lock, fcntl.LOCK_UN)


def unesc(s):
    return s.replace("\\t", "\t").replace("\\n", "\n").replace("\\r", "\r").replace("\\\\", "\\")


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:malloc_context_size=3:exitcode=77:allocator_may_return_null=1:quarantine_size_mb=16:"
           "detect_odr_violation=0:handle_abort=0:max_malloc_fill_size=65536:new_delete_type_mismatch=0", LC_ALL="C.UTF-8")


def execute(prop, thorough, case=None, limit=60):
    scratch = tempfile.mkdtemp(prefix="vf-%s-" % prop.lower(), dir="/tmp")
    out = os.path.join(scratch, "out.txt")
    cmd = [os.path.join(BUILD, prop.lower()), out, "--scratch", scratch, "--limit", str(limit), "--shards", str(JOBS)]
    if thorough:
        cmd.append("--thorough")
    if case is not None:
        cmd += ["--case", str(case)]
    try:
        r = subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        res = {"rc": r.returncode, "log": r.stdout.decode("utf8", "replace"), "viol": [], "crash": [], "outcomes": {}, "counts": {},
               "samples": [], "states": set(), "cases": 0, "transitions": 0, "desc": None, "abandoned": False,
               "enumerated": 0}
        if os.path.exists(out):
            for line in open(out, encoding="latin1"):
                f = line.rstrip("\n").split("\t")
                if f[0] == "V":
                    res["viol"].append((f[1], int(f[2]), f[3], f[4]))
                elif f[0] == "X":
                    res["crash"].append((int(f[1]), f[2], f[3]))
                elif f[0] == "O":
                    res["outcomes"][f[1]] = res["outcomes"].get(f[1], 0) + int(f[2])
                elif f[0] == "N":
                    res["counts"][f[1]] = res["counts"].get(f[1], 0) + int(f[2])
                elif f[0] == "S":
                    if len(res["samples"]) < 12:
                        res["samples"].append(unesc(f[1]))
                elif f[0] == "H":
                    res["states"].add(f[1])
                elif f[0] == "C":
                    res["desc"] = f[2]
                elif f[0] == "A":
                    res["abandoned"] = True
                elif f[0] == "E":
                    res["enumerated"] = max(res["enumerated"], int(f[1]))
                elif f[0] == "T":
                    res["cases"], res["transitions"] = int(f[1]), int(f[2])
        return res
    finally:
        subprocess.run(["rm", "-rf", scratch])


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def asan_sig(tail):
    """What the crash was, as the sanitizer says it."""
    t = unesc(tail)
    m = re.search(r"AddressSanitizer: (\S+)", t) or re.search(r"(Assertion) ", t) or re.search(r"(terminate called[^\n]*)", t)
    return m.group(1) if m else ""


def check(prop, thorough):
    t0 = time.time()
    build([prop])
    tb = time.time() - t0
    res = execute(prop, thorough)
    if res["rc"] != 0:
        sys.stderr.write("harness failed: rc=%s\n%s\n" % (res["rc"], res["log"][-4000:]))
        return 2
    # crashes and hangs: the violation of the case that was running
    items = []
    for sig, idx, desc, detail in res["viol"]:
        items.append((sig, idx, desc, detail))
    for n, (idx, how, tail) in enumerate(res["crash"]):
        if n >= 12:
            items.append(("crash:" + how, idx, "", tail[:1500]))
            continue
        again = execute(prop, thorough, case=idx, limit=240 if how == "hang" else 60)
        if how == "hang" and not again["crash"]:
            sys.stderr.write("case %d exceeded its time limit under load, finished alone\n" % idx)
            for v in again["viol"]:
                items.append(v)
            continue
        items.append(("crash:" + how + ":" + asan_sig(tail), idx, again["desc"] or "", tail[:1500]))
    kf = [k for k in known_findings() if k["property"] == prop and k.get("status", "open") == "open"]
    seen_known, new = {}, []
    for it in items:
        k = next((k for k in kf if re.fullmatch(k["signature"], it[0]) and re.search(k["case"], unesc(it[2]))), None)
        if k:
            seen_known.setdefault(k["id"], (k, it))
        else:
            new.append(it)
    for kid in sorted(seen_known):
        k, it = seen_known[kid]
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, kid, k["what"]))
    # one violation per signature, confirmed by replaying the recorded case alone
    lines, done = [], set()
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in glob.glob(os.path.join(rdir, prop + "-*.json")):
        os.remove(f)
    for sig, idx, desc, detail in new:
        if sig in done or len(done) >= 25:
            continue
        done.add(sig)
        rep = execute(prop, thorough, case=idx, limit=240)
        ok = any(v[0] == sig for v in rep["viol"]) or (sig.startswith("crash:") and bool(rep["crash"]))
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(done)))
        json.dump({"property": prop, "tier": "thorough" if thorough else "quick", "case": idx, "signature": sig,
                   "input": unesc(desc), "detail": unesc(detail), "replayed_alone": ok,
                   "how": "python3 vf.py replay " + path}, open(path, "w"), indent=1)
        print("  what fails : " + sig)
        print("  on         : " + unesc(desc)[:1500])
        print("  detail     : " + unesc(detail)[:1500])
        print("  replayed   : " + ("yes" if ok else "NOT reproduced alone"))
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
    wall = time.time() - t0
    vac = []
    if res["cases"] == 0 or res["transitions"] == 0 or len(res["states"]) < 2:
        vac.append("vacuous exploration")
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": "model_checking",
          "coverage": {"states": len(res["states"]), "transitions": res["transitions"],
                       "traces_validated_against_impl": res["cases"],
                       "samples": res["samples"] or ["-"],
                       "exhaustive": not res["abandoned"] and not vac,
                       "distinct_outcomes": res["outcomes"],
                       "cases_enumerated": res["enumerated"],
                       "violations_by_signature": res["counts"],
                       "known_findings_seen": sorted(seen_known)},
          "assumptions": ["the enumeration is complete within the bounds stated for this property in DESIGN.md; no sampling, the seed is not used",
                          "g++ 13, -O1 with AddressSanitizer and checked standard containers, OpenSEMBA sources of /repo's working tree"],
          "wall_s": round(wall, 2), "violations": len(lines)}
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s: cases=%d transitions=%d states=%d outcomes=%s build=%.0fs wall=%.0fs" % (
        prop, res["cases"], res["transitions"], len(res["states"]), json.dumps(res["outcomes"], sort_keys=True), tb, wall))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if lines:
        return 1
    if vac:
        sys.stderr.write("vacuous exploration\n")
        return 2
    return 0


def replay(path):
    r = json.load(open(path))
    build([r["property"]])
    res = execute(r["property"], r["tier"] == "thorough", case=r["case"], limit=240)
    print("input : " + unesc(res["desc"] or ""))
    for v in res["viol"]:
        print("fails : " + v[0] + " -- " + unesc(v[3]))
    for c in res["crash"]:
        print("crash : " + c[1] + "\n" + unesc(c[2]))
    return 1 if res["viol"] or res["crash"] else 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        build(all_props())
        print("built " + " ".join(all_props()))
    elif a[:1] == ["check"]:
        sys.exit(check(a[1], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough"))
    elif a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    else:
        sys.exit(__doc__)
