#!/usr/bin/env python3
"""Decides one property: builds the engine and /repo's current sources, runs the
property's harnesses under the symbolic runtime, replays every counterexample
against the ordinary build of the same sources and writes the evidence file."""
import argparse, concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(V, "build")
ENG = os.path.join(V, "engine")
Z3 = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
STD = ["-std=gnu++17", "-O1", "-ffp-contract=off"]
INC = ["-include", f"{ENG}/vf_env.hpp", f"-I{ENG}", f"-I{V}/harness", f"-I{REPO}/src", "-isystem", "/usr/include/hdf5/serial"]
SAN = ["-g1", "-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=float-divide-by-zero,vptr", "-fno-sanitize-recover=undefined,float-cast-overflow"]
H5 = "/usr/lib/x86_64-linux-gnu/hdf5/serial/"
LIBS = ["-lpugixml", "-lxerces-c", H5 + "libhdf5_cpp.so", H5 + "libhdf5.so", "-lpthread", "-ldl"]
sys.path.insert(0, os.path.join(V, "harness"))


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def digest(*paths_or_text):
    h = hashlib.sha256()
    for p in paths_or_text:
        if os.path.isfile(p):
            h.update(open(p, "rb").read())
        else:
            h.update(p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def make(out, cmd):
    if os.path.exists(out):
        os.utime(out)
        return out
    tmp = out + f".tmp{os.getpid()}"
    r = sh(cmd + ["-o", tmp], env=dict(os.environ, **({"VF_MEM": "1"} if "/m_" in out or "/h_" in out else {}), **({"VF_HOOKS": "1"} if "/h_" in out else {})))
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-4000:])
    os.replace(tmp, out)
    return out


def build_engine():
    ex = cf.ThreadPoolExecutor(8)
    cfg = sh(["llvm-config-18", "--cxxflags"]).stdout.split()
    hdr = [f"{ENG}/vf.hpp", f"{ENG}/vf_poly.hpp", f"{ENG}/vf_env.hpp"]
    jobs = {}
    o = {}
    o["pass"] = f"{BUILD}/libvfpass_{digest(ENG + '/vfpass.cpp')}.so"
    jobs["pass"] = ["clang++", "-O1", "-fno-rtti", "-fPIC", "-shared", *cfg, f"{ENG}/vfpass.cpp"]
    o["rt"] = f"{BUILD}/vf_rt_{digest(ENG + '/vf_rt.cpp', *hdr)}.o"
    jobs["rt"] = ["clang++", "-std=gnu++17", "-O1", f"-I{Z3}/include", "-c", f"{ENG}/vf_rt.cpp"]
    o["sched"] = f"{BUILD}/vf_sched_{digest(ENG + '/vf_sched.cpp', *hdr)}.o"
    jobs["sched"] = ["clang++", "-std=gnu++17", "-O1", "-c", f"{ENG}/vf_sched.cpp"]
    o["nat"] = f"{BUILD}/vf_native_{digest(ENG + '/vf_native.cpp', *hdr)}.o"
    jobs["nat"] = ["clang++", "-std=gnu++17", "-O1", "-c", f"{ENG}/vf_native.cpp"]
    fs = {k: ex.submit(make, o[k], c) for k, c in jobs.items()}
    return ex, o, fs


def repo_sources():
    d = os.path.join(REPO, "src")
    cpps = sorted(f for f in os.listdir(d) if f.endswith(".cpp") and f != "minimc.cpp")
    alltext = digest(*[os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith((".hpp", ".h", ".hh", ".ipp", ".inl", ".tpp"))])
    return d, cpps, alltext


def build(harnesses, mem):
    """returns {harness: (symbolic exe, native exe)}"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    ex, eng, fs = build_engine()
    passso = fs["pass"].result()
    d, cpps, hh = repo_sources()
    P = [f"-fpass-plugin={passso}"]
    envh = digest(f"{ENG}/vf_env.hpp", f"{ENG}/vf.hpp", passso, *STD, *SAN)
    hcommon = digest(*[os.path.join(V, "harness", f) for f in sorted(os.listdir(os.path.join(V, "harness"))) if f.endswith(".hpp")])
    sobj, nobj = [], []
    # replay build: plain code with sanitizers, or with scheduling hooks only
    NP, ntag = (P, "h_") if mem else (SAN, "n_")
    for f in cpps:
        src = os.path.join(d, f)
        k = digest(src, hh, envh)
        tag = "m_" if mem else "s_"
        sobj.append(ex.submit(make, f"{BUILD}/{tag}{f[:-4]}_{k}.o", ["clang++", *STD, *INC, *P, "-c", src]))
        nobj.append(ex.submit(make, f"{BUILD}/{ntag}{f[:-4]}_{k}.o", ["clang++", *STD, *NP, *INC, "-c", src]))
    hs = {}
    for h in harnesses:
        src = os.path.join(V, "harness", h + ".cpp")
        k = digest(src, hh, envh, hcommon)
        tag = "m_" if mem else "s_"
        hs[h] = (ex.submit(make, f"{BUILD}/{tag}h_{h}_{k}.o", ["clang++", *STD, *INC, *P, "-c", src]),
                 ex.submit(make, f"{BUILD}/{ntag}h_{h}_{k}.o", ["clang++", *STD, *NP, *INC, "-c", src]))
    so = [x.result() for x in sobj]
    no = [x.result() for x in nobj]
    rt, sched, nat = fs["rt"].result(), fs["sched"].result(), fs["nat"].result()
    out = {}
    ls = {}
    for h, (a, b) in hs.items():
        a, b = a.result(), b.result()
        k = digest(a, b, rt, sched, nat, *so, *no)
        s, n = f"{BUILD}/{h}_{k}.sym", f"{BUILD}/{h}_{k}.nat"
        ls[h] = (ex.submit(make, s, ["clang++", a, *so, rt, sched, *LIBS, f"-L{Z3}/lib", "-lz3", f"-Wl,-rpath,{Z3}/lib"]),
                 ex.submit(make, n, ["clang++", *([] if mem else SAN[1:]), b, *no, nat, *([sched] if mem else []), *LIBS]))
    for h, (a, b) in ls.items():
        out[h] = (a.result(), b.result())
    # bound the cache
    files = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.endswith((".o", ".so", ".sym", ".nat")))
    now = time.time()
    for t, f in files[:max(0, len(files) - 700)]:
        if now - t > 1800:
            os.unlink(os.path.join(BUILD, f))
    fcntl.flock(lock, fcntl.LOCK_UN)
    return out


def native(exe, replay, scratch, timeout=90):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigfpe=0", UBSAN_OPTIONS="print_stacktrace=0:exitcode=98")
    try:
        r = subprocess.run([exe, "--scratch", scratch, replay], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=env, cwd=scratch)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -99, "VF-FAIL hang\n"


def elsewhere(exe, replay, scratch, tried):
    """The solver's model may sit on a degenerate point where ordinary doubles
    do not fail; looks for a point next to it on the real code."""
    msg = open(replay).readline()[2:].strip()
    if tried.get(msg, 0) >= 3 or msg in ("abort", "segv", "fpe", "hang", "signal") or msg.startswith("undefined"):
        return None
    tried[msg] = tried.get(msg, 0) + 1
    found = replay + ".found"
    try:
        r = subprocess.run([exe, "--scratch", scratch, "--search", found, replay], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=40, cwd=scratch,
                           env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:handle_segv=0:handle_abort=0:handle_sigfpe=0", UBSAN_OPTIONS="exitcode=98"))
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 3 or not os.path.exists(found):
        return None
    rc, out = native(exe, found, scratch)
    if not reproduced(msg, rc, out):
        return None
    os.replace(found, replay)
    return rc, out


def reproduced(msg, rc, out):
    if msg.startswith("undefined"):
        return "runtime error" in out or "ERROR: AddressSanitizer" in out or rc in (98, 99)
    if msg in ("abort", "segv", "fpe", "hang", "signal"):
        return rc not in (0,) and ("VF-FAIL" in out or "runtime error" in out or "AddressSanitizer" in out or rc < 0)
    return f"VF-FAIL {msg}" in out or "runtime error" in out or "ERROR: AddressSanitizer" in out


DEADLINE = time.time() + 600
STOP = threading.Event()  # a counterexample was confirmed


def run_spec(spec, exe, nat, tier, root, n, known=()):
    if STOP.is_set():
        return {"harness": spec["h"], "params": dict(spec.get("params", {})), "fp": bool(spec.get("fp")), "desc": "", "wall_s": 0, "log": "", "stats": None, "error": "not run, a violation was already confirmed",
                "violations": [], "spurious": [], "samples": {"tried": 0, "agreed": 0, "diverged": 0, "cases": [], "disagree": []}}
    out = os.path.join(root, f"run{n}")
    scr = os.path.join(out, "scratch")
    os.makedirs(scr)
    budget = spec.get("budget", (100, 600))[0 if tier == "quick" else 1]
    if tier == "quick":  # a quick check answers within its time whatever happens
        budget = max(5, min(budget, DEADLINE - time.time()))
    params = dict(spec.get("params", {}))
    if tier == "thorough":
        params.update(spec.get("thorough", {}))
    cmd = [exe, "--out", out, "--scratch", scr, "--budget", str(budget), "--jobs", str(spec.get("jobs", 3))]
    if tier == "thorough":
        cmd += ["--thorough", "--tmc", "60000"]
    if spec.get("fp"):
        cmd.append("--fp")
    for k, v in spec.get("opts", {}).items():
        cmd += [f"--{k}", str(v)]
    for k, v in params.items():
        cmd += ["--param", f"{k}={v}"]
    t = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True, cwd=scr)
    seen, replayed, searched, stopping = set(), {}, {}, 0
    while True:  # candidates are replayed as they come
        try:
            log, _ = p.communicate(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        if time.time() - t > budget + 60 or (stopping and time.time() - stopping > 20):
            os.killpg(p.pid, signal.SIGKILL)
        elif STOP.is_set():
            if not stopping:
                stopping = time.time()
                p.terminate()
        else:
            for f in sorted(os.listdir(out)):
                path = os.path.join(out, f)
                if f.startswith("viol-") and f.endswith(".replay") and f not in seen and time.time() - os.path.getmtime(path) > 1:
                    seen.add(f)
                    msg = open(path).readline()[2:].strip()
                    replayed[f] = native(nat, path, tempfile.mkdtemp(dir=scr))
                    if not reproduced(msg, *replayed[f]):
                        replayed[f] = elsewhere(nat, path, tempfile.mkdtemp(dir=scr), searched) or replayed[f]
                    if reproduced(msg, *replayed[f]) and not is_known(known, spec["h"], params, msg):
                        STOP.set()
    res = {"harness": spec["h"], "params": params, "fp": bool(spec.get("fp")), "desc": spec.get("desc", ""), "wall_s": round(time.time() - t, 2), "log": log[-2000:]}
    try:
        res["stats"] = json.load(open(os.path.join(out, "stats.json")))
    except Exception as e:
        res["stats"] = None
        res["error"] = f"no statistics: {e}"
    res["violations"], res["spurious"], res["samples"] = [], [], {"tried": 0, "agreed": 0, "diverged": 0, "cases": [], "disagree": []}
    for f in sorted(os.listdir(out)):
        path = os.path.join(out, f)
        if f.startswith("viol-") and f.endswith(".replay"):
            msg = open(path).readline()[2:].strip()
            if f not in replayed:
                replayed[f] = native(nat, path, tempfile.mkdtemp(dir=scr))
                if not reproduced(msg, *replayed[f]) and not STOP.is_set():
                    replayed[f] = elsewhere(nat, path, tempfile.mkdtemp(dir=scr), searched) or replayed[f]
            rc, o = replayed[f]
            rec = {"msg": msg, "file": path, "native_rc": rc, "native": o[-1500:]}
            if reproduced(msg, rc, o) and not is_known(known, spec["h"], params, msg):
                STOP.set()
            (res["violations"] if reproduced(msg, rc, o) else res["spurious"]).append(rec)
        elif f.startswith("sample-") and not spec.get("nosamples"):
            text = open(path).read()
            sdir = tempfile.mkdtemp(dir=scr)
            rc, o = native(nat, path, sdir)
            s = res["samples"]
            s["tried"] += 1
            exp = [l.split()[1:] for l in text.splitlines() if l.startswith("O ")]
            got = [l.split()[1:] for l in o.splitlines() if l.startswith("VF-OBS ")]
            if "VF-DIVERGED" in o or "VF-ASSUME-FALSE" in o:
                s["diverged"] += 1
            else:
                bad = rc != 0 or len(exp) != len(got)
                for a, b in zip(exp, got):
                    if a[0] != b[0]:
                        bad = True
                    elif a[1] != "?":
                        x, y = float(a[1]), float(b[1])
                        if not (x == y or (x != x and y != y) or abs(x - y) <= 1e-4 * (1 + abs(x) + abs(y))):
                            bad = True
                if bad:
                    s["disagree"].append({"input": text[:800], "native": o[-800:]})
                else:
                    s["agreed"] += 1
            if len(s["cases"]) < 2:
                s["cases"].append(text[:600])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--only", help="run only specs of this harness")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    from registry import CHECKS, SCHED
    pid = a.property
    c = CHECKS[pid]
    specs = [s for s in c["runs"] if (a.tier == "thorough" or not s.get("thorough_only")) and (not a.only or s["h"] == a.only)]
    known = [k for k in json.load(open(os.path.join(V, "known_findings.json")))["findings"] if k["property"] == pid]
    evdir = os.path.join(V, "evidence")
    os.makedirs(evdir, exist_ok=True)
    mem = any(s["h"] in SCHED for s in specs)
    try:
        exes = build(sorted({s["h"] for s in specs}), mem)
    except BuildError as e:
        print(f"check {pid}: cannot build the harness against {REPO}/src\n{e}")
        sys.exit(2)
    tb = time.time() - t0
    root = tempfile.mkdtemp(prefix=f"vf_{pid}_")
    try:
        with cf.ThreadPoolExecutor(c.get("parallel", 4)) as ex:
            fs = [ex.submit(run_spec, s, *exes[s["h"]], a.tier, root, i, known) for i, s in enumerate(specs)]
            results = [f.result() for f in fs]
        finish(pid, c, a, specs, results, known, evdir, t0, tb)
    finally:
        if not a.keep:
            shutil.rmtree(root, ignore_errors=True)


def is_known(known, h, params, msg):
    return next((k for k in known if k["harness"] == h and k["message"] == msg and all(params.get(x) == y for x, y in k.get("params", {}).items())), None)


def finish(pid, c, a, specs, results, known, evdir, t0, tb):
    rdir = os.path.join(evdir, "replays")
    os.makedirs(rdir, exist_ok=True)
    tot = {}
    notes, reach, checks, gaps = {}, {}, {}, []
    viol, found = [], []
    for s, r in zip(specs, results):
        st = r["stats"]
        tag = f"{r['harness']} {r['params'] or ''}{' fp' if r['fp'] else ''}"
        if st is None:
            gaps.append(f"{tag}: {r.get('error')} {r['log'][-300:]}")
            continue
        for k, v in st.items():
            if isinstance(v, (int, float)) and k != "root_status":
                tot[k] = tot.get(k, 0) + v
        for k, v in st["notes"].items():
            notes[k] = notes.get(k, 0) + v[0]
        for k, v in st["checks"].items():
            x = checks.setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        for k, v in st["reach"].items():
            reach[k] = reach.get(k, 0) + v[0]
        if st["truncated"]:
            gaps.append(f"{tag}: time budget reached, exploration incomplete ({st['truncated']} paths cut)")
        if st["inconclusive"]:
            gaps.append(f"{tag}: {st['inconclusive']} obligations or paths left undecided by the solvers")
        if st["unsupported"]:
            gaps.append(f"{tag}: {st['unsupported']} operations outside the encoding")
        want = s.get("reach", [])
        miss = [w for w in want if w not in st["reach"]]
        if miss:
            gaps.append(f"{tag}: not reached: {miss}")
        for v in r["violations"]:
            k = is_known(known, r["harness"], r["params"], v["msg"])
            if k:
                if k not in found:
                    found.append(k)
            else:
                viol.append((r, v))
        for v in r["spurious"]:
            gaps.append(f"{tag}: candidate '{v['msg']}' did not reproduce on the real code (native rc {v['native_rc']}: {v['native'].strip()[-160:]})")
        for d in r["samples"]["disagree"]:
            gaps.append(f"{tag}: sampled path disagrees with the native run: {d['native'][-200:]} for {d['input'][:300]}")
    for k in found:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    seen = set()
    for i, (r, v) in enumerate(viol):
        if v["msg"] in seen:
            continue
        seen.add(v["msg"])
        dst = os.path.join(rdir, f"{pid}-{len(seen)}.replay")
        shutil.copy(v["file"], dst)
        with open(dst, "a") as f:
            f.write(f"# harness {r['harness']}\n# native rc {v['native_rc']}\n" + "".join("# " + l + "\n" for l in v["native"].splitlines()))
        print(f"violated: {v['msg']} [{r['harness']} {r['params']}] native: {v['native'].strip()[-200:]}")
        print(f"VIOLATION property={pid} replay={dst}")
    agreed = sum(r["samples"]["agreed"] for r in results)
    samples = [x for r in results for x in r["samples"]["cases"][:1]][:6]
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "model_checking"),
        "coverage": {
            "states": int(tot.get("paths", 0)), "transitions": int(tot.get("decisions", 0)),
            "traces_validated_against_impl": agreed, "samples": samples,
            "explanation": c["bounds"], "functions_encoded": c["functions"],
            "queries_discharged": int(tot.get("queries", 0) + tot.get("ext_queries", 0)), "obligations_proved": int(tot.get("proved", 0)),
            "solver_s": round(tot.get("solver_s", 0) + tot.get("ext_s", 0), 2), "build_s": round(tb, 1),
            "undecided": gaps, "obligation_texts": checks, "reached": reach, "notes": notes,
            "complete_within_bounds": not gaps,
            "runs": [{"harness": r["harness"], "params": r["params"], "encoding": "IEEE double" if r["fp"] else "exact real", "desc": r["desc"], "wall_s": r["wall_s"],
                      "paths": (r["stats"] or {}).get("paths"), "queries": (r["stats"] or {}).get("queries"), "solver_s": (r["stats"] or {}).get("solver_s"), "proved": (r["stats"] or {}).get("proved")} for r in results]},
        "assumptions": c.get("assumptions", []) + COMMON, "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    json.dump(ev, open(os.path.join(evdir, f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {a.tier}: paths={tot.get('paths')} proved={tot.get('proved')} queries={tot.get('queries')} solver={tot.get('solver_s', 0):.1f}s build={tb:.0f}s wall={time.time() - t0:.0f}s replays_agreeing={agreed} gaps={len(gaps)}")
    for g in gaps[:40 if a.verbose else 8]:
        print("  undecided:", g[:400])
    if a.verbose:
        for r in results:
            print("  run", r["harness"], r["params"], r["wall_s"], {k: v for k, v in (r["stats"] or {}).items() if k in ("paths", "queries", "solver_s", "proved", "forks", "infeasible")})
        print("  reach", reach)
        print("  checks", checks)
        print("  notes", notes)
    if viol:
        sys.exit(1)
    if all(r["stats"] is None for r in results) or not tot.get("proved"):
        print(f"check {pid}: nothing was decided")
        sys.exit(2)
    sys.exit(0)


COMMON = [
    "symbolic inputs, branches and obligations are decided by Z3 5.3 / cvc5 on the LLVM IR of /repo's current sources (clang 18, -O1); memory, containers, XML and HDF5 run natively on the same path",
    "in the exact-real encoding rounding, overflow and signed zeros are not modelled; obligations carry the stated tolerance and every reported counterexample was reproduced on the ordinary IEEE build",
    "std::generate_canonical is an arbitrary function of the engine state into [0,1); sin/cos/exp/log/erf are constrained by the axioms listed in DESIGN.md only",
]

if __name__ == "__main__":
    main()
