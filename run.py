#!/usr/bin/env python3
"""Driver of the runtime-monitoring checks.

  run.py <ID> [--tier quick|thorough]     run one check; exit 0 quiet, 1 violation, 2 cannot build, 3 harness error
  run.py --replay <replay.json>           re-run the single recorded case
  run.py --list
Environment: VERIF_SEED (default 1), VERIF_TIER, REPO (default /repo; only for experiments on scratch copies).
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, "build") if REPO == "/repo" else os.path.join("/tmp/vbuild", REPO.strip("/").replace("/", "_"))
OUT = os.path.join(HERE, "out") if REPO == "/repo" else os.path.join(BUILD, "out")
MSGS = os.path.join(BUILD, "msgs")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))
sys.path.insert(0, HERE)

SAN = "address,bounds,return,signed-integer-overflow,shift,float-cast-overflow,integer-divide-by-zero,bool,enum,unreachable,pointer-overflow"
BASE = ["-std=c++17", "-g1", "-w", "-DEIGEN_INITIALIZE_MATRICES_BY_NAN", "-DEIGEN_MALLOC_ALREADY_ALIGNED=1",
        "-D_GLIBCXX_ASSERTIONS", "-DPCL_NO_PRECOMPILE", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
        "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan": ["-O1", "-fsanitize=" + SAN, "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "asan0": ["-O0", "-fsanitize=" + SAN, "-fno-sanitize-recover=all", "-ftrivial-auto-var-init=pattern"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
}
LINK = {
    "asan": ["-fsanitize=" + SAN], "asan0": ["-fsanitize=" + SAN], "tsan": ["-fsanitize=thread", "-Wl,--wrap=pthread_mutex_unlock,--wrap=_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_,--wrap=_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_"], "plain": [],
}
ENV = {
    "ASAN_OPTIONS": "handle_abort=1:detect_leaks=0:max_malloc_fill_size=65536:detect_stack_use_after_return=0:"
                    "allocator_may_return_null=0:hard_rss_limit_mb=6000:symbolize=1:exitcode=77",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:suppressions="
                    + os.path.join(HERE, "tsan.supp"),
    "OMP_NUM_THREADS": "1", "OPENCV_FOR_THREADS_NUM": "1", "MALLOC_PERTURB_": "165", "LC_ALL": "C",
}


class BuildError(Exception):
    pass


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha1(f.read()).hexdigest()
    except OSError:
        return "missing"


def stamp(path):
    if path.startswith(REPO) or path.startswith(HERE):
        return sha(path)
    try:
        st = os.stat(path)
        return "%d:%d" % (st.st_mtime_ns, st.st_size)
    except OSError:
        return "missing"


def compile_one(src, flags, obj):
    cxx = "g++"
    cmd = [cxx, "-c", src, "-o", obj, "-MD", "-MF", obj + ".d"] + flags
    meta = obj + ".meta"
    try:
        m = json.load(open(meta))
        if m["cmd"] == cmd and os.path.exists(obj) and all(stamp(p) == s for p, s in m["deps"].items()):
            return None
    except (OSError, ValueError, KeyError):
        pass
    for p in (obj, meta):
        if os.path.exists(p):
            os.remove(p)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return "compiling %s failed:\n%s" % (src, r.stdout[-6000:])
    deps = re.sub(r"\\\n", " ", open(obj + ".d").read()).split(":", 1)[1].split()
    json.dump({"cmd": cmd, "deps": {d: stamp(os.path.abspath(d)) for d in deps}}, open(meta, "w"))
    return None


def resolve(src):
    if src.startswith("repo:"):
        return os.path.join(REPO, src[5:])
    return os.path.join(HERE, src)


def build(bins):
    """bins: {name: spec}. Compiles every object in parallel and links. Returns {name: path}."""
    os.makedirs(BUILD, exist_ok=True)
    if any("@MSGS@" in f for b in bins.values() for f in b["flags"]):
        sys.path.insert(0, os.path.join(HERE, "shim"))
        import msggen
        msggen.generate(REPO, MSGS)
    tasks, links = {}, []
    for name, b in bins.items():
        objs = []
        for src in b["src"]:
            plain = src.startswith("plain:")
            s = src[6:] if plain else src
            fl = "plain" if plain and b["flavour"] != "tsan" else b["flavour"]
            flags = BASE + FLAVOURS[fl] + [f.replace("@REPO@", REPO).replace("@HERE@", HERE).replace("@MSGS@", MSGS) for f in b["flags"]]
            path = resolve(s)
            key = hashlib.sha1((path + "\0" + "\0".join(flags)).encode()).hexdigest()[:16]
            obj = os.path.join(BUILD, os.path.basename(path).replace(".", "_") + "-" + key + ".o")
            tasks[obj] = (path, flags, obj)
            objs.append(obj)
        links.append((name, b, objs))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(lambda t: compile_one(*t), sorted(tasks.values(), key=lambda t: t[0])) if e]
    if errs:
        raise BuildError("\n".join(errs))
    res = {}

    def link(l):
        name, b, objs = l
        exe = os.path.join(BUILD, name)
        cmd = ["g++", "-o", exe] + objs + LINK[b["flavour"]] + b["libs"]
        h = hashlib.sha1((" ".join(cmd) + "".join(sha(o) for o in objs)).encode()).hexdigest()
        if os.path.exists(exe) and os.path.exists(exe + ".h") and open(exe + ".h").read() == h:
            return name, exe, None
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            return name, None, "linking %s failed:\n%s" % (name, r.stdout[-6000:])
        open(exe + ".h", "w").write(h)
        return name, exe, None

    with cf.ThreadPoolExecutor(JOBS) as ex:
        for name, exe, err in ex.map(link, links):
            if err:
                raise BuildError(err)
            res[name] = exe
    return res


def crash_key(text, rc, scenario):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    kind = m.group(1) if m else None
    if not kind:
        m = re.search(r"runtime error: ([^\n]{0,80})", text)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m.group(1).lower())).strip("-")[:50]
    if not kind and "WARNING: ThreadSanitizer" in text:
        kind = "tsan-" + re.search(r"ThreadSanitizer: ([\w -]+)", text).group(1).strip().replace(" ", "-")
    if not kind:
        m = re.search(r"Assertion `([^']{0,60})", text)
        kind = "assert-" + re.sub(r"[^\w]+", "-", m.group(1))[:40] if m else "exit-%d" % rc
    frame = ""
    for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/[^\s:]+):(\d+)", text):
        if m.group(2).startswith(REPO):
            fn = re.sub(r"\(.*", "", re.sub(r"<.*?>", "", m.group(1))).split()[-1] if m.group(1) else "?"
            frame = os.path.basename(m.group(2)) + ":" + fn.split("::")[-1]
            break
    if not frame:
        m = re.search(re.escape(REPO) + r"/([^\s:]+):(\d+):\d+: runtime error", text)
        if m:
            frame = os.path.basename(m.group(1))
    return "crash:%s:%s:%s" % (scenario, kind, frame)


def run_proc(exe, scenario, seed, first, last, out, timeout):
    for p in glob.glob(glob.escape(out) + "*"):
        os.remove(p)
    cmd = [exe, scenario, str(seed), str(first), str(last), out]
    env = dict(os.environ)
    env.update(ENV)
    cwd = out + ".cwd"
    os.makedirs(cwd, exist_ok=True)
    log = open(out + ".log", "wb")
    try:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=env, cwd=cwd, stdin=subprocess.DEVNULL, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
            rc = "timeout"
    finally:
        log.close()
        shutil.rmtree(cwd, ignore_errors=True)
    with open(out + ".log", "rb") as f:
        text = f.read(400000).decode("utf-8", "replace")
    cur = None
    try:
        cur = struct.unpack("<Q", open(out + ".cur", "rb").read(8))[0]
    except (OSError, struct.error):
        pass
    rep = None
    try:
        rep = json.load(open(out))
    except (OSError, ValueError):
        pass
    return rc, rep, cur, text


def run_chunk(exe, binname, scenario, seed, first, last, out, timeout):
    """Runs [first, last), restarting after crashes. Returns dict with reports and violations."""
    reports, viols, notes = [], [], []
    crashes = 0
    pos = first
    while pos < last:
        o = "%s.%d" % (out, pos)
        rc, rep, cur, text = run_proc(exe, scenario, seed, pos, last, o, timeout)
        if rep is not None:
            rep["_path"] = o
            reports.append(rep)
            for v in rep["violations"]:
                viols.append({"key": v["key"], "detail": v["detail"], "case": v["case"], "count": v["count"], "scenario": scenario,
                              "bin": binname, "seed": seed, "log": text[-3000:]})
        if rc in (0, 1) and rep is not None:
            if rc == 0 and rep["violations"]:
                notes.append("inconsistent exit code")
            break
        if rc == 66 and rep is not None:  # TSan reports, run complete
            for chunk in re.split(r"={10,}\n", text):
                if "WARNING: ThreadSanitizer" in chunk:
                    viols.append({"key": crash_key(chunk, 66, scenario), "detail": chunk[:1500], "case": cur or 0, "count": 1,
                                  "scenario": scenario, "bin": binname, "seed": seed, "log": chunk[:6000]})
            break
        if rc == 3 or cur is None:
            notes.append("ERROR harness failed: " + text[-1500:])
            break
        if rc == "timeout":
            rc2, rep2, cur2, text2 = run_proc(exe, scenario, seed, cur, cur + 1, o + ".retry", 90)
            if rc2 == "timeout":
                viols.append({"key": "hang:%s" % scenario, "detail": "case %d did not terminate" % cur, "case": cur, "count": 1,
                              "scenario": scenario, "bin": binname, "seed": seed, "log": text[-3000:]})
                break
            else:
                notes.append("time limit reached at case %d of [%d,%d)" % (cur, first, last))
                break
        else:
            viols.append({"key": crash_key(text, rc, scenario), "detail": text[:1800], "case": cur, "count": 1, "scenario": scenario,
                          "bin": binname, "seed": seed, "log": text[:12000]})
        crashes += 1
        pos = cur + 1
        if crashes >= 6:
            notes.append("stopped after 6 crashes at case %d of [%d,%d)" % (cur, first, last))
            break
    return {"reports": reports, "violations": viols, "notes": notes}


def load_known(pid):
    known = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    except OSError:
        pass
    return known


def read_hashes(path):
    try:
        b = open(path, "rb").read()
        return struct.unpack("<%dQ" % (len(b) // 8), b[: len(b) // 8 * 8])
    except OSError:
        return ()


def main():
    import checks
    args = sys.argv[1:]
    if not args or args[0] == "--list":
        for c in checks.CHECKS:
            print(c)
        return 0
    if args[0] == "--setup":  # nothing to prepare: every check builds what it needs from /repo's current tree
        for tool in ("g++",):
            if not shutil.which(tool):
                print("missing " + tool)
                return 1
        return 0
    if args[0] == "--replay":
        rp = json.load(open(args[1]))
        spec = checks.CHECKS[rp["property"]]
        exes = build({rp["bin"]: checks.BINS[rp["bin"]]})
        os.makedirs(OUT, exist_ok=True)
        rc, rep, cur, text = run_proc(exes[rp["bin"]], rp["scenario"], rp["seed"], rp["case"], rp["case"] + 1, os.path.join(OUT, "replay"), 300)
        print(text)
        print("exit", rc)
        return 0 if rc == 0 else 1
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = checks.CHECKS[pid]
    t0 = time.time()
    names = sorted({s["bin"] for s in spec["scenarios"]})
    try:
        exes = build({n: checks.BINS[n] for n in names})
    except BuildError as e:
        print(str(e))
        print("ERROR property=%s the harness does not build against this tree" % pid)
        return 2
    t_build = time.time() - t0
    outdir = os.path.join(OUT, pid)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    jobs = []
    for s in spec["scenarios"]:
        n = s["quick"] if tier == "quick" else s.get("thorough", s["quick"] * 30)
        seeds = [seed] if tier == "quick" else [seed, seed + 7919, seed + 104729]
        # `fixed` scenarios enumerate a fixed list and do not depend on the seed
        if s.get("fixed"):
            seeds = [seed]
        per = n if s.get("fixed") else max(1, n // len(seeds))
        for sd in seeds:
            chunks = max(1, min(s.get("chunks", 4 if tier == "quick" else 8), per))
            for k in range(chunks):
                a, b = per * k // chunks, per * (k + 1) // chunks
                if b > a:
                    jobs.append((exes[s["bin"]], s["bin"], s["name"], sd, a, b, os.path.join(outdir, "%s-%s-%d-%d" % (s["bin"], s["name"], sd, k)),
                                 s.get("timeout", 240 if tier == "quick" else 1800), s.get("weight", 1)))
    workers = spec.get("workers", JOBS)
    with cf.ThreadPoolExecutor(workers) as ex:
        results = list(ex.map(lambda j: (j, run_chunk(*j[:8])), jobs))
    evaluations = oracle = 0
    nt, ds = set(), {}
    events, maxima, samples, notes, viols, per_scenario = {}, {}, [], [], {}, {}
    for j, r in results:
        notes += r["notes"]
        for v in r["violations"]:
            if spec.get("only") and not re.match(spec["only"], v["key"]):
                notes.append("not judged here: " + v["key"])
                continue
            if v["key"] in viols:
                viols[v["key"]]["count"] += v["count"]
            else:
                viols[v["key"]] = v
        for rep in r["reports"]:
            evaluations += rep["evaluations"]
            oracle += rep["oracle_checks"]
            ps = per_scenario.setdefault(rep["scenario"], {"evaluations": 0, "oracle_checks": 0})
            ps["evaluations"] += rep["evaluations"]
            ps["oracle_checks"] += rep["oracle_checks"]
            for k, v in rep["events"].items():
                events[k] = events.get(k, 0) + v
            for k, v in rep["maxima"].items():
                maxima[k] = max(maxima.get(k, v), v)
            samples += ["%s: %s" % (rep["scenario"], x) for x in rep["samples"][:1]] if not any(x.startswith(rep["scenario"] + ":") for x in samples) else []
            nt.update(read_hashes(rep["_path"] + ".nt"))
            for name in rep["distinct"]:
                ds.setdefault(name, set()).update(read_hashes(rep["_path"] + ".ds." + name))
    known = load_known(pid)
    fatal = [n for n in notes if n.startswith("ERROR")]
    # Minimum activity: a monitor that saw nothing has decided nothing.
    inactive = []
    for name in spec.get("require_events", []):
        if events.get(name, 0) == 0:
            inactive.append(name)
    new = []
    for key, v in sorted(viols.items()):
        hit = next((k for k in known if k == key or (k.endswith("*") and key.startswith(k[:-1]))), None)
        if hit:
            print("KNOWN-FINDING: property=%s %s (key=%s, %d occurrence(s))" % (pid, known[hit], key, v["count"]))
        else:
            new.append((key, v))
    for key, v in new:
        name = re.sub(r"[^\w.-]+", "_", key)[:100]
        path = os.path.join(outdir, "replay-%s.json" % name)
        json.dump({"property": pid, "key": key, "bin": v["bin"], "scenario": v["scenario"], "seed": v["seed"], "case": v["case"],
                   "detail": v["detail"], "log": v["log"],
                   "command": "python3 run.py --replay " + os.path.relpath(path, HERE)}, open(path, "w"), indent=1)
        print("[%s] %s scenario=%s seed=%d case=%d x%d: %s" % (pid, key, v["scenario"], v["seed"], v["case"], v["count"], v["detail"][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(nt), "rule": spec["rule"], "samples": samples[:8],
            "oracle_comparisons": oracle, "events_observed": events, "distinct_states_observed": {k: len(v) for k, v in ds.items()},
            "per_scenario": per_scenario, "largest_observed": maxima, "build_s": round(t_build, 1), "notes": notes[:20],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    evdir = os.path.join(HERE, "evidence") if REPO == "/repo" else outdir
    os.makedirs(evdir, exist_ok=True)
    tmp = os.path.join(evdir, pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(evdir, pid + ".json"))
    for p in glob.glob(os.path.join(outdir, "*.nt")) + glob.glob(os.path.join(outdir, "*.ds.*")):
        os.remove(p)
    print("%s %s: %d cases, %d oracle comparisons, %d distinct non-trivial, %d violation(s), %d known; build %.1f s, total %.1f s" % (
        pid, tier, evaluations, oracle, len(nt), len(new), len(viols) - len(new), t_build, wall))
    if new:
        return 1
    if fatal:
        print("\n".join(fatal))
        return 3
    if inactive:
        print("ERROR property=%s monitors observed no %s" % (pid, ", ".join(inactive)))
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
