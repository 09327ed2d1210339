#!/usr/bin/env python3
"""Run one property's check: build its monitors against /repo, execute the
workloads, judge, write evidence.  Exit 0 held / 1 VIOLATION / 2 no answer."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, props

VERIF = vbuild.VERIF
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=66:abort_on_error=0:allocator_may_return_null=0:"
                    "max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:report_signal_unsafe=0:history_size=4:"
                    "suppressions=%s/lib/tsan.supp" % VERIF,
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
    "TSAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


def load_known():
    known, fixed = [], []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def crash_key(job, rc, err):
    m = re.search(r"([\w.+-]+\.(?:cpp|hpp|h)):\d+: ([^\n]*): Assertion [`'](.*?)' failed", err)
    if m:
        return "assert:%s:%s" % (m.group(1), re.sub(r"\s+", "", m.group(3))[:80])
    kind = None
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m:
        kind = m.group(1) + ":" + m.group(2)
    m2 = re.search(r"runtime error: ([^\n]*)", err)
    if m2:
        kind = "ubsan:" + re.sub(r"[^a-zA-Z]+", "-", re.sub(r"0x[0-9a-f]+|\d+", "N", m2.group(1)))[:50]
    if kind is None and "terminate called" in err:
        kind = "terminate"
    if kind is None:
        kind = "exit%d" % rc
    fr = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+?)(?:\(.*?)? [^\n]*?(%s/(?:src|3rdparty|tools)/\S+?):\d+" % re.escape(vbuild.REPO), err):
        fr = os.path.basename(m.group(2)) + ":" + re.sub(r"<.*", "", m.group(1)).split("::")[-1]
        break
    if not fr:
        m = re.search(r"%s/(?:src|3rdparty|tools)/(\S+?):\d+" % re.escape(vbuild.REPO), err)
        if m:
            fr = os.path.basename(m.group(1))
    return "crash:%s:%s" % (kind, fr or "unknown")


# A quick check has to answer: seconds for all runs, and for all with retries
RUN_LIMIT, TOTAL_LIMIT = 480, 800


def hung(r):
    return r["rc"] in ("timeout", 12, -9)


def crashed(r):
    """ended by a crash or a sanitizer, as opposed to a report, a hang or a problem of our own"""
    if r["rc"] == 0 and r["end"] or r["rc"] == 10 and r["viol"] or hung(r):
        return False
    return isinstance(r["rc"], int) and r["rc"] < 90


def run_one(job, binpath, shard, seed, cases, scratch, tier, attempt=0, first=0, limit=None):
    tag = "%s.%s.%s.%d.%d" % (job["name"], job["flavour"], job.get("mode", ""), shard, attempt)
    sdir = os.path.join(scratch, "d." + tag)
    os.makedirs(sdir, exist_ok=True)
    out = os.path.join(scratch, tag + ".out")
    cmd = [binpath, "--seed", str(seed), "--shard", str(shard), "--cases", str(cases), "--first", str(first),
           "--out", out, "--scratch", sdir]
    if job.get("mode"):
        cmd += ["--mode", job["mode"]]
    if tier == "thorough":
        cmd += ["--thorough"]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(job.get("env", {}))
    if job.get("leaks"):
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    errp = os.path.join(scratch, tag + ".err")
    timeout = job.get("timeout", 240) * (1 if tier == "quick" else 4)
    cut = limit is not None and limit < timeout
    if cut:
        timeout = max(1, limit)
    with open(errp, "wb") as ef:
        try:
            p = subprocess.run(cmd, cwd=sdir, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "cut" if cut else "timeout"
    err = open(errp, "r", errors="replace").read()
    if len(err) > 60000:
        err = err[:20000] + "\n...\n" + err[-40000:]
    res = {"rc": rc, "err": err, "counters": {}, "prints": set(), "samples": [], "viol": [], "end": False,
           "shard": shard, "job": job, "cmd": cmd, "case": None}
    if os.path.exists(out + ".cur"):
        try:
            res["case"] = int(open(out + ".cur").read())
        except ValueError:
            pass
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            if line.startswith("C "):
                k, v = line[2:].rsplit(" ", 1)
                res["counters"][k] = int(v)
            elif line.startswith("F"):
                res["prints"].update(line.split()[1:])
            elif line.startswith("S "):
                res["samples"].append(line[2:].strip())
            elif line.startswith("V "):
                k, _, d = line[2:].rstrip("\n").partition("\t")
                res["viol"].append((k, d))
            elif line.startswith("E"):
                res["end"] = True
    shutil.rmtree(sdir, ignore_errors=True)
    return res


def main():
    pid = sys.argv[1]
    tier = "quick"
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    elif os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = props.PROPS[pid]
    jobs = [j for j in spec["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    if only:
        jobs = [j for j in jobs if only in (j["name"] + "." + j["flavour"] + "." + j.get("mode", ""))]
    bins = {}
    uniq = {}
    for j in jobs:
        uniq[(j["name"], j["flavour"])] = j
    try:
        nb = max(1, len(uniq))
        with cf.ThreadPoolExecutor(nb) as ex:
            futs = {k: ex.submit(vbuild.build, j["name"], j["harness"], j["sources"], j["flavour"],
                                 j.get("libs", ()), j.get("defines", ()), j.get("exclude", ()), 8 if nb == 1 else 6)
                    for k, j in uniq.items()}
            for k, f in futs.items():
                bins[k] = f.result()
    except vbuild.BuildError as e:
        print("BUILD-ERROR property=%s\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    # in memory where possible: the logs under test flush every entry
    shm = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=shm)
    os.chmod(scratch, 0o755)
    results = []
    try:
        work = []
        for j in jobs:
            n = j.get("shards", 8) if tier == "quick" else j.get("tshards", max(8, j.get("shards", 8)))
            c = j["cases"][0] if tier == "quick" else j["cases"][1]
            for s in range(n):
                work.append((j, bins[(j["name"], j["flavour"])], s, seed, c))
        # a job that is itself many-threaded asks for fewer neighbours
        par = spec.get("par", 8)
        knownkeys = set(k[1] for k in load_known() if k[0] == pid)
        stop = threading.Event()

        def left(total):
            return None if tier == "thorough" else total - (time.time() - t0)

        def is_new(r):
            if any(k not in knownkeys and not k.startswith("hang:") for k, _ in r["viol"]):
                return True
            return crashed(r) and crash_key(r["job"], r["rc"], r["err"]) not in knownkeys

        def go(w):
            # once something new is found, the answer is clear
            if stop.is_set():
                return None
            lim = left(RUN_LIMIT + tb)
            if lim is not None and lim <= 0:
                return None
            r = run_one(w[0], w[1], w[2], w[3], w[4], scratch, tier, limit=lim)
            if is_new(r):
                stop.set()
            return r

        def again(r):
            # a hang is believed only when it shows again
            first = r
            for att in range(1, 3):
                lim = left(TOTAL_LIMIT)
                if stop.is_set() or lim is not None and lim <= 0:
                    return r
                r = run_one(r["job"], bins[(r["job"]["name"], r["job"]["flavour"])], r["shard"], seed,
                            int(r["cmd"][r["cmd"].index("--cases") + 1]), scratch, tier, attempt=att, limit=lim)
                if r["rc"] in ("timeout", 12):
                    if not [v for v in r["viol"] if v[0].startswith("hang:")]:
                        r["viol"].append(("hang:" + r["job"]["name"], "no answer within the time limit, twice"))
                    r["confirmed_hang"] = True
                    stop.set()
                    return r
                if r["rc"] != -9:
                    break
            if is_new(r):
                stop.set()
            notes.append("shard %s.%d did not finish once (rc %s) and did on a second run"
                         % (first["job"]["name"], first["shard"], first["rc"]))
            return r

        violations, errors, notes = [], [], []
        with cf.ThreadPoolExecutor(par) as ex:
            results = list(ex.map(go, work))
        if None in results and not stop.is_set():
            errors.append("out of time")
        results = [r for r in results if r is not None]
        # fewer at a time than before, in case that was the reason
        final = [r for r in results if not hung(r)]
        with cf.ThreadPoolExecutor(max(1, par // 2)) as ex:
            final += list(ex.map(again, [r for r in results if hung(r)]))
        counters, prints, samples = {}, set(), []
        for r in final:
            for k, v in r["counters"].items():
                counters[k] = counters.get(k, 0) + v
            prints |= r["prints"]
            if len(samples) < 6:
                samples += r["samples"][:2]
            for k, d in r["viol"]:
                if k.startswith("hang:") and not r.get("confirmed_hang"):
                    continue
                violations.append((k, d, r))
            if r["rc"] == 0 and r["end"]:
                continue
            if r.get("confirmed_hang") or (r["rc"] == 10 and r["viol"]):
                continue
            if r["rc"] in ("timeout", "cut", -9) or (isinstance(r["rc"], int) and r["rc"] >= 90) or (r["rc"] == 12):
                errors.append("%s shard %d ended with %s" % (r["job"]["name"], r["shard"], r["rc"]))
                continue
            violations.append((crash_key(r["job"], r["rc"], r["err"]),
                               "process ended with %s in case %s" % (r["rc"], r["case"]), r))
        known = [k for k in load_known() if k[0] == pid]
        kmatched, new = set(), []
        for k, d, r in violations:
            hit = [kn for kn in known if kn[1] == k]
            if hit:
                kmatched.add(hit[0])
            else:
                new.append((k, d, r))
        # required reach: a monitor that saw nothing has decided nothing
        reach = []
        if not only and not new:
            for name, least in spec.get("reach", {}).items():
                if counters.get(name, 0) < least:
                    reach.append("%s=%d (needs %d)" % (name, counters.get(name, 0), least))
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": spec["level"],
            "coverage": {
                "evaluations": counters.get("evaluations", 0),
                "distinct_nontrivial": len(prints),
                "rule": spec["rule"],
                "samples": samples,
                "observed": {k: v for k, v in sorted(counters.items()) if k != "evaluations"},
                "runs": [{"monitor": j["name"], "sanitizer": j["flavour"], "mode": j.get("mode", "")} for j in jobs],
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2),
            "build_s": round(tb, 2),
            "violations": len(new),
        }
        if notes:
            ev["coverage"]["notes"] = notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for kn in known:
            if kn in kmatched:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[2]))
        if new:
            rdir = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            seen = {}
            for k, d, r in new:
                if k in seen:
                    continue
                rp = os.path.join(rdir, "%s-%d.txt" % (pid, len(seen)))
                seen[k] = rp
                with open(rp, "w") as f:
                    f.write("property: %s\nkey: %s\nmonitor: %s (%s) mode=%s\ncommand: VERIF_SEED=%d %s\ncase: %s\n\n%s\n\n---- output of the run ----\n%s\n" %
                            (pid, k, r["job"]["name"], r["job"]["flavour"], r["job"].get("mode", ""), seed,
                             " ".join(r["cmd"]), r["case"], d, r["err"]))
            for k, rp in list(seen.items())[:10]:
                print("violation key: %s" % k)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if errors or reach:
            print("NO-ANSWER property=%s %s" % (pid, "; ".join(errors + reach)))
            return 2
        print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs build=%.1fs" %
              (pid, tier, counters.get("evaluations", 0), len(prints), time.time() - t0, tb))
        if "-v" in sys.argv:
            print(json.dumps(ev["coverage"]["observed"], indent=1))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
