#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough : decides one property with the symbolic executor and writes its evidence."""
import concurrent.futures as cf, hashlib, json, os, resource, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld
import props

V = bld.V
OUT = os.path.join(bld.B, "runs")


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


STOP = [float("inf")]  # once a counterexample is known the other shards get a little longer, no more


def run_job(prop, i, j, deadline):
    left = min(deadline, STOP[0]) - time.time()
    r = {"job": j}
    if left < 3:
        r.update(status="skipped")
        return r
    t = min(j["time"], left)
    out = os.path.join(OUT, "%s-%d-%d.json" % (prop, os.getpid(), i))
    cmd = [bld.ENGINE, "--ir", bld.IR, "--entry", j["entry"], "--time", str(int(max(1, t))), "--out", out]
    if j["params"]:
        cmd += ["--params", ",".join(str(x) for x in j["params"])]
    cmd += j["opts"]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits)
    while True:
        try:
            _, err = p.communicate(timeout=1)
            rc, err = p.returncode, err.decode(errors="replace")[-400:]
            break
        except subprocess.TimeoutExpired:
            if time.time() - t0 > t + 60 or time.time() > STOP[0]:
                p.kill()
                p.communicate()
                rc, err = -1, "ended early, another shard has a counterexample" if time.time() > STOP[0] else "killed after its time limit"
                break
    r["wall"] = time.time() - t0
    try:
        with open(out) as f:
            r["res"] = json.load(f)
        os.remove(out)
        r["status"] = "ok" if r["res"]["incomplete"] is None else "incomplete"
        if r["res"]["violations"]:
            STOP[0] = min(STOP[0], time.time() + 25)
    except Exception:
        r["status"] = "failed"
        r["err"] = "engine exit %s: %s" % (rc, err)
    return r


def replay(entry, params, hexin, timeout=20):
    """native run of the real code: 0 fine, 1 broken, 5 outside the assumptions, 124 no end"""
    cmd = [bld.REPLAY, entry, ",".join(str(x) for x in params), hexin]

    def lim():
        resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=lim)
        return p.returncode, p.stdout.decode(errors="replace")[-600:]
    except subprocess.TimeoutExpired:
        return 124, "no end within %d s" % timeout


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        o = p.stdout.decode().split("\n")
        return [o[i] if i < len(o) else n for i, n in enumerate(names)]
    except Exception:
        return names


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick"))
    t0 = time.time()
    P = props.PROPS[prop]
    jobs = P["quick"] if tier == "quick" else P["quick"] + P["thorough"]
    limit = P["quick_s"] if tier == "quick" else P["thorough_s"]
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    bad = bld.build()
    if bad:
        print("cannot build: %s" % bad)
        return 4
    build_s = time.time() - t0
    deadline = t0 + limit
    workers = int(os.environ.get("VSE_JOBS", "8"))
    res = []
    with open(bld.IR) as f:
        ir = f.read()
    absent = {e for e in {j["entry"] for j in jobs} if "@%s(" % e not in ir}
    del ir
    res += [{"job": j, "status": "absent", "err": "its hook does not fit this tree"} for j in jobs if j["entry"] in absent]
    jobs = [j for j in jobs if j["entry"] not in absent]
    # dearest first: a sweep of uneven shards then ends evenly
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["weight"])
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(run_job, prop, i, jobs[i], deadline) for i in order]
        for f in cf.as_completed(fs):
            res.append(f.result())
    known = []
    kf = os.path.join(V, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == prop]
    # --- violations: replay on the real code before reporting
    viol, unconfirmed, knownhit = [], [], {}
    seen = set()
    for r in res:
        for v in r.get("res", {}).get("violations", []):
            j = r["job"]
            key = (j["entry"], v["kind"], v["msg"], v["func"])
            n = sum(1 for k in seen if k[:4] == key)
            if n >= 3:
                continue
            seen.add(key + (n,))
            rc, o = replay(j["entry"], j["params"], v["input"])
            ok = rc in (1, 101, 134, -6, -11, -4) or (rc == 124 and v["kind"] == "hang") or rc == 124
            rec = {"property": prop, "entry": j["entry"], "params": j["params"], "input": v["input"], "kind": v["kind"],
                   "msg": v["msg"], "func": demangle([v["func"]])[0], "trace": demangle(v.get("trace", [])),
                   "native_exit": rc, "native_output": o,
                   "replay": "%s %s '%s' %s" % (bld.REPLAY, j["entry"], ",".join(map(str, j["params"])), v["input"])}
            if not ok:
                unconfirmed.append(rec)
                continue
            k = next((k for k in known if k["entry"] == j["entry"] and all(s in (rec["msg"] + " " + o + " " + rec["func"]) for s in k["match"])), None)
            if k is not None:
                knownhit.setdefault(k["what"], rec)
            else:
                viol.append(rec)
    # --- sampled paths: run natively as well; the real code has to agree with the encoding
    validated, disagree = 0, []
    todo = []
    for r in res:
        for s in r.get("res", {}).get("samples", [])[:P.get("replay_samples", 3)]:
            todo.append((r["job"], s))
    step = max(1, len(todo) // 240)
    todo = todo[::step]
    with cf.ThreadPoolExecutor(workers) as ex:
        for (j, s), (rc, o) in zip(todo, ex.map(lambda a: replay(a[0]["entry"], a[0]["params"], a[1], 60), todo)):
            if rc == 0:
                validated += 1
            elif rc == 1 or rc == 124:
                disagree.append({"property": prop, "entry": j["entry"], "params": j["params"], "input": s, "kind": "replay",
                                 "msg": "a path the executor ended cleanly fails natively", "native_exit": rc, "native_output": o,
                                 "func": "", "replay": "%s %s '%s' %s" % (bld.REPLAY, j["entry"], ",".join(map(str, j["params"])), s)})
    # --- evidence
    tot = lambda k: sum(r["res"][k] for r in res if "res" in r)
    fn = {}
    for r in res:
        for n, c, t in r.get("res", {}).get("functions", []):
            a = fn.get(n, (0, t))
            fn[n] = (max(a[0], c), t)
    names = sorted(fn)
    dm = demangle(names)
    mine = ["%s %d/%d blocks" % (d, fn[n][0], fn[n][1]) for n, d in zip(names, dm) if "sevenz_rust" in d or "lzma_rust" in d]
    reached = {}
    for r in res:
        if "res" in r:
            reached.setdefault(r["job"]["entry"], set()).update(r["res"]["reach"])
    missing = ["%s:%d" % (j["entry"], x) for r in res for j in [r["job"]] for x in j["reach"]
               if r["status"] == "ok" and x not in r["res"]["reach"] and not r["res"]["violations"]]
    st = {}
    for r in res:
        st[r["status"]] = st.get(r["status"], 0) + 1
    inc = [{"entry": r["job"]["entry"], "params": r["job"]["params"],
            "why": r.get("err") or (r.get("res") or {}).get("incomplete") or "no time left"} for r in res if r["status"] != "ok"]
    caps, unsup = {}, {}
    for r in res:
        for k, n in r.get("res", {}).get("caps", {}).items():
            caps[k] = caps.get(k, 0) + n
        for k, n in r.get("res", {}).get("unsupported", {}).items():
            unsup[k] = unsup.get(k, 0) + n
    samples = [{"entry": r["job"]["entry"], "params": r["job"]["params"], "input": s} for r in res for s in r.get("res", {}).get("samples", [])[:1]][:12]
    cov = {
        "states": tot("paths_done") + tot("paths_assume") + tot("paths_violating"),
        "transitions": tot("instructions"),
        "traces_validated_against_impl": validated,
        "samples": samples,
        "method": "symbolic execution of the optimised LLVM IR of the current /repo tree (with std) by /verif/engine, Z3 deciding every branch and assertion",
        "paths_completed": tot("paths_done"), "paths_cut_by_assumption": tot("paths_assume"),
        "symbolic_forks": tot("forks"), "state_merges": tot("merges"),
        "assertions_checked": tot("asserts"), "assertions_needing_solver": tot("asserts_symbolic"),
        "queries": tot("queries"), "queries_sat": tot("queries_sat"), "queries_unsat": tot("queries_unsat"),
        "queries_unknown": tot("queries_unknown"), "queries_from_cache": tot("queries_cached"), "queries_answered_by_checked_witness": tot("queries_witnessed"),
        "solver_s": round(tot("solver_s"), 2),
        "shards": len(jobs) + st.get("absent", 0), "shards_exhausted": st.get("ok", 0), "shards_not_exhausted": inc[:40],
        "exhaustive_within_bounds": st.get("ok", 0) == len(jobs) and not caps and not unsup,
        "terminal_caps": caps, "unsupported": unsup,
        "entries": {e: {"reach": sorted(s)} for e, s in sorted(reached.items())},
        "bounds": P["bounds"], "outside": P["outside"],
        "functions_encoded": mine, "functions_encoded_total": len(fn),
        "build_s": round(build_s, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "assumptions": props.ASSUMPTIONS + P.get("assume", []),
          "wall_s": round(time.time() - t0, 1), "violations": len(viol) + len(disagree)}
    if unconfirmed:
        cov["unconfirmed"] = unconfirmed[:5]
    with open(V + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d shards (%s), %d paths, %d instructions, %d queries (%.1f s solver), %d native replays agree, %.1f s"
          % (prop, tier, len(jobs), " ".join("%s=%d" % x for x in sorted(st.items())), cov["states"], cov["transitions"],
             cov["queries"], cov["solver_s"], validated, time.time() - t0))
    if os.environ.get("VSE_V"):
        for r in sorted(res, key=lambda r: -r.get("wall", 0))[:6]:
            print("  %.1fs %s %s" % (r.get("wall", 0), r["job"]["entry"], r["job"]["params"]))
    for x in inc[:10]:
        print("  not exhausted: %(entry)s %(params)s: %(why)s" % x)
    if unsup:
        print("  unsupported:", unsup)
    if caps:
        print("  caps:", caps)
    for w, rec in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    out = viol + disagree
    if out:
        for rec in out[:5]:
            h = hashlib.sha256(json.dumps(rec, sort_keys=True).encode()).hexdigest()[:10]
            path = "evidence/replay/%s-%s.json" % (prop, h)
            with open(V + "/" + path, "w") as f:
                json.dump(rec, f, indent=1)
            print("  %s %s: %s in %s: %s" % (rec["entry"], rec["params"], rec["msg"], rec["func"][:120], rec["native_output"].strip()[-200:]))
            print("VIOLATION property=%s replay=%s" % (prop, V + "/" + path))
        return 1
    if unconfirmed:
        print("UNCONFIRMED counterexamples (the real code does not reproduce them; the encoding is wrong there): %d" % len(unconfirmed))
        for r in unconfirmed[:3]:
            print("  ", r["entry"], r["params"], r["kind"], r["msg"], r["func"][:100], r["input"][:80], r["native_exit"])
        return 3
    if missing:
        print("VACUOUS: not reached: %s" % ", ".join(sorted(set(missing))[:20]))
        return 3
    if cov["states"] == 0 and jobs:
        print("nothing explored")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
