import json, os, subprocess, sys, threading, time, traceback, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"

def sh(cmd, timeout, env=None, cwd=VERIF):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, er = p.communicate(timeout=timeout)
        return p.returncode, o, er
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, er = p.communicate()
        return -999, o, er

def run_replay(pid, res):
    """bounded execution of the real crate against the property's executable definition"""
    t0 = time.time()
    try:
        probe = pid == "C29"   # its replay is the probe crate
        rc, o, e = sh(["bash", os.path.join(VERIF, "optprobe/build.sh" if probe else "replay/build.sh")], 500)
        res["build_s"] = time.time() - t0
        if rc != 0 and probe and "could not compile `optprobe`" in e:   # the macro's output for these structures is no program
            ls = [l for l in e.splitlines() if l.startswith("error")]
            res.update(status="fail", out={}, failures=["the generated code for the structures of optprobe/src/lib.rs does not compile: " + "; ".join(ls[:3])]); return
        if rc != 0:
            res["status"] = "nobuild"; res["log"] = e[-4000:]; return
        exe = os.path.join(os.environ.get("REPLAY_TARGET", os.path.join(VERIF, "replay/target")), "debug/replay")
        if probe: exe = os.path.join(os.environ.get("PROBE_TARGET", os.path.join(VERIF, "optprobe/target")), "debug/optprobe")
        to = 500 if TIER == "thorough" else 150
        rc, o, e = sh([exe, pid], to)
        out = None
        for l in o.splitlines():
            if l.startswith("{"):
                try: out = json.loads(l)
                except ValueError: pass
        if rc == 0 and out:
            res.update(status="ok", out=out); return
        if rc == 1 and out:
            fails = out.get("failures") or [out.get("failure", "?")]
            res.update(status="fail", out=out, failures=fails); return
        if rc == -999:
            res.update(status="timeout"); return
        # died: the last case begun is the failing input
        rc2, o2, e2 = sh([exe, pid], to, env={"REPLAY_TRACE": "1"})
        cases = [l for l in e2.splitlines() if l.startswith("CASE ")]
        if rc2 in (0, 1, -999) and rc2 != 1:
            res.update(status="unstable", log="rc %s then %s" % (rc, rc2)); return
        res.update(status="fail", out={}, failures=["%s :: the process died with status %s" % (cases[-1][5:] if cases else "?", rc2)])
    except Exception:
        res.update(status="error", log=traceback.format_exc())
    finally:
        res["wall"] = time.time() - t0

def declared(pid):
    with open(os.path.join(VERIF, "MANIFEST.json")) as f:
        return {c["property"]: c["level"] for c in json.load(f)["checks"]}.get(pid, "exploration")

def main(pid):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep, prf = {}, {}
    th = threading.Thread(target=run_replay, args=(pid, rep)); th.start()
    try:
        import proof
        proof.run(pid, prf, TIER)
    except ImportError:
        prf["status"] = "none"
    except Exception:
        prf.update(status="error", log=traceback.format_exc())
    th.join()
    return finish(pid, rep, prf, t0)

def finish(pid, rep, prf, t0):
    out = rep.get("out") or {}
    violation = None
    if rep.get("status") == "fail":
        violation = "input"
    elif prf.get("status") == "violated":
        violation = "obligation"
    cov = dict(prf.get("coverage") or {})
    cov["replay"] = {"status": rep.get("status"), "evaluations": out.get("evaluations", 0), "distinct_nontrivial": out.get("distinct", 0),
        "rule": "bounded: exhaustive small shapes plus seeded random cases and sizes taken from the source's literals, run on the real crate built from /repo; a case is counted distinct by its written form",
        "samples": out.get("samples", []), "build_s": round(rep.get("build_s", 0), 1), "log": rep.get("log", "")[-1500:]}
    level = declared(pid) if prf.get("coverage") else "exploration"
    if level == "translation_validation":
        fs = cov.get("functions_under_contract", [])
        cov.update(programs=len({f.split(" for ")[0] for f in fs if "Opt for" in f}), disagreements_checked=cov.get("obligations", 0), samples=fs[:6])
    if level == "exploration":
        cov.update(evaluations=out.get("evaluations", 0), distinct_nontrivial=out.get("distinct", 0), rule=cov["replay"]["rule"], samples=out.get("samples", []) or ["-"])
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov, "assumptions": prf.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1, ensure_ascii=False)
    if violation:
        rp = os.path.join(VERIF, "evidence", "replay_%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s, seed %d, tier %s\n" % (pid, SEED, TIER))
            if prf.get("failed"):
                f.write("\nfailed obligations:\n"); [f.write("  %s\n" % x) for x in prf["failed"]]
            if rep.get("failures"):
                f.write("\nfailing inputs on the real code (rerun: VERIF_SEED=%d VERIF_TIER=%s %s):\n" % (SEED, TIER, "/verif/optprobe/target/debug/optprobe" if pid == "C29" else "/verif/replay/target/debug/replay " + pid))
                [f.write("  %s\n" % x) for x in rep["failures"]]
            f.write("\nverifier output:\n%s\n" % prf.get("log", ""))
        print("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if violation == "input" else " no-failing-input-found"))
        return 1
    print("OK property=%s proof=%s replay=%s evaluations=%s wall=%.1fs" % (pid, prf.get("status"), rep.get("status"), out.get("evaluations"), time.time() - t0))
    return 0
