"""Extract /repo's typed bodies, translate, and let Verus decide every obligation."""
import json, os, re, subprocess, sys, time, hashlib, concurrent.futures as cf, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import lower, contracts_v
from lower import Unsupported, mangle
REPO = os.environ.get("VERIF_REPO", "/repo")
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, "vext", "target"))

def sh(cmd, timeout, env=None, cwd=VERIF):
    e = dict(os.environ); e.update(env or {})
    try: p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired as x: return -999, str(x.stdout or ""), str(x.stderr or "")
    return p.returncode, p.stdout, p.stderr

PROBE = os.path.join(VERIF, "optprobe")   # structures annotated with /repo's macro, for C29
def extract(out, probe=False):
    """THIR of /repo's current working tree, or of the probe crate with the macro of /repo's current working tree"""
    os.makedirs(WORK, exist_ok=True)
    exe = os.path.join(WORK, "thirdump"); src = os.path.join(VERIF, "vext", "thirdump.rs")
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        rc, o, e = sh(["rustc", "+nightly", "-O", src, "--edition", "2021", "-o", exe + ".new"], 300)
        if rc: raise Exception("thirdump does not build: " + e[-2000:])
        os.replace(exe + ".new", exe)
    rc, nl, e = sh(["rustc", "+nightly", "--print", "sysroot"], 60)
    tgt = os.path.join(WORK, "check"); cwd = REPO; env = {}
    if probe:
        tgt = os.path.join(WORK, "checkp"); cwd = tempfile.mkdtemp(prefix="probe_", dir=WORK); env = {"THIRDUMP_CRATE": "optprobe"}
        shutil.copytree(os.path.join(PROBE, "src"), os.path.join(cwd, "src")); shutil.copy(os.path.join(REPO, "Cargo.lock"), cwd)
        open(os.path.join(cwd, "Cargo.toml"), "w").write('[package]\nname = "optprobe"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nessay-opt = { path = "%s/crates/essay-opt" }\n' % REPO)
    # cargo does not see the output file: force the crate itself to be compiled again
    for d, ds, fs in os.walk(tgt):
        for x in [x for x in ds if x.startswith(("essay-tensor", "essay_tensor", "optprobe"))]: shutil.rmtree(os.path.join(d, x), ignore_errors=True); ds.remove(x)
    if os.path.exists(out): os.remove(out)
    rc, o, e = sh(["cargo", "+nightly", "check", "--offline", "--lib"], 400, cwd=cwd, env={"LD_LIBRARY_PATH": nl.strip() + "/lib", "THIRDUMP_OUT": out, "CARGO_TARGET_DIR": tgt, "RUSTC_WORKSPACE_WRAPPER": exe, **env})
    if probe: shutil.rmtree(cwd, ignore_errors=True)
    if not os.path.exists(out): raise Exception("extraction failed: " + e[-3000:])

def braces(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] == "{": d += 1
        elif s[j] == "}":
            d -= 1
            if d == 0: return j
def modes(s, total):
    out = ""; i = 0
    while True:
        m = re.compile(r"CHKR?\{").search(s, i)
        if not m: return out + s[i:]
        out += s[i:m.start()]
        j = braces(s, m.end() - 1); c = s[m.end():j]
        m2 = re.match(r"\s*ENS\{", s[j + 1:])
        k = j + 1 + m2.end() - 1; k2 = braces(s, k); e = s[k + 1:k2]
        R = m.group(0) == "CHKR{"
        out += (", %s ensures %s" % (c, e)) if total and R else ("requires %s ensures %s" % (c, e)) if total else ("ensures %s, %s" % (c, e))
        i = k2 + 1

def items(text):
    """top-level items of the prelude and spec library: (name, text)"""
    out = []; i = 0; n = len(text)
    while i < n:
        j = i; d = 0; k = i
        while k < n:
            c = text[k]
            if text.startswith("//", k):
                e = text.find("\n", k); k = n if e < 0 else e; continue
            if c in "{([": d += 1
            elif c in "})]":
                d -= 1
                if d == 0 and c == "}":
                    # CHK{..} ENS{..} { body }, requires/ensures blocks: the item goes on when another brace block or clause follows
                    m = re.match(r"\s*(?:,[^\n]*)?\s*(ENS)?\{", text[k + 1:])
                    if re.match(r"\s*(ENS\s*)?\{|\s*,|\s*(requires|ensures|decreases|via)\b|\s*CHKR?\{|\s*=>|\s*\)|\s*(else|&&|\|\||==>)", text[k + 1:]): k += 1; continue
                    break
            elif c == ";" and d == 0: break
            k += 1
        it = text[j:k + 1]; i = k + 1
        if not it.strip(): continue
        code = re.sub(r"//[^\n]*", "", it)
        m = re.search(r"\b(?:fn|struct|enum|trait|const)\s+(\w+)", code.split("{")[0] if not re.match(r"\s*impl", code) else "")
        if m: out.append((m.group(1), it))
        else:
            m = re.match(r"\s*(?:#\[[^\]]*\]\s*)*impl\s*(?:<[^{]*?>)?\s*(?:[\w:<>, ]+?\s+for\s+)?(\w+)", code)
            out.append((m.group(1) if m else "", it))
    return out

_items = {}
def prune(lib, used_text):
    """the library items the functions need, directly or through each other"""
    if lib not in _items: _items[lib] = [(n, t, set(re.findall(r"\b\w+\b", re.sub(r"//[^\n]*", "", t)))) for n, t in items(lib)]
    its = _items[lib]; used = set(re.findall(r"\b\w+\b", used_text)); keep = set(); ch = True
    while ch:
        ch = False
        for i, (n, t, w) in enumerate(its):
            if i in keep or (n and n not in used): continue
            keep.add(i); used |= w; ch = True
    return "".join(t for i, (n, t, w) in enumerate(its) if i in keep)

class File:
    """one Verus input: the functions in `verify` with bodies, the rest as contracts"""
    def __init__(s, crate, ct, verify, total, stub=(), comm=False):
        s.bad = {}; s.total = total; s.trees = {}; s.inl = {}
        gen = lower.Gen(crate, ct); gen.comm = comm; gen.base = base_locals(); texts = {}
        for k in verify:
            if k in stub: continue
            if k not in crate.bykey: s.bad[k] = "no such function in the source"; continue
            if ct.fns[k].mode and ct.fns[k].mode != ("total" if total else "partial"): continue
            fl = lower.FnLower(gen, crate.bykey[k], ct.fns[k]); fl.inl = []
            try: texts[k] = fl.lower(total); s.trees[k] = fl.looptree; s.inl[k] = sorted(fl.inlined | {"no call of " + h for h in (set(ct.fns[k].calls) | set(ct.fns[k].rets)) - fl.hooks})
            except Unsupported as x: s.bad[k] = "outside the translation: %s" % x
            except (KeyError, TypeError, IndexError, AttributeError) as x:
                if os.environ.get("VDEBUG"): raise
                s.bad[k] = "outside the translation: %r" % x
        s.verified = list(texts)
        names = {mangle(k): k for k in ct.fns}
        todo = True
        alltext = ct.prelude + ct.specs
        while todo:
            todo = False
            used = set(re.findall(r"\b\w+\b", "\n".join(texts.values())))
            for n in used & set(names):
                k = names[n]
                if k in texts: continue
                todo = True
                if k not in crate.bykey: s.bad[k] = "no such function in the source"; texts[k] = ""; continue
                try: texts[k] = lower.FnLower(gen, crate.bykey[k], ct.fns[k]).lower(total, body=False)
                except Unsupported as x: texts[k] = ""; s.bad[k] = "signature: %s" % x
        s.stubs = [k for k in texts if k not in s.verified]
        body = "\n".join(texts.values())
        for _ in range(4):
            lib = prune(ct.prelude + ct.specs, body + " " + gen.adt_text())
            words = set(re.findall(r"\b\w+\b", lib)); n0 = len(gen.used_adts)
            for p in crate.adts:
                n = lower.last(p)
                if n in words and n not in gen.used_adts.values() and ct.adt_ok(p, n): gen.used_adts[p] = n
            if len(gen.used_adts) == n0 and _ > 0: break
        for m in re.finditer(r"\bs(\d)_([a-z]\w*)", body + lib): gen.ops[(m.group(2), int(m.group(1)))] = 1
        for m in re.finditer(r"\bs(fl_\w+_(f32|f64))\b", body + lib): gen.lits[m.group(1)] = m.group(2)
        for m in re.finditer(r"\bFn([RVL]+|0)<", body + lib): gen.fnkinds[m.group(1)] = 1
        adts = gen.adt_text(); ops = gen.ops_text()
        head = "#![allow(unused, non_snake_case, non_camel_case_types)]\n#![feature(never_type)]\nuse vstd::prelude::*;\nuse std::sync::Arc;\nverus! {\n" if False else "#![allow(unused, non_snake_case, non_camel_case_types)]\nuse vstd::prelude::*;\nuse std::sync::Arc;\nverus! {\n"
        pre = head + adts + "\n" + ops + "\n" + lib + "\n"
        s.text = modes(pre, total); s.ranges = []
        for k, t in texts.items():
            a = s.text.count("\n") + 1; s.text += t + "\n"; s.ranges.append((a, s.text.count("\n"), k))
        s.text += "}\nfn main() {}\n"
    def fn_at(s, line):
        for a, b, k in s.ranges:
            if a <= line <= b: return k
        return None

def run_verus(f, path, rlimit=30, extra=()):
    open(path, "w").write(f.text)
    t = time.time()
    rc, o, e = sh(["verus", path, "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rlimit), "--multiple-errors", "3", "--no-report-long-running"] + list(extra), 800, cwd=os.path.dirname(path))
    r = {"wall": time.time() - t, "rc": rc, "errs": [], "compile": False, "verified": 0, "errors": 0, "smt_ms": 0, "cmd": "verus %s --rlimit %s" % (os.path.basename(path), rlimit)}
    try:
        j = json.loads(o); vr = j.get("verification-results", {})
        r["verified"] = vr.get("verified", 0); r["errors"] = vr.get("errors", 0); r["vir"] = vr.get("encountered-vir-error", False)
        r["smt_ms"] = (j.get("times-ms", {}).get("smt", {}) or {}).get("total", 0)
        r["fn_ms"] = {}
        for m in (j.get("times-ms", {}).get("smt", {}) or {}).get("smt-run-module-times", []):
            for q in m.get("function-breakdown", []): r["fn_ms"][q["function"].split("::")[-1]] = q.get("time", 0)
    except ValueError: r["nojson"] = True
    for l in e.splitlines():
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except ValueError: continue
        if d.get("level") != "error" or d["message"].startswith("aborting"): continue
        sp = [x for x in d["spans"] if x["file_name"].endswith(os.path.basename(path))] 
        fns = []
        for x in sorted(sp, key=lambda x: not x["is_primary"]):
            k = f.fn_at(x["line_start"])
            if k: fns.append((k, x["line_start"]))
        # the function being verified is the one with a body
        k = next((a for a, _ in fns if a in f.verified), fns[0][0] if fns else None)
        r["errs"].append({"fn": k, "msg": d["message"], "line": sp[0]["line_start"] if sp else 0, "text": "; ".join((x["label"] or "") + ": " + x["text"][0]["text"].strip() for x in sp if x["text"])[:600], "rendered": d["rendered"][:1500], "code": d.get("code")})
    if rc == -999: r["timeout"] = True
    semantic = ("postcondition", "precondition", "assertion failed", "invariant", "arithmetic", "decreases", "resource limit", "overflow", "possible division", "not satisfied", "assert_by", "requires not", "unable to prove", "could not")
    for x in r["errs"]: x["semantic"] = any(w in x["msg"].lower() for w in semantic)
    if r["errs"] and not any(x["semantic"] for x in r["errs"]) or (rc != 0 and r["verified"] == 0 and r["errors"] == 0): r["compile"] = True
    return r

def verify(crate, ct, keys, total, tag, rlimit=30, workdir=None, seed=0, comm=False):
    """functions that do not compile are turned into contracts one after the other and reported as lost"""
    lost = {}; stub = set()
    for i in range(25):
        f = File(crate, ct, keys, total, stub, comm)
        path = os.path.join(workdir or WORK, "v_%s_%s.rs" % (tag, "t" if total else "p"))
        r = run_verus(f, path, rlimit, ["--smt-option", "smt.random_seed=%d" % seed, "--smt-option", "sat.random_seed=%d" % seed] if seed else [])
        if not r["compile"]: break
        bad = {x["fn"] for x in r["errs"] if x["fn"] and x["fn"] in f.verified}
        if not bad:
            r["fatal"] = True; break
        for k in bad: lost[k] = next(x["rendered"] for x in r["errs"] if x["fn"] == k)
        stub |= bad
    r["lost"] = lost; r["bad"] = f.bad; r["file"] = f; r["path"] = path
    return r

def contracts(probe=False):
    return contracts_v.Contracts(os.path.join(VERIF, "contracts"), os.path.join(PROBE, "contracts") if probe else None)

def load(probe=False):
    out = os.path.join(WORK, "thir_%d.json" % os.getpid())
    extract(out, probe)
    j = json.load(open(out)); os.remove(out)
    return lower.Crate(j)

def closure_keys(crate, ct, keys):
    """the functions under contract that `keys` depend on, through calls"""
    seen = list(keys)
    while True:
        f = File(crate, ct, seen, True)
        more = [k for k in f.stubs if k in crate.bykey and not ct.fns[k].trusted and not ct.fns[k].bounded and k not in seen]
        if not more: return seen
        seen += more

def trusted_scan(text):
    """every assumption in the Verus input: functions without a verified body"""
    out = []
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*pub (fn|struct|proof fn|broadcast proof fn) (\w+)", text): out.append(m.group(2))
    for m in re.finditer(r"\baxiom fn (\w+)", text): out.append(m.group(1))
    bad = re.findall(r"\b(assume\s*\(|admit\s*\(|#\[verifier::external\])", text)
    return out, bad

def baseline(probe=False):
    try: return json.load(open(os.path.join(PROBE, "baseline.json") if probe else os.path.join(VERIF, "contracts", "baseline.json")))
    except (OSError, ValueError): return {}

_base = []
def base_locals():
    if not _base: _base.append(baseline())
    return _base[0]

def run(pid, prf, tier):
    t0 = time.time()
    probe = pid == "C29"; ct = contracts(probe)
    tagged = [k for k in ct.order if pid in ct.fns[k].props]
    mine = [k for k in tagged if not ct.fns[k].trusted and not ct.fns[k].bounded]
    if not mine: prf["status"] = "none"; return
    crate = load(probe); t1 = time.time()
    keys = closure_keys(crate, ct, mine)
    wd = tempfile.mkdtemp(prefix="p_%s_" % pid, dir=WORK)
    try: decide(pid, prf, tier, ct, crate, tagged, mine, keys, wd, t0, t1)
    finally: shutil.rmtree(wd, ignore_errors=True)

def decide(pid, prf, tier, ct, crate, tagged, mine, keys, wd, t0, t1):
    with cf.ThreadPoolExecutor(2) as ex:
        rs = dict(zip((True, False), ex.map(lambda m: verify(crate, ct, keys, m, pid, 30, wd), (True, False))))
    base = baseline(pid == "C29"); log = ""; failed = {}; lost = {}; rl = set(); ob = dis = 0; smt = 0; cmds = []
    for m in (True, False):
        r = rs[m]; mode = "total" if m else "partial"; smt += r["smt_ms"]
        cmds.append(r["cmd"])
        if r.get("timeout") or r.get("fatal") or r.get("nojson"):
            prf.update(status="error", log="%s: %s" % (mode, [x["rendered"] for x in r["errs"]][:3])); return
        bad = {x["fn"] for x in r["errs"] if x["fn"] in keys}
        odd = [x for x in r["errs"] if x["fn"] not in keys]
        if odd: prf.update(status="error", log="lemma library: " + odd[0]["rendered"]); return
        ob += r["verified"] + r["errors"]; dis += r["verified"]
        if bad:   # an obligation fails only if no attempt discharges it: alone, with more resources, and under other solver seeds
            r2 = None; fns = set(bad)
            for att in ([0], [7, 23, 101]):   # the last two with the laws of multiplication and of float arithmetic spelt out
                with cf.ThreadPoolExecutor(3) as ex:
                    tries = list(ex.map(lambda sd: verify(crate, ct, sorted(fns), m, "%sr%d" % (pid, sd), 120, wd, sd, sd > 10), att))
                for t in tries:
                    smt += t["smt_ms"]
                    if t.get("timeout") or t.get("fatal") or t.get("nojson") or t["lost"]: continue
                    fns &= {x["fn"] for x in t["errs"]}; r2 = t
                if not fns: break
            if r2 is None: prf.update(status="error", log="%s: no answer on %s" % (mode, sorted(bad))); return
            dis += len(bad - fns)
            for x in r2["errs"]:
                if x["fn"] is None or x["fn"] not in fns: continue
                if "resource limit" in x["msg"].lower(): rl.add(x["fn"]); continue
                failed.setdefault(x["fn"], []).append("%s [%s]: %s -- %s" % (x["fn"], mode, x["msg"], x["text"]))
                log += x["rendered"] + "\n"
        for k, v in list(r["lost"].items()) + list(r["bad"].items()): lost[k] = v[:600]
    f = rs[True]["file"]
    trust, badwords = trusted_scan(f.text)
    if badwords: prf.update(status="error", log="assumption in the contracts: %s" % badwords); return
    def intact(k):
        b = base.get(k)
        return bool(b) and [list(x) for x in f.trees.get(k, [])] == b["loops"] and f.inl.get(k, []) == b["inlined"]
    real = [k for k in failed if k in mine and intact(k)]
    soft = {k: "obligation not discharged after a change of its structure" for k in failed if k not in real}
    for k in failed:
        if k not in mine: soft[k] = "obligation of a function this property depends on fails (decided under %s)" % " ".join(ct.fns[k].props)
    for k in rl: soft.setdefault(k, "solver resource limit")
    for k in lost: soft[k] = lost[k]
    vac = None
    if tier == "thorough" and not failed: vac = vacuity(crate, ct, keys, pid, wd)
    ieee = ieee_lemmas(f.text, tier)
    ob += len(ieee); dis += sum(v.startswith("unsat") for v in ieee.values())
    trust = [x for x in trust if not ieee.get(x[6:] if x.startswith("axiom_") else x, "").startswith("unsat")]
    prf["coverage"] = {"obligations": ob, "discharged": dis, "checker_cmd": "bin/check %s (extracts /repo with vext/thirdump.rs, translates, then %s, once per mode: total and partial)" % (pid, cmds[0]),
        "trusted_base": ["Verus 0.2026.09.13 and its Z3", "rustc nightly THIR construction and vext/thirdump.rs + tools/lower.py (translation, see DESIGN.md)"] + ["model " + x for x in dict.fromkeys(trust) if not x.startswith(("x0_", "x1_", "x2_", "x3_", "fl_")) and x not in [mangle(k) for k in f.stubs]],
        "uninterpreted_element_operations": [x for x in trust if x.startswith(("x0_", "x1_", "x2_", "x3_", "fl_"))],
        "functions_under_contract": mine, "verified_dependencies": [k for k in keys if k not in mine], "inlined_into_callers": sorted({x for k in keys for x in f.inl.get(k, [])}),
        "assumed_contracts": {k: ct.fns[k].trusted for k in f.stubs if k in ct.fns and ct.fns[k].trusted},
        "bounded_only": {**{k: ct.fns[k].bounded for k in tagged if ct.fns[k].bounded}, **soft},
        "back_end": "Verus/Z3", "solver_ms": smt, "extract_s": round(t1 - t0, 1), "proof_s": round(time.time() - t1, 1)}
    if ieee: prf["coverage"]["floating_point_lemmas"] = {"contracts/ieee/%s.smt2" % k: v for k, v in ieee.items()}
    if vac is not None: prf["coverage"]["vacuity"] = vac
    prf["assumptions"] = ["run-time checks panic (debug profile): index, unwrap, division and subtraction failures and overflow of types narrower than usize stop the call; sums and products of usize and isize values are taken as mathematical integers", "element operations (float, generic, complex) are uninterpreted functions of their operands; Clone of an element is faithful",
        "a dimension fits 32 bits", "closures passed in terminate and do not unwind"]
    prf["failed"] = [x for k in real for x in failed[k]]; prf["log"] = log[:20000]
    prf["status"] = "violated" if real else "bounded" if soft else "proved"
    prf["soft"] = soft

def ieee_lemmas(text, tier):
    """the facts about IEEE arithmetic the contracts use, decided bit by bit: each file states the negation, which must be unsatisfiable"""
    d = os.path.join(VERIF, "contracts", "ieee"); out = {}
    for x in sorted(os.listdir(d)):
        n = x[:-5]
        if tier != "thorough" and "axiom_" + n not in text: continue
        if not n.startswith("law") and "axiom_" + n not in text: continue
        rc, o, e = sh(["cvc5", os.path.join(d, x)], 60)
        out[n] = (o.strip().split("\n")[0] or "no answer") + " (cvc5)"
        if not n.startswith("law"): rc, o, e = sh(["z3", os.path.join(d, x)], 60); out[n] += ", %s (z3)" % (o.strip().split("\n")[0] or "no answer")
    return out

def vacuity(crate, ct, keys, pid, wd):
    """no contract may be provable with `ensures false` as well: a contradiction in the requires or models would be"""
    import copy
    c2 = copy.copy(ct); c2.fns = dict(ct.fns)
    f = File(crate, ct, keys, True)
    out = {"checked": 0, "vacuous": []}
    for k in f.verified:
        c2.fns[k] = copy.copy(ct.fns[k]); c2.fns[k].vac = True
    r = verify(crate, c2, [k for k in f.verified], True, pid + "v", 30, wd)
    bad = {x["fn"] for x in r["errs"]}
    out["checked"] = len(r["file"].verified); out["vacuous"] = [k for k in r["file"].verified if k not in bad and k not in r["lost"]]
    return out

if __name__ == "__main__":
    # development: proof.py [-m t|p|tp] [-n: reuse the extraction] KEYS-or-props
    a = sys.argv[1:]; mode = "tp"; show = False
    if "-m" in a: i = a.index("-m"); mode = a[i + 1]; del a[i:i + 2]
    sd0 = None
    if "-s" in a: i = a.index("-s"); sd0 = int(a[i + 1]); del a[i:i + 2]
    dev = "/tmp/vt"
    pr = "-P" in a; oj = os.path.join(dev, "outp.json" if pr else "out.json")   # -P: the probe crate of C29
    if pr: a.remove("-P")
    if "-x" in a:
        a.remove("-x"); extract(oj, pr)
    crate = lower.Crate(json.load(open(oj)))
    ct = contracts(pr)
    if "--baseline" in a:
        keys = [k for k in ct.order if not ct.fns[k].trusted and not ct.fns[k].bounded]
        _base[:] = [{}]
        f = File(crate, ct, keys, True)
        json.dump({k: {"loops": [list(x) for x in f.trees[k]], "inlined": f.inl[k], "locals": [list(x[:2]) for x in lower.binders(crate, crate.bykey[k])]} for k in sorted(f.verified)}, open(os.path.join(PROBE, "baseline.json") if pr else os.path.join(VERIF, "contracts", "baseline.json"), "w"), indent=0)
        print(len(f.verified), f.bad); sys.exit()
    if "--vac" in a:
        keys = [k for k in ct.order if not ct.fns[k].trusted and not ct.fns[k].bounded]; print(vacuity(crate, ct, keys, "x", dev)); sys.exit()
    keys = [k for k in ct.order if any(x == k or x in ct.fns[k].props or (x.endswith("*") and k.startswith(x[:-1])) or x == "all" or ct.fns[k].where == x for x in a) and not ct.fns[k].trusted and not ct.fns[k].bounded]
    if "--sweep" in a:   # stability: which functions fail under which solver seeds
        keys = [k for k in keys if not a or True]
        tot = {}
        def one(x): m, sd = x; return x, verify(crate, ct, keys, m == "t", "sw%d" % sd, 30, dev, sd)
        with cf.ThreadPoolExecutor(3) as ex:
            for (m, sd), r in ex.map(one, [(m, sd) for sd in (1, 2, 3, 5, 8, 13) for m in mode]):
                print(m, sd, "verified", r["verified"], "wall %.0f" % r["wall"], sorted({str(x["fn"]) for x in r["errs"]}), sorted(r["lost"]), flush=True)
        sys.exit()
    def go(m):
        return m, verify(crate, ct, keys, m == "t", "dev", 30, dev, sd0)
    with cf.ThreadPoolExecutor(2) as ex:
        for m, r in ex.map(go, mode):
            print("==", {"t": "total", "p": "partial"}[m], "verified", r["verified"], "errors", r["errors"], "wall %.1f" % r["wall"], "FATAL" if r.get("fatal") else "")
            for k, v in r["bad"].items(): print("  BAD", k, v)
            for k, v in r["lost"].items(): print("  LOST", k, v)
            for x in r["errs"]: print("  ERR [%s] %s" % (x["fn"], x["rendered"]))
            slow = sorted(r.get("fn_ms", {}).items(), key=lambda x: -x[1])[:5]
            print("  slow", slow)
