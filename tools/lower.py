"""Mechanical translation of the typed bodies rustc produced (vext/thirdump.rs) into Verus.

Every function of the crate that has a contract becomes one free Verus function; the
functions it calls are either called through their own contract or, when they have none,
inlined.  What the translation drops is listed in DESIGN.md (trait bounds, visibility,
lifetimes, panic messages, `unsafe` markers, capacity hints).  Anything else it does not
know raises Unsupported, which makes the function `bounded`, never `proved`."""
import json, re

class Unsupported(Exception): pass
INTS = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"}
FLOATS = {"f32", "f64"}
USIZE = ("prim", "usize")
UNIT = ("tuple", ())

def last(p): return re.sub(r"<.*", "", p).split("::")[-1]

class Frame:
    def __init__(s, subst, vars, tag=""): s.subst, s.vars, s.tag = subst, vars, tag
    def child(s): return Frame(s.subst, s.vars, s.tag)

class Crate:
    def __init__(s, j):
        s.j = j; s.T = j["types"]; s.defs = dict(j["defs"]); s.tcache = {}
        s.fns = {f["id"]: f for f in j["fns"]}
        s.clos = {c["id"]: c for c in j["closures"]}
        s.adts = {a["p"]: a for a in j["adts"]}
        s.keys = {}; s.bykey = {}
        for i, f in s.fns.items():
            k = s.key(i)
            if k in s.bykey: k2 = k + "@" + re.search(r"(\w+)\.rs", f["file"]).group(1); k = k2 if k2 not in s.bykey else k2 + str(f["line"])
            s.keys[i] = k; s.bykey[k] = i
        s.into_from = {}
        for i, f in s.fns.items():
            d = s.defs[i]
            if d.get("impl_trait", "").endswith("convert::From"): 
                a = d["impl_trait_args"]; s.into_from.setdefault(last(s.defs[i]["path"]), []); s.into_from[i] = (s.ty(a[0]), s.ty(a[1]))
    # ---------------------------------------------------------------- types
    def ty(s, i):
        if isinstance(i, dict): return ("const", i["const"])
        if i in s.tcache: return s.tcache[i]
        t = s.T[i]; k = t["k"]
        if k == "prim": r = ("prim", t["n"])
        elif k == "never": r = ("never",)
        elif k == "adt": r = ("adt", t["p"], tuple(s.ty(a) for a in t["a"]))
        elif k == "array": r = ("array", s.ty(t["e"]), re.sub(r"_usize$|usize$", "", t["n"]))
        elif k == "slice": r = ("slice", s.ty(t["e"]))
        elif k == "ptr": r = ("ptr", t["m"], s.ty(t["e"]))
        elif k == "ref": r = ("ref", t["m"], s.ty(t["e"]))
        elif k == "tuple": r = ("tuple", tuple(s.ty(a) for a in t["e"]))
        elif k == "param": r = ("param", t["n"])
        elif k == "closure": r = ("closure", t["id"])
        elif k == "fndef": r = ("fndef", t["p"], t["id"])
        else: r = ("other", t["n"])
        s.tcache[i] = r
        return r
    def tname(s, t):
        k = t[0]
        if k == "prim": return t[1]
        if k == "adt":
            a = [x for x in t[2] if not (x[0] == "adt" and x[1].endswith("alloc::Global"))]
            return last(t[1]) + ("<" + ",".join(map(s.tname, a)) + ">" if a else "")
        if k == "array": return "[%s;%s]" % (s.tname(t[1]), t[2])
        if k == "slice": return "[%s]" % s.tname(t[1])
        if k == "ref": return "&" + ("mut " if t[1] else "") + s.tname(t[2])
        if k == "ptr": return "*" + s.tname(t[2])
        if k == "tuple": return "(" + ",".join(map(s.tname, t[1])) + ")"
        if k in ("param", "const"): return t[1]
        return "?" + k
    def key(s, i):
        d = s.defs[i]
        if "impl_trait" in d:
            a = [s.tname(s.ty(x)) for x in d["impl_trait_args"]]
            return "%s%s for %s::%s" % (last(d["impl_trait"]), "<" + ",".join(a[1:]) + ">" if a[1:] else "", a[0], d["name"])
        if "impl_self" in d:
            t = s.ty(d["impl_self"]); n = s.tname(t)
            if t[0] == "adt" and all(x[0] in ("param", "const") for x in t[2]): n = last(t[1])
            return n + "::" + d["name"]
        if "trait" in d: return last(d["trait"]) + "::" + d["name"]
        return last(d.get("parent", "")) + "::" + d["name"]

def subst(t, m):
    if not m: return t
    k = t[0]
    if k == "param": return m.get(t[1], t)
    if k == "adt": return (k, t[1], tuple(subst(x, m) for x in t[2]))
    if k == "array":
        n = t[2]
        if n in m: n = m[n][1] if m[n][0] == "const" else n
        return (k, subst(t[1], m), n)
    if k == "slice": return (k, subst(t[1], m))
    if k in ("ref", "ptr"): return (k, t[1], subst(t[2], m))
    if k == "tuple": return (k, tuple(subst(x, m) for x in t[1]))
    if k == "const" and t[1] in m: return m[t[1]]
    return t
def unify(p, t, m):
    if p[0] == "param":
        if p[1] in m: return m[p[1]] == t
        m[p[1]] = t; return True
    if p[0] != t[0]: return False
    k = p[0]
    if k == "adt": return p[1] == t[1] and len(p[2]) == len(t[2]) and all(unify(a, b, m) for a, b in zip(p[2], t[2]))
    if k == "array":
        if not p[2].isdigit():
            if p[2] in m: return m[p[2]][1] == t[2] and unify(p[1], t[1], m)
            m[p[2]] = ("const", t[2]); return unify(p[1], t[1], m)
        return p[2] == t[2] and unify(p[1], t[1], m)
    if k == "slice": return unify(p[1], t[1], m)
    if k in ("ref", "ptr"): return p[1] == t[1] and unify(p[2], t[2], m)
    if k == "tuple": return len(p[1]) == len(t[1]) and all(unify(a, b, m) for a, b in zip(p[1], t[1]))
    return p == t
def mangle(k): return re.sub(r"_+$", "", re.sub(r"[^A-Za-z0-9]+", "_", k.replace("&", "R").replace("[", "S").replace("*", "P")))
def has_other(t): return t[0] == "other" or t[0] in ("ref", "ptr") and has_other(t[2]) or t[0] in ("slice", "array") and has_other(t[1]) or t[0] == "tuple" and any(map(has_other, t[1])) or t[0] == "adt" and any(map(has_other, t[2]))
def patnames(p, al={}):
    return ([al.get(p["var"], p["name"])] if p["k"] == "Bind" else []) + [n for _, x in p.get("subs", []) for n in patnames(x, al)] + (patnames(p["sub"], al) if p.get("sub") else [])
def strip_ref(t):
    while t[0] == "ref": t = t[2]
    return t
def is_adt(t, n): return t[0] == "adt" and last(t[1]) == n

BINOP = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "bitand", "BitOr": "bitor", "BitXor": "bitxor", "Shl": "shl", "Shr": "shr"}
CMP = {"Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">=", "Eq": "==", "Ne": "!="}

class Gen:
    """the whole output file"""
    def __init__(s, crate, contracts):
        s.c = crate; s.ct = contracts; s.ops = {}; s.lits = {}; s.used_adts = {}; s.fnkinds = {}; s.intops = set(); s.truncs = set(); s.comm = False; s.base = {}
    def tx(s, t):
        k = t[0]
        if k == "prim": return "StrM" if t[1] == "str" else t[1]
        if k == "never": return "()"
        if k == "tuple": return "(" + ", ".join(map(s.tx, t[1])) + ("," if len(t[1]) == 1 else "") + ")"
        if k == "param": return san(t[1])
        if k == "const": return t[1]
        if k == "array": return "[%s; %s]" % (s.tx(t[1]), t[2])
        if k == "slice": return "[%s]" % s.tx(t[1])
        if k == "ref": return "&" + ("mut " if t[1] else "") + s.tx(t[2])
        if k == "ptr":
            e = t[2]
            if e[0] == "slice": return "RawSlice<%s>" % s.tx(e[1])
            return ("MutPtr" if t[1] else "RawPtr<%s>" % s.tx(e))
        if k == "adt":
            n = last(t[1])
            a = [x for x in t[2] if not (x[0] == "adt" and x[1].endswith("alloc::Global"))]
            if n == "Arc" and a and a[0][0] == "other" and "rustfft::Fft<" in a[0][1]: return "Arc<FftM>"
            if t[1] == "rustfft::FftPlanner": return "FftPlannerM"
            if n == "Box" and a and a[0][0] == "slice": return "BoxS<%s>" % s.tx(a[0][1])
            if t[1] == "std::slice::Iter": return "&[%s]" % s.tx(a[0])
            if t[1] == "std::slice::ChunksExact": return "ChunksM<'_, %s>" % s.tx(a[0])
            if t[1] in s.c.adts: s.used_adts[t[1]] = n
            elif n not in ("Vec", "Option", "Result", "Arc", "NonNull", "Range", "Layout", "File", "Error", "String", "Complex", "Ordering", "PathBuf", "Path", "Cursor", "Chunk", "Box"): raise Unsupported("type " + t[1])
            if n == "Ordering": return "core::cmp::Ordering"
            if n == "Error" or n == "Layout": return n + "M" + ("<%s>" % ", ".join(map(s.tx, a)) if a else "")
            if n in ("File", "String", "Path", "PathBuf"): return n + "M"
            return n + ("<" + ", ".join(map(s.tx, a)) + ">" if a else "")
        raise Unsupported("type %s" % (t,))
    def op(s, name, n):
        s.ops[(name, n)] = 1
        return "x%d_%s" % (n, name)
    def lit(s, txt, ty, neg=False):
        try: txt = repr(float(re.sub(r"_|f32$|f64$", "", txt)))   # one name per value
        except ValueError: pass
        n = "fl_" + ("m" if neg else "") + re.sub(r"[^0-9a-zA-Z]", "p", txt.replace("-", "m")) + "_" + ty
        s.lits[n] = ty
        return n
    def trunc(s, a, b, x):
        s.truncs.add((a, b)); return "tr_%s_%s(%s)" % (a, b, x)
    def adt_text(s):
        out = []; done = set()
        while True:
            todo = [p for p in s.used_adts if p not in done]
            if not todo: break
            for p in todo:
                done.add(p); a = s.c.adts[p]; n = s.used_adts[p]
                if n in s.ct.skip_adts: continue
                g = [("const %s: usize" % x["n"]) if x["k"] == "const" else x["n"] for x in a["generics"]]
                fty = lambda t: s.tx(s.c.ty(t))
                if any("&" in fty(t) for v in a["variants"] for _, t in v["fields"]):
                    fty = lambda t: s.tx(s.c.ty(t)).replace("&mut ", "&'a mut ") if "&mut" in s.tx(s.c.ty(t)) else s.tx(s.c.ty(t)).replace("&", "&'a ")
                    g = ["'a"] + g
                gs = "<" + ", ".join(g) + ">" if g else ""
                att = "".join("#[verifier::reject_recursive_types(%s)]\n" % x["n"] for x in a["generics"] if x["k"] == "type") if False else ""
                if a["enum"]:
                    vs = []
                    for v in a["variants"]:
                        if not v["fields"]: vs.append(v["n"])
                        elif v["ctor"].startswith("Some(Fn") or "Fn" in v["ctor"]: vs.append(v["n"] + "(" + ", ".join(fty(t) for _, t in v["fields"]) + ")")
                        else: vs.append(v["n"] + " { " + ", ".join("%s: %s" % (f, fty(t)) for f, t in v["fields"]) + " }")
                    out.append("%spub enum %s%s { %s }" % (att, n, gs, ", ".join(vs)))
                else:
                    v = a["variants"][0]
                    if "Fn" in v["ctor"]: out.append("%spub struct %s%s(%s);" % (att, n, gs, ", ".join("pub " + fty(t) for _, t in v["fields"])))
                    else: out.append("%spub struct %s%s { %s }" % (att, n, gs, ", ".join("pub %s: %s" % (f, fty(t)) for f, t in v["fields"])))
        return "\n".join(out)
    def ops_text(s):
        o = []
        for (n, k) in sorted(s.ops):
            g = [chr(65 + i) for i in range(k)]
            gl = ", ".join(g + ["RR"])
            o.append("pub uninterp spec fn s%d_%s<%s>(%s) -> RR;" % (k, n, gl, ", ".join("%s: %s" % (x.lower(), x) for x in g)))
            o.append("#[verifier::external_body]\npub fn x%d_%s<%s>(%s) -> (r: RR) ensures r == s%d_%s::<%s>(%s) { unimplemented!() }" % (k, n, gl, ", ".join("%s: &%s" % (x.lower(), x) for x in g), k, n, gl, ", ".join("*" + x.lower() for x in g)))
        for n in sorted(s.lits):
            o.append("pub uninterp spec fn s%s() -> %s;\n#[verifier::external_body]\npub fn %s() -> (r: %s) ensures r == s%s() { unimplemented!() }" % (n, s.lits[n], n, s.lits[n], n))
        for kd in sorted(s.fnkinds): o.append(fn_trait(kd))
        for (op, ty) in sorted(s.intops): o.append(int_op(op, ty, s.comm))
        for (a, b) in sorted(s.truncs): o.append(trunc_fn(a, b))
        if s.comm: o.append(float_laws(s.ops))
        return "\n".join(o)

def deret(e):
    """an inlined body with early returns: `if c { ..; return x } rest` is `if c { ..; x } else { rest }`"""
    def has(x):
        if isinstance(x, dict): return x.get("k") == "Return" or x.get("k") != "Closure" and any(has(v) for v in x.values())
        return isinstance(x, list) and any(has(v) for v in x)
    def tail(x):
        """x ends in a return on every path that leaves it through its end: the same with the returned value as its value, or None"""
        k = x["k"]
        if k in ("Never", "Scope", "Use"):
            return tail(x["e"])
        if k == "Return": return x["e"] if x["e"] is not None and not has(x["e"]) else None
        if k == "Block" and not x["b"].get("targeted"):
            b = x["b"]; st = b["stmts"]
            if b["expr"] is not None: l, rest = b["expr"], st
            elif st and st[-1]["k"] == "Expr": l, rest = st[-1]["e"], st[:-1]
            else: return None
            if has(rest): return None
            v = tail(l)
            return None if v is None else dict(x, ty=v["ty"], b=dict(b, stmts=rest, expr=v))
        if k == "If" and x["els"] is not None and not has(x["cond"]):
            t, f = tail(x["then"]), tail(x["els"])
            return None if t is None or f is None else dict(x, ty=t["ty"], then=t, els=f)
        return None
    if not has(e): return e
    k = e["k"]
    if k in ("Never", "Scope", "Use"): return deret(e["e"])
    if k == "Return": return deret(e["e"]) if e["e"] is not None else e
    if k == "If" and e["els"] is not None and not has(e["cond"]): return dict(e, then=deret(e["then"]), els=deret(e["els"]))
    if k == "Match" and not has(e["e"]): return dict(e, arms=[dict(a, body=deret(a["body"])) for a in e["arms"]])
    if k == "Block" and not e["b"].get("targeted"):
        b = e["b"]
        for i, st in enumerate(b["stmts"]):
            if not has(st): continue
            t = st["e"] if st["k"] == "Expr" else st["init"] if not st["els"] else None
            while t is not None and t["k"] in ("Never", "Scope", "Use"): t = t["e"]
            if t is not None and t["k"] == "Match" and t["src"].startswith("TryDesugar") and not has(t["e"]):
                rest = deret(dict(e, b=dict(b, stmts=b["stmts"][i + 1:])))
                return dict(e, b=dict(b, stmts=b["stmts"][:i], expr={"k": "TryLet", "ty": e["ty"], "inner": t["e"]["args"][0], "pat": st["pat"] if st["k"] != "Expr" else None, "rest": rest}))
            x = st["e"] if st["k"] == "Expr" else None
            while x is not None and x["k"] in ("Never", "Scope", "Use"): x = x["e"]
            rest = dict(b, stmts=b["stmts"][i + 1:])
            if x is None: return e
            if x["k"] == "Return" and x["e"] is not None: return dict(e, b=dict(b, stmts=b["stmts"][:i], expr=deret(x["e"])))
            if x["k"] != "If" or x["els"] is not None or has(x["cond"]): return e
            v = tail(x["then"])
            if v is None or rest["expr"] is None and not rest["stmts"]: return e
            tl = deret(dict(e, b=rest))
            return dict(e, b=dict(b, stmts=b["stmts"][:i], expr=dict(x, ty=v["ty"], then=v, els=tl)))
        if b["expr"] is not None: return dict(e, b=dict(b, expr=deret(b["expr"])))
    return e

def litval(e):
    while e["k"] in ("Scope", "Use", "Paren", "Never"): e = e["e"]
    return (-e["int"] if e["neg"] else e["int"]) if e["k"] == "Lit" and "int" in e else None

def san(n):
    return re.sub(r"[^A-Za-z0-9_]", "_", n)

def float_laws(ops):
    """laws of IEEE arithmetic (up to the payload of a NaN) that let a reordered expression pass, used when a first attempt fails"""
    o = []; ns = []
    def law(n, f, trig, eq):
        nm = "law_%s_%s" % (n, f); ns.append(nm)
        o.append("pub broadcast axiom fn %s(a: %s, b: %s) ensures #[trigger] %s == %s;" % (nm, f, f, trig, eq))
    for f in ("f32", "f64"):
        g = "s2_%s::<" + f + ", " + f + ", %s>(%s)"
        for n in ("add", "mul"):
            if (n, 2) in ops: law(n, f, g % (n, f, "a, b"), g % (n, f, "b, a"))
        for n in ("eq", "ne"):
            if (n, 2) in ops: law(n, f, g % (n, "bool", "a, b"), g % (n, "bool", "b, a"))
        if ("ne", 2) in ops and ("eq", 2) in ops: law("neq", f, g % ("ne", "bool", "a, b"), "!" + g % ("eq", "bool", "a, b"))
        for x, y in (("gt", "lt"), ("ge", "le")):
            if (x, 2) in ops and (y, 2) in ops: law(x, f, g % (x, "bool", "a, b"), g % (y, "bool", "b, a"))
            if (x, 2) in ops and (y, 2) in ops: law(y, f, g % (y, "bool", "a, b"), g % (x, "bool", "b, a"))
        def G(x, ab="a, b"): return g % (x, "bool", ab)
        for x, y in (("lt", "le"), ("gt", "ge")):      # strict comparison excludes equality and the converse
            if (x, 2) not in ops: continue
            cs = [G(y), "!" + G(y, "b, a")] if (y, 2) in ops else []
            if ("eq", 2) in ops: cs.append("!" + G("eq"))
            if ("ne", 2) in ops: cs.append(G("ne"))
            cs.append("!" + G(x, "b, a"))
            nm = "law_strict_%s_%s" % (x, f); ns.append(nm)
            o.append("pub broadcast axiom fn %s(a: %s, b: %s) ensures #[trigger] %s ==> %s;" % (nm, f, f, G(x), " && ".join("(%s)" % c for c in cs)))
    return "\n".join(o) + ("\nbroadcast use {%s};" % ", ".join(ns) if ns else "")

def trunc_fn(a, b):
    """`a as b` for integers, exactly: the value modulo 2^bits(b), in two's complement for a signed target"""
    n = 64 if b.endswith("size") else int(b[1:])
    hi, m = (1 << n - (b[0] == "i")) - 1, 1 << n
    return "pub open spec fn str_%s_%s(x: %s) -> %s { let m = x as int %% %dint; (if m > %dint { m - %dint } else { m }) as %s }\n#[verifier::external_body]\npub fn tr_%s_%s(x: %s) -> (r: %s) ensures r == str_%s_%s(x) { unimplemented!() }" % (a, b, a, b, m, hi, m, b, a, b, a, b, a, b)

def int_op(op, ty, comm=False):
    sym = {"add": "+", "sub": "-", "mul": "*"}.get(op)
    if op in ("add", "mul", "sub") and ty not in ("usize", "isize"):
        lim = "a - b >= 0" if op == "sub" and ty.startswith("u") else "%s::MIN <= a %s b <= %s::MAX" % (ty, sym, ty)
        return "#[verifier::external_body]\npub fn %s_%s(a: %s, b: %s) -> (r: %s) CHK{%s} ENS{r == a %s b} { unimplemented!() }" % (op, ty, ty, ty, ty, lim, sym)
    if op in ("add", "mul"): return "#[verifier::external_body]\npub fn %s_%s(a: %s, b: %s) -> (r: %s) ensures r == a %s b%s { unimplemented!() }" % (op, ty, ty, ty, ty, sym, ", r == b * a" if comm and op == "mul" else "")
    if op == "sub":
        if ty.startswith("u"): return "#[verifier::external_body]\npub fn sub_%s(a: %s, b: %s) -> (r: %s) CHK{a >= b} ENS{r == a - b} { unimplemented!() }" % (ty, ty, ty, ty)
        return "#[verifier::external_body]\npub fn sub_%s(a: %s, b: %s) -> (r: %s) ensures r == a - b { unimplemented!() }" % (ty, ty, ty, ty)
    if ty.startswith("u"):
        e = "r == a %s b" % {"div": "/", "rem": "%"}[op]
    else: e = {"div": "b > 0 ==> r == tdiv(a as int, b as int)", "rem": "b > 0 ==> r == trem(a as int, b as int)"}[op]
    return "#[verifier::external_body]\npub fn %s_%s(a: %s, b: %s) -> (r: %s) CHK{b != 0} ENS{%s} { unimplemented!() }" % (op, ty, ty, ty, ty, e)

def fn_trait(kd):
    ks = [] if kd == "0" else list(kd)
    g = [chr(65 + i) for i in range(len(ks))]
    sty = {"R": "%s", "V": "%s", "L": "Seq<%s>"}
    ety = {"R": "&%s", "V": "%s", "L": "&[%s]"}
    ev = {"R": "*%s", "V": "%s", "L": "%s@"}
    sp = [sty[k] % x for k, x in zip(ks, g)]; et = [ety[k] % x for k, x in zip(ks, g)]
    tup = "(" + ", ".join(sp) + ("," if len(sp) == 1 else "") + ")"
    sargs = ", ".join("%s: %s" % (x.lower(), t) for x, t in zip(g, sp)); eargs = ", ".join("%s: %s" % (x.lower(), t) for x, t in zip(g, et))
    vals = ", ".join(ev[k] % x.lower() for k, x in zip(ks, g)); vt = "(" + vals + ("," if len(g) == 1 else "") + ")"
    G = "".join(x + ", " for x in g); sa = (", " + sargs) if sargs else ""; ea = (", " + eargs) if eargs else ""; va = (", " + vals) if vals else ""
    # the closure's own requires/ensures, over the values of its arguments
    q = ", ".join("__%s: &[%s]" % (x.lower(), x) for k, x in zip(ks, g) if k == "L")
    cond = " && ".join("__%s@ == %s" % (x.lower(), x.lower()) for k, x in zip(ks, g) if k == "L")
    carg = "(" + ", ".join({"R": "&%s", "V": "%s", "L": "__%s"}[k] % x.lower() for k, x in zip(ks, g)) + ("," if len(g) == 1 else "") + ")"
    req = "e.requires(%s)" % carg; ens = "e.ensures(%s, r)" % carg
    if q: req, ens = "forall|%s| %s ==> #[trigger] e.requires(%s)" % (q, cond, carg), "exists|%s| %s && #[trigger] e.ensures(%s, r)" % (q, cond, carg)
    N = "Fn" + kd; C = "Cl" + kd
    return """pub trait %(N)s<%(G)sRR>: Sized {
  type Env;
  spec fn env(&self) -> Self::Env;
  spec fn req(e: Self::Env%(sa)s) -> bool;
  spec fn rel(e: Self::Env%(sa)s, r: RR) -> bool;
  spec fn hist(&self) -> Seq<(%(tup)s, RR)>;
  fn call(&mut self%(ea)s) -> (r: RR)
    requires Self::req(old(self).env()%(va)s)
    ensures final(self).hist() == old(self).hist().push((%(vt)s, r)), Self::rel(old(self).env()%(va)s, r), final(self).env() == old(self).env();
}
pub struct %(C)s<%(G)sRR, FF> { pub f: FF, pub h: Ghost<Seq<(%(tup)s, RR)>> }
impl<%(G)sRR, FF: Fn(%(et)s) -> RR> %(N)s<%(G)sRR> for %(C)s<%(G)sRR, FF> {
  type Env = FF;
  open spec fn env(&self) -> FF { self.f }
  open spec fn req(e: FF%(sa)s) -> bool { %(req)s }
  open spec fn rel(e: FF%(sa)s, r: RR) -> bool { %(ens)s }
  open spec fn hist(&self) -> Seq<(%(tup)s, RR)> { self.h@ }
  fn call(&mut self%(ea)s) -> (r: RR) {
    let r = (self.f)(%(names)s);
    proof { self.h@ = self.h@.push((%(vt)s, r)); }
    r
  }
}
pub fn mk%(kd)s<%(G)sRR, FF: Fn(%(et)s) -> RR>(f: FF) -> (r: %(C)s<%(G)sRR, FF>) ensures r.f == f, r.hist() == Seq::<(%(tup)s, RR)>::empty() { %(C)s { f, h: Ghost(Seq::empty()) } }""" % dict(
        N=N, C=C, G=G, sa=sa, ea=ea, va=va, vt=vt, tup=tup, req=req, ens=ens, kd=kd, et=", ".join(et), names=", ".join(x.lower() for x in g))

def binders(c, fid):
    """the local variables of a function in the order of their declaration: (name, type, id)"""
    out = []
    def walk(x):
        if isinstance(x, list):
            for v in x: walk(v)
        elif isinstance(x, dict):
            if x.get("k") == "Bind" and "var" in x:
                try: t = c.tname(c.ty(x["vty"])) if "vty" in x else ""
                except Exception: t = ""
                out.append((x["name"], t, x["var"]))
            if x.get("k") == "Closure" and x["id"] in c.clos: walk(c.clos[x["id"]]["params"]); walk(c.clos[x["id"]]["body"])
            for k, v in x.items():
                if isinstance(v, (dict, list)): walk(v)
    f = c.fns[fid]["b"]; walk(f["params"]); walk(f["body"])
    return out
def aliases(old, new):
    """variable ids of `new` that take the place of a variable of another name in `old`"""
    import difflib
    a = [tuple(x) for x in old]; b = [(n, t) for n, t, _ in new]; m = {}
    if a == b: return m
    gone = {n for n, _ in a} - {n for n, _ in b}
    if not gone: return m
    sm = difflib.SequenceMatcher(None, a, b, autojunk=False)
    pair = []
    for op, i1, i2, j1, j2 in sm.get_opcodes():
        if op == "replace":
            if i2 - i1 == j2 - j1: pair += zip(range(i1, i2), range(j1, j2))
            else:   # in order, by type
                j = j1
                for i in range(i1, i2):
                    q = next((x for x in range(j, j2) if b[x][1] == a[i][1]), None)
                    if q is not None: pair.append((i, q)); j = q + 1
    for i, j in pair:
        if a[i][1] == b[j][1] and a[i][0] != b[j][0] and a[i][0] in gone: m[new[j][2]] = a[i][0]
    return m

class FnLower:
    def __init__(s, gen, fid, ct, verify=True):
        s.g = gen; s.c = gen.c; s.fid = fid; s.ct = ct; s.f = gen.c.fns[fid]; s.key = gen.c.keys[fid]
        s.hooks = set(); s.count = {}; s.loops = 0; s.closures = 0; s.tmp = 0; s.h = None; s.hcount = 0; s.stack = []; s.labels = {}; s.looptree = []; s.depth = 0; s.fr = None; s.ret_ok = True; s.inlined = set(); s.names = {}; s.ghosts = {}; s.hoist = None
    def uns(s, m): raise Unsupported(m)
    def ty(s, e): return subst(s.c.ty(e["ty"]), s.fr.subst)
    def tt(s, i): return subst(s.c.ty(i), s.fr.subst)
    def fresh(s, n):
        n = san(n)
        if n in ("self", "proof", "spec", "exec", "ghost", "tracked", "int", "nat", "old", "final", "assert", "requires", "ensures", "invariant", "decreases", "seq", "choose", "r"): n = n + "_"
        k = s.count.get(n, 0); s.count[n] = k + 1
        return n if k == 0 else "%s_%d" % (n, k)
    def t(s):
        s.tmp += 1; return "__t%d" % s.tmp
    # ---------------------------------------------------------------- signature
    def generic_map(s, f):
        """type parameters that are conversions are replaced by their target"""
        m = {}; fk = {}; cp = set()
        outs = {}
        for p in f["preds"]:
            if p["k"] == "proj" and p["item"].endswith("IntoIterator>::Item") and s.c.ty(p["a"][0])[0] == "param": m[s.c.ty(p["a"][0])[1]] = ("adt", "std::vec::Vec", (s.c.ty(p["ty"]),))   # an iterator argument is the sequence of its items
            if p["k"] == "proj" and "Output" in p["item"] and "FnOnce" in p["item"]: outs[s.c.ty(p["a"][0])[1]] = s.c.ty(p["ty"])
        for p in f["preds"]:
            if p["k"] != "trait": continue
            a = [s.c.ty(x) for x in p["a"]]
            if a[0][0] != "param": continue
            n = last(p["t"])
            if n == "Into": m[a[0][1]] = a[1]
            elif n == "AsRef": m[a[0][1]] = ("ref", False, a[1])
            elif n in ("FnMut", "Fn", "FnOnce"):
                fk[a[0][1]] = (a[1][1], outs.get(a[0][1], UNIT))
            elif n == "Copy": cp.add(a[0][1])
            elif n in ("TransposeMatmul", "TransposeMatvec"):   # the crate's own implementor
                ims = set(s.c.ty(s.c.defs[i]["impl_self"]) for i in s.c.fns if s.c.defs[i].get("impl_trait") == p["t"])
                if len(ims) == 1: m[a[0][1]] = ims.pop()
            elif any(s.c.defs[i].get("impl_trait") == p["t"] and s.c.defs[i]["name"] == "into_arg" for i in s.c.fns):   # an option argument is the argument record it converts to
                ims = set(s.c.ty(s.c.defs[i]["impl_self"]) for i in s.c.fns if s.c.defs[i].get("impl_trait") == p["t"]) - {UNIT}
                if len(ims) == 1: m[a[0][1]] = ims.pop()
            elif n in s.g.ct.trait_types: m[a[0][1]] = ("adt", "::" + s.g.ct.trait_types[n], ())
        return m, fk, cp
    def kinds(s, args):
        k = ""
        for a in args:
            if a[0] == "ref" and not a[1]: k += "L" if a[2][0] == "slice" else "R"
            elif a[0] == "ref": s.uns("closure with a &mut argument")
            else: k += "V"
        return k or "0"
    def ginner(s, a): return a[2][1] if a[0] == "ref" and a[2][0] == "slice" else a[2] if a[0] == "ref" else a
    def fbound(s, sig):
        args, out = sig
        args = [subst(a, s.fr.subst) for a in args]
        if len(args) == 1 and args[0][0] == "ptr": return "FnP<%s>" % s.g.tx(args[0][2])
        kd = s.kinds(args); s.g.fnkinds[kd] = 1
        return "Fn%s<%s>" % (kd, ", ".join([s.g.tx(s.ginner(a)) for a in args] + [s.g.tx(subst(out, s.fr.subst))]))
    def wf(s, n, t, d=0):
        """well-formedness the types carry"""
        if t[0] == "ref": return s.wf(n, t[2], d) if not t[1] else []
        if t[0] == "adt":
            l = last(t[1])
            if l in s.g.ct.wf_types: return ["%s.wf()" % n]
            if l == "Vec" or l == "Box": 
                e = t[2][0]
                if l == "Box" and e[0] == "slice": e = e[1]
                q = s.wf("%s@[__k%d]" % (n, d), e, d + 1)
                return ["forall|__k%d: int| 0 <= __k%d < %s@.len() ==> %s" % (d, d, n, "(#[trigger] %s@[__k%d]).wf()" % (n, d) if q == ["%s@[__k%d].wf()" % (n, d)] else " && ".join("(%s)" % x for x in q))] if q else []
            if l == "Option":
                q = s.wf("%s.unwrap()" % n, t[2][0], d)
                return ["%s.is_some() ==> %s" % (n, x) for x in q]
        if t[0] in ("slice", "array"):
            q = s.wf("%s@[__k%d]" % (n, d), t[1], d + 1)
            return ["forall|__k%d: int| 0 <= __k%d < %s@.len() ==> (%s)" % (d, d, n, " && ".join(q).replace("%s@[__k%d].wf" % (n, d), "(#[trigger] %s@[__k%d]).wf" % (n, d)))] if q else []
        if t[0] == "tuple":
            o = []
            for i, x in enumerate(t[1]): o += s.wf("%s.%d" % (n, i), x, d)
            return o
        return []
    def lower(s, total, body=True):
        s.total = total
        old = (s.g.base.get(s.key) or {}).get("locals")
        s.alias_of = aliases(old, binders(s.c, s.fid)) if body and old else {}
        if s.alias_of: s.inlined.add("renamed locals")
        f, ct = s.f, s.ct
        m, fk, cp = s.generic_map(f)
        s.fr = Frame(m, {})
        params = f["b"]["params"]
        names = ct.params
        if len(names) != len(params): s.uns("signature changed: %d parameters, contract has %d" % (len(params), len(names)))
        gens = []
        for gp in f["generics"]:
            if gp["n"] in m: continue
            n = san(gp["n"])
            if gp["k"] == "const": gens.append("const %s: usize" % n)
            elif gp["n"] in fk: gens.append("%s: %s" % (n, s.fbound(fk[gp["n"]])))
            elif gp["n"] in ct.bounds: gens.append("%s: %s" % (n, ct.bounds[gp["n"]]))
            elif gp["n"] in cp: gens.append("%s: Copy" % n)
            else: gens.append(n)
        ps = []; pre = []; req = []; needs_h = None
        s.ct = ct = s.expand_f(ct, dict((n, san(s.c.ty(p["ty"])[1])) for n, p in zip(names, params) if s.c.ty(p["ty"])[0] == "param"))
        for i, (n, p) in enumerate(zip(names, params)):
            t = s.tt(p["ty"])
            raw = s.c.ty(p["ty"])
            if raw[0] == "param" and raw[1] in fk:
                ps.append("%s: &mut %s" % (n, san(raw[1]))); s.bind_param(p["pat"], n, t, pre, isf=True); continue
            if t[0] == "ptr" and t[1]: needs_h = t[2]
            ps.append("%s: %s" % (n, s.g.tx(t)))
            s.count[n] = 1
            if t[0] not in ("ref", "ptr", "prim"): s.ghosts[n] = 1
            req += s.wf(n, t)
            s.bind_param(p["pat"], n, t, pre)
        if needs_h: ps.insert(0, "__h: &mut OutBuf<%s>" % s.g.tx(needs_h)); s.h = ("__h", True)
        ret = subst(s.c.ty(f["output"]), s.fr.subst)
        if has_other(ret): ret = s.ty(f["b"]["body"])
        s.rett = ret
        head = "pub fn %s%s(%s)" % (mangle(s.key), "<%s>" % ", ".join(gens) if gens else "", ", ".join(ps))
        rn = ct.ret or "r"
        if ret != UNIT and ret[0] != "never": head += " -> (%s: %s)" % (rn, s.g.tx(ret))
        req += ct.req
        ens = (s.wf(rn, ret) if not ct.nowf else []) + ct.ens
        if total: req = req + ct.valid + ct.treq
        else: ens = ct.valid + ens
        att = "#[verifier::loop_isolation(false)]\n#[verifier::exec_allows_no_decreases_clause]\n"
        if ct.rlimit: att += "#[verifier::rlimit(%d)]\n" % ct.rlimit
        for a in ct.attr: att += a + "\n"
        if any(x.get("xinv") or x.get("lens") for x in ct.loops.values()): att += "#[verifier::allow_complex_invariants]\n"
        spec = ""
        if req: spec += "\n  requires " + ",\n    ".join(req)
        if ens: spec += "\n  ensures " + ",\n    ".join(ens)
        if ct.fdec and total and body: spec += "\n  decreases " + ct.fdec
        if not body: return "#[verifier::external_body]\n" + head + spec + "\n{ unimplemented!() }\n"
        s.labels = {}
        if ct.heap: s.h = ("__h", False); s.hcount = 1
        bd = f["b"]["body"]; st = ""
        while bd["k"] == "Block" and not bd["b"].get("targeted") and not s.panicky(bd) and (bd["b"]["expr"] is not None or ret == UNIT):
            for x in bd["b"]["stmts"]: st += s.stmt(x)
            bd = bd["b"]["expr"]
            if bd is None: break
        b = s.ex(bd) if bd is not None else "()"
        o = "{\n" + "".join("let ghost __g_%s = %s;\n" % (x, x) for x in s.ghosts) + "".join("let ghost %s;\n" % x for x in s.ct.ghost) + "".join(pre)
        if ct.pre: o += "proof { %s }\n" % s.nm(ct.pre, {})
        if ct.owns: o += "let mut __own = own_of(&%s);\n" % ct.owns
        if ct.heap: o += "let mut __h = OutBuf::<%s>::new(%s);\n" % tuple(ct.heap)
        o += st
        if ct.last: o += "proof { %s }\n" % s.nm(ct.last)
        vac = "assert(false);" if getattr(ct, "vac", False) else ""
        if vac: o += "%s%s\n;proof { %s }\n%s\n" % ("let %s = " % rn if ret != UNIT else "", b, vac, rn if ret != UNIT else "")
        elif ct.owns: o += "%s\n;proof { assert(!__own.live()); }\n" % b
        elif ct.post is not None and ret != UNIT: o += "let %s = %s;\nproof { %s }\n%s\n" % (rn, b, s.nm(ct.post), rn)
        elif ct.post is not None: o += "%s\n;proof { %s }\n" % (b, s.nm(ct.post))
        else: o += b + "\n"
        missing = [k for k in ct.loops if k >= s.loops]
        if missing: s.uns("loop structure changed: contract has loop %d, the code has %d loops" % (max(missing), s.loops))
        return att + head + spec + "\n" + o + "}\n"
    def expand_f(s, ct, m):
        """$F(x): the type parameter of parameter x"""
        import copy
        def w(v):
            if isinstance(v, str): return re.sub(r"\$F\((\w+)\)", lambda q: m[q.group(1)], v)
            if isinstance(v, list): return [w(x) for x in v]
            if isinstance(v, dict): return {k: w(x) for k, x in v.items()}
            return v
        c = copy.copy(ct)
        for k, v in list(c.__dict__.items()):
            if k not in ("props", "params", "inline"): setattr(c, k, w(v))
        return c
    def bind_param(s, pat, n, t, pre, isf=False):
        if pat is None or pat["k"] == "Wild": return
        if pat["k"] == "Bind" and not pat["sub"]:
            if isf: s.fr.vars[pat["var"]] = ("fparam", n); return
            if pat["mut"]:
                mn = n + "_m"; s.count[mn] = 1; s.names[pat["name"]] = s.names[s.alias_of.get(pat["var"], pat["name"])] = mn; pre.append("let mut %s = %s;\n" % (mn, n)); s.fr.vars[pat["var"]] = mn
            else: s.fr.vars[pat["var"]] = n; s.names[pat["name"]] = s.names[s.alias_of.get(pat["var"], pat["name"])] = n
            return
        pre.append("let %s = %s;\n" % (s.pat(pat), n))
    # ---------------------------------------------------------------- patterns
    def pat(s, p):
        k = p["k"]
        if k == "Wild": return "_"
        if k == "Bind":
            n = s.fresh(p["name"]); s.fr.vars[p["var"]] = n; s.names[p["name"]] = n
            if p["var"] in s.alias_of: s.names[s.alias_of[p["var"]]] = n
            if p["sub"]: s.uns("@ pattern")
            return ("mut " if p["mut"] else "") + n
        if k == "Deref":
            return s.pat(p["sub"]) if p["sub"]["k"] != "Bind" or True else "&" + s.pat(p["sub"])
        if k == "Variant":
            n = last(p["adt"])
            subs = sorted(p["subs"], key=lambda x: x[0])
            if n in ("Option", "Result"): head = p["variant"]
            else:
                head = n + "::" + p["variant"]
                if p["adt"] in s.c.adts: s.g.used_adts[p["adt"]] = n
            if not subs:
                v = [v for v in s.c.adts.get(p["adt"], {"variants": []})["variants"] if v["n"] == p["variant"]]
                if v and v[0]["fields"]: return head + (" { .. }" if "Fn" not in v[0]["ctor"] else "(..)")
                return head
            v = [v for v in s.c.adts.get(p["adt"], {"variants": []})["variants"] if v["n"] == p["variant"]]
            if v and "Fn" not in v[0]["ctor"]: return head + " { " + ", ".join("%s: %s" % (v[0]["fields"][i][0], s.pat(x)) for i, x in subs) + ", .. }"
            nf = len(v[0]["fields"]) if v else 1
            d = dict((i, x) for i, x in subs)
            return head + "(" + ", ".join(s.pat(d[i]) if i in d else "_" for i in range(nf)) + ")"
        if k == "Leaf":
            t = s.tt(p["ty"]); d = dict((i, x) for i, x in p["subs"])
            if t[0] == "tuple": return "(" + ", ".join(s.pat(d[i]) if i in d else "_" for i in range(len(t[1]))) + ("," if len(t[1]) == 1 else "") + ")"
            if t[0] == "adt" and t[1] in s.c.adts:
                v = s.c.adts[t[1]]["variants"][0]; s.g.used_adts[t[1]] = last(t[1])
                if "Fn" in v["ctor"]: return last(t[1]) + "(" + ", ".join(s.pat(d[i]) if i in d else "_" for i in range(len(v["fields"]))) + ")"
                return last(t[1]) + " { " + ", ".join("%s: %s" % (v["fields"][i][0], s.pat(x)) for i, x in d.items()) + ", .. }"
            s.uns("pattern")
        if k == "Const":
            v = p["v"]; m = re.match(r"^(-?\d+)_?(\w+)?$", v)
            if m: return m.group(1) + (m.group(2) or "")
            if v in ("true", "false"): return v
            s.uns("pattern constant " + v)
        if k == "Or": return " | ".join(s.pat(x) for x in p["pats"])
        s.uns("pattern " + k)
    # ---------------------------------------------------------------- diverging code
    def panicky(s, e):
        if e is None: return False
        k = e["k"]
        if k == "Never": return s.panicky(e["e"])
        if k == "Call" and "def" in e:
            d = s.c.defs[e.get("rdef") or e["def"]]
            return bool(d["diverges"]) and not d["local"] and d["name"] != "handle_alloc_error"
        if k == "Block":
            b = e["b"]
            if b["expr"] is not None: return s.panicky(b["expr"])
            return bool(b["stmts"]) and b["stmts"][-1]["k"] == "Expr" and s.panicky(b["stmts"][-1]["e"])
        if k == "Match" and len(e["arms"]) == 1: return s.panicky(e["arms"][0]["body"])
        return False
    def panic(s, t):
        if t is None or t[0] == "never": return "rt_panic::<()>()"
        try: return "rt_panic::<%s>()" % s.g.tx(t)
        except Unsupported: return "rt_panic()"
    # ---------------------------------------------------------------- expressions
    def ex(s, e):
        if s.panicky(e): return s.panic(s.ty(e))
        return getattr(s, "e_" + e["k"], s.e_unknown)(e)
    def e_unknown(s, e): s.uns("expression " + e["k"])
    def var(s, e):
        v = s.fr.vars.get(e["v"])
        if v is None: s.uns("unbound local %s" % e["v"])
        return v
    def e_Var(s, e):
        v = s.var(e)
        if isinstance(v, tuple):
            if v[0] == "fparam": return v[1]
            if v[0] == "clos": s.uns("closure used as a value")
        return v
    def unref(s, e):
        while e["k"] == "Ref" and not e["m"]: e = e["e"]
        return e
    def e_Ref(s, e):
        i = e["e"]
        if i["k"] == "Deref":
            it = s.ty(i["e"])
            if it[0] == "ref":
                if not e["m"]: return s.ex(i["e"])
                return "&mut *" + s.par(s.ex(i["e"])) if i["e"]["k"] != "Call" else s.ex(i["e"])
            if not e["m"] and it[0] == "adt" and last(it[1]) in ("Arc", "Box"): return "&*" + s.par(s.ex(i["e"]))
        if i["k"] == "Index" and not e["m"]: return s.index_ref(i)
        if e["m"]: return "&mut " + s.par(s.ex(i))
        if s.hoist is not None and i["k"] == "Call" and s.ty(i)[0] != "ref":
            x = s.ex(i); n = "__u%d" % s.bump(); s.hoist.append("let %s = %s; " % (n, x)); return "&" + n
        return "&" + s.par(s.ex(i))
    def hex(s, e):
        """text of e and the temporaries that have to outlive the statement"""
        old = s.hoist; s.hoist = []
        try: x = s.ex(e); return "".join(s.hoist), x
        finally: s.hoist = old
    def nohoist(s, f):
        old = s.hoist; s.hoist = None
        try: return f()
        finally: s.hoist = old
    def par(s, x): return x if re.match(r"^[\w.:]+(\(.*\))?$", x) and x.count("(") <= 1 or x.startswith("(") and x.endswith(")") and balanced(x) else "(" + x + ")"
    def index_ref(s, e):
        bt = s.ty(e["e"]); i = s.ex(e["i"])
        b = s.ref_of(e["e"])
        if bt[0] == "array": return "aix(%s, %s)" % (b, i)
        if bt[0] == "slice": return "ix(%s, %s)" % (b, i)
        s.uns("index of " + str(bt))
    def ref_of(s, e, mut=False):
        """a reference to the place e"""
        if e["k"] == "Deref" and s.ty(e["e"])[0] == "ref":
            x = s.ex(e["e"])
            return x if not mut else ("&mut *" + s.par(x) if e["e"]["k"] == "Var" else x)
        return ("&mut " if mut else "&") + s.par(s.ex(e))
    def e_Index(s, e): return "(*%s)" % s.index_ref(e)
    def e_Deref(s, e):
        t = s.ty(e["e"])
        if t[0] == "ptr" and not t[1]: return "rp_read(%s)" % s.ex(e["e"])
        return "(*%s)" % s.par(s.ex(e["e"]))
    def e_Field(s, e):
        i = e["e"]
        while i["k"] == "Deref": i = i["e"]
        return s.par(s.ex(i)) + "." + e["n"]
    def e_Lit(s, e):
        t = s.ty(e)
        if t[0] == "ref": t = t[2]
        if "int" in e:
            if t[0] == "prim" and t[1] in INTS: return ("-" if e["neg"] else "") + str(e["int"]) + t[1]
            if t[0] == "prim" and t[1] in FLOATS: return s.g.lit(str(e["int"]), t[1], e["neg"]) + "()"
            if t[0] == "array": s.uns("byte string")
            return str(e["int"])
        if "float" in e: return s.g.lit(e["float"], t[1], e["neg"]) + "()"
        if "bool" in e: return "true" if e["bool"] else "false"
        if "str" in e: return "strm(%s)" % json.dumps(e["str"], ensure_ascii=True).replace("\\u", "u")
        s.uns("literal")
    def e_Const(s, e):
        t = s.ty(e)
        if "bits" in e and t[0] == "prim" and t[1] in INTS:
            v = e["bits"]
            return str(v) + t[1]
        d = s.c.defs[e["def"]]
        if t[0] == "prim" and t[1] in FLOATS: return s.g.lit("c_" + d["name"], t[1]) + "()"
        s.uns("constant " + d["path"])
    def e_ConstParam(s, e):
        v = s.fr.subst.get(e["n"])
        return (v[1] if v and v[0] == "const" else e["n"]) + ("usize" if v and v[0] == "const" and v[1].isdigit() else "")
    def e_Tuple(s, e): return "(" + ", ".join(s.ex(x) for x in e["es"]) + ("," if len(e["es"]) == 1 else "") + ")"
    def e_Array(s, e): return "[" + ", ".join(s.ex(x) for x in e["es"]) + "]"
    def e_Repeat(s, e):
        t = s.ty(e)
        return "arep::<%s, %s>(%s)" % (s.g.tx(t[1]), t[2], s.ex(e["e"]))
    def e_Adt(s, e):
        n = last(e["adt"])
        fs = [(a, s.ex(b)) for a, b in e["fields"]]
        if n in ("Option", "Result"): return e["variant"] + ("(%s)" % fs[0][1] if fs else "")
        if e["adt"] not in s.c.adts:
            if n in s.g.ct.skip_adts or n == "Complex": pass
            else: s.uns("construction of " + e["adt"])
        else: s.g.used_adts[e["adt"]] = n
        h = n + ("::" + e["variant"] if e["enum"] else "")
        if not fs and not e["base"]: return h + (" { }" if e["ctor"] == "None" else "")
        if "Fn" in e["ctor"]: return h + "(" + ", ".join(b for a, b in fs) + ")"
        o = h + " { " + ", ".join("%s: %s" % (a, b) for a, b in fs)
        if e["base"]:
            if e["base"] == "default": s.uns("default field values")
            b = s.ex(e["base"]); given = {a for a, _ in fs}
            return "{ let __b%d = %s; %s }" % (s.bump(), b, o + "".join(", %s: __b%d.%s" % (a, s.tmp, a) for a in e["all"] if a not in given) + " }")
        return o + " }"
    def bump(s): s.tmp += 1; return s.tmp
    def e_RawRef(s, e):
        if e["e"]["k"] == "Deref" and s.ty(e)[0] == "ptr" and s.ty(e)[2][0] == "slice": return s.ex(e["e"]["e"])
        s.uns("raw reference")
    def e_Never(s, e): return s.ex(e["e"])
    def e_Coerce(s, e):
        t = s.ty(e); ft = s.ty(e["e"])
        if "Unsize" in e["c"]:
            a, b = strip_ref(ft), strip_ref(t)
            if a[0] == "array" and b[0] == "slice": return "aslice(%s)" % s.ex(e["e"])
            if is_adt(a, "Box") and is_adt(b, "Box"): return "boxs(%s)" % s.ex(e["e"])
        if "MutToConst" in e["c"]: return s.ex(e["e"])
        s.uns("coercion %s" % e["c"])
    def e_Cast(s, e):
        t, f = s.ty(e), s.ty(e["e"]); x = s.ex(e["e"])
        if t == f: return x
        if t[0] == "prim" and f[0] == "prim":
            a, b = f[1], t[1]
            if a in INTS and b in INTS:
                if (a, b) == ("usize", "u32"): return "to_u32(%s)" % x
                if (a, b) == ("isize", "usize"): return "i_to_u(%s)" % x
                if (a, b) == ("usize", "isize"): return "u_to_i(%s)" % x
                return "(%s as %s)" % (x, b) if widen(a, b) else s.g.trunc(a, b, x)
            if a == "bool" and b in INTS: return "(if %s { 1%s } else { 0%s })" % (x, b, b)
            l = litval(e["e"])
            if l is not None and b in FLOATS and abs(l) <= 1 << 24: return s.g.lit(str(abs(l)), b, l < 0) + "()"   # exact
            return "%s::<%s, %s>(&%s)" % (s.g.op("cast", 1), a, b, s.par(x))
        if f[0] == "ptr" and t[0] == "ptr":
            if f[2][0] == "slice": return ("rs_cast_rows(%s)" if f[2][1][0] == "array" and t[2] == f[2][1][1] else "rs_cast(%s)" if t[2] == f[2][1] else s.uns("pointer cast")) % x
            return x
        s.uns("cast %s -> %s" % (f, t))
    def e_Un(s, e):
        t = s.ty(e)
        if e["op"] == "Not":
            if t == ("prim", "bool"): return "(!%s)" % s.par(s.ex(e["e"]))
            return "(!%s)" % s.par(s.ex(e["e"]))
        if t[0] == "prim" and t[1] in INTS: return "(-%s)" % s.par(s.ex(e["e"]))
        return "%s::<%s, %s>(&%s)" % (s.g.op("neg", 1), s.g.tx(t), s.g.tx(t), s.par(s.ex(e["e"])))
    def e_Logic(s, e): return "(%s %s %s)" % (s.ex(e["l"]), {"And": "&&", "Or": "||"}[e["op"]], s.ex(e["r"]))
    def binop(s, op, lt, rt, res, l, r):
        if s.ct.elem and lt[0] == "prim" and op not in CMP:   # elements: the scalar operator, whatever it does
            return "%s::<%s, %s, %s>(&%s, &%s)" % (s.g.op(BINOP[op], 2), lt[1], rt[1], s.g.tx(res), s.par(l), s.par(r))
        if lt[0] == "prim" and lt[1] in INTS:
            if op in CMP: return "(%s %s %s)" % (l, CMP[op], r)
            n = BINOP[op]
            if n == "add" and s.ct.count and lt == USIZE: return "cadd_usize(%s, %s)" % (l, r)
            if n == "mul" and s.ct.dims and lt[1] == "u32": return "dmul_u32(%s, %s)" % (l, r)
            if n in ("add", "sub", "mul", "div", "rem"):
                s.g.intops.add((n, lt[1])); return "%s_%s(%s, %s)" % (n, lt[1], l, r)
            s.inlined.add("bit operators")   # a value computed another way: the contract's arithmetic may not follow
            sym = {"bitand": "&", "bitor": "|", "bitxor": "^", "shl": "<<", "shr": ">>"}[n]
            if n in ("shl", "shr"): return "%s_%s(%s, %s as u32)" % (n, lt[1], l, s.par(r)) if not r.strip().rstrip("i32").isdigit() else "%s_%s(%su32, %s)" % (n, lt[1], r.strip()[:-3] if r.endswith("i32") else r, l) if False else "%s_%s(%s, %s)" % (n, lt[1], l, re.sub(r"(i32|u32|usize)$", "", r) + "u32")
            return "(%s %s %s)" % (l, sym, r)
        if lt == ("prim", "bool"):
            if op in CMP: return "(%s %s %s)" % (l, CMP[op], r)
            return {"BitAnd": "(%s & %s)", "BitOr": "(%s | %s)"}[op] % (l, r)
        if lt[0] == "prim":
            if op in CMP: return "%s::<%s, %s, bool>(&%s, &%s)" % (s.g.op(op.lower(), 2), lt[1], rt[1], s.par(l), s.par(r))
            return "%s::<%s, %s, %s>(&%s, &%s)" % (s.g.op(BINOP[op], 2), lt[1], rt[1], s.g.tx(res), s.par(l), s.par(r))
        s.uns("binary %s on %s" % (op, lt))
    def e_Bin(s, e): return s.binop(e["op"], s.ty(e["l"]), s.ty(e["r"]), s.ty(e), s.ex(e["l"]), s.ex(e["r"]))
    def e_If(s, e):
        c = e["cond"]
        if s.panicky(e["then"]) and e["els"] is None and c["k"] != "LetE":
            return "if %s { %s }" % (s.ex(c), s.panic(UNIT))
        if c["k"] == "LetE": h = "if let %s = %s" % ((lambda x: (s.pat(c["pat"]), x))(s.ex(c["e"])))
        else:
            if s.has_lete(c): s.uns("let chain")
            h = "if " + s.ex(c)
        o = h + " " + s.blk(e["then"])
        if e["els"] is not None: o += " else " + (s.blk(e["els"]) if e["els"]["k"] != "If" else "{ " + s.ex(e["els"]) + " }")
        return o
    def has_lete(s, e):
        if e["k"] == "LetE": return True
        if e["k"] == "Logic": return s.has_lete(e["l"]) or s.has_lete(e["r"])
        return False
    def blk(s, e):
        x = s.ex(e)
        return x if e["k"] == "Block" and x.startswith("{") and not s.panicky(e) else "{ " + x + " }"
    def e_Block(s, e): return s.nohoist(lambda: s.e_Block_(e))
    def e_Block_(s, e):
        b = e["b"]
        if b.get("targeted"): s.uns("labelled block")
        o = "{\n"; old = dict(s.names)
        for st in b["stmts"]: o += s.stmt(st)
        if b["expr"] is not None: o += s.ex(b["expr"]) + "\n"
        s.names = old
        return o + "}"
    def stmt(s, st):
        if st["k"] == "Expr":
            x = s.ex(st["e"])
            if st["e"]["k"] == "Never" and x.startswith("rt_panic::<"): x = "rt_panic::<()>()"
            return x + ";\n"
        p, i = st["pat"], st["init"]
        if st["els"]:
            x = s.ex(i); els = s.block_text(st["els"])
            names = []
            s.bindings(p, names)
            pt = s.pat(p); vs = [s.fr.vars[v] for v in names]
            tup = "(" + ", ".join(vs) + ("," if len(vs) == 1 else "") + ")"
            return "let %s = match %s { %s => %s, _ => %s };\n" % (tup, x, pt, tup, els)
        if i is not None and p["k"] == "Bind" and i["k"] == "Closure":
            s.fr.vars[p["var"]] = ("clos", i["id"], s.fr); return ""
        if i is None:
            return "let %s: %s;\n" % (s.pat(p), s.g.tx(s.tt(p["ty"])))
        a = s.alias(i)
        if a is not None and p["k"] == "Bind": s.fr.vars[p["var"]] = a; return ""
        it = s.iterish(i)
        x = s.ex(i)
        ann = ""
        if p["k"] == "Bind":
            try: ann = ": " + s.g.tx(s.tt(p["vty"]))
            except Unsupported: ann = ""
        if x.startswith("m_from_raw_parts_mut("): ann = ""
        pt = s.pat(p)
        return "let %s%s = %s;\n" % (pt, ann, x)
    def iterish(s, e): return False
    def alias(s, i):
        if i["k"] == "Var":
            v = s.fr.vars.get(i["v"])
            if isinstance(v, tuple): return v
        if i["k"] == "Ref" and i["e"]["k"] == "Var":
            v = s.fr.vars.get(i["e"]["v"])
            if isinstance(v, tuple): return v
        return None
    def bindings(s, p, out):
        if p["k"] == "Bind": out.append(p["var"])
        for _, x in p.get("subs", []): s.bindings(x, out)
        if p.get("sub"): s.bindings(p["sub"], out)
    def block_text(s, b): return s.e_Block({"b": b})
    def e_Assign(s, e): return s.assign(e["l"], s.ex(e["r"]))
    def assign(s, l, v):
        if l["k"] == "Index":
            bt = s.ty(l["e"]); f = {"array": "aset", "slice": "sset"}.get(bt[0]) or s.uns("index assignment")
            n = s.bump()
            return "{ let __v%d = %s; let __k%d = %s; %s(%s, __k%d, __v%d); }" % (n, v, n, s.ex(l["i"]), f, s.ref_of(l["e"], True), n, n)
        if l["k"] == "Deref" and l["e"]["k"] == "Call" and s.callee(l["e"])["path"].endswith("index_mut"):
            c = l["e"]; base = c["args"][0]; bt = strip_ref(s.ty(base))
            if s.ty(c["args"][1]) != USIZE: s.uns("range assignment")
            f = "vset" if is_adt(bt, "Vec") else {"slice": "sset", "array": "aset"}.get(bt[0]) or s.uns("index_mut")
            n = s.bump()
            return "{ let __v%d = %s; let __k%d = %s; %s(%s, __k%d, __v%d); }" % (n, v, n, s.ex(c["args"][1]), f, s.ex(base), n, n)
        if l["k"] == "Var": return "%s = %s" % (s.ex(l), v)
        if l["k"] == "Field": return "%s = %s" % (s.ex(l), v)
        if l["k"] == "Deref" and s.ty(l["e"])[0] == "ref": return "*%s = %s" % (s.par(s.ex(l["e"])), v)
        if l["k"] == "Deref" and s.ty(l["e"])[0] == "ptr" and s.ty(l["e"])[1] and s.h and s.ty(l)[0] == "prim":
            n = s.bump(); return "{ let __p%d = %s; let __v%d = %s; %s.write(__p%d, __v%d); }" % (n, s.ex(l["e"]), n, v, s.h[0], n, n)
        s.uns("assignment to " + l["k"])
    def e_AssignOp(s, e):
        l = e["l"]
        if l["k"] == "Deref" and l["e"]["k"] == "Call" and s.callee(l["e"])["path"].endswith("index_mut") and s.ty(l["e"]["args"][1]) == USIZE:
            a = l["e"]["args"]; bt = strip_ref(s.ty(a[0])); b = a[0]
            if b["k"] != "Ref": s.uns("index_mut")
            cur = "*%s(&%s, %s)" % ({"array": "aix", "slice": "ix"}.get(bt[0], "vix"), s.par(s.ex(b["e"])), s.ex(a[1]))
        else: cur = s.ex(l)
        return s.assign(l, s.binop(e["op"].replace("Assign", ""), s.ty(l), s.ty(e["r"]), s.ty(l), cur, s.ex(e["r"])))
    def e_Return(s, e):
        if not s.ret_ok: s.uns("return inside an inlined function")
        x = s.ex(e["e"]) if e["e"] is not None else ""
        return "return " + x
    def e_Break(s, e):
        l = s.labels.get(e["label"])
        if l is None: s.uns("break out of a labelled block")
        if e["e"] is not None and not (e["e"]["k"] == "Tuple" and not e["e"]["es"]): s.uns("break with a value")
        return "break" if l == s.labels["cur"] else "break '" + l
    def e_Continue(s, e):
        l = s.labels.get(e["label"])
        if l is None: s.uns("continue")
        k = int(l[1:]); h = s.lp(k, "end") if l == s.labels["cur"] else ""   # the loop's closing hints hold at every way to the next iteration
        return ("{ %s continue }" % h if h else "continue") if l == s.labels["cur"] else "continue '" + l
    def e_Match(s, e):
        if e["src"].startswith("ForLoop"): return s.forloop(e)
        if e["src"].startswith("TryDesugar"): return s.trydesugar(e)
        # assert_eq!(a, b): match (&a, &b) { (l, r) => if !(*l == *r) { panic } }
        if len(e["arms"]) == 1 and e["e"]["k"] == "Tuple" and e["arms"][0]["pat"]["k"] == "Leaf":
            subs = e["arms"][0]["pat"]["subs"]
            if all(p["k"] == "Bind" and not p["mut"] for _, p in subs):
                o = "{ "
                for i, p in subs: 
                    x = s.ex(e["e"]["es"][i]); o += "let %s = %s; " % (s.pat(p), x)
                return o + s.ex(e["arms"][0]["body"]) + " }"
        sc = e["e"]
        st = s.ty(sc)
        x = s.ex(sc)
        if sc["k"] == "Deref" and s.ty(sc["e"])[0] == "ref" and any(s.has_ref(a["pat"]) for a in e["arms"]): x = s.ex(sc["e"])
        elif sc["k"] in ("Field", "Index") and any(s.has_ref(a["pat"]) for a in e["arms"]): x = "&" + s.par(x)
        o = "match %s {\n" % x
        for a in e["arms"]:
            s.names = dict(s.names)
            o += s.pat(a["pat"]) + (" if " + s.ex(a["guard"]) if a["guard"] else "") + " => " + s.blk(a["body"]) + ",\n"
        return o + "}"
    def has_ref(s, p):
        if p["k"] == "Bind": return p["byref"]
        return any(s.has_ref(x) for _, x in p.get("subs", [])) or bool(p.get("sub") and s.has_ref(p["sub"]))
    def e_TryLet(s, e):
        n = s.bump(); t = s.ty(e["inner"]); x = s.ex(e["inner"])
        pt = "_" if e["pat"] is None else s.pat(e["pat"]); r = s.ex(e["rest"])
        if is_adt(t, "Result"): return "(match %s { Ok(%s) => %s, Err(__q%d) => Err(__q%d) })" % (x, pt, r, n, n)
        if is_adt(t, "Option"): return "(match %s { Some(%s) => %s, None => None })" % (x, pt, r)
        s.uns("?")
    def trydesugar(s, e):
        c = e["e"]
        if not s.ret_ok: s.uns("? inside an inlined function")
        inner = c["args"][0]; t = s.ty(inner)
        n = s.bump()
        if is_adt(t, "Result"): return "(match %s { Ok(__q%d) => __q%d, Err(__q%d) => return Err(__q%d) })" % (s.ex(inner), n, n, n, n)
        if is_adt(t, "Option"): return "(match %s { Some(__q%d) => __q%d, None => return None })" % (s.ex(inner), n, n)
        s.uns("?")
    # ---------------------------------------------------------------- loops
    def loop_hdr(s, k, auto, dec, names=None):
        lc = s.ct.loops.get(k) if s.depth_ok() else None
        inv = list(auto); d = dec; ens = []; xinv = []
        if lc:
            inv += lc.get("inv", []); ens = lc.get("lens", []); xinv = lc.get("xinv", [])
            if s.total: inv += lc.get("tinv", [])
            if lc.get("dec"): d = lc["dec"][0]
            if lc.get("tdec") and s.total: d = lc["tdec"][0]
        def sub(x): return s.nm(s.subloop(x, k), names)
        o = ""
        if xinv: o += "\n  invariant_except_break " + ",\n    ".join(map(sub, xinv))
        if inv: o += "\n  invariant " + ",\n    ".join(map(sub, inv))
        if ens: o += "\n  ensures " + ",\n    ".join(map(sub, ens))
        if d: o += "\n  decreases " + sub(d)
        return o
    def depth_ok(s): return True
    def subloop(s, x, k): return re.sub(r"\$([a-z])(\d*)\b", lambda m: {"i": "__i", "x": "__x", "e": "__e", "s": "__s", "v": "__acc", "b": "__it"}[m.group(1)] + (m.group(2) or str(k)), x)
    def lp(s, k, w, names=None):
        lc = s.ct.loops.get(k)
        if w == "before" and lc and lc.get("ghost"):
            g = "".join("let ghost %s;\n" % s.nm(s.subloop(x, k), names) for x in lc["ghost"])
            return g + ("proof { %s }\n" % s.nm(s.subloop(lc[w], k), names) if lc.get(w) else "")
        if lc and lc.get(w): return "proof { %s }\n" % s.nm(s.subloop(lc[w], k), names)
        return ""
    def nm(s, x, names=None):
        """contract text speaks about the source's variables; use the names they have here"""
        names = s.names if names is None else names
        return re.sub(r"(?<![\w.$])([A-Za-z_]\w*)\b(?!\s*(?:\(|::|:(?!:)))", lambda m: "__g_" + m.group(1) if m.group(1) in s.ghosts else names.get(m.group(1), m.group(1)) if m.group(1) not in s.ct.params else m.group(1), x)
    def newloop(s, kind):
        k = s.loops; s.loops += 1; s.looptree.append((len(s.stack), kind)); s.stack.append(k)
        return k
    def counted(s, k, setup, lo, hi, bind, body, label=None):
        """while __i < __e { let __x = __i; __i += 1; bind; body }"""
        old = dict(s.labels)
        if label: s.labels[label] = "l%d" % k
        s.labels["cur"] = "l%d" % k
        outer = dict(s.names)
        b = bind(); st = s.lp(k, "start")
        if st and "$" not in b: b += st; st = ""
        b += body(); inner = dict(s.names); s.names = outer
        s.labels = old
        s.stack.pop()
        hdr = s.loop_hdr(k, ["__s%d <= __i%d <= __e%d" % (k, k, k)], "__e%d - __i%d" % (k, k))
        lab = "'l%d: " % k if re.search(r"(break|continue) 'l%d\b" % k, b) else ""
        return "%slet __s%d: usize = %s; let __e%d: usize = umax(__s%d, %s); let mut __i%d: usize = __s%d;\n%s%swhile __i%d < __e%d%s\n{\nlet __x%d = __i%d; __i%d = __i%d + 1;\n%s%s%s}\n%s" % (
            setup, k, lo, k, k, hi, k, k, s.lp(k, "before"), lab, k, k, hdr, k, k, k, k, "", b, s.lp(k, "end", inner), s.lp(k, "after"))
    def forloop(s, e):
        it = e["e"]
        p = s.callee(it)["path"]
        src = it["args"][0] if p.endswith("into_iter") else it
        arm = e["arms"][0]
        loop = arm["body"]
        while loop["k"] == "Block" and not loop["b"]["stmts"]: loop = loop["b"]["expr"]
        if loop["k"] != "Loop": s.uns("for shape")
        blk = loop["e"]["b"]
        m = blk["stmts"][0]["e"] if blk["stmts"] else blk["expr"]
        some = [a for a in m["arms"] if a["pat"].get("variant") == "Some"][0]
        pat = some["pat"]["subs"][0][1]; body = some["body"]
        lab = loop.get("scope")
        s.looptree.append((len(s.stack), "for " + " ".join(patnames(pat, s.alias_of))))   # a loop over another variable is another loop
        def b():
            if body["k"] == "Block" and not body["b"].get("targeted") and not s.panicky(body):
                o = "".join(s.stmt(x) for x in body["b"]["stmts"])
                return o + (s.ex(body["b"]["expr"]) + ";\n" if body["b"]["expr"] is not None else "")
            x = s.ex(body)
            return x + ";\n"
        return "{\n" + s.iterate(src, lambda item, ity: s.bindpat(pat, item), b, lab) + "}"
    def bindpat(s, pat, item):
        if pat["k"] == "Wild": return "let _ = %s;\n" % item
        while pat["k"] == "Deref":   # &x patterns over a reference item
            pat = pat["sub"]; item = "*" + s.par(item)
        return "let %s = %s;\n" % (s.pat(pat), item)
    def iterate(s, e, bind, body, label=None):
        """loops over the iterator expression e; bind(item, type) declares, body() emits"""
        while e["k"] in ("Ref",) and s.c and s.is_iter(strip_ref(s.ty(e))): e = e["e"]
        t = s.ty(e)
        if e["k"] == "Adt" and last(e["adt"]) == "Range":
            d = dict((a, b) for a, b in e["fields"])
            lo, hi = s.ex(d["start"]), s.ex(d["end"])
            if s.ty(d["start"]) != USIZE: s.uns("range over " + str(s.ty(d["start"])))
            k = s.newloop("range")
            return s.counted(k, "", lo, hi, lambda: bind("__x%d" % k, USIZE), body, label)
        if e["k"] == "Call":
            p = s.callee(e)["path"]; n = p.split("::")[-1]; a = e["args"]
            if n == "new" and p.startswith("std::ops::RangeInclusive") and s.ty(a[0]) == USIZE:
                s.g.intops.add(("add", "usize"))
                lo, hi = s.ex(a[0]), s.ex(a[1]); k = s.newloop("range=")
                return s.counted(k, "", lo, "add_usize(%s, 1)" % hi, lambda: bind("__x%d" % k, USIZE), body, label)
            if n == "step_by" and a[0]["k"] == "Adt" and last(a[0]["adt"]) == "Range" and s.ty(dict(a[0]["fields"])["start"]) == USIZE:
                d = dict(a[0]["fields"]); lo, hi, st = s.ex(d["start"]), s.ex(d["end"]), s.ex(a[1]); k = s.newloop("step"); s.g.intops |= {("add", "usize"), ("mul", "usize")}
                setup = "let __lo%d: usize = %s; let __hi%d: usize = umax(__lo%d, %s); let __st%d: usize = %s; if __st%d == 0 { rt_panic::<()>() } " % (k, lo, k, k, hi, k, st, k)
                return s.counted(k, setup, "0", "udiv_ceil(__hi%d - __lo%d, __st%d)" % (k, k, k), lambda: bind("add_usize(__lo%d, mul_usize(__x%d, __st%d))" % (k, k, k), USIZE), body, label)
            if n == "into_iter" and s.is_iter(s.ty(a[0])): return s.iterate(a[0], bind, body, label)
            if n == "rev":
                i = a[0]
                if i["k"] == "Adt" and last(i["adt"]) == "Range":
                    d = dict((x, y) for x, y in i["fields"])
                    lo, hi = s.ex(d["start"]), s.ex(d["end"]); k = s.newloop("rev")
                    s.g.intops.add(("sub", "usize"))
                    return s.counted(k, "", lo, hi, lambda: bind("(__e%d - 1 - (__x%d - __s%d))" % (k, k, k), USIZE), body, label)
                src = s.indexed(i)
                if src:
                    k = s.newloop("rev")
                    setup, ln, item, ity = src(k)
                    return s.counted(k, setup, "0", ln, lambda: bind(item("(__e%d - 1 - __x%d)" % (k, k)), ity), body, label)
            if n == "enumerate":
                # position = iteration number of the loop below
                kk = s.loops
                inner = lambda item, ity: bind("(%s, %s)" % ("(__x%d - __s%d)" % (kk, kk) if not s.zero_based(a[0]) else "__x%d" % kk, item), ("tuple", (USIZE, ity)))
                if s.flat(a[0]): s.uns("enumerate over flat_map")
                return s.iterate(a[0], inner, body, label)
            if n == "map":
                def inner(item, ity):
                    x, rt = s.apply(a[1], [item], [ity])
                    return bind(x, rt)
                return s.iterate(a[0], inner, body, label)
            if n in ("cloned", "copied"): return s.iterate(a[0], lambda item, ity: bind("cl(%s)" % item, strip_ref(ity)), body, label)
            if n == "flat_map":
                if label and False: s.uns("flat_map")
                def outer_body(): return s._fm()
                holder = {}
                def b1(item, ity):
                    c = s.closure_of(a[1]); holder["pre"] = s.bind_closure(c, [item]); return holder["pre"]
                def b2():
                    c = s.closure_of(a[1])
                    return "{\n" + s.iterate(s.clos_expr(c), bind, body, label) + "}\n"
                return s.iterate(a[0], b1, b2, None)
            if n == "flatten":
                kk = s.bump()
                def f1(item, ity): f1.ty = ity; return "let __fl%d = %s;\n" % (kk, item)
                def f2():
                    src = s.indexed_val("", "__fl%d" % kk, f1.ty)
                    if not src: s.uns("flatten")
                    k = s.newloop("seq"); setup, ln, item, ity = src(k)
                    return "{\n" + s.counted(k, setup, "0", ln, lambda: bind(item("__x%d" % k), ity), body, label) + "}\n"
                return s.iterate(a[0], f1, f2, None)
            if n == "zip":
                s1, s2 = s.indexed(a[0]), s.indexed(a[1])
                if s1 and s2:
                    k = s.newloop("zip")
                    (u1, n1, i1, t1), (u2, n2, i2, t2) = s1(k), s2(str(k) + "z")
                    return s.counted(k, u1 + u2, "0", "umin(%s, %s)" % (n1, n2), lambda: bind("(%s, %s)" % (i1("__x%d" % k), i2("__x%d" % k)), ("tuple", (t1, t2))), body, label)
            if n == "take":
                s1 = s.indexed(a[0])
                if s1:
                    k = s.newloop("take"); (u1, n1, i1, t1) = s1(k)
                    return s.counted(k, u1, "0", "umin(%s, %s)" % (n1, s.ex(a[1])), lambda: bind(i1("__x%d" % k), t1), body, label)
            if n == "skip":
                s1 = s.indexed(a[0])
                if s1:
                    k = s.newloop("skip"); (u1, n1, i1, t1) = s1(k)
                    return s.counted(k, u1, s.ex(a[1]), n1, lambda: bind(i1("__x%d" % k), t1), body, label)
        if e["k"] == "Block" and e["b"]["expr"] is not None and not e["b"].get("targeted"):
            o = "".join(s.stmt(x) for x in e["b"]["stmts"])
            return o + s.iterate(e["b"]["expr"], bind, body, label)
        src = s.indexed(e)
        if src:
            k = s.newloop("seq")
            setup, ln, item, ity = src(k)
            return s.counted(k, setup, "0", ln, lambda: bind(item("__x%d" % k), ity), body, label)
        s.uns("iterator " + (s.callee(e)["path"] if e["k"] == "Call" and "def" in e else e["k"]))
    def flat(s, e): return e["k"] == "Call" and s.callee(e)["path"].split("::")[-1] in ("flat_map", "flatten")
    def zero_based(s, e):
        if e["k"] == "Adt": return False
        if e["k"] == "Call" and s.callee(e)["path"].split("::")[-1] in ("rev", "map", "cloned", "copied", "into_iter", "skip") and s.is_iter(s.ty(e["args"][0])): return s.zero_based(e["args"][0]) and not s.callee(e)["path"].endswith("::skip")
        return True
    def is_iter(s, t): return t[0] == "adt" and (t[1].startswith("std::iter::") or last(t[1]) in ("Iter", "Range", "ChunksExact", "IntoIter", "Enumerate", "Map", "Rev", "Zip", "Take", "Skip"))
    def indexed(s, e):
        """k -> (setup, length, item(index), item type) for sequences"""
        t = s.ty(e); bt = strip_ref(t)
        if e["k"] == "Call":
            p = s.callee(e)["path"]; n = p.split("::")[-1]; a = e["args"]
            if n == "iter" and "slice" in p:
                h, x = s.hex(a[0]); et = strip_ref(s.ty(a[0]))[1]
                return lambda k: (h + "let __it%s = %s; " % (k, x), "__it%s.len()" % k, lambda i: "ix(__it%s, %s)" % (k, i), ("ref", False, et))
            if n == "chunks_exact":
                x, c = s.ex(a[0]), s.ex(a[1]); et = strip_ref(s.ty(a[0]))[1]; s.g.intops |= {("div", "usize"), ("mul", "usize"), ("add", "usize")}
                return lambda k: ("let __it%s = %s; let __c%s: usize = %s; if __c%s == 0 { rt_panic::<()>() } " % (k, x, k, c, k), "div_usize(__it%s.len(), __c%s)" % (k, k), lambda i: "ssub(__it%s, mul_usize(%s, __c%s), add_usize(mul_usize(%s, __c%s), __c%s))" % (k, i, k, i, k, k), ("ref", False, ("slice", et)))
            if n == "into_iter" and not (t[0] == "ref"):
                src = a[0]; st = s.ty(src)
                if st[0] == "ref" or s.is_iter(st) or is_adt(st, "Vec") or st[0] == "array": return s.indexed(src)
            d = s.callee(e)
            if d["local"] and is_adt(bt, "ChunksExact") and s.c.keys.get(e["def"] if e["def"] in s.c.keys else None) is not None and s.g.ct.fns.get(s.c.keys[e["def"]]):   # by its contract
                x = s.ex(e); et = bt[2][-1]; s.g.intops |= {("div", "usize"), ("mul", "usize"), ("add", "usize")}
                return lambda k: ("let __ch%s = %s; let __it%s = __ch%s.s; let __c%s: usize = __ch%s.n; " % (k, x, k, k, k, k), "div_usize(__it%s.len(), __c%s)" % (k, k), lambda i: "ssub(__it%s, mul_usize(%s, __c%s), add_usize(mul_usize(%s, __c%s), __c%s))" % (k, i, k, i, k, k), ("ref", False, ("slice", et)))
            if d["local"] and s.is_iter(bt):   # Tensor::iter, iter_row: look through
                f, args, fr = s.inline_target(e)
                if f:
                    pre, expr, nf = s.inline_bind(e)
                    of = s.fr; s.fr = nf
                    try: r = s.indexed(expr)
                    finally: s.fr = of
                    if r is None: return None
                    def w(k):
                        u, l, it, ty = r(k)
                        return (pre + u, l, it, ty)
                    return w
        if bt[0] == "slice" and t[0] == "ref" or is_adt(bt, "Vec") or bt[0] == "array":
            h, x = s.hex(e)
            return s.indexed_val(h, x, t)
        return None
    def indexed_val(s, h, x, t):
        bt = strip_ref(t)
        if bt[0] == "slice" and t[0] == "ref":
            return lambda k: (h + "let __it%s = %s; " % (k, x), "__it%s.len()" % k, lambda i: "ix(__it%s, %s)" % (k, i), ("ref", False, bt[1]))
        if is_adt(bt, "Vec"):
            et = bt[2][0]
            if t[0] == "ref": return lambda k: (h + "let __it%s = %s; " % (k, x), "__it%s.len()" % k, lambda i: "vix(__it%s, %s)" % (k, i), ("ref", False, et))
            return lambda k: (h + "let __it%s = %s; " % (k, x), "__it%s.len()" % k, lambda i: "vtake(&__it%s, %s)" % (k, i), et)
        if bt[0] == "array":
            et = bt[1]
            if t[0] == "ref": return lambda k: (h + "let __it%s = %s; " % (k, x), str(bt[2]), lambda i: "aix(__it%s, %s)" % (k, i), ("ref", False, et))
            return lambda k: (h + "let __it%s = %s; " % (k, x), str(bt[2]), lambda i: "atake(&__it%s, %s)" % (k, i), et)
        return None
    def e_Loop(s, e):
        """loop { if c { body } else { break } }  or a plain loop"""
        k = s.newloop("loop")
        old = dict(s.labels); s.labels[e.get("scope")] = "l%d" % k; s.labels["cur"] = "l%d" % k
        b = e["e"]; blk = b["b"] if b["k"] == "Block" else None
        cond = "true"; body = None; outer = dict(s.names)
        if blk:
            only = blk["expr"] if not blk["stmts"] else (blk["stmts"][0]["e"] if len(blk["stmts"]) == 1 and blk["expr"] is None and blk["stmts"][0]["k"] == "Expr" else None)
            if only is not None and only["k"] == "If" and only["els"] is not None and s.is_break(only["els"]) and only["cond"]["k"] != "LetE":
                cond = s.ex(only["cond"]); body = s.ex(only["then"])
        if body is None: body = s.ex(b)
        s.names = outer
        s.labels = old; s.stack.pop()
        lab = "'l%d: " % k if re.search(r"(break|continue) 'l%d\b" % k, body) else ""
        return "%s%swhile %s%s\n{\n%s%s;\n%s}\n%s" % (s.lp(k, "before"), lab, cond, s.loop_hdr(k, [], None), s.lp(k, "start"), body, s.lp(k, "end"), s.lp(k, "after"))
    def is_break(s, e):
        while e["k"] in ("Never", "Block"):
            if e["k"] == "Never": e = e["e"]
            else:
                b = e["b"]
                if b["expr"] is not None and not b["stmts"]: e = b["expr"]
                elif len(b["stmts"]) == 1 and b["expr"] is None and b["stmts"][0]["k"] == "Expr": e = b["stmts"][0]["e"]
                else: return False
        return e["k"] == "Break"
    # ---------------------------------------------------------------- closures
    def closure_of(s, e):
        while e["k"] == "Ref": e = e["e"]
        if e["k"] == "Closure": return (e["id"], s.fr)
        if e["k"] == "Var":
            v = s.fr.vars.get(e["v"])
            if isinstance(v, tuple) and v[0] == "clos": return (v[1], v[2])
        return None
    def bind_closure(s, c, args):
        cl = s.c.clos[c[0]]; o = ""
        of = s.fr; s.fr = c[1]
        for p, a in zip(cl["params"], args): o += s.bindpat(p["pat"], a) if p["pat"]["k"] != "Deref" else "let %s = *%s;\n" % (s.pat(p["pat"]["sub"]), s.par(a))
        s.fr = of
        return o
    def clos_expr(s, c):
        b = s.c.clos[c[0]]["body"]
        while b["k"] == "Block" and not b["b"]["stmts"] and b["b"]["expr"] is not None: b = b["b"]["expr"]
        return b
    def apply(s, f, args, tys):
        """text and type of f(args)"""
        c = s.closure_of(f)
        if c:
            pre = s.bind_closure(c, args); of, ro = s.fr, s.ret_ok; s.fr = c[1]; s.ret_ok = False
            try: b = s.ex(deret(s.c.clos[c[0]]["body"])); rt = s.ty(s.c.clos[c[0]]["body"])
            finally: s.fr, s.ret_ok = of, ro
            return "{ %s%s }" % (pre, b), rt
        if f["k"] == "Zst" or s.ty(f)[0] == "fndef": s.uns("function item as a closure")
        if f["k"] == "Var":
            v = s.fr.vars.get(f["v"])
            if isinstance(v, tuple) and v[0] == "fparam":
                return "%s.call(%s)" % (v[1], ", ".join(args)), ("other", "?")
        s.uns("call of a computed function")
    # ---------------------------------------------------------------- calls
    def callee(s, e):
        if "def" not in e: s.uns("indirect call")
        return s.c.defs[e.get("rdef") or e["def"]]
    def e_Call(s, e):
        if "def" not in e: s.uns("indirect call")
        import builtins_v
        did = e.get("rdef") or e["def"]; d = s.c.defs[did]; p = d["path"]
        if d["local"] and "trait" in d and e["args"] and d["name"] not in s.g.ct.trait_methods:
            # a crate trait's method on a type that is known here
            st = s.ty(e["args"][0])
            for i in s.c.fns:
                di = s.c.defs[i]; m = {}
                if di.get("impl_trait") == d["trait"] and di["name"] == d["name"] and st[0] != "param" and strip_ref(st)[0] != "param" and (unify(s.c.ty(di["impl_self"]), st, m) or m.clear() or st[0] == "ref" and unify(s.c.ty(di["impl_self"]), st[2], m)):
                    e = dict(e); e["rdef"] = did = i; e["rsub"] = m; d = di; p = d["path"]; break
        r = builtins_v.call(s, e, d, p)
        if r is not None: return r
        if did in s.c.fns: return s.local_call(e, did)
        s.uns("call of " + p)
    def call_subst(s, e, did):
        f = s.c.fns[did]
        if "rsub" in e: return e["rsub"], f
        ga = [s.tt(x) if not isinstance(x, dict) else subst(("const", x["const"]), s.fr.subst) for x in (e.get("rargs") if "rdef" in e else e.get("gargs")) or []]
        gn = [g["n"] for g in f["generics"]]
        return dict(zip(gn, ga)), f
    def targ(s, e, i):
        x = ((e.get("rargs") if "rdef" in e else e.get("gargs")) or [])[i]
        return s.tt(x)
    def local_call(s, e, did):
        key = s.c.keys[did]
        ct = s.g.ct.fns.get(key)
        if did == s.fid or (ct is not None and key not in s.ct.inline): return s.contract_call(e, did, ct)
        return s.inline(e, did)
    def convert(s, x, frm, to):
        if frm == to: return x
        if frm[0] == "ref" and to[0] == "ref" and strip_ref(frm) == strip_ref(to): return x
        if to[0] == "ref" and to[2][0] == "slice":
            b = strip_ref(frm)
            if is_adt(b, "Vec"): return "vslice(%s%s)" % ("" if frm[0] == "ref" else "&", x)
            if b[0] == "array": return "aslice(%s%s)" % ("" if frm[0] == "ref" else "&", x)
            if b[0] == "slice": return x
        for i, ft in s.c.into_from.items():
            if not isinstance(ft, tuple): continue
            m = {}
            if unify(ft[0], to, m) and unify(ft[1], frm, m):
                return s.contract_or_inline_conv(i, x, frm, m)
        if frm[0] == to[0] == "prim" and frm[1] in INTS and to[1] in INTS and widen(frm[1], to[1]): return "(%s as %s)" % (x, to[1])
        if is_adt(to, "Option") and to[2][0] == frm: return "Some(%s)" % x
        s.uns("conversion %s -> %s" % (s.c.tname(frm), s.c.tname(to)))
    def contract_or_inline_conv(s, did, x, frm, m):
        key = s.c.keys[did]; ct = s.g.ct.fns.get(key)
        if ct is not None:
            f = s.c.fns[did]
            return "%s%s(%s)" % (mangle(key), s.turbofish(f, m, {}), x)
        return s.inline_text(did, m, [x])
    def turbofish(s, f, m, clos):
        gm, fk, cp = s.generic_map(f)
        g = []
        for gp in f["generics"]:
            n = gp["n"]
            if n in gm: continue
            if n in fk: g.append("_"); continue
            t = m.get(n)
            try: g.append(s.g.tx(t) if t else "_")
            except Unsupported: g.append("_")
        return "::<%s>" % ", ".join(g) if g else ""
    def contract_call(s, e, did, ct):
        m, f = s.call_subst(e, did)
        gm, fk, cp = s.generic_map(f)
        pre = ""; args = []; post = ""
        ins = [s.c.ty(x) for x in f["inputs"]]
        hneed = False
        for a, it in zip(e["args"], ins):
            if it[0] == "param" and it[1] in fk:
                if "FnP" in s.fb(f, it[1], fk, m): s.uns("pointer closure")
                al = s.alias(a)
                if al and al[0] == "fparam": args.append(al[1]); continue
                c = s.closure_of(a)
                if c is None: s.uns("closure argument")
                n = s.bump()
                sig = ([subst(subst(x, gm), m) for x in fk[it[1]][0]], subst(subst(fk[it[1]][1], gm), m))
                pre += "let mut __c%d = %s;\n" % (n, s.closure_lit(c, sig))
                args.append("&mut __c%d" % n); continue
            if it[0] == "param" and it[1] in gm:
                al = s.alias(a)
                args.append(s.convert(s.ex(a), s.ty(a), subst(subst(gm[it[1]], gm), m))); continue
            if it[0] == "ptr" and it[1]: hneed = True
            x = s.ex(a)
            if s.ct.heap and is_adt(s.ty(a), "NonNull"): x = "m_nn_filled(%s, &__h)" % x
            args.append(x)
        if hneed:
            if not s.h: s.uns("pointer passed outside an initialisation")
            args.insert(0, s.h[0] if s.h[1] else "&mut " + s.h[0])
        ck = s.c.keys[did]
        if ck in s.ct.calls or ck in s.ct.rets:
            s.hooks.add(ck)
            n = s.bump(); us = []
            for i, a in enumerate(args):
                if a.startswith("&mut ") or (s.h and a == s.h[0]): us.append(a); continue
                if a.startswith("vslice(&(") and a.endswith("))") and balanced(a[8:-1]):
                    pre += "let __q%d_%dt = %s;\n" % (n, i, a[8:-1]); a = "vslice(&__q%d_%dt)" % (n, i)
                elif a.startswith("&(") and balanced(a[1:]):
                    pre += "let __q%d_%dt = %s;\n" % (n, i, a[1:]); a = "&__q%d_%dt" % (n, i)
                us.append("__q%d_%d" % (n, i)); pre += "let %s = %s;\n" % (us[-1], a)
            gs = list(us)
            for i, a in enumerate(us):
                m9 = re.match(r"&mut __c(\d+)$", a)
                if m9: gs[i] = "__o" + m9.group(1); pre += "let ghost %s = __c%s;\n" % (gs[i], m9.group(1))
            sb = lambda x: re.sub(r"\$(\d)", lambda m: gs[int(m.group(1))], x).replace("$r", "__q%d" % n)
            call = "%s%s(%s)" % (mangle(ck), s.turbofish(f, m, {}), ", ".join(us))
            pre += "proof { %s }\n" % s.nm(sb(s.ct.calls[ck])) if ck in s.ct.calls else ""
            if ck in s.ct.rets: return "{ %slet __q%d = %s;\nproof { %s }\n__q%d }" % (pre, n, call, s.nm(sb(s.ct.rets[ck])), n)
            return "{ %s%s }" % (pre, call)
        call = "%s%s(%s)" % (mangle(ck), s.turbofish(f, m, {}), ", ".join(args))
        return "{ %s%s }" % (pre, call) if pre else call
    def fb(s, f, n, fk, m):
        a = fk[n][0]
        return "FnP" if len(a) == 1 and a[0][0] == "ptr" else ""
    def closure_lit(s, c, sig):
        k = s.closures; s.closures += 1
        cl = s.c.clos[c[0]]
        kd = s.kinds(sig[0]); s.g.fnkinds[kd] = 1
        of, ro = s.fr, s.ret_ok; s.fr = c[1]; s.ret_ok = False
        try:
            ps = []; inner = ""; names = []
            for p, t in zip(cl["params"], sig[0]):
                if p["pat"]["k"] == "Bind" and not p["pat"]["mut"]: n = s.pat(p["pat"]); 
                else:
                    n = "__a%d" % s.bump()
                    inner += s.bindpat(p["pat"], n)
                ps.append("%s: %s" % (n, s.g.tx(t))); names.append(n)
            cc = s.ct.closures.get(k) or {}
            sub = lambda x: re.sub(r"\$(\d)", lambda m: names[int(m.group(1))], x)
            rt = sig[1]
            if rt[0] in ("other",) : rt = s.ty(cl["body"])
            bd = deret(cl["body"]); b = s.ex(bd)
            ens = [sub(x) for x in cc.get("ens", [])]; req = [sub(x) for x in cc.get("req", [])]
            if not ens:
                import spec_v
                sp = None
                try: sp = spec_v.spec(s, bd, dict((p["pat"]["var"], n) for p, n in zip(cl["params"], names) if p["pat"]["k"] == "Bind"))
                except Unsupported: sp = None
                if sp: ens = ["__r == " + sp]
                else: s.inlined.add("closure %d has no specification" % k)
        finally: s.fr, s.ret_ok = of, ro
        o = "|%s| -> (__r: %s)" % (", ".join(ps), s.g.tx(rt))
        if req: o += " requires " + ", ".join(req)
        if ens: o += " ensures " + ", ".join(ens)
        return "mk%s(%s { %s%s })" % (kd, o, inner, b)
    # ---------------------------------------------------------------- inlining
    def inline_target(s, e):
        did = e.get("rdef") or e["def"]
        if did in s.c.fns: return s.c.fns[did], None, None
        return None, None, None
    def inline_bind(s, e):
        """bindings and result expression of a local call whose body is one expression (for iterators)"""
        did = e.get("rdef") or e["def"]; m, f = s.call_subst(e, did)
        b = f["b"]["body"]; st = []
        while b["k"] == "Block":
            st += b["b"]["stmts"]; b = b["b"]["expr"]
            if b is None: s.uns("iterator function")
        nf = Frame(m, {}); pre = ""
        xs = [s.ex(a) for a in e["args"]]
        of = s.fr; s.fr = nf
        for p, x in zip(f["b"]["params"], xs): pre += "let %s = %s;\n" % (s.pat(p["pat"]), x)
        for q in st: pre += s.stmt(q)
        s.fr = of
        return pre, b, nf
    def inline(s, e, did):
        m, f = s.call_subst(e, did)
        gm, fk, cp = s.generic_map(f)
        xs = []; ins = [s.c.ty(x) for x in f["inputs"]]
        for a, it in zip(e["args"], ins):
            al = s.alias(a)
            if al: xs.append(al); continue
            c = s.closure_of(a) if (it[0] == "param" and it[1] in fk) else None
            if c: xs.append(("clos", c[0], c[1])); continue
            if it[0] == "param" and it[1] in gm:
                xs.append(s.convert(s.ex(a), s.ty(a), subst(subst(gm[it[1]], gm), m))); continue
            xs.append(s.ex(a))
        return s.inline_text(did, m, xs)
    def inline_text(s, did, m, xs):
        f = s.c.fns[did]
        if did in s.inlined_stack(): s.uns("recursive function without a contract: " + s.c.keys[did])
        if len(s.inl) > 8: s.uns("inlining too deep")
        gm, fk, cp = s.generic_map(f)
        m2 = dict(m)
        for k, v in gm.items(): m2[k] = subst(v, m)
        nf = Frame(m2, {})
        of, ro, ol, on = s.fr, s.ret_ok, s.labels, dict(s.names)
        s.inl.append(did); s.inlined.add(s.c.keys[did])
        o = "{\n"
        try:
            s.fr = nf; s.ret_ok = False; s.labels = {}
            for p, x in zip(f["b"]["params"], xs):
                if p["pat"] is None: continue
                if isinstance(x, tuple): s.fr.vars[p["pat"]["var"]] = x; continue
                o += s.bindpat(p["pat"], x) if p["pat"]["k"] != "Deref" else s.bindpat(p["pat"], x)
            o += s.ex(deret(f["b"]["body"])) + "\n}"
        finally:
            s.fr, s.ret_ok, s.labels, s.names = of, ro, ol, on; s.inl.pop()
        return o
    inl = None
    def inlined_stack(s):
        if s.inl is None: s.inl = []
        return s.inl

def widen(a, b):
    W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}
    if a[0] == b[0]: return W[b] >= W[a]
    return a[0] == "u" and W[b] > W[a]
def balanced(x):
    d = 0
    for i, c in enumerate(x):
        if c == "(": d += 1
        elif c == ")":
            d -= 1
            if d == 0 and i != len(x) - 1: return False
    return d == 0
