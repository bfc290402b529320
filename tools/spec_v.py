"""Specification text of a pure closure body, so that a closure literal gets its own body as
its postcondition (checked by the verifier against the executable text)."""
from lower import *
def spec(s, e, env):
    r = sp(s, e, env)
    return r
def val(s, e, env):
    """spec value with references removed"""
    return sp(s, e, env)
def sp(s, e, env):
    k = e["k"]
    if k == "Block":
        b = e["b"]
        if b["stmts"]: 
            o = ""
            for st in b["stmts"]:
                if st["k"] != "Let" or st["els"] or st["init"] is None or st["pat"]["k"] != "Bind" or st["pat"]["mut"]: s.uns("spec block")
                v = sp(s, st["init"], env); nm = "__l%d" % s.bump(); env[st["pat"]["var"]] = nm; o += "let %s = %s; " % (nm, v)
            return "{ %s%s }" % (o, sp(s, b["expr"], env))
        return sp(s, b["expr"], env)
    if k == "Var":
        v = env.get(e["v"]) or s.fr.vars.get(e["v"])
        if not isinstance(v, str): s.uns("spec var")
        return v if s.ty(e)[0] != "ref" else "(*%s)" % v
    if k == "Ref" and not e["m"]: return sp(s, e["e"], env)
    if k == "Deref": return sp(s, e["e"], env)
    if k == "Field": return sp(s, e["e"], env) + "." + e["n"]
    if k == "Tuple": return "(" + ", ".join(sp(s, x, env) for x in e["es"]) + ("," if len(e["es"]) == 1 else "") + ")"
    if k == "Array": s.uns("spec array")
    if k == "Lit":
        t = s.ty(e)
        if "int" in e and t[0] == "prim" and t[1] in INTS: return ("-" if e["neg"] else "") + str(e["int"]) + t[1]
        if "bool" in e: return "true" if e["bool"] else "false"
        if t[0] == "prim" and t[1] in FLOATS: return "s" + s.g.lit(e.get("float") or str(e["int"]), t[1], e["neg"]) + "()"
        s.uns("spec literal")
    if k == "Const":
        t = s.ty(e)
        if t[0] == "prim" and t[1] in FLOATS: return "s" + s.g.lit("c_" + s.c.defs[e["def"]]["name"], t[1]) + "()"
        if "bits" in e and t[0] == "prim" and t[1] in INTS: return str(e["bits"]) + t[1]
    if k == "If" and e["els"] is not None and e["cond"]["k"] != "LetE": return "(if %s { %s } else { %s })" % (sp(s, e["cond"], env), sp(s, e["then"], env), sp(s, e["els"], env))
    if k == "Bin":
        t = s.ty(e["l"])
        if t[0] == "prim" and t[1] in INTS and not s.ct.elem:
            if e["op"] in CMP: return "(%s %s %s)" % (sp(s, e["l"], env), CMP[e["op"]], sp(s, e["r"], env))
            sym = {"Add": "+", "Sub": "-", "Mul": "*"}.get(e["op"]) or s.uns("spec op")
            return "((%s %s %s) as %s)" % (sp(s, e["l"], env), sym, sp(s, e["r"], env), t[1])
        if t[0] == "prim" and (t[1] in FLOATS or s.ct.elem):
            n = e["op"].lower() if e["op"] in CMP else BINOP[e["op"]]
            s.g.op(n, 2)
            return "s2_%s::<%s, %s, %s>(%s, %s)" % (n, t[1], s.ty(e["r"])[1], s.g.tx(s.ty(e)), sp(s, e["l"], env), sp(s, e["r"], env))
    if k == "Logic": return "(%s %s %s)" % (sp(s, e["l"], env), {"And": "&&", "Or": "||"}[e["op"]], sp(s, e["r"], env))
    if k in ("Never", "Scope", "Use"): return sp(s, e["e"], env)
    if k == "ConstParam": return s.e_ConstParam(e)
    if k == "Un":
        t = s.ty(e)
        if t == ("prim", "bool"): return "(!%s)" % sp(s, e["e"], env)
        if t[0] == "prim" and t[1] in FLOATS: s.g.op("neg", 1); return "s1_neg::<%s, %s>(%s)" % (t[1], t[1], sp(s, e["e"], env))
    if k == "Cast":
        f, t = s.ty(e["e"]), s.ty(e)
        if f[0] == t[0] == "prim":
            if f[1] in INTS and t[1] in INTS and widen(f[1], t[1]): return "(%s as %s)" % (sp(s, e["e"], env), t[1])
            l = litval(e["e"])
            if l is not None and t[1] in FLOATS and f[1] in INTS and abs(l) <= 1 << 24: return "s" + s.g.lit(str(abs(l)), t[1], l < 0) + "()"
            if f[1] in FLOATS or t[1] in FLOATS: s.g.op("cast", 1); return "s1_cast::<%s, %s>(%s)" % (f[1], t[1], sp(s, e["e"], env))
    if k == "Adt" and not e["base"] and e["adt"] in s.c.adts and not e["enum"]:
        s.g.used_adts[e["adt"]] = last(e["adt"])
        return last(e["adt"]) + " { " + ", ".join("%s: %s" % (a, sp(s, b, env)) for a, b in e["fields"]) + " }"
    if k == "Call" and "def" in e:
        import builtins_v
        d = s.c.defs[e.get("rdef") or e["def"]]; p = d["path"]; n = d["name"]; a = e["args"]
        if n == "clone" and not is_adt(strip_ref(s.ty(a[0])), "Tensor"): return sp(s, a[0], env)
        if not d["local"]:
            if n == "default" and not a:
                t = s.ty(e)
                if t[0] == "prim" and t[1] in INTS: return "0" + t[1]
                
                if t[0] == "prim" and t[1] in FLOATS: return "s" + s.g.lit("0", t[1]) + "()"
                s.g.op("default", 0); return "s0_default::<%s>()" % s.g.tx(t)
            if (p.startswith(builtins_v.ELEM) or "num_traits" in p or "as std::ops::" in p) and all(builtins_v.elem_like(s.ty(x)) for x in a):
                s.g.op(n, len(a))
                return "s%d_%s::<%s>(%s)" % (len(a), n, ", ".join([s.g.tx(strip_ref(s.ty(x))) for x in a] + [s.g.tx(s.ty(e))]), ", ".join(sp(s, x, env) for x in a))
        elif d.get("name") and s.c.keys.get(e.get("rdef") or e["def"]) in s.g.ct.fns:
            ct = s.g.ct.fns[s.c.keys[e.get("rdef") or e["def"]]]
            if ct.pure:
                x = ct.pure
                for nm, arg in zip(ct.params, a): x = re.sub(r"\b%s\b" % nm, lambda m: "(" + sp(s, arg, env) + ")", x)
                return "(" + x + ")"
        m = re.search(r"Ord for (\w+)>::(max|min)$", p)
        if (m or p in ("std::cmp::max", "std::cmp::min")) and s.ty(e)[0] == "prim" and s.ty(e)[1] in INTS:
            x, y = sp(s, a[0], env), sp(s, a[1], env)
            return "(if %s < %s { %s } else { %s })" % ((x, y, y, x) if (m.group(2) if m else n) == "max" else (x, y, x, y))
        did = e.get("rdef") or e["def"]
        if d["local"] and did in s.c.fns and s.c.keys.get(did) not in s.g.ct.fns and did != s.fid:   # a helper: its body
            sub, f = s.call_subst(e, did); of = s.fr
            if getattr(s, "spdepth", 0) > 4: s.uns("spec recursion")
            vals = [sp(s, x, env) for x in a]; ev = {}; o = ""
            s.spdepth = getattr(s, "spdepth", 0) + 1; s.fr = Frame(sub, {})
            try:
                for pr, v in zip(f["b"]["params"], vals):
                    q = pr["pat"]
                    while q["k"] == "Deref": q = q["sub"]
                    if q["k"] != "Bind" or q["mut"]: s.uns("spec helper")
                    nm = "__l%d" % s.bump(); o += "let %s = %s%s; " % (nm, "&" if pr["pat"]["k"] == "Bind" and s.tt(pr["ty"])[0] == "ref" else "", v); ev[q["var"]] = nm
                return "({ %s%s })" % (o, sp(s, deret(f["b"]["body"]), ev))
            finally: s.fr = of; s.spdepth -= 1
    s.uns("spec of " + k)
