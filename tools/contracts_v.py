"""Parser of the contract files (contracts/*.spec)."""
import re, os, glob
class FnC:
    def __init__(s): s.elem = s.count = False; s.owns = s.heap = None; s.dims = False; s.fdec = None; s.ghost = []; s.last, s.calls, s.rets, s.treq = "", {}, {}, []; s.params, s.ret, s.props, s.req, s.valid, s.ens, s.pre, s.post, s.fin, s.loops, s.closures, s.inline, s.attr, s.rlimit, s.nowf, s.bounds, s.pure, s.mode, s.trusted, s.bounded, s.where = [], None, [], [], [], [], "", None, {}, {}, {}, set(), [], None, False, {}, None, None, None, None, ""
def split_list(t):
    """clauses separated by lines starting with a comma or by ';;'"""
    return [x.strip().rstrip(",") for x in re.split(r";;|\n\s*\n", t) if x.strip()]
class Contracts:
    def __init__(s, d, specs=None):
        s.fns = {}; s.prelude = ""; s.specs = ""; s.skip_adts = set(); s.wf_types = {"Shape", "Tensor", "TensorData"}; s.trait_types = {}; s.trait_methods = {"into_result": into_result, "into_sections": into_result, "into_list": into_list}; s.models = {}; s.order = []
        for f in sorted(glob.glob(os.path.join(d, "*.rs"))):
            s.prelude += "// ==== %s\n" % os.path.basename(f) + open(f).read() + "\n"
        for f in sorted(glob.glob(os.path.join(specs or d, "*.spec"))): s.parse(open(f).read(), os.path.basename(f))
    def adt_ok(s, path, name): return name in ("Shape", "Tensor", "TensorData", "Axis") or name in s.want_adts
    want_adts = set()
    def parse(s, text, fname):
        # templates: @template name(a,b) ... @endtemplate ; @use name(x,y)
        tm = {}
        def tdef(m): tm[m.group(1)] = ([x.strip() for x in re.split(r"[,|]", m.group(2))], m.group(3)); return ""
        text = re.sub(r"^@template (\w+)\(([^)]*)\)\n(.*?)^@endtemplate$", tdef, text, flags=re.S | re.M)
        def tuse(m):
            ps, b = tm[m.group(1)]
            a = [x.strip() for x in m.group(2).split("|")]
            assert len(a) == len(ps), (m.group(0), ps)
            for p, x in zip(ps, a): b = b.replace("%" + p + "%", x)
            return b
        text = re.sub(r"^@use (\w+)\((.*)\)$", tuse, text, flags=re.M)
        cur = None; sub = None
        parts = re.split(r"^@(\w+)[ \t]*", text, flags=re.M)
        s.specs += parts[0]
        i = 1
        while i < len(parts):
            k, body = parts[i], parts[i + 1]; i += 2
            if k == "fn":
                m = re.match(r"(.+?)\(([^()]*)\)(?:[ \t]*->[ \t]*(\w+))?[ \t]*\n", body + "\n")
                # the key itself may contain parentheses: take the last group on the line
                line = body.split("\n", 1)[0].strip()
                m = re.match(r"^(.*)\(([^()]*)\)(?:\s*->\s*(\w+))?$", line)
                if not m: raise Exception("bad @fn " + line)
                cur = FnC(); cur.where = fname
                cur.params = [x.strip() for x in m.group(2).split(",") if x.strip()]; cur.ret = m.group(3); s.fns[m.group(1).strip()] = cur; s.order.append(m.group(1).strip()); sub = None
            elif k == "spec": s.specs += body + "\n"
            elif k == "prop": cur.props += body.split()
            elif k in ("req", "valid", "ens", "treq"):
                tgt = getattr(cur, k) if sub is None or k == "valid" else None
                if sub is not None and isinstance(sub, tuple) and sub[0] == "closure": cur.closures[sub[1]].setdefault(k, []).extend(split_list(body))
                else: getattr(cur, k).extend(split_list(body))
            elif k == "ghost":
                if sub is not None: cur.loops[sub[1]].setdefault("ghost", []).extend(split_list(body))
                else: cur.ghost.extend(split_list(body))
            elif k == "last": cur.last += body
            elif k in ("call", "ret"): a, b = body.split("\n", 1); (cur.calls if k == "call" else cur.rets)[a.strip()] = b
            elif k == "pre": cur.pre += body
            elif k == "post": cur.post = (cur.post or "") + body
            elif k == "fin":
                m = re.match(r"(\d+)\s", body); n = int(m.group(1)) if m else 0
                cur.fin[n] = body[m.end():] if m else body
            elif k == "loop": sub = ("loop", int(body.split()[0])); cur.loops[sub[1]] = {}
            elif k == "closure": sub = ("closure", int(body.split()[0])); cur.closures[sub[1]] = {}
            elif k == "endsub": sub = None
            elif k == "dec" and sub is None: cur.fdec = body.strip()
            elif k in ("inv", "xinv", "lens", "dec", "tinv", "tdec"): cur.loops[sub[1]].setdefault(k, []).extend(split_list(body))
            elif k in ("start", "end", "after", "before"): cur.loops[sub[1]][k] = cur.loops[sub[1]].get(k, "") + body
            elif k == "inline": cur.inline |= set(x.strip() for x in body.split("\n") if x.strip())
            elif k == "attr": cur.attr.append(body.strip())
            elif k == "rlimit": cur.rlimit = int(body)
            elif k == "nowf": cur.nowf = True
            elif k == "elem": cur.elem = True
            elif k == "count": cur.count = True
            elif k == "bound": a, b = body.strip().split(":", 1); cur.bounds[a.strip()] = b.strip()
            elif k == "pure": cur.pure = body.strip()
            elif k == "trusted": cur.trusted = body.strip()
            elif k == "bounded": cur.bounded = body.strip()
            elif k == "dims": cur.dims = True
            elif k == "owns": cur.owns = body.strip()
            elif k == "heap": cur.heap = body.split()
            elif k == "mode": cur.mode = body.strip()
            else: raise Exception("unknown section @" + k)

def into_result(s, e):
    import builtins_v
    n = s.c.defs[e["def"]]["name"]
    return builtins_v.xop(s, n, [s.ex(e["args"][0])], [s.ty(e["args"][0])], s.ty(e))

def into_list(s, e):
    """x.into_list(&mut vec): the tensors of x are appended, in the order s_items gives"""
    a = e["args"]; t = s.ty(a[0])
    while t[0] == "ref": t = t[2]
    vt = s.ty(a[1])
    while vt[0] == "ref": vt = vt[2] if len(vt) > 2 else vt[1]
    return "into_list_m::<%s, %s>(%s, %s)" % (s.g.tx(t), s.g.tx(vt[2][0][2][0] if False else elem_of_vec_tensor(vt)), s.ex(a[0]), s.ex(a[1]))
def elem_of_vec_tensor(vt):
    # ("adt", path, [args..]) of Vec<Tensor<T>>
    return vt[2][0][2][0]
