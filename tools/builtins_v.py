"""What the translation knows about code outside the crate: each entry is one of the
trusted models of contracts/00_prelude.rs, or an uninterpreted element operation."""
import re
from lower import *

ELEM = ("num_traits::", "std::ops::", "num_complex::", "std::f32::", "std::f64::", "core::f32::", "core::f64::", "std::cmp::Ord::", "std::cmp::PartialOrd::")
INTRANGE = ("Range", "RangeFrom", "RangeTo", "RangeFull", "RangeInclusive")

def elem_like(t):
    t = strip_ref(t)
    if t[0] == "param": return True
    if t[0] == "prim": return t[1] not in ("str",)
    if t[0] == "adt": return last(t[1]) in ("Complex",)
    return t[0] == "tuple" and all(elem_like(x) for x in t[1])

def xop(s, name, args, tys, rt):
    f = s.g.op(name, len(args))
    a = [x if t[0] == "ref" else "&" + s.par(x) for x, t in zip(args, tys)]
    for i, t in enumerate(tys):
        while t[0] == "ref" and t[2][0] == "ref": a[i] = "*" + s.par(a[i]); t = t[2]
    return "%s::<%s>(%s)" % (f, ", ".join([s.g.tx(strip_ref(t)) for t in tys] + [s.g.tx(rt)]), ", ".join(a))

def inc(s, e): s.g.intops.add(("add", "usize")); return "add_usize(%s, 1)" % s.ex(e)
def range_sub(s, base, bt, r):
    """&base[range]"""
    n = last(r["adt"]) if r["k"] == "Adt" else None
    pre = {"array": "aslice(%s)", "slice": "%s"}.get(bt[0]) or ("vslice(%s)" if is_adt(bt, "Vec") else None)
    if not pre: s.uns("range index of " + str(bt))
    b = pre % base
    if n == "RangeFull": return b
    if n == "Range":
        d = dict(r["fields"]); return "ssub(%s, %s, %s)" % (b, s.ex(d["start"]), s.ex(d["end"]))
    if n == "RangeFrom": return "ssubf(%s, %s)" % (b, s.ex(dict(r["fields"])["start"]))
    if r["k"] == "Call" and s.callee(r)["path"].startswith("std::ops::RangeInclusive") and s.callee(r)["name"] == "new": return "ssub(%s, %s, %s)" % (b, s.ex(r["args"][0]), inc(s, r["args"][1]))
    if n == "RangeToInclusive": return "ssub(%s, 0, %s)" % (b, inc(s, dict(r["fields"])["end"]))
    if n == "RangeTo": return "ssub(%s, 0, %s)" % (b, s.ex(dict(r["fields"])["end"]))
    s.uns("range")

def call(s, e, d, p):
    a = e["args"]; n = d["name"]; rt = s.ty(e)
    od = s.c.defs[e["def"]]["path"]
    T = lambda i: s.ty(a[i])
    X = lambda i: s.ex(a[i])
    # ---- crate functions with a model of their own
    if d["local"]:
        if od == "tensor::data::unsafe_init" and s.key != "data::unsafe_init": return unsafe_init(s, e)
        if n == "clone" and d.get("impl_trait", "").endswith("Clone"):
            t = strip_ref(T(0))
            if is_adt(t, "Tensor"): return None
            return "cl(%s)" % X(0)
        if "trait" in d:     # a method of a crate trait on a type parameter
            st = T(0)
            if n in s.g.ct.trait_methods: return s.g.ct.trait_methods[n](s, e)
            return None
        return None
    if n == "partial_cmp" and "iter" in p and len(a) == 2:
        k = "p%d" % s.bump(); s1, s2 = s.indexed(a[0]), s.indexed(a[1])
        if s1 and s2:
            (u1, _, i1, _), (u2, _, i2, _) = s1(k), s2(k + "b")
            if i1("Q") == "ix(__it%s, Q)" % k and i2("Q") == "ix(__it%sb, Q)" % k: return "{ %s%sit_pcmp(__it%s, __it%sb) }" % (u1, u2, k, k)
    # ---- closures
    if n in ("call_mut", "call", "call_once") and "ops" in p:
        f = a[0]
        while f["k"] in ("Ref", "Deref"): f = f["e"]
        args = [s.ex(x) for x in a[1]["es"]] if a[1]["k"] == "Tuple" else s.uns("call arguments")
        v = s.fr.vars.get(f["v"]) if f["k"] == "Var" else None
        if isinstance(v, tuple) and v[0] == "fparam":
            ts = [s.ty(x) for x in a[1]["es"]]
            if len(ts) == 1 and ts[0][0] == "ptr": return "%s.run(&mut %s, %s)" % (v[1], s.h[0], args[0]) if s.h else s.uns("pointer closure")
            # `&mut [T]` passed where `&[T]` is expected
            return "%s.call(%s)" % (v[1], ", ".join(args))
        return s.apply(f, args, [])[0]
    # ---- conversions
    if n == "into" and "convert::Into" in p or n == "from" and p.startswith("<T as std::convert::From<T>>"):
        return s.convert(X(0), T(0), rt)
    if n == "into_arg": return s.convert(X(0), T(0), rt)
    if n == "as_ref" and "convert::AsRef" in p: return s.convert(X(0), T(0), rt)
    if n == "from" and "std::vec::Vec<T> as std::convert::From<" in p:
        t = T(0)
        if is_adt(t, "Vec"): return X(0)
        if t[0] == "array": return "arr_vec(%s)" % X(0)
        b = strip_ref(t)
        return "vclone(%s)" % (X(0) if b[0] == "slice" else "aslice(%s)" % X(0))
    if n == "from_iter" and "Vec<T>" in p: return collect(s, a[0], rt)
    # ---- clone
    if n == "clone" and "Clone" in p:
        t = T(0)
        if t[0] == "ref" and is_adt(t[2], "Tensor"): s.uns("clone of a tensor by a derived impl")
        return "cl(%s)" % X(0)
    if n == "discriminant_value":
        t = strip_ref(T(0)); ad = s.c.adts.get(t[1]) if t[0] == "adt" else None
        if not ad or not ad["enum"]: s.uns("discriminant")
        nm = s.g.tx(t)
        return "(match %s { %s })" % (X(0), ", ".join("%s::%s%s => %disize" % (nm, v["n"], "" if not v["fields"] else "(..)" if v["ctor"].startswith("Some(Fn") else " { .. }", i) for i, v in enumerate(ad["variants"])))
    if n == "to_string": return "to_str(%s)" % X(0)
    if n == "default" and "Default" in p:
        if is_adt(rt, "Option"): return "None"
        if rt[0] == "prim" and rt[1] in INTS: return "0" + rt[1]
        if rt[0] == "prim" and rt[1] in FLOATS: return s.g.lit("0", rt[1]) + "()"
        if rt == ("prim", "bool"): return "false"
        return xop(s, "default", [], [], rt)
    # ---- integers
    m = re.search(r"Ord for (\w+)>::(max|min)$", p)
    if m or p in ("std::cmp::max", "std::cmp::min"):
        w = m.group(2) if m else n
        if rt == USIZE: return "u%s(%s, %s)" % (w, X(0), X(1))
        if rt == ("prim", "u32"): return "w%s(%s, %s)" % (w, X(0), X(1))
        s.uns("max/min on %s" % (rt,))
    m = re.search(r"core::num::<impl (\w+)>::(wrapping_add|wrapping_mul|wrapping_sub|saturating_sub|pow|is_power_of_two)$", p)
    if m: return "%s_%s(%s)" % (m.group(2), m.group(1), ", ".join(s.ex(x) for x in a))
    if p.endswith("<impl str>::as_bytes"): return "str_bytes(%s)" % X(0)
    m = re.search(r"core::num::<impl (\w+)>::from_(le|be)_bytes$", p)
    if m and (m.group(2), m.group(1)) in (("le", "u16"), ("be", "u16"), ("le", "u32"), ("be", "u32"), ("le", "i16")): return "from_%s_%s(%s)" % (m.group(2), m.group(1), X(0))
    if p.endswith("<impl isize>::rem_euclid"): return "rem_eu(%s, %s)" % (X(0), X(1))
    if p.endswith("<impl usize>::div_ceil"): return "udiv_ceil(%s, %s)" % (X(0), X(1))
    m = re.search(r"core::num::<impl (\w+)>::(checked_(add|sub|mul|div|rem)|abs_diff)$", p)
    if m:
        t, o = m.group(1), m.group(3); k = s.bump()
        h = "{ let __a%d: %s = %s; let __b%d: %s = %s; " % (k, t, X(0), k, t, X(1))
        if m.group(2) == "abs_diff" and t == "usize": return h + "if __a%d < __b%d { __b%d - __a%d } else { __a%d - __b%d } }" % (k, k, k, k, k, k)
        if o == "sub" and t.startswith("u"): return h + "if __a%d < __b%d { None } else { Some((__a%d - __b%d) as %s) } }" % (k, k, k, k, t)
        if o in ("div", "rem") and t.startswith("u"): return h + "if __b%d == 0 { None } else { Some(__a%d %s __b%d) } }" % (k, k, "/" if o == "div" else "%", k)
        if o in ("add", "mul") and t == "usize": s.g.intops.add((o, t)); return h + "Some(%s_usize(__a%d, __b%d)) }" % (o, k, k)   # as for + and *
    m = re.search(r"convert::num::.*impl std::convert::From<(\w+)> for (\w+)>::from$", p)
    if m and m.group(1) in INTS and m.group(2) in INTS and widen(m.group(1), m.group(2)): return "(%s as %s)" % (X(0), m.group(2))
    if m and m.group(1) == "bool" and m.group(2) in INTS: return "(if %s { 1%s } else { 0%s })" % (X(0), m.group(2), m.group(2))
    if m and m.group(2) in FLOATS: return "%s::<%s, %s>(&%s)" % (s.g.op("cast", 1), m.group(1), m.group(2), s.par(X(0)))
    if p in ("std::mem::size_of", "std::mem::align_of"): return "m_%s::<%s>()" % (n, s.g.tx(s.targ(e, 0)))
    if p in ("std::mem::replace", "std::mem::swap"): return "mem_%s(%s, %s)" % (n, X(0), X(1))
    # ---- Option / Result
    o = closure_option(s, e, p, n, a, rt)
    if o: return o
    if p.endswith("Option::<T>::unwrap"): return "opt_unwrap(%s)" % X(0)
    if p.endswith("Option::<T>::expect"): return "opt_unwrap(%s)" % X(0)
    if p.endswith("Option::<T>::unwrap_or"): return "opt_unwrap_or(%s, %s)" % (X(0), X(1))
    if p.endswith("Option::<T>::is_some"): return "(%s).is_some()" % X(0)
    if p.endswith("Option::<T>::is_none"): return "(%s).is_none()" % X(0)
    if p.endswith("Result::<T, E>::unwrap"): return "res_unwrap(%s)" % X(0)
    # ---- vectors, slices, arrays
    if p.endswith("Vec::<T>::new") or p.endswith("Vec::<T>::with_capacity"): return "Vec::<%s>::new()" % s.g.tx(rt[2][0])
    if n in ("reserve_exact", "reserve") and "Vec" in p: return "{ let _ = %s; }" % X(1)
    if n == "push" and "Vec" in p: return "%s.push(%s)" % (recv(s, a[0]), X(1))
    if n == "len" and ("Vec" in p or "slice" in p): return "%s.len()" % recv(s, a[0])
    if n == "is_empty" and ("Vec" in p or "slice" in p): return "(%s.len() == 0)" % recv(s, a[0])
    if n == "insert" and "Vec" in p: return "vinsert(%s, %s, %s)" % (X(0), X(1), X(2))
    if n == "append" and "Vec" in p: return "vappend(%s, %s)" % (X(0), X(1))
    if n == "extend_from_slice" and "Vec" in p: return "vextend(%s, %s)" % (X(0), X(1))
    if n == "resize" and "Vec" in p: return "vresize(%s, %s, %s)" % (X(0), X(1), X(2))
    if n == "reverse" and "slice" in p:
        b = a[0]
        while b["k"] in ("Ref", "Deref"): b = b["e"]
        if b["k"] == "Call" and s.callee(b)["name"] == "deref_mut": return "vreverse(%s)" % s.ex(b["args"][0])
        return "sreverse(%s)" % X(0)
    if "slice" in p and T(0)[0] == "ref" and strip_ref(T(0))[0] == "slice" and p.startswith("core::slice::<impl [T]>::"):
        if n == "get" and T(1) == USIZE: return "sget(%s, %s)" % (X(0), X(1))
        if n == "get" and a[1]["k"] == "Adt" and last(a[1]["adt"]) in ("Range", "RangeTo"):
            d2 = dict(a[1]["fields"]); return "sgetr(%s, %s, %s)" % (X(0), s.ex(d2["start"]) if "start" in d2 else "0", s.ex(d2["end"]))
        if n == "first": return "sget(%s, 0)" % X(0)
        if n == "last": return "slast(%s)" % X(0)
        if n == "contains" and strip_ref(T(0))[1][0] == "prim" and strip_ref(T(0))[1][1] in INTS: return "scontains(%s, %s)" % (X(0), X(1))
        if n == "swap": return "sswap(%s, %s, %s)" % (X(0), X(1), X(2))
        if n == "fill": return "sfill(%s, %s)" % (X(0), X(1))
    if n in ("to_vec", "to_owned") and ("[T]" in p) and strip_ref(T(0))[0] == "slice": return "vclone(%s)" % X(0)
    if "Vec::<T, A>" in p or "Vec::<T>" in p:
        if n == "pop": return "vpop(%s)" % X(0)
        if n == "remove": return "vremove(%s, %s)" % (X(0), X(1))
        if n == "truncate": return "vtruncate(%s, %s)" % (X(0), X(1))
        if n == "clear": return "vclear(%s)" % X(0)
    if n == "as_slice" and "Vec" in p: return "vslice(%s)" % X(0)
    if n == "as_mut_slice" and "Vec" in p or n == "deref_mut" and "Vec<" in p: return "vmut_slice(%s)" % X(0)
    if n == "deref" and "Vec<" in p: return "vslice(%s)" % X(0)
    if n == "deref" and "Arc<" in p:
        return "&*" + s.par(recv(s, a[0]))
    if n == "into_boxed_slice": return "into_boxs(%s)" % X(0)
    if n == "box_assume_init_into_vec_unsafe": return "arr_vec(%s)" % s.ex(a[0]["args"][1])
    if n == "from_elem" and "vec" in p: return "vrep(%s, %s)" % (X(0), X(1))
    if n in ("index", "index_mut") and ("Index" in p):
        bt = strip_ref(T(0)); base = X(0); it = T(1)
        if it == USIZE:
            if n == "index_mut": s.uns("index_mut outside an assignment")
            return {"array": "aix(%s, %s)", "slice": "ix(%s, %s)"}.get(bt[0], "vix(%s, %s)") % (base, X(1))
        return range_sub(s, base, bt, a[1])
    if n == "eq" and "array::equality" in p: return "arr_eq(%s, %s)" % (X(0), X(1))
    if n == "iter" and "slice" in p: return X(0)
    if n == "chunks_exact" and "slice" in p: return "chunks_m(%s, %s)" % (X(0), X(1))
    if n == "into_iter" and s.is_iter(T(0)): return X(0)
    if n == "eq" and "[T]" in p and strip_ref(T(0))[0] == "slice": s.g.op("eq", 2); return "slice_eq(%s, %s)" % (deref_to(s, a[0]), deref_to(s, a[1]))
    # ---- iterators as values
    if n in ("collect", "sum", "product") and "Iterator" in p:
        if n == "collect":
            if is_adt(rt, "Vec"): return collect(s, a[0], rt)
            s.uns("collect into %s" % (rt,))
        k = s.loops
        acc = "__acc%d" % k
        unit = "1" if n == "product" else "0"; o = "mul" if n == "product" else "add"
        if rt[0] != "prim" or rt[1] not in INTS: s.uns("sum of " + str(rt))
        if s.ct.dims and rt[1] == "u32" and o == "mul": o = "dmul"
        else: s.g.intops.add((o, rt[1]))
        holder = {}
        def bind(item, ity): holder["x"] = item if ity[0] != "ref" else "*" + s.par(item); return ""
        body = lambda: "%s = %s_%s(%s, %s);\n" % (acc, o, rt[1], acc, holder["x"])
        it = s.iterate(a[0], bind, body)
        return "{ let mut %s: %s = %s%s;\n%s%s }" % (acc, rt[1], unit, rt[1], it, acc)
    if n in ("any", "all") and "Iterator" in p and T(0)[0] == "ref" and a[0]["k"] == "Ref" and a[0]["e"]["k"] == "Call":
        k = s.loops; acc = "__acc%d" % k; holder = {}
        def bind(item, ity): holder["x"] = item; return ""
        body = lambda: "let __y%d: bool = %s; if %s__y%d { %s = %s; break; }\n" % (k, s.apply(a[1], [holder["x"]], [])[0], "" if n == "any" else "!", k, acc, "true" if n == "any" else "false")
        it = s.iterate(a[0]["e"], bind, body)
        return "{ let mut %s: bool = %s;\n%s%s }" % (acc, "false" if n == "any" else "true", it, acc)
    if n == "count" and "Iterator" in p and not s.flat(a[0]):
        k = s.loops; acc = "__acc%d" % k; s.g.intops.add(("add", "usize"))
        it = s.iterate(a[0], lambda item, ity: "", lambda: "%s = add_usize(%s, 1);\n" % (acc, acc))
        return "{ let mut %s: usize = 0;\n%s%s }" % (acc, it, acc)
    if n == "fold" and "Iterator" in p:
        k = s.loops; acc = "__acc%d" % k; holder = {}
        init = X(1)
        def bind(item, ity): holder["x"] = item; holder["t"] = ity; return ""
        body = lambda: "%s = %s;\n" % (acc, s.apply(a[2], [acc, holder["x"]], [])[0])
        it = s.iterate(a[0], bind, body)
        return "{ let mut %s: %s = %s;\n%s%s }" % (acc, s.g.tx(rt), init, it, acc)
    if p == "matrixmultiply::sgemm":
        if not s.h: s.uns("sgemm outside an initialisation")
        return "mm_sgemm(%s, %s)" % (s.h[0] if s.h[1] else "&mut " + s.h[0], ", ".join(s.ex(x) for x in a))
    # ---- raw memory
    if p.endswith("<impl *const T>::add"): return "rp_add(%s, %s)" % (X(0), X(1))
    if p.endswith("<impl *const T>::as_ref"): return ("rs_ref(%s)" if T(0)[2][0] == "slice" else "rp_ref(%s)") % X(0)
    if p.endswith("<impl *mut T>::add"):
        return "%s.padd(%s, %s)" % (s.h[0], X(0), X(1)) if s.h else s.uns("*mut outside an initialisation")
    if p.endswith("<impl *mut T>::write"):
        if not s.h: s.uns("*mut outside an initialisation")
        k = s.bump()
        return "{ let __p%d = %s; let __v%d = %s; %s.write(__p%d, __v%d); }" % (k, X(0), k, X(1), s.h[0], k, k)
    if p in ("std::slice::from_raw_parts", "core::slice::from_raw_parts"): return "opt_unwrap(rs_ref(rs_make(%s, %s)))" % (X(0), X(1))
    if p.endswith("ptr::slice_from_raw_parts"): return "rs_make(%s, %s)" % (X(0), X(1))
    if n == "new" and p.startswith("std::sync::Arc"): return "Arc::new(%s)" % X(0)
    if p.startswith("std::ptr::NonNull") and n == "as_ptr": return "m_nn_as_ptr(&%s)" % s.par(X(0))
    if p.endswith("Layout::array"): return "layout_array::<%s>(%s)" % (s.g.tx(s.targ(e, 0)), X(0))
    if p.endswith("Layout::size"): return "layout_size(%s)" % X(0)
    if p.endswith("<impl *mut T>::cast"): return X(0)
    if p.startswith("std::ptr::NonNull") and n in ("new", "dangling"): return "m_nn_%s::<%s>(%s)" % (n, s.g.tx((rt if n == "dangling" else rt[2][0])[2][0]), ", ".join(s.ex(x) for x in a))
    if p.startswith("std::boxed::Box") and n == "from_raw": return "m_box_from_raw(&mut __own, %s)" % X(0) if s.ct.owns else s.uns("Box::from_raw")
    if p.startswith("std::ptr::NonNull") or p.startswith("std::boxed::Box") or p.startswith("std::alloc::") or p in ("std::slice::from_raw_parts_mut", "std::mem::drop", "std::ptr::slice_from_raw_parts_mut") or p.endswith("<impl *mut T>::cast"):
        return "m_%s(%s)" % (p.split("::")[-1].split("<")[0].replace("slice_from_raw", "from_raw") if not p.startswith("std::ptr::NonNull") else "nn_" + n, ", ".join(s.ex(x) for x in a))
    # ---- rustfft
    if p.startswith("rustfft::FftPlanner") and n == "new": return "fft_planner()"
    if p.startswith("rustfft::FftPlanner") and n == "plan_fft_forward": return "fft_plan(%s, %s)" % (X(0), X(1))
    if p == "rustfft::Fft::process": return "fft_process(%s, %s)" % (X(0), X(1))
    # ---- files
    if p == "std::fs::read": return "fs_read(%s)" % X(0)
    if p in ("std::fs::File::open",): return "file_open(%s)" % X(0)
    if p.endswith("Read>::read_to_end") or p.endswith("Read>::read") or p.endswith("Read>::read_exact"): return "file_%s(%s, %s)" % (n, X(0), X(1))
    # ---- comparisons
    m = re.search(r"PartialEq(?:<.*>)? for &A>::eq$|PartialEq<&B> for &A>::eq$", p)
    if m or p.endswith("PartialEq>::eq") or p.endswith("PartialEq::eq") or p.endswith("PartialEq::ne"):
        t = strip_ref(T(0))
        neg = "!" if n == "ne" else ""
        if is_adt(t, "Shape"):
            k = "PartialEq for Shape::eq" if "PartialEq for Shape::eq" in s.c.bykey else None
            for kk in s.c.bykey:
                if kk.startswith("PartialEq") and kk.endswith("for Shape::eq"): k = kk
            return "%s%s(%s, %s)" % (neg, mangle(k), deref_to(s, a[0]), deref_to(s, a[1]))
        if t[0] == "slice": s.g.op("eq", 2); return "%sslice_eq(%s, %s)" % (neg, deref_to(s, a[0]), deref_to(s, a[1]))
        if elem_like(t): return xop(s, n, [X(0), X(1)], [T(0), T(1)], ("prim", "bool"))
        q = eq_text(s, t, "(*%s)" % deref_to(s, a[0]), "(*%s)" % deref_to(s, a[1]))
        if q: return "(%s%s)" % (neg, q)
        s.uns("equality on %s" % (t,))
    # ---- element operations
    if (p.startswith(ELEM) or "as std::ops::" in p or "num_traits" in p) and all(elem_like(T(i)) for i in range(len(a))):
        if n.endswith("_assign") and T(0)[0] == "ref" and T(0)[1]: s.uns("compound assignment")
        nm = n + "_" if n in ("eq", "ne", "lt") and False else n
        return xop(s, nm, [s.ex(x) for x in a], [s.ty(x) for x in a], rt)
    f = s.g.ct.models.get(p)
    if f: return f(s, e)
    return None

def eq_text(s, t, a, b):
    """a == b for values built from integers by Option, tuples and references"""
    if t[0] == "prim" and (t[1] in INTS or t[1] == "bool"): return "(%s == %s)" % (a, b)
    if t[0] == "prim" and t[1] in FLOATS: return "%s::<%s, %s, bool>(&%s, &%s)" % (s.g.op("eq", 2), t[1], t[1], a, b)
    if t[0] == "ref": return eq_text(s, t[2], "(*%s)" % a, "(*%s)" % b)
    if t[0] == "tuple":
        q = [eq_text(s, x, "%s.%d" % (a, i), "%s.%d" % (b, i)) for i, x in enumerate(t[1])]
        return "(" + " && ".join(q) + ")" if q and all(q) else None
    if is_adt(t, "Option"):
        k = s.bump(); q = eq_text(s, t[2][0], "(*__a%d)" % k, "(*__b%d)" % k)
        return "(match (&%s, &%s) { (Some(__a%d), Some(__b%d)) => %s, (None, None) => true, _ => false })" % (a, b, k, k, q) if q else None
    return None
def closure_option(s, e, p, n, a, rt):
    """methods of Option that take a closure"""
    if "Option::<T>::" not in p or n not in ("map", "map_or", "map_or_else", "unwrap_or_else", "and_then", "is_some_and", "is_none_or", "filter", "unwrap_or_default", "ok_or", "or", "copied", "cloned"):
        if re.search(r"Option::<&(mut )?T>::(copied|cloned)$", p): k = s.bump(); return "(match %s { Some(__o%d) => Some(cl(__o%d)), None => None })" % (s.ex(a[0]), k, k)
        return None
    k = s.bump(); x = s.ex(a[0]); v = "__o%d" % k
    ap = lambda i, args: s.apply(a[i], args, [])[0]
    M = lambda some, none: "(match %s { Some(%s) => %s, None => %s })" % (x, v, some, none)
    if n == "map": return M("Some(%s)" % ap(1, [v]), "None")
    if n == "map_or": return M(ap(2, [v]), s.ex(a[1]))
    if n == "map_or_else": return M(ap(2, [v]), ap(1, []))
    if n == "unwrap_or_else": return M(v, ap(1, []))
    if n == "and_then": return M(ap(1, [v]), "None")
    if n == "is_some_and": return M(ap(1, [v]), "false")
    if n == "is_none_or": return M(ap(1, [v]), "true")
    if n == "filter": return M("{ let __f%d = &%s; if %s { Some(%s) } else { None } }" % (k, v, ap(1, ["__f%d" % k]), v), "None")
    if n == "ok_or": return M("Ok(%s)" % v, "Err(%s)" % s.ex(a[1]))
    if n == "or": return M("Some(%s)" % v, s.ex(a[1]))
    if n == "unwrap_or_default" and rt[0] == "prim" and rt[1] in INTS: return M(v, "0" + rt[1])
    return None

def deref_to(s, e):
    x = s.ex(e); t = s.ty(e)
    while t[0] == "ref" and t[2][0] == "ref": x = "*" + s.par(x); t = t[2]
    return x
def recv(s, e):
    """receiver text for a method call"""
    if e["k"] == "Ref":
        i = e["e"]
        if i["k"] == "Deref" and is_adt(s.ty(i["e"]), "Box"): return s.par(s.ex(i["e"]))
        return s.par(s.ex(i))
    return s.par(s.ex(e))
def collect(s, it, rt):
    k = s.loops; acc = "__acc%d" % k
    holder = {}
    def bind(item, ity): holder["x"] = item; return ""
    et = s.g.tx(rt[2][0])
    n = s.bump()
    # the item may itself be a block: evaluate before the push
    body = lambda: "let __y%d: %s = %s; %s.push(__y%d);\n" % (n, et, holder["x"], acc, n)
    return "{ let mut %s: Vec<%s> = Vec::new();\n%s%s }" % (acc, et, s.iterate(it, bind, body), acc)
def unsafe_init(s, e):
    a = e["args"]; rt = s.ty(e); t = rt[2][0]
    if s.h is not None: s.uns("nested initialisation")
    k = s.hcount; s.hcount += 1
    h = "__h" if k == 0 else "__h%d" % k
    ln = s.ex(a[0]); sh = s.convert(s.ex(a[1]), s.ty(a[1]), ("adt", "tensor::shape::Shape", ()))
    c = s.closure_of(a[2])
    if c is None: s.uns("initialiser is not a closure")
    s.h = (h, False)
    pre = s.bind_closure(c, ["%s.base()" % h])
    of, ro = s.fr, s.ret_ok; s.fr = c[1]; s.ret_ok = False
    try: b = s.ex(s.c.clos[c[0]]["body"])
    finally: s.fr, s.ret_ok = of, ro
    s.h = None
    fin = s.ct.fin.get(k)
    if fin: fin = s.nm(fin)
    return "{ let __len%d: usize = %s; let __shape%d: Shape = %s; let mut %s = OutBuf::<%s>::new(__len%d);\n%s%s;\n%sfinish(%s, __len%d, __shape%d) }" % (
        k, ln, k, sh, h, s.g.tx(t), k, pre, b, "proof { %s }\n" % fin if fin else "", h, k, k)
