#!/usr/bin/env python3
"""Writes src/lib.rs (the probe structures, annotated with the real macro) and contracts/opt.spec (a contract for
every function the macro generates for them).  Run by hand when the structures change; both outputs are committed."""
import os
H = os.path.dirname(os.path.abspath(__file__))
U, F, L, I, B = "Option<usize>", "Option<f32>", "Option<Label>", "Option<i32>", "Option<bool>"
S = {
    "Empty": ([], None),
    "One": ([("len", U)], None),
    "OneInto": ([("name", L)], None),
    "OnePlain": ([("value", "usize")], None),
    "Plain": ([("rate", "f32"), ("on", "bool"), ("count", "usize"), ("top", "usize")], None),
    "Opts": ([("a", U), ("b", U), ("c", F), ("d", F), ("e", L)], None),
    "Mix": ([("name", L), ("len", U), ("width", "u32"), ("scale", F), ("other", L), ("flag", "bool"), ("step", I), ("tail", U)], None),
    "Man": ([("a", U), ("b", "usize"), ("c", B), ("d", "u8"), ("label", "Label")], {"a": "Some(5)", "b": "7", "c": "Some(true)", "d": "3", "label": "Label { id: 4 }"}),
    "Long": ([("f%02d" % i, [U, "usize", F, L, "u8", I][i % 6]) for i in range(13)], None),
}
DEF = {"f32": "sfl_0p0_f32()", "bool": "false", "usize": "0usize", "u32": "0u32", "u8": "0u8"}
lib = "//! structures annotated with the real option-deriving macro, one of each kind the macro tells apart (written by gen.py)\nuse essay_opt::derive_opt;\n#[derive(Clone, Debug, PartialEq)]\npub struct Label { pub id: usize }\nimpl From<usize> for Label { fn from(id: usize) -> Self { Label { id } } }\n"
spec = "# written by gen.py\n"
spec = ""
for n, (fs, man) in S.items():
    lib += "#[derive_opt(%sOpt)]\n#[derive(%sClone, Debug, PartialEq)]\npub struct %s {%s}\n" % (n, "" if man else "Default, ", n, "".join("\n    pub %s: %s," % f for f in fs) + ("\n" if fs else ""))
    if man: lib += "impl Default for %s {\n    fn default() -> Self { %s { %s } }\n}\n" % (n, n, ", ".join("%s: %s" % x for x in man.items()))
    def dv(f, t):
        if man: return man[f] if not man[f].isdigit() else man[f] + t
        return "None" if t.startswith("Option") else DEF[t]
    d = "%s { %s }" % (n, ", ".join("%s: %s" % (f, dv(f, t)) for f, t in fs))
    spec += "@spec\npub open spec fn dflt_%s() -> %s { %s }\n" % (n, n, d)
    spec += "@fn Default for %s::default() -> r\n@prop C29\n@ens r == dflt_%s()\n" % (n, n)
    spec += "@fn %sOpt for %s::into_arg(self_) -> r\n@prop C29\n@ens r == self_\n" % (n, n)
    spec += "@fn %sOpt for ()::into_arg(self_) -> r\n@prop C29\n@ens r == dflt_%s()\n" % (n, n)
    for f, t in fs:
        a = "v"; into = False
        if t.startswith("Option"):
            it = t[7:-1]; into = it != "usize"
            a = "Some(%s)" % ("s1_into::<VT, %s>(v)" % it if into else "v")
        if into: a = "Some(v)"
        o = lambda b: ";; ".join(["r.%s == %s" % (f, a)] + ["r.%s == %s.%s" % (g, b, g) for g, _ in fs if g != f])
        spec += "@fn %sOpt for %s::%s(self0, v) -> r\n@prop C29\n@ens %s\n" % (n, n, f, o("self0"))
        spec += "@fn %sOpt for ()::%s(self0, v) -> r\n@prop C29\n@ens %s\n" % (n, f, o("dflt_%s()" % n))
# ---- the same structures executed
def val(t, k):
    it = t[7:-1] if t.startswith("Option") else t
    v = {"usize": "%dusize" % (100 + k), "u32": "%du32" % (20 + k), "u8": "%du8" % (30 + k), "f32": "%d.5f32" % (40 + k), "i32": "-%di32" % (50 + k), "bool": "true", "Label": "Label { id: %d }" % (60 + k)}[it]
    return v
def field(t, v): return "Some(%s)" % v if t.startswith("Option") else v
main = """// bounded replay of C29: every generated setter of every probe structure, run (written by gen.py)
use optprobe::*;
struct C { n: u64, bad: Vec<String>, samples: Vec<String> }
impl C {
    fn eq<T: PartialEq + std::fmt::Debug>(&mut self, what: &str, got: T, want: T) {
        self.n += 1; if self.samples.len() < 4 { self.samples.push(what.to_string()); }
        if got != want { self.bad.push(format!("{} gives {:?}, should be {:?}", what, got, want)); }
    }
}
"""
calls = ""
for n, (fs, man) in S.items():
    main += "fn t_%s(c: &mut C) {\n" % n.lower()
    base = "%s { %s }" % (n, ", ".join("%s: %s" % (f, field(t, val(t, i))) for i, (f, t) in enumerate(fs)))
    def dlit(f, t): return man[f] if man else "None" if t.startswith("Option") else {"f32": "0.0", "bool": "false"}.get(t, "0")
    dft = "%s { %s }" % (n, ", ".join("%s: %s" % (f, dlit(f, t)) for f, t in fs))
    main += "    let base = || %s; let dft = || %s;\n" % (base, dft)
    main += '    c.eq("%s::into_arg()", base().into_arg(), base()); c.eq("() into %s", { let r: %s = %sOpt::into_arg(()); r }, dft());\n' % (n, n, n, n)
    for i, (f, t) in enumerate(fs):
        for k in (0, 17):
            v = val(t, i + k + 5)
            if t == "bool": v = "false" if k else "true"
            upd = "" if len(fs) == 1 else ", .." 
            main += '    c.eq("%s::%s(%s) on other options", %sOpt::%s(base(), %s), %s { %s: %s%s });\n' % (n, f, v.replace('"', ""), n, f, v, n, f, field(t, v), upd + "base()" if upd else "")
            main += '    c.eq("%s::%s(%s) on the unit value", { let r: %s = %sOpt::%s((), %s); r }, %s { %s: %s%s });\n' % (n, f, v, n, n, f, v, n, f, field(t, v), upd + "dft()" if upd else "")
    if fs:
        ch = lambda o: "".join(".%s(%s)" % (f, val(t, i)) for i, (f, t) in o); e = list(enumerate(fs))
        main += '    c.eq("%s set in order", dft()%s, base()); c.eq("%s set in reverse", dft()%s, base());\n' % (n, ch(e), n, ch(e[::-1]))
    main += "}\n"; calls += " t_%s(&mut c);" % n.lower()
main += """fn js(v: &[String]) -> String { format!("[{}]", v.iter().map(|x| format!("\\"{}\\"", x.replace('\\\\', "").replace('"', "'"))).collect::<Vec<_>>().join(", ")) }
fn main() {
    let mut c = C { n: 0, bad: vec![], samples: vec![] };
   """ + calls + """
    println!("{{\\"evaluations\\": {}, \\"distinct\\": {}, \\"samples\\": {}, \\"failures\\": {}}}", c.n, c.n, js(&c.samples), js(&c.bad));
    std::process::exit(if c.bad.is_empty() { 0 } else { 1 });
}
"""
open(H + "/src/main.rs", "w").write(main)
open(H + "/src/lib.rs", "w").write(lib); open(H + "/contracts/opt.spec", "w").write(spec)
