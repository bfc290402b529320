// rustc driver: writes the typed, macro-expanded bodies (THIR) of the crate under
// verification as JSON.  Used as RUSTC_WORKSPACE_WRAPPER by `cargo check`; it
// compiles nothing differently and drops nothing: tools/lower.py decides what to do
// with each construct.
#![feature(rustc_private)]
extern crate rustc_ast; extern crate rustc_driver; extern crate rustc_hir; extern crate rustc_interface; extern crate rustc_middle; extern crate rustc_span; extern crate rustc_abi;
use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::BorrowKind;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Instance, Ty, TyCtxt};
use std::collections::{BTreeMap, HashMap};

#[derive(Clone)]
enum J { S(String), N(i128), U(u128), B(bool), Null, A(Vec<J>), O(Vec<(&'static str, J)>) }
fn esc(s: &str, o: &mut String) { o.push('"'); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); }
impl J { fn w(&self, o: &mut String) { match self {
    J::S(s) => esc(s, o), J::N(n) => o.push_str(&n.to_string()), J::U(n) => o.push_str(&n.to_string()), J::B(b) => o.push_str(if *b { "true" } else { "false" }), J::Null => o.push_str("null"),
    J::A(v) => { o.push('['); for (i, x) in v.iter().enumerate() { if i > 0 { o.push(',') } x.w(o) } o.push(']') }
    J::O(v) => { o.push('{'); for (i, (k, x)) in v.iter().enumerate() { if i > 0 { o.push(',') } esc(k, o); o.push(':'); x.w(o) } o.push('}') } } } }
fn s(x: impl ToString) -> J { J::S(x.to_string()) }

struct D<'tcx> { tcx: TyCtxt<'tcx>, types: Vec<J>, tmap: HashMap<Ty<'tcx>, usize>, defs: BTreeMap<String, J>, lmap: HashMap<LocalVarId, usize> }

impl<'tcx> D<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        if let Some(i) = self.tmap.get(&t) { return J::N(*i as i128); }
        let tcx = self.tcx;
        let j = match *t.kind() {
            ty::Bool => J::O(vec![("k", s("prim")), ("n", s("bool"))]),
            ty::Char => J::O(vec![("k", s("prim")), ("n", s("char"))]),
            ty::Str => J::O(vec![("k", s("prim")), ("n", s("str"))]),
            ty::Never => J::O(vec![("k", s("never"))]),
            ty::Int(_) | ty::Uint(_) | ty::Float(_) => J::O(vec![("k", s("prim")), ("n", s(t))]),
            ty::Adt(d, a) => J::O(vec![("k", s("adt")), ("p", s(tcx.def_path_str(d.did()))), ("local", J::B(d.did().is_local())), ("a", self.args(a))]),
            ty::Array(e, n) => { let n = tcx.try_normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new(n)).unwrap_or(n); J::O(vec![("k", s("array")), ("e", self.ty(e)), ("n", s(n))]) }
            ty::Slice(e) => J::O(vec![("k", s("slice")), ("e", self.ty(e))]),
            ty::RawPtr(e, m) => J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("e", self.ty(e))]),
            ty::Ref(_, e, m) => J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("e", self.ty(e))]),
            ty::Tuple(l) => J::O(vec![("k", s("tuple")), ("e", J::A(l.iter().map(|x| self.ty(x)).collect()))]),
            ty::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name))]),
            ty::Closure(d, _) => J::O(vec![("k", s("closure")), ("id", s(self.did(d)))]),
            ty::FnDef(d, a) => { let d: DefId = d.into(); let a = a.skip_binder(); J::O(vec![("k", s("fndef")), ("p", s(tcx.def_path_str(d))), ("id", s(self.did(d))), ("a", self.args(a))]) }
            _ => J::O(vec![("k", s("other")), ("n", s(t))]),
        };
        if let Some(i) = self.tmap.get(&t) { return J::N(*i as i128); }
        let i = self.types.len();
        self.types.push(j);
        self.tmap.insert(t, i);
        J::N(i as i128)
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter().filter_map(|x| match x.kind() { GenericArgKind::Type(t) => Some(self.ty(t)), GenericArgKind::Const(c) => Some(J::O(vec![("const", s(c))])), _ => None }).collect())
    }
    fn did(&self, d: DefId) -> String { format!("{}:{}", d.krate.as_u32(), d.index.as_u32()) }
    // what a definition is: its parts, so that a name does not depend on where the item lives
    fn def(&mut self, d: DefId) -> String {
        let id = self.did(d);
        if self.defs.contains_key(&id) { return id; }
        self.defs.insert(id.clone(), J::Null);
        let tcx = self.tcx;
        let mut v = vec![("path", s(tcx.def_path_str(d))), ("kind", s(format!("{:?}", tcx.def_kind(d)))), ("local", J::B(d.is_local()))];
        v.push(("name", tcx.opt_item_name(d).map(|n| s(n)).unwrap_or(J::Null)));
        v.push(("diverges", J::B(matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().skip_binder().output().is_never())));
        if let Some(p) = tcx.opt_parent(d) {
            let pk = tcx.def_kind(p);
            v.push(("parent_kind", s(format!("{:?}", pk))));
            match pk {
                DefKind::Impl { .. } => {
                    let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                    v.push(("impl_self", self.ty(st)));
                    if let Some(tr) = tcx.impl_opt_trait_ref(p) { let tr = tr.instantiate_identity().skip_norm_wip(); v.push(("impl_trait", s(tcx.def_path_str(tr.def_id)))); v.push(("impl_trait_args", self.args(tr.args))); }
                }
                DefKind::Trait => v.push(("trait", s(tcx.def_path_str(p)))),
                _ => v.push(("parent", s(tcx.def_path_str(p)))),
            }
        }
        self.defs.insert(id.clone(), J::O(v));
        id
    }
    fn var(&mut self, v: LocalVarId) -> J { let n = self.lmap.len(); J::N(*self.lmap.entry(v).or_insert(n) as i128) }
    fn callee(&mut self, owner: LocalDefId, d: DefId, a: GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut v = vec![("def", s(self.def(d))), ("gargs", self.args(a))];
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let env = ty::TypingEnv::non_body_analysis(tcx, owner.to_def_id());
            let mut cur = (d, a);
            for _ in 0..4 {
                let ea = tcx.erase_and_anonymize_regions(cur.1);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Instance::try_resolve(tcx, env, cur.0, ea)));
                if let Ok(Ok(Some(i))) = r { if i.def_id() != cur.0 && matches!(tcx.def_kind(i.def_id()), DefKind::AssocFn | DefKind::Fn) {
                    cur = (i.def_id(), i.args);
                    // blanket Into -> From
                    if tcx.def_path_str(cur.0).ends_with("as std::convert::Into<U>>::into") || tcx.def_path_str(cur.0).contains("convert::Into<") {
                        let (src, dst) = (cur.1.type_at(0), cur.1.type_at(1));
                        if let Some(fd) = tcx.get_diagnostic_item(rustc_span::Symbol::intern("From")) {
                            if let Some(m) = tcx.associated_item_def_ids(fd).iter().find(|m| tcx.item_name(**m).as_str() == "from") {
                                let na = tcx.mk_args(&[dst.into(), src.into()]);
                                cur = (*m, na); continue;
                            }
                        }
                    }
                    continue;
                } }
                break;
            }
            if cur.0 != d { v.push(("rdef", s(self.def(cur.0)))); v.push(("rargs", self.args(cur.1))); }
        }
        v
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> J {
        let mut v = vec![("ty", self.ty(p.ty))];
        match &p.kind {
            PatKind::Wild | PatKind::Missing => v.push(("k", s("Wild"))),
            PatKind::Binding { name, mode, var, ty, subpattern, .. } => {
                v.push(("k", s("Bind"))); v.push(("name", s(name))); v.push(("var", self.var(*var)));
                v.push(("byref", J::B(!matches!(mode.0, rustc_ast::ByRef::No)))); v.push(("mut", J::B(mode.1.is_mut()))); v.push(("vty", self.ty(*ty)));
                v.push(("sub", match subpattern { Some(x) => self.pat(x), None => J::Null }));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                v.push(("k", s("Variant"))); v.push(("adt", s(self.tcx.def_path_str(adt_def.did())))); v.push(("variant", s(adt_def.variant(*variant_index).name)));
                v.push(("subs", J::A(subpatterns.iter().map(|f| J::A(vec![J::N(f.field.as_u32() as i128), self.pat(&f.pattern)])).collect())));
            }
            PatKind::Leaf { subpatterns } => { v.push(("k", s("Leaf"))); v.push(("subs", J::A(subpatterns.iter().map(|f| J::A(vec![J::N(f.field.as_u32() as i128), self.pat(&f.pattern)])).collect()))); }
            PatKind::Deref { subpattern, .. } => { v.push(("k", s("Deref"))); v.push(("sub", self.pat(subpattern))); }
            PatKind::Constant { value } => { v.push(("k", s("Const"))); v.push(("v", s(value))); }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                v.push(("k", s("Slice"))); v.push(("prefix", J::A(prefix.iter().map(|x| self.pat(x)).collect()))); v.push(("suffix", J::A(suffix.iter().map(|x| self.pat(x)).collect())));
                v.push(("rest", match slice { Some(x) => self.pat(x), None => J::Null }));
            }
            PatKind::Or { pats } => { v.push(("k", s("Or"))); v.push(("pats", J::A(pats.iter().map(|x| self.pat(x)).collect()))); }
            k => { v.push(("k", s("Other"))); v.push(("d", s(format!("{:?}", k).chars().take(80).collect::<String>()))); }
        }
        J::O(v)
    }
    fn block(&mut self, t: &Thir<'tcx>, o: LocalDefId, b: BlockId) -> J {
        let bl = &t[b];
        let stmts = bl.stmts.iter().map(|st| match &t[*st].kind {
            StmtKind::Expr { expr, .. } => J::O(vec![("k", s("Expr")), ("e", self.expr(t, o, *expr))]),
            StmtKind::Let { pattern, initializer, else_block, .. } => J::O(vec![("k", s("Let")), ("pat", self.pat(pattern)), ("init", initializer.map(|e| self.expr(t, o, e)).unwrap_or(J::Null)), ("els", else_block.map(|b| self.block(t, o, b)).unwrap_or(J::Null))]),
        }).collect();
        J::O(vec![("stmts", J::A(stmts)), ("expr", bl.expr.map(|e| self.expr(t, o, e)).unwrap_or(J::Null)), ("unsafe", J::B(!matches!(bl.safety_mode, BlockSafety::Safe))), ("targeted", J::B(bl.targeted_by_break))])
    }
    fn expr(&mut self, t: &Thir<'tcx>, o: LocalDefId, id: ExprId) -> J {
        let e = &t[id];
        let tcx = self.tcx;
        // transparent wrappers
        match &e.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // loops are addressed by their scope in break/continue
                let inner = self.expr(t, o, *value);
                if let J::O(mut v) = inner { if v.iter().any(|(k, x)| *k == "k" && matches!(x, J::S(n) if n == "Loop" || n == "Block")) && !v.iter().any(|(k, _)| *k == "scope") { v.push(("scope", s(format!("{:?}", region_scope)))); } return J::O(v); }
                return inner;
            }
            ExprKind::ValueExpr { source } | ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => return self.expr(t, o, *source),
            _ => {}
        }
        let sp = tcx.sess.source_map().lookup_char_pos(e.span.source_callsite().lo());
        let mut v = vec![("ty", self.ty(e.ty)), ("ln", J::N(sp.line as i128))];
        macro_rules! x { ($i:expr) => { self.expr(t, o, $i) } }
        match &e.kind {
            ExprKind::If { cond, then, else_opt, .. } => v.extend([("k", s("If")), ("cond", x!(*cond)), ("then", x!(*then)), ("els", else_opt.map(|i| x!(i)).unwrap_or(J::Null))]),
            ExprKind::Call { ty, fun, args, from_hir_call, .. } => {
                v.push(("k", s("Call")));
                if let ty::FnDef(d, a) = *ty.kind() { let d: DefId = d.into(); let c = self.callee(o, d, a.skip_binder()); v.extend(c); } else { v.push(("fun", x!(*fun))); }
                v.push(("op", J::B(!*from_hir_call)));
                v.push(("args", J::A(args.iter().map(|i| x!(*i)).collect())));
            }
            ExprKind::Deref { arg } => v.extend([("k", s("Deref")), ("e", x!(*arg))]),
            ExprKind::Binary { op, lhs, rhs } => v.extend([("k", s("Bin")), ("op", s(format!("{:?}", op))), ("l", x!(*lhs)), ("r", x!(*rhs))]),
            ExprKind::LogicalOp { op, lhs, rhs } => v.extend([("k", s("Logic")), ("op", s(format!("{:?}", op))), ("l", x!(*lhs)), ("r", x!(*rhs))]),
            ExprKind::Unary { op, arg } => v.extend([("k", s("Un")), ("op", s(format!("{:?}", op))), ("e", x!(*arg))]),
            ExprKind::Cast { source } => v.extend([("k", s("Cast")), ("e", x!(*source))]),
            ExprKind::NeverToAny { source } => v.extend([("k", s("Never")), ("e", x!(*source))]),
            ExprKind::PointerCoercion { cast, source, .. } => v.extend([("k", s("Coerce")), ("c", s(format!("{:?}", cast))), ("e", x!(*source))]),
            ExprKind::Loop { body } => v.extend([("k", s("Loop")), ("e", x!(*body))]),
            ExprKind::Let { expr, pat } => v.extend([("k", s("LetE")), ("e", x!(*expr)), ("pat", self.pat(pat))]),
            ExprKind::Match { scrutinee, arms, match_source } => v.extend([("k", s("Match")), ("e", x!(*scrutinee)), ("src", s(format!("{:?}", match_source))), ("arms", J::A(arms.iter().map(|a| { let a = &t[*a];
                J::O(vec![("pat", self.pat(&a.pattern)), ("guard", a.guard.map(|g| x!(g)).unwrap_or(J::Null)), ("body", x!(a.body))]) }).collect()))]),
            ExprKind::Block { block } => v.extend([("k", s("Block")), ("b", self.block(t, o, *block))]),
            ExprKind::Assign { lhs, rhs } => v.extend([("k", s("Assign")), ("l", x!(*lhs)), ("r", x!(*rhs))]),
            ExprKind::AssignOp { op, lhs, rhs } => v.extend([("k", s("AssignOp")), ("op", s(format!("{:?}", op))), ("l", x!(*lhs)), ("r", x!(*rhs))]),
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = t[*lhs].ty;
                let n = match lt.kind() { ty::Adt(d, _) => d.variant(*variant_index).fields[*name].name.to_string(), _ => name.as_u32().to_string() };
                v.extend([("k", s("Field")), ("e", x!(*lhs)), ("n", s(n))]);
            }
            ExprKind::Index { lhs, index } => v.extend([("k", s("Index")), ("e", x!(*lhs)), ("i", x!(*index))]),
            ExprKind::VarRef { id } => v.extend([("k", s("Var")), ("v", self.var(*id))]),
            ExprKind::UpvarRef { var_hir_id, .. } => v.extend([("k", s("Var")), ("v", self.var(*var_hir_id)), ("up", J::B(true))]),
            ExprKind::Borrow { borrow_kind, arg } => v.extend([("k", s("Ref")), ("m", J::B(matches!(borrow_kind, BorrowKind::Mut { .. }))), ("e", x!(*arg))]),
            ExprKind::RawBorrow { mutability, arg } => v.extend([("k", s("RawRef")), ("m", J::B(mutability.is_mut())), ("e", x!(*arg))]),
            ExprKind::Break { label, value } => v.extend([("k", s("Break")), ("label", s(format!("{:?}", label))), ("e", value.map(|i| x!(i)).unwrap_or(J::Null))]),
            ExprKind::Continue { label } => v.extend([("k", s("Continue")), ("label", s(format!("{:?}", label)))]),
            ExprKind::Return { value } => v.extend([("k", s("Return")), ("e", value.map(|i| x!(i)).unwrap_or(J::Null))]),
            ExprKind::Repeat { value, count } => v.extend([("k", s("Repeat")), ("e", x!(*value)), ("n", s(count))]),
            ExprKind::Array { fields } => v.extend([("k", s("Array")), ("es", J::A(fields.iter().map(|i| x!(*i)).collect()))]),
            ExprKind::Tuple { fields } => v.extend([("k", s("Tuple")), ("es", J::A(fields.iter().map(|i| x!(*i)).collect()))]),
            ExprKind::Adt(a) => {
                let var = a.adt_def.variant(a.variant_index);
                v.extend([("k", s("Adt")), ("adt", s(tcx.def_path_str(a.adt_def.did()))), ("variant", s(var.name)), ("enum", J::B(a.adt_def.is_enum())), ("ctor", s(format!("{:?}", var.ctor_kind()))),
                    ("fields", J::A(a.fields.iter().map(|f| J::A(vec![s(var.fields[f.name].name), x!(f.expr)])).collect())),
                    ("all", J::A(var.fields.iter().map(|f| s(f.name)).collect())),
                    ("base", match &a.base { AdtExprBase::Base(b) => x!(b.base), AdtExprBase::None => J::Null, _ => s("default") })]);
            }
            ExprKind::Closure(c) => { v.extend([("k", s("Closure")), ("id", s(self.did(c.closure_id.to_def_id()))), ("ups", J::A(c.upvars.iter().map(|i| x!(*i)).collect()))]); }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                v.push(("k", s("Lit"))); v.push(("neg", J::B(*neg)));
                match lit.node { LitKind::Int(n, _) => v.push(("int", J::U(n.get()))), LitKind::Float(f, _) => v.push(("float", s(f))), LitKind::Bool(b) => v.push(("bool", J::B(b))), LitKind::Str(x, _) => v.push(("str", s(x))), LitKind::Byte(b) => v.push(("int", J::N(b as i128))), _ => v.push(("other", J::B(true))) }
            }
            ExprKind::NonHirLiteral { lit, .. } => v.extend([("k", s("Lit")), ("neg", J::B(false)), ("int", J::U(lit.to_bits(lit.size())))]),
            ExprKind::ZstLiteral { .. } => v.push(("k", s("Zst"))),
            ExprKind::NamedConst { def_id, args, .. } => {
                let d = *def_id;
                v.extend([("k", s("Const")), ("def", s(self.def(d))), ("gargs", self.args(args))]);
                if let Ok(Ok(c)) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| tcx.const_eval_poly(d))) { if let Some(i) = c.try_to_scalar_int() { v.push(("bits", J::U(i.to_bits(i.size())))); } }
            }
            ExprKind::ConstParam { param, .. } => v.extend([("k", s("ConstParam")), ("n", s(param.name))]),
            ExprKind::StaticRef { def_id, .. } => v.extend([("k", s("Static")), ("def", s(self.def(*def_id)))]),
            k => v.extend([("k", s("Other")), ("d", s(format!("{:?}", k).chars().take(100).collect::<String>()))]),
        }
        J::O(v)
    }
    fn preds(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let p = tcx.clauses_of(d).instantiate_identity(tcx);
        J::A(p.clauses.iter().filter_map(|c| { let c = c.clone().skip_norm_wip(); match c.kind().skip_binder() {
            ty::ClauseKind::Trait(t) => Some(J::O(vec![("k", s("trait")), ("t", s(tcx.def_path_str(t.trait_ref.def_id))), ("a", self.args(t.trait_ref.args))])),
            ty::ClauseKind::Projection(p) => { let tm = p.term; let jt = match tm.as_type() { Some(x) => self.ty(x), None => J::Null }; Some(J::O(vec![("k", s("proj")), ("t", s(format!("{:?}", p))), ("a", self.args(p.projection_term.args)), ("item", s(format!("{}", p.projection_term))), ("ty", jt)])) }
            _ => None } }).collect())
    }
    fn generics(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        let mut g = tcx.generics_of(d);
        let mut chain = vec![g];
        while let Some(p) = g.parent { g = tcx.generics_of(p); chain.push(g); }
        for g in chain.iter().rev() { for p in &g.own_params {
            let k = match p.kind { ty::GenericParamDefKind::Type { .. } => "type", ty::GenericParamDefKind::Const { .. } => "const", _ => continue };
            out.push(J::O(vec![("n", s(p.name)), ("k", s(k)), ("impl", J::B(p.name.as_str().starts_with("impl ")))]));
        } }
        J::A(out)
    }
    fn body(&mut self, d: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let Ok((steal, root)) = tcx.thir_body(d) else { return None };
        let t = steal.borrow().clone();
        self.lmap.clear();
        let params: Vec<J> = t.params.iter().map(|p| J::O(vec![("pat", p.pat.as_ref().map(|x| self.pat(x)).unwrap_or(J::Null)), ("ty", self.ty(p.ty)), ("self", s(format!("{:?}", p.self_kind)))])).collect();
        let body = self.expr(&t, d, root);
        Some(J::O(vec![("params", J::A(params)), ("body", body)]))
    }
    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut fns = vec![]; let mut adts = vec![]; let mut closures = vec![]; let mut impls = vec![];
        for d in tcx.hir_body_owners() {
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn => {
                    // closures share the numbering of locals with the function they are in
                    let did = d.to_def_id();
                    let id = self.def(did);
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
                    let Some(b) = self.body(d) else { continue };
                    let sp = tcx.sess.source_map().lookup_char_pos(tcx.def_span(did).lo());
                    let file = format!("{:?}", sp.file.name);
                    // closures nested in this body, same local numbering
                    let mut todo: Vec<LocalDefId> = tcx.nested_bodies_within(d).iter().collect();
                    todo.retain(|c| matches!(tcx.def_kind(*c), DefKind::Closure));
                    for c in todo {
                        let Ok((steal, root)) = tcx.thir_body(c) else { continue };
                        let t = steal.borrow().clone();
                        let params: Vec<J> = t.params.iter().filter(|p| p.pat.is_some()).map(|p| J::O(vec![("pat", self.pat(p.pat.as_ref().unwrap())), ("ty", self.ty(p.ty))])).collect();
                        let body = self.expr(&t, c, root);
                        let up: Vec<J> = tcx.upvars_mentioned(c).map(|u| u.keys().map(|h| self.var(LocalVarId(*h))).collect()).unwrap_or_default();
                        closures.push(J::O(vec![("id", s(self.did(c.to_def_id()))), ("owner", s(&id)), ("params", J::A(params)), ("body", body), ("ups", J::A(up))]));
                    }
                    fns.push(J::O(vec![("id", s(&id)), ("file", s(file)), ("line", J::N(sp.line as i128)), ("generics", self.generics(did)), ("preds", self.preds(did)),
                        ("inputs", J::A(sig.inputs().iter().map(|x| self.ty(*x)).collect())), ("output", self.ty(sig.output())), ("public", J::B(tcx.visibility(did).is_public())), ("b", b)]));
                }
                _ => {}
            }
        }
        for id in tcx.hir_free_items() {
            let did = id.owner_id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Struct | DefKind::Enum => {
                    let a = tcx.adt_def(did);
                    let vars = a.variants().iter().map(|v| J::O(vec![("n", s(v.name)), ("ctor", s(format!("{:?}", v.ctor_kind()))), ("fields", J::A(v.fields.iter().map(|f| J::A(vec![s(f.name), self.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())])).collect()))])).collect();
                    adts.push(J::O(vec![("p", s(tcx.def_path_str(did))), ("enum", J::B(a.is_enum())), ("generics", self.generics(did)), ("preds", self.preds(did)), ("variants", J::A(vars))]));
                }
                DefKind::Impl { .. } => {
                    if let Some(tr) = tcx.impl_opt_trait_ref(did) { let tr = tr.instantiate_identity().skip_norm_wip();
                        impls.push(J::O(vec![("trait", s(tcx.def_path_str(tr.def_id))), ("args", self.args(tr.args)), ("items", J::A(tcx.associated_item_def_ids(did).iter().map(|d| s(self.def(*d))).collect())), ("generics", self.generics(did)), ("preds", self.preds(did))])); }
                }
                _ => {}
            }
        }
        let defs = std::mem::take(&mut self.defs).into_iter().map(|(k, v)| J::A(vec![s(k), v])).collect();
        J::O(vec![("types", J::A(self.types.clone())), ("defs", J::A(defs)), ("adts", J::A(adts)), ("impls", J::A(impls)), ("fns", J::A(fns)), ("closures", J::A(closures))])
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) { c.opts.unstable_opts.no_steal_thir = true; }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == std::env::var("THIRDUMP_CRATE").unwrap_or("essay_tensor".into()) {
            if let Ok(p) = std::env::var("THIRDUMP_OUT") {
                let mut d = D { tcx, types: vec![], tmap: HashMap::new(), defs: BTreeMap::new(), lmap: HashMap::new() };
                let j = d.run();
                let mut o = String::new(); j.w(&mut o);
                std::fs::write(p, o).unwrap();
            }
        }
        Compilation::Continue
    }
}
fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    if a.len() > 1 && a[1].ends_with("rustc") { a.remove(1); }
    rustc_driver::compiler_entrypoint(&a, &mut Cb);
}
