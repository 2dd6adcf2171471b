//! Dumps the type-checked program (THIR of every body, item/visibility/ADT tables) of the crate
//! named by $KVERIF_CRATE to $KVERIF_OUT as JSON. Used as RUSTC_WORKSPACE_WRAPPER.
#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::thir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, Ty, TyCtxt};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<String>,
    tmap: HashMap<Ty<'tcx>, usize>,
    adts: BTreeMap<String, String>,
}

struct Body<'a, 'tcx> {
    cx: &'a mut Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    env: ty::TypingEnv<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        if let Some(i) = self.tmap.get(&t) {
            return *i;
        }
        let s = with_no_trimmed_paths!(format!("{t}"));
        let mut peeled = t;
        let mut refs = 0;
        let mut mutref = false;
        while let ty::Ref(_, inner, m) = peeled.kind() {
            peeled = *inner;
            refs += 1;
            mutref |= m.is_mut();
        }
        let mut e = format!("{{\"s\":{},\"refs\":{},\"mut\":{}", js(&s), refs, mutref);
        if let ty::Adt(d, args) = peeled.kind() {
            let p = self.path(d.did());
            self.adt(*d);
            let _ = write!(e, ",\"adt\":{}", js(&p));
            let mut av = vec![];
            for a in args.iter() {
                if let Some(t) = a.as_type() {
                    av.push(with_no_trimmed_paths!(format!("{t}")));
                }
            }
            let _ = write!(e, ",\"args\":[{}]", av.iter().map(|a| js(a)).collect::<Vec<_>>().join(","));
        }
        if let ty::Closure(d, _) = peeled.kind() {
            let _ = write!(e, ",\"closure\":{}", js(&self.did(*d)));
        }
        if peeled.is_bool() {
            e.push_str(",\"bool\":true");
        }
        e.push('}');
        let i = self.types.len();
        self.types.push(e);
        self.tmap.insert(t, i);
        i
    }
    fn did(&self, d: DefId) -> String {
        // unique, stable within one compilation
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", self.tcx.crate_name(d.krate), p)
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let p = self.path(d.did());
        if self.adts.contains_key(&p) {
            return;
        }
        self.adts.insert(p.clone(), String::new());
        let mut vs = vec![];
        for v in d.variants().iter() {
            let mut fs = vec![];
            for f in v.fields.iter() {
                let fty = self.tcx.type_of(f.did).instantiate_identity();
                let fty = fty.skip_norm_wip();
                let s = with_no_trimmed_paths!(format!("{fty}"));
                fs.push(format!(
                    "{{\"n\":{},\"ty\":{},\"pub\":{}}}",
                    js(f.name.as_str()),
                    js(&s),
                    f.vis.is_public()
                ));
            }
            vs.push(format!("{{\"n\":{},\"f\":[{}]}}", js(v.name.as_str()), fs.join(",")));
        }
        let reach = d.did().as_local().map(|l| self.tcx.effective_visibilities(()).is_reachable(l));
        let e = format!(
            "{{\"enum\":{},\"local\":{},\"reach\":{},\"v\":[{}],\"sp\":{}}}",
            d.is_enum(),
            d.did().is_local(),
            reach.unwrap_or(true),
            vs.join(","),
            if d.did().is_local() { self.span(self.tcx.def_span(d.did())) } else { "\"\"".into() }
        );
        self.adts.insert(p, e);
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(s.lo());
        js(&format!("{}:{}", lo.file.name.prefer_local_unconditionally(), lo.line))
    }
    fn mac(&self, s: Span) -> Option<String> {
        // outermost macro (non desugaring) this span comes from
        let mut s = s;
        let mut out = None;
        while s.from_expansion() {
            let d = s.ctxt().outer_expn_data();
            if let rustc_span::ExpnKind::Macro(_, name) = d.kind {
                out = Some(name.to_string());
            }
            s = d.call_site;
        }
        out
    }
}

impl<'a, 'tcx> Body<'a, 'tcx> {
    fn var(&self, v: LocalVarId) -> String {
        format!("{}.{}", self.cx.did(v.0.owner.def_id.to_def_id()), v.0.local_id.as_u32())
    }
    fn scope(&self, s: rustc_middle::middle::region::Scope) -> u32 {
        s.local_id.as_u32()
    }
    fn opt(&mut self, e: Option<ExprId>) -> String {
        match e {
            Some(e) => self.expr(e),
            None => "null".into(),
        }
    }
    fn list(&mut self, es: &[ExprId]) -> String {
        let v: Vec<_> = es.iter().map(|e| self.expr(*e)).collect();
        format!("[{}]", v.join(","))
    }
    fn fnref(&mut self, t: Ty<'tcx>) -> Option<String> {
        if let ty::FnDef(did, args) = t.kind() {
            let (did, args) = (*did, args.no_bound_vars().unwrap_or(ty::List::empty()));
            let tcx = self.cx.tcx;
            let path = self.cx.path(did);
            let full = with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args));
            let mut o = format!("\"fn\":{},\"did\":{},\"full\":{}", js(&path), js(&self.cx.did(did)), js(&full));
            let targs: Vec<String> =
                args.iter().filter_map(|a| a.as_type()).map(|t| js(&with_no_trimmed_paths!(format!("{t}")))).collect();
            let _ = write!(o, ",\"targs\":[{}]", targs.join(","));
            if matches!(tcx.def_kind(did), DefKind::Fn | DefKind::AssocFn) {
                if let Some(tr) = tcx.trait_of_assoc(did) {
                    let _ = write!(o, ",\"trait\":{}", js(&self.cx.path(tr)));
                }
                let name = tcx.item_name(did);
                let _ = write!(o, ",\"name\":{}", js(name.as_str()));
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, self.env, did, args) {
                    let rd = inst.def_id();
                    if rd != did {
                        let _ = write!(o, ",\"rfn\":{},\"rdid\":{}", js(&self.cx.path(rd)), js(&self.cx.did(rd)));
                        if let Some(im) = tcx.impl_of_assoc(rd) {
                            if tcx.is_automatically_derived(im) {
                                o.push_str(",\"derived\":true");
                            }
                        }
                    }
                    let _ = write!(o, ",\"local\":{}", rd.is_local());
                }
            } else if matches!(tcx.def_kind(did), DefKind::Ctor(..)) {
                let parent = tcx.parent(did);
                let (adt, var) = if matches!(tcx.def_kind(parent), DefKind::Variant) {
                    (tcx.parent(parent), tcx.item_name(parent).to_string())
                } else {
                    (parent, tcx.item_name(parent).to_string())
                };
                self.cx.adt(tcx.adt_def(adt));
                let _ = write!(o, ",\"ctor\":[{},{}]", js(&self.cx.path(adt)), js(&var));
            }
            return Some(o);
        }
        None
    }
    fn expr(&mut self, id: ExprId) -> String {
        let thir = self.thir;
        let e = &thir.exprs[id];
        let k = match &e.kind {
            ExprKind::Scope { value, .. } => return self.expr(*value),
            ExprKind::If { cond, then, else_opt, .. } => {
                let c = self.expr(*cond);
                let t = self.expr(*then);
                let f = self.opt(*else_opt);
                format!("\"k\":\"If\",\"c\":{c},\"t\":{t},\"e\":{f}")
            }
            ExprKind::Call { ty: fty, fun, args, .. } => {
                let a = self.list(args);
                match self.fnref(*fty) {
                    Some(f) => format!("\"k\":\"Call\",{f},\"a\":{a}"),
                    None => {
                        let f = self.expr(*fun);
                        format!("\"k\":\"CallV\",\"f\":{f},\"a\":{a}")
                    }
                }
            }
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::Deref { arg } => format!("\"k\":\"Deref\",\"x\":{}", self.expr(*arg)),
            ExprKind::Binary { op, lhs, rhs } => {
                format!("\"k\":\"Bin\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.expr(*lhs), self.expr(*rhs))
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                format!("\"k\":\"Logic\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.expr(*lhs), self.expr(*rhs))
            }
            ExprKind::Unary { op, arg } => format!("\"k\":\"Un\",\"op\":\"{:?}\",\"x\":{}", op, self.expr(*arg)),
            ExprKind::Cast { source } => format!("\"k\":\"Cast\",\"x\":{}", self.expr(*source)),
            ExprKind::ValueExpr { source } | ExprKind::NeverToAny { source } => return self.expr(*source),
            ExprKind::PointerCoercion { source, .. } => {
                // a function item reified to a fn pointer keeps its fn reference inside
                return self.expr(*source);
            }
            ExprKind::Loop { body } => format!("\"k\":\"Loop\",\"b\":{}", self.expr(*body)),
            ExprKind::Let { expr, pat } => {
                format!("\"k\":\"LetC\",\"x\":{},\"p\":{}", self.expr(*expr), self.pat(pat))
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                let s = self.expr(*scrutinee);
                let mut v = vec![];
                for a in arms.iter() {
                    let a = &thir.arms[*a];
                    let p = self.pat(&a.pattern);
                    let g = self.opt(a.guard);
                    let b = self.expr(a.body);
                    v.push(format!("{{\"p\":{p},\"g\":{g},\"b\":{b}}}"));
                }
                let src = format!("{:?}", match_source);
                format!("\"k\":\"Match\",\"x\":{s},\"arms\":[{}],\"src\":{}", v.join(","), js(&src))
            }
            ExprKind::Block { block } => {
                return self.block(*block, e);
            }
            ExprKind::Assign { lhs, rhs } => {
                format!("\"k\":\"Assign\",\"l\":{},\"r\":{}", self.expr(*lhs), self.expr(*rhs))
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                format!("\"k\":\"AssignOp\",\"op\":\"{:?}\",\"l\":{},\"r\":{}", op, self.expr(*lhs), self.expr(*rhs))
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = thir.exprs[*lhs].ty;
                let n = match lt.kind() {
                    ty::Adt(d, _) => {
                        self.cx.adt(*d);
                        d.variants()[*variant_index].fields[*name].name.to_string()
                    }
                    _ => name.as_u32().to_string(),
                };
                format!("\"k\":\"Field\",\"x\":{},\"n\":{}", self.expr(*lhs), js(&n))
            }
            ExprKind::Index { lhs, index } => {
                format!("\"k\":\"Index\",\"x\":{},\"i\":{}", self.expr(*lhs), self.expr(*index))
            }
            ExprKind::VarRef { id } => format!("\"k\":\"Var\",\"v\":{}", js(&self.var(*id))),
            ExprKind::UpvarRef { var_hir_id, .. } => format!("\"k\":\"Var\",\"up\":true,\"v\":{}", js(&self.var(*var_hir_id))),
            ExprKind::Borrow { borrow_kind, arg } => {
                let m = matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. });
                format!("\"k\":\"Ref\",\"m\":{m},\"x\":{}", self.expr(*arg))
            }
            ExprKind::RawBorrow { arg, .. } => format!("\"k\":\"RawRef\",\"x\":{}", self.expr(*arg)),
            ExprKind::Reborrow { source, .. } => return self.expr(*source),
            ExprKind::Break { label, value } => {
                format!("\"k\":\"Break\",\"lb\":{},\"x\":{}", self.scope(*label), self.opt(*value))
            }
            ExprKind::Continue { label } => format!("\"k\":\"Continue\",\"lb\":{}", self.scope(*label)),
            ExprKind::Return { value } => format!("\"k\":\"Return\",\"x\":{}", self.opt(*value)),
            ExprKind::Repeat { value, count } => {
                format!("\"k\":\"Repeat\",\"x\":{},\"n\":{}", self.expr(*value), js(&format!("{count}")))
            }
            ExprKind::Array { fields } => format!("\"k\":\"Array\",\"a\":{}", self.list(fields)),
            ExprKind::Tuple { fields } => format!("\"k\":\"Tuple\",\"a\":{}", self.list(fields)),
            ExprKind::Adt(a) => {
                self.cx.adt(a.adt_def);
                let v = a.adt_def.variant(a.variant_index);
                let fs: Vec<String> = a
                    .fields
                    .iter()
                    .map(|f| format!("[{},{}]", js(v.fields[f.name].name.as_str()), self.expr(f.expr)))
                    .collect();
                let base = match &a.base {
                    AdtExprBase::None => "null".to_string(),
                    AdtExprBase::Base(f) => self.expr(f.base),
                    AdtExprBase::DefaultFields(_) => "\"default\"".to_string(),
                };
                let p = self.cx.path(a.adt_def.did());
                format!(
                    "\"k\":\"Adt\",\"adt\":{},\"v\":{},\"f\":[{}],\"base\":{base}",
                    js(&p),
                    js(v.name.as_str()),
                    fs.join(",")
                )
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                return self.expr(*source)
            }
            ExprKind::Closure(c) => {
                let d = self.cx.did(c.closure_id.to_def_id());
                format!("\"k\":\"Closure\",\"id\":{}", js(&d))
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                let (t, v) = match &lit.node {
                    L::Str(s, _) => ("str", js(s.as_str())),
                    L::ByteStr(b, _) => ("bstr", js(&format!("{:?}", b))),
                    L::CStr(b, _) => ("cstr", js(&format!("{:?}", b))),
                    L::Byte(b) => ("int", format!("{b}")),
                    L::Char(c) => ("char", js(&c.to_string())),
                    L::Int(i, _) => ("int", format!("{}{}", if *neg { "-" } else { "" }, i.get())),
                    L::Float(s, _) => ("float", js(s.as_str())),
                    L::Bool(b) => ("bool", format!("{b}")),
                    _ => ("err", "null".to_string()),
                };
                format!("\"k\":\"Lit\",\"t\":\"{t}\",\"v\":{v}")
            }
            ExprKind::NonHirLiteral { lit, .. } => format!("\"k\":\"Lit\",\"t\":\"nonhir\",\"v\":{}", js(&format!("{lit:?}"))),
            ExprKind::ZstLiteral { .. } => match self.fnref(e.ty) {
                Some(f) => format!("\"k\":\"FnRef\",{f}"),
                None => "\"k\":\"Zst\"".to_string(),
            },
            ExprKind::NamedConst { def_id, args, .. } => {
                let p = self.cx.path(*def_id);
                let d = self.cx.did(*def_id);
                let mut o = format!("\"k\":\"Const\",\"p\":{},\"did\":{}", js(&p), js(&d));
                if let Some(v) = self.eval_const(*def_id, args) {
                    let _ = write!(o, ",\"val\":{v}");
                }
                o
            }
            ExprKind::ConstParam { param, .. } => format!("\"k\":\"ConstParam\",\"n\":{}", js(param.name.as_str())),
            ExprKind::StaticRef { def_id, .. } => {
                format!("\"k\":\"Static\",\"p\":{},\"did\":{}", js(&self.cx.path(*def_id)), js(&self.cx.did(*def_id)))
            }
            ExprKind::ConstBlock { did, .. } => format!("\"k\":\"ConstBlock\",\"did\":{}", js(&self.cx.did(*did))),
            other => {
                let s = format!("{:?}", other);
                let s: String = s.chars().take(40).collect();
                format!("\"k\":\"Unk\",\"d\":{}", js(&s))
            }
        };
        let t = self.cx.ty(e.ty);
        let sp = self.cx.span(e.span);
        let mac = match self.cx.mac(e.span) {
            Some(m) => format!(",\"mac\":{}", js(&m)),
            None => String::new(),
        };
        // local id of this expression: the target scope of break/continue for loops
        let lid = match &e.kind {
            ExprKind::Loop { .. } => format!(",\"id\":{}", e.temp_scope_id.as_u32()),
            _ => String::new(),
        };
        format!("{{{k},\"ty\":{t},\"sp\":{sp}{mac}{lid}}}")
    }
    fn eval_const(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Option<String> {
        let tcx = self.cx.tcx;
        let uv = rustc_middle::mir::UnevaluatedConst::new(d, args);
        let v = tcx.const_eval_resolve(self.env, uv, rustc_span::DUMMY_SP).ok()?;
        match v {
            rustc_middle::mir::ConstValue::Scalar(s) => {
                let i = s.try_to_scalar_int().ok()?;
                Some(format!("{}", i.to_bits_unchecked()))
            }
            _ => {
                let b = v.try_get_slice_bytes_for_diagnostics(tcx)?;
                Some(js(&String::from_utf8_lossy(b)))
            }
        }
    }
    fn block(&mut self, b: BlockId, e: &Expr<'tcx>) -> String {
        let thir = self.thir;
        let blk = &thir.blocks[b];
        let mut v = vec![];
        for s in blk.stmts.iter() {
            match &thir.stmts[*s].kind {
                StmtKind::Expr { expr, .. } => v.push(format!("{{\"s\":\"E\",\"x\":{}}}", self.expr(*expr))),
                StmtKind::Let { pattern, initializer, else_block, span, .. } => {
                    let p = self.pat(pattern);
                    let i = self.opt(*initializer);
                    let eb = match else_block {
                        Some(b) => self.block(*b, e),
                        None => "null".into(),
                    };
                    let sp = self.cx.span(*span);
                    v.push(format!("{{\"s\":\"L\",\"p\":{p},\"i\":{i},\"else\":{eb},\"sp\":{sp}}}"));
                }
            }
        }
        let x = self.opt(blk.expr);
        let t = self.cx.ty(e.ty);
        let sp = self.cx.span(blk.span);
        let unsafe_ = !matches!(blk.safety_mode, BlockSafety::Safe);
        let mac = match self.cx.mac(blk.span) {
            Some(m) => format!(",\"mac\":{}", js(&m)),
            None => String::new(),
        };
        format!(
            "{{\"k\":\"Block\",\"st\":[{}],\"x\":{x},\"ty\":{t},\"sp\":{sp},\"tb\":{},\"id\":{},\"unsafe\":{unsafe_}{mac}}}",
            v.join(","),
            blk.targeted_by_break,
            blk.region_scope.local_id.as_u32()
        )
    }
    fn pats(&mut self, ps: &[Pat<'tcx>]) -> String {
        let v: Vec<String> = ps.iter().map(|p| self.pat(p)).collect();
        format!("[{}]", v.join(","))
    }
    fn pat(&mut self, p: &Pat<'tcx>) -> String {
        let k = match &p.kind {
            PatKind::Wild | PatKind::Missing | PatKind::Never => "\"k\":\"Wild\"".to_string(),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                let sub = match subpattern {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                let by = match mode.0 {
                    rustc_hir::ByRef::No => "val",
                    rustc_hir::ByRef::Yes(_, m) => {
                        if m.is_mut() {
                            "mut"
                        } else {
                            "ref"
                        }
                    }
                };
                format!("\"k\":\"Bind\",\"v\":{},\"n\":{},\"by\":\"{by}\",\"sub\":{sub}", js(&self.var(*var)), js(name.as_str()))
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                self.cx.adt(*adt_def);
                let v = adt_def.variant(*variant_index);
                let fs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| format!("[{},{}]", js(v.fields[f.field].name.as_str()), self.pat(&f.pattern)))
                    .collect();
                let p = self.cx.path(adt_def.did());
                format!("\"k\":\"Variant\",\"adt\":{},\"v\":{},\"f\":[{}]", js(&p), js(v.name.as_str()), fs.join(","))
            }
            PatKind::Leaf { subpatterns } => {
                let names: Vec<String> = match p.ty.kind() {
                    ty::Adt(d, _) if !d.is_enum() => {
                        d.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect()
                    }
                    ty::Adt(d, _) => d.variants().iter().next().map(|v| v.fields.iter().map(|f| f.name.to_string()).collect()).unwrap_or_default(),
                    _ => vec![],
                };
                let fs: Vec<String> = subpatterns
                    .iter()
                    .map(|f| {
                        let i = f.field.as_u32() as usize;
                        let n = names.get(i).cloned().unwrap_or_else(|| i.to_string());
                        format!("[{},{}]", js(&n), self.pat(&f.pattern))
                    })
                    .collect();
                format!("\"k\":\"Leaf\",\"f\":[{}]", fs.join(","))
            }
            PatKind::Deref { subpattern, .. } => format!("\"k\":\"Deref\",\"p\":{}", self.pat(subpattern)),
            PatKind::DerefPattern { subpattern, .. } => format!("\"k\":\"Deref\",\"p\":{}", self.pat(subpattern)),
            PatKind::Constant { value } => {
                if let Some(b) = value.try_to_raw_bytes(self.cx.tcx) {
                    format!("\"k\":\"Const\",\"t\":\"str\",\"v\":{}", js(&String::from_utf8_lossy(b)))
                } else if let Some(b) = value.try_to_bool() {
                    format!("\"k\":\"Const\",\"t\":\"bool\",\"v\":{b}")
                } else if let Some(b) = value.try_to_bits(self.cx.tcx, self.env) {
                    if p.ty.is_char() {
                        let c = char::from_u32(b as u32).unwrap_or('?');
                        format!("\"k\":\"Const\",\"t\":\"char\",\"v\":{}", js(&c.to_string()))
                    } else {
                        format!("\"k\":\"Const\",\"t\":\"int\",\"v\":{b}")
                    }
                } else {
                    let s = with_no_trimmed_paths!(format!("{value}"));
                    format!("\"k\":\"Const\",\"t\":\"other\",\"v\":{}", js(&s))
                }
            }
            PatKind::Range(r) => format!("\"k\":\"Range\",\"d\":{}", js(&format!("{:?}", r))),
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                let pr = self.pats(prefix);
                let sl = match slice {
                    Some(s) => self.pat(s),
                    None => "null".into(),
                };
                let su = self.pats(suffix);
                format!("\"k\":\"Slice\",\"pre\":{pr},\"mid\":{sl},\"suf\":{su}")
            }
            PatKind::Or { pats } => format!("\"k\":\"Or\",\"ps\":{}", self.pats(pats)),
            PatKind::Guard { .. } => "\"k\":\"Unk\"".to_string(),
            PatKind::Error(_) => "\"k\":\"Unk\"".to_string(),
        };
        let t = self.cx.ty(p.ty);
        format!("{{{k},\"ty\":{t}}}")
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>, out: &str) {
    let mut cx = Cx { tcx, types: vec![], tmap: HashMap::new(), adts: BTreeMap::new() };
    let mut bodies = vec![];
    let owners: Vec<LocalDefId> = tcx.hir_body_owners().collect();
    for def in owners {
        let did = def.to_def_id();
        let kind = tcx.def_kind(did);
        let Ok((steal, root)) = tcx.thir_body(def) else { continue };
        let thir = steal.borrow();
        let env = ty::TypingEnv::post_analysis(tcx, tcx.typeck_root_def_id(did));
        let mut b = Body { cx: &mut cx, thir: &thir, env };
        let mut params = vec![];
        for p in thir.params.iter() {
            let pt = match &p.pat {
                Some(p) => b.pat(p),
                None => "null".into(),
            };
            let t = b.cx.ty(p.ty);
            params.push(format!("{{\"p\":{pt},\"ty\":{t}}}"));
        }
        let body = b.expr(root);
        let path = cx.path(did);
        let id = cx.did(did);
        let mut o = format!(
            "{{\"path\":{},\"did\":{},\"kind\":{},\"params\":[{}],\"body\":{body},\"sp\":{}",
            js(&path),
            js(&id),
            js(&format!("{kind:?}")),
            params.join(","),
            cx.span(tcx.def_span(did))
        );
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity();
            let s = with_no_trimmed_paths!(format!("{}", sig.skip_norm_wip()));
            let _ = write!(o, ",\"sig\":{}", js(&s));
            let _ = write!(o, ",\"name\":{}", js(tcx.item_name(did).as_str()));
            let _ = write!(o, ",\"pub\":{}", tcx.visibility(did).is_public());
            let _ = write!(o, ",\"reach\":{}", tcx.effective_visibilities(()).is_reachable(def));
            let _ = write!(o, ",\"unsafe\":{}", tcx.fn_sig(did).skip_binder().safety().is_unsafe());
            if let Some(im) = tcx.impl_of_assoc(did) {
                let st = with_no_trimmed_paths!(format!("{}", tcx.type_of(im).instantiate_identity().skip_norm_wip()));
                let _ = write!(o, ",\"self\":{}", js(&st));
                if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    let _ = write!(o, ",\"itrait\":{}", js(&cx.path(tr.def_id)));
                    let _ = write!(o, ",\"itraitfull\":{}", js(&with_no_trimmed_paths!(format!("{}", tr.print_only_trait_path()))));
                }
                if tcx.is_automatically_derived(im) {
                    o.push_str(",\"derived\":true");
                }
            }
        }
        if matches!(kind, DefKind::Closure) {
            let _ = write!(o, ",\"parent\":{}", js(&cx.did(tcx.parent(did))));
        }
        o.push('}');
        bodies.push(o);
    }
    // impls and statics
    let mut impls = vec![];
    let mut items = vec![];
    for id in tcx.hir_crate_items(()).definitions() {
        let did = id.to_def_id();
        match tcx.def_kind(did) {
            DefKind::Impl { .. } => {
                let st = with_no_trimmed_paths!(format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip()));
                let (tr, trf) = match tcx.impl_opt_trait_ref(did) {
                    Some(t) => {
                        let t = t.instantiate_identity().skip_norm_wip();
                        (cx.path(t.def_id), with_no_trimmed_paths!(format!("{}", t.print_only_trait_path())))
                    }
                    None => (String::new(), String::new()),
                };
                impls.push(format!(
                    "{{\"self\":{},\"trait\":{},\"full\":{},\"derived\":{},\"sp\":{}}}",
                    js(&st),
                    js(&tr),
                    js(&trf),
                    tcx.is_automatically_derived(did),
                    cx.span(tcx.def_span(did))
                ));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                cx.adt(tcx.adt_def(did));
            }
            k @ DefKind::Static { .. } => {
                let t = with_no_trimmed_paths!(format!("{}", tcx.type_of(did).instantiate_identity().skip_norm_wip()));
                items.push(format!("{{\"kind\":{},\"path\":{},\"ty\":{}}}", js(&format!("{k:?}")), js(&cx.path(did)), js(&t)));
            }
            k @ (DefKind::ExternCrate | DefKind::ForeignMod) => {
                items.push(format!("{{\"kind\":{},\"path\":{}}}", js(&format!("{k:?}")), js(&cx.path(did))));
            }
            _ => {}
        }
    }
    // public names: reexports reachable
    let mut o = String::new();
    o.push_str("{\"types\":[");
    o.push_str(&cx.types.join(","));
    o.push_str("],\"adts\":{");
    let av: Vec<String> = cx.adts.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
    o.push_str(&av.join(","));
    o.push_str("},\"impls\":[");
    o.push_str(&impls.join(","));
    o.push_str("],\"items\":[");
    o.push_str(&items.join(","));
    o.push_str("],\"bodies\":[\n");
    o.push_str(&bodies.join(",\n"));
    o.push_str("]}\n");
    let tmp = format!("{out}.tmp");
    std::fs::write(&tmp, o).expect("write dump");
    std::fs::rename(&tmp, out).expect("rename dump");
}

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::interface::Config) {
        if self.out.is_some() {
            c.opts.unstable_opts.no_steal_thir = true;
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path to rustc
    if args.len() > 1 && !args[1].starts_with('-') && args[1].contains("rustc") {
        args.remove(1);
    }
    let want = std::env::var("KVERIF_CRATE").unwrap_or_default();
    let mut name = String::new();
    let mut is_test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned().unwrap_or_default();
        }
        if a == "--test" {
            is_test = true;
        }
    }
    let out = if !want.is_empty() && name == want && !is_test { std::env::var("KVERIF_OUT").ok() } else { None };
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
