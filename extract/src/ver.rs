//! Extraction of functions with loops into Verus.
//!
//! `kvx ver REPO OVERLAY OUT`: the overlay names source files and carries specifications, loop
//! invariants and ghost code; the executable text comes from REPO on every run.  What is done to it:
//!  * printing macros, test modules, attributes, `String` fields (labels) and functions returning them are dropped
//!  * f32 -> R (a wrapper of a mathematical real), Vec2 -> V2; float literals and casts become calls
//!  * `for` loops and iterator pipelines become indexed `while` loops (one element at a time, in order)
//!  * compound assignment is written out; a few std/nalgebra calls go to functions of the prelude
//!  * functions without a contract are inlined into their callers
use crate::geo::{is_print, is_test};
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

// ------------------------------------------------------------------ overlay
#[derive(Default, Clone)]
struct FnOv {
    name: String,
    ret: String,
    props: String,
    locals: Vec<String>,
    loops: Vec<String>,
    attrs: Vec<String>,
    spec: Vec<String>,
    at: BTreeMap<String, Vec<String>>,
    external: bool,
    alt: bool,
}
#[derive(Default)]
struct Ov {
    files: Vec<(String, Option<Vec<String>>)>,
    skip: HashSet<String>,
    prelude: Vec<String>,
    fns: Vec<FnOv>,
}

fn parse_ov(path: &str, ov: &mut Ov) {
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    let text = std::fs::read_to_string(path).expect("overlay");
    enum Cur {
        None,
        Prelude,
        Spec,
        At(String),
    }
    let mut cur = Cur::None;
    for line in text.lines() {
        if let Some(d) = line.trim_start().strip_prefix("//@") {
            let mut w = d.trim().splitn(2, ' ');
            let (k, rest) = (w.next().unwrap_or(""), w.next().unwrap_or("").trim().to_string());
            let words = || rest.split_whitespace().map(String::from).collect::<Vec<_>>();
            match k {
                "include" => parse_ov(dir.join(&rest).to_str().unwrap(), ov),
                "file" => {
                    let w = words();
                    let only = if w.get(1).map(|s| s == "only").unwrap_or(false) { Some(w[2..].to_vec()) } else { None };
                    ov.files.push((w[0].clone(), only));
                }
                "skip" => ov.skip.extend(words()),
                "prelude" => cur = Cur::Prelude,
                "fn" | "extern" => {
                    ov.fns.push(FnOv { name: rest.clone(), ret: "r".into(), external: k == "extern", ..Default::default() });
                    cur = Cur::None;
                }
                // the same contract with other annotations, for another shape of the body
                "alt" => {
                    let f = ov.fns.last().unwrap();
                    let g = FnOv { alt: true, locals: vec![], loops: vec![], at: BTreeMap::new(), ..f.clone() };
                    ov.fns.push(g);
                    cur = Cur::None;
                }
                // the same contract and annotations, some of them replaced
                "like" => {
                    let f = ov.fns.last().unwrap();
                    let g = FnOv { alt: true, ..f.clone() };
                    ov.fns.push(g);
                    cur = Cur::None;
                }
                "ret" => ov.fns.last_mut().unwrap().ret = rest,
                "props" => ov.fns.last_mut().unwrap().props = rest,
                "locals" => ov.fns.last_mut().unwrap().locals = words(),
                "loops" => ov.fns.last_mut().unwrap().loops = words(),
                "attr" => ov.fns.last_mut().unwrap().attrs.push(rest),
                "spec" => cur = Cur::Spec,
                "at" => cur = Cur::At(rest),
                "instead" => {
                    ov.fns.last_mut().unwrap().at.remove(&rest);
                    cur = Cur::At(rest);
                }
                "" | "end" => cur = Cur::None,
                _ => panic!("overlay: unknown directive {}", k),
            }
            continue;
        }
        match &cur {
            Cur::None => {}
            Cur::Prelude => ov.prelude.push(line.to_string()),
            Cur::Spec => ov.fns.last_mut().unwrap().spec.push(line.to_string()),
            Cur::At(k) => ov.fns.last_mut().unwrap().at.entry(k.clone()).or_default().push(line.to_string()),
        }
    }
}

// ------------------------------------------------------------------ printing
pub fn print_tokens(ts: TokenStream, o: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Brace => ("{\n", "\n}\n"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                print_tokens(g.stream(), o);
                while o.ends_with('\n') && b.starts_with('\n') {
                    o.pop();
                }
                o.push_str(b);
            }
            TokenTree::Punct(p) => {
                o.push(p.as_char());
                if p.as_char() == ';' {
                    o.push('\n');
                } else if p.spacing() == Spacing::Alone {
                    o.push(' ');
                }
            }
            x => {
                o.push_str(&x.to_string());
                o.push(' ');
            }
        }
    }
}
pub fn show<T: ToTokens>(t: &T) -> String { quote!(#t).to_string().replace(' ', "") }

// ------------------------------------------------------------------ types and small rewrites
fn leaf(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }

/// `::<T>` for a `sum` or `collect` without one
fn typed(e: &mut Expr, t: &Type) {
    if let Expr::MethodCall(m) = e {
        if (m.method == "sum" || m.method == "collect") && m.turbofish.is_none() && !matches!(t, Type::Infer(_)) {
            m.turbofish = Some(parse_quote!(::<#t>));
        }
    }
}
fn typed_tail(sig: &Signature, b: &mut Block) {
    if let (ReturnType::Type(_, t), Some(Stmt::Expr(e, None))) = (&sig.output, b.stmts.last_mut()) {
        typed(e, t);
    }
}
/// the length of a difference is a distance
fn length_of(e: &Expr) -> Option<Expr> {
    let x = match strip_paren(e) {
        Expr::Reference(r) => strip_paren(&r.expr),
        x => x,
    };
    Some(match x {
        Expr::Binary(b) if matches!(b.op, BinOp::Sub(_)) => {
            let (l, r) = (&b.left, &b.right);
            parse_quote!(kv_dist(&kv_v2(#l), &kv_v2(#r)))
        }
        x => parse_quote!(kv_dist(&V2::zeros(), &kv_v2(#x))),
    })
}

struct Small {
    maps: bool,
}
fn is_float_ty(t: &Type) -> bool { matches!(show(t).as_str(), "f32" | "f64") }
fn lit_frac(d: &str) -> (i64, i64) {
    let (m, e) = match d.split_once(|c| c == 'e' || c == 'E') {
        Some((m, e)) => (m.to_string(), e.parse::<i32>().unwrap_or(0)),
        None => (d.to_string(), 0),
    };
    let (i, f) = m.split_once('.').unwrap_or((m.as_str(), ""));
    let f = f.trim_end_matches('0');
    let mut n: i64 = format!("{}{}", i, f).replace('_', "").parse().unwrap_or(0);
    let mut k = 10i64.checked_pow(f.len() as u32).unwrap_or(1);
    for _ in 0..e.abs() {
        if e > 0 { n = n.saturating_mul(10) } else { k = k.saturating_mul(10) }
    }
    (n, k)
}
impl VisitMut for Small {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if is_float_ty(t) {
            *t = parse_quote!(R);
            return;
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        // module prefixes go (all items live in one module)
        let n = p.segments.len();
        let keep = p.segments.iter().position(|s| {
            let c = s.ident.to_string();
            c == "Self" || c.starts_with(|c: char| c.is_uppercase())
        });
        let first = p.segments[0].ident.to_string();
        if n > 1 && first != "core" && first != "std" || n > 1 && keep.is_none() && first == "crate" {
            let k = keep.unwrap_or(n - 1);
            if k > 0 && k < n {
                let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect();
                p.leading_colon = None;
                p.segments = segs.into_iter().collect();
            }
        }
        if first == "std" && n > 1 && p.segments.iter().any(|s| s.ident == "HashMap") {
            let segs: Vec<_> = p.segments.iter().skip_while(|s| s.ident != "HashMap").cloned().collect();
            p.segments = segs.into_iter().collect();
        }
        for s in p.segments.iter_mut() {
            if s.ident == "Vec2" {
                s.ident = format_ident!("V2");
            }
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        // the element type of `sum` and `collect` is that of the variable
        if let (Pat::Type(t), Some(init)) = (&l.pat, l.init.as_mut()) {
            typed(&mut init.expr, &t.ty);
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        typed_tail(&f.sig, &mut f.block);
        visit_mut::visit_impl_item_fn_mut(self, f);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        typed_tail(&f.sig, &mut f.block);
        visit_mut::visit_item_fn_mut(self, f);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            let t = show(&p.path);
            let l = leaf(&p.path);
            let fl = t.contains("f32") || t.contains("f64");
            if fl {
                let r: Option<Expr> = match l.as_str() {
                    "EPSILON" => Some(parse_quote!(kv_eps())),
                    "MAX" => Some(parse_quote!(kv_max())),
                    "PI" => Some(parse_quote!(kv_pi())),
                    "TAU" => Some(parse_quote!((kv_lit(2, 1) * kv_pi()))),
                    "INFINITY" => Some(parse_quote!(kv_infinity())),
                    _ => None,
                };
                if let Some(r) = r {
                    *e = r;
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let (n, d) = lit_frac(f.base10_digits());
                Some(parse_quote!(kv_lit(#n, #d)))
            }
            Expr::Lit(ExprLit { lit: Lit::Int(f), .. }) if f.suffix().starts_with('f') => {
                let (n, d) = lit_frac(f.base10_digits());
                Some(parse_quote!(kv_lit(#n, #d)))
            }
            Expr::Cast(c) if show(&c.ty) == "R" => {
                let x = &c.expr;
                Some(parse_quote!(kv_f32(#x)))
            }
            Expr::Call(c) => {
                let f = match &*c.func {
                    Expr::Path(p) => leaf(&p.path),
                    _ => String::new(),
                };
                match f.as_str() {
                    "distance" => { c.func = parse_quote!(kv_dist); None }
                    "epsilon" => { c.func = parse_quote!(kv_eps); None }
                    "length" | "magnitude" | "l2_norm" if c.args.len() == 1 => length_of(&c.args[0]),
                    _ => None,
                }
            }
            Expr::MethodCall(m) => {
                let (r, a) = (&m.receiver, &m.args);
                match (m.method.to_string().as_str(), a.len()) {
                    ("norm", 0) | ("magnitude", 0) => length_of(r),
                    ("extend", 1) => {
                        let x = match &a[0] {
                            Expr::Reference(q) => (*q.expr).clone(),
                            q => q.clone(),
                        };
                        Some(parse_quote!(kv_extend(&mut #r, &#x)))
                    }
                    ("contains", 1) => Some(match strip_paren(r) {
                        Expr::Range(ExprRange { start: Some(lo), end: Some(hi), limits, .. }) => {
                            let x = match &a[0] {
                                Expr::Reference(q) => (*q.expr).clone(),
                                q => parse_quote!((*#q)),
                            };
                            match limits {
                                RangeLimits::HalfOpen(_) => parse_quote!((#lo <= #x && #x < #hi)),
                                _ => parse_quote!((#lo <= #x && #x <= #hi)),
                            }
                        }
                        _ => {
                            let x = &a[0];
                            parse_quote!(kv_contains(&#r, #x))
                        }
                    }),
                    ("is_empty", 0) => Some(parse_quote!((#r.len() == 0))),
                    ("reverse", 0) => Some(parse_quote!(kv_reverse(&mut #r))),
                    ("pow", 1) => Some(parse_quote!(kv_pow(#r, #a))),
                    _ => None,
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    BinOp::BitXorAssign(_) => Some(parse_quote!(^)),
                    _ => None,
                };
                op.map(|op| {
                    let (l, r) = (&b.left, &b.right);
                    let r: Expr = if matches!(**r, Expr::Lit(_) | Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_)) { (**r).clone() } else { parse_quote!((#r)) };
                    parse_quote!(#l = #l #op #r)
                })
            }
            Expr::Index(i) if self.maps && matches!(&*i.index, Expr::Reference(_)) => {
                let (m, k) = (&i.expr, &i.index);
                Some(parse_quote!((*kv_map_index(&#m, #k))))
            }
            Expr::Macro(m) => {
                let args = m.mac.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated).ok();
                match (leaf(&m.mac.path).as_str(), args) {
                    ("assert", Some(a)) | ("debug_assert", Some(a)) => { let mut c = a[0].clone(); self.visit_expr_mut(&mut c); Some(parse_quote!(kv_assert(#c))) }
                    ("assert_eq", Some(a)) | ("debug_assert_eq", Some(a)) => {
                        let (mut x, mut y) = (a[0].clone(), a[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut y);
                        Some(parse_quote!(kv_assert(#x == #y)))
                    }
                    ("panic", _) | ("unreachable", _) | ("unimplemented", _) | ("todo", _) => Some(parse_quote!(kv_unreached())),
                    ("vec", Some(mut a)) => {
                        for x in a.iter_mut() {
                            self.visit_expr_mut(x);
                        }
                        if a.is_empty() { Some(parse_quote!(vec![])) } else { let a: Vec<Expr> = a.into_iter().collect(); Some(parse_quote!({ let mut kvv = Vec::new(); #(kvv.push(#a);)* kvv })) }
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Assign(a), _) if matches!(&*a.left, Expr::Field(f) if matches!(&f.member, Member::Named(n) if n == "label")) && label_text(&a.right)));
        b.stmts.retain(|s| !matches!(s, Stmt::Macro(m) if is_print(&m.mac.path)) && !matches!(s, Stmt::Expr(Expr::Macro(m), _) if is_print(&m.mac.path)));
        for s in b.stmts.iter_mut() {
            if let Stmt::Macro(m) = s {
                let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_struct_mut(&mut self, s: &mut ExprStruct) {
        let f: Vec<_> = s.fields.iter().filter(|f| !matches!(&f.member, Member::Named(n) if n == "label")).cloned().collect();
        s.fields = f.into_iter().collect();
        visit_mut::visit_expr_struct_mut(self, s);
    }
}
/// the new text of a label: no effect but the text
fn label_text(e: &Expr) -> bool {
    match e {
        Expr::Call(c) => matches!(&*c.func, Expr::Path(p) if ["String::from", "String::new"].contains(&show(p).replace(' ', "").as_str())) && c.args.iter().all(label_text),
        Expr::MethodCall(m) => ["clone", "to_string", "to_owned", "into"].contains(&m.method.to_string().as_str()) && label_text(&m.receiver),
        Expr::Path(_) | Expr::Lit(_) | Expr::Field(_) => true,
        _ => false,
    }
}
fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(p) => strip_paren(&p.expr),
        x => x,
    }
}

// ------------------------------------------------------------------ early returns, inlining
/// a block ending in `return` on every path that does not fall through, as one expression without `return`
fn without_returns(stmts: &[Stmt]) -> Option<Vec<Stmt>> {
    if stmts.is_empty() {
        return Some(vec![]);
    }
    for (i, s) in stmts.iter().enumerate() {
        let last = i + 1 == stmts.len();
        match s {
            Stmt::Expr(Expr::Return(r), _) => {
                let mut o = stmts[..i].to_vec();
                if let Some(e) = &r.expr {
                    o.push(Stmt::Expr((**e).clone(), None));
                }
                return Some(o);
            }
            Stmt::Expr(Expr::If(f), _) if has_return(s) => {
                if cond_has_return(&f.cond) {
                    return None;
                }
                let rest = &stmts[i + 1..];
                let mut a = f.then_branch.stmts.clone();
                let mut b = match &f.else_branch {
                    Some((_, e)) => match &**e {
                        Expr::Block(b) => b.block.stmts.clone(),
                        x => vec![Stmt::Expr(x.clone(), None)],
                    },
                    None => vec![],
                };
                let _ = last;
                // what follows runs in the branches that fall through
                if !ends_in_return(&a) {
                    settle(&mut a);
                    a.extend(rest.to_vec());
                }
                if !ends_in_return(&b) {
                    if !rest.is_empty() {
                        settle(&mut b);
                    }
                    b.extend(rest.to_vec());
                }
                let (a, b) = (without_returns(&a)?, without_returns(&b)?);
                let cond = &f.cond;
                let mut o = stmts[..i].to_vec();
                o.push(Stmt::Expr(parse_quote!(if #cond { #(#a)* } else { #(#b)* }), None));
                return Some(o);
            }
            _ if has_return(s) => return None,
            _ => {}
        }
    }
    Some(stmts.to_vec())
}
fn settle(v: &mut Vec<Stmt>) {
    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
        *semi = Some(Default::default());
    }
}
fn ends_in_return(v: &[Stmt]) -> bool {
    match v.last() {
        Some(Stmt::Expr(Expr::Return(_), _)) => true,
        Some(Stmt::Expr(Expr::If(f), _)) => ends_in_return(&f.then_branch.stmts) && matches!(&f.else_branch, Some((_, e)) if match &**e { Expr::Block(b) => ends_in_return(&b.block.stmts), x => ends_in_return(&[Stmt::Expr(x.clone(), None)]) }),
        _ => false,
    }
}
struct HasReturn(bool);
impl<'a> Visit<'a> for HasReturn {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
    fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}
fn has_return(s: &Stmt) -> bool {
    let mut h = HasReturn(false);
    h.visit_stmt(s);
    h.0
}
fn cond_has_return(e: &Expr) -> bool {
    let mut h = HasReturn(false);
    h.visit_expr(e);
    h.0
}

struct Inline<'a> {
    helpers: &'a HashMap<String, (Signature, Block)>,
    depth: usize,
    n: usize,
    left: Vec<String>,
}
struct ReSelf(Ident);
impl VisitMut for ReSelf {
    fn visit_ident_mut(&mut self, i: &mut Ident) {
        if i == "self" {
            *i = self.0.clone();
        }
    }
}
impl<'a> Inline<'a> {
    fn expand(&mut self, name: &str, recv: Option<&Expr>, args: Vec<Expr>) -> Option<Expr> {
        let (sig, block) = self.helpers.get(name)?;
        if self.depth > 6 {
            return None;
        }
        let mut pre: Vec<Stmt> = vec![];
        let mut post: Vec<Stmt> = vec![];
        let mut body = match without_returns(&block.stmts) {
            Some(b) => b,
            None => {
                self.left.push(name.to_string());
                return None;
            }
        };
        self.n += 1;
        let n = self.n;
        let mut it = args.into_iter();
        for (i, p) in sig.inputs.iter().enumerate() {
            match p {
                FnArg::Receiver(r) => {
                    let e = match recv {
                        Some(e) => e.clone(),
                        None => it.next()?,
                    };
                    if show(&e) != "self" {
                        let s = format_ident!("kvh{}_self", n);
                        if recv.is_some() && r.reference.is_some() {
                            if r.mutability.is_some() { pre.push(parse_quote!(let #s = &mut #e;)) } else { pre.push(parse_quote!(let #s = &#e;)) }
                        } else {
                            pre.push(parse_quote!(let #s = #e;));
                        }
                        for st in body.iter_mut() {
                            ReSelf(s.clone()).visit_stmt_mut(st);
                        }
                    }
                }
                FnArg::Typed(t) => {
                    let a = it.next()?;
                    let h = format_ident!("kvh{}_{}", n, i);
                    let (pat, ty) = (&t.pat, &t.ty);
                    if matches!(**ty, Type::ImplTrait(_)) || matches!(a, Expr::Closure(_)) {
                        return None;
                    }
                    let generic = sig.generics.params.len() > 0;
                    pre.push(if generic { parse_quote!(let #h = #a;) } else { parse_quote!(let #h: #ty = #a;) });
                    post.push(parse_quote!(let #pat = #h;));
                }
            }
        }
        self.depth += 1;
        for s in body.iter_mut() {
            self.visit_stmt_mut(s);
        }
        self.depth -= 1;
        if pre.is_empty() && post.is_empty() && body.len() == 1 {
            if let Stmt::Expr(e, None) = &body[0] {
                return Some(parse_quote!((#e)));
            }
        }
        Some(parse_quote!({ #(#pre)* #(#post)* #(#body)* }))
    }
}
impl<'a> VisitMut for Inline<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::Call(c) => match &*c.func {
                Expr::Path(p) => {
                    let l = leaf(&p.path);
                    self.expand(&l, None, c.args.iter().cloned().collect())
                }
                _ => None,
            },
            Expr::MethodCall(m) => {
                let l = m.method.to_string();
                let has_self = self.helpers.get(&l).map_or(false, |(s, _)| s.receiver().is_some());
                if has_self {
                    let r = (*m.receiver).clone();
                    self.expand(&l, Some(&r), m.args.iter().cloned().collect())
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// local closures: `let f = |p| body;` is substituted where it is called
struct Closures {
    known: HashMap<String, ExprClosure>,
}
impl VisitMut for Closures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.known.clone();
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        let mut h = HasReturn(false);
                        h.visit_expr(&c.body);
                        if !h.0 {
                            let mut c = c.clone();
                            self.visit_expr_mut(&mut c.body);
                            self.known.insert(p.ident.to_string(), c);
                            continue;
                        }
                    }
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
        self.known = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(k) = self.known.get(&show(&p.path)) {
                    let mut pre: Vec<Stmt> = vec![];
                    let mut post: Vec<Stmt> = vec![];
                    for (i, (p, a)) in k.inputs.iter().zip(c.args.iter()).enumerate() {
                        let h = format_ident!("kvc_{}", i);
                        pre.push(parse_quote!(let #h = #a;));
                        post.push(parse_quote!(let #p = #h;));
                    }
                    let body = &k.body;
                    *e = parse_quote!({ #(#pre)* #(#post)* #body });
                }
            }
        }
        // a named closure handed to an adapter
        if let Expr::MethodCall(m) = e {
            for a in m.args.iter_mut() {
                if let Expr::Path(p) = a {
                    if let Some(k) = self.known.get(&show(&p.path)) {
                        *a = Expr::Closure(k.clone());
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------------ iterators and loops
#[derive(Clone)]
enum Src {
    Iter(Expr),
    IterMut(Expr),
    Owned(Expr),
    Range(Expr, Expr, bool),
}
#[derive(Clone)]
enum Ad {
    Cloned,
    Enumerate,
    Rev,
    Skip(Expr),
    Map(ExprClosure),
    Filter(ExprClosure),
}
#[derive(Clone)]
enum Val {
    E(Expr),
    T(Vec<Val>),
}
impl Val {
    fn expr(&self) -> Expr {
        match self {
            Val::E(e) => e.clone(),
            Val::T(v) => {
                let v: Vec<Expr> = v.iter().map(|x| x.expr()).collect();
                parse_quote!((#(#v),*))
            }
        }
    }
}
fn closure(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c.clone()),
        // a function by name
        Expr::Path(p) => Some(parse_quote!(|kvx| #p(kvx))),
        _ => None,
    }
}
fn chain(e: &Expr) -> Option<(Src, Vec<Ad>)> {
    match e {
        Expr::Paren(p) => chain(&p.expr),
        Expr::Group(p) => chain(&p.expr),
        Expr::Range(r) => {
            let (a, b) = (r.start.as_ref()?, r.end.as_ref()?);
            Some((Src::Range((**a).clone(), (**b).clone(), matches!(r.limits, RangeLimits::Closed(_))), vec![]))
        }
        Expr::MethodCall(m) => {
            let name = m.method.to_string();
            let ad = match name.as_str() {
                "cloned" | "copied" => Some(Ad::Cloned),
                "enumerate" => Some(Ad::Enumerate),
                "rev" => Some(Ad::Rev),
                "skip" => Some(Ad::Skip(m.args[0].clone())),
                "map" => Some(Ad::Map(closure(&m.args[0])?)),
                "filter" => Some(Ad::Filter(closure(&m.args[0])?)),
                _ => None,
            };
            if let Some(ad) = ad {
                let (s, mut v) = chain(&m.receiver)?;
                v.push(ad);
                return Some((s, v));
            }
            let r = (*m.receiver).clone();
            match name.as_str() {
                "iter" => Some((Src::Iter(r), vec![])),
                "iter_mut" => Some((Src::IterMut(r), vec![])),
                "into_iter" => match chain(&r) {
                    Some(c) => Some(c),
                    None => Some((Src::Owned(r), vec![])),
                },
                _ => None,
            }
        }
        _ => None,
    }
}
fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        Expr::Paren(p) => is_place(&p.expr),
        Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => is_place(expr),
        _ => false,
    }
}

struct Lower {
    next: usize,
    shapes: Vec<String>,
    /// for loops over 0..e: e
    bounds: HashMap<usize, String>,
    refparams: HashSet<String>,
    failed: Vec<String>,
}
fn mark(k: &str, n: usize) -> Stmt {
    let s = format!("{} {}", k, n);
    parse_quote!(kv_mark!(#s);)
}

impl Lower {
    fn bind(&mut self, p: &Pat, v: &Val, refs: usize, out: &mut Vec<Stmt>) {
        match p {
            Pat::Wild(_) => {}
            Pat::Paren(q) => self.bind(&q.pat, v, refs, out),
            Pat::Type(q) => self.bind(&q.pat, v, refs, out),
            Pat::Tuple(q) => match v {
                Val::T(vs) if vs.len() == q.elems.len() => {
                    for (p, v) in q.elems.iter().zip(vs) {
                        self.bind(p, v, refs, out);
                    }
                }
                _ => {
                    let e = v.expr();
                    out.push(parse_quote!(let #p = #e;));
                }
            },
            Pat::Reference(q) => {
                if refs > 0 {
                    self.bind(&q.pat, v, refs - 1, out);
                } else {
                    let e = match v.expr() {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => parse_quote!(*#e),
                    };
                    self.bind(&q.pat, &Val::E(e), 0, out);
                }
            }
            _ => {
                let mut e = v.expr();
                for _ in 0..refs {
                    e = parse_quote!(&#e);
                }
                out.push(parse_quote!(let #p = #e;));
            }
        }
    }
    /// the loop running `body(value)` for every item; acc: statements before; tail: value after
    fn build(&mut self, src: Src, ads: Vec<Ad>, kind: &str, label: Option<Label>, pre: Vec<Stmt>, tail: Option<Expr>, body: &mut dyn FnMut(&mut Lower, usize, Val) -> Option<Vec<Stmt>>) -> Option<Expr> {
        let k = self.next;
        let (it, end, idx, srcn) = (format_ident!("it{}", k), format_ident!("end{}", k), format_ident!("idx{}", k), format_ident!("src{}", k));
        self.next += 1;
        self.shapes.push(String::new());
        let mut setup: Vec<Stmt> = vec![];
        let mut head: Vec<Stmt> = vec![];
        let mut ads: Vec<Ad> = ads;
        let rev = if matches!(ads.first(), Some(Ad::Rev)) { ads.remove(0); true } else if ads.len() > 1 && matches!(ads[0], Ad::Cloned) && matches!(ads[1], Ad::Rev) { ads.remove(1); true } else { false };
        let mut start: Expr = parse_quote!(0);
        if let Some(Ad::Skip(n)) = ads.iter().find(|a| matches!(a, Ad::Skip(_))).cloned() {
            let pos = ads.iter().position(|a| matches!(a, Ad::Skip(_))).unwrap();
            if rev || ads[..pos].iter().any(|a| matches!(a, Ad::Filter(_))) || ads[pos..].iter().any(|a| matches!(a, Ad::Enumerate)) {
                return None;
            }
            ads.remove(pos);
            start = n;
        }
        let (cond, cur): (Expr, Expr);
        let shape;
        match &src {
            Src::Range(a, b, closed) => {
                shape = "range";
                if !*closed && !rev && show(a) == "0" && (is_place(b) || matches!(b, Expr::MethodCall(m) if m.method == "len" && is_place(&m.receiver))) {
                    let mut t = String::new();
                    print_tokens(quote!(#b), &mut t);
                    self.bounds.insert(k, t);
                }
                let b: Expr = if *closed { parse_quote!((#b) + 1) } else { b.clone() };
                if rev {
                    setup.push(parse_quote!(let #end = #a;));
                    setup.push(parse_quote!(let mut #it = #b;));
                    cond = parse_quote!(#it > #end);
                } else {
                    setup.push(parse_quote!(let mut #it = #a;));
                    setup.push(parse_quote!(let #end = #b;));
                    cond = parse_quote!(#it < #end);
                }
                if rev {
                    head.push(parse_quote!(#it = #it - 1;));
                    head.push(parse_quote!(let #idx = #it;));
                } else {
                    head.push(parse_quote!(let #idx = #it;));
                    head.push(parse_quote!(#it = #it + 1;));
                }
                cur = parse_quote!(#idx);
            }
            Src::Iter(s) | Src::IterMut(s) | Src::Owned(s) => {
                shape = match src { Src::Iter(_) => "iter", Src::IterMut(_) => "itermut", _ => "owned" };
                let place: Expr = if is_place(s) {
                    s.clone()
                } else {
                    let mut s2 = s.clone();
                    self.visit_expr_mut(&mut s2);
                    setup.push(parse_quote!(let #srcn = #s2;));
                    parse_quote!(#srcn)
                };
                setup.push(parse_quote!(let mut #it: usize = #start;));
                cond = parse_quote!(#it < #place.len());
                if rev {
                    head.push(parse_quote!(let #idx = #place.len() - 1 - #it;));
                } else {
                    head.push(parse_quote!(let #idx = #it;));
                }
                head.push(parse_quote!(#it = #it + 1;));
                cur = match src {
                    Src::Iter(_) => parse_quote!(&#place[#idx]),
                    Src::IterMut(_) => parse_quote!(&mut #place[#idx]),
                    _ => parse_quote!(#place[#idx]),
                };
            }
        }
        let mut val = Val::E(cur);
        let mut stmts: Vec<Stmt> = head;
        let mut conds: Vec<(usize, Expr)> = vec![];
        let mut segs: Vec<Vec<Stmt>> = vec![];
        let mut filtered = false;
        for (n, a) in ads.iter().enumerate() {
            match a {
                Ad::Cloned => {
                    val = Val::E(match val.expr() {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => parse_quote!((*#e)),
                    })
                }
                Ad::Enumerate => {
                    if filtered {
                        return None;
                    }
                    let i: Expr = if rev {
                        match &src { Src::Range(..) => return None, _ => parse_quote!((#it - 1)) }
                    } else {
                        match &src { Src::Range(a, _, _) if show(a) != "0" => return None, _ => parse_quote!(#idx) }
                    };
                    val = Val::T(vec![Val::E(i), val]);
                }
                Ad::Map(c) => {
                    let p = c.inputs.first()?.clone();
                    self.bind(&p, &val, 0, &mut stmts);
                    let b = &c.body;
                    let m = format_ident!("map{}_{}", k, n);
                    stmts.push(parse_quote!(let #m = #b;));
                    val = Val::E(parse_quote!(#m));
                }
                Ad::Filter(c) => {
                    filtered = true;
                    let p = c.inputs.first()?.clone();
                    self.bind(&p, &val, 1, &mut stmts);
                    segs.push(std::mem::take(&mut stmts));
                    conds.push((n, (*c.body).clone()));
                }
                Ad::Rev | Ad::Skip(_) => return None,
            }
        }
        let mut inner = stmts;
        inner.extend(body(self, k, val)?);
        while let Some((_, c)) = conds.pop() {
            let mut outer = segs.pop().unwrap();
            outer.push(Stmt::Expr(parse_quote!(if #c { #(#inner)* }), None));
            inner = outer;
        }
        self.shapes[k] = format!("{}:{}", kind, shape);
        let (mb, ma, mi, ms, me) = (mark("before loop", k), mark("after loop", k), mark("inv", k), mark("start loop", k), mark("end loop", k));
        let w: Expr = parse_quote!(while #cond { #mi #ms #(#inner)* #me });
        let mut w = w;
        if let (Some(l), Expr::While(x)) = (label, &mut w) {
            x.label = Some(l);
        }
        // nested loops and pipelines
        let mut blk: Block = match tail {
            Some(t) => parse_quote!({ #(#pre)* #(#setup)* #mb #w #ma #t }),
            None => parse_quote!({ #(#pre)* #(#setup)* #mb #w #ma }),
        };
        visit_mut::visit_block_mut(self, &mut blk);
        Some(parse_quote!(#blk))
    }
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let (src, ads) = chain(&m.receiver)?;
        let name = m.method.to_string();
        let k = self.next;
        let acc = format_ident!("acc{}", k);
        let saved = (self.next, self.shapes.clone());
        let arg = m.args.first().and_then(closure);
        let r = match name.as_str() {
            "count" => self.build(src, ads, "count", None, vec![parse_quote!(let mut #acc: usize = 0;)], Some(parse_quote!(#acc)), &mut |_, _, _| Some(vec![parse_quote!(#acc = #acc + 1;)])),
            "all" | "any" => {
                let c = arg?;
                let all = name == "all";
                let init: Expr = if all { parse_quote!(true) } else { parse_quote!(false) };
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc = #init;)], Some(parse_quote!(#acc)), &mut |s, _, v| {
                    let mut o = vec![];
                    s.bind(c.inputs.first()?, &v, 0, &mut o);
                    let b = &c.body;
                    o.push(if all { parse_quote!(if !(#b) { #acc = false; break; }) } else { parse_quote!(if #b { #acc = true; break; }) });
                    Some(o)
                })
            }
            "position" => {
                let c = arg?;
                if ads.iter().any(|a| matches!(a, Ad::Filter(_) | Ad::Rev | Ad::Skip(_))) || matches!(src, Src::Range(..)) {
                    return None;
                }
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc: Option<usize> = None;)], Some(parse_quote!(#acc)), &mut |s, k, v| {
                    let mut o = vec![];
                    let idx = format_ident!("idx{}", k);
                    s.bind(c.inputs.first()?, &v, 0, &mut o);
                    let b = &c.body;
                    o.push(parse_quote!(if #b { #acc = Some(#idx); break; }));
                    Some(o)
                })
            }
            "find" => {
                let c = arg?;
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc = None;)], Some(parse_quote!(#acc)), &mut |s, _, v| {
                    let mut o = vec![];
                    s.bind(c.inputs.first()?, &v, 1, &mut o);
                    let (b, e) = (&c.body, v.expr());
                    o.push(parse_quote!(if #b { #acc = Some(#e); break; }));
                    Some(o)
                })
            }
            "min" | "max" => {
                let min = name == "min";
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc = None;)], Some(parse_quote!(#acc)), &mut |_, _, v| {
                    let e = v.expr();
                    let better: Expr = if min { parse_quote!(kvv < kvm) } else { parse_quote!(kvv >= kvm) };
                    Some(vec![parse_quote!(let kvv = #e;), parse_quote!(#acc = match #acc { None => Some(kvv), Some(kvm) => if #better { Some(kvv) } else { Some(kvm) } };)])
                })
            }
            "sum" => {
                let t = m.turbofish.as_ref().map(|t| show(&t.args)).unwrap_or_default();
                let zero: Expr = match t.as_str() {
                    "V2" => parse_quote!(V2::zeros()),
                    "usize" => parse_quote!(0usize),
                    _ => parse_quote!(kv_lit(0, 1)),
                };
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc = #zero;)], Some(parse_quote!(#acc)), &mut |_, _, v| {
                    let e = match v.expr() {
                        Expr::Reference(r) => (*r.expr).clone(),
                        e => e,
                    };
                    Some(vec![parse_quote!(#acc = #acc + #e;)])
                })
            }
            "product" => self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc: usize = 1;)], Some(parse_quote!(#acc)), &mut |_, _, v| {
                let e = v.expr();
                Some(vec![parse_quote!(#acc = #acc * #e;)])
            }),
            "fold" => {
                let init = m.args.first()?.clone();
                let c = closure(m.args.iter().nth(1)?)?;
                self.build(src, ads, &name, None, vec![parse_quote!(let mut #acc = #init;)], Some(parse_quote!(#acc)), &mut |s, _, v| {
                    let mut o = vec![];
                    s.bind(c.inputs.iter().next()?, &Val::E(parse_quote!(#acc)), 0, &mut o);
                    s.bind(c.inputs.iter().nth(1)?, &v, 0, &mut o);
                    let b = &c.body;
                    o.push(parse_quote!(#acc = #b;));
                    Some(o)
                })
            }
            "for_each" => {
                let c = arg?;
                self.build(src, ads, "for", None, vec![], None, &mut |s, _, v| {
                    let mut o = vec![];
                    s.bind(c.inputs.first()?, &v, 0, &mut o);
                    let b = &c.body;
                    o.push(parse_quote!(#b;));
                    Some(o)
                })
            }
            "collect" => {
                let t = m.turbofish.as_ref().map(|t| show(&t.args)).unwrap_or_default();
                if !(t.is_empty() || t.starts_with("Vec")) {
                    return None;
                }
                let init: Stmt = if t.is_empty() || t.contains('_') { parse_quote!(let mut #acc = Vec::new();) } else { let ty = &m.turbofish.as_ref().unwrap().args; parse_quote!(let mut #acc: #ty = Vec::new();) };
                self.build(src, ads, "collect", None, vec![init], Some(parse_quote!(#acc)), &mut |_, _, v| {
                    let e = v.expr();
                    Some(vec![parse_quote!(#acc.push(#e);)])
                })
            }
            _ => None,
        };
        if r.is_none() {
            self.next = saved.0;
            self.shapes = saved.1;
        }
        r
    }
}
impl VisitMut for Lower {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let new = match e {
            Expr::ForLoop(f) => {
                let c = chain(&f.expr).or_else(|| match &*f.expr {
                    Expr::Reference(r) if r.mutability.is_some() => Some((Src::IterMut((*r.expr).clone()), vec![])),
                    Expr::Reference(r) => Some((Src::Iter((*r.expr).clone()), vec![])),
                    x if is_place(x) && self.refparams.contains(&show(x)) => Some((Src::Iter(x.clone()), vec![])),
                    x => Some((Src::Owned(x.clone()), vec![])),
                });
                c.and_then(|(s, a)| {
                    let (pat, body) = ((*f.pat).clone(), f.body.stmts.clone());
                    let r = self.build(s, a, "for", f.label.clone(), vec![], None, &mut |l, _, v| {
                        let mut o = vec![];
                        l.bind(&pat, &v, 0, &mut o);
                        o.extend(body.clone());
                        // a body ending in an expression of type ()
                        settle(&mut o);
                        Some(o)
                    });
                    if r.is_none() {
                        self.failed.push(format!("for loop over {}", show(&f.expr)));
                    }
                    r
                })
            }
            Expr::While(w) if w.body.stmts.first().map_or(false, |s| show(s).starts_with("kv_mark")) => {
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::While(w) => {
                let k = self.next;
                self.next += 1;
                self.shapes.push("while".into());
                let (mi, ms, me) = (mark("inv", k), mark("start loop", k), mark("end loop", k));
                let mut s = vec![mi, ms];
                s.extend(std::mem::take(&mut w.body.stmts));
                settle(&mut s);
                s.push(me);
                w.body.stmts = s;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Loop(w) => {
                let k = self.next;
                self.next += 1;
                self.shapes.push("loop".into());
                let (mi, ms, me) = (mark("inv", k), mark("start loop", k), mark("end loop", k));
                let mut s = vec![mi, ms];
                s.extend(std::mem::take(&mut w.body.stmts));
                settle(&mut s);
                s.push(me);
                w.body.stmts = s;
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m) => match self.terminal(m) {
                Some(x) => Some(x),
                None => {
                    // Option::map and friends
                    let (r, n) = (&m.receiver, m.method.to_string());
                    let c = m.args.iter().last().and_then(|a| if let Expr::Closure(c) = a { Some(c.clone()) } else { None });
                    match (n.as_str(), c) {
                        ("map", Some(c)) if m.args.len() == 1 => { let (p, b) = (&c.inputs[0], &c.body); Some(parse_quote!(match #r { Some(#p) => Some(#b), None => None })) }
                        ("map_or", Some(c)) => { let (p, b, d) = (&c.inputs[0], &c.body, &m.args[0]); Some(parse_quote!(match #r { Some(#p) => #b, None => #d })) }
                        ("unwrap_or_else", Some(c)) if c.inputs.is_empty() => { let b = &c.body; Some(parse_quote!(match #r { Some(kvx) => kvx, None => #b })) }
                        _ => None,
                    }
                    .map(|mut x: Expr| {
                        visit_mut::visit_expr_mut(self, &mut x);
                        x
                    })
                }
            },
            _ => None,
        };
        match new {
            Some(n) => *e = n,
            None => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// ------------------------------------------------------------------ anchors inside a lowered body
struct Anchors<'a> {
    want: &'a BTreeMap<String, Vec<String>>,
    calls: HashMap<String, usize>,
    rets: usize,
    breaks: usize,
    hit: HashSet<String>,
}
struct Calls(Vec<String>);
impl<'a> Visit<'a> for Calls {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        if let Expr::Path(p) = &*c.func {
            self.0.push(leaf(&p.path));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'a ExprMethodCall) {
        self.0.push(c.method.to_string());
        visit::visit_expr_method_call(self, c);
    }
}
impl<'a> Anchors<'a> {
    fn key(&mut self, k: &str) -> Option<Stmt> {
        if self.want.contains_key(k) {
            self.hit.insert(k.to_string());
            let k = k.to_string();
            return Some(parse_quote!(kv_mark!(#k);));
        }
        None
    }
}
fn pat_names(p: &Pat, o: &mut Vec<String>) {
    struct V<'b>(&'b mut Vec<String>);
    impl<'a, 'b> Visit<'a> for V<'b> {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase()) {
                self.0.push(n)
            }
        }
    }
    V(o).visit_pat(p);
}
impl<'a> VisitMut for Anchors<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut c = Calls(vec![]);
            c.visit_stmt(&s);
            let names = c.0;
            let mut after = vec![];
            for n in names {
                let k = self.calls.entry(n.clone()).or_insert(0);
                let i = *k;
                *k += 1;
                if let Some(m) = self.key(&format!("before call {} {}", n, i)) {
                    out.push(m);
                }
                if let Some(m) = self.key(&format!("after call {} {}", n, i)) {
                    after.push(m);
                }
            }
            if let Stmt::Local(l) = &s {
                let mut v = vec![];
                pat_names(&l.pat, &mut v);
                for n in v {
                    if let Some(m) = self.key(&format!("after let {}", n)) {
                        after.push(m);
                    }
                }
            }
            if let Stmt::Expr(Expr::Break(_), _) = &s {
                let k = format!("before break {}", self.breaks);
                self.breaks += 1;
                if let Some(m) = self.key(&k) {
                    out.push(m);
                }
            }
            if let Stmt::Expr(Expr::Return(r), _) = &mut s {
                let k = format!("return {}", self.rets);
                self.rets += 1;
                if let (Some(m), Some(e)) = (self.key(&k), &r.expr) {
                    let mut e = e.clone();
                    self.visit_expr_mut(&mut e);
                    out.push(parse_quote!(let kvr = #e;));
                    out.push(m);
                    out.push(parse_quote!(return kvr;));
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            out.extend(after);
        }
        b.stmts = out;
    }
}

// ------------------------------------------------------------------ a function
fn locals(sig: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            let n = p.ident.to_string();
            if n.starts_with(|c: char| c.is_lowercase() || c == '_') && !n.starts_with("kv") {
                self.0.push(n)
            }
        }
    }
    let mut v = V(vec![]);
    for i in sig.inputs.iter() {
        v.visit_fn_arg(i);
    }
    v.visit_block(b);
    v.0
}
fn rename(text: &str, map: &HashMap<String, String>) -> String {
    let mut o = String::new();
    let mut w = String::new();
    let mut prev = ' ';
    for c in text.chars().chain(std::iter::once('\0')) {
        if c.is_alphanumeric() || c == '_' {
            if w.is_empty() {
                prev = o.chars().last().unwrap_or(' ');
            }
            w.push(c);
        } else {
            if !w.is_empty() {
                match map.get(&w) {
                    // (a field access keeps its name)
                    Some(n) if prev != '.' || o.ends_with("..") => o.push_str(n),
                    _ => o.push_str(&w),
                }
                w.clear();
            }
            if c != '\0' {
                o.push(c);
            }
        }
    }
    o
}

pub struct Out {
    pub text: String,
    pub notes: Vec<String>,
    /// functions taken on trust of their contract (their body is not within the verifier's reach)
    pub stubs: Vec<String>,
    /// which of the annotations that fit to use, and functions verified without loop isolation
    pub variant: HashMap<String, usize>,
    pub iso: HashSet<String>,
    /// functions whose `continue` gets the ghost code of the end of its loop
    pub cont: HashSet<String>,
    /// functions verified with the solver's nonlinear arithmetic
    pub nl: HashSet<String>,
}
impl Out {
    pub fn line(&mut self, l: &str, tag: &str) {
        self.text.push_str(&format!("{} //~ {}\n", l, tag));
    }
}

/// loops of the code that the annotations for a loop can serve
fn serves(ann: &str, code: &str) -> bool {
    ann == code || ann.split_once(':').map_or(false, |(k, s)| s != "range" && code == format!("{}:range", k))
}
/// (annotations, loop of the code -> loop of the annotations, same shapes)
fn fitting(ovs: &[FnOv], shapes: &[String]) -> Vec<(usize, Vec<usize>, bool)> {
    let mut r: Vec<(usize, Vec<usize>, bool)> = vec![];
    let id: Vec<usize> = (0..shapes.len()).collect();
    for (i, o) in ovs.iter().enumerate() {
        if o.loops == shapes {
            r.push((i, id.clone(), true));
        }
    }
    for (i, o) in ovs.iter().enumerate() {
        if o.loops != shapes && o.loops.len() == shapes.len() {
            let mut used = vec![false; shapes.len()];
            let mut s = vec![];
            for exact in [true, false] {
                used.iter_mut().for_each(|u| *u = false);
                s.clear();
                for c in shapes {
                    if let Some(j) = (0..shapes.len()).find(|j| !used[*j] && if exact { o.loops[*j] == *c } else { serves(&o.loops[*j], c) }) {
                        used[j] = true;
                        s.push(j);
                    }
                }
                if s.len() == shapes.len() {
                    break;
                }
            }
            if s.len() == shapes.len() {
                r.push((i, s, false));
            }
        }
    }
    for (i, s, e) in r.clone() {
        for a in 0..s.len() {
            for b in a + 1..s.len() {
                if shapes[a] == shapes[b] && r.len() < 12 {
                    let mut t = s.clone();
                    t.swap(a, b);
                    r.push((i, t, e));
                }
            }
        }
    }
    r
}

fn emit_fn(out: &mut Out, mut sig: Signature, mut block: Block, ovs: &[FnOv], full: &str, helpers: &HashMap<String, (Signature, Block)>) {
    let mut inl = Inline { helpers, depth: 0, n: 0, left: vec![] };
    Closures { known: HashMap::new() }.visit_block_mut(&mut block);
    inl.visit_block_mut(&mut block);
    Closures { known: HashMap::new() }.visit_block_mut(&mut block);
    let names = locals(&sig, &block);
    let mut small = Small { maps: true };
    small.visit_signature_mut(&mut sig);
    small.visit_block_mut(&mut block);
    let refparams = sig.inputs.iter().filter_map(|a| match a { FnArg::Typed(t) if matches!(&*t.ty, Type::Reference(_)) => Some(show(&t.pat)), _ => None }).collect();
    let mut lo = Lower { next: 0, shapes: vec![], bounds: HashMap::new(), refparams, failed: vec![] };
    lo.visit_block_mut(&mut block);
    for f in lo.failed.iter().chain(inl.left.iter()) {
        out.notes.push(format!("{}: not lowered: {}", full, f));
    }
    // the annotations that fit the loops
    let fit = fitting(ovs, &lo.shapes);
    let (o, sigma, exact) = match fit.get(out.variant.get(full).cloned().unwrap_or(0) % fit.len().max(1)) {
        Some((i, s, e)) => (ovs[*i].clone(), s.clone(), *e),
        None => (ovs.first().cloned().unwrap_or_default(), (0..lo.shapes.len()).collect(), false),
    };
    let o = &o;
    if o.alt {
        out.notes.push(format!("{}: annotations for another shape of the body", full));
    }
    if !ovs.is_empty() && !exact {
        out.notes.push(format!("{}: loops are [{}], contract is for [{}]", full, lo.shapes.join(" "), o.loops.join(" ")));
    }
    let mut map = HashMap::new();
    if !o.locals.is_empty() && o.locals != names {
        let minus = |a: &Vec<String>, b: &Vec<String>| {
            let mut b = b.clone();
            let mut r = vec![];
            for x in a {
                match b.iter().position(|y| y == x) {
                    Some(i) => { b.remove(i); }
                    None => r.push(x.clone()),
                }
            }
            r
        };
        let (gone, new) = (minus(&o.locals, &names), minus(&names, &o.locals));
        if gone.len() == new.len() {
            for (a, b) in gone.iter().zip(&new) {
                map.insert(a.clone(), b.clone());
            }
        } else if gone.is_empty() {
            out.notes.push(format!("@info {}: locals added: {}", full, new.join(" ")));
        } else {
            out.notes.push(format!("{}: locals changed: {}", full, names.join(" ")));
        }
    }
    // loop k of the code is loop sigma[k] of the annotations
    let back = |c: usize| sigma.iter().position(|x| *x == c).unwrap_or(c);
    for (k, c) in sigma.iter().enumerate() {
        if k != *c {
            for p in ["it", "end", "idx", "acc", "src"] {
                map.insert(format!("{}{}", p, c), format!("{}{}", p, k));
            }
        }
    }
    let renum = |k: &String| -> String {
        let w: Vec<&str> = k.split(' ').collect();
        if w.len() == 3 && w[1] == "loop" || w.len() == 2 && w[0] == "inv" {
            if let Ok(n) = w[w.len() - 1].parse::<usize>() {
                return format!("{} {}", w[..w.len() - 1].join(" "), back(n));
            }
        }
        k.clone()
    };
    // anchors
    let want: BTreeMap<String, Vec<String>> = o.at.iter().map(|(k, v)| {
        let k = renum(k);
        (k.split(' ').map(|w| map.get(w).cloned().unwrap_or(w.to_string())).collect::<Vec<_>>().join(" "), v.clone())
    }).collect();
    // a loop over 0..n where the contract has one over the elements
    let mut want = want;
    for (k, e) in &lo.bounds {
        if !exact || o.loops.get(sigma[*k]) != Some(&lo.shapes[*k]) {
            if let Some(v) = want.get_mut(&format!("inv {}", k)) {
                if let Some(l) = v.iter_mut().find(|l| l.starts_with("invariant ")) {
                    *l = format!("invariant it{} <= end{}, end{} == {}, {}", k, k, k, e, &l[10..]);
                }
            }
        }
    }
    let mut an = Anchors { want: &want, calls: HashMap::new(), rets: 0, breaks: 0, hit: HashSet::new() };
    an.visit_block_mut(&mut block);
    let hit = an.hit;
    if want.contains_key("tail") {
        let m: Stmt = parse_quote!(kv_mark!("tail"););
        match block.stmts.last().cloned() {
            Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                block.stmts.pop();
                block.stmts.push(parse_quote!(let kvr = #e;));
                block.stmts.push(m);
                block.stmts.push(Stmt::Expr(parse_quote!(kvr), None));
            }
            _ => {
                settle(&mut block.stmts);
                block.stmts.push(m);
            }
        }
    }
    for k in want.keys() {
        let l = k.starts_with("before loop") || k.starts_with("after loop") || k.starts_with("start loop") || k.starts_with("end loop") || k.starts_with("inv ") || k == "begin" || k == "tail";
        let ok = if l { k == "begin" || k == "tail" || k.split(' ').last().and_then(|n| n.parse::<usize>().ok()).map_or(false, |n| n < lo.shapes.len()) } else { hit.contains(k) };
        if !ok {
            out.notes.push(format!("{}: anchor `{}` not found", full, k));
        }
    }
    let stub = out.stubs.iter().any(|s| s == full);
    if stub {
        out.line("#[verifier::external_body]", &format!("{} attr", full));
    }
    // signature
    let ret = match &sig.output {
        ReturnType::Default => None,
        ReturnType::Type(_, t) => Some((**t).clone()),
    };
    let mut s2 = sig.clone();
    s2.output = ReturnType::Default;
    let wh = s2.generics.where_clause.take();
    let mut head = String::new();
    print_tokens(quote!(#s2), &mut head);
    let head = head.replace('\n', " ");
    if (0..lo.shapes.len()).any(|k| !want.contains_key(&format!("inv {}", k))) && !o.attrs.iter().any(|a| a.contains("no_decreases")) {
        out.line("#[verifier::exec_allows_no_decreases_clause]", &format!("{} attr", full));
    }
    for a in &o.attrs {
        out.line(a, &format!("{} attr", full));
    }
    if out.iso.contains(full) && !o.attrs.iter().any(|a| a.contains("loop_isolation")) {
        out.line("#[verifier::loop_isolation(false)]", &format!("{} attr", full));
        out.line("#[verifier::allow_complex_invariants]", &format!("{} attr", full));
    }
    if out.nl.contains(full) {
        out.line("#[verifier::nonlinear]", &format!("{} attr", full));
    }
    out.line(&format!("pub {}", head), &format!("{} sig", full));
    if let Some(t) = ret {
        let mut ts = String::new();
        print_tokens(quote!(#t), &mut ts);
        out.line(&format!("-> ({}: {})", if o.ret.is_empty() { "r" } else { &o.ret }, ts.replace('\n', " ")), &format!("{} sig", full));
    }
    if let Some(w) = wh {
        let mut ts = String::new();
        print_tokens(quote!(#w), &mut ts);
        out.line(&ts.replace('\n', " "), &format!("{} sig", full));
    }
    for l in &o.spec {
        out.line(&rename(l, &map), &format!("{} spec", full));
    }
    if stub {
        out.line("{ unimplemented!() }", &format!("{} stub", full));
        return;
    }
    let mut body = String::new();
    print_tokens(quote!(#block), &mut body);
    let lines: Vec<&str> = body.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
    let mut i = 0;
    let mut first = true;
    // the loops around the current line and the depth of their bodies
    let (mut depth, mut around, mut conts): (i32, Vec<(String, i32)>, usize) = (0, vec![], 0);
    let put = |out: &mut Out, k: &str| {
        if let Some(v) = want.get(k) {
            for l in v {
                out.line(&rename(l, &map), &format!("{} ghost {}", full, k));
            }
        }
    };
    while i < lines.len() {
        let l = lines[i];
        let key = |s: &str| -> Option<String> { s.strip_prefix("kv_mark !").map(|r| r.trim().trim_start_matches('(').trim_end_matches(';').trim().trim_end_matches(')').trim().trim_matches('"').to_string()) };
        if let Some(k) = key(l) {
            put(out, &k);
            if let Some(k) = k.strip_prefix("start loop ") {
                around.push((format!("end loop {}", k), depth));
            }
            i += 1;
            continue;
        }
        depth += l.matches('{').count() as i32 - l.matches('}').count() as i32;
        while around.last().map_or(false, |a| depth < a.1) {
            around.pop();
        }
        if l == "continue ;" {
            conts += 1;
            if let (true, Some((k, _))) = (out.cont.contains(full), around.last()) {
                put(out, k);
            }
        }
        if l.ends_with('{') && i + 1 < lines.len() {
            if let Some(k) = key(lines[i + 1]) {
                if k.starts_with("inv ") {
                    out.line(l[..l.len() - 1].trim(), &format!("{} src", full));
                    put(out, &k);
                    out.line("{", &format!("{} src", full));
                    i += 2;
                    continue;
                }
            }
        }
        out.line(l, &format!("{} src", full));
        if first {
            put(out, "begin");
            first = false;
        }
        i += 1;
    }
    out.text.push('\n');
    if !ovs.is_empty() {
        out.notes.push(format!("@fn {} variants={} conts={} loops={} locals={}", full, fit.len(), conts, lo.shapes.join(" "), names.join(" ")));
    }
}

// ------------------------------------------------------------------ files
fn no_string(t: &Type) -> bool { !show(t).contains("String") }

pub fn run(repo: &str, overlay: &str, outp: &str, stubs: &[String]) {
    let mut ov = Ov::default();
    parse_ov(overlay, &mut ov);
    let opt = |p: &str| stubs.iter().filter_map(|s| s.strip_prefix(p).map(String::from)).collect::<Vec<_>>();
    let variant = opt("variant:").iter().filter_map(|s| s.split_once(':').and_then(|(k, f)| k.parse().ok().map(|k| (f.to_string(), k)))).collect();
    let iso = opt("iso:").into_iter().collect();
    let cont = opt("cont:").into_iter().collect();
    let nl = opt("nl:").into_iter().collect();
    let mut out = Out { stubs: stubs.to_vec(), variant, iso, cont, nl, text: String::from("// generated by kvx ver\n#![allow(warnings)]\n"), notes: vec![] };
    for l in &ov.prelude {
        out.line(l, "prelude");
    }
    out.text.push_str("verus! {\n");
    let mut byname: HashMap<String, Vec<FnOv>> = HashMap::new();
    for f in &ov.fns {
        byname.entry(f.name.clone()).or_default().push(f.clone());
    }
    // helpers: functions without a contract, from all files
    let mut helpers: HashMap<String, (Signature, Block)> = HashMap::new();
    let mut parsed = vec![];
    for (f, only) in &ov.files {
        let mut file = parse_file(&std::fs::read_to_string(format!("{}/{}", repo, f)).unwrap_or_default()).expect("parse");
        file.items.retain(|i| !matches!(i, Item::Mod(m) if is_test(&m.attrs)) && !matches!(i, Item::Fn(m) if is_test(&m.attrs)));
        for i in &file.items {
            match i {
                Item::Fn(g) if !byname.contains_key(&g.sig.ident.to_string()) => {
                    helpers.insert(g.sig.ident.to_string(), (g.sig.clone(), (*g.block).clone()));
                }
                Item::Impl(im) if im.trait_.is_none() => {
                    let ty = match &*im.self_ty { Type::Path(p) => leaf(&p.path), _ => String::new() };
                    for x in &im.items {
                        if let ImplItem::Fn(g) = x {
                            let full = format!("{}::{}", ty, g.sig.ident);
                            if !byname.contains_key(&full) && !ov.skip.contains(&full) {
                                helpers.insert(g.sig.ident.to_string(), (g.sig.clone(), g.block.clone()));
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        parsed.push((file, only.clone()));
    }
    // an associated function keeps its name `new`, several types have one: those with a contract win
    let with: HashSet<String> = byname.keys().map(|k| k.rsplit("::").next().unwrap().to_string()).collect();
    helpers.retain(|k, _| !with.contains(k));
    let mut seen = HashSet::new();
    for (file, only) in parsed {
        for i in file.items {
            match i {
                Item::Const(mut c) => {
                    if only.is_some() {
                        continue;
                    }
                    if let Type::Reference(r) = &mut *c.ty {
                        r.lifetime = Some(parse_quote!('static));
                    }
                    if is_float_ty(&c.ty) || show(&c.ty).contains("f32") {
                        let (n, mut e) = (c.ident.clone(), (*c.expr).clone());
                        Small { maps: true }.visit_expr_mut(&mut e);
                        out.notes.push(format!("{}: float constant {} not supported", n, show(&e)));
                        continue;
                    }
                    c.attrs.clear();
                    let mut s = String::new();
                    print_tokens(quote!(#c), &mut s);
                    out.line(&s.replace('\n', " "), "const src");
                }
                Item::Type(t) if only.is_none() => {
                    let mut s = String::new();
                    print_tokens(quote!(#t), &mut s);
                    out.line(&s.replace('\n', " "), "type src");
                }
                Item::Enum(mut e) if only.is_none() => {
                    e.attrs.clear();
                    e.vis = parse_quote!(pub);
                    let mut s = String::new();
                    print_tokens(quote!(#e), &mut s);
                    out.line("#[derive(Debug)]", "enum src");
                    out.line(&s.replace('\n', " "), "enum src");
                }
                Item::Struct(mut st) if only.is_none() => {
                    let derives = st.attrs.iter().map(|a| show(a)).collect::<String>();
                    st.attrs.clear();
                    st.vis = parse_quote!(pub);
                    let mut has_vec = vec![];
                    if let Fields::Named(f) = &mut st.fields {
                        let keep: Vec<Field> = f.named.iter().filter(|x| no_string(&x.ty)).cloned().collect();
                        f.named = keep.into_iter().map(|mut x| { x.vis = parse_quote!(pub); x.attrs.clear(); x }).collect();
                        for x in f.named.iter() {
                            if show(&x.ty).starts_with("Vec<") {
                                has_vec.push(x.ident.clone().unwrap());
                            }
                        }
                    }
                    Small { maps: true }.visit_item_struct_mut(&mut st);
                    let mut s = String::new();
                    print_tokens(quote!(#st), &mut s);
                    if has_vec.is_empty() && derives.contains("Clone") {
                        out.line("#[derive(Clone, Copy)]", "struct src");
                    }
                    out.line(&s.replace('\n', " "), "struct src");
                    if !has_vec.is_empty() && derives.contains("Clone") && st.generics.params.is_empty() {
                        let n = &st.ident;
                        let e: Vec<String> = has_vec.iter().map(|f| format!("r.{}@ == self.{}@", f, f)).collect();
                        out.line(&format!("impl Clone for {} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures {} {{ unimplemented!() }} }}", n, e.join(", ")), "derived Clone (assumed)");
                    }
                }
                Item::Fn(g) => {
                    let n = g.sig.ident.to_string();
                    if let Some(o) = byname.get(&n) {
                        if !o[0].external && only.as_ref().map_or(true, |v| v.contains(&n)) {
                            seen.insert(n.clone());
                            emit_fn(&mut out, g.sig.clone(), (*g.block).clone(), o, &n, &helpers);
                        }
                    }
                }
                Item::Impl(im) if im.trait_.is_none() && only.is_none() => {
                    let ty = match &*im.self_ty { Type::Path(p) => leaf(&p.path), _ => String::new() };
                    let (g, st, wh) = (&im.generics, &im.self_ty, &im.generics.where_clause);
                    let mut s = String::new();
                    print_tokens(quote!(impl #g #st #wh), &mut s);
                    let mut any = false;
                    for x in &im.items {
                        if let ImplItem::Fn(g) = x {
                            let full = format!("{}::{}", ty, g.sig.ident);
                            if let Some(o) = byname.get(&full) {
                                if o[0].external {
                                    continue;
                                }
                                if !any {
                                    out.line(&format!("{} {{", s.replace('\n', " ")), "impl src");
                                    any = true;
                                }
                                seen.insert(full.clone());
                                emit_fn(&mut out, g.sig.clone(), g.block.clone(), o, &full, &helpers);
                            }
                        }
                    }
                    if any {
                        out.line("}", "impl src");
                    }
                }
                _ => {}
            }
        }
    }
    for f in &ov.fns {
        if f.external {
            for l in &f.spec {
                out.line(l, &format!("{} extern", f.name));
            }
        } else if !seen.contains(&f.name) {
            out.notes.push(format!("{}: function not found", f.name));
        }
    }
    out.text.push_str("fn main() {}\n}\n");
    std::fs::write(outp, &out.text).unwrap();
    let loops: Vec<String> = out.notes;
    for n in loops {
        println!("{}", n);
    }
}
