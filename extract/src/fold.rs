//! Extraction of the FOLD reader and writer into Verus: the compiler's own expansion of the serde derives
//! (`-Zunpretty=expanded`), and impl Fold.
//!
//! `kvx fold EXPANDED OVERLAY OUT [STUB..]`.  What is done to the text:
//!  * string literals (object keys) become numbers, equal exactly for equal strings
//!  * generic parameters of the serde traits are replaced by the one type the contracts speak of
//!  * `while let` becomes `loop` + `match`, `?` becomes `match`; printing is dropped
//!  * only reading from a JSON object is kept (visit_map and visit_str, not visit_seq, visit_u64, visit_bytes)
use crate::geo::is_print;
use crate::ver::{print_tokens, show, Out};
use quote::quote;
use std::collections::HashMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Row { f: String, k: String, t: String }
#[derive(Default, Clone)]
struct Sec { name: String, spec: Vec<String>, at: HashMap<String, Vec<String>> }

struct Conv { value: &'static str }
fn camel(s: &str) -> bool { s.trim_start_matches('_').chars().next().map_or(false, |c| c.is_uppercase()) }
impl VisitMut for Conv {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = show(t);
        let v = self.value;
        *t = match s.as_str() {
            "__A::Error" | "__S::Error" | "__D::Error" | "__E" => parse_quote!(SerdeError),
            "__S::Ok" => parse_quote!(Written),
            "Self::Value" => parse_str(v).unwrap(),
            "__S" => parse_quote!(Ser),
            "__A" => parse_quote!(MapOf),
            "String" => parse_quote!(Text),
            "&str" => parse_quote!(Key),
            "std::io::Error" | "io::Error" => parse_quote!(IoError),
            _ => return,
        };
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let seg: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let n = seg.len();
        let last = p.segments.last().cloned().unwrap();
        if n == 1 {
            return;
        }
        let outer = ["_serde", "std", "core", "alloc", "serde", "serde_json", "fs", "io"].contains(&seg[0].as_str());
        if n == 2 && seg[0] == "String" {
            p.segments[0].ident = parse_quote!(Text);
            return;
        }
        if !outer {
            return;
        }
        if seg[0] != "_serde" && seg[n - 1] == "Result" {
            if let PathArguments::AngleBracketed(a) = &last.arguments {
                let x = &a.args;
                *p = parse_quote!(Result<#x, IoError>);
            }
            return;
        }
        if seg[n - 2..] == ["Default".to_string(), "default".to_string()] {
            *p = parse_quote!(kv_default);
            return;
        }
        if n >= 3 && seg[0] == "_serde" && seg[1] == "export" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(2).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
            return;
        }
        // a type keeps its name; a function is called Trait_function or module_function
        let id = if camel(&seg[n - 1]) { seg[n - 1].clone() } else if camel(&seg[n - 2]) && seg[0] != "_serde" {
            let rest: Vec<PathSegment> = p.segments.iter().skip(n - 2).cloned().collect();
            p.leading_colon = None;
            p.segments = rest.into_iter().collect();
            return;
        } else { format!("{}_{}", seg[n - 2], seg[n - 1]) };
        let mut l = last;
        l.ident = Ident::new(&id, proc_macro2::Span::call_site());
        p.leading_colon = None;
        p.segments = std::iter::once(l).collect();
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_some() {
                // <X as _serde::de::Error>::f
                p.qself = None;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Try(t) = e {
            let x = &t.expr;
            *e = parse_quote!(match #x { Ok(kv_ok) => kv_ok, Err(kv_err) => { return Err(kv_into(kv_err)); } });
        }
        if let Expr::MethodCall(m) = e {
            if m.method == "into" && m.args.is_empty() {
                let x = &m.receiver;
                *e = parse_quote!(kv_into(#x));
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { kv_start!(); match #x { #p => #b _ => { break; } } });
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Macro(m) => !is_print(&m.mac.path),
            Stmt::Item(Item::Use(_)) => false,
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
        // a loop that was a statement stays one
        for s in b.stmts.iter_mut() {
            if let Stmt::Expr(Expr::Loop(_), semi) = s {
                *semi = None;
            }
        }
    }
}

struct Found { fold: Option<ItemStruct>, fns: Vec<(String, Signature, Block)>, variants: Vec<String> }
fn dig(items: &[Item], fo: &mut Found) {
    for i in items {
        match i {
            Item::Mod(m) => if let Some((_, v)) = &m.content { dig(v, fo) },
            Item::Struct(s) if s.ident == "Fold" => fo.fold = Some(s.clone()),
            Item::Const(c) => blocks(&c.expr, fo),
            Item::Enum(e) if e.ident == "__Field" => fo.variants = e.variants.iter().map(|v| v.ident.to_string()).collect(),
            Item::Impl(im) => {
                let t = im.trait_.as_ref().map(|t| t.1.segments.last().unwrap().ident.to_string());
                let ty = show(&im.self_ty);
                for x in &im.items {
                    if let ImplItem::Fn(g) = x {
                        let n = g.sig.ident.to_string();
                        let full = match (t.as_deref(), ty.as_str(), n.as_str()) {
                            (Some("Serialize"), "Fold", "serialize") => "Fold::serialize".to_string(),
                            (Some("Visitor"), _, "visit_str") if ty.contains("__FieldVisitor") => n,
                            (Some("Visitor"), _, "visit_map") => n,
                            (None, "Fold", _) => format!("Fold::{}", n),
                            (Some("Deserialize"), "Fold", "deserialize") => { stmts(&g.block, fo); continue }
                            _ => continue,
                        };
                        fo.fns.push((full, g.sig.clone(), g.block.clone()));
                    }
                }
            }
            _ => {}
        }
    }
}
fn blocks(e: &Expr, fo: &mut Found) {
    if let Expr::Block(b) = e {
        stmts(&b.block, fo)
    }
}
fn stmts(b: &Block, fo: &mut Found) {
    let v: Vec<Item> = b.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
    dig(&v, fo);
}
fn lit(p: &Pat) -> Option<String> {
    match p {
        Pat::Lit(l) => if let Lit::Str(s) = &l.lit { Some(s.value()) } else { None },
        _ => None,
    }
}
/// the arms of visit_str: [(key, variant)], and the variant of every other key
fn arms(b: &Block) -> Option<(Vec<(String, Option<String>)>, Option<String>)> {
    let e = match b.stmts.last()? { Stmt::Expr(Expr::Match(m), _) => m, _ => return None };
    let target = |x: &Expr| -> Option<Option<String>> {
        let mut x = x;
        while let Expr::Block(k) = x {
            if k.block.stmts.len() != 1 { return None }
            x = match &k.block.stmts[0] { Stmt::Expr(y, None) => y, _ => return None };
        }
        let s = show(x);
        if let Some(r) = s.strip_prefix("_serde::export::Ok(__Field::") { return Some(Some(r.trim_end_matches(')').to_string())) }
        if s.starts_with("_serde::export::Err(") { Some(None) } else { None }
    };
    let mut v = vec![];
    for a in &e.arms {
        if a.guard.is_some() { return None }
        if let Pat::Wild(_) = a.pat { return Some((v, target(&a.body)?)) }
        let ps: Vec<Pat> = match &a.pat { Pat::Or(o) => o.cases.iter().cloned().collect(), p => vec![p.clone()] };
        for p in ps { v.push((lit(&p)?, target(&a.body)?)); }
    }
    None
}

pub fn run(expanded: &str, overlay: &str, outp: &str, stubs: &[String]) {
    // overlay
    let (mut rows, mut prelude, mut secs): (Vec<Row>, Vec<(String, String)>, Vec<Sec>) = (vec![], vec![], vec![]);
    let (mut cur, mut lemma) = (String::new(), String::from("prelude"));
    for l in std::fs::read_to_string(overlay).expect("overlay").lines() {
        if let Some(d) = l.strip_prefix("//@ ") {
            let mut w = d.splitn(4, ' ');
            match w.next().unwrap() {
                "key" => rows.push(Row { f: w.next().unwrap().into(), k: w.next().unwrap().into(), t: w.next().unwrap().into() }),
                "fn" => { secs.push(Sec { name: d[3..].trim().into(), ..Default::default() }); cur = String::new(); }
                "spec" => cur = "spec".into(),
                "at" => cur = d.into(),
                "prelude" => { cur = "prelude".into(); lemma = "prelude".into(); }
                "lemma" => { cur = "prelude".into(); lemma = format!("{} spec", w.next().unwrap()); }
                _ => cur = String::new(),
            }
            continue;
        }
        match cur.as_str() {
            "" => {}
            "prelude" => prelude.push((l.into(), lemma.clone())),
            "spec" => secs.last_mut().unwrap().spec.push(l.into()),
            k => secs.last_mut().unwrap().at.entry(k[3..].to_string()).or_default().push(l.into()),
        }
    }
    let file = parse_file(&std::fs::read_to_string(expanded).expect("expanded")).expect("parse");
    let mut fo = Found { fold: None, fns: vec![], variants: vec![] };
    dig(&file.items, &mut fo);
    let mut out = Out { text: String::from("// generated by kvx fold\n#![allow(warnings)]\n"), notes: vec![], stubs: stubs.to_vec(), variant: Default::default(), iso: Default::default(), cont: Default::default(), nl: Default::default() };
    let st = fo.fold.clone().expect("struct Fold");
    // which local of visit_map ends up in which field
    let mut local: HashMap<String, String> = HashMap::new();
    for (n, _, b) in &fo.fns {
        if n == "visit_map" {
            struct Lits<'a>(&'a mut HashMap<String, String>);
            impl<'a, 'b> visit::Visit<'b> for Lits<'a> {
                fn visit_expr_struct(&mut self, s: &'b ExprStruct) {
                    for f in &s.fields {
                        self.0.insert(show(&f.member), show(&f.expr));
                    }
                }
            }
            visit::Visit::visit_block(&mut Lits(&mut local), b);
        }
    }
    let vs = fo.fns.iter().find(|f| f.0 == "visit_str").expect("visit_str");
    let (arm, other) = arms(&vs.2).expect("visit_str is not a match on keys");
    // the key the reader takes a field from
    let source = |f: &str| -> String {
        let l = local.get(f);
        arm.iter().find(|(_, v)| v.is_some() && v.as_ref() == l).map(|(k, _)| format!("{:?}", k)).unwrap_or("\"?\"".into())
    };
    let each = |l: &str| -> Vec<String> {
        match l.strip_prefix("each ") {
            None => vec![l.to_string()],
            Some(t) => rows.iter().map(|r| t.replace("$f", &r.f).replace("$k", &r.k).replace("$s", &source(&r.f)).replace("$t", &r.t).replace("$v", local.get(&r.f).map(|s| s.as_str()).unwrap_or("__missing"))).collect(),
        }
    };
    for (l, tag) in &prelude {
        for x in each(l) { out.line(&x, tag); }
    }
    // the struct, every field public
    let mut fields = vec![];
    if let Fields::Named(f) = &st.fields {
        for x in &f.named {
            let mut t = x.ty.clone();
            Conv { value: "" }.visit_type_mut(&mut t);
            let mut s = String::new();
            print_tokens(quote!(#t), &mut s);
            fields.push(format!("pub {}: {}", x.ident.as_ref().unwrap(), s));
        }
    }
    out.line(&format!("pub struct Fold {{ {} }}", fields.join(", ")), "struct src");
    out.line("#[allow(non_camel_case_types)]", "enum src");
    out.line(&format!("pub enum __Field {{ {} }}", fo.variants.join(", ")), "enum src");
    let var = |v: &Option<String>| match v { Some(v) => format!("Some(__Field::{})", v), None => "None".into() };
    let mut s = String::from("pub open spec fn field_of(k: Key) -> Option<__Field> { ");
    for (k, v) in &arm { s.push_str(&format!("if k == {:?} {{ {} }} else ", k, var(v))); }
    out.line(&format!("{}{{ {} }} }}", s, var(&other)), "struct src");
    let mut seen = vec![];
    for (full, sig, block) in &fo.fns {
        let sec = match secs.iter().find(|s| &s.name == full) { Some(s) => s, None => continue };
        seen.push(full.clone());
        let (mut sig, mut block) = (sig.clone(), block.clone());
        let method = full.starts_with("Fold::");
        let mut c = Conv { value: if full == "visit_str" { "__Field" } else { "Fold" } };
        c.visit_signature_mut(&mut sig);
        c.visit_block_mut(&mut block);
        sig.generics = Generics::default();
        if !method {
            sig.inputs = sig.inputs.into_iter().filter(|a| matches!(a, FnArg::Typed(_))).collect();
        }
        // helper functions without a contract
        struct Calls(Vec<String>);
        impl<'b> visit::Visit<'b> for Calls {
            fn visit_expr_call(&mut self, c: &'b ExprCall) { self.0.push(show(&c.func)); visit::visit_expr_call(self, c) }
            fn visit_expr_method_call(&mut self, m: &'b ExprMethodCall) { self.0.push(format!(".{}", m.method)); visit::visit_expr_method_call(self, m) }
        }
        let mut calls = Calls(vec![]);
        visit::Visit::visit_block(&mut calls, &block);
        for (other, ..) in &fo.fns {
            if let Some(n) = other.strip_prefix("Fold::") {
                if !secs.iter().any(|s| &s.name == other) && calls.0.iter().any(|c| c == &format!(".{}", n) || c == &format!("Self::{}", n) || c == other) {
                    out.notes.push(format!("{}: calls {}, which has no contract", full, other));
                }
            }
        }
        if calls.0.iter().any(|c| c.ends_with("skip_field")) {
            out.notes.push(format!("{}: some fields are written only sometimes", full));
        }
        let stub = out.stubs.iter().any(|s| s == full);
        if method { out.line("impl Fold {", "impl src"); }
        if stub { out.line("#[verifier::external_body]", &format!("{} attr", full)); }
        else if full == "visit_map" { out.line("#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]", &format!("{} attr", full)); }
        let ret = match &sig.output { ReturnType::Default => None, ReturnType::Type(_, t) => Some((**t).clone()) };
        sig.output = ReturnType::Default;
        let mut h = String::new();
        print_tokens(quote!(#sig), &mut h);
        out.line(&format!("pub {}", h.replace('\n', " ")), &format!("{} sig", full));
        if let Some(t) = ret {
            let mut ts = String::new();
            print_tokens(quote!(#t), &mut ts);
            out.line(&format!("-> (r: {})", ts.replace('\n', " ")), &format!("{} sig", full));
        }
        for l in sec.spec.iter().flat_map(|l| each(l)) { out.line(&l, &format!("{} spec", full)); }
        if stub { out.line("{ unimplemented!() }", &format!("{} stub", full)); }
        else {
            let mut body = String::new();
            print_tokens(quote!(#block), &mut body);
            let lines: Vec<&str> = body.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect();
            let (mut loops, mut depth) = (0, 0i32);
            let mut open: Vec<(i32, usize)> = vec![];
            let put = |out: &mut Out, k: &str| for l in sec.at.get(k).into_iter().flatten().flat_map(|l| each(l)) { out.line(&l, &format!("{} ghost {}", full, k)) };
            for (i, l) in lines.iter().enumerate() {
                if l.starts_with("loop {") || l.starts_with("loop  {") || (l.starts_with("loop") && l.ends_with('{')) {
                    out.line("loop", &format!("{} src", full));
                    put(&mut out, &format!("inv {}", loops));
                    out.line("{", &format!("{} src", full));
                    open.push((depth, loops));
                    depth += 1;
                    loops += 1;
                    continue;
                }
                if l.starts_with("kv_start") {
                    put(&mut out, &format!("start loop {}", loops - 1));
                    continue;
                }
                out.line(l, &format!("{} src", full));
                depth += l.matches('{').count() as i32 - l.matches('}').count() as i32;
                if open.last().map_or(false, |o| o.0 == depth) {
                    let k = open.pop().unwrap().1;
                    put(&mut out, &format!("after loop {}", k));
                }
                if i == 0 { put(&mut out, "begin"); }
            }
            let want = sec.at.keys().filter(|k| k.starts_with("inv ")).count();
            if want != loops { out.notes.push(format!("{}: {} loops, contract is for {}", full, loops, want)); }
        }
        if method { out.line("}", "impl src"); }
        out.notes.push(format!("@fn {} of {} rows", full, rows.len()));
    }
    for s in &secs {
        if !seen.contains(&s.name) { out.notes.push(format!("{}: function not found", s.name)); }
    }
    if rows.iter().any(|r| !local.contains_key(&r.f)) { out.notes.push("visit_map: not every field is filled from a local".into()); }
    out.text.push_str("fn main() {}\n}\n");
    // keys become numbers
    let (mut ids, mut text): (HashMap<String, usize>, String) = (HashMap::new(), String::new());
    for l in out.text.lines() {
        let (code, tag) = match l.rfind(" //~ ") { Some(i) => (&l[..i], &l[i..]), None => (l, "") };
        let comment = code.find("//[").unwrap_or(code.len());
        let (mut rest, tail) = (&code[..comment], &code[comment..]);
        if rest.trim_start().starts_with("//") { text.push_str(rest); rest = ""; }
        while let Some(i) = rest.find('"') {
            let j = i + 1 + rest[i + 1..].find('"').expect("closing quote");
            let n = ids.len() + 1;
            let n = *ids.entry(rest[i + 1..j].to_string()).or_insert(n);
            text.push_str(&rest[..i]);
            text.push_str(&format!("{}u64", n));
            rest = &rest[j + 1..];
        }
        text.push_str(rest);
        text.push_str(tail);
        text.push_str(tag);
        text.push('\n');
    }
    std::fs::write(outp, &text).unwrap();
    for n in out.notes { println!("{}", n); }
}
