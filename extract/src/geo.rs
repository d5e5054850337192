//! Re-types the geometry module at the symbolic scalar: `f32` becomes `Sym`, float literals become
//! exact rationals, `as f32` a conversion, float constants symbolic ones.  Dropped: test modules,
//! printing macros.  Items become `pub`.  Everything else is kept token by token.
use quote::quote;
use std::collections::HashSet;
use syn::visit_mut::*;
use syn::*;

struct Retype {
    consts: HashSet<String>,
}

pub fn is_print(p: &Path) -> bool {
    p.segments.last().map_or(false, |s| ["println", "print", "eprintln", "eprint", "dbg_println"].contains(&s.ident.to_string().as_str()))
}
pub fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && quote!(#a).to_string().contains("test") || a.path().is_ident("test"))
}
fn float_ty(t: &Type) -> bool {
    matches!(quote!(#t).to_string().as_str(), "f32" | "f64")
}

impl VisitMut for Retype {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if float_ty(t) {
            *t = parse_quote!(Sym);
            return;
        }
        visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_path_mut(self, p);
        // f32::max, <..>::f32
        if p.segments.len() >= 2 {
            for s in p.segments.iter_mut() {
                if s.ident == "f32" || s.ident == "f64" {
                    s.ident = Ident::new("Sym", s.ident.span());
                }
            }
        }
        let t = quote!(#p).to_string().replace(' ', "");
        if let Some(r) = t.strip_prefix("nalgebra_glm::").or_else(|| t.strip_prefix("crate::glm::")) {
            if ["Vec2", "Vec3", "vec2", "vec3"].contains(&r) || r.starts_with("Vec2::") {
                *p = parse_str(&format!("crate::shim::{}", r)).unwrap();
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Float(f), .. }) => {
                let d = f.base10_digits().to_string();
                let l = Lit::Float(LitFloat::new(&format!("{}f32", d), f.span()));
                *e = parse_quote!(Sym::lit32(#l));
                return;
            }
            Expr::Lit(ExprLit { lit: Lit::Int(f), .. }) if f.suffix() == "f32" || f.suffix() == "f64" => {
                let d = f.base10_digits().to_string();
                let l = Lit::Float(LitFloat::new(&format!("{}.0f32", d), f.span()));
                *e = parse_quote!(Sym::lit32(#l));
                return;
            }
            Expr::Cast(c) if float_ty(&c.ty) => {
                let mut x = (*c.expr).clone();
                self.visit_expr_mut(&mut x);
                *e = parse_quote!(crate::shim::ToSym::to_sym(#x));
                return;
            }
            Expr::Path(p) => {
                let t = { let q = &p.path; quote!(#q).to_string().replace(' ', "") };
                let last = t.rsplit("::").next().unwrap_or("").to_string();
                let fl = t.contains("f32") || t.contains("f64");
                if fl && last == "EPSILON" {
                    *e = parse_quote!(Sym::eps32());
                    return;
                }
                if last == "PI" && (fl || t == "PI") {
                    *e = parse_quote!(Sym::pi());
                    return;
                }
                if (last == "TAU" || last == "FRAC_PI_2") && fl {
                    *e = if last == "TAU" { parse_quote!((Sym::pi() * Sym::int(2))) } else { parse_quote!((Sym::pi() / Sym::int(2))) };
                    return;
                }
                if fl && (last == "MAX" || last == "MIN") {
                    *e = if last == "MAX" { parse_quote!(Sym::flt_max()) } else { parse_quote!((-Sym::flt_max())) };
                    return;
                }
                if fl && last == "INFINITY" {
                    *e = parse_quote!(<Sym as num_traits::Float>::infinity());
                    return;
                }
                if fl && last == "NEG_INFINITY" {
                    *e = parse_quote!(<Sym as num_traits::Float>::neg_infinity());
                    return;
                }
                if fl && last == "NAN" {
                    *e = parse_quote!(Sym::NAN);
                    return;
                }
                if self.consts.contains(&last) {
                    let q = &p.path;
                    *e = parse_quote!(#q());
                    return;
                }
            }
            _ => {}
        }
        visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vec![..], assert!(..), matches!(..): arguments are expressions
        let name = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if ["vec", "assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq"].contains(&name.as_str()) {
            if let Ok(mut args) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                for a in args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                m.tokens = quote!(#args);
            } else if name == "vec" {
                struct Rep(Expr, Expr);
                impl parse::Parse for Rep {
                    fn parse(i: parse::ParseStream) -> Result<Self> {
                        let a = i.parse()?;
                        i.parse::<Token![;]>()?;
                        Ok(Rep(a, i.parse()?))
                    }
                }
                if let Ok(Rep(mut a, mut b)) = m.parse_body::<Rep>() {
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut b);
                    m.tokens = quote!(#a; #b);
                }
            }
        }
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Macro(m) if is_print(&m.mac.path)));
        visit_block_mut(self, b);
    }
    fn visit_field_mut(&mut self, f: &mut Field) {
        f.vis = parse_quote!(pub);
        visit_field_mut(self, f);
    }
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        f.vis = parse_quote!(pub);
        visit_item_fn_mut(self, f);
    }
    fn visit_item_struct_mut(&mut self, f: &mut ItemStruct) {
        f.vis = parse_quote!(pub);
        for x in f.fields.iter_mut() {
            x.vis = parse_quote!(pub);
        }
        visit_item_struct_mut(self, f);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_impl_item_fn_mut(self, f);
    }
}

fn use_tree(t: &UseTree) -> String {
    quote!(#t).to_string().replace(' ', "")
}

pub fn run(repo: &str, out: &str) {
    let dir = format!("{}/src/geometry", repo);
    let mut files: Vec<_> = std::fs::read_dir(&dir).expect("geometry").map(|e| e.unwrap().path()).filter(|p| p.extension().map_or(false, |x| x == "rs")).collect();
    files.sort();
    let mut o = String::from("// generated from /repo/src/geometry by kvx geo\n");
    for f in files {
        let name = f.file_stem().unwrap().to_string_lossy().to_string();
        let mut file = parse_file(&std::fs::read_to_string(&f).unwrap()).expect("parse");
        file.items.retain(|i| !matches!(i, Item::Mod(m) if is_test(&m.attrs)) && !matches!(i, Item::Fn(m) if is_test(&m.attrs)));
        let mut consts = HashSet::new();
        for i in file.items.iter_mut() {
            let new: Option<Item> = match i {
                Item::Const(c) if float_ty(&c.ty) => {
                    consts.insert(c.ident.to_string());
                    let (n, e) = (&c.ident, &c.expr);
                    Some(parse_quote!(pub fn #n() -> f32 { #e }))
                }
                Item::Static(c) if float_ty(&c.ty) => {
                    consts.insert(c.ident.to_string());
                    let (n, e) = (&c.ident, &c.expr);
                    Some(parse_quote!(pub fn #n() -> f32 { #e }))
                }
                _ => None,
            };
            if let Some(n) = new {
                *i = n;
            }
        }
        let mut rt = Retype { consts };
        let mut body = String::new();
        for mut i in file.items {
            if let Item::Use(u) = &i {
                // glm's vector aliases come from the shim; the rest of glm is generic
                let t = use_tree(&u.tree);
                let t = t.replace("crate::geometry::", "crate::gen::").replace("crate::math::", "kami::math::").replace("crate::glm", "nalgebra_glm");
                if t.contains("std::f32::consts") || t.contains("core::f32::consts") {
                    continue;
                }
                if t.starts_with("nalgebra_glm::") {
                    let inner = t.trim_start_matches("nalgebra_glm::").trim_matches(|c| c == '{' || c == '}').to_string();
                    for n in inner.split(',').filter(|s| !s.is_empty()) {
                        let m = if ["Vec2", "Vec3", "vec2", "vec3"].contains(&n) { "crate::shim" } else { "nalgebra_glm" };
                        if n != "scale" {
                            body.push_str(&format!("pub use {}::{};\n", m, n.replace("as", " as ")));
                        }
                    }
                } else {
                    body.push_str(&format!("use {};\n", t.replace("as", "as")));
                }
                continue;
            }
            rt.visit_item_mut(&mut i);
            if let Item::Impl(im) = &mut i {
                if im.trait_.is_none() {
                    for x in im.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            f.vis = parse_quote!(pub);
                        }
                    }
                }
            }
            let t = quote!(#i).to_string().replace("crate :: geometry ::", "crate :: gen ::").replace("crate :: math ::", "kami :: math ::").replace("crate :: glm ::", "nalgebra_glm ::");
            body.push_str(&t);
            body.push('\n');
        }
        o.push_str(&format!("#[allow(warnings)]\npub mod {} {{\nuse crate::sym::Sym;\n{}\n}}\n", name, body));
    }
    std::fs::create_dir_all(out).unwrap();
    std::fs::write(format!("{}/gen.rs", out), o).unwrap();
}
