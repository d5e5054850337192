//! JSON export of obligations, and the command line shared by the engine's binaries.
use crate::cmath::Contract;
use crate::logic::*;
use crate::sym::*;
use std::collections::HashMap;
use std::fmt::Write as _;

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn fm(f: &Fm<Sym>, o: &mut String) {
    match f {
        Fm::T => o.push_str("[\"t\"]"),
        Fm::F => o.push_str("[\"f\"]"),
        Fm::Sg(Sym(Val::R(i)), m) => {
            let _ = write!(o, "[\"s\",{},{}]", i, m);
        }
        Fm::Sg(Sym(Val::NaN), _) => o.push_str("[\"f\"]"),
        Fm::Sg(Sym(Val::Inf(n)), m) => o.push_str(if m & (if *n { NEG } else { POS }) != 0 { "[\"t\"]" } else { "[\"f\"]" }),
        Fm::Pr(n, a, _) => {
            // an uninterpreted predicate on a special value can never be matched by the code
            let ids: Vec<String> = a.iter().map(|x| match x.0 { Val::R(i) => i.to_string(), Val::NaN => "-1".into(), Val::Inf(true) => "-2".into(), Val::Inf(false) => "-3".into() }).collect();
            let _ = write!(o, "[\"p\",{},[{}]]", js(n), ids.join(","));
        }
        Fm::And(v) | Fm::Or(v) => {
            o.push_str(if matches!(f, Fm::And(_)) { "[\"and\"" } else { "[\"or\"" });
            for x in v {
                o.push(',');
                fm(x, o);
            }
            o.push(']');
        }
        Fm::Not(x) => {
            o.push_str("[\"not\",");
            fm(x, o);
            o.push(']');
        }
    }
}

fn fms(v: &[Fm<Sym>]) -> String {
    let mut o = String::from("[");
    for (i, f) in v.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        fm(f, &mut o);
    }
    o.push(']');
    o
}

fn nodes() -> String {
    A.with(|a| {
        let a = a.borrow();
        let v: Vec<String> = a
            .nodes
            .iter()
            .map(|n| match n {
                Node::C(c) => format!("[\"c\",\"{}/{}\"]", c.n, c.d),
                Node::V(s) => format!("[\"v\",{}]", js(s)),
                Node::Add(x, y) => format!("[\"+\",{},{}]", x, y),
                Node::Mul(x, y) => format!("[\"*\",{},{}]", x, y),
                Node::Div(x, y) => format!("[\"/\",{},{}]", x, y),
                Node::Sqrt(x) => format!("[\"sqrt\",{}]", x),
                Node::Fn(f, v) => format!("[\"fn\",{},{:?}]", js(f), v),
            })
            .collect();
        format!("[{}]", v.join(","))
    })
}

fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

pub fn symbolic(c: &Contract, max_paths: usize) -> String {
    let (run, prop, name, func) = (c.run, c.prop, c.name, c.func);
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let r = explore(&|| run(), max_paths);
            let obs: Vec<String> = r
                .obs
                .iter()
                .map(|o| {
                    let mut g = String::new();
                    fm(&o.goal, &mut g);
                    format!("{{\"name\":{},\"nconds\":{},\"path\":{},\"hyps\":{},\"goal\":{}}}", js(&o.name), o.nconds, js(&o.path), fms(&o.hyps), g)
                })
                .collect();
            format!(
                "{{\"prop\":{},\"name\":{},\"func\":{},\"paths\":{},\"infeasible\":{},\"unsupported\":{},\"axioms\":{},\"vars\":{},\"nodes\":{},\"obs\":[{}]}}",
                js(prop), js(name), js(func), r.paths, r.infeasible, strs(&r.unsupported), strs(&r.axioms), strs(&r.vars), nodes(), obs.join(",\n")
            )
        })
        .unwrap()
        .join()
        .unwrap_or_else(|_| format!("{{\"prop\":{},\"name\":{},\"func\":{},\"paths\":0,\"infeasible\":0,\"unsupported\":[\"engine panic\"],\"axioms\":[],\"vars\":[],\"nodes\":[],\"obs\":[]}}", js(prop), js(name), js(func)))
}

fn jvals(v: &[(String, f64)]) -> String {
    let x: Vec<String> = v.iter().map(|(n, x)| format!("{}:\"{:?}\"", js(n), x)).collect();
    format!("{{{}}}", x.join(","))
}

pub fn search(c: &Contract, seed: u64, n: u64, secs: f64) -> String {
    let t0 = std::time::Instant::now();
    let mut seeds = Rng(seed ^ 0xABCD);
    let (mut acc, mut disc) = (0u64, 0u64);
    let mut sample = String::from("null");
    let mut seen = std::collections::HashSet::new();
    let mut fail: Option<(Vec<String>, Vec<(String, f64)>)> = None;
    CS.with(|c| { let mut c = c.borrow_mut(); c.decided = 0; c.undecided = 0; });
    for i in 0..n {
        if i % 64 == 63 && t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let (o, vals) = run_concrete(&|| (c.run)(), seeds.next(), None, c.f32vals, c.tol);
        match o {
            Outcome::Discarded => disc += 1,
            Outcome::Ok => {
                acc += 1;
                let mut key = String::new();
                for (_, v) in &vals {
                    let _ = write!(key, "{:x},", v.to_bits());
                }
                if seen.len() < 200_000 {
                    seen.insert(key);
                }
                if acc == 7 || acc == 1 {
                    sample = jvals(&vals);
                }
            }
            Outcome::Fail(names) => {
                acc += 1;
                let simpler = match &fail {
                    None => true,
                    Some((_, old)) => weight(&vals) < weight(old),
                };
                if simpler {
                    fail = Some((names, vals));
                }
                if acc > 2000 {
                    break;
                }
            }
        }
    }
    let (d, u) = CS.with(|c| (c.borrow().decided, c.borrow().undecided));
    let f = match &fail {
        None => "null".to_string(),
        Some((n, v)) => format!("{{\"names\":{},\"vals\":{}}}", strs(n), jvals(v)),
    };
    format!(
        "{{\"contract\":{},\"accepted\":{},\"discarded\":{},\"distinct\":{},\"decided\":{},\"undecided\":{},\"sample\":{},\"fail\":{}}}",
        js(c.name), acc, disc, seen.len(), d, u, sample, f
    )
}

fn weight(v: &[(String, f64)]) -> f64 {
    v.iter().map(|(_, x)| if *x == 0.0 { 0.0 } else { 1.0 + x.abs().ln_1p() + if x.fract() != 0.0 { 3.0 } else { 0.0 } }).sum()
}

pub fn replay(c: &Contract, given: HashMap<String, f64>) -> String {
    let (o, vals) = run_concrete(&|| (c.run)(), 1, Some(given), c.f32vals, c.tol);
    let (s, n) = match o {
        Outcome::Discarded => ("discarded", vec![]),
        Outcome::Ok => ("ok", vec![]),
        Outcome::Fail(n) => ("fail", n),
    };
    format!("{{\"contract\":{},\"outcome\":\"{}\",\"names\":{},\"vals\":{}}}", js(c.name), s, strs(&n), jvals(&vals))
}

/// list | sym CONTRACT | search CONTRACT SEED N SECS | replay CONTRACT name=value ...
pub fn main_with(sym: Vec<Contract>, conc: Vec<Contract>) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let find = |v: Vec<Contract>, n: &str| v.into_iter().find(|c| c.name == n);
    match a.get(0).map(|s| s.as_str()) {
        Some("list") => {
            for c in &conc {
                println!("{}\t{}\t{}", c.prop, c.name, c.func);
            }
        }
        Some("sym") => match find(sym, &a[1]) {
            Some(c) => println!("{}", symbolic(&c, 20_000)),
            None => std::process::exit(3),
        },
        Some("search") => {
            let c = find(conc, &a[1]).unwrap();
            println!("{}", search(&c, a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()));
        }
        Some("replay") => {
            let c = find(conc, &a[1]).unwrap();
            let g = a[2..].iter().map(|s| { let (n, v) = s.rsplit_once('=').unwrap(); (n.to_string(), v.parse().unwrap()) }).collect();
            println!("{}", replay(&c, g));
        }
        _ => std::process::exit(3),
    }
}
