//! Concrete runs of the compiled kami crate against the statements M08, G07, Y01-Y04, R01-R06.
//! `vconc search PROP SEED SECONDS OUT` / `vconc replay PROP CASE OUT`; the result is written to OUT as JSON
//! (the crate itself prints on stdout).  A case is a line of text that `replay` accepts.
use kami::geometry::polygon::Polygon;
use kami::geometry::utils;
use kami::graph::planar_graph::PlanarGraph;
use nalgebra_glm::Vec2;
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

struct State {
    case: String,
    began: Option<Instant>,
    accepted: u64,
    distinct: u64,
    sample: String,
    prop: String,
    out: String,
}
static STATE: Mutex<Option<State>> = Mutex::new(None);

fn esc(s: &str) -> String { s.chars().map(|c| match c { '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(), c => c.to_string() }).collect() }
fn finish(s: &State, fail: Option<(&str, &str)>, note: &str) -> ! {
    let f = match fail {
        Some((c, w)) => format!("{{\"case\":\"{}\",\"why\":\"{}\"}}", esc(c), esc(w)),
        None => "null".into(),
    };
    let t = format!("{{\"accepted\":{},\"distinct\":{},\"sample\":\"{}\",\"fail\":{},\"note\":\"{}\"}}", s.accepted, s.distinct, esc(&s.sample), f, note);
    let _ = std::fs::write(&s.out, t);
    unsafe { libc_exit() }
}
unsafe fn libc_exit() -> ! { std::process::exit(0) }

// ------------------------------------------------------------------ random cases
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 16
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn int(&mut self, a: i64, b: i64) -> i64 { a + self.below((b - a + 1) as usize) as i64 }
    fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
}
fn nums(c: &str) -> Vec<f32> { c.split_whitespace().filter_map(|w| w.parse().ok()).collect() }
fn points(v: &[f32]) -> Vec<Vec2> { v.chunks(2).filter(|c| c.len() == 2).map(|c| Vec2::new(c[0], c[1])).collect() }
fn text(ps: &[(f32, f32)]) -> String { ps.iter().map(|p| format!("{:?} {:?}", p.0, p.1)).collect::<Vec<_>>().join(" ") }
type Res = Result<bool, String>;
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}
fn d64(a: &Vec2, b: &Vec2) -> f64 { ((a.x as f64 - b.x as f64).powi(2) + (a.y as f64 - b.y as f64).powi(2)).sqrt() }
const EPS: f64 = f32::EPSILON as f64;

// ------------------------------------------------------------------ M08
fn m08_gen(r: &mut Rng, k: u64) -> String {
    if k < 900 { format!("{} {}", k / 30, k % 30) } else { format!("{} {}", r.below(400), r.below(12)) }
}
fn m08(c: &str) -> Res {
    let v = nums(c);
    let (n, k) = (v[0] as usize, v[1] as usize);
    // n(n-1)...(n-k+1), and on the way n choose k
    let (mut fall, mut choose) = (1u128, 1u128);
    for j in 0..k {
        let m = n.saturating_sub(j) as u128;
        fall = fall.saturating_mul(m);
        if fall > usize::MAX as u128 {
            return Ok(false);
        }
        choose = choose * m / (j as u128 + 1);
    }
    let got = kami::math::blade::number_of_basis_blades(n, k);
    ensure!(got as u128 == choose, "number_of_basis_blades({}, {}) = {}, not {}", n, k, got, choose);
    if n < 64 {
        let t = kami::math::blade::total_number_of_basis_blades(n);
        ensure!(t as u128 == 1u128 << n, "total_number_of_basis_blades({}) = {}", n, t);
    }
    Ok(true)
}

// ------------------------------------------------------------------ G07
fn cloud(r: &mut Rng, n: usize) -> Vec<(f32, f32)> {
    let mode = if r.one_in(9) { 9 } else { r.below(4) };
    let far = 2f32.powi([21, 40, 55][r.below(3)]);
    let mut ps: Vec<(f32, f32)> = vec![];
    for _ in 0..n {
        let p = match mode {
            0 => (r.int(-3, 3) as f32, r.int(-3, 3) as f32),
            1 => (r.int(-60, 60) as f32, r.int(-60, 60) as f32),
            // a long way from each other
            9 => (r.int(-9, 9) as f32 * far, r.int(-9, 9) as f32 * far),
            // within the tolerance of each other, around the origin
            2 => (r.int(-6, 6) as f32 * 3e-8, if r.one_in(2) { 0.0 } else { r.int(-6, 6) as f32 * 3e-8 }),
            _ => if r.one_in(2) { (r.int(-4, 4) as f32 * 4e-8, 0.0) } else { (r.int(-2, 2) as f32, r.int(-2, 2) as f32) },
        };
        if !ps.is_empty() && r.one_in(5) { let q = ps[r.below(ps.len())]; ps.push(q) } else { ps.push(p) }
    }
    ps
}
fn g07_gen(r: &mut Rng, _: u64) -> String {
    let m = if r.one_in(30) { 90 } else if r.one_in(4) { 14 } else { 6 };
    let n = r.below(m);
    text(&cloud(r, n + 1))
}
fn g07(c: &str) -> Res {
    let all = points(&nums(c));
    let (t, ps) = (all[0], all[1..].to_vec());
    let (i, d) = utils::find_closest_to(&t, &ps);
    if !ps.is_empty() {
        let ds: Vec<f64> = ps.iter().map(|p| d64(&t, p)).collect();
        let m = ds.iter().cloned().fold(f64::MAX, f64::min);
        let slack = 1e-9 + 1e-5 * m;
        ensure!(i < ps.len(), "find_closest_to returns index {} of {} points", i, ps.len());
        ensure!((ds[i] - m).abs() <= slack && (d as f64 - m).abs() <= slack, "find_closest_to returns index {} at distance {:?}; the smallest distance is {:?}", i, d, m);
        let lattice = all.iter().all(|p| p.x.fract() == 0.0 && p.y.fract() == 0.0);
        if lattice {
            ensure!(Some(i) == ds.iter().position(|x| *x == m), "find_closest_to returns index {}, not the first index attaining the smallest distance", i);
        }
    }
    let u = utils::unique_points_among(&all);
    let near = |a: &Vec2, b: &Vec2| d64(a, b) <= EPS * 1.001;
    let far = |a: &Vec2, b: &Vec2| d64(a, b) > EPS * 0.999;
    // a sub-list, in order (the earliest match for each)
    let mut j = 0;
    for p in &u {
        while j < all.len() && all[j] != *p {
            j += 1;
        }
        ensure!(j < all.len(), "unique_points_among returns a list that is not a sub-list of its input");
        j += 1;
    }
    for p in &all {
        ensure!(u.iter().any(|q| near(p, q)), "unique_points_among: ({:?}, {:?}) has no representative", p.x, p.y);
    }
    for a in 0..u.len() {
        for b in 0..a {
            ensure!(far(&u[a], &u[b]), "unique_points_among keeps two points within the tolerance of each other");
        }
    }
    Ok(true)
}

// ------------------------------------------------------------------ polygons
type Pt = (i64, i64);
fn cr(a: Pt, b: Pt, c: Pt) -> i64 { (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1) }
fn shoelace(p: &[Pt]) -> i64 { (0..p.len()).map(|i| { let (a, b) = (p[i], p[(i + 1) % p.len()]); a.0 * b.1 - b.0 * a.1 }).sum() }
fn on_closed(a: Pt, b: Pt, c: Pt) -> bool { cr(a, b, c) == 0 && c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1) }
fn meet(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    let (x, y, z, w) = (cr(a, b, c).signum(), cr(a, b, d).signum(), cr(c, d, a).signum(), cr(c, d, b).signum());
    (x * y < 0 && z * w < 0) || on_closed(a, b, c) || on_closed(a, b, d) || on_closed(c, d, a) || on_closed(c, d, b)
}
fn simple(p: &[Pt]) -> bool {
    let n = p.len();
    for i in 0..n {
        for j in 0..i {
            if p[i] == p[j] {
                return false;
            }
        }
    }
    for i in 0..n {
        for j in 0..i {
            let (a, b, c, d) = (p[i], p[(i + 1) % n], p[j], p[(j + 1) % n]);
            let adj = (j + 1) % n == i || (i + 1) % n == j;
            if !adj && meet(a, b, c, d) {
                return false;
            }
            if adj && n > 3 {
                let (s, m, e) = if (j + 1) % n == i { (c, a, b) } else { (a, b, d) };
                if cr(s, m, e) == 0 && (s.0 - m.0) * (e.0 - m.0) + (s.1 - m.1) * (e.1 - m.1) > 0 {
                    return false;
                }
            }
        }
    }
    true
}
// polygons are drawn with integer coordinates, times a power of two (which changes no sign and no comparison)
thread_local! { static SCALE: std::cell::Cell<f32> = const { std::cell::Cell::new(1.0) }; }
fn scale() -> f32 { SCALE.with(|s| s.get()) }
fn set_scale(c: &str) {
    let k = c.split_whitespace().find_map(|w| w.strip_prefix("scale=2^").and_then(|k| k.parse::<i32>().ok())).unwrap_or(0);
    SCALE.with(|s| s.set(2f32.powi(k)));
}
fn scaled(r: &mut Rng, c: String) -> String {
    match r.below(9) {
        0 => c + " scale=2^-12",
        1 => c + " scale=2^-26",
        2 => c + " scale=2^9",
        _ => c,
    }
}
fn ints(c: &str) -> Vec<Pt> { points(&nums(c)).iter().map(|p| (p.x as i64, p.y as i64)).collect() }
fn poly_text(p: &[Pt]) -> String { p.iter().map(|q| format!("{} {}", q.0, q.1)).collect::<Vec<_>>().join(" ") }
fn vecs(p: &[Pt]) -> Vec<Vec2> { p.iter().map(|q| Vec2::new(q.0 as f32 * scale(), q.1 as f32 * scale())).collect() }
fn any_poly(r: &mut Rng) -> Vec<Pt> {
    let n = if r.one_in(6) { r.below(3) } else if r.one_in(20) { 3 + r.below(70) } else { 3 + r.below(8) };
    let m = [2, 5, 40][r.below(3)];
    (0..n).map(|_| (r.int(-m, m), r.int(-m, m))).collect()
}
/// star-shaped or random simple polygons, comb shapes; in general position when asked
fn simple_poly(r: &mut Rng, general: bool) -> Vec<Pt> {
    for _ in 0..400 {
        let big = r.one_in(24);
        let n = if big { 10 + r.below(16) } else { 3 + r.below(7) };
        let m = if big { [20, 300, 1500][r.below(3)] } else { [3, 6, 20][r.below(3)] };
        let mut p: Vec<Pt> = (0..n).map(|_| (r.int(0, m), r.int(0, m))).collect();
        if r.one_in(2) && n > 4 {
            // around a center by angle, radii vary: many reflex corners
            let c = (m as f64 / 2.0 + 0.25, m as f64 / 2.0 + 0.125);
            p.sort_by(|a, b| (a.1 as f64 - c.1).atan2(a.0 as f64 - c.0).partial_cmp(&(b.1 as f64 - c.1).atan2(b.0 as f64 - c.0)).unwrap());
        } else {
            // 2-opt towards simplicity
            for _ in 0..60 {
                let mut done = true;
                'o: for i in 0..p.len() {
                    for j in i + 2..p.len() {
                        if (j + 1) % p.len() != i && meet(p[i], p[i + 1], p[j], p[(j + 1) % p.len()]) {
                            p[i + 1..=j].reverse();
                            done = false;
                            break 'o;
                        }
                    }
                }
                if done {
                    break;
                }
            }
        }
        if !simple(&p) || shoelace(&p) == 0 {
            continue;
        }
        if general && (0..p.len()).any(|i| (0..i).any(|j| (0..j).any(|k| cr(p[i], p[j], p[k]) == 0))) {
            continue;
        }
        let s = r.below(p.len());
        p.rotate_left(s);
        if r.one_in(3) {
            p.reverse();
        }
        return p;
    }
    vec![(0, 0), (4, 0), (1, 1), (0, 4)]
}
fn got(p: &Polygon) -> Vec<Vec2> { p.get_vertices().clone() }
fn ccw(p: &[Pt]) -> Vec<Pt> {
    let mut q = p.to_vec();
    if shoelace(p) < 0 {
        q.reverse();
    }
    q
}
fn y01_gen(r: &mut Rng, _: u64) -> String {
    if r.one_in(4) { let m = if r.one_in(8) { 600 } else { 40 }; format!("regular {} {} {} {}", 3 + r.below(m), r.int(-9, 9), r.int(-5, 5), r.int(-5, 5)) } else { let p = if r.one_in(2) { any_poly(r) } else { simple_poly(r, false) }; let t = poly_text(&p); scaled(r, t) }
}
fn y01(c: &str) -> Res {
    set_scale(c);
    if let Some(rest) = c.strip_prefix("regular ") {
        let v = nums(rest);
        let (n, rad, cen) = (v[0] as usize, v[1], Vec2::new(v[2], v[3]));
        let p = got(&Polygon::regular(n, rad, &cen));
        ensure!(p.len() == n, "regular({}, ..) has {} vertices", n, p.len());
        for q in &p {
            let d = d64(q, &cen);
            ensure!((d - rad.abs() as f64).abs() <= 1e-4 * (1.0 + rad.abs() as f64), "regular({}, {:?}, ..) has a vertex at distance {:?} from the center", n, rad, d);
        }
        // at equal angles, from the direction of the x axis; in the other order if the reading of the signed area says so
        let at = |i: usize| { let t = 2.0 * std::f64::consts::PI * i as f64 / n as f64; (v[2] as f64 + rad as f64 * t.cos(), v[3] as f64 + rad as f64 * t.sin()) };
        let near = |q: &Vec2, w: (f64, f64)| ((q.x as f64 - w.0).powi(2) + (q.y as f64 - w.1).powi(2)).sqrt() <= 2e-4 * (1.0 + rad.abs() as f64);
        ensure!((0..n).all(|i| near(&p[i], at(i))) || (0..n).all(|i| near(&p[i], at(n - 1 - i))), "regular({}, {:?}, ..) does not have its vertices at equal angles: {:?}", n, rad, p);
        let a: f64 = (0..n).map(|i| { let (a, b) = (p[i], p[(i + 1) % n]); a.x as f64 * b.y as f64 - b.x as f64 * a.y as f64 }).sum();
        ensure!(a >= -1e-3, "regular({}, {:?}, ..) is clockwise", n, rad);
        return Ok(true);
    }
    let p = ints(c);
    match Polygon::new(&vecs(&p)) {
        Err(_) => ensure!(p.len() < 3, "building a polygon of {} vertices fails", p.len()),
        Ok(g) => {
            ensure!(p.len() >= 3, "building a polygon of {} vertices succeeds", p.len());
            ensure!(got(&g) == vecs(&ccw(&p)), "vertices are {:?}", got(&g));
        }
    }
    Ok(true)
}
fn y02_gen(r: &mut Rng, _: u64) -> String {
    let mut p = any_poly(r);
    while p.len() < 3 { p = any_poly(r) }
    let t = format!("{} {} {} {}", poly_text(&p), r.int(-7, 7), r.int(-7, 7), r.int(-6, 6) as f32 * 0.5);
    scaled(r, t)
}
fn y02(c: &str) -> Res {
    set_scale(c);
    let v = nums(c);
    let k = v.len() - 3;
    let z = scale() as f64;
    let (t, s) = (Vec2::new(v[k] * scale(), v[k + 1] * scale()), v[k + 2]);
    let p: Vec<Pt> = v[..k].chunks(2).map(|q| (q[0] as i64, q[1] as i64)).collect();
    let build = || Polygon::new(&vecs(&p)).map_err(|_| "building the polygon fails".to_string());
    let q = ccw(&p);
    let area = |g: &Polygon, w: f64, what: &str| -> Result<(), String> {
        let a = g.area() as f64 / (z * z);
        ensure!((a - w).abs() <= 1e-3 + 1e-5 * w, "area {} is {:?}, not {:?}", what, a, w);
        Ok(())
    };
    let g = build()?;
    let full = shoelace(&q).abs() as f64 / 2.0;
    area(&g, full, "")?;
    let n = q.len() as f64;
    let (cx, cy) = (q.iter().map(|a| a.0).sum::<i64>() as f64 / n, q.iter().map(|a| a.1).sum::<i64>() as f64 / n);
    let m = g.center() / scale();
    ensure!((m.x as f64 - cx).abs() < 1e-3 && (m.y as f64 - cy).abs() < 1e-3, "center is ({:?}, {:?}), the mean of the vertices ({:?}, {:?})", m.x, m.y, cx, cy);
    for f in 1..p.len() {
        let mut w = p.clone();
        w.rotate_left(f);
        if let Ok(g) = Polygon::new(&vecs(&w)) { area(&g, full, "from another first vertex")?; }
    }
    let mut h = build()?;
    h.translate(&t);
    let w: Vec<Vec2> = vecs(&q).iter().map(|a| Vec2::new(a.x + t.x, a.y + t.y)).collect();
    ensure!(got(&h) == w, "translate by ({:?}, {:?}) gives {:?}", t.x, t.y, got(&h));
    area(&h, full, "after a translation")?;
    let mut h = build()?;
    h.uniform_scale(s);
    let w: Vec<Vec2> = vecs(&q).iter().map(|a| Vec2::new(a.x * s, a.y * s)).collect();
    ensure!(got(&h) == w, "scaling by {:?} gives {:?}", s, got(&h));
    area(&h, full * (s * s) as f64, "after scaling")?;
    Ok(true)
}
fn inward(p: &[Pt], i: usize, j: usize) -> bool {
    let n = p.len();
    let (a, b, a0, a1) = (p[i], p[j], p[(i + n - 1) % n], p[(i + 1) % n]);
    // strictly inside the corner at a, counter-clockwise from a1 to a0
    if cr(a, a1, a0) >= 0 { cr(a, b, a0) > 0 && cr(b, a, a1) > 0 } else { !(cr(a, b, a1) >= 0 && cr(b, a, a0) >= 0) }
}
fn chord(p: &[Pt], i: usize, j: usize) -> bool {
    let n = p.len();
    if i == j {
        return false;
    }
    for k in 0..n {
        let l = (k + 1) % n;
        if k != i && k != j && l != i && l != j && meet(p[i], p[j], p[k], p[l]) {
            return false;
        }
    }
    inward(p, i, j) && inward(p, j, i)
}
fn y03_gen(r: &mut Rng, _: u64) -> String {
    let mut p = simple_poly(r, false);
    if r.one_in(4) {
        p = any_poly(r);
        // (vertices that coincide make edges and chords of no length, which are outside the property)
        while p.len() < 3 || (0..p.len()).any(|i| p[..i].contains(&p[i])) { p = any_poly(r) }
    } let t = poly_text(&p); scaled(r, t) }
fn y03(c: &str) -> Res {
    set_scale(c);
    let p = ccw(&ints(c));
    let n = p.len();
    let g = Polygon::new(&vecs(&p)).map_err(|_| "building the polygon fails".to_string())?;
    for i in 0..n {
        for j in 0..n {
            let d = g.diagonal(i, j);
            ensure!(d == chord(&p, i, j), "vertices {} and {} are {} a diagonal", i, j, if d { "reported as" } else { "not reported as" });
        }
    }
    Ok(true)
}
fn y04_gen(r: &mut Rng, k: u64) -> String { let p = simple_poly(r, k % 64 != 63); let t = poly_text(&p); scaled(r, t) }
fn inside(p: &[Pt], q: (f64, f64)) -> bool {
    let mut w = false;
    for i in 0..p.len() {
        let (a, b) = (p[i], p[(i + 1) % p.len()]);
        if (a.1 as f64 > q.1) != (b.1 as f64 > q.1) && q.0 < (b.0 - a.0) as f64 * (q.1 - a.1 as f64) / (b.1 - a.1) as f64 + a.0 as f64 {
            w = !w;
        }
    }
    w
}
fn y04(c: &str) -> Res {
    set_scale(c);
    let p = ccw(&ints(c));
    let n = p.len();
    let g = Polygon::new(&vecs(&p)).map_err(|_| "building the polygon fails".to_string())?;
    let ts = g.triangulate();
    ensure!(got(&g) == vecs(&p), "triangulating changes the polygon");
    ensure!(ts.len() == n - 2, "{} triangles for {} vertices", ts.len(), n);
    let mut sum = 0;
    for t in &ts {
        let v: Vec<Pt> = got(t).iter().map(|q| ((q.x / scale()) as i64, (q.y / scale()) as i64)).collect();
        ensure!(v.len() == 3, "a triangle of {} vertices", v.len());
        ensure!(v.iter().all(|q| p.contains(q)), "a triangle has a vertex that is not the polygon's");
        sum += shoelace(&v);
        // an ear lies inside the polygon
        let m = (v.iter().map(|q| q.0).sum::<i64>() as f64 / 3.0, v.iter().map(|q| q.1).sum::<i64>() as f64 / 3.0);
        if shoelace(&v) != 0 {
            ensure!(inside(&p, m), "the triangle {:?} is not inside the polygon", v);
        }
    }
    ensure!(sum == shoelace(&p), "the triangles' doubled areas add up to {}, the polygon's is {}", sum, shoelace(&p));
    Ok(true)
}

// ------------------------------------------------------------------ the graph
type G = PlanarGraph<i32, i32>;
#[derive(Clone, PartialEq, Debug)]
struct Snap {
    n: Vec<(f32, f32, Option<i64>)>,
    e: Vec<(usize, usize, i32)>,
}
fn data_of<T: std::fmt::Debug>(t: &T) -> Option<i64> {
    let s = format!("{:?}", t);
    let i = s.find("data: ")?;
    // the position is printed with its own `data: [..]`; the node's datum is a plain number
    s[i..].split("data: ").filter_map(|w| w.trim().split(|c: char| !(c.is_ascii_digit() || c == '-')).next().and_then(|x| x.parse().ok())).last()
}
fn snap(g: &G) -> Snap {
    Snap {
        n: g.get_nodes().iter().map(|n| (n.get_position().x, n.get_position().y, data_of(n))).collect(),
        e: g.get_edges().iter().map(|e| (e.get_node_indices().0, e.get_node_indices().1, *e.get_data())).collect(),
    }
}
fn pos(s: &Snap, i: usize) -> Vec2 { Vec2::new(s.n[i].0, s.n[i].1) }
#[derive(Clone, Debug)]
enum Op {
    N(f32, f32, i32),
    E(usize, usize, i32),
    Rn(usize),
    Re(usize),
}
fn op_text(o: &Op) -> String {
    match o {
        Op::N(x, y, d) => format!("node {:?} {:?} {}", x, y, d),
        Op::E(a, b, d) => format!("edge {} {} {}", a, b, d),
        Op::Rn(i) => format!("drop-node {}", i),
        Op::Re(i) => format!("drop-edge {}", i),
    }
}
fn ops_of(c: &str) -> Vec<Op> {
    c.split(';').filter_map(|l| {
        let w: Vec<&str> = l.split_whitespace().collect();
        Some(match *w.get(0)? {
            "node" => Op::N(w[1].parse().ok()?, w[2].parse().ok()?, w[3].parse().ok()?),
            "edge" => Op::E(w[1].parse().ok()?, w[2].parse().ok()?, w[3].parse().ok()?),
            "drop-node" => Op::Rn(w[1].parse().ok()?),
            "drop-edge" => Op::Re(w[1].parse().ok()?),
            _ => return None,
        })
    }).collect()
}
fn graph_gen(r: &mut Rng, k: u64) -> String {
    let m = [1, 2, 3, 8][r.below(4)];
    let unit = [1.0f32, 1.0, 10.0, 0.25][r.below(4)];
    let tiny = r.one_in(8);
    let len = if k % 16 == 15 { 40 } else { 4 + r.below(16) };
    let style = r.below(4);
    let (mut nn, mut ne) = (0usize, 0usize);
    let mut ops = vec![];
    for t in 0..len {
        let d = 1000 + t as i32;
        let idx = |r: &mut Rng, n: usize| -> usize { match r.below(16) { 0 => n, 1 => n + 1 + r.below(3), 2 if r.one_in(6) => usize::MAX, _ => r.below(n.max(1)) } };
        let w = r.below(20);
        let early = t < len / 2;
        let o = if nn < 2 || (early && w < 9) || (!early && w < 4) {
            nn += 1;
            if tiny && r.one_in(2) { Op::N(r.int(-5, 5) as f32 * 4e-8, r.int(-1, 1) as f32 * 4e-8, d) } else { Op::N(r.int(-m, m) as f32 * unit, r.int(-m, m) as f32 * unit, d) }
        } else if (style == 3 && w < 17) || w < 15 {
            ne += 2;
            // a star now and then, so that neighbours are left alone
            let a = if style == 1 && r.one_in(2) { 0 } else { idx(r, nn) };
            let b = idx(r, nn);
            Op::E(a, if a == b && !r.one_in(6) { (b.wrapping_add(1)) % nn.max(1) } else { b }, d)
        } else if w < 17 || style == 2 && w < 18 {
            nn = nn.saturating_sub(1);
            Op::Rn(idx(r, nn + 1))
        } else {
            Op::Re(idx(r, ne))
        };
        ops.push(op_text(&o));
    }
    ops.join("; ")
}
fn is_int(x: f64) -> bool { x == x.round() && x < 1e5 }
/// Some(answer) when it does not depend on rounding
fn inside_edge(s: &Snap, e: (usize, usize, i32), p: &Vec2) -> Option<bool> {
    let (a, b) = (pos(s, e.0), pos(s, e.1));
    let (ab, ap, pb) = (d64(&a, &b), d64(&a, p), d64(p, &b));
    if ap + pb - ab > 1e-3 {
        return Some(false);
    }
    let exact = [a.x, a.y, b.x, b.y, p.x, p.y].iter().all(|x| is_int(x.abs() as f64)) && is_int(ab) && is_int(ap) && is_int(pb);
    if exact && ap + pb == ab {
        return Some(ap > 0.5 && pb > 0.5);
    }
    None
}
fn wf(s: &Snap) -> Result<(), String> {
    for (i, e) in s.e.iter().enumerate() {
        ensure!(e.0 < s.n.len() && e.1 < s.n.len(), "edge {} joins {} and {}, but there are {} nodes", i, e.0, e.1, s.n.len());
    }
    Ok(())
}
fn set(v: &[usize]) -> BTreeSet<usize> { v.iter().cloned().collect() }
fn inc(e: &(usize, usize, i32), x: usize) -> bool { e.0 == x || e.1 == x }

fn after_node(b: &Snap, a: &Snap, p: &Vec2, d: i32, r: &(usize, Vec<usize>)) -> Result<(), String> {
    let dmin = (0..b.n.len()).map(|i| d64(p, &pos(b, i))).fold(f64::MAX, f64::min);
    if dmin < 0.99 * EPS {
        ensure!(a == b, "adding a node within the tolerance of an existing one changes the graph");
        ensure!(r.0 < b.n.len() && d64(p, &pos(b, r.0)) <= dmin * 1.0001 + 1e-12, "adding a node within the tolerance of an existing one returns {}, not the nearest node", r.0);
        ensure!(r.1.is_empty(), "adding a node within the tolerance of an existing one reports changed edges");
        return Ok(());
    }
    if dmin < 1.01 * EPS {
        return Ok(());
    }
    let id = b.n.len();
    ensure!(r.0 == id, "the new node's index is returned as {}, not {}", r.0, id);
    ensure!(a.n.len() == id + 1, "{} nodes after adding one to {}", a.n.len(), id);
    ensure!(a.n[..id] == b.n[..], "adding a node changes an earlier node");
    ensure!(a.n[id].0 == p.x && a.n[id].1 == p.y && (a.n[id].2 == None || a.n[id].2 == Some(d as i64)), "the new node is {:?}", a.n[id]);
    ensure!(a.e.len() >= b.e.len(), "adding a node removes an edge");
    let mut fresh: Vec<usize> = (b.e.len()..a.e.len()).collect();
    let mut want = BTreeSet::new();
    for i in 0..b.e.len() {
        let e = b.e[i];
        let on = inside_edge(b, e, p).unwrap_or_else(|| utils::is_on_line_segment(&pos(b, e.0), &pos(b, e.1), p, false));
        if !on {
            ensure!(a.e[i] == e, "edge {} does not contain the new node and became {:?}", i, a.e[i]);
            continue;
        }
        let f = a.e[i];
        ensure!(f == (e.0, id, e.2), "edge {} = {:?} contains the new node and became {:?}", i, e, f);
        let other = e.1;
        let k = fresh.iter().position(|&k| a.e[k].2 == e.2 && inc(&a.e[k], id) && inc(&a.e[k], other) && a.e[k].0 != a.e[k].1);
        ensure!(k.is_some(), "edge {} = {:?} contains the new node; no edge joins the node to {} with its data", i, e, other);
        let k = fresh.remove(k.unwrap());
        want.insert(i);
        want.insert(k);
    }
    ensure!(fresh.is_empty(), "edge {} = {:?} was created though no edge needed it", fresh[0], a.e[fresh[0]]);
    ensure!(set(&r.1) == want, "the returned list is {:?}, changed are {:?}", r.1, want);
    Ok(())
}

fn cross(a: Vec2, b: Vec2, c: Vec2, d: Vec2) -> Option<(f64, f64, f64, f64)> {
    let f = |v: f32| v as f64;
    let (ux, uy, vx, vy) = (f(b.x) - f(a.x), f(b.y) - f(a.y), f(d.x) - f(c.x), f(d.y) - f(c.y));
    let den = ux * vy - uy * vx;
    if den.abs() <= 1e-3 * (ux.hypot(uy) * vx.hypot(vy)) || den == 0.0 {
        return None;
    }
    let (wx, wy) = (f(c.x) - f(a.x), f(c.y) - f(a.y));
    let (s, t) = ((wx * vy - wy * vx) / den, (wx * uy - wy * ux) / den);
    Some((s, t, f(a.x) + s * ux, f(a.y) + s * uy))
}

fn after_edge(b: &Snap, a: &Snap, s: usize, d: usize, data: i32, r: &Option<(Vec<usize>, Vec<usize>)>) -> Result<(), String> {
    let n = b.n.len();
    if s >= n || d >= n {
        ensure!(r.is_none(), "adding an edge {}-{} to {} nodes succeeds", s, d, n);
        ensure!(a == b, "a failed addition of an edge changes the graph");
        return Ok(());
    }
    ensure!(r.is_some(), "adding an edge between existing nodes fails");
    let r = r.as_ref().unwrap();
    if b.e.iter().any(|e| (e.0, e.1) == (s, d) || (e.1, e.0) == (s, d)) {
        ensure!(a == b && r.0.is_empty() && r.1.is_empty(), "adding an existing edge changes or reports something");
        return Ok(());
    }
    let id = b.e.len();
    let mut old = b.e.clone();
    old.push((s, d, data));
    ensure!(a.n.len() >= n && a.n[..n] == b.n[..], "adding an edge changes a node");
    ensure!(a.e.len() > id, "the new edge is not in the graph");
    ensure!(r.0 == (n..a.n.len()).collect::<Vec<_>>(), "the reported nodes are {:?}; new are {}..{}", r.0, n, a.n.len());
    let rep = set(&r.1);
    for i in 0..old.len() {
        ensure!(a.e[i].0 == old[i].0 && a.e[i].2 == old[i].2, "edge {} = {:?} became {:?}", i, old[i], a.e[i]);
        ensure!(a.e[i].1 == old[i].1 || rep.contains(&i), "edge {} changed and is not reported", i);
    }
    for i in id..a.e.len() {
        ensure!(rep.contains(&i), "edge {} is new and not reported ({:?})", i, r.1);
    }
    // every created edge is a piece of an old one with its data; the pieces of each make a path
    let len = |e: &(usize, usize, i32)| d64(&pos(a, e.0), &pos(a, e.1));
    let on = |e: &(usize, usize, i32), x: usize| d64(&pos(a, e.0), &pos(a, x)) + d64(&pos(a, x), &pos(a, e.1)) - len(e) < 1e-3;
    // (almost parallel edges: the crossing is at the mercy of rounding)
    let steep = (0..id).all(|i| {
        let (p, q, c, e) = (pos(b, old[i].0), pos(b, old[i].1), pos(b, s), pos(b, d));
        let g = |v: f32| v as f64;
        let (ux, uy, vx, vy) = (g(q.x) - g(p.x), g(q.y) - g(p.y), g(e.x) - g(c.x), g(e.y) - g(c.y));
        let den = ux * vy - uy * vx;
        den.abs() > 2e-2 * ux.hypot(uy) * vx.hypot(vy) || (ux == 0.0 && vx == 0.0) || (uy == 0.0 && vy == 0.0)
    });
    if !steep {
        return Ok(());
    }
    let mut piece: Vec<Vec<usize>> = old.iter().map(|_| vec![]).collect();
    let mut clear = true;
    for k in old.len()..a.e.len() {
        let f = a.e[k];
        ensure!(old.iter().any(|e| e.2 == f.2), "edge {} = {:?} was created; no edge has its data", k, f);
        let of: Vec<usize> = (0..old.len()).filter(|&i| old[i].2 == f.2 && on(&old[i], f.0) && on(&old[i], f.1)).collect();
        match of.len() {
            0 => return Err(format!("edge {} = {:?} was created; it is no part of an edge with its data", k, f)),
            1 => piece[of[0]].push(k),
            _ => clear = false,
        }
    }
    let mut through: Vec<HashSet<usize>> = vec![];
    if clear {
        for i in 0..old.len() {
            // the pieces make a walk from end to end that uses each of them once
            let ps: Vec<(usize, usize)> = piece[i].iter().cloned().chain([i]).map(|k| (a.e[k].0, a.e[k].1)).collect();
            let mut odd: HashSet<usize> = HashSet::new();
            for x in ps.iter().flat_map(|p| vec![p.0, p.1]) {
                if !odd.remove(&x) {
                    odd.insert(x);
                }
            }
            let want: HashSet<usize> = if old[i].0 == old[i].1 { HashSet::new() } else { [old[i].0, old[i].1].iter().cloned().collect() };
            let mut on: HashSet<usize> = [old[i].0].iter().cloned().collect();
            for _ in 0..ps.len() {
                for p in &ps {
                    if on.contains(&p.0) || on.contains(&p.1) {
                        on.insert(p.0);
                        on.insert(p.1);
                    }
                }
            }
            ensure!(odd == want && ps.iter().all(|p| on.contains(&p.0)), "the pieces of edge {} = {:?} do not lead from {} to {}: {:?}", i, old[i], old[i].0, old[i].1, ps);
            through.push(on);
        }
    }
    // crossings
    let (c, e) = (pos(b, s), pos(b, d));
    let all_exact = (0..id).all(|i| match utils::calculate_line_segment_intersection(&pos(b, old[i].0), &pos(b, old[i].1), &c, &e) {
        Some(w) => is_int(w.x.abs() as f64) && is_int(w.y.abs() as f64),
        None => true,
    });
    for i in 0..id {
        let (p, q) = (pos(b, old[i].0), pos(b, old[i].1));
        let size = 1.0 + [p.x, p.y, q.x, q.y, c.x, c.y, e.x, e.y].iter().fold(0.0f64, |m, x| m.max(x.abs() as f64));
        let has = |x: f64, y: f64| (0..a.n.len()).find(|&j| (a.n[j].0 as f64 - x).hypot(a.n[j].1 as f64 - y) < 1e-4 * size);
        if let Some(x) = utils::calculate_line_segment_intersection(&p, &q, &c, &e) {
            ensure!(has(x.x as f64, x.y as f64).is_some(), "no node at the crossing ({:?}, {:?}) with edge {}", x.x, x.y, i);
        }
        if let Some((u, v, x, y)) = cross(p, q, c, e) {
            if u > 0.01 && u < 0.99 && v > 0.01 && v < 0.99 {
                let j = has(x, y);
                ensure!(j.is_some(), "no node at the crossing ({:?}, {:?}) with edge {}", x, y, i);
                let axis = (p.x == q.x || p.y == q.y) && (c.x == e.x || c.y == e.y);
                let exact = utils::calculate_line_segment_intersection(&p, &q, &c, &e).map_or(false, |w| w.x as f64 == x && w.y as f64 == y) && is_int(x.abs()) && is_int(y.abs());
                let whole = [p.x, p.y, q.x, q.y, c.x, c.y, e.x, e.y].iter().all(|x| is_int(x.abs() as f64));
                let j = j.unwrap();
                let alone = (0..a.n.len()).all(|k| k == j || (a.n[k].0 as f64 - x).hypot(a.n[k].1 as f64 - y) > 1e-2 * size);
                if clear && alone && all_exact && axis && exact && whole && a.n[j].0 as f64 == x && a.n[j].1 as f64 == y {
                    ensure!(through[i].contains(&j) && through[id].contains(&j), "edge {} and the new edge cross at node {} and are not both split there", i, j);
                }
            }
        }
    }
    // new nodes are at crossings of the new edge
    for j in n..a.n.len() {
        let p = pos(a, j);
        let t = d64(&c, &p) + d64(&p, &e) - d64(&c, &e);
        ensure!(t < 1e-3, "node {} was created away from the new edge", j);
    }
    Ok(())
}

/// the graph with some nodes and edges left out
fn keep(b: &Snap, kn: &dyn Fn(usize) -> bool, ke: &dyn Fn(usize) -> bool) -> Snap {
    let mut at = vec![usize::MAX; b.n.len()];
    let mut n = vec![];
    for i in 0..b.n.len() {
        if kn(i) {
            at[i] = n.len();
            n.push(b.n[i]);
        }
    }
    let e = (0..b.e.len()).filter(|&i| ke(i)).map(|i| (at[b.e[i].0], at[b.e[i].1], b.e[i].2)).collect();
    Snap { n, e }
}
fn lone(b: &Snap, x: usize, but: &dyn Fn(usize) -> bool) -> bool { (0..b.e.len()).all(|i| but(i) || !inc(&b.e[i], x)) }
fn after_drop_node(b: &Snap, a: &Snap, id: usize, r: &(Vec<usize>, Vec<usize>)) -> Result<(), String> {
    if id >= b.n.len() {
        ensure!(a == b && r.0.is_empty() && r.1.is_empty(), "removing node {}, which does not exist, changes or reports something", id);
        return Ok(());
    }
    let gone_e = |i: usize| inc(&b.e[i], id);
    let gone_n = |x: usize| x == id || (b.e.iter().any(|e| inc(e, id) && inc(e, x)) && lone(b, x, &gone_e));
    let want = keep(b, &|x| !gone_n(x), &|i| !gone_e(i));
    ensure!(a.n == want.n, "removing node {}: nodes are {:?}, expected {:?}", id, a.n, want.n);
    ensure!(a.e == want.e, "removing node {}: edges are {:?}, expected {:?}", id, a.e, want.e);
    let n0 = (0..b.n.len()).find(|&x| gone_n(x)).unwrap_or(b.n.len());
    let e0 = (0..b.e.len()).find(|&x| gone_e(x)).unwrap_or(b.e.len());
    ensure!(r.0 == (n0..b.n.len()).collect::<Vec<_>>(), "removing node {}: reported nodes {:?}, expected {}..{}", id, r.0, n0, b.n.len());
    ensure!(r.1 == (e0..b.e.len()).collect::<Vec<_>>(), "removing node {}: reported edges {:?}, expected {}..{}", id, r.1, e0, b.e.len());
    Ok(())
}
fn after_drop_edge(b: &Snap, a: &Snap, id: usize, r: &(Vec<usize>, Vec<usize>)) -> Result<(), String> {
    if id >= b.e.len() {
        ensure!(a == b && r.0.is_empty() && r.1.is_empty(), "removing edge {}, which does not exist, changes or reports something", id);
        return Ok(());
    }
    let gone_n = |x: usize| inc(&b.e[id], x) && lone(b, x, &|i| i == id);
    if gone_n(b.e[id].0) || gone_n(b.e[id].1) {
        let want = keep(b, &|x| !gone_n(x), &|i| i != id);
        ensure!(a.n == want.n, "removing edge {}: nodes are {:?}, expected {:?}", id, a.n, want.n);
        // the surviving edges, in whatever order
        let (mut x, mut y) = (a.e.clone(), want.e.clone());
        x.sort();
        y.sort();
        ensure!(x == y, "removing edge {}: edges are {:?}, expected {:?}", id, a.e, want.e);
        return Ok(());
    }
    let mut want = b.clone();
    want.e.swap_remove(id);
    ensure!(*a == want, "removing edge {}: the graph is {:?}, expected {:?}", id, a, want);
    ensure!(r.0.is_empty() && set(&r.1) == set(&[id, b.e.len() - 1]), "removing edge {} of {}: reported {:?}", id, b.e.len(), r);
    Ok(())
}
fn queries(g: &G, s: &Snap) -> Result<(), String> {
    ensure!(g.node_count() == s.n.len() && g.edge_count() == s.e.len(), "counts are {} and {}, stored are {} and {}", g.node_count(), g.edge_count(), s.n.len(), s.e.len());
    for i in (0..s.n.len() + 3).chain([usize::MAX]) {
        let h = i < s.n.len();
        ensure!(g.has_node_at_index(i) == h, "has_node_at_index({}) is {} with {} nodes", i, !h, s.n.len());
        ensure!(g.get_vertex(i).is_some() == h, "get_vertex({}) of {} nodes", i, s.n.len());
        if let Some(v) = g.get_vertex(i) {
            ensure!(*v.get_position() == pos(s, i), "get_vertex({}) is another node", i);
        }
        let deg = s.e.iter().filter(|e| inc(e, i)).count();
        let d = g.number_of_edges_incident_to(i);
        ensure!(d == if h { Some(deg) } else { None }, "number_of_edges_incident_to({}) is {:?}, {} edges have it as an endpoint", i, d, deg);
        for j in (0..s.n.len() + 1).chain([usize::MAX]) {
            let w = s.e.iter().any(|e| (e.0, e.1) == (i, j) || (e.1, e.0) == (i, j));
            ensure!(g.has_edge_between_nodes(i, j) == w, "has_edge_between_nodes({}, {}) is {}", i, j, !w);
        }
    }
    for i in (0..s.e.len() + 3).chain([usize::MAX]) {
        let h = i < s.e.len();
        ensure!(g.has_edge_at_index(i) == h, "has_edge_at_index({}) is {} with {} edges", i, !h, s.e.len());
        ensure!(g.get_edge(i).is_some() == h, "get_edge({}) of {} edges", i, s.e.len());
        if let Some(e) = g.get_edge(i) {
            ensure!(e.get_node_indices() == (s.e[i].0, s.e[i].1) && *e.get_data() == s.e[i].2, "get_edge({}) is another edge", i);
        }
    }
    Ok(())
}
fn graph(prop: &str, c: &str) -> Res {
    let mut g: G = PlanarGraph::new();
    let mut b = snap(&g);
    let mut acc = false;
    if prop == "R06" {
        queries(&g, &b)?;
    }
    for (k, o) in ops_of(c).iter().enumerate() {
        let at = |e: String| format!("operation {} ({}): {}", k, op_text(o), e);
        // an operation that panics is R01's business only
        let r = catch_unwind(AssertUnwindSafe(|| match o {
            Op::N(x, y, d) => { let r = g.add_node(&Vec2::new(*x, *y), *d); (Some((vec![r.0], r.1)), 0) }
            Op::E(s, d, v) => (g.add_edge(*s, *d, *v).ok(), 1),
            Op::Rn(i) => (Some(g.remove_node(*i)), 2),
            Op::Re(i) => (Some(g.remove_edge(*i)), 3),
        }));
        let r = match r {
            Ok(r) => r.0,
            Err(_) if prop == "R01" => return Err(at("panics".into())),
            Err(p) => {
                let hit = matches!((o, prop), (Op::N(..), "R02") | (Op::E(..), "R03") | (Op::Rn(..), "R04") | (Op::Re(..), "R05"));
                return if hit { Err(at(format!("panics ({})", panic_text(&p)))) } else { Ok(acc) };
            }
        };
        let a = snap(&g);
        if let Err(e) = wf(&a) {
            return if prop == "R01" { Err(at(e)) } else { Ok(acc) };
        }
        let v = match (prop, o) {
            ("R01", _) => { acc = true; Ok(()) }
            ("R02", Op::N(x, y, d)) => { acc = true; let r = r.unwrap(); after_node(&b, &a, &Vec2::new(*x, *y), *d, &(r.0[0], r.1)) }
            ("R03", Op::E(s, d, v)) => { acc = true; after_edge(&b, &a, *s, *d, *v, &r) }
            ("R04", Op::Rn(i)) => { acc = true; after_drop_node(&b, &a, *i, &r.unwrap()) }
            ("R05", Op::Re(i)) => { acc = true; after_drop_edge(&b, &a, *i, &r.unwrap()) }
            ("R06", _) => { acc = true; queries(&g, &a) }
            _ => Ok(()),
        };
        v.map_err(at)?;
        b = a;
    }
    Ok(acc)
}

// ------------------------------------------------------------------ F01, F02
use kami::fold::fold::Fold;
use serde_json::Value;
/// (key, type, the field as a JSON value); the types are those of the FOLD format
const KEYS: [(&str, &str); 24] = [
    ("file_spec", "i"), ("file_creator", "s"), ("file_author", "s"), ("file_title", "s"), ("file_description", "s"), ("file_classes", "[s"),
    ("frame_author", "s"), ("frame_title", "s"), ("frame_description", "s"), ("frame_classes", "[s"), ("frame_attributes", "[s"), ("frame_unit", "s"),
    ("vertices_coords", "[[f"), ("vertices_vertices", "[[i"), ("vertices_faces", "[[i"), ("edges_vertices", "[[i"), ("edges_faces", "[[i"), ("edges_assignment", "[s"),
    ("edges_foldAngles", "[f"), ("edges_lengths", "[f"), ("faces_vertices", "[[i"), ("faces_edges", "[[i"), ("faceOrders", "[3"), ("edgeOrders", "[3"),
];
fn fields(f: &Fold) -> Vec<Value> {
    macro_rules! v { ($($x:ident)*) => { vec![$(serde_json::to_value(&f.$x).unwrap_or(Value::Null)),*] } }
    v!(file_spec file_creator file_author file_title file_description file_classes frame_author frame_title frame_description frame_classes frame_attributes frame_unit
       vertices_coords vertices_vertices vertices_faces edges_vertices edges_faces edges_assignment edges_foldangles edges_lengths faces_vertices faces_edges faceorders edgeorders)
}
/// gives some fields a value without going through the reader
fn put(f: &mut Fold, r: &mut Rng) {
    let mut i = 0;
    macro_rules! v { ($($x:ident)*) => { $(if r.one_in(2) { if let Ok(v) = serde_json::from_value(random_value(r, KEYS[i].1, false)) { f.$x = v; } } i += 1;)* } }
    v!(file_spec file_creator file_author file_title file_description file_classes frame_author frame_title frame_description frame_classes frame_attributes frame_unit
       vertices_coords vertices_vertices vertices_faces edges_vertices edges_faces edges_assignment edges_foldangles edges_lengths faces_vertices faces_edges faceorders edgeorders);
    let _ = i;
}
fn empty_of(t: &str) -> Value { match t { "i" => Value::from(0), "s" => Value::from(""), _ => Value::Array(vec![]) } }
/// numbers compared as f32
fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b)),
        (Value::Number(x), Value::Number(y)) => if x.is_i64() && y.is_i64() { x == y } else { x.as_f64().unwrap() as f32 == y.as_f64().unwrap() as f32 },
        _ => a == b,
    }
}
fn random_value(r: &mut Rng, t: &str, wide: bool) -> Value {
    if let Some(u) = t.strip_prefix('[') {
        let m = [0, 1, 2, 3, 7][r.below(5)];
        let n = if wide && r.one_in(3) { 300 + r.below(2000) } else { r.below(m + 1) };
        let deep = u.starts_with('[');
        return Value::Array((0..n).map(|_| if u == "3" { Value::Array((0..3).map(|_| random_value(r, "i", false)).collect()) } else { random_value(r, u, wide && !deep) }).collect());
    }
    match t {
        "i" => Value::from(match r.below(8) { 0 => i32::MAX as i64, 1 => i32::MIN as i64, 2 => r.int(-2000000000, 2000000000), _ => r.int(-3, 12) }),
        "f" => if r.one_in(4) { Value::from(r.int(-40, 40)) } else if r.one_in(6) { Value::from((r.int(1, 1 << 23) as f64) * 2f64.powi(r.int(-120, 90) as i32)) } else { Value::from(r.int(-100000, 100000) as f64 / 64.0) },
        _ => {
            const W: [&str; 16] = ["", "M", "V", "B", "F", "U", "a b", "\"q\"", "back\\slash", "tab\tnew\nline", "\u{e9}\u{2713}", "\u{1F600}", "{\"x\":1}", "null", "0", "\u{0}\u{7f}"];
            if wide { Value::from(W[r.below(16)].repeat(1 + r.below(3000))) } else { Value::from(W[r.below(16)]) }
        }
    }
}
fn wrong_value(r: &mut Rng, t: &str) -> Value {
    let bad = Value::Array(vec![match t.trim_start_matches('[') { "s" => Value::from(1), _ => Value::from("x") }]);
    match (r.below(4), t) {
        (0, _) => Value::Null,
        (1, _) => serde_json::json!({"a": 1}),
        (2, "i") => Value::from(1.5),
        (2, "[3") => serde_json::json!([[1, 2, 3], [1, 2]]),
        (2, "s") => Value::from(3),
        (3, "i") => Value::from(3000000000i64),
        (3, "[3") => serde_json::json!([[1, 2, 3, 4]]),
        (_, t) if t.starts_with("[[") => if r.one_in(2) { Value::Array(vec![bad]) } else { serde_json::json!([[], 1]) },
        (_, t) if t.starts_with('[') => if r.one_in(2) { bad } else { Value::Bool(true) },
        _ => Value::Bool(false),
    }
}
/// the text of a document, members in any order, with members that are none of the format's
fn document(r: &mut Rng, wide: bool) -> Vec<(String, String)> {
    let (few, all) = (r.one_in(3), r.one_in(3));
    let mut m: Vec<(String, String)> = vec![];
    for (k, t) in KEYS.iter() {
        if if all { true } else if few { r.one_in(8) } else { !r.one_in(5) } {
            let w = wide && r.one_in(6);
            m.push((k.to_string(), random_value(r, t, w).to_string()));
        }
    }
    const X: [(&str, &str); 9] = [("file_frames", "[{\"frame_title\":\"x\"}]"), ("kami:extra", "[1,{\"a\":null}]"), ("File_spec", "7"), ("edges_foldangles", "[1.5]"), ("faceorders", "[[1,2,3]]"), ("", "0"), ("file_spec ", "\"x\""), ("frame_parent", "0"), ("edges_length", "[3]")];
    for (k, v) in X.iter() {
        if r.one_in(9) {
            m.push((k.to_string(), v.to_string()));
        }
    }
    for i in (1..m.len()).rev() {
        let j = r.below(i + 1);
        m.swap(i, j);
    }
    m
}
fn json_of(m: &[(String, String)], r: &mut Rng) -> String {
    let w = [("", ""), (" ", "\n  "), ("\t", "\r\n")][r.below(3)];
    format!("{}{{{}{}}}{}", w.1, m.iter().map(|(k, v)| format!("{}{}{}:{}{}", w.1, Value::from(k.as_str()), w.0, w.0, v)).collect::<Vec<_>>().join(","), w.1, w.1)
}
/// a case is `KIND SEED`: what it stands for is made from the seed
fn fold_gen(prop: &str, r: &mut Rng) -> String {
    const K: [&str; 12] = ["ok", "ok", "ok", "big", "cut", "type", "bytes", "tail", "missing", "folder", "empty", "deep"];
    let k = if prop == "F01" { ["ok", "ok", "ok", "ok", "ok", "ok", "ok", "big"][r.below(8)] } else { K[r.below(12)] };
    format!("{} {}", k, r.next())
}
fn shorten(s: &str) -> String { if s.chars().count() > 700 { s.chars().take(700).collect::<String>() + "..." } else { s.into() } }
fn fold(prop: &str, c: &str) -> Res {
    let mut w = c.split_whitespace();
    let (kind, seed) = (w.next().unwrap_or("ok"), w.next().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1));
    let mut r = Rng(seed | 1);
    let mut m = document(&mut r, kind == "big");
    if kind == "type" {
        let (k, t) = KEYS[r.below(24)];
        m.retain(|x| x.0 != k);
        m.push((k.into(), wrong_value(&mut r, t).to_string()));
        let l = m.len();
        m.swap(r.below(l), l - 1);
    }
    let text = json_of(&m, &mut r);
    let expect: Vec<Value> = KEYS.iter().map(|(k, t)| m.iter().find(|x| x.0 == *k).and_then(|x| serde_json::from_str(&x.1).ok()).unwrap_or(empty_of(t))).collect();
    let same = |got: &[Value], what: &str| -> Result<(), String> {
        for (i, (k, _)) in KEYS.iter().enumerate() {
            ensure!(alike(&got[i], &expect[i]), "{}: {} is {}, not {}; the document is {}", what, k, shorten(&got[i].to_string()), shorten(&expect[i].to_string()), shorten(&text));
        }
        Ok(())
    };
    if prop == "F01" {
        let mut f: Fold = match serde_json::from_str(&text) { Ok(f) => f, Err(_) => return Ok(false) };
        put(&mut f, &mut r);
        let before = fields(&f);
        let out = if r.one_in(2) { serde_json::to_string(&f) } else { serde_json::to_string_pretty(&f) };
        let out = out.map_err(|e| format!("writing a loaded document fails ({}); it was {}", e, shorten(&text)))?;
        let _: Value = serde_json::from_str(&out).map_err(|e| format!("what is written is not JSON ({}): {}", e, shorten(&out)))?;
        let g: Fold = serde_json::from_str(&out).map_err(|e| format!("what is written cannot be read back ({}): {}", e, shorten(&out)))?;
        let after = fields(&g);
        for (i, (k, _)) in KEYS.iter().enumerate() {
            ensure!(alike(&before[i], &after[i]), "{} is {} before and {} after; the document is written as {}", k, shorten(&before[i].to_string()), shorten(&after[i].to_string()), shorten(&out));
        }
        return Ok(true);
    }
    let dir = STATE.lock().unwrap().as_ref().map(|s| format!("{}.d", s.out)).unwrap_or_default();
    let _ = std::fs::create_dir_all(&dir);
    let file = format!("{}/in.fold", dir);
    let mut bytes = text.clone().into_bytes();
    match kind {
        "cut" => { let n = bytes.iter().rposition(|b| *b == b'}').unwrap(); bytes.truncate(r.below(n + 1)); }
        "tail" => bytes.extend_from_slice([&b"}"[..], b"x", b",", b"{}", b"0", b"\0"][r.below(6)]),
        // not UTF-8, in a place where JSON would allow any character
        "bytes" => { let t = format!("{{\"file_title\":\"ab"); let mut b = t.into_bytes(); b.extend_from_slice([&[0xffu8][..], &[0xc3, 0x28], &[0xed, 0xa0, 0x80], &[0xe2, 0x82]][r.below(4)]); b.extend_from_slice(b"c\"}"); bytes = b; }
        "empty" => bytes = [&b""[..], b" \n", b"null", b"3", b"\"file_spec\"", b"{", b"tru", b"{\"file_spec\":}", b"{file_spec:1}", b"{\"file_spec\":1,}"][r.below(10)].to_vec(),
        "deep" => bytes = format!("{{\"x\":{}{}}}", "[".repeat(3000), "]".repeat(3000)).into_bytes(),
        _ => {}
    }
    let path = match kind { "missing" => format!("{}/none.fold", dir), "folder" => dir.clone(), _ => file.clone() };
    if kind != "missing" && kind != "folder" {
        std::fs::write(&file, &bytes).map_err(|_| "scratch file".to_string()).unwrap();
    }
    let shown = shorten(&String::from_utf8_lossy(&bytes));
    let got = match catch_unwind(AssertUnwindSafe(|| Fold::from_file(std::path::Path::new(&path)))) {
        Ok(x) => x,
        Err(p) => return Err(format!("from_file panics ({}) on {}", panic_text(&p), if kind == "missing" || kind == "folder" { kind.to_string() } else { shown })),
    };
    match (kind, got) {
        ("ok", Ok(f)) | ("big", Ok(f)) => same(&fields(&f), "loaded from a file")?,
        ("ok", Err(e)) | ("big", Err(e)) => return Err(format!("a conforming file fails to load ({}): {}", e, shown)),
        ("deep", _) => {}
        ("missing", Ok(_)) => return Err("a missing file is loaded".into()),
        ("folder", Ok(_)) => return Err("a folder is loaded".into()),
        (_, Ok(_)) => return Err(format!("a file that does not conform is loaded: {}", shown)),
        _ => {}
    }
    Ok(true)
}

// ------------------------------------------------------------------ driver
fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String { p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()) }
fn gen(prop: &str, r: &mut Rng, k: u64) -> String {
    match prop {
        "M08" => m08_gen(r, k),
        "G07" => g07_gen(r, k),
        "Y01" => y01_gen(r, k),
        "Y02" => y02_gen(r, k),
        "Y03" => y03_gen(r, k),
        "Y04" => y04_gen(r, k),
        "F01" | "F02" => fold_gen(prop, r),
        _ => graph_gen(r, k),
    }
}
fn run(prop: &str, c: &str) -> Res {
    match catch_unwind(AssertUnwindSafe(|| match prop {
        "M08" => m08(c),
        "G07" => g07(c),
        "Y01" => y01(c),
        "Y02" => y02(c),
        "Y03" => y03(c),
        "Y04" => y04(c),
        "F01" | "F02" => fold(prop, c),
        _ => graph(prop, c),
    })) {
        Ok(r) => r,
        Err(p) => Err(format!("panics: {}", panic_text(&p))),
    }
}
/// drops parts of a failing graph history while it still fails
fn shrink(prop: &str, c: String, why: String) -> (String, String) {
    let (mut c, mut why) = (c, why);
    if !prop.starts_with('R') {
        return (c, why);
    }
    let stop = Instant::now() + Duration::from_secs(3);
    loop {
        let ops: Vec<String> = c.split(';').map(|s| s.trim().to_string()).collect();
        let mut better = None;
        for i in 0..ops.len() {
            if Instant::now() > stop {
                return (c, why);
            }
            let mut o = ops.clone();
            o.remove(i);
            let t = o.join("; ");
            if let Err(w) = run(prop, &t) {
                better = Some((t, w));
                break;
            }
        }
        match better {
            Some((t, w)) => { c = t; why = w; }
            None => return (c, why),
        }
    }
}
fn begin(c: &str) {
    let mut s = STATE.lock().unwrap();
    let s = s.as_mut().unwrap();
    s.case = c.to_string();
    s.began = Some(Instant::now());
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let prop = a[2].clone();
    let replay = a[1] == "replay";
    let out = a[if replay { 4 } else { 5 }].clone();
    *STATE.lock().unwrap() = Some(State { case: String::new(), began: None, accepted: 0, distinct: 0, sample: String::new(), prop: prop.clone(), out });
    // a call that does not return, or eats the memory
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(20));
        if let Ok(g) = STATE.lock() {
            let s = g.as_ref().unwrap();
            let big = LIVE.load(SeqCst) > 3 << 30;
            if let Some(t) = s.began {
                if big || t.elapsed() > Duration::from_secs(6) {
                    // triangulating is only specified for when it returns
                    if s.prop == "Y04" {
                        finish(s, None, "a case did not return");
                    }
                    finish(s, Some((&s.case, if big { "the call does not stop allocating" } else { "the call does not return" })), "");
                }
            }
        }
    });
    let done = |fail: Option<(String, String)>| -> ! {
        let g = STATE.lock().unwrap();
        let s = g.as_ref().unwrap();
        finish(s, fail.as_ref().map(|f| (f.0.as_str(), f.1.as_str())), "")
    };
    if replay {
        begin(&a[3]);
        let r = run(&prop, &a[3]);
        STATE.lock().unwrap().as_mut().unwrap().accepted = 1;
        done(r.err().map(|w| (a[3].clone(), w)));
    }
    let seed: u64 = a[3].parse().unwrap_or(1);
    let secs: f64 = a[4].parse().unwrap_or(5.0);
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for _ in 0..8 {
        r.next();
    }
    let stop = Instant::now() + Duration::from_secs_f64(secs);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut k = 0u64;
    while Instant::now() < stop {
        let c = gen(&prop, &mut r, k);
        k += 1;
        begin(&c);
        let v = run(&prop, &c);
        STATE.lock().unwrap().as_mut().unwrap().began = None;
        match v {
            Err(w) => {
                let (c, w) = shrink(&prop, c, w);
                done(Some((c, w)))
            }
            Ok(true) => {
                use std::hash::{Hash, Hasher};
                let mut h = std::collections::hash_map::DefaultHasher::new();
                c.hash(&mut h);
                let mut g = STATE.lock().unwrap();
                let s = g.as_mut().unwrap();
                s.accepted += 1;
                if seen.len() < 2_000_000 && seen.insert(h.finish()) {
                    s.distinct += 1;
                }
                if s.sample.is_empty() && k > 20 {
                    s.sample = c;
                }
            }
            Ok(false) => {}
        }
    }
    done(None)
}
