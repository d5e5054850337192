mod fold;
mod geo;
mod ver;
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("geo") => geo::run(&a[2], &a[3]),
        Some("fold") => fold::run(&a[2], &a[3], &a[4], &a[5..]),
        Some("ver") => ver::run(&a[2], &a[3], &a[4], &a[5..]),
        _ => std::process::exit(3),
    }
}
