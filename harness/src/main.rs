#![allow(dead_code, unused_imports)]
mod intr;
mod ora;
mod scene;
#[cfg(feature = "cde")]
mod h_cde;
#[cfg(feature = "geo")]
mod h_geo;
#[cfg(feature = "hist")]
mod h_hist;
#[cfg(feature = "shape")]
mod h_shape;
#[cfg(feature = "prob")]
mod h_prob;
#[cfg(feature = "io")]
mod h_io;
#[cfg(feature = "lbf")]
mod h_lbf;
#[cfg(feature = "pier")]
mod h_pier;

pub type H = (&'static str, fn());
static ALL: &[&[H]] = &[
    #[cfg(feature = "cde")]
    h_cde::LIST,
    #[cfg(feature = "geo")]
    h_geo::LIST,
    #[cfg(feature = "hist")]
    h_hist::LIST,
    #[cfg(feature = "shape")]
    h_shape::LIST,
    #[cfg(feature = "prob")]
    h_prob::LIST,
    #[cfg(feature = "io")]
    h_io::LIST,
    #[cfg(feature = "lbf")]
    h_lbf::LIST,
    #[cfg(feature = "pier")]
    h_pier::LIST,
];

fn main() {
    let mut a = std::env::args().skip(1);
    let name = a.next().expect("harness name");
    let vals: Vec<i64> = a.map(|s| s.parse().unwrap()).collect();
    unsafe { intr::intr_init(vals.as_ptr(), vals.len() as i32) };
    for l in ALL {
        for (n, f) in l.iter() {
            if *n == name {
                f();
                println!("DONE");
                return;
            }
        }
    }
    println!("NO-SUCH-HARNESS");
    std::process::exit(5);
}
