//! C08: transform-type and coefficient syntax elements are coded as the draft says.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
use mon::Runner;

fn main() {
    let mut r = Runner::new("C08", "a case is one coding session: a scrambled probability state, a random frame of neighbouring mode information (with unavailable neighbours) and 24 or 60 syntax elements with random values and circumstances; after every element the whole probability state is compared with the one the draft prescribes, and at the end an independent decoder reads the elements back; non-trivial: more than one element; distinct: by stream and contexts used");
    syntax::drive(&mut r, syntax::coeff_elems(), (80, 1500), (1500, 30000), true);
    // these two look along the edges only, where some units may not have been coded
    let edge: Vec<syntax::Elem> = syntax::coeff_elems().into_iter().filter(|e| e.0 == "all_zero" || e.0 == "dc_sign").collect();
    let edge = &edge;
    let n = r.n(200, 6000);
    r.suite("partly-coded-edges", n, |rng, _i, run| syntax::session(rng, run, edge, 40, None, false));
    r.assume("frames with a base quantizer index of at most 20: the first set of coefficient distributions, the only one the encoder selects so far (marked FIXME in its source)");
    r.finish();
}
