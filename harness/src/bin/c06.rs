//! C06: block-structure and mode syntax elements are coded as the draft says.
#![allow(dead_code)]
#[path = "../cdfs.rs"] mod cdfs;
#[path = "../syntax.rs"] mod syntax;
use mon::Runner;

fn main() {
    let mut r = Runner::new("C06", "a case is one coding session: a scrambled probability state, a random frame of neighbouring mode information (with unavailable neighbours) and 24 or 60 syntax elements with random values and circumstances; after every element the whole probability state is compared with the one the draft prescribes, and at the end an independent decoder reads the elements back; non-trivial: more than one element; distinct: by stream and contexts used");
    syntax::drive(&mut r, syntax::mode_elems(), (80, 1500), (1500, 30000), false);
    r.assume("coefficient distributions are those of quantizer context 0, the only one the encoder selects");
    r.finish();
}
