//! C12: integer helpers and motion-vector arithmetic.
use av1enc::common::MotionVector;
use av1enc::util::{msb16, msb32, msb64, verif as u};
use mon::*;

fn v(r: &mut Rng) -> i64 { let m = match r.below(6) { 4 => r.edgy(1 << 61) as i64, 5 => (r.u64() >> (3 + r.below(60))) as i64, 0 => r.below(300) as i64, 1 => r.edgy(1 << 20) as i64, 2 => r.edgy(1 << 44) as i64, _ => r.below(1 << 33) as i64 }; if r.bool() { -m } else { m } }

fn main() {
    let mut r = Runner::new("C12", "a case is one argument tuple given to every integer helper it is legal for, compared with an independent definition on 128-bit integers; 16-bit logarithms and a dense grid of rounding arguments are enumerated, the rest is generated with bias to powers of two and their neighbours; non-trivial: every case; distinct: by arguments");
    r.suite_exhaustive("log2-16-bit", 65535, |_g, i, run| {
        let n = i + 1;
        ensure_eq!(msb16(n as u16) as u32, 63 - n.leading_zeros(), "msb16({})", n);
        ensure_eq!(msb32(n as u32) as u32, 63 - n.leading_zeros(), "msb32({})", n);
        ensure_eq!(msb64(n) as u32, 63 - n.leading_zeros(), "msb64({})", n);
        ensure_eq!(u::floor_log2(n) as u32, 63 - n.leading_zeros(), "FloorLog2({})", n);
        run.count("logarithms", 4);
        Ok(Case::new(n, true, format!("log2({})", n)))
    });
    r.suite_exhaustive("log2-around-powers-of-two", 64 * 9, |_g, i, run| {
        let (p, d) = (i / 9, i as i64 % 9 - 4);
        let n = ((1i128 << p) + d as i128).clamp(1, u64::MAX as i128) as u64;
        ensure_eq!(msb64(n) as u32, 63 - n.leading_zeros(), "msb64({})", n);
        if n <= u32::MAX as u64 { ensure_eq!(msb32(n as u32) as u32, 63 - n.leading_zeros(), "msb32({})", n); }
        ensure_eq!(u::floor_log2(n) as u32, 63 - n.leading_zeros(), "FloorLog2({})", n);
        run.count("logarithms", 3);
        Ok(Case::new(n, true, format!("log2({})", n)))
    });
    let n = r.n(20000, 2_000_000);
    r.suite("log2-large", n, |g, _i, run| {
        let n = (g.u64() >> g.below(64)).max(1);
        ensure_eq!(msb64(n) as u32, 63 - n.leading_zeros(), "msb64({})", n);
        ensure_eq!(msb32((n as u32).max(1)) as u32, 31 - (n as u32).max(1).leading_zeros(), "msb32({})", (n as u32).max(1));
        ensure_eq!(u::floor_log2(n) as u32, 63 - n.leading_zeros(), "FloorLog2({})", n);
        run.count("logarithms", 3);
        Ok(Case::new(n, true, format!("log2({})", n)))
    });
    let round = |x: i64, n: usize| -> Result<(), String> {
        let fl = |a: i128, b: i128| a.div_euclid(b);
        let half = if n == 0 { 0 } else { 1i128 << (n - 1) };
        ensure_eq!(u::round2(x, n) as i128, fl(x as i128 + half, 1i128 << n), "Round2({}, {})", x, n);
        let m = fl((x as i128).abs() + half, 1i128 << n);
        ensure_eq!(u::round2_signed(x, n) as i128, if x < 0 { -m } else { m }, "Round2Signed({}, {})", x, n);
        Ok(())
    };
    r.suite_exhaustive("rounding-grid", 2049, |_g, i, run| {
        let x = i as i64 - 1024;
        for n in 0..14 { round(x, n)?; run.count("roundings", 2); }
        Ok(Case::new(i, true, format!("x = {}", x)))
    });
    let n = r.n(20000, 2_000_000);
    r.suite("arithmetic", n, |g, _i, run| {
        let (x, y, z, s) = (v(g), v(g), v(g), g.usize(63));
        round(x, s)?;
        // around the ties
        if s > 0 { let k = (g.u64() >> (3 + s as u64).min(63)) as i64; let k = if g.bool() { -k } else { k }; let t = (k << s).saturating_add(1 << (s - 1)); if t.abs() <= 1 << 61 { for d in -2..=2 { round(t + d, s)?; } } }
        ensure_eq!(u::abs(x), x.abs(), "Abs({})", x);
        ensure_eq!(u::min(x, y), x.min(y), "Min({}, {})", x, y);
        ensure_eq!(u::max(x, y), x.max(y), "Max({}, {})", x, y);
        let (lo, hi) = (x.min(y), x.max(y));
        ensure_eq!(u::clip3(lo, hi, z), z.clamp(lo, hi), "Clip3({}, {}, {})", lo, hi, z);
        for e in [lo, hi, lo.saturating_sub(1), hi + 1] { ensure_eq!(u::clip3(lo, hi, e), e.clamp(lo, hi), "Clip3({}, {}, {})", lo, hi, e); }
        ensure_eq!(u::clip1(z), z.clamp(0, 255), "Clip1({})", z);
        for e in [-1, 0, 1, 254, 255, 256] { ensure_eq!(u::clip1(e), e.clamp(0, 255), "Clip1({})", e); }
        let (a, b) = (MotionVector::new(x as isize, y as isize), MotionVector::new(z as isize, s as isize));
        ensure!(a.x == x as isize && a.y == y as isize, "MotionVector::new");
        let (p, q) = (a + b, a - b);
        ensure_eq!((p.x as i64, p.y as i64), (x + z, y + s as i64), "({}, {}) + ({}, {})", x, y, z, s);
        ensure_eq!((q.x as i64, q.y as i64), (x - z, y - s as i64), "({}, {}) - ({}, {})", x, y, z, s);
        ensure!(p - b == a && q + b == a, "motion vectors: addition and subtraction are not inverse");
        ensure!((a == b) == (x == z && y == s as i64), "motion vector equality");
        run.count("arithmetic tuples", 1);
        Ok(Case::new(hash_of(&(x, y, z, s)), true, format!("x {} y {} z {} n {}", x, y, z, s)))
    });
    r.require("logarithms"); r.require("roundings"); r.require("arithmetic tuples");
    r.finish();
}
