//! C19: command-line options mean what the usage text says, for every argument vector.
use av1enc::option::{CommandOption, Config};
use mon::*;

#[derive(Clone, Debug, PartialEq, Default)]
struct Conf { input: Option<String>, output: Option<String>, w: Option<usize>, h: Option<usize>, rate: Option<(usize, usize)>, frames: Option<usize> }

fn num(s: &str) -> Option<usize> {
    // decimal digits, an optional plus sign, no overflow
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let mut v: u128 = 0;
    for b in t.bytes() { v = v.checked_mul(10)?.checked_add((b - b'0') as u128)?; if v > u64::MAX as u128 { return None; } }
    Some(v as usize)
}
fn gcd(a: usize, b: usize) -> usize { if b == 0 { a } else { gcd(b, a % b) } }
/// the independent reading of an argument vector
fn model(args: &[String], c: &mut Conf) -> Result<(), String> {
    let mut i = 0;
    while i < args.len() {
        let a = &args[i];
        let name = if let Some(l) = a.strip_prefix("--") { match l { "input" => 'i', "output" => 'o', "frames" => 'f', "size" => 's', "framerate" => 'r', _ => return Err(format!("unknown {}", a)) } }
            else if let Some(s) = a.strip_prefix('-') { match s { "i" => 'i', "o" => 'o', "fr" => 'f', "s" => 's', "r" => 'r', _ => return Err(format!("unknown {}", a)) } }
            else { return Err(format!("not an option: {}", a)) };
        let v = args.get(i + 1).ok_or("missing argument")?;
        match name {
            'i' => c.input = Some(v.clone()),
            'o' => c.output = Some(v.clone()),
            'f' => c.frames = Some(num(v).ok_or("number")?),
            's' => { let p: Vec<&str> = v.split('x').collect(); if p.len() != 2 { return Err("WxH".into()); } let (w, h) = (num(p[0]).ok_or("w")?, num(p[1]).ok_or("h")?); c.w = Some(w); c.h = Some(h); }
            _ => {
                let p: Vec<&str> = v.split('/').collect();
                let (n, d) = match p.len() { 1 => (num(p[0]).ok_or("rate")?, 1), 2 => (num(p[0]).ok_or("rate")?, num(p[1]).ok_or("rate")?), _ => return Err("N/D".into()) };
                if d == 0 { return Err("zero denominator".into()); }
                let g = gcd(n, d); c.rate = Some((n / g, d / g));
            }
        }
        i += 2;
    }
    Ok(())
}
fn valid(c: &Conf) -> bool {
    c.input.is_some() && c.output.is_some() && c.frames.is_some()
        && matches!((c.w, c.h), (Some(w), Some(h)) if w > 0 && w < 8192 && h > 0 && h < 8192)
        && matches!(c.rate, Some((n, d)) if n > 0 && d > 0)
}
fn observe(c: &Config) -> Conf {
    Conf { input: c.input.clone(), output: c.output.clone(), w: c.frame_width, h: c.frame_height, rate: c.framerate.map(|r| (*r.numer(), *r.denom())), frames: c.frames }
}
fn number(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0".into(), 1 => "1".into(), 2 => "8191".into(), 3 => "8192".into(), 4 => format!("{}", r.u64()),
        5 => "18446744073709551615".into(), 6 => "18446744073709551616".into(), 7 => format!("+{}", r.below(100)), 8 => format!("00{}", r.below(100)),
        9 => ["", "-1", "1.5", "0x10", " 1", "1 ", "+", "-", "a", "1e3", "٣", "++1", "999999999999999999999999999999999999999999"][r.usize(13)].into(),
        10 => format!("{}", r.below(20)), 11 => format!("{}", 1 + r.edgy(8190)), 12 => format!("{}", r.below(100000)), _ => format!("{}", 1 + r.below(8191)),
    }
}
fn good(r: &mut Rng) -> String { format!("{}", if r.chance(1, 4) { r.below(8200) } else { 1 + r.edgy(8190) }) }
fn text(r: &mut Rng) -> String {
    match r.below(6) {
        0 => ["stdin", "stdout", "-", "--", "", "a b", "/tmp/x", "é", "-i", "--size", "日本", "\u{0}", "-\u{301}"][r.usize(13)].into(),
        1 => { let n = r.usize(4); String::from_utf8_lossy(&r.bytes(n)).to_string() }
        _ => format!("f{}", r.below(100)),
    }
}
/// numbers and separators in any arrangement
fn separators(r: &mut Rng, s: &str) -> String {
    let mut o = String::new();
    let n = 1 + r.usize(3);
    for _ in 0..r.usize(2) { o += s; }
    for k in 0..n { if k > 0 { for _ in 0..1 + r.usize(2) { o += s; } } if r.chance(5, 6) { o += &good(r).to_string(); } }
    for _ in 0..r.usize(3) { o += s; }
    o
}
fn option(r: &mut Rng, wild: bool) -> Vec<String> {
    let k = r.below(5);
    let name = match (k, r.bool()) { (0, true) => "-i", (0, _) => "--input", (1, true) => "-o", (1, _) => "--output", (2, true) => "-fr", (2, _) => "--frames", (3, true) => "-s", (3, _) => "--size", (4, true) => "-r", (_, _) => "--framerate" };
    let mut v = vec![name.to_string()];
    v.push(match k {
        0 | 1 => text(r),
        2 => if wild { number(r) } else { format!("{}", r.below(1000)) },
        3 => if wild { match r.below(7) { 5 => separators(r, "x"), 6 => separators(r, "X"), 0 => number(r), 1 => format!("{}x{}x{}", good(r), good(r), good(r)), 2 => format!("{}X{}", good(r), good(r)), _ => format!("{}x{}", number(r), number(r)) } } else { format!("{}x{}", good(r), good(r)) },
        _ => if wild { match r.below(6) { 5 => separators(r, "/"), 0 => number(r), 1 => format!("{}/{}/{}", number(r), number(r), number(r)), 2 => format!("{}:{}", number(r), number(r)), _ => format!("{}/{}", number(r), number(r)) } } else { format!("{}/{}", 1 + r.below(70000), 1 + r.below(2000)) },
    });
    if wild {
        match r.below(12) {
            0 => v[0] = ["", "-", "--", "---size", "size", "-size", "--s", "-f", "--fr", "--Input", "-I", "é", "-é", "--é", "x", "-x", "--unknown", "--input=1", "-i1", " -i", "-s ", "–s"][r.usize(22)].into(),
            1 => { v.pop(); }
            2 => v.push(text(r)),
            _ => {}
        }
    }
    v
}
fn is_help(a: &str) -> bool { a == "-h" || a == "--help" }

fn check(args: &[String], run: &Runner) -> Result<Option<Conf>, String> {
    let mut c = Config::default();
    CommandOption::init_config(&mut c);
    let mut m = Conf { frames: Some(4294967295), rate: Some((30, 1)), ..Conf::default() };
    ensure_eq!(observe(&c), m, "defaults");
    let want = model(args, &mut m);
    let got = CommandOption::parse(args.to_vec(), &mut c);
    match (&got, &want) {
        (Ok(rest), Ok(())) => {
            ensure!(rest.is_empty(), "{:?}: arguments left over: {:?}", args, rest);
            ensure_eq!(observe(&c), m, "configuration from {:?}", args);
            let v = CommandOption::validate_config(&c);
            ensure_eq!(v.is_ok(), valid(&m), "validity of {:?} from {:?}", m, args);
            if let Err(e) = v { ensure!(!e.is_empty(), "an invalid configuration is rejected without a message"); }
            run.count(if valid(&m) { "accepted configurations" } else { "configurations rejected by validation" }, 1);
            Ok(Some(m))
        }
        (Err(e), Err(_)) => { ensure!(!e.is_empty(), "{:?} is rejected without a message", args); run.count("rejected argument vectors", 1); Ok(None) }
        (Ok(_), Err(e)) => Err(format!("{:?} is accepted as {:?}; should be rejected: {}", args, observe(&c), e)),
        (Err(e), Ok(())) => Err(format!("{:?} is rejected ({}); means {:?}", args, e, m)),
    }
}

fn main() {
    let mut r = Runner::new("C19", "a case is one argument vector (valid option sequences in random order and with repetitions, then mutated: malformed numbers and pairs, missing arguments, unknown and non-ASCII names) parsed and validated from the defaults and compared with an independent reading of the usage text; non-trivial: at least one option; distinct: by the vector");
    let n = r.n(40000, 1_500_000);
    r.suite("well-formed", n, |rng, _i, run| {
        let mut a: Vec<String> = vec![];
        // all required ones in random order, then repetitions
        let mut req = vec![vec!["-i".to_string(), text(rng)], vec!["--output".into(), text(rng)], vec!["-s".into(), format!("{}x{}", good(rng), good(rng))]];
        for _ in 0..rng.usize(4) { req.push(option(rng, false)); }
        if rng.chance(1, 6) { req.remove(rng.usize(3)); }
        while !req.is_empty() { let k = rng.usize(req.len()); a.extend(req.swap_remove(k)); }
        let m = check(&a, run)?;
        Ok(Case::new(hash_of(&a), true, format!("{:?} -> {:?}", a, m)))
    });
    r.suite("hostile", n, |rng, _i, run| {
        let mut a: Vec<String> = vec![];
        for _ in 0..rng.usize(6) { a.extend(option(rng, true)); }
        if !a.is_empty() && rng.chance(1, 8) { let (i, j) = (rng.usize(a.len()), rng.usize(a.len())); a.swap(i, j); }
        // the help option ends the process; the end-to-end check covers it
        for x in a.iter_mut() { if is_help(x) { *x = "-H".into(); } }
        let m = check(&a, run)?;
        Ok(Case::new(hash_of(&a), !a.is_empty(), format!("{:?} -> {:?}", a, m)))
    });
    // a configuration that is valid but for one option
    r.suite("one-wild-option", n, |rng, _i, run| {
        let mut req: Vec<Vec<String>> = vec![vec!["-i".into(), "a".into()], vec!["-o".into(), "b".into()], vec!["-s".into(), "16x9".into()]];
        let mut o = option(rng, true);
        if o.len() == 2 && (o[0] == "-r" || o[0] == "--framerate") && rng.bool() { let z = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 1, _ => r.edgy(1 << 33) }; o[1] = if rng.chance(1, 4) { format!("{}", z(rng)) } else { format!("{}/{}", z(rng), z(rng)) }; run.count("rates around zero", 1); }
        for x in o.iter_mut() { if is_help(x) { *x = "-H".into(); } }
        req.push(o);
        let last = req.pop().unwrap(); let at = if rng.bool() { 3 } else { rng.usize(4) }; req.insert(at, last);
        let a: Vec<String> = req.into_iter().flatten().collect();
        let m = check(&a, run)?;
        Ok(Case::new(hash_of(&a), true, format!("{:?} -> {:?}", a, m)))
    });
    // the size limits, both dimensions
    r.suite_exhaustive("size-limits", 8200, |rng, i, run| {
        let o = good(rng);
        let s = if rng.bool() { format!("{}x{}", i, o) } else { format!("{}x{}", o, i) };
        let a: Vec<String> = ["-i", "a", "-o", "b", "-s", &s].iter().map(|x| x.to_string()).collect();
        check(&a, run)?;
        Ok(Case::new(i, true, s))
    });
    // every single-character and two-character option name
    r.suite_exhaustive("short-names", 128 * 128, |_g, i, run| {
        let n: String = [(i / 128) as u8, (i % 128) as u8].iter().filter(|&&b| b != 0).map(|&b| b as char).collect();
        let mut a = vec![format!("-{}", n)];
        if is_help(&a[0]) { a[0] = "-hh".into(); }
        a.push("7".into());
        check(&a, run)?;
        Ok(Case::new(i, true, format!("{:?}", a)))
    });
    // long histories: thousands of options, the last one counts
    let n = r.n(20, 200);
    r.suite("long", n, |rng, _i, run| {
        let k = 100 + rng.usize(400);
        let a: Vec<String> = (0..k).flat_map(|_| option(rng, false)).map(|x| if is_help(&x) { "x".into() } else { x }).collect();
        check(&a, run)?;
        run.count("options in long vectors", k as u64);
        Ok(Case::new(hash_of(&a), true, format!("{} options", k)))
    });
    for k in ["accepted configurations", "configurations rejected by validation", "rejected argument vectors", "options in long vectors", "rates around zero"] { r.require(k); }
    r.assume("numbers are unsigned decimals with an optional plus sign, as Rust reads them; the partial configuration after a rejected vector is not observed, since the program stops");
    r.finish();
}
