//! C20: the program end to end, hooks off: real processes, files, pipes and devices.
#![allow(dead_code)]
#[path = "../obus.rs"] mod obus;
use mon::bits::{self, BitReader};
use mon::*;
use obus::*;
use std::fs::{self, File};
use std::io::{Read, Write};
use std::os::unix::ffi::OsStringExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug)]
struct Done { code: Option<i32>, out: Vec<u8>, err: String }

enum In { Null, File(String), Open(File), Pipe(Vec<u8>, Vec<usize>) }
enum Out { Capture, File(String), ClosedPipe }

/// the write end of a pipe nobody can read any more; made before any thread or process exists, so that no
/// process started meanwhile can hold the other end
static CLOSED: std::sync::OnceLock<std::io::PipeWriter> = std::sync::OnceLock::new();

/// runs the program; a run that uses more than a minute of wall time is stopped and reported
fn run_prog(args: &[std::ffi::OsString], input: In, output: Out) -> Result<Done, String> {
    let bin = std::env::var("AV1ENC_BIN").map_err(|_| "AV1ENC_BIN is not set".to_string())?;
    let mut c = Command::new(bin);
    c.args(args).env("RUST_BACKTRACE", "0").env_remove("CLICOLOR_FORCE").stderr(Stdio::piped());
    let mut feed = None;
    match input {
        In::Null => { c.stdin(Stdio::null()); }
        In::File(p) => { c.stdin(File::open(&p).map_err(|e| e.to_string())?); }
        In::Open(f) => { c.stdin(f); }
        In::Pipe(d, cuts) => { c.stdin(Stdio::piped()); feed = Some((d, cuts)); }
    }
    let mut cap = false;
    match output {
        Out::Capture => { c.stdout(Stdio::piped()); cap = true; }
        Out::File(p) => { c.stdout(fs::OpenOptions::new().write(true).open(&p).map_err(|e| e.to_string())?); }
        Out::ClosedPipe => {
            let w = CLOSED.get().unwrap().try_clone().map_err(|e| e.to_string())?;
            c.stdout(Stdio::from(std::os::fd::OwnedFd::from(w)));
        }
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot start the program: {}", e))?;
    let writer = feed.map(|(d, cuts)| { let mut s = ch.stdin.take().unwrap(); std::thread::spawn(move || {
        let mut at = 0;
        for k in cuts { let e = (at + k).min(d.len()); if s.write_all(&d[at..e]).is_err() { return; } at = e; std::thread::sleep(Duration::from_micros(200)); }
        let _ = s.write_all(&d[at..]);
    }) });
    let o = if cap { let mut s = ch.stdout.take().unwrap(); Some(std::thread::spawn(move || { let mut v = vec![]; let _ = s.read_to_end(&mut v); v })) } else { None };
    let mut es = ch.stderr.take().unwrap();
    let e = std::thread::spawn(move || { let mut v = vec![]; let _ = es.read_to_end(&mut v); v });
    let t0 = Instant::now();
    let st = loop {
        if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? { break s; }
        if t0.elapsed() > Duration::from_secs(120) { let _ = ch.kill(); let _ = ch.wait(); return Err(format!("the program does not end: {:?}", args)); }
        std::thread::sleep(Duration::from_micros(300));
    };
    if let Some(w) = writer { let _ = w.join(); }
    Ok(Done { code: st.code(), out: o.map_or(vec![], |o| o.join().unwrap()), err: String::from_utf8_lossy(&e.join().unwrap()).to_string() })
}
/// a descriptor that delivers exactly n bytes and then fails: this process's own memory, opened
/// shortly before the end of a mapping that nothing follows
fn failing(n: usize) -> Option<File> {
    use std::io::{Seek, SeekFrom};
    let maps = fs::read_to_string("/proc/self/maps").ok()?;
    let mut v: Vec<(u64, u64, bool, bool)> = vec![];
    for l in maps.lines() {
        let mut it = l.split_whitespace();
        let (a, b) = it.next()?.split_once('-')?;
        let p = it.next()?;
        v.push((u64::from_str_radix(a, 16).ok()?, u64::from_str_radix(b, 16).ok()?, p.starts_with('r'), l.contains(" /")));
    }
    for (k, m) in v.iter().enumerate() {
        if !m.2 || !m.3 || m.1 - m.0 < n as u64 || v.get(k + 1).map_or(false, |x| x.0 < m.1 + 65536) { continue; }
        let open = || -> Option<File> { let mut f = File::open("/proc/self/mem").ok()?; f.seek(SeekFrom::Start(m.1 - n as u64)).ok()?; Some(f) };
        let mut f = open()?;
        let mut b = vec![0; n];
        if f.read_exact(&mut b).is_ok() && f.read(&mut [0; 16]).is_err() { return open(); }
    }
    None
}
fn os(a: &[String]) -> Vec<std::ffi::OsString> { a.iter().map(|s| s.into()).collect() }

/// the stream for a sequence of complete frames: one temporal unit with one sequence header
fn check_stream(d: &[u8], w: usize, h: usize) -> Result<(), String> {
    ensure!(d.len() >= 5, "a stream of {} bytes", d.len());
    ensure!(d[0] < 128 && d[0] as usize == d.len() - 1, "temporal_unit_size {} in a stream of {} bytes", d[0], d.len());
    ensure!(d[1] as usize == d.len() - 2, "frame_unit_size {} in a stream of {} bytes", d[1], d.len());
    ensure!(d[2] as usize == d.len() - 3, "obu_length {} in a stream of {} bytes", d[2], d.len());
    ensure!(d[3] == 1 << 3, "OBU header {:#x}", d[3]);
    let b = bits::from_bytes(&d[4..]);
    let stop = b.iter().rposition(|x| *x == 1).ok_or("no trailing bit")?;
    ensure!(b.len() - stop <= 8, "trailing zero bytes");
    let mut r = BitReader::new(&b[..stop]);
    let s = parse_seq(&mut r)?;
    ensure!(r.left() == 0, "{} bits after the sequence header", r.left());
    ensure_eq!((s.max_w, s.max_h), (w as u64, h as u64), "coded frame size");
    ensure_eq!((s.profile, s.mono, s.ssx, s.ssy, s.high, s.reduced, s.ops.len()), (0, false, true, true, false, false, 1), "profile, format and operating points");
    Ok(())
}
fn banner(d: &Done) -> Result<(), String> { ensure!(d.err.contains("av1enc version"), "no banner on standard error: {:?}", d.err); Ok(()) }
fn failed(d: &Done, what: &str) -> Result<(), String> {
    ensure!(d.code.map_or(true, |c| c != 0), "{}: exit status 0, standard error {:?}", what, d.err);
    ensure!(d.code.is_some(), "{}: killed by a signal", what);
    ensure!(d.err.lines().count() >= 2, "{}: no message: {:?}", what, d.err);
    ensure!(d.out.is_empty(), "{}: {} bytes on standard output", what, d.out.len());
    Ok(())
}

fn main() {
    { let (rd, wr) = std::io::pipe().expect("pipe"); drop(rd); let _ = CLOSED.set(wr); }
    let mut r = Runner::new("C20", "a case is one run of the real program: frame size, number of complete frames, a partial last frame, frame limit, input from a file, redirected or piped in pieces, output to a new or existing file, standard output, a full device or a closed pipe, or bad arguments; the output bytes, standard streams and exit status are checked; non-trivial: every case; distinct: by arguments and input");
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    let dir = &dir;
    let n = r.n(700, 15000);
    r.suite("encode", n, |rng, i, run| {
        let (w, h) = match rng.below(10) { 0 => (1, 1), 1 => (8191, 1 + rng.usize(3)), 2 => (1 + rng.usize(3), 8191), 3 => (1 + rng.usize(400), 1 + rng.usize(400)), 4 => { let p = 1 << rng.below(8); (p, p + rng.usize(3)) }, _ => (1 + rng.usize(90), 1 + rng.usize(90)) };
        let fs = w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2);
        let k = match rng.below(6) { 0 => 0, 1 | 2 => 1, _ => rng.usize(6) };
        let extra = match rng.below(6) { 0 => fs - 1, 1 => 1.min(fs - 1), 2 => rng.usize(fs), 3 => (w * h).min(fs - 1), 4 => (w * h + ((w + 1) / 2) * ((h + 1) / 2)).min(fs - 1), _ => 0 };
        let mut data = rng.bytes(k * fs + extra);
        if rng.chance(1, 5) { for b in data.iter_mut() { *b = b'\n'; } }
        let limit: Option<u64> = match rng.below(6) { 0 => Some(0), 1 => Some(1), 2 => Some(rng.below(9)), 3 => Some(u64::MAX), _ => None };
        let coded = k > 0 && limit != Some(0);
        let mut a: Vec<Vec<String>> = vec![vec![rng.pick(&["-s", "--size"]).to_string(), format!("{}x{}", w, h)]];
        if let Some(l) = limit { a.push(vec![rng.pick(&["-fr", "--frames"]).to_string(), l.to_string()]); }
        if rng.chance(1, 3) { a.push(vec![rng.pick(&["-r", "--framerate"]).to_string(), rng.pick(&["30", "24000/1001", "1/1"]).to_string()]); }
        let p = format!("{}/in{}", dir, i); let q = format!("{}/out{}", dir, i);
        let how = rng.below(3);
        let (inp, mut inp2) = match how {
            0 => { fs::write(&p, &data).map_err(|e| format!("scratch: {}", e))?; a.push(vec!["-i".into(), p.clone()]); (In::Null, "a file") }
            1 => { fs::write(&p, &data).map_err(|e| format!("scratch: {}", e))?; a.push(vec!["--input".into(), "stdin".into()]); (In::File(p.clone()), "redirected") }
            _ => { a.push(vec!["-i".into(), "stdin".into()]); let cuts = (0..rng.usize(12)).map(|_| match rng.below(3) { 0 => 1 + rng.usize(10), 1 => fs, _ => 1 + rng.usize(fs) }).collect(); (In::Pipe(data.clone(), cuts), "a pipe in pieces") }
        };
        let to_file = rng.bool();
        if to_file { a.push(vec![rng.pick(&["-o", "--output"]).to_string(), q.clone()]); if rng.bool() { fs::write(&q, rng.bytes(3000)).map_err(|e| format!("scratch: {}", e))?; inp2 = if inp2 == "a file" { "a file onto an existing one" } else { inp2 }; } } else { a.push(vec!["-o".into(), "stdout".into()]); }
        let mut args = vec![]; while !a.is_empty() { let j = rng.usize(a.len()); args.extend(a.swap_remove(j)); }
        let d = run_prog(&os(&args), inp, Out::Capture)?;
        let ctx = format!("{:?} with {} complete frames of {} bytes and {} more from {}", args, k, fs, extra, inp2);
        ensure_eq!(d.code, Some(0), "exit status of {} ({})", ctx, d.err);
        banner(&d)?;
        let stream = if to_file { ensure!(d.out.is_empty(), "{}: {} bytes on standard output", ctx, d.out.len()); let f = fs::read(&q).map_err(|e| format!("{}: no output file: {}", ctx, e))?; f } else { d.out };
        let _ = fs::remove_file(&p); let _ = fs::remove_file(&q);
        if coded { check_stream(&stream, w, h).map_err(|m| format!("{}: {}", ctx, m))?; run.count("streams checked", 1); }
        else { ensure!(stream.is_empty(), "{}: no frame to code, but {} bytes of output", ctx, stream.len()); run.count("runs without a complete frame", 1); }
        run.count(match how { 0 => "inputs from files", 1 => "inputs redirected", _ => "inputs piped in pieces" }, 1);
        run.count(if to_file { "outputs to files" } else { "outputs to standard output" }, 1);
        if extra > 0 { run.count("partial last frames", 1); }
        Ok(Case::new(hash_of(&(&args.iter().filter(|x| !x.starts_with('/')).collect::<Vec<_>>(), k, extra, how)), true, format!("{} -> {} bytes", ctx, stream.len())))
    });
    // long inputs and large pictures
    let n = r.n(24, 200);
    r.suite("long", n, |rng, i, run| {
        let (w, h, k) = match i % 8 { 0 => (1, 1, 66_000 + rng.usize(2000)), 1 => (1 + rng.usize(3), 1 + rng.usize(3), 250 + rng.usize(12)), 2 => (1 + rng.usize(8), 1 + rng.usize(8), 1000 + rng.usize(100)), 3 => (1, 2, 4090 + rng.usize(12)),
            4 => (1920, 1080, 1 + rng.usize(2)), 5 => (3840 + rng.usize(2), 2160 + rng.usize(2), 1), 6 => (8191, 300 + rng.usize(200), 1), _ => (300 + rng.usize(200), 8191, 1) };
        let fs_ = w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2);
        let limit: Option<usize> = match rng.below(4) { 0 => Some(k), 1 => Some(k + 1), 2 => Some(1 + rng.usize(k)), _ => None };
        let extra = if rng.bool() { 0 } else { rng.usize(fs_) };
        let data = vec![rng.u64() as u8; k * fs_ + extra];
        let (p, q) = (format!("{}/lin{}", dir, i), format!("{}/lout{}", dir, i));
        fs::write(&p, &data).map_err(|e| format!("scratch: {}", e))?;
        let piped = rng.bool();
        let to_file = rng.bool();
        let mut a = vec!["-s".to_string(), format!("{}x{}", w, h), "-o".into(), if to_file { q.clone() } else { "stdout".into() }, "-i".into(), if piped { "stdin".into() } else { p.clone() }];
        if let Some(l) = limit { a.push("-fr".into()); a.push(l.to_string()); }
        let d = run_prog(&os(&a), if piped { In::File(p.clone()) } else { In::Null }, Out::Capture)?;
        let ctx = format!("{:?} with {} complete frames and {} bytes", a, k, extra);
        ensure_eq!(d.code, Some(0), "exit status of {} ({})", ctx, d.err);
        let out = if to_file { fs::read(&q).map_err(|e| format!("{}: {}", ctx, e))? } else { d.out };
        let _ = fs::remove_file(&p); let _ = fs::remove_file(&q);
        check_stream(&out, w, h).map_err(|m| format!("{}: {}", ctx, m))?;
        run.count(if k > 200 { "inputs of hundreds of frames" } else { "large pictures" }, 1);
        Ok(Case::new(hash_of(&(w, h, k, limit, extra)), true, ctx))
    });
    let n = r.n(350, 5000);
    r.suite("faults", n, |rng, i, run| {
        let (w, h) = (1 + rng.usize(30), 1 + rng.usize(30));
        let fs_ = w * h + 2 * ((w + 1) / 2) * ((h + 1) / 2);
        let p = format!("{}/fin{}", dir, i); let q = format!("{}/fout{}", dir, i);
        let nf = 1 + rng.usize(3);
        let (one, none) = (rng.bytes(fs_ * nf), rng.bytes(fs_ - 1));
        fs::write(&p, &one).map_err(|e| format!("scratch: {}", e))?;
        let sz = format!("{}x{}", w, h);
        let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
        let what;
        match rng.below(15) {
            0 => { what = "missing input file"; let d = run_prog(&os(&s(&["-i", &format!("{}/none{}", dir, i), "-o", &q, "-s", &sz])), In::Null, Out::Capture)?; failed(&d, what)?; }
            1 => { what = "input is a directory"; let d = run_prog(&os(&s(&["-i", dir, "-o", "stdout", "-s", &sz])), In::Null, Out::Capture)?; failed(&d, what)?; }
            2 => { what = "output in a missing directory"; let d = run_prog(&os(&s(&["-i", &p, "-o", &format!("{}/none/x", dir), "-s", &sz])), In::Null, Out::Capture)?; failed(&d, what)?; }
            3 => { what = "output device full"; let d = run_prog(&os(&s(&["-i", &p, "-o", "/dev/full", "-s", &sz])), In::Null, Out::Capture)?; failed(&d, what)?; }
            4 => { what = "standard output full"; let d = run_prog(&os(&s(&["-i", &p, "-o", "stdout", "-s", &sz])), In::Null, Out::File("/dev/full".into()))?; failed(&d, what)?; }
            5 => { what = "standard output closed"; let d = run_prog(&os(&s(&["-i", &p, "-o", "stdout", "-s", &sz])), In::Null, Out::ClosedPipe)?; failed(&d, what)?; }
            6 => { what = "full device, nothing to write"; fs::write(&p, &none).map_err(|e| format!("scratch: {}", e))?; let d = run_prog(&os(&s(&["-i", &p, "-o", "/dev/full", "-s", &sz])), In::Null, Out::Capture)?; ensure_eq!(d.code, Some(0), "{}: {}", what, d.err); }
            7 => { what = "invalid options";
                let bad: Vec<String> = match rng.below(9) { 0 => s(&["-s", &sz, "-i", &p]), 1 => s(&["-s", &sz, "-o", &q]), 2 => s(&["-i", &p, "-o", &q]), 3 => s(&["-i", &p, "-o", &q, "-s", "0x5"]), 4 => s(&["-i", &p, "-o", &q, "-s", "8192x5"]), 5 => s(&["-i", &p, "-o", &q, "-s", &sz, "-r", "1/0"]),
                    6 => s(&["-i", &p, "-o", &q, "-s", &sz, "-fr", "x"]), 7 => s(&["-i", &p, "-o", &q, "-s", &sz, "-z"]), _ => s(&["-i", &p, "-o", &q, "-s", &sz, "-fr"]) };
                let d = run_prog(&os(&bad), In::Null, Out::Capture)?; failed(&d, &format!("{:?}", bad))?;
                ensure!(!std::path::Path::new(&q).exists(), "{:?} created the output file", bad); }
            8 => { what = "help"; let mut a = if rng.bool() { s(&["-i", &p, "-o", &q]) } else { vec![] }; a.push(rng.pick(&["-h", "--help"]).into()); if rng.bool() { a.push("--junk".into()); }
                let d = run_prog(&os(&a), In::Null, Out::Capture)?; ensure_eq!(d.code, Some(0), "{:?}", a);
                let t = String::from_utf8_lossy(&d.out).to_string();
                for o in ["--help", "-h", "--input", "-i", "--output", "-o", "--frames", "-fr", "--size", "-s", "--framerate", "-r"] { ensure!(t.contains(o), "help does not mention {}: {}", o, t); }
                ensure!(!std::path::Path::new(&q).exists(), "help created the output file"); }
            9 => { what = "no arguments"; let d = run_prog(&[], In::Null, Out::Capture)?; ensure!(d.code == Some(0) && d.out.is_empty(), "no arguments: {:?}", d); banner(&d)?; }
            10 => { what = "argument that is not UTF-8"; let mut a = os(&s(&["-i", &p, "-o", &q, "-s"])); a.push(std::ffi::OsString::from_vec(vec![0xff, 0xfe])); let d = run_prog(&a, In::Null, Out::Capture)?; failed_any(&d, what)?; }
            11 => { what = "empty standard input"; let d = run_prog(&os(&s(&["-i", "stdin", "-o", &q, "-s", &sz])), In::Null, Out::Capture)?; ensure_eq!(d.code, Some(0), "{}: {}", what, d.err); ensure!(fs::read(&q).map_or(false, |f| f.is_empty()), "empty input gave output"); }
            12 => { what = "standard input is a directory"; let f = File::open(dir).map_err(|e| e.to_string())?; let d = run_prog(&os(&s(&["-i", "stdin", "-o", "stdout", "-s", &sz])), In::Open(f), Out::Capture)?; failed(&d, what)?; }
            13 => {
                let k = match rng.below(4) { 0 => rng.usize(fs_), 1 => fs_ * (1 + rng.usize(3)), _ => fs_ + rng.usize(3 * fs_) };
                match failing(k) { None => what = "no descriptor that fails later here", Some(f) => {
                    what = "input fails after a while";
                    let to_file = rng.bool();
                    let d = run_prog(&os(&s(&["-i", "stdin", "-o", if to_file { &q } else { "stdout" }, "-s", &sz])), In::Open(f), Out::Capture)?;
                    ensure!(d.code.map_or(false, |c| c != 0) && d.err.lines().count() >= 2, "input of {} bytes (frames of {}) and then a read error: status {:?}, {:?}", k, fs_, d.code, d.err);
                } }
            }
            _ => { what = "the same input twice";
                let a = os(&s(&["-i", &p, "-o", "stdout", "-s", &sz])); let b = os(&s(&["-i", "stdin", "-o", &q, "-s", &sz]));
                let (x, y) = (run_prog(&a, In::Null, Out::Capture)?, run_prog(&b, In::Pipe(one.clone(), vec![1, fs_ / 2]), Out::Capture)?);
                let f = fs::read(&q).map_err(|e| e.to_string())?;
                ensure!(x.out == f && x.code == Some(0) && y.code == Some(0) && !f.is_empty(), "file to standard output gave {:?}, pipe to file {:?}", x.out, f); }
        }
        let _ = fs::remove_file(&p); let _ = fs::remove_file(&q);
        run.count(what, 1);
        Ok(Case::new(hash_of(&(what, i)), true, format!("{} ({})", what, sz)))
    });
    for k in ["inputs of hundreds of frames", "large pictures", "streams checked", "runs without a complete frame", "inputs from files", "inputs redirected", "inputs piped in pieces", "outputs to files", "outputs to standard output", "partial last frames",
        "missing input file", "input is a directory", "output in a missing directory", "output device full", "standard output full", "standard output closed", "invalid options", "help", "no arguments", "the same input twice"] { r.require(k); }
    r.assume("frames after the first add nothing to the stream: the program codes the sequence header only");
    r.finish();
}
/// failed, with or without a banner
fn failed_any(d: &Done, what: &str) -> Result<(), String> { ensure!(d.code.map_or(false, |c| c != 0), "{}: exit status {:?}", what, d.code); ensure!(!d.err.is_empty() && d.out.is_empty(), "{}: {:?}", what, d); Ok(()) }
