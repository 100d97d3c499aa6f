//! C18: the reader delivers the input in order and completely, however it arrives.
use av1enc::binary_reader::BinaryReader;
use mon::*;
use std::cell::RefCell;
use std::io::{self, BufRead, BufReader, Read};
use std::rc::Rc;

/// A source within the contract of `Read`: short reads, interrupts, an error at a position.
struct Source { data: Vec<u8>, at: usize, rng: Rng, short: bool, den: u64, fail_at: Option<usize>, log: Rc<RefCell<(u64, u64)>> }
impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.den > 0 && self.rng.chance(1, self.den) { self.log.borrow_mut().1 += 1; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
        let mut n = b.len().min(self.data.len() - self.at);
        if let Some(f) = self.fail_at { if self.at >= f { return Err(io::Error::new(io::ErrorKind::Other, "device error")); } n = n.min(f - self.at); }
        if self.short && n > 1 { let m = 1 + self.rng.usize(n); if m < n { self.log.borrow_mut().0 += 1; } n = m; }
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn source(rng: &mut Rng, data: Vec<u8>) -> (Source, Rc<RefCell<(u64, u64)>>) {
    let log = Rc::new(RefCell::new((0, 0)));
    (Source { data, at: 0, short: rng.chance(3, 4), den: [0, 0, 2, 5][rng.usize(4)], fail_at: None, rng: Rng::new(rng.u64()), log: log.clone() }, log)
}

fn main() {
    let mut r = Runner::new("C18", "a case is an input of random length behind a source with short reads, interrupts and possibly an error, read by a sequence of vector fills (of 8, 16, 32 and 64 bit elements), plain reads and buffered reads; every result, count and element is compared with the input; non-trivial: the input is not empty; distinct: by input and sequence");
    let n = r.n(30000, 800000);
    r.suite("sequences", n, |rng, _i, run| {
        let len = match rng.below(4) { 0 => rng.usize(4), 1 => rng.usize(70), _ => rng.usize(3000) };
        let data = rng.bytes(len);
        let (mut s, log) = source(rng, data.clone());
        let fail = if rng.chance(1, 4) { let f = rng.usize(len + 1); s.fail_at = Some(f); Some(f) } else { None };
        let cap = [1, 2, 7, 64, 8192][rng.usize(5)];
        let mut rd = BinaryReader::verif_from(Box::new(BufReader::with_capacity(cap, s)));
        let mut at = 0; let mut hist = vec![];
        let limit = fail.unwrap_or(len);
        let k = 1 + rng.usize(10);
        for _ in 0..k {
            let want = match rng.below(5) { 0 => 0, 1 => 1, 2 => rng.usize(40), 3 => len.saturating_sub(at), _ => rng.usize(len + 10) };
            let op = rng.below(7);
            hist.push((op, want));
            macro_rules! fill { ($t:ty) => {{
                let junk = rng.below(256) as u8;
                let mut v: Vec<$t> = vec![junk.into(); want];
                let res = rd.read_to_vec(&mut v);
                ensure_eq!(v.len(), want, "length of the vector after reading");
                // what the source can deliver
                let can = want.min(limit - at);
                match res {
                    Ok(got) => {
                        ensure!(fail.is_none() || can == want, "the source failed at byte {} and reading {} bytes at {} reported {}", limit, want, at, got);
                        ensure_eq!(got, can, "bytes read of {} wanted at {} of {}", want, at, limit);
                        for j in 0..want { let e: $t = if j < can { data[at + j].into() } else { 0u8.into() }; ensure!(v[j] == e, "element {} of a read of {} at {}: {:?}, expected {:?}", j, want, at, v[j], e); }
                        if got < want { run.count("reads that met the end of the input", 1); }
                        run.count("elements compared", want as u64);
                        at += got;
                    }
                    Err(e) => {
                        ensure!(e.kind() != io::ErrorKind::Interrupted, "an interrupted read was reported as a failure");
                        ensure!(fail.is_some() && can < want, "reading {} bytes at {} of {} failed: {}", want, at, limit, e);
                        run.count("source errors reported", 1);
                        break;
                    }
                }
            }}; }
            match op {
                0 => fill!(u8), 1 | 2 => fill!(i16), 3 => fill!(u32), 4 => fill!(u64),
                5 => { // plain reads
                    let mut b = vec![0; want];
                    match rd.read(&mut b) { Ok(g) => { ensure!(g <= want && at + g <= limit && b[..g] == data[at..at + g], "plain read at {}", at); ensure!(g > 0 || want == 0 || at == limit, "plain read returned nothing at {} of {}", at, limit); at += g; }
                        Err(e) => if e.kind() != io::ErrorKind::Interrupted { ensure!(fail == Some(at), "plain read at {} failed: {}", at, e); break; } }
                    run.count("plain reads", 1);
                }
                _ => { // buffered reads
                    let take = match rd.fill_buf() {
                        Ok(b) => { ensure!(at + b.len() <= limit && *b == data[at..at + b.len()], "buffer at {}", at); ensure!(!b.is_empty() || at == limit, "empty buffer at {} of {}", at, limit); b.len().min(want) }
                        Err(e) => { if e.kind() != io::ErrorKind::Interrupted { ensure!(fail == Some(at), "fill_buf at {} failed: {}", at, e); break; } 0 }
                    };
                    rd.consume(take); at += take;
                    run.count("buffered reads", 1);
                }
            }
        }
        let l = log.borrow();
        run.count("short reads met", l.0); run.count("interrupts met", l.1);
        Ok(Case::new(hash_of(&(&data, &hist)), len > 0, format!("{} bytes, calls {:?}, source error {:?}, {} short reads, {} interrupts", len, hist, fail, l.0, l.1)))
    });
    // frame-sized fills in sequence, as the program does them
    let n = r.n(400, 6000);
    r.suite("frames", n, |rng, _i, run| {
        let (w, h) = (1 + rng.usize(90), 1 + rng.usize(90));
        let (y, c) = (w * h, ((w + 1) / 2) * ((h + 1) / 2));
        let frames = rng.usize(4);
        let extra = rng.usize(y + 2 * c);
        let data = rng.bytes(frames * (y + 2 * c) + extra);
        let (s, log) = source(rng, data.clone());
        let mut rd = BinaryReader::verif_from(Box::new(BufReader::new(s)));
        let mut at = 0;
        for f in 0..frames {
            for n in [y, c, c] {
                let mut v: Vec<i16> = vec![-1; n];
                let g = rd.read_to_vec(&mut v).map_err(|e| e.to_string())?;
                ensure_eq!(g, n, "plane of frame {}", f);
                ensure!(v.iter().zip(&data[at..]).all(|(a, b)| *a == *b as i16), "plane of frame {} differs", f);
                at += n; run.count("planes compared", 1);
            }
        }
        let mut rest = vec![];
        rd.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        ensure!(rest == data[at..], "rest of the input after {} frames", frames);
        run.count("short reads met", log.borrow().0);
        Ok(Case::new(hash_of(&data), true, format!("{} frames of {}x{} and {} bytes", frames, w, h, extra)))
    });
    // vectors and inputs far larger than any buffer
    let n = r.n(40, 600);
    r.suite("large", n, |rng, _i, run| {
        let len = 60_000 + rng.usize(260_000);
        let data = rng.bytes(len);
        let (mut s, log) = source(rng, data.clone());
        if rng.bool() { s.short = false; }
        let mut rd = BinaryReader::verif_from(Box::new(BufReader::with_capacity([512, 8192, 100_000][rng.usize(3)], s)));
        let mut at = 0;
        while at < len {
            let want = match rng.below(4) { 0 => 65_530 + rng.usize(12), 1 => 8190 + rng.usize(4), 2 => len - at + rng.usize(4), _ => rng.usize(len) };
            let mut v: Vec<i16> = vec![-1; want];
            let g = rd.read_to_vec(&mut v).map_err(|e| e.to_string())?;
            let can = want.min(len - at);
            ensure_eq!(g, can, "bytes read of {} wanted at {} of {}", want, at, len);
            ensure!(v[..can].iter().zip(&data[at..]).all(|(a, b)| *a == *b as i16) && v[can..].iter().all(|x| *x == 0), "a read of {} bytes at {} delivers other bytes", want, at);
            at += can;
            if can > 65536 { run.count("reads of more than 64 KiB", 1); }
            run.count("elements compared", want as u64);
        }
        run.count("short reads met", log.borrow().0);
        Ok(Case::new(hash_of(&data), true, format!("{} bytes", len)))
    });
    let dir = std::env::var("VERIF_SCRATCH").unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().to_string());
    let dir = &dir;
    r.suite("files", 200, |rng, i, run| {
        let p = format!("{}/r{}", dir, i);
        let k = [0, 1, 100, 8191, 8192, 8193, 30000][rng.usize(7)];
        let data = rng.bytes(k);
        std::fs::write(&p, &data).map_err(|e| format!("scratch: {}", e))?;
        let mut rd = BinaryReader::file(&p).map_err(|e| e.to_string())?;
        let a = rng.usize(k + 1); let b = k - a + rng.usize(5);
        let (mut v, mut u) = (vec![9u8; a], vec![9i32; b]);
        ensure_eq!(rd.read_to_vec(&mut v).map_err(|e| e.to_string())?, a, "first read");
        ensure_eq!(rd.read_to_vec(&mut u).map_err(|e| e.to_string())?, k - a, "second read");
        ensure!(v == data[..a] && u.iter().enumerate().all(|(j, x)| *x == data.get(a + j).map_or(0, |y| *y as i32)), "contents");
        let _ = std::fs::remove_file(&p);
        ensure!(BinaryReader::file(&p).is_err(), "opening a missing file succeeded");
        run.count("files compared", 1);
        Ok(Case::new(hash_of(&(i, k)), true, format!("{} bytes in {} + {}", k, a, b)))
    });
    for k in ["reads of more than 64 KiB", "elements compared", "reads that met the end of the input", "source errors reported", "plain reads", "buffered reads", "short reads met", "interrupts met", "planes compared", "files compared"] { r.require(k); }
    r.finish();
}
