//! c8o: look for a text on which the real c8s binary does not do what the language says.
//!   c8o search BIN PROP SEED SECONDS MAXCASES SCRATCH OUTDIR
//!   c8o pair BIN OTHER SEED SECONDS MAXCASES SCRATCH   (do two binaries behave the same?)
//!   c8o replay BIN FILE SCRATCH
//!   c8o expect FILE
mod dict;
mod gen;
mod io;
mod lang;
mod run;
use gen::Rng;
use run::*;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } } o.push('"'); o }

const NAMES: &[&str] = &["in.s", "in.s", "in.s", "a b.S", "ü.s", "x", "d/in.s", "./in.s", "d e/f.g/in.x.s", "a:b.s", "c:/12:3:x.s", "{}%s\\.s", " in .s ", "~x'\".S", "a\nb.s", "in.s.s", "e\u{301}.s", "d/../d/in", "a23456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890.s"];

fn relevant(m: &Mismatch, prop: &str, focused: bool) -> bool {
    if m.props.contains(&prop) { return true; }
    // in a text of the property's own family the blame is wider, where the property cannot hold if the text fails
    focused && match m.kind {
        "crash" | "hang" => !matches!(prop, "C14" | "C15"),
        "accepted" => matches!(prop, "C06" | "C16" | "C17"),
        "image" => matches!(prop, "C06" | "C09" | "C16" | "C17"),
        "rejected" => matches!(prop, "C02" | "C06" | "C07" | "C08" | "C16" | "C17"),
        "hex" => prop == "C09",
        _ => false,
    }
}

fn shrink(w: &Worker, c: &Case, prop: &str, focused: bool) -> (Case, Mismatch) {
    let test = |c: &Case| -> Option<Mismatch> { judge(c, &w.run(c)).filter(|m| relevant(m, prop, focused)) };
    let mut best = c.clone();
    let mut mm = test(&best).unwrap_or(Mismatch { kind: "flaky", detail: "did not repeat".into(), props: vec![] });
    let kind = mm.kind;
    let t0 = Instant::now();
    let mut step = 1;
    while t0.elapsed() < Duration::from_secs(15) {
        // by lines, then by characters
        let text: Vec<Vec<u8>> = if step == 1 { best.src.split_inclusive(|&b| b == b'\n').map(|x| x.to_vec()).collect() } else { match std::str::from_utf8(&best.src) { Ok(s) => s.chars().map(|c| c.to_string().into_bytes()).collect(), Err(_) => best.src.iter().map(|b| vec![*b]).collect() } };
        let mut any = false;
        let mut size = text.len() / 2;
        let mut cur = text;
        while size >= 1 && t0.elapsed() < Duration::from_secs(15) {
            let mut i = 0;
            while i < cur.len() && t0.elapsed() < Duration::from_secs(15) {
                let mut t2 = cur.clone(); t2.drain(i..(i + size).min(cur.len()));
                let c2 = Case { src: t2.concat(), ..best.clone() };
                match test(&c2) { Some(m) if m.kind == kind => { best = c2; mm = m; cur = t2; any = true; } _ => i += size }
            }
            size /= 2;
        }
        if step == 2 && !any { break; }
        step = if step == 1 { 2 } else if any { 1 } else { break };
    }
    (best, mm)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("search") => search(&a[2..]),
        Some("pair") => pair(&a[2..]),
        Some("replay") => replay(&a[2..]),
        Some("dict") => dict::print(std::path::Path::new(&a[2])),
        Some("expect") => { println!("{:?}", lang::expected(&std::fs::read(&a[2]).unwrap()).out); }
        _ => { eprintln!("usage"); std::process::exit(2) }
    }
}

fn search(a: &[String]) {
    let (bin, prop, seed, secs, max, scratch, outdir) = (PathBuf::from(&a[0]), a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap(), PathBuf::from(&a[5]), PathBuf::from(&a[6]));
    let fresh = a.get(7).map(|p| dict::fresh(std::path::Path::new(p))).unwrap_or_default();
    let fresh_n: Vec<u64> = fresh.iter().filter_map(|l| match l { dict::L::N(n) if *n >= 4 && *n <= 140_000 => Some(*n), _ => None }).collect();
    let t0 = Instant::now();
    let limit = Duration::from_secs(20);
    let stop = AtomicBool::new(false);
    let count = AtomicU64::new(0);
    let foc = AtomicU64::new(0);
    let accepted = AtomicU64::new(0);
    let distinct: Mutex<std::collections::HashSet<u64>> = Mutex::new(Default::default());
    let found: Mutex<Option<(Case, Mismatch, bool)>> = Mutex::new(None);
    let mut iores: Option<(String, Mismatch)> = None;
    let mut iocount = 0;
    if prop == "C14" || prop == "C13" {
        let w = Worker::new(scratch.join("io"), bin.clone(), limit);
        let (n, r) = io::scenarios(&w, &prop);
        iocount = n;
        iores = r;
    }
    if iores.is_none() {
        let nthreads = 8u64;
        std::thread::scope(|s| {
            for t in 0..nthreads {
                let (bin, scratch, prop) = (bin.clone(), scratch.clone(), prop.clone());
                let (stop, count, foc, found, accepted, distinct, fresh, fresh_n) = (&stop, &count, &foc, &found, &accepted, &distinct, &fresh, &fresh_n);
                s.spawn(move || {
                    let w = Worker::new(scratch.join(format!("w{}", t)), bin, limit);
                    let mut k = t;
                    let mut seen = vec![];
                    while !stop.load(Ordering::Relaxed) && count.load(Ordering::Relaxed) < max && t0.elapsed().as_secs_f64() < secs {
                        let (c, focused) = make(&prop, seed, k, fresh, fresh_n);
                        let act = w.run(&c);
                        if act.code == Some(0) { accepted.fetch_add(1, Ordering::Relaxed); }
                        if let Some(m) = judge(&c, &act) {
                            if relevant(&m, &prop, focused) && !stop.swap(true, Ordering::SeqCst) {
                                let (c2, m2) = shrink(&w, &c, &prop, focused);
                                let (c2, m2) = if m2.kind == "flaky" { (c.clone(), m.clone()) } else { (c2, m2) };
                                *found.lock().unwrap() = Some((c2, m2, focused));
                            }
                        }
                        let mut h = 0xcbf29ce484222325u64; for b in &c.src { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
                        seen.push(h);
                        count.fetch_add(1, Ordering::Relaxed);
                        if focused { foc.fetch_add(1, Ordering::Relaxed); }
                        k += nthreads;
                    }
                    distinct.lock().unwrap().extend(seen);
                });
            }
        });
    }
    let _ = std::fs::remove_dir_all(&scratch);
    let mut o = format!("{{\"new_literals\":{},\"cases\":{},\"focused\":{},\"accepted\":{},\"distinct\":{},\"io_scenarios\":{},\"seconds\":{:.2}", fresh.len(), count.load(Ordering::Relaxed), foc.load(Ordering::Relaxed), accepted.load(Ordering::Relaxed), distinct.lock().unwrap().len(), iocount, t0.elapsed().as_secs_f64());
    if let Some((what, m)) = iores {
        o.push_str(&format!(",\"found\":{{\"kind\":{},\"detail\":{},\"scenario\":{}}}", js(m.kind), js(&m.detail), js(&what)));
    } else if let Some((c, m, f)) = found.into_inner().unwrap() {
        std::fs::create_dir_all(&outdir).unwrap();
        let p = outdir.join(format!("{}.input.s", prop));
        std::fs::write(&p, &c.src).unwrap();
        o.push_str(&format!(",\"found\":{{\"kind\":{},\"detail\":{},\"input\":{},\"mode\":{},\"name\":{},\"focused\":{},\"expected\":{}}}", js(m.kind), js(&m.detail), js(&p.to_string_lossy()), js(&format!("{:?}", c.mode)), js(&c.name), f, js(&{ let mut s = format!("{:?}", lang::expected(&c.src).out); if s.len() > 600 { let mut n = 600; while !s.is_char_boundary(n) { n -= 1 } s.truncate(n) } s })));
    }
    o.push('}');
    println!("{}", o);
}

/// Case number `k` of a search.
fn make(prop: &str, seed: u64, k: u64, fresh: &[dict::L], fresh_n: &[u64]) -> (Case, bool) {
    let focused = k % 10 != 9 || k < 200;
    let mut r = Rng::new(seed.wrapping_mul(1_000_003).wrapping_add(k));
    let src = if focused { gen::focus(prop, if k < 200 { k } else { 200 + (k - 200) / 10 * 9 + (k - 200) % 10 }, &mut r) } else { gen::program(&mut r).into_bytes() };
    let src = if k % 24 == 5 || k % 24 == 18 { gen::amplified(prop, &mut r) } else { src };
    let src = if k % 16 == 7 || !fresh_n.is_empty() && k % 16 == 11 { gen::sized(prop, &mut r, fresh_n) } else { src };
    let src = if k % 16 == 3 && k >= 100 && matches!(prop, "C10" | "C11" | "C12" | "C13" | "C15" | "C16" | "C17" | "C02") { gen::unicode(prop, k / 16, &mut r) } else { src };
    let src = if r.p(1, 30) { splice(&mut r, src) } else { src };
    let src = match std::str::from_utf8(&src) { Ok(t) if !fresh.is_empty() && k >= 100 && r.p(1, 2) => dict::mutate(&mut r, t, fresh).into_bytes(), _ => src };
    let mode = match r.n(6) { 0 => Mode::Stdout, 1 | 2 => Mode::Fresh, _ => Mode::Existing };
    let c = Case { src, mode, name: r.pick(NAMES).to_string() };
    (c, focused)
}

/// Runs two binaries on the same cases: exit status, standard streams and output file have to agree.
fn pair(a: &[String]) {
    let (b1, b2, seed, secs, max, scratch) = (PathBuf::from(&a[0]), PathBuf::from(&a[1]), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap(), a[4].parse::<u64>().unwrap(), PathBuf::from(&a[5]));
    const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];
    let t0 = Instant::now();
    let (count, accepted) = (AtomicU64::new(0), AtomicU64::new(0));
    let differ: Mutex<Vec<String>> = Mutex::new(vec![]);
    let limit = Duration::from_secs(60);
    let same = |x: &Actual, y: &Actual| x.code == Some(101) && y.code == Some(101) || x.code == y.code && x.stdout == y.stdout && x.stderr == y.stderr && x.file == y.file;
    let worker = |n: &str, b: &PathBuf| { let mut w = Worker::new(scratch.join(n), b.clone(), limit); w.arg0 = Some("c8s".into()); w };
    // command lines
    {
        let (w1, w2) = (worker("o1", &b1), worker("o2", &b2));
        for w in [&w1, &w2] { std::fs::write(w.dir.join("g.s"), b"jp 5\n.db 1,2,3\n").unwrap(); std::fs::write(w.dir.join("e.s"), b"jp x\n").unwrap(); std::fs::write(w.dir.join("u.s"), b"cls\n\xff\n").unwrap(); std::fs::create_dir_all(w.dir.join("d")).unwrap(); }
        let lines: &[&[&str]] = &[&[], &["-h"], &["--help"], &["-x"], &["-o"], &["g.s"], &["e.s"], &["u.s"], &["d"], &["none.s"], &["g.s", "e.s"], &["-o", "-", "g.s"], &["g.s", "-o", "x.hex"], &["--output", "x.hex", "g.s"], &["--output=-", "g.s"], &["-ox.hex", "g.s"], &["-o", "d", "g.s"], &["-o", "no/x.hex", "g.s"], &["-o", "/dev/full", "g.s"], &["-o", "a", "-o", "b", "g.s"], &["--", "g.s"], &["--", "-h"], &["-h", "g.s"], &[""], &["-o", "", "g.s"], &["-", "g.s"], &["--outpu", "x", "g.s"], &["-hv"]];
        for l in lines {
            let go = |w: &Worker| { let _ = std::fs::remove_file(w.dir.join("a.hex")); let _ = std::fs::remove_file(w.dir.join("x.hex")); let r = w.exec(l, None); (r.0, r.2, r.3, std::fs::read(w.dir.join("a.hex")).ok(), std::fs::read(w.dir.join("x.hex")).ok()) };
            count.fetch_add(1, Ordering::Relaxed);
            if go(&w1) != go(&w2) { differ.lock().unwrap().push(format!("c8s {:?}", l)); }
        }
    }
    let n = 8u64;
    std::thread::scope(|s| for t in 0..n {
        let (count, accepted, differ, b1, b2, worker, same) = (&count, &accepted, &differ, &b1, &b2, &worker, &same);
        s.spawn(move || {
            let (w1, w2) = (worker(&format!("p{}", t), b1), worker(&format!("q{}", t), b2));
            let mut k = t;
            while count.load(Ordering::Relaxed) < max && t0.elapsed().as_secs_f64() < secs {
                let (c, _) = make(PROPS[(k % PROPS.len() as u64) as usize], seed, k / PROPS.len() as u64, &[], &[]);
                k += n;
                // the extracted text takes whole iterators apart: quadratic on long texts
                if c.src.len() > 3000 { continue; }
                let (x, y) = (w1.run(&c), w2.run(&c));
                count.fetch_add(1, Ordering::Relaxed);
                if x.code == Some(0) { accepted.fetch_add(1, Ordering::Relaxed); }
                if !x.killed && !y.killed && !same(&x, &y) {
                    let mut d = differ.lock().unwrap();
                    if d.len() < 5 { d.push(format!("{:?} {:?}: {:?} / {:?}", c.mode, String::from_utf8_lossy(&c.src[..c.src.len().min(300)]), (x.code, String::from_utf8_lossy(&x.stdout[..x.stdout.len().min(200)])), (y.code, String::from_utf8_lossy(&y.stdout[..y.stdout.len().min(200)]), String::from_utf8_lossy(&y.stderr[..y.stderr.len().min(200)])))); }
                }
            }
        });
    });
    let _ = std::fs::remove_dir_all(&scratch);
    let d = differ.into_inner().unwrap();
    println!("{{\"cases\":{},\"accepted\":{},\"seconds\":{:.2},\"differences\":[{}]}}", count.load(Ordering::Relaxed), accepted.load(Ordering::Relaxed), t0.elapsed().as_secs_f64(), d.iter().map(|x| js(x)).collect::<Vec<_>>().join(","));
}

/// Odd characters put anywhere.
fn splice(r: &mut Rng, src: Vec<u8>) -> Vec<u8> {
    let mut s: Vec<char> = match String::from_utf8(src) { Ok(t) => t.chars().collect(), Err(e) => return e.into_bytes() };
    for _ in 0..1 + r.n(3) {
        let x = *r.pick(&["\r", "\r\r", "\t", "\n", "\n\n", " ", "\u{0}", "\u{feff}", "\u{85}", ";", ";;", "\\", "\"", "\\\"", ",", ":", ".", "é", "\u{1F600}", "\u{2028}", "0", "[i]", "_", "x", "'"]);
        let i = r.n(s.len() + 1);
        s.splice(i..i, x.chars());
    }
    s.into_iter().collect::<String>().into_bytes()
}

fn replay(a: &[String]) {
    let w = Worker::new(PathBuf::from(&a[2]), PathBuf::from(&a[0]), Duration::from_secs(20));
    let src = std::fs::read(&a[1]).unwrap();
    let mut bad = false;
    for mode in [Mode::Fresh, Mode::Existing, Mode::Stdout] {
        for name in &NAMES[2..] {
            let c = Case { src: src.clone(), mode, name: name.to_string() };
            if let Some(m) = judge(&c, &w.run(&c)) { println!("{:?} {:?}: {} {}", mode, name, m.kind, m.detail); bad = true; }
        }
    }
    let _ = std::fs::remove_dir_all(&a[2]);
    if !bad { println!("as expected"); }
    std::process::exit(bad as i32);
}
