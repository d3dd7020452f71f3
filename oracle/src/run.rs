//! Runs the real binary on a text and compares what it does with what it should do.
use crate::lang::*;
use std::io::Read;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub const SENTINEL: &[u8] = b"previous contents of the output file, longer than most outputs\n";

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Fresh, Existing, Stdout }
#[derive(Clone, Debug)]
pub struct Case { pub src: Vec<u8>, pub mode: Mode, pub name: String }
pub struct Actual { pub code: Option<i32>, pub killed: bool, pub stdout: Vec<u8>, pub stderr: Vec<u8>, pub file: Option<Vec<u8>> }
#[derive(Clone, Debug)]
pub struct Mismatch { pub kind: &'static str, pub detail: String, pub props: Vec<&'static str> }

type Slot = Arc<Mutex<Option<(Child, Instant)>>>;
pub struct Worker { pub dir: PathBuf, pub bin: PathBuf, pub arg0: Option<String>, slot: Slot, limit: Duration }
impl Worker {
    pub fn new(dir: PathBuf, bin: PathBuf, limit: Duration) -> Worker {
        std::fs::create_dir_all(&dir).unwrap();
        let slot: Slot = Arc::new(Mutex::new(None));
        let s2 = Arc::downgrade(&slot);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(100));
            match s2.upgrade() { None => return, Some(s) => if let Some((c, t)) = s.lock().unwrap().as_mut() { if Instant::now() > *t { let _ = c.kill(); } } }
        });
        Worker { dir, bin, arg0: None, slot, limit }
    }
    pub fn exec(&self, args: &[&str], stdout_to: Option<&str>) -> (Option<i32>, bool, Vec<u8>, Vec<u8>) {
        let mut cmd = Command::new(&self.bin);
        if let Some(n) = &self.arg0 { std::os::unix::process::CommandExt::arg0(&mut cmd, n); }
        cmd.args(args);
        self.go(cmd, stdout_to)
    }
    pub fn exec_with(&self, prog: &str, args: &[&str]) -> (Option<i32>, bool, Vec<u8>, Vec<u8>) {
        let mut cmd = Command::new(prog);
        cmd.args(args);
        self.go(cmd, None)
    }
    fn go(&self, mut cmd: Command, stdout_to: Option<&str>) -> (Option<i32>, bool, Vec<u8>, Vec<u8>) {
        cmd.current_dir(&self.dir).stdin(Stdio::null()).stderr(Stdio::piped());
        match stdout_to { None => { cmd.stdout(Stdio::piped()); } Some(p) => { cmd.stdout(std::fs::OpenOptions::new().write(true).open(p).unwrap()); } }
        let mut c = cmd.spawn().expect("cannot start the c8s binary");
        let so = c.stdout.take();
        let mut se = c.stderr.take().unwrap();
        let deadline = Instant::now() + self.limit;
        *self.slot.lock().unwrap() = Some((c, deadline));
        let h = std::thread::spawn(move || { let mut e = vec![]; let _ = se.read_to_end(&mut e); e });
        let mut out = vec![];
        if let Some(mut s) = so { let _ = s.read_to_end(&mut out); }
        let err = h.join().unwrap();
        let late = Instant::now() > deadline;
        let (mut c, _) = self.slot.lock().unwrap().take().unwrap();
        let st = c.wait().unwrap();
        (st.code(), late, out, err)
    }
    pub fn run(&self, case: &Case) -> Actual {
        let inp = self.dir.join(&case.name);
        if case.name.contains('/') { let _ = std::fs::create_dir_all(inp.parent().unwrap()); }
        std::fs::write(&inp, &case.src).unwrap();
        let outp = self.dir.join("out.hex");
        match case.mode {
            Mode::Existing => std::fs::write(&outp, SENTINEL).unwrap(),
            _ => { let _ = std::fs::remove_file(&outp); }
        }
        let o = if case.mode == Mode::Stdout { "-" } else { "out.hex" };
        let (code, killed, stdout, stderr) = self.exec(&["-o", o, &case.name], None);
        let file = std::fs::read(&outp).ok();
        let _ = std::fs::remove_file(&inp);
        Actual { code, killed, stdout, stderr, file }
    }
}

pub fn why_props(w: &Why) -> Vec<&'static str> {
    match w {
        Why::Io => vec!["C14"],
        Why::Lex("num") => vec!["C10", "C17"],
        Why::Lex("string") => vec!["C11", "C17"],
        Why::Lex(_) => vec!["C17"],
        Why::Syntax("instr") => vec!["C17", "C02"],
        Why::Syntax("dir") => vec!["C17", "C12"],
        Why::Syntax(_) => vec!["C17"],
        Why::DupLabel | Why::Undefined => vec!["C05", "C04"],
        Why::StrayEqu => vec!["C05", "C12"],
        Why::NoForm => vec!["C02"],
        Why::TooBig => vec!["C03"],
        Why::BadDirective => vec!["C12"],
        Why::DbRange => vec!["C11", "C12"],
        Why::NoRoom => vec!["C08"],
        Why::Overlap => vec!["C07"],
    }
}
fn show(b: &[u8]) -> String { let s = String::from_utf8_lossy(b); if s.len() > 400 { let mut n = 400; while !s.is_char_boundary(n) { n -= 1 } format!("{}...", &s[..n]) } else { s.to_string() } }

/// The properties a failure on this accepted program speaks about, from the statement concerned.
fn node_props(n: &Node) -> Vec<&'static str> {
    match n {
        Node::Instr(_, _, f) => {
            let mut v = vec!["C01", "C02"];
            if f.iter().any(|x| matches!(x, F::Num(_))) { v.extend(["C03", "C10"]) }
            if f.iter().any(|x| matches!(x, F::Id(_))) { v.extend(["C03", "C04", "C05"]) }
            v
        }
        Node::Label(..) => vec!["C04", "C05"],
        Node::Dir(_, d, a) => {
            let mut v = vec!["C12"];
            if d.eq_ignore_ascii_case("db") { v.push("C11") }
            if d.eq_ignore_ascii_case("org") { v.push("C06") }
            if d.eq_ignore_ascii_case("equ") { v.extend(["C04", "C05"]) }
            if a.iter().any(|x| matches!(x, Lit::N(_))) { v.push("C10") }
            v
        }
    }
}

pub fn judge(case: &Case, a: &Actual) -> Option<Mismatch> {
    let mk = |kind: &'static str, detail: String, props: Vec<&'static str>| Some(Mismatch { kind, detail, props });
    if a.killed { return mk("hang", format!("no answer within the time limit; stdout {:?}", show(&a.stdout)), vec!["C13"]); }
    match a.code {
        Some(0) | Some(1) => {}
        c => return mk("crash", format!("exit status {:?}; stderr {:?}", c, show(&a.stderr)), vec!["C13"]),
    }
    let exp = expected(&case.src);
    // a diagnostic is on standard output or on standard error
    let blank = |t: &[u8]| t.iter().all(|c| c.is_ascii_whitespace());
    let diag: &[u8] = if blank(&a.stdout) { &a.stderr } else { &a.stdout };
    let file_ok_on_failure = match case.mode { Mode::Existing => a.file.as_deref() == Some(SENTINEL), _ => a.file.is_none() };
    match (&exp.out, a.code) {
        (Err(r), Some(0)) => mk("accepted", format!("accepted, but it has to be rejected: {:?} at {:?}", r.why, r.loc), why_props(&r.why)),
        (Err(r), _) => {
            if !file_ok_on_failure { return mk("output-touched", format!("the input is rejected ({:?}) but the output file is now {:?}", r.why, a.file.as_ref().map(|x| show(x))), vec!["C14"]); }
            if blank(diag) { return mk("no-diagnostic", format!("rejected ({:?}) without a diagnostic", r.why), vec!["C14", "C13"]); }
            if case.mode == Mode::Stdout && a.stdout.split(|&c| c == b'\n').any(|l| l.len() >= 11 && l[0] == b':' && l[1..].iter().all(|c| c.is_ascii_hexdigit())) { return mk("output-touched", format!("the input is rejected ({:?}) but records were written: {:?}", r.why, show(&a.stdout)), vec!["C14"]); }
            if let Some(l) = &r.loc {
                let want = if l.len == 1 { format!("{}:{}:{}:", case.name, l.line, l.col) } else { format!("{}:{}:{}-{}:", case.name, l.line, l.col, l.col + l.len - 1) };
                if !a.stdout.starts_with(want.as_bytes()) && !a.stderr.starts_with(want.as_bytes()) { return mk("location", format!("the diagnostic has to start with {:?} ({:?}), it is {:?}", want, r.why, show(diag)), vec!["C15"]); }
            }
            None
        }
        (Ok(acc), Some(1)) => {
            let out = show(diag);
            let low = out.to_lowercase();
            if low.contains("overlap") { return mk("rejected", format!("rejected for overlap, but no address is written twice: {:?}", out), vec!["C07"]); }
            let mut props = vec![];
            let pre = format!("{}:", case.name);
            if let Some(rest) = out.strip_prefix(&pre) {
                let line: usize = rest.split(':').next().unwrap_or("").parse().unwrap_or(0);
                let col: usize = rest.split(':').nth(1).unwrap_or("").split('-').next().unwrap_or("").parse().unwrap_or(0);
                if let Some(n) = exp.nodes.iter().filter(|n| n.loc().line == line && n.loc().col == col).next() { props = node_props(n); }
                else { props = vec!["C16", "C17", "C10"]; if let Some(n) = exp.nodes.iter().filter(|n| n.loc().line == line).last() { props.extend(node_props(n)); } }
                if low.contains("overflow") || low.contains("exceed") { props.push("C08") }
                if low.contains("syntax") || low.contains("unexpected") || low.contains("expecting") { props.push("C17") }
            } else { props.extend(["C14", "C17"]) }
            let _ = acc;
            mk("rejected", format!("rejected, but it is a valid program: {:?}", out), props)
        }
        (Ok(acc), _) => {
            if !a.stderr.is_empty() { return mk("stray-output", format!("accepted, but something is printed on standard error: {:?}", show(&a.stderr)), vec!["C14"]); }
            let text: &[u8] = if case.mode == Mode::Stdout {
                if a.file.is_some() { return mk("stray-output", "-o - created a file".into(), vec!["C14"]); }
                &a.stdout
            } else {
                if !a.stdout.is_empty() { return mk("stray-output", format!("accepted, but something else is printed: {:?}", show(&a.stdout)), vec!["C14"]); }
                match &a.file { Some(f) => f, None => return mk("no-output", "exit status 0 but there is no output file".into(), vec!["C14"]) }
            };
            if case.mode == Mode::Existing && a.file.as_deref() == Some(SENTINEL) { return mk("no-output", "exit status 0 but the output file was not written".into(), vec!["C14"]); }
            let dec = match decode_hex(text) { Ok(d) => d, Err(e) => return mk("hex", format!("the output is not well-formed Intel HEX: {}", e), vec!["C09", "C14"]) };
            let got: std::collections::BTreeMap<u32, u8> = dec.iter().cloned().collect();
            if got.len() != dec.len() { return mk("hex", "the output places a byte twice at one address".into(), vec!["C09", "C06", "C07"]); }
            if got == acc.image { return None; }
            let mut props = vec![];
            let ga: Vec<u32> = got.keys().cloned().collect();
            let ea: Vec<u32> = acc.image.keys().cloned().collect();
            let mut detail = String::new();
            if ga != ea {
                props.extend(["C06", "C09", "C08"]);
                let d = ea.iter().find(|x| !ga.contains(x)); let e = ga.iter().find(|x| !ea.contains(x));
                detail.push_str(&format!("{} bytes expected, {} found; first missing address {:?}, first unexpected address {:?}; ", ea.len(), ga.len(), d, e));
            }
            for (i, at, b) in &acc.per_stmt {
                let g: Vec<Option<u8>> = (0..b.len() as u32).map(|k| got.get(&(at + k)).cloned()).collect();
                if g.iter().zip(b).any(|(g, b)| *g != Some(*b)) {
                    props.extend(node_props(&exp.nodes[*i]));
                    detail.push_str(&format!("statement at line {}: bytes at ${:03X} have to be {:02X?}, they are {:02X?}", exp.nodes[*i].loc().line, at, &b[..b.len().min(24)], &g[..g.len().min(24)]));
                    break;
                }
            }
            mk("image", detail, props)
        }
    }
}
