//! Scenarios around files and options (C14). Everything happens inside the worker's directory.
use crate::lang::decode_hex;
use crate::run::*;

pub fn scenarios(w: &Worker, prop: &str) -> (u64, Option<(String, Mismatch)>) {
    let d = &w.dir;
    let good = "jp 5\n.db 1,2,3\n";
    let want: Vec<(u32, u8)> = vec![(0, 0x10), (1, 5), (2, 1), (3, 2), (4, 3)];
    let put = |n: &str, b: &[u8]| std::fs::write(d.join(n), b).unwrap();
    let get = |n: &str| std::fs::read(d.join(n)).ok();
    let del = |n: &str| { let _ = std::fs::remove_file(d.join(n)); };
    std::fs::create_dir_all(d.join("adir")).unwrap();
    std::fs::create_dir_all(d.join("sub")).unwrap();
    put("good.s", good.as_bytes());
    put("bad_utf8.s", b"cls\n\xff\xfe\n");
    put("utf8_comment.s", b"cls ; \xff\n");
    put("utf8_string.s", b".db \"a\xc3\"\n");
    put("utf8_end.s", b"cls\n; \xe2\x82");
    put("utf8_long.s", b"cls ; \xc0\x80\n");
    put("utf8_surrogate.s", b"cls ; \xed\xa0\x80\n");
    put("over2.s", b".org 100\n.db 1\n.org 10\ncls\n.org 60\n.db \"0123456789012345678901234567890123456789\", \"0123456789\"\n.org 300\ncls\n");
    put("slow.s", &[b"; c\n".repeat(60_000), good.as_bytes().to_vec()].concat());
    put("lex.s", b"cls\n@\n");
    put("syn.s", b"cls\nld ,\n");
    put("dup.s", b"a:\na:\n");
    put("undef.s", b"jp nowhere\n");
    put("range.s", b"ld v0, 256\n");
    put("over.s", b".org 10\n.db 1,2,3\n.org 11\n.db 4\n");
    put("pairs256.s", crate::gen::pairs(256).as_bytes());
    put("full.s", b".org 4095\ncls\n");
    put("big.s", (0..1900).map(|i| format!("jp {}\n", i)).collect::<String>().as_bytes());
    put("empty.s", b"");
    let mut n = 0u64;
    let mut fail: Option<(String, Mismatch)> = None;
    let crash_prop = prop == "C13";
    let mut report = |what: String, kind: &'static str, detail: String, is_crash: bool| {
        if fail.is_none() && (!crash_prop || is_crash) { fail = Some((what, Mismatch { kind, detail, props: vec!["C14"] })); }
    };
    let show = |o: &[u8]| String::from_utf8_lossy(&o[..o.len().min(300)]).into_owned();
    let tree = || { let mut v = vec![]; for sub in ["", "sub", "adir"] { for e in std::fs::read_dir(d.join(sub)).unwrap() { let e = e.unwrap(); v.push(format!("{}/{}", sub, e.file_name().to_string_lossy())); } } v.sort(); v };
    // 1. every way an input can be unacceptable, with and without an existing output, to a file and to stdout
    for inp in ["missing.s", "adir", "bad_utf8.s", "utf8_comment.s", "utf8_string.s", "utf8_end.s", "utf8_long.s", "utf8_surrogate.s", "over2.s", "lex.s", "syn.s", "dup.s", "undef.s", "range.s", "over.s", "pairs256.s", "full.s", "nodir/x.s", "", "-"] {
        for (o, pre) in [("o.hex", true), ("o.hex", false), ("-", false), ("sub/o.hex", true)] {
            n += 1;
            let what = format!("c8s -o {} {:?} (output {})", o, inp, if pre { "exists" } else { "absent" });
            if o != "-" { if pre { put(o, SENTINEL) } else { del(o) } }
            let before = tree();
            let (code, late, out, err) = w.exec(&["-o", o, inp], None);
            if late || code != Some(1) { report(what.clone(), "exit-status", format!("exit status has to be 1, it is {:?}; stdout {:?}; stderr {:?}", code, show(&out), show(&err)), late || !matches!(code, Some(0) | Some(1))); }
            if out.iter().chain(err.iter()).all(|c| c.is_ascii_whitespace()) { report(what.clone(), "no-diagnostic", "no diagnostic".into(), false); }
            let stray: Vec<String> = tree().into_iter().filter(|f| !before.contains(f)).collect();
            if !stray.is_empty() { report(what.clone(), "output-touched", format!("the input is rejected but {:?} was created", stray), false); }
            for f in &stray { del(f.trim_start_matches('/')); }
            if o != "-" { let now = get(o); if now.as_deref() != if pre { Some(SENTINEL) } else { None } { report(what.clone(), "output-touched", format!("the output file is now {:?}", now.map(|x| show(&x))), false); } }
            else if out.split(|&c| c == b'\n').any(|l| l.len() >= 11 && l[0] == b':') { report(what.clone(), "output-touched", format!("records were written: {:?}", show(&out)), false); }
            del("-");
        }
    }
    // 2. output cannot be created or written
    for o in ["nodir/o.hex", "adir", "/dev/full"] {
        for inp in ["good.s", "big.s", "empty.s"] {
            n += 1;
            let what = format!("c8s -o {} {}", o, inp);
            let (code, late, out, err) = w.exec(&["-o", o, inp], None);
            if late || code != Some(1) { report(what.clone(), "exit-status", format!("exit status has to be 1, it is {:?}; stdout {:?}; stderr {:?}", code, show(&out), show(&err)), late || !matches!(code, Some(0) | Some(1))); }
            if out.iter().chain(err.iter()).all(|c| c.is_ascii_whitespace()) { report(what, "no-diagnostic", "no diagnostic".into(), false); }
        }
    }
    // the output runs out of room part of the way (a limit on the size of a file; the signal it raises is ignored)
    for (o, pre) in [("o.hex", false), ("o.hex", true), ("sub/o.hex", false)] {
        n += 1;
        if pre { put(o, SENTINEL) } else { del(o) }
        let what = format!("ulimit -f 1; c8s -o {} big.s (output {})", o, if pre { "exists" } else { "absent" });
        let (code, late, out, err) = w.exec_with("bash", &["-c", "trap '' XFSZ; ulimit -f 1; exec \"$0\" -o \"$1\" big.s", &w.bin.to_string_lossy(), o]);
        if late || code != Some(1) { report(what.clone(), "exit-status", format!("the text does not fit in the output, so the exit status has to be 1; it is {:?}; stdout {:?}; stderr {:?}; {:?} bytes were written", code, show(&out), show(&err), get(o).map(|x| x.len())), late || !matches!(code, Some(0) | Some(1))); }
        if out.iter().chain(err.iter()).all(|c| c.is_ascii_whitespace()) { report(what, "no-diagnostic", "no diagnostic".into(), false); }
        del(o);
    }
    // standard output that takes nothing, or only a part, or that nobody reads: the diagnostic can only be on standard error
    for inp in ["good.s", "big.s", "empty.s"] {
        for (how, cmd) in [(">/dev/full", "\"$0\" -o - \"$1\" >/dev/full; echo $?"), (">part.hex with ulimit -f 1", "trap '' XFSZ; ulimit -f 1; \"$0\" -o - \"$1\" >part.hex; echo $?"), ("| true", "( sleep 0.3; \"$0\" -o - \"$1\"; echo $? >&3 ) 3>code | true; cat code")] {
            if how.starts_with(">part") && inp != "big.s" { continue; }
            n += 1;
            let what = format!("c8s -o - {} {}", inp, how);
            let (_, late, out, err) = w.exec_with("bash", &["-c", cmd, &w.bin.to_string_lossy(), inp]);
            if late || show(&out).trim() != "1" { report(what.clone(), "exit-status", format!("the text could not be written, so the exit status has to be 1; it is {:?}; stderr {:?}", show(&out), show(&err)), late || !matches!(show(&out).trim(), "0" | "1")); }
            if err.iter().all(|c| c.is_ascii_whitespace()) { report(what, "no-diagnostic", "no diagnostic".into(), false); }
            del("part.hex"); del("code");
        }
    }
    // 3. success: exactly the text, in the requested place, nothing else
    let listing = || { let mut v: Vec<String> = std::fs::read_dir(d).unwrap().map(|e| e.unwrap().file_name().to_string_lossy().into_owned()).collect(); v.sort(); v };
    for (args, o) in [(vec!["-o", "o.hex", "good.s"], "o.hex"), (vec!["good.s"], "a.hex"), (vec!["--output", "o.hex", "good.s"], "o.hex"), (vec!["-oo.hex", "good.s"], "o.hex"), (vec!["good.s", "-o", "sub/o.hex"], "sub/o.hex"), (vec!["-o", "-", "good.s"], "-"), (vec!["--output=-", "good.s"], "-"), (vec!["-o", "x y.hex", "./good.s"], "x y.hex"), (vec!["-o", "--", "good.s"], "--"), (vec!["-o", "o.hex", "slow.s"], "o.hex"), (vec!["-o", "-", "slow.s"], "-"), (vec!["-o", "o.hex", "--", "good.s"], "o.hex"), (vec!["-o", "good2.s", "good2.s"], "good2.s")] {
        for pre in [0usize, 1, 5000] {
            n += 1;
            let what = format!("c8s {} ({} bytes in the output before)", args.join(" "), pre);
            for f in ["o.hex", "a.hex", "sub/o.hex", "x y.hex", "--", "-"] { del(f); }
            put("good2.s", good.as_bytes());
            if o != "-" && o != "good2.s" && pre > 0 { put(o, &vec![b'x'; pre]); }
            let before = listing();
            let (code, late, out, err) = w.exec(&args, None);
            if late || code != Some(0) { report(what.clone(), "exit-status", format!("exit status has to be 0, it is {:?}; stdout {:?}; stderr {:?}", code, show(&out), show(&err)), late || !matches!(code, Some(0) | Some(1))); continue; }
            let text = if o == "-" { Some(out.clone()) } else { if !out.is_empty() { report(what.clone(), "stray-output", format!("printed {:?}", show(&out)), false); } get(o) };
            match text { None => report(what.clone(), "no-output", format!("{} was not written", o), false), Some(t) => match decode_hex(&t) { Ok(v) if v == want => {} r => report(what.clone(), "output", format!("the output does not decode to the image: {:?} from {:?}", r, show(&t)), false) } }
            let after: Vec<String> = listing().into_iter().filter(|f| !before.contains(f) && f != o).collect();
            if !after.is_empty() { report(what, "stray-output", format!("also created {:?}", after), false); }
        }
    }
    // whatever the output holds before: as long as the text, or nearly the text
    let (_, _, text, _) = w.exec(&["-o", "-", "good.s"], None);
    for k in 0..6 {
        n += 1;
        let mut old = text.clone();
        match k { 0 => old = vec![b'x'; text.len()], 1 => if old.len() > 10 { old[9] ^= 1 }, 2 => { old.pop(); } 3 => old.extend_from_slice(b":00000001FF\n"), 4 => { let m = old.len() / 2; old.truncate(m); } _ => old = old.to_ascii_lowercase() }
        let what = format!("c8s -o o.hex good.s (output holds {:?})", show(&old));
        put("o.hex", &old);
        let (code, late, out, err) = w.exec(&["-o", "o.hex", "good.s"], None);
        if late || code != Some(0) { report(what.clone(), "exit-status", format!("exit status has to be 0, it is {:?}; stdout {:?}; stderr {:?}", code, show(&out), show(&err)), late || !matches!(code, Some(0) | Some(1))); continue; }
        if get("o.hex").as_deref() != Some(&text[..]) { report(what, "output", format!("the output file is {:?}, not the text of the image", get("o.hex").map(|x| show(&x))), false); }
    }
    // the same text whatever the place
    let (_, _, a, _) = w.exec(&["-o", "-", "big.s"], None);
    let _ = w.exec(&["-o", "o.hex", "big.s"], None);
    n += 2;
    if get("o.hex").as_deref() != Some(&a[..]) { report("big.s to a file and to standard output".into(), "output", "the two differ".into(), false); }
    // 4. options
    for f in ["o.hex", "a.hex"] { del(f); }
    for (args, want) in [(vec![], 1), (vec!["good.s", "lex.s"], 1), (vec!["--bogus", "good.s"], 1), (vec!["-o"], 1), (vec!["-z"], 1), (vec!["-h"], 0), (vec!["--help"], 0), (vec!["-v"], 0), (vec!["--version"], 0)] {
        n += 1;
        let what = format!("c8s {}", args.join(" "));
        let before = listing();
        let (code, late, out, err) = w.exec(&args, None);
        if late || code != Some(want) { report(what.clone(), "exit-status", format!("exit status has to be {}, it is {:?}; stderr {:?}", want, code, show(&err)), late || !matches!(code, Some(0) | Some(1))); }
        if out.is_empty() && err.is_empty() { report(what.clone(), "no-diagnostic", "nothing printed".into(), false); }
        if listing() != before { report(what, "stray-output", "a file was created".into(), false); }
    }
    (n, fail)
}
