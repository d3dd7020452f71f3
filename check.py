#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decide one property of c8s on /repo's current tree.

  1. c8x extracts the functions under contract from /repo/src into one Verus crate and attaches
     the contracts of /verif/spec (nothing is cached: the text is read on every run);
  2. Verus discharges the obligations, function by function;
  3. a vacuity run checks that no contract assumes `false`;
  4. the real binary is run against an independent oracle (bounded, labelled so): it samples what the
     proof trusts, and it looks for a failing input when an obligation fails.

exit 0: every obligation this property rests on is discharged (or the function is out of the verifier's
reach and the bounded stand-in found nothing); exit 1 + VIOLATION line otherwise.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("C8S_REPO", "/repo")
CACHE = os.environ.get("C8S_CACHE", os.path.join(V, ".cache"))
C8X = os.path.join(V, "extract/target/release/c8x")
C8O = os.path.join(V, "oracle/target/release/c8o")
RLIMIT = "60"
T0 = time.time()
ENV = dict(os.environ)
ENV.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", RUST_BACKTRACE="0")
ENV["PATH"] = "/root/.cargo/bin:" + ENV.get("PATH", "/usr/bin:/bin")
ENV.setdefault("HOME", "/root")
# the functions a program goes through: if one of these is gone the chain of contracts is broken
ROOTS = {"scanner::Scanner::new", "scanner::Scanner::next_token", "scanner::Scanner::next", "parser::parse",
         "assembler::assemble", "data_range::find_overlapping_ranges", "ihex_writer::ihex_representation_of_data_ranges",
         "main_rs::assemble_file"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def left():
    """Seconds before the check has to give its answer."""
    return 780 - (time.time() - T0)


def sh(cmd, timeout, **kw):
    timeout = max(1, min(timeout, left()))
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b"").decode("utf8", "replace"), (e.stderr or b"").decode("utf8", "replace")


def build_tool(d):
    rc, _, err = sh(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", os.path.join(V, d, "Cargo.toml")], 600)
    if rc != 0:
        log(err[-3000:])
        sys.exit("check: cannot build " + d)


def build_c8s():
    e = dict(ENV, CARGO_TARGET_DIR=os.path.join(CACHE, "target"), CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0", RUSTFLAGS="-Awarnings")
    e.pop("CARGO_BUILD_TARGET", None)
    p = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(REPO, "Cargo.toml")], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode != 0:
        log(p.stderr.decode("utf8", "replace")[-3000:])
        sys.exit("check: the repository does not build")
    return os.path.join(CACHE, "target/debug/c8s")


def search(binary, prop, seed, secs, scratch, outdir):
    cmd = ["bash", "-c", 'ulimit -v 16000000; ulimit -c 0; exec "$@"', "x", C8O, "search", binary, prop, str(seed), str(secs), "100000000", os.path.join(scratch, "run"), outdir, os.path.join(REPO, "src")]
    secs = int(max(5, min(secs, left() - 60)))
    cmd[cmd.index(prop) + 2] = str(secs)
    rc, out, err = sh(cmd, secs + 120)
    try:
        return json.loads(out)
    except ValueError:
        log("oracle failed:", rc, err[-2000:])
        return None


# ---- extraction and verification -----------------------------------------------------------------
class Proof:
    def __init__(self):
        self.ok = False           # the verifier ran over the extracted crate
        self.why = ""             # why not, if it did not
        self.report = {"functions": [], "problems": [], "recursion": None, "uncontracted": []}
        self.failed = []          # failed obligations: dict(fn, props, msg, text)
        self.unknown = []         # resource limit reached
        self.degraded = []        # functions whose contract is assumed in this run: dict(fn, props, why)
        self.verified = 0
        self.errors = 0
        self.times = {}
        self.wall = 0.0
        self.text = ""
        self.version = ""


def tags(lines, a, b):
    t = set()
    for l in lines[a - 1:b]:
        for m in re.findall(r"/\*@([C0-9,]+)\*/", l):
            t.update(m.split(","))
    return t


def fn_at(lines, n):
    """The contracted function (or lemma) around line n of the extracted crate."""
    for i in range(n - 1, -1, -1):
        m = re.match(r"//@(BEGIN|END) (\S+)", lines[i])
        if m:
            return m.group(2) if m.group(1) == "BEGIN" else None
    return None


def item_at(lines, n):
    for i in range(n - 1, -1, -1):
        m = re.search(r"\b(?:proof|exec|spec)?\s*fn (\w+)", lines[i])
        if m:
            return m.group(1)
    return "?"


PANICKY = ("overflow", "underflow", "unreachable", "decreases", "precondition", "divi", "index", "bounds", "assertion failed", "recursive", "cast")


def verify(work, vac):
    pr = Proof()
    out, rep = os.path.join(work, "c8s.rs"), os.path.join(work, "report.json")
    degrade, drop = [], []

    def options():
        return [x for k in degrade for x in ("--degrade", k)] + [x for k in drop for x in ("--drop", k)]
    t0 = time.time()
    for attempt in range(10):
        cmd = [C8X, os.path.join(REPO, "src"), os.path.join(V, "spec"), out, rep] + options()
        rc, o, e = sh(cmd, 60)
        if rc != 0:
            pr.why = "extraction failed: " + e.strip()[-500:]
            return pr
        pr.report = json.load(open(rep))
        rc, o, e = sh(["verus", out, "--rlimit", RLIMIT, "--output-json", "--time-expanded", "--multiple-errors", "20", "--", "--error-format=json"], 420, cwd=work)
        if rc is None:
            pr.why = "the verifier did not finish in time"
            return pr
        diags = []
        for l in e.splitlines():
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
        errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
        lines = open(out).read().split("\n")
        try:
            res = json.loads(o)
        except ValueError:
            res = None
        vr = (res or {}).get("verification-results", {})
        if res is not None and not vr.get("encountered-vir-error") and ("verified" in vr) and (vr["verified"] + vr.get("errors", 0)) > 0:
            pr.ok = True
            pr.verified, pr.errors = vr["verified"], vr.get("errors", 0)
            pr.times, pr.version = res.get("times-ms", {}), res.get("verus", {}).get("version", "")
            pr.text = "\n".join(lines)
            pr.failed, pr.unknown = [], []
            collect(pr, errs, lines)
            # a caller that took in a function whose contract did not fit any more: where that proof does not go through,
            # nothing is known about the caller, as with a function out of reach
            again = {x["fn"] for x in pr.failed + pr.unknown} & set(pr.report.get("tentative", []))
            if again:
                log("not settled after a change of signature:", ", ".join(sorted(again)))
                degrade += sorted(again)
                pr.ok = False
                continue
            break
        # the extracted text is not accepted: the functions the errors lie in are out of reach
        bad = set()
        for d in errs:
            for s in d["spans"]:
                if s.get("is_primary") and s["file_name"].endswith("c8s.rs"):
                    f = fn_at(lines, s["line_start"])
                    if f:
                        bad.add(f)
        if not errs:
            # the verifier itself broke down: the functions that are not as they were are the suspects
            bad = {f["fn"] for f in pr.report["functions"]} & set(pr.report.get("changed", []))
        # the contract itself does not fit: the function becomes a helper of its callers
        misfit = (bad & set(degrade)) - set(drop)
        degrade = [k for k in degrade if k not in misfit]
        drop += sorted(misfit)
        bad -= set(degrade) | set(drop)
        if not (bad or misfit) or len(degrade) > 40:
            pr.why = "the verifier does not accept the extracted text: " + "; ".join((d.get("rendered") or d["message"]).strip()[:400] for d in errs[:3])
            return pr
        log("out of the verifier's reach:", ", ".join(sorted(bad | misfit)), "|", (errs[0].get("rendered") or "")[:300])
        degrade += sorted(bad)
    else:
        pr.why = "the verifier does not accept the extracted text"
        return pr
    for p in pr.report["problems"]:
        if p["problem"].startswith("contracted function not found") and p["fn"] not in ROOTS:
            continue
        pr.degraded.append({"fn": p["fn"], "props": p["props"], "why": p["problem"]})
    if pr.report["recursion"]:
        pr.failed.append({"fn": " -> ".join(pr.report["recursion"]), "props": ["C13"], "msg": "the call graph has a cycle: the stack depth is not bounded", "text": ""})
    pr.wall = time.time() - t0
    # vacuity: `assert(false)` at the entry of every contracted function has to fail
    if vac:
        vout = os.path.join(work, "vac.rs")
        cmd = [C8X, os.path.join(REPO, "src"), os.path.join(V, "spec"), vout, os.path.join(work, "vac.json"), "--vacuity"] + options()
        sh(cmd, 60)
        rc, o, e = sh(["verus", vout, "--rlimit", "10", "--output-json", "--", "--error-format=json"], 300, cwd=work)
        lines = open(vout).read().split("\n")
        hit = set()
        for l in e.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            for s in d.get("spans", []):
                if s.get("is_primary"):
                    hit.add(fn_at(lines, s["line_start"]))
        want = [f["fn"] for f in pr.report["functions"]]
        pr.vacuous = [f for f in want if f not in hit]
        pr.vac_checked = len(want)
    return pr


# ---- the dependencies -----------------------------------------------------------------------------
def dep_dir(name):
    """Where cargo has the sources of a dependency: the version /repo/Cargo.lock names."""
    try:
        lock = open(os.path.join(REPO, "Cargo.lock")).read()
    except OSError:
        return None
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % re.escape(name), lock)
    root = os.path.join(os.environ.get("CARGO_HOME") or os.path.join(ENV["HOME"], ".cargo"), "registry/src")
    if not m or not os.path.isdir(root):
        return None
    for d in sorted(os.listdir(root)):
        p = os.path.join(root, d, "%s-%s" % (name, m.group(1)))
        if os.path.isdir(p):
            return p
    return None


def verify_deps(work):
    """The contracts the prelude assumes of twelve_bit and ihex, proved from the sources of these crates.
    They are not part of /repo: what is not proved here stays an assumption and is never an alarm."""
    r = {"ok": False, "why": "", "proved": [], "assumed": [], "verified": 0, "errors": 0, "smt": None, "from": [], "laws": []}
    t, i = dep_dir("twelve_bit"), dep_dir("ihex")
    if not t or not i:
        r["why"] = "the sources of the dependencies were not found"
        return r
    r["from"] = [os.path.basename(t), os.path.basename(i)]
    out, rep = os.path.join(work, "deps.rs"), os.path.join(work, "deps.json")
    rc, o, e = sh([C8X, "deps", t, i, os.path.join(V, "spec"), out, rep], 60)
    if rc != 0:
        r["why"] = "extraction failed: " + e.strip()[-300:]
        return r
    d = json.load(open(rep))
    rc, o, e = sh(["verus", out, "--rlimit", RLIMIT, "--output-json", "--time-expanded"], 300, cwd=work)
    try:
        res = json.loads(o)
        vr = res["verification-results"]
        r["verified"], r["errors"] = vr["verified"], vr.get("errors", 0)
        r["smt"] = res.get("times-ms", {}).get("smt", {}).get("total")
        r["ok"] = rc == 0 and vr.get("success", False) and not r["errors"] and r["verified"] > 0
    except (ValueError, KeyError, TypeError):
        pass
    if r["ok"]:
        r["proved"], r["assumed"] = d["proved"], d["assumed"]
        r["laws"] = re.findall(r"\bproof fn (law_\w+)", open(out).read())
    else:
        r["why"] = "not accepted by the verifier: " + e.strip()[-300:]
    return r


# ---- the extracted crate, run ------------------------------------------------------------------------
def validate(work, binary_ready, box, secs, seed):
    """Builds the extracted crate as a program (every primitive replaced by what it stands for) and runs it beside the
    real binary: the text that is verified behaves like the code it was extracted from. Bounded; never an alarm."""
    r = {"ran": False, "why": "", "cases": 0, "accepted": 0, "differences": []}
    out, rep, exe = os.path.join(work, "exec.rs"), os.path.join(work, "exec.json"), os.path.join(work, "c8run")
    rc, o, e = sh([C8X, os.path.join(REPO, "src"), os.path.join(V, "spec"), out, rep], 60)
    if rc != 0:
        r["why"] = "extraction failed"
        return r
    j = json.load(open(rep))
    if any(not p["problem"].startswith("contracted function not found") for p in j["problems"]):
        r["why"] = "a function is not translated in this run"
        return r
    rc, o, e = sh(["verus", "--version"], 60)
    m = re.search(r"Toolchain:\s*(\S+)", o + e)
    tc = m.group(1) if m else ""
    lib = os.path.join(CACHE, "rt")
    en = dict(ENV, CARGO_TARGET_DIR=lib, RUSTFLAGS="-Awarnings")
    en.pop("RUSTUP_TOOLCHAIN", None)
    p = subprocess.run(["cargo", "+" + tc, "build", "--offline", "--locked", "--message-format=json", "--manifest-path", os.path.join(V, "exec/Cargo.toml")], env=en, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        r["why"] = "the crates it links do not build: " + p.stderr.decode("utf8", "replace")[-300:]
        return r
    ext = []
    for l in p.stdout.decode("utf8", "replace").splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("reason") == "compiler-artifact" and d["target"]["name"] in ("getopts", "ihex", "regex", "twelve_bit"):
            ext += ["--extern", "%s=%s" % (d["target"]["name"], next(f for f in d["filenames"] if f.endswith(".rlib")))]
    rc, o, e = sh(["verus", "--compile", "--no-verify", out, "--cfg", "c8exec"] + ext + ["-L", "dependency=" + os.path.join(lib, "debug/deps"), "-o", exe], 300, cwd=work)
    if rc != 0 or not os.path.exists(exe):
        r["why"] = "the extracted crate does not build as a program: " + e[-300:]
        return r
    binary_ready.wait(600)
    if "binary" not in box:
        r["why"] = "no binary"
        return r
    rc, o, e = sh([C8O, "pair", box["binary"], exe, str(seed), str(secs), "100000000", os.path.join(work, "pair")], secs + 200)
    try:
        r.update(json.loads(o))
        r["ran"] = True
    except ValueError:
        r["why"] = "the comparison did not finish"
    return r


def collect(pr, errs, lines):
    props_of = {f["fn"]: f["props"] for f in pr.report["functions"]}
    for d in errs:
        prim = [s for s in d["spans"] if s.get("is_primary")] or d["spans"]
        fn, where = None, None
        for s in d["spans"]:
            f = fn_at(lines, s["line_start"])
            # the function being verified is the one with the exit / the failing expression
            if f and (s.get("label") in ("at this exit", "at the end of the function body") or fn is None or s.get("label") is None):
                fn, where = f, s
        msg = d["message"]
        text = (d.get("rendered") or msg).strip()
        if "rlimit" in msg.lower() or "resource limit" in msg.lower():
            pr.unknown.append({"fn": fn or item_at(lines, prim[0]["line_start"]), "props": props_of.get(fn, []), "msg": msg, "text": text})
            continue
        t = set()
        if "postcondition" in msg:
            for s in prim:
                t |= tags(lines, s["line_start"], s["line_end"])
        if "precondition" in msg:
            for s in d["spans"]:
                if s.get("label") == "failed precondition":
                    t |= tags(lines, s["line_start"], s["line_end"])
        if fn is None:
            # a lemma or a regex equivalence: those who use it
            name = item_at(lines, prim[0]["line_start"])
            users = set()
            for f in pr.report["functions"]:
                a, b = f["lines"]
                if any(name.replace("lemma_", "") in l or re.search(r"\b%s\b" % re.escape(name), l) for l in lines[a - 1:b]):
                    users |= set(f["props"])
            t |= users - {"C13"} if users else set()
            fn = name
        own = set(props_of.get(fn, []))
        if not t:
            t = own - {"C13"} if ("postcondition" in msg or "invariant" in msg) else set(own)
            if any(w in msg.lower() for w in PANICKY) and own:
                t.add("C13")
        pr.failed.append({"fn": fn, "props": sorted(t), "msg": msg, "text": text})


# ---- one check -------------------------------------------------------------------------------------
def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    info = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()}
    if prop not in info:
        sys.exit("unknown property " + prop)
    os.makedirs(CACHE, exist_ok=True)
    evd = os.environ.get("C8S_EVIDENCE", os.path.join(V, "evidence"))
    os.makedirs(os.path.join(evd, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix="c8v-")
    try:
        rc = run(prop, tier, seed, info[prop], evd, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, info, evd, work):
    build_tool("extract")
    box = {}

    def prove():
        try:
            box["pr"] = verify(work, True)
        except Exception as e:  # the machinery itself failed: never an alarm
            pr = Proof()
            pr.why = "internal error: %r" % (e,)
            box["pr"] = pr

    def prove_deps():
        try:
            box["deps"] = verify_deps(work)
        except Exception as e:
            box["deps"] = {"ok": False, "why": "internal error: %r" % (e,), "proved": [], "assumed": [], "verified": 0, "errors": 0, "smt": None, "from": [], "laws": []}

    ready = threading.Event()

    def check_translation():
        try:
            box["tv"] = validate(work, ready, box, 90 if tier == "thorough" else 6, seed)
        except Exception as e:
            box["tv"] = {"ran": False, "why": "internal error: %r" % (e,), "cases": 0, "accepted": 0, "differences": []}

    th = threading.Thread(target=prove)
    th.start()
    th3 = threading.Thread(target=check_translation)
    th3.start()
    th2 = threading.Thread(target=prove_deps)
    th2.start()
    build_tool("oracle")
    try:
        binary = box["binary"] = build_c8s()
    finally:
        ready.set()
    rdir = os.path.join(evd, "replay")
    base_secs = 120 if tier == "thorough" else 12
    runs = [search(binary, prop, seed, base_secs, work, rdir)]
    th.join()
    th2.join()
    th3.join()
    pr = box["pr"]
    pr.deps = box["deps"]
    pr.tv = box["tv"]
    if pr.tv["differences"]:
        log("the extracted text does not behave like the code:", pr.tv["differences"][0][:500])
    mine = [f for f in pr.failed if prop in f["props"]]
    other = [f for f in pr.failed if prop not in f["props"]]
    lost = [d for d in pr.degraded if prop in d["props"]] + [u for u in pr.unknown if prop in u["props"]]
    found = next((r["found"] for r in runs if r and r.get("found")), None)
    shaky = bool(pr.failed or pr.degraded or pr.unknown or not pr.ok or pr.tv["differences"])
    if not found and shaky:
        secs = 300 if tier == "thorough" else (120 if (mine or lost or not pr.ok) else 60)
        runs.append(search(binary, prop, seed + 7919, secs, work, rdir))
        found = next((r["found"] for r in runs if r and r.get("found")), None)
    if all(r is None for r in runs):
        log("check: the oracle did not run")
    vac = getattr(pr, "vacuous", [])
    if vac:
        log("vacuity: contracts that assume false:", vac)
    proved = pr.ok and not mine and not lost and not vac and not pr.tv["differences"]
    write_evidence(prop, tier, seed, info, evd, pr, mine, lost, other, runs, found, proved)
    status = "%d of %d items verified, %d failed obligations for %s, %d functions not proved" % (pr.verified, pr.verified + pr.errors, len(mine), prop, len(lost))
    if not pr.ok:
        status = "NOT PROVED IN THIS RUN (%s); bounded stand-in only" % pr.why[:200]
    elif lost:
        status += " (" + ", ".join(d["fn"] for d in lost) + "): bounded stand-in for these"
    if found or mine:
        rp = os.path.join(rdir, prop + ".txt")
        write_replay(rp, prop, info, binary, found, mine, other)
        tail = "" if found else " no-failing-input-found"
        for f in mine:
            print("obligation failed: %s: %s" % (f["fn"], f["msg"]))
        if found:
            print("failing input: %s: %s" % (found["kind"], found["detail"][:600]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rp, tail))
        return 1
    print("%s: %s; %s bounded runs agree with the oracle" % (prop, status, sum(r["cases"] + r["io_scenarios"] for r in runs if r)))
    return 0


def write_replay(path, prop, info, binary, found, mine, other):
    with open(path, "w") as f:
        f.write("property %s: %s\n%s\n\n" % (prop, info["title"], info["statement"]))
        if found:
            f.write("== failing input, run against the binary built from the current tree ==\n")
            f.write("what happened: %s: %s\n" % (found["kind"], found["detail"]))
            if found.get("scenario"):
                f.write("scenario: %s\n" % found["scenario"])
            if found.get("input"):
                f.write("input file: %s (mode %s, given as %r)\nexpected by the oracle: %s\n" % (found["input"], found["mode"], found["name"], found["expected"]))
                f.write("replay: cd %s && cargo build --release --offline --manifest-path oracle/Cargo.toml && oracle/target/release/c8o replay %s %s $(mktemp -d)\n" % (V, binary, found["input"]))
                try:
                    f.write("--- text ---\n%s\n--- end ---\n" % open(found["input"], "rb").read()[:4000].decode("utf8", "backslashreplace"))
                except OSError:
                    pass
        for title, fs in (("failed obligations this property rests on", mine), ("other failed obligations", other)):
            if fs:
                f.write("\n== %s ==\n" % title)
                for x in fs:
                    f.write("\nobligation: %s: %s\nproperties: %s\n%s\n" % (x["fn"], x["msg"], ", ".join(x["props"]), x["text"]))


def assumptions(pr):
    """Everything in the extracted crate that is assumed, not proved."""
    text = pr.text
    if pr.deps["ok"] and not pr.deps["assumed"]:
        # proved from the sources of the dependencies; what stays is that values of U12 keep their range,
        # which is the type invariant every function of the dependency was checked against
        a, b = text.find("//@@U12"), text.find("//@@END\n")
        keep = "pub broadcast axiom fn axiom_u12_range(x: U12)\n" if a >= 0 else ""
        text = text[:a] + keep + text[b:] if 0 <= a < b else text
        text = re.sub(r"#\[verifier::external_body\]\npub fn v_ihex_create", "pub fn v_ihex_create", text)
    out, lines = [], text.split("\n")
    for i, l in enumerate(lines):
        here = []
        for m in re.finditer(r"#\[verifier::external\w*\]", l):
            rest = l[m.end():] + "\n" + "\n".join(lines[i + 1:i + 6])
            n = re.search(r"\b(?:fn|struct|enum|trait)\s+([\w$]+)", rest)
            if n:
                here.append(n.group(1))
        n = re.search(r"\baxiom fn (\w+)", l) or re.search(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", l)
        if n:
            here.append(n.group(1))
        here += ["%s at line %d" % (m.group(1), i + 1) for m in re.finditer(r"\b(assume|admit)\s*\(", l)]
        here = [x for n in here for x in ([n] if n != "$f" else re.findall(r"^(?:from_radix|to_num)!\((\w+)", text, re.M))]
        # `x_*`: nothing is assumed of these, they are only there for the build that is run
        out += [n for n in here if n not in out and not n.startswith("x_")]
    return out


GENERAL = [
    "c8x (the extractor) keeps the meaning of the code under the rewrites listed in DESIGN.md (R1-R16)",
    "rustc, the standard library, and the crates regex 0.1 and getopts behave as the contracts of the primitives that stand for them say (twelve_bit and ihex: see coverage.dependencies; the primitives of std for text, numbers and collections have bodies that are verified against their contracts, so these contracts are consistent and are what the body does; that std does the same is compared by running, coverage.translation)",
    "the world model of main.rs: at least one argument, arguments are Unicode, printing does not fail, file operations do what they say or report an error; getopts is a function of the declared options and the arguments",
    "Verus and Z3 are sound",
    "there is enough memory for the source text and its tokens (allocation failure is not modelled)",
]


def write_evidence(prop, tier, seed, info, evd, pr, mine, lost, other, runs, found, proved):
    fns = [f for f in pr.report["functions"] if prop in f["props"]]
    code = pr.text[max(0, pr.text.find("\npub mod assembler {")):]
    base = [n for n in assumptions(pr) if n.startswith("axiom") or " at line " in n or re.search(r"\b%s\b" % re.escape(n.split("::")[-1]), code)]
    smt = pr.times.get("smt", {}) if pr.times else {}
    mods = {}
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            mods[f["function"].split("::", 1)[-1]] = f
    cases = sum(r["cases"] for r in runs if r)
    lev = json.load(open(os.path.join(V, "MANIFEST.json")))
    level = next((c["level"] for c in lev["checks"] if c["property"] == prop), "proof")
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": pr.verified + pr.errors, "discharged": pr.verified,
            "obligations_note": "one per verified item of the whole extracted crate (function body, loop, lemma, regex equivalence); each bundles the item's postconditions, invariants, preconditions of calls, absence of overflow, panic and non-termination",
            "functions_under_contract_for_this_property": [{"fn": f["fn"], "loops": f["loops"], "inlined": f["inlined"]} for f in fns],
            "functions_under_contract_total": len(pr.report["functions"]),
            "uncontracted_functions": pr.report.get("uncontracted", []),
            "failed_obligations": [{"fn": f["fn"], "msg": f["msg"]} for f in mine],
            "other_failed_obligations": [{"fn": f["fn"], "msg": f["msg"], "props": f["props"]} for f in other],
            "not_proved_in_this_run": [{"fn": d["fn"], "why": d.get("why") or d.get("msg")} for d in lost] if pr.ok else [{"fn": "all", "why": pr.why}],
            "proved": proved,
            "vacuity": {"contracts_checked": getattr(pr, "vac_checked", 0), "vacuous": getattr(pr, "vacuous", [])},
            "checker_cmd": "verus c8s.rs --rlimit %s (back end Z3), on the crate c8x extracts from /repo/src" % RLIMIT,
            "verus_version": pr.version,
            "solver_ms": smt.get("total"),
            "verifier_wall_s": round(pr.wall, 1),
            "dependencies": {"what": "the contracts assumed of twelve_bit and ihex in the crate above, proved against the sources of these crates in a second crate (c8x deps)", "sources": pr.deps["from"], "proved": pr.deps["ok"], "why_not": pr.deps["why"], "functions": pr.deps["proved"], "not_proved": pr.deps["assumed"], "items_verified": pr.deps["verified"], "solver_ms": pr.deps["smt"]},
            "laws": {"what": "consequences of the specification the contracts are written in, proved in the second crate: they tie it to what the properties say in words (spec/laws.rs)", "proved": pr.deps["laws"]},
            "translation": {"what": "the extracted crate, built as a program with every primitive replaced by what it stands for, run beside the real binary on generated texts and command lines: status, streams and output file compared; bounded", "ran": pr.tv["ran"], "why_not": pr.tv["why"], "runs": pr.tv["cases"], "accepted_programs": pr.tv["accepted"], "differences": pr.tv["differences"]},
            "trusted_base": base,
            "trusted_base_note": "assumed contracts the extracted code of this run uses; the prelude has %d more that it does not use; primitives with a verified body are not listed" % (len(assumptions(pr)) - len(base)),
            "bounded": {
                "what": "runs of the real binary against the independent oracle; bounded, not part of the proof",
                "evaluations": cases, "distinct": sum(r["distinct"] for r in runs if r), "accepted_programs": sum(r["accepted"] for r in runs if r),
                "io_scenarios": sum(r["io_scenarios"] for r in runs if r), "seconds": sum(r["seconds"] for r in runs if r),
            },
        },
        "assumptions": GENERAL,
        "wall_s": round(time.time() - T0, 1),
        "violations": (1 if (found or mine) else 0),
    }
    ev["coverage"]["evaluations"] = cases
    ev["coverage"]["distinct_nontrivial"] = sum(r["distinct"] for r in runs if r)
    ev["coverage"]["rule"] = "generated source texts aimed at the property, distinct by content"
    json.dump(ev, open(os.path.join(evd, prop + ".json"), "w"), indent=1)


if __name__ == "__main__":
    main()
