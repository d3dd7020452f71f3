#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy and store them under /verif/seeded (authoring tool; no check uses it).
usage: seed.py defs.py [ID...]    defs.py: BUGS = {id: dict(property, needs, what, edits=[(file, old, new)], demo=shell text)}"""
import json, os, subprocess, sys, shutil, runpy
V = "/verif"
SC = "/tmp/seed/repo"
HEAD = '''#!/bin/bash
# Runs in the repository after the build. Exit 0: the documented behaviour. Nonzero: it is broken.
B="$PWD/target/debug/c8s"
T="$(mktemp -d)" || exit 3
trap 'rm -rf "$T"' EXIT
cd "$T" || exit 3
# assemble TEXT: writes in.s, runs c8s, sets code, out (file), msg
asm() { printf "$1" > in.s; rm -f o.hex; msg="$("$B" -o o.hex in.s 2>&1)"; code=$?; out="$(cat o.hex 2>/dev/null)"; }
want_ok() { asm "$1"; [ $code -eq 0 ] || { echo "rejected: $msg"; exit 1; }; if [ $# -gt 1 ]; then [ "$out" = "$(printf "$2")" ] || { echo "output: $out"; exit 1; }; fi; }
want_fail() { asm "$1"; [ $code -eq 1 ] && [ ! -e o.hex ] && [ -n "$msg" ] || { echo "exit $code, output: $out, message: $msg"; exit 1; }; }
'''
def sh(c, cwd=None, t=600):
    p = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode("utf8", "replace")
ENV = "export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never; "
def main():
    g = runpy.run_path(sys.argv[1])
    bugs = g["BUGS"]
    ids = sys.argv[2:] or list(bugs)
    if not os.path.exists(SC):
        os.makedirs("/tmp/seed", exist_ok=True)
        sh("cp -a /repo " + SC)
    for i in ids:
        b = bugs[i]
        sh("git fetch -q /repo HEAD; git checkout -qf FETCH_HEAD; git checkout -q -- .", SC)
        d = "/tmp/seed/%s" % i
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + "/demo.sh", "w").write(HEAD + b["demo"].strip("\n") + "\nexit 0\n")
        sh(ENV + "cargo build --workspace --offline", SC)
        rc, o = sh("bash %s/demo.sh" % d, SC, 300)
        if rc != 0: print(i, "DEMO FAILS ON UNCHANGED:", o); continue
        bad = False
        for f, old, new in b["edits"]:
            p = SC + "/" + f; s = open(p).read()
            if s.count(old) != 1: print(i, "edit matches", s.count(old), "times in", f, repr(old[:60])); bad = True; break
            open(p, "w").write(s.replace(old, new))
        if bad: continue
        rc, o = sh(ENV + "cargo build --workspace --offline", SC)
        if rc != 0: print(i, "NO BUILD", o[-1500:]); continue
        rc, o = sh(ENV + "cargo test --workspace --offline", SC)
        if rc != 0: print(i, "TESTS CATCH IT", [l for l in o.splitlines() if "FAILED" in l or "panicked" in l][:6]); continue
        rc, o = sh("bash %s/demo.sh" % d, SC, 300)
        if rc == 0: print(i, "DEMO DOES NOT FAIL"); continue
        print(i, "ok:", o.strip()[:150])
        rc, diff = sh("git diff", SC)
        t = V + "/seeded/" + i
        shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
        open(t + "/patch.diff", "w").write(diff)
        shutil.copy(d + "/demo.sh", t + "/demo.sh")
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(t + "/meta.json", "w"), indent=1)
main()
