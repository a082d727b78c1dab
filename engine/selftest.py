#!/usr/bin/env python3
"""Compares the library models with the library: evaluates selftest/lib.rs both ways."""
import os, re, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
import check
exe, models, sysroot = check.build()
src = os.path.join(HERE, "selftest", "lib.rs")
with tempfile.TemporaryDirectory() as d:
    p = subprocess.run([exe, src, models, d, "eval"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, "lib")))
    got = dict(l.split(" ", 1) for l in p.stdout.splitlines())
    names = re.findall(r"^    (t_\w+) ", open(src).read(), re.M)
    main = "#[path = %r] mod l; fn main() { %s }" % (src, " ".join('println!("%s {}", l::%s());' % (n, n) for n in names))
    open(os.path.join(d, "m.rs"), "w").write(main.replace("'", '"'))
    r = subprocess.run(["rustc", "+nightly", "--edition", "2024", "-Awarnings", "-o", os.path.join(d, "m"), os.path.join(d, "m.rs")], stderr=subprocess.PIPE, text=True)
    if r.returncode: print(r.stderr[-3000:]); sys.exit(1)
    want = dict(l.split(" ", 1) for l in subprocess.run([os.path.join(d, "m")], stdout=subprocess.PIPE, text=True).stdout.splitlines())
    ok = wrong = unknown = 0
    for n in names:
        g = got.get(n, "missing").strip()
        if g.split(" ")[0] == want[n]: ok += 1
        elif re.match(r"-?\d+ ?$", g): wrong += 1; print("WRONG", n, g, "want", want[n])
        else: unknown += 1; print("no value:", n, g)
    print(ok, "agree,", unknown, "not evaluated,", wrong, "wrong")
    if p.returncode: print(p.stderr[:3000])
    sys.exit(1 if wrong else 0)
