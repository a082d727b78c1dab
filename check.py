#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the analyser, analyses /repo's current sources, writes evidence/<property>.json.
Exit 0: nothing found.  Exit 1: "VIOLATION property=<id> replay=<path>".  Exit 2: the
sources do not compile or the analyser cannot be built (no verdict).
"""
import json, os, resource, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("OBJCHECK_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
from attribution import attribute  # noqa: E402
from table import CHECKS  # noqa: E402


class NoVerdict(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def build():
    os.makedirs(BUILD, exist_ok=True)
    eng = os.path.join(HERE, "engine")
    r = sh(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], cwd=eng)
    if r.returncode != 0:
        raise NoVerdict("the analyser does not build:\n" + r.stderr[-4000:])
    src = os.path.join(eng, "models", "lib.rs")
    out = os.path.join(BUILD, "libobjmodels.rlib")
    if not os.path.exists(out) or any(os.path.getmtime(out) < os.path.getmtime(os.path.join(eng, "models", f)) for f in os.listdir(os.path.join(eng, "models"))):
        tmp = os.path.join(BUILD, "models.%d" % os.getpid())
        os.makedirs(tmp, exist_ok=True)
        t = os.path.join(tmp, "libobjmodels.rlib")
        r = sh(["rustc", "+nightly", "--edition", "2024", "--crate-type", "rlib", "--crate-name", "objmodels", "-Zalways-encode-mir", "-Zmir-opt-level=0", "-o", t, src])
        if r.returncode != 0:
            raise NoVerdict("the library models do not build:\n" + r.stderr[-4000:])
        os.replace(t, out)
        os.rmdir(tmp)
    sysroot = sh(["rustc", "+nightly", "--print", "sysroot"]).stdout.strip()
    return os.path.join(eng, "target", "release", "objcheck"), out, sysroot


def run_job(tool, job, tier, seconds):
    exe, models, sysroot = tool
    scratch = os.path.join(BUILD, "run.%d.%s" % (os.getpid(), job[1].replace(":", "_")))
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, LD_LIBRARY_PATH=os.path.join(sysroot, "lib"))
    try:
        p = subprocess.run([exe, os.path.join(REPO, "src", "lib.rs"), models, scratch, job[0], job[1], tier], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, timeout=seconds, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30)))
    except subprocess.TimeoutExpired:
        return {"plan": job[1], "failed": "time limit of %d s" % seconds}
    finally:
        for f in os.listdir(scratch):
            os.unlink(os.path.join(scratch, f))
        os.rmdir(scratch)
    if p.returncode == 3:
        raise NoVerdict("the sources in %s do not compile:\n%s" % (REPO, p.stderr[-4000:]))
    for line in p.stdout.splitlines():
        if line.startswith("{"):
            try:
                return json.loads(line)
            except ValueError:
                pass
    return {"plan": job[1], "failed": "the analyser stopped with status %s: %s" % (p.returncode, p.stderr[-600:])}


def known(pid):
    """Keys of findings that are recorded as known (none are at present)."""
    keys = {}
    try:
        for line in open(os.path.join(HERE, "known_findings.txt")):
            w = line.strip().split(" ", 3)
            if len(w) >= 3 and w[0] == "known:" and w[1] == "property=" + pid and w[2].startswith("key="):
                keys[w[2][4:]] = w[3] if len(w) > 3 else ""
    except OSError:
        pass
    return keys


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = CHECKS[pid]
    tool = build()
    jobs = spec["jobs"]
    workers = max(1, min(8, os.cpu_count() or 1))
    limit = 840 if tier == "quick" else 6000
    with ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(lambda j: run_job(tool, j, tier, limit), jobs))
    mine, other = [], 0
    for r in res:
        for f in r.get("findings", []):
            props = f.get("props") or attribute(r.get("format"), f)
            if pid in props:
                mine.append((r["plan"], f))
            else:
                other += 1
    tot = lambda k: sum(r.get(k, 0) for r in res)
    fns = sorted({x for r in res for x in r.get("functions", [])})
    undecided = {}
    for r in res:
        for k, v in list(r.get("why", {}).items()) + list(r.get("notes", {}).items()):
            undecided[k] = undecided.get(k, 0) + v
        if "failed" in r:
            undecided[r["plan"] + ": " + r["failed"]] = 1
        if "missing" in r:
            undecided[r["plan"] + ": entry point " + r["missing"] + " not found"] = 1
    kn = known(pid)
    fresh = []
    for plan, f in mine:
        key = f.get("key") or f["kind"] + "|" + json.dumps(f.get("input", ""))
        if key.replace(" ", "_") in kn:
            print("KNOWN-FINDING: property=%s %s" % (pid, kn[key.replace(" ", "_")]))
        else:
            fresh.append((plan, f))
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "explanation": spec["explanation"],
        "rule": spec["rule"],
        "analyses": [{k: r[k] for k in ("plan", "what", "expanded", "steps", "ends", "matched", "undecided", "tainted", "merged", "left", "max_len", "obligations", "discharged", "sites", "wall", "failed", "missing", "samples", "fixpoint", "all_texts_up_to", "longest_text", "proof", "general") if k in r} for r in res],
        "functions_analysed": fns,
        "functions": len(fns),
        "abstract_states": tot("expanded"),
        "transfer_steps": tot("steps"),
        "outcomes_compared": tot("ends"),
        "outcomes_as_prescribed": tot("matched"),
        "obligations": tot("obligations"),
        "discharged": tot("discharged"),
        "not_decided": undecided,
        "findings_for_other_properties": other,
        "findings": [dict(plan=p, **f) for p, f in fresh[:20]],
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": spec["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    path = os.path.join(EVID, pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    for k, v in sorted(undecided.items(), key=lambda x: -x[1])[:10]:
        print("NOT-DECIDED: %s (%d)" % (k, v))
    print("%s %s: %d functions, %d abstract states, %d transfer steps, %d outcomes compared (%d as prescribed), %d obligations (%d discharged), %.1f s" % (
        pid, tier, len(fns), cov["abstract_states"], cov["transfer_steps"], cov["outcomes_compared"], cov["outcomes_as_prescribed"], cov["obligations"], cov["discharged"], time.time() - t0))
    if not fresh:
        return 0
    rp = os.path.join(EVID, pid + ".replay.json")
    with open(rp, "w") as f:
        json.dump({"property": pid, "findings": [dict(plan=p, **x) for p, x in fresh]}, f, indent=1)
    for plan, f in fresh[:5]:
        print("FOUND by %s: %s" % (plan, describe(f)))
    print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1


def describe(f):
    s = f["kind"]
    if f.get("at"):
        s += " at " + f["at"]
    if f.get("detail"):
        s += ": " + f["detail"]
    if f.get("input") is not None and f.get("input") != "":
        s += "; input %s" % json.dumps(f["input"])
    for d in f.get("diffs", [])[:4]:
        s += "; %s is %s, should be %s" % (".".join(d["path"]) or "result", d["got"][:300], d["want"][:300])
    return s


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoVerdict as e:
        print(e)
        sys.exit(2)
