"""Builds what a check needs from /repo's working tree, runs the analyses of one property, writes the evidence."""
import fcntl
import hashlib
import json
import multiprocessing
import multiprocessing.connection
import resource
import os
import shutil
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.path.join(HERE, ".work")
EVID = os.path.join(HERE, "evidence")
REPO = "/repo"
HARNESS = os.path.join(HERE, "harness")


class BuildFailed(Exception):
    pass


def sysroot():
    return subprocess.run(["rustc", "+nightly", "--print", "sysroot"], capture_output=True, text=True,
                          check=True).stdout.strip()


def build_extractor():
    os.makedirs(WORK, exist_ok=True)
    src = os.path.join(HERE, "engine", "extract", "main.rs")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(WORK, "extract-" + h)
    if not os.path.exists(out):
        tmp = out + ".%d" % os.getpid()
        r = subprocess.run(["rustc", "+nightly", "--edition", "2021", "-O", src, "-o", tmp],
                           capture_output=True, text=True, cwd=WORK)
        if r.returncode:
            sys.stderr.write(r.stderr)
            raise SystemExit("the extractor does not build")
        os.rename(tmp, out)
    return out


def extract(features, name, release=False):
    """Compiles the harness crate against /repo with the extractor in the place of rustc, and gives the dump.
    `release`: as it is built for release, without assertions and checks for overflow"""
    ex = build_extractor()
    os.makedirs(WORK, exist_ok=True)
    out = os.path.join(WORK, "mir-%s.json" % name)
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ)
    env.update({
        "RUSTC_WORKSPACE_WRAPPER": ex,
        "VP_OUT": out,
        "LD_LIBRARY_PATH": os.path.join(sysroot(), "lib"),
        "RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 --cap-lints=allow",
        "CARGO_TARGET_DIR": os.path.join(WORK, "target"),
        "CARGO_INCREMENTAL": "0",
    })
    if release:
        env.update({"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"})
    with open(os.path.join(WORK, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # cargo would skip a fresh crate, and with it the extractor
        shutil.rmtree(os.path.join(WORK, "target"), ignore_errors=True)
        cmd = ["cargo", "+nightly", "build", "--offline", "--locked", "--lib"]
        if features:
            cmd += ["--features", ",".join(features)]
        r = subprocess.run(cmd, cwd=HARNESS, env=env, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise BuildFailed(r.stdout + r.stderr)
    return out


def worker(job):
    (root, seconds, opts) = job
    import engine
    import models
    t = time.time()
    E = engine.Engine(PROG, models)
    E.opts = opts
    E.deadline = t + seconds
    if os.environ.get("VP_PROFILE"):
        E.profile = {}
    err = None
    try:
        E.run(PROG.fns[PROG.roots[root]])
    except RecursionError:
        E.undecided["recursion of the analyser"] = [1, []]
    except Exception:
        err = traceback.format_exc()
        E.undecided["analyser: " + err.strip().splitlines()[-1]] = [1, err.splitlines()[-12:]]
    fns = [PROG.fns[i] for i in E.entered]
    return {
        "root": root,
        "violations": list(E.violations.values()),
        "undecided": {k: v for k, v in E.undecided.items()},
        "checked": E.checked,
        "reached": sorted(E.reached),
        "expected": sorted(expected(PROG, root)),
        "partitions": E.states,
        "ends": E.ends,
        "functions": sorted({f.path for f in fns if f.crate == "fleece"}),
        "nfunctions": len(fns),
        "blocks": len(E.blocks),
        "seconds": round(time.time() - t, 2),
        "error": err,
        "profile": E.profile,
    }


PROG = None


def lost(root, why):
    return {"root": root, "violations": [], "undecided": {why: [1, []]}, "checked": {}, "reached": [], "expected": [],
            "partitions": 0, "ends": 0, "functions": [], "nfunctions": 0, "blocks": 0, "seconds": 0, "error": why,
            "profile": None}


def child(conn, job):
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    conn.send(worker(job))
    conn.close()
    os._exit(0)


def run_jobs(jobs, total=700):
    """One process for each job, so many at a time; yields the results. What has not begun in time is undecided"""
    n = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    ctx = multiprocessing.get_context("fork")
    jobs = list(jobs)
    live = {}
    end = time.time() + total
    while jobs or live:
        while jobs and len(live) < n:
            root, secs, opts = jobs.pop(0)
            left = end - time.time()
            if left < 2:
                yield lost(root, "time")
                continue
            secs = min(secs, left)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, (root, secs, opts)))
            p.start()
            b.close()
            live[a] = (p, root, time.time() + secs + 40)
        if not live:
            continue
        for c in multiprocessing.connection.wait(list(live), 1.0):
            p, root, _ = live.pop(c)
            try:
                r = c.recv()
            except (EOFError, OSError):
                r = lost(root, "the analysis did not end properly")
            c.close()
            p.join()
            yield r
        now = time.time()
        for c in [c for c, x in live.items() if x[2] < now]:
            p, root, _ = live.pop(c)
            p.kill()
            p.join()
            c.close()
            yield lost(root, "time")


def expected(prog, root):
    """The names of the points which have to be reachable from an entry point"""
    seen = set()
    work = [prog.roots[root]]
    out = set()
    while work:
        i = work.pop()
        if i in seen:
            continue
        seen.add(i)
        fn = prog.fns[i]
        if fn.raw is None or fn.crate != "harness" or "::vp::" in fn.path:
            continue
        for b in fn.raw["blocks"]:
            t = b[1]
            if t[0] == "call" and t[1][0] == "fn":
                g = prog.fns[t[1][1]]
                if g.path.endswith("::vp::reached"):
                    s = const_operand(prog, t[2][0])
                    if s is not None:
                        out.add(s)
                work.append(t[1][1])
    return out


def const_operand(prog, o):
    if o[0] != "k":
        return None
    j = o[2]
    if not j["prov"]:
        return None
    al = prog.m["allocs"][j["prov"][0][1]]
    n = int.from_bytes(bytes.fromhex(j["bytes"][16:32]), "little")
    if al[0] != "mem":
        return None
    return bytes.fromhex(al[1]["bytes"][:2 * n]).decode()


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]


def run_harnesses(pid, tier, features, select, limits, report, release=False):
    """Analyses every entry point; fills the report"""
    import mir
    global PROG
    try:
        path = extract(features, pid, release)
    except BuildFailed as e:
        report["violations"].append({
            "key": "build", "kind": "build", "function": "harness",
            "msg": "the public interface which the property is about is not there any more (the harness does not "
                   "compile against it)", "stack": str(e).splitlines()[-60:], "state": []})
        return
    PROG = mir.Program(path)
    os.unlink(path)
    roots = [r for r in sorted(PROG.roots) if select(r)]
    if not roots:
        raise SystemExit("no entry points for " + pid)
    jobs = [(r, limits(r), {}) for r in roots]
    jobs.sort(key=lambda j: -j[1])
    results = list(run_jobs(jobs, 600 if tier == "quick" else 790))
    results.sort(key=lambda r: r["root"])
    for r in results:
        if release:
            r["root"] += "@release"
    report["results"] += results
    for r in results:
        for v in r["violations"]:
            v = dict(v)
            v["key"] = r["root"] + "|" + v["key"]
            v["root"] = r["root"]
            report["violations"].append(v)
        if not r["undecided"]:
            for x in r["expected"]:
                if x not in r["reached"]:
                    report["violations"].append({
                        "key": r["root"] + "|unreachable|" + x, "kind": "unreachable", "root": r["root"],
                        "function": r["root"], "msg": "no execution reaches the point '%s'" % x, "stack": [],
                        "state": []})


def check(pid, tier):
    import props
    t0 = time.time()
    sys.setrecursionlimit(100000)
    P = props.PROPS[pid]
    report = {"violations": [], "results": [], "rules": []}
    try:
        P(tier, report)
    except SystemExit:
        raise
    known = [k for k in load_known() if k.get("status") == "known" and k["property"] == pid]
    seen = []
    bad = []
    for v in report["violations"]:
        k = next((k for k in known if (v["key"].replace("@release|", "|") + "|").startswith(k["key"] + "|")), None)
        if k is not None:
            seen.append((k, v))
        else:
            bad.append(v)
    os.makedirs(EVID, exist_ok=True)
    wall = round(time.time() - t0, 2)
    res = report["results"]
    obligations = sum(len(r["checked"]) + 1 + len(r["expected"]) for r in res) + sum(r["obligations"] for r in report["rules"])
    und = sum(1 for r in res if r["undecided"])
    discharged = sum(len(r["checked"]) + 1 + len(r["expected"]) for r in res if not r["undecided"]) + sum(
        r["discharged"] for r in report["rules"])
    discharged = max(0, discharged - len(bad) - len(seen))
    fns = sorted({f for r in res for f in r["functions"]})
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": props.LEVEL.get(pid, "other"),
        "coverage": {
            "obligations": obligations,
            "discharged": discharged,
            "checker_cmd": "python3 /verif/check.py %s %s" % (pid, tier),
            "trusted_base": props.TRUSTED,
            "explanation": props.NOTE[pid],
            "entry_points": len(res),
            "entry_points_decided": len(res) - und,
            "abstract_partitions": sum(r["partitions"] for r in res),
            "functions_of_the_repository": fns,
            "functions_in_all": sum(r["nfunctions"] for r in res),
            "blocks": sum(r["blocks"] for r in res),
            "details": [{k: r[k] for k in ("root", "checked", "reached", "partitions", "ends", "nfunctions", "blocks",
                                           "seconds")} | {"undecided": {k: v[0] for k, v in r["undecided"].items()}}
                        for r in res],
            "rules": report["rules"],
            "known_findings_seen": [k["key"] for k, _ in seen],
        },
        "assumptions": props.ASSUME,
        "wall_s": wall,
        "violations": len(bad),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in {k["key"]: k for k, _ in seen}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for r in res:
        print("%-40s %6d partitions %5d functions %7.2fs %s" % (
            r["root"], r["partitions"], r["nfunctions"], r["seconds"],
            "undecided: " + "; ".join(list(r["undecided"])[:3]) if r["undecided"] else "decided"))
    for r in report["rules"]:
        print("rule %-40s %d obligations, %d discharged" % (r["rule"], r["obligations"], r["discharged"]))
    if not bad:
        print("property %s holds on everything analysed (%d obligations, %.1fs)" % (pid, obligations, wall))
        return 0
    rd = os.path.join(EVID, "replay")
    os.makedirs(rd, exist_ok=True)
    path = os.path.join(rd, "%s-%s.json" % (pid, tier))
    with open(path, "w") as f:
        json.dump(bad, f, indent=1)
    for v in bad[:10]:
        print("  %s: %s in %s" % (v["kind"], v["msg"], v["function"]))
        print("    rule instance: %s" % v["key"])
        for s in v["stack"][:6]:
            print("      " + str(s)[:200])
        for s in v["state"][:6]:
            print("      where " + str(s)[:200])
    print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1
