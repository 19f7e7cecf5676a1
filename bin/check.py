#!/usr/bin/env python3
"""check.py PROPERTY   decides one property of /verif/properties.jsonl.

Rebuilds the property's drivers from /repo's working tree, checks its design
specification with TLC, runs the drivers (optionally on behaviours TLC
generated) and validates every recorded history with TLC against the trace
specification.  See DESIGN.md.
exit 0: held; 1 + VIOLATION line: broken; 2: the machinery failed."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")
B = os.path.join(VERIF, ".build")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, os.path.join(VERIF, "bin"))
sys.dont_write_bytecode = True


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, timeout, cwd=None, env=None, out=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=out or subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, stdin=subprocess.DEVNULL)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        o, _ = p.communicate()
        return "timeout", o or ""


def build_env(cfg):
    env = {"CC": "/usr/bin/gcc", "CXX": "/usr/bin/g++", "CCACHE_DISABLE": "1",
           "HOME": "/root", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
           "GIT_CONFIG_COUNT": "1", "GIT_CONFIG_KEY_0": "safe.directory",
           "GIT_CONFIG_VALUE_0": REPO, "PYTHONDONTWRITEBYTECODE": "1",
           "VGEN_OPT": "-O1"}
    if cfg == "omp":
        env["VGEN_OPENMP"] = "1"
    if cfg == "o2":
        env["VGEN_OPT"] = "-O2"
    return env


def build(cfg, targets, timeout=800, probes=()):
    d = os.path.join(B, cfg)
    os.makedirs(d, exist_ok=True)
    for l in ("tachyon", "third_party", "bazel"):
        p = os.path.join(d, l)
        if not os.path.islink(p):
            os.symlink(os.path.join(REPO, l), p)
    p = os.path.join(d, "vh")
    if not os.path.islink(p):
        os.symlink(os.path.join(VERIF, "harness"), p)
    env = build_env(cfg)
    rc, o = sh([sys.executable, VERIF + "/bin/vgen.py", REPO, d], 200, env=env)
    if rc != 0:
        raise Broken("vgen failed:\n" + o[-3000:])
    rc, o = sh(["ninja", "-C", d] + targets, timeout, env=env)
    if rc != 0:
        raise Broken("build failed:\n" + o[-6000:])
    # programs that use a public header exactly as a user would
    failed = []
    for p in probes:
        rc, o = sh(["ninja", "-C", d, "bazel-out/k8-opt/bin/vh/" + p], timeout, env=env)
        if rc != 0 and " error: " in o:
            failed.append((p, o[-4000:]))
    return failed


def build_java():
    d = os.path.join(B, "java")
    src = os.path.join(VERIF, "java")
    out = os.path.join(d, "BigNat.class")
    fs = [os.path.join(src, f) for f in os.listdir(src) if f.endswith(".java")]
    if os.path.exists(out) and all(os.path.getmtime(out) > os.path.getmtime(f) for f in fs):
        return
    os.makedirs(d, exist_ok=True)
    rc, o = sh(["javac", "-cp", JARS, "-d", d] + fs, 200)
    if rc != 0:
        raise Broken("javac failed:\n" + o)


def tlc(spec, cfg, env=None, args=(), timeout=800, heap="6g", workers="8"):
    meta = os.path.join(B, "tlcmeta", "%s-%d-%d" % (cfg, os.getpid(), time.time_ns()))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + meta,
           "-cp", os.path.join(B, "java") + ":" + JARS, "tlc2.TLC",
           "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
           "-config", cfg + ".cfg"] + list(args) + [spec + ".tla"]
    try:
        return sh(cmd, timeout, cwd=os.path.join(VERIF, "tla"), env=env)
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def stats(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


def action_counts(out):
    r = {}
    for m in re.finditer(r"^<(\w+) line [^>]*>: (\d+):(\d+)", out, re.M):
        r[m.group(1)] = r.get(m.group(1), 0) + int(m.group(3))
    return r


def run_model(m):
    """exhaustive (or simulated) check of a design specification"""
    args = list(m.get("args", []))
    rc, out = tlc(m["spec"], m["cfg"], args=args + ([] if m.get("nocoverage") else ["-coverage", "1"]),
                  timeout=m.get("timeout", 600), workers=m.get("workers", "4"))
    if rc != 0:
        raise Broken("design model %s: TLC exit %s\n%s" % (m["cfg"], rc, out[-5000:]))
    gen, dist = stats(out)
    acts = action_counts(out)
    never = [a for a, n in acts.items() if n == 0 and a not in m.get("may_idle", ())
             and a not in ("Init",)]
    if never:
        raise Broken("design model %s: actions never taken: %s" % (m["cfg"], never))
    return {"model": m["cfg"], "states": dist, "transitions": gen, "actions": acts}


def run_gen(g, outdir):
    """behaviours of the specification for the driver to execute"""
    import gen
    return getattr(gen, g["fn"])(outdir, g, tlc, Broken)


def run_driver(cfg, r, tdir, gendir, timeout):
    shutil.rmtree(tdir, ignore_errors=True)
    os.makedirs(tdir)
    exe = os.path.join(B, cfg, "bazel-out/k8-opt/bin/vh", r["exe"])
    scratch = tdir + ".scratch"
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    env = {"VH_GEN": gendir, "VH_SCRATCH": scratch, "TMPDIR": scratch,
           "GLOG_logtostderr": "1"}
    env.update(r.get("env", {}))
    with open(tdir + ".log", "w") as f:
        rc, _ = sh([exe, tdir] + r.get("args", []), timeout, env=env, out=f, cwd=scratch)
    shutil.rmtree(scratch, ignore_errors=True)
    return rc


def op_counts(tdir, n):
    r = {}
    for i in range(1, n + 1):
        for line in open("%s/%d.ndjson" % (tdir, i)):
            k = line[7:line.find('"', 7)]
            r[k] = r.get(k, 0) + 1
    return r


def load(tdir):
    n = 0
    while os.path.exists("%s/%d.ndjson" % (tdir, n + 1)):
        n += 1
    return n


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k["property"] == pid and k.get("status") == "open"]


def filter_known(tdir, n, kfs, seen):
    """drop events that exactly match a listed known finding"""
    if not kfs:
        return
    for i in range(1, n + 1):
        p = "%s/%d.ndjson" % (tdir, i)
        out, ch = [], False
        for line in open(p):
            ev = None
            for k in kfs:
                if k["probe"] in line:
                    ev = ev or json.loads(line)
                    if all(ev.get(a) == b for a, b in k["event"].items()):
                        seen[k["id"]] = k
                        ch = True
                        break
            else:
                out.append(line)
        if ch:
            open(p, "w").writelines(out)


def validate(r, tdir, timeout):
    """-> (ok, info)"""
    n = load(tdir)
    if n == 0:
        return False, {"why": "no history recorded"}
    rc, out = tlc(r["spec"], r.get("cfg", r["spec"]),
                  env={"VH_TRACES": tdir, "VH_NSHARDS": str(n)}, timeout=timeout,
                  heap=r.get("heap", "10g"), workers=r.get("workers", "8"))
    gen, dist = stats(out)
    if rc == 0:
        return True, {"states": dist, "transitions": gen, "shards": n,
                      "actions": op_counts(tdir, n), "out": out}
    if rc == "timeout":
        return None, {"why": "TLC timed out", "out": out[-3000:]}
    # Deadlock: the last state of the error trace names shard and event.
    ts = re.findall(r"^/\\ t = (\d+)$", out, re.M)
    ls = re.findall(r"^/\\ l = (\d+)$", out, re.M)
    if "Deadlock reached" in out or "is violated" in out or (ts and "Error: " in out):
        info = {"out": out}
        if ts and ls:
            t, l = int(ts[-1]), int(ls[-1])
            lines = open("%s/%d.ndjson" % (tdir, t)).read().splitlines()
            info.update(shard=t, event_index=l, shard_len=len(lines),
                        event=lines[l - 1] if l <= len(lines) else None,
                        before=lines[max(0, l - 6):l - 1])
        info["why"] = ("no action of the specification explains the event"
                       if "Deadlock reached" in out else
                       "the specification cannot evaluate or accept the event: " +
                       " ".join(re.findall(r"^Error: .*(?:\n.+){0,3}", out, re.M)[:2])[:1500])
        if not ts:
            return None, info
        return False, info
    return None, {"why": "TLC exit %s" % rc, "out": out[-4000:]}


def main():
    pid = sys.argv[1]
    import registry
    spec = registry.CHECKS[pid]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--thorough" in sys.argv:
        tier = "thorough"
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED") or "1")
    os.environ["VERIF_SEED"] = str(seed)
    t0 = time.time()
    cfg = spec.get("build", "o1")
    work = os.path.join(B, "run", pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    models = spec.get("models", []) + (spec.get("thorough_models", []) if tier == "thorough" else [])
    runs = spec.get("runs", []) + (spec.get("thorough_runs", []) if tier == "thorough" else [])
    try:
        build_java()
        bt = {}
        for r in runs:
            bt.setdefault(r.get("build", cfg), []).append("bazel-out/k8-opt/bin/vh/" + r["exe"])
        with cf.ThreadPoolExecutor(8) as ex:
            pr = spec.get("probes", [])
            fb = ex.submit(lambda: [x for i, (c, ts) in enumerate(bt.items())
                                    for x in build(c, sorted(set(ts)), probes=pr if i == 0 else ())])
            fm = [ex.submit(run_model, m) for m in models]
            fg = [ex.submit(run_gen, g, os.path.join(work, "gen")) for g in spec.get("gen", [])]
            probe_failures = fb.result()
            tb = time.time() - t0
            mres = [f.result() for f in fm]
            gres = [f.result() for f in fg]
        log("[%s] build %.0fs, models %.0fs" % (pid, tb, time.time() - t0))
        kfs = known_findings(pid)
        seen = {}
        viol = []
        total = {"states": 0, "transitions": 0, "traces": 0, "events": 0, "actions": {}}
        samples = []
        run_dead = 400 if tier == "quick" else 3000
        for p, o in probe_failures:
            os.makedirs(os.path.join(B, "replay", pid), exist_ok=True)
            rp = os.path.join(B, "replay", pid, p + ".json")
            info = {"why": "a program using a public header does not compile: " + p + ".cc", "compiler": o}
            json.dump(info, open(rp, "w"), indent=1)
            viol.append((rp, info))
        for k, r in enumerate(runs):
            name = r.get("name", r["exe"])
            res = None
            for attempt in (1, 2):
                tdir = os.path.join(work, "%d-%s" % (k, name))
                t1 = time.time()
                rc = run_driver(r.get("build", cfg), r, tdir, os.path.join(work, "gen"),
                                r.get("timeout", 200 if tier == "quick" else 3000))
                t2 = time.time()
                n = load(tdir)
                filter_known(tdir, n, kfs, seen)
                if n == 0 and rc not in (0,):
                    raise Broken("driver %s recorded nothing (exit %s): %s" % (
                        name, rc, open(tdir + ".log").read()[-2000:]))
                ok, info = validate(r, tdir, run_dead)
                log("[%s] %s: driver rc=%s %.1fs, TLC %s %.1fs, %s states" % (
                    pid, name, rc, t2 - t1, ok, time.time() - t2, info.get("states")))
                if ok is None:
                    raise Broken("%s: %s\n%s" % (name, info["why"], info.get("out", "")[-3000:]))
                if ok and rc not in (0,):
                    ok = False
                    info["why"] = ("the driver did not terminate" if rc == "timeout" else
                                   "the driver ended with status %s: " % rc +
                                   open(tdir + ".log").read()[-1500:])
                if ok:
                    break
                # a history of several threads need not come again: once is enough
                if res is not None or (r.get("concurrent") and info["why"].startswith("no action")):
                    break
                res = (ok, info)
            if not ok:
                rep = os.path.join(B, "replay", pid)
                os.makedirs(rep, exist_ok=True)
                rp = os.path.join(rep, "%s-seed%d.json" % (name, seed))
                info2 = {a: b for a, b in info.items() if a != "out"}
                info2["tlc_tail"] = info.get("out", "")[-6000:]
                info2["driver"] = r["exe"]
                info2["args"] = r.get("args", [])
                info2["driver_status"] = str(rc)
                info2["reproduce"] = "VERIF_SEED=%d VERIF_TIER=%s python3 /verif/bin/check.py %s" % (seed, tier, pid)
                if info.get("shard"):
                    src = "%s/%d.ndjson" % (tdir, info["shard"])
                    dst = rp[:-5] + ".ndjson"
                    shutil.copy(src, dst)
                    info2["history"] = dst
                json.dump(info2, open(rp, "w"), indent=1)
                viol.append((rp, info))
            else:
                total["states"] += info["states"]
                total["transitions"] += info["transitions"]
                total["traces"] += info["shards"]
                for a, c in info["actions"].items():
                    total["actions"][a] = total["actions"].get(a, 0) + c
                for i in range(1, min(info["shards"], 3) + 1):
                    with open("%s/%d.ndjson" % (tdir, i)) as f:
                        samples.append(f.readline().strip()[:400])
                for i in range(1, info["shards"] + 1):
                    with open("%s/%d.ndjson" % (tdir, i)) as f:
                        total["events"] += sum(1 for _ in f)
                need = r.get("must_cover", ())
                miss = [a for a in need if not info["actions"].get(a)]
                if miss:
                    raise Broken("%s: the histories never exercise %s" % (name, miss))
            if not os.environ.get("VH_KEEP"):
                shutil.rmtree(tdir, ignore_errors=True)
        for kf in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["what"]))
        cov = {"states": sum(m["states"] for m in mres) + total["states"],
               "transitions": sum(m["transitions"] for m in mres) + total["transitions"],
               "traces_validated_against_impl": total["traces"],
               "events_validated_against_impl": total["events"],
               "design_models": mres,
               "trace_actions_taken": total["actions"],
               "generated_behaviours": gres,
               "known_findings_seen": sorted(seen),
               "samples": samples[:6]}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": cov, "assumptions": spec.get("assumptions", []),
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
        for rp, info in viol:
            print("%s: %s" % (pid, info.get("why")))
            if info.get("event"):
                print("  event %s of history %s: %s" % (info["event_index"], info["shard"], info["event"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1 if viol else 0
    except Broken as e:
        log("CHECK-ERROR %s: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
