#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--job NAME] [-v]: decides one property by symbolic execution of /repo's current code."""
import sys, os, json, time, subprocess, threading, argparse, shutil, re
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/vt")
import build
import registry

NCPU = int(os.environ.get("SYMX_CPUS", "8"))


class Slots:
    def __init__(self, n):
        self.n = n; self.c = threading.Condition()

    def get(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def put(self, k):
        with self.c:
            self.n += k; self.c.notify_all()


def write_replay(path, v, job, prop, bc_hint):
    inp = v["input"]
    with open(path, "w") as f:
        f.write("# property %s job %s\n# %s: %s\n" % (prop, job["name"], v["kind"], v["msg"]))
        f.write("# harness %s defs %s\n" % (job["src"], " ".join(job["defs"])))
        for l in v["stack"].splitlines():
            f.write("# " + l + "\n")
        for n, h in inp["inputs"]:
            f.write("in %s %s\n" % (n, h))
        f.write("sched %s\n" % inp.get("sched", ""))
        for e, q in inp.get("crashes", []):
            f.write("crash %d %d\n" % (e, q))


def engine_opts(job):
    o = []
    for k in ("preempt", "steps", "rlimit"):
        if k in job:
            o += ["--" + k, str(job[k])]
    if job.get("norace"):
        o.append("--no-race")
    return o


def confirm(eng, bc, job, rp, v):
    """Replays a counterexample: concretely in the executor, and natively when it needs no particular schedule or crash."""
    r = subprocess.run([eng, bc, "--replay", rp, "--out", rp + ".json", "--time", "120"] + engine_opts(job), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    try:
        rep = json.load(open(rp + ".json")); os.unlink(rp + ".json")
    except Exception:
        return False, "replay run gave no report: " + r.stdout.decode(errors="replace")[-300:]
    if not rep["violations"]:
        return False, "the concrete replay did not fail: " + r.stdout.decode(errors="replace")[-300:]
    note = "confirmed by concrete re-execution"
    if v["kind"] in ("assert", "abort", "exception") and v["input"].get("crash", -1) < 0 and not v["input"].get("sched"):
        try:
            nb = build.native(bc)
            n = subprocess.run([nb, rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=90)
            if n.returncode == 1 or n.returncode < 0:
                note += " and by the natively compiled program (%s)" % n.stdout.decode(errors="replace").strip().splitlines()[-1:][0:1]
            elif n.returncode == 0:
                return False, "the natively compiled program does not fail on this input"
        except subprocess.TimeoutExpired:
            note += "; native run did not end within 90 s"
        except build.BuildError as e:
            note += "; native build failed"
    return True, note


def validate_samples(bc, rep):
    """Passing paths are re-run natively: the observed values must be the predicted ones."""
    ok = bad = 0; msgs = []
    if not any(s["obs"] and not s["in"].get("sched") and s["in"].get("crash", -1) < 0 for s in rep["samples"]):
        return ok, bad, msgs
    try:
        nb = build.native(bc)
    except build.BuildError as e:
        return 0, 0, ["native build failed: " + str(e)[-300:]]
    for i, s in enumerate(rep["samples"]):
        if s["in"].get("sched") or s["in"].get("crash", -1) >= 0:
            continue
        rp = bc + ".s%d.%d" % (i, os.getpid())
        with open(rp, "w") as f:
            for n, h in s["in"]["inputs"]:
                f.write("in %s %s\n" % (n, h))
        try:
            n = subprocess.run([nb, rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            if n.returncode == 77:
                continue
            got = [l.split(" ", 2)[1:] for l in n.stdout.decode(errors="replace").splitlines() if l.startswith("OBS ")]
            got = [[g[0], g[1].strip() if len(g) > 1 else ""] for g in got]
            if n.returncode == 0 and got == s["obs"]:
                ok += 1
            else:
                bad += 1; msgs.append("sample %d: rc=%d native %s predicted %s" % (i, n.returncode, got[:4], s["obs"][:4]) + ("" if n.returncode == 0 else n.stdout.decode(errors="replace")[-200:]))
        except subprocess.TimeoutExpired:
            msgs.append("sample %d: native run timed out" % i)
        finally:
            os.unlink(rp)
    return ok, bad, msgs


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--job"); ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    P = registry.PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    jobs = registry.jobs(a.prop, tier)
    if a.job:
        jobs = [j for j in jobs if j["name"] == a.job or re.fullmatch(a.job, j["name"])]
    eng = build.engine()
    try:
        build.library()
    except build.BuildError as e:
        print("build of /repo's sources failed:\n" + str(e)); return 2
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    slots = Slots(NCPU); res = {}; lk = threading.Lock()
    budget = registry.WALL[tier]
    known = [k for k in json.load(open(VERIF + "/known-findings.json"))["findings"] if k["property"] == a.prop]

    def work(j):
        out = {"job": j, "rep": None, "err": None}
        w = min(j.get("workers", 1), NCPU)
        slots.get(w)
        try:
            left = budget - (time.time() - t0)
            if left < 5:
                out["err"] = "not started: out of time"; return
            try:
                bc = build.harness(j["src"], j["defs"], j.get("subst", ()))
            except build.BuildError as e:
                if "constant to scale not found" not in str(e):
                    out["err"] = "harness build failed: " + str(e); return
                if j.get("needs_scale"):
                    out["skip"] = str(e); return
                try:   # the constants are where they were not: the code is taken as it is
                    bc = build.harness(j["src"], j["defs"])
                except build.BuildError as e2:
                    out["err"] = "harness build failed: " + str(e2); return
                j["bounds"] = j.get("bounds", "") + " (constants not scaled)"
            out["bc"] = bc
            left = budget - (time.time() - t0)
            rf = build.CACHE + "/r.%d.%s.json" % (os.getpid(), re.sub(r"\W", "_", j["name"]))
            tl = max(3, min(j["time"], left))
            p = subprocess.run([eng, bc, "--workers", str(w), "--time", "%.0f" % tl, "--out", rf, "--max-viol", str(j.get("maxviol", 6)), "--samples", str(j.get("samples", 3))] + engine_opts(j),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            try:
                out["rep"] = json.load(open(rf)); os.unlink(rf)
            except Exception as e:
                out["err"] = "the executor gave no report (exit %d): %s" % (p.returncode, p.stdout.decode(errors="replace")[-500:])
        except Exception as e:
            out["err"] = repr(e)
        finally:
            slots.put(w)
            with lk:
                res[j["name"]] = out
            if a.v:
                r = out["rep"]
                print("  %-38s %s" % (j["name"], out["err"] if r is None else "paths %d z3 %d fast %d wall %.1f exh %s viol %d unsup %s reach %s" % (r["paths"], r["z3"], r["fast"] , r["wall"], r["exhaustive"], len(r["violations"]), r["unsupported_msgs"][:2], list(r["reach"].items())[:6])), flush=True)

    # largest first
    order = sorted(jobs, key=lambda j: -j.get("workers", 1) * j["time"])
    # harnesses are compiled ahead, in parallel
    ths = [threading.Thread(target=work, args=(j,)) for j in order]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    viols = []; unconfirmed = []; cover = []; problems = []; nval = 0; nbad = 0
    tot = dict(paths=0, queries=0, fast=0, z3=0, z3_us=0, asserts=0, assert_queries=0, memchecks=0, sched_points=0, crash_points=0, steps=0, unknown=0, infeasible=0)
    funcs = set()
    for j in jobs:
        o = res.get(j["name"])
        if o is not None and o.get("skip"):
            cover.append({"job": j["name"], "status": "not run", "reason": o["skip"]}); continue
        if o is None or o["rep"] is None:
            problems.append("%s: %s" % (j["name"], o["err"] if o else "lost")); cover.append({"job": j["name"], "status": "no result", "reason": (o or {}).get("err", "")[:600]}); continue
        r = o["rep"]
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs.update(r["functions"])
        missing = [l for l in j.get("expect", []) if not r["reach"].get(l)]
        for n, v in enumerate(r["violations"]):
            rp = VERIF + "/evidence/replay/%s-%s-%d.txt" % (a.prop, re.sub(r"\W", "_", j["name"]), n)
            write_replay(rp, v, j, a.prop, o["bc"])
            ok, note = confirm(eng, o["bc"], j, rp, v)
            v["note"] = note; v["job"] = j["name"]; v["replay"] = rp
            (viols if ok else unconfirmed).append(v)
        ok, bad, msgs = validate_samples(o["bc"], r) if j.get("samples", 3) and (tier == "thorough" or j.get("validate", True)) else (0, 0, [])
        nval += ok; nbad += bad
        problems += ["%s: %s" % (j["name"], m) for m in msgs]
        if missing and not r["violations"]:
            problems.append("%s: never reached %s" % (j["name"], missing))
        cover.append({"job": j["name"], "bounds": j.get("bounds", ""), "exhaustive_within_bounds": r["exhaustive"], "paths": r["paths"], "infeasible": r["infeasible"], "unsupported_paths": r["unsupported"], "unsupported": r["unsupported_msgs"][:5],
                      "solver_queries": r["queries"], "z3_queries": r["z3"], "z3_seconds": round(r["z3_us"] / 1e6, 2), "byte_domain_decisions": r["fast"], "solver_unknown": r["unknown"], "asserts": r["asserts"], "asserts_decided_by_solver": r["assert_queries"],
                      "address_checks": r["memchecks"], "scheduling_points": r["sched_points"], "crash_points": r["crash_points"], "instructions": r["steps"], "ran_out_of_time": bool(r["ranout"]), "reached": r["reach"], "never_reached": missing, "wall_s": r["wall"], "native_samples_agreeing": ok, "native_samples_disagreeing": bad})
    rc = 0
    fresh = []
    for v in viols:
        hit = None
        for k in known:
            if k.get("status") != "open":
                continue
            if re.search(k["match"]["msg"], v["msg"]) and re.search(k["match"].get("job", ""), v["job"]) and re.search(k["match"].get("stack", ""), v["stack"]) and all(any(n == kn and re.fullmatch(kv, h) for n, h in v["input"]["inputs"]) for kn, kv in k["match"].get("inputs", [])):
                hit = k; break
        if hit is None:
            fresh.append(v)
        else:
            hit["seen"] = True
    for k in known:
        if k.get("status") == "open":
            print("KNOWN-FINDING: property=%s %s" % (a.prop, k["what"]) + ("" if k.get("seen") else " (not met in this run)"))
    for v in fresh:
        rc = 1
        print("VIOLATION property=%s replay=%s" % (a.prop, v["replay"]))
        print("  %s in job %s: %s\n  %s" % (v["kind"], v["job"], v["msg"], v["note"]))
        if a.v:
            print(v["stack"]); print(v["input"])
    for v in unconfirmed:
        problems.append("%s: counterexample not confirmed and not reported: %s (%s)" % (v["job"], v["msg"], v["note"]))
    exh = sum(1 for c in cover if c.get("exhaustive_within_bounds"))
    ev = {"property": a.prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other", "wall_s": round(time.time() - t0, 1),
          "coverage": {"explanation": "Symbolic execution (symx, Z3) of the LLVM bitcode of /repo's current sources: %d harness variants, %d explored completely within their bounds; %d paths, %d solver decisions (%d by Z3 in %.1f s, the rest by exact byte-domain evaluation), %d assertions, %d passing paths re-run natively with equal observations." % (len(jobs), exh, tot["paths"], tot["queries"], tot["z3"], tot["z3_us"] / 1e6, tot["asserts"], nval), "totals": tot, "jobs": cover, "functions_encoded": sorted(f for f in funcs if "tkrzw" in f)[:400], "functions_encoded_count": len(funcs), "outside_bounds": P.get("outside", ""), "violations": [{k: v[k] for k in ("job", "kind", "msg", "note", "replay")} for v in viols], "problems": problems, "native_samples_agreeing": nval, "native_samples_disagreeing": nbad}}
    with open(VERIF + "/evidence/%s.json" % a.prop, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d/%d jobs complete, %d paths, %d decisions (%d Z3, %.1f s), %d assertions, wall %.1f s, violations %d" % (a.prop, tier, exh, len(jobs), tot["paths"], tot["queries"], tot["z3"], tot["z3_us"] / 1e6, tot["asserts"], ev["wall_s"], len(fresh)))
    for p in problems:
        print("  note: " + p[:700])
    if not any(o["rep"] for o in res.values()):
        return 2   # nothing could be decided
    return rc


if __name__ == "__main__":
    sys.exit(main())
