#!/usr/bin/env python3
"""check.py PROPERTY            decides a property (VERIF_SEED, VERIF_TIER)
   check.py --replay FILE       replays a violation
   check.py --setup             builds every binary once
   check.py --determinism PROPERTY [RUNS]   each run twice, in other processes, at other job counts

Exit 0: held on everything explored.  1: VIOLATION line printed.  2: error."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import simbuild as B
import legs as L

WORK = os.path.join(B.VERIF, "work")

def seed():
    try: return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: return B.sha(os.environ["VERIF_SEED"]).__hash__() & 0xffffffff

def known(prop):
    """Known findings of a property: known_findings.txt lines 'known: property=<id> class=<class> match=<text> :: <what fails>'."""
    out = []
    try:
        for l in open(os.path.join(B.VERIF, "known_findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                head, _, what = l.partition(" :: ")
                f = dict(x.split("=", 1) for x in head.split()[1:])
                out.append((f["class"], f["match"], what))
    except FileNotFoundError:
        pass
    return out

def legs(prop, tier): return [leg for leg in L.CHECKS[prop]["legs"] if getattr(leg, tier)]

def build(prop, tier="quick"):
    b = B.Builder()
    links = [(leg, leg.make(b)) for leg in legs(prop, tier)]
    good, bad = [], []
    for leg, ln in links:
        try: good.append((leg, ln()))
        except RuntimeError as e: bad.append("configuration %s does not build: %s" % (leg.name, e))
    if not good: raise RuntimeError(bad[0])
    return good, bad

def clean_env():
    e = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "TMPDIR", "LANG", "SIM_STDERR")}
    e["LC_ALL"] = "C"
    return e

def run_leg(prop, leg, exe, tier, sd, work, share=1.0):
    runs, cap = getattr(leg, tier)
    out = os.path.join(work, "%s-%s.json" % (prop, leg.name))
    cmd = [exe, "--property", prop, "--config", leg.name, "--seed", str(sd), "--runs", str(runs), "--jobs", str(B.JOBS), "--time", str(cap), "--out", out, "--tier", tier] + leg.args
    if os.path.exists(out): os.unlink(out)
    r = subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env())
    if r.returncode != 0 or not os.path.exists(out):
        return None, "leg %s: simulator ended with code %d: %s" % (leg.name, r.returncode, r.stdout.decode(errors="replace")[-800:])
    with open(out) as f: d = json.load(f)
    os.unlink(out)
    return d, None

def replay_file(exe, prop, leg, path):
    r = subprocess.run([exe, "--property", prop, "--config", leg.name, "--replay", path] + leg.args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=clean_env())
    return r.returncode, r.stdout.decode(errors="replace")

def check(prop):
    t0 = time.time(); tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    sd = seed(); spec = L.CHECKS[prop]
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(B.VERIF, "evidence"), exist_ok=True)
    print("check %s tier=%s seed=%d" % (prop, tier, sd), flush=True)
    exes, unbuilt = build(prop, tier)
    for e in unbuilt: print("NOT DECIDED in one configuration: " + e)      # the others are
    t1 = time.time(); print("built %d configurations in %.1f s" % (len(exes), t1 - t0), flush=True)
    tot = dict(runs=0, nontrivial=0, distinct=0, states=0, det=0, steps=0); counters = {}; per = {}; samples = []; violations = []; errors = []
    for leg, exe in exes:
        d, err = run_leg(prop, leg, exe, tier, sd, WORK)
        if err:
            # the setup of the library itself failed: does it always?
            d2, err2 = run_leg(prop, leg, exe, tier, sd, WORK)
            errors.append(err)
            continue
        w = d["workers"]
        runs = sum(x["runs"] for x in w)
        per[leg.name] = dict(runs=runs, wall_s=d["wall"], distinct=d["distinct"], runs_per_hour=int(runs / max(d["wall"], 1e-9) * 3600))
        tot["runs"] += runs; tot["nontrivial"] += sum(x["nontrivial"] for x in w); tot["distinct"] += d["distinct"]; tot["states"] += d["states"]
        tot["det"] += sum(x["determinism_runs"] for x in w); tot["steps"] += sum(x["steps"] for x in w)
        for x in w:
            for k, v in x["counters"].items(): counters[k] = counters.get(k, 0) + v
            if x["sample"] and len([s for s in samples if s["config"] == leg.name]) < 1: samples.append(dict(config=leg.name, seed=sd, trace=x["sample"]))
            if x["verdict"] == "error": errors.append("leg %s: %s" % (leg.name, x["detail"]))
            elif x["verdict"] == "violation": violations.append((x["vindex"], leg, exe, x["detail"]))
        print("  %-16s %7d runs, %d distinct, %.1f s" % (leg.name, runs, d["distinct"], d["wall"]), flush=True)
        if d["bad"]: errors.append("leg %s: a worker died" % leg.name)
        if violations and tier == "quick": break      # one is enough; thorough goes on
    kf = known(prop); reported = 0; kfseen = set(); rc = 0
    violations.sort(key=lambda v: (v[1].name, v[0]))
    for _, leg, exe, det in violations:
        path = os.path.join(WORK, "replay-%s-%s-%d-%d.json" % (prop, leg.name, sd, det["run_index"]))
        with open(path, "w") as f: json.dump(det, f, indent=1); f.write("\n")
        code, txt = replay_file(exe, prop, leg, path)
        want = "class=%s hash=%s" % (det["class"], det["hash"])
        if code != 1 or want not in txt:
            # the same violation with other events: the code under test is itself not determined by its inputs
            again = [replay_file(exe, prop, leg, path) for _ in range(3)]
            if code == 1 and ("class=%s " % det["class"]) in txt and all(c == 1 and ("class=%s " % det["class"]) in t for c, t in again):
                det["note"] = "the violation replays, but the event hash varies: the code under test depends on more than its inputs"
                with open(path, "w") as f: json.dump(det, f, indent=1); f.write("\n")
                code, want, txt = 1, "", txt
        if code != 1 or want not in txt:
            errors.append("leg %s: violation %s did not replay in a fresh process (%s)" % (leg.name, det["class"], txt[-300:])); continue
        hit = [k for k in kf if k[0] == det["class"] and k[1] in det["message"]]
        if hit: kfseen.add(hit[0]); continue
        if reported == 0:
            print("%s: %s" % (det["class"], det["message"]))
            print("trace:\n" + "\n".join("  " + l for l in det["trace"].splitlines()[-25:]))
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        reported += 1; rc = 1
    for k in kf: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    wall = time.time() - t0
    runwall = sum(p["wall_s"] for p in per.values())
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault.")}
    simtime = counters.pop("simulated_us", 0)
    ev = dict(property=prop, tier=tier, seed=sd, level="exploration", wall_s=round(wall, 2), violations=reported,
        coverage=dict(evaluations=tot["runs"], distinct_nontrivial=tot["distinct"], rule=spec["rule"], samples=samples[:4],
            simulated_runs=tot["runs"], runs_per_hour=int(tot["runs"] / max(runwall, 1e-9) * 3600), seeds_per_hour=int(tot["runs"] / max(runwall, 1e-9) * 3600),
            simulated_time=("%.3f s" % (simtime / 1e6)) if simtime else "no clock in this property; %d instrumented steps" % tot["steps"],
            nontrivial_runs=tot["nontrivial"], distinct_states=tot["states"], faults_injected=faults,
            counters={k: v for k, v in sorted(counters.items()) if not k.startswith("fault.")}, configurations=per,
            determinism_reruns=2 * tot["det"], build_s=round(t1 - t0, 1), real_code=spec["real"], stubs=spec["stub"]))
    if errors: ev["coverage"]["errors"] = errors[:5]
    if unbuilt: ev["coverage"]["configurations_not_built"] = unbuilt
    with open(os.path.join(B.VERIF, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1); f.write("\n")
    print("%s: %d runs, %d distinct non-trivial, %d faults, %d violations, %.1f s" % (prop, tot["runs"], tot["distinct"], sum(faults.values()), reported, wall))
    if rc == 0 and errors:
        for e in errors[:5]: print("ERROR " + e)
        return 2
    B.prune()
    return rc

def main(a):
    if a[:1] == ["--setup"]:
        t = time.time(); b = B.Builder(); todo = []
        for p in sorted(L.CHECKS): todo += [leg.make(b) for leg in legs(p, "quick")]
        for ln in todo:
            try: ln()
            except RuntimeError as e: print("ERROR " + str(e))      # each check says what it could not build
        print("built everything in %.1f s" % (time.time() - t)); return 0
    if a[:1] == ["--replay"]:
        d = json.load(open(a[1])); prop = d["property"]
        b = B.Builder(); leg = [l for l in L.CHECKS[prop]["legs"] if l.name == d["config"]][0]; exe = leg.make(b)()
        code, txt = replay_file(exe, prop, leg, os.path.abspath(a[1])); print(txt)
        if code == 1: print("VIOLATION property=%s replay=%s" % (prop, a[1]))
        return code
    if a[:1] == ["--determinism"]:
        return determinism(a[1], int(a[2]) if len(a) > 2 else 2000)
    return check(a[0])

def determinism(prop, runs):
    """Event hashes of the same runs from separate processes at several job counts must agree."""
    os.makedirs(WORK, exist_ok=True); bad = 0
    for leg, exe in build(prop)[0]:
        ref = None
        for jobs in (8, 3, 1, 8):
            d = os.path.join(WORK, "det"); n = runs if jobs > 1 else max(50, runs // 8)
            subprocess.run([exe, "--property", prop, "--config", leg.name, "--seed", str(seed()), "--runs", str(n), "--jobs", str(jobs), "--time", "600", "--dump", d, "--out", d + ".json"] + leg.args, stdin=subprocess.DEVNULL, env=clean_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            h = {}
            for k in range(jobs):
                for l in open(d + ".w%d" % k): x = l.split(); h[int(x[0])] = (x[1], x[2])
                os.unlink(d + ".w%d" % k)
            os.unlink(d + ".json")
            if ref is None: ref = h
            else: bad += sum(1 for i in h if ref.get(i) != h[i])
        print("%s %s: %d runs compared over 4 processes, %d differ" % (prop, leg.name, len(ref), bad), flush=True)
    return 1 if bad else 0

if __name__ == "__main__":
    try: sys.exit(main(sys.argv[1:]))
    except Exception as e:
        print("ERROR %s" % e); sys.exit(2)
