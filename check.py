#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]

Builds the engines of one property from /repo's working tree, explores, prints
VIOLATION / KNOWN-FINDING lines and rewrites evidence/<PROPERTY>.json."""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import vbuild, checks

def known_for(prop):
    """known_findings.txt: 'KNOWN-FINDING: property=<id> scenario=<name> sig=<substring> what=<text>' and 'fixed: ...' lines."""
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) scenario=(\S+) sig=(.*?) what=(.*)$", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def build(part):
    eng, name, srcs, opt = part
    if eng == "a": return vbuild.build_a(name, srcs, **opt)
    return vbuild.build_b(name, srcs, **opt)

def sample(eng, exe, sc):
    """One explored execution, written out."""
    cmd = [exe, "--scen", sc["name"], "--replay", sc["sample"]] + (["--verbose"] if eng == "a" else ["--tier", sc.get("tier", "quick")])
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=20)
        ls = [l for l in r.stdout.decode("latin1").splitlines() if l.strip()]
        if eng == "b": ls = [l.strip() for l in ls if l.startswith("  op: ")]
        return {"scenario": sc["name"], "decisions": sc["sample"], "steps": ls[:40] + (["... (%d more)" % (len(ls) - 40)] if len(ls) > 40 else [])}
    except Exception as e:
        return {"scenario": sc["name"], "decisions": sc["sample"], "steps": ["(%s)" % e]}

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    a = sys.argv[2:]
    while a:
        x = a.pop(0)
        if x in ("quick", "thorough"): tier = x
        elif x == "--replay": replay = json.load(open(a.pop(0)))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(V, "evidence"); os.makedirs(ev, exist_ok=True)
    known = known_for(prop)
    tot = dict(states=0, transitions=0, executions=0)
    scen, viols, hits, samples = [], [], {}, []
    complete = True
    parts = checks.PARTS[prop]
    budget = 240.0 if tier == "quick" else 3000.0
    for part in parts:
        eng, name = part[0], part[1]
        try: exe = build(part)
        except vbuild.BuildError as e:
            print("cannot build %s: %s" % (name, e)); return 2
        if replay is not None:
            if replay["binary"] != name: continue
            cmd = [exe, "--scen", replay["scenario"], "--replay", replay["choices"]] + (["--verbose"] if eng == "a" else ["--tier", replay["tier"]])
            return subprocess.run(cmd).returncode
        kf = os.path.join(V, "build", "known.%s.%d" % (prop, os.getpid()))
        with open(kf, "w") as f: f.write("".join(k[1] + "\n" for k in known))
        out = os.path.join(V, "build", "out.%s.%s.%d" % (prop, name, os.getpid()))
        cmd = [exe, "--prop", prop, "--tier", tier, "--limit", str(budget / len(parts)), "--out", out, "--known", kf]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try: d = json.load(open(out))
        except Exception as e:
            print("engine %s failed (%d): %s\n%s" % (name, r.returncode, e, r.stdout.decode("latin1")[-3000:])); return 2
        finally:
            for p in (kf, out):
                if os.path.exists(p): os.unlink(p)
        if not d["scenarios"]:
            print("engine %s has no scenario for %s" % (name, prop)); return 2
        for sc in d["scenarios"]:
            sc["tier"] = tier
            tot["states"] += sc["nodes"]; tot["transitions"] += sc["steps"]; tot["executions"] += sc["executions"]
            complete = complete and sc["complete"]
            scen.append({k: sc[k] for k in ("name", "bound", "complete", "executions", "nodes", "steps", "outcomes", "levels", "diverged", "unstable", "wall")})
            scen[-1]["engine"] = "interleavings of the implementation" if eng == "a" else "operation sequences on the implementation"
            for k in sc.get("known", "").split("\n"):
                if k.strip(): hits[k.strip()] = hits.get(k.strip(), 0) + 1
            for v in sc["violations"]:
                kn = None
                for k in known:
                    if k[0] in ("*", sc["name"]) and k[1] in v["sig"]: kn = k
                if kn: hits[kn[1]] = hits.get(kn[1], 0) + v["count"]
                else: viols.append((name, sc["name"], v))
            if len(samples) < 4 and sc["executions"] > 1: samples.append(sample(eng, exe, sc))
    for k in known:
        if k[1] in hits: print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    rd = os.path.join(ev, "replay")
    n = 0
    for name, sname, v in viols:
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, "%s-%d.json" % (prop, n)); n += 1
        json.dump({"property": prop, "binary": name, "scenario": sname, "tier": tier, "choices": v["choices"], "signature": v["sig"], "report": v["msg"]}, open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        print("  scenario %s: %s" % (sname, v["sig"]))
        print("  " + v["msg"].replace("\n", "\n  ")[:1500])
    if not samples: samples = [{"scenario": s["name"], "decisions": "-"} for s in scen[:1]]
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["executions"],
            "exhaustive": bool(complete), "samples": samples, "scenarios": scen,
            "rule": "states: nodes of the decision trees that were walked; transitions: steps of the implementation taken on them; every explored execution is one of the implementation itself, built from /repo's working tree",
        },
        "assumptions": ["bounded: each scenario's deviation or depth bound is given as 'bound'", "sequentially consistent memory; weaker orders are covered by the race monitor"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    json.dump(evd, open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %s, %d violation(s), %.1fs" % (prop, tier, tot["executions"], tot["states"], tot["transitions"], "bounds exhausted" if complete else "time limit reached", len(viols), time.time() - t0))
    return 1 if viols else 0

sys.exit(main())
