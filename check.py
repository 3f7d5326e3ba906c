#!/usr/bin/env python3
"""Runs the check of one property: builds what it needs from /repo's working tree, explores, replays any
violation before reporting it, writes evidence/<id>.json.   check.py Cxx [--tier quick|thorough] [--only SCENARIO]"""
import json, os, shutil, subprocess, sys, time, fcntl, hashlib
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import buildgen
from props_conf import PROPS
REPO = os.environ.get("HIBP_REPO", "/repo")
SCR = VERIF + "/.scratch/" + str(os.getpid())

def log(*a): print(*a, flush=True)

def load_known():
    known = {}
    p = VERIF + "/KNOWN_FINDINGS.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property="):
                rest = line[len("known: property="):]
                pid, key, what = rest.split(" ", 2)
                known.setdefault(pid, {})[key] = what
    return known

def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None; cap = None
    i = 1
    while i < len(args):
        if args[i] == "--tier": tier = args[i + 1]; i += 1
        elif args[i] == "--only": only = args[i + 1]; i += 1
        elif args[i] == "--cap": cap = args[i + 1]; i += 1
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    conf = PROPS[pid]
    t0 = time.time()
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    evf = f"{VERIF}/evidence/{pid}.json"
    if os.path.exists(evf): os.unlink(evf)
    targets = sorted({t for part in conf["parts"] for t in part["targets"]})
    ok, out = buildgen.build(REPO, targets)
    if not ok:
        log(out[-6000:])
        log("check error: the working tree does not build with the harness")
        sys.exit(2)
    tb = time.time() - t0
    os.makedirs(SCR, exist_ok=True); os.chmod(SCR, 0o777)
    env = dict(os.environ, BUILD=buildgen.BUILD, VERIF=VERIF, VERIF_TIER=tier, VERIF_SEED=str(seed), LC_ALL="C", LANG="C", TZ="UTC")
    for v in ("http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"): env.pop(v, None)
    parts, viol = [], []
    rc = 0
    try:
        for n, part in enumerate(conf["parts"]):
            if part.get("cpu") and not all(f in buildgen.cpuflags() for f in part["cpu"]): continue
            if part.get("thorough_only") and tier != "thorough": continue
            res = f"{SCR}/result{n}.json"
            capv = cap or ("780" if tier == "quick" else "5400")
            cmd = [buildgen.BUILD + "/" + part["driver"], "--prop", part.get("prop", pid), "--tier", tier, "--result", res, "--scratch", SCR, "--cap", capv]
            o = part.get("only")
            if only: o = only if o is None else "|".join(x for x in o.split("|") if x in only.split("|"))
            if o == "": continue
            if o: cmd += ["--only", o]
            if part.get("workers"): cmd += ["--workers", str(part["workers"])]
            penv = dict(env, **part.get("env", {}))
            p = subprocess.run(cmd, env=penv, stdin=subprocess.DEVNULL)
            if p.returncode not in (0, 1) or not os.path.exists(res):
                log(f"check error: driver {part['driver']} ended with {p.returncode}"); sys.exit(2)
            r = json.load(open(res))
            r["driver"] = part["driver"]
            parts.append(r)
            for v in r["violations"]: viol.append((part, v))
            if viol: break
        known = load_known().get(pid, {})
        real = []
        seen = set()
        for part, v in viol:
            if v["key"] in seen: continue
            rdir = f"{VERIF}/.scratch/replays"; os.makedirs(rdir, exist_ok=True)
            h = hashlib.sha1(json.dumps(v).encode()).hexdigest()[:12]
            rp = f"{rdir}/{pid}-{h}.replay"
            with open(rp, "w") as f:
                f.write(f"property {pid}\ndriver {part['driver']}\nprop {part.get('prop', pid)}\nscenario {v['scenario']}\ntier {tier}\nenv {' '.join(f'{k}={w}' for k, w in part.get('env', {}).items())}\nworker {v['worker'][0]} {v['worker'][1]}\nchoices {' '.join(map(str, v['choices']))}\n")
                f.write("# " + v["key"] + ": " + v["msg"].replace("\n", "\n# ") + "\n# replay with: ./replay.sh " + rp + "\n")
            okr = False
            for _ in range(2):
                p = subprocess.run([buildgen.BUILD + "/" + part["driver"], "--prop", part.get("prop", pid), "--replay", rp, "--scratch", SCR], env=dict(env, **part.get("env", {})), stdin=subprocess.DEVNULL, capture_output=True, text=True, errors="replace")
                if p.returncode == 1: okr = True; break
            log(f"[{pid}] {v['scenario']}: {v['key']}: {v['msg'][:3000]}")
            if not okr:
                log(f"[{pid}] NOT reproduced on replay, not reported: {p.stdout[-500:]}{p.stderr[-500:]}")
                continue
            if v["key"] in known: log(f"KNOWN-FINDING: property={pid} {known[v['key']]}")
            else: real.append(rp)
            seen.add(v["key"])
        for rp in real: log(f"VIOLATION property={pid} replay={rp}")
        if real: rc = 1
        for k, w in known.items(): pass
        ev = evidence(pid, conf, tier, seed, parts, time.time() - t0, len(real), tb)
        with open(evf + ".tmp", "w") as f: json.dump(ev, f, indent=1)
        os.rename(evf + ".tmp", evf)
        c = ev["coverage"]
        log(f"[{pid}] {tier}: executions={sum(p['executions'] for p in parts)} evaluations={sum(p['evaluations'] for p in parts)} exhaustive={c.get('exhaustive')} build={tb:.1f}s wall={ev['wall_s']}s {'VIOLATED' if rc else 'held'}")
    finally:
        shutil.rmtree(SCR, ignore_errors=True)
    sys.exit(rc)

def evidence(pid, conf, tier, seed, parts, wall, nviol, tb):
    ev = sum(p["evaluations"] for p in parts); ex = sum(p["executions"] for p in parts)
    dn = sum(p["distinct_nontrivial"] for p in parts); st = sum(p["steps"] for p in parts)
    cov = {"exhaustive": all(p["exhaustive"] for p in parts) and nviol == 0, "rule": conf["rule"],
           "samples": [s for p in parts for s in p["samples"]][:12] or ["none"],
           "executions": ex, "scenarios": {f"{p['driver']}:{k}": v for p in parts for k, v in p["scenarios"].items()},
           "counters": {}, "build_s": round(tb, 1)}
    for p in parts:
        for k, v in p["counters"].items(): cov["counters"][k] = cov["counters"].get(k, 0) + v
    lvl = conf["level"]
    if lvl == "model_checking":
        cov["states"] = dn; cov["transitions"] = st
        cov["traces_validated_against_impl"] = cov["counters"].get("conformance_traces", 0) if conf.get("conformance") else ex
    else:
        cov["evaluations"] = ev; cov["distinct_nontrivial"] = dn
    return {"property": pid, "tier": tier, "seed": seed, "level": lvl, "coverage": cov,
            "assumptions": conf.get("assumptions", []), "wall_s": round(wall, 1), "violations": nviol}

if __name__ == "__main__": main()
