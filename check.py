#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--runs N] [--time S]   seeded simulation of one property
   check.py --replay FILE [--trace]                                     replay a recorded failing execution exactly

Exit 0: the property held in every simulated run (or only recorded known findings failed); exit 1: VIOLATION line(s)."""
import collections, hashlib, json, os, re, subprocess, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF + "/tools")
import build as B
import proptable

NPROC = int(os.environ.get("VERIF_JOBS", "8"))


def known(prop):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) class=(\S+) match=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), re.compile(m.group(3)), m.group(4)))
    return out


def run_batch(exe, prop, seed, start, stride, count, tmax, tier):
    return subprocess.Popen([exe, "--prop", prop, "--seed", str(seed), "--start", str(start), "--stride", str(stride), "--count", str(count),
                             "--time", str(tmax), "--tier", tier], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=VERIF + "/build")


def replay(path, trace=False):
    prop, cfg = None, "base"
    for l in open(path):
        if l.startswith("property "):
            prop = l.split()[1]
        if l.startswith("build "):
            cfg = l.split()[1]
    exe = B.build(cfg)
    cmd = [exe, "--replay", os.path.abspath(path)] + (["--trace"] if trace else [])
    r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, cwd=VERIF + "/build")
    sys.stdout.write(r.stdout)
    d = json.loads(r.stdout.strip().splitlines()[-1])
    want = dict(l.rstrip("\n").split(" ", 1) for l in open(path) if " " in l)
    same = d["hash"] == want.get("hash")
    print("replay hash %s recorded %s: %s" % (d["hash"], want.get("hash"), "exactly reproduced" if same else "DIFFERENT (the tree differs from the one the replay was recorded on)"))
    if d["viol"]:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        sys.exit(replay(a[1], "--trace" in a))
    prop = a[0]
    opt = {a[i][2:]: a[i + 1] for i in range(1, len(a) - 1) if a[i].startswith("--")}
    tier = opt.get("tier", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    T = proptable.PROPS[prop]
    t0 = time.time()
    # parts: (build, runs); most properties have one, some also run on the build with the sparse formulations and checkpoints
    parts = T["parts"] if "parts" in T else [(T.get("build", "base"), T["runs"])]
    try:
        exes = {cfg: B.build(cfg, quiet=True) for cfg, _ in parts}
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        print("BUILD FAILED: /repo does not compile")
        sys.exit(2)
    tb = time.time() - t0
    total = sum(n for _, n in parts)
    t_run = 0.0
    res, gate_diff, ngate = [], [], 0
    import threading
    kn = known(prop)

    def new_violation(d):
        return any(not any(k[0].fullmatch(v["cls"]) and k[1].search(v["msg"] + " @@ " + d["desc"]) for k in kn) for v in d["viol"])

    ran = []
    for cfg, n in parts:
        if tier == "quick" and ran and any(new_violation(d) for d in res):
            break  # already decided; the other build would only repeat it (never taken when the property holds)
        ran.append(cfg)
        exe = exes[cfg]
        runs = max(1, int(opt["runs"]) * n // total) if "runs" in opt else n if tier == "quick" else 10**9
        tmax = float(opt.get("time", T.get("time", 240) if tier == "quick" else T.get("thorough_time", 1500))) * (n / total if tier != "quick" else 1)
        per = (runs + NPROC - 1) // NPROC
        t1 = time.time()
        ps = [run_batch(exe, prop, seed, k, NPROC, per, tmax, tier) for k in range(NPROC)]
        outs = [None] * NPROC
        nbad, stopped = [0], [False]
        def rd(k):
            got = []
            for l in ps[k].stdout:
                got.append(l)
                try:
                    if new_violation(json.loads(l)):
                        nbad[0] += 1
                except ValueError:
                    pass
                # enough evidence and slow: stop looking (only ever happens with violations at hand)
                if tier == "quick" and nbad[0] >= 5 and time.time() - t1 > 90 and not stopped[0]:
                    stopped[0] = True
                    for q in ps:
                        q.terminate()
            ps[k].wait()
            outs[k] = "".join(got)
        th = [threading.Thread(target=rd, args=(k,)) for k in range(NPROC)]
        [t.start() for t in th]; [t.join() for t in th]
        t_run += time.time() - t1
        mine = []
        for o in outs:
            for l in o.splitlines():
                try:
                    mine.append(json.loads(l))
                except ValueError:
                    pass
        mine.sort(key=lambda d: d["i"])
        for d in mine:
            d["cfg"] = cfg
        bad_workers = [] if stopped[0] else [p.returncode for p in ps if p.returncode != 0]
        if bad_workers or not mine:
            print("SIMULATOR FAILED: worker exit codes %s" % bad_workers)
            sys.exit(3)
        # determinism gate: the same seeds again, in one fresh process
        g = run_batch(exe, prop, seed, 0, 1, min(T.get("gate", 24), len(mine)), 60, tier).communicate()[0]
        byi = {d["i"]: d for d in mine}
        for l in g.splitlines():
            d = json.loads(l)
            if d["i"] in byi:
                ngate += 1
                if d["hash"] != byi[d["i"]]["hash"]:
                    gate_diff.append((cfg, d["i"]))
        res += mine
    viol, seen_known = collections.OrderedDict(), collections.OrderedDict()
    for d in res:
        for v in d["viol"]:
            txt = v["msg"] + " @@ " + d["desc"]
            hit = [k for k in kn if k[0].fullmatch(v["cls"]) and k[1].search(txt)]
            if hit:
                seen_known.setdefault(hit[0][2], []).append(d["i"])
            else:
                viol.setdefault(v["cls"], []).append((d["i"], v["msg"], d["cfg"]))
    for what, idx in seen_known.items():
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (prop, what, len(idx)))
    for k in kn:
        if k[2] not in seen_known:
            print("KNOWN-FINDING: property=%s %s (not met in this run)" % (prop, k[2]))
    os.makedirs(VERIF + "/replays", exist_ok=True)
    nv = 0
    vrep = []
    for cls, lst in list(viol.items())[:3]:
        i, msg, cfg = lst[0]
        exe = exes[cfg]
        name = "%s/replays/%s-%s.replay" % (VERIF, prop, hashlib.sha1(cls.encode()).hexdigest()[:10])
        raw = name + ".raw"
        subprocess.run([exe, "--prop", prop, "--seed", str(seed), "--start", str(i), "--count", "1", "--tier", tier, "--streams", raw], stdout=subprocess.DEVNULL,
                       stderr=subprocess.DEVNULL, cwd=VERIF + "/build")
        cur = subprocess.run([exe, "--replay", raw], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=VERIF + "/build").stdout
        budget = "20" if tier == "quick" else "90"
        m = subprocess.run([exe, "--replay", raw, "--class", cls, "--minimize", name, "--budget", budget], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, cwd=VERIF + "/build")
        use = name if os.path.exists(name) and m.returncode == 0 else raw
        hs = set()
        for _ in range(2):
            o = subprocess.run([exe, "--replay", use], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, cwd=VERIF + "/build").stdout
            try:
                d = json.loads(o.strip().splitlines()[-1]); hs.add((d["hash"], bool(d["viol"])))
            except (ValueError, IndexError):
                hs.add(None)
        exact = len(hs) == 1 and None not in hs and list(hs)[0][1]
        if use == name and os.path.exists(raw):
            os.remove(raw)
        print("violated (%d runs, first seed index %d): %s: %s" % (len(lst), i, cls, msg))
        print("  replay %s" % ("reproduces exactly (two fresh processes, same history hash)" if exact else "NOT exactly reproducible: %s" % hs))
        print("VIOLATION property=%s replay=%s" % (prop, use))
        vrep.append({"class": cls, "message": msg, "seed_index": i, "runs": len(lst), "replay": use, "replay_exact": exact})
        nv += 1
    # evidence
    ctr = collections.Counter()
    for d in res:
        ctr.update(d["ctr"])
    nt = {(d["hash"], d["shash"]) for d in res if d["nontriv"]}
    states = set()
    for d in res:
        states.update(d["states"])
    samples = [{"seed_index": d["i"], "build": d["cfg"], "seed": d["seed"], "what": d["desc"], "steps": d["steps"], "history_hash": d["hash"]} for d in res if d["nontriv"]][:6]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": len(res), "distinct_nontrivial": len(nt), "rule": T["rule"], "samples": samples or [{"what": res[0]["desc"]}],
            "runs_per_hour": int(len(res) / max(t_run, 1e-9) * 3600), "seeds": "; ".join("%s build: indices 0..%d of VERIF_SEED %d" % (cfg, max(d["i"] for d in res if d["cfg"] == cfg), seed) for cfg in ran),
            "simulated_seconds": round(sum(d["vtime"] for d in res), 3), "scheduler_steps": sum(d["steps"] for d in res), "events_logged": sum(d["nev"] for d in res),
            "distinct_interleavings": len({d["shash"] for d in res}), "distinct_histories": len({d["hash"] for d in res}), "distinct_states": len(states),
            "faults_injected": {k[6:]: v for k, v in sorted(ctr.items()) if k.startswith("fault.")},
            "counters": {k: v for k, v in sorted(ctr.items()) if not k.startswith("fault.")},
            "determinism_gate": {"reexecuted": ngate, "different": gate_diff},
            "known_findings_seen": {k: len(v) for k, v in seen_known.items()},
            "violations_detail": vrep,
            "real_components": T["real"], "stub_components": T["stub"],
        },
        "assumptions": T.get("assumptions", []) + proptable.COMMON_ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1), "violations": nv,
    }
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open("%s/evidence/%s.json" % (VERIF, prop), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs, %d distinct non-trivial, %d interleavings, build %.0fs run %.0fs, gate %d/%d same, violations %d" %
          (prop, tier, len(res), len(nt), ev["coverage"]["distinct_interleavings"], tb, t_run, ngate - len(gate_diff), ngate, nv))
    if gate_diff:
        print("WARNING: executions of the same seed differ: %s" % gate_diff[:10])
        if prop == "C11" and not nv:
            name = "%s/replays/C11-nondeterminism.replay" % VERIF
            subprocess.run([exes[gate_diff[0][0]], "--prop", prop, "--seed", str(seed), "--start", str(gate_diff[0][1]), "--count", "1", "--tier", tier, "--streams", name], stdout=subprocess.DEVNULL, cwd=VERIF + "/build")
            print("VIOLATION property=C11 replay=%s" % name)
            nv = 1
    sys.exit(1 if nv else 0)


if __name__ == "__main__":
    main()
