#!/usr/bin/env python3
"""Entry point of all checks:  run.py <property> quick|thorough   |   run.py replay <file>   |   run.py setup

A check consists of (a) exhaustive model checking of the specification modules behind the property and (b) conformance:
behaviours are generated (by TLC from the specification, and by seeded scenario generators), executed by the real code
in /repo, and the recorded traces are validated by TLC against the trace specifications. Exit 0: nothing found;
1: VIOLATION printed; 2: the machinery itself failed.
"""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
import tlc
from plan import PLAN

REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


def env():
    e = {k: v for k, v in os.environ.items() if k not in ("OPENAI_API_KEY", "MISTRAL_API_KEY")}
    e.update(PYTHONPATH=os.path.join(REPO, "src"), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", LANG="C.UTF-8",
             LC_ALL="C.UTF-8", TZ="UTC", HF_HUB_OFFLINE="1", HF_DATASETS_OFFLINE="1", HF_EVALUATE_OFFLINE="1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", ARROW_NUM_THREADS="1")
    return e


def run_shard(tmp, part, prop, seed, tier, shard, nshards, beh, scenario=None):
    out = os.path.join(tmp, "%s-%s-%d.ndjson" % (part["family"], part["trace"], shard))
    job = out + ".job"
    json.dump(dict(family=part["family"], prop=prop, seed=seed, tier=tier, shard=shard, nshards=nshards, beh=beh,
                   scenario=scenario, out=out), open(job, "w"))
    p = subprocess.run([PY, os.path.join(HERE, "harness", "worker.py"), job], env=env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=850)
    if p.returncode != 0:
        raise tlc.MachineryError("worker failed:\n" + p.stdout[-4000:])
    idx = json.load(open(out + ".idx"))
    bad, st, tr = ([], 0, 0) if idx["lines"] == 0 else tlc.validate(part["trace"], out)
    lines = open(out).read().splitlines() if bad else []
    res = []
    for ln, clauses in bad:
        k = next(i for i, (a, b) in enumerate(idx["index"]) if a <= ln <= b)
        res.append(dict(scenario=idx["scenarios"][k], clauses=clauses, event=json.loads(lines[ln - 1]),
                        family=part["family"], trace=part["trace"]))
    os.unlink(out)
    return dict(bad=res, states=st, transitions=tr, scenarios=len(idx["scenarios"]), lines=idx["lines"],
                sample=(idx["scenarios"][0] if idx["scenarios"] else None))


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    plan = PLAN[prop]
    tmp = tempfile.mkdtemp(prefix="vrun")
    mc, shards, behs, nbeh = [], [], {}, {}
    try:
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            mcf = [ex.submit(tlc.model_check, m["spec"], m.get(tier, m.get("quick")),
                             workers="2" if tier == "quick" else "4") for m in plan["mc"]]
            for part in plan["conf"]:
                beh = None
                if "gen" in part:
                    g = part["gen"]
                    key = g["cfg"]
                    if key not in behs:
                        b = tlc.simulate(g["spec"], g["cfg"], g[tier], g["depth"], seed)
                        behs[key] = os.path.join(tmp, key + ".beh")
                        nbeh[key] = len(b)
                        json.dump(b, open(behs[key], "w"))
                    beh = behs[key]
                n = part.get("shards", 4 if tier == "quick" else 8)
                for s in range(n):
                    shards.append((part, ex.submit(run_shard, tmp, part, prop, seed, tier, s, n, beh)))
            mc = [f.result() for f in mcf]
            results = [(p, f.result()) for p, f in shards]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    viol, kn = [], []
    for part, r in results:
        for b in r["bad"]:
            cl = [c for c in b["clauses"] if c.startswith(prop + ".") or c == "UNEXPLAINED"]
            if not cl:
                continue
            hit = next((k for k in known() if k["property"] == prop and k["key"] == b["scenario"].get("finding")
                        and set(cl) <= set(k["clauses"])), None)
            (kn if hit else viol).append((hit, b, cl))
    for what in sorted({k[0]["what"] for k in kn}):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    ed = os.path.join(HERE, "evidence")
    os.makedirs(ed, exist_ok=True)
    for i, (_, b, cl) in enumerate(viol[:5]):
        path = os.path.join(ed, "replay-%s-%d.json" % (prop, i))
        json.dump({**b, "property": prop, "clauses": cl}, open(path, "w"), indent=1)
        print("violated clauses %s at event %s" % (cl, json.dumps(b["event"])[:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if len(viol) > 5:
        print("... and %d more" % (len(viol) - 5))
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=sum(m["states"] for m in mc) + sum(r["states"] for _, r in results),
                            transitions=sum(m["transitions"] for m in mc) + sum(r["transitions"] for _, r in results),
                            traces_validated_against_impl=sum(r["scenarios"] for _, r in results),
                            trace_events=sum(r["lines"] for _, r in results),
                            models=mc, behaviours_generated_by_tlc=nbeh,
                            samples=[r["sample"] for _, r in results if r["sample"]][:2]),
              assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(viol))
    json.dump(ev, open(os.path.join(ed, prop + ".json"), "w"), indent=1)
    print("%s %s: %d model states, %d scenarios, %d events, %d violations, %.1f s" % (
        prop, tier, sum(m["states"] for m in mc), ev["coverage"]["traces_validated_against_impl"],
        ev["coverage"]["trace_events"], len(viol), time.time() - t0))
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="vrun")
    try:
        r = run_shard(tmp, dict(family=d["family"], trace=d["trace"]), d["property"], 1, "quick", 0, 1, None, d["scenario"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hit = [b for b in r["bad"] if any(c.startswith(d["property"] + ".") or c == "UNEXPLAINED" for c in b["clauses"])]
    for b in hit:
        print(b["clauses"], json.dumps(b["event"]))
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
    return 1 if hit else 0


def setup():
    ok = os.path.exists(PY) and shutil.which("java") and os.path.exists(tlc.JAR.split(":")[0])
    p = subprocess.run([PY, "-c", "import valor_lite.cache"], env=env())
    return 0 if ok and p.returncode == 0 else 2


if __name__ == "__main__":
    try:
        a = sys.argv[1:]
        if a[0] == "setup":
            sys.exit(setup())
        if a[0] == "replay":
            sys.exit(replay(a[1]))
        sys.exit(check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")))
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
