"""The files behind loaders and filtered evaluators of all tasks (C02): datum alignment, roll-over, compression."""
import os, random
import pyarrow.parquet as pq
from common import *
import relfam
from cachefam import parquet_codec_ok


def describe(rec, path, st, table):
    """One event per directory of parquet files with a datum_uid column (the data as added, not the ranked copies)."""
    for d in sorted(d for d, _, fs in os.walk(os.path.abspath(path)) if any(f.endswith(".parquet") for f in fs)):
        fs = sorted((os.path.join(d, f) for f in os.listdir(d) if f.endswith(".parquet")), key=lambda f: int(os.path.basename(f).split(".")[0]))
        comp = all(parquet_codec_ok(f, st["comp"]) for f in fs)
        ts = [pq.ParquetFile(f).read() for f in fs]
        ranked = not {"datum_uid", "datum_id", "gt_label"} <= set(ts[0].column_names)
        ids = [t["datum_id"].to_pylist() for t in ts] if not ranked else []
        per = {}
        for x in ids:
            for i in set(x):
                per[i] = max(per.get(i, 0), x.count(i))
        rec.ev("datumfiles", files=[sorted(set(x)) for x in ids], sizes=[] if ranked or table else [len(x) for x in ids], comp_ok=bool(comp),
               bs=st["bs"], rpf=st["rpf"], maxcall=max(per.values(), default=0))


def run(sc):
    rec = Rec("C02")
    t = relfam.TASKS[sc["task"]]()
    with scratch() as tmp, standing(tmp):
        try:
            st, nm = sc["st"], Names()
            names, here = place(sc["place"], 2)
            A, B = [n if here else os.path.join(tmp, n) for n in names]
            ld = t.fam.loader(st, A, t.fam.FIELDS)
            i = 0
            for k in sc["chunks"]:
                t.add(ld, [t.obj(d, nm, sc) for d in sc["ds"][i:i + k]], sc)
                i += k
            ev = t.fin(ld, sc["fbs"])
            describe(rec, A, st, False)
            try:
                t.fam.apply_filter(ev, sc["f"], nm, B)
                describe(rec, B, st, True)
            except relfam.EmptyCacheError:
                pass
        except TimeoutError:
            raise
        except Exception as e:
            rec.exc("loader files", e, "C14")
    return rec.events


def scenarios(prop, seed, tier, beh):
    rng = random.Random("load-%s" % seed)
    out = []
    for i in range(90 if tier == "quick" else 900):
        task = ["clf", "det", "seg"][i % 3]
        t = relfam.TASKS[task]()
        ds = t.data(rng, rng.choice([3, 6, 12]), "C14")
        sc = dict(task=task, ds=ds, place=i + seed, st=filecfg(rng), chunks=chunks(rng, len(ds)), fbs=finbs(rng), f=t.filters(rng, ds)[0])
        if task == "det":
            sc.update(kind=t.kind, rep=t.rep)
        out.append(sc)
    return out
