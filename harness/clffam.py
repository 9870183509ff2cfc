"""Classification sessions (C05 pages of examples, C06, C07, C08, C15): build, filter, query the real code."""
import os, random
import pyarrow as pa
from common import *
from valor_lite.classification import Classification, Evaluator, Loader
from valor_lite.exceptions import EmptyCacheError

BALLAST = 99
FIELDS = [("meta", pa.int64()), ("tag", pa.string())]


# ---------------------------------------------------------------- driving the code
def classification(d, nm):
    md = {} if d["m"] == MISSING else {"meta": nm.meta(d["m"]), "tag": "t%d" % (d["m"] % 3)}
    return Classification(uid=nm.uid(d["u"]), groundtruth=nm.label(d["gt"]), predictions=[nm.label(p["l"]) for p in d["pd"]],
                          scores=[p["s"] / nm.U for p in d["pd"]], metadata=md or None)


def loader(st, path, fields=FIELDS):
    if st["kind"] == "mem":
        return Loader.in_memory(batch_size=st["bs"], metadata_fields=fields)
    return Loader.persistent(path=path, batch_size=st["bs"], rows_per_file=st["rpf"], compression=st["comp"], metadata_fields=fields)


def build(ds, st, chk, fbs, nm, path, ballast=0):
    ld = loader(st, path, nm.fields(FIELDS))
    i = 0
    if ballast:                                  # datums all queries leave out, so that identifiers grow large
        ld.add_data([Classification(uid="ballast %d" % j, groundtruth=nm.label(ds[0]["gt"]), predictions=[nm.label(ds[0]["gt"])], scores=[.25], metadata={"meta": nm.meta(BALLAST)})
                     for j in range(ballast)])
    for k in chk:
        ld.add_data([classification(d, nm) for d in ds[i:i + k]])
        i += k
    return ld.finalize(batch_size=fbs)


def dexpr(f, nm):
    return expr(f, lambda k: {"u": ("datum_uid", nm.uid), "m": ("meta", nm.mval)}[k])


def gexpr(f, nm):
    return expr(f, lambda k: {"l": ("gt_label", nm.label), "m": ("meta", nm.mval)}[k])


def pexpr(f, nm):
    return expr(f, lambda k: {"l": ("pd_label", nm.label), "s": ("pd_score", lambda n: n / nm.U), "m": ("meta", nm.mval)}[k])


def apply_filter(ev, f, nm, path):
    return ev.filter(datums=dexpr(f["d"], nm), groundtruths=gexpr(f["g"], nm), predictions=pexpr(f["p"], nm), path=path)


def need(c, what):
    if not c:
        raise Shape(what)


# ---------------------------------------------------------------- observations
def o_pr(res, nm, hm):
    o = dict(counts=[], prec=[], rec=[], f1=[], acc=[])
    for t, p, v in typed(res):
        need(p["hardmax"] is bool(hm), "hardmax parameter")
        s = nm.sc(p["score_threshold"])
        if t == "Accuracy":
            o["acc"].append([s, rat(v)])
        elif t == "Counts":
            o["counts"].append([s, nm.ul(p["label"]), *(int(v[k]) for k in ("tp", "fp", "fn", "tn"))])
        else:
            o[{"Precision": "prec", "Recall": "rec", "F1": "f1"}[t]].append([s, nm.ul(p["label"]), rat(v)])
    return o


def o_cm(res, nm, hm):
    cells, unm = [], []
    for t, p, v in typed(res):
        need(t == "ConfusionMatrix" and p["hardmax"] is bool(hm), "matrix metric")
        s = nm.sc(p["score_threshold"])
        cells += [[s, nm.ul(g), nm.ul(q), int(n)] for g, r in v["confusion_matrix"].items() for q, n in r.items()]
        unm += [[s, nm.ul(g), int(n)] for g, n in v["unmatched_ground_truths"].items()]
    return dict(cells=cells, unm=unm)


def o_cmx(res, nm, hm):
    cells, unm = [], []
    for t, p, v in typed(res):
        need(t == "ConfusionMatrixWithExamples" and p["hardmax"] is bool(hm), "matrix metric")
        s = nm.sc(p["score_threshold"])
        cells += [[s, nm.ul(g), nm.ul(q), int(n["count"]), [[nm.uu(x["datum_id"]), nm.sc(x["score"])] for x in n["examples"]]]
                  for g, r in v["confusion_matrix"].items() for q, n in r.items()]
        unm += [[s, nm.ul(g), int(n["count"]), [nm.uu(x["datum_id"]) for x in n["examples"]]]
                for g, n in v["unmatched_ground_truths"].items()]
    return dict(cells=cells, unm=unm)


def o_ex(res, nm, hm):
    rows = []
    for t, p, v in typed(res):
        need(t == "Examples" and p["hardmax"] is bool(hm), "examples metric")
        rows.append([nm.sc(p["score_threshold"]), nm.uu(v["datum_id"]), *(
            sorted(nm.ul(x) for x in v[k]) for k in ("true_positives", "false_positives", "false_negatives"))])
    return dict(rows=rows)


def o_roc(res, nm):
    o = dict(rows=[], mean=-1)
    n = 0
    for t, p, v in typed(res):
        if t == "ROCAUC":
            o["rows"].append([nm.ul(p["label"]), rat(v)])
        else:
            need(t == "mROCAUC", "metric " + t)
            o["mean"] = micro(v)
            n += 1
    need(n == 1, "one mean")
    return o


def query(ev, q, nm):
    """Runs one query step and returns the event (without e)."""
    k = q["op"]
    if k == "roc":
        return o_roc(ev.compute_rocauc(), nm)
    if k == "info":
        i = ev.get_info(datums=dexpr(q["f"], nm))
        return dict(labels=i.number_of_labels, datums=i.number_of_datums, f=q["f"])
    a = dict(score_thresholds=given([s / nm.U for s in q["ss"]]), hardmax=bool(q["hm"]), datums=dexpr(q["f"], nm))
    o = dict(ss=q["ss"], hm=q["hm"], f=q["f"])
    if k == "pr":
        return {**o, **o_pr(ev.compute_precision_recall(**a), nm, q["hm"])}
    if k == "cm":
        r = o_cm(ev.compute_confusion_matrix(**a), nm, q["hm"])
        return {**o, **(squeeze(r, lambda c: (c[0], c[1], c[2]), lambda c: c[3] == 0) if q.get("wide") else r)}
    if k == "cmx":
        r = o_cmx(ev.compute_confusion_matrix_with_examples(**a), nm, q["hm"])
        return {**o, **(squeeze(r, lambda c: (c[0], c[1], c[2]), lambda c: c[3] == 0 and not c[4]) if q.get("wide") else r)}
    if k == "ex":
        return {**o, **o_ex(ev.compute_examples(**a), nm, q["hm"])}
    if k == "expage":
        al = o_ex(ev.compute_examples(**a), nm, q["hm"])["rows"]
        lim = {} if q["n"] < 0 else dict(limit=q["n"])
        return {**o, "all": al, "o": q["o"], "n": q["n"], **o_ex(ev.compute_examples(**a, offset=q["o"], **lim), nm, q["hm"])}
    raise KeyError(k)


def run(sc):
    r = Rec(sc["p"])
    nm = Names(sc["names"], sc.get("nseed", 0), sc.get("U", 1000), sc.get("mt", 0))
    with scratch() as tmp:
        try:
            r.ev("data", p=sc["p"], ds=sc["ds"])
            ev = build(sc["ds"], sc["st"], sc["chk"], sc["fbs"], nm, os.path.join(tmp, "c0"), sc.get("ballast", 0))
            for i, q in enumerate(sc["steps"]):
                if q["op"] == "filter":
                    try:
                        ev = apply_filter(ev, q["f"], nm, os.path.join(tmp, "c%d" % (i + 1)))
                        r.ev("filter", p=sc["p"], f=q["f"], empty=0)
                    except EmptyCacheError:
                        r.ev("filter", p=sc["p"], f=q["f"], empty=1)
                elif q["op"] == "load":
                    if sc["st"]["kind"] == "file":
                        ev = Evaluator.load(os.path.join(tmp, "c0"))
                else:
                    r.ev(q["op"], p=sc["p"], **query(ev, q, nm))
        except Exception as err:
            r.exc("session", err)
    return r.events


# ---------------------------------------------------------------- generating
GRID = [0, 1, 250, 333, 500, 501, 750, 999, 1000]


def gen_data(rng, nd, nl, full=False, U=1000, maxp=12):
    mode = rng.choice(["grid", "fine", "ties"])
    sc = (lambda: rng.choice(GRID)) if mode == "grid" else (lambda: rng.randrange(0, 1001)) if mode == "fine" else (lambda: rng.choice([0, 300, 700]))
    us = rng.sample(range(40), nd) if nd <= 40 else rng.sample(range(nd), nd)
    ds, nls = [], [nl] * nd if isinstance(nl, int) else nl
    for u, nl in zip(us, nls):
        ls = list(range(nl))
        rng.shuffle(ls)
        if not full:
            ls = ls[:rng.randrange(1, min(nl, maxp) + 1)]
        g = rng.randrange(nl + (0 if full else rng.choice([0, 0, 1])))
        ds.append(dict(u=u, m=rng.choice([MISSING, -2, 0, 1, 2, 3, 5]), gt=g, pd=[dict(l=x, s=fine(rng, sc(), U)) for x in ls]))
    if rng.random() < .12:                   # scores that are no probabilities
        for d in ds:
            for p in d["pd"]:
                p["s"] = 3 * p["s"] - U
    return ds


def thresholds(rng, ds, U=1000):
    sc = [p["s"] for d in ds for p in d["pd"]]
    pool = [0, 1, U // 2, U] + [rng.choice(sc) for _ in range(4)] + [min(U, rng.choice(sc) + 1)]
    out = []
    for x in rng.sample(pool, len(pool)):
        if x not in out:
            out.append(x)
    return out[:rng.choice([1, 2, 3, 4])]


def datum_atoms(rng, ds, k=None):
    out = []
    for _ in range(rng.choice([1, 1, 2]) if k is None else k):
        if rng.random() < .5:
            out.append(atom("m", n=rng.choice([-3, -1, 0, 1, 2, 3, 4]), neg=int(rng.random() < .4)))
        else:
            us = [d["u"] for d in ds]
            out.append(atom("u", s=rng.sample(us, rng.randrange(0, len(us) + 1)), neg=int(rng.random() < .4)))
    return out


def gen_filter(rng, ds, nl, U=1000):
    lab = lambda: atom("l", s=rng.sample(range(nl + 1), rng.randrange(1, nl + 1)), neg=int(rng.random() < .4))
    met = lambda: atom("m", n=rng.choice([-1, 0, 1, 2]), neg=int(rng.random() < .4))
    return dict(d=datum_atoms(rng, ds) if rng.random() < .5 else [],
                g=[rng.choice([lab, lab, met])()] if rng.random() < .35 else [],
                p=[rng.choice([lab, met, lambda: atom("s", n=rng.choice(GRID) * (U // 1000), neg=int(rng.random() < .4))])()] if rng.random() < .5 else [])


def qs(rng, ds, ops, n, filtered=.25, U=1000):
    out = []
    for _ in range(n):
        q = dict(op=rng.choice(ops), ss=thresholds(rng, ds, U), hm=int(rng.random() < .5), f=[])
        if rng.random() < filtered:
            q["f"] = datum_atoms(rng, ds)
        if q["op"] == "expage":
            q.update(o=rng.choice([0, 0, 1, 2, 3, len(ds) - 1, len(ds), len(ds) + 1]), n=rng.choice([-1, 0, 1, 1, 2, 3, len(ds), 100]))
        out.append(q)
    return out


OPS = {"C05": ["expage"], "C06": ["pr", "pr", "info"], "C07": ["cm", "cmx", "ex"] * 3 + ["expage"], "C08": ["roc"],
       "C15": ["pr", "cm", "cmx", "ex", "info"] * 3 + ["roc", "expage"]}
NSC = {"C05": 60, "C06": 320, "C07": 280, "C08": 240, "C15": 140}


def scenarios(prop, seed, tier, beh):
    rng = random.Random("clf-%s-%s" % (prop, seed))
    out = []
    n = NSC[prop] * (1 if tier == "quick" else 12)
    if prop == "C06":                            # rates close to zero
        k = rng.choice([260, 320])
        hit = rng.randrange(2 * k)
        ds = [dict(u=i, m=0, gt=int(i % 2 == 0 or i == hit), pd=[dict(l=0, s=900 if i % 2 == 0 and i != hit else 100), dict(l=1, s=900 if i % 2 or i == hit else 100)]) for i in range(2 * k)]
        out.append(dict(p=prop, ds=ds, st=filecfg(rng) | dict(bs=100, rpf=500), chk=[2 * k], fbs=1000, names=0, nseed=0, U=1000, steps=[dict(op="pr", ss=[0, 500], hm=1, f=[]), dict(op="pr", ss=[500], hm=0, f=[])]))
    if prop in ("C06", "C07"):               # nearly everything is right
        ds = [dict(u=i, m=0, gt=int(i % 290 == 7), pd=[dict(l=0, s=600 + i), dict(l=1, s=i)][::1 - 2 * (i % 2)]) for i in range(300)]
        out.append(dict(p=prop, ds=ds, st=storage(rng), chk=chunks(rng, 300), fbs=finbs(rng), names=0, nseed=0, U=1000,
                        steps=[dict(op=o, ss=[0, 700], hm=h, f=[]) for o in (["pr"] if prop == "C06" else ["cm"]) for h in (0, 1)]))
    if prop in ("C06", "C07"):               # more labels than a byte can number
        ls = rng.sample(range(300), 300)
        ds = []
        for i in range(30):
            pd = ls[10 * i:10 * i + 10] if i % 5 else rng.sample(ls, 10)
            ds.append(dict(u=i, m=0, gt=rng.choice(pd) if rng.random() < .7 else rng.choice(ls), pd=[dict(l=x, s=rng.choice(GRID)) for x in pd]))
        steps = [dict(op=o, ss=[rng.choice([0, 250]), rng.choice([501, 700])][:1 + (o == "pr")], hm=h, f=[], wide=1) for o in (["pr"] if prop == "C06" else ["cm", "cmx", "ex"]) for h in (0, 1)]
        out.append(dict(p=prop, ds=ds, st=storage(rng), chk=chunks(rng, 30), fbs=finbs(rng), names=0, nseed=0, U=1000, steps=steps))
    if prop in ("C06", "C07", "C08"):
        for k in range(2):
            ds = gen_data(rng, 6, 3, full=True)
            for d in ds:
                d["m"] = rng.choice([0, 1])
            keep = [atom("m", n=BALLAST, neg=1)]
            steps = ([dict(op="filter", f=dict(d=keep, g=[], p=[])), dict(op="roc")] if prop == "C08" else
                     [dict(op=o, ss=[0, 300], hm=h, f=keep) for o in (["pr"] if prop == "C06" else ["cm", "cmx", "ex"]) for h in (0, 1)])
            st = dict(kind="mem", bs=1000) if k else filecfg(rng) | dict(bs=1000, rpf=66000)
            out.append(dict(p=prop, ds=ds, st=st, chk=chunks(rng, 6), fbs=100000, names=0, nseed=0, U=1000, steps=steps, ballast=66000))
    for i in range(n):
        nl = rng.choice([1, 2, 2, 3, 3, 4, 5])
        nd = rng.choice([1, 2, 3, 4, 5, 6, 8, 12]) if i % 20 else rng.choice([20, 30])
        U = score_unit(rng)
        if i % 40 == 7:                          # many labels
            nl, nd = rng.choice([17, 40, 300]) if prop == "C06" else 17, rng.choice([3, 5])
        if i % 70 == 33:                         # many datums: totals beyond 255
            nl, nd = rng.choice([2, 3]), rng.choice([290, 340])
        ds = gen_data(rng, nd, nl, full=rng.random() < .6 if prop == "C08" else nl < 10 and rng.random() < .3, U=U)
        if nd > 200:
            for d in ds:
                if rng.random() < .85:
                    d["gt"] = 0 if i % 140 == 33 else d["pd"][0]["l"]
        steps = []
        ops = OPS[prop]
        if prop == "C15":
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(dict(op="filter", f=gen_filter(rng, ds, nl, U)))
                steps += qs(rng, ds, ops, 3, U=U)
        elif prop == "C08":
            steps.append(dict(op="roc"))
            if rng.random() < .4:
                steps += [dict(op="filter", f=dict(d=datum_atoms(rng, ds), g=[], p=[]) if rng.random() < .5 else gen_filter(rng, ds, nl, U)), dict(op="roc")]
        else:
            if rng.random() < .15:
                steps.append(dict(op="load"))
            steps += qs(rng, ds, ops, 3, U=U)
        out.append(dict(p=prop, ds=ds, st=storage(rng), chk=chunks(rng, nd), fbs=finbs(rng), names=rng.choice([0, 0, 1, 2]),
                        nseed=i, U=U, steps=steps))
    mr = random.Random("meta-%s-%s" % (prop, seed))
    for sc in out:
        sc["mt"] = metakind(mr)
        if len(sc["ds"]) > 200 and sc["st"]["kind"] == "file":   # a file per row or two takes minutes
            sc["st"] = sc["st"] | dict(bs=max(7, sc["st"]["bs"]), rpf=max(40, sc["st"]["rpf"]))
    return out
