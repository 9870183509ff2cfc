"""Object detection sessions (C05 pages of examples, C09-C12, C15): build, filter, query the real code."""
import os, random
from fractions import Fraction as F
import numpy as np
import pyarrow as pa
import shapely
from common import *
from clffam import need
from valor_lite.exceptions import EmptyCacheError
from valor_lite.object_detection import Bitmask, BoundingBox, Detection, Evaluator, Loader, Polygon

BALLAST = 99
FIELDS = [("meta", pa.int64()), ("gmeta", pa.int64()), ("pmeta", pa.int64()), ("tag", pa.string())]
W = 5           # width of the pixel and triangle grids


# ---------------------------------------------------------------- geometry
def tri(c):
    k, xy = c % 4, c // 4
    x, y = xy % W, xy // W
    m = (x + .5, y + .5)
    cs = [(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)]
    return shapely.Polygon([cs[k], cs[(k + 1) % 4], m])


def annotation(rep, kind, g, uid, labels, scores, md, tf, blk=1):
    """blk: each pixel of a mask stands for a block of pixels, blk or [rows, columns]"""
    by, bx = blk if isinstance(blk, list) else (blk, blk)
    sc, dx, dy = tf
    kw = dict(uid=uid, labels=labels, metadata=md)
    if scores is not None:
        kw["scores"] = scores
    if rep == "box":
        return BoundingBox(xmin=g[0] * sc + dx, xmax=g[1] * sc + dx, ymin=g[2] * sc + dy, ymax=g[3] * sc + dy, **kw)
    if rep == "mask":
        m = np.zeros((32, 32) if kind == "box" else (W, W), dtype=np.bool_)
        if kind == "box":
            m[g[2]:g[3], g[0]:g[1]] = True
        else:
            m[[c // W for c in g], [c % W for c in g]] = True
        return Bitmask(mask=np.repeat(np.repeat(m, by, axis=0), bx, axis=1), **kw)
    if kind == "box":
        x0, x1, y0, y1 = g[0] * sc + dx, g[1] * sc + dx, g[2] * sc + dy, g[3] * sc + dy
        return Polygon(shape=shapely.Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)]), **kw)
    s = shapely.transform(shapely.unary_union([tri(c) for c in g]), lambda c: c * sc + [dx, dy])
    return Polygon(shape=s, **kw)


def detection(d, sc, nm):
    rep, kind, tf = sc["rep"], sc["kind"], sc.get("tf", [1, 0, 0])
    blk = sc.get("blk", 1)
    gts = [annotation(rep, kind, g["g"], nm.ann(g["a"]), [nm.label(g["l"])], None, None if g["m"] == MISSING else {"gmeta": nm.meta(g["m"])}, tf, blk) for g in d["gts"]]
    pds = [annotation(rep, kind, p["g"], nm.ann(p["a"]), [nm.label(x["l"]) for x in p["ls"]], [x["s"] / nm.U for x in p["ls"]],
                      None if p["m"] == MISSING else {"pmeta": nm.meta(p["m"])}, tf, blk) for p in d["pds"]]
    md = None if d["m"] == MISSING else {"meta": nm.meta(d["m"]), "tag": "t%d" % (d["m"] % 3)}
    return Detection(uid=nm.uid(d["u"]), groundtruths=gts, predictions=pds, metadata=md)


def loader(st, path, fields=FIELDS):
    if st["kind"] == "mem":
        return Loader.in_memory(batch_size=st["bs"], metadata_fields=fields)
    return Loader.persistent(path=path, batch_size=st["bs"], rows_per_file=st["rpf"], compression=st["comp"], metadata_fields=fields)


def add(ld, rep, dets):
    {"box": ld.add_bounding_boxes, "mask": ld.add_bitmasks, "poly": ld.add_polygons}[rep](dets)


def build(sc, nm, path):
    ld = loader(sc["st"], path, nm.fields(FIELDS))
    i = 0
    if sc.get("ballast"):                        # images all queries leave out, so that identifiers grow large
        n, lab = sc["ballast"], nm.label(sc["ds"][0]["gts"][0]["l"])
        box = lambda s: [BoundingBox(uid="b%d" % j, xmin=0, xmax=3, ymin=0, ymax=3, labels=["ballast %d" % j if sc["blabels"] else lab], scores=s) for j in range(n)]
        add(ld, sc["rep"], [Detection(uid="ballast g", groundtruths=box([]), predictions=[], metadata={"meta": nm.meta(BALLAST)}),
                            Detection(uid="ballast p", groundtruths=[], predictions=box([.25]), metadata={"meta": nm.meta(BALLAST)})])
    for k in sc["chk"]:
        add(ld, sc["rep"], [detection(d, sc, nm) for d in sc["ds"][i:i + k]])
        i += k
    return ld.finalize(batch_size=sc["fbs"])


def dexpr(f, nm):
    return expr(f, lambda k: {"u": ("datum_uid", nm.uid), "m": ("meta", nm.mval)}[k])


def gexpr(f, nm):
    return expr(f, lambda k: {"l": ("gt_label", nm.label), "m": ("gmeta", nm.mval), "a": ("gt_uid", nm.ann)}[k])


def pexpr(f, nm):
    return expr(f, lambda k: {"l": ("pd_label", nm.label), "s": ("pd_score", lambda n: n / nm.U), "m": ("pmeta", nm.mval), "a": ("pd_uid", nm.ann)}[k])


def apply_filter(ev, f, nm, path, bs=1000):
    return ev.filter(datums=dexpr(f["d"], nm), groundtruths=gexpr(f["g"], nm), predictions=pexpr(f["p"], nm), path=path, batch_size=bs)


# ---------------------------------------------------------------- observations
def tpos(ts):
    m = {}
    for i, (n, d) in enumerate(ts):
        m[n / d] = i + 1
    return lambda x: m.get(x, -99)


def o_pr(res, nm, ts, ss):
    T = tpos(ts)
    o = dict(counts=[], prec=[], rec=[], f1=[])
    a = dict(ap=[], map=[], apo=[], mapo=[], ar=[], mar=[], aro=[], maro=[], curve=[])
    tl, sl = [n / d for n, d in ts], [s / nm.U for s in ss]
    for t, p, v in typed(res):
        if "iou_thresholds" in p:
            need(list(p["iou_thresholds"]) == tl, "iou_thresholds of " + t)
        if "score_thresholds" in p:
            need(list(p["score_thresholds"]) == sl, "score_thresholds of " + t)
        L = nm.ul(p["label"]) if "label" in p else None
        if t in ("Counts", "Precision", "Recall", "F1"):
            k = [T(p["iou_threshold"]), nm.sc(p["score_threshold"]), L]
            if t == "Counts":
                o["counts"].append(k + [int(v[x]) for x in ("tp", "fp", "fn")])
            else:
                o[{"Precision": "prec", "Recall": "rec", "F1": "f1"}[t]].append(k + [rat(v)])
        elif t == "PrecisionRecallCurve":
            a["curve"].append(dict(k=[T(p["iou_threshold"]), L], v=[micro(x) for x in v["precisions"]], s=[nm.sc(x) for x in v["scores"]]))
        else:
            n = {"AP": "ap", "mAP": "map", "APAveragedOverIOUs": "apo", "mAPAveragedOverIOUs": "mapo", "AR": "ar", "mAR": "mar",
                 "ARAveragedOverScores": "aro", "mARAveragedOverScores": "maro"}[t]
            k = {"ap": lambda: [T(p["iou_threshold"]), L], "map": lambda: [T(p["iou_threshold"])], "apo": lambda: [L], "mapo": lambda: [],
                 "ar": lambda: [nm.sc(p["score_threshold"]), L], "mar": lambda: [nm.sc(p["score_threshold"])], "aro": lambda: [L],
                 "maro": lambda: []}[n]()
            a[n].append(dict(k=k, v=micro(v)))
    return o, a


def o_cm(res, nm, ts):
    T = tpos(ts)
    o = dict(cells=[], ugt=[], upd=[])
    for t, p, v in typed(res):
        need(t == "ConfusionMatrix", t)
        k = [T(p["iou_threshold"]), nm.sc(p["score_threshold"])]
        o["cells"] += [k + [nm.ul(g), nm.ul(q), int(n)] for g, r in v["confusion_matrix"].items() for q, n in r.items()]
        o["ugt"] += [k + [nm.ul(g), int(n)] for g, n in v["unmatched_ground_truths"].items()]
        o["upd"] += [k + [nm.ul(g), int(n)] for g, n in v["unmatched_predictions"].items()]
    return o


def o_cmx(res, nm, ts):
    T = tpos(ts)
    o = dict(cells=[], ugt=[], upd=[])
    for t, p, v in typed(res):
        need(t == "ConfusionMatrixWithExamples", t)
        k = [T(p["iou_threshold"]), nm.sc(p["score_threshold"])]
        o["cells"] += [dict(k=k + [nm.ul(g), nm.ul(q)], n=int(n["count"]), x=[[nm.uu(x["datum_id"]), nm.ua(x["ground_truth_id"]), nm.ua(x["prediction_id"])] for x in n["examples"]])
                       for g, r in v["confusion_matrix"].items() for q, n in r.items()]
        o["ugt"] += [dict(k=k + [nm.ul(g)], n=int(n["count"]), x=[[nm.uu(x["datum_id"]), nm.ua(x["ground_truth_id"])] for x in n["examples"]])
                     for g, n in v["unmatched_ground_truths"].items()]
        o["upd"] += [dict(k=k + [nm.ul(g)], n=int(n["count"]), x=[[nm.uu(x["datum_id"]), nm.ua(x["prediction_id"])] for x in n["examples"]])
                     for g, n in v["unmatched_predictions"].items()]
    return o


def o_ex(res, nm, ts):
    T = tpos(ts)
    rows = []
    for t, p, v in typed(res):
        need(t == "Examples", t)
        rows.append([T(p["iou_threshold"]), nm.sc(p["score_threshold"]), nm.uu(v["datum_id"]),
                     sorted([nm.ua(g), nm.ua(q)] for g, q in v["true_positives"]),
                     sorted(nm.ua(x) for x in v["false_positives"]), sorted(nm.ua(x) for x in v["false_negatives"])])
    return dict(rows=rows)


def query(ev, q, nm):
    """Runs one query; returns a list of (event name, fields)."""
    k = q["op"]
    if k == "info":
        i = ev.get_info(datums=dexpr(q["f"], nm), groundtruths=gexpr(q.get("g", []), nm), predictions=pexpr(q.get("q", []), nm))
        return [("info", dict(g=q.get("g", []), q=q.get("q", []), labels=i.number_of_labels, datums=i.number_of_datums, gts=i.number_of_groundtruth_annotations,
                              pds=i.number_of_prediction_annotations, f=q["f"]))]
    a = dict(iou_thresholds=given([n / d for n, d in q["ts"]]), score_thresholds=given([s / nm.U for s in q["ss"]]), datums=dexpr(q["f"], nm))
    o = dict(ts=q["ts"], ss=q["ss"], f=q["f"])
    if k in ("pr", "ap", "prap"):
        pr, ap = o_pr(ev.compute_precision_recall(**a), nm, q["ts"], q["ss"])
        return [("pr", {**o, **pr})] * (k != "ap") + [("ap", {**o, **ap})] * (k != "pr")
    if k == "cm":
        r = o_cm(ev.compute_confusion_matrix(**a), nm, q["ts"])
        return [(k, {**o, **(squeeze(r, lambda c: ((c[0], c[1]), c[2], c[3]), lambda c: c[4] == 0) if q.get("wide") else r)})]
    if k == "cmx":
        r = o_cmx(ev.compute_confusion_matrix_with_examples(**a), nm, q["ts"])
        return [(k, {**o, **(squeeze(r, lambda c: (tuple(c["k"][:2]), c["k"][2], c["k"][3]), lambda c: c["n"] == 0 and not c["x"]) if q.get("wide") else r)})]
    if k == "ex":
        return [(k, {**o, **o_ex(ev.compute_examples(**a), nm, q["ts"])})]
    if k == "expage":
        al = o_ex(ev.compute_examples(**a), nm, q["ts"])["rows"]
        lim = {} if q["n"] < 0 else dict(limit=q["n"])
        return [(k, {**o, "all": al, "o": q["o"], "n": q["n"], **o_ex(ev.compute_examples(**a, offset=q["o"], **lim), nm, q["ts"])})]
    raise KeyError(k)


def session(sc, r, tmp, tag="c"):
    nm = Names(sc["names"], sc.get("nseed", 0), sc.get("U", 1000), sc.get("mt", 0))
    try:
        r.ev("data", p=sc["p"], ds=sc["ds"], kind=sc["kind"])
        ev = build(sc, nm, os.path.join(tmp, tag + "0"))
        for i, q in enumerate(sc["steps"]):
            if q["op"] == "filter":
                try:
                    ev = apply_filter(ev, q["f"], nm, os.path.join(tmp, "%s%d" % (tag, i + 1)), q.get("bs", 1000))
                    r.ev("filter", p=sc["p"], f=q["f"], empty=0)
                except EmptyCacheError:
                    r.ev("filter", p=sc["p"], f=q["f"], empty=1)
            elif q["op"] == "load":
                if sc["st"]["kind"] == "file":
                    ev = Evaluator.load(os.path.join(tmp, tag + "0"))
            else:
                for n, o in query(ev, q, nm):
                    r.ev(n, p=sc["p"], **o)
    except Exception as err:
        r.exc("session", err)


def direct(sc, r):
    """Overlaps computed directly, in both orders, transformed, and in the other representations."""
    try:
        import valor_lite.object_detection.computation as C
        fs = C.compute_bbox_iou, C.compute_polygon_iou, C.compute_bitmask_iou
    except (ImportError, AttributeError):
        return
    try:
        for a, b in sc["pairs"]:
            got = []
            for rep, tf, *blk in sc["forms"]:
                A, B = (annotation(rep, sc["kind"], g, "x", ["l"], None, None, tf, *blk) for g in (a, b))
                v = {"box": lambda x: x.extrema, "poly": lambda x: x.shape, "mask": lambda x: x.mask}[rep]
                f = {"box": fs[0], "poly": fs[1], "mask": fs[2]}[rep]
                x = f(np.array([[v(A), v(B)], [v(B), v(A)]]))
                got += [rat(x[0]), rat(x[1])]
            r.ev("iou", p=sc["p"], kind=sc["kind"], a=a, b=b, got=got)
    except Exception as err:
        r.exc("iou", err)


def run(sc):
    r = Rec(sc["p"])
    if "pairs" in sc:
        direct(sc, r)
        return r.events
    with scratch() as tmp:
        for i, rep in enumerate(sc.get("reps", [sc["rep"]])):
            session({**sc, "rep": rep}, r, tmp, "r%d_" % i)
    return r.events


# ---------------------------------------------------------------- generating
def iou(kind, a, b):
    if kind == "box":
        i = max(0, min(a[1], b[1]) - max(a[0], b[0])) * max(0, min(a[3], b[3]) - max(a[2], b[2]))
        return F(i, (a[1] - a[0]) * (a[3] - a[2]) + (b[1] - b[0]) * (b[3] - b[2]) - i)
    return F(len(set(a) & set(b)), len(set(a) | set(b)))


def gen_box(rng, near=None, M=20):
    if near and rng.random() < .8:
        j = lambda: rng.choice([-3, -2, -1, 0, 0, 1, 2, 3])
        x0, x1, y0, y1 = (max(0, min(M, c + j())) for c in near)
    else:
        x0, x1, y0, y1 = (rng.randrange(0, M + 1) for _ in range(4))
        if rng.random() < .5:
            x1, y1 = x0 + rng.randrange(1, 9), y0 + rng.randrange(1, 9)
    x0, x1, y0, y1 = min(x0, x1), max(x0, x1), min(y0, y1), max(y0, y1)
    return [x0, x1 + (x0 == x1), y0, y1 + (y0 == y1)]


def gen_mask(rng, near=None):
    if near and rng.random() < .8:
        g = set(near)
        for _ in range(rng.randrange(0, 4)):
            g ^= {rng.randrange(W * W)}
    else:
        g = {c for c in range(W * W) if rng.random() < rng.choice([.1, .3, .6])}
    return sorted(g) or [rng.randrange(W * W)]


def tri_adj(c):
    k, xy = c % 4, c // 4
    x, y = xy % W, xy // W
    out = [xy * 4 + (k + 1) % 4, xy * 4 + (k + 3) % 4]
    dx, dy, o = {0: (0, -1, 2), 1: (1, 0, 3), 2: (0, 1, 0), 3: (-1, 0, 1)}[k]
    if 0 <= x + dx < W and 0 <= y + dy < W:
        out.append(((y + dy) * W + x + dx) * 4 + o)
    return out


def gen_poly(rng, near=None):
    g = set(near) if near and rng.random() < .8 else {rng.randrange(W * W * 4)}
    for _ in range(rng.randrange(0, 6) if near else rng.randrange(2, 24)):
        g.add(rng.choice(sorted({a for c in g for a in tri_adj(c)} - g) or sorted(g)))
    s = shapely.unary_union([tri(c) for c in g])
    if s.geom_type != "Polygon" or not s.is_valid or abs(s.area - len(g) / 4) > 1e-9:
        return gen_poly(rng, near)
    return sorted(g)


GEN = {"box": gen_box, "mask": gen_mask, "poly": gen_poly}


def gen_score(rng, U=1000):
    return fine(rng, rng.choice([rng.randrange(0, 1001), rng.randrange(0, 1001), rng.choice([0, 1, 500, 999, 1000])]), U)


def gen_datum(rng, u, gen, nl, ng, np_, multi=.3, a0=0, U=1000):
    d = dict(u=u, m=rng.choice([MISSING, -2, 0, 1, 2, 3, 5]), gts=[], pds=[])
    ids = rng.sample(range(a0, a0 + ng + np_ + 3), ng + np_)
    md = lambda: rng.choice([MISSING, 0, 1, 2])
    for _ in range(ng):
        near = rng.choice(d["gts"])["g"] if d["gts"] and rng.random() < .4 else None
        d["gts"].append(dict(a=ids.pop(), l=rng.randrange(nl), m=md(), g=gen(rng, near)))
    for _ in range(np_):
        t = rng.choice(d["gts"]) if d["gts"] and rng.random() < .85 else None
        g = gen(rng, t["g"] if t else None)
        k = rng.choice([2, 3]) if rng.random() < multi else 1
        ls = rng.sample(range(nl), min(k, nl))
        if t and rng.random() < .6 and t["l"] not in ls:
            ls[0] = t["l"]
        d["pds"].append(dict(a=ids.pop(), m=md(), ls=[dict(l=x, s=gen_score(rng, U)) for x in ls], g=g))
    return d


def entries(kind, d):
    """(label, score, best overlap with a ground truth of the label or 0) of the ranked entries"""
    out = []
    for p in d["pds"]:
        ov = {x["l"]: [iou(kind, p["g"], g["g"]) for g in d["gts"] if g["l"] == x["l"] and iou(kind, p["g"], g["g"]) > 0] for x in p["ls"]}
        hit = any(ov.values())
        for x in p["ls"]:
            if ov[x["l"]] or not hit:
                out.append((x["l"], x["s"], max(ov[x["l"]], default=F(0))))
    return out


def tied(kind, ds, rank):
    """Does the result depend on an order that the property leaves open?"""
    for d in ds:
        io = {(i, j): iou(kind, p["g"], g["g"]) for i, p in enumerate(d["pds"]) for j, g in enumerate(d["gts"])}
        rows = [(i, j, x["s"], io[i, j]) for i, p in enumerate(d["pds"]) for j in range(len(d["gts"])) if io[i, j] > 0 for x in p["ls"]]
        for a in rows:
            for b in rows:
                if (a[0] == b[0]) != (a[1] == b[1]) and a[2:] == b[2:]:
                    return True
        for i, p in enumerate(d["pds"]):
            for x in p["ls"]:
                v = [io[i, j] for j, g in enumerate(d["gts"]) if g["l"] == x["l"] and io[i, j] > 0]
                if len(set(v)) < len(v):
                    return True
    if rank == "strict":
        es = [(x["l"], x["s"]) for d in ds for p in d["pds"] for x in p["ls"]]
        return len(set(es)) < len(es)
    if rank:
        es = [x for d in ds for x in entries(kind, d)]
        for i, a in enumerate(es):
            for b in es[:i]:
                if a[:2] == b[:2] and (a[2] or b[2]) and (a[2] == b[2] or not a[2] or not b[2]):
                    return True
    return False


def scene(rng, prop, nd, rep, kind, nl, single=False, rank=True, big=False, U=1000):
    gen = GEN["box" if kind == "box" else rep]
    us = rng.sample(range(max(40, nd)), nd)
    ds, a0 = [], 0
    for u in us:
        for _ in range(200):
            ng, np_ = (rng.choice([0, 1, 1, 2, 2, 3]), rng.choice([0, 1, 2, 2, 3, 4])) if not big else (rng.choice([3, 4, 5]), rng.choice([3, 4, 6]))
            d = gen_datum(rng, u, gen, nl if isinstance(nl, int) else nl[us.index(u)], ng, np_, multi=0 if single else .3, a0=a0, U=U)
            if not tied(kind, ds + [d], rank):
                ds.append(d)
                a0 += ng + np_ + 3
                break
    if not any(d["gts"] or d["pds"] for d in ds):
        return scene(rng, prop, nd, rep, kind, nl, single, rank, big, U)
    return ds


def iou_thresholds(rng, ds, rep, kind, zero=False):
    vals = [iou(kind, p["g"], g["g"]) for d in ds for p in d["pds"] for g in d["gts"]]
    vals = [v for v in vals if v > 0]
    pool = [F(1, 10), F(3, 10), F(1, 2), F(3, 4), F(9, 10), F(1), F(1, 1000)] + ([F(0)] if zero else [])
    pool += rng.sample(vals, min(4, len(vals)))
    out = []
    for v in rng.sample(pool, len(pool)):
        if rep == "poly" and v in vals:
            v = v * F(999, 1000)
            if v in vals:
                continue
        if v not in out:
            out.append(v)
    return [[v.numerator, v.denominator] for v in out[:rng.choice([1, 2, 3, 4])]]


def score_thresholds(rng, ds, U=1000):
    sc = [x["s"] for d in ds for p in d["pds"] for x in p["ls"]] or [U // 2]
    pool = [0, 1, U // 2, U] + [rng.choice(sc) for _ in range(4)] + [min(U, rng.choice(sc) + 1)]
    out = []
    for x in rng.sample(pool, len(pool)):
        if x not in out:
            out.append(x)
    return out[:rng.choice([1, 2, 3])]


def datum_atoms(rng, ds):
    import clffam
    return clffam.datum_atoms(rng, ds)


def gen_filter(rng, ds, nl, U=1000):
    neg = lambda: int(rng.random() < .4)
    lab = lambda: atom("l", s=rng.sample(range(nl + 1), rng.randrange(1, nl + 1)), neg=neg())
    met = lambda: atom("m", n=rng.choice([0, 1, 2]), neg=neg())
    ga = [g["a"] for d in ds for g in d["gts"]]
    pas = [p["a"] for d in ds for p in d["pds"]]
    ann = lambda pool: lambda: atom("a", s=rng.sample(pool, rng.randrange(0, len(pool) + 1)), neg=neg())
    sco = lambda: atom("s", n=gen_score(rng, U), neg=neg())
    some = lambda opts: [rng.choice(opts)() for _ in range(rng.choice([1, 1, 2]))]
    return dict(d=datum_atoms(rng, ds) if rng.random() < .5 else [],
                g=some([lab, lab, met, ann(ga)]) if rng.random() < .5 else [],
                p=some([lab, met, sco, ann(pas)]) if rng.random() < .5 else [])


def qs(rng, ds, rep, kind, ops, n, filtered=.25, U=1000):
    out = []
    for _ in range(n):
        op = rng.choice(ops)
        q = dict(op=op, ts=iou_thresholds(rng, ds, rep, kind, zero=op in ("cm", "cmx", "ex")), ss=score_thresholds(rng, ds, U), f=[])
        if not q["ts"]:
            q["ts"] = [[11, 97]]
        if rng.random() < filtered:
            q["f"] = datum_atoms(rng, ds)
        if op == "info" and filtered:
            f = gen_filter(rng, ds, 1 + max([0] + [g["l"] for d in ds for g in d["gts"]]), U)
            q.update(g=f["g"], q=f["p"])
        if op == "expage":
            q.update(o=rng.choice([0, 0, 1, 2, 3, len(ds) - 1, len(ds), len(ds) + 1]), n=rng.choice([-1, 0, 1, 1, 2, 3, len(ds), 100]))
        out.append(q)
    return out


OPS = {"C05": ["expage"], "C09": ["pr", "cm"], "C10": ["pr", "pr", "info"], "C11": ["ap"], "C12": ["cm", "cmx", "ex"] * 3 + ["expage"],
       "C15": ["prap", "cm", "cmx", "ex", "info"] * 3 + ["expage"]}
NSC = {"C05": 40, "C09": 100, "C10": 240, "C11": 120, "C12": 200, "C15": 100}


def many(n_gt, n_tp, order, st, p="C11"):
    """n_gt ground truths of one label over several datums, n_tp of them hit: recall reaches exact percents."""
    ds, k = [], 0
    for i in range(0, n_gt, 5):
        d = dict(u=i // 5, m=0, gts=[], pds=[])
        for j in range(min(5, n_gt - i)):
            x = 4 * j
            d["gts"].append(dict(a=100 * (i // 5) + j, l=0, m=0, g=[x, x + 3, 0, 3]))
            if k < n_tp:
                d["pds"].append(dict(a=100 * (i // 5) + 50 + j, m=0, ls=[dict(l=0, s=order(k))], g=[x, x + 3, 0, 2]))
            k += 1
        ds.append(d)
    return dict(p=p, ds=ds, kind="box", rep="box", st=st, chk=[len(ds)], fbs=1000, names=0, steps=[dict(op="ap", ts=[[1, 2]], ss=[0], f=[])])


def crowd(rng, p, n, st, steps, fading=False, wide=False):
    """many small datums, so that totals exceed 255; scores are distinct; fading: the lower the score the less likely a hit"""
    ds, sc = [], rng.sample(range(1, 1001), 2 * n)
    for i in range(n):
        gl, pl = int(i % 25 == 3), int(i % 19 == 7)
        w = rng.choice([1, 2, 3, 3])
        if fading:
            gl, pl, w = 0, 0, 3 if rng.random() < sc[i] / 900 else 1
        if wide:                                 # more labels than a byte can number
            gl, pl = i, i if i % 4 else (7 * i) % n
        d = dict(u=i, m=rng.choice([MISSING, 0, 1, 2]), gts=[dict(a=2 * i, l=gl, m=0, g=[0, 3, 0, 3])] if i % 31 else [],
                 pds=[dict(a=2 * i + 1, m=0, ls=[dict(l=pl, s=sc[i])], g=[0, w, 0, 3])] if i % 29 else [])
        if i % 6 == 2 and d["pds"]:
            d["pds"].append(dict(a=10000 + i, m=0, ls=[dict(l=pl, s=sc[n + i])], g=[0, 3, 0, rng.choice([1, 2])]))
        ds.append(d)
    return dict(p=p, ds=ds, kind="box", rep="box", reps=["box"], st=st, chk=[n], fbs=1000, names=0, nseed=0, U=1000, steps=steps)


def sure(rng, p, nd, nl, steps):
    """every ground truth is found by the highest scores, which fill the first files; what follows is wrong"""
    ds = []
    for i in range(nd):
        d = dict(u=i, m=0, gts=[dict(a=10 * i, l=i % nl, m=0, g=[0, 4, 0, 4])], pds=[dict(a=10 * i + 1, m=0, ls=[dict(l=i % nl, s=900 + i)], g=[0, 4, 0, 4])])
        for j in range(rng.choice([1, 2])):
            d["pds"].append(dict(a=10 * i + 2 + j, m=0, ls=[dict(l=rng.randrange(nl), s=100 + 3 * i + j)], g=[0, rng.choice([1, 3]), 0, 4] if j else [7, 9, 0, 4]))
        ds.append(d)
    st = dict(kind="file", bs=rng.choice([1, 2]), rpf=rng.choice([1, 3]), comp="snappy")
    return dict(p=p, ds=ds, kind="box", rep="box", reps=["box"], st=st, chk=chunks(rng, nd), fbs=finbs(rng), names=0, nseed=0, U=1000, steps=steps)


def ballast(rng, p, st, steps, blabels=0):
    make = lambda: scene(rng, p, 6, "box", "box", 3, rank=p != "C12", big=p == "C12")
    ds = make()
    while not any(d["gts"] for d in ds):
        ds = make()
    ds.sort(key=lambda d: not d["gts"])
    for d in ds:
        d["m"] = rng.choice([0, 1])
    return dict(p=p, ds=ds, kind="box", rep="box", reps=["box"], st=st, chk=chunks(rng, len(ds)), fbs=1000, names=0, nseed=0, U=1000, steps=steps, ballast=110000 if blabels else 66000, blabels=blabels)


def scenarios(prop, seed, tier, beh):
    rng = random.Random("det-%s-%s" % (prop, seed))
    out = []
    mult = 1 if tier == "quick" else 12
    if prop == "C09":
        for i in range(40 * mult):
            kind = rng.choice(["box", "box", "cells"])
            if kind == "box":
                g = gen_box
                forms = [["box", [1, 0, 0]], ["poly", [1, 0, 0]], ["mask", [1, 0, 0]], ["box", [rng.choice([0.125, 4, 1024]), rng.choice([-100, 1 << 20]), -7]],
                         ["poly", [rng.choice([0.25, 8]), 100, -50]], ["box", [2 ** -10, rng.choice([0, 0.5]), 0]], ["poly", [2 ** -10, 0, 0.5]], ["poly", [2 ** 12, 0, 0]],
                         ["box", [2.0 ** -rng.choice([16, 20, 30, 60]), 0, 0]], ["poly", [2.0 ** -rng.choice([16, 20, 30]), 0, 0]],
                         ["mask", [1, 0, 0], rng.choice([2, 3, 7, 17])], ["mask", [1, 0, 0], rng.choice([[1, 2], [3, 1], [2, 5]])]]
            else:
                rep = rng.choice(["mask", "poly"])
                g, forms = GEN[rep], [[rep, [1, 0, 0]]] + ([["poly", [2 ** -10, 0.5, 0]], ["poly", [2.0 ** -rng.choice([16, 20]), 0, 0]], ["poly", [64, -128, 256]]] if rep == "poly" else [["mask", [1, 0, 0], rng.choice([2, 5, 20])], ["mask", [1, 0, 0], rng.choice([[1, 2], [3, 1], [2, 7]])], ["mask", [1, 0, 0], rng.choice([60, 120])]])
            pairs = []
            for _ in range(6):
                a = g(rng)
                b = a if rng.random() < .1 else g(rng, a if rng.random() < .7 else None)
                pairs.append([a, b])
            out.append(dict(p=prop, kind=kind, forms=forms, pairs=pairs))
    if prop == "C11":
        for n_gt, n_tp in [(50, 29), (100, 57), (25, 7), (20, 19), (3, 3), (7, 5), (40, 23)] + ([(100, k) for k in range(1, 100, 3)] if tier != "quick" else []):
            out.append(many(n_gt, n_tp, lambda k: 1000 - 7 * k, dict(kind="mem", bs=1000)))
            out.append(many(n_gt, n_tp, lambda k: 300 + (k * 37) % 101 * 6, dict(kind="file", bs=3, rpf=rng.choice([5, 20]), comp="snappy")))
    if prop in ("C10", "C11", "C12"):
        for k in range(2):
            st = dict(kind="mem", bs=1000) if k else dict(kind="file", bs=50, rpf=rng.choice([17, 40]), comp="snappy")
            op = {"C10": "pr", "C11": "ap"}.get(prop) or ["cm", "cmx"][k]
            if st["kind"] == "mem":
                if prop == "C12":
                    out.append(ballast(rng, prop, st, [dict(op="ex", ts=[[1, 2], [1, 4]], ss=[0, 400], f=[atom("m", n=BALLAST, neg=1)])], blabels=1))
                out.append(ballast(rng, prop, st, [dict(op=o, ts=[[1, 2], [1, 4]], ss=[0, 400], f=[atom("m", n=BALLAST, neg=1)]) for o in ([op] if prop != "C12" else ["cm", "cmx", "ex"])]))
            if k == 0:
                out.append(crowd(rng, prop, 300, st, [dict(op=o, ts=[[1, 2]], ss=[400], f=[], wide=1) for o in ([op] if prop != "C12" else ["cm", "cmx", "ex"])], wide=True))
            out.append(crowd(rng, prop, 300, st, [dict(op=op, ts=[[1, 2], [9, 10]][:1 if prop == "C11" else 2], ss=[0, 400], f=[])], fading=prop == "C11" and k == 0))
    if prop in ("C10", "C11", "C12"):
        for nl in (1, 3):
            out.append(sure(rng, prop, 9, nl, [dict(op=o, ts=[[1, 2], [1, 10]], ss=x, f=[]) for x in ([0, 150], [905, 0]) for o in {"C10": ["pr"], "C11": ["ap"]}.get(prop, ["cm", "ex"])]))
    for i in range(NSC[prop] * mult):
        nl = rng.choice([1, 2, 2, 3, 4])
        big = i % 15 == 0
        U = score_unit(rng)
        if i % 40 == 7:                          # many labels
            nl = rng.choice([17, 60]) if prop == "C10" else 11
        nd = rng.choice([1, 1, 2, 3, 4, 5]) if not big else rng.choice([2, 3])
        if prop == "C09":
            kind, reps = rng.choice([("box", ["box", "poly", "mask"]), ("box", ["box", "mask"]), ("cells", ["poly"]), ("cells", ["mask"])])
            rep = reps[0]
        else:
            kind, rep = rng.choice([("box", "box")] * 5 + [("box", "mask"), ("cells", "mask"), ("cells", "poly")])
            reps = [rep]
        ds = scene(rng, prop, nd, rep, kind, nl, single=prop == "C12" and rng.random() < .4, rank="strict" if prop == "C15" else prop not in ("C10", "C12", "C05"), big=big, U=U)
        steps, ops = [], OPS[prop]
        trep = "poly" if "poly" in reps else rep
        if prop == "C15":
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(dict(op="filter", f=gen_filter(rng, ds, nl, U), bs=rng.choice([1, 2, 1000])))
                steps += qs(rng, ds, trep, kind, ops, 3, U=U)
        else:
            if rng.random() < .15:
                steps.append(dict(op="load"))
            steps += qs(rng, ds, trep, kind, ops, 2 if prop in ("C09", "C11") else 3, filtered=0 if prop == "C09" else .25, U=U)
        sc = dict(p=prop, ds=ds, kind=kind, rep=rep, reps=reps, st=storage(rng), chk=chunks(rng, len(ds)), fbs=finbs(rng),
                  names=rng.choice([0, 0, 1, 2]), nseed=i, U=U, steps=steps)
        if kind == "box" and "mask" not in reps:
            sc["tf"] = rng.choice([[1, 0, 0], [0.125, -3, 5], [64, -1000, 1 << 20], [2 ** -10, 0, 0], [1, (1 << 30) + 1, -(1 << 31)], [2 ** -6, 3, 1 << 20]])
        if "mask" in reps:
            sc["blk"] = rng.choice([1, 1, 1, 2, 3, 8, [1, 2], [3, 1]] if kind == "box" else [1, 1, 3, 16, 60, [1, 3], [4, 1], [1, 80]])
        if prop == "C09" and "poly" in reps:
            sc["tf"] = rng.choice([[1, 0, 0], [2 ** -10, 0, 0], [2 ** -8, .25, .5], [256, 0, -512], [1, 1 << 26, 1 - (1 << 25)]])
        out.append(sc)
    mr = random.Random("meta-%s-%s" % (prop, seed))
    for sc in out:
        sc["mt"] = metakind(mr)
    return out
