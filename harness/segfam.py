"""Semantic segmentation sessions (C13, C15): build, filter, query the real code."""
import os, random
import numpy as np
import pyarrow as pa
from common import *
from clffam import datum_atoms, need
from valor_lite.exceptions import EmptyCacheError
from valor_lite.semantic_segmentation import Bitmask, Evaluator, Loader, Segmentation

FIELDS = [("meta", pa.int64()), ("gmeta", pa.int64()), ("pmeta", pa.int64()), ("tag", pa.string())]


# ---------------------------------------------------------------- driving the code
def segmentation(d, nm):
    """Masks of the same pixels share one array when the datum says so (their content must not matter to each other)."""
    h, w = d["sh"]
    k, k2 = nm.blk                               # every pixel stands for a block of k x k2 pixels
    arrays = {}

    def arr(px):
        key = tuple(px)
        if not d.get("share") or key not in arrays:
            m = np.zeros(h * w, dtype=np.bool_)
            m[[x - 1 for x in px]] = True
            arrays[key] = np.kron(m.reshape(h, w), np.ones((k, k2), dtype=np.bool_))
        return arrays[key]
    mk = lambda ms, f: [Bitmask(mask=arr(x["px"]), label=nm.label(x["l"]), metadata=None if x["m"] == MISSING else {f: nm.meta(x["m"])}) for x in ms]
    md = None if d["m"] == MISSING else {"meta": nm.meta(d["m"]), "tag": "t%d" % (d["m"] % 3)}
    return Segmentation(uid=nm.uid(d["u"]), groundtruths=mk(d["gts"], "gmeta"), predictions=mk(d["pds"], "pmeta"), shape=(h * k, w * k2), metadata=md)


def loader(st, path, fields=FIELDS):
    if st["kind"] == "mem":
        return Loader.in_memory(batch_size=st["bs"], metadata_fields=fields)
    return Loader.persistent(path=path, batch_size=st["bs"], rows_per_file=st["rpf"], compression=st["comp"], metadata_fields=fields)


def build(sc, nm, path):
    ld = loader(sc["st"], path, nm.fields(FIELDS))
    i = 0
    for k in sc["chk"]:
        ld.add_data([segmentation(d, nm) for d in sc["ds"][i:i + k]])
        i += k
    return ld.finalize()


def dexpr(f, nm):
    return expr(f, lambda k: {"u": ("datum_uid", nm.uid), "m": ("meta", nm.mval)}[k])


def gexpr(f, nm):
    return expr(f, lambda k: {"l": ("gt_label", nm.label), "m": ("gmeta", nm.mval)}[k])


def pexpr(f, nm):
    return expr(f, lambda k: {"l": ("pd_label", nm.label), "m": ("pmeta", nm.mval)}[k])


def apply_filter(ev, f, nm, path):
    return ev.filter(datums=dexpr(f["d"], nm), groundtruths=gexpr(f["g"], nm), predictions=pexpr(f["p"], nm), path=path)


def o_pr(res, nm):
    o = dict(prec=[], rec=[], f1=[], iou=[], miou=[], acc=[], cells=[], ugt=[], upd=[])
    for t, p, v in typed(res):
        if t == "ConfusionMatrix":
            o["cells"] += [[nm.ul(g), nm.ul(q), rat(n["iou"])] for g, r in v["confusion_matrix"].items() for q, n in r.items()]
            o["ugt"] += [[nm.ul(g), rat(n["ratio"])] for g, n in v["unmatched_ground_truths"].items()]
            o["upd"] += [[nm.ul(g), rat(n["ratio"])] for g, n in v["unmatched_predictions"].items()]
        elif t == "Accuracy":
            o["acc"].append(rat(v))
        elif t == "mIOU":
            o["miou"].append(micro(v))
        else:
            o[{"Precision": "prec", "Recall": "rec", "F1": "f1", "IOU": "iou"}[t]].append([nm.ul(p["label"]), rat(v)])
    return o


def query(ev, q, nm):
    if q["op"] == "info":
        i = ev.get_info(datums=dexpr(q["f"], nm), groundtruths=gexpr(q["g"], nm), predictions=pexpr(q["q"], nm))
        area = nm.blk[0] * nm.blk[1]
        px = lambda n: int(n) // area if int(n) % area == 0 else -5
        return dict(labels=i.number_of_labels, datums=i.number_of_datums, pixels=px(i.number_of_pixels), gts=px(i.number_of_groundtruth_pixels),
                    pds=px(i.number_of_prediction_pixels), f=q["f"], g=q["g"], q=q["q"])
    r = o_pr(ev.compute_precision_recall_iou(datums=dexpr(q["f"], nm)), nm)
    return dict(f=q["f"], **(squeeze(r, lambda c: (0, c[0], c[1]), lambda c: c[2][0] == 0) if q.get("wide") else r))


def run(sc):
    r = Rec(sc["p"])
    nm = Names(sc["names"], sc.get("nseed", 0), mt=sc.get("mt", 0))
    nm.blk = sc.get("blk", [1, 1])
    with scratch() as tmp:
        try:
            r.ev("data", p=sc["p"], ds=[dict(u=d["u"], m=d["m"], n=d["sh"][0] * d["sh"][1], gts=d["gts"], pds=d["pds"]) for d in sc["ds"]])
            ev = build(sc, nm, os.path.join(tmp, "c0"))
            for i, q in enumerate(sc["steps"]):
                if q["op"] == "filter":
                    try:
                        ev = apply_filter(ev, q["f"], nm, os.path.join(tmp, "c%d" % (i + 1)))
                        r.ev("filter", p=sc["p"], f=q["f"], empty=0)
                    except EmptyCacheError:
                        r.ev("filter", p=sc["p"], f=q["f"], empty=1)
                elif q["op"] == "load":
                    if sc["st"]["kind"] == "file":
                        ev = Evaluator.load(os.path.join(tmp, "c0"))
                else:
                    r.ev(q["op"], p=sc["p"], **query(ev, q, nm))
        except Exception as err:
            r.exc("session", err)
    return r.events


# ---------------------------------------------------------------- generating
def gen_masks(rng, n, nl, mode):
    """mode: tile (disjoint, maybe gaps), overlap, rep (labels repeat)"""
    k = rng.choice([0, 1, 1, 2, 2, 3, 4])
    out = []
    own = [rng.randrange(k + 1) for _ in range(n)] if k else []
    meta = {}
    for i in range(k):
        if mode == "tile":
            px = [x + 1 for x in range(n) if own[x] == i]
        else:
            p = rng.choice([0, .2, .5, .9, 1])
            px = [x + 1 for x in range(n) if rng.random() < p]
            if out and rng.random() < .2:
                px = list(rng.choice(out)["px"])
        lab = rng.randrange(nl)
        m = meta.setdefault(lab, rng.choice([MISSING, 0, 1, 2]))
        out.append(dict(l=lab, m=m, px=px))
    return out


def gen_datum(rng, u, nl):
    sh = [rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3, 5])]
    n = sh[0] * sh[1]
    mode = lambda: rng.choice(["tile", "tile", "overlap"])
    d = dict(u=u, m=rng.choice([MISSING, -2, 0, 1, 2, 3, 5]), sh=sh, gts=gen_masks(rng, n, nl, mode()), share=int(rng.random() < .3))
    if rng.random() < .2:
        d["pds"] = [dict(l=x["l"], m=x["m"], px=list(x["px"])) for x in d["gts"]]
        rng.shuffle(d["pds"])
    else:
        d["pds"] = gen_masks(rng, n, nl, mode())
    return d


def gen_faint(rng, nl):
    """Wide images on which labels barely agree: rates near zero, and labels that miss by a pixel."""
    out = []
    for u in rng.sample(range(40), rng.choice([1, 2])):
        h, w = rng.choice([[2, 60], [9, 14], [1, 130]])
        n = h * w
        cut = rng.randrange(2, n - 2)
        over = rng.choice([0, 1, 1, 2])
        gts = [dict(l=0, m=1, px=list(range(1, cut + 1))), dict(l=rng.randrange(1, nl), m=2, px=[n])]
        pds = [dict(l=0, m=1, px=list(range(cut + 1 - over, n + 1 - rng.choice([0, 1])))), dict(l=rng.randrange(1, nl), m=2, px=[1])]
        out.append(dict(u=u, m=rng.choice([MISSING, 1]), sh=[h, w], gts=gts, pds=pds, share=0))
    return out


def gen_data(rng, nd, nl):
    while True:
        ds = [gen_datum(rng, u, nl if isinstance(nl, int) else nl[i]) for i, u in enumerate(rng.sample(range(40), nd))]
        if any(d["gts"] or d["pds"] for d in ds):
            return ds


def gen_filter(rng, ds, nl):
    lab = lambda: atom("l", s=rng.sample(range(nl + 1), rng.randrange(0, nl + 1)), neg=int(rng.random() < .4))
    met = lambda: atom("m", n=rng.choice([0, 1, 2]), neg=int(rng.random() < .4))
    some = lambda: [rng.choice([lab, met, met])() for _ in range(rng.choice([1, 1, 2]))]
    return dict(d=datum_atoms(rng, ds) if rng.random() < .5 else [], g=some() if rng.random() < .6 else [], p=some() if rng.random() < .6 else [])


def qs(rng, ds, nl, n):
    out = []
    for _ in range(n):
        f = gen_filter(rng, ds, nl)
        d = datum_atoms(rng, ds) if rng.random() < .3 else []
        out.append(dict(op="info", f=d, g=f["g"], q=f["p"]) if rng.random() < .35 else dict(op="pr", f=d))
    return out


NSC = {"C13": 260, "C15": 180}


def scenarios(prop, seed, tier, beh):
    rng = random.Random("seg-%s-%s" % (prop, seed))
    out = []
    for i in range(NSC[prop] * (1 if tier == "quick" else 12)):
        nl = rng.choice([1, 2, 2, 3, 4]) if i % 25 else 15
        ds = gen_data(rng, rng.choice([1, 1, 2, 3, 4, 6]) if i % 20 else 12, nl)
        if i % 13 == 7:
            nl = max(nl, 2)
            ds = gen_faint(rng, nl)
        steps = []
        if prop == "C15":
            for _ in range(rng.choice([1, 1, 2])):
                steps.append(dict(op="filter", f=gen_filter(rng, ds, nl)))
                steps += qs(rng, ds, nl, 2) + [dict(op="pr", f=[])]
        else:
            if rng.random() < .15:
                steps.append(dict(op="load"))
            steps += qs(rng, ds, nl, 2)
        st = storage(rng)
        if prop == "C15" and st["kind"] == "file" and rng.random() < .5:
            st["rpf"] = 100000                       # images share a file
        out.append(dict(p=prop, ds=ds, st=st, chk=chunks(rng, len(ds)), names=rng.choice([0, 0, 1, 2]), nseed=i, blk=rng.choice([[1, 1]] * 12 + [[3, 3], [17, 2], [150, 150], [1, 300]]), steps=steps))
        if prop == "C13" and i % 130 == 100:         # more labels than a byte can number
            ds = []
            for u in range(2):
                a, b = rng.sample(range(1, 170), 150), rng.sample(range(1, 170), 150)
                ds.append(dict(u=u, m=1, sh=[13, 13], share=0, gts=[dict(l=150 * u + j, m=1, px=[a[j]]) for j in range(150)],
                               pds=[dict(l=150 * u + j, m=1, px=[a[j] if j % 3 else b[j]]) for j in range(150)]))
            out[-1].update(ds=ds, chk=chunks(rng, 2), blk=[1, 1], steps=[dict(op="info", f=[], g=[], q=[]), dict(op="pr", f=[], wide=1)])
        if prop == "C13" and i % 130 == 64:          # more pixels than single precision can count
            out[-1].update(ds=[dict(u=1, m=1, sh=[3, 3], share=1, gts=[dict(l=0, m=1, px=[1, 2, 3, 4, 5, 6, 7, 8])], pds=[dict(l=1, m=1, px=[2, 3, 4, 5, 6, 7, 8])])],
                           chk=[1], blk=[1511, 1411], steps=[dict(op="info", f=[], g=[], q=[]), dict(op="pr", f=[])])
    mr = random.Random("meta-%s-%s" % (prop, seed))
    for sc in out:
        sc["mt"] = metakind(mr)
    return out
