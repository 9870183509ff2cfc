"""Construction of annotations (C25)."""
from types import SimpleNamespace
import random, warnings
import numpy as np
from shapely.geometry import LineString, MultiPolygon, Point, Polygon as SP
from common import *
from valor_lite import object_detection as od, classification as cl, semantic_segmentation as ss


def attempt(f):
    try:
        return f(), "ok"
    except (ValueError, TypeError):
        return None, "refused"
    except Exception as err:
        return None, type(err).__name__


def arr(px, sh, dtype=np.bool_, order="C"):
    n = 1
    for k in sh:
        n *= k
    m = np.zeros(n, dtype=dtype)
    for p in px:
        m[p - 1] = 1
    return np.asarray(m.reshape(sh), order=order)


def ann(a, rng):
    """Arguments for an annotation."""
    kw = dict(uid=rng.choice(["", "x", "ü"]), labels=[rng.choice(["a", "", "b", "a"]) for _ in range(a["nl"])])
    if a["ns"] or rng.random() < .5:
        kw["scores"] = [rng.choice([0.0, 1.0, .5, .25]) for _ in range(a["ns"])]
    if rng.random() < .3:
        kw["metadata"] = rng.choice([{}, {"x": 1}, None])
    k, g = a["kind"], a["geo"]
    if k == "box":
        x, y = rng.choice([0, -3.5, 10]), rng.choice([0, 2, 1e6])
        kw.update(xmin=x, xmax=x + rng.choice([0, 1, 2.5]), ymin=y, ymax=y + rng.choice([0, 1, 7]))
        return od.BoundingBox, kw
    if k == "poly":
        kw["shape"] = SP([(0, 0), (2, 0), (2, 3)]) if g == "ok" else SP() if g == "empty" else rng.choice([None, Point(1, 1), LineString([(0, 0), (1, 1)]), MultiPolygon(), [(0, 0), (1, 0), (1, 1)]])
        return od.Polygon, kw
    sh = rng.choice([(2, 2), (1, 3), (4, 1), (40, 30)])
    n = sh[0] * sh[1]
    px = [rng.randrange(1, n + 1) for _ in range(rng.randrange(1, 4))]
    kw["mask"] = arr(px, sh) if g == "ok" else arr([], sh) if g == "empty" else rng.choice([lambda: arr(px, sh, np.uint8), lambda: arr(px, sh, np.float64), lambda: arr(px, sh).tolist(), lambda: arr(px, sh, np.int64), lambda: None, lambda: arr(px, sh, object)])()
    return od.Bitmask, kw


def same(x, kw):
    for k, v in kw.items():
        w = getattr(x, k)
        if isinstance(v, np.ndarray):
            if not (isinstance(w, np.ndarray) and w.dtype == v.dtype and np.array_equal(v, w)):
                return 0
        elif v is not w and v != w:
            return 0
    return 1


def rnd_ann(rng, good=.6):
    k = rng.choice(["box", "poly", "mask"])
    if rng.random() < good:
        n = rng.choice([1, 1, 2, 3])
        return dict(kind=k, geo="ok", nl=1 if rng.random() < .4 else n, ns=0) if rng.random() < .3 else dict(kind=k, geo="ok", nl=n, ns=n)
    return dict(kind=k, geo="ok" if k == "box" else rng.choice(["ok", "empty", "wrong"]), nl=rng.choice([0, 1, 1, 2, 3]), ns=rng.choice([0, 1, 2, 3]))


def run(sc):
    warnings.simplefilter("ignore")
    r = Rec(sc["p"])
    rng = random.Random(sc["seed"])
    for _ in range(sc["n"]):
        k = rng.choice(["ann", "ann", "det", "clf", "bitmask", "seg", "seg", "seg"])
        try:
            if k == "ann":
                a = rnd_ann(rng, .3)
                c, kw = ann(a, rng)
                x, out = attempt(lambda: c(**kw))
                r.ev("ann", a=a, out=out, kept=same(x, kw) if x is not None else 0)
            elif k == "det":
                def made(n, good):
                    kind, res = None, []
                    while len(res) < n:
                        a = rnd_ann(rng, good)
                        kind = kind or a["kind"]
                        if a["kind"] != kind:
                            continue
                        c, kw = ann(a, rng)
                        x, o = attempt(lambda: c(**kw))
                        if o == "ok":
                            res.append((a, x))
                    return res
                gs, ps = made(rng.randrange(0, 3), .5), made(rng.randrange(0, 4), .8)
                md = rng.choice([None, {"k": 1}])
                kw = dict(uid="d", groundtruths=[x for _, x in gs], predictions=[x for _, x in ps], metadata=md)
                x, out = attempt(lambda: od.Detection(**kw))
                r.ev("det", gs=[a for a, _ in gs], ps=[a for a, _ in ps], out=out, kept=int(x is not None and [id(v) for v in x.groundtruths] == [id(v) for _, v in gs] and [id(v) for v in x.predictions] == [id(v) for _, v in ps] and x.metadata == md and x.uid == "d"))
            elif k == "clf":
                n = rng.choice([0, 1, 2, 5])
                c = dict(gt=rng.choice(["str"] * 4 + ["none", "list", "int"]), np=n, ns=n if rng.random() < .6 else rng.choice([0, 1, 2, 3, 6]))
                kw = dict(uid="d", groundtruth={"str": rng.choice(["", "a", "ü"]), "none": None, "list": ["a"], "int": 3}[c["gt"]], predictions=["p%d" % i for i in range(c["np"])], scores=[rng.choice([0.0, .5, 1.0]) for _ in range(c["ns"])])
                x, out = attempt(lambda: cl.Classification(**kw))
                r.ev("clf", c=c, out=out, kept=same(x, kw) if x is not None else 0)
            elif k == "bitmask":
                b = rng.choice([0, 1])
                m = arr([1, 2], (2, 3), np.bool_ if b else rng.choice([np.uint8, np.int64, np.float32, object]))
                x, out = attempt(lambda: ss.Bitmask(mask=m, label="a"))
                r.ev("bitmask", b=b, out=out, kept=int(x is not None and x.label == "a" and x.mask is not None and np.array_equal(x.mask, m)))
            else:
                seg(r, rng)
        except TimeoutError:
            raise
        except Exception as err:
            r.exc(k, err)
    return r.events


def seg(r, rng):
    sh = rng.choice([(1, 4), (2, 2), (3, 2), (2, 5), (4, 4), (1, 1), (2, 2, 1), (3,), (0, 4), (2, 0), (-1, 2), (-1, -2), (0, 0), (-2, -2)])
    fine = len(sh) == 2 and min(sh) > 0
    n = sh[0] * sh[1] if fine else 0
    px = lambda: sorted(rng.sample(range(1, n + 1), min(n, rng.choice([0, 1, n // 3, n // 2, n, n - 1 or 1])))) if n > 0 else []

    def masks(k):
        out = []
        for _ in range(k):
            b, s = 1, list(sh)
            if rng.random() < .05:
                b = 0
            if rng.random() < .05:
                s = rng.choice([[n, 1], [sh[-1], sh[0]], [n], [1, n + 1]])
            out.append(dict(b=b, sh=s, px=px() if fine and s == list(sh) else []))
        return out
    s = dict(sh=list(sh), gs=masks(rng.choice([0, 1, 2, 3, 4])), ps=masks(rng.choice([0, 1, 2, 3, 4])))
    shared = {}

    def build(ms):
        out = []
        for m in ms:
            key = (tuple(m["sh"]), tuple(m["px"]))
            if not m["b"]:
                z = np.zeros(sh if fine else (1, 1), dtype=bool)
                z[0, 0] = True
                out.append((rng.choice([None, "mask", z, od.Bitmask(uid="x", mask=z, labels=["a"]), SimpleNamespace(mask=z, label="a", metadata=None)]), None))
                continue
            a = shared.get(key) if rng.random() < .5 else None      # the same array in several masks
            if a is None:
                a = arr(m["px"], tuple(max(0, v) for v in m["sh"]), order=rng.choice(["C", "F"]))
                if rng.random() < .3 and a.size:
                    big = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=bool)
                    big[::2] = a
                    a = big[::2]                                     # a view
                if rng.random() < .3:
                    a.setflags(write=False)
                shared[key] = a
            out.append((ss.Bitmask(mask=a, label=rng.choice("ab")), a))
        return out
    gs, ps = build(s["gs"]), build(s["ps"])
    before = [a.copy() for _, a in gs + ps if a is not None]
    x, out = attempt(lambda: ss.Segmentation(uid="d", groundtruths=[m for m, _ in gs], predictions=[m for m, _ in ps], shape=sh))
    after = [a for _, a in gs + ps if a is not None]
    un = int(all(np.array_equal(a, b) for a, b in zip(before, after)))
    pix = lambda ms: [[int(i) + 1 for i in np.flatnonzero(np.ascontiguousarray(m.mask))] for m in ms]
    ok = x is not None
    r.ev("seg", s=s, out=out, unharmed=un, gout=pix(x.groundtruths) if ok else [], pout=pix(x.predictions) if ok else [], size=int(x.size) if ok else 0,
         kept=int(ok and x.uid == "d" and tuple(x.shape) == sh and len(x.groundtruths) == len(gs) and len(x.predictions) == len(ps) and [m.label for m in x.groundtruths + x.predictions] == [m.label for m, _ in gs + ps]))


def scenarios(prop, seed, tier, beh):
    rng = random.Random("ann-%s-%s" % (prop, seed))
    return [dict(p=prop, n=40, seed=rng.randrange(1 << 30)) for _ in range(100 if tier == "quick" else 2000)]
