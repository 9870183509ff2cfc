"""Sessions of loaders and evaluators (C03, C14-C17, C21, C22), generated by TLC from SessionGen and replayed into the code."""
import json, os, random, shutil
import pyarrow as pa
from common import *
import clffam, detfam, segfam
from valor_lite.exceptions import EmptyCacheError

NP = 4
EXTRA = [("ls", lambda: pa.list_(pa.string())), ("dec", lambda: pa.decimal128(5, 2)), ("ts", lambda: pa.timestamp("us", tz="UTC")), ("f", lambda: "float64"),
         ("st", lambda: pa.struct([("a b", pa.int64()), ("c", pa.string())])), ("di", lambda: pa.dictionary(pa.int32(), pa.string())), ("ll", lambda: pa.list_(pa.list_(pa.int64()))),
         ("mp", lambda: pa.map_(pa.string(), pa.int64())), ("bi", lambda: pa.binary(4)), ("da", lambda: "date32"), ("du", lambda: pa.duration("s")), ("u8", lambda: pa.uint8()),
         ("nn", lambda: pa.timestamp("ns", tz="Europe/Berlin")), ("fl", lambda: pa.list_(pa.int64(), 2)), ("no", lambda: pa.null())]
# metadata fields that cannot be used: taken names, unknown types
UNUSABLE = [("datum_uid", pa.string()), ("x", "nonsense"), ("pd_score", pa.float64()), ("x", None), ("gt_label", pa.string()), ("pd_label", pa.string()), ("x", int), ("datum_uid", pa.int64())]


def J(x):
    return json.dumps(x, sort_keys=True)


def part(key, txt, num=()):
    return dict(key=J(key), txt=J(txt), num=list(num))


def rows_at(lst, k, n):
    """Entries of a list whose first n elements are k, without them, as a sorted list."""
    return sorted((J(e[n:]) for e in lst if list(e[:n]) == list(k)))


MISFIT = ["x", "not a number", [1], {"a": 1}, 1 << 70, b"1", float("nan")]   # none of these is an int64


def misfits(nm):
    return MISFIT if nm.mt == pa.int64() else [[1], {"a": 1}, [[]]]


class Task:
    U = 1000                                     # unit of scores

    def whole(self, k, sc):
        return False

    def late(self, rng, nl, nd):
        """Labels per datum: sometimes all but the last few datums know just one label."""
        if rng.random() < .6:
            return nl
        k = rng.randrange(max(1, nd - 3), nd)
        return [1] * k + [rng.choice([2, 3, 4]) for _ in range(nd - k)]


class Clf(Task):
    once = 1
    fam = clffam
    kinds = ["nopred", "meta", "meta"]

    def data(self, rng, nd, prop):
        self.U = score_unit(rng)
        ds = clffam.gen_data(rng, nd, self.late(rng, rng.choice([1, 2, 3, 4]), nd), full=rng.random() < .4, U=self.U)
        if prop == "C22":                       # no tied winners: the order of predictions must not matter
            for d in ds:
                d["pd"] = [dict(l=p["l"], s=s) for p, s in zip(d["pd"], rng.sample(range(0, self.U + 1), len(d["pd"])))]
        return ds

    def obj(self, d, nm, sc):
        return clffam.classification(d, nm)

    def permute(self, d, rng):
        pd = list(d["pd"])
        rng.shuffle(pd)
        return {**d, "pd": pd}

    def bad(self, k, i, nm, sc):
        C = clffam.Classification
        if k == "nopred":
            return C(uid="bad%d" % i, groundtruth="badgt%d" % i, predictions=[], scores=[])
        return C(uid="bad%d" % i, groundtruth="badgt%d" % i, predictions=["badpd%d" % i, nm.label(0)], scores=[.5, .4], metadata={"meta": random.Random("%s-%s" % (i, sc["seed"])).choice(misfits(nm))})

    def add(self, ld, objs, sc):
        ld.add_data(objs)

    def fin(self, ld, fbs):
        return ld.finalize(batch_size=fbs)

    def queries(self, rng, ds, n):
        q = clffam.qs(rng, ds, ["pr", "cm", "cmx", "ex", "expage"], n - 2, filtered=0, U=self.U)
        return q + [dict(op="roc"), dict(op="info", f=[])]

    def filters(self, rng, ds):
        nl = 1 + max(p["l"] for d in ds for p in d["pd"])
        return [clffam.gen_filter(rng, ds, nl, self.U) for _ in range(3)]

    def observe(self, ev, q, nm):
        o = clffam.query(ev, q, nm)
        if q["op"] == "roc":
            return [part(["roc"], sorted(J(r) for r in o["rows"]), [o["mean"]])], 0
        if q["op"] == "info":
            return [info_part(ev, dict(labels=o["labels"], datums=o["datums"]))], 0
        hm = q["hm"]
        names = [k for k, v in o.items() if isinstance(v, list) and k not in ("ss", "f", "all")]
        if q["op"] == "cmx":
            o = {**o, **{k: [e[:-1] + [sorted(e[-1])] for e in o[k]] for k in names}}
        ps = [part([q["op"], s, hm, q.get("o"), q.get("n")], {k: rows_at(o[k], [s], 1) for k in names}) for s in q["ss"]]
        left = sum(1 for k in names for e in o[k] if e[0] not in q["ss"])
        return ps, left


def typename(n, t):
    try:
        return str(pa.schema([(n, t)]).field(0).type)
    except Exception:
        return str(t)


def info_part(ev, o):
    i = ev.info
    o["rows"] = i.number_of_rows
    o["fields"] = [[n, typename(n, t)] for n, t in (i.metadata_fields or [])]
    return part(["info"], o)


class Det(Task):
    once = 1
    fam = detfam
    kinds = ["meta", "meta", "gmeta", "pmeta", "shape"]

    def whole(self, k, sc):
        return k == "shape" and sc["rep"] == "mask"

    def data(self, rng, nd, prop):
        kind, rep = rng.choice([("box", "box")] * 3 + [("cells", "mask"), ("cells", "poly")])
        self.kind, self.rep = kind, rep
        nl = self.late(rng, rng.choice([1, 2, 3]), nd)
        self.U = score_unit(rng)
        for _ in range(100):
            ds = detfam.scene(rng, prop, nd, rep, kind, nl, rank="strict", U=self.U)
            if len(ds) == nd:
                return ds
        raise RuntimeError("no scene")

    def obj(self, d, nm, sc):
        return detfam.detection(d, sc, nm)

    def permute(self, d, rng):
        g, p = list(d["gts"]), [dict(x, ls=rng.sample(x["ls"], len(x["ls"]))) for x in d["pds"]]
        rng.shuffle(g)
        rng.shuffle(p)
        return {**d, "gts": g, "pds": p}

    def bad(self, k, i, nm, sc):
        A = lambda *a: detfam.annotation(sc["rep"], sc["kind"], *a, [1, 0, 0])
        g = [0, 2, 0, 2] if sc["kind"] == "box" else [0, 1, 2, 3]
        r = random.Random("%s-%s" % (i, sc["seed"]))
        wrong = r.choice(misfits(nm))
        if k == "shape":
            if sc["rep"] == "mask":
                import numpy as np
                m = lambda n: np.ones((n, 2), dtype=np.bool_)
                return detfam.Detection(uid="bad%d" % i, groundtruths=[detfam.Bitmask(uid="bg", mask=m(2), labels=["badgt%d" % i])],
                                        predictions=[detfam.Bitmask(uid="bp", mask=m(3), labels=["badpd%d" % i], scores=[.5])])
            k = "meta"
        ng, np_ = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2, 4])
        at = r.randrange({"gmeta": ng, "pmeta": np_}.get(k, 1))          # one of several annotations does not fit
        gt = [A(g, "bg%d" % j, ["badgt%d" % i], None, {"gmeta": wrong if j == at else nm.meta(1)} if k == "gmeta" else None) for j in range(ng)]
        pd = [A(g, "bp%d" % j, ["badpd%d" % i], [.5], {"pmeta": wrong if j == at else nm.meta(1)} if k == "pmeta" else None) for j in range(np_)]
        return detfam.Detection(uid="bad%d" % i, groundtruths=gt, predictions=pd, metadata={"meta": wrong} if k == "meta" else None)

    def add(self, ld, objs, sc):
        detfam.add(ld, sc["rep"], objs)

    def fin(self, ld, fbs):
        return ld.finalize(batch_size=fbs)

    def queries(self, rng, ds, n):
        q = detfam.qs(rng, ds, self.rep, self.kind, ["prap", "prap", "cm", "cmx", "ex", "expage"], n - 1, filtered=0, U=self.U)
        return q + [dict(op="info", f=[])]

    def filters(self, rng, ds):
        nl = 1 + max([0] + [g["l"] for d in ds for g in d["gts"]] + [x["l"] for d in ds for p in d["pds"] for x in p["ls"]])
        return [detfam.gen_filter(rng, ds, nl, self.U) for _ in range(3)]

    def observe(self, ev, q, nm):
        es = detfam.query(ev, q, nm)
        if q["op"] == "info":
            o = es[0][1]
            return [info_part(ev, {k: o[k] for k in ("labels", "datums", "gts", "pds")})], 0
        ts, ss = [list(t) for t in q["ts"]], q["ss"]
        ps, left = [], 0
        for name, o in es:
            if name == "ap":
                sx = lambda lst: sorted(lst, key=lambda e: J(e["k"]))
                for n in ("ap", "curve"):
                    for i, t in enumerate(ts):
                        e = sx([x for x in o[n] if x["k"][0] == i + 1])
                        num = [x["v"] for x in e] if n == "ap" else [v for x in e for v in x["v"]]
                        ps.append(part([n, t], [[x["k"][1], x.get("s")] for x in e], num))
                    left += sum(1 for x in o[n] if x["k"][0] < 1)
                for i, t in enumerate(ts):
                    e = [x for x in o["map"] if x["k"][0] == i + 1]
                    ps.append(part(["map", t], len(e), [x["v"] for x in e]))
                for n in ("ar", "mar"):
                    for s in ss:
                        e = sx([x for x in o[n] if x["k"][0] == s])
                        ps.append(part([n, s, sorted(ts)], [x["k"][1:] for x in e], [x["v"] for x in e]))
                    left += sum(1 for x in o[n] if x["k"][0] not in ss)
                for n in ("apo", "mapo", "aro", "maro"):
                    e = sx(o[n])
                    ps.append(part([n, sorted(ts), sorted(ss) if "r" in n else 0], [x["k"] for x in e], [x["v"] for x in e]))
                continue
            names = [k for k, v in o.items() if isinstance(v, list) and k not in ("ss", "ts", "f", "all")]
            if name == "cmx":
                o = {**o, **{k: [[*x["k"], x["n"], sorted(x["x"])] for x in o[k]] for k in names}}
            for i, t in enumerate(ts):
                for s in ss:
                    ps.append(part([name, t, s, q.get("o"), q.get("n")], {k: rows_at(o[k], [i + 1, s], 2) for k in names}))
            left += sum(1 for k in names for e in o[k] if e[0] < 1 or e[1] not in ss)
        return ps, left


class Seg(Task):
    once = 0
    fam = segfam
    kinds = ["meta", "meta", "gmeta", "pmeta"]

    def data(self, rng, nd, prop):
        nl = self.late(rng, rng.choice([1, 2, 3]), nd)
        ds = segfam.gen_data(rng, nd, nl)
        if prop in ("C22", "C15"):              # disjoint masks
            for i, d in enumerate(ds):
                n, k = d["sh"][0] * d["sh"][1], nl if isinstance(nl, int) else nl[i]
                d["gts"], d["pds"] = segfam.gen_masks(rng, n, k, "tile"), segfam.gen_masks(rng, n, k, "tile")
            ds[0]["gts"] = ds[0]["gts"] or [dict(l=0, m=0, px=[1])]
        return ds

    def obj(self, d, nm, sc):
        return segfam.segmentation(d, nm)

    def permute(self, d, rng):
        return {**d, "gts": rng.sample(d["gts"], len(d["gts"])), "pds": rng.sample(d["pds"], len(d["pds"]))}

    def bad(self, k, i, nm, sc):
        import numpy as np
        r = random.Random("%s-%s" % (i, sc["seed"]))
        wrong, n = r.choice(misfits(nm)), r.choice([1, 1, 2, 3])
        at, perm = r.randrange(n), r.sample(range(4), 4)                 # one of several masks does not fit
        m = lambda f, l: [segfam.Bitmask(mask=np.array([perm[x] % n == j for x in range(4)]).reshape(2, 2), label=l if j == at else nm.label(0),
                                         metadata={f: wrong if j == at else nm.meta(1)} if k == f else None) for j in range(n)]
        return segfam.Segmentation(uid="bad%d" % i, groundtruths=m("gmeta", "badgt%d" % i), predictions=m("pmeta", "badpd%d" % i), shape=(2, 2),
                                   metadata={"meta": wrong} if k == "meta" else None)

    def add(self, ld, objs, sc):
        ld.add_data(objs)

    def fin(self, ld, fbs):
        return ld.finalize()

    def queries(self, rng, ds, n):
        return [dict(op="pr", f=[]) if i % 3 else dict(op="info", f=[], g=[], q=[]) for i in range(n)]

    def filters(self, rng, ds):
        nl = 1 + max([0] + [x["l"] for d in ds for x in d["gts"] + d["pds"]])
        return [segfam.gen_filter(rng, ds, nl) for _ in range(3)]

    def observe(self, ev, q, nm):
        o = segfam.query(ev, q, nm)
        if q["op"] == "info":
            return [info_part(ev, {k: o[k] for k in ("labels", "datums", "pixels", "gts", "pds")})], 0
        return [part(["pr"], {k: sorted(J(x) for x in v) for k, v in o.items() if k not in ("f", "miou")}, o["miou"])], 0


TASKS = {"clf": Clf, "det": Det, "seg": Seg}


def outcome(err):
    return ("empty" if isinstance(err, EmptyCacheError) else "notdir" if isinstance(err, NotADirectoryError)
            else "missing" if isinstance(err, FileNotFoundError) else "exists" if isinstance(err, FileExistsError)
            else "nopath" if isinstance(err, ValueError) else "raises")


class Session:
    def __init__(self, sc, tmp):
        self.sc, self.tmp, self.r = sc, tmp, Rec(sc["p"])
        self.t = TASKS[sc["task"]]()
        self.rng = random.Random(sc["seed"])
        self.places, self.here = place(sc["seed"], NP + 1)
        self.shared, self.objs = sc["p"] != "C22" and sc["seed"] % 2, {}
        self.lds, self.evs = [], []            # loaders: dict(ld, nm, path, st); evaluators: dict(ev, nm, path)
        self.status = {p: "free" for p in range(1, NP + 1)}
        self.origin = {}                        # path -> paths it was copied from
        self.labels = {}                        # label map of the evaluator saved at a path
        self.nbad = 0
        self.foreign = {}                       # path -> files of somebody else found there at first
        self.last = self.snap()
        void = [i + 1 for i, d in enumerate(sc["ds"]) if sc["task"] == "det" and not d["gts"] and not d["pds"]]
        self.r.ev("start", p=sc["p"], void=void, once=self.t.once, np=NP)

    def path(self, p):
        return self.places[p] if self.here else os.path.join(self.tmp, self.places[p])

    def snap(self):
        return {p: (files_of(self.path(p)) if os.path.isdir(self.path(p)) else os.path.exists(self.path(p))) for p in range(1, NP + 1)}

    def did(self, e, r, **kw):
        now = self.snap()
        dirty = [p for p in now if now[p] != self.last[p]]
        self.last = now
        lost = [p for p, fs in self.foreign.items() if any(n not in now[p] or now[p][n] != fs[n] for n in fs)]
        self.r.ev(e, p=self.sc["p"], r=r, dirty=dirty, lost=lost, **kw)

    def attempt(self, f, hide=(), away=False):
        """Runs f; the directories that its data was copied from are out of sight meanwhile.
        Calls that do not name a location may come while the working directory is another one."""
        out, wd = [], os.path.join(self.tmp, "elsewhere")
        try:
            for p in hide:
                os.rename(self.path(p), self.path(p) + ".away")
                out.append(p)
            if away and self.here and self.rng.random() < .6:
                os.makedirs(wd, exist_ok=True)
                with standing(wd):
                    x = f()
                if os.listdir(wd):
                    self.r.exc("files at a location never given", RuntimeError(os.listdir(wd)[0]))
                return x, "ok"
            return f(), "ok"
        except TimeoutError:
            raise
        except Exception as err:
            self.err = "%s: %s" % (type(err).__name__, str(err)[:200])
            return None, outcome(err)
        finally:
            for p in out:
                if os.path.exists(self.path(p)):     # something was written where nothing was given to write
                    shutil.rmtree(self.path(p), ignore_errors=True)
                    self.r.exc("a copy refers to its original", RuntimeError())
                os.rename(self.path(p) + ".away", self.path(p))

    def saved(self, p, ev):
        if p:
            self.status[p] = "final"
            # the mapping is not public; it is found by its type, whatever it is called
            self.labels[p] = next((v for v in vars(ev).values() if isinstance(v, dict) and v and all(type(a) is int and isinstance(b, str) for a, b in v.items())), None)

    # ------------------------------------------------------------ operations
    def new(self, p, bad=0):
        st = self.sc["sts"][len(self.lds) % len(self.sc["sts"])]
        st = dict(st, kind="mem" if p == 0 else "file")
        fields = Names(mt=self.sc.get("mt", 0)).fields(self.t.fam.FIELDS) + ([(n, t()) for n, t in random.Random(self.sc["seed"]).sample(EXTRA, 6)] if self.sc.get("extra") else [])
        fine = int(not bad)
        if bad:
            u = ([x for x in UNUSABLE if x[0] != "pd_score" or self.sc["task"] != "seg"] + [("iou_prev", pa.float64())] * (4 if self.sc["task"] == "det" else 0))
            u = u[(bad + self.sc["seed"]) % len(u)]
            fields = list(fields)
            fields.insert(self.rng.randrange(len(fields) + 1), u)
        x, r = self.attempt(lambda: self.t.fam.loader(st, self.path(p) if p else None, fields))
        if r == "ok":
            k = len(self.lds)
            nm = Names(*self.sc["names"][k % len(self.sc["names"])], U=self.sc.get("U", 1000), mt=self.sc.get("mt", 0))
            self.lds.append(dict(ld=x, nm=nm, path=p, ids=[], open=True))
            if p:
                self.status[p] = "open"
        if bad and u[0] == "iou_prev":          # a name that is only used internally may be taken or free
            fine = int(r == "ok")
        self.did("new", r, path=p, fine=fine)

    def add(self, h, ids, bad, kind):
        L = self.lds[h - 1]
        objs = []
        for i in ids:
            d = self.sc["ds"][i - 1]
            if self.sc["p"] == "C22":
                d = self.t.permute(d, self.rng)
            o = self.t.obj(d, L["nm"], self.sc)
            objs.append(self.objs.setdefault(i, o) if self.shared else o)    # one object may be given to several loaders
        if bad:
            self.nbad += 1
            if self.t.whole(self.t.kinds[kind % len(self.t.kinds)], self.sc):     # this kind of datum is refused before the others of its call are looked at
                bad = 1
            objs.insert(bad - 1, self.t.bad(self.t.kinds[kind % len(self.t.kinds)], self.nbad, L["nm"], self.sc))
        _, r = self.attempt(lambda: self.t.add(L["ld"], objs, self.sc), away=True)
        if not self.shared:
            wreck(objs)
        L["ids"] += ids if not bad else ids[:bad - 1]
        self.did("add", r, h=h, ids=ids, bad=bad)

    def late(self, h, ids):
        L = self.lds[h - 1]
        objs = [self.t.obj(self.sc["ds"][i - 1], L["nm"], self.sc) for i in ids]
        _, r = self.attempt(lambda: self.t.add(L["ld"], objs, self.sc))
        self.did("late", r, h=h)

    def fin(self, h):
        L = self.lds[h - 1]
        x, r = self.attempt(lambda: self.t.fin(L["ld"], self.sc["fbs"][h % len(self.sc["fbs"])]), away=True)
        if r == "ok":
            L["open"] = False
            self.evs.append(dict(ev=x, nm=L["nm"], path=L["path"]))
            self.saved(L["path"], x)
        self.did("fin", r, h=h)

    def load(self, p):
        if self.status[p] == "open":
            return
        ls = list((self.labels.get(p) or {}).items())
        k = len(self.evs) % 3                    # a label map in any order
        ls = ls[::-1] if k == 1 else ls[1:] + ls[:1] if k == 2 else ls
        kw = {"index_to_label_override": dict(ls)} if self.status[p] == "filtered" and self.labels.get(p) else {}
        if self.status[p] == "filtered" and not kw:
            return
        x, r = self.attempt(lambda: self.t.fam.Evaluator.load(self.path(p), **kw), self.origin.get(p, ()))
        if r == "ok":
            self.evs.append(dict(ev=x, nm=self.nm_of[p], path=p))
        self.did("load", r, path=p)

    def copy(self, p, q, less=0):
        if self.status[p] not in ("final", "filtered") or self.status[q] != "free":
            return
        shutil.copytree(self.path(p), self.path(q))
        if less:                                 # a part gets lost
            lose = sorted(os.path.join(d, f) for d, _, fs in os.walk(self.path(q)) for f in fs if f == "metadata.json" or f == ".cfg" and os.path.basename(d) != "intermediate")
            lose += sorted({os.path.dirname(f) for f in lose if f.endswith(".cfg")})
            x = lose[less % len(lose)]
            os.unlink(x) if os.path.isfile(x) else shutil.rmtree(x)
        self.origin[q] = [p] + self.origin.get(p, [])
        self.status[q], self.labels[q], self.nm_of[q] = self.status[p], self.labels.get(p), self.nm_of[p]
        if less:
            self.status[q] = "broken"
        self.did("copy", "ok", path=p, to=q, whole=int(not less))

    def filter(self, e, f, p):
        E = self.evs[e - 1]
        x, r = self.attempt(lambda: self.t.fam.apply_filter(E["ev"], f, E["nm"], self.path(p) if p else None), [] if p in self.origin.get(E["path"], ()) else self.origin.get(E["path"], ()))
        tgt = p if E["path"] else 0
        if tgt and self.status[tgt] in ("free", "foreign"):
            self.origin[tgt] = self.origin.get(E["path"], [])
        if r in ("ok", "empty") and tgt and self.status[tgt] in ("free", "foreign"):
            self.status[tgt] = "open"
        if r == "ok":
            self.evs.append(dict(ev=x, nm=E["nm"], path=tgt))
            self.saved(tgt, x)
            if tgt:
                self.status[tgt], self.nm_of[tgt] = "filtered", E["nm"]
        self.did("filter", r, h=e, f=f, path=p)

    def obs(self, e, q, f):
        E = self.evs[e - 1]
        if f and "f" not in q:
            f = []
        q = {**q, "f": f} if "f" in q else q
        x, r = self.attempt(lambda: self.t.observe(E["ev"], q, E["nm"]), self.origin.get(E["path"], ()), away=True)
        if self.sc["p"] == "C17" and any(a != b for a, b in GIVEN):
            self.r.exc("query %s changed a list of the caller" % q["op"], RuntimeError())
        GIVEN.clear()
        if r != "ok":
            self.r.exc("query %s: %s" % (q["op"], self.err), RuntimeError())
            return
        parts, left = x
        drop = {"C22": ["rows"], "C15": ["rows"], "C21": []}.get(self.sc["p"], [])
        for pt in parts:
            if pt["key"] == '["info"]':
                d = json.loads(pt["txt"])
                for k in drop + (["rows"] if f or "f" in q and q["f"] else []):
                    d.pop(k, None)
                pt["txt"] = J(d)
                pt["key"] = J(["info", len(f)])
        self.did("obs", r, h=e, f=f, parts=parts, left=left)

    def badq(self, e, q, k):
        """A question without thresholds."""
        E = self.evs[e - 1]
        lists = [n for n in ("ss", "ts") if n in q]
        if not lists:
            return
        drop = lists if k % 3 == 0 else [lists[k % len(lists)]]
        _, r = self.attempt(lambda: self.t.observe(E["ev"], {**q, **{n: [] for n in drop}}, E["nm"]), self.origin.get(E["path"], ()))
        self.did("badq", r, h=e)

    def plain(self, p, k=0):
        if self.status[p] != "free":
            return
        if not k:
            os.makedirs(os.path.dirname(self.path(p)) or ".", exist_ok=True)
            open(self.path(p), "w").write("precious")
        elif k % 3:                              # notes, settings, a table
            os.makedirs(self.path(p))
            for n in [["notes.txt"], ["metadata.json", "notes.txt"], ["metadata.json"], ["0.parquet"], [".cfg"], ["config.json"]][(k + self.sc["seed"]) % 6]:
                open(os.path.join(self.path(p), n), "w").write('{"precious": "string"}')
        else:                                    # an evaluator of another task
            others = [x for x in TASKS if x != self.sc["task"]]
            x = others[(k + self.sc["seed"]) % len(others)]
            rng, t = random.Random(0), TASKS[x]()
            ds = t.data(rng, 2, "C14")
            ld = t.fam.loader(dict(filecfg(rng), kind="file"), self.path(p), t.fam.FIELDS)
            sc = dict(self.sc, task=x, kind=getattr(t, "kind", 0), rep=getattr(t, "rep", 0))
            t.add(ld, [t.obj(d, Names(0, 0, U=t.U), sc) for d in ds], sc)
            t.fin(ld, 100)
        if k:
            self.foreign[p] = files_of(self.path(p))
        self.status[p] = "foreign" if k else "file"
        self.did("plain", "ok", path=p, dir=k)

    def run(self):
        self.nm_of = {}
        S, sc = self, self.sc
        for o in sc["ops"]:
            k, a, b, c = o["op"], o["a"], o["b"], o["c"]
            if k == "new":
                S.new(a, b)
                if S.lds and S.lds[-1]["path"] == a and a and S.lds[-1]["open"] and a not in S.nm_of:
                    S.nm_of[a] = S.lds[-1]["nm"]
            elif k == "add" and S.lds:
                h = 1 + (a - 1) % len(S.lds)
                if S.lds[h - 1]["open"]:
                    ids = [i for i in o["ids"] if i not in S.lds[h - 1]["ids"]]
                    S.add(h, ids, min(b, len(ids) + 1), c)
            elif k == "late" and S.lds:
                h = 1 + (a - 1) % len(S.lds)
                if not S.lds[h - 1]["open"] and S.t.once:
                    S.late(h, o["ids"])
            elif k == "fin" and S.lds:
                S.fin(1 + (a - 1) % len(S.lds))
            elif k == "load":
                S.load(a)
            elif k == "copy":
                S.copy(a, b, c)
            elif k == "badq" and S.evs:
                qs = sc["queries"]
                for i, q in enumerate({q["op"]: q for q in qs[b % len(qs):] + qs[:b % len(qs)]}.values()):     # one of each kind
                    S.badq(1 + (a - 1) % len(S.evs), q, c + i)
            elif k == "plain":
                S.plain(a, b)
            elif k == "filter" and S.evs:
                S.filter(1 + (a - 1) % len(S.evs), sc["filters"][b - 1], c)
            elif k == "obs" and S.evs:
                S.obs(1 + (a - 1) % len(S.evs), sc["queries"][(b - 1) % len(sc["queries"])], sc["dfs"][c - 1] if c else [])
        # completion: all loaders get all data and are finalized; every evaluator answers the battery
        if sc["complete"]:
            for h, L in enumerate(S.lds):
                if L["open"]:
                    rest = [i + 1 for i in range(len(sc["ds"])) if i + 1 not in L["ids"]]
                    if sc["p"] == "C22":
                        S.rng.shuffle(rest)
                    while rest:
                        k = S.rng.randrange(1, len(rest) + 1)
                        S.add(h + 1, rest[:k], 0, 0)
                        rest = rest[k:]
                    S.fin(h + 1)
        if sc["p"] == "C16":                     # what was saved is opened again, and what was opened is filtered
            for p in [p for p in S.status if S.status[p] in ("final", "filtered")][:2]:
                n = len(S.evs)
                S.load(p)
                free = [q for q in S.status if S.status[q] == "free"]
                if len(free) > 1 and S.rng.random() < .6:
                    S.copy(p, free[0])
                    S.load(free[0])
                free = [q for q in S.status if S.status[q] == "free"]
                if len(S.evs) > n and free:
                    S.filter(len(S.evs), sc["filters"][0], free[0])
                    S.filter(1 + S.rng.randrange(n), sc["filters"][0], free[0])
        df = lambda: S.rng.choice(sc["dfs"]) if sc["p"] in ("C17", "C15", "C16") and S.rng.random() < .4 else []
        order = [(e, q, df()) for e in S.rng.sample(range(1, len(S.evs) + 1), min(7, len(S.evs))) for q in sc["battery"]]
        S.rng.shuffle(order)
        for e, q, f in order:
            S.obs(e, q, f)
        if sc["p"] == "C17" and order:           # an evaluator that was never asked anything else answers the same
            again = [q for q in sc["battery"] if q["op"] == "info"][:1] + [q for q in sc["queries"] if q["op"] == "pr"][:1] + S.rng.sample(sc["battery"], 2)
            e = order[0][0]                      # the same questions under changing conditions, then of an evaluator of their own
            mixed = [(e, q, f) for q in again[:3] for f in sc["dfs"] + [[]]]
            S.rng.shuffle(mixed)
            for e, q, f in mixed:
                S.obs(e, q, f)
            for e, q, f in S.rng.sample(order, min(3, len(order))) + S.rng.sample(mixed, 5):
                n = len(S.lds) + 1
                S.new(0)
                S.add(n, list(range(1, len(sc["ds"]) + 1)), 0, 0)
                S.fin(n)
                S.obs(len(S.evs), q, f)
        return S.r.events


def run(sc):
    with scratch() as tmp, standing(tmp):
        s = Session(sc, tmp)
        try:
            return s.run()
        except TimeoutError:
            raise
        except Exception as err:
            s.r.exc("session", err)
            return s.r.events


# ---------------------------------------------------------------- scenarios
def split(rng, q):
    """The same question asked with other threshold lists."""
    out = [q]
    for k in ("ss", "ts"):
        if k in q and len(q[k]) > 1:
            i = rng.randrange(len(q[k]))
            out += [{**q, k: [q[k][i]]}, {**q, k: q[k][::-1]}, {**q, k: rng.sample(q[k], rng.randrange(1, len(q[k]) + 1))}]
    return out


def scenarios(prop, seed, tier, beh):
    rng = random.Random("rel-%s-%s" % (prop, seed))
    out = []
    for i, ops in enumerate(beh):
        task = ["clf", "det", "seg"][i % 3]
        t = TASKS[task]()
        nd = {"C03": 4, "C16": 5, "C17": 5, "C21": 5}.get(prop, 6)
        ds = t.data(rng, nd, prop)
        nq = 8
        qs = t.queries(rng, ds, nq)
        if prop in ("C22", "C15", "C21"):        # positions in the listing depend on the order of arrival
            qs = [q for q in qs if q["op"] != "expage"]
        if prop == "C17":
            qs = [x for q in qs for x in split(rng, q)]
            rng.shuffle(qs)
        sts = [filecfg(rng) for _ in range(3)] if prop in ("C14", "C21", "C03") else [filecfg(rng)]
        names = [[rng.choice([0, 1, 2]), rng.randrange(1000)] for _ in range(3)] if prop == "C22" else [[rng.choice([0, 0, 1, 2]), 0]]
        battery = {"C03": qs[:2], "C17": qs[:10]}.get(prop, qs[:6] + qs[-2:])
        filters = t.filters(rng, ds)
        dfs = [f["d"] or clffam.datum_atoms(rng, ds) for f in filters]
        if prop == "C17" and i % 2:              # long conditions that differ in their middle
            us = [d["u"] for d in ds]
            dfs[:2] = [[atom("u", s=rng.sample(us, k) + [3 * max(us) + x for x in (3, 4, 5)], neg=0)] for k in (2, 3)]
            for f in dfs[:2]:
                f[0]["set"] = f[0]["set"][:-3] + [next(x for x in f[0]["set"][-3:] if (sum(f[0]["set"][:-3]) + x) % 3)]
        if prop == "C15":                        # one filter on datums only, also used as a condition of queries
            filters[0] = dict(d=dfs[0], g=[], p=[])
        sc = dict(p=prop, task=task, U=t.U, ds=ds, ops=ops, queries=qs, filters=filters, dfs=dfs, sts=sts, names=names,
                  fbs=[finbs(rng) for _ in range(3)] if prop == "C14" else [1000], battery=battery, complete=int(prop != "C03"), seed=rng.randrange(1 << 30),
                  extra=int(prop in ("C16", "C15") and i % 2), mt=metakind(rng))
        if task == "det":
            sc.update(kind=t.kind, rep=t.rep)
        out.append(sc)
    return out
