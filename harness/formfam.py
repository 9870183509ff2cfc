"""The form of results (C26): metrics of all four tasks as plain data, before and after JSON."""
import json, math, os, random
from common import *
import clffam, detfam, segfam
from valor_lite.exceptions import EmptyCacheError


def node(t, v="", z=0, k=(), xs=()):
    return dict(t=t, v=v, z=z, k=list(k), xs=list(xs))


def pr(s):
    """Texts are printed in ASCII, without the quotes."""
    return json.dumps(str.__str__(s))[1:-1]


def z(x):
    return -1 if x < -1e-12 else 1 if x > 1 + 1e-12 else 0


def enc(x):
    """The tree of a value; anything that is not plain data is "x"."""
    if isinstance(x, bool):
        return node("b", str(int(x)))
    if isinstance(x, str):
        return node("s", pr(x))
    if isinstance(x, int):
        return node("i", str(int(x)), z(x))
    if isinstance(x, float):
        return node("f", float.hex(float(x)), z(x)) if math.isfinite(x) else node("x", repr(x))
    if isinstance(x, (list, tuple)):
        return node("l", xs=[enc(y) for y in x])
    if isinstance(x, dict):
        if not all(isinstance(k, str) for k in x):
            return node("x", "keys")
        ks = sorted(x, key=lambda k: (k != "datum_id", k))
        return node("d", k=[pr(k) for k in ks], xs=[enc(x[k]) for k in ks])
    return node("x", type(x).__name__)


def metric(m, under):
    v, p = enc(m.value), enc(m.parameters)
    try:
        d = json.loads(json.dumps(m.to_dict(), allow_nan=False))
        j = [enc(d["value"]), enc(d["parameters"])] if set(d) == {"type", "value", "parameters"} and d["type"] == str(getattr(m.type, "value", m.type)) else []
    except Exception as err:
        j = [node("x", "%s: %s" % (type(err).__name__, str(err)[:80]))]
    return dict(type=str(getattr(m.type, "value", m.type)), value=v, params=p, json=j, under=under)


def flat(res):
    if isinstance(res, dict):
        return [metric(m, str(getattr(k, "value", k))) for k, ms in res.items() for m in ms]
    return [metric(m, "") for m in (res if isinstance(res, list) else [res])]


DOM = dict(ss=[], ts=[], hm=[], model=[], retries=[], weights=[], types=[], stem=[])


def res(r, sc, task, q, full, labels, got, **dom):
    r.ev("res", p=sc["p"], task=task, q=q, full=full, labels=labels, dom={**DOM, **{k: [enc(x) for x in v] for k, v in dom.items()}}, ms=flat(got))


def run_clf(sc, r, tmp):
    nm = Names(sc["names"], sc["nseed"], sc["U"])
    ev = clffam.build(sc["ds"], sc["st"], sc["chk"], sc["fbs"], nm, os.path.join(tmp, "c0"))
    labels = [pr(x) for x in nm.l]
    res(r, sc, "clf", "info", 1, labels, Info(ev.info))
    for i, q in enumerate(sc["steps"]):
        if q["op"] == "filter":
            try:
                ev = clffam.apply_filter(ev, q["f"], nm, os.path.join(tmp, "c%d" % (i + 1)))
            except EmptyCacheError:
                pass
        elif q["op"] == "roc":
            res(r, sc, "clf", "roc", 1, labels, ev.compute_rocauc())
        else:
            ss = [s / nm.U for s in q["ss"]]
            f = {"pr": ev.compute_precision_recall, "cm": ev.compute_confusion_matrix, "cmx": ev.compute_confusion_matrix_with_examples, "ex": ev.compute_examples}[q["op"]]
            kw = {} if q["hm"] and q["nohm"] else dict(hardmax=bool(q["hm"]))
            res(r, sc, "clf", q["op"], int(q["op"] != "ex"), labels, f(score_thresholds=ss, datums=clffam.dexpr(q["f"], nm), **kw), ss=ss, hm=[bool(q["hm"])])


def run_det(sc, r, tmp):
    nm = Names(sc["names"], sc["nseed"], sc["U"])
    ev = detfam.build(sc, nm, os.path.join(tmp, "d0"))
    labels = [pr(x) for x in nm.l]
    res(r, sc, "det", "info", 1, labels, Info(ev.info))
    for i, q in enumerate(sc["steps"]):
        if q["op"] == "filter":
            try:
                ev = detfam.apply_filter(ev, q["f"], nm, os.path.join(tmp, "d%d" % (i + 1)))
            except EmptyCacheError:
                pass
            continue
        ss, ts = [s / nm.U for s in q["ss"]], [n / d for n, d in q["ts"]]
        f = {"pr": ev.compute_precision_recall, "cm": ev.compute_confusion_matrix, "cmx": ev.compute_confusion_matrix_with_examples, "ex": ev.compute_examples}[q["op"]]
        res(r, sc, "det", q["op"], int(q["op"] != "ex"), labels, f(score_thresholds=ss, iou_thresholds=ts, datums=detfam.dexpr(q["f"], nm)), ss=ss, ts=ts)


def run_seg(sc, r, tmp):
    nm = Names(sc["names"], sc["nseed"])
    nm.blk = sc["blk"]
    ev = segfam.build(sc, nm, os.path.join(tmp, "s0"))
    labels = [pr(x) for x in nm.l]
    res(r, sc, "seg", "info", 1, labels, Info(ev.info))
    for i, q in enumerate(sc["steps"]):
        if q["op"] == "filter":
            try:
                ev = segfam.apply_filter(ev, q["f"], nm, os.path.join(tmp, "s%d" % (i + 1)))
            except EmptyCacheError:
                pass
        else:
            res(r, sc, "seg", "pr", 1, labels, ev.compute_precision_recall_iou(datums=segfam.dexpr(q["f"], nm)))


def run_text(sc, r, tmp):
    import textfam
    from overfam import stub_evaluate
    from valor_lite.text_generation import Context, Evaluator, QueryResponse
    stub_evaluate()
    rng = random.Random(sc["seed"])
    words = lambda: " ".join(rng.choice(["run", "runs", "jump", "Walk", "paint", "cooks", "Ünï"]) for _ in range(rng.randrange(0, 7)))
    qr = QueryResponse(query="[[q]] " + words(), response="[[r]] " + words(),
                       context=Context(groundtruth=["[[g%d]] %s" % (i + 1, words()) for i in range(rng.randrange(1, 4))], prediction=["[[p%d]] %s" % (i + 1, words()) for i in range(rng.randrange(1, 4))]))
    n = rng.choice([0, 1, 3])
    c = textfam.Oracle(rng.randrange(1 << 30), rng.choice([0, 0, .3]))
    c.model_name = rng.choice(["model-x", "gpt \"4\"", "m/1.0"])
    ev = Evaluator(client=c, retries=n)
    kw = dict(model=[c.model_name], retries=[n])
    w, ts, stem = rng.choice([[1.0], [.5, .5], [.25] * 4, [0.0, 1.0], [.2] * 5]), rng.choice([["rouge1"], ["rougeL", "rouge2"], ["rouge1", "rouge2", "rougeL", "rougeLsum"]]), rng.random() < .5
    for m in sorted(textfam.CALL):
        res(r, sc, "text", textfam.TYPE[m], 0, [], getattr(ev, textfam.CALL[m])(qr), **kw)
    res(r, sc, "text", "BLEU", 1, [], ev.compute_sentence_bleu(qr, weights=w), weights=w)
    res(r, sc, "text", "ROUGE", 1, [], ev.compute_rouge(qr, rouge_types=ts, use_stemmer=stem), types=ts, stem=[stem])
    for k, ms in ev.compute_all(qr, bleu_weights=w, rouge_types=ts, rouge_use_stemmer=stem).items():
        k = str(getattr(k, "value", k))
        res(r, sc, "text", k, 0, [], ms, weights=w, types=ts, stem=[stem], **kw)


class Info:
    """Dataset numbers, in the shape of a metric."""
    type, parameters = "Info", {}

    def __init__(self, i):
        self.value = {k: v for k, v in vars(i).items() if k.startswith("number_of_")}

    def to_dict(self):
        return dict(type=self.type, value=self.value, parameters={})


def make(sc, r):
    """Metrics made by hand, of fitting and of unfitting parts."""
    import importlib
    M = importlib.import_module("valor_lite." + {"clf": "classification", "det": "object_detection", "seg": "semantic_segmentation", "text": "text_generation"}[sc["task"]] + ".metric")
    rng = random.Random(sc["seed"] + 1)
    some = lambda good, bad: rng.choice(good if rng.random() < .7 else bad)
    for _ in range(4):
        ty = some([x.value for x in M.MetricType] + list(M.MetricType) + ["other", ""], [None, 5, b"F1", ["F1"], 1.5, {"F1": 1}])
        v = some([0, 1, .25, -3.5, True, {}, {"tp": 1, "fp": {"a": [1, 2.5, "x"]}}], [None, "0.5", [.5], (1,), b"x", {1}])
        ps = some([{}, {"label": "a"}, {"x": [1, 2], "y": {"z": None}}], [None, [], "label", {1: "a"}, {"a": 1, None: 2}, {("a",): 1}, {"a", "b"}])
        try:
            m = M.Metric(type=ty, value=v, parameters=ps)
            o, got = "ok", [enc(str(getattr(m.type, "value", m.type))), enc(m.value), enc(m.parameters)]
        except (TypeError, ValueError):
            o, got = "refused", []
        r.ev("make", p=sc["p"], task=sc["task"], r=o, got=got, ty=enc(str(getattr(ty, "value", ty)) if isinstance(ty, str) else ty), v=enc(v), ps=enc(ps))


def run(sc):
    r = Rec(sc["p"])
    with scratch() as tmp:
        try:
            {"clf": run_clf, "det": run_det, "seg": run_seg, "text": run_text}[sc["task"]](sc, r, tmp)
            make(sc, r)
        except TimeoutError:
            raise
        except Exception as err:
            r.exc("session", err)
    return r.events


def scenarios(prop, seed, tier, beh):
    rng = random.Random("form-%s-%s" % (prop, seed))
    out = []
    for i in range(420 if tier == "quick" else 5000):
        task = ["clf", "det", "seg", "clf", "det", "text"][i % 6]
        sc = dict(p=prop, task=task, names=rng.choice([0, 1, 2]), nseed=i, st=storage(rng), fbs=finbs(rng), seed=rng.randrange(1 << 30), blk=rng.choice([[1, 1], [1, 1], [1, 1], [17, 3]]), U=1000)
        if task == "clf":
            sc["U"] = score_unit(rng)
            nl, nd = rng.choice([1, 2, 3]), rng.choice([1, 2, 3, 5])
            if i % 60 == 3:
                nd = 280
            full = rng.random() < .5
            sc["ds"] = clffam.gen_data(rng, nd, nl, full=full, U=sc["U"])
            steps = clffam.qs(rng, sc["ds"], ["pr", "cm", "cmx", "ex"], 3, U=sc["U"]) + [dict(op="roc")]
            for q in steps:
                q["nohm"] = int(rng.random() < .5)
            if rng.random() < .25:
                steps.insert(0, dict(op="filter", f=dict(d=clffam.datum_atoms(rng, sc["ds"]), g=[], p=[])))
        elif task == "det":
            sc["U"] = score_unit(rng)
            kind, rep = rng.choice([("box", "box"), ("box", "mask"), ("cells", "poly")])
            nl = rng.choice([1, 2, 3])
            sc["ds"] = detfam.scene(rng, prop, rng.choice([1, 2, 3]), rep, kind, nl, U=sc["U"])
            sc.update(kind=kind, rep=rep)
            steps = detfam.qs(rng, sc["ds"], rep, kind, ["cm", "cmx", "ex"], 2, U=sc["U"])
            p = detfam.qs(rng, sc["ds"], rep, kind, ["pr"], 1, U=sc["U"])
            for q in p:
                q["ts"], q["ss"] = q["ts"][:2], q["ss"][:2]
            steps += p
            if rng.random() < .25:
                steps.insert(0, dict(op="filter", f=detfam.gen_filter(rng, sc["ds"], nl, sc["U"])))
        elif task == "seg":
            nl = rng.choice([1, 2, 3, 4])
            sc["ds"] = segfam.gen_data(rng, rng.choice([1, 2, 3, 4]), nl)
            steps = [dict(op="pr", f=segfam.datum_atoms(rng, sc["ds"]) if rng.random() < .3 else []) for _ in range(2)]
            if rng.random() < .25:
                steps.insert(0, dict(op="filter", f=segfam.gen_filter(rng, sc["ds"], nl)))
        if task != "text":
            sc.update(steps=steps, chk=chunks(rng, len(sc["ds"])))
        out.append(sc)
    return out
