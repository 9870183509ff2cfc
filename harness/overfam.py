"""Text-overlap scores (C23): BLEU and ROUGE of generated texts. The metric module that `evaluate` would download is replaced
by an adapter to the installed rouge_score package (what the downloaded module consists of)."""
import random, sys, types
from common import *

STEMS = [["run", "runs", "running"], ["jump", "jumps", "jumped"], ["walk", "walks", "walking"], ["train", "trains", "trained"], ["paint", "paints", "painted"], ["cook", "cooks", "cooked"]]
ODD = {100: "$5", 101: ",", 102: "$20", 103: "42", 104: "x_1", 105: "don", 106: "Ünï", 107: "--"}


class _Rouge:
    def compute(self, predictions, references, rouge_types=None, use_aggregator=True, use_stemmer=False, tokenizer=None):
        from rouge_score import rouge_scorer, scoring
        kinds = rouge_types or ["rouge1", "rouge2", "rougeL", "rougeLsum"]
        scorer = rouge_scorer.RougeScorer(kinds, use_stemmer)
        multi = isinstance(references[0], list)
        scores = [{k: max((scorer.score(t, p)[k] for t in (r if multi else [r])), key=lambda v: v.fmeasure) for k in kinds} for r, p in zip(references, predictions)]
        if use_aggregator:
            agg = scoring.BootstrapAggregator()
            for s in scores:
                agg.add_scores(s)
            res = agg.aggregate()
            return {k: v.mid.fmeasure for k, v in res.items()}
        return {k: [s[k].fmeasure for s in scores] for k in kinds}


def stub_evaluate():
    import evaluate
    evaluate.load = lambda name, *a, **k: _Rouge() if name == "rouge" else (_ for _ in ()).throw(FileNotFoundError(name))


def text(ws, rng, bleu):
    """Words with separators that are not part of the text."""
    out = ""
    for i, w in enumerate(ws):
        s = ODD[w["t"]] if w["t"] in ODD else STEMS[w["t"]][w["i"]]
        s = s.upper() if w["u"] else s
        glue = bleu and w["t"] == 101 and i > 0 and ws[i - 1]["t"] not in (101, 107) and rng.random() < .5
        if i and not glue:
            prev = ws[i - 1]["t"]
            seps = [" "] * 6 + ["  ", "\t", ". ", " . "] + (["\n", "...\n"] if bleu else [", ", "! ", " - "])
            if bleu and prev not in ODD and w["t"] not in ODD:
                seps.append(".")
            out += rng.choice(seps)
        out += s
    return rng.choice(["", "", " "]) + out + rng.choice(["", "", ".", " ", ".\n" if bleu else "."])


def weights(orders, n, rng):
    return [1 / len(orders) if k + 1 in orders else 0.0 for k in range(n)]


def run(sc):
    stub_evaluate()
    from valor_lite.text_generation import Context, Evaluator, QueryResponse

    r = Rec(sc["p"])
    rng = random.Random(sc["seed"])
    for q in sc["qs"]:
        bleu = q["k"] == "bleu"
        try:
            if q["k"].startswith("no"):
                x = QueryResponse(query="q", response="a b", context=None if q["k"] != "noweights" else Context(groundtruth=["a b"]))
                try:
                    {"norouge": lambda: Evaluator.compute_rouge(x), "nobleu": lambda: Evaluator.compute_sentence_bleu(x), "noweights": lambda: Evaluator.compute_sentence_bleu(x, weights=[])}[q["k"]]()
                    out = "value"
                except Exception as err:
                    out = "ValueError" if isinstance(err, ValueError) else type(err).__name__
                r.ev("refuse", p=sc["p"], what=q["k"], out=out)
                continue
            x = QueryResponse(query="q", response=text(q["c"], rng, bleu), context=Context(groundtruth=[text(t, rng, bleu) for t in q["refs"]]))
            ev = Evaluator() if rng.random() < .5 else Evaluator
            if bleu:
                w = weights(q["ord"], q["n"], rng)
                kw = {} if q["ord"] == [1, 2, 3, 4] and q["n"] == 4 and rng.random() < .5 else dict(weights=w)
                m = ev.compute_sentence_bleu(x, **kw)
                v = m.value
                ok = m.type == "BLEU" and m.parameters == dict(weights=w)
                r.ev("bleu", p=sc["p"], c=q["c"], refs=q["refs"], ord=q["ord"], v=micro(v ** len(q["ord"])), in01=int(0 <= v <= 1 + 1e-12), zero=int(v == 0), metric_ok=int(ok), txt=[x.response] + x.context.groundtruth)
            else:
                kw = dict(rouge_types=q["types"], use_stemmer=bool(q["stem"]))
                if q["types"] == ["rouge1", "rouge2", "rougeL", "rougeLsum"] and rng.random() < .5:
                    kw.pop("rouge_types")
                if not q["stem"] and rng.random() < .5:
                    kw.pop("use_stemmer")
                ms = ev.compute_rouge(x, **kw)
                ok = all(m.type == "ROUGE" and m.parameters == dict(rouge_type=m.parameters.get("rouge_type"), use_stemmer=bool(q["stem"])) for m in ms)
                r.ev("rouge", p=sc["p"], c=q["c"], refs=q["refs"], stem=q["stem"], types=q["types"], rows=[[m.parameters["rouge_type"], rat(m.value)] for m in ms], metric_ok=int(ok), txt=[x.response] + x.context.groundtruth)
        except TimeoutError:
            raise
        except Exception as err:
            r.exc(q["k"], err)
    return r.events


def word(rng, bleu, nv):
    if bleu and rng.random() < .12:
        return dict(t=rng.choice(list(ODD)), i=0, u=0)
    return dict(t=rng.randrange(nv), i=rng.choice([0, 0, 0, 1, 2]), u=int(rng.random() < .15))


def mutate(rng, s, bleu, nv):
    s = list(s)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        k = rng.choice(["del", "ins", "swap", "sub", "dup", "cut"])
        i = rng.randrange(len(s) + 1)
        if k == "ins":
            s.insert(i, word(rng, bleu, nv))
        elif s and k == "del":
            s.pop(i % len(s))
        elif s and k == "sub":
            s[i % len(s)] = word(rng, bleu, nv)
        elif len(s) > 1 and k == "swap":
            j = i % (len(s) - 1)
            s[j], s[j + 1] = s[j + 1], s[j]
        elif s and k == "dup":
            s.insert(i, s[i % len(s)])
        elif k == "cut":
            s = s[:i]
    return s[:14]


def scenarios(prop, seed, tier, beh):
    rng = random.Random("over-%s-%s" % (prop, seed))
    out = []
    for i in range(150 if tier == "quick" else 2500):
        qs = []
        for _ in range(6):
            k = rng.choice(["bleu"] * 6 + ["rouge"] * 6 + ["norouge", "nobleu", "noweights"])
            bleu = k == "bleu"
            nv = rng.choice([1, 2, 3, 6])
            base = [word(rng, bleu, nv) for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 11]))]
            if bleu and rng.random() < .25:          # an amount directly followed by a comma
                i = rng.randrange(len(base) + 1)
                base[i:i] = [dict(t=rng.choice([100, 102]), i=0, u=0), dict(t=101, i=0, u=0)]
            refs = [mutate(rng, base, bleu, nv) if rng.random() < .8 else [word(rng, bleu, nv) for _ in range(rng.randrange(0, 9))] for _ in range(rng.choice([1, 1, 2, 3, 4]))]
            q = dict(k=k, c=base if rng.random() < .3 else mutate(rng, base, bleu, nv), refs=refs)
            if bleu and rng.random() < .1:           # far too short
                q["c"] = (q["c"] or [word(rng, bleu, nv)])[:1]
                refs[:] = [(q["c"] + [word(rng, bleu, 6) for _ in range(13)])[:rng.randrange(5, 14)] for _ in refs]
            if bleu:
                n = rng.choice([1, 2, 3, 4, 4, 5])
                q.update(n=n, ord=list(range(1, n + 1)) if rng.random() < .7 else sorted(rng.sample(range(1, n + 1), rng.randrange(1, n + 1))))
            else:
                ts = ["rouge1", "rouge2", "rougeL", "rougeLsum"]
                q.update(types=ts if rng.random() < .4 else rng.sample(ts + ["rouge3"], rng.randrange(1, 4)), stem=int(rng.random() < .5))
            qs.append(q)
        out.append(dict(p=prop, qs=qs, seed=rng.randrange(1 << 30)))
    return out
