"""LLM-guided text generation metrics (C18-C20): conversations generated from TextGenGen, played by a scripted client."""
import json, random, re
from common import *
from valor_lite.text_generation import Context, Evaluator, QueryResponse

CALL = dict(ac="compute_answer_correctness", ar="compute_answer_relevance", bias="compute_bias", cp="compute_context_precision", cr="compute_context_recall",
            crel="compute_context_relevance", faith="compute_faithfulness", hal="compute_hallucination", coh="compute_summary_coherence", tox="compute_toxicity")
TYPE = dict(ac="AnswerCorrectness", ar="AnswerRelevance", bias="Bias", cp="ContextPrecision", cr="ContextRecall", crel="ContextRelevance",
            faith="Faithfulness", hal="Hallucination", coh="SummaryCoherence", tox="Toxicity")
# how the wording of the prompts is recognised; a prompt that matches none or several is "?"
WORDS = dict(claims="list of FACTUAL CLAIMS", opinions="list of OPINIONS presented", statements="list of STATEMENTS presented", ac="prediction statements and the ground truth statements",
             ar="each statement is relevant to address the query", bias="EACH opinion is biased", cp="useful for producing the ground truth answer", cr="can be attributed to the given context",
             crel="each context is relevant to the provided query", faith="EACH claim is implied", hal="contradicts EACH context", coh="rate the summary based on its coherence", tox="EACH opinion is toxic")
WEIRD = ["", " with {braces}", " 'single' \"double\"", " ünïcödé ☃", " 100%s %d", " \\ backslash", " {\"verdicts\": []}", " $x", " \n line"]


class Broken(Exception):
    """What the client raises."""


class Exhausted(Exception):
    pass


TEXTS = {}                                       # the texts made in this session, by token


def tok(rng, t):
    s = rng.choice(["", "", "Z ", "b) ", "a: ", "0. ", "é "]) + "[[" + t + "]]" + rng.choice(WEIRD)
    if rng.random() < .1:                        # long, with a last word of its own
        s += " and so on" * rng.choice([3, 30, 300, 1500]) + rng.choice([" to the end.", " (end)", "...", "\nThe end"])
    TEXTS.setdefault(t, set()).add(s)
    return s


def whole(content, t):
    """Is a text with this token quoted in full?"""
    forms = lambda s: (s, repr(s)[1:-1], json.dumps(s)[1:-1], json.dumps(s, ensure_ascii=False)[1:-1])
    return any(x in content for s in TEXTS.get(t, ()) for x in forms(s))


def junk(rng, coh):
    """Texts without a JSON object (or, for coherence, without an integer)."""
    if coh:
        return rng.choice(["", "none", "The summary is coherent.", "five", "{}", "-", "\n\n", "N/A", "x" * 3000, "IV", "½", "9" * 5000])
    if rng.random() < .25:                       # a complete document, but not the only thing in braces, or spoilt
        doc = json.dumps({k: rng.choice([[], ["x"], ["x", "y"]]) for k in ("opinions", "claims", "statements", "TP", "FP", "FN")} | {"verdicts": []})
        return rng.choice(["%s %s", "%s\n\nor\n%s", "%s}", "{%s", "{see below} %s", "%s {end}", "Set {1}: %s", "%s\n{}", "{}%s", "[%s, %s] }"]).replace("%s", doc)
    deep = rng.choice([2000, 200000])
    return rng.choice(["", "I cannot do that.", "[1, 2]", "null", "{", "}", "}{", "{\"verdicts\": [", "{verdicts: []}", "{'verdicts': []}", "{\"verdicts\": [],}", "```json\n```",
                       "{\"a\": 1} and {\"b\": 2}", "{\"statements\": [\"a\"] \"x\"}", "{\"x\": " + "1" * 5000 + "}", "{\"a\":" * 200000 + "1" + "}" * 200000, "{" + "[" * deep + "]" * deep + "}",
                       "{\"verdicts\": [{\"verdict\": \"yes\", \"analysis\": \"unterminated}]}", "{\"TP\": [], \"FP\": [], \"FN\": []", "\"\"", "{\x00}", "{{\"statements\": []}}"])


def render(rng, r, coh):
    if r["form"] == "none":
        return junk(rng, coh)
    if r["form"] == "int":
        return rng.choice(["%d", "Score: %d", "%d\n", "**%d**", "The score is %d, out of 5.", "%d because 3 of 4 points hold", "%d.0"]) % r["n"]
    other = lambda: rng.choice([None, 3, 1.5, True, ["x"], {"statement": "x"}])
    otherv = lambda: rng.choice([None, 3, 0, True, False, ["yes"], {"verdict": "yes"}])

    def el(k, x):
        if x["t"] == "str":
            return tok(rng, x["s"])
        if x["t"] == "other":
            return rng.choice([None, 3, 1.5, True, ["x"]])
        d = {}
        for n in x["ks"]:
            d[n] = (x["v"] if x["vs"] else otherv()) if n == "verdict" else rng.choice(["because", "", "yes", "a {brace}", "é\n\"q\""])
        return d
    o = {}
    for f in r["keys"]:
        o[f["k"]] = [el(f["k"], x) for x in f["xs"]] if f["t"] == "list" else rng.choice([None, "yes", "text", 3, {}, {"0": "yes"}, True, ""])
    items = list(o.items())
    rng.shuffle(items)
    s = json.dumps(dict(items), ensure_ascii=rng.random() < .5, indent=rng.choice([None, 2]))
    return rng.choice(["", "Here is the JSON:\n", "```json\n", "   \n", "Sure! [1] "]) + s + rng.choice(["", "\n```", "\n", " Hope that helps."])


class Client:
    def __init__(self, rec, rng, sysp):
        self.rec, self.rng, self.sysp, self.script, self.coh = rec, rng, sysp, [], False
        self.model_name = "model-x"

    def __call__(self, messages):
        ok = (isinstance(messages, list) and len(messages) == 2 and [m.get("role") for m in messages] == ["system", "user"] and messages[0].get("content") == self.sysp)
        content = messages[-1]["content"]
        low = re.sub(r"\s+", " ", content)
        ks = [k for k, w in WORDS.items() if w in low]
        about = re.findall(r"\[\[(\w+)\]\]", content)
        self.rec.ev("ask", kind=ks[0] if len(ks) == 1 else "?", about=about, sys=int(ok), whole=int(all(whole(content, t) for t in about)))
        if not self.script:
            raise Exhausted("no reply left")
        r = self.script.pop(0)
        self.rec.ev("reply", reply=r)
        if r["form"] == "error":
            self.err = self.rng.choice([Broken, ValueError, RuntimeError, KeyError, TimeoutError if False else ConnectionError])("the client failed")
            raise self.err
        return render(self.rng, r, self.coh)


def play(rec, rng, client, ev, call, replies, last, sysp):
    m, inp, r = call["m"], call["inp"], call["r"]
    T = lambda t: tok(rng, t)
    ctx = Context(groundtruth=[T("g%d" % (i + 1)) for i in range(inp["ng"])], prediction=[T("p%d" % (i + 1)) for i in range(inp["np"])]) if inp["ctx"] else None
    qr = QueryResponse(query=T("q"), response=T("r"), context=ctx)
    client.script, client.coh, client.err = list(replies), m == "coh", None
    e = ev
    if inp["client"] == "none":
        e = Evaluator(client=None, retries=r, default_system_prompt=sysp)
    elif inp["client"] == "nameless":
        c = Client(rec, rng, sysp)
        c.model_name = None
        if rng.random() < .5:
            del c.model_name
        e = Evaluator(client=c, retries=r, default_system_prompt=sysp)
    e.retries = r
    rec.ev("call", m=m, inp=inp, r=r)
    base = dict(v=[0, 1], type_ok=0, par_ok=0, err_ok=0)
    try:
        x = getattr(e, CALL[m])(qr)
    except Exhausted:
        if not last:
            rec.ev("result", out="exhausted", **base)
        return
    except Exception as err:
        rec.ev("result", out="client" if err is client.err else type(err).__name__, what=str(err)[:100], **base)
        return
    ty, par, val = getattr(x, "type", None), getattr(x, "parameters", None), getattr(x, "value", None)
    base["par_ok"] = int(par == dict(evaluator="model-x", retries=r))
    if ty == "Error":
        base["err_ok"] = int(isinstance(val, dict) and val.get("type") == "InvalidLLMResponseError" and isinstance(val.get("message"), str) and val["message"] != "")
        rec.ev("result", out="error", **base)
        return
    base["type_ok"] = int(ty == TYPE[m])
    base["v"] = rat(val)
    rec.ev("result", out="metric", **base)


def run_session(sc):
    rec = Rec(sc["p"])
    TEXTS.clear()
    rng = random.Random(sc["seed"])
    sysp = rng.choice(["You are a helpful assistant.", "SYSTEM \"x\" {y}", ""])
    client = Client(rec, rng, sysp)
    ev = Evaluator(client=client, retries=0, default_system_prompt=sysp)
    calls = []
    for o in sc["ops"]:
        if o["op"] == "call":
            calls.append((o, []))
        else:
            calls[-1][1].append(o["reply"])
    for i, (c, rs) in enumerate(calls):
        play(rec, rng, client, ev, c, rs, i == len(calls) - 1, sysp)
    return rec.events


class Oracle:
    """A client whose reply depends on the prompt only."""
    model_name = "model-x"

    def __init__(self, seed, bad):
        self.seed, self.bad, self.memo = seed, bad, {}

    def __call__(self, messages):
        key = messages[-1]["content"]
        if key not in self.memo:
            self.memo[key] = self.reply(key, random.Random("%s-%s" % (self.seed, key)))
        return self.memo[key]

    def reply(self, content, rng):
        low = re.sub(r"\s+", " ", content)
        kind = next((k for k, w in WORDS.items() if w in low), "?")
        about = re.findall(r"\[\[(\w+)\]\]", content)
        n = lambda p: sum(1 for t in about if re.fullmatch(p, t))
        if rng.random() < self.bad:
            return "I cannot."
        if kind in ("claims", "opinions", "statements"):
            return json.dumps({kind: ["[[%s%s%d]]" % (about[0] if about else "x", kind[0], i) for i in range(rng.choice([0, 1, 2, 3, 4]))]})
        if kind == "coh":
            return str(rng.randrange(1, 6))
        if kind == "ac":
            k = n(r"rs\d+")
            tp = rng.randrange(k + 1)
            return json.dumps(dict(TP=["t"] * tp, FP=["f"] * (k - tp), FN=["n"] * rng.randrange(n(r"g\d+s\d+") + 1)))
        k = n(dict(ar=r"rs\d+", bias=r"ro\d+", tox=r"ro\d+", cr=r"g\d+s\d+", faith=r"rc\d+").get(kind, r"p\d+"))
        return json.dumps(dict(verdicts=[dict(verdict=rng.choice(["yes", "no"]), analysis="x") for _ in range(k)]))


def run_all(sc):
    """compute_all against the single computations."""
    from overfam import stub_evaluate
    stub_evaluate()
    rec = Rec(sc["p"])
    rng = random.Random(sc["seed"])
    for _ in range(3):
        words = lambda: " ".join(rng.choice(["run", "runs", "jump", "Walk", "paint", "cooks"]) for _ in range(rng.randrange(0, 7)))
        qr = QueryResponse(query="[[q]] " + words(), response="[[r]] " + words(), context=Context(groundtruth=["[[g%d]] %s" % (i + 1, words()) for i in range(rng.randrange(1, 4))], prediction=["[[p%d]] %s" % (i + 1, words()) for i in range(rng.randrange(1, 4))]))
        r, seed, bad = rng.choice([0, 1, 3]), rng.randrange(1 << 30), rng.choice([0, 0, .15])
        w, ts, stem = rng.choice([None, [1.0], [.5, .5], [.25] * 4, [0.0, 1.0]]), rng.choice([None, ["rouge1"], ["rougeL", "rouge2"]]), rng.choice([None, True, False])
        kw = {k: v for k, v in dict(bleu_weights=w, rouge_types=ts, rouge_use_stemmer=stem).items() if v is not None}
        row = lambda m: [str(m.type), json.dumps(m.parameters, sort_keys=True), rat_s(m.value) if not isinstance(m.value, dict) else json.dumps(m.value, sort_keys=True)]
        try:
            res = Evaluator(client=Oracle(seed, bad), retries=r).compute_all(qr, **kw)
            got = {str(getattr(k, "value", k)): [row(m) for m in v] for k, v in res.items()}
            one = Evaluator(client=Oracle(seed, bad), retries=r)
            want = {TYPE[m]: [row(getattr(one, CALL[m])(qr))] for m in CALL}
            want["ROUGE"] = [row(m) for m in one.compute_rouge(qr, **{k: v for k, v in dict(rouge_types=ts, use_stemmer=stem).items() if v is not None})]
            want["BLEU"] = [row(one.compute_sentence_bleu(qr, **({} if w is None else dict(weights=w))))]
            rec.ev("all", got=[[k, got[k]] for k in sorted(got)], want=[[k, want[k]] for k in sorted(want)])
        except TimeoutError:
            raise
        except Exception as err:
            rec.exc("compute_all", err)
    return rec.events


def run(sc):
    return run_all(sc) if sc.get("kind") == "all" else run_session(sc)


def scenarios(prop, seed, tier, beh):
    rng = random.Random("text-%s-%s" % (prop, seed))
    out = [dict(p=prop, ops=h, seed=rng.randrange(1 << 30)) for h in beh]
    if prop == "C20":
        out += [dict(p=prop, kind="all", seed=rng.randrange(1 << 30)) for _ in range(60 if tier == "quick" else 600)]
    return out
