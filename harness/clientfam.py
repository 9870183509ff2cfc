"""Clients of LLM services (C24): histories generated from ClientGen, played against stand-ins of the service libraries."""
import os, random
from common import *


class ServiceError(Exception):
    pass


class World:
    """What the stand-ins of the service libraries record and answer."""
    def __init__(self, rec, rng):
        self.rec, self.rng, self.script, self.sent, self.made, self.err, self.text, self.expect = rec, rng, [], [], [], None, None, None

    def serve(self, client, kw):
        a = self.script.pop(0) if self.script else dict(t="error", c="none", fin="stop", u=0, p=0, q=0)
        e = self.expect
        ok = client is e["client"] and kw.get("model") == e["model"]
        if e["messages"] is not None:
            ok = ok and kw.get("messages") == e["messages"]
        if e["kind"] == "openai":
            ok = ok and kw.get("seed") == e["seed"]
        self.rec.ev("serve", a=a, sent_ok=int(ok))
        if a["t"] == "error":
            self.err = self.rng.choice([ServiceError, ConnectionError, RuntimeError, KeyError])("the service failed")
            raise self.err
        return self.answer(e["kind"], a)

    def answer(self, kind, a):
        from types import SimpleNamespace as NS
        self.text = {"none": None, "empty": "", "int": self.rng.choice(["4", "3 of 5", "Score: 2\n", " 4 ", "\n5\n"]), "junk": self.rng.choice(["no number here", "```json\n{}\n```", " \n", "ünï", " blanks  around\r\n", "long " * 4000, "e\u0301\x00"]), "parts": self.rng.choice([[], ["a"], 3, {"a": 1}])}[a["c"]]
        if a["t"] == "none":
            return None
        if a["t"] == "nochoices":
            return NS(choices=None, usage=None)
        msg = None if a["t"] == "nomessage" else NS(role="assistant", content=self.text)
        usage = NS(prompt_tokens=a["p"], completion_tokens=a["q"], total_tokens=a["p"] + a["q"]) if a["u"] else None
        other = NS(index=1, message=NS(role="assistant", content="another choice"), finish_reason="stop")
        return NS(id="x", model="m", choices=[NS(index=0, message=msg, finish_reason=a["fin"])] + ([other] if self.rng.random() < .2 else []), usage=usage)


def install(world):
    import openai, mistralai
    from types import SimpleNamespace as NS

    def make(kind):
        class Stub:
            def __init__(self, *args, **kw):
                world.made.append((kind, self, args, kw))
                f = lambda **k: world.serve(self, k)
                self.chat = NS(completions=NS(create=f)) if kind == "openai" else NS(complete=f)
        return Stub
    openai.OpenAI, mistralai.Mistral = make("openai"), make("mistral")


def messages(ms, rng):
    out = []
    for m in ms["ms"]:
        d = {"role": rng.choice(["system", "user", "assistant"] * 3 + ["developer", "tool", "User", ""]),
             "content": rng.choice(["", "hello", "ünï {x}", "a\nb", "  hello ", "\n\ta\r\n", " ", "\u00a0x\u2028", "e\u0301 \u00e9", "a\x00b \ud83d\ude00", "{} %s \\n $x </s>", "many words " * rng.choice([300, 3000])])}
        if out and rng.random() < .2:
            d = dict(out[-1]) if isinstance(out[-1], dict) and "role" in out[-1] and "content" in out[-1] else d
        if rng.random() < .15:
            d["name"] = rng.choice(["x", " x ", 3, None])
        if m == "nodict":
            d = rng.choice([None, "user: hello", ["role", "content"], 3, ("role", "content")])
        elif m == "norole":
            d.pop("role")
        elif m == "nocontent":
            d.pop("content")
        elif m == "badrole":
            d["role"] = rng.choice([None, 3, ["user"], b"user", True])
        elif m == "badcontent":
            d["content"] = rng.choice([None, 3, ["hello"], b"hello", {"text": "x"}])
        out.append(d)
    if not ms["list"]:
        out = rng.choice([tuple(out), dict(enumerate(out)), None, "hello", {"role": "user", "content": "x"}, iter(out)])
    return out


def run(sc):
    import copy
    r = Rec(sc["p"])
    rng = random.Random(sc["seed"])
    w = World(r, rng)
    install(w)
    from valor_lite.text_generation import Context, Evaluator, QueryResponse
    from valor_lite.text_generation.llm.integrations import MistralWrapper, OpenAIWrapper
    r.ev("reset")
    cl, groups = [], []
    for o in sc["ops"]:
        if o["op"] == "serve":
            groups[-1][1].append(o["a"])
        else:
            groups.append((o, []))
    totals = lambda: dict(pt=[getattr(c["w"], "total_prompt_tokens", 0) if c["kind"] == "openai" else 0 for c in cl], ct=[getattr(c["w"], "total_completion_tokens", 0) if c["kind"] == "openai" else 0 for c in cl])
    for i, (o, answers) in enumerate(groups):
        last = i == len(groups) - 1
        try:
            if o["op"] == "new":
                env = rng.choice([None, "env-key"])
                for n in ("OPENAI_API_KEY", "MISTRAL_API_KEY"):
                    os.environ.pop(n, None)
                    if env:
                        os.environ[n] = env
                key = rng.choice([None, "key-1", "key-2"])
                model = rng.choice(["m-1", "m-2", "gpt"])
                seed = rng.choice([None, None, 0, 7, -1, 2 ** 40]) if o["kind"] == "openai" else None
                kw = dict(model_name=model)
                if key is not None or rng.random() < .5:
                    kw["api_key"] = key
                if o["kind"] == "openai" and (seed is not None or rng.random() < .5):
                    kw["seed"] = seed
                if o["kind"] == "openai" and rng.random() < .4:
                    n, rr = len(w.made), rng.choice([0, 0, 1, 3])
                    try:
                        Evaluator.openai(retries=rr, seed=rng.choice([0, 7, -1]), **{k: v for k, v in kw.items() if k != "seed"})
                        out = "ok"
                    except ValueError:
                        out = "ValueError"
                    r.ev("bad_new", out=out, want="ok" if rr == 0 else "ValueError")
                viaev = rng.random() < .5
                if viaev:
                    sysp = rng.choice(["be helpful", ""])
                    ev = (Evaluator.openai if o["kind"] == "openai" else Evaluator.mistral)(default_system_prompt=sysp, **kw)
                    x = ev.client
                else:
                    x = (OpenAIWrapper if o["kind"] == "openai" else MistralWrapper)(**kw)
                    ev = Evaluator(client=x)
                kind, stub, args, mk = w.made[-1]
                want = key if key is not None else (env if o["kind"] == "mistral" else None)
                r.ev("new", kind=o["kind"], key_ok=int(kind == o["kind"] and not args and mk.get("api_key") == want and x.model_name == model))
                cl.append(dict(w=x, ev=ev, kind=o["kind"], stub=stub, model=model, seed=seed))
                continue
            c = cl[o["h"] - 1]
            w.script, w.err, w.text = list(answers), None, None
            w.expect = dict(client=c["stub"], model=c["model"], seed=c["seed"], kind=c["kind"], messages=None)
            same, par, kept = 0, 1, 1
            if last and o["op"] == "eval":
                continue                                  # may be cut short
            if o["op"] == "call":
                ms = messages(o["msgs"], rng)
                if last and not answers and o["msgs"]["list"] and all(m == "ok" for m in o["msgs"]["ms"]):
                    continue
                keep = copy.deepcopy(ms) if not hasattr(ms, "__next__") else None
                w.expect["messages"] = keep
                r.ev("call", h=o["h"], msgs=o["msgs"])
                f = lambda: c["w"](ms) if rng.random() < .5 else c["w"](messages=ms)
            else:
                c["ev"].retries = o["r"]
                r.ev("eval", h=o["h"], r=o["r"])
                f = lambda: c["ev"].compute_summary_coherence(QueryResponse(query="a text", response="a summary"))
            try:
                x = f()
                if o["op"] == "call":
                    out = "empty" if x == "" and not w.text else "text"
                    same = int(type(x) is str and x == w.text)
                else:
                    out = "error" if x.type == "Error" else "metric"
                    par = int(x.parameters == dict(evaluator=c["model"], retries=o["r"]))
            except Exception as err:
                out = "service" if err is w.err else "refused" if isinstance(err, (ValueError, TypeError)) else type(err).__name__
            if o["op"] == "call" and keep is not None:
                kept = int(ms == keep)
            r.ev("ret", out=out, same=same, par_ok=par, kept=kept, **totals())
        except TimeoutError:
            raise
        except Exception as err:
            r.exc(o["op"], err)
            break
    return r.events


def scenarios(prop, seed, tier, beh):
    rng = random.Random("client-%s-%s" % (prop, seed))
    return [dict(p=prop, ops=h, seed=rng.randrange(1 << 30)) for h in beh]
