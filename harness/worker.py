"""Runs scenarios of one family against /repo's code and writes the trace (one JSON event per line).

usage: worker.py JOB.json   with {"family", "prop", "seed", "tier", "shard", "nshards", "beh": path|null,
                                  "scenario": {...}|null, "out": path}
"""
import importlib, json, os, signal, sys, traceback, warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def _alarm(*a):
    raise TimeoutError("scenario took longer than 240 s")


def main():
    job = json.load(open(sys.argv[1]))
    fam = importlib.import_module(job["family"])
    if job.get("scenario") is not None:
        scs = [job["scenario"]]
    else:
        beh = json.load(open(job["beh"])) if job.get("beh") else None
        scs = fam.scenarios(job["prop"], job["seed"], job["tier"], beh)
        scs = [s for i, s in enumerate(scs) if i % job["nshards"] == job["shard"]]
    signal.signal(signal.SIGALRM, _alarm)
    line, index, slow = 0, [], False
    with open(job["out"], "w") as out:
        for s in scs:
            signal.alarm(240)
            try:
                evs = fam.run(s)
            except TimeoutError as e:
                evs = [dict(e="exc", p=job["prop"], what=str(e))]
                slow = True
            except MemoryError:
                raise
            except Exception as e:               # an output that the harness cannot even read
                evs = [dict(e="exc", p=job["prop"], what="%s: %s" % (type(e).__name__, "".join(traceback.format_tb(e.__traceback__))[-1500:] + str(e)[:300]))]
            finally:
                signal.alarm(0)
            for ev in evs:
                out.write(json.dumps(ev, default=lambda o: o.item() if hasattr(o, "item") else repr(o)) + "\n")
            index.append((line + 1, line + len(evs)))
            line += len(evs)
            if slow:                             # one is enough; do not spend the time limit on the rest
                scs = scs[:len(index)]
                break
    json.dump(dict(scenarios=scs, index=index, lines=line), open(job["out"] + ".idx", "w"))


if __name__ == "__main__":
    main()
