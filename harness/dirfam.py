"""Replays histories of CacheDirGen: caches created, replaced, deleted and loaded next to foreign files (C03)."""
import os
import pyarrow as pa
import pyarrow.parquet as pq
from common import Rec, place, scratch, standing
from valor_lite.cache import FileCacheReader, FileCacheWriter

SCHEMA = pa.schema([("id", pa.int64())])
NP = 2


def outcome(err):
    return "notdir" if isinstance(err, NotADirectoryError) else "missing" if isinstance(err, FileNotFoundError) else "fails"


def look(p):
    """What is at a location: judged from the files, and by whether the cache can be opened."""
    if not os.path.lexists(p):
        return dict(k="none", rows=[], alien=0)
    if not os.path.isdir(p):
        return dict(k="file" if open(p).read() == "precious" else "altered", rows=[], alien=0)
    alien = 1 if all(os.path.exists(os.path.join(p, n)) and open(os.path.join(p, n)).read() == n for n in ALIENS) else 0
    if not alien and any(os.path.exists(os.path.join(p, n)) for n in ALIENS):
        alien = 2
    fs = sorted((os.path.join(os.path.abspath(p), f) for f in os.listdir(p) if f.endswith(".parquet")), key=lambda f: int(os.path.basename(f).split(".")[0]))
    rows = [x for f in fs for x in pq.ParquetFile(f).read()["id"].to_pylist()]
    try:
        FileCacheReader.load(p)
        return dict(k="cache", rows=rows, alien=alien)
    except Exception:
        return dict(k="remains" if fs else "dir", rows=rows, alien=alien)


ALIENS = ["_notes.txt", ".parquet.bak", "_0.parquet.tmp"]


def run(sc):
    rec = Rec("C03")
    with scratch() as tmp, standing(tmp):
        root = os.path.join(tmp, "deep", "er") if sc["deep"] else tmp
        names, here = place(sc["place"], 2)
        path = {p: os.path.join(root if not here else "deep/er" if sc["deep"] else "", names[p - 1]) for p in (1, 2)}
        rec.ev("start", np=NP)
        ws = {}
        for o in sc["ops"]:
            op, p = o["op"], o["path"]
            x, r = path[p], "ok"
            if op == "write" and p not in ws or op in ("plain", "dataset") and os.path.lexists(x) or op == "litter" and os.path.isfile(x):
                continue
            try:
                if op in ("create", "recreate"):
                    w = FileCacheWriter.create(x, SCHEMA, sc["bs"], sc["rpf"], "snappy", **({"delete_if_exists": True} if op == "recreate" else {}))
                    ws[p] = w
                elif op == "delete":
                    FileCacheWriter.delete(x)
                elif op == "load":
                    FileCacheReader.load(x)
                elif op == "write":
                    ws[p].write_rows([{"id": o["row"]}])
                    ws[p].flush()
                elif op == "litter":
                    os.makedirs(x, exist_ok=True)
                    for n in ALIENS:
                        open(os.path.join(x, n), "w").write(n)
                elif op == "dataset":
                    os.makedirs(x)
                    pq.write_table(pa.table({"id": pa.array([o["row"]], type=pa.int64())}), os.path.join(os.path.abspath(x), "000007.parquet"))
                elif op == "plain":
                    os.makedirs(os.path.dirname(x) or ".", exist_ok=True)
                    open(x, "w").write("precious")
            except TimeoutError:
                raise
            except Exception as err:
                r = outcome(err)
            at = [look(path[q]) for q in (1, 2)]
            if at[p - 1]["k"] != "cache":
                ws.pop(p, None)
            rec.ev("dirop", op=op, path=p, r=r, row=o["row"], at=at)
    return rec.events


def scenarios(prop, seed, tier, beh):
    return [dict(ops=h, place=i + seed, deep=i % 2, bs=1 + i % 3, rpf=1 + i % 2) for i, h in enumerate(beh)]
