"""Sorting and paginating caches of every layout with the real code."""
import datetime, os, random
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
from common import Rec, place, scratch
from valor_lite.cache import FileCacheReader, FileCacheWriter, MemoryCacheWriter, sort
from valor_lite.cache.compute import paginate_index

FIELDS = [("id", pa.int64()), ("a", pa.int64()), ("b", pa.float64()), ("m", pa.bool_()), ("s", pa.string())]
# columns that are only carried along
CARRIED = [("ts", pa.timestamp("s")), ("l", pa.list_(pa.int32())), ("e", pa.dictionary(pa.int32(), pa.string())), ("u", pa.uint64())]
NAN = float("nan")


def carried(i):
    return dict(ts=datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=i), l=None if i % 3 == 0 else [i] * (i % 3), e="e%d" % (i % 3), u=2 ** 64 - 1 - i)


def layout(rng, n, k):
    """n rows divided over k files."""
    files = [[] for _ in range(k)]
    for i in range(n):
        files[rng.randrange(k)].append(i)
    return files


def sort_scenario(rng, big=False):
    n = rng.choice([0, 1, 2, 3, 5, 8, 13, 20]) if not big else rng.randrange(30, 120)
    k = rng.choice([1, 1, 2, 3, 4, 6]) if not big else rng.choice([2, 3, 5, 9, 14])
    span = rng.choice([1, 2, 4, 30])
    rows = [dict(id=i, a=rng.randrange(-span, span + 1), b=rng.randrange(-span * 4, span * 4 + 1) / 4, m=rng.random() < .5) for i in range(n)]
    if n > 3 and rng.random() < .3:
        rows[1] = dict(rows[0])      # a duplicated row
    if rng.random() < .35:                    # keys that are missing or not a number
        for r in rows:
            for c in rng.sample(["a", "b", "m"], rng.choice([0, 1, 1, 3])):
                r[c] = None if c != "b" or rng.random() < .5 else NAN
    keys = rng.sample(["a", "b", "m"], rng.choice([1, 2, 3]))
    if rng.random() < 0.2:
        keys = ["id"]
    return dict(kind="sort", rows=rows, files=layout(rng, n, k), src=rng.choice(["file", "file", "file", "mem"]),
                sink=rng.choice(["file", "file", "mem"]), bs=rng.choice([1, 2, 3, 7, 1000]), keys=keys,
                desc=[int(rng.random() < .5) for _ in keys], sinkcfg=[rng.choice([1, 2, 3, 10, 1000]), rng.choice([1, 2, 3, 10, 1000])],
                cols=rng.choice([None, None, ["id", "a", "b", "m"], ["m", "b", "a", "id", "s"]]), override=rng.random() < .25,
                far=rng.choice([0, 0, 0, 2 ** 60, -2 ** 60]), eps=rng.choice([1, 1, 2.0 ** -45, 2.0 ** 40]), wide=rng.random() < .3, place=rng.randrange(300), reload=rng.random() < .5)


def page_scenario(rng):
    nd = rng.choice([0, 1, 2, 3, 4, 5, 7, 9])
    k = rng.choice([1, 1, 2, 3, 4, 12])
    ds = [d * rng.choice([1, 1, 3]) for d in range(nd)]
    ds = sorted(set(ds))
    mode = rng.choice(["ordered", "random"])
    asg = sorted(rng.randrange(k) for _ in ds) if mode == "ordered" else [rng.randrange(k) for _ in ds]
    files = [[] for _ in range(k)]
    for d, f in zip(ds, asg):
        for v in range(rng.choice([1, 1, 2, 4])):
            files[f].append([d, v])
    for f in files:
        if rng.random() < .5:
            rng.shuffle(f)
    flt = rng.choice([dict(k="none"), dict(k="none"), dict(k="d", n=rng.randrange(0, 6)),
                      dict(k="dset", s=sorted(rng.sample(ds, rng.randrange(0, len(ds) + 1)))), dict(k="v", n=1)])
    tot = sum(len(f) for f in files)
    pages = [[rng.randrange(0, nd + 2), rng.choice([-1, 0, 1, 2, 3, nd, nd + 1, tot, 100])] for _ in range(6)] + [[0, -1], [0, tot], [0, 0], [nd, 1], [1, -1]]
    return dict(kind="page", files=files, src=rng.choice(["file", "file", "mem"]), flt=flt, pages=pages, tile=[1, 2, 3])


def _table(rows, fields, far=0, eps=1):
    out = []
    for r in rows:
        r = {**r, **carried(r["id"]), "s": "r%d" % r["id"]}
        r["a"] = r["a"] if r["a"] is None else r["a"] + far
        r["b"] = r["b"] if r["b"] is None else r["b"] * eps
        out.append(r)
    return pa.Table.from_pylist(out, schema=pa.schema(fields))


def _source(d, kind, tables, schema, name="src"):
    if kind == "file":
        w = FileCacheWriter.create(os.path.join(d, name), schema, 1000, 1000)
        for t in tables:
            w.write_table(t)
        return w.to_reader()
    w = MemoryCacheWriter.create(schema, 1000)
    for t in tables:
        w.write_table(t)
    return w.to_reader()


def run_sort(sc):
    rec = Rec("C04")
    with scratch() as d:
        try:
            fields = FIELDS + (CARRIED if sc["wide"] else [])
            schema = pa.schema(fields)
            rows, far, eps = sc["rows"], sc["far"], sc["eps"]
            tables = [_table([rows[i] for i in f], fields, far, eps) for f in sc["files"]]
            names, _ = place(sc["place"] // 2 * 3, 2) if sc["place"] % 2 else place(sc["place"] // 2 * 3 + 1, 2)
            src = _source(d, sc["src"], tables, schema, names[0])
            cols = sc["cols"]
            outf = fields if cols is None else [f for n in cols for f in fields if f[0] == n]
            sorting = [(k, "descending" if x else "ascending") for k, x in zip(sc["keys"], sc["desc"])]
            bs, rpf = sc["sinkcfg"]
            sink = (FileCacheWriter.create(os.path.join(d, names[1]), pa.schema(outf), bs, rpf) if sc["sink"] == "file"
                    else MemoryCacheWriter.create(pa.schema(outf), bs))
            before = [repr(t.to_pylist()) for t in src.iterate_tables()]
            sort(source=src, sink=sink, batch_size=sc["bs"], sorting=sorting, columns=cols,
                 table_sort_override=(lambda t: t.sort_by(sorting)) if sc["override"] else None)
            r = FileCacheReader.load(sink.path) if sc["sink"] == "file" and sc["reload"] else sink.to_reader()
            got = [t for t in r.iterate_tables()]
            cols_ok = all(t.schema.equals(pa.schema(outf)) for t in got)

            def key(x, k):
                """Class (0: a number, 1: not a number, 2: missing) and value."""
                v = x[k]
                if v is None or v != v:
                    return [2 if v is None else 1, 0]
                return [0, int(v / eps * 4) if k == "b" else 4 * (v - far) if k == "a" else int(v) * 4]

            def enc(x):
                ok = "s" not in x or x["s"] == "r%d" % x["id"]
                ok = ok and all(x[k] == v for k, v in carried(x["id"]).items() if k in x)
                return dict(id=x["id"] if ok else -1, k=[n for k in sc["keys"] for n in key(x, k)])
            rec.ev("sort", src=[[enc(x) for x in t.to_pylist()] for t in tables], desc=sc["desc"],
                   out=[[enc(x) for x in t.to_pylist()] for t in got], cols_ok=bool(cols_ok), count=r.count_rows(),
                   src_ok=before == [repr(t.to_pylist()) for t in src.iterate_tables()])
        except Exception as e:
            rec.exc("sort", e)
    return rec.events


def run_page(sc):
    rec = Rec("C05")
    fields = [("d", pa.int64()), ("v", pa.int64())]
    with scratch() as d:
        try:
            schema = pa.schema(fields)
            tables = [pa.Table.from_pylist([dict(d=a, v=b) for a, b in f], schema=schema) for f in sc["files"]]
            src = _source(d, sc["src"], tables, schema)
            fs = [[dict(d=a, v=b) for a, b in f] for f in sc["files"]]
            if sc["src"] == "mem":
                fs = [[r for f in fs for r in f]]
            f = sc["flt"]
            flt = {"none": lambda: None, "d": lambda: pc.field("d") >= f["n"], "v": lambda: pc.field("v") >= f["n"],
                   "dset": lambda: pc.field("d").isin(f["s"])}[f["k"]]()
            def page(o, n):
                kw = {} if n == -1 else dict(limit=n)
                return [t.to_pylist() for t in paginate_index(source=src, column_key="d", modifier=flt, offset=o, **kw)]
            for o, n in sc["pages"]:
                rec.ev("page", fs=fs, flt=f, o=o, n=n, out=page(o, n))
            nd = len({r["d"] for x in fs for r in x})
            for n in sc["tile"]:
                ps = []
                for o in range(0, nd + n, n):
                    ps.append([r for t in page(o, n) for r in t])
                rec.ev("tile", fs=fs, flt=f, n=n, pages=ps)
        except Exception as e:
            rec.exc("page", e)
    return rec.events


def scenarios(prop, seed, tier, beh):
    rng = random.Random(seed * 1000003 + (4 if prop == "C04" else 5))
    k = 1 if tier == "quick" else 8
    if prop == "C04":
        return [sort_scenario(rng, big=(i % 12 == 0)) for i in range(700 * k)]
    return [page_scenario(rng) for _ in range(350 * k)]


def run(sc):
    return run_sort(sc) if sc["kind"] == "sort" else run_page(sc)
