"""Replays histories generated from Cache.tla (and directed ones) into the real caches and records what they do."""
import datetime, decimal, glob, os
import numpy as np
import pyarrow as pa
import pyarrow.compute as pc
import pyarrow.parquet as pq
from common import Rec, place, scratch, standing
from valor_lite.cache import FileCacheReader, FileCacheWriter, MemoryCacheWriter

SCHEMA = pa.schema([("id", pa.int64()), ("f", pa.float64()), ("s", pa.string()), ("b", pa.bool_()),
                    ("n", pa.int32()), ("l", pa.list_(pa.int64()))])
# types of which not all are kept as they are by the storage format
WIDE = pa.schema(list(SCHEMA) + [("ts", pa.timestamp("s")), ("d", pa.date64()), ("t", pa.time32("s")), ("ls", pa.large_string()),
                                 ("dec", pa.decimal128(9, 3)), ("u", pa.uint64()), ("lt", pa.list_(pa.timestamp("s"))), ("bin", pa.binary()),
                                 ("g", pa.float32()), ("st", pa.struct([("x", pa.int8()), ("y", pa.date32())])), ("dur", pa.duration("s")),
                                 ("en", pa.dictionary(pa.int32(), pa.string())), ("z", pa.timestamp("ms", tz="Europe/Berlin"))])
DAY = datetime.datetime(2020, 1, 1)
UTC = datetime.timezone.utc
STR = ["", "é", "a", None, "1", "\n", "nan"]


def row(i):
    return dict(id=i, f=(None if i % 5 == 4 else i / 4 - 3.0), s=(STR[i % 7] and STR[i % 7] + str(i) if STR[i % 7] else STR[i % 7]),
                b=(None if i % 11 == 3 else i % 2 == 0), n=i - 20, l=(None if i % 3 == 0 else [i] * (i % 3)))


def wide(i):
    """The fields of row i that only the wide schema has."""
    if i % 6 == 5:
        return {f.name: None for f in WIDE if f.name not in SCHEMA.names}
    t = DAY + datetime.timedelta(days=i, seconds=i)
    return dict(ts=t, d=t.date(), t=t.time(), ls="L%d" % i, dec=decimal.Decimal(i) / 8, u=2 ** 64 - 1 - i, lt=[t] * (i % 3), bin=bytes([i % 256, 0]),
                g=i / 8, st=dict(x=i % 100, y=t.date()), dur=datetime.timedelta(seconds=i), en="e%d" % (i % 4), z=t.replace(tzinfo=UTC))


def full(i, schema):
    return row(i) if schema is SCHEMA else {**row(i), **wide(i)}


def table(ids, schema):
    return pa.Table.from_pylist([full(i, schema) for i in ids], schema=schema)


def misfit(w, how, kind, ids, schema):
    """A call with data that is not of the schema: columns that miss or are too many, values of other types."""
    rows = [full(i, schema) for i in ids]
    if how == "rows":
        rows[-1] = {**rows[-1], **(dict(n="x") if kind == "type" else dict(n=2 ** 40) if kind == "extra" else dict(b="yes"))}
        return w.write_rows(rows)
    cols = {f.name: [r[f.name] for r in rows] for f in schema}
    if how == "columns":
        if kind == "missing":
            cols.pop("f")
        elif kind == "extra":
            cols["s"] = cols["s"] + ["one more"]
        else:
            cols["n"] = ["x"] * len(ids)
        return w.write_columns(cols)
    t = pa.table(cols, schema=schema)
    if kind == "missing":
        t = t.drop_columns(["s"])
    elif kind == "extra":
        t = t.append_column("zz", pa.array([1] * len(ids)))
    else:
        t = t.set_column(0, "id", pa.array(["x"] * len(ids)))
    return w.write_table(t) if how == "table" else w.write_batch(t.to_batches()[0])


def variant(t, k):
    """The same content with its columns in another order, in other chunks or with convertible types."""
    if k % 4 == 1:
        t = t.select(t.schema.names[::-1])
    elif k % 4 == 2:
        t = t.set_column(4, "n", t["n"].cast(pa.int64())).set_column(2, "s", t["s"].cast(pa.large_string()))
    elif k % 4 == 3:
        t = pa.concat_tables([t.slice(0, 1), t.slice(1)])
    return t


def ident(r, names):
    """Back to the identifier; -1 when a value does not belong to that row."""
    i = r.get("id", None)
    if not isinstance(i, int):
        return -1
    e = {**row(i), **wide(i)}
    return i if all(r[n] == e[n] for n in names) else -1


def columns(ids, style, schema):
    rows = [full(i, schema) for i in ids]
    out = {}
    for k, fld in enumerate(schema):
        vals = [r[fld.name] for r in rows]
        if style == 1 and fld.name in ("id", "n", "f", "b", "u", "g") and None not in vals:
            exact = len(ids) % 2 or fld.name not in ("id", "n")
            out[fld.name] = np.array(vals, dtype=fld.type.to_pandas_dtype() if exact else np.int64)   # to be stored with the types of the schema
        elif style == 2:
            out[fld.name] = pa.array(vals, type=fld.type)
        else:
            out[fld.name] = vals
    return out


def scribble(data):
    """What was written is the caller's own, to be used for something else."""
    for x in data.values() if isinstance(data, dict) else data:
        if isinstance(x, np.ndarray):
            x[:] = 1
        elif isinstance(x, dict):
            for k in x:
                x[k] = x[k].clear() if isinstance(x[k], list) else None
        elif isinstance(x, list):
            x.clear()
    data.clear()


def reread(rec, w, how, kind, comp, mn, salt, schema):
    names = schema.names
    flt = None if mn == 0 else (pc.field("id") >= mn)
    reader = w.to_reader()
    if how == "load" and kind == "file":
        reader = FileCacheReader.load(w.path)
    sel = [None, ["id", "s"], ["f", "id"], ["l", "b", "id", "n"] if schema is SCHEMA else ["ts", "id", "lt", "d", "en"]][salt % 4]
    types_ok = reader.schema == schema
    names_ok, maxb, reqb = True, 0, 1
    rows = []
    if how == "arrays":
        cols = ["id", "n"] if salt % 2 else ["n", "id"]
        for a in reader.iterate_arrays(numeric_columns=cols, filter=flt):
            names_ok &= a.shape[1] == 2
            for x in a.tolist():
                d = dict(zip(cols, x))
                d = {k: int(v) for k, v in d.items()}
                rows.append(ident(d, cols))
    elif how == "both":
        for t, a in reader.iterate_tables_with_arrays(columns=["s", "id"], filter=flt, numeric_columns=["n", "id"]):
            names_ok &= set(t.column_names) == {"s", "id", "n"} and a.shape == (t.num_rows, 2)
            for r, x in zip(t.to_pylist(), a.tolist()):
                ok = r["n"] == int(x[0]) and r["id"] == int(x[1])
                rows.append(ident(r, ["s", "id", "n"]) if ok else -1)
    elif how == "frag":
        mn = 0
        reqb = salt % 4 + 1
        for it in reader.iterate_fragment_batch_iterators(batch_size=reqb):
            for b in it:
                maxb = max(maxb, b.num_rows)
                types_ok &= b.schema.equals(schema)
                rows += [ident(r, names) for r in b.to_pylist()]
    else:
        for t in reader.iterate_tables(columns=sel, filter=flt):
            exp = sel or names
            names_ok &= t.column_names == exp
            types_ok &= all(t.schema.field(n).type == schema.field(n).type for n in exp)
            rows += [ident(r, exp) for r in t.to_pylist()]
    rec.ev("read", rows=rows, min=mn, count=reader.count_rows(), tables=reader.count_tables(), names_ok=bool(names_ok),
           types_ok=bool(types_ok), max_batch=maxb, req_batch=max(reqb, 1), via=how)


CODECS = {"snappy": "SNAPPY", "gzip": "GZIP", "zstd": "ZSTD", "none": "UNCOMPRESSED"}


def parquet_codec_ok(path, comp):
    m = pq.ParquetFile(path).metadata
    return all(m.row_group(g).column(c).compression == CODECS[comp]
               for g in range(m.num_row_groups) for c in range(m.num_columns))


def disk(rec, w, comp, where, flush=True):
    if flush:
        w.flush()
    fs = sorted((os.path.join(where, f) for f in os.listdir(where) if f.endswith(".parquet")), key=lambda p: int(os.path.basename(p).split(".")[0]))
    data, comp_ok = [], True
    for f in fs:
        t = pq.ParquetFile(f).read()
        data.append([ident(r, t.schema.names) for r in t.to_pylist()])
        comp_ok &= parquet_codec_ok(f, comp)
    nums = [int(os.path.basename(f).split(".")[0]) for f in fs]
    listed = (sorted(os.path.realpath(f) for f in w.get_dataset_files()) == sorted(os.path.realpath(f) for f in fs)
              and sorted(os.path.realpath(f) for f in w.get_files()) == sorted(os.path.realpath(os.path.join(where, f)) for f in os.listdir(where)))
    rec.ev("files", listed=bool(listed), files=data, comp_ok=bool(comp_ok), names_ok=len(set(nums)) == len(nums))


def flush(w, how):
    """Flushing is explicit, or at the end of a with-block, also one that an exception ends."""
    if how % 3 == 0:
        w.flush()
    elif how % 3 == 1:
        with w as x:
            assert x is w
    else:
        try:
            with w:
                raise KeyError("interrupted")
        except KeyError:
            pass


def run_history(sc):
    """sc: {"hist": behaviour of CacheGen, "comp": ...}"""
    rec = Rec("C01")
    h = sc["hist"]
    kind, (bs, rpf) = h[0]["how"], h[0]["rows"]
    comp, schema = sc["comp"], WIDE if sc["wide"] else SCHEMA
    names, here = place(sc["place"])
    with scratch() as d, standing(d, here):
        where = os.path.join(d, names[0])
        try:
            w = (FileCacheWriter.create(names[0] if here else where, schema, bs, rpf, comp) if kind == "file"
                 else MemoryCacheWriter.create(schema, bs))
            rec.ev("new", kind=kind, bs=bs, rpf=rpf)
            for k, a in enumerate(h[1:]):
                salt = k + sc["salt"]
                if a["op"] == "write":
                    ids = a["rows"]
                    if a["how"] == "rows":
                        data = [full(i, schema) for i in ids]
                        w.write_rows(data)
                        scribble(data)
                    elif a["how"] == "columns":
                        data = columns(ids, salt % 3, schema)
                        w.write_columns(data)
                        scribble(data)
                    elif a["how"] == "batch":
                        t = variant(table(ids, schema), salt).combine_chunks()
                        w.write_batch((t.to_batches() or [pa.RecordBatch.from_pylist([], schema=t.schema)])[0])
                    else:
                        w.write_table(variant(table(ids, schema), salt))
                    rec.ev("write", how=a["how"], rows=ids)
                elif a["op"] == "misfit":
                    try:
                        misfit(w, a["how"], ["missing", "extra", "type"][a["arg"]], a["rows"], schema)
                        rec.ev("misfit", refused=False)
                    except TimeoutError:
                        raise
                    except Exception:
                        rec.ev("misfit", refused=True)
                elif a["op"] == "flush":
                    flush(w, salt)
                    rec.ev("flush")
                    if kind == "file":
                        disk(rec, w, comp, where, False)
                elif a["op"] == "sortby":
                    w.sort_by([("id", a["how"])])
                    rec.ev("sortby", d=a["how"])
                elif a["op"] == "read":
                    if not (a["how"] == "arrays" and a["arg"] == -1):
                        reread(rec, w, a["how"], kind, comp, a["arg"], salt, schema)
                    if kind == "file":
                        disk(rec, w, comp, where)
            reread(rec, w, "load", kind, comp, 0, 0, schema)
            if kind == "file":
                disk(rec, w, comp, where)
        except Exception as e:      # no action of the specification is an exception here
            rec.exc("cache history", e)
    return rec.events


def directed():
    """Histories a random walk rarely takes: many files, exact boundaries, big calls."""
    out = []
    def H(kind, bs, rpf, *ops):
        return [dict(op="new", how=kind, rows=[bs, rpf], arg=0)] + list(ops)
    W = lambda how, *ids: dict(op="write", how=how, rows=list(ids), arg=0)
    R = lambda how, m=0: dict(op="read", how=how, rows=[], arg=m)
    F = dict(op="flush", how="", rows=[], arg=0)
    for kind in ("file", "mem"):
        out.append(H(kind, 1, 1, *[W("rows", i) for i in range(1, 24)], R("tables"), R("frag"), W("rows", 30, 31), R("load", 20)))
        out.append(H(kind, 4, 4, W("rows", 1, 2), W("table", 3), W("rows", 4), R("tables")))
        out.append(H(kind, 4, 4, W("rows", 1, 2), W("rows", 3, 4), W("rows", 5), W("rows", 6, 7, 8), W("batch", 9), R("tables"), R("both", 5)))
        out.append(H(kind, 3, 7, *[W("columns", i, i) for i in range(1, 18)], R("load"), R("arrays", 9)))
        out.append(H(kind, 2, 3, F, R("tables"), W("rows"), R("load"), W("rows", 5), F, F, W("table", 6, 6), W("rows", 7), R("frag")))
        out.append(H(kind, 50, 50, *[W("rows", *range(i, i + 5)) for i in range(0, 60, 5)], R("load")))
    out.append(H("file", 1, 1, *[W("rows", i) for i in range(1, 106)], R("tables"), R("load", 40)))
    return out


def scenarios(prop, seed, tier, beh):
    comps = ["snappy", "gzip", "zstd", "none"]
    hs = directed() + beh
    return [dict(hist=h, comp=comps[(i + seed) % 4], salt=i, wide=i % 5 in (1, 3), place=i + seed) for i, h in enumerate(hs)]


def run(sc):
    return run_history(sc)
