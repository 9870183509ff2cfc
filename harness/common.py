"""Shared by all harness families: numbers, event recording, storage layouts, running code under observation."""
import json, math, os, random, shutil, tempfile
from contextlib import contextmanager
from fractions import Fraction


def rat(x):
    """A float computed by the code as a reduced <<num, den>>; never guesses: the float must be that rational to 1e-12."""
    if isinstance(x, bool) or not isinstance(x, (int, float)):
        try:
            x = float(x)
        except Exception:
            return [-1, 0]
    if math.isnan(x) or math.isinf(x):
        return [-1, 0]
    f = Fraction(x).limit_denominator(2000000)
    if abs(float(f) - x) > 1e-12 or abs(f.numerator) >= 2 ** 31:
        return [-2, 0]
    return [f.numerator, f.denominator]


def rat_s(x):
    n, d = rat(x)
    if d == 0:
        return "!%r" % (x,) if n == -1 else "~%.9g" % x
    return "%d/%d" % (n, d)


class Shape(Exception):
    """An output of the code does not have the documented structure."""


class Rec:
    """Records the events of one scenario."""
    def __init__(self, prop):
        self.events, self.prop = [], prop

    def ev(self, e, **kw):
        kw["e"] = e
        self.events.append(kw)

    def exc(self, what, err, prop=None):
        self.ev("exc", p=prop or self.prop, what="%s: %s: %s" % (what, type(err).__name__, str(err)[:300]))


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vscr")
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# names of locations; those of the second list are given relative to the working directory
PLACES = ["c", "[ab]", "c[1]", "_c", ".c", "c*", "a b", "c%20d", "c?x=1", "{a,b}", "c.parquet", "00001", "~", "k=v", "c#d", "ü", "..c", "x\ny", "c\\d", "$HOME", "c'd"]
PLACES_HERE = ["c", "a:b", "run-12:30", "~", "file:c", "./d", "sub/e", "s3:", "[z]", "x.y:z"]


def place(k, n=1):
    """Names of n different locations, by index: mostly ordinary ones."""
    r = random.Random("place%d" % k)
    if k % 3 == 0:
        return ["c%d" % i for i in range(n)], False
    if k % 3 == 1:
        return r.sample(PLACES, n), False
    return r.sample(PLACES_HERE, n), True


@contextmanager
def standing(d, there=True):
    """With d as working directory."""
    old = os.getcwd()
    if there:
        os.chdir(d)
    try:
        yield
    finally:
        os.chdir(old)


def files_of(path):
    """All files below a directory with their contents (to show that nothing changed)."""
    out = {}
    for r, _, fs in os.walk(path):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, path)] = open(p, "rb").read()
    return out


def mems(rng):
    return dict(kind="mem", bs=rng.choice([1, 2, 3, 5, 10000]))


def filecfg(rng, tiny=False):
    return dict(kind="file", bs=rng.choice([1, 1, 2, 3, 7, 10000]), rpf=rng.choice([1, 1, 2, 3, 5, 8, 100000]),
                comp=rng.choice(["snappy", "gzip", "zstd", "none"]))


def storage(rng):
    return mems(rng) if rng.random() < 0.3 else filecfg(rng)


def finbs(rng):
    return rng.choice([1, 2, 3, 1000])


MISSING = -1000
# names in groups that something that tampers with names might confuse
WEIRD_L = [["a", "A", "a "], ["AAAA", "aaaa", " AAAA"], ["LABEL", "Label", "label"], ["1", "1.0", "01", "1e0"], ["0", "-0", "label_0"], ["", " ", "\t"], ["nan", "NaN", "None", "null"],
           ["é", "e\u0301", "e"], ["ünïcödé ☃", "ünïcödé ☄"], ["a,b", "a;b", "a\nb", "a\x00b"], ["'\"", "\\"], ["-1", "-"], ["background"], ["x" * 300, "x" * 299], ["true", "True"]]
WEIRD_U = [["u", "U", "u "], ["UUUU", "uuuu"], ["1", "1.0", "01", "1e0", "1_0"], ["0", "00"], ["", " ", "\t"], ["nan", "None", "null"], ["é", "e\u0301"], ["a/b", "a\\b", "../x", "b"], ["u" * 200, "u" * 199], ["Ω", "ω"],
           ["'", "\"", "\\"], ["-1", "uid-1"], ["a b", "a\nb"]]


def weird(groups, r):
    gs = [r.sample(g, len(g)) for g in r.sample(groups, len(groups))]
    return [x for g in gs for x in g]


def metatypes():
    """Types a metadata field can have: declared type, type of its values, increasing map of small integers into it."""
    import pyarrow as pa
    from datetime import date, datetime, time, timedelta, timezone
    from decimal import Decimal
    day = lambda n: date(2020, 1, 15) + timedelta(days=n)
    sec = lambda n: datetime(2019, 12, 31, 23, 59, 58) + timedelta(seconds=n)
    return [(pa.int64(), None, int), ("int64", pa.int64(), int), (pa.float64(), None, lambda n: n + .25), ("float32", pa.float32(), lambda n: n * .5), (pa.string(), None, lambda n: "%05d" % (n + 5000)),
            ("string", pa.string(), lambda n: "é" * (n + 50)), (pa.date32(), None, day), ("date32", pa.date32(), day), (pa.timestamp("s"), None, sec), (pa.timestamp("us", tz="UTC"), None, lambda n: sec(n).replace(tzinfo=timezone.utc)),
            (pa.time32("s"), None, lambda n: time(12 + (n + 60) // 60, (n + 60) % 60)), (pa.decimal128(9, 2), None, lambda n: Decimal(4 * n + 1) / 4), (pa.int8(), None, int), (pa.uint16(), None, lambda n: n + 60000),
            (pa.timestamp("ms"), None, sec), (pa.large_string(), None, lambda n: "%05d" % (n + 5000))]


GIVEN = []


def given(x):
    """A list handed to the code, which must stay as it is."""
    del GIVEN[:-20]
    GIVEN.append((x, list(x)))
    return x


def wreck(x, seen=None):
    """The caller uses its objects for something else: empties lists and dictionaries, overwrites arrays."""
    import numpy as np
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, (list, tuple)):
        for y in x:
            wreck(y, seen)
        if isinstance(x, list):
            x.clear()
    elif isinstance(x, dict):
        x.clear()
    elif isinstance(x, np.ndarray):
        if x.flags.writeable:
            x[...] = 0
    elif type(x).__module__.startswith("valor_lite"):
        for y in list(vars(x).values()):
            wreck(y, seen)


def metakind(rng):
    """Mostly one of the types that are not plain integers."""
    return rng.randrange(len(metatypes())) if rng.random() < .6 else 0


class Names:
    """External names of the abstract tokens 0, 1, 2, ... of a scenario."""
    def __init__(self, style=0, seed=0, U=1000, mt=0):
        self.style, self.U, self.blk = style, U, (1, 1)
        self.mt, self.mtype, self.meta = metatypes()[mt]
        self.l, self.u, self.a = {}, {}, {}
        r = random.Random("%s-%s" % (style, seed))
        self.lw, self.uw = weird(WEIRD_L, r), weird(WEIRD_U, r)

    def mval(self, n):
        """The metadata value n in a condition."""
        import pyarrow as pa
        return pa.scalar(self.meta(n), self.mtype or self.mt)

    def fields(self, fields):
        """The metadata fields, the integers among them with the type of this scenario."""
        import pyarrow as pa
        return [(n, self.mt if t == pa.int64() else t) for n, t in fields]

    def label(self, i):
        s = "L%d" % i if self.style == 0 else "lab_%d" % (97 - i) if self.style == 1 else (self.lw[i] if i < len(self.lw) else "L%d" % i)
        self.l[s] = i
        return s

    def uid(self, i):
        s = "u%d" % i if self.style == 0 else "%d-datum" % (999 - i) if self.style == 1 else (self.uw[i] if i < len(self.uw) else "u%d" % i)
        self.u[s] = i
        return s

    def ann(self, i):
        s = "a%d" % i if self.style != 1 else "%d~" % (9999 - i)
        self.a[s] = i
        return s

    def sc(self, x):
        """A score or threshold that the harness supplied as k/U."""
        try:
            k = round(float(x) * self.U)
            return k if k / self.U == float(x) else -7
        except Exception:
            return -7

    def ul(self, s):
        return self.l.get(s, -99)

    def uu(self, s):
        return self.u.get(s, -99)

    def ua(self, s):
        return self.a.get(s, -99)


def score_unit(rng):
    """Scores are integers k meaning k/U: coarse, fine, or with values close to zero."""
    return rng.choice([1000, 1000, 1000, 1000000, 200000000])


def fine(rng, s, U):
    """A score of the coarse grid (0..1000) moved to the grid of unit U, often next to a coarse one."""
    if U == 1000:
        return s
    if rng.random() < .15:
        return rng.choice([1, 1, 2, U - 1])
    return max(0, min(U, s * (U // 1000) + rng.choice([0, 0, 0, 1, -1, 2])))


def expr(atoms, col):
    """The pyarrow expression of a conjunction of atoms; col maps an atom's kind to (column, value mapping)."""
    import pyarrow as pa
    import pyarrow.compute as pc
    out = None
    for a in atoms:
        c, f = col(a["k"])
        if a["k"] in ("m", "s"):
            x = pc.field(c) >= f(a["n"])
        else:
            vs = [f(v) for v in a["set"]]
            if sum(a["set"]) % 3:                # a long list, most of whose values occur nowhere
                far = ["\ue000 nowhere %d" % i for i in range(24)]
                vs = far[:12] + vs + far[12:]
            x = pc.field(c).isin(pa.array(vs, pa.string()))
        if a["neg"]:
            x = ~x
        out = x if out is None else out & x
    return out


def atom(k, n=0, s=(), neg=0):
    return dict(k=k, n=n, set=list(s), neg=neg)


def chunks(rng, n):
    """How n datums are divided over add_data calls."""
    out = []
    mode = rng.choice(["one", "all", "mix"])
    while n > 0:
        k = n if mode == "all" else 1 if mode == "one" else rng.randrange(1, n + 1)
        out.append(k)
        n -= k
    return out


def squeeze(o, key, zero):
    """A matrix over many labels: its non-zero cells, and the keys and the extent of the whole."""
    rows = {}
    for c in o["cells"]:
        k, g, q = key(c)
        rows.setdefault(k, {}).setdefault(g, []).append(q)
    keys = {g for r in rows.values() for g in r} | {q for r in rows.values() for x in r.values() for q in x}
    o["extent"] = sorted({len(r) for r in rows.values()} | {len(x) for r in rows.values() for x in r.values()} | {len(set(x)) for r in rows.values() for x in r.values()})
    return {**o, "cells": [c for c in o["cells"] if not zero(c)], "keys": sorted(keys)}


def typed(res):
    """Flattens a dict MetricType -> [Metric] or list of Metric into (type, parameters, value)."""
    out = []
    if isinstance(res, dict):
        for k, ms in res.items():
            for m in ms:
                if m.type != k.value:
                    raise Shape("metric %s listed under %s" % (m.type, k))
                out.append((m.type, m.parameters, m.value))
    else:
        out = [(m.type, m.parameters, m.value) for m in res]
    return out


def micro(x):
    """A value in [0, 1] in millionths, for comparisons that allow for rounding."""
    try:
        x = float(x)
        return round(x * 1000000) if -1000 < x < 1000 else -9999999
    except Exception:
        return -9999999
