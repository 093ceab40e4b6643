"""B01: reading a property after assigning it from Python.

Every property type x shape x Python representation.  The reference model is
`conv` below: what a value means for a type, or Bad if it cannot be
represented, in which case the assignment has to raise and leave the
instance as it was."""
import sys
sys.modules["minio"] = None
import itertools, math, fractions, decimal
import numpy as np
import vhp

Bad = object()
NS = "http://vh.org/0.1/"


def setup(h):
    global dlite, REFS, UUIDS
    import dlite
    from dlite import Property, Dimension
    dlite.Metadata(NS + "Target", [], [Property("n", "int32")], "target")
    REFS = []
    for i in range(3):
        t = dlite.Instance.from_metaid(NS + "Target", [], "target%d" % i)
        t.n = i
        REFS.append(t)
    UUIDS = [t.uuid for t in REFS]


# ---------------------------------------------------------------- the model
def utf8(v):
    if isinstance(v, bytes):
        try:
            v = v.decode("utf-8")
        except UnicodeDecodeError:
            return Bad
    else:
        v = str(v)
    if "\0" in v:
        return Bad
    try:
        v.encode("utf-8")
    except UnicodeEncodeError:
        return Bad
    return v


def conv(t, v):
    """Canonical value of Python scalar `v` for type `t`, or Bad."""
    r = _conv(t, v)
    if isinstance(r, tuple) and any(isinstance(x, str) and utf8(x) is Bad for x in r):
        return Bad
    return r


def _conv(t, v):
    if t == "bool":
        try:
            return bool(v)
        except Exception:
            return Bad
    if t.startswith("int") or t.startswith("uint"):
        if isinstance(v, (str, bytes)) or v is None:
            return Bad
        try:
            n = int(v)
            if n != v:
                return Bad
        except Exception:
            return Bad
        bits = int(t.lstrip("uint"))
        lo, hi = (0, 2**bits - 1) if t[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        return n if lo <= n <= hi else Bad
    if t.startswith("float"):
        if isinstance(v, (str, bytes)) or v is None:
            return Bad
        try:
            x = float(v)
        except Exception:
            return Bad
        if t == "float32":
            x = float(np.float32(x))
        return "nan" if math.isnan(x) else x.hex()
    if t == "string":
        return None if v is None else utf8(v)
    if t.startswith("string"):
        s = utf8(v)
        return Bad if s is Bad or len(s.encode("utf-8")) > int(t[6:]) else s
    if t.startswith("blob"):
        n = int(t[4:])
        if isinstance(v, str):
            if len(v) != 2 * n or any(c not in "0123456789abcdefABCDEF" for c in v):
                return Bad
            return bytes.fromhex(v)
        try:
            b = memoryview(v).tobytes()
        except TypeError:
            return Bad
        return b if len(b) == n else Bad
    if t == "ref":
        if v is None:
            return None
        if isinstance(v, dlite.Instance):
            return v.uuid
        if isinstance(v, str) and v in UUIDS:
            return v
        if isinstance(v, str) and v.startswith("target"):
            return UUIDS[int(v[6:])]
        return Bad
    if t == "relation":
        if v is None:
            return (None,) * 4
        if isinstance(v, dlite.Relation):
            return (v.s, v.p, v.o, v.d)
        if isinstance(v, dict):
            w = [v.get(k) for k in "spod"]
            if any(not isinstance(x, str) for x in w[:3]) or not isinstance(w[3], (str, type(None))):
                return Bad
            return tuple(w)
        if isinstance(v, (list, tuple)):
            if not 3 <= len(v) <= 5 or any(not isinstance(x, str) for x in v):
                return Bad
            return tuple(v[:3]) + (v[3] if len(v) > 3 else None,)
        return Bad
    if t == "dimension":
        if isinstance(v, dlite.Dimension):
            return (v.name, v.description)
        if isinstance(v, (list, tuple)) and len(v) == 2 and isinstance(v[0], str):
            return (v[0], v[1] if isinstance(v[1], str) else None)
        return Bad
    if t == "property":
        if isinstance(v, dlite.Property):
            return (v.name, v.get_type(), v.ref, tuple(v.shape.tolist()) if v.ndims else (), v.unit, v.description)
        if isinstance(v, (list, tuple)) and len(v) == 6 and isinstance(v[0], str) and v[1] in ("int32", "float64"):
            shape = tuple(x.strip() for x in v[3].strip(" []").split(",") if x.strip()) if isinstance(v[3], str) else ()
            return tuple(v[:3]) + (shape,) + tuple(x if isinstance(x, str) else None for x in v[4:])
        return Bad
    raise AssertionError(t)


def canon(t, v):
    """Canonical form of value `v` read from a property of type `t`."""
    if t == "bool":
        assert isinstance(v, (bool, np.bool_)), type(v)
        return bool(v)
    if t.startswith("int") or t.startswith("uint"):
        assert isinstance(v, (int, np.integer)), type(v)
        return int(v)
    if t.startswith("float"):
        assert isinstance(v, (float, np.floating)), type(v)
        return "nan" if np.isnan(v) else float(v).hex()
    if t == "string":
        assert v is None or isinstance(v, str), type(v)
        return v
    if t.startswith("string"):
        return v.decode("utf-8") if isinstance(v, bytes) else str(v)
    if t.startswith("blob"):
        return v.tobytes() if hasattr(v, "tobytes") else bytes(v)
    if t == "ref":
        return None if v is None else v.uuid
    return conv(t, v)


def vals(t):
    """(good, bad) python scalars for type `t`."""
    R, D, P = dlite.Relation, dlite.Dimension, dlite.Property
    if t == "bool":
        return [True, False, 1, 0, np.bool_(True), np.bool_(False), 7, 0.5], [np.zeros(2)]
    if t.startswith("int") or t.startswith("uint"):
        bits = int(t.lstrip("uint"))
        lo, hi = (0, 2**bits - 1) if t[0] == "u" else (-2**(bits - 1), 2**(bits - 1) - 1)
        good = [lo, hi, 0, 1, lo + 1, hi - 1, True, 3.0, np.float32(4), np.int64(5), np.uint8(6), np.array(7),
                np.int8(9), np.uint64(10), fractions.Fraction(8)]
        if t[0] == "u":
            good += [np.uint64(hi)]
        else:
            good += [-1, np.int64(lo), -3.0, np.int8(-5)]
        bad = [lo - 1, hi + 1, 2**64, -2**63 - 1, 2**70, -2**70, 1.5, 1e300, float("nan"), float("inf"), "5", "", None,
               b"5", [5], (), 1j, object(), {}, np.float32(0.5), decimal.Decimal("1.5"), np.array([1, 2]), np.array(2.5)]
        if t[0] == "u":
            bad += [-1, np.int8(-1), -1.0]
        return good, bad
    if t.startswith("float"):
        return ([0.0, -0.0, 1.5, -2.25, float("inf"), float("-inf"), float("nan"), 3, -7, True, np.float32(0.1),
                 np.float64(0.1), np.int16(4), np.array(2.5), 0.1, fractions.Fraction(1, 4), 16777217, 5e-324]
                + ([1e308, 2**1000] if t != "float32" else []),
                ["1.5", "", None, [1.5], 1j, object(), 10**400, b"1", {}, np.array([1.0, 2.0])])
    if t == "string":
        return (["", "a", "æøå", "\U0001d11e", None, b"xy", 5, 1.5, "a\nb\t\"'\\", "x" * 300, np.str_("np"), np.bytes_(b"q"), " pad "],
                ["a\0b", "\0", b"\xff", "\ud800", b"a\0b"])
    if t.startswith("string"):
        n = int(t[6:])
        return (["", "a", "x" * n, b"y", "z" * (n - 1), 5, np.str_("n")] + (["æ", "aæ" if n > 2 else "æ"] if n > 1 else []),
                ["x" * (n + 1), "æ" * n, "a\0b", "\0", b"\xff", "\ud800", b"y" * (n + 1), 10**n])
    if t.startswith("blob"):
        n = int(t[4:])
        b = bytes(range(250, 250 + 6))[:n] if n < 6 else bytes(n)
        return ([b, bytearray(b), b.hex(), b.hex().upper(), memoryview(b), np.frombuffer(b, "u1"), bytes(n), b"\0" * (n - 1) + b"x",
                 np.array([b], "V%d" % n)[0]],
                [b + b"z", b[:-1], b"", "", "0" * (2 * n - 1), "0" * (2 * n + 1), "0" * (2 * n + 2), "zz" * n, "æ" * n, None, 5, 1.5, [1] * n,
                 np.zeros(n + 1, "u1"), object()])
    if t == "ref":
        return (REFS + UUIDS[:2] + ["target1", None], ["nope", "", 5, object(), [], b"target1"])
    if t == "relation":
        return ([("s", "p", "o"), ["a", "b", "c", "d"], ("a", "b", "c", "d", "myid"), R("x", "y", "z"), R("x", "y", "z", d="int"),
                 dict(s="1", p="2", o="3"), dict(s="1", p="2", o="3", d="xsd:int"), ("", "", ""), ("æ", "b", "c"), None],
                [("a", "b"), ("a",) * 6, "abc", ("a", 5, "c"), (None, "b", "c"), dict(s="a", p="b"), dict(s=1, p="b", o="c"), 5,
                 dict(s="a", p="b", o="c", d=5), ("\ud800", "b", "c"), object(), []])
    if t == "dimension":
        return ([D("N"), D("N", "descr"), ("K", "d"), ["K", None], ("æ", "ø")], [("K",), ("K", "d", "e"), 5, None, (5, "d"), object(), (), ("\ud800", "")])
    return ([P("a", "int32"), P("b", "float64", shape=["N", "M+1"], unit="m", description="d"), P("c", "ref", ref=NS + "Target"),
             ("n", "int32", None, None, None, None), ("n", "float64", None, "[N, M]", "m", "d"), ["n", "float64", None, "N", "m", None],
             ("n", "float64", None, "[]", "m", None)],
            [("n", "int32"), ("n", "nope", None, None, None, None), (5, "int32", None, None, None, None), None, 5, object(), ("n", 5, None, None, None, None)])


# ------------------------------------------------------------ representation
NUM = ("bool", "int", "uint", "float")
isnum = lambda t: t.startswith(NUM)


def nest(flat, shape, seq=list):
    if not shape:
        return next(flat)
    return seq([nest(flat, shape[1:], seq) for _ in range(shape[0])])


class Seq:
    """A minimal sequence"""
    def __init__(self, x):
        self.x = x

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        return self.x[i]


class ArrayLike:
    def __init__(self, x):
        self.x = x

    def __array__(self, dtype=None, copy=None):
        return self.x if dtype is None else self.x.astype(dtype)


def objarray(flat, shape):
    a = np.empty(shape, dtype=object)
    for i, v in enumerate(flat):
        a.reshape(-1)[i] = v
    return a


def layouts(a, name):
    """The array `a` in various memory layouts."""
    yield name + " C", a
    if a.ndim:
        yield name + " F", np.asfortranarray(a)
        big = np.empty(tuple(2 * s for s in a.shape), a.dtype)
        if a.dtype != object:
            big[...] = a.reshape(-1)[0] if a.size else np.zeros(1, a.dtype)[0]
        sl = tuple(slice(None, None, 2) for _ in a.shape)
        big[sl] = a
        yield name + " strided", big[sl]
        r = np.ascontiguousarray(a[::-1])
        yield name + " reversed", r[::-1]
    b = a.copy()
    b.flags.writeable = False
    yield name + " readonly", b
    if a.dtype.kind in "iuf" and a.dtype.itemsize > 1:
        yield name + " swapped", a.astype(a.dtype.newbyteorder())


def forms(t, good, shape):
    """All representations of `good` as an array of `shape`: (name, object, flat)."""
    n = int(np.prod(shape, dtype=int))
    cyc = [good[i % len(good)] for i in range(n)]
    yield "list", nest(iter(cyc), shape), cyc
    yield "tuple", nest(iter(cyc), shape, tuple), cyc
    yield "seq", nest(iter(cyc), shape, Seq), cyc
    for nm, a in layouts(objarray(cyc, shape), "object"):
        yield nm, a, cyc
    if "int" in t and len(shape) == 1:
        b = bytes(range(100, 100 + n))
        yield "bytes", b, list(b)
        yield "bytearray", bytearray(b), list(b)
        yield "memoryview", memoryview(b), list(b)
    if len(shape) > 1:
        yield "mixed", tuple(nest(iter(cyc), shape)), cyc
        yield "list of arrays", list(objarray(cyc, shape)), cyc
    dts = []
    if isnum(t):
        for dt in ("?", "i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "g"):
            dts.append(dt)
    elif t.startswith("string"):
        dts = ["U", "S"]
    elif t.startswith("blob"):
        dts = ["V%s" % t[4:], "S%s" % t[4:]]
        cyc = [conv(t, v) for v in cyc]
    for dt in dts:
        w = []
        for v in cyc:
            try:
                x = np.array([v]).astype(dt)[0] if dt[0] not in "VSU" else np.array([v if not isinstance(v, (bytearray, memoryview)) else bytes(v)], dtype=dt)[0]
                if dt[0] not in "VSU" and not (x == v):
                    x = np.array([1], dt)[0]
            except Exception:
                x = np.array([b"1" if dt[0] in "VS" else "1" if dt == "U" else 1]).astype(dt)[0]
            w.append(x)
        if dt[0] == "V":
            w = [bytes(x).ljust(int(dt[1:]), b"\0") for x in w]
        if dt[0] == "S" and len(dt) > 1:
            w = [bytes(x).ljust(int(dt[1:]), b"\0") for x in w]
        a = np.array(w, dtype=dt).reshape(shape) if n else np.empty(shape, dt if dt not in "US" else dt + "1")
        flat = list(a.reshape(-1))
        if dt[0] in "VS" and len(dt) > 1:
            flat = [bytes(x) for x in w]
        for nm, b in layouts(a, dt):
            yield nm, b, flat
        yield dt + " __array__", ArrayLike(a), flat
        if isnum(t) and shape:
            yield dt + " list", a.tolist(), list(a.reshape(-1))
            yield dt + " scalars", nest(iter(list(a.reshape(-1))), shape), list(a.reshape(-1))


def wrong(t, good, shape):
    """Objects of wrong shape: (name, object)."""
    n = int(np.prod(shape, dtype=int))
    cyc = [good[i % len(good)] for i in range(max(n * 4, 300))]
    for d in range(len(shape)):
        for delta in (-1, 1, 2):
            s = list(shape)
            s[d] += delta
            if s[d] < 0 or 0 in shape[:d]:
                continue
            yield "list dim%d%+d" % (d, delta), nest(iter(cyc), s)
            yield "array dim%d%+d" % (d, delta), objarray(cyc[:int(np.prod(s, dtype=int))], s)
            if isnum(t) or t == "string":
                yield "native dim%d%+d" % (d, delta), (np.zeros(s, t) if isnum(t) else np.full(s, "ab"))
    if n and len(shape) > 1:
        # ragged at every inner level: one sequence one too short or too long
        for d in range(1, len(shape)):
            for first in (True, False):
                for longer in (True, False):
                    x = nest(iter(cyc), shape)
                    y = x
                    for _ in range(d):
                        y = y[0 if first else -1]
                    if longer:
                        y.append(y[0])
                    elif y:
                        y.pop()
                    yield "ragged %d %d %d" % (d, first, longer), x
    if n > 1:
        yield "flattened" if len(shape) > 1 else "nested", (cyc[:n] if len(shape) > 1 else [cyc[:n]])
        if t not in ("relation", "dimension", "property"):
            yield "deeper array", objarray(cyc[:n], shape).reshape((1,) + tuple(shape)) if shape[0] != 1 else [[[[cyc[0]]]]] * 2
        yield "scalar", good[0]
        yield "None", None
        yield "int", 5
        yield "dict", {i: good[0] for i in range(n)}
        yield "set", set(range(n))
        yield "generator", (good[0] for _ in range(n))
        yield "0-d", np.array(5)
    if isnum(t) and n and len(shape) == 1 and shape[0] > 1:
        if "int" not in t:
            yield "bytes", b"x" * shape[0]
        yield "column", np.zeros((shape[0], 1), "i1") if shape[0] != 1 else 7
        yield "row", np.zeros((1, shape[0]), "i1")
        yield "string", "x" * shape[0]


TYPES = ["bool", "int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "float128",
         "string1", "string4", "string", "blob1", "blob3", "ref", "relation", "dimension", "property"]


def entity(t, rank):
    uri = NS + "%s_%d" % (t, rank)
    P = dlite.Property
    kw = dict(ref=NS + "Target") if t == "ref" else {}
    if rank:
        kw["shape"] = ["d%d" % i for i in range(rank)]
    dlite.Metadata(uri, [dlite.Dimension("d%d" % i) for i in range(rank)],
                   [P("before", "string"), P("p", t, **kw), P("after", "int64")], "x")
    return uri


class Ctx:
    def __init__(self, c, t, shape):
        self.c, self.t, self.shape = c, t, tuple(shape)
        self.n = int(np.prod(shape, dtype=int))
        self.inst = dlite.Instance.from_metaid(entity(t, len(shape)), list(shape))
        self.inst.before = "sentinel"
        self.inst.after = -1

    def read(self, how=0):
        i = self.inst
        v = (i.p if how == 0 else i["p"] if how == 1 else i[1] if how == 2 else i[-2] if how == 3 else
             i.get_property("p") if how == 4 else i.properties["p"] if how == 5 else list(i)[1])
        if not self.shape:
            return [canon(self.t, v)]
        self.c.check(isinstance(v, np.ndarray) and v.shape == self.shape, "shape",
                     "got %r of shape %r, expected %r" % (type(v), getattr(v, "shape", None), self.shape))
        return [canon(self.t, x) for x in (v.reshape(-1) if v.dtype.kind != "V" else [x.tobytes() for x in v.reshape(-1)])]

    def sentinels(self):
        self.c.check(self.inst.before == "sentinel" and self.inst.after == -1, "neighbours", "other properties changed")
        self.c.eq(list(self.inst.dimensions.values()), list(self.shape), "dimensions")

    def assign(self, v, how=0):
        i = self.inst
        if how == 0:
            i.p = v
        elif how == 1:
            i["p"] = v
        elif how == 2:
            i[1] = v
        elif how == 3:
            i[-2] = v
        else:
            i.set_property("p", v)

    def good(self, v, want, msg, how=0):
        try:
            self.assign(v, how)
        except dlite.DLiteError as e:
            raise vhp.Fail("refused", "%s: %.300r refused: %s" % (msg, v, e))
        for h in ((0, 1, 2, 3, 4, 5, 6) if how == 0 else (0,)):
            self.c.eq(self.read(h), want, "value", "%s: %.300r read by %d" % (msg, v, h))
        self.sentinels()

    def bad(self, v, msg, how=0):
        was = self.read()
        try:
            self.assign(v, how)
        except (dlite.DLiteError, TypeError, ValueError, OverflowError):
            self.c.eq(self.read(), was, "partial", "%s: refused %.300r changed the property" % (msg, v))
            self.sentinels()
            return
        raise vhp.Fail("accepted", "%s: %.300r accepted, reads back as %.300r" % (msg, v, self.read()))


def shapes(thorough):
    yield ()
    for r in (1, 2, 3):
        yield from itertools.product(range(4 if r < 3 or thorough else 3), repeat=r)


def explore(h):
    for t in TYPES:
        g = None
        for shape in shapes(h.thorough):
            key = "%s %s" % (t, list(shape))
            n = int(np.prod(shape, dtype=int))
            if not shape:
                good, bad = vals(t) if True else (None, None)
                for k, v in enumerate(good):
                    for how in range(5):
                        with h.case("%s good %d how %d" % (key, k, how)) as c:
                            if c:
                                x = Ctx(c, t, shape)
                                for prev in good if how == 0 else good[:2]:   # every value replaced by every other
                                    x.assign(prev)
                                    w = conv(t, v)
                                    x.good(v, [w], "scalar", how)
                                h.transitions(2 * len(good))
                                c.observe(t, repr(v)[:80])
                for k, v in enumerate(bad):
                    for how in range(5):
                        with h.case("%s bad %d how %d" % (key, k, how)) as c:
                            if c:
                                x = Ctx(c, t, shape)
                                assert conv(t, v) is Bad, (t, v)
                                x.bad(v, "unset", how)
                                for prev in good if how == 0 else good[:2]:
                                    x.assign(prev)
                                    x.bad(v, "scalar", how)
                                h.transitions(len(good))
                                c.observe(t, repr(type(v)), "bad")
                continue
            with h.case(key + " representations") as c:
                if c:
                    good, bad = vals(t)
                    x = Ctx(c, t, shape)
                    for off in range(0, len(good), max(1, min(n, len(good)))):
                        rot = good[off:] + good[:off]
                        for nm, v, flat in forms(t, rot, shape):
                            want = [conv(t, e) for e in flat]
                            if any(w is Bad for w in want):
                                x.bad(v, nm)
                            else:
                                x.good(v, want, nm)
                            h.transitions()
                    c.observe(key)
            with h.case(key + " wrong shapes") as c:
                if c:
                    good, bad = vals(t)
                    x = Ctx(c, t, shape)
                    for filled in (False, True):
                        for nm, v in wrong(t, good, shape):
                            if nm == "generator" and t == "relation":
                                continue
                            x.bad(v, nm)
                            h.transitions()
                        x.assign(nest(iter([good[i % len(good)] for i in range(n)]), shape))
                    c.observe(key, "wrong")
            if n:
                with h.case(key + " bad elements") as c:
                    if c:
                        good, bad = vals(t)
                        x = Ctx(c, t, shape)
                        cyc = [good[i % len(good)] for i in range(n)]
                        for k, b in enumerate(bad):
                            if isnum(t) and isinstance(b, (str, bytes)) and b:
                                continue    # numpy reads numbers from strings
                            for pos in range(n):
                                w = list(cyc)
                                w[pos] = b
                                for how in (0, 2):
                                    x.bad(nest(iter(w), shape), "bad %d at %d" % (k, pos), how)
                                    x.bad(objarray(w, shape), "array bad %d at %d" % (k, pos), how)
                                    h.transitions(2)
                        c.observe(key, "bad")
                with h.case(key + " own views") as c:
                    if c:
                        good, bad = vals(t)
                        x = Ctx(c, t, shape)
                        cyc = [good[i % len(good)] for i in range(n)]
                        can = [conv(t, e) for e in cyc]
                        grid = objarray(range(n), shape)
                        idx = [("same", tuple(slice(None) for _ in shape))] + [
                            ("rev%d" % d, tuple(slice(None, None, -1) if k == d else slice(None) for k in range(len(shape))))
                            for d in range(len(shape))]
                        for nm, sl in idx:
                            x.assign(nest(iter(cyc), shape))
                            want = [can[j] for j in grid[sl].reshape(-1)]
                            x.good(x.inst.p[sl], want, "own view " + nm)
                        if len(set(shape)) == 1 and len(shape) > 1:
                            x.assign(nest(iter(cyc), shape))
                            x.good(x.inst.p.T, [can[j] for j in grid.T.reshape(-1)], "own transposed")
                        # views are live for types stored inline
                        if isnum(t) or t.startswith(("blob", "string1", "string4")):
                            for j in range(n):
                                x.assign(nest(iter(cyc), shape))
                                view = x.inst.p
                                w = view.reshape(-1)
                                w[j] = w[(j + 1) % n]
                                want = list(can)
                                want[j] = can[(j + 1) % n]
                                c.eq(x.read(), want, "view", "writing element %d through a view" % j)
                        c.observe(key, "views")
            with h.case(key + " frozen") as c:
                if c:
                    good, bad = vals(t)
                    x = Ctx(c, t, shape)
                    cyc = [good[i % len(good)] for i in range(n)]
                    x.assign(nest(iter(cyc), shape))
                    was = x.read()
                    x.inst.freeze()
                    for how in range(4):
                        try:
                            x.assign(nest(iter(cyc[::-1]), shape), how)
                            raise vhp.Fail("frozen", "frozen instance assigned by %d" % how)
                        except dlite.DLiteError:
                            pass
                    for v in (x.inst.p, x.inst["p"], x.inst[1], x.inst.properties["p"]):
                        c.check(not v.flags.writeable, "frozen", "writeable view of frozen instance")
                    c.eq(x.read(), was, "frozen", "value changed")
                    c.observe(key, "frozen")


if __name__ == "__main__":
    vhp.main(explore, setup)
