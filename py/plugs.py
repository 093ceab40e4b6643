"""B05: storage plugins written in Python obey the storage contract.

`sessions` runs all short histories of saving, overwriting, deleting, loading,
listing, flushing, closing and reopening (in every mode) through each of the
generic file plugins and compares with a map from uuid to value.  `glue` runs a
plugin whose every method, in every combination of up to two, is missing,
raises or misbehaves, through all operations.  `single` covers the plugins
holding one instance: every small content has to come back."""
import sys
sys.modules["minio"] = None
import gc
import itertools
import os
import warnings
import numpy as np
import vhp

warnings.simplefilter("ignore")
NS = "http://vh.org/0.1/"
BASE = "http://vh.org/data/"
serial = itertools.count()


def setup(h):
    global dlite, T, T2, Property, Dimension, HAVE
    import dlite
    from dlite import Property, Dimension
    T = dlite.Metadata(NS + "T", [Dimension("n", "number")],
                       [Property("a", "int32", shape=["n"]), Property("s", "string", shape=["n"]), Property("x", "float64", unit="m", description="scalar"),
                        Property("t", "string"), Property("b", "blob3"), Property("l", "bool"), Property("m", "float64", shape=["n", "n"])], "things")
    T2 = dlite.Metadata("http://other.org/0.2/T2", [], [Property("v", "int64")], "others")
    HAVE = set()
    for m, d in (("yaml", "yaml"), ("bson", "bson"), ("rdflib", "pyrdf"), ("pandas", "csv"), ("jinja2", "jinja")):
        try:
            __import__(m)
            HAVE.add(d)
        except ImportError:
            pass
    os.makedirs(h.scratch + "/plugins", exist_ok=True)
    with open(h.scratch + "/plugins/vhplug.py", "w") as f:
        f.write(VHPLUG)
    conf(h)
    dlite.python_storage_plugin_path.append(h.scratch + "/plugins")
    dlite.storage_path.append("/nonexistent")
    gc.collect()
    gc.freeze()


# ------------------------------------------------------------- sessions
def make(n, v):
    """Instance `n` with variant `v` of its value."""
    if n == "A":
        i = dlite.Instance.from_metaid(NS + "T", [2 * v], BASE + "A")
        i.a = [-1, 2**31 - 1][:2 * v]
        i.s = ["å\n", "x: y"][:2 * v]
        i.x = [0.1, -2e300][v]
        i.t = ["a" * 40, "b"][v]
        i.b = [b"abc", b"\x00\xff\x10"][v]
        i.l = bool(v)
        i.m = np.arange(4.)[:4 * v].reshape((2 * v, 2 * v))
        return i
    if n == "B":
        i = dlite.Instance.from_metaid("http://other.org/0.2/T2", [], BASE + "B")
        i.v = [-7, 2**40][v]
        return i
    return dlite.Metadata(NS + "U", [Dimension("k", "kk")] * (1 + 0 * v), [Property("p", "float32", shape=["k"], unit="m"), Property("q", "ref", ref=NS + "T")], "stored")


URI = {"A": BASE + "A", "B": BASE + "B", "U": NS + "U"}
URI.update(MA=NS + "T", MB="http://other.org/0.2/T2", MU="http://onto-ns.com/meta/0.3/EntitySchema")
META = {"MA": URI["MU"], "MB": URI["MU"], "MU": "http://onto-ns.com/meta/0.3/BasicMetadataSchema", "A": NS + "T", "B": "http://other.org/0.2/T2", "U": "http://onto-ns.com/meta/0.3/EntitySchema"}
PATTERNS = [None, "*", NS + "T", NS + "*", "*T2", "http://*/meta/*", "nothing", ""]
DRIVERS = {"yaml": ["soft7=yes", "soft7=no", "urikey=yes", "with_uuid=yes"], "bson": ["soft7=yes", "soft7=no"],
           "pyrdf": ["format=turtle", "format=xml", "format=json-ld;base_uri=http://vh.org/base/", "format=nt;include_meta=no", "format=turtle;include_meta=yes"]}


def snap(i):
    if i.is_meta:
        return [i.uuid, i.uri, i.meta.uri, i.description, [(d.name, d.description) for d in i.properties["dimensions"]],
                [(p.name, p.type, p.shape.tolist(), p.unit, p.description) for p in i.properties["properties"]]]
    d = {}
    for k, v in i.properties.items():
        d[k] = v.tolist() if isinstance(v, np.ndarray) else bytes(v) if isinstance(v, (bytes, bytearray)) else v
        if isinstance(d[k], np.generic):
            d[k] = d[k].item()
    return [i.uuid, i.uri, i.meta.uri, dict(i.dimensions), d]


def norm(drv, s):
    """What the format is able to keep."""
    if drv == "pyrdf" and isinstance(s[4], list):  # no order in RDF
        s = s[:4] + [sorted(s[4], key=str), sorted(s[5], key=str)]
    return s


def drop(n, i):
    meta = i.is_meta
    if meta:
        i._decref()
    del i
    if meta:
        gc.collect()


class Session:
    def __init__(self, c, drv, opts, fn):
        self.c, self.drv, self.opts, self.fn = c, drv, opts, fn
        self.file = None
        self.buf = None
        self.s = None
        self.mode = None
        self.var = {"A": 0, "B": 0, "U": 0}

    def open(self, mode):
        c = self.c
        if self.s is not None:
            self.close()
        o = "mode=%s;%s" % (mode, self.opts)
        if self.file is None and (mode == "r" or mode == "a" and self.drv == "yaml"):
            if mode == "a":
                return False
            refused(c, dlite.DLiteError, "opening missing file", lambda: dlite.Storage(self.drv, self.fn, o))
            c.check(not os.path.exists(self.fn), "created", "read-only open creates the file")
            return False
        self.s = dlite.Storage(self.drv, self.fn, o)
        self.mode, self.tainted = mode, False
        self.buf = {} if mode == "w" else dict(self.file or {})
        c.eq(self.s.writable, mode != "r", "flags", mode)
        c.eq(self.s.generic, self.drv != "pyrdf", "flags", mode)
        return True

    def close(self):
        self.s.__exit__()
        self.s = None
        if self.mode != "r":
            self.file = self.buf
        self.buf = None

    def save(self, n):
        c = self.c
        self.var[n] ^= 1
        i = make(n, self.var[n])
        val, uuid = snap(i), i.uuid
        try:
            self.s.save(i)
            ok = True
        except dlite.DLiteError:
            ok = False
        drop(n, i)
        i = None
        c.check(ok or self.mode == "r", "save", "saving in mode %s fails" % self.mode)
        if self.mode == "r":
            self.tainted = True    # see "readonly"; only the file counts
            return
        if ok:
            self.buf[n] = norm(self.drv, val)
            if self.drv == "pyrdf" and (n != "U" and "include_meta" not in self.opts or "include_meta=yes" in self.opts):
                self.buf["M" + n] = None  # saved together with its metadata

    def delete(self, n, by):
        c = self.c
        try:
            self.s.delete(URI[n] if by else dlite.get_uuid(URI[n]))
            ok = True
        except dlite.DLiteError:
            ok = False
        if self.tainted:
            return
        if n in self.buf and self.mode != "r":
            if ok:
                del self.buf[n]
            else:
                c.check(self.drv in ("bson", "pyrdf"), "delete", "stored instance cannot be deleted")
        else:
            c.check(not ok or self.mode != "r", "delete", "deleted %s in mode %s" % (n, self.mode))

    def load(self, n, by):
        c = self.c
        id = URI[n] if by else dlite.get_uuid(URI[n])
        c.check(not dlite.has_instance(id, False), "left", "%s is in memory" % n)
        if n in self.buf:
            i = self.s.load(id)
            got = norm(self.drv, snap(i))
            c.eq(got, self.buf[n], "value", "%s by %s" % (n, "uri" if by else "uuid"))
            drop(n, i)
        else:
            refused(c, dlite.DLiteError, "loading missing " + n, lambda: self.s.load(id))
        i = None
        c.check(not dlite.has_instance(id, False), "leak", "%s stays in memory" % n)

    def listing(self, p):
        c = self.c
        want = sorted(dlite.get_uuid(URI[n]) for n in self.buf if p is None or p == "" or fnmatch(META[n], p))
        try:
            got = self.s.get_uuids(p)
        except dlite.DLiteError:
            got = []
        if p != "":
            c.eq(sorted(got or []), want, "uuids", "pattern %r" % p)
            ids = []
            it = self.s.instances(p)
            while True:
                try:
                    i = next(it)
                except StopIteration:
                    break
                ids.append(i.uuid)
                if i.uri == URI["U"]:
                    i._decref()
                i = None
            it = None
            c.eq(sorted(ids), want, "instances", "pattern %r" % p)

    def verify(self):
        if self.tainted:
            return
        for n in "ABU":
            self.load(n, 0)
            self.load(n, 1)
        for p in PATTERNS:
            self.listing(p)


def fnmatch(s, p):
    import fnmatch as f
    return f.fnmatchcase(s, p)


def refused(c, exc, what, f):
    try:
        r = f()
    except exc:
        return
    c.check(False, "refuse", "%s gives %r" % (what, r))


def case_sessions(h):
    ops = ["sA", "sB", "sU", "dA", "dB", "dU", "DA", "f", "v", "or", "oa", "ow"]
    for drv in DRIVERS:
        if drv not in HAVE:
            continue
        for opts in DRIVERS[drv]:
            for start in ("w", "a", "r"):
                for L in range(0, 4 if not h.thorough else 5):
                    if start != "w" and L > 1:
                        continue
                    if L >= 3 and opts != DRIVERS[drv][0] and not h.thorough:
                        continue
                    for seq in itertools.product(ops, repeat=L):
                        if drv in ("bson", "pyrdf") and any(o[0] in "dD" for o in seq):
                            if not (L == 2 and seq[0][0] == "s"):
                                continue   # no delete
                        if not meaningful(seq):
                            continue
                        with h.case("session %s %s %s %s" % (drv, opts, start, ",".join(seq))) as c:
                            if c:
                                run_session(h, c, drv, opts, start, seq)


def case_readonly(h):
    for drv in DRIVERS:
        if drv not in HAVE:
            continue
        with h.case("readonly save %s" % drv) as c:
            if c:
                fn = os.path.join(h.scratch, "r%d.%s" % (next(serial), "ttl" if drv == "pyrdf" else drv))
                with dlite.Storage(drv, fn, "mode=w") as s:
                    s.save(make("B", 0))
                with dlite.Storage(drv, fn, "mode=r") as s:
                    i = make("B", 1)
                    refused(c, dlite.DLiteError, "saving to read-only storage", lambda: s.save(i))


def meaningful(seq):
    have = any(o[0] in "s" for o in seq)
    for a, b in zip(seq, seq[1:]):
        if a == b and a[0] in "fv":
            return False
    return have or len(seq) < 2


def run_session(h, c, drv, opts, start, seq):
    fn = os.path.join(h.scratch, "s%d-%d" % (os.getpid(), next(serial)))
    fn += {"yaml": ".yaml", "bson": ".bson", "pyrdf": ".ttl"}[drv]
    s = Session(c, drv, opts, fn)
    try:
        if not s.open(start):
            return
        for o in seq:
            c.trace(o)
            if o[0] == "o":
                if not s.open(o[1]):
                    s.open("w")
            elif o[0] == "s":
                s.save(o[1])
            elif o[0] in "dD":
                s.delete(o[1], o[0] == "D")
            elif o == "f":
                try:
                    s.s.flush()
                except dlite.DLiteUnsupportedError:
                    pass
            else:
                s.verify()
        s.verify()
        c.trace("close")
        s.close()
        c.trace("reopen")
        if s.open("r"):
            s.verify()
            s.close()
        c.trace("append")
        if s.open("a"):
            s.save("B")
            s.close()
            s.open("r")
            s.verify()
            s.close()
    finally:
        s.s = None
        if os.path.exists(fn):
            os.unlink(fn)


# ------------------------------------------------------------- glue
METHODS = ["open", "close", "flush", "load", "save", "delete", "query", "from_bytes", "to_bytes"]
BAD = {"open": ["raise", "dlite"], "close": ["absent", "raise", "dlite"], "flush": ["absent", "raise", "dlite"],
       "load": ["absent", "raise", "dlite", "none", "wrong", "cls"], "save": ["absent", "raise", "dlite"], "delete": ["absent", "raise", "dlite"],
       "query": ["absent", "raise", "dlite", "none", "wrong", "nonuuid", "nonstr", "midraise", "list"],
       "from_bytes": ["absent", "raise", "none", "wrong"], "to_bytes": ["absent", "raise", "none", "wrong", "str", "bytearray", "large"]}
VHPLUG = r"""
import dlite, vhconf as C
def behave(m, ok):
    C.LOG.append(m)
    b = C.CONF.get(m)
    if b == "raise":
        raise ValueError("vh-%s-failed" % m)
    if b == "dlite":
        raise dlite.DLiteIndexError("vh-%s-failed" % m)
    if b == "none":
        return None
    if b == "wrong":
        return 5
    return ok()
def f_open(self, location, options=None):
    self.loc = location
    C.LIVE[0] += 1
    for a in ("readable", "writable", "generic"):
        if C.CONF.get(a) is not None:
            setattr(self, a, C.CONF[a])
    behave("open", lambda: None)
def f_load(self, id):
    if C.CONF.get("load") == "cls":
        return dlite.Instance
    return behave("load", lambda: C.make(id))
def f_save(self, inst):
    behave("save", lambda: C.SAVED.append((inst.uuid, inst.v)))
def f_delete(self, id):
    behave("delete", lambda: C.DELETED.append(id))
def f_query(self, pattern=None):
    b = C.CONF.get("query")
    if b in ("raise", "dlite", "none", "wrong"):
        return behave("query", None)
    C.LOG.append("query")
    C.PATTERN.append(pattern)
    if b == "list":
        return list(C.UUIDS)
    def gen():
        yield C.UUIDS[0]
        if b == "nonuuid":
            yield "abc"
        if b == "nonstr":
            yield 5
        if b == "midraise":
            raise ValueError("vh-query-failed")
        yield C.UUIDS[1]
    return gen()
def f_from_bytes(cls, buffer, id=None, options=None):
    C.GOT.append((bytes(buffer), id, options))
    return behave("from_bytes", lambda: C.make(id or "A"))
def f_to_bytes(cls, inst, options=None):
    C.GOT.append((inst.uuid, options))
    b = C.CONF.get("to_bytes")
    C.LOG.append("to_bytes")
    if b in ("raise", "none", "wrong"):
        return behave("to_bytes", None)
    r = b"data\0of" + inst.uuid.encode()
    return r.decode() if b == "str" else bytearray(r) if b == "bytearray" else r * 5000 if b == "large" else r
def f_close(self):
    behave("close", lambda: None)
def f_flush(self):
    behave("flush", lambda: None)
def f_del(self):
    C.LIVE[0] -= 1
ALL = dict(open=f_open, close=f_close, flush=f_flush, load=f_load, save=f_save, delete=f_delete, query=f_query,
           from_bytes=classmethod(f_from_bytes), to_bytes=classmethod(f_to_bytes), __del__=f_del)
CLS = {}
for k in C.ABSENT:
    n = "vh" + "".join("_" + m for m in k)
    CLS[n] = type(n, (dlite.DLiteStorageBase,), {m: f for m, f in ALL.items() if m not in k})
"""


def conf(h):
    import types
    C = types.ModuleType("vhconf")
    ms = [m for m in METHODS if "absent" in BAD[m]]
    C.ABSENT = [()] + [(m,) for m in ms] + list(itertools.combinations(ms, 2))
    C.LIVE, C.LOG, C.CONF = [0], [], {}

    def make(id):
        i = dlite.Instance.from_metaid("http://other.org/0.2/T2", [], id)
        i.v = 42
        return i
    C.make = make
    C.UUIDS = [dlite.get_uuid(BASE + "A"), dlite.get_uuid(BASE + "B")]
    sys.modules["vhconf"] = C
    return C


def case_glue(h):
    faults = [(m, b) for m in METHODS for b in BAD[m]]
    for k in range(0, 3):
        for fs in itertools.combinations(faults, k):
            if len({m for m, _ in fs}) < k:
                continue
            with h.case("glue " + ",".join("%s:%s" % f for f in fs)) as c:
                if c:
                    run_glue(c, fs, {})
    for fl in itertools.product((None, True, False), repeat=3):
        for fs in [()] + [(f,) for f in faults if f[0] in ("open", "save", "load", "delete", "close")]:
            with h.case("glue flags %s %s" % (fl, fs)) as c:
                if c:
                    run_glue(c, fs, dict(zip(("readable", "writable", "generic"), fl)))


    for b in ("raise", "dlite", "absent"):
        for how in ("storage", "location"):
            with h.case("lost save error %s %s" % (b, how)) as c:
                if c:
                    C = sys.modules["vhconf"]
                    C.CONF, drv = {"save": b}, "vh_save" if b == "absent" else "vh"
                    i = C.make(BASE + "S")
                    try:
                        if how == "storage":
                            with dlite.Storage(drv, "somewhere") as s:
                                s.save(i)
                        else:
                            i.save(drv, "somewhere", "mode=w")
                    except dlite.DLiteError:
                        continue
                    c.check(False, "lost", "save() fails in the plugin, but the caller is not told")


def run_glue(c, fs, flags):
    C = sys.modules["vhconf"]
    bad = dict(fs)
    C.CONF = dict(bad, **flags)
    C.LIVE[0] = 0
    C.LOG, C.SAVED, C.DELETED, C.PATTERN, C.GOT = [], [], [], [], []
    ab = tuple(m for m in METHODS if bad.get(m) == "absent")
    drv = "vh" + "".join("_" + m for m in ab)
    A, B = C.UUIDS
    before = dlite.get_instance("http://other.org/0.2/T2")._refcount

    def tell(m, what, f, ok, alive=True):
        """Run `f`, which has to fail exactly when method `m` misbehaves."""
        C.LOG.clear()
        c.trace(what)
        try:
            r = f()
        except dlite.DLiteError as e:
            c.check(bad.get(m) and bad[m] not in ok, "raise", "%s raises %r" % (what, e))
            if bad[m] in ("raise", "dlite", "midraise") and what != "from_location":
                c.check("vh-%s-failed" % m in str(e), "message", "%s: error is %s" % (what, e))
            return None, False
        if m == "save" and bad.get(m):
            return r, False   # see "lost"
        c.check(not bad.get(m) or bad[m] in ok, "silent", "%s succeeds and gives %r" % (what, r))
        return r, True

    writable = flags.get("writable") is not False
    s, ok = tell("open", "open", lambda: dlite.Storage(drv, "somewhere", "a=1"), ())
    if ok:
        c.eq((s.readable, s.writable, s.generic), (flags.get("readable") is not False, writable, flags.get("generic") is True), "flags")
        c.eq(C.LIVE[0], 1, "objects")
        i = C.make(BASE + "S")
        if writable:
            r, ok = tell("save", "save", lambda: s.save(i), ())
            c.eq(C.SAVED, [(i.uuid, 42)] if ok else [], "saved")
        c.eq(i._refcount, 1, "refcount", "after save")
        del i
        c.check(not dlite.has_instance(BASE + "S", False), "leak", "saved instance")
        for id in (A, BASE + "B"):
            r, ok = tell("load", "load", lambda: s.load(id), ())
            if ok:
                c.eq((r.uuid, r.v, r._refcount), (dlite.get_uuid(id), 42, 1), "loaded")
            del r
            c.check(not dlite.has_instance(id, False), "leak", "loaded instance")
        for p in (None, "", "a*"):
            C.PATTERN.clear()
            r, ok = tell("query", "uuids", lambda: s.get_uuids(p), ())
            if ok:
                c.eq(r, [A, B], "uuids")
                c.eq([x or None for x in C.PATTERN], [p or None], "pattern")
        if bad.get("load") is None:
            def it():
                out = []
                for x in s.instances():
                    out.append(x.uuid)
                return out
            x = None
            r, ok = tell("query", "iterate", it, ())
            if ok:
                c.eq(r, [A, B], "instances")
            del r, it
        if writable:
            for id in (A, BASE + "B"):
                r, ok = tell("delete", "delete", lambda: s.delete(id), ())
                c.eq(C.DELETED, [dlite.get_uuid(id)] if ok else [], "deleted")
                C.DELETED.clear()
        else:
            refused(c, dlite.DLiteError, "deleting from a storage that is not writable", lambda: s.delete(A))
            c.eq(C.DELETED, [], "deleted")
        tell("flush", "flush", lambda: s.flush(), ("absent",))
        C.LOG.clear()
        c.trace("close")
        fails = any(bad.get(m, "absent") != "absent" for m in ("flush", "close"))
        try:
            s.__exit__()
            c.check(not fails, "silent", "close succeeds")
        except dlite.DLiteError as e:
            c.check(fails, "raise", "close raises %r" % e)
        c.eq(C.LOG, [m for m in ("flush", "close") if bad.get(m) != "absent"], "close", "calls")
        s = None
    gc.collect()
    c.eq(C.LIVE[0], 0, "objects", "plugin objects alive after close")
    # whole-instance interface
    i = C.make(BASE + "S")
    C.SAVED.clear()
    if True:
        worst = next((m for m in ("open", "save") if bad.get(m)), "close" if bad.get("close", "absent") != "absent" else "flush")
        if worst == "save" and all(bad.get(m, "absent") == "absent" for m in ("flush", "close")):
            try:
                i.save(drv, "somewhere", "mode=w")
            except dlite.DLiteError:
                pass
            c.eq(C.SAVED, [], "saved")
        elif worst != "flush" or bad.get("flush", "absent") != "absent":
            refused(c, dlite.DLiteError, "save with failing " + worst, lambda: i.save(drv, "somewhere", "mode=w"))
        else:
            i.save(drv, "somewhere", "mode=w")
            c.eq(C.SAVED, [(i.uuid, 42)], "saved")
    r, ok = tell("to_bytes", "to_bytes", lambda: i.to_bytes(drv), ("bytearray", "large"))
    if ok:
        c.eq(bytes(r), (b"data\0of" + i.uuid.encode()) * (5000 if bad.get("to_bytes") == "large" else 1), "bytes")
    c.eq(i._refcount, 1, "refcount", "after to_bytes")
    del i
    r, ok = tell("from_bytes", "from_bytes", lambda: dlite.Instance.from_bytes(drv, b"some\0bytes", id=A), ())
    if ok:
        c.eq((r.uuid, r.v, C.GOT[-1][0]), (A, 42, b"some\0bytes"), "from_bytes")
    del r
    if not bad.get("open") and bad.get("close", "absent") == bad.get("flush", "absent") == "absent":
        r, ok = tell("load", "from_location", lambda: dlite.Instance.from_location(drv, "somewhere", id=A), ())
        if ok:
            c.eq((r.uuid, r.v, r._refcount), (A, 42, 1), "from_location")
        del r
    gc.collect()
    for id in (A, B, BASE + "S"):
        c.check(not dlite.has_instance(id, False), "leak", id)
    c.eq(C.LIVE[0], 0, "objects", "plugin objects alive in the end")
    c.eq(dlite.get_instance("http://other.org/0.2/T2")._refcount, before, "refcount", "metadata")


# ------------------------------------------------------------- single-instance plugins
def case_single(h):
    # blob: any content
    alpha = [b"", b"\0", b"\xff", b"a", b"\n", b"\r\n"]
    for k in range(0, 4):
        for t in itertools.product(alpha[1:], repeat=k):
            with h.case("blob %r" % (b"".join(t),)) as c:
                if c:
                    fn = os.path.join(h.scratch, "b%d.blob" % next(serial))
                    data = b"".join(t)
                    blob = dlite.Metadata("http://onto-ns.com/meta/0.1/Blob", [Dimension("n", "n")], [Property("content", "uint8", shape=["n"])], "blob")
                    with open(fn, "wb") as f:
                        f.write(data)
                    i = dlite.Instance.from_location("blob", fn)
                    c.eq(i.content.tobytes(), data, "content")
                    i.save("blob", fn + "2")
                    with open(fn + "2", "rb") as f:
                        c.eq(f.read(), data, "saved")
                    del i, blob
    # template: every property in both engines
    tmpl = {"format": "x={x} t={t} {{}} a={a}", "jinja": "x={{ x }} t={{ t }} {} a={{ a }}"}
    for eng in tmpl:
        if eng == "jinja" and "jinja" not in HAVE:
            continue
        for v in (0, 1):
            for prop in T["properties"]:
                with h.case("template %s %d %s" % (eng, v, prop.name)) as c:
                    if c:
                        n = prop.name
                        i = make("A", v)
                        fn = os.path.join(h.scratch, "t%d.txt" % next(serial))
                        with open(fn + ".in", "w", encoding="utf8") as f:
                            f.write("å <%s> <{}> }" % ("{%s}" % n) if eng == "jinja" else "å <{%s}> <{{}}> }}" % n)
                        if eng == "jinja":
                            with open(fn + ".in", "w", encoding="utf8") as f:
                                f.write("å <{{ %s }}> <{}> }" % n)
                        i.save("template", fn, "template=%s;engine=%s" % (fn + ".in", eng))
                        with open(fn, encoding="utf8") as f:
                            c.eq(f.read(), "å <%s> <{}> }" % (i[n],), "text")
                        del i
    # csv and friends through pandas
    if "csv" in HAVE:
        cols = {"int64": [[0, -1, 2**62], [7, 7, 7]], "float64": [[0.1, -1e300, 3.0], [1.5, 2.5, 1e-300]], "string": [["a b", 'q"x', "c,d"], ["å", "x;y", "-"]], "bool": [[True, False, True], [False, False, False]]}
        combos = [(a,) for a in cols] + list(itertools.product(cols, repeat=2))
        for fmt in ("csv", "json", "xlsx"):
            for combo in combos:
                for infer in (True, False):
                    for unit in (None, "m/s"):
                        for rows in (1, 3):
                            with h.case("csv %s %s infer=%s %s %d" % (fmt, ",".join(combo), infer, unit, rows)) as c:
                                if c:
                                    run_csv(h, c, fmt, combo, cols, infer, unit, rows)


def run_csv(h, c, fmt, combo, cols, infer, unit, rows):
    try:
        if fmt == "xlsx":
            import openpyxl
    except ImportError:
        return
    k = next(serial)
    uri = NS + "Csv%d" % k
    names = ["c%d" % j for j in range(len(combo))]
    M = dlite.Metadata(uri, [Dimension("rows", "rows")], [Property(n, t, shape=["rows"], unit=unit) for n, t in zip(names, combo)], "table")
    i = dlite.Instance.from_metaid(uri, [rows])
    want = {n: cols[t][j % 2][:rows] for j, (n, t) in enumerate(zip(names, combo))}
    for n in names:
        i[n] = want[n]
    fn = os.path.join(h.scratch, "c%d.%s" % (k, fmt))
    i.save("csv", fn, 'mode=w;pandas_opts="index": False' if fmt != "json" else "mode=w")
    c.eq(i._refcount, 1, "refcount")
    del i
    if infer:
        j = dlite.Instance.from_location("csv", fn, "mode=r;meta=%s" % (uri + "Inferred"))
        c.eq(j.meta.uri, uri + "Inferred", "meta")
        c.eq([(p.name, p.shape.tolist()) for p in j.meta["properties"]], [(n, ["rows"]) for n in names], "columns")
        c.eq([p.type for p in j.meta["properties"]], [t for t in combo], "types")
    else:
        j = dlite.Instance.from_location("csv", fn, "mode=r;infer=no;meta=%s;id=%s" % (uri, "csvid"))
        c.eq((j.meta.uri, j.uuid), (uri, dlite.get_uuid("csvid")), "identity")
    for n in names:
        c.eq(j[n].tolist(), want[n], "values", n)
    c.eq(dict(j.dimensions), {"rows": rows}, "rows")
    del j
    os.unlink(fn)


def case_bytes(h):
    spec = {"yaml": ["", "soft7=no", "single=no", "with_uuid=yes", "soft7=no;single=no;with_uuid=yes"],
            "pyrdf": ["", "format=turtle", "format=xml", "format=nt", "format=json-ld", "format=turtle;base_uri=http://vh.org/b/", "format=xml;base_uri=http://vh.org/b#;base_prefix=b"]}
    for drv in spec:
        if drv not in HAVE:
            continue
        for opts in spec[drv]:
            for n in "AB":
                for v in (0, 1):
                    for byid in (0, 1, 2):
                        with h.case("bytes %s %s %s%d %d" % (drv, opts, n, v, byid)) as c:
                            if c:
                                i = make(n, v)
                                val = snap(i)
                                b = i.to_bytes(drv, options=opts) if opts else i.to_bytes(drv)
                                c.eq(i._refcount, 1, "refcount")
                                del i
                                c.check(not dlite.has_instance(URI[n], False), "leak", "original")
                                if drv == "pyrdf" and not byid:
                                    byid = 1  # its metadata are there, too
                                id = [None, URI[n], dlite.get_uuid(URI[n])][byid]
                                kw = {"options": opts} if drv == "pyrdf" and opts else {}
                                j = dlite.Instance.from_bytes(drv, bytes(b), **({"id": id} if id else {}), **kw)
                                c.eq(snap(j), val, "value")
                                del j


def explore(h):
    for f in (case_sessions, case_readonly, case_glue, case_single, case_bytes):
        f(h)


if __name__ == "__main__":
    vhp.main(explore, setup)
