"""B03: histories of taking, using and dropping Python handles.

The alphabet takes every kind of handle on instances, metadata, collections
and JSON stores (proxies, array views and slices of them, object arrays,
relation/dimension/property items, property dicts, iterators and what they
yield), uses them and drops them in any order.  After every operation every
live handle has to show the expected value and every instance has to have
exactly the references accounted for by what is alive; in the end everything
has to be gone.  AddressSanitizer watches all memory accesses."""
import sys
sys.modules["minio"] = None
import gc
import os
import numpy as np
import vhp

NS = "http://vh.org/0.1/"


def setup(h):
    global dlite, T, BASE, FILE
    import dlite
    from dlite import Property, Dimension, Relation
    T = dlite.Metadata(NS + "T", [Dimension("n", "number")],
                       [Property("a", "int32", shape=["n"]), Property("s", "string", shape=["n"]), Property("r", "ref", ref=NS + "T"),
                        Property("rel", "relation", shape=["n"]), Property("x", "float64", unit="m", description="scalar"),
                        Property("b", "blob2", shape=["n"]), Property("f", "string4", shape=["n"])], "handles")
    BASE = T._refcount
    # a storage with two instances without properties
    Z = dlite.Metadata(NS + "Z", [], [], "empty")
    FILE = os.path.join(h.scratch, "handles%d.json" % h.shard)
    with dlite.Storage("json", FILE, "mode=w") as st:
        for n in "DE":
            Z(id=n).save_to_storage(st)
    gc.collect()
    gc.freeze()


def txt(x):
    return x.decode() if isinstance(x, bytes) else str(x)


VAL = {"A": 10, "B": 20}


def make(name):
    if name == "C":
        return dlite.Collection(id="C")
    i = dlite.Instance.from_metaid(NS + "T", [2], name)
    v = VAL[name]
    i.a = [v, v + 1]
    i.s = ["s%d" % v, None]
    i.rel = [("s", "p", "o%d" % v), ("s", "p", "o", "d")]
    i.x = v / 4
    i.b = [b"ab", b"cd"]
    i.f = ["abc%d" % (v // 10), ""]
    return i


class State:
    def __init__(self, c):
        self.c = c
        self.obj = {}        # slot -> python object
        self.hold = {}       # slot -> list of names held
        self.use = {}        # slot -> function checking the object
        self.members = {}    # label -> name
        self.r = {"A": None, "B": None}
        self.a0 = {}         # name -> first element of array a
        self.hist = []
        self.refused, self.nops = False, 0
        self.start, self.deep = "", False

    # --- model
    def alive(self):
        out = {n for l in self.hold.values() for n in l if n != "T"}
        while True:
            new = set(out)
            if "C" in out:
                new |= set(self.members.values())
            for x in ("A", "B"):
                if x in out and self.r[x]:
                    new.add(self.r[x])
            if new == out:
                return out
            out = new

    def count(self, n, alive):
        k = sum(l.count(n) for l in self.hold.values())
        if "C" in alive:
            k += list(self.members.values()).count(n)
        for x in ("A", "B"):
            if x in alive and self.r[x] == n:
                k += 1
        return k

    def put(self, slot, obj, hold, use=None):
        self.obj[slot], self.hold[slot], self.use[slot] = obj, list(hold), use

    def drop(self, slot):
        if slot == "view" and self.hold.get("slice") == []:
            self.hold["slice"] = self.hold["view"]  # the slice keeps the view
        del self.obj[slot], self.hold[slot], self.use[slot]

    def tidy(self):
        """Forget what died with its instance."""
        al = self.alive()
        if "C" not in al:
            self.members = {}
        for x in ("A", "B"):
            if x not in al:
                self.r[x] = None
                self.a0.pop(x, None)

    # --- checks
    def check(self):
        c = self.c
        self.tidy()
        al = self.alive()
        for n in "ABCDE":
            has = dlite.has_instance(n, False)
            if has and n not in al:
                gc.collect()
                has = dlite.has_instance(n, False)
            c.check(has == (n in al), "alive", lambda: "%s: %s is %s" % (self.hist, n, "alive" if has else "gone"))
        for slot, o in self.obj.items():
            f = self.use[slot]
            if f:
                c.check(f(o), "value", lambda: "%s: %s has changed" % (self.hist, slot))
        for n in al:
            o = next((o for s, o in self.obj.items() if s[0] == n and s[1:] in ("", "2")), None)
            tmp = o is None
            if tmp:
                o = dlite.get_instance(n, check_storages=False)
            got, want = o._refcount, self.count(n, al) + tmp
            del o
            c.check(got == want, "refcount", lambda: "%s: %s has %d references, expected %d" % (self.hist, n, got, want))
        want = BASE + len([n for n in al if n in "AB"]) + sum(l.count("T") for l in self.hold.values())
        c.check(T._refcount == want, "metaref", lambda: "%s: metadata has %d references, expected %d" % (self.hist, T._refcount, want))


def useinst(s, n):
    def use(o):
        if o.uuid != dlite.get_uuid(n) or o.uri != n:
            return False
        if n in "DE":
            return len(o) == 0 and o.meta.uri == NS + "Z"
        if n == "C":
            return len(o) == len(s.members) and sorted(o.get_labels()) == sorted(s.members)
        v = VAL[n]
        r = s.r[n]
        return (o.a.tolist() == [s.a0.get(n, v), v + 1] and list(o.s) == ["s%d" % v, None] and o.x == v / 4 and o.meta.uri == NS + "T"
                and [x.o for x in o.rel] == ["o%d" % v, "o"] and (o.r.uri if r else o.r) == r and o.dimensions["n"] == 2
                and [x.tobytes() for x in o.b] == [b"ab", b"cd"] and [txt(x) for x in o.f] == ["abc%d" % (v // 10), ""])
    return use


def ops(s):
    """Operations enabled in state `s`: (name, function)"""
    out = []
    add = lambda name, f: out.append((name, f))
    al = s.alive()
    ob = s.obj
    full = lambda x: x in ob
    for n in "ABC":
        if n not in al:
            add("new " + n, lambda n=n: (s.put(n, make(n), [n], useinst(s, n))))
        for sl in (n, n + "2"):
            if n in al and not full(sl):
                add("get " + sl, lambda n=n, sl=sl: s.put(sl, dlite.get_instance(n), [n], useinst(s, n)))
                break
    for slot in list(ob):
        def delete(slot=slot):
            s.drop(slot)
        add("del " + slot, delete)
    A = ob.get("A") or ob.get("A2") if ("A" in ob or "A2" in ob) else None
    B = ob["B"] if "B" in ob else ob.get("B2")
    C = ob["C"] if "C" in ob else ob.get("C2")
    if A is not None:
        if not full("view"):
            add("view", lambda: s.put("view", A.a, ["A"], lambda o: o.tolist() == [s.a0.get("A", 10), 11]))
        if not full("strs"):
            add("strs", lambda: s.put("strs", A.s, [], lambda o: list(o) == ["s10", None]))
        if not full("blob"):
            add("blob", lambda: s.put("blob", A.b[1], [], lambda o: o.tobytes() == b"cd"))
        if not full("fixs"):
            add("fixs", lambda: s.put("fixs", A.f, fixhold(A), lambda o: [txt(x) for x in o] == ["abc1", ""]))
        if not full("relitem"):
            add("relitem", lambda: s.put("relitem", A.rel[0], ["A"], lambda o: (o.s, o.p, o.o, o.d) == ("s", "p", "o10", None)))
        if not full("props"):
            def props():
                s.put("props", A.properties, ["A"] * propcount(A) + ([s.r["A"]] if s.r["A"] else []),
                      lambda o: o["a"].tolist() == [s.a0.get("A", 10), 11] and list(o["s"]) == ["s10", None] and o["x"] == 2.5)
            add("props", props)
        if not full("pitem"):
            add("pitem", lambda: s.put("pitem", A.meta["properties"][4], ["T"], lambda o: (o.name, o.type, o.unit, o.description) == ("x", "float64", "m", "scalar")))
        if not full("ditem"):
            add("ditem", lambda: s.put("ditem", A.meta["dimensions"][0], ["T"], lambda o: (o.name, o.description) == ("n", "number")))
        if not full("gprop"):
            add("gprop", lambda: s.put("gprop", A.get_property_descr("a"), ["T"], lambda o: (o.name, o.type, o.shape.tolist()) == ("a", "int32", ["n"])))
        if not full("dims"):
            add("dims", lambda: s.put("dims", A.get_dimensions(), ["A"], lambda o: o.tolist() == [2]) if hasattr(A, "get_dimensions") else None)
        if not full("meta"):
            add("meta", lambda: s.put("meta", A.meta, ["T"], lambda o: o.uri == NS + "T" and [p.name for p in o["properties"]] == ["a", "s", "r", "rel", "x", "b", "f"]))
        if not full("copy"):
            def copy():
                s.put("copy", A.copy(), ["T"] + ([s.r["A"]] if s.r["A"] else []), lambda o: o.s[0] == "s10" and o.a[1] == 11 and o.rel[0].o == "o10")
            add("copy", copy)
        if B is not None and s.r["A"] is None and "A" != s.r["B"]:
            def setr():
                A.r = B
                s.r["A"] = "B"
            add("A.r=B", setr)
        if s.r["A"]:
            def clr():
                A.r = None
                s.r["A"] = None
            add("A.r=None", clr)
            if not full("B2"):
                add("B2=A.r", lambda: s.put("B2", A.r, ["B"], useinst(s, "B")))
    if full("view") and not full("slice"):
        add("slice", lambda: s.put("slice", ob["view"][1:], [], lambda o: o.tolist() == [11]))
    if full("view"):
        def write():
            s.a0["A"] = s.a0.get("A", 10) + 100
            ob["view"][0] = s.a0["A"]
        add("write", write)
    busy = full("it") or full("itr")
    if C is not None:
        for n, X in (("A", A), ("B", B)):
            lab = n.lower()
            if X is not None and lab not in s.members and not busy:
                def addm(X=X, lab=lab, n=n):
                    C.add(lab, X)
                    s.members[lab] = n
                add("C.add " + n, addm)
            if lab in s.members and not busy:
                def rm(lab=lab):
                    C.remove(lab)
                    del s.members[lab]
                add("C.remove " + n, rm)
            if lab in s.members and not full(n + "2"):
                add(n + "2=C[]", lambda n=n, lab=lab: s.put(n + "2", C[lab], [n], useinst(s, n)))
                add(n + "2=get_id", lambda n=n: s.put(n + "2", C.get_id(dlite.get_uuid(n)), [n], useinst(s, n)))
        if not full("it"):
            def it():
                s.left = set(s.members.values())
                s.put("it", iter(C), ["C"])
            add("it", it)
        if not full("itr"):
            def itr():
                s.rleft = 3 * len(s.members)
                s.put("itr", C.get_relations(rettype="R"), ["C"])
            add("itr", itr)
        if not full("first") and s.members:
            lab = sorted(s.members)[0]
            add("first", lambda: s.put("first", C.get_first_relation(s=lab, p="_is-a"), [], lambda o: (o.s, o.p, o.o) == (lab, "_is-a", "Instance")))
        if not full("coll.props"):
            k = 3 * len(s.members)
            add("coll.props", lambda: s.put("coll.props", C.properties["relations"], [], lambda o: len(o) == k and all(isinstance(x[0], str) for x in o)))
    if full("it") and not full("yielded"):
        def nxt():
            x = next(ob["it"], None)
            if x is None:
                s.c.check(not s.left, "iterate", "%s: iteration ended with %r left" % (s.hist, s.left))
                return
            s.c.check(x.uri in s.left, "iterate", "%s: iteration gave %s" % (s.hist, x.uri))
            s.left.discard(x.uri)
            s.put("yielded", x, [x.uri], useinst(s, x.uri))
        add("next", nxt)
    if full("itr") and not full("yrel"):
        def nxtr():
            x = next(ob["itr"], None)
            s.c.check((x is None) == (s.rleft == 0), "iterate", "%s: %d relations left, got %r" % (s.hist, s.rleft, x))
            if x is not None:
                s.rleft -= 1
                t = (x.s, x.p, x.o)
                s.put("yrel", x, [], lambda o: (o.s, o.p, o.o) == t and t[1] in ("_is-a", "_has-uuid", "_has-meta"))
        add("nextrel", nxtr)
    if A is not None and not full("js"):
        def js():
            j = dlite.JStore()
            j.add(A)
            s.put("js", j, [], lambda o: len(o) == 1)
        add("js", js)
    if full("js"):
        if not full("ji"):
            add("ji", lambda: s.put("ji", ob["js"].get_ids(), []))
        if "A" in al and not full("A2"):
            add("A2=js.get", lambda: s.put("A2", ob["js"].get(), ["A"], useinst(s, "A")))
    if full("ji"):
        add("next id", lambda: next(ob["ji"], None) in (None, dlite.get_uuid("A")) or s.c.check(False, "iterate", "%s: bad id" % s.hist))
    # --- storages
    if not full("st") and not full("sit"):
        add("open", lambda: s.put("st", dlite.Storage("json", FILE, "mode=r"), [], lambda o: o.location == FILE and o.readable and o.driver == "json"))
    if full("st"):
        def sit():
            s.sleft = {"D", "E"}
            s.put("sit", iter(ob["st"]), [])
        if not full("sit"):
            add("sit", sit)

            def close():
                with ob["st"]:
                    s.drop("st")
            add("close", close)
        if not full("D"):
            add("load D", lambda: s.put("D", ob["st"].load("D"), ["D"], useinst(s, "D")))
    if full("sit"):
        def nexts():
            it = ob["sit"]
            s.c.check(iter(it) is it, "iterate", "iter(it) is not it")
            x = next(it, None)
            s.c.check((x is None) == (not s.sleft), "iterate", "%s: %r left, got %r" % (s.hist, s.sleft, x))
            if x is not None:
                s.c.check(x.uri in s.sleft, "iterate", "%s: got %s" % (s.hist, x.uri))
                s.sleft.discard(x.uri)
                s.put("loaded", x, [x.uri], useinst(s, x.uri))
        if not full("loaded"):
            add("next st", nexts)
    # --- requests that have to be refused without leaving anything behind
    if not s.refused and (s.deep or s.start != "empty" and s.nops == 1):
        if A is not None:
            add("refuse", lambda: refuse(s, A))
        if C is not None and not busy:
            add("refuse C", lambda: refusec(s, C, A, B))
    return out


def refused(s, what, f):
    try:
        x = f()
    except Exception:
        return
    s.c.check(False, "refuse", "%s: %s gives %r" % (s.hist, what, x))


def refuse(s, A):
    for what, f in (("get nope", lambda: A.nope), ("get item", lambda: A["nope"]), ("set nope", lambda: A.__setitem__("nope", 1)), ("index", lambda: A[99]),
                    ("bad int", lambda: A.__setitem__("a", ["x", "y"])), ("bad shape", lambda: A.__setitem__("a", [1, 2, 3])),
                    ("bad str", lambda: A.__setitem__("s", [1.5j])), ("bad ref", lambda: A.__setitem__("r", 3.14)), ("bad rel", lambda: A.__setitem__("rel", [("a",), ("b",)])),
                    ("bad blob", lambda: A.__setitem__("b", [b"abc", b"a"])), ("bad float", lambda: A.__setitem__("x", "xx")),
                    ("dim", lambda: A.get_dimension_size("nope")), ("descr", lambda: A.get_property_descr("nope")),
                    ("no meta", lambda: dlite.Instance.from_metaid(NS + "None", [2])), ("ndims", lambda: dlite.Instance.from_metaid(NS + "T", [2, 3])),
                    ("no inst", lambda: dlite.get_instance("nope")), ("json", lambda: dlite.Instance.from_json("{")),
                    ("dict", lambda: dlite.Instance.from_dict({"meta": NS + "T", "dimensions": {}, "properties": {}})),
                    ("load", lambda: dlite.Storage("json", FILE, "mode=r").load("nope"))):
        refused(s, what, f)
    gc.collect()  # tracebacks may form cycles


def refusec(s, C, A, B):
    for what, f in (("add None", lambda: C.add("x", None)), ("remove nope", lambda: C.remove("nope")), ("get nope", lambda: C.get("nope"))):
        refused(s, what, f)
    for n, X in (("A", A), ("B", B)):
        if X is not None:
            if n.lower() in s.members:
                refused(s, "add twice", lambda: C.add(n.lower(), X))
                refused(s, "get as", lambda: C.get(n.lower(), NS + "None"))
    gc.collect()


_fix = {}


def fixhold(A):
    """string4 arrays are either copied or viewed: both are fine"""
    if "f" not in _fix:
        k = A._refcount
        v = A.f
        _fix["f"] = A._refcount - k
        del v
    return ["A"] * _fix["f"]


def propcount(A):
    """number of references that the values of A.properties hold on A"""
    if "p" not in _fix:
        n = 0
        for p in "a s rel x b f".split():
            k = A._refcount
            v = A[p]
            n += A._refcount - k
            del v
        _fix["p"] = n
    return _fix["p"]


def begin(c, start):
    s = State(c)
    s.start, s.deep = start, DEEP
    if start == "rich":
        for step in ("new A", "new B", "new C", "C.add A", "A.r=B"):
            dict(ops(s))[step]()
    elif start == "held":       # only the collection is left
        for step in ("new A", "new B", "new C", "C.add A", "C.add B", "A.r=B", "del A", "del B"):
            dict(ops(s))[step]()
    s.check()
    return s


def run(c, start, path):
    s = begin(c, start)
    for i, name in enumerate(path):
        s.hist.append(name)
        c.trace(name)
        d = dict(ops(s))
        if name not in d:
            return None
        d[name]()
        del d
        s.nops += 1
        s.refused |= name.startswith("refuse")
        s.check()
    return s


def finish(s, k):
    slots = list(s.obj)
    if slots:
        k %= 2 * len(slots)
        if k >= len(slots):
            slots.reverse()
        k %= len(slots)
        slots = slots[k:] + slots[:k]
    for x in slots:
        s.hist.append("del " + x)
        s.drop(x)
        s.check()
    gc.collect() if s.c is None else None


DEEP = False


def explore(h):
    global DEEP
    DEEP = h.thorough
    plan = [("empty", 5, 3), ("rich", 4, 3), ("held", 4, 3)] if h.thorough else [("empty", 4, 3), ("rich", 3, 2), ("held", 3, 2)]

    def names(start, path):
        class Q:
            def check(self, *a): pass
            def trace(self, *a): pass
        s = run(Q(), start, path)
        n = [x for x, _ in ops(s)]
        finish(s, 0)
        return n

    def prefixes(start, d, path=()):
        if len(path) == d:
            yield path
            return
        for n in names(start, path):
            yield from prefixes(start, d, path + (n,))

    for start, depth, pre in plan:
        for p in prefixes(start, pre):
            with h.case("%s: %s" % (start, ", ".join(p))) as c:
                if not c:
                    continue
                leaf = [0]

                def dfs(path):
                    c2 = c
                    h.tr = []
                    s = run(c2, start, path)
                    nxt = [x for x, _ in ops(s)]
                    finish(s, leaf[0])
                    leaf[0] += 1
                    h.transitions(len(path) + 1)
                    if len(path) < depth:
                        for n in nxt:
                            dfs(path + (n,))
                dfs(p)
                c.observe(leaf[0])


if __name__ == "__main__":
    vhp.main(explore, setup)
