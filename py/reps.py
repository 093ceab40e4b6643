"""B02: every Python-level representation of an instance recreates it.

Each representation is a pair of functions: `make` (applied to the original
while it lives) and `load` (applied after the original has been released and
is gone from memory, so that loading really builds a new instance).  The
oracle is the content of the original, read property by property before it
was released."""
import sys
sys.modules["minio"] = None
import copy, gc, itertools, json, os, pickle
import numpy as np
import vhp, props
from props import NS, TYPES, vals, canon, conv, nest, entity


def setup(h):
    global dlite, Instance, YAML
    props.setup(h)
    import dlite
    from dlite import Instance
    try:
        import yaml
        YAML = True
    except ImportError:
        YAML = False


def read(t, shape, inst):
    v = inst["p"]
    if not shape:
        return [canon(t, v)]
    if not isinstance(v, np.ndarray) or v.shape != tuple(shape):
        raise vhp.Fail("shape", "got %r of shape %r, expected %r" % (type(v), getattr(v, "shape", None), shape))
    return [canon(t, x) for x in (v.reshape(-1) if v.dtype.kind != "V" else [x.tobytes() for x in v.reshape(-1)])]


def product(**kw):
    for w in itertools.product(*kw.values()):
        yield dict(zip(kw, w))


ID = "recreated"       # id given to instances that are represented without one


def uuidpath(x):
    return dlite.get_uuid(x)


def reps(t, hasuri, full):
    """(name, make, load, keeps identity?)"""
    B = (False, True)
    nojson = False
    for o in product(indent=(0, 3), single=(None, False, True), urikey=B, with_uuid=B, with_meta=B, with_arrays=B, no_parent=B):
        if not full and (o["indent"] or o["no_parent"] or o["single"] is None) and not all(o.values()):
            continue
        keep = not o["single"] or o["with_uuid"] or hasuri
        yield ("asjson %s" % json.dumps(o), lambda i, o=o: i.asjson(**o),
               lambda r, i, keep=keep: Instance.from_json(r) if keep else Instance.from_json(r, id=ID), keep)
    yield "str", str, lambda r, i: Instance.from_json(r), True
    yield "asjson id", lambda i: i.asjson(), lambda r, i: Instance.from_json(r, id=i), True
    for o in product(soft7=B, uuid=(None, False, True), single=(None, False, True)):
        keep = not o["single"] or o["uuid"] is None or o["uuid"] or hasuri
        mk = lambda i, o=o: i.asdict(**o)
        nm = json.dumps(o)
        yield ("asdict %s" % nm, mk, lambda r, i, keep=keep: Instance.from_dict(r, **({} if keep else dict(id=ID))), keep)
        yield ("asdict nocheck %s" % nm, mk, lambda r, i, o=o, keep=keep:
               Instance.from_dict(r, single=bool(o["single"]), check_storages=False, **({} if keep else dict(id=ID))), keep)
        yield ("asdict/json %s" % nm, lambda i, o=o: json.dumps(i.asdict(**o)),
               lambda r, i, keep=keep: Instance.from_json(r) if keep else Instance.from_json(r, id=ID), keep)

        def viastore(r, i, keep=keep):
            js = dlite.JStore()
            js.load_dict(r, **({} if keep else dict(id=ID)))
            return js.get()
        yield "asdict/jstore %s" % nm, mk, viastore, keep
    for o in product(soft7=B, single=(None, False, True), with_uuid=(None, False, True), with_meta=B, urikey=B, which=(0, 1)):
        keep = not o["single"] or o["with_uuid"] is None or o["with_uuid"] or hasuri
        if not full and (o["with_meta"] or o["single"] is None or o["with_uuid"] is None):
            continue

        def mk(i, o=o):
            js = dlite.JStore()
            js.add(i)
            o = dict(o)
            if o.pop("which"):
                o["id"] = i.uuid
            return js.get_dict(**o)

        yield ("jstore %s" % json.dumps(o), mk, lambda r, i, keep=keep: Instance.from_dict(r, **({} if keep else dict(id=ID))), keep)

    def store(i):
        js = dlite.JStore()
        js.add(i)
        return js

    yield "jstore get", store, lambda r, i: r.get(), True
    yield "jstore get id", store, lambda r, i: r.get(i), True
    yield "jstore get_json", lambda i: store(i).get_json(i.uuid), lambda r, i: Instance.from_json(r, id=i), True

    def merged(i):
        js = dlite.JStore()
        js += store(i)
        return js
    def selfmerged(i):
        js = store(i)
        js += js
        return js
    yield "jstore += self", selfmerged, lambda r, i: r.get(i), True
    yield "jstore +=", merged, lambda r, i: r.get(i), True
    yield "to_bytes json", lambda i: i.to_bytes("json"), lambda r, i: Instance.from_bytes("json", r), True
    yield "to_bytes json id", lambda i: i.to_bytes("json"), lambda r, i: Instance.from_bytes("json", r, id=i), True

    def tofile(i, fn, *a):
        i.save(*a)
        return fn

    for single in ("yes", "no"):
        for wu in ("yes", "no"):
            keep = single == "no" or wu == "yes" or hasuri
            fn = "f%s%s.json" % (single, wu)
            yield ("file json %s %s" % (single, wu), lambda i, fn=fn, single=single, wu=wu: tofile(i, fn, "json", fn, "mode=w;single=%s;with-uuid=%s" % (single, wu)),
                   lambda r, i, keep=keep: Instance.from_location("json", r, options="mode=r", id=i if keep else None), keep)
    if YAML and t not in ("dimension", "property"):
        for o in product(soft7=("yes", "no"), single=("yes", "no"), with_uuid=("yes", "no")):
            keep = o["single"] == "no" or o["with_uuid"] == "yes" or hasuri
            if not keep:
                continue
            fn = "f%s.yaml" % "".join(v[0] for v in o.values())
            yield ("file yaml %s" % json.dumps(o), lambda i, fn=fn, o=o: tofile(i, fn, "yaml", fn, "mode=w;soft7=%(soft7)s;single=%(single)s;with_uuid=%(with_uuid)s" % o),
                   lambda r, i: Instance.from_location("yaml", r, options="mode=r", id=i), True)
        yield "to_bytes yaml", lambda i: i.to_bytes("yaml"), lambda r, i: Instance.from_bytes("yaml", r, id=i), True
    if t not in ("float128", "dimension", "property"):
        yield "bson", lambda i: bytes(i.asbson()), lambda r, i: Instance.from_bson(r), True
    if t not in ("dimension", "property"):
        for proto in range(0, pickle.HIGHEST_PROTOCOL + 1) if full else (2, pickle.HIGHEST_PROTOCOL):
            yield "pickle %d" % proto, lambda i, p=proto: pickle.dumps(i, p), lambda r, i: pickle.loads(r), True
    yield "copy", lambda i: i.copy(), lambda r, i: r, False
    yield "copy newid", lambda i: i.copy(newid=ID), lambda r, i: r, False


def flatten(v):
    return [y for x in v for y in flatten(x)] if isinstance(v, list) else [v]


def gone(uuid):
    if dlite.has_instance(uuid, False):
        gc.collect()
    return not dlite.has_instance(uuid, False)


def one(c, key, t, shape, uri, val, name, make, load, keep):
    inst = Instance.from_metaid(entity(t, len(shape)), list(shape), uri)
    inst.before = 'sen"tinel'
    inst.after = -1
    inst.p = val
    want, uuid, iuri, metauri = read(t, shape, inst), inst.uuid, inst.uri, inst.meta.uri
    c.check(inst._refcount == 1, "refcount", "instance has %d references before" % inst._refcount)
    r = make(inst)
    c.check(name.startswith("copy") or inst._refcount == 1, "refcount", "%s left %d references" % (name, inst._refcount))
    c.check(read(t, shape, inst) == want, "changed", "%s changed the original" % name)
    if isinstance(r, dict):
        r0 = copy.deepcopy(r)
    del inst
    c.check(gone(uuid), "alive", "%s keeps the original alive" % name)
    new = load(r, uuid)
    c.check(isinstance(new, Instance), "load", "%s: loading gave %r" % (name, type(new)))
    if isinstance(r, dict):
        c.check(r == r0, "changed", "loading %s changed the dict" % name)
    c.eq(read(t, shape, new), want, "values", name)
    c.eq((new.before, new.after), ('sen"tinel', -1), "values", name + " (other properties)")
    c.eq(list(new.dimensions.items()), [("d%d" % i, n) for i, n in enumerate(shape)], "dimensions", name)
    c.eq(new.meta.uri, metauri, "meta", name)
    if keep:
        c.eq((new.uuid, new.uri), (uuid, iuri), "identity", name)
    elif name == "copy":
        c.check(new.uuid != uuid and new.uri is None, "identity", "copy has the same identity")
    elif name == "copy newid":
        c.eq((new.uuid, new.uri), (dlite.get_uuid(ID), ID), "identity", name)
    nuuid = new.uuid
    c.check(new._refcount == 1, "refcount", "%s: new instance has %d references" % (name, new._refcount))
    if not name.startswith("jstore get"):
        r = None
    del new
    c.check(gone(nuuid), "alive", "%s: new instance survives" % name)


# ------------------------------------------------------------- metadata
def metas():
    """(name, dimensions, properties, description)"""
    P, D = dlite.Property, dlite.Dimension
    texts = [None, "", "plain", 'q"uo\\te', "æøå\n"]
    for t in TYPES + ["int", "float", "double", "uint", "long", "string300", "blob1000"]:
        for rank in (0, 1, 2, 3):
            dims = [D("d%d" % i, "dim %d" % i) for i in range(rank)]
            shapes = [["d%d" % i for i in range(rank)]]
            if rank == 1:
                shapes += [["d0+1"], ["2*d0"]]
            if rank == 2:
                shapes += [["d1", "d0"], ["d0", "d0"], ["d0*d1", "d1-1"]]
            for shape in shapes:
                kw = dict(shape=shape) if rank else {}
                if t == "ref":
                    kw["ref"] = NS + "Target"
                try:
                    p = P("p", t, **kw)
                except dlite.DLiteError:
                    continue
                yield "%s %s" % (t, "x".join(shape) or "-"), dims, [p], "descr"
    for a in texts:
        for b in texts:
            for c in texts:
                yield "texts %r %r %r" % (a, b, c), [D("N", a)], [P("p", "int32", unit=b, description=c)], "x"
    for a in texts[1:]:
        yield "descr %r" % a, [], [], a
    for nd in range(4):
        for np_ in range(4):
            yield ("counts %d %d" % (nd, np_), [D("n%d" % i, "d") for i in range(nd)],
                   [P("p%d" % i, ["int32", "string", "float64"][i % 3], shape=["n%d" % j for j in range(nd)] or None) for i in range(np_)], "d")
    for names in (["æ"], ["a b"], ["name"], ["properties"], ["uri"], ["meta"], ["dimensions", "x"], ["description"], ["type"], ["_"]):
        yield "names %s" % names, [D(n + "_d", "") for n in names], [P(n, "int32", shape=[names[0] + "_d"] if names[0].isidentifier() and names[0].isascii() else None) for n in names], "d"


def metacontent(m):
    n = lambda s: s or None
    return (m.uuid, m.uri, m.meta.uri, m["description"] or None, [(d.name, n(d.description)) for d in m["dimensions"]],
            [(p.name, p.get_type(), n(p.ref), p.shape.tolist() if p.ndims else [], n(p.unit), n(p.description)) for p in m["properties"]],
            m.is_meta, m.is_data, m.is_metameta, m.ndimensions, m.nproperties, m.dimnames(), m.propnames())


def metareps():
    B = (False, True)
    for o in product(indent=(0, 2), single=(None, False, True), urikey=B, with_uuid=B, with_meta=B, with_arrays=B, no_parent=B):
        yield "asjson %s" % json.dumps(o), lambda i, o=o: i.asjson(**o), lambda r, i: Instance.from_json(r)
    for o in product(soft7=B, uuid=(None, False, True), single=(None, False, True)):
        mk = lambda i, o=o: i.asdict(**o)
        nm = json.dumps(o)
        yield "asdict %s" % nm, mk, lambda r, i: Instance.from_dict(r)
        yield "asdict nocheck %s" % nm, mk, lambda r, i: Instance.from_dict(r, check_storages=False)
        yield "asdict json %s" % nm, lambda i, o=o: json.dumps(i.asdict(**o)), lambda r, i: Instance.from_json(r)

        def viastore(r, i):
            js = dlite.JStore()
            js.load_dict(r)
            return js.get()
        yield "asdict jstore %s" % nm, mk, viastore
    for o in product(soft7=B, single=(None, False, True), with_uuid=(None, False, True), with_meta=B, urikey=B, which=(0, 1)):
        def mk(i, o=o):
            js = dlite.JStore()
            js.add(i)
            o = dict(o)
            if o.pop("which"):
                o["id"] = i.uuid
            return js.get_dict(**o)
        yield "jstore dict %s" % json.dumps(o), mk, lambda r, i: Instance.from_dict(r)

    def store(i):
        js = dlite.JStore()
        js.add(i)
        return js
    yield "jstore get", store, lambda r, i: r.get()
    yield "bytes json", lambda i: i.to_bytes("json"), lambda r, i: Instance.from_bytes("json", r)
    if YAML:
        yield "bytes yaml", lambda i: i.to_bytes("yaml"), lambda r, i: Instance.from_bytes("yaml", r)
    yield "bson", lambda i: bytes(i.asbson()), lambda r, i: Instance.from_bson(r)
    for proto in (0, 2, pickle.HIGHEST_PROTOCOL):
        yield "pickle %d" % proto, lambda i, p=proto: pickle.dumps(i, p), lambda r, i: pickle.loads(r)


def onemeta(c, name, dims, ps, descr):
    for k, (rep, make, load) in enumerate(metareps()):
        uri = NS + "M%d" % k
        c.trace(rep)
        m = dlite.Metadata(uri, dims, ps, descr)
        want, uuid = metacontent(m), m.uuid
        c.check(m._refcount == 2, "refcount", "metadata has %d references before" % m._refcount)  # one held by the instance store
        r = make(m)
        c.check(metacontent(m) == want, "changed", "%s changed the original" % rep)
        c.check(m._refcount == 2, "refcount", "%s left %d references" % (rep, m._refcount))
        # loading while the original is there returns the original
        same = load(r, uuid)
        c.check(same._refcount == 3 and metacontent(same) == want, "existing", "%s: loading existing metadata" % rep)
        m._decref()
        del same, m
        c.check(gone(uuid), "alive", "%s keeps the original alive" % rep)
        new = load(r, uuid)
        c.eq(metacontent(new), want, "metadata", rep)
        c.check(new._refcount == 2, "refcount", "%s: new metadata has %d references" % (rep, new._refcount))
        inst = dlite.Instance.from_metaid(uri, [2] * len(dims))
        c.eq(list(inst.dimensions.values()), [2] * len(dims), "usable", rep)
        new._decref()
        del inst, new
        r = None
        c.check(gone(uuid), "alive", "%s: new metadata survives" % rep)


def explore(h):
    for name, dims, ps, descr in metas():
        with h.case("meta " + name) as c:
            if c:
                onemeta(c, name, dims, ps, descr)
                c.observe("meta", name)
        h.transitions(3)
    shapes = [(), (0,), (1,), (3,), (2, 2), (0, 2), (1, 2, 2)] + ([(2, 0), (4,), (3, 2), (2, 1, 0)] if h.thorough else [])
    for t in TYPES:
        good = [v for v in vals(t)[0]]
        for shape in shapes:
            n = int(np.prod(shape, dtype=int))
            step = max(n, 1)
            rots = range(0, len(good), step) if n else [0]
            for hasuri in (False, True):
                for rot in rots:
                    if hasuri and rot and not h.thorough:
                        continue
                    full = h.thorough or (rot == 0)
                    groups = {}
                    for rep in reps(t, hasuri, full):
                        groups.setdefault(rep[0].split(" ")[0], []).append(rep)
                    for g, rs in groups.items():
                        key = "%s shape=%s uri=%d rot=%d %s" % (t, "x".join(map(str, shape)) or "-", hasuri, rot, g)
                        with h.case(key) as c:
                            if not c:
                                continue
                            flat = iter([good[(rot + k) % len(good)] for k in range(n if shape else 1)])
                            val = nest(flat, list(shape))
                            for name, make, load, keep in rs:
                                if name == "bson" and t == "string" and shape and None in flatten(val):
                                    continue  # refused: BSON has no such array
                                c.trace(name)
                                one(c, key, t, shape, "myinst" if hasuri else None, val, name, make, load, keep)
                                h.transitions(2)
                            c.observe(key)


if __name__ == "__main__":
    vhp.main(explore, setup)
