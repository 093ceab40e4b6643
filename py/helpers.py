"""B04: helpers written in Python reproduce what they are given."""
import sys
sys.modules["minio"] = None
import copy
import csv
import dataclasses
import io
import itertools
import os
import random
import warnings
import numpy as np
import vhp

warnings.simplefilter("ignore")
NS = "http://vh.org/0.1/"
serial = itertools.count()


def setup(h):
    global dlite, Options, parse_query, make_query, DataModel, DM, DMTable, utils, factory, rdf, pint, Property, Dimension, rdflib
    import dlite
    from dlite import Property, Dimension
    from dlite.options import Options, parse_query, make_query
    from dlite import datamodel as DM
    from dlite.datamodel import DataModel
    from dlite.table import DMTable
    from dlite import utils, factory
    try:
        import rdflib
        from dlite import rdf
    except ImportError:
        rdf = None
    try:
        import pint
    except ImportError:
        pint = None


def refused(c, exc, what, f):
    try:
        r = f()
    except exc:
        return
    c.check(False, "refuse", "%s gives %r" % (what, r))


def product(spec):
    keys = list(spec)
    for v in itertools.product(*spec.values()):
        yield dict(zip(keys, v))


# ------------------------------------------------------------- options
STRS = ["", "a", "a b", "a;b&c=d", "%", "%%", "%25", "å€\U0001f600", "a+b/c:d?#", "~._-", "\n\"'\\", "%%[1]", "None", "1"]
JSONS = [None, True, False, 0, 1, -1.5, 1e300, [], [1, "a;=&", None], {}, {"k": [1, {"x": "%"}]}]


def case_options(h):
    for k in [s for s in STRS]:
        for v in STRS + JSONS:
            with h.case("options %r=%r" % (k, v)) as c:
                if c:
                    one_options(c, {k: v})
    vals = ["", "x;y", "%%1", None, 2, ["&"]]
    for n in (2, 3) if h.thorough else (2,):
        for ks in itertools.permutations(["a", "b=", "c;", ""], n):
            with h.case("options %r" % (ks,)) as c:
                if c:
                    for vs in itertools.product(vals, repeat=n):
                        one_options(c, dict(zip(ks, vs)))
    with h.case("options none") as c:
        if c:
            one_options(c, {})
            c.eq(Options(None), {}, "empty")
            c.eq(Options("", "a=1;b=2"), {"a": "1", "b": "2"}, "defaults")
            c.eq(parse_query("a=1&b=2;c=%%[1,2]"), {"a": "1", "b": "2", "c": [1, 2]}, "query")
            c.eq(parse_query("a=b=c"), {"a": "b=c"}, "query")


def one_options(c, d):
    for sep in ";&":
        q = make_query(d, sep)
        c.check(all(ch.isascii() and (ch.isalnum() or ch in "~._-%=" + sep) for ch in q), "encoding", "query %r" % q)
        c.check(q.count(sep) == max(len(d) - 1, 0), "encoding", "query %r has separators in keys or values" % q)
        c.eq(parse_query(q), d, "roundtrip", "parse_query(%r)" % q)
    o = Options(d)
    c.eq(dict(o), d, "options")
    c.eq(dict(Options(str(o))), d, "options", "str")
    for k, v in d.items():
        if k.isidentifier():
            c.eq(getattr(o, k), v, "attribute")
    for q in (d, make_query(d)):
        for df in ({"a": "0", "z": "9"}, "a=0;z=9"):
            c.eq(dict(Options(q, df)), {"a": "0", "z": "9", **d}, "defaults")
    try:
        o.nonexisting
        c.check(False, "attribute", "missing attribute gives a value")
    except KeyError:
        pass
    c.check("nonexisting" not in o, "attribute", "a failed lookup adds a key")
    o.new = [1]
    c.eq(dict(Options(str(o))), {**d, "new": [1]}, "attribute")


# ---------------------------------------------------------- data model
EXPRS = {"n": {"n"}, "m": {"m"}, "n+1": {"n"}, "2*m": {"m"}, "n*m-1": {"n", "m"}, "3": set(), "(k)": {"k"}}


def metadict(m):
    d = m.asdict(soft7=True, uuid=False, single=True)
    return {k: d[k] for k in ("uri", "description", "dimensions", "properties") if k in d}


def expect_meta(uri, dims, props, descr):
    """soft7 representation of metadata"""
    p = {}
    for q in props:
        e = {"type": q["type"]}
        for k in ("ref", "shape", "unit", "description"):
            if q.get(k):
                e["$ref" if k == "ref" else k] = list(q[k]) if k == "shape" else q[k]
        p[q["name"]] = e
    return {"uri": uri, "description": descr or "", "dimensions": {k: v or "" for k, v in dims.items()}, "properties": p}


def norm(d):
    d = copy.deepcopy(d)
    d["description"] = d.get("description") or ""
    d["dimensions"] = {k: v or "" for k, v in (d.get("dimensions") or {}).items()}
    d["properties"] = d.get("properties") or {}
    for p in d["properties"].values():
        if "ref" in p:
            p["$ref"] = p.pop("ref")
        for k in [k for k, v in p.items() if v in (None, "", [])]:
            del p[k]
    return d


def sameorder(a, b):
    return list(a["dimensions"]) == list(b["dimensions"]) and list(a["properties"]) == list(b["properties"])


def checkmeta(c, m, want, order=True):
    got = norm(metadict(m))
    c.eq(got, norm(want), "metadata")
    if order:
        c.check(sameorder(got, norm(want)), "order", "%r / %r" % (got, want))


def case_datamodel(h):
    shapes = [None, []] + [[e] for e in EXPRS] + [["n", "m"], ["n+1", "n"]]
    for dims in ([], ["n"], ["m", "n"], ["n", "m", "k"]):
        for descr in (None, "text"):
            with h.case("datamodel dims=%s descr=%s" % (dims, descr)) as c:
                if not c:
                    continue
                for s1, s2 in itertools.product(shapes, shapes):
                    for t1, unit, pd in (("int32", None, None), ("string", "m/s", "d"), ("float64", "", "")):
                        uri = NS + "DM%d" % next(serial)
                        dm = DataModel(uri, description=descr)
                        for d in dims:
                            dm.add_dimension(d, "about " + d)
                        dm.add_property("p", t1, s1, unit, pd)
                        dm.add_property("q", "ref" if False else "blob3", s2, description="other")
                        refused(c, KeyError, "a second property p", lambda: dm.add_property("p", "int"))
                        if dims:
                            refused(c, KeyError, "a second dimension", lambda: dm.add_dimension(dims[0], "x"))
                        used = set().union(*[EXPRS[e] for s in (s1, s2) for e in s or []])
                        c.eq(dm.get_missing_dimensions(), used - set(dims), "missing")
                        c.eq(dm.get_unused_dimensions(), set(dims) - used, "unused")
                        if used - set(dims):
                            refused(c, DM.MissingDimensionError, "a missing dimension", dm.get)
                        elif set(dims) - used:
                            refused(c, DM.UnusedDimensionError, "an unused dimension", dm.get)
                        else:
                            m = dm.get()
                            checkmeta(c, m, expect_meta(uri, {d: "about " + d for d in dims},
                                                        [dict(name="p", type=t1, shape=s1, unit=unit, description=pd), dict(name="q", type="blob3", shape=s2, description="other")], descr))
                            i = m({d: 2 for d in dims}) if dims else m()
                            c.eq(i.meta.uri, uri, "instance")


# --------------------------------------------------------------- tables
def tablemodels():
    shapes = [None, "n", "[n, m]", " [ n ] "]
    P = lambda **kw: kw
    props = [P(name="a", type="int32"), P(name="b", type="string", shape="[n]", description="text, with \"quotes\""),
             P(name="c", type="float64", unit="m", shape="[n, m]"), P(name="d", type="ref", ref=NS + "X", description="x;y"), P(name="e", type="blob2", shape=" [ m ] ", unit="s")]
    for k in (1, 2):
        for ps in itertools.permutations(props, k):
            yield list(ps)


def bare(p):
    q = dict(p)
    if q.get("shape"):
        q["shape"] = [s.strip() for s in q["shape"].strip().strip("[]").split(",")]
    return q


def table_of(models, fields, brackets, extra, pad):
    """Table with one row per model, and the header using `brackets`"""
    lab = dict(name="datumName", type="datumType", ref="datumRef", unit="datumUnit", shape="datumShape", description="datumDescription")
    head = (["comment"] if extra else []) + ["@id", "description"]
    for b in brackets:
        head += [lab[f] + b for f in fields]
    rows = [[pad + x for x in head]]
    for uri, descr, props in models:
        row = (["ignored"] if extra else []) + [pad + uri, descr]
        for i, b in enumerate(brackets):
            row += [pad + (props[i].get(f) or "") if i < len(props) else "" for f in fields]
        rows.append(row)
    return rows


def expect_table(uri, descr, props):
    dims = {}
    for p in props:
        for d in bare(p).get("shape") or []:
            dims[d] = "%s dimension" % d
    return expect_meta(uri, dims, [bare(p) for p in props], descr)


def case_table(h):
    fields = ["name", "type", "ref", "unit", "shape", "description"]
    for fo in (fields, fields[::-1], ["type", "description", "name", "shape", "unit", "ref"]):
        for brackets in (["", "[1]"], ["[1]", "[2]"], ["[x]", "[1]", ""]):
            for extra, pad in ((False, ""), (True, ""), (False, " ")):
                for how in ("list", "tuple", "csv", "csv;", "csvtab", "csvall", "lines", "excel"):
                    with h.case("table %s %s extra=%d pad=%r %s" % (fo[0], brackets, extra, pad, how)) as c:
                        if not c:
                            continue
                        allp = list(tablemodels())
                        for i in range(0, len(allp), 1 if h.thorough else 3 if how == "excel" else 1):
                            one_table(c, h, fo, brackets, extra, pad, how, allp[i], allp[-1 - i])
    with h.case("table refused") as c:
        if c:
            t = table_of([("nons", "d", [dict(name="a", type="int32")])], fields, [""], False, "")
            refused(c, ValueError, "no namespace", lambda: DMTable(t))
            (m,) = DMTable(t, baseuri=NS).get_datamodels()
            checkmeta(c, m, expect_table(NS + "nons", "d", [dict(name="a", type="int32")]))
    for nm in ({}, {"name": "N", "type": "T", "unit": "U"}):
        for missing in ((), ("description",), ("shape", "unit"), ("ref", "shape", "unit", "description")):
            with h.case("table columns %s missing=%s" % (nm, missing)) as c:
                if not c:
                    continue
                from dlite.table import DEFAULT_PROPERTY_MAPPINGS as PM
                pm = {**PM, **nm}
                for ps in tablemodels():
                    f = [x for x in fields if x not in missing]
                    uri = NS + "TC%d" % next(serial)
                    t = table_of([(uri, "d", ps)], f, ["", "[1]"], False, "")
                    inv = {PM[k]: pm[k] for k in nm}
                    for a, b in inv.items():
                        t[0] = [x.replace(a, b) for x in t[0]]
                    want = [{k: v for k, v in p.items() if k in f} for p in ps]
                    if any(p["type"] == "ref" and "ref" not in p for p in want):
                        continue
                    (m,) = DMTable(t, property_mappings=pm).get_datamodels()
                    checkmeta(c, m, expect_table(uri, "d", want))


def one_table(c, h, fo, brackets, extra, pad, how, p1, p2):
    u1, u2 = NS + "T%d" % next(serial), NS + "T%d" % next(serial)
    models = [(u1, "first", p1), (u2, "sec, ond", p2)]
    t = table_of(models, fo, brackets, extra, pad)
    fn = os.path.join(h.scratch, "t%d" % h.shard)
    if how == "list":
        dt = DMTable(t)
    elif how == "tuple":
        dt = DMTable(tuple(tuple(r) for r in t))
    elif how == "excel":
        import openpyxl
        wb = openpyxl.Workbook()
        for r in t:
            wb.active.append([x or None for x in r])
        wb.save(fn + ".xlsx")
        dt = DMTable.from_excel(fn + ".xlsx")
    else:
        if how == "csvall":     # dialects are not sniffed from doubled quotes
            t = [[x.replace('"', "'") for x in r] for r in t]
            p1, p2 = ([{k: v.replace('"', "'") for k, v in p.items()} for p in q] for q in (p1, p2))
        delim = {"csv;": ";", "csvtab": "\t"}.get(how, ",")
        s = io.StringIO()
        csv.writer(s, delimiter=delim, quoting=csv.QUOTE_ALL if how == "csvall" else csv.QUOTE_MINIMAL, lineterminator="\n").writerows(t)
        if how == "lines":
            dt = DMTable.from_csv(s.getvalue().splitlines(True), dialect="excel")
        else:
            with open(fn + ".csv", "w") as f:
                f.write(s.getvalue())
            dt = DMTable.from_csv(fn + ".csv") if how == "csvall" else DMTable.from_csv(fn + ".csv", delimiter=delim)
    ms = dt.get_datamodels()
    c.eq([m.uri for m in ms], [u1, u2], "uris", how)
    for m, (u, d, _), p in zip(ms, models, (p1, p2)):
        checkmeta(c, m, expect_table(u, d, p))


# ------------------------------------------------------------------ rdf
def case_rdf(h):
    if not rdf:
        return
    formats = ["turtle", "xml", "nt", "n3", "json-ld", "pretty-xml", "trig", "nquads"] if h.thorough else ["turtle", "xml", "nt", "json-ld"]
    types = [("int32", 1), ("float64", -1.5), ("string", 'a "b"\n<c>&å'), ("bool", True), ("uint8", 255), ("string8", "ab"), ("blob3", b"\x00\x01\xff"), ("int64", -2**62), ("string", "")]
    for fmt in formats:
        for t, v in types:
            for shape in ([], ["n"], ["n", "m"], ["n+1"]):
                for how in ("uri", "base") + (() if fmt in ("nt", "nquads") else ("uuid", "name")):
                    with h.case("rdf %s %s %r %s %s" % (fmt, t, v, shape, how)) as c:
                        if c:
                            one_rdf(c, fmt, t, v, shape, how, 2)
                            if shape:
                                one_rdf(c, fmt, t, v, shape, how, 0)
    for fmt in formats:
        for k in (1, 2, 3):
            for names in itertools.permutations("abc", k):
                with h.case("rdf meta %s %s" % (fmt, names)) as c:
                    if c:
                        uri = NS + "RM%d" % next(serial)
                        m = dlite.Metadata(uri, [Dimension("n" + n, "d" + n) for n in names], [Property(n, "int32", shape=["n" + n], unit="m" if n == "a" else None, description="p" + n) for n in names], "descr")
                        want = metadict(m)
                        s = rdf.to_rdf(m, format=fmt)
                        drop(m)
                        del m
                        c.check(not dlite.has_instance(uri, False), "setup")
                        back = rdf.from_rdf(data=s, format=fmt, id=uri)
                        checkmeta(c, back, want, order=False)


def plain(i):
    val = lambda v: v.tolist() if isinstance(v, np.ndarray) else v
    return {"meta": i.meta.uri, "dimensions": dict(i.dimensions), "properties": {p.name: val(i[p.name]) for p in i.meta["properties"]}}


def drop(m):
    """Release the reference held by the instance store"""
    m._decref()


def one_rdf(c, fmt, t, v, shape, how, size):
    k = next(serial)
    uri = NS + "R%d" % k
    dims = [d for d in ("n", "m") if any(d in s for s in shape)]
    m = dlite.Metadata(uri, [Dimension(d, "") for d in dims], [Property("p", t, shape=shape), Property("q", "int32")], "rdf")
    iid = {"uri": "http://vh.org/i%d" % k, "uuid": None, "base": "i%d" % k, "name": "i%d" % k}[how]
    i = m({d: {"n": size, "m": 1}[d] for d in dims}, id=iid)
    full = v
    for s in reversed(shape):
        full = [full] * {"n": size, "m": 1, "n+1": size + 1}[s]
    i.p = full
    i.q = 7
    base = "http://vh.org/base" if how == "base" else ""
    want = plain(i)
    wuuid = i.uuid
    g = rdf.to_rdf(i, format=fmt, base_uri=base)
    key = i.uri or i.uuid
    wm = metadict(m)
    del i
    drop(m)
    del m
    c.check(not dlite.has_instance(key, False) and not dlite.has_instance(uri, False), "setup", "still there")
    gr = rdflib.Graph()
    gr.parse(data=g, format={"pretty-xml": "xml"}.get(fmt, fmt), publicID=rdf.PUBLIC_ID)
    b = rdf.from_graph(gr, id=wuuid if how in ("uuid", "base") else key)
    c.eq(b.uuid, wuuid, "uuid")
    d = plain(b)
    c.eq(d["properties"], want["properties"], "values")
    c.eq(d["dimensions"], want["dimensions"], "dimensions")
    c.eq(d["meta"], want["meta"], "meta")
    checkmeta(c, b.meta, wm, order=False)
    mm = b.meta
    del b
    drop(mm)


# --------------------------------------- dataclasses, pydantic and dicts
def case_schema(h):
    E = utils.get_dataclass_entity_schema()
    PE = utils.get_pydantic_entity_schema() if utils.HAVE_PYDANTIC else None
    Pd = E.__dataclass_fields__
    opts = dict(type=["int32", "float64", "string"], shape=[None, [], ["n"], ["n", "m"], ["n+1"]], unit=[None, "m"], description=[None, "text"])
    for kind in ("dict", "json", "dataclass", "pydantic", "meta"):
        if kind == "pydantic" and not PE:
            continue
        for o in product(opts):
            with h.case("to_metadata %s %s" % (kind, o)) as c:
                if not c:
                    continue
                for descr in ("", "about"):
                    uri = NS + "E%d" % next(serial)
                    used = [x for x in "nm" if any(x in s for s in o["shape"] or [])]
                    d = {"uri": uri, "description": descr, "dimensions": {x: "dim " + x for x in used}, "properties": {"p": {k: v for k, v in o.items() if v is not None}, "q": {"type": "bool"}}}
                    want = expect_meta(uri, d["dimensions"], [dict(name="p", **o), dict(name="q", type="bool")], descr)
                    if kind == "dict":
                        m = utils.to_metadata(d)
                    elif kind == "json":
                        import json
                        m = utils.to_metadata(json.dumps(d))
                    elif kind == "dataclass":
                        @dataclasses.dataclass
                        class Prop:
                            type: str
                            shape: list = None
                            unit: str = None
                            description: str = None
                        m = utils.to_metadata(E(uri=uri, description=descr, dimensions=d["dimensions"], properties={"p": Prop(**o), "q": Prop("bool")}))
                    elif kind == "pydantic":
                        m = utils.to_metadata(PE(**d))
                    else:
                        m0 = utils.to_metadata(d)
                        m = utils.to_metadata(m0)
                        refused(c, TypeError, "data", lambda: utils.to_metadata(m0({x: 1 for x in used})))
                    checkmeta(c, m, want)


def case_pydantic(h):
    if not utils.HAVE_PYDANTIC:
        return
    from pydantic import BaseModel, Field, create_model
    from typing import List, Optional, Sequence
    scal = {"bool": (bool, True, "bool"), "int": (int, -3, "int64"), "float": (float, 2.5, "float64"), "str": (str, "x y", "string")}
    for (n1, (t1, v1, d1)), opt1, l1, (n2, (t2, v2, d2)), l2 in itertools.product(scal.items(), (0, 1), (0, 1, 2), scal.items(), (0, 1)):
        with h.case("pydantic %s opt=%d list=%d, %s list=%d" % (n1, opt1, l1, n2, l2)) as c:
            if not c:
                continue
            def ann(t, l, o):
                for _ in range(1 if l else 0):
                    t = List[t]
                return Optional[t] if o else t
            uri = "http://onto-ns.com/meta/0.1/Py%d" % next(serial)
            kw = {"unit": "m", "description": "first"}
            if l1 == 2:
                kw["shape"] = ["k"]
            M = create_model(uri.rsplit("/", 1)[1], a=(ann(t1, l1, opt1), Field(..., json_schema_extra={k: v for k, v in kw.items() if k != "description"}, description="first")), b=(ann(t2, l2, 0), Field(...)))
            m = utils.pydantic_to_metadata(M)
            dims = {}
            s1 = [None, ["na"], ["k"]][l1]
            s2 = [None, ["nb"]][l2]
            for s in (s1 or []) + (s2 or []):
                dims[s] = "Number of %s." % s
            checkmeta(c, m, expect_meta(uri, dims, [dict(name="a", type=d1, shape=s1, unit="m", description="first"), dict(name="b", type=d2, shape=s2)], ""))
            for la, lb in ((1, 2), (0, 1), (3, 0)):
                x = M(a=[v1] * la if l1 else v1, b=[v2] * lb if l2 else v2)
                i = utils.pydantic_to_instance(m, x)
                c.eq(i.meta.uri, uri, "meta")
                c.eq(i.a.tolist() if l1 else i.a, [v1] * la if l1 else v1, "value")
                c.eq(i.b.tolist() if l2 else i.b, [v2] * lb if l2 else v2, "value")
    for nl, missing in itertools.product((0, 1, 3), (0, 1)):
        with h.case("pydantic nested list=%d missing=%d" % (nl, missing)) as c:
            if not c:
                continue
            n = next(serial)
            Sub = create_model("Sub%d" % n, x=(int, Field(...)), y=(List[str], Field(...)))
            Top = create_model("Top%d" % n, s=(Sub, Field(...)), l=(List[Sub], Field(...)))
            x = Top(s=Sub(x=1, y=["a"]), l=[Sub(x=k, y=["b"] * k) for k in range(nl)])
            mt = utils.pydantic_to_metadata(Top)
            if missing:
                refused(c, utils.MetadataNotDefinedError, "an unknown sub-model", lambda: utils.pydantic_to_instance(mt, x))
                continue
            utils.pydantic_to_metadata(Sub)
            i = utils.pydantic_to_instance(mt, x)
            c.eq((i.s.x, i.s.y.tolist()), (1, ["a"]), "value")
            c.eq([(j.x, j.y.tolist()) for j in i.l], [(k, ["b"] * k) for k in range(nl)], "value")


# --------------------------------------------------- infer dimensions
def case_infer(h):
    shapes = [[], ["n"], ["m"], ["n", "m"], ["m", "n"], ["n", "n"]]
    for sa, sb in itertools.product(shapes, shapes):
        with h.case("infer %s %s" % (sa, sb)) as c:
            if not c:
                continue
            dims = [d for d in ("n", "m") if d in sa + sb]
            uri = NS + "I%d" % next(serial)
            for t in ("int32", "string", "ref"):
                uri = NS + "I%d" % next(serial)
                m = dlite.Metadata(uri, [Dimension(d, "") for d in dims], [Property("a", t, shape=sa, **({"ref": uri} if t == "ref" else {})), Property("b", "float64", shape=sb)], "")
                leaf = {"int32": 1, "string": "ab", "ref": None}[t]
                for la, lb in itertools.product(itertools.product((1, 2, 3), repeat=len(sa)), itertools.product((1, 2, 3), repeat=len(sb))):
                    for given in ("ab", "a", "b", ""):
                        want = {}
                        ok = True
                        for key, s, ln in (("a", sa, la), ("b", sb, lb)):
                            if key in given:
                                for d, x in zip(s, ln):
                                    ok &= want.setdefault(d, x) == x
                        ok &= set(want) == set(dims)

                        def fill(v, ln):
                            for x in reversed(ln):
                                v = [v] * x
                            return v
                        vals = {k: fill(v, ln) for k, v, ln in (("a", leaf, la), ("b", 1.5, lb)) if k in given}
                        if ok:
                            c.eq(utils.infer_dimensions(m, vals), want, "dims", "%s" % vals)
                            c.eq(utils.infer_dimensions(uri, vals), want, "dims")
                        else:
                            refused(c, utils.CannotInferDimensionError, "%s" % vals, lambda: utils.infer_dimensions(m, vals))
                if sa and t != "ref":
                    refused(c, utils.InvalidNumberOfDimensionsError, "a scalar", lambda: utils.infer_dimensions(m, {"a": leaf, "b": fill(1., (1,) * len(sb))}))
                refused(c, utils.CannotInferDimensionError, "an extra name", lambda: utils.infer_dimensions(m, {"x": 1}))


# ------------------------------------------------ referred instances
def case_referred(h):
    """All reference graphs on three instances, some of them in a collection"""
    uri = NS + "Ref"
    m = [None]

    def meta():
        if not m[0]:
            m[0] = dlite.Metadata(uri, [Dimension("n", ""), Dimension("k", "")], [Property("one", "ref", ref=uri), Property("many", "ref", ref=uri, shape=["n"]), Property("grid", "ref", ref=uri, shape=["n", "k"])], "")
        return m[0]
    targets = [None, 0, 1, 2]
    for t in itertools.product(targets, repeat=3):
        for coll in ((), (0,), (1, 2)):
            with h.case("referred %s coll=%s" % (t, coll)) as c:
                if not c:
                    continue
                for how in ("one", "many", "grid"):
                    I = [meta()({"n": 2, "k": 1}) for _ in range(3)]
                    E = [set() for _ in range(3)]
                    for a, b in enumerate(t):
                        if b is not None:
                            E[a].add(b)
                            setattr(I[a], how, I[b] if how == "one" else [None, I[b]] if how == "many" else [[None], [I[b]]])
                    cl = dlite.Collection()
                    for x in coll:
                        cl.add("l%d" % x, I[x])

                    def reach(start):
                        seen = set(start)
                        while True:
                            new = seen | {y for x in seen for y in E[x]}
                            if new == seen:
                                return seen
                            seen = new
                    for x in range(3):
                        got = utils.get_referred_instances(I[x])
                        c.eq(sorted(i.uuid for i in got), sorted(I[y].uuid for y in reach([x])), "reach", "%s from %d by %s" % (t, x, how))
                    got = utils.get_referred_instances(cl)
                    c.eq(sorted(i.uuid for i in got), sorted([I[y].uuid for y in reach(coll)] + [cl.uuid]), "reach", "%s from collection by %s" % (t, how))
                    got = utils.get_referred_instances(I[0], include_meta=True)
                    c.eq(sorted(i.uri for i in got if i.is_meta), sorted([uri, dlite.ENTITY_SCHEMA, dlite.BASIC_METADATA_SCHEMA]), "meta")
                    for i in I:
                        i.one = None
                        i.many = [None, None]
                        i.grid = [[None], [None]]
                    del i, got


# ------------------------------------------------------------- factory
class Plain:
    def __init__(self, a, s, v):
        self.a, self.s, self.v = a, s, v


class Getters:
    def __init__(self, a, s, v):
        self._a, self._s, self._v = a, s, v
    def get_a(self): return self._a
    def set_a(self, x): self._a = x
    def _dlite_get_s(self): return self._s
    def _dlite_set_s(self, x): self._s = x
    def get_v(self): return self._v
    def set_v(self, x): self._v = x


def case_factory(h):
    def meta(dims):
        return dlite.Metadata(NS + "F%d" % next(serial), [Dimension(d, "") for d in dims], [Property("a", "int32"), Property("s", "string"), Property("v", "float64", shape=dims)], "")
    vals = {(): [2.5, -1.0], ("n",): [[1., 2.], [], [3.]], ("n", "m"): [[[1., 2.], [3., 4.]], [[1.], [2.], [3.]]]}
    for cls in (Plain, Getters):
        for dims, vs in vals.items():
            for a, s in ((1, "x"), (-5, "")):
                for k, v in enumerate(vs):
                    with h.case("factory %s %s %r" % (cls.__name__, dims, (a, s, v))) as c:
                        if not c:
                            continue
                        m = meta(list(dims))

                        def state(o):
                            v = o.get_v() if cls is Getters else o.v
                            return (o.get_a(), o._s) if cls is Getters else (o.a, o.s), (np.asarray(v).tolist())

                        def check(o, w=(a, s, v), what=""):
                            c.eq(state(o), ((w[0], w[1]), w[2]), "object", what)

                        def checki(i, w=(a, s, v), what=""):
                            c.eq((i.a, i.s, np.asarray(i.v).tolist()), w, "instance", what)
                            c.eq(i.meta.uri, m.uri, "instance")
                        C = factory.classfactory(cls, meta=m)
                        o = C(a, s, v)
                        check(o); checki(o.dlite_inst)
                        c.check(isinstance(o, cls), "class")
                        o = C(a, s, v=v, instanceid="fid%d" % next(serial))
                        check(o); checki(o.dlite_inst)
                        p = cls(a, s, v)
                        for deep in (False, True):
                            iid = "oid%d" % next(serial)
                            e = factory.objectfactory(p, meta=m, deepcopy=deep, instanceid=iid)
                            check(e); checki(e.dlite_inst)
                            c.eq(e.dlite_inst.uuid, dlite.get_uuid(iid), "id")
                            check(p)
                            c.check(type(p) is cls, "class")
                        i = e.dlite_inst
                        n = factory.instancefactory(cls, i)
                        check(n, what="instancefactory"); checki(n.dlite_inst)
                        other = m(i.dimensions)
                        other.a, other.s, other.v = 9, "other", i.v * 2
                        n.dlite_assign(other)
                        w2 = (9, "other", (np.asarray(v) * 2).tolist())
                        check(n, w2, "dlite_assign")
                        fn = os.path.join(h.scratch, "f%d.json" % h.shard)
                        i.save("json", fn, "mode=w")
                        n.dlite_load("json", fn, "mode=r", i.uuid) if False else n.dlite_load(dlite.Storage("json", fn, "mode=r"), i.uuid)
                        check(n, what="dlite_load")
                        m2 = meta(list(dims))
                        refused(c, TypeError, "other metadata", lambda: n.dlite_assign(m2(i.dimensions)))


# ------------------------------------------------------------ quantity
def case_quantity(h):
    if not pint:
        return
    U = ["", "m", "km", "s", "degC", "K", "degree", "radian", "percent", "MPa"]
    ur = pint.get_application_registry()
    for pu in U:
        for vu in U:
            with h.case("quantity %s <- %s" % (pu, vu)) as c:
                if not c:
                    continue
                m = dlite.Metadata(NS + "Q%d" % next(serial), [Dimension("n", "")], [Property("x", "float64", unit=pu), Property("y", "float64", shape=["n"], unit=pu)], "")
                i = m([2])
                Q = ur.Quantity
                if not hasattr(ur.get(), "percent"):
                    i.q
                unit = lambda u: "%" if u == "percent" else u
                for v in (0.5, -3.0, 20.0, [1.0, 2.5]):
                    arr = isinstance(v, list)
                    n = "y" if arr else "x"
                    q = Q(np.array(v) if arr else v, vu)
                    if not vu:
                        want = v        # numbers without unit are in the unit of the property
                    else:
                        try:
                            want = q.to(pu).m
                        except pint.DimensionalityError:
                            want = None
                    forms = [("quantity", q), ("tuple", (v, vu))] + ([] if arr or vu == "degC" and False else [("string", "%r %s" % (v, vu))])
                    for fn, val in forms:
                        for st in ("attr", "item", "update", "set"):
                            i.x, i.y = 77., [77., 78.]

                            def assign():
                                if st == "attr":
                                    setattr(i.q, n, val)
                                elif st == "item":
                                    i.q[n] = val
                                elif st == "update":
                                    i.q.update(**{n: val})
                                else:
                                    if fn != "tuple":
                                        i.q[n] = val
                                    else:
                                        i.set_quantity(n, *val)
                            if want is None:
                                refused(c, Exception, "%s %r" % (fn, val), assign)
                                c.eq((i.x, i.y.tolist()), (77., [77., 78.]), "untouched")
                                continue
                            assign()
                            c.check(np.allclose(i[n], want, rtol=1e-12, atol=1e-12), "magnitude", "%s %s: %r %s gives %r %s, expected %r" % (fn, st, v, vu, i[n], pu, want))
                            g = i.q[n]
                            c.check(np.allclose(g.m, want), "get", "%r" % g)
                            c.check(g.u == ur.Unit(pu), "unit", "%r" % g)
                            c.eq(str(i.get_quantity(n)), str(g), "get_quantity")
                c.eq(i.q.names(), ["x", "y"], "names")
                c.eq([x or "" for x in i.q.units()], [pu, pu], "units")
                c.eq([k for k, _ in i.q.items()], ["x", "y"], "items")
                d = i.q.to_dict(value_type="magnitude")
                c.eq((d["x"], d["y"].tolist()), (i.x, i.y.tolist()), "to_dict")


def explore(h):
    for f in (case_options, case_datamodel, case_table, case_rdf, case_schema, case_pydantic, case_infer, case_referred, case_factory, case_quantity):
        f(h)


if __name__ == "__main__":
    vhp.main(explore, setup)
