"""B06: protocol plugins and archives transport bytes unchanged.

`tree` zips and unpacks every small directory with every combination of filters
and compressions, over every state of the target.  `archive` runs all short
histories of adding to an archive.  `file`, `http` and `zip` run histories of
operations through the protocol plugins (http against a server on the loopback
interface) and compare with a dictionary.  `plug` gives the Protocol class a
plugin with every set of absent, raising or narrow methods.  `inst` sends
instances through every protocol, driver, call signature and url form."""
import sys
sys.modules["minio"] = None
import gc
import io
import itertools
import os
import re
import shutil
import socket
import threading
import urllib.parse
import warnings
import zipfile
from http.server import BaseHTTPRequestHandler, HTTPServer
from pathlib import Path
import numpy as np
import vhp

warnings.simplefilter("ignore")
NS = "http://vh.org/0.1/"
serial = itertools.count()


def setup(h):
    global dlite, P, T, T2, Dimension, Property, HAVE
    os.environ["XDG_CACHE_HOME"] = h.scratch + "/cache"
    os.environ["HOME"] = h.scratch
    for k in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY"):
        os.environ.pop(k, None)
    import dlite
    from dlite import Dimension, Property
    import dlite.protocol as P
    T = dlite.Metadata(NS + "T", [Dimension("n", "number")], [Property("a", "int32", shape=["n"]), Property("s", "string"), Property("x", "float64")], "things")
    T2 = dlite.Metadata(NS + "T2", [], [Property("v", "int64")], "others")
    HAVE = {"json"}
    for m, d in (("yaml", "yaml"), ("bson", "bson"), ("rdflib", "pyrdf"), ("requests", "http")):
        try:
            __import__(m)
            HAVE.add(d)
        except ImportError:
            pass
    P.Protocol.load_plugins()


def fresh(h):
    d = Path(h.scratch) / ("p%d" % next(serial))
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir()
    return d


def put(d, tree):
    for k, v in tree.items():
        (d / k).parent.mkdir(parents=True, exist_ok=True)
        (d / k).write_bytes(v)


def get(d):
    return {str(p.relative_to(d)): p.read_bytes() for p in sorted(d.rglob("*")) if p.is_file()}


def refused(c, tag, f, *exc):
    try:
        r = f()
    except exc or Exception:
        return
    c.check(False, "accepted", "%s: accepted with result %.100r" % (tag, r))


# ------------------------------------------------------------- directories and archives
CONT = {"a.json": b"{}", "b.txt": b"", "s/c.json": b"\x00\xffPK\x03\x04", "s/t/d.bin": bytes(range(256)) * 5, "j": b"x" * 3000}
PATS = [None, r".*\.json$", "s", r"s/t/.*", "a", "json"]
COMP = [("none", None), ("deflated", None), ("deflated", 0), ("deflated", 9), ("bzip2", 1), ("bzip2", 9), ("lzma", None)]


def keep(name, incl, excl):
    return (not incl or bool(re.match(incl, name))) and not (excl and re.match(excl, name))


def case_tree(h):
    names = sorted(CONT)
    for k in range(0, len(names) + 1):
        for sub in itertools.combinations(names, k):
            for incl in PATS:
                for excl in PATS:
                    with h.case("load %s %s %s" % (",".join(sub), incl, excl)) as c:
                        if not c:
                            continue
                        d = fresh(h)
                        put(d, {n: CONT[n] for n in sub})
                        (d / "empty").mkdir()
                        before = get(d)
                        want = {n: CONT[n] for n in sub if keep(n, incl, excl)}
                        for comp, lev in COMP if not incl and not excl else [("lzma", None)]:
                            b = P.load_path(str(d) if lev else d, include=incl, exclude=excl, compression=comp, compresslevel=lev)
                            c.check(P.is_archive(b), "archive", "not an archive")
                            c.eq(sorted(P.archive_names(b)), sorted(want), "names", comp)
                            for n in want:
                                c.eq(P.archive_extract(b, n), want[n], "content", n)
                            refused(c, "extracting missing file", lambda: P.archive_extract(b, "nope"))
                            out = d.parent / (d.name + "o%s%s" % (comp, lev)) / "x" / "y"
                            P.save_path(b, out if lev is None else str(out))
                            c.eq(get(out) if out.exists() else {}, want, "unpacked", comp)
                            shutil.rmtree(out.parent.parent, ignore_errors=True)
                        c.eq(get(d), before, "source", "changed by reading")
                        shutil.rmtree(d)
    src = {"a.json": b"1", "s/c.json": b"22", "s/b.txt": b"333"}
    old = {"a.json": b"OLD", "s/b.txt": b"OLD", "z": b"Z"}
    for k in range(0, 4):
        for have in itertools.combinations(sorted(old), k):
            for over in (False, True):
                for incl in PATS:
                    for excl in PATS:
                        with h.case("save %s %d %s %s" % (",".join(have), over, incl, excl)) as c:
                            if not c:
                                continue
                            d = fresh(h)
                            put(d / "i", src)
                            (d / "o").mkdir()
                            put(d / "o", {n: old[n] for n in have})
                            b = P.load_path(d / "i", compression="deflated")
                            P.save_path(b, d / "o", overwrite=over, include=incl, exclude=excl)
                            want = {n: old[n] for n in have}
                            for n, v in src.items():
                                if keep(n, incl, excl) and (over or n not in have):
                                    want[n] = v
                            c.eq(get(d / "o"), want, "unpacked", "overwrite=%s" % over)
                            shutil.rmtree(d)
    for what in ("file", "dir", "missing", "deep"):
        for over in (False, True):
            for data in (b"", b"new", b"PK\x05\x06", "zip"):
                for io_ in (0, 1):
                    with h.case("single %s %d %r %d" % (what, over, data, io_)) as c:
                        if not c:
                            continue
                        d = fresh(h)
                        put(d, {"i/k": b"v"})
                        b = P.load_path(d / "i") if data == "zip" else data
                        t = d / "t" if what != "deep" else d / "x" / "y" / "t"
                        if what == "file":
                            t.write_bytes(b"OLD")
                        elif what == "dir":
                            put(t, {"k": b"OLD"})
                        if io_:
                            f = io.BytesIO(b)
                            c.eq(P.load_path(f), b, "io", "read")
                            g = io.BytesIO()
                            P.save_path(b, g)
                            c.eq(g.getvalue(), b, "io", "write")
                            fn = d / "raw"
                            with open(fn, "wb") as fp:
                                P.save_path(b, fp)
                            with open(fn, "rb") as fp:
                                c.eq(P.load_path(fp), b, "io", "file")
                            continue
                        if (what, data == "zip") in (("file", True), ("dir", False)):
                            refused(c, "saving to " + what, lambda: P.save_path(b, t, overwrite=over), ValueError, OSError)
                            c.eq(t.read_bytes() if what == "file" else get(t), b"OLD" if what == "file" else {"k": b"OLD"}, "kept", what)
                            continue
                        P.save_path(b, t, overwrite=over)
                        if what == "file":
                            c.eq(t.read_bytes(), b if over else b"OLD", "file", "overwrite=%s" % over)
                        elif data == "zip":
                            c.eq(get(t), {"k": b"OLD" if what == "dir" and not over else b"v"}, "dir", "overwrite=%s" % over)
                        else:
                            c.eq(t.read_bytes(), b, "file", "new")
                            c.eq(P.load_path(t), b, "file", "read back")
                        shutil.rmtree(d)
    with h.case("nondir target") as c:
        if c:
            d = fresh(h)
            put(d, {"i/k": b"v", "o/k/sub": b"x"})
            b = P.load_path(d / "i")
            refused(c, "overwriting a directory", lambda: P.save_path(b, d / "o", overwrite=True), OSError, ValueError)
            c.eq(get(d / "o"), {"k/sub": b"x"}, "kept")
            refused(c, "reading nothing", lambda: P.load_path(d / "nope"), OSError, ValueError, dlite.DLiteError)
    with h.case("socket") as c:
        if c:
            d = fresh(h)
            for data in (b"", b"hello", bytes(70000)):
                for form in (str, Path):
                    fn = d / ("s%d%s" % (len(data), form.__name__))
                    srv = socket.socket(socket.AF_UNIX)
                    srv.bind(str(fn))
                    srv.listen(1)
                    got = []

                    def serve(write):
                        con = srv.accept()[0]
                        if write:
                            con.sendall(data)
                        else:
                            while True:
                                b = con.recv(5000)
                                if not b:
                                    break
                                got.append(b)
                        con.close()
                    for write in (1, 0):
                        t = threading.Thread(target=serve, args=(write,))
                        t.start()
                        if write:
                            c.eq(P.load_path(form(fn)), data, "socket", "read")
                        else:
                            P.save_path(data, form(fn))
                        t.join()
                    c.eq(b"".join(got), data, "socket", "write")
                    srv.close()
            shutil.rmtree(d)
    for over in (0, 1):
        for have in (0, 1):
            for n, evil in enumerate((None, "../evil/x", "s/../../evil", "abs")):
                with h.case("entries %d %d %d" % (over, have, n)) as c:
                    if not c:
                        continue
                    d = fresh(h)
                    if evil == "abs":
                        evil = str(d / "evil/x")
                    buf = io.BytesIO()
                    with zipfile.ZipFile(buf, "w") as z:
                        z.writestr("s/", b"")
                        z.writestr("s/a", b"1")
                        z.writestr("e/f/", b"")
                        if evil:
                            z.writestr(evil, b"bad")
                    if have:
                        put(d / "o", {"s/a": b"OLD", "s/b": b"2"})
                    try:
                        P.save_path(buf.getvalue(), d / "o", overwrite=bool(over))
                        ok = True
                    except (ValueError, OSError, dlite.DLiteError):
                        ok = False
                    c.eq(sorted(os.listdir(d)), ["o"], "escaped", "an entry of the archive is written outside the target")
                    if not evil:
                        c.check(ok, "unpack", "refused")
                        c.eq(get(d / "o"), {"s/a": b"OLD" if have and not over else b"1", **({"s/b": b"2"} if have else {})}, "unpacked")
                    shutil.rmtree(d)


def case_archive(h):
    adds = [("n1", b"one"), ("n2", b""), ("s/n3", "tekst å"), ("n1x", bytes(range(256)))]
    for start in (0, 1, 2):
        for k in range(0, 4):
            for seq in itertools.permutations(range(4), k):
                with h.case("add %d %s" % (start, seq)) as c:
                    if not c:
                        continue
                    d = fresh(h)
                    put(d, dict([("k%d" % i, b"v%d" % i) for i in range(start)]))
                    b = P.load_path(d)
                    want = get(d)
                    shutil.rmtree(d)
                    for i in seq:
                        n, v = adds[i]
                        b0 = bytes(b)
                        nb = P.archive_add(b, n, v)
                        c.eq(b, b0, "argument", "changed")
                        b = nb
                        want[n] = v.encode() if isinstance(v, str) else v
                        c.eq(sorted(P.archive_names(b)), sorted(want), "names")
                        for m in want:
                            c.eq(P.archive_extract(b, m), want[m], "content", m)
    for bad in (b"", b"x", b"PK\x03\x04", b'{"a": 1}'):
        with h.case("nozip %r" % bad) as c:
            if c:
                c.check(not P.is_archive(bad), "is_archive", bad)
                refused(c, "names", lambda: P.archive_names(bad), TypeError)
                refused(c, "extract", lambda: P.archive_extract(bad, "x"), TypeError)
                refused(c, "add", lambda: P.archive_add(bad, "x", b"x"), TypeError)


# ------------------------------------------------------------- file plugin
DATA = [b"", b"data-1", b"\x00\xff\n\r\n" * 7]


class FileModel:
    """The location is missing (None), a file (bytes) or a directory (dict)."""

    def __init__(self, h, c, start, form):
        self.h, self.c, self.form = h, c, form
        self.d = fresh(h)
        self.path = self.d / ("loc å%20b" if form == "odd" else "loc")
        self.st = {"missing": None, "file": b"first", "dir": {"k1": b"one"}, "empty": {}}[start]
        if isinstance(self.st, bytes):
            self.path.write_bytes(self.st)
        elif self.st is not None:
            self.path.mkdir()
            put(self.path, self.st)
        self.pr, self.mode = None, None
        self.n = 0

    def actual(self):
        if self.path.is_dir():
            return get(self.path)
        return self.path.read_bytes() if self.path.exists() else None

    def open(self, mode):
        c = self.c
        loc = {"str": str(self.path), "path": self.path, "odd": str(self.path), "url": "file://" + str(self.path),
               "url1": "file:" + str(self.path), "nourl": str(self.path)}[self.form]
        o = ";".join((["mode=" + mode] if mode else []) + (["url=no"] if self.form == "nourl" else []))
        if self.pr and not self.pr.closed:
            self.pr.close()
        self.pr = P.Protocol("file", loc, options=o or None)
        self.mode = mode or ("w" if self.st is None else "r")

    def step(self, op):
        c = self.c
        kind = op[0]
        if kind == "open":
            self.open(op[1])
        elif self.pr is None or self.pr.closed:
            return False
        elif kind == "save":
            uuid = op[1]
            self.n += 1
            data = DATA[self.n % len(DATA)]
            new = self.st
            fail = not ("w" in self.mode or "a" in self.mode)
            over = "w" in self.mode
            lax = False
            if uuid:
                if isinstance(self.st, bytes):
                    fail = True
                else:
                    new = dict(self.st or {})
                    if over or uuid not in new:
                        new[uuid] = data
                    else:
                        lax = True      # appending to what is there already: it is only required to be kept
            elif isinstance(self.st, dict):
                fail = True
            elif self.st is None or over:
                new = data
            else:
                lax = True
            if fail:
                refused(c, "save %s in mode %s" % (uuid, self.mode), lambda: self.pr.save(data, uuid=uuid))
            else:
                try:
                    self.pr.save(data, uuid=uuid) if uuid else self.pr.save(data)
                except Exception:
                    if not lax:
                        raise
                self.st = new
        elif kind == "load":
            uuid = op[1]
            st = self.st
            if uuid:
                want = st.get(uuid) if isinstance(st, dict) else st   # a file is one piece
            else:
                want = st
            if want is None or "r" not in self.mode:
                refused(c, "load %s in mode %s" % (uuid, self.mode), lambda: self.pr.load(uuid=uuid))
            else:
                got = self.pr.load(uuid=uuid) if uuid else self.pr.load()
                if isinstance(want, dict):
                    c.eq({n: P.archive_extract(got, n) for n in P.archive_names(got)}, want, "load", "directory")
                else:
                    c.eq(got, want, "load", uuid)
        elif kind == "delete":
            uuid = op[1]
            ok = isinstance(self.st, dict) and uuid in self.st and "w" in self.mode
            if ok:
                self.pr.delete(uuid)
                del self.st[uuid]
            else:
                refused(c, "delete %s in mode %s" % (uuid, self.mode), lambda: self.pr.delete(uuid))
        elif kind == "query":
            if self.st is None or "r" not in self.mode:
                refused(c, "query in mode %s" % self.mode, lambda: list(self.pr.query()))
            elif isinstance(self.st, dict):
                c.eq(sorted(self.pr.query()), sorted(self.st), "query")
            else:
                c.eq(self.pr.query(), self.path.name, "query")
        elif kind == "close":
            self.pr.close()
            for f in (self.pr.close, self.pr.load, self.pr.query, lambda: self.pr.save(b"x"), lambda: self.pr.delete("k1")):
                refused(c, "using closed connection", f, dlite.DLiteIOError)
        c.eq(self.actual(), self.st, "state", "after %s" % (op,))
        c.eq(sorted(os.listdir(self.d)), [self.path.name] if self.st is not None else [], "other files", op)
        return True

    def end(self):
        shutil.rmtree(self.d)


FOPS = [("save", None), ("save", "k1"), ("save", "k2"), ("load", None), ("load", "k1"), ("delete", "k1"), ("delete", "k2"), ("query",), ("close",), ("open", "r"), ("open", "rw"), ("open", "a"), ("open", None)]


def case_file(h):
    for form in ("str", "path", "url", "url1", "nourl", "odd"):
        depth = (4 if h.thorough else 3) if form == "str" else 2 if h.thorough else 1
        for start in ("missing", "file", "dir", "empty"):
            for mode in (None, "r", "w", "a", "rw", "ra"):
                for k in range(1, depth + 1):
                    for seq in itertools.product(range(len(FOPS)), repeat=k):
                        ops = [FOPS[i] for i in seq]
                        if any(a[0] in ("load", "query") for a in ops[:-1]) or k > 2 and ops[0][0] == "open":
                            continue    # reading changes nothing; openings are the initial modes
                        if any(a[0] == "close" and b[0] != "open" for a, b in zip(ops, ops[1:])):
                            continue
                        with h.case("file %s %s %s %s" % (form, start, mode, seq)) as c:
                            if c:
                                m = FileModel(h, c, start, form)
                                m.open(mode)
                                for op in ops:
                                    if not m.step(op):
                                        break
                                m.end()
    tree = {"a.json": b"1", "b.txt": b"2", "s/c.json": b"3"}
    for incl in PATS:
        for excl in PATS:
            for comp in (None, "none", "deflated", "bzip2"):
                with h.case("filter %s %s %s" % (incl, excl, comp)) as c:
                    if not c:
                        continue
                    d = fresh(h)
                    put(d / "i", tree)
                    o = {k: v for k, v in (("include", incl), ("exclude", excl), ("compression", comp)) if v is not None}
                    with P.Protocol("file", d / "i", options=o) as pr:
                        b = pr.load()
                        q = pr.query()
                    want = {n: v for n, v in tree.items() if keep(n, incl, excl)}
                    c.eq(sorted(q), sorted(want), "query")
                    c.eq({n: P.archive_extract(b, n) for n in P.archive_names(b)}, want, "load")
                    with P.Protocol("file", d / "i", options={"compresslevel": 1, "compression": "deflated"}) as pr:
                        b = pr.load()
                    with P.Protocol("file", d / "o", options=dict(o, mode="w")) as pr:
                        pr.save(b)
                    c.eq(get(d / "o") if (d / "o").exists() else {}, want, "save")
                    shutil.rmtree(d)


# ------------------------------------------------------------- http and zip plugins
class Handler(BaseHTTPRequestHandler):
    def reply(self, code, data=b""):
        self.send_response(code)
        self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        self.wfile.write(data)

    def key(self):
        return urllib.parse.unquote(self.path)

    def do_GET(self):
        self.server.log.append("GET")
        if self.server.broken:
            return self.reply(503)
        self.reply(200, self.server.data[self.key()]) if self.key() in self.server.data else self.reply(404, b"not here")

    def do_POST(self):
        d = self.rfile.read(int(self.headers.get("Content-Length") or 0))
        self.server.log.append("POST")
        if self.server.broken:
            return self.reply(500)
        self.server.data[self.key()] = d
        self.reply(201)

    def do_DELETE(self):
        self.server.log.append("DELETE")
        if self.server.broken:
            return self.reply(500)
        if self.key() in self.server.data:
            del self.server.data[self.key()]
            self.reply(204)
        else:
            self.reply(404)

    def log_message(self, *a):
        pass


def server():
    s = HTTPServer(("127.0.0.1", 0), Handler)
    s.data, s.broken, s.log = {}, False, []
    t = threading.Thread(target=s.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True)
    t.start()
    s.thread = t
    return s


def stop(s):
    s.shutdown()
    s.thread.join()
    s.server_close()


HOPS = [("save", None), ("save", "u1"), ("load", None), ("load", "u1"), ("delete", "u1"), ("delete", "u2"), ("break",)]


def case_http(h):
    if "http" not in HAVE:
        return
    for k in range(1, 4 if h.thorough else 3):
        for seq in itertools.product(range(len(HOPS)), repeat=k):
            with h.case("http %s" % (seq,)) as c:
                if not c:
                    continue
                s = server()
                s.data["/x"] = b"first\x00"
                model = dict(s.data)
                pr = P.Protocol("http", "http://127.0.0.1:%d/x" % s.server_port, options="timeout=20")
                for j, i in enumerate(seq):
                    op = HOPS[i]
                    key = "/x" + ("?" + op[1] if op[1:] and op[1] else "")
                    data = DATA[(j + 1) % 3]
                    if op[0] == "break":
                        s.broken = not s.broken
                    elif s.broken:
                        refused(c, "%s from broken server" % (op,), {"save": lambda: pr.save(data, uuid=op[1]), "load": lambda: pr.load(uuid=op[1]), "delete": lambda: pr.delete(op[1])}[op[0]])
                    elif op[0] == "save":
                        pr.save(data, uuid=op[1])
                        model[key] = data
                    elif op[0] == "load":
                        if key in model:
                            c.eq(pr.load(uuid=op[1]), model[key], "load", key)
                        else:
                            refused(c, "loading missing", lambda: pr.load(uuid=op[1]))
                    elif key in model:
                        pr.delete(op[1])
                        del model[key]
                    else:
                        refused(c, "deleting missing", lambda: pr.delete(op[1]))
                    c.eq(s.data, model, "server", op)
                stop(s)
                refused(c, "stopped server", pr.load)
                pr.close()


def case_zip(h):
    for n in sorted(CONT):
        for uuid in (None, "other"):
            with h.case("zip %s %s" % (n, uuid)) as c:
                if not c:
                    continue
                d = fresh(h)
                put(d / "i", CONT)
                for comp, lev in COMP:
                    (d / "z.zip").write_bytes(P.load_path(d / "i", compression=comp, compresslevel=lev))
                    with P.Protocol("zip", "%s#%s" % (d / "z.zip", n)) as pr:
                        c.eq(pr.load(), CONT[n], "content", comp)
                        refused(c, "saving to zip", lambda: pr.save(b"x"))
                        refused(c, "deleting from zip", lambda: pr.delete(n))
                        c.eq(P.archive_names((d / "z.zip").read_bytes()) != [], True, "kept")
                    for bad in ("%s#%s" % (d / "z.zip", "nope"), "%s#%s" % (d / "nope.zip", n), "%s#%s" % (d / "i" / "a.json", n), str(d / "z.zip")):
                        refused(c, bad, lambda: P.Protocol("zip", bad).load())
                shutil.rmtree(d)
    if "http" not in HAVE:
        return
    for nocache in (None, "no", "yes"):
        for change in (0, 1):
            for broken in (0, 1):
                with h.case("zip http %s %d %d" % (nocache, change, broken)) as c:
                    if not c:
                        continue
                    s = server()
                    d = fresh(h)
                    put(d / "i", {"m/a": b"1", "b": b"2"})
                    put(d / "j", {"m/a": b"new", "b": b"2"})
                    s.data["/z%d.zip" % next(serial)] = P.load_path(d / "i")
                    key, = s.data
                    url = "http://127.0.0.1:%d%s" % (s.server_port, key)
                    o = "timeout=20" + (";nocache=" + nocache if nocache else "")
                    c.eq(P.Protocol("zip", url + "#m/a", options=o).load(), b"1", "first")
                    if change:
                        s.data[key] = P.load_path(d / "j")
                    s.broken = bool(broken)
                    if nocache == "yes" and broken:
                        refused(c, "broken server", lambda: P.Protocol("zip", url + "#m/a", options=o).load())
                    else:
                        c.eq(P.Protocol("zip", url + "#m/a", options=o).load(), b"new" if change and nocache == "yes" else b"1", "again")
                        c.eq(P.Protocol("zip", url + "#b", options=o).load(), b"2", "other")
                    c.eq(s.log, ["GET"] * (2 - broken + 1 if nocache == "yes" and not broken else 2 if nocache == "yes" else 1), "requests")
                    stop(s)
                    shutil.rmtree(d)


# ------------------------------------------------------------- the Protocol class
METH = ["open", "load", "save", "delete", "query", "close"]
ARGS = {"open": "location, options=None", "load": "uuid=None", "save": "data, uuid=None", "delete": "uuid", "query": "pattern=None", "close": ""}
NARROW = {"open": "location", "load": "", "save": "data", "delete": "uuid", "query": "", "close": ""}


def case_plug(h):
    faults = ["absent", "raise", "narrow"]
    combos = [{}] + [{m: f} for m in METH for f in faults] + [{m: f, n: g} for m, n in itertools.combinations(METH, 2) for f in faults for g in faults]
    for combo in combos:
        for opts in (None, "a=1"):
            with h.case("plug %s %s" % (sorted(combo.items()), opts)) as c:
                if not c:
                    continue
                src = "class vhproto(dlite.DLiteProtocolBase):\n    log = []\n    data = {None: b'0'}\n"
                for m in METH:
                    f = combo.get(m)
                    if f == "absent":
                        continue
                    args = (NARROW if f == "narrow" else ARGS)[m]
                    uid = "uuid" if "uuid" in args else "None"
                    body = {"open": "self.loc = location", "load": "return self.data[%s]" % uid, "save": "self.data[%s] = data" % uid, "delete": "del self.data[uuid]",
                            "query": "return list(self.data)", "close": "pass"}[m]
                    src += "    def %s(self, %s):\n        self.log.append(%r)\n        %s\n" % (m, args, m, "raise RuntimeError('%s fails')" % m if f == "raise" else body)
                scope = {"dlite": dlite}
                exec(src, scope)
                cls = scope["vhproto"]
                if combo.get("open") == "raise" or combo.get("open") == "narrow" and opts:
                    refused(c, "open", lambda: P.Protocol("vhproto", "loc", options=opts), *((RuntimeError,) if combo["open"] == "raise" else (Exception,)))
                    continue
                pr = P.Protocol("vhproto", "loc", options=opts)
                model = {None: b"0"}

                def do(m, *a, **kw):
                    f = combo.get(m)
                    call = lambda: getattr(pr, m)(*a, **kw)
                    if f == "raise":
                        refused(c, m, call, RuntimeError)
                    elif f == "absent" and m != "close":
                        refused(c, "operation without support: " + m, call)
                    elif f == "narrow" and kw and any(v is not None for v in kw.values()) and m != "delete":
                        refused(c, "argument without support: " + m, call)
                    else:
                        return (call(),)

                for uuid in (None, "u"):
                    if do("save", b"x" + bytes(str(uuid), "utf8"), uuid=uuid):
                        model[uuid] = b"x" + bytes(str(uuid), "utf8")
                    c.eq(cls.data, model, "save", uuid)
                    if uuid in model:
                        r = do("load", uuid=uuid)
                        c.check(r is None or r[0] == model[uuid], "load", r)
                for pat in (None, "*"):
                    r = do("query", pattern=pat)
                    c.check(r is None or sorted(map(str, r[0])) == sorted(map(str, model)), "query", r)
                if "u" in model and do("delete", "u"):
                    del model["u"]
                c.eq(cls.data, model, "delete")
                do("close")
                if combo.get("close") != "raise":
                    c.check(pr.closed, "closed", "not closed")
                    refused(c, "closed", pr.load, dlite.DLiteIOError)
                del pr, cls
                scope.clear()
                gc.collect()
                c.check("vhproto" not in P.Protocol.loaded_plugins(), "leak", "plugin class still referred to")
    with h.case("plug names") as c:
        if c:
            for n in ("nope", "", "File"):
                refused(c, "plugin " + n, lambda: P.Protocol(n, "x"), dlite.DLiteProtocolError)
            c.check({"file", "zip"} <= P.Protocol.loaded_plugins(), "plugins", P.Protocol.loaded_plugins())
            c.check("file" not in P.Protocol.failed_plugins(), "plugins", P.Protocol.failed_plugins())
            P.Protocol.failed_plugins().add("file")
            c.check("file" not in P.Protocol.failed_plugins(), "plugins", "the returned set is no copy")
    sigs = [("lambda: ()", ()), ("lambda a: (a,)", ("a",)), ("lambda a, u=1: (a, u)", ("a", "u")), ("lambda a, *, u: (a, u)", ("a", "u")), ("lambda u=2, v=3: (u, v)", ("u", "v"))]
    for src, names in sigs:
        for kw in ({}, {"u": None}, {"u": 5}, {"v": None}, {"v": 0}, {"u": "", "v": None}):
            for pos in ((), (7,)):
                with h.case("call %s %s %s" % (src, kw, pos)) as c:
                    if not c:
                        continue
                    f = eval(src)
                    eff = {k: v for k, v in kw.items() if k in names}
                    bad = any(k not in names and v is not None for k, v in kw.items())
                    try:
                        want = f(*pos, **eff)
                    except TypeError:
                        bad = True
                    if bad:
                        refused(c, "call", lambda: P.call(f, *pos, **kw), TypeError, KeyError)
                    else:
                        c.eq(P.call(f, *pos, **kw), want, "call")


# ------------------------------------------------------------- instances through protocols
def make(n):
    if n == "A":
        i = dlite.Instance.from_metaid(NS + "T", [2], "http://vh.org/data/A")
        i.a, i.s, i.x = [-1, 2**31 - 1], "å x: y\n", 0.1
        return i
    if n == "B":
        i = dlite.Instance.from_metaid(NS + "T2", [])
        i.v = 2**40
        return i
    return dlite.Metadata(NS + "U", [Dimension("k", "kk")], [Property("p", "float32", shape=["k"], unit="m")], "stored")


def snap(i, drv):
    d = i.asdict(single=True)
    if drv == "hdf5":
        d.pop("uri", None)    # HDF5 files identify instances by uuid only
    d.pop("uuid", None)
    return (i.uuid, i.meta.uri, tuple(i.dimensions.values()) if not i.is_meta else (), repr(d))


def case_inst(h):
    saves = {
        "args": lambda i, drv, p: i.save("file", drv, p, "mode=w"),
        "path": lambda i, drv, p: i.save("file", drv, Path(p), "mode=w"),
        "keyword": lambda i, drv, p: i.save("file", drv, location=p, options="mode=w"),
        "dict": lambda i, drv, p: i.save("file", drv, location=p, options={"mode": "w"}),
        "url": lambda i, drv, p: i.save("file+%s://%s?mode=w" % (drv, p)),
        "urldriver": lambda i, drv, p: i.save("file://%s?driver=%s;mode=w" % (p, drv)),
        "driver": lambda i, drv, p: i.save(drv, p, "mode=w"),
        "driverkw": lambda i, drv, p: i.save(drv, location=p, options="mode=w"),
        "driverurl": lambda i, drv, p: i.save("%s://%s?mode=w" % (drv, p)),
    }
    L = lambda: dlite.Instance
    loads = {
        "args": lambda drv, p, id: L().load("file", drv, p, id=id),
        "path": lambda drv, p, id: L().load("file", drv, Path(p), options="mode=r", id=id),
        "url": lambda drv, p, id: L().from_url("file+%s://%s%s" % (drv, p, "#" + id if id else "")),
        "urlopt": lambda drv, p, id: L().from_url("file+%s://%s?mode=r%s" % (drv, p, "#" + id if id else "")),
        "urldriver": lambda drv, p, id: L().from_url("file://%s?driver=%s%s" % (p, drv, "#" + id if id else "")),
        "driverurl": lambda drv, p, id: L().from_url("%s://%s?mode=r%s" % (drv, p, "#" + id if id else "")),
        "location": lambda drv, p, id: L().from_location(drv, p, options="mode=r", id=id),
    }
    for drv in ("json", "yaml", "bson", "hdf5", "pyrdf"):
        if drv in ("yaml", "bson", "pyrdf") and drv not in HAVE:
            continue
        for n in "ABU":
            for sv in sorted(saves):
                for ld in sorted(loads):
                    for byid in ((0, 1, 2) if drv != "pyrdf" else (1, 2)):
                        if n == "B" and byid == 2 or n == "U" and drv == "hdf5":
                            continue
                        with h.case("inst %s %s %s %s %d" % (drv, n, sv, ld, byid)) as c:
                            if not c:
                                continue
                            d = fresh(h)
                            fn = {"json": "f.json", "yaml": "f.yaml", "bson": "f.bson", "hdf5": "f.h5", "pyrdf": "f.ttl"}[drv]
                            p = str(d / fn)
                            i = make(n)
                            want, uuid, uri = snap(i, drv), i.uuid, i.uri
                            saves[sv](i, drv, p)
                            c.eq(snap(i, drv), want, "saved", "changed")
                            c.eq(sorted(os.listdir(d)), [fn], "files")
                            c.eq(i._refcount, 1 if not i.is_meta else i._refcount, "refcount")
                            if i.is_meta:
                                while i._refcount > 1:
                                    i._decref()
                            i = None
                            c.check(not dlite.has_instance(uuid, False), "leak", "original is kept")
                            j = loads[ld](drv, p, [None, uuid, uri][byid])
                            c.eq(snap(j, drv), want, "value")
                            j = None
                            gc.collect()
                            shutil.rmtree(d)
    for n in "AB":
        for drv in ("json", "yaml"):
            if drv not in HAVE:
                continue
            for sv in ("args", "url", "urldriver"):
                with h.case("refuse %s %s %s" % (drv, n, sv)) as c:
                    if c:
                        d = fresh(h)
                        i = make(n)
                        (d / "sub").mkdir()
                        refused(c, "saving to a directory", lambda: saves[sv](i, drv, str(d / "sub")))
                        refused(c, "saving below a file", lambda: (put(d, {"x": b"x"}), saves[sv](i, drv, str(d / "x" / "y"))))
                        for ld in sorted(loads):
                            refused(c, "loading nothing by " + ld, lambda: loads[ld](drv, str(d / "none"), None))
                            refused(c, "loading nonsense by " + ld, lambda: (put(d, {"bad": b"\x00nonsense: ["}), loads[ld](drv, str(d / "bad"), None)))
                        c.eq(i._refcount, 1, "refcount")
                        i = None


def explore(h):
    for f in (case_tree, case_archive, case_file, case_http, case_zip, case_plug, case_inst):
        f(h)


if __name__ == "__main__":
    vhp.main(explore, setup)
