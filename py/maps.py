"""B07: mappings written in Python.

Every set of up to two (and some of three) mapping plugins over four metadata,
every set of available inputs and every target: the result is what the cheapest
way of applying the plugins gives.  Every plugin is also explored with every
fault.  Whatever happens, the inputs are unchanged and nothing is left behind."""
import sys
sys.modules["minio"] = None
import gc
import itertools
import os
import shutil
import warnings
import vhp

warnings.simplefilter("ignore")
serial = itertools.count()
INF = 10**9


def setup(h):
    global dlite, Property
    import dlite
    from dlite import Property
    dlite.storage_path.append("/nonexistent")


# plugins: inputs, output, cost (None: not given, 25 is the default)
SPECS = [((0,), 1, 10), ((0,), 1, 20), ((1,), 2, 10), ((0,), 2, None), ((0,), 2, 20), ((0, 1), 2, 5), ((2,), 3, 10), ((1, 2), 3, 1), ((0,), 3, 40), ((1,), 0, 10), ((2, 0), 1, 3), ((), 1, 7)]
FAULTS = ["raise", "dlite", "none", "string", "fake", "wrongmeta", "input", "missing", "nocall", "noname", "badname", "noout", "badout", "noinput", "badinput", "baditem", "badcost", "extra", "nested", "keep", "modify"]
BROKEN = {"missing", "nocall", "noname", "badname", "noout", "badout", "noinput", "badinput", "baditem"}      # the plugin itself is unusable
FAILS = {"raise", "dlite", "none", "string", "fake", "wrongmeta"}                                             # calling it fails


def source(n, k, spec, fault):
    ins, out, cost = spec
    uri = lambda i: "http://vh.org/%d/M%d" % (n, i)
    L = ["class P%d_%d(dlite.DLiteMappingBase):" % (n, k)]
    if fault != "noname":
        L.append("    name = %s" % ("5" if fault == "badname" else "'p%d.%d'" % (n, k)))
    if fault != "noout":
        L.append("    output_uri = %s" % ("7.5" if fault == "badout" else repr(uri(out))))
    if fault != "noinput":
        L.append("    input_uris = %s" % ("3" if fault == "badinput" else "[%s]" % ", ".join([repr(uri(i)) for i in ins] + (["4"] if fault == "baditem" else []))))
    if cost is not None or fault == "badcost":
        L.append("    cost = %s" % ("'cheap'" if fault == "badcost" else cost))
    if fault == "extra":
        L.append("    data = object(); ninput = 77")
    if fault == "nocall":
        L.append("    map = 5")
    elif fault != "missing":
        L += ["    def map(self, instances):",
              "        log.append(%d)" % k,
              "        assert [i.meta.uri for i in instances] == %r, instances" % ([uri(i) for i in ins],)]
        if fault == "raise":
            L.append("        raise RuntimeError('broken map')")
        if fault == "dlite":
            L.append("        dlite.get_instance('11111111-2222-3333-4444-555555555555', check_storages=False)")
        if fault == "nested":
            L += ["        try:", "            dlite.mapping('http://vh.org/%d/nope', instances)" % n, "        except dlite.DLiteError:", "            pass"]
        if fault == "keep":
            L.append("        kept.append(list(instances))")
        ret = {"none": "None", "string": "'text'", "fake": "type('F', (), {'uuid': '11111111-2222-3333-4444-555555555555'})", "input": "instances[0] if instances else r"}.get(fault, "r")
        L += ["        r = dlite.Instance.from_metaid(%r, [])" % uri((out + 1) % 4 if fault == "wrongmeta" else out),
              "        r.v = %d + sum((j + 2) * i.v for j, i in enumerate(instances))" % (1000 * (k + 1))]
        if fault == "modify":
            L.append("        instances.clear()")
        L.append("        return " + ret)
    return "import dlite\n" + "\n".join(L) + "\n"


def derive(specs, usable, have):
    """Cheapest cost and the values it may give, for each metadata."""
    best = {m: (0, {v}) for m, v in have.items()}
    change = True
    while change:
        change = False
        for k, (ins, out, cost) in enumerate(specs):
            if not usable[k] or out in have or any(i not in best for i in ins):
                continue
            c = (25 if cost is None else cost) + sum(best[i][0] for i in ins)
            vals = {1000 * (k + 1) + sum((j + 2) * v for j, v in enumerate(vs)) for vs in itertools.product(*[sorted(best[i][1]) for i in ins])}
            old = best.get(out, (INF, set()))
            if c < old[0]:
                best[out] = (c, vals)
                change = True
            elif c == old[0] and not vals <= old[1]:
                best[out] = (c, old[1] | vals)
                change = True
    return best


def one(h, c, specs, faults, inputs, onefile):
    n = next(serial) * 64 + h.shard
    d = "%s/m%d" % (h.scratch, n)
    os.makedirs(d)
    metas = [dlite.Metadata("http://vh.org/%d/M%d" % (n, i), [], [Property("v", "int64")], "m") for i in range(4)]
    src = [source(n, k, s, faults[k]) for k, s in enumerate(specs)]
    head = "import builtins\nlog = builtins.vhlog\nkept = builtins.vhkept\n"
    import builtins
    builtins.vhlog, builtins.vhkept = [], []
    if onefile:
        open(d + "/all.py", "w").write(head + "\n".join(src))
    else:
        for k, s in enumerate(src):
            open("%s/p%d.py" % (d, k), "w").write(head + s)
    dlite.python_mapping_plugin_path.append(d)
    try:
        for target in range(4):
            ins = [metas[i]([]) for i in inputs]
            for i, x in enumerate(ins):
                x.v = 3 + 7 * i
            have = {m: ins[j].v for j, m in enumerate(inputs)}
            before = [(x.uuid, x.v) for x in ins]
            full = derive([(a, b, None if f == "badcost" else k) for (a, b, k), f in zip(specs, faults)], [f not in BROKEN for f in faults], have)
            del builtins.vhlog[:], builtins.vhkept[:]
            try:
                r = dlite.mapping(metas[target].uri, list(ins))
            except dlite.DLiteError:
                r = None
            called = list(builtins.vhlog)
            c.eq([(x.uuid, x.v) for x in ins], before, "inputs", "changed")
            lax = any(f in BROKEN for f in faults)
            wrong = any(f in FAILS or f == "input" for f in (faults[k] for k in called))
            if r is None:
                c.check(target not in full or lax or wrong, "failed", "mapping to M%d fails, calling %s" % (target, called))
            else:
                c.check(target in full, "impossible", "mapping to M%d gives %s" % (target, r))
                if not any(f in FAILS for f in (faults[k] for k in called)):
                    c.eq(r.meta.uri, metas[target].uri if not wrong else r.meta.uri, "metadata", "M%d" % target)
                else:
                    c.check(False, "error lost", "mapping gives %s although %s failed" % (r, called))
                if not wrong and not lax:
                    c.check(r.v in full[target][1], "value", "M%d: got %d, expected one of %s" % (target, r.v, sorted(full[target][1])))
                if target in have:
                    c.eq(r.uuid, dict(zip(inputs, [b[0] for b in before]))[target], "input", "not returned itself")
            del builtins.vhkept[:]
            ids = [x.uuid for x in ins] + ([r.uuid] if r is not None else [])
            if r is not None and target not in have and not wrong:
                c.eq(r._refcount, 1, "refcount", "result")
            r = None
            gc.collect()
            for x in ins:
                c.eq(x._refcount, 1, "refcount", "input")
            x = None
            del ins
            for u in ids:
                c.check(not dlite.has_instance(u, False), "leak", "instance still exists")
        # only the metadata are left
        left = [u for u in dlite.istore_get_uuids() if dlite.get_instance(u, check_storages=False).meta.uri.startswith("http://vh.org/%d/" % n)]
        c.eq(left, [], "leak", "instances left")
    finally:
        del dlite.python_mapping_plugin_path[len(dlite.python_mapping_plugin_path) - 1]
        shutil.rmtree(d)
    c.observe(len(specs), inputs)


def apart(h, c, *args):
    """Unusable plugin classes stay around: run these in a process of their own."""
    sys.stdout.flush()
    sys.stderr.flush()
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 0
        try:
            one(h, c, *args)
        except vhp.Fail as e:
            os.write(w, ("%s\0%s" % (e.tag, e.msg)).encode()[:60000])
            code = 1
        except BaseException as e:
            os.write(w, ("exception\0%r" % e).encode()[:60000])
            code = 1
        os._exit(code)
    os.close(w)
    msg = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        msg += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    next(serial)
    if msg:
        tag, _, m = msg.decode().partition("\0")
        c.check(False, tag, m)
    c.check(st == 0, "crash", "status %d" % st)


def explore(h):
    INP = [(0,), (1,), (0, 1), (2,), (0, 2), ()]
    for k in (1, 2):
        for idx in itertools.combinations(range(len(SPECS)), k):
            for inputs in INP[:5] if h.thorough or k == 1 else INP[:3]:
                with h.case("sets %s %s" % (idx, inputs)) as c:
                    if c:
                        one(h, c, [SPECS[i] for i in idx], [None] * k, inputs, sum(idx) % 2)
    for idx in itertools.combinations(range(len(SPECS)), 3):
        if h.thorough or sum(idx) % 2 == 0:
            with h.case("sets %s (0,)" % (idx,)) as c:
                if c:
                    one(h, c, [SPECS[i] for i in idx], [None] * 3, (0,), sum(idx) % 2)
    for i in range(len(SPECS)):
        for f in FAULTS:
            for other in (None, 0, 2, 3, 8):
                for swap in (0, 1):
                    if other is None and swap or other == i:
                        continue
                    with h.case("fault %d %s %s %d" % (i, f, other, swap)) as c:
                        if c:
                            specs, faults = [SPECS[i]], [f]
                            if other is not None:
                                specs, faults = specs + [SPECS[other]], faults + [None]
                            if swap:
                                specs, faults = specs[::-1], faults[::-1]
                            (apart if f in BROKEN else one)(h, c, specs, faults, (0, 1) if len(SPECS[i][0]) == 2 and SPECS[i][0] != (2, 0) else (0,), i % 2)


if __name__ == "__main__":
    vhp.main(explore, setup)
