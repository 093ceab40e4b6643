"""Builds dlite from /repo's working tree, runs one property's harness over its
bounded space on all cores, and turns the outcome into evidence, VIOLATION
lines and KNOWN-FINDING lines.  Standard library only."""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/dlite-venv"
PY = VENV + "/bin/python3"
CORES = min(8, os.cpu_count() or 1)

ASAN = "-fsanitize=address -fno-omit-frame-pointer -g -O1"

VARIANTS = {
    # name: (extra cmake flags, targets)
    "asan": (["-DCMAKE_C_FLAGS=" + ASAN, "-DWITH_PYTHON=OFF", "-DWITH_HDF5=ON",
              "-DWITH_REDLAND=ON"],
             ["dlite", "dlite-utils", "dlite-codegen", "dlite-getuuid", "dlite-env",
              "dlite-plugins-json", "dlite-plugins-hdf5", "dlite-plugins-rdf"]),
    "asan-builtin": (["-DCMAKE_C_FLAGS=" + ASAN, "-DWITH_PYTHON=OFF",
                      "-DWITH_HDF5=OFF", "-DWITH_REDLAND=OFF"],
                     ["dlite", "dlite-utils", "dlite-plugins-json"]),
    "py": (["-DPython3_EXECUTABLE=" + PY, "-DSWIG_USE_SWIG_DEPENDENCIES=TRUE",
            "-DWITH_PYTHON=ON", "-DWITH_HDF5=ON", "-DWITH_REDLAND=ON"], ["all"]),
    "pyasan": (["-DCMAKE_C_FLAGS=-fsanitize=address -fno-omit-frame-pointer",
                "-DPython3_EXECUTABLE=" + PY, "-DSWIG_USE_SWIG_DEPENDENCIES=TRUE",
                "-DWITH_PYTHON=ON", "-DWITH_HDF5=ON", "-DWITH_REDLAND=ON"], ["all"]),
}


class CheckError(Exception):
    pass


def clean_env():
    env = {k: v for k, v in os.environ.items()
           if not k.startswith("DLITE_") and k not in
           ("PYTHONPATH", "PYTHONHOME", "LD_LIBRARY_PATH", "CFLAGS", "CXXFLAGS",
            "FFLAGS", "LDFLAGS", "LD_PRELOAD")}
    env.update(LANG="C.UTF-8", LC_ALL="C.UTF-8", CC="gcc", CXX="g++", FC="gfortran",
               PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1",
               FETCHCONTENT_FULLY_DISCONNECTED="ON", PIP_NO_INDEX="1",
               PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               VIRTUAL_ENV=VENV,
               PATH=VENV + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    return env


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build(variant, bdir, log):
    """Configure and build /repo's current tree out of source."""
    flags, targets = VARIANTS[variant]
    env = clean_env()
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        os.makedirs(bdir, exist_ok=True)
        r = run(["cmake", "-S", REPO, "-B", bdir, "-G", "Ninja",
                 "-DCMAKE_BUILD_TYPE=Debug", "-DCMAKE_INSTALL_PREFIX=" + bdir + "/_install",
                 "-DWITH_FORTRAN=OFF", "-DWITH_EXAMPLES=OFF", "-DWITH_DOC=OFF",
                 "-DALLOW_WARNINGS=ON"] + flags, env=env)
        log.write(r.stdout)
        if r.returncode:
            raise CheckError("cmake failed (%s):\n%s" % (variant, r.stdout[-3000:]))
    r = run(["ninja", "-C", bdir, "-j%d" % CORES] + targets, env=env)
    log.write(r.stdout)
    if r.returncode:
        raise CheckError("build failed (%s):\n%s" % (variant, r.stdout[-3000:]))


def run_env(bdir, variant, spec):
    env = clean_env()
    libs = [bdir + "/src", bdir + "/src/utils", bdir + "/src/pyembed"]
    env["LD_LIBRARY_PATH"] = ":".join(libs)
    env["DLITE_USE_BUILD_ROOT"] = "YES"
    env["ASAN_OPTIONS"] = ("detect_leaks=0:abort_on_error=0:exitcode=99:"
                           "allocator_may_return_null=1:detect_stack_use_after_return=0:"
                           "strict_string_checks=0:max_allocation_size_mb=256")
    env["VERIF_SEED"] = os.environ.get("VERIF_SEED", "1")
    env["VERIF_BUILD"] = bdir
    env["VERIF_REPO"] = REPO
    env["VERIF_DIR"] = VERIF
    if variant.startswith("py"):
        env["PYTHONPATH"] = ":".join([bdir + "/bindings/python", VERIF + "/vlib",
                                      VERIF + "/py"])
        if variant == "pyasan":
            lib = run(["gcc", "-print-file-name=libasan.so"]).stdout.strip()
            env["LD_PRELOAD"] = lib
            env["PYTHONMALLOC"] = "malloc"
    env.update(spec.get("env", {}))
    return env


def compile_harness(spec, bdir, exe, log):
    src = [os.path.join(VERIF, "harness", s) for s in spec["sources"]]
    inc = ["-I" + VERIF + "/vlib", "-I" + VERIF + "/harness", "-I" + REPO + "/src",
           "-I" + REPO + "/src/utils", "-I" + bdir + "/src", "-I" + bdir + "/src/utils",
           "-I" + bdir, "-I/usr/include/raptor2", "-I/usr/include/rasqal"]
    cmd = (["gcc", "-std=gnu11", "-D_GNU_SOURCE", "-w"] + ASAN.split() + spec.get("cflags", []) + inc
           + ['-DVREPO="%s"' % REPO, '-DVINC="%s"' % " ".join(inc[4:])]
           + [VERIF + "/vlib/vh.c"] + src + ["-o", exe]
           + ["-L" + bdir + "/src", "-L" + bdir + "/src/utils"]
           + spec.get("libs", ["-ldlite", "-ldlite-utils", "-lm", "-ldl"]))
    r = run(cmd, env=clean_env())
    log.write(" ".join(cmd) + "\n" + r.stdout)
    if r.returncode:
        raise CheckError("harness does not compile:\n" + r.stdout[-3000:])


def load_known(pid):
    """known_findings.txt: one finding per line
         finding: property=<id> key=<regex> [tag=<regex>] :: <what fails>
         fixed: property=<id> <commit> <what failed>            (suppresses nothing)
    """
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"finding: property=(\S+) key=(\S+)(?: tag=(\S+))? :: (.*)$", line.rstrip("\n"))
            if m and m.group(1) == pid:
                out.append(dict(key=re.compile(m.group(2), re.S), tag=re.compile(m.group(3) or ".*", re.S),
                                what=m.group(4), hits=0))
    return out


def parse_out(path, acc):
    with open(path, encoding="utf-8", errors="replace") as f:
        for line in f:
            try:
                d = json.loads(line)
            except ValueError:
                acc["errors"].append("unparsable harness output: " + line[:200])
                continue
            if "fail" in d:
                acc["fails"].append(d["fail"])
            elif "sample" in d:
                acc["samples"].append(d["sample"])
            elif "stats" in d:
                acc["done"] += 1
                for k, v in d["stats"].items():
                    acc["stats"][k] = acc["stats"].get(k, 0) + v
            elif "obs" in d:
                acc["obs"].update(d["obs"])
            elif "capped" in d:
                acc["capped"].append(d["capped"])
            elif "harness_error" in d:
                acc["errors"].append(d["harness_error"])


def run_shards(argv, env, nsh, work, limit, extra, tag):
    acc = dict(fails=[], samples=[], stats={}, obs=set(), capped=[], errors=[], done=0, n=nsh)
    procs = []
    for k in range(nsh):
        out = os.path.join(work, "out-%s-%d" % (tag, k))
        sc = os.path.join(work, "scratch-%s-%d" % (tag, k))
        os.makedirs(sc, exist_ok=True)
        open(out, "w").close()
        e = dict(env, HOME=sc, TMPDIR=sc)
        p = subprocess.Popen(argv + ["--shard=%d/%d" % (k, nsh), "--out=" + out,
                                     "--scratch=" + sc] + extra, env=e, cwd=sc,
                             stdout=open(out + ".log", "w"), stderr=subprocess.STDOUT,
                             start_new_session=True)
        procs.append((p, out, k))
    t0 = time.time()
    for p, out, k in procs:
        try:
            p.wait(max(1, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            acc["errors"].append("shard %d exceeded %ds" % (k, limit))
        parse_out(out, acc)
        if p.returncode != 0:
            acc["errors"].append("shard %d exit %s: %s" % (
                k, p.returncode, open(out + ".log", errors="replace").read()[-1500:]))
    return acc


def check(pid, spec, tier, key=None, keep=False):
    t0 = time.time()
    reuse = os.environ.get("VERIF_BUILD_REUSE")
    os.makedirs(VERIF + "/out", exist_ok=True)
    os.makedirs(VERIF + "/build", exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    work = tempfile.mkdtemp(prefix="run-%s-" % pid, dir=VERIF + "/out")
    broot = reuse or tempfile.mkdtemp(prefix="b-%s-" % pid, dir=VERIF + "/build")
    log = open(os.path.join(work, "log"), "w")
    violations, known_lines = [], []
    errors, total = [], dict(stats={}, samples=[], capped=[], obs=set())
    known = load_known(pid)
    replaydir = os.path.join(VERIF, "out", "replay", pid)
    try:
        if not key:
            shutil.rmtree(replaydir, ignore_errors=True)
        for pi, part in enumerate(spec["parts"]):
            variant = part["variant"]
            bdir = os.path.join(broot, variant)
            build(variant, bdir, log)
            env = run_env(bdir, variant, part)
            if part.get("kind", "c") == "c":
                exe = os.path.join(work, "harness%d" % pi)
                compile_harness(part, bdir, exe, log)
                env["DLITE_STORAGE_PLUGIN_DIRS"] = "%s/storages/json:%s/storages/hdf5:%s/storages/rdf" % (
                    bdir, bdir, bdir)
                argv = [exe]
            else:
                argv = [PY, os.path.join(VERIF, "py", part["script"])]
            extra = list(part.get("args", []))
            if tier == "thorough":
                extra += ["--thorough"] + part.get("thorough_args", [])
            limit = part.get("limit", 700 if tier == "quick" else 10000)
            if key:
                acc = run_shards(argv, env, 1, work, limit, extra + ["--key=" + key], "k%d" % pi)
            else:
                acc = run_shards(argv, env, part.get("shards", CORES), work, limit, extra, "p%d" % pi)
            # replay before report: every distinct failure (first few per tag) alone
            seen, confirm = {}, []
            for f in acc["fails"]:
                f["part"] = pi
                f["variant"] = variant
                if (f["key"], f["tag"]) not in seen:
                    seen[(f["key"], f["tag"])] = f
            uniq = list(seen.values())
            new = []
            for f in uniq:
                for kf in known:
                    if kf["key"].fullmatch(f["key"]) and kf["tag"].fullmatch(f["tag"]):
                        kf["hits"] += 1
                        break
                else:
                    new.append(f)
            if new and not key:
                new.sort(key=lambda f: (len(f.get("trace", "")), len(f["key"]), f["key"]))
                again = None
                for i, f in enumerate(new[:12]):
                    acc2 = run_shards(argv, env, 1, work, 300, extra + ["--key=" + f.get("replay", f["key"]),
                                      "--timeout=120"], "r%d-%d" % (pi, i))
                    ok = any(g["tag"] == f["tag"] or f["tag"] in ("memory", "crash", "abort") for g in acc2["fails"])
                    how = "alone"
                    if not ok and f["tag"] != "hang":
                        if again is None:
                            again = run_shards(argv, env, part.get("shards", CORES), work, limit,
                                               extra, "again%d" % pi)
                        ok = any(g["key"] == f["key"] for g in again["fails"])
                        how = "in the full enumeration"
                    if ok:
                        f["confirmed"] = how
                        confirm.append(f)
                    elif f["tag"] == "hang" and not acc2["fails"] and acc2["stats"].get("evaluations"):
                        pass    # slow machine: the case passes with a longer limit
                    else:
                        errors.append("not reproducible: %s %s" % (f["key"], f["msg"]))
                confirm += new[12:400] if confirm else []
                violations += confirm
                if confirm:
                    errors = [e for e in errors if not e.startswith("not reproducible")]
            elif new:
                violations += new
            errors += acc["errors"]
            if acc["done"] != acc["n"]:
                errors.append("only %d of %d shards finished" % (acc["done"], acc["n"]))
            for k, v in acc["stats"].items():
                total["stats"][k] = total["stats"].get(k, 0) + v
            total["samples"] += acc["samples"][:12]
            total["capped"] += acc["capped"]
            total["obs"] |= acc["obs"]
    except CheckError as e:
        errors.append(str(e))
    finally:
        log.close()
        if not reuse:
            shutil.rmtree(broot, ignore_errors=True)
        if not keep and not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
    for kf in known:
        if not key:
            print("KNOWN-FINDING: property=%s %s [%d case(s) this run]" % (pid, kf["what"], kf["hits"]))
    st = total["stats"]
    if violations and os.environ.get("VERIF_SUMMARY"):      # development aid
        import re, collections
        g = collections.OrderedDict()
        for f in violations:
            k = (f["tag"], re.sub(r"\d+", "N", re.sub(r"/verif/out/[^ \"]*", "F", re.sub(r"0x[0-9a-f]+", "X", f["msg"])))[:260])
            g.setdefault(k, []).append(f["key"])
        for k, v in sorted(g.items(), key=lambda x: -len(x[1]))[:25]:
            print("SUMMARY %dx [%s] %s\n      e.g. %s" % (len(v), k[0], k[1], " || ".join(v[:2])))
        violations = violations[:1]
    if violations:
        os.makedirs(replaydir, exist_ok=True)
        for i, f in enumerate(violations[:25]):
            p = os.path.join(replaydir, "%03d.json" % i)
            with open(p, "w") as fp:
                json.dump(dict(property=pid, key=f["key"], replay=f.get("replay", f["key"]), tag=f["tag"],
                               message=f["msg"], history=f.get("trace", ""),
                               command="cd %s && python3 check.py %s --replay %s" % (VERIF, pid, p)),
                          fp, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, p))
            if f.get("variant"):
                print("   build variant: " + f["variant"])
            print("   case: %s\n   [%s] %s" % (f["key"][:400], f["tag"], f["msg"][:1200]))
            if f.get("trace"):
                print("   history: " + f["trace"][:1500])
    if len(violations) > 25:
        print("   ... and %d more failing cases" % (len(violations) - 25))
    wall = time.time() - t0
    if not key:
        lvl = spec["level"]
        cov = dict(samples=(total["samples"][:12] or ["none"]), exhaustive=not total["capped"] and not errors)
        if total["capped"]:
            cov["capped"] = total["capped"]
        if lvl == "model_checking":
            cov.update(states=st.get("states", 0), transitions=st.get("transitions", 0),
                       traces_validated_against_impl=st.get("evaluations", 0))
        else:
            cov.update(evaluations=st.get("evaluations", 0),
                       distinct_nontrivial=len(total["obs"]),
                       rule=spec["rule"])
            if st.get("states"):
                cov.update(states=st["states"], transitions=st.get("transitions", 0))
        cov["bounds"] = spec.get("bounds", {}).get(tier) if isinstance(spec.get("bounds"), dict) else spec.get("bounds", "")
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=lvl,
                  coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(wall, 2),
                  violations=len(violations))
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fp:
            json.dump(ev, fp, indent=1)
            fp.write("\n")
    print("%s tier=%s: %s in %.1fs%s" % (
        pid, tier, ", ".join("%s=%s" % kv for kv in sorted(st.items())), wall,
        (" ERRORS=%d" % len(errors)) if errors else ""))
    if violations:
        for e in errors[:5]:
            print("  note: " + e[:600])
        return 1
    if errors:
        for e in errors[:10]:
            print("ERROR: " + e[:3000])
        return 3
    return 0
