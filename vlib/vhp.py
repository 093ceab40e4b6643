"""Systematic-exploration runtime for Python harnesses (same protocol as vh.c).

    import vhp
    def explore(h):
        for ...:
            with h.case("stable key ...") as c:
                if c: ...; c.check(cond, "tag", "message")
    vhp.main(explore, setup)

Cases are dealt to shards by number and executed in a forked child; a crash,
sanitizer report or hang becomes a finding about the running case and the
enumeration resumes with the next one."""
import hashlib, json, mmap, os, signal, struct, sys, traceback, faulthandler


class Fail(Exception):
    def __init__(self, tag, msg):
        super().__init__(msg)
        self.tag, self.msg = tag, msg


class _Case:
    def __init__(self, h, key, run):
        self.h, self.key, self.run = h, key, run

    def __bool__(self):
        return self.run

    def __enter__(self):
        if self.run:
            self.h._begin(self.key)
        return self

    def __exit__(self, et, ev, tb):
        if not self.run:
            return False
        if et is not None and et not in (KeyboardInterrupt, SystemExit):
            if isinstance(ev, Fail):
                self.h._emit_fail(ev.tag, ev.msg)
            else:
                self.h._emit_fail("exception", "".join(traceback.format_exception(et, ev, tb))[-1800:])
            self.h._end()
            # what the failed case left behind must not disturb the next ones
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(98)
        self.h._end()
        return False

    def check(self, cond, tag, msg=""):
        if not cond:
            raise Fail(tag, msg() if callable(msg) else str(msg))

    def eq(self, got, want, tag, msg=""):
        if not (got == want):
            raise Fail(tag, "%s: got %r, expected %r" % (msg, got, want))

    def observe(self, *a):
        self.h.observe(repr(a))

    def trace(self, s):
        self.h.trace(s)


HDR = struct.Struct("<QQQQQQQ")  # cur, running, evals, states, trans, nfail, keylen


class H:
    def __init__(self, argv):
        self.shard, self.nshards, self.out, self.scratch = 0, 1, "/dev/stdout", "/tmp"
        self.only, self.thorough, self.timeout = None, False, 40
        self.opts = {}
        for a in argv[1:]:
            if a.startswith("--shard="):
                self.shard, self.nshards = map(int, a[8:].split("/"))
            elif a.startswith("--out="):
                self.out = a[6:]
            elif a.startswith("--scratch="):
                self.scratch = a[10:]
            elif a.startswith("--key="):
                self.only = a[6:]
            elif a.startswith("--timeout="):
                self.timeout = int(a[10:])
            elif a == "--thorough":
                self.thorough = True
            elif a.startswith("--") and "=" in a:
                k, v = a[2:].split("=", 1)
                self.opts[k] = v
        self.shm = mmap.mmap(-1, 65536)
        self.counter = 0
        self.resume = 0
        self.obs = set()
        self.tr = []

    # shared-memory accessors
    def _get(self):
        return list(HDR.unpack_from(self.shm, 0))

    def _put(self, v):
        HDR.pack_into(self.shm, 0, *v)

    def _bump(self, i, n=1):
        v = self._get()
        v[i] += n
        self._put(v)

    def case(self, key):
        me = self.counter
        self.counter += 1
        run = True
        if self.only is not None:
            run = key == self.only
        elif me % self.nshards != self.shard or me < self.resume:
            run = False
        self._me = me
        return _Case(self, key, run)

    def _begin(self, key):
        kb = key.encode("utf-8", "replace")[:30000]
        v = self._get()
        v[0], v[1], v[6] = self._me, 1, len(kb)
        v[2] += 1
        self._put(v)
        self.shm[HDR.size:HDR.size + len(kb)] = kb
        self.tr = []
        struct.pack_into("<Q", self.shm, 32768, 0)
        self.curobs = None
        self.key = key
        signal.alarm(self.timeout)

    def _end(self):
        signal.alarm(0)
        if self.curobs is not None and len(self.obs) < 200000:
            d = self.curobs.hexdigest()[:16]
            if d not in self.obs:
                self.obs.add(d)
                self.fobs.write(d + "\n")
                self.fobs.flush()
        v = self._get()
        v[1] = 0
        self._put(v)

    def observe(self, s):
        if self.curobs is None:
            self.curobs = hashlib.sha1()
        self.curobs.update(s.encode("utf-8", "surrogatepass") if isinstance(s, str) else s)

    def trace(self, s):
        self.tr.append(s)
        b = "; ".join(self.tr).encode("utf-8", "replace")[:30000]
        struct.pack_into("<Q", self.shm, 32768, len(b))
        self.shm[32776:32776 + len(b)] = b

    def states(self, n=1):
        self._bump(3, n)

    def transitions(self, n=1):
        self._bump(4, n)

    def sample(self, s):
        with open(self.out, "a") as f:
            f.write(json.dumps({"sample": str(s)[:1500]}) + "\n")

    def _shkey(self):
        v = self._get()
        return bytes(self.shm[HDR.size:HDR.size + v[6]]).decode("utf-8", "replace")

    def _shtrace(self):
        n, = struct.unpack_from("<Q", self.shm, 32768)
        return bytes(self.shm[32776:32776 + n]).decode("utf-8", "replace")

    def _emit_fail(self, tag, msg):
        self._bump(5)
        with open(self.out, "a") as f:
            k = self._shkey()
            f.write(json.dumps({"fail": dict(key=k, replay=k, tag=tag, msg=msg[:3000],
                                             trace=self._shtrace())}) + "\n")


def _tail(path):
    res, on, frames = [], False, 0
    try:
        for line in open(path, errors="replace"):
            for m in ("ERROR: AddressSanitizer", "Assertion", "Fatal Python error", "VH-TIMEOUT"):
                if m in line:
                    on = True
                    res.append(line[line.index(m):].strip())
                    break
            else:
                if on and "    #" in line and frames < 8:
                    frames += 1
                    res.append(line.strip().split(" in ", 1)[-1])
    except OSError:
        pass
    return " | ".join(res)[:2500]


def _alarm(sig, frm):
    os.write(2, b"VH-TIMEOUT\n")
    os._exit(97)


def main(explore, setup=None):
    h = H(sys.argv)
    err, obsf = h.out + ".err", h.out + ".obs"
    if os.path.exists(obsf):
        os.unlink(obsf)
    crashes = 0
    while True:
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                fd = os.open(err, os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_APPEND, 0o666)
                if not os.environ.get("VH_STDERR"):
                    os.dup2(fd, 2)
                    os.dup2(fd, 1)
                # C-level handler, so that hangs inside C code are seen too
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                h.fobs = open(obsf, "a")
                if setup:
                    setup(h)
                explore(h)
                code = 0
            except BaseException:
                traceback.print_exc()
                sys.stderr.write("VH-HARNESS\n")
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        v = h._get()
        if status == 0 and not v[1]:
            break
        if not v[1] and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98 and h.only is None and crashes < 500:
            h.resume = v[0] + 1
            crashes += 1
            continue
        if h.only is not None and not v[1]:
            break
        tail = _tail(err)
        if not v[1]:
            k = b"(outside any case)"
            v[6] = len(k)
            h._put(v)
            h.shm[HDR.size:HDR.size + len(k)] = k
            h._emit_fail("crash", "status %d: %s" % (status, open(err, errors="replace").read()[-2500:]))
            break
        sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
        tag = "hang" if sig == signal.SIGALRM else "abort" if sig == signal.SIGABRT else "crash"
        if "AddressSanitizer" in tail:
            tag = "memory"
        h._emit_fail(tag, "status=%d %s" % (status, tail))
        v = h._get()
        v[1] = 0
        h._put(v)
        h.resume = v[0] + 1
        crashes += 120 if tag == "hang" else 1
        if h.only is not None:
            break
        if crashes > 500:
            with open(h.out, "a") as f:
                f.write(json.dumps({"capped": "too many crashes"}) + "\n")
            break
    v = h._get()
    obs = open(obsf).read().split() if os.path.exists(obsf) else []
    with open(h.out, "a") as f:
        f.write(json.dumps({"obs": sorted(set(obs))}) + "\n")
        f.write(json.dumps({"stats": dict(evaluations=v[2], states=v[3], transitions=v[4], fails=v[5])}) + "\n")
    sys.exit(0)
