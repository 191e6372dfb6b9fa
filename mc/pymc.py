"""Bounded-exhaustive exploration runtime for the Python interface; same command line and report as mc.hpp.

Sections are finite lists of cases, dealt out to forked workers in strides. A worker that dies (sanitizer report,
segmentation fault, assert) is attributed to the case it was running and replaced; it carries on with the next case.
"""
import hashlib, json, mmap, os, signal, struct, sys, tempfile, time, traceback, warnings

NOTE = 4000
SLOT = 16 + NOTE
LIMIT = 24
THOROUGH = False


class Skip(Exception):
    pass


class Ctx:
    def __init__(self, w, section, index):
        self.w, self.section, self.index, self.failed = w, section, index, False

    def note(self, s):
        self.w.note(s)

    def state(self, key):
        self.w.states.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def trans(self, n=1):
        self.w.transitions += n

    def trace(self, n=1):
        self.w.traces += n

    def sample(self, s):
        if len(self.w.samples) < 3:
            self.w.samples.append(str(s)[:1500])

    def fail(self, key, msg):
        if not self.failed:
            self.failed = True
            self.w.violation(self.section, self.index, key, msg)

    def check(self, cond, key, msg):
        self.w.comparisons += 1
        if not cond:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def close(self, got, want, tol, key, msg, scale=1.0):
        self.w.comparisons += 1
        try:
            got = float(got)
            ok = abs(got - want) <= tol * (scale + abs(want))  # false for nan
        except (TypeError, ValueError):
            ok = False
        if not ok:
            self.fail(key, "%s: got %r expected %r" % (msg() if callable(msg) else msg, got, want))
        return ok


class Worker:
    def __init__(self, slot, path):
        self.slot, self.path = slot, path
        self.states, self.samples = set(), []
        self.transitions = self.traces = self.comparisons = self.nviol = 0
        self.flushed = 0

    def note(self, s):
        b = s.encode(errors="replace")[:NOTE - 1]
        self.slot[16:16 + len(b) + 1] = b + b"\0"

    def violation(self, section, index, key, msg):
        self.nviol += 1
        n = bytes(self.slot[16:16 + NOTE]).split(b"\0")[0].decode(errors="replace")
        with open(self.path, "a") as f:
            f.write(json.dumps(dict(v=dict(section=section, index=index, key=key, msg=msg[:2000], note=n))) + "\n")
        if REPLAY:
            sys.stderr.write("REPLAY-FAIL key=%s msg=%s\n  case: %s\n" % (key, msg, n))

    def flush(self):
        with open(self.path, "a") as f:
            f.write(json.dumps(dict(s=b"".join(self.states).hex(), t=self.transitions, r=self.traces,
                                    c=self.comparisons, samples=self.samples)) + "\n")
        self.states, self.samples = set(), []
        self.transitions = self.traces = self.comparisons = 0


REPLAY = False


def run_case(w, name, fn, i):
    c = Ctx(w, name, i)
    w.note("")
    try:
        fn(c, i)
    except Skip:
        pass
    except Exception:
        c.fail("exception", "unexpected exception: " + traceback.format_exc()[-1500:])


def main(setup, case_timeout=120):
    global THOROUGH, REPLAY
    a = sys.argv[1:]
    THOROUGH = "--thorough" in a
    out = a[a.index("--out") + 1] if "--out" in a else "/dev/stdout"
    jobs = int(a[a.index("--jobs") + 1]) if "--jobs" in a else 8
    warnings.simplefilter("ignore")
    secs = []
    setup(lambda name, n, fn: secs.append((name, n, fn)), THOROUGH)
    if "--replay" in a:
        REPLAY = True
        rs, ri = a[a.index("--replay") + 1], int(a[a.index("--replay") + 2])
        slot = mmap.mmap(-1, SLOT)
        for name, n, fn in secs:
            if name == rs:
                pid = os.fork()
                if pid == 0:
                    signal.alarm(case_timeout * 3)
                    os.dup2(os.open("/dev/null", os.O_WRONLY), 1)
                    w = Worker(slot, "/dev/null")
                    run_case(w, name, fn, ri)
                    sys.stderr.flush()
                    os._exit(1 if w.nviol else 0)
                _, st = os.waitpid(pid, 0)
                if st:
                    sys.stderr.write("replay ended with status %d\n  case: %s\n" % (
                        st, bytes(slot[16:]).split(b"\0")[0].decode(errors="replace")))
                return 1 if st else 0
        return 3
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="pymc")
    tot = dict(states=set(), transitions=0, traces=0, comparisons=0)
    sections, violations, samples = [], [], []
    for name, n, fn in secs:
        ts = time.time()
        J = max(1, min(jobs, n))
        shm = mmap.mmap(-1, SLOT * J)

        def spawn(j, start):
            sys.stdout.flush()
            pid = os.fork()
            if pid:
                return pid
            dn = os.open("/dev/null", os.O_WRONLY)
            os.dup2(dn, 1)
            if not os.environ.get("MC_STDERR"):
                os.dup2(dn, 2)
            mv = memoryview(shm)[j * SLOT:(j + 1) * SLOT]
            w = Worker(mv, os.path.join(tmp, "%s.%d" % (name, j)))
            k = 0
            for i in range(start, n, J):
                struct.pack_into("qd", mv, 0, i, time.time())
                run_case(w, name, fn, i)
                k += 1
                if k % 64 == 0:
                    w.flush()
                if w.nviol >= LIMIT:
                    break
            struct.pack_into("qd", mv, 0, -1, time.time())
            w.flush()
            os._exit(0)

        pids = {spawn(j, j): j for j in range(J)}
        crashes = 0
        while pids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                time.sleep(0.005)
                for p, j in pids.items():
                    i, t = struct.unpack_from("qd", shm, j * SLOT)
                    if i >= 0 and t and time.time() - t > case_timeout:
                        os.kill(p, signal.SIGKILL)
                continue
            if pid not in pids:
                continue
            j = pids.pop(pid)
            if st:
                i, _ = struct.unpack_from("qd", shm, j * SLOT)
                hang = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGKILL
                note = bytes(shm[j * SLOT + 16:(j + 1) * SLOT]).split(b"\0")[0].decode(errors="replace")
                violations.append(dict(section=name, index=int(i), key="hang" if hang else "crash",
                                       msg="no answer in time" if hang else "process died (status %d)" % st, note=note))
                crashes += 1
                if crashes < LIMIT and i >= 0 and i + J < n:
                    pids[spawn(j, i + J)] = j
        before = len(tot["states"])
        s = dict(section=name, cases=n, states=0, transitions=0, comparisons=0, violations=crashes,
                 stopped_early=crashes >= LIMIT)
        for j in range(J):
            p = os.path.join(tmp, "%s.%d" % (name, j))
            if not os.path.exists(p):
                continue
            nv = 0
            for line in open(p):
                d = json.loads(line)
                if "v" in d:
                    violations.append(d["v"])
                    nv += 1
                else:
                    h = bytes.fromhex(d["s"])
                    tot["states"].update(h[k:k + 8] for k in range(0, len(h), 8))
                    s["transitions"] += d["t"]
                    s["comparisons"] += d["c"]
                    tot["traces"] += d["r"]
                    samples += d["samples"]
            s["violations"] += nv
            if nv >= LIMIT:
                s["stopped_early"] = True
            os.remove(p)
        s["states"] = len(tot["states"]) - before
        s["seconds"] = round(time.time() - ts, 2)
        tot["transitions"] += s["transitions"]
        tot["comparisons"] += s["comparisons"]
        sections.append(s)
    os.rmdir(tmp)
    with open(out, "w") as f:
        json.dump(dict(states=len(tot["states"]), transitions=tot["transitions"], traces=tot["traces"],
                       comparisons=tot["comparisons"], setfull=0, seconds=round(time.time() - t0, 2), sections=sections,
                       samples=samples[:12], violations=violations[:256]), f)
    return 0
