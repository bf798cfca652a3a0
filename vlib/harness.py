"""Runs the scenarios of a check on the real program, in unprivileged workers, and decides the verdict.

The parent (root) builds the program from /repo's working tree and copies it to a scratch directory. Workers drop to an
unprivileged user that owns nothing but its scratch directory, run cases there and report what the monitors observed.
Verdicts are three-valued: a case is held, violated or inconclusive (a watchdog fired); only violations decide.
"""
import collections, hashlib, importlib, json, multiprocessing, os, pickle, random, re, resource, shutil, signal, stat
import subprocess, sys, tempfile, time, traceback

from . import build

VERIF = build.VERIF
UID = 40000 + os.getpid() % 20000  # of this run alone
CPU_LIMIT = 20
WALL_LIMIT = 90


ZONES = ["UTC", "UTC", "XXX5", "ABC-9:30", "EST5EDT,M3.2.0,M11.1.0", "YYY-14", "ZZZ12"]


class Violation(Exception):
    def __init__(self, sig, msg):
        super().__init__(msg)
        self.sig, self.msg = sig, msg


class Inconclusive(Exception):
    pass


class Discard(Exception):
    """The generated case is not one the property says anything about."""


class Scenario:
    def __init__(self, name, fn, quick, thorough=None, procs=None):
        """`quick`/`thorough`: how many cases are run in the tier. `procs`: at most so many workers."""
        self.name, self.fn, self.quick, self.procs = name, fn, quick, procs
        self.thorough = quick * 12 if thorough is None else thorough


class Result:
    def __init__(self, rc, out, err, wall, timeout=False, stuck=False):
        self.rc, self.out, self.err, self.wall, self.timeout = rc, out, err, wall, timeout
        self.stuck = stuck

    def text(self):
        return strip_ansi(self.out + self.err).decode("utf-8", "replace")

    def errtext(self):
        return strip_ansi(self.err).decode("utf-8", "replace")

    def crashed(self):
        if self.stuck:
            return "hang: it and all of its children sleep, with nothing to wake them"
        if self.timeout:
            return None
        if self.rc < 0:
            return "killed by signal %d (%s)" % (-self.rc, signal.Signals(-self.rc).name)
        if self.rc == 101 or b"panicked at" in self.err:
            m = re.search(rb"panicked at [^\n]*(\n[^\n]*)?", self.err)
            return "panic: " + (m.group(0).decode("utf-8", "replace") if m else "exit code 101")
        if self.rc not in (0, 1):
            return "exit code %d" % self.rc
        return None


def task_tree(pid):
    """The processes started by `pid`, with it, and the scheduling states of all of their threads."""
    todo, pids, states = [pid], [], []
    while todo:
        q = todo.pop()
        pids.append(q)
        try:
            for t in os.listdir("/proc/%d/task" % q):
                with open("/proc/%d/task/%s/stat" % (q, t)) as f:
                    states.append(f.read().rpartition(")")[2].split()[0])
                with open("/proc/%d/task/%s/children" % (q, t)) as f:
                    todo += [int(c) for c in f.read().split()]
        except OSError:
            states.append("gone")
    return pids, states


def kill_tree(pid):
    for q in task_tree(pid)[0][1:]:
        try:
            os.kill(q, signal.SIGKILL)
        except OSError:
            pass


class Sleepers:
    """Tells a program that is stuck from one that is slow. A starved program is runnable ("R") and one that waits for
    a disk is in "D"; if every thread of the program and of all of its children is asleep in nearly all of 100 samples,
    taken over at least 25 seconds, then they wait for something that does not come: none of the workloads of
    `Ctx.run` waits for anything outside of the program for longer than a moment."""
    N = 100

    def __init__(self, pid):
        self.pid, self.seen = pid, collections.deque(maxlen=self.N)

    def sample(self):
        self.seen.append(all(s == "S" for s in task_tree(self.pid)[1]))
        return len(self.seen) == self.N and sum(self.seen) >= self.N * 0.97


def strip_ansi(b):
    return re.sub(rb"\x1b\[[0-9;]*m", b"", b)


def write_tree(root, files, dirs=()):
    """`files`: relative path (str or bytes) -> bytes/str."""
    made = set()
    root = os.fsencode(root)
    for d in list(dirs):
        os.makedirs(os.path.join(root, os.fsencode(d)), exist_ok=True)
    for p, data in files.items():
        full = os.path.join(root, os.fsencode(p))
        d = os.path.dirname(full)
        if d not in made:
            os.makedirs(d, exist_ok=True)
            made.add(d)
        with open(full, "wb") as f:
            f.write(data.encode("utf-8", "surrogateescape") if isinstance(data, str) else data)


def read_tree(root, dirs=True):
    """Relative path -> bytes of a file, None for a directory, ("link", target) for a symbolic link."""
    out = {}
    root = os.fsencode(root)

    def rec(d, rel):
        for e in sorted(os.scandir(d), key=lambda e: e.name):
            r = os.path.join(rel, e.name) if rel else e.name
            key = os.fsdecode(r)
            if e.is_symlink():
                out[key] = ("link", os.readlink(e.path))
            elif e.is_dir():
                if dirs:
                    out[key] = None
                rec(e.path, r)
            elif not e.is_file():
                out[key] = ("special", stat.S_IFMT(e.stat().st_mode))
            else:
                with open(e.path, "rb") as f:
                    out[key] = f.read()
    if os.path.isdir(root):
        rec(root, b"")
        return out
    return None


def diff_trees(expected, actual):
    """A short description of the first differences, or None."""
    if expected is None or actual is None:
        return None if expected is actual else "expected %s, found %s" % tuple(
            "nothing" if t is None else "a directory" for t in (expected, actual))
    msgs = []
    for p in sorted(set(expected) | set(actual)):
        if p not in actual:
            msgs.append("missing %r" % p)
        elif p not in expected:
            msgs.append("unexpected %r" % p)
        elif expected[p] != actual[p]:
            msgs.append("%r differs: %s" % (p, diff_bytes(expected[p], actual[p])))
    if not msgs:
        return None
    return "; ".join(msgs[:4]) + (" (%d differences)" % len(msgs) if len(msgs) > 4 else "")


def diff_bytes(e, a):
    if not isinstance(e, bytes) or not isinstance(a, bytes):
        return "expected %s, found %s" % (kind(e), kind(a))
    i = 0
    while i < len(e) and i < len(a) and e[i] == a[i]:
        i += 1
    lo = max(0, i - 30)
    return "at byte %d of %d/%d: expected ...%r, found ...%r" % (i, len(e), len(a), e[lo:i + 50], a[lo:i + 50])


def kind(x):
    return "a directory" if x is None else "a file" if isinstance(x, bytes) else repr(x)


class Ctx:
    """What a scenario has at hand for one case."""

    def __init__(self, env, rng, index, scratch):
        self.env, self.rng, self.index, self.dir = env, rng, index, scratch
        self.evals = 0
        self.keys = []
        self.feats = collections.Counter()
        self.sample = None
        self.snapshot = None
        self.note = None

    def __getattr__(self, name):
        try:
            return self.__dict__["env"][name]
        except KeyError:
            raise AttributeError(name)

    # -- observing ----------------------------------------------------------------------------------------------------
    def observed(self, n=1, key=None, **feats):
        """Counts `n` decided observations; `key` (anything repr-able) identifies distinct non-trivial ones."""
        self.evals += n
        if key is not None:
            self.keys.append(hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=8).digest())
        for k, v in feats.items():
            self.feats[k] += v

    def feature(self, name, n=1):
        self.feats[name] += n

    def require(self, cond, sig, msg):
        if not cond:
            raise Violation(sig, msg() if callable(msg) else msg)

    # -- acting -------------------------------------------------------------------------------------------------------
    def path(self, *parts):
        return os.path.join(self.dir, *parts)

    def base_env(self):
        """No property depends on the time zone or the locale, so they differ from case to case."""
        h = self.index * 7919 + 13
        e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": self.dir, "TZ": ZONES[h % len(ZONES)], "LC_ALL": "C.UTF-8"}
        if h % 11 == 0:
            e["LC_ALL"] = "C"
        elif h % 13 == 0:
            del e["LC_ALL"]
        return e

    def run(self, args, cwd=None, env=None, extra_env=None, exe=None, wall=WALL_LIMIT, cpu=CPU_LIMIT, stdin=None):
        """Runs stuart (or `exe`) to its end."""
        e = self.base_env() if env is None else dict(env)
        e.update(extra_env or {})
        t = time.monotonic()
        p = subprocess.Popen([exe or self.stuart] + list(args), cwd=cwd or self.dir, env=e,
                             stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
        except (ProcessLookupError, PermissionError):
            pass
        first, watch = 5, Sleepers(p.pid)
        while True:
            try:
                out, err = p.communicate(timeout=first)
                return Result(p.returncode, out, err, time.monotonic() - t)
            except subprocess.TimeoutExpired:
                first = 0.25
                stuck = watch.sample()
                if stuck or time.monotonic() - t > wall:
                    kill_tree(p.pid)
                    p.kill()
                    out, err = p.communicate()
                    return Result(p.returncode, out, err, time.monotonic() - t, not stuck, stuck)

    def build(self, project, args=(), **kw):
        """`stuart build` in the project directory; a crash is a violation, a watchdog inconclusive."""
        r = self.run(["-q", "build"] + list(args), cwd=project, **kw)
        self.no_crash(r)
        return r

    def no_crash(self, r):
        if r.stuck:
            raise Violation("hang", "the program never ends: it and all of its children sleep, with nothing to wake them")
        if r.timeout:
            raise Inconclusive("the wall clock watchdog fired")
        c = r.crashed()
        if c is not None:
            raise Violation("crash", "the program crashed: " + c)
        return r

    def build_ok(self, project, args=(), **kw):
        r = self.build(project, args, **kw)
        if r.rc != 0:
            raise Violation("unexpected-failure", "a valid project fails to build: " + r.errtext()[:700])
        return r

    def build_fails(self, project, what, args=(), **kw):
        r = self.build(project, args, **kw)
        if r.rc == 0:
            raise Violation("unexpected-success", "the build succeeds although %s" % what)
        if "error:" not in r.errtext():
            raise Violation("silent-failure", "the build fails without printing an error")
        return r


# ---------------------------------------------------------------------------------------------------------------------

def _drop_privileges():
    if os.getuid() == 0:
        os.setgroups([])
        os.setresgid(UID, UID, UID)
        os.setresuid(UID, UID, UID)
    if os.getuid() == 0:
        raise RuntimeError("could not drop privileges")


def _snapshot(root, limit=400_000):
    """The tree of a violating case, as far as it is small enough to keep."""
    files, total = {}, 0
    try:
        for p, v in (read_tree(root) or {}).items():
            if isinstance(v, bytes):
                total += len(v)
                if total > limit:
                    files["..."] = b"(truncated)"
                    break
            files[p] = v
    except OSError:
        pass
    return files


def run_case(module, scn, seed, index, env, scratch):
    rng = random.Random("%s/%s/%s/%s" % (seed, module.ID, scn.name, index))
    d = os.path.join(scratch, "c%d" % index)
    os.makedirs(d)
    ctx = Ctx(env, rng, index, d)
    res = {"scenario": scn.name, "index": index}
    try:
        scn.fn(ctx)
        res["status"] = "held" if ctx.evals else "nothing"
    except Violation as v:
        res.update(status="violated", sig=v.sig, msg=v.msg, snapshot=_snapshot(ctx.snapshot or d))
    except Inconclusive as e:
        res.update(status="inconclusive", msg=str(e))
    except Discard:
        res["status"] = "discarded"
    except Exception:
        res.update(status="error", msg=traceback.format_exc())
    res.update(evals=ctx.evals, keys=ctx.keys, feats=ctx.feats, sample=ctx.sample)
    shutil.rmtree(d, ignore_errors=True)
    return res


def _worker(module, plan, seed, env, scratch, wid, nproc, deadline, conn):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        _drop_privileges()
        os.umask(0o022)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        limit = getattr(module, "DATA_LIMIT", 4 << 30)
        if limit:  # (AddressSanitizer reserves more.)
            resource.setrlimit(resource.RLIMIT_DATA, (limit, limit))
        my = os.path.join(scratch, "w%d" % wid)
        os.makedirs(my)
        os.chdir(my)
        queues = [(s, i) for s, n in plan for i in range(n) if (s.procs is None and i % nproc == wid) or
                  (s.procs is not None and wid < s.procs and i % s.procs == wid)]
        # Interleave the scenarios, so that a deadline cuts all of them in proportion.
        queues.sort(key=lambda q: (q[1] / max(1, dict((s.name, n) for s, n in plan)[q[0].name]), q[0].name))
        agg = {}
        bad = 0
        cut = 0
        listed = {k["signature"] for k in load_known() if k["property"] == env["property"]}
        for scn, i in queues:
            if time.monotonic() > deadline:
                cut += 1
                continue
            r = run_case(module, scn, seed, i, env, my)
            a = agg.setdefault(scn.name, {"cases": 0, "evals": 0, "keys": set(), "feats": collections.Counter(),
                                          "status": collections.Counter(), "samples": []})
            a["cases"] += 1
            a["evals"] += r["evals"]
            a["keys"].update(r["keys"])
            a["feats"].update(r["feats"])
            a["status"][r["status"]] += 1
            if r["sample"] is not None and len(a["samples"]) < 2:
                a["samples"].append(r["sample"])
            if r["status"] in ("violated", "error", "inconclusive"):
                conn.send(("event", {k: r.get(k) for k in ("scenario", "index", "status", "sig", "msg", "snapshot")}))
                if r["status"] == "violated" and r.get("sig") not in listed:
                    bad += 1
                    if bad >= 6:
                        cut += 1
                        break
        conn.send(("done", agg, cut))
    except BaseException:
        conn.send(("dead", traceback.format_exc()))
    finally:
        conn.close()
        os._exit(0)


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def scratch_dir():
    """A scratch directory that the unprivileged workers can use, preferably in memory."""
    for base in ("/dev/shm", "/tmp"):
        try:
            d = tempfile.mkdtemp(prefix="verif-", dir=base)
            os.chmod(d, 0o755)
            t = os.path.join(d, "true")
            shutil.copy("/bin/true", t)
            if subprocess.run([t]).returncode == 0:
                os.unlink(t)
                return d
        except OSError:
            pass
    raise RuntimeError("no usable scratch directory")


def main(pid, argv):
    started = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    only = None
    replay = None
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    while argv:
        a = argv.pop(0)
        if a == "--tier":
            tier = argv.pop(0)
        elif a == "--seed":
            seed = int(argv.pop(0))
        elif a == "--only":
            only = argv.pop(0)
        elif a == "--replay":
            replay = json.load(open(os.path.join(argv.pop(0), "case.json")))
            seed, tier = replay["seed"], replay["tier"]
    module = importlib.import_module("vlib.checks." + pid.lower())
    scratch = scratch_dir()
    code = 2
    try:
        code = _main(module, pid, tier, seed, only, replay, scale, scratch, started)
    finally:
        # Whatever the workers have left behind (nothing else runs as this user).
        subprocess.run(["pkill", "-KILL", "-u", str(UID)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def _main(module, pid, tier, seed, only, replay, scale, scratch, started):
    env = {"tier": tier, "scratch_root": scratch, "seed": seed, "property": pid}
    module_env = module.prepare(scratch) if hasattr(module, "prepare") else default_prepare(scratch)
    env.update(module_env)
    built = time.monotonic() - started
    os.makedirs(os.path.join(scratch, "work"))
    os.chmod(os.path.join(scratch, "work"), 0o777)
    work = os.path.join(scratch, "work")
    scns = [s for s in module.SCENARIOS if only is None or s.name == only]
    scale *= getattr(module, "THOROUGH" if tier == "thorough" else "QUICK", 1)
    # (Scenarios of a few cases enumerate something: more of them would repeat it.)
    plan = [(s, n if n <= 8 else max(1, round(n * scale))) for s, n in [(s, s.thorough if tier == "thorough" else s.quick) for s in scns]]
    budget = getattr(module, "BUDGET", {"quick": 100, "thorough": 780})[tier]
    nproc = getattr(module, "NPROC", None) or min(8, os.cpu_count() or 1)
    if replay:
        scn = [s for s in module.SCENARIOS if s.name == replay["scenario"]][0]
        r, w = os.pipe()
        if os.fork() == 0:
            _drop_privileges()
            os.chdir(work)
            res = run_case(module, scn, seed, replay["index"], env, work)
            print(res["status"], res.get("sig"), res.get("msg"), flush=True)
            os._exit(1 if res["status"] == "violated" else 0)
        return os.waitstatus_to_exitcode(os.wait()[1])

    deadline = time.monotonic() + budget
    procs = []
    mp = multiprocessing.get_context("fork")
    for wid in range(nproc):
        rx, tx = mp.Pipe(False)
        p = mp.Process(target=_worker, args=(module, plan, seed, env, work, wid, nproc, deadline, tx))
        p.start()
        tx.close()
        procs.append((p, rx))
    events, agg, cut, dead = [], {}, 0, []
    hard = deadline + 120
    for p, rx in procs:
        try:
            while True:
                if not rx.poll(max(0.0, hard - time.monotonic())):
                    dead.append("a worker did not finish in time")
                    break
                m = rx.recv()
                if m[0] == "event":
                    events.append(m[1])
                elif m[0] == "dead":
                    dead.append(m[1])
                    break
                else:
                    for name, a in m[1].items():
                        t = agg.setdefault(name, {"cases": 0, "evals": 0, "keys": set(), "feats": collections.Counter(),
                                                  "status": collections.Counter(), "samples": []})
                        t["cases"] += a["cases"]
                        t["evals"] += a["evals"]
                        t["keys"] |= a["keys"]
                        t["feats"].update(a["feats"])
                        t["status"].update(a["status"])
                        t["samples"].extend(a["samples"])
                    cut += m[2]
                    break
        except EOFError:
            dead.append("a worker died")
    for p, rx in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    return _verdict(module, pid, tier, seed, events, agg, cut, dead, started, built, plan)


def _verdict(module, pid, tier, seed, events, agg, cut, dead, started, built, plan):
    known = [k for k in load_known() if k["property"] == pid]
    violations = [e for e in events if e["status"] == "violated"]
    errors = [e for e in events if e["status"] == "error"]
    inconclusive = [e for e in events if e["status"] == "inconclusive"]
    unlisted = []
    hit = {}
    for v in violations:
        k = next((k for k in known if k["signature"] == v["sig"]), None)
        if k:
            hit[k["signature"]] = k
        else:
            unlisted.append(v)
    for k in hit.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rdir = os.path.join(VERIF, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    unlisted.sort(key=lambda v: (v["sig"], v["scenario"], v["index"]))
    for n, v in enumerate(unlisted[:8]):
        d = os.path.join(rdir, str(n))
        os.makedirs(d)
        snap = v.pop("snapshot") or {}
        json.dump(dict(v, property=pid, seed=seed, tier=tier), open(os.path.join(d, "case.json"), "w"), indent=1)
        for p, data in snap.items():
            try:
                full = os.path.join(os.fsencode(d), b"tree", os.fsencode(p))
                if data is None:
                    os.makedirs(full, exist_ok=True)
                elif isinstance(data, bytes):
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    open(full, "wb").write(data)
            except (OSError, ValueError):
                pass
        print("  %s #%d [%s]: %s" % (v["scenario"], v["index"], v["sig"], v["msg"][:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(d, VERIF)))
    total = sum(a["evals"] for a in agg.values())
    distinct = len(set().union(*[a["keys"] for a in agg.values()])) if agg else 0
    statuses = collections.Counter()
    for a in agg.values():
        statuses.update(a["status"])
    samples = []
    for name in sorted(agg):
        for s in agg[name]["samples"][:2]:
            samples.append({"scenario": name, "case": _trim(s)})
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": module.LEVEL,
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": distinct,
            "rule": module.RULE,
            "cases": dict(statuses),
            "scenarios": {n: {"cases": a["cases"], "observations": a["evals"], "distinct": len(a["keys"]),
                              "outcomes": dict(a["status"])} for n, a in sorted(agg.items())},
            "observed": {k: v for n in sorted(agg) for k, v in sorted(agg[n]["feats"].items())} if len(agg) == 1 else
                        {n: dict(sorted(agg[n]["feats"].items())) for n in sorted(agg)},
            "cases_not_run_for_lack_of_time": cut,
            "inconclusive": [e["msg"] for e in inconclusive][:5],
            "errors_of_the_machinery": [e["msg"][-300:] for e in errors][:5],
            "samples": samples[:12],
        },
        "assumptions": module.ASSUMPTIONS,
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(unlisted),
    }
    while len(json.dumps(evidence)) > 60000 and evidence["coverage"]["samples"]:
        evidence["coverage"]["samples"].pop()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    print("%s %s seed=%d: %d observations, %d distinct, %s; built in %.1f s, %.1f s in all%s" % (
        pid, tier, seed, total, distinct, dict(statuses), built, time.monotonic() - started,
        ", %d cases cut" % cut if cut else ""))
    if unlisted:
        return 1
    for e in (errors + [{"scenario": "-", "index": -1, "msg": m} for m in dead])[:3]:
        print("ERROR in %s #%d: %s" % (e["scenario"], e["index"], e["msg"]), file=sys.stderr)
    # A few cases that the machinery itself could not decide are no answer about these cases only.
    if dead or len(errors) > max(3, sum(statuses.values()) // 100):
        return 2
    quiet = [s.name for s, n in plan if n and not agg.get(s.name, {"evals": 0})["evals"]
             and not any(v["scenario"] == s.name for v in violations)]
    if quiet:
        print("ERROR: nothing was observed in %s" % ", ".join(quiet), file=sys.stderr)
        return 2
    unseen = [k["signature"] for k in known if k["signature"] not in hit]
    if unseen:
        print("note: known findings not seen in this run: %s" % ", ".join(unseen))
    return 0


def _trim(x, n=1500):
    if isinstance(x, bytes):
        x = x.decode("utf-8", "replace")
    if isinstance(x, str):
        return x if len(x) <= n else x[:n] + "... (%d characters)" % len(x)
    if isinstance(x, dict):
        return {str(k): _trim(v, n) for k, v in list(x.items())[:20]}
    if isinstance(x, (list, tuple)):
        return [_trim(v, n) for v in list(x)[:20]]
    return x if isinstance(x, (int, float, bool)) or x is None else repr(x)


def install(scratch, path, name=None):
    """Copies a built artifact to where the unprivileged workers can use it."""
    dst = os.path.join(scratch, name or os.path.basename(path))
    shutil.copy(path, dst)
    os.chmod(dst, 0o755)
    return dst


def default_prepare(scratch, oracle=False, js=True):
    env = {"stuart": install(scratch, build.stuart(js))}
    if oracle:
        env["mdoracle"] = install(scratch, build.oracle())
    return env
