"""C13: faults and crashes in the middle of a build."""
import shutil

from ..common import *
from .. import fsm, sites as S
from . import c11

ID = "C13"
LEVEL = "fault_enumeration"
TECHNIQUE = "runtime monitoring with fault injection: an LD_PRELOAD monitor fails, shortens or kills at every file system call in turn; exit status, inputs, outputs and the next build are checked"
RULE = ("random projects are first built under a preloaded monitor that numbers every file system call of the process below the project; then builds are repeated with one of these calls failing (one errno of many, once or from then on), the process being killed at it or in the middle of a write, and with short or interrupted transfers throughout; "
        "an observation is a faulty build that fails with code 1 and an error or whose output and metadata are complete, or a killed one, always with the inputs byte for byte intact and a next build that equals the reference model and the clean metadata; distinct by call, mode and previous state")
ASSUMPTIONS = ["crashes of the process are modelled, not of the machine (no loss of unsynchronised data)", "temp is produced by the pre-build script, so that it is made again; ENOENT is not injected, as it means that the file does not exist"]

ERRNOS = [5, 5, 13, 28, 28, 24, 12, 30, 122, 1, 16, 27, 110, 4, 11]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


class Project:
    def __init__(self, ctx, small=False):
        r = ctx.rng
        self.ctx, self.proj = ctx, ctx.path("p")
        self.site, self.pages, self.settings, self.static, self.want = c11.rich_project(ctx, self.proj)
        self.dist = os.path.join(self.proj, "dist")
        ctx.build_ok(self.proj)
        d = diff_trees(self.want, read_tree(self.dist))
        ctx.require(d is None, "valid-output", lambda: "the output of a clean build: " + d)
        self.meta = c11.meta_of(self.proj)
        self.inputs = c11.inputs(self.proj, "dist")
        log = ctx.path("log")
        ctx.build_ok(self.proj, extra_env=fsm.env_for(ctx, log, root=self.proj))
        self.ops = [e for e in fsm.read_log(log) if e.n]
        ctx.require(len(self.ops) > 10, "monitor", "the monitor has counted nothing")
        self.n = max(e.n for e in self.ops)
        self.by_n = {e.n: e for e in self.ops}

    def intact(self, what):
        d = diff_trees(self.inputs, c11.inputs(self.proj, "dist"))
        self.ctx.require(d is None, "inputs-damaged", lambda: "%s changed the inputs: %s" % (what, d))

    def complete(self):
        """A description of what is missing from the result, or None."""
        d = diff_trees(self.want, read_tree(self.dist) if os.path.isdir(self.dist) else {"(no output)": None})
        if d is None and c11.meta_of(self.proj) != self.meta:
            d = "metadata.json is %r instead of %r" % ((c11.meta_of(self.proj) or b"-")[:150], (self.meta or b"-")[:150])
        if d is None and os.path.lexists(os.path.join(self.proj, "temp")):
            d = "temp is left"
        return d

    def disturb(self):
        """Another previous state."""
        r = self.ctx.rng
        x = r.random()
        if x < 0.15:
            shutil.rmtree(self.dist, ignore_errors=True)
            return "absent"
        if x < 0.4:
            write_tree(self.proj, {"dist/stale.html": b"stale", "dist/stale/deep/x": b"s"})
            if self.want:
                p = r.choice(sorted(p for p in self.want if self.want[p] is not None))
                if os.path.exists(os.path.join(self.dist, p)):
                    write_tree(self.proj, {"dist/" + p: b"STALE CONTENTS " * 100})
            if self.settings["save_metadata"]:
                write_tree(self.proj, {"metadata.json": b"{\"stale\": 1}" * 50})
            return "stale"
        return "built"

    def strike(self, mode, k, state, **opts):
        """One faulty build."""
        ctx = self.ctx
        e = self.by_n.get(k)
        what = "a build with %s at call %s (%s %s)%s" % (mode, k, e and e.op, e and os.path.relpath(e.path, self.proj), " %s" % opts if opts else "")
        log = ctx.path("log")
        res = ctx.run(["-q", "build"], cwd=self.proj, extra_env=fsm.env_for(ctx, log, root=self.proj, at=k, mode=mode, **opts))
        if res.timeout:
            raise Inconclusive("the wall clock watchdog fired")
        killed = res.rc == -9 and mode in ("kill", "partial")
        if not killed:
            c = res.crashed()
            ctx.require(c is None, "crash", lambda: "%s crashes: %s" % (what, c))
        ev = [x for x in fsm.read_log(log) if x.n]
        hit = killed or any(x.n == k and x.res < 0 for x in ev) or k is None
        if not killed:
            if res.rc == 0:
                d = self.complete()
                ctx.require(d is None, "incomplete-success", lambda: "%s reports success, but: %s" % (what, d))
                ctx.feature("fault-tolerated" if hit else "not-reached")
            else:
                ctx.require("error:" in res.errtext(), "silent-failure", lambda: "%s fails without an error" % what)
                ctx.feature("fault-reported")
        else:
            ctx.feature("killed")
        self.intact(what)
        op = next((x.op for x in ev if x.n == k), e.op if e else "all")
        ctx.feature(("kill-" if killed else "fault-") + op)
        ctx.observed(1, (mode.split(":")[0], op, os.path.relpath(e.path, self.proj) if e else "", state, k))
        return what

    def recover(self, what):
        self.ctx.build_ok(self.proj)
        d = self.complete()
        self.ctx.require(d is None, "not-repaired", lambda: "the build after %s: %s" % (what, d))
        self.intact("the build after " + what)
        self.ctx.feature("recovered")


def pick(r, p):
    """A call to strike at: the later and the mutating ones more often."""
    if r.random() < 0.5:
        m = [e.n for e in p.ops if e.op in fsm.MUTATING]
        return r.choice(m or [1])
    return r.randint(1, p.n)


def sc_faults(ctx):
    r = ctx.rng
    p = Project(ctx)
    for _ in range(10):
        state = p.disturb()
        for again in range(r.choice([1, 1, 1, 2, 3])):
            k = pick(r, p)
            x = r.random()
            if x < 0.4:
                mode = "errno:%d" % r.choice(ERRNOS)
            elif x < 0.6:
                mode = "stick:%d" % r.choice(ERRNOS)
                if mode in ("stick:4", "stick:11"):
                    mode = "stick:28"     # a call that is interrupted for ever is rightly repeated for ever
            elif x < 0.85:
                mode = "kill"
            else:
                mode = "partial"
                w = [e.n for e in p.ops if e.op == "write"]
                k = r.choice(w) if w else k
            what = p.strike(mode, k, state)
            state = "after-" + mode.split(":")[0]
        p.recover(what)
    ctx.sample = {"calls": [repr(e) for e in p.ops[:12]], "number": p.n, "last": what}


def sc_every(ctx):
    """Every call of a build, one after the other."""
    r = ctx.rng
    p = Project(ctx)
    if p.n > 260:
        raise Discard()
    mode = ["kill", "errno:28", "errno:13", "stick:5"][ctx.index % 4]
    for k in range(1, p.n + 1):
        state = p.disturb()
        what = p.strike(mode, k, state)
        p.recover(what)
    ctx.feature("calls-enumerated", p.n)


def sc_transfers(ctx):
    """Short and interrupted reads and writes."""
    r = ctx.rng
    p = Project(ctx)
    for _ in range(6):
        state = p.disturb()
        opts = {"short": r.choice([None, 1, 2, 3, 7, 100]), "eintr": r.choice([None, 2, 3, 5])}
        if not any(opts.values()):
            opts["short"] = 5
        what = p.strike("none", None, state, **opts)
        p.recover(what)
        k = pick(r, p)
        what = p.strike(r.choice(["kill", "errno:28", "partial"]), r.randint(1, p.n * 3), state, **opts)
        p.recover(what)


SCENARIOS = [Scenario("faults", sc_faults, 400, 6000), Scenario("every", sc_every, 32, 500), Scenario("transfers", sc_transfers, 100, 1500)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 1, 1.6
