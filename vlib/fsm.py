"""The file system monitor (native/fsmon.c): running the program under it and reading its log."""
import os, re, urllib.parse

from . import build, harness

MUTATING = {"openw", "write", "mkdir", "rmdir", "unlink", "rename", "link", "symlink", "truncate", "chmod"}


def prepare(scratch, **kw):
    env = harness.default_prepare(scratch, **kw)
    env["fsmon"] = harness.install(scratch, build.fsmon())
    return env


class Event:
    __slots__ = ("n", "op", "res", "path", "path2")

    def __init__(self, line):
        f = line.split(b"\t")
        self.n, self.op, self.res = int(f[0]), f[1].decode(), int(f[2])
        self.path = os.fsdecode(urllib.parse.unquote_to_bytes(f[3]))
        self.path2 = os.fsdecode(urllib.parse.unquote_to_bytes(f[4])) if len(f) > 4 else None

    def __repr__(self):
        return "%d %s %r%s = %d" % (self.n, self.op, self.path, " " + repr(self.path2) if self.path2 else "", self.res)


def env_for(ctx, log=None, **opts):
    """Environment variables for a run under the monitor. Options: root, at, mode, short, eintr, shuffle, bind, delay."""
    e = {"LD_PRELOAD": ctx.fsmon}
    if log:
        if os.path.exists(log):
            os.unlink(log)
        e["FSMON_LOG"] = log
    for k, v in opts.items():
        if v is not None:
            e["FSMON_" + k.upper()] = str(v)
    return e


def read_log(log):
    if not os.path.exists(log):
        return []
    with open(log, "rb") as f:
        data = f.read()
    return [Event(l) for l in data.split(b"\n") if l.count(b"\t") >= 3]


def within(path, *roots):
    path = os.path.normpath(path)
    return any(path == r or path.startswith(r.rstrip("/") + "/") for r in roots)


def mutations(events):
    """The calls that change something in a file system (not in devices)."""
    return [x for x in events if x.op in MUTATING and not (x.path.startswith("/dev/") and not x.path.startswith("/dev/shm/")) and not x.path.startswith("/proc/")]
