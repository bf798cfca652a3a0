"""C21: the development server follows changes and tells its clients."""
import json, random, shutil, threading

from ..common import *
from .. import dev as D, fsm, sites as S
from . import c11, c14

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the real server under random histories of edits and clients; the output is compared with a clean build, the clients' messages with the builds, and the server's idleness with its event log"
RULE = ("random projects (nested templates, markdown, data, scripts, plugins, metadata, many files) served by the real server under random options, and histories of single atomic edits of every kind (new, changed, moved and removed files and directories of content, static files and scripts, mistakes and their corrections, input directories that go away and return, files that only look like the server's own), "
        "with the server's own files and the manifest changed by hand in between, while WebSocket clients come and go in different ways; after every step the log, the output directory, metadata.json and the messages of every client are compared with a build of a copy of the current inputs by `stuart build`; "
        "an observation is a step after which all of it agrees; distinct by the kind of step, the tree and the result of the build")
ASSUMPTIONS = ["edits are atomic and the server has finished the build of one before the next (what is changed while a build runs is a known finding)", "scripts and plugins that are added or removed, and the manifest, are read when the server starts", "the server listens on another port than 6904, by means of LD_PRELOAD"]
NPROC = 20


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


OWN = ("dist", "temp", "_build", "metadata.json")


class History:
    def __init__(self, ctx, rng, base, slow):
        self.ctx, self.r, self.base, self.slow = ctx, rng, base, slow
        self.proj = os.path.join(base, "p")
        self.n = 0
        self.clients = []
        self.log = []
        self.trace = []
        self.away = []
        self.broken = []

    # -- the project --------------------------------------------------------------------------------------------------
    def make(self):
        r, ctx = self.r, self.ctx
        saved, ctx.rng = ctx.rng, r
        try:
            site, pages, self.settings, static, want = c11.rich_project(ctx, self.proj)
        finally:
            ctx.rng = saved
        more = {}
        if r.random() < 0.4:
            more.update({"static/.htaccess": "deny", "static/.well-known/x.txt": "x", "content/.data.json": '{"a": 1}', "static/file~": "x", "static/a.tmp": "x"})
        if r.random() < 0.5:
            more["static/env.txt"] = "x"
            more["content/env page.html"] = "".join('{{ begin("%s") }}[{{ $env.STUART_ENV }}]{{ end("%s") }}' % (s, s) for s in S.ALL_SECTIONS)
        if r.random() < 0.3:
            more["scripts/onPreBuild"] = 'mkdir -p "$STUART_TEMP_DIR/gen" "$STUART_MANIFEST_DIR/_build"; echo "generated $STUART_ENV" > "$STUART_TEMP_DIR/gen/t.txt"; echo x > "$STUART_MANIFEST_DIR/_build/log"\n'
        if r.random() < 0.3:
            more["scripts/onPostBuild"] = 'echo stamp > "$STUART_OUT_DIR/stamp.txt"; mkdir -p "$STUART_MANIFEST_DIR/_build"; echo x > "$STUART_MANIFEST_DIR/_build/post"\n'
        if r.random() < 0.25:
            for i in range(r.randint(200, 500)):
                more["static/many/%s%d.txt" % ("d%d/" % (i % 7) if i % 3 else "", i)] = "f%d" % i
            ctx.feature("big-sites")
        if r.random() < 0.2:
            more["content/%s" % r.choice(["temp/x.html", "dist/x.html", "_build/y.html"])] = "".join('{{ begin("%s") }}s{{ end("%s") }}' % (s, s) for s in S.ALL_SECTIONS)
        if r.random() < 0.3:
            more["p1.mjs"] = 'export default { name: "p1", version: "1", functions: [ { name: "hi", fn: (a) => "[" + a + "]" } ] }\n'
            more["stuart.toml"] = manifest(**self.settings) + '\n[dependencies]\np1 = "p1.mjs"\n'
            more["content/plug.html"] = "".join('{{ begin("%s") }}{{ hi(%d) }}{{ end("%s") }}' % (s, i, s) for i, s in enumerate(S.ALL_SECTIONS))
        write_tree(self.proj, more)
        self.manifest = open(os.path.join(self.proj, "stuart.toml"), "rb").read()

    def start(self):
        r = self.r
        args, cwd = [], self.proj
        self.out = self.given = os.path.join(self.proj, "dist")
        if r.random() < 0.45:
            o = r.choice(["public", "./public", "../p/public", "content/../public", "../site out", os.path.join(self.base, "abs"), os.path.join(self.proj, "é"), os.path.join(self.base, "lnk", "public")])
            if "lnk" in o:
                os.symlink(self.proj, os.path.join(self.base, "lnk"))
            self.out = os.path.join(self.proj, o) if "lnk" not in o else os.path.join(self.proj, "public")
            self.given = os.path.join(self.proj, o)
            self.out = os.path.normpath(self.out)
            args += [r.choice(["-o", "--output"]), o]
        if r.random() < 0.3:
            cwd = os.path.join(self.base, "elsewhere")
            os.makedirs(cwd)
            args += ["--manifest-path", r.choice([os.path.join(self.proj, "stuart.toml"), "../p/stuart.toml"])]
        self.own = [os.path.join(self.proj, o) for o in OWN] + [self.out]
        self.args = args
        return D.Dev(self.ctx, cwd, args)

    def inputs(self):
        """All that a build depends on."""
        out = {}
        for d in ("content", "static", "scripts"):
            if os.path.isdir(os.path.join(self.proj, d)):
                out[d] = None
                out.update({d + "/" + p: v for p, v in read_tree(os.path.join(self.proj, d)).items()})
        if os.path.exists(os.path.join(self.proj, "p1.mjs")):
            out["p1.mjs"] = open(os.path.join(self.proj, "p1.mjs"), "rb").read()
        return out

    def reference(self):
        """(output tree or None, metadata, error) of a build of a copy of the inputs."""
        d = os.path.join(self.base, "ref", "p")
        shutil.rmtree(os.path.dirname(d), ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "stuart.toml"), "wb").write(self.manifest)
        for p, v in self.inputs().items():
            full = os.path.join(d, p)
            if v is None:
                os.makedirs(full, exist_ok=True)
            else:
                os.makedirs(os.path.dirname(full), exist_ok=True)
                open(full, "wb").write(v.replace(b"STUART_ENV", b"STUART_EMV") if p.startswith("content/") and p.endswith((".html", ".md")) or p.startswith("scripts/") else v)
        res = self.ctx.run(["-q", "build"], cwd=d, extra_env={"STUART_EMV": "development"})
        self.ctx.no_crash(res)
        if res.rc != 0:
            return None, None, c14.normal(res.err, d).replace(b"STUART_EMV", b"STUART_ENV")
        return read_tree(os.path.join(d, "dist")), c11.meta_of(d), None

    # -- observing ----------------------------------------------------------------------------------------------------
    def settle(self, srv, start, need):
        """Waits until the builds of a step are done. Returns (number of builds that worked, that failed, log)."""
        done = lambda: srv.detected(start) <= srv.finished(start) + srv.failed(start) and (not need or srv.detected(start) > 0)
        ok = srv.wait_for(done, 10 * self.slow)
        self.alive(srv)
        if not ok and srv.detected(start) == 0:
            raise Violation("no-build", "no build follows: %s" % self.what)
        if not srv.quiet(0.08 * self.slow, 12 * self.slow):
            raise Violation("never-idle", "the server does not become idle: %s: %s" % (self.what, srv.text(start)[:600]))
        srv.wait_for(done, 10 * self.slow)
        log = srv.text(start)
        for l in log.split("\n"):
            if "Detected change at " in l:
                p = l.split("Detected change at ", 1)[1].rsplit(", rebuilding", 1)[0]
                if fsm.within(p, *self.own):
                    raise Violation("own-write", "the server builds because of a file of its own, %s: %s" % (p, self.what))
                self.ctx.feature("builds-triggered")
        f, e = srv.finished(start), srv.failed(start)
        if srv.detected(start) + (start == 0) != f + e:
            raise Violation("build-lost", "%d changes detected, but %d builds finished and %d failed: %s: %s" % (srv.detected(start), f, e, self.what, log[:800]))
        return f, e, log

    def alive(self, srv):
        if not srv.alive():
            raise Violation("stopped", "the server has ended: %s: %s" % (self.what, srv.text()[-800:]))

    def look(self, srv, start, need, before):
        """The state after a step."""
        ctx = self.ctx
        f, e, log = self.settle(srv, start, need)
        want, meta, err = self.reference()
        if f + e:
            if want is not None:
                if e:
                    raise Violation("fails", "the build in the server fails, but not the one of a copy: %s: %s" % (self.what, log[:800]))
            else:
                if f:
                    raise Violation("succeeds", "the build in the server succeeds, but the one of a copy fails: %s: %s" % (self.what, err[:500]))
                first = lambda t: [l for l in t.split("\n") if l.startswith("error:")][0].replace("<P>/", "")
                a, b = first(c14.normal(log.encode(), self.proj).decode("utf-8", "replace")), first(err.decode("utf-8", "replace"))
                if a != b:
                    raise Violation("error", "the server prints %r, `stuart build` %r: %s" % (a, b, self.what))
                ctx.feature("failed-builds", e)
        # What the scripts of a failed build leave in `temp` would be part of the next one.
        shutil.rmtree(os.path.join(self.proj, "temp"), ignore_errors=True)
        # (Without a build, the output is that of the last one.)
        got, gm = (read_tree(self.out) if os.path.isdir(self.out) else None), c11.meta_of(self.proj)
        if want is not None and (f or not self.manual):
            d = diff_trees(want, got) if got is not None else "there is none"
            if d is not None:
                raise Violation("output", "the output is not that of a clean build: %s: %s" % (self.what, d))
            if self.settings["save_metadata"] and meta != gm:
                raise Violation("metadata", "metadata.json is not that of a clean build: %s: %s" % (self.what, diff_bytes(meta or b"", gm or b"")))
            ctx.feature("outputs-compared")
        elif want is None and not self.manual:
            if (got, gm) != before:
                raise Violation("failed-output", "a failed build changes the output: %s: %s" % (self.what, diff_trees(before[0] or {}, got or {})))
        for c in self.clients:
            c.want += f
            if not c.ws.wait(c.want, 8 * self.slow):
                raise Violation("reload-lost", "client %d of %d has got %d reload messages instead of %d: %s\n  %s" % (c.n, len(self.clients), c.ws.reloads(), c.want, self.what, self.log[-12:]))
        if f == 0 and self.clients:
            time.sleep(0.03 * self.slow)
        for c in self.clients:
            if c.ws.reloads() != c.want:
                raise Violation("reload-extra", "client %d has got %d reload messages instead of %d: %s" % (c.n, c.ws.reloads(), c.want, self.what))
            if c.ws.bad or len(c.ws.messages) != c.want:
                raise Violation("message", "client %d has got something else: %s %r" % (c.n, c.ws.bad, c.ws.messages[:3]))
            ctx.feature("reloads-counted", f)
        return f, e

    # -- clients ------------------------------------------------------------------------------------------------------
    def join(self, srv):
        c = type("Client", (), {})()
        c.ws = D.Ws(srv)
        if not c.ws.ok:
            raise Violation("handshake", "the server refuses a WebSocket client: " + self.what)
        c.want, c.n = 0, self.n
        self.n += 1
        self.clients.append(c)
        self.log.append("join %d" % c.n)
        return c

    def leave(self):
        c = self.clients.pop(self.r.randrange(len(self.clients)))
        how = self.r.choice(["fin", "rst", "frame"])
        c.ws.close(how)
        self.log.append("leave %d %s" % (c.n, how))
        self.ctx.feature("clients-left-" + how)

    def traffic(self, srv):
        """Some clients come or go."""
        r = self.r
        joined = False
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            if self.clients and r.random() < (0.75 if len(self.clients) > 5 else 0.4):
                self.leave()
            elif len(self.clients) < 12:
                self.join(srv)
                joined = True
        if joined:
            time.sleep(0.1 * self.slow)  # The stream is registered after the handshake.

    # -- steps --------------------------------------------------------------------------------------------------------
    def put(self, path, data):
        """Writes a file atomically, by moving it from outside of the project."""
        full = os.path.join(self.proj, path)
        tmp = os.path.join(self.base, "stage")
        open(tmp, "wb").write(data if isinstance(data, bytes) else data.encode())
        os.rename(tmp, full)

    def put_dir(self, path, tree):
        tmp = os.path.join(self.base, "stage dir")
        write_tree(tmp, tree)
        os.rename(tmp, os.path.join(self.proj, path))

    def files(self, top=("content", "static")):
        return sorted(p for p, v in self.inputs().items() if v is not None and p.split("/")[0] in top)

    def dirs(self, top=("content", "static")):
        return sorted(p for p, v in self.inputs().items() if v is None and p.split("/")[0] in top)

    def step(self):
        """Does something. Returns whether a build must follow (None: it may)."""
        r = self.r
        self.k = k = r.choice(["edit"] * 8 + ["new"] * 5 + ["remove"] * 3 + ["rename"] * 2 + ["new-dir"] * 2 + ["remove-dir", "empty-dir", "away", "copy-over", "look-alike", "look-alike", "script", "break", "break", "break", "touch", "own", "own", "own", "manifest", "other", "hard"])
        if self.broken and r.random() < 0.5:
            self.k = k = "fix"
        elif self.away and r.random() < 0.6:
            self.k = k = "return"
        uid = "%d" % r.randrange(10**6)
        secs = lambda t: "".join('{{ begin("%s") }}%s %s{{ end("%s") }}' % (s, t, uid, s) for s in S.ALL_SECTIONS)
        fs, ds = self.files(), self.dirs()
        self.what = k
        if k in ("edit", "break", "copy-over", "hard"):
            fs2 = [f for f in fs if not f.startswith("static/many")] or fs
            if not fs2:
                return None
            f = r.choice(fs2)
            old = open(os.path.join(self.proj, f), "rb").read()
            self.what = "%s of %s" % (k, f)
            if k == "break":
                c = [x for x in fs if x.startswith("content/") and x.endswith((".html", ".md", ".json"))]
                if not c:
                    return None
                f = r.choice(c)
                self.what = "%s of %s" % (k, f)
                old = open(os.path.join(self.proj, f), "rb").read()
                self.broken.append((f, old))
                self.put(f, r.choice([b"{{ begin(\"body\") }}", b"{{", b"{\"a\":", b"---\nx", old + b"{{ end(for) }}", old + b"{{ nosuch() }}", b"{{ insert(\"zz nothing\") }}", b"\xff\xfe", b""]))
            elif k == "copy-over":
                g = r.choice(fs2)
                self.put(f, open(os.path.join(self.proj, g), "rb").read())
            elif k == "hard":
                # A hard link replaced by another file.
                tmp = os.path.join(self.base, "hard")
                open(tmp, "wb").write(old + b" ")
                os.unlink(os.path.join(self.proj, f))
                return "pause", lambda: os.link(tmp, os.path.join(self.proj, f))
            elif f.endswith(".html"):
                i = old.find(b"{{ end(\"")
                self.put(f, old[:i] + b"edit " + uid.encode() + old[i:] if i >= 0 and r.random() < 0.9 else b"<!-- " + uid.encode() + b" -->" + old)
            elif f.endswith(".json"):
                try:
                    v = json.loads(old)
                except ValueError:
                    v = {}
                if isinstance(v, dict):
                    v["zz" + uid] = [uid, 1, {"k": None}]
                elif isinstance(v, list):
                    v.append(uid)
                self.put(f, json.dumps(v))
            else:
                self.put(f, old + b"\n\nedit " + uid.encode() + b"\n")
            return True
        if k == "new":
            d = r.choice(ds) if ds else None
            if d is None:
                return None
            n = r.choice(["n%s.html", "n%s.md", "n%s.json", "n%s.txt", "n%s", "root.html", "index.html", "n%s.html", ".n%s.html", ".n%s.md", ".n%s", "~n%s.txt", "n%s.txt~", "#n%s#", "n%s.tmp", "n%s.swp", ".n%s.swp", "n%s.bak", "n%s.LOG"])
            n = n % uid if "%" in n else n
            if os.path.exists(os.path.join(self.proj, d, n)):
                return None
            self.what = "new %s/%s" % (d, n)
            self.put(d + "/" + n, {"html": "<r>{{ insert(\"body\") }}%s</r>" % uid if n == "root.html" else secs("new"), "md": "---\ntitle: \"x%s\"\n---\n# New\n\n*text*\n" % uid, "json": '{"a": %s}' % uid}.get(n.rpartition(".")[2], "plain " + uid))
            return True
        if k == "remove":
            if not fs:
                return None
            f = r.choice(fs)
            self.what = "remove %s" % f
            os.unlink(os.path.join(self.proj, f))
            return True
        if k == "rename":
            if not fs or not ds:
                return None
            f = r.choice(fs)
            ext = os.path.splitext(f)[1]
            g = r.choice([d for d in ds if d.split("/")[0] == f.split("/")[0]] or ds) + "/" + r.choice(["m%s%s" % (uid, ext), os.path.basename(f), "m%s.txt" % uid])
            if os.path.exists(os.path.join(self.proj, g)):
                return None
            self.what = "rename %s to %s" % (f, g)
            os.rename(os.path.join(self.proj, f), os.path.join(self.proj, g))
            return True
        if k == "new-dir":
            d = r.choice(ds) if ds else None
            if d is None:
                return None
            self.what = "new directory %s/nd%s" % (d, uid)
            self.put_dir(d + "/nd" + uid, {"index.html": secs("in dir"), "deep/er/p.html": secs("deep"), "deep/x.txt": "x", "deep/post.md": "text\n"} if d.startswith("content") else {"a.txt": uid, "deep/er/b.bin": "b"})
            return True
        if k in ("remove-dir", "away"):
            c = ds if k == "remove-dir" else [d for d in ds if d in ("content", "static")] + ds
            if not c or (k == "remove-dir" and len(ds) < 3):
                return None
            d = r.choice([x for x in c if "/" in x] or c) if k == "remove-dir" else r.choice(c)
            dst = os.path.join(self.base, "away%d" % self.n)
            self.n += 1
            self.what = "move %s away" % d
            os.rename(os.path.join(self.proj, d), dst)
            if k == "away":
                self.away.append((d, dst))
            return True
        if k == "return":
            d, src = self.away.pop()
            full = os.path.join(self.proj, d)
            if os.path.exists(full) or not os.path.isdir(os.path.dirname(full)):
                return None
            self.what = "%s returns" % d
            os.rename(src, full)
            return True
        if k == "empty-dir":
            if not ds:
                return None
            d = r.choice(ds) + "/ed" + uid
            self.what = "new empty directory %s" % d
            os.mkdir(os.path.join(self.proj, d))
            return True
        if k == "look-alike":
            f = r.choice(["content/metadata.json", "content/stuart.toml", "static/stuart.toml", "static/metadata.json", "static/temp", "content/temp.html", "content/dist.html", "static/dist", "static/_build", "content/_build.txt", "static/dist.css"])
            if not os.path.isdir(os.path.dirname(os.path.join(self.proj, f))) or os.path.isdir(os.path.join(self.proj, f)):
                return None
            self.what = "look-alike " + f
            self.put(f, secs("alike") if f.endswith(".html") else "{\"x\": %s}" % uid)
            return True
        if k == "script":
            ss = [p for p, v in self.inputs().items() if v is not None and p.startswith("scripts/")]
            if not ss:
                return None
            f = r.choice(sorted(ss))
            self.what = "edit of " + f
            if "Pre" in f:
                self.put(f, r.choice(['mkdir -p "$STUART_TEMP_DIR/gen2"; echo "%s $STUART_ENV" > "$STUART_TEMP_DIR/gen2/%s.txt"\n' % (uid, uid), "true\n", "echo failing; exit %d\n" % r.randint(1, 9)]))
            else:
                self.put(f, 'echo %s $STUART_ENV > "$STUART_OUT_DIR/post%s.txt"\n' % (uid, uid))
            return True
        if k == "fix":
            f, old = self.broken.pop(r.randrange(len(self.broken)))
            if not os.path.isdir(os.path.dirname(os.path.join(self.proj, f))):
                return None
            self.what = "correction of " + f
            self.put(f, old)
            return True
        if k == "touch":
            if not fs:
                return None
            self.what = "touch"
            os.utime(os.path.join(self.proj, r.choice(fs)))
            return None
        if k == "other":
            self.what = "a file that is no input"
            self.put("README%s.md" % uid, "x")
            return None
        if k == "own":
            x = r.random()
            # (`content/../public` names no directory while `content` is away.)
            self.what = "own files changed by hand"
            if x < 0.25 and fsm.within(self.out, self.proj) and os.path.isdir(self.given):
                self.manual = True
                self.what += ": the output is removed"
                shutil.rmtree(self.out)
            elif x < 0.55 and fsm.within(self.out, self.proj) and os.path.isdir(self.given):
                self.manual = True
                self.what += ": in the output"
                write_tree(self.out, {"by hand/x%s" % uid: "x", "y": uid} if not os.path.exists(os.path.join(self.out, "by hand")) and not os.path.isdir(os.path.join(self.out, "y")) else {"y%s" % uid: "y"})
            elif x < 0.7:
                self.what += ": _build"
                write_tree(self.proj, {"_build/plugins/x%s" % uid: "x"})
            elif x < 0.8:
                self.manual = True
                self.what += ": metadata.json"
                write_tree(self.proj, {"metadata.json": "{}"})
            elif x < 0.9 and self.out != os.path.join(self.proj, "dist"):
                self.what += ": dist, which is not the output"
                write_tree(self.proj, {"dist/a/x%s" % uid: "x"})
            else:
                # (It would be part of the next build.)
                self.what += ": temp"
                write_tree(self.proj, {"temp/x%s" % uid: "x"})
                time.sleep(0.02)
                shutil.rmtree(os.path.join(self.proj, "temp"))
            return False
        if k == "manifest":
            self.what = "the manifest is changed"
            self.put("stuart.toml", self.manifest + b"\n# " + uid.encode())
            return False
        raise AssertionError(k)

    # -- the whole ----------------------------------------------------------------------------------------------------
    def run(self, steps):
        ctx, r = self.ctx, self.r
        self.make()
        self.manual = False
        self.what = "start"
        if r.random() < 0.2:
            f = r.choice(self.files(("content",)))
            self.broken.append((f, open(os.path.join(self.proj, f), "rb").read()))
            self.put(f, "{{ nosuch(")
        with self.start() as srv:
            if not srv.alive():
                raise Violation("not-started", "the server does not start: " + srv.text()[:600])
            try:
                if not srv.wait_for(lambda: srv.finished() + srv.failed() > 0, 15):
                    raise Violation("no-first-build", "the server does not build at the start: " + srv.text()[:500])
                srv.quiet(0.15 * self.slow)
                self.look(srv, 0, False, (None, None))
                ctx.observed(1, ("start", srv.failed() > 0, len(self.files())))
                for i in range(steps):
                    self.traffic(srv)
                    before = (read_tree(self.out) if os.path.isdir(self.out) else None, c11.meta_of(self.proj))
                    start = srv.mark()
                    was = self.inputs()
                    need = self.step()
                    if isinstance(need, tuple):
                        self.settle(srv, start, True)
                        for c in self.clients:
                            c.want += srv.finished(start)
                            c.ws.wait(c.want, 5)
                        # The output now is that of the state in between.
                        before = (read_tree(self.out) if os.path.isdir(self.out) else None, c11.meta_of(self.proj))
                        start = srv.mark()
                        need[1]()
                        need = True
                    if need and was == self.inputs():
                        need = None
                    self.log.append(self.what)
                    if need is False or need is None:
                        time.sleep(0.12 * self.slow)
                    if need is False and srv.detected(start):
                        raise Violation("own-write", "a build follows: %s: %s" % (self.what, srv.text(start)[:500]))
                    f, e = self.look(srv, start, bool(need), before)
                    if f:
                        self.manual = False
                    if self.k == "manifest":
                        ctx.require("onfiguration change" in srv.text(start), "manifest-message", "no message about the changed manifest")
                    ctx.observed(1, (self.what, f, e, len(self.clients), sorted(self.inputs())), **{"step-" + self.k: 1})
                    if f and r.random() < 0.15:
                        t = [p for p, v in read_tree(self.out).items() if v is not None and re.fullmatch(r"[a-z0-9./]+\.(txt|css)", p)]
                        if t:
                            p = r.choice(t)
                            res = srv.get("/" + p)
                            ctx.require(res is not None and res.status == 200 and res.body == open(os.path.join(self.out, p), "rb").read(), "served", lambda: "GET /%s is not answered with the current file" % p)
                            ctx.feature("served-after-build")
                self.what = "idle"
                start = srv.mark()
                time.sleep(0.25 * self.slow)
                ctx.require(srv.mark() == start, "never-idle", lambda: "the server does something without a reason: " + srv.text(start)[:400])
                self.alive(srv)
                ctx.sample = {"arguments": self.args, "steps": self.log[:40]}
            finally:
                for c in self.clients:
                    c.ws.close("rst")


def sc_histories(ctx):
    seed = ctx.rng.getrandbits(60)
    n = ctx.rng.randint(6, 16)

    def attempt(name, slow):
        h = History(ctx, random.Random(seed), ctx.path(name), slow)
        os.makedirs(h.base)
        try:
            h.run(n)
        finally:
            ctx.note = {"steps": h.log, "arguments": getattr(h, "args", None)}

    try:
        attempt("a", 1)
    except Violation as first:
        # A machine under heavy load may be slower than what is waited for: it has to happen again.
        for i, slow in enumerate((1, 4, 2, 6)):
            ctx.feature("repeated")
            try:
                attempt("again%d" % i, slow)
            except Violation as v:
                if v.sig == first.sig:
                    raise first
        raise Inconclusive("not reproducible: " + first.sig)


def sc_during(ctx):
    """An edit while the build of the previous one is running."""
    proj, sync = ctx.path("p"), ctx.path("sync")
    os.makedirs(sync)
    page = lambda t: '{{ begin("b") }}%s{{ end("b") }}' % t
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '{{ insert("b") }}', "content/index.html": page("one"),
                      "scripts/onPostBuild": 'if [ -e "%s/go" ]; then touch "%s/in"; while [ ! -e "%s/out" ]; do sleep 0.02; done; fi\n' % (sync, sync, sync)})
    with D.Dev(ctx, proj) as srv:
        srv.wait_for(lambda: srv.finished() > 0, 10)
        srv.quiet(0.2)
        open(os.path.join(sync, "go"), "w").close()
        start = srv.mark()

        def put(t):
            open(ctx.path("stage"), "w").write(page(t))
            os.rename(ctx.path("stage"), os.path.join(proj, "content/index.html"))
        put("two")
        end = time.monotonic() + 10
        while not os.path.exists(os.path.join(sync, "in")) and time.monotonic() < end:
            time.sleep(0.02)
        put("three")
        time.sleep(0.3)
        os.unlink(os.path.join(sync, "go"))
        open(os.path.join(sync, "out"), "w").close()
        srv.wait_for(lambda: srv.finished(start) > 0, 10)
        srv.quiet(0.7)
        got = open(os.path.join(proj, "dist/index.html")).read()
        ctx.observed(1, "during")
        ctx.require(got == "three", "edit-during-build", "content/index.html was changed while a build was running, and the output has still the contents of before: %r" % got)


SCENARIOS = [Scenario("histories", sc_histories, 160, 1600), Scenario("during", sc_during, 1, 1)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 1, 2.2
