"""C26: stuart_core as a library."""
import copy, os, re, select, shutil, subprocess, time

from ..common import *
from .. import build, gen as G, sites as S
from . import c09, c16

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: a program that uses stuart_core as a library is driven through random histories and watched step by step against a reference model"
RULE = ("random histories of building, merging, saving, saving the metadata and changing the configuration of several `Stuart`s (with statically linked plugins of every kind of manager) over directories that change, break, vanish and return in between; random trees of `Node`s that are read, searched, merged and saved; and builds of several sites in threads of one process; "
        "an observation is one command whose result, output tree and effects on the disk are exactly those of the reference model; distinct by command and state")
ASSUMPTIONS = ["after a merge that fails, the output is only defined again by the next build", "names are valid Unicode"]


def prepare(scratch):
    env = default_prepare(scratch, oracle=True)
    env["probelib"] = install(scratch, build.library())
    return env


PLAIN = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/._-")


def enc(s):
    return "".join(chr(c) if c in PLAIN else "%%%02X" % c for c in (s if isinstance(s, bytes) else s.encode("utf-8", "surrogateescape")))


def dec(s):
    return re.sub(rb"%([0-9A-F]{2})", lambda m: bytes([int(m[1], 16)]), s.encode())


class Lib:
    """The driver process."""

    def __init__(self, ctx, env=None):
        self.ctx = ctx
        self.err = open(ctx.path("stderr"), "w+b")
        self.p = subprocess.Popen([ctx.probelib], cwd=ctx.dir, env=dict(ctx.base_env(), **(env or {})), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err)
        self.buf = b""
        self.log = []

    def ask(self, *fields):
        """Sends a command (the fields are encoded already) and returns the lines of the answer."""
        self.log.append(" ".join(fields)[:200])
        try:
            self.p.stdin.write("\t".join(fields).encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            self.crashed()
        end = time.monotonic() + 120
        while not (self.buf == b".\n" or self.buf.endswith(b"\n.\n")):
            if not select.select([self.p.stdout], [], [], max(0, end - time.monotonic()))[0]:
                raise Inconclusive("the wall clock watchdog fired")
            data = os.read(self.p.stdout.fileno(), 1 << 20)
            if not data:
                self.crashed()
            self.buf += data
        lines = self.buf.decode().split("\n")[:-2]
        self.buf = b""
        return lines

    def crashed(self):
        rc = self.p.wait(20)
        self.err.seek(0)
        raise Violation("crash", "the library panics or crashes (%s) after %s: %s" % (rc, self.log[-6:], self.err.read()[:600].decode("utf-8", "replace")))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try:
                f.close()
            except OSError:
                pass


def nodes(lines):
    """[(path, None or (contents, kind), source)] in the order of the answer; the path of the root is ""."""
    out, stack = [], []
    for l in lines:
        f = l.split("\t")
        depth, name = int(f[1]), dec(f[2]).decode("utf-8")
        del stack[depth:]
        stack.append(name)
        out.append(("/".join(stack[1:]), None if f[0] == "d" else (dec(f[5]), f[4]), os.fsdecode(dec(f[3]))))
    return out


# -- histories ------------------------------------------------------------------------------------------------------------

PLUGINS = {"none": 0, "empty": 0, "vec1": 1, "vec2": 2, "box": 2, "own": 2, "rc": 2}


class Dir:
    """A content directory and its current state: a site that builds, or what is wrong with it."""

    def __init__(self, ctx, name, rel):
        self.ctx, self.name, self.rel = ctx, name, rel
        self.full = ctx.path(name)
        self.change()

    def change(self):
        ctx, r = self.ctx, self.ctx.rng
        g = G.Gen(r, {"for": 1.5, "if": 1.2})
        site, _ = S.rich_site(ctx, g)
        self.uses = 0
        secs = S.ALL_SECTIONS
        site.files["zz env.html"] = Html([x for s in secs for x in [Section(s, [Var("env.STUART_ENV"), Raw(" %d" % g.uid())])]])
        for i in range(r.choice([0, 0, 1, 2])):
            self.uses = max(self.uses, i + 1)
            n, p = [("say", "one"), ("tell", "two")][i]
            a = [("str", "a%d" % g.uid()), ("int", g.uid()), ("var", "env.HOME"), ("var", "nothing")][:r.randint(0, 4)]
            text = "[%s%s]" % (n, "".join(" " + (str(v) if k != "var" else "true" if v == "env.HOME" else "false") for k, v in a))
            site.files["zz plug%d.html" % i] = Html([Section(s, [Call(r.choice([n, p + "::" + n]), a, lambda ev, n, text=text: text)]) for s in secs])
        self.parsed = {}
        for i in range(r.choice([0, 0, 1, 3])):
            k, e = r.choice([(1, "rev"), (2, "ver")])
            p = r.choice(["", "blog/", "new/"]) + "f%d.%s" % (i, e)
            site.files[p] = Other(g.sized(r.choice([0, 1, 30])).replace("!", "").encode())
            self.parsed[p] = k
        for i in range(r.choice([0, 0, 1, 3])):
            site.files[r.choice(["", "blog/", "new/deep/"]) + "o%d.%s" % (i, r.choice(["txt", "css", "bin"]))] = Other(os.urandom(0) + bytes(r.randrange(256) for _ in range(r.choice([0, 3, 200]))))
        site = Site(site.files, site.env, site.dirs)
        self.site = site
        self.write()

    def write(self):
        shutil.rmtree(self.full, ignore_errors=True)
        write_tree(self.full, self.site.sources(), ["."] + sorted(self.site.dirs))
        self.defect = None

    def break_it(self):
        """Puts a mistake into a page, or removes the directory."""
        r = self.ctx.rng
        if r.random() < 0.25:
            shutil.rmtree(self.full)
            self.defect = ("notfound", None)
            return
        p = r.choice(sorted(p for p, f in self.site.files.items() if is_page(p, f)))
        kind, text = r.choice([("parse", "{{ nosuch() }}"), ("parse", "{{"), ("process", '{{ begin("body") }}'), ("process", "{{ end(for) }}")])
        if p.endswith(".md"):
            text = "\n\n" + text
        if p.endswith(".md") and kind == "process":
            text, kind = "{{ nosuch() }}", "parse"
        write_tree(self.full, {p: text})
        self.defect = (kind, p)


class Inst:
    """What is expected of one `Stuart`."""

    def __init__(self, n, d, plugs, cfg):
        self.n, self.d, self.plugs, self.cfg = n, d, plugs, cfg
        self.out = None
        self.unknown = False

    def build(self, ctx, env):
        d = self.d
        site = copy.copy(d.site)
        site.files = dict(d.site.files)
        site.env = {"HOME": "/", "STUART_ENV": env}
        site.md_ready = False
        pages = expected_pages(site, ctx, False)
        for p, k in d.parsed.items():
            if k <= PLUGINS[self.plugs]:
                site.files[p] = Other(site.files[p].source()[::-1])
        self.out = {"meta": self.cfg["meta"], "site": site, "pages": pages, "merged": {}, "mdirs": set(), "custom": {p for p, k in d.parsed.items() if k <= PLUGINS[self.plugs]},
                    "sources": {(p[:-3] + ".html" if p.endswith(".md") else p): os.path.join(d.full, p) for p in site.files}}
        self.unknown = False

    def names(self):
        """path -> source, of the files of the output; and the directories."""
        o = self.out
        files = dict(o["sources"])
        files.update({p: s for p, (v, s) in o["merged"].items()})
        return files, {d: os.path.join(self.d.full, d) for d in o["site"].dirs} | {d: None for d in o["mdirs"] - o["site"].dirs}

    def tree(self):
        """What saving writes; BuildError if there is a conflict."""
        o, c = self.out, self.cfg
        return output_tree(o["site"], c["strip"], c["data"], {p: v for p, (v, s) in o["merged"].items()}, sorted(o["mdirs"]), o["pages"])


def make_cfg(r):
    return {"strip": r.random() < 0.6, "data": r.random() < 0.4, "meta": r.random() < 0.6, "name": c16.text(r), "author": c16.text(r) if r.random() < 0.6 else None}


def cfg_fields(c):
    return [str(int(c["strip"])), str(int(c["data"])), str(int(c["meta"])), enc(c["name"]), "-" if c["author"] is None else "=" + enc(c["author"])]


def static_tree(r, inst):
    """A tree to merge, and the pairs of paths that are in conflict."""
    files, dirs = {}, set()
    have, hdirs = inst.names() if inst and inst.out else ({}, {})
    for i in range(r.choice([0, 1, 2, 5])):
        files[r.choice(["", "blog/", "new/", "zz/y/"]) + "m%d.%s" % (r.randrange(10**6), r.choice(["css", "html", "md", "json", "rev", "x", "root.html"]))] = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 50])))
    if have and r.random() < 0.25:
        p = r.choice(sorted(have))
        x = r.random()
        if x < 0.5:
            files[p] = r.choice([b"other", b""])
        elif x < 0.75:
            files[p + "/x"] = b"below a file"
        elif hdirs:
            files[r.choice(sorted(hdirs))] = b"instead of a directory"
    ok = {p for p in files if not any(q.startswith(p + "/") for q in files)}
    files = {p: v for p, v in files.items() if p in ok}
    for i in range(r.choice([0, 0, 1])):
        dirs.add(r.choice(["empty", "blog/empty", "e/mp/ty"]))
    dirs = {d for d in dirs if not any(d == p or d.startswith(p + "/") for p in files)}
    for p in list(files) + [d + "/" for d in dirs]:
        while "/" in p:
            p = p.rpartition("/")[0]
            dirs.add(p)
    return files, dirs


def spelled(r, ctx, p, dot=True):
    """A path of the driver, whose working directory is the case's: absolute or relative."""
    q = os.path.relpath(p, ctx.dir)
    return enc(r.choice([p, p, q, "./" + q, p + "/", q + "/." if dot else q + "/", "x/../" + q if os.path.isdir(ctx.path("x")) else q]))


def sc_histories(ctx):
    r = ctx.rng
    dirs = [Dir(ctx, n, n) for n in r.sample(["c", "content dir", "Ü/content"], r.randint(1, 2))]
    insts, counter = {}, 0
    steps = []
    with Lib(ctx, {"HOME": "/", "STUART_ENV": r.choice(["outer", ""])}) as lib:
        outs = [ctx.path(p) for p in ("out", "out b", "o/u/t")]
        os.makedirs(ctx.path("o/u"))

        def build(i):
            env = r.choice(["production", "development", "é %d" % r.randrange(100), "", "benchmark"])
            ans = lib.ask("build", i.n, enc(env))[0].split("\t")
            what = "build of %s with %r after %s" % (i.d.name, env, steps[-8:])
            if i.d.defect and i.d.defect[1] and i.d.uses > PLUGINS[i.plugs]:
                ctx.require(ans[0] == "err" and ans[1] in ("parse", "process"), "build-error", lambda: "%s gives %s" % (what, ans))
                ctx.feature("failing-builds")
            elif i.d.defect:
                k, p = i.d.defect
                ctx.require(ans[0] == "err" and ans[1] == k, "build-error", lambda: "%s gives %s instead of %s" % (what, ans, i.d.defect))
                if p:
                    ctx.require(os.fsdecode(dec(ans[2])) == os.path.join(i.d.full, p), "build-error-path", lambda: "%s gives %s instead of %s" % (what, ans, i.d.defect))
                ctx.feature("failing-builds")
            elif i.d.uses > PLUGINS[i.plugs]:
                ctx.require(ans[0] == "err" and ans[1] == "parse", "build-without-plugin", lambda: "%s without the plugins gives %s" % (what, ans))
                ctx.feature("failing-builds")
            else:
                ctx.require(ans == ["ok"], "build", lambda: "%s gives %s" % (what, ans))
                if i.out:
                    ctx.feature("built-again")
                i.build(ctx, env)
            return "build"

        def merge(i):
            files, mdirs = static_tree(r, i)
            counter_dir = ctx.path("s%d" % len(steps))
            write_tree(counter_dir, files, ["."] + sorted(mdirs))
            ans = lib.ask("merge", i.n, spelled(r, ctx, counter_dir))[0].split("\t")
            what = "merging %s after %s" % (sorted(files), steps[-8:])
            if not i.out:
                ctx.require(ans == ["err", "notbuilt"], "merge-not-built", lambda: "%s gives %s" % (what, ans))
                return "merge-early"
            have, hdirs = i.names()
            pairs = {(have[p], os.path.join(counter_dir, p)) for p in have if p in files or p in mdirs}
            pairs |= {(hdirs[p], os.path.join(counter_dir, p)) for p in hdirs if p in files}
            if i.unknown:
                pass
            elif pairs:
                ctx.require(ans[:2] == ["err", "conflict"], "merge-conflict", lambda: "%s gives %s although these conflict: %s" % (what, ans, sorted(map(str, pairs))))
                got = tuple(os.fsdecode(dec(x)) for x in ans[2:])
                ctx.require(any(x in pairs or (None, x[1]) in pairs for x in (got, got[::-1])), "merge-sources", lambda: "%s names %s instead of one of %s" % (what, got, sorted(map(str, pairs))))
                i.unknown = True
                return "merge-conflict"
            else:
                ctx.require(ans == ["ok"], "merge", lambda: "%s gives %s" % (what, ans))
                i.out["merged"].update({p: (v, os.path.join(counter_dir, p)) for p, v in files.items()})
                i.out["mdirs"] |= mdirs
            return "merge"

        def save(i):
            kind = r.choice(["out"] * 6 + ["none", "file", "parent", "inside", "within"])
            if kind == "out":
                o = r.choice(outs)
            elif kind == "none":
                o = ctx.path("nothing/there")
            elif kind == "file":
                o = ctx.path("a file")
                open(o, "wb").write(b"contents")
            elif kind == "inside":
                o = i.d.full  # Saving would remove the inputs.
            elif kind == "within":
                # A directory of the inputs.
                inner = sorted(os.path.join(a, b) for a, bs, _ in os.walk(i.d.full) for b in bs)
                if not inner:
                    return "skipped"
                o = r.choice(inner)
            else:
                o = os.path.dirname(i.d.full) if os.path.dirname(i.d.full) != ctx.dir else i.d.full
            if kind in ("parent", "inside", "within") and not os.path.isdir(i.d.full):
                return "skipped"
            before, all_before = read_tree(o), {d.name: read_tree(d.full) for d in dirs}
            ans = lib.ask("save", i.n, spelled(r, ctx, o, False) if kind != "file" else enc(o))[0].split("\t")
            what = "saving (%s) after %s" % (kind, steps[-8:])
            for d in dirs:
                ctx.require(read_tree(d.full) == all_before[d.name], "save-inputs", lambda: "%s changes the inputs" % what)
            if kind in ("parent", "inside", "within"):
                ctx.require(ans[:2] in (["err", "write"], ["err", "notbuilt"]), "save-over-inputs", lambda: "%s gives %s" % (what, ans))
                return "save-" + kind
            if not i.out:
                ctx.require(ans == ["err", "notbuilt"] and read_tree(o) == before, "save-not-built", lambda: "%s gives %s" % (what, ans))
                return "save-early"
            if i.unknown:
                return "save-unknown"
            try:
                want = i.tree()
            except BuildError:
                ctx.require(ans[:2] == ["err", "conflict"], "save-conflict", lambda: "%s gives %s" % (what, ans))
                d = diff_trees(before, read_tree(o))
                ctx.require(d is None, "save-conflict-output", lambda: "%s fails with a conflict, but changes the directory: %s" % (what, d))
                return "save-conflict"
            if kind in ("none", "file"):
                ctx.require(ans == ["err", "write"], "save-impossible", lambda: "%s gives %s" % (what, ans))
                ctx.require(not os.path.lexists(ctx.path("nothing")) and (kind != "file" or open(o, "rb").read() == b"contents"), "save-impossible-effect", lambda: what)
                return "save-" + kind
            ctx.require(ans == ["ok"], "save", lambda: "%s gives %s" % (what, ans))
            d = diff_trees(want, read_tree(o))
            ctx.require(d is None, "saved", lambda: "%s (%s) with %s: %s" % (what, {k: v for k, v in i.cfg.items() if k in ("strip", "data")}, i.plugs, d))
            return "save"

        def meta(i):
            p = ctx.path(r.choice(["meta.json", "meta b.json"]))
            before = open(p, "rb").read() if os.path.exists(p) else None
            ans = lib.ask("meta", i.n, enc(p))[0].split("\t")
            now = open(p, "rb").read() if os.path.exists(p) else None
            what = "saving the metadata after %s" % steps[-8:]
            if not i.cfg["meta"]:
                ctx.require(ans == ["err", "metadata"] and now == before, "metadata-off", lambda: "%s, which is not enabled, gives %s" % (what, ans))
                return "meta-off"
            if not i.out:
                ctx.require(ans == ["err", "notbuilt"] and now == before, "metadata-not-built", lambda: "%s gives %s" % (what, ans))
                return "meta-early"
            ctx.require(ans == ["ok"] and now is not None, "metadata", lambda: "%s gives %s" % (what, ans))
            if i.unknown or not i.out["meta"]:
                # The details of the files are collected by builds in which the metadata is enabled.
                return "meta-unknown"
            m = c16.strict(now)
            ctx.require(m.get("name") == i.cfg["name"] and m.get("author") == i.cfg["author"], "metadata-name", lambda: "%s: %r" % (what, now[:300]))
            o = i.out
            want = c16.expected(o["site"], {p: v for p, (v, s) in o["merged"].items()}, {}, o["mdirs"], set())
            for p in o["custom"]:
                e = want
                *ds, n = p.split("/")
                for x in ds:
                    e = e[x]["children"]
                e[n]["type"] = "custom"
            c16.compare(ctx, m["data"], want, {p for p in o["site"].files if p.rsplit("/", 1)[-1] in ("root.html", "md.html")})
            return "meta"

        def output(i):
            ans = lib.ask("output", i.n)
            if not i.out:
                ctx.require(ans == ["none"], "output-early", lambda: "there is an output before the first build: %s" % ans[:3])
                return "output-early"
            if i.unknown:
                return "output-unknown"
            got = nodes(ans)
            o = i.out
            templates = {p for p in o["site"].files if p.rsplit("/", 1)[-1] in ("root.html", "md.html")}
            want = {(p[:-3] + ".html" if p.endswith(".md") else p): v for p, v in o["pages"].items()}
            want.update({p: v for p, v in o["site"].sources().items() if p not in o["pages"] and p not in templates})
            want.update({p: v for p, (v, s) in o["merged"].items()})
            have = {p: v[0] if v else None for p, v, s in got if p and p not in templates}
            want.update({d: None for d in o["site"].dirs | o["mdirs"]})
            d = diff_trees(want, have)
            ctx.require(d is None, "output-nodes", lambda: "the nodes of the output after %s: %s" % (steps[-8:], d))
            src = i.names()[0]
            for p, v, s in got:
                ctx.require(v is None or s == src[p], "output-source", lambda: "the source of the output %r is %r instead of %r" % (p, s, src[p]))
            ctx.require(len({p for p, v, s in got}) == len(got), "output-twice", lambda: "a path is twice in the output")
            return "output"

        def new():
            nonlocal counter
            counter += 1
            d = r.choice(dirs)
            i = Inst("s%d" % counter, d, r.choice(list(PLUGINS)), make_cfg(r))
            ctx.require(lib.ask("new", i.n, spelled(r, ctx, d.full), i.plugs, r.choice("01"), *cfg_fields(i.cfg)) == [], "harness", "new")
            insts[i.n] = i
            return "new %s %s" % (d.name, i.plugs)

        new()
        for _ in range(r.randint(8, 40)):
            x = r.random()
            i = insts[r.choice(sorted(insts))]
            if x < 0.08 and len(insts) < 4:
                s = new()
            elif x < 0.12 and len(insts) > 1:
                lib.ask("drop", i.n)
                del insts[i.n]
                s = "drop"
            elif x < 0.2:
                i.cfg = make_cfg(r)
                lib.ask("config", i.n, *cfg_fields(i.cfg))
                s = "config"
            elif x < 0.34:
                d = r.choice(dirs)
                y = r.random()
                if d.defect and y < 0.6:
                    d.write()
                    s = "fix " + d.name
                elif y < 0.7:
                    d.change()
                    s = "change " + d.name
                else:
                    d.write()
                    d.break_it()
                    s = "break " + d.name
            else:
                s = r.choice([build] * 8 + [merge] * 4 + [save] * 6 + [meta] * 2 + [output] * 2)(i)
            steps.append(s + " " + i.n)
            ctx.note = steps
            ctx.observed(1, (steps[-6:], i.plugs, sorted(i.d.site.files)), **{s.split(" ")[0]: 1})
    ctx.sample = {"steps": steps[:60]}


# -- nodes ----------------------------------------------------------------------------------------------------------------

NAMES = ["a", "b", "A", "a.html", "b.md", "c.json", "index.html", "root.html", "md.html", ".h", "é", "e\u0301", "a b", "-x", "~", "日本", "a.", "a.b.c", "...", "%41", "x\ny", "\\", "z" * 200, "10", "9", "Z.html"]


def random_dir(r, depth=0):
    """name -> bytes or a dictionary."""
    t = {}
    for n in r.sample(NAMES, r.choice([0, 1, 2, 4, 7])):
        t[n] = random_dir(r, depth + 1) if depth < 4 and r.random() < 0.35 else bytes(r.randrange(256) for _ in range(r.choice([0, 1, 20]))) if r.random() < 0.5 else b"text %d" % r.randrange(1000)
    return t


def relative_of(r, t):
    """A tree that shares much with the given one: parts of it are missing, empty, other kinds of nodes or named otherwise."""
    out = {}
    for n, v in t.items():
        x = r.random()
        if x < 0.25:
            continue
        if x < 0.3:
            n = n.swapcase()
        if isinstance(v, dict):
            out[n] = {} if r.random() < 0.2 else b"file" if r.random() < 0.03 else relative_of(r, v)
        elif r.random() < 0.15:
            out[n] = r.choice([v, b"", b"other", {}])
    for n in r.sample(NAMES, r.choice([0, 1, 2])):
        if n not in out and (n not in t or r.random() < 0.1):
            out[n] = b"more" if r.random() < 0.6 else {"deep": {"x": b"more"}}
    return out


def as_text(r, t):
    return {n: as_text(r, v) if isinstance(v, dict) else (r.choice([b'{"a": [1, null]}', b"[]", b'"x"']) if n.endswith(".json") else b"text {{ $a }} %d" % r.randrange(100)) for n, v in t.items()}


def sc_parsed(ctx):
    """Trees that are parsed: the kinds of the nodes, and where a mistake is."""
    r = ctx.rng
    t = as_text(r, random_dir(r))
    full, f = ctx.path("tree"), flat(t)
    write_dir(ctx, full, t)
    ext = lambda p: os.path.basename(p).rpartition(".")[2] if "." in os.path.basename(p)[1:] else None
    kinds = {"html": "html", "md": "markdown", "json": "json"}
    bad = [p for p in sorted(f) if f[p] is not None and ext(p) in kinds]
    with Lib(ctx) as lib:
        for step in range(3):
            ans = lib.ask("node", "t", spelled(r, ctx, full), "1")
            ctx.require(ans[0] == "ok", "parsed", lambda: "parsing %s gives %s" % (sorted(f), ans[0]))
            got = nodes(ans[1:])
            ctx.require([p for p, v, s in got[1:]] == list(ordered(t)), "parsed-order", lambda: "the nodes are %s" % [p for p, v, s in got[1:]])
            for p, v, s in got[1:]:
                ctx.require(s == os.path.join(full, p) and (v is None) == (f[p] is None), "parsed-node", lambda: "%r: %r %r" % (p, v, s))
                if v is not None:
                    ctx.require(v[0] == f[p], "parsed-contents", lambda: "the contents of %r are %r" % (p, v[0][:200]))
                    ctx.require(v[1] == kinds.get(ext(p), "-"), "parsed-kind", lambda: "%r is parsed as %s" % (p, v[1]))
            ctx.observed(1, (sorted(f), step), parsed=1)
            if bad and step < 2:
                p = r.choice(bad)
                why, text = r.choice([("read", b"\xff"), ("parse", b"{{ nothing() }}")])
                write_tree(full, {p: text if ext(p) != "md" or why == "read" else b"\n" + text})
                ans = lib.ask("node", "u", spelled(r, ctx, full), "1")[0].split("\t")
                ctx.require(ans[:2] == ["err", why], "mistake", lambda: "%r in %r gives %s" % (text, p, ans))
                if why == "parse":
                    ctx.require(os.fsdecode(dec(ans[2])) == os.path.join(full, p), "mistake-path", lambda: "%r in %r gives %s" % (text, p, ans))
                write_tree(full, {p: f[p]})
                ctx.observed(1, (p, why), mistake=1)
    ctx.sample = {"files": sorted(f)[:20]}


def flat(t, pre=""):
    out = {}
    for n, v in t.items():
        out[pre + n] = None if isinstance(v, dict) else v
        if isinstance(v, dict):
            out.update(flat(v, pre + n + "/"))
    return out


def write_dir(ctx, full, t):
    f = flat(t)
    write_tree(full, {p: v for p, v in f.items() if v is not None}, ["."] + [p for p, v in f.items() if v is None])


def ordered(t, pre=""):
    """The paths in the order of reading: by the bytes of the names."""
    for n in sorted(t, key=lambda n: n.encode()):
        yield pre + n
        if isinstance(t[n], dict):
            yield from ordered(t[n], pre + n + "/")


def sc_nodes(ctx):
    r = ctx.rng
    with Lib(ctx) as lib:
        n = r.randint(2, 4)
        trees = [random_dir(r)]
        while len(trees) < n:
            trees.append(relative_of(r, r.choice(trees)) if r.random() < 0.5 else random_dir(r))
        names = ["t%d" % i for i in range(n)]
        for t, d in zip(trees, names):
            full = ctx.path(d)
            write_dir(ctx, full, t)
            if r.random() < 0.2:
                os.symlink(full, ctx.path(d + "-link"))
                given = ctx.path(d + "-link")
            else:
                given = full
            ans = lib.ask("node", d, spelled(r, ctx, given), "0")
            ctx.require(ans[0] == "ok", "node", lambda: "reading %s gives %s" % (sorted(flat(t)), ans[0]))
            got = nodes(ans[1:])
            f = flat(t)
            ctx.require([p for p, v, s in got[1:]] == list(ordered(t)), "node-order", lambda: "the nodes are %s instead of %s" % ([p for p, v, s in got[1:]], list(ordered(t))))
            for p, v, s in got[1:]:
                ctx.require((None if v is None else v[0]) == f[p], "node-contents", lambda: "the contents of %r" % p)
                ctx.require(v is None or v[1] == "ignored", "node-parsed", lambda: "%r is parsed" % p)
                ctx.require(s == os.path.join(full, p), "node-source", lambda: "the source of %r is %r" % (p, s))
            ctx.observed(1, (sorted(f.items(), key=str)), **{"read": 1})
            # Searching.
            for _ in range(r.randint(2, 12)):
                paths = sorted(f) + [""]
                p = r.choice(paths)
                x = r.random()
                if x < 0.5:
                    q, want = p, p
                    if r.random() < 0.5 and p:
                        q = r.choice(["./", "", ".//"]) + p.replace("/", r.choice(["/", "//", "/./"])) + r.choice(["", "/", "/."])
                    elif not p:
                        q = r.choice(["", ".", "./", "./."])
                else:
                    q = r.choice([p + "x", p + "/x", "/" + p, "../" + d + "/" + p, p + "/..", p.upper(), p[:-1], "a/../" + p, full + "/" + p, p + "/" + p, d + "/" + p, " " + p])
                    parts = [c for i, c in enumerate(q.split("/")) if c not in ("", ".")]
                    want = "/".join(parts) if ".." not in parts and not q.startswith("/") and "/".join(parts) in f else None
                    if not parts and not q.startswith("/"):
                        want = ""
                ans = lib.ask("get", d, enc(q))
                if want is None:
                    ctx.require(ans == ["none"], "found", lambda: "get_at_path(%r) finds something" % q)
                else:
                    ctx.require(ans != ["none"], "not-found", lambda: "get_at_path(%r) finds nothing" % q)
                    sub = nodes(ans)
                    ctx.require(sub[0][2] == os.path.join(full, want).rstrip("/"), "found-other", lambda: "get_at_path(%r) finds %r" % (q, sub[0][2]))
                ctx.observed(1, (q, want, sorted(f)), **{"found" if want is not None else "not-found": 1})
        # Merging all into the first one.
        base, sources = flat(trees[0]), {p: os.path.join(ctx.path(names[0]), p) for p in flat(trees[0])}
        failed = False
        for t, d in zip(trees[1:], names[1:]):
            f = flat(t)
            pairs = {(sources[p], os.path.join(ctx.path(d), p)) for p in f if p in base and not (base[p] is None and f[p] is None)}
            ans = lib.ask("nmerge", names[0], d)
            if failed:
                break
            got = {p: (v, s) for p, v, s in nodes(ans[1:]) if p}
            res = ans[0].split("\t")
            if pairs:
                pair = tuple(os.fsdecode(dec(x)) for x in res[2:])
                ctx.require(res[:2] == ["err", "conflict"] and (pair in pairs or pair[::-1] in pairs), "conflict", lambda: "merging %s and %s gives %s" % (sorted(base), sorted(f), res))
                failed = True
                # What was there stays.
                for p in base:
                    ctx.require(p in got and (got[p][0][0] if got[p][0] else None) == base[p], "conflict-lost", lambda: "the merge that fails loses %r" % p)
                ctx.observed(1, (sorted(base), sorted(f), pair), conflict=1)
                break
            ctx.require(res == ["ok"], "merge", lambda: "merging %s and %s gives %s" % (sorted(base), sorted(f), res))
            for p, v in f.items():
                if p not in base:
                    sources[p] = os.path.join(ctx.path(d), p)
            base.update({p: v for p, v in f.items()})
            dd = diff_trees(base, {p: v[0] if v else None for p, (v, s) in got.items()})
            ctx.require(dd is None, "union", lambda: "merging %s gives something else: %s" % (sorted(f), dd))
            for p, (v, s) in got.items():
                ctx.require(s == sources[p], "union-source", lambda: "the source of %r is %r instead of %r" % (p, s, sources[p]))
            ctx.observed(1, (sorted(base), sorted(f)), union=1)
        if not failed:
            o = ctx.path("saved")
            if r.random() < 0.5:
                write_tree(o, {"old/x": b"old", "a": b"old"})
            cfg = make_cfg(r)
            res = lib.ask("nsave", names[0], enc(o), *cfg_fields(cfg))
            ctx.require(res == ["ok"], "save", lambda: "saving %s gives %s" % (sorted(base), res))
            dd = diff_trees(base, read_tree(o))
            ctx.require(dd is None, "saved", lambda: "saving nodes that are not parsed (%s): %s" % (cfg, dd))
            ctx.observed(1, sorted(base.items(), key=str), saved=1)
        ctx.sample = {"merged": sorted(base)[:30]}


# -- threads --------------------------------------------------------------------------------------------------------------

def sc_threads(ctx):
    r = ctx.rng
    dirs = [Dir(ctx, "c%d" % i, "c%d" % i) for i in range(r.randint(1, 3))]
    jobs, fields = [], []
    for k in range(r.randint(2, 8)):
        d = r.choice(dirs)
        plugs = r.choice([p for p in PLUGINS if PLUGINS[p] >= d.uses])
        i = Inst("t%d" % k, d, plugs, make_cfg(r))
        env = "env %d" % k
        o = ctx.path("out%d" % k)
        fields += [enc(d.full), enc(env), enc(o), plugs] + cfg_fields(i.cfg)
        jobs.append((i, env, o))
    with Lib(ctx, {"HOME": "/"}) as lib:
        ans = lib.ask("threads", str(r.choice([1, 3, 10])), *fields)
    for (i, env, o), a in zip(jobs, ans):
        i.build(ctx, env)
        try:
            want = i.tree()
        except BuildError:
            ctx.require(a.startswith("err\tconflict"), "threads-conflict", lambda: "the build in a thread gives %s" % a)
            continue
        ctx.require(a == "ok", "threads-fails", lambda: "the build of %s in a thread gives %s" % (i.d.name, a))
        d = diff_trees(want, read_tree(o))
        ctx.require(d is None, "threads-output", lambda: "the output of a build in one of %d threads: %s" % (len(jobs), d))
        ctx.observed(1, (env, len(jobs), sorted(i.d.site.files)), threads=1)
    ctx.sample = {"threads": len(jobs)}


SCENARIOS = [Scenario("histories", sc_histories, 500, 8000), Scenario("nodes", sc_nodes, 800, 12000), Scenario("parsed", sc_parsed, 300, 4000), Scenario("threads", sc_threads, 120, 1600)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 5
