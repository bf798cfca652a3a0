"""C18: native plugins."""
import shutil
from decimal import Decimal

from ..common import *
from .. import build as B, sites as S
from . import c11, c16

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: a native plugin that logs the life of each of its objects, an offline checker of that log, a reference model of the output, and AddressSanitizer"
RULE = ("one to three copies of an instrumented native plugin, under random names and with random functions (some called like built-ins or like each other's) and parsers, used all over random sites, with failures of every kind, in `build` and `bench`, with and without AddressSanitizer; "
        "an observation is a process whose output is that of the reference model and whose log of object lifetimes (creation, uses, destruction, unloading of the library) satisfies the specification, and who made no invalid memory access; distinct by plugins and pages, or by failure")
ASSUMPTIONS = ["the plugins are compiled by the same compiler as stuart; what a plugin does to its own memory is its own business", "two plugins that claim the same extension or whose functions of the same name are called unqualified are left open (README)"]
DATA_LIMIT = False

BUILTINS = ["begin", "dateformat", "else", "end", "excerpt", "for", "ifdefined", "import", "insert", "timetoread", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle"]
EXTS = ["foo", "bar", "baz", "probe", "gz", "css", "js", "txt", "HTML", "é", "png", "x-y"]
PLUGIN_NAMES = ["alpha", "beta", "my_plugin", "p2", "Ünï", "x", "for", "alpha_beta", "std"]
FN_NAMES = ["f", "fn_2", "echo", "Upper", "é", "x1", "forx", "ifeqq", "endd", "alpha", "f2", "imports", "insert_all", "get", "put", "_u", "1st"]


def prepare(scratch):
    env = default_prepare(scratch, oracle=True)
    so = B.probe()
    exe, aso = B.asan_stuart()
    env["asan"] = install(scratch, exe, "stuart-asan")
    env["sos"] = [install(scratch, so, "probe%d.so" % i) for i in range(3)]
    env["asos"] = [install(scratch, aso, "aprobe%d.so" % i) for i in range(3)]
    return env


class Plug:
    """What a copy of the probe plays."""

    def __init__(self, dep, name, fns, exts):
        self.dep, self.name, self.fns, self.exts = dep, name, fns, exts
        self.file = None

    def cfg(self):
        return "name\t%s\n" % self.name + "".join("fn\t%s\t%s\n" % f for f in self.fns) + "".join("ext\t%s\n" % "\t".join(e) for e in self.exts)


def hser(v):
    """How humphrey_json writes a value."""
    if v is None:
        return "null"
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        s = format(Decimal(repr(float(v))), "f")
        return s[:-2] if s.endswith(".0") else s
    if isinstance(v, str):
        out = []
        short = {'"': '\\"', "\\": "\\\\", "/": "\\/", "\b": "\\b", "\f": "\\f", "\n": "\\n", "\r": "\\r", "\t": "\\t"}
        for c in v:
            out.append(short.get(c) or (c if ord(c) >= 0x20 else "\\u%04x" % ord(c)))
        return '"' + "".join(out) + '"'
    if isinstance(v, list):
        return "[" + ",".join(map(hser, v)) + "]"
    return "{" + ",".join(hser(k) + ":" + hser(x) for k, x in v.items()) + "}"


def show(a):
    kind, v = a
    if kind == "int":
        return "I%d" % v
    return "%s%d:%s" % ({"var": "V", "str": "S", "ident": "D"}[kind], len(v.encode()), v)


STRINGS = ["", "x", "a, b", "x)", "(", "}}", "{{", "a=b", "=", " lead and trail ", "é日😀", "$v", "5", "for", "\\", "\\\""[:1], "'", "<p>", "a::b", "#", "\t", "{{ f() }}", "x" * 300, "\u00a0", "--", "k=\\v"] + S.G.LOOKALIKES
IDENTS = BUILTINS


class PGen(S.G.Gen):
    """Generates pages in which the plugins' functions are called."""

    def __init__(self, rng, plugs, weights):
        super().__init__(rng, dict(weights, plugin=4), max_depth=4, big_text=0.01)
        self.plugs = plugs
        self.was_set = []

    def spelling(self, p, f):
        """How the function is called: qualified, or not if it is unambiguous."""
        plain = f not in BUILTINS and sum(f == g for q in self.plugs for g, _ in q.fns) == 1
        return f if plain and self.rng.random() < 0.5 else p.name + "::" + f

    def arg(self, scope):
        r = self.rng
        x = r.random()
        if x < 0.35:
            return ("str", r.choice(STRINGS))
        if x < 0.55:
            return ("int", r.choice([0, 1, -1, 7, 2147483647, -2147483648, r.randint(-999, 999)]))
        if x < 0.7:
            return ("ident", r.choice(IDENTS))
        c = self.paths(scope, lambda v: True)
        return ("var", r.choice(c)[0] if c and r.random() < 0.7 else r.choice(["nothing", "a.b", "x.0.y", "é_1"]))

    def n_plugin(self, scope, depth):
        r = self.rng
        c = [(p, f, k) for p in self.plugs for f, k in p.fns if k in ("echo", "get", "set", "big")]
        if not c:
            return None
        p, f, k = r.choice(c)
        name = self.spelling(p, f)
        if k == "echo":
            pos = [self.arg(scope) for _ in range(r.choice([0, 1, 1, 2, 3, 6]))]
            named = [(r.choice(["a", "k_%d" % i, "é", "Z", "9"]), self.arg(scope)) for i in range(r.choice([0, 0, 0, 1, 2]))]
            # A comma in a quoted named argument is fine, since quotes are honoured there too.
            text = "[%s%s]" % (name, "".join("|" + show(a) for a in pos) + "".join("|%s=%s" % (k2, show(a)) for k2, a in named))
            args = pos + [("raw", "%s=%s" % (k2, arg_source(a))) for k2, a in named]
            return Call(name, args, lambda ev, n: text)
        if k == "get":
            c = self.paths(scope, lambda v: True)
            # (Variables that have been set in scopes which have ended are undefined, others are not.)
            paths = [r.choice(c)[0] if c and r.random() < 0.6 else r.choice(self.was_set[-12:]) if self.was_set and r.random() < 0.8 else r.choice(["nothing", "no.thing"]) for _ in range(r.choice([1, 1, 2]))]

            def fn(ev, n):
                vs = [ev.lookup(q) for q in paths]
                return "".join("undefined" if v is MISSING else hser(v) for v in vs)
            return Call(name, [("var", q) for q in paths], fn)
        if k == "big":
            m = r.choice([0, 1, 26, 300, 5000, 70000])
            return Call(name, [("int", m)], lambda ev, n: ("abcdefghijklmnopqrstuvwxyz" * (m // 26 + 1))[:m])
        var = "pv%d" % self.uid()
        self.was_set.append(var)
        x = r.random()
        c = self.paths(scope, lambda v: True)
        if x < 0.35:
            s = r.choice(STRINGS)
            a, example, value = ("str", s), s, lambda ev: s
        elif x < 0.5:
            i = r.randint(-50, 50)
            a, example, value = ("int", i), i, lambda ev: i
        elif x < 0.6 or not c:
            i = r.choice(IDENTS)
            a, example, value = ("ident", i), [i, True], lambda ev: [i, True]
        else:
            q, example = r.choice(c)
            a, value = ("var", q), lambda ev: None if ev.lookup(q) is MISSING else ev.lookup(q)
        scope[-1][var] = example

        def fn(ev, n):
            ev.frames[-1][var] = value(ev)
            return ""
        return Call(name, [("str", var), a], fn)


def make_plugs(r, kinds=("echo", "get", "set", "big", "echo")):
    plugs = []
    names = r.sample(PLUGIN_NAMES, r.randint(1, 3))
    exts = r.sample(EXTS, len(EXTS))
    for i, name in enumerate(names):
        fns, used = [], set()
        for _ in range(r.randint(1, 8)):
            f = r.choice(FN_NAMES) if r.random() < 0.7 else r.choice(BUILTINS)
            if f not in used:
                used.add(f)
                fns.append((f, r.choice(kinds)))
        e = [[exts.pop() for _ in range(r.randint(1, 2))] for _ in range(r.choice([0, 1, 1, 2]))]
        plugs.append(Plug(name if r.random() < 0.7 else "dep%d" % i, name, fns, e))
    if len({p.dep for p in plugs}) < len(plugs):
        for i, p in enumerate(plugs):
            p.dep = "d%d" % i
    return plugs


def install_plugs(ctx, proj, plugs, asan):
    """Puts the libraries into the project and returns the [dependencies]."""
    r = ctx.rng
    deps = []
    for i, p in enumerate(plugs):
        d = r.choice(["", "plugins/", "../lib/"])
        p.file = "probe-%d.so" % i
        full = os.path.normpath(os.path.join(proj, d + p.file))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        os.symlink((ctx.asos if asan else ctx.sos)[i], full)
        write_tree(os.path.dirname(full), {p.file + ".cfg": p.cfg()})
        src = full if r.random() < 0.2 else d + p.file
        deps.append((p.dep, src))
    r.shuffle(deps)
    return "\n[dependencies]\n" + "".join('"%s" = "%s"\n' % d for d in deps)


def read_log(path):
    if not os.path.exists(path):
        return []
    return [l.split("\t") for l in open(path, encoding="utf-8", errors="surrogateescape").read().split("\n") if l]


def check_life(ctx, events, plugs, what, all_loaded=True):
    """The life of every object and library, as the log has it."""
    state, loaded, gone = {}, set(), set()
    alive, most = 0, 0
    for e in events:
        lib, ev = e[0], e[1]
        ctx.require(lib not in gone, "used-after-unload", lambda: "%s: %s after the library was unloaded" % (what, e))
        if ev == "init":
            loaded.add(lib)
        elif ev == "fini":
            gone.add(lib)
            left = sorted(k for k, s in state.items() if k[0] == lib and s == "live")
            ctx.require(not left, "not-freed", lambda: "%s: these objects were not freed when their library was unloaded: %s" % (what, left[:6]))
        elif ev in ("new", "drop", "use", "bad"):
            key = (lib, e[2], e[3])
            ctx.require(ev != "bad", "corrupt", lambda: "%s: an object was used (%s) that is not alive: %s" % (what, e[4], key))
            if ev == "new":
                state[key] = "live"
                alive += 1
                most = max(most, alive)
            else:
                ctx.require(state.get(key) == "live", "freed-twice" if ev == "drop" else "used-after-free", lambda: "%s: %s of an object that was freed before" % (what, e))
                if ev == "drop":
                    state[key] = "freed"
                    alive -= 1
        ctx.feature("life-events")
    left = sorted(k for k, s in state.items() if s == "live")
    ctx.require(not left, "not-freed", lambda: "%s: these objects were never freed: %s" % (what, left[:6]))
    ctx.require(gone == loaded, "not-unloaded", lambda: "%s: the libraries %s were not unloaded" % (what, sorted(loaded - gone)))
    if all_loaded:
        ctx.require(loaded == {p.file for p in plugs}, "not-loaded", lambda: "%s: only %s were loaded" % (what, sorted(loaded)))
        inits = sum(e[1] == "init" for e in events)
        ctx.require(inits == len(plugs), "initialized-twice", lambda: "%s: %d initializations of %d plugins" % (what, inits, len(plugs)))
    ctx.feature("objects", len(state))
    return most


def run(ctx, args, cwd, asan, log, wall=90):
    env = {"PROBE_LOG": log, "FOO": "bar"}
    if asan:
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:symbolize=0:detect_stack_use_after_return=1"
    if os.path.exists(log):
        os.unlink(log)
    r = ctx.run(args, cwd=cwd, exe=ctx.asan if asan else None, extra_env=env, wall=wall)
    if b"AddressSanitizer" in r.err:
        i = r.err.index(b"AddressSanitizer")
        raise Violation("memory-error", "AddressSanitizer reports: " + r.err[i:i + 900].decode("utf-8", "replace"))
    ctx.no_crash(r)
    ctx.feature("asan-runs" if asan else "plain-runs")
    return r


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b:
        h = ((h ^ x) * 0x100000001b3) & (2**64 - 1)
    return h


class Parsed:
    """A file for one of the plugins' parsers: its source, and the name, contents and metadata it is to have."""

    def __init__(self, data, name=None, out=None, meta=None):
        self.data, self.name, self.out, self.meta = data, name, out, meta

    def source(self):
        return self.data


def parsed_file(r, g, settings, env):
    """What a file can ask the plugin for."""
    body = r.choice([b"", b"x", b"body %d\n" % g.uid(), b"\xff\xfe\x00bin", bytes(range(256)), "é\r\n".encode() * 40, b"{{ not a tag", b"z" * 20000])
    lines, name, contents, meta = [], None, None, {"type": "probe", "value": None}
    if r.random() < 0.45:
        name = "n%d" % g.uid() + r.choice([".txt", "", ".foo", ".min.css", " x", "é", ".webp", ".HTML", ".md", "$.x"] + ([] if settings["strip_extensions"] else [".html"]) + ([".json"] if settings["save_data_files"] else []))
        lines.append("!rename " + name)
    if r.random() < 0.3:
        v = c16.value(r)
        t = json.dumps(v)
        if c16.same(json.loads(t), v):
            lines.append("!json " + t)
            meta = {"type": "probe", "value": v}
    if r.random() < 0.15:
        lines.append("!plain")
        meta = {"type": "custom"}
    what = r.choice(["keep", "keep", "reverse", "empty", "double", "env"])
    if what != "keep":
        lines.append("!" + what)
    r.shuffle(lines)
    head = "".join(l + "\n" for l in lines).encode()
    if body.startswith(b"!"):
        body = b"-" + body
    data = head + body
    if what == "reverse":
        # The rest after the line that asks for it.
        contents = data[data.index(b"!reverse\n") + 9:][::-1]
    elif what == "empty":
        contents = b""
    elif what == "double":
        contents = data * 2
    elif what == "env":
        contents = env
    return Parsed(data, name, data if contents is None else contents, meta)


def add_parsed(ctx, r, g, site, plugs, settings):
    """Adds files of the plugins' extensions, and others that only look alike, to the site."""
    exts = [e for p in plugs for es in p.exts for e in es]
    out = {}
    for i in range(r.randint(1, 8) if exts else 0):
        d = r.choice(["", "", "blog/", "assets/deep/", "d.foo/"])
        e = r.choice(exts)
        x = r.random()
        if x < 0.75:
            p = "%sfile%d.%s" % (d, i, e)
            md = site.nearest(p, "md.html") is not None
            out[p] = parsed_file(r, g, settings, ("env=production foo=bar root=true md=%s same=1\n" % ("true" if md else "false")).encode())
        else:
            # Not the plugin's: no extension, another case, or something after it.
            n = r.choice([".%s" % e, "x%d.%s~" % (i, e), "x%d.%s.zz" % (i, e), "%s" % e, "y%d.%s%s" % (i, e, "x"), "u%d.%s" % (i, e.upper()), "v%d.%s" % (i, e.swapcase()), "w%d.%s" % (i, e.capitalize())])
            if (d + n).rsplit(".", 1)[-1] in exts + ["html", "md", "json"] and not n.startswith("."):
                continue
            site.files[d + n] = Other(b"!reverse\n!rename zz\nleft alone")
    return out


def expected(ctx, site, pages, settings, parsed, static):
    """The output tree and the metadata."""
    s2 = Site(dict(site.files), dirs=site.dirs)
    for p, f in parsed.items():
        d = p.rpartition("/")[0]
        q = (d + "/" if d else "") + (f.name or p.rpartition("/")[2])
        if q in s2.files:
            raise Discard()
        s2.files[q] = Other(f.out)
    try:
        want = output_tree(s2, settings["strip_extensions"], settings["save_data_files"], static, (), pages)
    except BuildError:
        raise Discard()
    meta = c16.expected(s2, static, {}, set(), set())
    for p, f in parsed.items():
        parts = p.split("/")
        d = meta
        for x in parts[:-1]:
            d = d[x]["children"]
        n = f.name or parts[-1]
        d[n] = dict(f.meta, name=n)
    return want, meta


def manifest_of(settings, deps):
    return manifest(**settings) + deps


def rich(ctx, plugs, parsers=True):
    r = ctx.rng
    g = PGen(r, plugs, {"section": 0.7, "for": 1.5, "if": 1.2})
    site, pages = S.rich_site(ctx, g)
    settings = {"strip_extensions": r.random() < 0.6, "save_data_files": r.random() < 0.4, "save_metadata": r.random() < 0.6}
    parsed = add_parsed(ctx, r, g, site, plugs, settings) if parsers else {}
    static = {p: b"!reverse\nstatic" for p in r.sample(["s.foo", "img/a.gz", "style.css.gz", "raw.bar", "zz.txt"], r.randint(0, 3))}
    want, meta = expected(ctx, site, pages, settings, parsed, static)
    return g, site, pages, settings, parsed, static, want, meta


def write_rich(proj, site, static, settings, parsed, deps):
    write_project(proj, site, static, settings, more={"content/" + p: f.data for p, f in parsed.items()})
    write_tree(proj, {"stuart.toml": manifest_of(settings, deps)})


def check_output(ctx, proj, want, meta, settings, site, what, out="dist"):
    d = diff_trees(want, read_tree(os.path.join(proj, out)))
    ctx.require(d is None, "output", lambda: "the output of %s: %s" % (what, d))
    if settings["save_metadata"]:
        m = c16.strict(open(os.path.join(proj, "metadata.json"), "rb").read())
        templates = {p for p in site.files if p.rsplit("/", 1)[-1] in ("root.html", "md.html")}
        c16.compare(ctx, m["data"], meta, templates)


def check_parses(ctx, events, proj, parsed, builds, plugs):
    real = os.path.join(os.path.realpath(proj), "content")
    got = {}
    for e in events:
        if e[1] == "parse":
            path = bytes.fromhex(e[2]).decode()
            got.setdefault(os.path.relpath(path, real) if os.path.isabs(path) else path, []).append((e[0], int(e[3]), int(e[4], 16)))
    ctx.require(set(got) == set(parsed), "parsed-files", lambda: "the plugins were given the files %s instead of %s" % (sorted(got), sorted(parsed)))
    owner = {e: p.file for p in plugs for es in p.exts for e in es}
    for p, f in parsed.items():
        want = [(owner[p.rsplit(".", 1)[-1]], len(f.data), fnv(f.data))] * builds
        ctx.require(got[p] == want, "parsed-contents", lambda: "%s: the plugin got %s instead of %s" % (p, got[p], want))
        ctx.feature("parsed-files")


def sc_sites(ctx):
    r = ctx.rng
    asan = r.random() < 0.25
    plugs = make_plugs(r)
    g, site, pages, settings, parsed, static, want, meta = rich(ctx, plugs)
    proj = ctx.path("p")
    os.makedirs(proj)
    deps = install_plugs(ctx, proj, plugs, asan)
    write_rich(proj, site, static, settings, parsed, deps)
    log = ctx.path("log")
    res = run(ctx, ["-q", "build"], proj, asan, log)
    ctx.require(res.rc == 0, "unexpected-failure", lambda: "a valid project with plugins fails to build: " + res.errtext()[:700])
    check_output(ctx, proj, want, meta, settings, site, "a site with plugins")
    ev = read_log(log)
    check_life(ctx, ev, plugs, "build")
    check_parses(ctx, ev, proj, parsed, 1, plugs)
    calls = [n for f in site.files.values() if isinstance(f, (Html, Md)) for n, _ in tags(S.nodes_of(f)) if isinstance(n, Call) and n.name not in BUILTINS]
    for n in calls:
        ctx.feature("call-qualified" if "::" in n.name else "call-plain")
        if n.name.split("::")[-1] in BUILTINS:
            ctx.feature("call-named-like-built-in")
    ctx.observed(1, (sorted(want.items(), key=str), [p.cfg() for p in plugs]), calls=len(calls), plugins=len(plugs))
    ctx.sample = {"plugins": [p.cfg() for p in plugs], "calls": [n.name for n in calls][:8], "parsed": {p: [f.name, f.data[:60].decode("latin1")] for p, f in parsed.items()}}
    # Without changes of the inputs, the same again.
    if r.random() < 0.2:
        n = r.randint(1, 5)
        shutil.rmtree(os.path.join(proj, "dist"))
        res = run(ctx, ["bench", "-i", str(n)], proj, asan, log)
        ctx.require(res.rc == 0, "unexpected-failure", lambda: "bench of a valid project with plugins fails: " + res.errtext()[:700])
        if not any(b"env=production" in f.out for f in parsed.values()):
            check_output(ctx, proj, want, meta, settings, site, "bench with plugins")
        ev2 = read_log(log)
        one = sum(e[1] == "new" for e in ev)
        most = check_life(ctx, ev2, plugs, "bench -i %d" % n)
        check_parses(ctx, ev2, proj, parsed, n, plugs)
        # The objects of an iteration are freed by the end of the next one.
        ctx.require(most <= 2 * one, "accumulating", lambda: "bench -i %d: up to %d objects are alive, one build has %d" % (n, most, one))
        ctx.observed(1, ("bench", n), bench=1)


def sc_failures(ctx):
    """Calls that do not parse or fail, missing functions, and parsers that fail."""
    r = ctx.rng
    asan = r.random() < 0.3
    plugs = make_plugs(r, ("echo", "get", "set", "failexec", "failparse", "echo"))
    plugs[0].fns[:0] = [("bad_exec", "failexec"), ("bad_parse", "failparse")]
    del plugs[0].fns[8:]
    g, site, pages, settings, parsed, static, want, meta = rich(ctx, plugs)
    proj = ctx.path("p")
    os.makedirs(proj)
    deps = install_plugs(ctx, proj, plugs, asan)
    write_rich(proj, site, static, settings, parsed, deps)
    log = ctx.path("log")
    if r.random() < 0.5:
        res = run(ctx, ["-q", "build"], proj, asan, log)
        ctx.require(res.rc == 0, "unexpected-failure", lambda: "a valid project with plugins fails to build: " + res.errtext()[:700])
    before = read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)
    seen = S.rendered(site, ctx)
    fails = [(p, f, k) for p in plugs for f, k in p.fns if k.startswith("fail")]
    known = {p.name + "::" + f for p in plugs for f, _ in p.fns} | {f for p in plugs for f, _ in p.fns} | set(BUILTINS)
    for _ in range(r.randint(2, 6)):
        msg = "message %d é \u2028 'x'" % r.randrange(10**6)
        kind = r.choice(["missing", "missing", "exec", "parse", "node-parse", "node-process", "bad-plugin", "other-error"])
        changes, where, text = {}, None, None
        if kind in ("missing", "exec", "parse", "other-error"):
            path = r.choice(S.used_templates(site, pages) + sorted(pages))
            f = site.files[path]
            pos = S.positions(f, seen)
            if not pos:
                continue
            lst, i, chain = r.choice(pos)
            if kind == "missing":
                p = r.choice(plugs)
                name = r.choice(["nope", p.name + "::nope", "nope::" + p.fns[0][0], p.name + ":" + p.fns[0][0], "::" + p.fns[0][0], p.fns[0][0] + "x", p.name, p.name + "::" + p.name + "::" + p.fns[0][0], p.dep + "x::" + p.fns[0][0], p.name + "::", "for::" + p.fns[0][0] + "x", p.fns[0][0] + "::" + p.name, p.name.upper() + "::" + p.fns[0][0]] + [q.name + "::" + f for q in plugs for o in plugs if o is not q for f, _ in o.fns][:6] * 2 + [b + "::" + f for b in ("std", "stuart", "alpha", p.name[:-1] or "a", p.name + "x") for f, _ in p.fns[:2]])
                if name in known:
                    continue
                src, text = "{{ %s(%s) }}" % (name, r.choice(["", '"x"', "$v, 5"])), name
            elif kind == "other-error":
                src, text = r.choice(["{{ $undefined_zz }}", '{{ end("x") }}', "{{ %s::%s }}" % (plugs[0].name, plugs[0].fns[0][0])]), None
            else:
                c = [x for x in fails if x[2] == "fail" + kind]
                p, fname, _ = r.choice(c)
                src, text = '{{ %s("%s") }}' % (g.spelling(p, fname), msg), msg
            v = Verbatim(src)
            lst.insert(i, v)
            changes["content/" + path] = c11.plain_source(f, lambda line: Writer(None, line))
            lst.remove(v)
            where = "content/" + path
        elif kind in ("node-parse", "node-process"):
            exts = [e for p in plugs for es in p.exts for e in es]
            if not exts:
                continue
            changes["content/" + r.choice(["", "blog/", "zz/"]) + "bad." + r.choice(exts)] = ("!err-%s %s\nx" % (kind[5:], msg)).encode()
            text = msg
        else:
            write_tree(proj, {"not-a-library.so": r.choice([b"", b"\x7fELF", b"text"])})
            src = r.choice(["not-a-library.so", "nothing.so", "/usr/lib/x86_64-linux-gnu/libm.so.6"])
            changes["stuart.toml"] = manifest_of(settings, deps + 'zzz = "%s"\n' % src)
        a = c11.Applied(proj, changes)
        res = run(ctx, ["-q", "build"], proj, asan, log)
        a.revert()
        what = "%s %s" % (kind, {k: v[-200:] for k, v in changes.items()})
        ctx.require(res.rc == 1, "unexpected-success", lambda: "the build succeeds in spite of %s" % what)
        err = res.errtext()
        ctx.require("error:" in err, "silent-failure", lambda: "no error is printed for %s" % what)
        if text is not None and kind != "other-error":
            ctx.require(text in err, "message", lambda: "the message for %s does not contain %r: %s" % (what, text, err[:500]))
        if where is not None and text is not None:
            ctx.require(where in err, "file", lambda: "the message for %s does not name the file: %s" % (what, err[:500]))
        now = read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)
        d = diff_trees(before[0], now[0])
        ctx.require(d is None and before[1] == now[1], "output-changed", lambda: "the previous output after a failure (%s): %s" % (what, d))
        check_life(ctx, read_log(log), plugs, "failing build (%s)" % what, all_loaded=kind != "bad-plugin")
        ctx.observed(1, (kind, tuple(changes.items())), **{"failure-" + kind: 1})
        ctx.sample = {"failure": kind, "changes": str(changes)[-300:], "message": err[:300]}
    res = run(ctx, ["-q", "build"], proj, asan, log)
    ctx.require(res.rc == 0, "unexpected-failure", lambda: "the corrected project fails to build: " + res.errtext()[:700])
    check_output(ctx, proj, want, meta, settings, site, "the corrected project")
    check_life(ctx, read_log(log), plugs, "the corrected build")
    ctx.observed(1, None, corrected=1)


def sc_tokens(ctx):
    """Functions that use the token iterator and write bytes, and priorities."""
    r = ctx.rng
    asan = r.random() < 0.3
    p = Plug("p", "p", [("again", "repeat"), ("skip", "skip"), ("bytes", "bytes"), ("for", "echo"), ("excerpt", "echo"), ("insert", "bytes"), ("def", "set"), ("show", "echo")], [])
    q = Plug("q", "q", [("again", "skip"), ("skip", "repeat"), ("end", "echo"), ("begin", "echo")], [])
    raw = lambda n: bytes(i * 7 % 256 for i in range(n))
    parts = []
    for i in range(r.randint(1, 12)):
        n = r.choice([0, 1, 2, 3, 10])
        m = r.choice([0, 1, 255, 256, 1000])
        t = "t%d-é" % i
        parts.append(r.choice([
            ("{{ again(%d) }}%s{{ $a.s }}" % (n, t), t.encode() * n + b"S" if n else t.encode() + b"S"),
            ("{{ p::again(%d) }}{{ $a.s }}%s" % (n, t), (b"S" * n if n else b"S") + t.encode()),
            ("{{ q::skip(%d) }}{{ bytes(%d) }}." % (n, m), raw(m) * (n or 1) + b"."),
            ("{{ p::skip(1) }}%s{{ $a.s }}" % t, b"S"),
            ("{{ p::skip(2) }}{{ $nothing }}%s{{ $a.s }}" % t, b"S"),
            ("{{ q::again(1) }}{{ import($a, \"nothing.json\") }}%s" % t, t.encode()),
            ("{{ again(%d) }}{{ for($x, $a.l) }}{{ $x }}{{ end(for) }}|" % (n or 1), b"xyz" * (n or 1) + b"|"),
            ("{{ p::for($x, $a.l) }}{{ q::end(for) }}", b"[p::for|V1:x|V3:a.l][q::end|D3:for]"),
            ("{{ for($x, $a.l) }}{{ p::for($x) }}{{ q::begin() }}{{ end(for) }}", b"[p::for|V1:x][q::begin]" * 3),
            ("{{ p::insert(%d) }}" % m, raw(m)),
            ("{{ excerpt($a.s, 1) }}{{ p::excerpt($a.s, 1) }}", b"S[p::excerpt|V3:a.s|I1]"),
            ("{{ def(\"v%d\", \"w\") }}{{ $v%d }}{{ ifeq($v%d, \"w\") }}yes{{ else() }}no{{ end(ifeq) }}" % (i, i, i), b"wyes"),
            ("{{ ifeq(1, 2) }}{{ def(\"w%d\", 1) }}{{ p::failing_not_there_zz }}{{ end(ifeq) }}" % i, None) if False else ("{{ ifeq(1, 2) }}{{ bytes(5) }}{{ end(ifeq) }}", b""),
            ("{{ ifdefined($v%d) }}A{{ else() }}B{{ end(ifdefined) }}{{ ifeq(1, 1) }}{{ def(\"v%d\", 5) }}{{ show($v%d) }}{{ end(ifeq) }}" % (1000 + i, 1000 + i, 1000 + i), b"B[show|V%d:v%d]" % (len("v%d" % (1000 + i)), 1000 + i)),
        ]))
    src = "".join(a for a, b in parts)
    want = b"<" + b"".join(b for a, b in parts) + b">"
    proj = ctx.path("p")
    os.makedirs(proj)
    deps = install_plugs(ctx, proj, [p, q], asan)
    write_tree(proj, {"stuart.toml": manifest_of({}, deps), "content/a.json": '{"s": "S", "l": ["x", "y", "z"]}', "content/root.html": '<{{ insert("body") }}>', "content/index.html": '{{ begin("body") }}{{ import($a, "a.json") }}' + src + '{{ end("body") }}'})
    log = ctx.path("log")
    res = run(ctx, ["-q", "build"], proj, asan, log)
    ctx.require(res.rc == 0, "unexpected-failure", lambda: "a valid project with plugins fails to build: %s\n%s" % (res.errtext()[:700], src))
    got = read_tree(os.path.join(proj, "dist"))
    d = diff_trees({"index.html": want}, got)
    ctx.require(d is None, "tokens", lambda: "%s: %s" % (src[:1500], d))
    check_life(ctx, read_log(log), [p, q], "build")
    ctx.observed(len(parts), src)
    ctx.sample = {"source": src, "output": got["index.html"].decode("latin1")}


SCENARIOS = [Scenario("sites", sc_sites, 700, 9000), Scenario("failures", sc_failures, 250, 3000), Scenario("tokens", sc_tokens, 300, 3000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 6
