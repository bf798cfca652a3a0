"""C19: JavaScript plugins."""
import re, struct

from ..common import *
from .. import build as B, sites as S
from . import c11, c16, c18
from .c18 import BUILTINS, FN_NAMES, PLUGIN_NAMES, STRINGS

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: instrumented JavaScript plugins that write down every value they see bit by bit, checked against a reference model of the site, and AddressSanitizer"
RULE = ("one to three JavaScript plugins with random names, functions and module forms, called all over random sites with every kind of argument, reading and setting variables, keeping state, and returning every kind of value; plugins and calls that fail in every way; and programs of random hostile JavaScript (proxies, getters that throw, symbols, cycles, revoked and frozen objects, tampered globals); "
        "an observation is a page with the exact encoding of every value as the plugin saw it and the text of every result, equal to the reference model's, or a failure with its message and the old output in place, or a hostile program after which the process ended by itself with 0 or 1; distinct by plugins and pages, or by program")
ASSUMPTIONS = ["a plugin that loops for ever or exhausts the memory is its own fault", "JSON values have unique keys and numbers in the range of a double; negative zero may become zero", "named arguments of JavaScript functions are left open"]
DATA_LIMIT = False

PRELUDE = r"""
const view = new DataView(new ArrayBuffer(8));
function enc(v) {
  if (v === undefined) return "u";
  if (v === null) return "n";
  switch (typeof v) {
    case "boolean": return v ? "t" : "f";
    case "number": view.setFloat64(0, v); return "#" + view.getUint32(0).toString(16) + "." + view.getUint32(4).toString(16);
    case "string": return "s" + v.length + ":" + v;
  }
  if (Array.isArray(v)) {
    let s = "[" + (Object.getPrototypeOf(v) === Array.prototype && Object.keys(v).length === v.length ? "" : "?") + v.length;
    for (let i = 0; i < v.length; i++) s += "," + enc(v[i]);
    return s + "]";
  }
  if (typeof v !== "object") return "?" + typeof v;
  let s = "{" + (Object.getPrototypeOf(v) === Object.prototype ? "" : "?");
  for (const k of Object.getOwnPropertyNames(v).sort()) s += enc(k) + "=" + enc(Object.getOwnPropertyDescriptor(v, k).value) + ";";
  return s + "}";
}
"""


def prepare(scratch):
    env = default_prepare(scratch, oracle=True)
    env["asan"] = install(scratch, B.asan_stuart(js=True), "stuart-asan")
    return env


def enc(v):
    """What `enc` gives for the value in JavaScript."""
    if v is MISSING:
        return "u"
    if v is None:
        return "n"
    if isinstance(v, bool):
        return "t" if v else "f"
    if isinstance(v, (int, float)):
        a, b = struct.unpack(">II", struct.pack(">d", float(v)))
        return "#%x.%x" % (a, b)
    if isinstance(v, str):
        return "s%d:%s" % (len(v.encode("utf-16-le")) // 2, v)
    if isinstance(v, list):
        return "[%d%s]" % (len(v), "".join("," + enc(x) for x in v))
    return "{" + "".join(enc(k) + "=" + enc(v[k]) + ";" for k in sorted(v, key=lambda k: k.encode("utf-16-be"))) + "}"


# What JavaScript makes of a value that is converted to a string.
RESULTS = [
    ("undefined", ""), ("null", "null"), ("true", "true"), ("false", "false"), ("void 0", ""), ("''", ""), ("'x'", "x"), ("0", "0"), ("-0", "0"), ("5", "5"), ("-1.5", "-1.5"), ("0.1 + 0.2", "0.30000000000000004"), ("1e21", "1e+21"), ("1e20", "100000000000000000000"), ("1e-7", "1e-7"), ("1e-6", "0.000001"),
    ("123456789.125", "123456789.125"), ("2**53", "9007199254740992"), ("NaN", "NaN"), ("1/0", "Infinity"), ("-1/0", "-Infinity"), ("5e-324", "5e-324"), ("10n", "10"), ("-12345678901234567890n", "-12345678901234567890"), ("[]", ""), ("[1,[2,3]]", "1,2,3"), ("[null,undefined]", ","), ("[,1,,]", ",1,"),
    ("({})", "[object Object]"), ("({toString(){return 'q'}})", "q"), ("({toString(){return 5}})", "5"), ("({valueOf(){return 'v'}, toString: undefined})", "v"), ("({[Symbol.toPrimitive](h){return h}})", "string"), ("/a+/gi", "/a+/gi"), ("new String('boxed')", "boxed"), ("Object(7)", "7"), ("new Error('m')", "Error: m"), ("new TypeError('t')", "TypeError: t"),
    ("(function(){}).constructor.name", "Function"), ("x => x + 1", "x => x + 1"), ("new Map([[1,2]])", "[object Map]"), ("new Uint8Array([1,2,300])", "1,2,44"), ("Promise.resolve(1)", "[object Promise]"), ("[[],[[]]]", ","), ("['a','b'].join('\\n')", "a\nb"), ("'é日😀'", "é日😀"), ("'\\u00e9\\u{1f600}'", "é😀"), ("'\\0'", "\0"), ("'\\r\\n\\t'", "\r\n\t"),
    ("'{{ $x }}'", "{{ $x }}"), ("'{{ insert(\"body\") }}'", '{{ insert("body") }}'), ("'<b>&amp;</b>'", "<b>&amp;</b>"), ("'\\ud800'", "\ufffd"), ("'a\\udc00b'", "a\ufffdb"), ("'x'.repeat(100000)", "x" * 100000), ("'日'.repeat(5000)", "日" * 5000), ("typeof Symbol()", "symbol"), ("new Date(0).toISOString()", "1970-01-01T00:00:00.000Z"), ("JSON.stringify({b:1,a:[null]})", '{"b":1,"a":[null]}'), ("new Proxy([1,2],{})", "1,2"), ("Object.assign(() => 1, {toString(){return 'f'}})", "f"),
    ("new (class { toString() { return 'inst' } })", "inst"), ("[1,2,3].map(x => x * 2)", "2,4,6"), ("`t${1+1}`", "t2"), ("globalThis === this ? 1 : 2", None), ("(() => { throw 1 }, 'c')", "c"), ("(0, eval)('1+1')", "2"), ("new WeakMap", "[object WeakMap]"), ("Symbol('d').description", "d"), ("Math.max()", "-Infinity"),
]
RESULTS = [x for x in RESULTS if x[1] is not None]


def large(r):
    """Values whose size or depth could meet a limit."""
    n = r.choice([100, 127, 128, 255, 256, 257, 1000, 1001, 1023, 1025, 4097])
    k = r.choice(["ints", "strings", "objects", "keys", "text", "deep", "deep-objects", "mixed"])
    if k == "ints":
        return [i * 3 - 7 for i in range(n)]
    if k == "strings":
        return ["é%d" % i for i in range(n)]
    if k == "objects":
        return [{"i": i, "t": str(i)} for i in range(n)]
    if k == "keys":
        return {"k%d" % i: i for i in range(n)}
    if k == "text":
        return r.choice(["x", "é", "🎈"]) * r.choice([255, 256, 65535, 65536, 65537])
    if k == "mixed":
        return {"l": [None] * n + ["last"], "o": {"n": n}}
    v = "end"
    for i in range(r.choice([10, 63, 64, 65, 100, 127, 128, 129, 200])):
        v = [v] if k == "deep" else {"d": v}
    return v


class JsPlug:
    def __init__(self, dep, name, fns, rng):
        self.dep, self.name, self.rng = dep, name, rng
        self.fns = fns  # (name, kind)
        self.defs = []  # (name, source of the function)
        self.lits = 0

    def source(self, others):
        r = self.rng
        form = r.choice(["inline", "inline", "const", "as", "class", "await"])
        fns = []
        for name, src in self.defs:
            n = json.dumps(name, ensure_ascii=r.random() < 0.5)
            fns.append(r.choice(["{ name: %s, fn: %s }", "{ fn: %s, name: %s }"][:1]) % (n, src))
        version = r.choice(['"1.0.0"', "'1'", "1", "`2`"])
        obj = "{ name: %s, version: %s, functions: [%s] }" % (json.dumps(self.name), version, ",\n".join(fns))
        if r.random() < 0.2:
            obj = "{ functions: [%s], extra: 5, version: %s, name: %s, }" % (", ".join(fns), version, json.dumps(self.name))
        body = PRELUDE + "globalThis.mine = %s;\nvar counts = {};\nlet total = 0;\nglobalThis.%s = 1;\nObject.prototype.polluted_%s = 1; delete Object.prototype.polluted_%s;\nArray.%s = 1;\n" % ((json.dumps(self.dep),) + ("g_" + self.dep,) * 4)
        if form == "inline":
            body += "export default " + obj + ";\n"
        elif form == "const":
            body = "export default plugin_object();\nfunction plugin_object() { return (" + obj + "); }\n" + body if False else body + "const p = " + obj + ";\nexport default p;"
        elif form == "as":
            body += "const p = " + obj + ";\nexport { p as default };\nexport const other = 1;\n"
        elif form == "class":
            body += "export default new (class { constructor() { Object.assign(this, %s); } });\n" % obj
        else:
            body += "const p = await Promise.resolve(%s);\nexport default p;\n" % obj
        if r.random() < 0.15:
            body = "\ufeff" + body
        return body


class JGen(S.G.Gen):
    """Generates pages that call the plugins' functions."""

    def __init__(self, rng, plugs, weights):
        super().__init__(rng, dict(weights, plugin=5), max_depth=4, big_text=0.01)
        self.plugs = plugs
        self.kinds = {}
        self.was_set = []

    def define(self, p, kind):
        """A function of the kind in the plugin, new or there already."""
        r = self.rng
        shared = [f for f, k in p.fns if k == kind]
        if shared and kind in ("dump", "get", "set", "count", "who", "move"):
            return r.choice(shared)
        used = {f for f, _ in p.fns}
        c = [f for f in FN_NAMES + BUILTINS if f not in used]
        name = r.choice(c) if c and r.random() < 0.8 else "fn%d" % self.uid()
        p.fns.append((name, kind))
        return name

    def spelling(self, p, f):
        return p.name + "::" + f  # Made plain afterwards, where it is unambiguous.

    def call(self, p, f, args, fn):
        c = Call(p.name + "::" + f, args, fn)
        self.kinds.setdefault((p.name, f), []).append(c)
        return c

    def arg(self, scope):
        r = self.rng
        x = r.random()
        c = self.paths(scope, lambda v: True)
        if x < 0.5 and c:
            q = r.choice(c)[0]
            return ("var", q), lambda ev: ev.lookup(q)
        if x < 0.75:
            i = r.choice([0, 1, -1, 7, 2147483647, -2147483648, r.randint(-999, 999)])
            return ("int", i), lambda ev: i
        s = r.choice(STRINGS)
        return ("str", s), lambda ev: s

    def scoped(self, scope, depth):
        """Sets variables in a block and looks for them after it."""
        r = self.rng
        n = len(self.was_set)
        inner = [x for x in (self.n_plugin(scope + [{}, {}], depth + 2, k) for k in r.choices(["set", "lit", "move"], k=r.randint(1, 2))) if x]
        names = self.was_set[n:]
        if not inner or not names:
            return None
        block = r.choice([IfDef("env", inner), If("le", ("int", 1), ("int", 1), inner, [Raw("-")]), IfDef("no_such_variable", [], inner), IfDef("env.HOME", [IfDef("env", inner)])])
        return IfDef("env", [block, self.n_plugin(scope + [{}], depth + 1, "get", names), Raw(".")])

    def n_plugin(self, scope, depth, kind=None, names=()):
        r = self.rng
        p = r.choice(self.plugs)
        kind = kind or r.choice(["dump", "dump", "get", "set", "set", "lit", "result", "result", "count", "who", "move", "argc", "scoped"])
        if kind == "scoped":
            return self.scoped(scope, depth)
        f = self.define(p, kind)
        new = f not in {n for n, _ in p.defs}

        def define(src):
            if new:
                p.defs.append((f, src))
        if kind in ("dump", "argc"):
            args = [self.arg(scope) for _ in range(r.choice([0, 1, 1, 2, 3, 8]))]
            if kind == "dump":
                define(r.choice(["(...a) => a.map(enc).join('|')", "function (...a) { return a.map(x => enc(x)).join('|'); }", "function named() { return Array.prototype.map.call(arguments, enc).join('|'); }"]))
                fn = lambda ev, n: "|".join(enc(v(ev)) for _, v in args)
            else:
                define("function () { return arguments.length }")
                fn = lambda ev, n: str(len(args))
            return self.call(p, f, [a for a, _ in args], fn)
        if kind == "get":
            define("(...k) => k.map(x => enc(STUART.get(x))).join('|')")
            c = self.paths(scope, lambda v: True)
            keys = [r.choice(c)[0] if c and r.random() < 0.6 else r.choice(self.was_set[-12:]) if self.was_set and r.random() < 0.7 else r.choice(["nothing", "no.thing", "__proto__", "constructor", "a.b", "x.0", "toString"]) for _ in range(r.choice([1, 1, 2, 3]))] + list(names)
            return self.call(p, f, [("str", k) for k in keys], lambda ev, n: "|".join(enc(ev.lookup(k)) for k in keys))
        if kind == "result":
            src, text = r.choice(RESULTS) if r.random() < 0.8 else (None, None)
            if src is None:
                t = c16.text(r)
                src, text = json.dumps(t, ensure_ascii=r.random() < 0.5), t
            define(r.choice(["() => (%s)", "function () { return %s; }", "function () { return (() => (%s))(); }"]) % src)
            return self.call(p, f, [], lambda ev, n: text)
        if kind == "count":
            define("k => { total++; return k + (counts[k] = (counts[k] || 0) + 1) }")
            k = "%d." % self.uid()
            state = Counter([0])

            def fn(ev, n):
                state[0] += 1
                return "%s%d" % (k, state[0])
            return self.call(p, f, [("str", k)], fn)
        if kind == "who":
            names = ["g_" + q.dep for q in self.plugs] + ["g_other"]
            define("() => [mine, %s].join()" % ", ".join("typeof globalThis.%s, Array.%s" % (n, n) for n in names))
            text = ",".join([p.dep] + [x for n in names for x in (("number", "1") if n == "g_" + p.dep else ("undefined", ""))])
            return self.call(p, f, [], lambda ev, n: text)
        var = "jv%d" % self.uid()
        have = sorted({v for f in scope for v in f if re.fullmatch(r"jv\d+", v)})
        here = sorted(v for v in scope[-1] if re.fullmatch(r"jv\d+", v))
        if here and r.random() < 0.25:
            var = r.choice(here)  # Set again in its scope: from now on it has the new value.
        elif have and r.random() < 0.1:
            var = r.choice(have)
        self.was_set.append(var)
        if kind == "lit":
            v = large(r) if r.random() < 0.08 else S.G.Gen.value(self) if r.random() < 0.3 else c16.value(r)
            t = json.dumps(v, ensure_ascii=r.random() < 0.5)
            if not c16.same(json.loads(t), v) or "-0.0" in t:
                return None
            src = r.choice(["JSON.parse(%s)" % json.dumps(t, ensure_ascii=r.random() < 0.5), "(%s)" % t.replace('"__proto__":', '["__proto__"]:')])
            if r.random() < 0.3:
                # Properties and items which JSON leaves out, or makes null.
                form, wrap = r.choice([
                    ("({nope: undefined, in: %s})", 0), ("({in: %s, [Symbol('s')]: 2, z: undefined})", 0), ("({in: %s, g: Symbol('g'), h: 5n})", 0), ("({get in() { return %s }})", 0), ("Object.assign(Object.create({inherited: 1}), {in: %s})", 0),
                    ("Object.defineProperty({in: %s}, 'hidden', {value: 1})", 0), ("new (class { #own = 1; in = %s; method() { } static s = 1 })", 0), ("[undefined, %s]", 1), ("(a => { a[1] = %s; return a })([])", 1), ("[Symbol('a'), %s, undefined]", 2)])
                src = form % src
                v = [{"in": v}, [None, v], [None, v, None]][wrap]
            define("k => { STUART.set(k, %s) }" % src)
            scope[-1][var] = v

            def fn(ev, n):
                ev.frames[-1][var] = v
                return ""
            return self.call(p, f, [("str", var)], fn)
        if kind == "move":
            define("(to, from) => { STUART.set(to, STUART.get(from)) }")
            c = self.paths(scope, lambda v: True)
            if not c:
                return None
            q, example = r.choice(c)
            scope[-1][var] = example

            def fn(ev, n):
                v = ev.lookup(q)
                if v is not MISSING:
                    ev.frames[-1][var] = v
                return ""
            return self.call(p, f, [("str", var), ("str", q)], fn)
        define("(k, v) => { STUART.set(k, v) }")
        a, value = self.arg(scope)
        if a[0] == "var":
            ex = [v for q, v in self.paths(scope, lambda v: True) if q == a[1]][0]
        else:
            ex = a[1]
        scope[-1][var] = ex

        def fn(ev, n):
            ev.frames[-1][var] = value(ev)
            return ""
        return self.call(p, f, [("str", var), a], fn)

    def make_plain(self):
        """Calls some functions without the name of their plugin."""
        for (pn, f), calls in self.kinds.items():
            if f not in BUILTINS and sum(f == n for q in self.plugs for n, _ in q.fns) == 1:
                for c in calls:
                    if self.rng.random() < 0.5:
                        c.name = f


class Counter(list):
    """What the model of a plugin function has counted so far."""


def make_plugs(r):
    names = r.sample(PLUGIN_NAMES, r.randint(1, 3))
    plugs = [JsPlug(["d%d", "dep_%d", "z%d"][i % 3] % i, n, [], r) for i, n in enumerate(names)]
    return plugs


def install_plugs(ctx, proj, plugs):
    r = ctx.rng
    deps = []
    for i, p in enumerate(plugs):
        d = r.choice(["", "plugins/", "../lib/"])
        f = "plugin-%d.%s" % (i, r.choice(["js", "js", "mjs"]))
        full = os.path.normpath(os.path.join(proj, d + f))
        write_tree(os.path.dirname(full), {f: p.source([q for q in plugs if q is not p])})
        deps.append((p.dep, full if r.random() < 0.2 else d + f))
    r.shuffle(deps)
    return "\n[dependencies]\n" + "".join('"%s" = "%s"\n' % d for d in deps)


def run(ctx, args, cwd, asan=False, wall=90, cpu=20):
    env = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:symbolize=0:detect_stack_use_after_return=1"} if asan else {}
    r = ctx.run(args, cwd=cwd, exe=ctx.asan if asan else None, extra_env=env, wall=wall, cpu=cpu)
    if b"AddressSanitizer" in r.err and b"stack-overflow" not in r.err:
        i = r.err.index(b"AddressSanitizer")
        raise Violation("memory-error", "AddressSanitizer reports: " + r.err[i:i + 900].decode("utf-8", "replace"))
    ctx.feature("asan-runs" if asan else "plain-runs")
    return r


def rich(ctx):
    r = ctx.rng
    plugs = make_plugs(r)
    g = JGen(r, plugs, {"section": 0.7, "for": 1.5, "if": 1.2})
    site, _ = S.rich_site(ctx, g)
    g.make_plain()
    for p in plugs:
        have = {f for f, _ in p.defs}
        assert have >= {f for f, _ in p.fns if f in have}
    settings = {"strip_extensions": r.random() < 0.6, "save_data_files": r.random() < 0.4, "save_metadata": r.random() < 0.6}
    # The model's own counters: evaluate afresh.
    reset(g)
    pages = expected_pages(site, ctx)
    return plugs, g, site, pages, settings


def reset(g):
    for calls in g.kinds.values():
        for c in calls:
            for cell in c.fn.__closure__ or ():
                if isinstance(cell.cell_contents, Counter):
                    cell.cell_contents[0] = 0


def sc_values(ctx):
    r = ctx.rng
    plugs, g, site, pages, settings = rich(ctx)
    try:
        want = output_tree(site, settings["strip_extensions"], settings["save_data_files"], {}, (), pages)
    except BuildError:
        raise Discard()
    proj = ctx.path("p")
    os.makedirs(proj)
    deps = install_plugs(ctx, proj, plugs)
    write_project(proj, site, {}, settings)
    write_tree(proj, {"stuart.toml": manifest(**settings) + deps})
    asan = r.random() < 0.1
    res = ctx.no_crash(run(ctx, ["-q", "build"], proj, asan))
    ctx.require(res.rc == 0, "unexpected-failure", lambda: "a valid project with JavaScript plugins fails to build: " + res.errtext()[:700])
    got = read_tree(os.path.join(proj, "dist"))
    d = diff_trees(want, got)
    ctx.require(d is None, "output", lambda: "the output of a site with JavaScript plugins: %s" % d)
    if settings["save_metadata"]:
        m = c16.strict(open(os.path.join(proj, "metadata.json"), "rb").read())
        c16.compare(ctx, m["data"], c16.expected(site, {}, {}, set(), set()), {p for p in site.files if p.rsplit("/", 1)[-1] in ("root.html", "md.html")})
    kinds = {(p.name, f): k for p in plugs for f, k in p.fns}
    n = 0
    for key, calls in g.kinds.items():
        ctx.feature("kind-" + kinds[key], len(calls))
        n += len(calls)
    ctx.observed(1, (sorted(want.items(), key=str), [p.defs for p in plugs]), calls=n, plugins=len(plugs), functions=sum(len(p.defs) for p in plugs))
    ctx.sample = {"functions": [d for p in plugs for d in p.defs][:6], "calls": [c.name for cs in g.kinds.values() for c in cs][:8]}
    if r.random() < 0.1:
        # The same plugins are used for all iterations.
        k = r.randint(2, 4)
        shutil.rmtree(os.path.join(proj, "dist"))
        res = ctx.no_crash(run(ctx, ["bench", "-i", str(k)], proj, asan))
        ctx.require(res.rc == 0, "unexpected-failure", lambda: "bench of a valid project with JavaScript plugins fails: " + res.errtext()[:700])
        if not any(kinds[key] == "count" for key in g.kinds):
            d = diff_trees(want, read_tree(os.path.join(proj, "dist")))
            ctx.require(d is None, "output", lambda: "the output of bench with JavaScript plugins: %s" % d)
            ctx.observed(1, ("bench", k), bench=1)


# ---------------------------------------------------------------------------------------------------------------------

THROWS = [  # source, text in the message
    ("throw new Error('MSG')", "Error: MSG"), ("throw 'MSG'", "MSG"), ("throw {toString() { return 'MSG' }}", "MSG"), ("throw ['MSG', 2]", "MSG,2"), ("throw new RangeError(`MSG`)", "RangeError: MSG"), ("throw null", None), ("throw undefined", None), ("throw 0", None), ("throw Symbol('MSG')", None),
    ("throw {toString() { throw 1 }}", None), ("throw Object.create(null)", None), ("return Symbol('x')", None), ("return Object.create(null)", None), ("return {toString() { throw new Error('MSG') }}", "MSG"), ("return {toString() { return {} }, valueOf() { return {} }}", None), ("return [Symbol()]", None),
    ("undefinedFunction()", "undefinedFunction is not defined"), ("null.x", None), ("(function f() { f() })()", "RangeError"), ("STUART.nothing()", None), ("STUART.set('k', {get x() { throw new Error('MSG') }})", "MSG"), ("STUART.set({toString() { throw new Error('MSG') }}, 1)", "MSG"), ("STUART.get({toString() { throw new Error('MSG') }})", "MSG"),
    ("STUART.set('k', new Proxy({}, {ownKeys() { throw new Error('MSG') }}))", "MSG"), ("STUART.set('k', [1, {a: [{get b() { throw new Error('MSG') }}]}])", "MSG"), ("JSON.parse('{')", "SyntaxError"), ("STUART.get(Symbol('MSG'))", None), ("STUART.set('k', 1); throw new Error('MSG')", "MSG"), ("eval('{{{')", "SyntaxError"), ("const a = []; a.length = -1", "RangeError"),
    ("try { STUART.get({toString() { throw 1 }}) } finally { throw new Error('MSG') }", "MSG"), ("return (x => { throw new Error('MSG') })()", "MSG"), ("return new Proxy({}, {get() { throw new Error('MSG') }})", "MSG"), ("return `${Symbol()}`", "TypeError"), ("import.meta.x.y", None), ("return 5n + 5", "TypeError"), ("STUART = null; STUART.get('x')", None),
]
NOT_FUNCTIONS = ["5", "'text'", "null", "undefined", "{}", "[]", "Symbol()", "true", "new Proxy({}, {})", "Promise.resolve()", "/x/", "10n"]
BAD_MODULES = [
    "export default {{{", "export default", "return 1", "export default {name: 'p', version: '1', functions: [}", "let a; let a; export default {}", "await", "\x00", "import", "export default {name: 'p' version: '1'}", "'use strict'; with ({}) {}", "export default {name:'p',version:'1',functions:[]}; export default 2", "<html>", "{\"a\": }", "export {nothing}",
    "", "export const name = 'p'", "module.exports = {name: 'p', version: '1', functions: []}", "export default undefined", "export default null", "const x = {name: 'p', version: '1', functions: []};", "export default {name: 'p', version: '1'}", "export default {name: 'p', version: '1', functions: null}", "export default {name: 'p', version: '1', functions: [null]}", "export default {name: 'p', version: '1', functions: [undefined]}",
    "throw new Error('x'); export default {name: 'p', version: '1', functions: []}", "export default {name: 'p', version: '1', functions: []}; throw new Error('x')", "export default {name: 'p', version: '1', functions: []}; await Promise.reject(1)", "export default {name: 'p', version: '1', functions: []}; nothing.x", "export default {name: 'p', version: '1', functions: []}; (function f() { f() })()",
    "export default {get name() { throw 1 }, version: '1', functions: []}", "export default {name: 'p', get version() { throw 1 }, functions: []}", "export default {name: 'p', version: '1', get functions() { throw 1 }}", "export default {name: 'p', version: '1', functions: {length: Symbol()}}", "export default {name: 'p', version: '1', functions: {get length() { throw 1 }}}",
    "export default {name: 'p', version: '1', functions: {length: {valueOf() { throw 1 }}}}", "export default {name: 'p', version: '1', functions: {length: 4294967295}}", "export default {name: 'p', version: '1', functions: {length: -1}}", "export default {name: 'p', version: '1', functions: {length: 2, 0: {name: 'a', fn() {}}}}", "export default {name: 'p', version: '1', functions: {length: 1n}}",
    "export default {name: 'p', version: '1', functions: [{get name() { throw 1 }}]}", "export default {name: 'p', version: '1', functions: [{name: 'f', get fn() { throw 1 }}]}", "export default new Proxy({}, {get() { throw 1 }})", "export default {name: 'p', version: '1', functions: new Proxy([1], {get(t, k) { if (k === 'length') return 1; throw 2 }})}", "const p = Proxy.revocable({}, {}); p.revoke(); export default p.proxy",
    "export default {name: 'p', version: '1', functions: [{name: 'f', fn() { }},, {}]}", b"export default {name: 'p', version: '\xff', functions: []}", b"\xfe\xff\x00e", "export default STUART.get('x')", "STUART.set('a', 1); export default {name: 'p', version: '1', functions: []}",
]


def sc_failures(ctx):
    r = ctx.rng
    plugs, g, site, pages, settings = rich(ctx)
    p0 = plugs[0]
    proj = ctx.path("p")
    os.makedirs(proj)
    try:
        want = output_tree(site, settings["strip_extensions"], settings["save_data_files"], {}, (), pages)
    except BuildError:
        raise Discard()
    # A plugin of its own with the functions that fail.
    throws = r.sample(THROWS, 5)
    nots = r.sample(NOT_FUNCTIONS, 3)
    msg = "message %d é\u2028" % r.randrange(10**6)
    failing = [("t%d" % i, r.choice(["() => { %s }", "function () { %s }", "(...a) => { const q = () => { %s }; return q() }"]) % s.replace("MSG", msg), None if t is None else t.replace("MSG", msg)) for i, (s, t) in enumerate(throws)]
    failing += [("n%d" % i, s, "not a function") for i, s in enumerate(nots)]
    failing += [("ok", "(...a) => enc(a)", None)]
    bad = PRELUDE + "export default {name: 'failing', version: '1', functions: [%s]}" % ", ".join("{name: '%s', fn: %s}" % x[:2] for x in failing)
    deps = install_plugs(ctx, proj, plugs) + '"failing" = "failing.js"\n'
    write_project(proj, site, {}, settings)
    write_tree(proj, {"stuart.toml": manifest(**settings) + deps, "failing.js": bad})
    if r.random() < 0.6:
        res = ctx.no_crash(run(ctx, ["-q", "build"], proj))
        ctx.require(res.rc == 0, "unexpected-failure", lambda: "a valid project with JavaScript plugins fails to build: " + res.errtext()[:700])
    before = read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)
    seen = S.rendered(site, ctx)
    for _ in range(r.randint(2, 6)):
        kind = r.choice(["call", "call", "call", "args", "module", "module"])
        changes, text, where = {}, None, None
        if kind in ("call", "args"):
            path = r.choice(S.used_templates(site, pages) + sorted(pages))
            f = site.files[path]
            pos = S.positions(f, seen)
            if not pos:
                continue
            lst, i, chain = r.choice(pos)
            if kind == "call":
                name, body, text = r.choice(failing[:-1])
                src = "{{ failing::%s(%s) }}" % (name, r.choice(["", '"x"', "5"]))
                what = src + " with " + body
            else:
                src, text = r.choice([("{{ failing::ok($undefined_zz) }}", "undefined_zz"), ("{{ failing::ok(1, $undefined_zz, 2) }}", "undefined_zz"), ("{{ failing::nope() }}", "failing::nope"), ("{{ other::ok() }}", "other::ok"), ("{{ %s::ok(1) }}" % p0.name, p0.name + "::ok") if "ok" not in {n for n, _ in p0.defs} else ("{{ ok::failing() }}", "ok::failing"), ("{{ failing::failing::ok() }}", None), ("{{ failing:ok() }}", None), ("{{ failing::ok(for) }}", None)])
                what = src
            v = Verbatim(src)
            lst.insert(i, v)
            changes["content/" + path] = c11.plain_source(f, lambda line: Writer(None, line))
            lst.remove(v)
            where = "content/" + path
        else:
            m = r.choice(BAD_MODULES)
            changes["failing.js"] = m if isinstance(m, bytes) else m.encode()
            text, what = "Plugins failed to load", "the module %r" % m
        a = c11.Applied(proj, changes)
        res = ctx.no_crash(run(ctx, ["-q", "build"], proj))
        a.revert()
        ctx.require(res.rc == 1, "unexpected-success", lambda: "the build succeeds in spite of %s" % what)
        err = res.errtext()
        ctx.require("error:" in err, "silent-failure", lambda: "no error is printed for %s" % what)
        if text is not None:
            ctx.require(text in err, "message", lambda: "the message for %s does not contain %r: %s" % (what, text, err[:500]))
        if where is not None:
            ctx.require(where in err, "file", lambda: "the message for %s does not name the file: %s" % (what, err[:500]))
        now = read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)
        d = diff_trees(before[0], now[0])
        ctx.require(d is None and before[1] == now[1], "output-changed", lambda: "the previous output after a failure (%s): %s" % (what, d))
        ctx.observed(1, (kind, tuple(changes.items())), **{"failure-" + kind: 1})
        ctx.sample = {"failure": what[:300], "message": err[:300]}
    res = ctx.no_crash(run(ctx, ["-q", "build"], proj))
    ctx.require(res.rc == 0, "unexpected-failure", lambda: "the corrected project fails to build: " + res.errtext()[:700])
    d = diff_trees(want, read_tree(os.path.join(proj, "dist")))
    ctx.require(d is None, "output", lambda: "the output of the corrected site: %s" % d)
    ctx.observed(1, None, corrected=1)


# ---------------------------------------------------------------------------------------------------------------------

def thrower(r):
    return r.choice(["throw 1", "throw new Error('h')", "throw Symbol()", "throw null", "return {}", "return 5", "return Symbol()", "return null", "return undefined", "delete globalThis.STUART", "STUART.set('h', this)", "return STUART.get('site')", "return saved.get('site')", "saved.set('q', 1)"])


def hostile(r, depth=0):
    """A JavaScript expression with a strange value."""
    sub = lambda: hostile(r, depth + 1) if depth < 4 else r.choice(["1", "'x'", "null", "[]", "{}"])
    return r.choice([
        lambda: "undefined", lambda: "null", lambda: "Symbol('s')", lambda: "Symbol.iterator", lambda: "10n", lambda: "NaN", lambda: "-Infinity", lambda: "-0", lambda: "'\\ud800'", lambda: "''", lambda: "'\\0'", lambda: "() => 1", lambda: "class A {}", lambda: "async function* () {}", lambda: "globalThis", lambda: "STUART", lambda: "STUART.set", lambda: "Function.prototype", lambda: "new Date(NaN)", lambda: "/x/", lambda: "document_all",
        lambda: "[%s, %s]" % (sub(), sub()), lambda: "[,%s,,]" % sub(), lambda: "({a: %s, b: %s})" % (sub(), sub()), lambda: "({get a() { %s }})" % thrower(r), lambda: "({toString() { %s }, valueOf() { %s }})" % (thrower(r), thrower(r)), lambda: "({[Symbol.toPrimitive]() { %s }})" % thrower(r), lambda: "({toJSON() { %s }})" % thrower(r), lambda: "({['__proto__']: %s})" % sub(), lambda: "Object.create(%s)" % r.choice(["null", "[]", "Function.prototype", "{get x() { throw 1 }}"]),
        lambda: "new Proxy(%s, {%s() { %s }})" % (r.choice(["{}", "[]", "[1,2]", "() => 1", "{a: 1}", "class {}"]), r.choice(["get", "ownKeys", "has", "getOwnPropertyDescriptor", "getPrototypeOf", "apply", "set", "isExtensible", "construct"]), thrower(r)), lambda: "new Proxy(%s, {get(t, k) { return k === 'length' ? %s : t[k] }})" % (r.choice(["[]", "[1]", "{}"]), r.choice(["3", "-1", "'2'", "Symbol()", "{valueOf() { throw 1 }}", "NaN", "null"])),
        lambda: "(() => { const p = Proxy.revocable(%s, {}); p.revoke(); return p.proxy })()" % r.choice(["{}", "[]", "() => 1"]), lambda: "(() => { const a = [1]; a.push(a); return a })()", lambda: "(() => { const a = {}; a.a = {b: [a]}; return a })()", lambda: "Object.freeze(%s)" % sub() if r.random() < 0.5 else "Object.seal([1, 2])", lambda: "new Map([[%s, 1]])" % sub(), lambda: "new Set([1])", lambda: "new WeakRef({})", lambda: "new Uint8Array(%d)" % r.choice([0, 3, 1000]), lambda: "new ArrayBuffer(8)", lambda: "new DataView(new ArrayBuffer(8))", lambda: "new Float64Array([NaN, -0])", lambda: "(function () { return arguments })(1, 2)",
        lambda: "Object.assign([1, 2], {x: %s, length: 1})" % sub(), lambda: "Object.defineProperty([], 'length', {value: 3, writable: false})", lambda: "Object.defineProperty({}, 'x', {get() { %s }, enumerable: true})" % thrower(r), lambda: "nested(%d, %s)" % (r.choice([10, 255, 256, 257, 1000, 50000]), r.choice(["a => [a]", "a => ({a})", "a => [a, a.length ? 1 : a]"])), lambda: "'x'.repeat(%d)" % r.choice([10, 10**6]), lambda: "new Array(%d)" % r.choice([0, 5, 10000]), lambda: "new String('box')", lambda: "Object(Symbol('b'))", lambda: "Object(1n)", lambda: "new Error('e', {cause: %s})" % sub(), lambda: "Promise.reject(1)", lambda: "(function* () { yield 1 })()",
        lambda: "import.meta", lambda: "new Proxy(STUART.set, {})", lambda: "STUART.get('self')", lambda: "STUART.get('env')", lambda: "STUART.get(%s)" % sub(), lambda: "Reflect", lambda: "Intl", lambda: "new Intl.NumberFormat()" if False else "WebAssembly", lambda: "new SharedArrayBuffer(8)", lambda: "{}.x", lambda: "[].concat(%s)" % sub(), lambda: "Object.entries(%s)" % sub(),
    ])()


def statement(r):
    e = hostile(r)
    return r.choice([
        "STUART.set('a', %s);", "STUART.set(%s, 1);", "STUART.set('b', [%s]);", "STUART.get(%s);", "STUART.set('c', STUART.get(%s));", "saved.set('d', %s);", "try { STUART.set('e', %s) } catch (x) { STUART.set('f', x) }", "STUART.set.call(%s, 'g', 1);", "Reflect.apply(STUART.get, null, [%s]);", "new STUART.set('h', %s);", "STUART.x = %s;", "globalThis.STUART = %s;", "Object.freeze(globalThis.STUART); STUART.set('i', %s);",
        "Object.defineProperty(globalThis, '_stuart_' + ['f', 'g', 'h'][Math.floor(%d)], {get() { %s }, configurable: true}); (%%s);" % (r.randrange(3), thrower(r)), "globalThis._stuart_g = %s;", "Object.defineProperty(Object.prototype, 'a', {set() { throw 1 }, get() { return saved }, configurable: true}); (%s);", "Object.defineProperty(Array.prototype, '0', {set() { throw 1 }, configurable: true}); (%s);", "Object.setPrototypeOf(globalThis, %s);", "Promise.resolve().then(() => { STUART.set('late', %s) });", "Promise.resolve(%s).then(x => { saved.get('a'); throw x });", "queue.push(%s); queue.map(x => STUART.set('q', x));", "throw %s;", "return %s;", "return [%s];", "delete globalThis.STUART; (%s);", "Array.prototype.toString = () => { throw 1 }; (%s);",
        "Object.defineProperty(globalThis, 'STUART', {get() { %s }, set() { %s }, configurable: true}); (%%s);" % (thrower(r), thrower(r)), "String(%s);", "JSON.stringify(%s);", "Object.prototype.toJSON = %s;", "Object.preventExtensions(globalThis); (%s);",
    ]) % ("(" + e + ")")


def sc_hostile(ctx):
    """Whatever JavaScript does, the build ends by itself."""
    r = ctx.rng
    body = lambda: " ".join(statement(r) for _ in range(r.choice([1, 1, 2, 3])))
    pre = "var saved = {get() {}, set() {}}, queue = [], document_all = undefined;\nconst nested = (n, f) => { let a = []; for (let i = 0; i < n; i++) a = f(a); return a };\n"
    fns = ["{name: %r, fn: function (...args) { if (saved.n === undefined) saved = STUART; %s }}" % (n, body()) for n in "fgh"]
    if r.random() < 0.15:
        fns[r.randrange(3)] = hostile(r)
    functions = "[%s]" % ", ".join(fns)
    name, version = "'p'", "'1'"
    x = r.random()
    if x < 0.05:
        name = hostile(r)
    elif x < 0.1:
        version = hostile(r)
    elif x < 0.15:
        functions = hostile(r)
    src = pre + ("try { %s } catch (e) { }\n" % statement(r).replace("return ", "") if r.random() < 0.2 else "") + "export default {name: %s, version: %s, functions: %s};\n" % (name, version, functions)
    if r.random() < 0.05:
        src += "await (%s);\n" % hostile(r)
    calls = "".join(r.choice(["{{ p::%s() }}", "{{ %s() }}", "{{ %s($j) }}", "{{ %s($a) }}", '{{ %s("a", 5) }}', "{{ for($x, $j.l) }}{{ %s($x) }}{{ end(for) }}"]) % r.choice("fgh") for _ in range(r.randint(1, 4)))
    after = r.choice(["", "{{ ifdefined($a) }}A{{ end(ifdefined) }}", "{{ ifdefined($a) }}{{ f($a) }}{{ end(ifdefined) }}"])
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": manifest(save_metadata=True, strip_extensions=False) + '\n[dependencies]\np = "p.js"\n', "p.js": src, "content/j.json": json.dumps({"__proto__": {"x": 1}, "l": [1, "x", None, {"a": []}], "constructor": "c", "0": 1}), "content/root.html": "{{ insert(\"body\") }}", "content/index.html": '{{ begin("body") }}{{ import($j, "j.json") }}' + calls + after + '{{ end("body") }}', "content/z.html": '{{ begin("body") }}z{{ end("body") }}'})
    asan = r.random() < 0.3
    res = run(ctx, ["-q", "build"], proj, asan, wall=60, cpu=15)
    if res.timeout or res.stuck or res.rc == -24 or res.rc == -9:
        raise Inconclusive("a hostile program used up its time")
    ctx.no_crash(res)
    err = res.errtext()
    ctx.require(res.rc == 0 or "error:" in err, "silent-failure", lambda: "the build fails without printing an error: %s" % src[-900:])
    ctx.require((res.rc == 0) == os.path.exists(os.path.join(proj, "dist", "z.html")), "no-output", lambda: "exit code %d, but dist/z.html %s" % (res.rc, "exists" if res.rc else "is missing"))
    ctx.observed(1, src + calls, **{"hostile-rc%d" % res.rc: 1, "hostile-load-failure" if "failed to load" in err else "hostile-ran": 1})
    ctx.sample = {"plugin": src[-500:], "calls": calls, "rc": res.rc, "stderr": err[:200]}


SCENARIOS = [Scenario("values", sc_values, 1000, 20000), Scenario("failures", sc_failures, 200, 4000), Scenario("hostile", sc_hostile, 2000, 40000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2.5, 2.5
