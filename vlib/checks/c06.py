"""C06: variables and scopes."""
from ..common import *

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared with a reference model of scopes; probes for variables where they must not be visible"
RULE = ("random sites of many pages whose nested scopes import, bind, shadow and probe a handful of names everywhere, including probes in root templates, markdown bodies, md.html and other pages that would reveal any leak (scopes); "
        "every leaf of random JSON values by its path (paths); elements of long arrays and members of large objects, beyond 255, 65535, 2^32 and 2^64 (long); environments with all kinds of names and values (environment); and uses that have to fail, in every kind of place (invalid); "
        "an observation is a page compared byte for byte with the reference model, or a build that has to fail; distinct by source")
ASSUMPTIONS = ["left open and not generated: duplicate keys of an object"]

POOL = ["a", "b", "c", "post", "x_1", "ü"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


class Scopes(G.Gen):
    """Bodies that mostly define, shadow and probe the names of the pool."""

    def name(self, scope, fresh=False):
        free = [n for n in POOL if n not in scope[-1]]
        return self.rng.choice(free) if free else "v%d" % self.uid()

    def probe(self):
        r = self.rng
        out = []
        for n in r.sample(POOL, r.randint(1, len(POOL))) + ["self"] * (r.random() < 0.2) + ["env"] * (r.random() < 0.1):
            p = n + r.choice(["", "", ".name", ".tag", ".items"])
            # Text if it is a string: tell which of the definitions is seen.
            out += [Raw(p + "="), IfDef(p, [Raw("def")], [Raw("undef")])]
        out.append(Raw(";"))
        return out

    def n_probe(self, scope, depth):
        return self.probe()

    def n_tag(self, scope, depth):
        vis = [n for n in self.visible(scope) if n in POOL]
        out = []
        for n in vis:
            v = self.visible(scope)[n]
            if isinstance(v, dict) and isinstance(v.get("tag"), str):
                out += [Raw("%s:" % n), Var(n + ".tag")]
            elif isinstance(v, str):
                out += [Raw("%s:" % n), Var(n)]
        return out or None


def sc_scopes(ctx):
    r = ctx.rng
    g = Scopes(r, {"raw": 1, "var": 1, "probe": 4, "tag": 3, "import": 3, "for": 2.5, "if": 2, "ifdef": 2, "section": 2, "excerpt": 0, "ttr": 0}, max_depth=r.choice([3, 4, 6]), plain=True)
    files = {}
    for i in range(4):
        v = {"tag": "file%d" % i, "name": "n%d" % i, "items": ["i%d.%d" % (i, j) for j in range(r.randint(0, 3))], "sub": {"tag": "sub%d" % i}}
        files["f%d.json" % i] = Json(v)
        g.objects.append("f%d.json" % i)
        g.values["f%d.json" % i] = v
    for i in range(2):
        v = [{"tag": "el%d.%d" % (i, j), "items": ["e%d" % j]} for j in range(r.randint(1, 3))]
        files["l%d.json" % i] = Json(v)
        g.arrays.append("l%d.json" % i)
        g.values["l%d.json" % i] = v
    rs = [{}]
    files["root.html"] = Html(G.merge([Raw("<")] + g.probe() + [Insert("body")] + g.probe() + [Import("c", "f0.json")] + g.probe() + [Insert("body"), Raw(">")]))
    files["sub/root.html"] = Html(G.merge([Insert("body"), Raw("/")] + g.probe() + [If("eq", ("int", 1), ("int", 1), [Import("a", "f1.json")] + g.probe())] + g.probe()))
    for i in range(10):
        scope = [{}]
        body = []
        if r.random() < 0.5:
            body += [x for x in [g.n_import(scope, 0)] if x]
        scope.append({})
        inner = g.probe() + g.body(scope, 1, r.randint(2, 4)) + g.probe()
        scope.pop()
        body += [Section("body", inner)]
        if r.random() < 0.6:
            body.append(Section("last", g.probe()))
        files[r.choice(["p%d.html", "sub/p%d.html"]) % i] = Html(G.merge(body), g.style(0.3))
    if r.random() < 0.5:
        files["md.html"] = Html(G.merge([Section("body", g.probe() + [Var("self.content"), Raw("|")] + g.probe())]))
        for i in range(2):
            scope = [{}]
            files["m%d.md" % i] = Md([("tag", "md%d" % i)], G.merge(g.probe() + [Raw("\n\n")] + g.body(scope, 2, 2) + [Raw("\n\n")] + g.probe()))
    build_and_compare(ctx, Site(files), "scope")


def sc_paths(ctx):
    """Paths into random values."""
    r = ctx.rng
    g = G.Gen(r)
    v = [g.value(-1) for _ in range(3)] + [{"list": [[1, ["in"]], {"k": ["x", "y"]}], "null": None, "e": {"": 1}, "long": ["%d" % i for i in range(12)]}]
    files = {"root.html": ROOT, "v.json": Json(v, g.json_text(v)), "o.json": Json({"o": v, "s": "str"})}
    for n, f in (("p", "v.json"), ("q", "o.json")):
        body = [Import("a", f)]
        value = v if f == "v.json" else {"o": v, "s": "str"}
        for p, x in G.leaves(value, "a"):
            q = p + r.choice(["", "", "", ".missing", ".name", ".x.y"] + [".0", ".99", ".18446744073709551616"])
            body += [Raw("\n" + q + "="), IfDef(q, [Raw("D")], [Raw("U")])]
            if isinstance(x, str):
                body.append(Var(p))
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                body.append(If("eq", ("var", p), ("var", p), [Raw("num")], [Raw("?")]))
        files[n + ".html"] = Html(merge_section(body))
        n += "2"
        body = [For("i", ("json", "v.json") if f == "v.json" else ("json", "v.json"), [Raw("("), IfDef("i", [Raw("D")], [Raw("U")]), IfDef("i.0" if not any(isinstance(x, dict) for x in v) else "i.x", [Raw("D")], [Raw("U")]), IfDef("i.title", [Raw("D")], [Raw("U")]), Raw(")")])]
        files[n + ".html"] = Html(merge_section(body))
    build_and_compare(ctx, Site(files), "path")


def sc_long(ctx):
    """Indices into long arrays, and members of large objects."""
    r = ctx.rng
    n = r.choice([11, 100, 101, 255, 256, 257, 258, 300, 512, 1000, 1001] + [65535, 65536, 65537, 70000] * (ctx.index % 4 == 0))
    v = {"l": ["e%d" % i for i in range(n)], "deep": [[{"k": ["d%d.%d" % (i, j) for j in range(3)]}] for i in range(min(n, 400))], "o": {"k%d" % i: "m%d" % i for i in range(min(n, 600))}}
    body = [Import("a", "v.json")]
    some = {0, 1, 9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 299, 511, 512, 65535, 65536, n - 1, n, n + 1, 2 * n, n - 2, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 64, 2 ** 64 + 1} | {r.randrange(n + 3) for _ in range(10)}
    for i in sorted(some):
        for p, have in (("a.l.%d" % i, i < n), ("a.deep.%d.0.k.%d" % (i, i % 3), i < len(v["deep"])), ("a.o.k%d" % i, i < len(v["o"]))):
            body += [Raw("\n" + p + "="), IfDef(p, [Raw("D")], [Raw("U")])] + ([Var(p)] if have else [])
    build_and_compare(ctx, Site({"root.html": ROOT, "v.json": Json(v), "p.html": Html(merge_section(body))}), "long")


def sc_env(ctx):
    r = ctx.rng
    g = G.Gen(r)
    env = dict(ctx.base_env())
    names = ["MY_VAR", "lower", "_", "A1", "ÜBER", "名前", "STUART_OUT_DIR", "EMPTY", "x", "TITLE", "env", "USER", "CARGO", "RUST_BACKTRACE", "LANG"]
    for n in r.sample(names, r.randint(3, 9)):
        env[n] = r.choice(["", "value", "with space", "ünï", "{{ $x }}", "a=b", "line\nbreak", "<b>", "日本", "0", "x" * 5000, g.string()]).replace("\0", "")
    odd = {}
    for n in r.sample(["WITH-DASH", "a.b", "with space", "P%"], r.randint(0, 2)):
        odd[n] = "odd"
    seen = dict(env)
    given = {k.encode(): v.encode() for k, v in dict(env, **odd).items()}
    raw = []
    if r.random() < 0.5:
        given[b"STUART_ENV"] = r.choice([b"development", b"", b"production", b"\xff", b"other"])
    if r.random() < 0.5:
        n = r.choice([b"BROKEN", b"A\xff", b"bro\xc3"])
        given[n] = r.choice([b"\xff\xfe", b"caf\xe9"])
        raw.append("BROKEN")
    seen["STUART_ENV"] = "production"
    files = {"root.html": Html([Insert("body"), Raw("/"), Var("env.STUART_ENV")])}
    body = []
    for n in sorted(seen):
        if all(c.isalnum() or c == "_" for c in n):
            body += [Raw(n + "="), Var("env." + n), Raw(";")]
    for n in names + raw + ["NOT_THERE", "STUART_ENV2", "stuart_env", "WITH", "PATH.x"]:
        body += [Raw(n + "?"), IfDef("env." + n, [Raw("D")], [Raw("U")])]
    body += [If("eq", ("var", "env.STUART_ENV"), ("str", "production"), [Raw("PROD")], [Raw("OTHER")])]
    files["index.html"] = Html(merge_section(body))
    files["sub/other.html"] = Html(merge_section([Section("s", [If("eq", ("int", 1), ("int", 1), [Var("env.STUART_ENV")])])] + body[:6]))
    site = Site(files, env=seen)
    pages = expected_pages(site, drop=False)
    proj = ctx.path("p")
    write_project(proj, site)
    r_ = ctx.run(["-q", "build"], cwd=proj, env=given)
    ctx.no_crash(r_)
    ctx.require(r_.rc == 0, "environment-failure", lambda: "a build in an unusual environment fails: " + r_.errtext()[:500])
    compare_pages(ctx, site, pages, os.path.join(proj, "dist"), True, "environment")
    ctx.observed(len(pages), sorted(given.items()), variables=len(given))
    ctx.sample = {"environment": {k.decode("utf-8", "replace"): v.decode("utf-8", "replace")[:50] for k, v in given.items()}}


def sc_invalid(ctx):
    r = ctx.rng
    g = G.Gen(r, plain=True)
    d = {"s": "str", "n": 5, "f": 2.5, "nul": None, "b": True, "o": {"a": "b", "nul": None}, "l": ["p", None, 3, ["q"]], "e": [], "eo": {}}
    files = {"root.html": ROOT, "md.html": Html([Section("body", [Var("self.content")])]), "d.json": Json(d), "e.json": Json("x"), "list.json": Json(["p", "q"]), "deep.json": Json({"deep": {"l": ["p"], "n": 1}}), "notes.txt": Other(b"x"),
             "ok.html": Html([Section("body", [Raw("fine")])])}
    imp = Import("d", "d.json")
    kinds = {
        "undefined": lambda: ([], Var(r.choice(["nope", "nope.x", "D", "dd", "D.s", "self", "self.title", "environment"]))),
        "null": lambda: ([imp], Var(r.choice(["d.nul", "d.missing", "d.o.nul", "d.l.1", "d.l.9", "d.s.x", "d.s.0", "d.n.x", "d.e.0", "d.eo.x", "env.NOT_THERE", "d.O"]))),
        "type": lambda: ([imp], Var(r.choice(["d", "d.n", "d.f", "d.b", "d.o", "d.l", "d.e", "d.eo", "d.l.2", "d.l.3", "env"]))),
        "duplicate": lambda: ([Import("d", r.choice(["d.json", "e.json"]))] + r.choice([[], [Raw("x")], [If("eq", ("int", 1), ("int", 1), [Import("y", "d.json")])]]), imp),
        "import-missing": lambda: ([], Import("z", r.choice(["missing.json", "sub/d.json", "d", "D.json", "../content/d.json", "/d.json", "./../d.json"]))),
        "import-type": lambda: ([], Import("z", r.choice(["notes.txt", "ok.html", "root.html"]))),
        "left-section": lambda: ([Section("s", [Import("y", "e.json"), Var("y")])], Var("y")),
        "left-if": lambda: ([If("eq", ("int", 1), ("int", 1), [Import("y", "e.json"), Var("y")], [Raw("x")])], Var("y")),
        "left-else": lambda: ([If("eq", ("int", 1), ("int", 2), [Raw("x")], [Import("y", "e.json"), Var("y")])], Var("y")),
        "left-ifdefined": lambda: ([IfDef("env", [Import("y", "e.json"), Var("y")])], Var("y")),
        "left-loop": lambda: ([For("i", ("json", "list.json"), [Import("y", "e.json"), Var("y")])], Var("y")),
        "left-iteration": lambda: ([], For("i", ("json", "list.json"), [If("eq", ("var", "i"), ("str", "q"), [Var("y")]), Import("y", "e.json")])),
        "before": lambda: ([], [Var("y"), Import("y", "e.json")]),
        # An inner variable counts even where only the outer one of its name would do.
        "shadowed-list": lambda: ([Import("v", "list.json")], IfDef("env", [Import("v", r.choice(["e.json", "d.json"])), For("i", ("var", "v"), [Raw("x")])])),
        "shadowed-member": lambda: ([Import("v", "deep.json")], IfDef("env", [Import("v", r.choice(["e.json", "d.json"])), For("i", ("var", "v.deep.l"), [Raw("x")])])),
        "shadowed-tag": lambda: ([Import("v", "e.json")], If("eq", ("int", 1), ("int", 1), [Import("v", r.choice(["d.json", "list.json"])), Var("v")])),
        "shadowed-operand": lambda: ([Import("v", "deep.json")], For("w2", ("json", "list.json"), [Import("v", "d.json"), If("eq", ("var", "v.deep.n"), ("int", 1), [Raw("x")])])),
        "env-duplicate": lambda: ([], Import("env", "d.json")),
    }
    kind = r.choice(sorted(kinds))
    before, bad = kinds[kind]()
    nodes = [Raw("text ")] + before + [Raw(" more ")] + (bad if isinstance(bad, list) else [bad])
    place = r.choice(["page", "section", "root", "mdhtml", "md"])
    wrap = "none"
    if kind != "env-duplicate":
        wrap = r.choice(["none", "if", "loop", "section"])
        nodes = {"none": lambda b: b, "if": lambda b: [IfDef("env", b)], "loop": lambda b: [For("w", ("json", "list.json"), b)], "section": lambda b: [Section("inner", b)]}[wrap](nodes)
    elif place == "section":
        place = "page"
    if place == "mdhtml" and kind == "undefined":
        place = "page"
    if place == "page":
        files["p.html"] = Html(nodes + [Section("body", [])])
    elif place == "section":
        files["p.html"] = Html([Section("body", nodes)])
    elif place == "root":
        files["p/root.html"] = Html([Insert("body")] + nodes)
        files["p/p.html"] = Html([Section("body", [Import("y", "e.json"), Import("nope", "e.json")])])
    elif place == "mdhtml":
        files["p/md.html"] = Html(nodes + [Section("body", [])])
        files["p/p.md"] = Md([("title", "t")], [Raw("body")])
    else:
        files["p.md"] = Md([("title", "t")], nodes)
    site = Site(files)
    # The model must agree that it fails, and with what.
    try:
        expected_pages(site, ctx, drop=False)
        raise AssertionError("the model accepts %s: %r" % (kind, source(nodes)))
    except BuildError as e:
        want = e.kind
    except Unspecified:
        raise Discard()
    proj = ctx.path("p")
    write_project(proj, site)
    res = ctx.build_fails(proj, "%s (in %s, %s): %s" % (kind, place, wrap, source(nodes)))
    ctx.require(want in res.errtext(), "wrong-error", lambda: "the build fails, but not with %r: %s" % (want, res.errtext()[:500]))
    ctx.observed(1, (place, source(nodes)), **{kind: 1, "in-" + place: 1})
    ctx.sample = {"source": source(nodes), "place": place, "message": res.errtext()}


SCENARIOS = [Scenario("scopes", sc_scopes, 800, 9000), Scenario("paths", sc_paths, 500, 5000), Scenario("long", sc_long, 60, 600), Scenario("environment", sc_env, 400, 4000), Scenario("invalid", sc_invalid, 900, 8000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 10
