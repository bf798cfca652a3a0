"""C05: loops."""
from ..common import *

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared with a reference model of loops, with tripwires in loops that select nothing"
RULE = ("random sites whose pages nest loops over files, variables and markdown directories with random skip, limit, sortby and order (random); tables of all parameter combinations over arrays of 0 to 7 items with ties, "
        "numeric and string keys (matrix); loops that select nothing, over bodies that would fail or leave traces if any of it were executed (empty); markdown directories with hostile file names (markdown); "
        "and uses that have to fail (invalid); an observation is a page compared byte for byte with the reference model, or a build that has to fail; distinct by source and data")
ASSUMPTIONS = ["left open and not generated: sort keys of mixed types (strings and numbers)"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


def sc_random(ctx):
    r = ctx.rng
    g = G.Gen(r, {"for": 5, "if": 1, "ifdef": 1, "import": 1, "excerpt": 0, "ttr": 0, "section": 0.5}, max_depth=5, plain=r.random() < 0.4)
    files = g.data_files(4, 3)
    files["root.html"] = ROOT
    for i in range(16):
        scope = [{}]
        head = [x for x in (g.n_import(scope, 0) for _ in range(r.randint(0, 2))) if x]
        scope.append({})
        body = head + [Raw("[")] + [g.n_for(scope, 1) or Raw("")] + g.body(scope, 1, r.randint(0, 2)) + [Raw("]")]
        files["p%d.html" % i] = Html(merge_section(body), g.style())
    build_and_compare(ctx, Site(files), "loop")


STRS = ["a", "A", "b", "B", "aa", "ab", "Z", "z", "é", "e", "日", "10", "9", "1", " a", "", "_", "~", "zz", "É", "😀", "\uffff", "-"]
NUMS = [0, -0.0, 0.0, 1, 1.0, 2, 10, 9, 100, -1, -10, 2.5, 2.25, 1e10, 3, -0.5, 1e-3, 1000000, 2147483648, 4294967297, 9007199254740991]


def sc_matrix(ctx):
    """Every combination of parameters over one array."""
    r = ctx.rng
    n = r.choice([0, 1, 2, 2, 3, 3, 4, 5, 6, 7])
    kind = r.choice(["str", "num", "int", "ties", "ties"])
    pool = STRS if kind == "str" else NUMS if kind == "num" else list(range(-5, 30)) if kind == "int" else r.choice([r.sample(STRS, 2), r.sample(NUMS, 2)])
    deep = r.random() < 0.3
    if r.random() < 0.1:
        # More items than a byte counts.
        n = r.choice([255, 256, 257, 300, 513])
    if kind == "ties" and r.random() < 0.4:
        # Long enough for other algorithms of sorting.
        n = r.choice([21, 24, 33, 64, 65, 100, 150])
        pool = pool * 3 + r.choice([r.sample(STRS, 3) if isinstance(pool[0], str) else r.sample(NUMS, 3)])
    items = []
    keyless = r.random() < 0.3
    for i in range(n):
        k = r.choice(pool)
        items.append({"id": "i%d" % i, "k": {"x": [k]} if deep else k})
        if keyless and r.random() < 0.3:
            items[-1]["k"] = r.choice([None, True, False, [], {}, {"x": []}, {"x": [None]}, [1]])
            if r.random() < 0.4:
                del items[-1]["k"]
    key = "x.k.x.0" if deep else "x.k"
    where = r.choice(["json", "var", "var.deep", "direct"])
    if where == "direct":
        pool = [p for p in pool if isinstance(p, str)] or STRS
        items = [r.choice(pool) for _ in range(n)]
        key = "x"
    show = "x" if where == "direct" else "x.id"
    files = {"root.html": ROOT, "list.json": Json(items), "obj.json": Json({"a": [{"list": items}]})}
    pages = 0
    params = [None, 0, 1, 2, n - 1, n, n + 1, 2147483647] + [r.choice([254, 255, 256, 257, 258, 65535, 65536, 65537, 16777216])] * (n > 200)
    for sortby in (None, key):
        for order in (None, "asc", "desc"):
            body = []
            if where != "json":
                body += [Import("v", "list.json"), Import("o", "obj.json")]
            for skip in params:
                for limit in params:
                    if n > 20 and r.random() < (0.96 if n > 200 else 0.8):
                        continue
                    if (skip is not None and skip < 0) or (limit is not None and limit < 0):
                        continue
                    src = {"json": ("json", "list.json"), "var": ("var", "v"), "var.deep": ("var", "o.a.0.list"), "direct": r.choice([("json", "list.json"), ("var", "v")])}[where]
                    body += [Raw("%s/%s:" % (skip, limit)), For("x", src, [Var(show), Raw(";")], skip, limit, sortby, order), Raw("\n")]
            files["p%d.html" % pages] = Html(merge_section(body), G.RandomStyle(r) if r.random() < 0.3 else None)
            pages += 1
    site = Site(files)
    build_and_compare(ctx, site, "loop-parameters")
    ctx.keys.append(hashlib.blake2b(repr((items, where, key)).encode("utf-8", "replace"), digest_size=8).digest())
    ctx.feature("items", n)


def hostile(r, g, depth=0):
    out = []
    for _ in range(r.randint(1, 4)):
        k = r.choice(["var", "item", "import", "for", "okfor", "if", "ifelse", "ifdef", "section", "raw", "dup", "insert"])
        if k == "var":
            out.append(Var(r.choice(["nope", "nope.x", "d.missing", "d.n0"])))
        elif k == "item":
            out.append(Var("x.nothing"))
        elif k == "import":
            out.append(Import("z", "missing.json"))
        elif k == "dup":
            out += [Import("d", "d.json"), Import("d", "d.json")]
        elif k == "insert":
            out.append(Insert("missing"))
        elif depth >= 4:
            out.append(Raw("UNTAKEN%d" % g.uid()))
        elif k == "for":
            out.append(For("z", r.choice([("json", "missing.json"), ("var", "nope"), ("var", "x.list"), ("json", "d.json"), ("md", "missing/")]), hostile(r, g, depth + 1)))
        elif k == "okfor":
            out.append(For("z", ("json", "list.json"), hostile(r, g, depth + 1)))
        elif k in ("if", "ifelse"):
            out.append(If(r.choice(["eq", "ne", "gt"]), r.choice([("var", "nope"), ("int", 1)]), ("int", 1), hostile(r, g, depth + 1), hostile(r, g, depth + 1) if k == "ifelse" else None))
        elif k == "ifdef":
            out.append(IfDef(r.choice(["d", "nope", "x"]), hostile(r, g, depth + 1), hostile(r, g, depth + 1) if r.random() < 0.5 else None))
        elif k == "section":
            out.append(Section(r.choice(["body", "evil", "late"]), hostile(r, g, depth + 1)))
        else:
            out.append(Raw("UNTAKEN%d" % g.uid()))
    return out


def sc_empty(ctx):
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": Html([Insert("body"), Raw("|"), Insert("late")]), "d.json": Json({"name": "N", "n0": 5, "none": [], "obj": {"none": []}}), "none.json": Json([]),
             "list.json": Json(["p", "q", "s"]), "mds/only.html.txt": Other(b"x"), "mds/sub/x.md": Md([("title", "t")], [Raw("t")])}

    def empty(depth):
        src, skip, limit = r.choice([(("json", "none.json"), None, None), (("var", "d.none"), None, None), (("var", "d.obj.none"), 0, 5), (("json", "list.json"), 3, None),
                                     (("json", "list.json"), 99, None), (("json", "list.json"), None, 0), (("json", "list.json"), 1, 0), (("md", "mds/"), None, None),
                                     (("json", "list.json"), 3, 3)])
        return For("x", src, hostile(r, g), skip, limit, None, r.choice([None, "desc"]))

    def good(depth):
        out = [Raw("ok%d " % g.uid())]
        for _ in range(r.randint(1, 3)):
            x = r.random()
            if depth > 3 or x < 0.35:
                out.append(empty(depth))
            elif x < 0.5:
                out.append(For("y", ("json", "list.json"), [Var("y")] + good(depth + 1), limit=2))
            elif x < 0.6:
                out.append(If("eq", ("int", 1), ("int", 1), good(depth + 1), hostile(r, g)))
            elif x < 0.7:
                out.append(IfDef("zzz", hostile(r, g), good(depth + 1)))
            elif x < 0.8:
                out.append(Section("n%d" % g.uid(), good(depth + 1)))
            else:
                out += [IfDef("x", [Raw("LEAKED")], [Raw("-")])]
        out.append(Raw(" after%d " % g.uid()))
        return out
    for i in range(12):
        files["p%d.html" % i] = Html(G.merge([Section("body", [Import("d", "d.json")] + good(0) + [Raw("END")]), Section("late", [Raw("late")])]), g.style(0.3))
    files["md.html"] = Html([Section("body", []), Section("late", [])])
    build_and_compare(ctx, Site(files), "empty-loop")


FILE_NAMES = ["a.md", "b.md", "A.md", "B.md", "1.md", "10.md", "2.md", "-x.md", "_x.md", "é.md", "z.md", "日本.md", "a b.md", "a.b.md", "aa.md", "a-.md", "~.md", ".hidden.md", "post_1.md", "post_10.md", "post_2.md",
              "Ä.md", "a+.md", "index.md", "#.md", "😀.md"]


def sc_markdown(ctx):
    """Loops over directories of markdown files."""
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": ROOT, "md.html": Html([Section("body", [Var("self.content")])])}
    d = r.choice(["posts", "a/b", "x y", "ü", "posts.d"])
    if r.random() < 0.3:
        files["md.html"] = Html([Section("body", [For("other", ("md", d + "/"), [Raw("<"), Var("other.id"), Raw(">")]), Var("self.content")])])
    names = r.sample(FILE_NAMES, r.choice([0, 1, 2, 3, 5, 8]))
    if r.random() < 0.1:
        names += ["n%d.md" % i for i in r.sample(range(200), r.randint(20, 60))]
    for n in names:
        fm = [("id", n.replace(".", "_")), ("k", r.choice(STRS[:9] + ["2022-01-01", "2021-12-31"])), ("t", r.choice(["x", "y"]))]
        if r.random() < 0.2:
            fm.append(("opt", "o%d" % g.uid()))
        body = [Raw("*%s*" % r.choice(["one", "two"]))]
        if r.random() < 0.4:
            # (A file is also visited by the loops in its own body.)
            body += [Raw("\n\n"), For("sibling", ("md", r.choice([d + "/", d + "/", "./"])), [Var("sibling.id"), Raw(", ")], r.choice([None, None, 1]), None, r.choice([None, "sibling.k"]), r.choice([None, "desc"]))]
        files[d + "/" + n] = Md(fm, body)
    if r.random() < 0.6:
        files[d + "/sub/deep.md"] = Md([("id", "WRONG"), ("k", "0"), ("t", "x")], [Raw("deep")])
        files[d + "/sub2/x.md/y.md"] = Md([("id", "WRONG"), ("k", "0"), ("t", "x")], [Raw("deep")])
    if r.random() < 0.6:
        files[d + "/page.html"] = Html([Section("body", [Raw("a page")])])
        files[d + "/data.json"] = Json([{"id": "WRONG"}])
        files[d + "/notes.txt"] = Other(b"id: WRONG")
        files[d + "/x.mdx"] = Other(b"---\nid: \"WRONG\"\n---\n")
    files["top.md"] = Md([("id", "top"), ("k", "b"), ("t", "x")], [Raw("top")])
    files["keep/" + d.split("/")[0] + "/z.md"] = Md([("id", "other"), ("k", "b"), ("t", "x")], [Raw("o")])
    n = len(names)
    body = []
    for _ in range(r.randint(8, 14)):
        src = r.choice([d + "/"] * 5 + ["./" + d + "/", "./", d + "//", "keep/" + d.split("/")[0] + "/"])
        inner = [Var("post.id"), Raw(","), Var("post.k"), Raw("("), Var("post.content"), Raw("|"), Var("post.markdown"), Raw(")")]
        if r.random() < 0.5:
            inner.append(IfDef("post.opt", [Var("post.opt")], [Raw("none")]))
        if r.random() < 0.2:
            inner.append(For("other", ("md", d + "/"), [Raw("<"), Var("other.id"), Raw(">"), Var("post.id")], limit=2))
        body += [Raw("%d:" % g.uid()), For("post", ("md", src), inner, r.choice([None, None, 0, 1, 2, n]), r.choice([None, None, 0, 1, 2, n]), r.choice([None, "post.k", "post.t", "post.id"]),
                                            r.choice([None, "asc", "desc"])), Raw("\n")]
    files["index.html"] = Html(merge_section(body), g.style(0.3))
    files["more.html"] = Html(merge_section([For("post", ("md", d + "/"), [Var("post.id"), Raw(";")]), Raw("!")]))
    build_and_compare(ctx, Site(files), "markdown-loop")
    ctx.keys.append(hashlib.blake2b(repr(sorted(names)).encode(), digest_size=8).digest())


def sc_invalid(ctx):
    """The loop variable is gone after the loop, and loops over something that is not a list fail."""
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": ROOT, "d.json": Json({"s": "str", "n": 5, "nul": None, "o": {"a": "b"}, "b": True, "l": ["p", "q"], "none": [], "deep": {"s": "v"}}), "str.json": Json("string"),
             "obj.json": Json({"a": 1}), "num.json": Json(7), "list.json": Json(["p", "q"]), "notes.txt": Other(b"x"), "posts/a.html": Html([Section("body", [])]), "dir.json/x.txt": Other(b"x")}
    what = r.choice(["after-loop", "after-empty-loop", "after-inner", "source-type", "source-missing", "source-path", "source-kind"])
    after = r.choice([Var("x"), Var("x.y"), If("eq", ("var", "x"), ("str", "q"), [Raw("!")]), For("y", ("var", "x"), [Raw("!")]), excerpt("x", 5), timetoread("x")])
    bad = {
        "after-loop": lambda: [For("x", ("json", "list.json"), [Var("x")], limit=r.choice([None, 1])), after],
        "after-empty-loop": lambda: [For("x", ("json", "list.json"), [Var("x")], limit=0), after],
        "after-inner": lambda: [For("y", ("var", "d.l"), [For("x", ("json", "list.json"), [Var("y"), Var("x")]), after])],
        "source-type": lambda: [For("x", ("var", "d." + r.choice(["s", "n", "nul", "o", "b", "missing", "l.0", "deep.s"])), [Raw("x")])],
        "source-missing": lambda: [For("x", r.choice([("var", "nope"), ("var", "nope.l"), ("json", "missing.json"), ("md", "missing/"), ("json", "posts/list.json")]), [Raw("x")])],
        "source-path": lambda: [For("x", r.choice([("json", "../content/list.json"), ("json", "/list.json"), ("md", "../"), ("md", "/"), ("md", "posts/../posts/")]), [Raw("x")])],
        "source-kind": lambda: [For("x", r.choice([("json", "str.json"), ("json", "obj.json"), ("json", "num.json"), ("json", "dir.json"), ("md", "notes.txt/"), ("md", "list.json/")]), [Raw("x")])],
    }[what]()
    wrap = r.choice([lambda b: b, lambda b: [If("eq", ("int", 1), ("int", 1), b)], lambda b: [Section("s", b)], lambda b: [For("w", ("json", "list.json"), b)]])
    files["p.html"] = Html([Section("body", [Import("d", "d.json"), Raw("text")] + wrap(bad))], g.style(0.2))
    proj = ctx.path("p")
    site = Site(files)
    write_project(proj, site)
    res = ctx.build_fails(proj, "a page has %s: %s" % (what, source(bad)))
    ctx.observed(1, files["p.html"].source(), **{what: 1})
    ctx.sample = {"source": files["p.html"].source(), "message": res.errtext()}


SCENARIOS = [Scenario("random", sc_random, 900, 10000), Scenario("matrix", sc_matrix, 250, 3000), Scenario("empty", sc_empty, 500, 6000), Scenario("markdown", sc_markdown, 500, 6000),
             Scenario("invalid", sc_invalid, 500, 4000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 5
