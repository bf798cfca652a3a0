"""C03: root templates and sections."""
from ..common import *

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared byte for byte with a reference model, for random trees of root templates, sections and pages"
RULE = ("random trees of directories with roots at random levels, pages with sections under hostile names, nested, conditional or repeated, and text around them; an observation is a page compared "
        "byte for byte with the reference model, or a build that has to fail because a section or root is missing; distinct by source and place")


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


ASSUMPTIONS = ["a page does not define the same section twice with different contents, and only roots use insert"]

SECTION_NAMES = ["body", "head", "a b", "x)", "a, b", "h=1", "for", "ifeq", "begin", "end", "section:1", "ünï", "名前", "", "a}}b", "$x", "'", "<title>", "BODY", "Body",
                 "head ", "0", "a\\b", "else", "/", "body2", "bod"]


def tree(r):
    dirs = [""]
    for _ in range(r.randint(0, 7)):
        d = r.choice(dirs)
        n = (d + "/" if d else "") + r.choice(["a", "b", "blog", "x y", "ü", "root", "md", "deep"])
        if n not in dirs:
            dirs.append(n)
    return dirs


def join(d, n):
    return d + "/" + n if d else n


def root(g, r, names, tag, bare=0.0):
    if r.random() < bare:
        # Nothing, or nothing but text.
        return Html([Raw(t) for t in [r.choice(["", "", "\n", " ", "<%s>" % tag, "text"])] if t]), set()
    nodes = [Raw("<%s>" % tag)]
    ins = [n for n in names if r.random() < 0.7] or [names[0]]
    ins += [r.choice(ins) for _ in range(r.choice([0, 0, 1, 2]))]
    r.shuffle(ins)
    for n in ins:
        nodes += [Raw(g.text() if r.random() < 0.7 else "|"), Insert(n)]
        if r.random() < 0.15:
            nodes.append(IfDef("env", [Raw("("), Insert(n), Raw(")")], [Insert("never defined")]))
        if r.random() < 0.1:
            nodes.append(If("eq", ("int", 1), ("int", 2), [Insert("not there")]))
    nodes.append(Raw("</%s>" % tag))
    return Html(G.merge(nodes), g.style()), set(ins)


def page(g, r, names, plain_extra=True):
    """A page that defines all of `names`, in random order and nesting, and perhaps others."""
    todo = list(names)
    r.shuffle(todo)

    def build(level):
        nodes = []
        while todo and (level == 0 or r.random() < 0.5):
            n = todo.pop()
            if r.random() < 0.6:
                nodes.append(Raw(g.text()))
            inner = [Raw(g.text())] if r.random() < 0.85 else []
            if level < 3 and r.random() < 0.4:
                inner += build(level + 1)
            if r.random() < 0.6:
                inner.append(Raw("(%d)" % g.uid()))
            s = [Section(n, inner)]
            x = r.random()
            if x < 0.1:
                s = [If("eq", ("int", 1), ("int", 1), s, [Section(n, [Raw("WRONG BRANCH")])] if r.random() < 0.5 else None)]
            elif x < 0.16:
                s = [IfDef("nope", [Section(n, [Raw("WRONG BRANCH")])], s)]
            elif x < 0.2:
                s = [For("i", ("json", "one.json"), s)]
            nodes += s
        return nodes
    nodes = build(0)
    for _ in range(r.choice([0, 0, 0, 1, 2])):
        # Another section of the same name: the first to end counts.
        again = [Section(r.choice(names), [Raw("again%d" % g.uid())])] if names else []
        x = r.random()
        if x < 0.3:
            again = [Section("around%d" % g.uid(), again)]
        elif x < 0.5 and names:
            again = [Section(r.choice(names), [Raw("outer%d" % g.uid())] + again)]
        i = r.randint(0, len(nodes))
        nodes[i:i] = again
    if r.random() < 0.5:
        nodes.append(Section("unused%d" % g.uid(), [Raw(g.text())]))
    if r.random() < 0.5:
        nodes.append(Raw(g.text()))
    return G.merge(nodes)


def site(ctx, r, g):
    dirs = tree(r)
    names = r.sample(SECTION_NAMES, r.randint(1, 5))
    files = {"one.json": Json(["only"])}
    has_root = {}
    for i, d in enumerate(dirs):
        if d == "" or r.random() < 0.4:
            files[join(d, "root.html")], has_root[d] = root(g, r, names, "root%d" % i, 0.12 if d else 0.04)
    for d in dirs:
        # (A directory may have no pages of its own, only those of its subdirectories.)
        for i in range(r.randint(0 if r.random() < 0.4 and d and any(x.startswith(d + "/") for x in dirs) else 1, 3)):
            files[join(d, r.choice(["index", "page%d", "p.q%d", "Root%d", "xroot%d", "z%d"]).replace("%d", str(i)) + ".html")] = Html(page(g, r, names), g.style())
    for d in dirs:
        # Other templates and files next to the root, which sort before or after it.
        if r.random() < 0.35:
            files[join(d, "md.html")] = Html(G.merge([Section(n, [Raw("md %s" % d)] + ([Var("self.content")] if r.random() < 0.6 else [])) for n in names]))
            if r.random() < 0.5:
                files[join(d, "post.md")] = Md([("title", "x")], [Raw("text %d\n" % g.uid())])
        if r.random() < 0.2:
            files[join(d, r.choice(["a.json", "zz.json"]))] = Json({"k": "v"})
    return files, names, has_root, dirs


def sc_trees(ctx):
    r = ctx.rng
    g = G.Gen(r, plain=r.random() < 0.3)
    files, names, roots, dirs = site(ctx, r, g)
    s = Site(files)
    strip = r.random() < 0.5
    build_and_compare(ctx, s, "composition", settings={"strip_extensions": strip})
    ctx.feature("roots", len(roots))
    ctx.feature("dirs", len(dirs))


def sc_missing(ctx):
    """One page lacks one section that its nearest root inserts: the build fails. With the section only elsewhere."""
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files, names, roots, dirs = site(ctx, r, g)
    s = Site(files)
    pages = [p for p in files if is_page(p, files[p]) and isinstance(files[p], Html)]
    expected_pages(s, ctx, drop=False)
    victim = r.choice(pages)
    nearest = s.nearest(victim, "root.html")
    d = nearest.rpartition("/")[0]
    if not roots[d]:
        raise Discard()
    lost = r.choice(sorted(roots[d]))
    how = r.choice(["absent", "other-name", "in-untaken-branch", "empty-loop", "no-sections"])
    rest = [n for n in names if n != lost]
    if how == "absent":
        nodes = page(g, r, rest) if rest else [Raw("text")]
    elif how == "no-sections":
        nodes = [Raw("only text")]
    else:
        nodes = page(g, r, rest) if rest else []
        sec = [Section(lost, [Raw("x")])]
        nodes += [{"other-name": Section(lost + "_", [Raw("x")]), "in-untaken-branch": If("eq", ("int", 1), ("int", 2), sec),
                   "empty-loop": For("i", ("json", "none.json"), sec)}[how]]
    files["none.json"] = Json([])
    files[victim] = Html(nodes)
    proj = ctx.path("p")
    write_project(proj, s)
    res = ctx.build_fails(proj, "%s does not define section %r, which %s inserts (%s)" % (victim, lost, nearest, how))
    ctx.observed(1, (how, files[victim].source(), victim), **{"missing-" + how: 1})
    ctx.sample = {"page": victim, "lost": lost, "how": how, "message": res.errtext()}


def sc_no_root(ctx):
    """A page without any root template above it, while others have one."""
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files, names, roots, dirs = site(ctx, r, g)
    lonely = r.choice(["", "lonely", "lonely/deep"])
    del files["root.html"]
    for d in [d for d in dirs]:
        if d and "/" not in d and join(d, "root.html") not in files:
            files[join(d, "root.html")] = Html([Raw("<top>")] + [Insert(n) for n in names])
    for p in [p for p in files if "/" not in p and is_page(p, files[p])]:
        del files[p]
    s = Site(files)
    try:
        pages = expected_pages(s, ctx, drop=False)
    except BuildError:
        raise Discard()
    proj = ctx.path("p")
    write_project(proj, s)
    ctx.build_ok(proj)
    compare_pages(ctx, s, pages, os.path.join(proj, "dist"), True, "composition-without-top-root")
    files2 = dict(files)
    kind = r.choice(["html", "md"])
    p = join(lonely, "page." + kind)
    files2[p] = Html([Section(n, [Raw("x")]) for n in names]) if kind == "html" else Md([("title", "x")], [Raw("text")])
    files2[join(lonely, "md.html")] = Html([Section(n, [Raw("x")]) for n in names])
    proj2 = ctx.path("q")
    write_project(proj2, Site(files2))
    res = ctx.build_fails(proj2, "%s has no root template" % p)
    ctx.observed(1 + len(pages), (p, sorted(files2)), **{"no-root": 1})
    ctx.sample = {"page": p, "message": res.errtext()}


SCENARIOS = [Scenario("trees", sc_trees, 1400, 16000), Scenario("missing", sc_missing, 600, 6000), Scenario("no_root", sc_no_root, 200, 2000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 6, 15
