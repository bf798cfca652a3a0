"""C09: the output tree."""
import shutil

from ..common import *

ID = "C09"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: complete trees on disk before and after builds compared with a reference model, over histories of edits and failing builds"
RULE = ("random trees of content, static and temp with hostile and ordinary names, empty directories, binary files and all combinations of the settings, built over different earlier contents of the output directory and in histories of edits; "
        "an observation is an output tree compared entry by entry and byte by byte with the reference model, together with the unchanged inputs; distinct by the set of files and settings")
ASSUMPTIONS = ["pages are simple here (their contents are the subject of C02 to C08)", "left open and not generated: a content file named exactly `.json`, directories with the names of templates"]

STEMS = ["a", "b", "about", "index", "post-1", "Ünï", "日本", "with space", "x.y", "a.b.c", ".hidden", "-dash", "_u", "UPPER", "root", "md", "root.html", "index.html", "file.md", "data.json", "~t", "a'b", "q\"q", "x&y", "#h", "100%", "{{x}}", "$v", "a\\b", "c,d", "e;f",
         "(g)", "new\nline", "tab\t", " lead", "trail ", "...", "..x", "con", "😀", "é", "e\u0301", "A", "dist", "temp", "static", "content", "metadata", "_build", "l" * 120, "*", "?x", "<z>", "|"]
DIRS = ["", "", "", "a", "b", "blog", "blog/2022", "blog/2022/05", "Ü dir", "x.html", "y.md", "z.json", ".well-known", "deep/er/and/deep/er", "static", "temp", "dist", "index.html.d", "..."]


def page(g):
    r = g.rng
    return Html([Raw(r.choice(["", "outside"])), Section("body", [Raw("page %d " % g.uid() + r.choice(["", "\n", "é"]))])])


def markdown(g):
    return Md([("title", "t%d" % g.uid())] if g.rng.random() < 0.7 else None, [Raw("# H %d\n\ntext\n" % g.uid())])


def blob(g):
    r = g.rng
    if r.random() < 0.004:
        return r.randbytes(r.choice([(1 << 16) + 1, (1 << 20) - 1, (1 << 20) + 1, 3000001, (1 << 22) + 1]))
    return r.choice([b"", b"x", b"\x00\xff\xfe bin", "text é\n".encode(), b"{{ begin(\"not a template\") }}", b"\r\n", bytes(range(256)), b"\xef\xbb\xbfbom", os.urandom(0) + b"z" * r.choice([1, 100, 4096, 8192, 65537]) if r.random() < 0.1 else b"y%d" % g.uid()])


def json_text(r, v):
    """The value as JSON, in some layout: data files are saved as they are."""
    t = json.dumps(v, indent=r.choice([None, None, 2, 1, "\t"]), ensure_ascii=r.random() < 0.5, separators=r.choice([None, (",", ":"), (" , ", " :  ")]))
    t = r.choice(["", "", "", " ", "\n\n", "\r\n", "\t"]) + t + r.choice(["", "", "\n", "\r\n", "  \n\t \n", " " * 5000 if r.random() < 0.1 else " "])
    if r.random() < 0.3:
        t = t.replace("\n", "\r\n").replace("\r\r", "\r")
    if r.random() < 0.2:
        t = t.replace("1.5", r.choice(["1.50", "15e-1", "0.15E+1"]))
    return t


def add_content(g, files, dirs):
    """Adds one file to the content."""
    r = g.rng
    d = r.choice(dirs)
    pre = d + "/" if d else ""
    stem = r.choice(STEMS)
    x = r.random()
    if x < 0.35:
        name, f = stem + ".html", page(g)
    elif x < 0.5:
        name, f = stem + ".md", markdown(g)
    elif x < 0.65:
        v = r.choice([[], {}, 1, "s", None, [1, {"a": "b"}], {"k": [True, 1.5, "é\n"]}])
        name, f = stem + ".json", Json(v, json_text(r, v))
    else:
        name = stem + r.choice(["", ".txt", ".css", ".js", ".png", ".HTML", ".htm", ".Md", ".JSON", ".html.bak", ".xml", ".md5", ".htmlx", "~"])
        if name.endswith((".html", ".md", ".json")):
            name += ".txt"
        f = Other(blob(g))
    if name in ("root.html", "md.html"):
        name = "x" + name
    if len(name) > 240 or pre + name in files:
        return
    files[pre + name] = f


def add_extra(g, files, dirs):
    r = g.rng
    d = r.choice(dirs)
    name = r.choice(STEMS) + r.choice(["", ".html", ".md", ".json", ".txt", ".css", ".png", ".js"])
    if r.random() < 0.15:
        name = r.choice(["root.html", "md.html", ".json", ".html", ".md", "index.html", "stuart.toml", "metadata.json", ".gitignore", "..html", "...html"])
    files.setdefault((d + "/" if d else "") + name, blob(g))


def valid(site, settings, static, temp, sdirs, tdirs, pages=None):
    """The expected tree, or None if the inputs conflict with each other."""
    extra = dict(static)
    for p, v in temp.items():
        if p in extra:
            return None
        extra[p] = v
    for p in extra:
        for i in range(1, p.count("/") + 1):
            if p.rsplit("/", i)[0] in extra:
                return None
    try:
        return output_tree(site, settings["strip_extensions"], settings["save_data_files"], extra, sorted(sdirs | tdirs), pages)
    except BuildError:
        return None


def make_site(g, n=None):
    """Content, static, temp and empty directories that do not conflict."""
    r = g.rng
    settings = {"strip_extensions": r.random() < 0.6, "save_data_files": r.random() < 0.5}
    dirs = r.sample(DIRS, r.randint(1, 6)) + [""]
    files = {"root.html": Html([Raw("<r>"), Insert("body"), Raw("</r>")]), "md.html": Html([Section("body", [Raw("<m>"), Var("self.content")])])}
    for d in set(dirs):
        if d and r.random() < 0.2:
            files[d + "/root.html"] = Html([Raw("<r2 "), Insert("body")])
        if d and r.random() < 0.15:
            files[d + "/md.html"] = Html([Section("body", [Raw("<m2>"), Var("self.content")])])
    # Conflicts with names that are stripped are avoided by leaving out the file that causes them.
    cdirs = {d for d in dirs if d and r.random() < 0.2}
    static, temp, sdirs, tdirs = {}, {}, {d for d in dirs if d and r.random() < 0.1}, set()
    dummy = {}

    def ok():
        s = Site(dict(files), dirs=cdirs)
        pages = {p: b"" for p in files}
        t = valid(s, settings, static, temp, sdirs, tdirs, pages)
        if t is None:
            return False
        # A name in content cannot be both a file and a directory.
        for p in list(files):
            if p in s.dirs:
                return False
        # What is a file in one tree and a directory in another conflicts, even if the file is not output.
        alld = set(s.dirs)
        for t2, ds in ((static, sdirs), (temp, tdirs)):
            for p in list(t2) + [d + "/x" for d in ds]:
                for i in range(1, p.count("/") + 1):
                    alld.add(p.rsplit("/", i)[0])
        every = [p[:-3] + ".html" if isinstance(files.get(p), Md) else p for p in files] + list(static) + list(temp)
        return len(set(every)) == len(every) and not any(p in alld for p in every)

    if not ok():
        cdirs.clear()
        sdirs.clear()
    for _ in range(r.randint(1, 14) if n is None else n):
        before = dict(files)
        add_content(g, files, dirs)
        if not ok():
            files.clear()
            files.update(before)
    for tree in (static, temp):
        if r.random() < 0.75:
            for _ in range(r.randint(1, 6)):
                before = dict(tree)
                add_extra(g, tree, dirs)
                if not ok():
                    tree.clear()
                    tree.update(before)
    if r.random() < 0.2:
        tdirs = {d for d in dirs if d and r.random() < 0.5}
        if not ok():
            tdirs = set()
    return Site(files, dirs=cdirs), settings, static, temp, sdirs, tdirs


def write_all(proj, site, settings, static, temp, sdirs, tdirs, has_static=True):
    write_project(proj, site, static, settings, more={"temp/" + p: v for p, v in temp.items()})
    for d in sdirs:
        os.makedirs(os.path.join(proj, "static", d), exist_ok=True)
    for d in tdirs:
        os.makedirs(os.path.join(proj, "temp", d), exist_ok=True)


def old_output(g, out):
    """Something that an earlier build or the user has left in the output directory."""
    r = g.rng
    files = {}
    for _ in range(r.randint(0, 6)):
        files[r.choice(["", "a/", "b/", "blog/2022/", "a/index.html/", "zz/"]) + r.choice(["index.html", "old.txt", "about", "x", "root.html", "a", ".hid"])] = b"old"
    ok = {}
    for p, v in files.items():
        if not any(q.startswith(p + "/") or p.startswith(q + "/") for q in ok):
            ok[p] = v
    write_tree(out, ok, [""])
    if r.random() < 0.3 and not os.path.lexists(os.path.join(out, "lnk")):
        os.symlink("/nonexistent", os.path.join(out, "lnk"))


def check(ctx, proj, site, settings, static, temp, sdirs, tdirs, args=(), out="dist"):
    pages = expected_pages(site, ctx, False)
    want = valid(site, settings, static, temp, sdirs, tdirs, pages)
    if want is None:
        raise Discard()
    before = read_tree(proj)
    ctx.build_ok(proj, args)
    got = read_tree(os.path.join(proj, out))
    d = diff_trees(want, got)
    ctx.require(d is None, "output-tree", lambda: "output (strip_extensions=%(strip_extensions)s, save_data_files=%(save_data_files)s): " % settings + d)
    after = read_tree(proj)
    drop = lambda t: {p: v for p, v in t.items() if p.split("/")[0] != "temp" and p != out and not p.startswith(out + "/")}
    d = diff_trees(drop(before), drop(after))
    ctx.require(d is None, "inputs-changed", lambda: "the build changed the project: " + d)
    ctx.require(not any(p.split("/")[0] == "temp" for p in after), "temp-left", "temp was not removed")
    ctx.observed(1, (sorted(want), sorted(settings.items()), sorted(site.files)), entries=len(want), **{"strip-%(strip_extensions)s-data-%(save_data_files)s" % settings: 1})
    for name, t in (("pages", pages), ("static", static), ("temp", temp), ("empty-dirs", [d for d in want if want[d] is None and not any(p.startswith(d + "/") for p in want)])):
        ctx.feature(name, len(t))
    return want


def sc_trees(ctx):
    g = G.Gen(ctx.rng)
    s = make_site(g)
    proj = ctx.path("p")
    write_all(proj, *s)
    x = ctx.rng.random()
    out, args = "dist", ()
    if x < 0.25:
        out = ctx.rng.choice(["public", "out dir", "dist2", ".out", "Ü"])
        args = (ctx.rng.choice(["-o", "--output"]), ctx.rng.choice([out, "./" + out, os.path.join(proj, out)]))
        if ctx.rng.random() < 0.3:
            write_tree(os.path.join(proj, "dist"), {"keep": b"k"})
    if ctx.rng.random() < 0.5:
        old_output(g, os.path.join(proj, out))
        ctx.feature("old-output")
    want = check(ctx, proj, *s, args=args, out=out)
    ctx.sample = {"content": sorted(s[0].files), "static": sorted(s[2]), "temp": sorted(s[3]), "settings": s[1], "output": sorted(want)}


def sc_histories(ctx):
    """Edits and builds in turn; some builds fail in between."""
    r = ctx.rng
    g = G.Gen(r)
    proj = ctx.path("p")
    s = make_site(g, r.randint(2, 6))
    for step in range(r.randint(3, 6)):
        for d in ("content", "static", "temp"):
            shutil.rmtree(os.path.join(proj, d), ignore_errors=True)
        if step:
            if r.random() < 0.5:
                # Start over: names and kinds change places.
                s = make_site(g, r.randint(1, 8))
            else:
                site, settings, static, temp, sdirs, tdirs = s
                if r.random() < 0.5:
                    k = r.choice(["strip_extensions", "save_data_files"])
                    settings = dict(settings, **{k: not settings[k]})
                files = {p: f for p, f in site.files.items() if p.endswith(("root.html", "md.html")) or r.random() < 0.7}
                static = {p: r.choice([v, v, b"changed %d" % g.uid()]) for p, v in static.items() if r.random() < 0.8}
                s2 = (Site(files), settings, static, {}, sdirs, set())
                if valid(s2[0], settings, static, {}, sdirs, set(), {p: b"" for p in files}) is not None:
                    s = s2
        write_all(proj, *s)
        if r.random() < 0.2:
            write_tree(proj, {"content/zz-bad.html": b"{{ nope }}"})
            ctx.build_fails(proj, "a page is malformed")
            os.unlink(os.path.join(proj, "content/zz-bad.html"))
            write_all(proj, *s)
            ctx.feature("failed-build-in-between")
        check(ctx, proj, *s)


def sc_non_unicode(ctx):
    """Names of files that are not UTF-8."""
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": "x", b"static/f\xff.txt": b"1", b"static/d\xfe/g.txt": b"2", b"content/c\xfd.bin": b"3"})
    r = ctx.build(proj)
    got = read_tree(os.path.join(proj, "dist"))
    ctx.observed(1, "non-unicode")
    want = {os.fsdecode(b"f\xff.txt"): b"1", os.fsdecode(b"d\xfe"): None, os.fsdecode(b"d\xfe/g.txt"): b"2", os.fsdecode(b"c\xfd.bin"): b"3"}
    ctx.require(r.rc == 0 and got == want, "non-unicode-name", lambda: "files whose names are not UTF-8: %s" % (r.errtext() if r.rc else diff_trees(want, got)))


def sc_links(ctx):
    """Symbolic links to files and directories are read through."""
    r = ctx.rng
    proj = ctx.path("p")
    ext = ctx.path("ext")
    write_tree(ext, {"img.png": b"\x89PNG", "page.html": '{{ begin("body") }}linked{{ end("body") }}', "d/x.txt": b"x", "d/y.html": '{{ begin("body") }}y{{ end("body") }}', "s/raw.html": b"{{ raw", "s/t/u.json": b"[]"})
    write_tree(proj, {"stuart.toml": manifest(strip_extensions=False), "content/root.html": '<{{ insert("body") }}>', "static/own.txt": b"own"})
    before = read_tree(ext)
    want = {"own.txt": b"own"}
    links = {"content/img.png": ("img.png", {"img.png": b"\x89PNG"}), "content/p.html": ("page.html", {"p.html": b"<linked>"}), "content/dir": ("d", {"dir": None, "dir/x.txt": b"x", "dir/y.html": b"<y>"}),
             "static/sub": ("s", {"sub": None, "sub/raw.html": b"{{ raw", "sub/t": None, "sub/t/u.json": b"[]"}), "static/l.png": ("img.png", {"l.png": b"\x89PNG"})}
    for l in r.sample(sorted(links), r.randint(1, len(links))):
        t, w = links[l]
        os.symlink(r.choice([os.path.join(ext, t), "../../ext/" + t]), os.path.join(proj, l))
        want.update(w)
    for _ in range(2):
        ctx.build_ok(proj)
        got = read_tree(os.path.join(proj, "dist"))
        d = diff_trees(want, got)
        ctx.require(d is None, "links", lambda: "output of linked inputs: " + d)
        d = diff_trees(before, read_tree(ext))
        ctx.require(d is None, "links-changed", lambda: "the targets of links changed: " + d)
        ctx.observed(1, sorted(want))


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


SCENARIOS = [Scenario("trees", sc_trees, 2500, 30000), Scenario("histories", sc_histories, 400, 5000), Scenario("links", sc_links, 60, 300), Scenario("non-unicode", sc_non_unicode, 1, 1)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 4, 8
