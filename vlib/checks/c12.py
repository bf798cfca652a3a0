"""C12: what a build touches."""
import shutil

from ..common import *
from .. import fsm, sites as S
from . import c09, c11

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: an LD_PRELOAD monitor records every file system call of the build; an offline checker decides which paths may be read, written and removed; bait around the project"
RULE = ("builds of random projects with hostile names, links, previous outputs, output arguments and mistakes, run under a preloaded monitor of the process's file system calls and inside a tree of bait files; an observation is a build of which every mutating call was within the output directory, temp or metadata.json, "
        "every file opened below the sandbox was an input, and the tree around these is byte for byte as before, or a refused output argument or import path after which everything is as before; distinct by the set of mutated paths, or by argument")
ASSUMPTIONS = ["build scripts and plugins are other programs and may do what they like; a metadata.json that is itself a symbolic link is not generated"]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


BAIT = {"outside.json": b'["secret"]', "outside.html": b"outside", "outside.md": b"outside", "other/content/a.html": b"o", "other/stuart.toml": b"", "dist/index.html": b"not the project's", "temp/x": b"t", "metadata.json": b"m", "content/x.html": b"c", "static/y": b"s", "index.html": b"i", "posts/a.md": b"x"}


def lay_bait(ctx):
    write_tree(ctx.path("box"), BAIT)
    return ctx.path("box", "p")


def tree_without(root, *skip):
    t = read_tree(root)
    return {p: v for p, v in t.items() if not any(p == s or p.startswith(s + "/") for s in skip)}


def monitored(ctx, proj, args, out, meta, cwd=None, ok=True, what=""):
    """One build under the monitor, whose calls are checked. `out`: absolute path of the output directory, or None."""
    log = ctx.path("log")
    e = fsm.env_for(ctx, log)
    r = ctx.build(cwd or proj, args, extra_env=e)
    if ok is not None:
        if ok:
            ctx.require(r.rc == 0, "unexpected-failure", lambda: "a valid project fails to build%s: %s" % (what, r.errtext()[:600]))
        else:
            ctx.require(r.rc == 1 and "error:" in r.errtext(), "unexpected-success", lambda: "the build succeeds%s" % what)
    ev = fsm.read_log(log)
    ctx.require(any(x.op == "openr" and x.path.endswith("stuart.toml") for x in ev), "monitor", "the monitor has seen nothing of the build")
    allowed = ([out] if out else []) + [os.path.join(proj, "temp")] + ([os.path.join(proj, "metadata.json")] if meta else [])
    readable = [os.path.join(proj, d) for d in ("content", "static", "temp", "scripts", "stuart.toml", "../real content")] + ([out] if out else [])
    mutated = set()
    muts = set(map(id, fsm.mutations(ev)))
    for x in ev:
        if id(x) in muts:
            for p in [x.path] + ([x.path2] if x.op in ("rename", "link") else []):
                ctx.require(fsm.within(p, *allowed) or fsm.within(os.path.realpath(p), *allowed), "outside-write", lambda: "the build%s calls %r, which is outside of its output" % (what, x))
                mutated.add((x.op, os.path.relpath(p, proj)))
        elif x.op == "openr" and fsm.within(x.path, ctx.path("box")):
            ctx.require(fsm.within(x.path, *map(os.path.normpath, readable)), "outside-read", lambda: "the build%s opens %s" % (what, x.path))
    return r, ev, mutated


def check(ctx, proj, args, out, meta, cwd=None, ok=True, what=""):
    box = ctx.path("box")
    skip = [os.path.relpath(os.path.join(proj, "temp"), box)] + ([os.path.relpath(out, box)] if out else []) + ([os.path.relpath(os.path.join(proj, "metadata.json"), box)] if meta else [])
    before = tree_without(box, *skip)
    r, ev, mutated = monitored(ctx, proj, args, out, meta, cwd, ok, what)
    d = diff_trees(before, tree_without(box, *skip))
    ctx.require(d is None, "outside-change", lambda: "the build%s changed what is not its output: %s" % (what, d))
    n = len(mutated)
    ctx.observed(1, sorted(mutated), mutating_calls=n, opened_files=sum(1 for x in ev if x.op == "openr" and fsm.within(x.path, box)))
    return r, mutated


def hostile_old(ctx, r, out):
    """Links and odd files in what is about to be removed."""
    box = ctx.path("box")
    os.makedirs(out, exist_ok=True)
    for i in range(r.randint(0, 4)):
        p = os.path.join(out, r.choice(["l%d", "d/l%d", ".l%d"]) % i)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        os.symlink(r.choice([box, os.path.join(box, "other"), os.path.join(box, "p", "content"), "../content", "../static", "/", "..", ".", "nowhere", os.path.join(box, "outside.json"), "../stuart.toml"]), p)
    if r.random() < 0.3:
        os.makedirs(os.path.join(out, "ro/sub"), exist_ok=True)
        os.mkfifo(os.path.join(out, "pipe"))


def sc_names(ctx):
    r = ctx.rng
    g = S.G.Gen(r)
    proj = lay_bait(ctx)
    site, settings, static, temp, sdirs, tdirs = c09.make_site(g)
    meta = r.random() < 0.5
    for stem in r.sample(["..", "...", ".", "..\\x", "~", "$HOME", "`x`", "a/../../b".replace("/", "\u2215"), "%2e%2e%2f", "....", ". .", "-rf", "\n..", "..;", "CON"], r.randint(0, 5)):
        p = r.choice(["", "a/", "blog/"]) + stem + ".html"
        if p not in site.files and p not in static and p not in temp and r.random() < 0.8:
            site.files[p] = c09.page(g)
    site = Site(site.files, dirs=site.dirs)
    if c09.valid(site, settings, static, temp, sdirs, tdirs, {p: b"" for p in site.files}) is None:
        raise Discard()
    c09.write_all(proj, site, dict(settings, save_metadata=meta), static, temp, sdirs, tdirs)
    out, args = os.path.join(proj, "dist"), ()
    cwd = None
    if r.random() < 0.4:
        o = r.choice(["public", "../public", "../other/dist", "../dist2", "a b", os.path.join(ctx.path("box"), "abs"), "./x/../y", "content2", "static-out", "../p2", "..out", "scripts.d", "dist/"])
        out = os.path.normpath(os.path.join(proj, o))
        if o == "./x/../y":
            os.makedirs(os.path.join(proj, "x"))
        args = ("-o", o)
    if r.random() < 0.25:
        cwd = r.choice([ctx.path("box"), ctx.path("box", "other"), os.path.join(proj, "content")])
        args += ("--manifest-path", r.choice([os.path.join(proj, "stuart.toml"), os.path.relpath(os.path.join(proj, "stuart.toml"), cwd)]))
    if r.random() < 0.6:
        hostile_old(ctx, r, out)
    for _ in range(r.choice([1, 1, 2])):
        _, mutated = check(ctx, proj, args, out, meta, cwd)
    ctx.sample = {"args": args, "calls": sorted(mutated)[:40]}


def sc_outputs(ctx):
    """Output directories that overlap with the inputs are refused, in every disguise."""
    r = ctx.rng
    proj = lay_bait(ctx)
    box = ctx.path("box")
    link_content = r.random() < 0.25
    write_tree(proj, {"stuart.toml": manifest(save_metadata=True), "content/root.html": '<{{ insert("body") }}>', "content/a.html": '{{ begin("body") }}a{{ end("body") }}', "content/sub/deep/b.html": '{{ begin("body") }}b{{ end("body") }}',
                      "static/s.css": "s", "static/t/u.css": "u", "scripts/onPostBuild": "true\n", "scripts/lib/x": "x", "metadata.json": "old"})
    if link_content:
        os.rename(os.path.join(proj, "content"), ctx.path("box", "real content"))
        os.symlink("../real content", os.path.join(proj, "content"))
    if r.random() < 0.3:
        write_tree(proj, {"dist/old.html": b"old"})
    os.symlink("content", os.path.join(proj, "lc"))
    os.symlink(os.path.join(proj, "static", "t"), os.path.join(proj, "lt"))
    os.symlink("..", os.path.join(proj, "lup"))
    os.symlink(".", os.path.join(proj, "lself"))
    bad = [".", "./", "..", "../", "../..", "/", "content", "content/", "./content", "content/sub", "content/sub/deep", "content/sub/..", "content/new", "content/sub/new", "static", "static/t", "static/t/", "static/new", "static/../content", "scripts", "scripts/lib", "scripts/new", "lc", "lc/", "lc/sub", "lc/new",
           "lt", "lt/new", "lup", "lup/..", "lself", "lself/content", "lself/lself/static", "lup/p", "lup/p/scripts", "../p", "../p/content", "../../box", "../../box/p/static/t", proj, proj + "/", proj + "/content", proj + "/content/new", box, box + "/p/scripts", "//" + proj.lstrip("/") + "//static//", "content/./sub", "dist/../content", ""]
    if link_content:
        bad += ["../real content", "../real content/sub", "../real content/new"]
    for _ in range(6):
        o = r.choice(bad)
        if o == "/":
            # Were it not refused, an unprivileged build could still do nothing there.
            pass
        if o == "dist/../content" and not os.path.isdir(os.path.join(proj, "dist")):
            continue
        via = r.choice([["-o", o], ["--output", o], ["-o" + o] if o and not o.startswith("=") else ["-o", o], ["--output=" + o]])
        if via[0] == "--output=" or o == "":
            via = ["-o", o]
        before = read_tree(box)
        log = ctx.path("log")
        res = ctx.build(proj, via, extra_env=fsm.env_for(ctx, log))
        d = diff_trees(before, read_tree(box))
        ctx.require(d is None, "refused-change", lambda: "the build with %s changed: %s" % (via, d))
        ctx.require(res.rc == 1, "overlap-accepted", lambda: "the output directory %r is accepted" % o)
        for x in fsm.mutations(fsm.read_log(log)):
            raise Violation("refused-write", "a refused build calls %r" % x)
        ctx.observed(1, ("refused", o, link_content), refused=1)
    ctx.sample = {"refused": via, "message": res.errtext().strip()}
    # A missing parent of the output directory is not the output directory: it is not created, so the build fails.
    for o in r.sample(["new/dist", "a/b/c/dist", "../new2/dist", "dist/sub/deep/er", "../other/none/x", "nope/..", "nope/../dist", "static2/t", os.path.join(box, "m/n"), "./q/./r/", "é/ü"], 3):
        out = os.path.normpath(os.path.join(proj, o))
        if os.path.isdir(os.path.dirname(os.path.join(proj, o.rstrip("/")))) or out in (proj, box):
            continue
        skip = [os.path.relpath(out, box)] + ["p/metadata.json"]
        before = tree_without(box, *skip)
        res, ev, _ = monitored(ctx, proj, ["-o", o], out, True, None, None, " with -o %s" % o)
        d = diff_trees(before, tree_without(box, *skip))
        ctx.require(d is None, "outside-change", lambda: "the build with -o %s changed what is not its output: %s" % (o, d))
        ctx.require(res.rc in (0, 1) and (res.rc == 0) == os.path.exists(os.path.join(proj, o, "sub/deep/b/index.html")), "output-elsewhere", lambda: "the build with -o %s ends with %d: %s" % (o, res.rc, res.errtext()))
        ctx.observed(1, ("parents", o, link_content), **{"missing-parents": 1})
    good = ["dist", "contents", "content2", "static.out", "../dist3", "../other/c", "lup/p3", "lself/out", proj + "/x", "content/../y", "../content/x", "../static", "scriptsx", "dist/", "Content", "temp2"]
    for o in r.sample(good, 2):
        out = os.path.realpath(os.path.join(proj, o))
        check(ctx, proj, ["-o", o], out, True, what=" with -o %s" % o) if "lself" not in o and "lup" not in o else ctx.build_ok(proj, ["-o", o])
        ctx.require(os.path.exists(os.path.join(out, "sub/deep/b/index.html")), "output-elsewhere", lambda: "the output with -o %s is not in %s" % (o, out))


def sc_links(ctx):
    """The output directory or temp is a link, or contains links."""
    r = ctx.rng
    proj = lay_bait(ctx)
    box = ctx.path("box")
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '<{{ insert("body") }}>', "content/a.html": '{{ begin("body") }}a{{ end("body") }}', "static/s.css": "s"})
    write_tree(box, {"target/keep.txt": b"k", "target/d/keep2.txt": b"k2"})
    kind = r.choice(["dist-link", "dist-dangling", "temp-link", "temp-inner", "dist-inner", "dist-file", "input-links", "dist-link-file"])
    out = os.path.join(proj, "dist")
    extra = []
    if kind == "dist-link":
        os.symlink(r.choice(["../target", os.path.join(box, "target")]), out)
    elif kind == "dist-dangling":
        os.symlink("../missing", out)
    elif kind == "dist-link-file":
        os.symlink("../outside.json", out)
    elif kind == "dist-file":
        write_tree(proj, {"dist": b"a file"})
    elif kind == "temp-link":
        os.symlink("../target", os.path.join(proj, "temp"))
    elif kind == "temp-inner":
        write_tree(proj, {"temp/t.txt": b"t"})
        os.symlink(r.choice(["../../target", os.path.join(box, "target")]), os.path.join(proj, "temp", "l"))
        os.symlink("../../outside.json", os.path.join(proj, "temp", "f.json"))
        extra = [os.path.join(proj, "temp")]
    elif kind == "dist-inner":
        hostile_old(ctx, r, out)
    else:
        os.symlink("../../target", os.path.join(proj, "content", "lnk"))
        os.symlink("../../target", os.path.join(proj, "static", "lnk2"))
        os.symlink("../../outside.html", os.path.join(proj, "static", "o.html"))
    skip = ["p/dist", "p/temp"]
    before = tree_without(box, *skip)
    for _ in range(2):
        e = fsm.env_for(ctx, ctx.path("log"))
        res = ctx.build(proj, extra_env=e)
        d = diff_trees(before, tree_without(box, *skip))
        ctx.require(d is None, "links-followed", lambda: "the build changed what is not its output (%s): %s" % (kind, d))
        for x in fsm.mutations(fsm.read_log(ctx.path("log"))):
            ctx.require(fsm.within(x.path, out, os.path.join(proj, "temp")), "outside-write", lambda: "the build (%s) calls %r" % (kind, x))
        ctx.observed(1, (kind, res.rc), **{kind: 1})


READS = ["../stuart.toml", "../outside.json", "../../outside.json", "../p/content/ok.json", "/outside.json", "./../outside.json", "sub/../../outside.json", "sub/../../../outside.json", "../static/s.json", "../dist/d.json", "../scripts/x.json", "sub/../../static/s.json", "lnk/../../outside.json", "~/outside.json", "$HOME/outside.json",
         "file://%s/outside.json", "%s/outside.json", "%s/p/content/ok.json", "..\\outside.json", "sub/../../../outside.json", "....//outside.json", "..%%2foutside.json", "\0../outside.json", ".../outside.json", "../../../../../../../../etc/passwd", "/etc/passwd", "/proc/self/environ"]
READ_DIRS = ["../posts/", "../../posts/", "/posts/", "%s/posts/", "../", "/", "..//", "sub/../../../posts/", "/etc/", "../static/", "./../../posts/", "../content/", "~/"]


def sc_reads(ctx):
    """Paths in import and for that lead out of content are not found, and nothing there is opened."""
    r = ctx.rng
    proj = lay_bait(ctx)
    box = ctx.path("box")
    write_tree(box, {"posts/q.md": b"---\nt: \"secret\"\n---\nsecret"})
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '<{{ insert("body") }}>', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}', "content/ok.json": '["fine"]', "content/sub/in.json": '["in"]', "content/posts/a.md": "text", "static/s.json": '["static"]', "scripts/x.json": "[1]",
                      "dist/d.json": '["d"]', "content/page.html": '{{ begin("body") }}{{ import($a, "ok.json") }}{{ import($b, "sub/in.json") }}{{ $a.0 }}{{ $b.0 }}{{ for($p, "posts/") }}{{ $p.content }}{{ end(for) }}{{ end("body") }}'})
    check(ctx, proj, (), os.path.join(proj, "dist"), False)
    got = open(os.path.join(proj, "dist/page/index.html"), "rb").read()
    ctx.require(got == b"<finein<p>text</p>\n>", "legitimate-read", lambda: "import and for within content give %r" % got)
    for _ in range(5):
        if r.random() < 0.7:
            p = r.choice(READS)
            p = p % box if "%s" in p else p.replace("%%", "%")
            tag = r.choice(['{{ import($x, "%s") }}', '{{ for($x, "%s") }}{{ end(for) }}']) % p
            if "{{ for" in tag and not p.endswith(".json"):
                tag = '{{ import($x, "%s") }}' % p
        else:
            p = r.choice(READ_DIRS)
            p = p % box if "%s" in p else p
            tag = '{{ for($x, "%s") }}{{ $x.content }}{{ end(for) }}' % p
        name = r.choice(["content/bad.html", "content/sub/bad.html", "content/bad.md"])
        write_tree(proj, {name: tag if name.endswith(".md") else '{{ begin("body") }}%s{{ end("body") }}' % tag})
        check(ctx, proj, (), None, False, ok=False, what=" with %s" % tag)
        ctx.observed(1, tag, refused_read=1)
        os.unlink(os.path.join(proj, name))
        ctx.sample = {"tag": tag}


def sc_failing(ctx):
    """Builds that fail touch nothing at all but temp."""
    r = ctx.rng
    proj = lay_bait(ctx)
    site, pages, settings, static, want = c11.rich_project(ctx, proj, scripts=False)
    if r.random() < 0.7:
        check(ctx, proj, (), os.path.join(proj, "dist"), settings["save_metadata"])
    seen = S.rendered(site, ctx)
    for _ in range(6):
        m = c11.mistakes(ctx, r, site, pages, seen, settings, static)
        if m is None or m[0] in ("overlap", "script", "unreadable", "unreadable-dir", "fifo", "plugin", "plugin-use", "plugin-missing", "temp-file"):
            continue
        kind, ch = m
        a = c11.Applied(proj, ch)
        try:
            if kind == "manifest" or kind == "content-missing":
                before = read_tree(ctx.path("box")) if not any(isinstance(v, tuple) for v in ch.values()) else None
                ctx.build_fails(proj, kind)
                if before is not None:
                    d = diff_trees(before, read_tree(ctx.path("box")))
                    ctx.require(d is None, "outside-change", lambda: "a failing build changed: " + d)
            else:
                before = read_tree(ctx.path("box"))
                monitored(ctx, proj, (), None, False, ok=False, what=" with a mistake (%s)" % kind)
                d = diff_trees(before, read_tree(ctx.path("box")))
                ctx.require(d is None, "outside-change", lambda: "a failing build (%s) changed: %s" % (kind, d))
        finally:
            a.revert()
        ctx.observed(1, (kind, sorted(ch)), failing=1)


SCENARIOS = [Scenario("names", sc_names, 1400, 18000), Scenario("outputs", sc_outputs, 350, 4000), Scenario("links", sc_links, 240, 2000), Scenario("reads", sc_reads, 300, 3000), Scenario("failing", sc_failing, 250, 3000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2.5, 5
