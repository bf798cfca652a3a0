"""C11: failing builds leave the previous output alone."""
import shutil

from ..common import *
from .. import sites as S
from .c17 import failing_tag
from .c25 import plain_source, plant, targets

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: snapshots of the output and metadata around builds that are made to fail by one random mistake, and after its correction"
RULE = ("random sites with static files, metadata and scripts, built (or never built, or edited since), in which one mistake at a time is made anywhere: tags that do not parse or process, in any page, template or markdown file, broken or missing data, templates, sections, frontmatter, encodings, unreadable, "
        "dangling or special files, conflicts, an invalid manifest, plugins that do not load or throw, scripts that fail, overlapping outputs; an observation is a build that fails with code 1 and an error and leaves the output tree, metadata.json and all inputs as they were, and the build of the corrected project, "
        "which equals the reference model and the metadata of a clean build; distinct by kind of mistake, file and previous state")
ASSUMPTIONS = ["errors of post-build scripts and of saving itself come after the output has been replaced (C13, C15)"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


def scripts_of(r):
    """Scripts of a valid project."""
    out = {}
    if r.random() < 0.3:
        out["scripts/onPreBuild"] = 'mkdir -p "$STUART_TEMP_DIR/gen"; echo generated > "$STUART_TEMP_DIR/gen/t.txt"\n'
    if r.random() < 0.15:
        out["scripts/onPostBuild.sh"] = "true\n"
    return out


PLUGIN = 'export default { name: "plug", version: "1", functions: [ { name: "fine", fn: () => "ok" }, { name: "throws", fn: () => { throw new Error("x") } }, { name: "notfn", fn: 5 } ] }\n'

MANIFESTS = ["", "[site]\n", "[settings]\nstrip_extensions = true\n", "[site]\nname = 5\n", "[site]\nname = \"x\"\nauthor = 3\n", "site = 3\n", "[site]\nname = \"x\"\n[settings]\nstrip_extensions = \"yes\"\n", "[site]\nname = \"x\"\n[settings]\nsave_metadata = 1\n",
             "[site]\nname = \"x\"\n[settings\n", "[site]\nname = x\n", "[site]\nname = \"x\"\nname = \"y\"\n", "[site]\nname = \"x\"\n[dependencies]\na = 3\n", "dependencies = 1\n[site]\nname = \"x\"\n", "\xff[site]\nname = \"x\"\n", "{}", "[[site]]\nname = \"x\"\n",
             "settings = 5\n[site]\nname = \"x\"\n", "[site]\nname = \"x\n", b"[site]\nname = \"\xff\"\n", None]


def mistakes(ctx, r, site, pages, seen, settings, static):
    """(kind, files to write (None: remove), extra) of one random mistake, or None."""
    x = r.random()
    ts = targets(site, pages)
    if x < 0.3:
        path = r.choice(ts)
        d = plant(r, site, path, seen)
        return d and ("parse-" + d[1], {"content/" + path: d[0]})
    if x < 0.5:
        path = r.choice(ts)
        f = site.files[path]
        pos = S.positions(f, seen)
        if not pos:
            return None
        lst, i, chain = r.choice(pos)
        src, kind, _ = failing_tag(r, site, chain)
        v = Verbatim(src)
        lst.insert(i, v)
        text = plain_source(f, lambda line: Writer(None, line))
        lst.remove(v)
        return "process-" + kind, {"content/" + path: text}
    jsons = [p for p, f in site.files.items() if isinstance(f, Json)]
    mds = [p for p, f in site.files.items() if isinstance(f, Md)]
    dirs = sorted({p.rsplit("/", 1)[0] + "/" if "/" in p else "" for p in site.files})
    d = r.choice(dirs)
    new = d + "zz new"
    k = r.choice(["root-missing", "md-missing", "section-missing", "json", "json-new", "encoding", "encoding-new", "frontmatter", "frontmatter-new", "conflict", "conflict", "manifest", "manifest", "plugin", "plugin-use", "plugin-missing", "script", "script", "unreadable", "unreadable-dir", "dangling", "fifo",
                  "content-missing", "static-file", "temp-file", "data-missing", "overlap", "loop-self"])
    if k == "root-missing":
        return k, {"content/" + p: None for p in site.files if p.endswith("root.html") and p.rsplit("/", 1)[-1] == "root.html"}
    if k == "md-missing":
        return (k, {"content/" + p: None for p in site.files if p.rsplit("/", 1)[-1] == "md.html"}) if mds else None
    if k == "section-missing":
        return k, {"content/" + new + ".html": "no section here"}
    if k in ("json", "json-new"):
        p = r.choice(jsons) if k == "json" and jsons else new + ".json"
        return k, {"content/" + p: r.choice(["", "{", '{"a": }', "[1, 2", "nul", "{'a': 1}", '"open', "[1] [2]", b"[\"\xff\"]", "\n"])}
    if k in ("encoding", "encoding-new"):
        ps = sorted(p for p in site.files if p.endswith((".html", ".md", ".json")))
        p = r.choice(ps) if k == "encoding" else new + r.choice([".html", ".md", ".json"])
        f = site.files.get(p)
        old = (f.source() if f else "x")
        old = old.encode() if isinstance(old, str) else old
        i = r.randint(0, len(old))
        return k, {"content/" + p: old[:i] + r.choice([b"\xff", b"\xc3", b"\xed\xa0\x80", b"\xc0\x80"]) + b" " + old[i:].decode("utf-8", "ignore").encode()}
    if k in ("frontmatter", "frontmatter-new"):
        p = r.choice(mds) if k == "frontmatter" and mds else new + ".md"
        return k, {"content/" + p: r.choice(["---\ntitle: x\n---\n", "---\ntitle: \"x\"\n", "---\n", "---\r\ntitle \"x\"\r\n---\r\nb", "---\n- a\n---\n"])}
    if k == "conflict":
        strip = settings["strip_extensions"]
        p = r.choice(sorted(pages))
        o = out_path(p, strip)
        opts = [{"static/" + o: "x"}, {"static/" + o + "/x": "y"}]
        stem = p.rsplit(".", 1)[0]
        if p.endswith(".md"):
            opts.append({"content/" + stem + ".html": '{{ begin("body") }}{{ end("body") }}{{ begin("head") }}{{ end("head") }}{{ begin("foot") }}{{ end("foot") }}'})
        if strip and "/" in o and o.endswith("/index.html") and not p.endswith("index.html"):
            opts += [{"static/" + o.rsplit("/", 1)[0]: "x"}]
        return k, r.choice(opts)
    if k == "manifest":
        return k, {"stuart.toml": r.choice(MANIFESTS)}
    if k == "plugin":
        src = r.choice(["x.mjs", "static/nothing.so", "x.so;x.mjs", "/nonexistent/x.js", ""])
        body = r.choice(["export default {", "throw new Error('top')", "export default 5;", "export const a = 1;", "export default { name: 'x' }", "import x from './y.mjs'; export default x.z.y", "export default { name: 'x', version: '1', functions: 3, get functions() { throw 1 } }", b"\xff\xfe"])
        return k, {"stuart.toml": manifest(**settings) + '\n[dependencies]\nplug = "%s"\n' % src, "x.mjs": body}
    if k == "plugin-use":
        p = r.choice(sorted(x for x in pages if x.endswith(".html")) or [None])
        if p is None:
            return None
        call = r.choice(["throws()", "notfn()", "plug::throws()", "missing()", "plug::missing()", "other::fine()"])
        return k, {"stuart.toml": manifest(**settings) + '\n[dependencies]\nplug = "plug.mjs"\n', "plug.mjs": PLUGIN, "content/" + p: "{{ fine() }}" + site.files[p].source() + "{{ " + call + " }}"}
    if k == "plugin-missing":
        return k, {"stuart.toml": manifest(**settings) + '\n[dependencies]\nplug = "./missing.so"\n'}
    if k == "script":
        n = r.choice(["scripts/onPreBuild", "scripts/onPreBuild.sh"])
        return k, {n: r.choice(["exit 3\n", "mkdir -p temp; echo x > \"$STUART_MANIFEST_DIR/temp/half\"; exit 1\n", "false\n", "kill -9 $$\n", "if\n", "mkdir -p \"$STUART_TEMP_DIR\"; echo h > \"$STUART_TEMP_DIR/h\"; echo out; echo err >&2; exit 255\n", "nonexistent-command-x\n"])}
    if k == "unreadable":
        p = r.choice(["content/" + x for x in sorted(site.files)] + ["static/" + x for x in sorted(static)] + ["stuart.toml"])
        return k, {p: ("mode", 0)}
    if k == "unreadable-dir":
        ds = sorted({q.rsplit("/", 1)[0] for q in ["content/" + x for x in site.files] + ["static/" + x for x in static]})
        return k, {r.choice(ds): ("mode", r.choice([0, 0o100, 0o400]))}
    if k == "dangling":
        return k, {r.choice(["content/", "static/"]) + new + r.choice([".html", ".txt", ".md"]): ("link", r.choice(["nowhere", "/nonexistent/x"]))}
    if k == "fifo":
        return k, {r.choice(["content/", "static/"]) + new + r.choice([".html", ".txt", ".json"]): ("fifo",)}
    if k == "content-missing":
        return k, {"content": ("rename", "contents")}
    if k == "static-file":
        return k, {"static": ("replace", "a file")}
    if k == "temp-file":
        return k, {"temp": "a file"}
    if k == "data-missing":
        used = set()
        for f in site.files.values():
            if isinstance(f, (Html, Md)):
                for n, _ in tags(S.nodes_of(f)):
                    if id(n) in seen:
                        if isinstance(n, Import):
                            used.add(n.file_name)
        used = sorted(u for u in used if u in site.files)
        return (k, {"content/" + r.choice(used): None}) if used else None
    if k == "overlap":
        return k, {"-o": r.choice([".", "content", "static", "scripts", "content/sub", "static/x/..", "../" + "p", "./content/.", "content/blog", ".."])}
    if k == "loop-self":
        p = new + ".html"
        return k, {"content/" + p: '{{ begin("body") }}{{ for($x, "%s") }}{{ end(for) }}{{ end("body") }}' % r.choice(["zz nothing/", "root.html/", "../content/", "/", "zz.json"])}
    raise AssertionError(k)


class Applied:
    """Makes the changes of a mistake, and undoes them."""

    def __init__(self, proj, changes):
        self.undo = []
        for p, v in changes.items():
            if p == "-o":
                continue
            full = os.path.join(proj, p)
            if isinstance(v, tuple) and v[0] == "mode":
                old = os.stat(full).st_mode & 0o7777
                os.chmod(full, v[1])
                self.undo.append(lambda full=full, old=old: os.chmod(full, old))
            elif isinstance(v, tuple) and v[0] == "rename":
                other = os.path.join(proj, v[1])
                os.rename(full, other)
                self.undo.append(lambda full=full, other=other: os.rename(other, full))
            elif isinstance(v, tuple) and v[0] == "replace":
                other = full + ".away"
                had = os.path.lexists(full)
                if had:
                    os.rename(full, other)
                open(full, "w").write(v[1])
                self.undo.append(lambda full=full, other=other, had=had: (os.unlink(full), had and os.rename(other, full)))
            elif v is None:
                old = open(full, "rb").read()
                os.unlink(full)
                self.undo.append(lambda full=full, old=old: open(full, "wb").write(old))
            elif os.path.lexists(full):
                old = open(full, "rb").read()
                open(full, "wb").write(v if isinstance(v, bytes) else v.encode())
                self.undo.append(lambda full=full, old=old: open(full, "wb").write(old))
            else:
                d = full
                made = []
                while not os.path.exists(os.path.dirname(d)):
                    d = os.path.dirname(d)
                    made.append(d)
                os.makedirs(os.path.dirname(full), exist_ok=True)
                if isinstance(v, tuple) and v[0] == "link":
                    os.symlink(v[1], full)
                elif isinstance(v, tuple):
                    os.mkfifo(full)
                else:
                    open(full, "wb").write(v if isinstance(v, bytes) else v.encode())
                self.undo.append(lambda full=full, made=made: (os.unlink(full), [os.rmdir(m) for m in made]))

    def revert(self):
        for u in reversed(self.undo):
            u()


def inputs(proj, out):
    t = read_tree(proj)
    return {p: v for p, v in t.items() if p.split("/")[0] not in ("temp", out, "_build") and p != "metadata.json"}


def meta_of(proj):
    p = os.path.join(proj, "metadata.json")
    return open(p, "rb").read() if os.path.exists(p) else None


def rich_project(ctx, proj, scripts=True):
    """A random valid project, written to `proj`: (site, pages, settings, static, expected output)."""
    r = ctx.rng
    g = S.G.Gen(r, {"section": 0.7, "for": 1.5, "if": 1.5}, max_depth=4, big_text=0.01)
    site, pages = S.rich_site(ctx, g)
    settings = {"strip_extensions": r.random() < 0.7, "save_data_files": r.random() < 0.4, "save_metadata": r.random() < 0.6}
    static = {p: b"static %d \xff" % g.uid() for p in r.sample(["style.css", "img/a.png", "img/deep/b.bin", "blog/x.js", "empty", "raw.html.txt", "data.xml", "app.json", "img/list.json", "img/deep/er/data.json", "blog/notes.md", "raw/page.html", ".htaccess", ".well-known/x.json"], r.randint(0, 6))}
    more = scripts_of(r) if scripts else {}
    extra = dict(static)
    if "scripts/onPreBuild" in more:
        extra["gen/t.txt"] = b"generated\n"
    try:
        want = output_tree(site, settings["strip_extensions"], settings["save_data_files"], extra, (), pages)
    except BuildError:
        raise Discard()
    write_project(proj, site, static, settings, more=more)
    return site, pages, settings, static, want


def sc_mistakes(ctx):
    r = ctx.rng
    proj = ctx.path("p")
    site, pages, settings, static, want = rich_project(ctx, proj)
    out = "dist"
    args = []
    if r.random() < 0.2:
        out = r.choice(["public", "o u t", "a/b"])
        args = ["-o", out]
        if "/" in out:
            os.makedirs(os.path.join(proj, os.path.dirname(out)))
    odir = os.path.join(proj, out)
    state = r.choice(["built", "built", "built", "absent", "foreign"])
    if state == "built":
        ctx.build_ok(proj, args)
        d = diff_trees(want, read_tree(odir))
        ctx.require(d is None, "valid-output", lambda: "the output of the valid project: " + d)
    elif state == "foreign":
        # What is there need not be what the current inputs give.
        write_tree(odir, {"index.html": b"old", "gone/x.html": b"old", "a": b"\xff"})
        write_tree(proj, {"metadata.json": b"old metadata"})
    meta0 = None
    if settings["save_metadata"]:
        # The metadata of a clean build of the same inputs.
        other = ctx.path("q")
        shutil.copytree(proj, other, symlinks=True, ignore=lambda d, names: [n for n in names if d == proj and n in (out.split("/")[0], "metadata.json", "temp")])
        ctx.build_ok(other)
        meta0 = meta_of(other)
        shutil.rmtree(other)
    seen = S.rendered(site, ctx)
    done = 0
    for _ in range(r.randint(6, 12)):
        m = mistakes(ctx, r, site, pages, seen, settings, static)
        if m is None:
            continue
        kind, ch = m
        before_out, before_meta = read_tree(odir), meta_of(proj)
        a = Applied(proj, ch)
        a2 = args
        try:
            if "-o" in ch:
                a2 = ["-o", ch["-o"]]
                if ch["-o"] == "scripts" and not os.path.isdir(os.path.join(proj, "scripts")) or ch["-o"] == "static/x/.." or ch["-o"].startswith("static") and not os.path.isdir(os.path.join(proj, "static")) or \
                        ch["-o"] in ("content/sub", "content/blog") and not os.path.isdir(os.path.join(proj, ch["-o"])):
                    continue
            snap = None if any(isinstance(v, tuple) for v in ch.values()) else inputs(proj, out.split("/")[0])
            res = ctx.build_fails(proj, "there is a mistake (%s: %s)" % (kind, {p: (v if not isinstance(v, (str, bytes)) else v[:200]) for p, v in ch.items()}), a2)
            if snap is not None:
                d = diff_trees(snap, inputs(proj, out.split("/")[0]))
                ctx.require(d is None, "inputs-changed", lambda: "a failing build (%s) changed the inputs: %s" % (kind, d))
        finally:
            a.revert()
        d = diff_trees(before_out, read_tree(odir))
        ctx.require(d is None, "output-changed", lambda: "a failing build (%s) changed the previous output (%s): %s" % (kind, state, d))
        ctx.require(before_meta == meta_of(proj), "metadata-changed", lambda: "a failing build (%s) changed metadata.json from %r to %r" % (kind, before_meta and before_meta[:100], (meta_of(proj) or b"-")[:100]))
        if args and not os.path.exists(os.path.join(proj, "dist")) is True:
            ctx.require(not os.path.exists(os.path.join(proj, "dist")), "other-output", "a failing build created dist although another output was given")
        where = sorted(ch)[0]
        ctx.observed(1, (kind, where.rsplit(".", 1)[-1], state, sorted(settings.items()), tuple(sorted(ch.items(), key=str))), **{"mistake-" + kind.split("-")[0]: 1, kind: 1, "state-" + state: 1})
        ctx.sample = {"mistake": kind, "files": {p: str(v)[:200] for p, v in ch.items()}, "message": res.errtext()[:200]}
        done += 1
        if r.random() < 0.35 or kind == "script":
            # The corrected build; the temp of a failing script is merged into the next build.
            shutil.rmtree(os.path.join(proj, "temp"), ignore_errors=True)
            ctx.build_ok(proj, args)
            d = diff_trees(want, read_tree(odir))
            ctx.require(d is None, "corrected-output", lambda: "the output after %s was corrected: %s" % (kind, d))
            ctx.require(meta_of(proj) == (meta0 if settings["save_metadata"] else before_meta), "corrected-metadata", lambda: "metadata.json after %s was corrected" % kind)
            ctx.observed(1, None, corrected=1)
            state = "built"
        else:
            shutil.rmtree(os.path.join(proj, "temp"), ignore_errors=True)


SCENARIOS = [Scenario("mistakes", sc_mistakes, 1500, 20000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 1, 2
