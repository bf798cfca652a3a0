"""C10: filename conflicts."""
import re

from ..common import *

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: verdicts and trees of the real program compared with a model of which inputs claim which output path"
RULE = ("small random trees of content, static and temp over few names, so that files, directories, stripped pages and renamed markdown pages collide in every way, with both values of strip_extensions and save_data_files; "
        "an independent computation of the output paths decides whether there is a conflict; an observation is a build that has to fail with a conflict naming two inputs that do collide, with the previous output untouched, "
        "or one that has to succeed with exactly the expected output; distinct by tree and settings")
ASSUMPTIONS = ["inputs of different trees with the same path (markdown counting as HTML) of which not both are output to it are left open and not generated"]

NAMES = ["a", "b", "a.html", "b.html", "a.md", "b.md", "index.html", "index.md", "a.json", "b.json", "a.txt", "A", "a.html.html", "a.htm", ".html", "..html"]
DIRS = ["a", "b", "a.html", "a.json", "index.html", "A", "c", "a.md", "b.html"]


def random_tree(r, content, depth=0):
    """name -> None for an empty directory, bytes for a file, relative paths."""
    out = {}
    used = set()
    for _ in range(r.choice([1, 1, 2, 2, 3]) if depth == 0 else r.choice([0, 1, 1, 2])):
        if depth < 3 and r.random() < 0.4:
            n = r.choice(DIRS)
            if n in used:
                continue
            used.add(n)
            out[n] = None
            for p, v in random_tree(r, content, depth + 1).items():
                out[n + "/" + p] = v
        else:
            n = r.choice(NAMES)
            if n in used:
                continue
            used.add(n)
            if content:
                v = '{{ begin("body") }}%s{{ end("body") }}' if n.endswith(".html") and n != ".html" else "text %s" if n.endswith(".md") else "[\"%s\"]" if n.endswith(".json") else "file %s"
                out[n] = (v % ("x%d" % r.choice([0, 0, r.randrange(10**6)]))).encode()
                if r.random() < 0.2 and not n.endswith(".json"):
                    # Nothing at all; then the page may be empty, too.
                    out[n] = b'{{ begin("body") }}{{ end("body") }}' if n.endswith(".html") and n != ".html" else b""
            else:
                # Sometimes the same as the contents or the output of another input: still a conflict.
                out[n] = r.choice([b"static %d" % r.randrange(10**6), b"file x0", b"<x0>", b'{{ begin("body") }}x0{{ end("body") }}', b'["x0"]', b""])
    return out


def claims(tree, top, strip, data, wrap):
    """All (output path, is directory, input, bytes or None) that the tree's entries stand for."""
    out = []
    for p, v in tree.items():
        src = top + "/" + p
        name = p.rsplit("/", 1)[-1]
        if v is None:
            out.append((p, True, src, None))
        elif top != "content":
            out.append((p, False, src, v))
        elif name in ("root.html", "md.html") or name.endswith(".json") and not data:
            continue
        else:
            page = name.endswith((".html", ".md")) and name not in (".html", ".md")
            q = out_path(p, strip) if page else p
            if page and q.rsplit("/", 1)[0] != p.rsplit("/", 1)[0] and q.count("/") > p.count("/"):
                out.append((q.rsplit("/", 1)[0], True, src, None))
            if name.endswith(".html") and page:
                t = re.search(rb"\}\}(.*)\{\{", v).group(1)
                v = wrap.encode() % t
            elif name.endswith(".md") and page:
                v = wrap.encode() % (b"<p>" + v + b"</p>\n" if v else b"")
            out.append((q, False, src, v))
    return out


def key(p):
    return p[:-3] + ".html" if p.endswith(".md") and p.rsplit("/", 1)[-1] != ".md" else p


def analyse(trees, strip, data, wrap):
    """(set of conflicting pairs of inputs, output tree, whether anything is left open)."""
    all_claims = [c for top, t in trees.items() for c in claims(t, top, strip, data, wrap)]
    by_path = {}
    for c in all_claims:
        by_path.setdefault(c[0], []).append(c)
    pairs = set()
    tree = {}
    for p, cs in by_path.items():
        for i, x in enumerate(cs):
            for y in cs[i + 1:]:
                if not (x[1] and y[1]) and x[2] != y[2]:
                    pairs.add(frozenset((x[2], y[2])))
        tree[p] = next((c[3] for c in cs if not c[1]), None)
    # Two inputs at the same place that do not conflict by what is output.
    seen = {}
    open_ = False
    for top, t in trees.items():
        for p, v in t.items():
            k = key(p) if top == "content" and v is not None else p
            src = top + "/" + p
            for other, ov in seen.get(k, []):
                if not (v is None and ov is None) and frozenset((src, other)) not in pairs:
                    open_ = True
            seen.setdefault(k, []).append((src, v))
    return pairs, tree, open_


def write_trees(proj, trees, settings, wrap="<%s>"):
    files = {"stuart.toml": manifest(**settings), "content/root.html": wrap % '{{ insert("body") }}', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}'}
    dirs = []
    for top, t in trees.items():
        for p, v in t.items():
            if v is None:
                dirs.append(top + "/" + p)
            else:
                files[top + "/" + p] = v
    write_tree(proj, files, dirs)


def decide(ctx, trees, settings):
    strip, data = settings["strip_extensions"], settings["save_data_files"]
    # With the empty one an empty page has empty output.
    wrap = ctx.rng.choice(["<%s>", "<%s>", "%s"])
    pairs, tree, open_ = analyse(trees, strip, data, wrap)
    if open_:
        raise Discard()
    proj = ctx.path("p")
    write_trees(proj, trees, dict(settings, save_metadata=True), wrap)
    old = {"index.html": b"previous", "a": None, "a/x": b"y"}
    write_tree(proj, {"dist/" + p: v for p, v in old.items() if v is not None})
    write_tree(proj, {"metadata.json": b"previous"})
    shape = {t: sorted((p, v is None) for p, v in tr.items()) for t, tr in trees.items()}
    if pairs:
        res = ctx.build_fails(proj, "inputs would be saved to the same path: %s" % [sorted(p) for p in pairs][:3])
        m = re.search(r"filename conflict between `(.*?)` and `(.*?)`", res.errtext(), re.S)
        ctx.require(m, "conflict-message", lambda: "the error does not speak of a filename conflict: " + res.errtext()[:300])
        got = frozenset(m.groups())
        ctx.require(got in pairs, "conflict-names", lambda: "the message names %s, but the conflicts are %s" % (sorted(got), [sorted(p) for p in pairs]))
        d = diff_trees(old, read_tree(os.path.join(proj, "dist")))
        ctx.require(d is None, "conflict-output", lambda: "the previous output changed although the build failed: " + d)
        ctx.require(open(os.path.join(proj, "metadata.json"), "rb").read() == b"previous", "conflict-metadata", "the previous metadata changed although the build failed")
        ctx.observed(1, (repr(shape), settings), conflict=1)
        tops = sorted({p.split("/")[0] for p in next(iter(pairs))})
        ctx.feature("conflict-" + "-".join(tops))
        ctx.sample = {"inputs": shape, "settings": settings, "message": res.errtext().strip()}
    else:
        ctx.build_ok(proj)
        d = diff_trees(tree, read_tree(os.path.join(proj, "dist")))
        ctx.require(d is None, "merged-output", lambda: "merged output (%s, strip=%s): %s" % (shape, strip, d))
        ctx.observed(1, (repr(shape), settings), no_conflict=1)
        merged = [p for p, v in trees["content"].items() if v is None and trees["static"].get(p, 0) is None]
        ctx.feature("merged-directories", len(merged))
        ctx.feature("merged-directories-deep", len([p for p in merged if "/" in p]))


def sc_random(ctx):
    r = ctx.rng
    settings = {"strip_extensions": r.random() < 0.65, "save_data_files": r.random() < 0.5}
    trees = {"content": random_tree(r, True), "static": random_tree(r, False), "temp": random_tree(r, False) if r.random() < 0.5 else {}}
    decide(ctx, trees, settings)


def sc_single(ctx):
    """A larger tree without conflicts, and then one conflict somewhere deep in it."""
    r = ctx.rng
    settings = {"strip_extensions": r.random() < 0.65, "save_data_files": r.random() < 0.5}
    strip = settings["strip_extensions"]
    dirs = ["", "x", "x/y", "x/y/z", "Ü", "q.r"]
    trees = {"content": {}, "static": {}, "temp": {}}

    def put(top, p, kind=None):
        parts = p.split("/")
        for i in range(1, len(parts)):
            trees[top]["/".join(parts[:i])] = None
        if kind == "dir":
            trees[top][p] = None
            return
        n = parts[-1]
        t = r.choice(["u%d" % r.choice([0, r.randrange(10**6)])] * 4 + [""])
        if top == "content":
            trees[top][p] = (('{{ begin("body") }}%s{{ end("body") }}' if n.endswith(".html") else "text %s" if n.endswith(".md") else "[\"%s\"]" if n.endswith(".json") else "file %s") % t).encode()
        else:
            trees[top][p] = r.choice(["%s", "file %s", "<%s>"]).encode() % t.encode()

    for i in range(r.randint(3, 10)):
        top = r.choice(["content", "content", "static", "temp"])
        d = r.choice(dirs)
        put(top, (d + "/" if d else "") + "f%d%s" % (i, r.choice([".html", ".md", ".txt", "", ".json", ".html"])))
    if r.random() < 0.75:
        d = r.choice(dirs[1:])
        b = d + "/" + r.choice(["n", "long-name", "é", "n.m"])
        other = r.choice(["static", "temp"])
        kinds = [
            [("content", b + ".txt"), (other, b + ".txt")], [("content", b + ".html"), ("content", b + ".md")], [("static", b + ".css"), ("temp", b + ".css")], [("content", b), (other, b + "/in/x.txt")], [("content", b + "/x.txt"), (other, b)],
            [("static", b + "/x.txt"), ("temp", b)], [("static", b), ("temp", b + "/x.txt")],
        ]
        if strip:
            kinds += [
                [("content", b + ".html"), ("content", b + "/index.html")], [("content", b + ".html"), ("content", b + "/index.md")], [("content", b + ".md"), ("content", b + "/index.html")], [("content", b + ".md"), ("content", b + "/index.md")],
                [("content", b + ".html"), (other, b + "/index.html")], [("content", b + ".md"), (other, b + "/index.html")], [("content", b + ".html"), (other, b)], [("content", b + ".html"), ("content", b)], [("content", b + ".md"), ("content", b)],
                [("content", b + ".md"), (other, b)], [("content", b + ".html"), (other, b + "/index.html/x.txt")], [("content", b + "/index.html.html"), (other, b + "/index.html")],
            ]
        else:
            kinds += [[("content", b + ".html"), (other, b + ".html")], [("content", b + ".md"), (other, b + ".html")]]
        if settings["save_data_files"]:
            kinds += [[("content", b + ".json"), (other, b + ".json")], [("content", b + ".json"), (other, b + ".json/x")]]
        for top, p in r.choice(kinds):
            put(top, p)
    decide(ctx, trees, settings)


SCENARIOS = [Scenario("random", sc_random, 4000, 40000), Scenario("single", sc_single, 2500, 25000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 4, 11
