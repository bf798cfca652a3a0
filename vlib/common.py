"""Shared steps of the scenarios: building a generated site and comparing it with the model."""
import os, subprocess

from .harness import *
from .model import *
from . import gen as G


def md_to_html(exe, texts):
    """Converts markdown texts with the independent oracle process (pulldown-cmark alone)."""
    data = b"".join(b"%d\n%s" % (len(t.encode("utf-8")), t.encode("utf-8")) for t in texts)
    out = subprocess.run([exe], input=data, stdout=subprocess.PIPE, check=True).stdout
    res, i = [], 0
    for _ in texts:
        j = out.index(b"\n", i)
        n = int(out[i:j])
        res.append(out[j + 1:j + 1 + n].decode("utf-8"))
        i = j + 1 + n
    return res


def manifest(name="site", author=None, **settings):
    s = '[site]\nname = "%s"\n' % name
    if author is not None:
        s += 'author = "%s"\n' % author
    if settings:
        s += "\n[settings]\n" + "".join("%s = %s\n" % (k, str(v).lower()) for k, v in settings.items())
    return s


def write_project(root, site, static=None, settings=None, name="site", more=None):
    files = {"stuart.toml": manifest(name, **(settings or {}))}
    for p, v in site.sources().items():
        files["content/" + p] = v
    for p, v in (static or {}).items():
        files["static/" + p] = v
    files.update(more or {})
    write_tree(root, files, ["content"] + ["content/" + d for d in site.dirs])


def expected_pages(site, ctx=None, drop=True):
    """Evaluates all pages by the model. Pages that must not or need not build are dropped from the site."""
    if any(isinstance(f, Md) for f in site.files.values()):
        while True:
            try:
                site.preprocess(lambda t: md_to_html(ctx.mdoracle, t))
                break
            except BuildError as e:
                if not drop:
                    raise
                del site.files[e.file]
            except Unspecified:
                raise Discard()
    pages = {}
    for p, f in sorted(site.files.items()):
        if is_page(p, f):
            try:
                pages[p] = site.page(p)
            except (BuildError, Unspecified):
                if not drop:
                    raise
                if isinstance(f, Md):
                    raise Discard()
    if drop:
        for p in [p for p, f in site.files.items() if isinstance(f, Html) and is_page(p, f) and p not in pages]:
            del site.files[p]
    return pages


def compare_pages(ctx, site, pages, out, strip, sig, what="page"):
    """Compares every page in the output directory with the model's, and counts it as an observation."""
    for p, want in pages.items():
        q = os.path.join(out, out_path(p, strip))
        try:
            got = open(q, "rb").read()
        except OSError:
            raise Violation(sig + "-missing", "%s %s was not output to %s" % (what, p, out_path(p, strip)))
        if got != want:
            src = site.files[p].source()
            raise Violation(sig, "%s %s: %s\n  source: %s" % (what, p, diff_bytes(want, got), src[:1500]))


def tags(nodes, depth=0):
    """All nodes with their depth."""
    for n in nodes:
        yield n, depth
        for attr in ("body", "then", "orelse"):
            b = getattr(n, attr, None)
            if b:
                yield from tags(b, depth + 1)


def count_nodes(ctx, nodes):
    for n, d in tags(nodes):
        name = type(n).__name__.lower()
        if isinstance(n, If):
            name = "if" + n.op
        elif isinstance(n, Call):
            name = n.name
        elif isinstance(n, For):
            name = "for-" + n.source[0]
        ctx.feats[name] += 1
        if d >= 3:
            ctx.feats["depth>=3"] += 1


def simple_root():
    return Html([Raw("<html>"), Insert("body"), Raw("</html>")])


ROOT = simple_root()


def build_and_compare(ctx, site, sig, settings=None, name="p"):
    pages = expected_pages(site, ctx)
    if not pages:
        raise Discard()
    proj = ctx.path(name)
    write_project(proj, site, settings=settings)
    ctx.build_ok(proj)
    compare_pages(ctx, site, pages, os.path.join(proj, "dist"), (settings or {}).get("strip_extensions", True), sig)
    for p in pages:
        ctx.observed(1, site.files[p].source())
        if isinstance(site.files[p], Html):
            count_nodes(ctx, site.files[p].nodes)
    p = next(iter(pages))
    ctx.sample = {"source": site.files[p].source(), "output": pages[p].decode()}
    return pages


def merge_section(body, name="body"):
    return G.merge([Section(name, body)])
