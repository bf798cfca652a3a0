"""C07: markdown pages."""
from ..common import *

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared with a reference model and the markdown library called directly"
RULE = ("random trees of markdown files with frontmatter in many notations, bodies using all features of the markdown converter mixed with tags, CRLF and LF, md.html and root.html at random levels, and pages that loop over the directories; "
        "an observation is a page compared byte for byte with the reference model, whose HTML comes from a separate process running the markdown library alone, or a build that has to fail; distinct by source")
ASSUMPTIONS = ["the markdown library (pulldown-cmark with all extensions) is trusted", "left open and not generated: blank or duplicate lines in frontmatter, entries called content or markdown, lone carriage returns"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


BLOCKS = ["# Heading\n", "Setext\n===\n", "## H2 {#id .cls}\n", "Some *emph* and **strong** and `code`.\n", "- a\n- b\n  - c\n", "1. one\n2. two\n", "> quote\n> more\n", "```rust\nfn main() {\n    let x = 1;\n}\n```\n",
          "    indented code\n", "| a | b |\n|---|:-:|\n| 1 | 2 |\n", "~~gone~~ text\n", "- [ ] todo\n- [x] done\n", "A footnote[^1].\n\n[^1]: The note.\n", "[link](http://example.com \"t\") ![img](a.png)\n",
          "<div class=\"x\">\n\n*inner*\n\n</div>\n", "<b>inline</b> & &amp; &copy; <\n", "---\n", "***\n", "line one  \nline two\\\nline three\n", "\"quotes\" -- and --- dashes... 'single'\n", "https://example.com <http://a.b>\n",
          "Ünïcödé 日本語 😀\n", "\\*not emph\\* \\# \\[\n", "term\n: definition\n", "a | b\n", "[ref]\n\n[ref]: /url 'title'\n", "\ttab\n", "trailing spaces   \n", "{ braces } }} {\n", "a\u00a0b\u200bc\n", "<!-- comment -->\n", "---\ntitle: not frontmatter\n---\n",
          "key: \"value\"\n", "$x $ $$math$$\n", "\n\n\n", "* * *\n", "Hello\n---\nworld\n", "<script>if (a < b && c) {}</script>\n", "x\n", "`` ` ``\n", "+ plus\n", "[^2]\n\n[^2]: two\n    more\n"]
VALUES = ["simple", "", " ", "  padded  ", "with \"quotes\" inside", "\"", "\"\"", "a: b", ":", "key: \"nested\"", "http://x.y/z?a=b", "Ünï 日本 😀", "---", "---x", "{{ $x }}", "{{", "\\{{ $x }}", "<b>&amp;</b>", "it's", "#", "[1, 2]", "true", "123", "a\\b", "tab\there",
          "'single'", "trailing:", "x" * 300, "\u00a0nbsp\u00a0", "}}", "null", "~", "| pipe", "a,b", "\\", "\\\"", "-", "é"]
KEYS = ["content", "markdown", "title", "author", "date", "k1", "tags", "Title", "x_y", "größe", "t2", "slug", "a", "description"]


def fm_style(r):
    def one(k, v):
        return r.choice(['%s: "%s"'] * 6 + ['%s:"%s"', '  %s  :   "%s"   ', '%s\t:\t"%s"\t', '%s :"%s" ', '\u3000%s\u00a0:\u2003"%s"\u00a0', '\x0c%s\x0b: "%s"\x0b']) % (k, v)
    return one


class FixedMd(Md):
    """Frontmatter is written once, since its style is random."""

    def front(self):
        if not hasattr(self, "lines"):
            self.lines = super().front()
        return self.lines


def make_md(g, r, scope, deep=True):
    fm = None
    if r.random() < 0.85:
        fm = [("id", "n%d" % g.uid())] + [(k, r.choice(VALUES)) for k in r.sample(KEYS, r.choice([0, 1, 2, 3, 6]))]
    body = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        x = r.random()
        if x < 0.65:
            body.append(Raw(r.choice(BLOCKS) + r.choice(["", "\n"])))
        elif x < 0.75:
            body.append(Raw(r.choice(["text ", "*a", "b* ", "(", ") ", "`", "- "])))
        else:
            body += g.body(scope, 2, 1)
    if fm is None and body:
        body = [Raw(r.choice(["Text first.\n", "# T\n", " ---\n", "----\n", "-- -\n", "\n---\n", "--\n", "\ufeff---\na: \"b\"\n---\n", "title: \"x\"\n\n"]))] + body
    for n in body:
        if isinstance(n, Raw):
            n.text = n.text.replace("\r", "")
    def clean(nodes):
        for n, _ in tags(nodes):
            if isinstance(n, Raw):
                n.text = n.text.replace("\r", "")
    clean(body)
    body = G.merge(body)
    return FixedMd(fm, body, g.style(0.3), r.choice(["\n", "\n", "\r\n"]), fm_style(r) if r.random() < 0.5 else None)


def sc_sites(ctx):
    r = ctx.rng
    g = G.Gen(r, {"section": 0.2, "for": 1.5}, plain=True, max_depth=4)
    files = g.data_files(2, 2)
    if r.random() < 0.3:
        # Iterating over markdown within markdown.
        g.md_dirs.append("posts/")
        g.values["posts/"] = [{"id": "x", "markdown": "m"}]
    dirs = ["", "posts", "posts/deep", "a/b"]
    secs = r.choice([["body"], ["body", "head"]])
    for d in dirs:
        pre = d + "/" if d else ""
        if d == "" or r.random() < 0.4:
            files[pre + "root.html"] = Html(G.merge([Raw("<r%s>" % d)] + [x for s in secs for x in (Insert(s), Raw("|"))]))
        if d == "" or r.random() < 0.4:
            parts = {"body": [Var("self.content")], "head": [IfDef("self.title", [Var("self.title")], [Raw("untitled")])]}
            extra = []
            for k in r.sample(KEYS + ["id", "nothing"], 4):
                extra += [Raw(k + "="), IfDef("self." + k, [Var("self." + k)], [Raw("-")]), Raw("\n")]
            if r.random() < 0.5:
                extra += [Raw("<pre>"), Var("self.markdown"), Raw("</pre>")]
            if r.random() < 0.3:
                extra += [timetoread("self.content"), Raw(";"), timetoread("self.markdown")]
            if r.random() < 0.3:
                extra += [For("other", ("md", "posts/"), [IfDef("other.id", [Var("other.id")], [Raw("?")]), Raw(","), Var("self.content")])]
            files[pre + "md.html"] = Html(G.merge([Raw("outside" + d)] + [Section(s, [Raw("<%s%s>" % (s, d))] + parts[s] + (extra if s == "body" else [])) for s in secs]), g.style(0.3))
        for i in range(r.randint(0, 3)):
            files[pre + r.choice(["index.md", "p%d.md", "a.b%d.md", "Ü %d.md", "x.html%d.md", "x%d.md.md", "y%d.html.md", "md%d.md", "-%d.md", "root%d.md.md.md"]).replace("%d", str(i))] = make_md(g, r, [{}])
    if not any(isinstance(f, Md) for f in files.values()):
        files["posts/x.md"] = make_md(g, r, [{}])
    for i, d in enumerate(["posts/", "./", "a/b/"]):
        if d.strip("./") and not any(p.startswith(d) for p in files):
            continue
        inner = [Raw("<li>"), Var("post.content"), Raw("~"), Var("post.markdown"), Raw("~")]
        for k in r.sample(KEYS + ["id"], 4):
            inner += [IfDef("post." + k, [Var("post." + k)], [Raw("-")]), Raw(";")]
        files["list%d.html" % i] = Html([Section(s, [For("post", ("md", d), inner)] if s == "body" else []) for s in secs])
    pages = build_and_compare(ctx, Site(files), "markdown", {"strip_extensions": r.random() < 0.7})
    for p in pages:
        f = files[p]
        if isinstance(f, Md):
            ctx.feature("md-crlf" if f.eol != "\n" else "md-lf")
            ctx.feature("md-plain" if f.frontmatter is None else "md-frontmatter")
            count_nodes(ctx, f.body)


def sc_invalid(ctx):
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": ROOT, "md.html": Html([Section("body", [Var("self.content")])]), "posts/ok.md": Md([("a", "b")], [Raw("fine\n")]), "index.html": Html([Section("body", [Raw("x")])])}
    kind = r.choice(["line", "unclosed", "no-md", "no-root", "md-section"])
    good = ['a%d: "b"' % i for i in range(r.randint(0, 3))]
    body = "".join(r.choice(BLOCKS[:10]) for _ in range(r.randint(0, 3)))
    if kind == "line":
        bad = r.choice(["title: value", "title", "title: 'x'", 'title: "x', 'title: x"', 'title "x"', "- item", "title: 5", "title:", 'title = "x"', "title: true", "# comment", 'title: "', "title: [\"x\"]", 'title: x "y"', 'title: "x" y'])
        lines = good + [bad]
        r.shuffle(lines)
        src = "---\n" + "\n".join(lines) + "\n---\n" + body
        what = "malformed frontmatter: %r" % bad
    elif kind == "unclosed":
        src = "---\n" + "".join(l + "\n" for l in good) + r.choice(["", "--\n", "- --\n"][:1 if not good else 1])
        src += r.choice(["", 'x: "y"', 'x: "y"\n', 'x: "---"\n'])
        what = "frontmatter that is not closed: %r" % src
    else:
        src = "---\n" + "".join(l + "\n" for l in good) + "---\n" + body
        what = kind
        if kind == "no-md":
            del files["md.html"]
            del files["posts/ok.md"]
            files["other/md.html"] = Html([Section("body", [Var("self.content")])])
        elif kind == "no-root":
            del files["root.html"]
            for p in ("other", "posts"):
                files[p + "/root.html"] = ROOT
            del files["index.html"]
        else:
            files["bad/md.html"] = Html([Section(r.choice(["Body", "bod", "head"]), [Var("self.content")])])
    if r.random() < 0.4:
        src = src.replace("\n", "\r\n")
    files["bad/page.md"] = Other(src.encode())
    proj = ctx.path("p")
    write_project(proj, Site(files))
    res = ctx.build_fails(proj, what)
    ctx.observed(1, (kind, src), **{kind: 1})
    ctx.sample = {"source": src, "message": res.errtext()}


SCENARIOS = [Scenario("sites", sc_sites, 1200, 14000), Scenario("invalid", sc_invalid, 500, 4000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 8, 18
