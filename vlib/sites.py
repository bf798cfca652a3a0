"""Whole random sites for the scenarios about builds rather than about one feature, and defects to plant in them."""
import re

from .common import *
from . import gen as G
from . import model as M


# Every section that the templates of rich_site insert.
ALL_SECTIONS = ("body", "head", "foot", "head:main", "a b", "for:x")


def rich_site(ctx, g, n_pages=None, md=True, newline_tags=False, sections=None):
    """A valid site with data, templates at several levels, pages and markdown. Returns (site, pages)."""
    r = g.rng
    g.newline_tags = newline_tags
    files = g.data_files(r.randint(1, 3), r.randint(1, 2))
    secs = sections or r.choice([["body"], ["body", "head"], ["body", "head", "foot"], ["body", "head:main"], ["body", "a b", "for:x"]])
    dirs = ["", "blog", "blog/2022", "docs", "ü x"]
    for d in dirs:
        pre = d + "/" if d else ""
        if not d or r.random() < 0.25:
            files[pre + "root.html"] = Html(G.merge([Raw("<html %s>\n" % d)] + [x for s in secs for x in (Raw("<%s>\n" % s), Insert(s))] + [IfDef("env.HOME", [Raw("h")], [Raw("-")]), Raw("\n</html>\n")]), g.style(0.3))
        if not d or r.random() < 0.2:
            files[pre + "md.html"] = Html(G.merge([Section(s, [Raw("\n<%s>\n" % s)] + ([Var("self.content")] if s == "body" else [IfDef("self.title", [Var("self.title")])])) for s in secs]), g.style(0.3))
    for i in range(n_pages or r.randint(1, 5)):
        d = r.choice(dirs)
        files[(d + "/" if d else "") + r.choice(["index.html", "page%d.html" % i, "p %d.html" % i, "é%d.html" % i])] = Html(g.page(secs, n=r.randint(1, 4)), g.style(0.4))
    for i in range(r.randint(1, 3) if md else 0):
        d = r.choice(dirs)
        fm = [("title", "t%d" % g.uid()), ("n", str(i))][:r.randint(0, 2)]
        if r.random() < 0.25:
            fm += [("key%d" % k, "v%d" % k) for k in range(r.choice([3, 10, 11, 40, 260]))]
        body = [Raw("# Heading %d\n\nsome *text*\n\n" % g.uid())]
        for _ in range(r.randint(0, 3)):
            body += [x for x in g.body([{}], 2, 1)] + [Raw("\n\nparagraph\n")]
        for nd, _ in tags(body):
            if isinstance(nd, Raw):
                nd.text = nd.text.replace("\r", "")
        files[(d + "/" if d else "") + "post%d.md" % i] = Md(fm or None, G.merge(body), g.style(0.2), r.choice(["\n", "\n", "\r\n"]))
    site = Site(files, {"HOME": "/", "STUART_ENV": "production"})
    pages = expected_pages(site, ctx)
    if not pages:
        raise Discard()
    return site, pages


def used_templates(site, pages):
    """The templates that some page is rendered with."""
    out = set()
    for p in pages:
        out.add(site.nearest(p, "root.html"))
        if isinstance(site.files[p], Md):
            out.add(site.nearest(p, "md.html"))
    return sorted(out)


def blocks(nodes, chain=()):
    """All lists of nodes, with the chain of blocks around them: (list, ((block, attribute), ...))."""
    yield nodes, chain
    for n in nodes:
        for attr in ("body", "then", "orelse"):
            b = getattr(n, attr, None)
            if b:
                yield from blocks(b, chain + ((n, attr),))


def rendered(site, ctx):
    """The ids of all nodes that are evaluated when the site is built."""
    seen = set()
    old = M.Evaluator.eval

    def spy(self, n):
        seen.add(id(n))
        return old(self, n)
    M.Evaluator.eval = spy
    try:
        expected_pages(site, ctx, False)
    finally:
        M.Evaluator.eval = old
    return seen


def nodes_of(f):
    return f.nodes if isinstance(f, Html) else f.body


def positions(f, seen):
    """All places in front of an evaluated node, and at the ends of evaluated blocks: (list, index, chain)."""
    out = []
    for lst, chain in blocks(nodes_of(f)):
        if lst and id(lst[0]) in seen:
            out += [(lst, i, chain) for i in range(len(lst) + 1)]
        elif not chain and not lst:
            out.append((lst, 0, chain))
    return out


# -- defects of a single tag ------------------------------------------------------------------------------------------

BAD_NAMES = ["", "()", '("a")', "( )", "$", "$ a", "$-a", "-a", '"text"', "5", "a", "begin", "for", "else", "$a b", "$a, $b", "$a-b", "$$a", "$a)", "$a()", "$a = 1", "!", "// comment", "a b()", "begin.x()", "a-b()", "<b>", "$a | upper", "$a[0]", "{$a}",
             "é", 'begin "a"', 'begin["a"]', "for $a in $b", "{ $a", "a.b()", "%", "'a'", "#if"]
BAD_CALLS = ['begin()', 'begin($a)', 'begin(5)', 'begin("a", "b")', 'begin("a", x=1)', 'begin(nope)', 'begin(a b)', 'begin("a" "b")', 'begin("a"b)', "begin('a')", 'begin("a", $b)', 'begin(x="a")', 'begin(-)', 'begin(a.b)',
             'end()', 'end($a)', 'end(3)', 'end("a", "b")', 'end(nope)', 'end(x=1)', 'end(for, for)',
             'insert()', 'insert(body)', 'insert(for)', 'insert($a)', 'insert(1)', 'insert("a", "b")', 'insert("a", x=1)', 'insert(name="a")',
             'import()', 'import($a)', 'import("a", "b.json")', 'import($a, $b)', 'import($a, 3)', 'import($a, "b.json", "c")', 'import($a, "b.json", x=1)', 'import(a, "b.json")', 'import("b.json", $a)', 'import($a, file="b.json")', 'import($a-b, "b.json")',
             'for()', 'for($a)', 'for("a", "b.json")', 'for($a, "b.txt")', 'for($a, "b")', 'for($a, "b/*.md")', 'for($a, 3)', 'for($a, $b, $c)', 'for(a, $b)', 'for($a, b)', 'for($a, for)', 'for($a, "")',
             'for($a, $b, skip="1")', 'for($a, $b, skip=-1)', 'for($a, $b, skip=$n)', 'for($a, $b, skip=1, skip=2)', 'for($a, $b, limit=x)', 'for($a, $b, limit=-3)', 'for($a, $b, limit="a")', 'for($a, $b, limit=1, limit=1)', 'for($a, $b, order=asc)',
             'for($a, $b, order="up")', 'for($a, $b, order="asc", order="desc")', 'for($a, $b, order="desc", sortby=$a, order="desc")', 'for($a, $b, limit=1, skip=0, limit=2)', 'for($a, $b, skip=0, order="asc", skip=0)', 'for($a, "b.json", sortby=$a, limit=1, sortby=$a)', 'for($a, "b/", limit=0, limit=0)', 'for($a, $b, order="ASC")', 'for($a, $b, order="")', 'for($a, $b, order=1)', 'for($a, $b, order=$o)', 'for($a, $b, sortby="a")', 'for($a, $b, sortby=name)', 'for($a, $b, sortby=3)', 'for($a, $b, sortby=$a, sortby=$b)',
             'for($a, $b, foo=1)', 'for($a, $b, $limit=1)', 'for($a, $b, -limit=1)', 'for($a, $b, limit$=1)', 'for($a, $b, "limit"=1)', 'for($a, $b, li.mit=1)', 'for($a, $b, limit.=1)', 'for($a, $b, .limit=1)', 'for($a, $b, (limit=1)', 'for($a, $b, limit:=1)', 'for($a, $b, --limit=1)', 'for($a, $b, [limit]=1)', 'for($a, $b, limit!=1)', 'for($a, $b, $sortby=$a)', 'for($a, $b, order-="asc")', 'for($, $b)', 'for($a, $)', 'for($a, $b, sortby=$)', 'import($, "b.json")', 'ifdefined($)', 'ifeq($, 1)', 'ifeq(1, $)', 'excerpt($, 1)', 'timetoread($)', 'dateformat($, "%Y")', 'for($a, $b, Limit=1)', 'for($a, $b, limit=)', 'for($a, $b, =3)', 'for($a, $b, li mit=3)', 'for($a, $b, l-t=3)', 'for($a, limit=3, $b)', 'for(limit=3, $a, $b)', 'for($a, $b, limit=99999999999)', 'for($a, $b, limit=1.5)',
             'for($a, $b, limit==1)', 'for($a, $b, limit=1 2)', 'for($a, $b, order="asc)', 'for($a; $b)', 'for($a $b)',
             'ifdefined()', 'ifdefined("a")', 'ifdefined(1)', 'ifdefined($a, $b)', 'ifdefined($a-b)', 'ifdefined(a)', 'ifdefined(for)', 'ifdefined($a, x=1)', 'ifdefined(!$a)',
             'else(1)', 'else("a")', 'else(x=1)', 'else($a)', 'else(if)',
             'excerpt()', 'excerpt($a)', 'excerpt($a, "x")', 'excerpt($a, -1)', 'excerpt("a", 1)', 'excerpt($a, 1, 2)', 'excerpt($a, $b)', 'excerpt($a, length=3)', 'excerpt(3, $a)', 'excerpt($a, 99999999999)',
             'timetoread()', 'timetoread("a")', 'timetoread($a, 1)', 'timetoread(1)', 'timetoread(x=$a)', 'timetoread($a, $b)',
             'dateformat()', 'dateformat($a)', 'dateformat($a, 5)', 'dateformat("a", "b")', 'dateformat($a, "b", "c")', 'dateformat($a, $f)', 'dateformat($a, "b", x=1)', 'dateformat("%Y", $a)']
for _op in ("eq", "ne", "gt", "ge", "lt", "le"):
    BAD_CALLS += [("if%s" % _op) + a for a in ("()", "($a)", "($a, $b, $c)", "(a, b)", "($a, for)", "(for, $a)", "($a, $b, x=1)", "($a, 99999999999)", "($a == $b)", "($a, $b c)", "($a, y=$b)", "($a, 'b')", "($a, $b!)", '("a)', '($a, "x"y)')]
BAD_FUNCTIONS = ["nope()", 'Begin("a")', "if($a, $b)", 'begin2("x")', "foo::bar()", "::()", 'for_each($a, "x.json")', "endfor()", "elseif($a)", "endif()", 'BEGIN("x")', "include($a)", 'ifEq($a, $b)', "elze()", 'beginn("a")', 'ends("a")', "ifnotdefined($a)",
                 'import_json($a, "b.json")', "date($a)", "fo::r()", "é()", "begin:x()", ":begin()", "begin::begin()", "plugin::begin()", "stuart::insert()", "_()", "x(1, 2, $a, \"s\", k=1)"]


def balanced(call):
    return call.count('"') % 2 == 0


def bad_tag(r):
    """(source, kind, message fragment or None): a tag that is malformed in itself, wherever it stands."""
    x = r.random()
    if x < 0.2:
        body, kind, msg = r.choice(BAD_NAMES), "bad-name", None
        if body == "a" or body in ("begin", "for", "else", "5", "é"):
            msg = "expected `(`"
    elif x < 0.8:
        body, kind, msg = r.choice(BAD_CALLS), "bad-arguments", None
    else:
        body, kind = r.choice(BAD_FUNCTIONS), "unknown-function"
        msg = "function does not exist: `%s`" % body.split("(")[0]
    if not balanced(body):
        return "{{ " + body + " }}", "open-string", None
    pad = r.choice(["", " ", "  ", "\t"])
    return "{{" + pad + body + pad + "}}", kind, msg


UNCLOSED = ["{{ $a } z", "{{ $a z", "{{ $a } }", "{{ $a }{ }", "{{ begin(\"a\") z", "{{ begin(\"a\") } z", "{{ end(for) ) }}", "{{ begin(\"a\")) }}", "{{ $a {{ $b }}", "{{ insert(\"a\") {{ insert(\"b\") }}", "{{ $a <p>", "{{ else() - }}", "{{ else()) }}"]
UNCLOSED_AT_END = ["{{", "{{ ", "{{\t", "{{ $", "{{ $a", "{{ $a ", "{{ $a }", "{{ begin", "{{ begin(", "{{ begin(\"a", "{{ begin(\"a\"", "{{ begin(\"a\",", "{{ begin(\"a\")", "{{ begin(\"a\") }", "{{ import($a, \"b.json) }}", "{{ else(", "{{ for($a, $b, limit=", "{{ $a }"]


def unclosed_tag(r):
    return r.choice(UNCLOSED)


# -- defects of blocks ------------------------------------------------------------------------------------------------

def in_conditional(chain):
    return bool(chain) and isinstance(chain[-1][0], (If, IfDef))


def stray(r, site, chain):
    """(source, kind): a tag that is well formed but has no business at this place."""
    arrays = [p for p, f in site.files.items() if isinstance(f, Json) and isinstance(f.value, list)]
    opts = [('{{ end("stray") }}', "stray-end"), ("{{ end(for) }}", "stray-end"), ("{{ end(ifeq) }}", "stray-end"), ("{{ end(ifdefined) }}", "stray-end"), ("{{ end(ifle) }}", "stray-end"), ('{{ end("") }}', "stray-end"),
            ('{{ begin("open") }}', "unclosed-section"), ("{{ ifdefined($q_q) }}", "unclosed-conditional"), ("{{ ifdefined($env) }}", "unclosed-conditional"), ("{{ ifeq(1, 1) }}", "unclosed-conditional"),
            ("{{ ifne(1, 1) }}", "unclosed-conditional"), ("{{ iflt(1, 2) }}yes{{ else() }}no", "unclosed-conditional"), ("{{ ifgt(1, 2) }}yes{{ else() }}no", "unclosed-conditional"), ('{{ ifeq("a", "b") }}', "unclosed-conditional")]
    if chain and isinstance(chain[-1][0], Section):
        opts.append(('{{ end("%s") }}' % chain[-1][0].name, "stray-end"))
    if arrays:
        opts.append(('{{ for($z_z, "%s") }}' % r.choice(arrays), "unclosed-loop"))
        opts.append(('{{ for($z_z, "%s", limit=0) }}' % r.choice(arrays), "unclosed-loop"))
    if not in_conditional(chain):
        opts += [("{{ else() }}", "stray-else")] * 3
    return r.choice(opts)


class BrokenWriter(Writer):
    """Renders all but one tag of a block as they are."""

    def __init__(self, style, node, attr, how, line=1):
        super().__init__(style, line)
        self.target, self.tattr, self.how = node, attr, how

    def call(self, name, args, node=None, attr="line"):
        if node is self.target and attr == self.tattr:
            if self.how == "drop":
                return
            if self.how == "twice":
                super().call(name, args, node, attr)
            else:
                name, args = self.how
        super().call(name, args, node, attr)


def break_block(r, site, f, seen):
    """(source of the nodes, kind): an evaluated block of the file loses a tag, or gets another in its place."""
    cand = [n for n, _ in tags(nodes_of(f)) if id(n) in seen and isinstance(n, (Section, For, If, IfDef))]
    if not cand:
        return None
    n = r.choice(cand)
    own = "for" if isinstance(n, For) else "if" + n.op if isinstance(n, If) else "ifdefined" if isinstance(n, IfDef) else None
    x = r.random()
    if x < 0.35:
        attr, how, kind = "end", "drop", "end-dropped"
    elif x < 0.5:
        # Without its beginning, the end of a block stands alone.
        attr, how, kind = "line", "drop", "begin-dropped"
    elif x < 0.9:
        others = [l for l in ("for", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "ifdefined") if l != own] + ['"other"', '"%s"' % (own or n.name + "2")]
        # Names of the block which are not its own, and parts and relatives of them.
        names = [n.name] if isinstance(n, Section) else [n.var, n.source[1]] if isinstance(n, For) else [n.path] if isinstance(n, IfDef) else [str(a[1]) for a in (n.a, n.b)]
        for m in list(names):
            names += [x for x in re.split(r"[^\w]+", m) + [m[1:], m[:-1], m + ":", ":" + m, "begin:" + m, m.upper(), m.swapcase(), m + " ", " " + m, m + m] if x]
        names = [m for m in names if '"' not in m and "}}" not in m and not (isinstance(n, Section) and m == n.name)]
        if names and r.random() < 0.6:
            others = ['"%s"' % m for m in names]
        attr, how, kind = "end", ("end", [r.choice(others)]), "end-mismatched"
    else:
        attr, how, kind = "end", "twice", "end-doubled"
    return n, attr, how, kind
