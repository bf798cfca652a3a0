"""C25: malformed templates."""
import re

from ..common import *
from .. import grammar
from .. import sites as S

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: verdicts of the real program on templates with one planted or random defect, decided by an independent grammar, and on the same without it"
RULE = ("random valid sites, in which one defect at a time is planted at a random place of a page, template or markdown file that the build evaluates: a tag that is malformed, not closed or calls what does not exist, a tag of a block too many, missing, or of another block, or a few characters of a tag are changed so that a separate grammar of tags refuses it; "
        "an observation is a build that has to fail for the defect after the same site without it has built, and builds again afterwards; distinct by defective source")
ASSUMPTIONS = ["a comma without an argument and superfluous dots in variable names are left open and not generated"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


def targets(site, pages):
    return sorted(set(pages) | set(S.used_templates(site, pages)))


def plain_source(f, writer):
    """The source of a file, rendered by the given writer factory."""
    if isinstance(f, Html):
        return writer(1).write(f.nodes).text()
    front = f.front()
    text = "".join(l + "\n" for l in front) + writer(len(front) + 1).write(f.body).text()
    return text.replace("\n", f.eol) if f.eol != "\n" else text


def plant(r, site, path, seen):
    """(defective source, kind, what), or None."""
    f = site.files[path]
    x = r.random()
    style = f.style if isinstance(f.style, M_RandomStyle) else None
    if x < 0.30:
        b = S.break_block(r, site, f, seen)
        if b is None:
            return None
        n, attr, how, kind = b
        return plain_source(f, lambda line: S.BrokenWriter(style, n, attr, how, line)), kind, "%s of %s" % (how, type(n).__name__)
    pos = S.positions(f, seen)
    if not pos:
        return None
    lst, i, chain = r.choice(pos)
    if x < 0.6:
        src, kind, _ = S.bad_tag(r)
        if kind == "open-string":
            lst, i, chain = S.nodes_of(f), len(S.nodes_of(f)), ()
    elif x < 0.68:
        src, kind = S.unclosed_tag(r), "unclosed-tag"
    elif x < 0.75:
        src, kind = r.choice(S.UNCLOSED_AT_END), "unclosed-at-end"
        lst, i = S.nodes_of(f), len(S.nodes_of(f))
    else:
        src, kind = S.stray(r, site, chain)
    v = Verbatim(src)
    lst.insert(i, v)
    try:
        return plain_source(f, lambda line: Writer(style, line)), kind, src
    finally:
        lst.remove(v)


from ..model import RandomStyle as M_RandomStyle


def sc_sites(ctx):
    r = ctx.rng
    g = S.G.Gen(r, {"section": 0.8, "for": 1.5, "if": 2}, max_depth=4, big_text=0.01)
    site, pages = S.rich_site(ctx, g)
    proj = ctx.path("p")
    settings = {"strip_extensions": r.random() < 0.7}
    write_project(proj, site, settings=settings)
    ctx.build_ok(proj)
    compare_pages(ctx, site, pages, os.path.join(proj, "dist"), settings["strip_extensions"], "valid-page")
    seen = S.rendered(site, ctx)
    ts = targets(site, pages)
    for _ in range(r.randint(6, 12)):
        path = r.choice(ts)
        d = plant(r, site, path, seen)
        if d is None:
            continue
        src, kind, what = d
        full = os.path.join(proj, "content", path)
        good = open(full, "rb").read()
        with open(full, "wb") as f:
            f.write(src.encode())
        res = ctx.build(proj)
        where = "root" if path.endswith("root.html") else "md-template" if path.endswith("md.html") else "markdown" if path.endswith(".md") else "page"
        if res.rc == 0:
            raise Violation("accepted-" + kind, "%s with %s (%s) builds:\n%s" % (path, kind, what, src[:1500]))
        ctx.require("error:" in res.errtext(), "silent-failure", "the build fails without printing an error")
        ctx.observed(1, src, **{kind: 1, "in-" + where: 1})
        ctx.sample = {"file": path, "kind": kind, "defect": str(what), "message": res.errtext()[:300]}
        with open(full, "wb") as f:
            f.write(good)
    res = ctx.build_ok(proj)
    compare_pages(ctx, site, pages, os.path.join(proj, "dist"), settings["strip_extensions"], "corrected-page")


def sc_every(ctx):
    """Each defective tag of the tables on its own, next to a correct one at the same place."""
    r = ctx.rng
    every = [("{{ %s }}" % b, "bad-name") for b in S.BAD_NAMES] + [("{{ %s }}" % b, "bad-arguments") for b in S.BAD_CALLS] + [("{{ %s }}" % b, "unknown-function") for b in S.BAD_FUNCTIONS] + \
            [(b, "unclosed-tag") for b in S.UNCLOSED] + [(b, "unclosed-at-end") for b in S.UNCLOSED_AT_END]
    src, kind = every[ctx.index % len(every)]
    proj = ctx.path("p")
    data = {"stuart.toml": manifest(), "content/b.json": '["2020-01-01", "2021-03-04"]', "content/b/x.md": "x", "content/root.html": '<{{ insert("body") }}>', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}',
            "content/ok.html": '{{ begin("body") }}x{{ end("body") }}', "content/m.md": "text"}
    # All variables which the tags use are defined, so that nothing but the defect can fail.
    pre = '{{ begin("body") }}{{ import($d, "d.json") }}{{ import($n, "n.json") }}{{ import($o, "o.json") }}{{ import($f, "f.json") }}{{ import($b, "b.json") }}{{ for($a, "a.json") }}'
    post = '{{ end(for) }}{{ end("body") }}'
    # What is open or would be open because of the tag is closed, for the same reason.
    fn, before, after = re.match(r"\{\{\s*(\w*)", src).group(1), "", ""
    if kind == "bad-arguments" and src.count('"') % 2 == 0:
        if fn == "for" or fn.startswith("if"):
            after = "{{ end(%s) }}" % fn
        elif fn == "begin":
            label = re.search('"([^"]*)"', src)
            after = '{{ end("%s") }}' % (label.group(1) if label else "a")
        elif fn == "else":
            before, after = "{{ ifeq(1, 1) }}", "{{ end(ifeq) }}"
        elif fn == "end":
            before = '{{ begin("a") }}' if '"a"' in src else '{{ for($y, "a.json") }}' if "for" in src else "{{ ifeq(1, 1) }}"
    data["content/d.json"] = json.dumps({"n": 1, "f": "%Y", "o": "asc"})
    data["content/a.json"] = '["2020-01-01"]'
    data.update({"content/n.json": "1", "content/f.json": '"%Y"', "content/o.json": '"asc"'})
    where = r.choice(["page", "page", "root", "md-template", "markdown"])
    if kind == "unclosed-at-end" or src.count('"') % 2:
        post = ""
    name = {"page": "content/page.html", "root": "content/root.html", "md-template": "content/md.html", "markdown": "content/m.md"}[where]
    head, tail = "", ""
    if where in ("root", "markdown"):
        pre, post = pre.replace('{{ begin("body") }}', ""), post.replace('{{ end("body") }}', "")
        head = "---\nt: \"x\"\n---\n" if where == "markdown" else ""
        tail = '{{ insert("body") }}' if where == "root" and post else ""
    proj_files = dict(data)
    if post:
        proj_files[name] = head + pre + "{{ $a }}" + post + tail
    write_tree(proj, proj_files)
    ctx.build_ok(proj)
    write_tree(proj, {name: head + pre + before + src + after + post})
    res = ctx.build(proj)
    if res.rc == 0:
        raise Violation("accepted-" + kind, "%s with %r builds" % (name, src))
    ctx.require("error:" in res.errtext(), "silent-failure", "the build fails without printing an error")
    ctx.observed(1, (src, where), **{kind: 1, "in-" + where: 1})


def sc_mutated(ctx):
    """Valid tags of which a few characters are changed, wherever the grammar refuses the result."""
    r = ctx.rng
    proj = ctx.path("p")
    data = {"stuart.toml": manifest(), "content/b.json": "[1, 2]", "content/b/x.md": "x", "content/root.html": '<{{ insert("body") }}>', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}',
            "content/d.json": json.dumps({"n": 1, "f": "%Y", "o": "asc"}), "content/a.json": '["2020-01-01"]', "content/s.json": '"2020-01-01"'}
    imports = '{{ import($d, "d.json") }}{{ import($b, "b.json") }}{{ import($s, "s.json") }}{{ for($a, "a.json") }}'
    write_tree(proj, data)
    done = 0
    while done < 25:
        body = grammar.valid_body(r)
        assert grammar.acceptable(body), body
        bad = grammar.mutate(r, body)
        if grammar.acceptable(bad) or "{{" in bad or "}}" in bad or bad.count('"') % 2:
            continue
        done += 1
        pad = r.choice([" ", " ", "  ", "\n"])
        tag = "{{" + pad + bad + pad + "}}"
        where = r.choice(["page", "page", "page", "root", "markdown"])
        # The tags around it are what the block of the original tag needs, so that nothing but the defect can fail.
        name = re.match(r"\w*", body).group(0)
        after = "{{ end(%s) }}" % name if name == "for" or name.startswith("if") else '{{ end("name") }}' if name == "begin" else "{{ end(ifeq) }}" if name == "else" else ""
        before = ""
        if name == "else" or name == "end" and "ifeq" in body:
            before = "{{ ifeq(1, 1) }}"
        elif name == "end":
            before = '{{ begin("name") }}' if '"name"' in body else "{{ ifdefined($a) }}" if "ifdefined" in body else '{{ for($y, "a.json") }}'
        files = {"content/page.html": '{{ begin("body") }}ok{{ end("body") }}', "content/m.md": "text", "content/root.html": data["content/root.html"]}
        for t, is_bad in (("{{ " + body + " }}", False), (tag, True)):
            whole = imports + before + t + after + "{{ end(for) }}"
            if where == "page":
                files["content/page.html"] = '{{ begin("body") }}' + whole + '{{ end("body") }}'
            elif where == "root":
                files["content/root.html"] = '{{ insert("body") }}' + whole
            else:
                files["content/m.md"] = '---\nt: "x"\n---\n' + whole
            if not is_bad and r.random() < 0.9:
                continue
            write_tree(proj, files)
            res = ctx.build(proj)
            if not is_bad:
                # It is well formed: if it fails, then when it is evaluated.
                ctx.require(res.rc == 0 or "syntax error" not in res.errtext(), "rejected-tag", lambda: "the well-formed tag %s is a syntax error: %s" % (t, res.errtext()[:300]))
                continue
            if res.rc == 0:
                raise Violation("accepted-mutated-tag", "the tag %r builds (made from %r, in %s)" % (tag, body, where))
            ctx.require("error:" in res.errtext(), "silent-failure", "the build fails without printing an error")
            ctx.observed(1, (tag, where), **{"mutated-" + (name or "variable"): 1, "in-" + where: 1})
            ctx.sample = {"tag": tag, "made-from": body, "where": where, "message": res.errtext()[:300]}


def sc_nesting(ctx):
    """Random sequences of opening, middle and closing tags: they build exactly if they are properly nested."""
    r = ctx.rng
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '<{{ insert("body") }}>', "content/two.json": "[1, 2]", "content/none.json": "[]", "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}'})
    opens = [('{{ begin("%s") }}', None), ('{{ for($v, "two.json") }}', "for"), ('{{ for($gif, "two.json") }}', "for"), ('{{ for($%s, "none.json") }}' % r.choice(["v", "if", "ifeq", "notif", "begin", "for", "end"]), "for"), ("{{ ifeq(1, 1) }}", "ifeq"), ("{{ ifeq(1, 2) }}", "ifeq"), ("{{ ifne(1, 2) }}", "ifne"), ("{{ ifdefined($env) }}", "ifdefined"),
             ("{{ ifdefined($nope) }}", "ifdefined"), ("{{ ifgt(1, 2) }}", "ifgt"), ("{{ ifle(1, 2) }}", "ifle")]
    for _ in range(12):
        # A properly nested sequence...
        seq, stack, uid = [], [], 0
        for _ in range(r.randint(2, 10)):
            x = r.random()
            if x < 0.5 or not stack:
                o, label = r.choice(opens)
                if label is None:
                    uid += 1
                    label = r.choice(["s%d", "s%d", "if%d", "ifeq%d", "elif %d", "else%d", "for%d", "endif(%d", "notif%d"]) % uid
                    o = o % label
                    label = '"%s"' % label
                stack.append([label, False])
                seq.append((o, "open", label))
            elif x < 0.65 and stack[-1][0].startswith("if") and not stack[-1][1]:
                stack[-1][1] = True
                seq.append(("{{ else() }}", "else", None))
            else:
                label = stack.pop()[0]
                seq.append(("{{ end(%s) }}" % label, "end", label))
        while stack:
            seq.append(("{{ end(%s) }}" % stack.pop()[0], "end", None))
        # ... and one in which a tag has been removed, repeated, exchanged or moved.
        bad = list(seq)
        how = r.choice(["remove", "repeat", "swap", "move", "none"])
        i = r.randrange(len(bad))
        if how == "remove":
            del bad[i]
        elif how == "repeat":
            bad.insert(r.randrange(len(bad) + 1), bad[i])
        elif how == "swap":
            j = r.randrange(len(bad))
            bad[i], bad[j] = bad[j], bad[i]
        elif how == "move":
            t = bad.pop(i)
            bad.insert(r.randrange(len(bad) + 1), t)
        tags_ = [b[0] for b in bad]
        ok = proper(tags_)
        if ok is None:
            continue
        where = r.choice(["page", "markdown"])
        text = "".join(t + r.choice(["", "x", " "]) for t in tags_)
        write_tree(proj, {"content/page.html": ("{{ begin(\"body\") }}" + text + "{{ end(\"body\") }}") if where == "page" else "{{ begin(\"body\") }}{{ end(\"body\") }}", "content/m.md": text if where == "markdown" else "x"})
        res = ctx.build(proj)
        if ok:
            ctx.require(res.rc == 0, "rejected-nesting", lambda: "properly nested blocks fail: %s\n%s" % (text, res.errtext()[:300]))
        else:
            ctx.require(res.rc == 1, "accepted-nesting", lambda: "blocks that are not properly nested build: %s" % text)
        ctx.observed(1, (where, tags_), **{"nested" if ok else "not-nested": 1, "in-" + where: 1})


def proper(seq):
    """True if properly nested, False if it certainly has to fail, None if the fault may lie in what is not rendered."""
    stack = []      # (label, rendered, has_else, condition)
    fault_hidden = False
    for t in seq:
        rendered = all(s[1] for s in stack)
        body = t[3:-3]
        if body.startswith("end("):
            label = body[4:-1]
            if not stack:
                return False if rendered else None
            if stack[-1][0] != label:
                # Blocks are balanced or not whatever is rendered, but within skipped branches labels are not compared.
                if all(s[1] for s in stack[:-1]):
                    return False
                return None
            stack.pop()
        elif body == "else()":
            if not stack or not stack[-1][0].startswith("if"):
                return False if rendered else None
            if stack[-1][2]:
                # A second else.
                return False if all(s[1] for s in stack[:-1]) else None
            top = stack[-1]
            top[2] = True
            top[1] = not top[3]
        else:
            name = body.split("(")[0]
            if name == "begin":
                stack.append(['"%s"' % body[7:-2], True, False, True])
            elif name == "for":
                stack.append(["for", "two" in body, False, True])
            else:
                cond = body in ("ifeq(1, 1)", "ifne(1, 2)", "ifle(1, 2)", "ifdefined($env)")
                stack.append([name, cond, False, cond])
    return not stack


SCENARIOS = [Scenario("sites", sc_sites, 700, 9000), Scenario("every", sc_every, 1400, 12000), Scenario("mutated", sc_mutated, 400, 6000), Scenario("nesting", sc_nesting, 400, 5000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 3.2
