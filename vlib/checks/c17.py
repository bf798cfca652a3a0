"""C17: locations of errors."""
import re

from ..common import *
from .. import sites as S
from ..model import RandomStyle
from .c25 import plain_source, targets

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: error messages of the real program for planted mistakes at known places, compared with the place and the source line"
RULE = ("random valid sites (CRLF and LF, frontmatter, long and multibyte lines, deep blocks) in which one tag that fails to parse or to process is planted at a random evaluated place of a page, template or markdown file, or one line of frontmatter or of the manifest is spoilt; "
        "an observation is the error message: its path resolves to that file, its line number is that of the planted tag, the preview is that line of the source, and the message is the one for this mistake; distinct by source and mistake")
ASSUMPTIONS = ["the faulty tag is on one line (others may go over several); for sections that are never closed and invalid JSON files only failure is required (C25, C11)"]


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


def failing_tag(r, site, chain):
    """(source, kind, message): a tag that fails when it is processed."""
    objs = [p for p, f in site.files.items() if isinstance(f, Json) and not isinstance(f.value, list)]
    arrs = [p for p, f in site.files.items() if isinstance(f, Json) and isinstance(f.value, list)]
    opts = [("{{ $undefd }}", "undefined-variable", "undefined variable: `undefd`"), ("{{ $undefd.x.1 }}", "undefined-variable", "undefined variable: `undefd.x.1`"), ("{{ $env }}", "type", "type error in variable `env`"),
            ("{{ $env.NOT_THERE_X }}", "null", "null error: `env.NOT_THERE_X`"), ('{{ import($z_z, "missing.json") }}', "not-found", "not found: `missing.json`"), ('{{ import($z_z, "root.html") }}', "type", "type error in variable `<file>`"),
            ('{{ import($z_z, "../stuart.toml") }}', "not-found", "not found: `../stuart.toml`"), ('{{ for($z_z, "missing/") }}z{{ end(for) }}', "not-found", "not found: `missing/`"), ('{{ for($z_z, "missing.json") }}z{{ end(for) }}', "not-found", "not found: `missing.json`"),
            ("{{ for($z_z, $undefd) }}z{{ end(for) }}", "not-array", "not a json array"), ("{{ for($z_z, $env) }}z{{ end(for) }}", "not-array", "not a json array"), ('{{ insert("undefined sec") }}', "undefined-section", "undefined section: `undefined sec`"),
            ("{{ ifeq($undefd, 1) }}z{{ end(ifeq) }}", "undefined-variable", "undefined variable: `undefd`"), ("{{ ifle(2, $undefd.q) }}z{{ else() }}y{{ end(ifle) }}", "undefined-variable", "undefined variable: `undefd.q`"), ("{{ excerpt($undefd, 3) }}", "undefined-variable", "undefined variable: `undefd`"),
            ("{{ timetoread($undefd) }}", "undefined-variable", "undefined variable: `undefd`"), ("{{ timetoread($env) }}", "type", "type error in variable `env`"), ("{{ excerpt($env, 3) }}", "type", "type error in variable `env`"),
            ('{{ dateformat($undefd, "%Y") }}', "undefined-variable", "undefined variable: `undefd`"), ('{{ dateformat($env.HOME, "%Y") }}', "invalid-date", "invalid date"), ('{{ dateformat($env, "%Y") }}', "type", "type error in variable `env`"),
            ('{{ end("stray") }}', "stray-end", "no matching `begin` for `end`")]
    if objs:
        p = r.choice(objs)
        opts.append(('{{ for($z_z, "%s") }}z{{ end(for) }}' % p, "not-array", "not a json array"))
    if not chain or not isinstance(chain[-1][0], For):
        opts.append(("{{ end(for) }}", "stray-end", "no matching `begin` for `end`"))
    if not S.in_conditional(chain):
        opts.append(("{{ else() }}", "stray-else", "no matching `if` for `else`"))
    if not chain:
        opts += [("{{ ifeq(1, 1) }}", "unclosed", "unexpected end of file"), ("{{ ifdefined($undefd) }}", "unclosed", "unexpected end of file"), ("{{ ifne(1, 1) }}", "unclosed", "unexpected end of file")]
        if arrs:
            opts.append(('{{ for($z_z, "%s") }}' % r.choice(arrs), "unclosed", "unexpected end of file"))
    return r.choice(opts)


ANSI = re.compile(rb"\x1b\[[0-9;]*m")


def check_message(ctx, res, cwd, full, text, line, msg, sig, what):
    """`text`: bytes of the faulty file; `line`: where its fault is."""
    err = res.err
    m = re.search(rb"\x1b\[0m\x1b\[[0-9;]*m(?:\x1b\[[0-9;]*m)*  --> ", err)
    plain = ANSI.sub(b"", err)
    src = text.split(b"\n")
    want = src[line - 1] if line <= len(src) else b""
    if line < len(src) and want.endswith(b"\r"):
        want = want[:-1]
    at = re.search(rb"\n  --> ([^\n]*):(\d+):(\d+)\n", plain)
    ctx.require(at, sig + "-no-location", lambda: "the message for %s gives no location: %s" % (what, plain.decode("utf-8", "replace")[:600]))
    path = os.path.realpath(os.path.join(os.fsencode(cwd), at.group(1)))
    ctx.require(path == os.path.realpath(os.fsencode(full)), sig + "-path", lambda: "%s is in %s, but the message says %s" % (what, full, at.group(1).decode("utf-8", "replace")))
    ctx.require(int(at.group(2)) == line, sig + "-line", lambda: "%s is in line %d of %s, but the message says line %s: %s" % (what, line, full, at.group(2).decode(), plain.decode("utf-8", "replace")[:500]))
    pre = b"\n%d | " % line
    rest = plain[at.end() - 1:]
    i = rest.find(pre)
    wantp = ANSI.sub(b"", want)
    got = rest[i + len(pre):i + len(pre) + len(wantp) + 1]
    ctx.require(i >= 0 and got == wantp + b"\n", sig + "-preview", lambda: "line %d is %r, but the preview shows %r" % (line, wantp[:300], rest[:400]))
    if msg is not None:
        head = plain[:at.start()].decode("utf-8", "replace")
        ctx.require(msg in head, sig + "-message", lambda: "the message for %s is %r, expected %r" % (what, head[-300:], msg))


def sc_sites(ctx):
    r = ctx.rng
    g = S.G.Gen(r, {"section": 0.6, "for": 1.5, "if": 2}, max_depth=5, big_text=0.04)
    site, pages = S.rich_site(ctx, g)
    proj = ctx.path(*r.choice([["p"], ["p"], ["site"], ["a b", "my site"], ["stu", "stuart"], ["content"], ["é", "é2"], ["w", "w", "w"]]))
    os.makedirs(os.path.dirname(proj), exist_ok=True)
    write_project(proj, site)
    ctx.build_ok(proj)
    seen = S.rendered(site, ctx)
    ts = targets(site, pages)
    for _ in range(r.randint(6, 12)):
        path = r.choice(ts)
        f = site.files[path]
        pos = S.positions(f, seen)
        if not pos:
            continue
        lst, i, chain = r.choice(pos)
        if r.random() < 0.4:
            x = r.random()
            if x < 0.75:
                src, kind, msg = S.bad_tag(r)
                if kind == "open-string":
                    continue
            elif x < 0.9:
                src, kind, msg = S.unclosed_tag(r), "unclosed-tag", None
            else:
                src, kind, msg = r.choice(S.UNCLOSED_AT_END), "unclosed-at-end", None
                if src.endswith("\t"):
                    continue
                lst, i = S.nodes_of(f), len(S.nodes_of(f))
        else:
            src, kind, msg = failing_tag(r, site, chain)
            if kind == "unclosed" and r.random() < 0.5:
                i = len(lst)
        v = Verbatim(src)
        lst.insert(i, v)
        # Other tags may go over several lines, in front of this one in particular.
        style = RandomStyle(r, newlines=True) if isinstance(f, Html) and r.random() < 0.5 else None
        text = plain_source(f, lambda line: Writer(style, line)).encode()
        lst.remove(v)
        full = os.path.join(proj, "content", path)
        good = open(full, "rb").read()
        with open(full, "wb") as h:
            h.write(text)
        x = r.random()
        if x < 0.6:
            cwd, args = proj, ()
        else:
            # Around the project, and next to it in directories with similar names.
            base, name = os.path.split(proj)
            cwd = r.choice([ctx.dir, base, os.path.join(proj, "content"), os.path.join(proj, "sub", "content"), os.path.join(base, name + "2"), os.path.join(base, name[:-1] or "x"), os.path.join(base, name[:1]),
                            os.path.join(base, name + "2", name), os.path.join(base, name[::-1]), os.path.join(ctx.dir, "other", name), os.path.join(base, name + " "), os.path.join(base, name.upper())])
            os.makedirs(cwd, exist_ok=True)
            args = ("--manifest-path", r.choice([os.path.join(proj, "stuart.toml"), os.path.relpath(os.path.join(proj, "stuart.toml"), cwd)]))
            if cwd != proj:
                ctx.feature("other-working-directory")
        res = ctx.build_fails(cwd, "%s contains %s" % (path, src), args)
        check_message(ctx, res, cwd, full, text, v.line, msg, "error", "%s in %s" % (src, path))
        where = "root" if path.endswith("root.html") else "md-template" if path.endswith("md.html") else "markdown" if path.endswith(".md") else "page"
        ctx.observed(1, (src, text), **{kind: 1, "in-" + where: 1})
        if chain:
            ctx.feature("in-blocks")
        if v.line > 1:
            ctx.feature("after-line-1")
        if len(text.split(b"\n")[v.line - 1]) > 1000:
            ctx.feature("long-lines")
        ctx.sample = {"file": path, "tag": src, "line": v.line, "message": res.errtext()[:400]}
        with open(full, "wb") as h:
            h.write(good)


def sc_frontmatter(ctx):
    r = ctx.rng
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '<{{ insert("body") }}>', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}'})
    for _ in range(4):
        lines = ['k%d: "v%d%s"' % (i, i, r.choice(["", "é", "x" * 2000, ": y"])) for i in range(r.randint(0, 12))]
        bad = r.choice(["title: value", "title", "title: 'x'", 'title: "x', 'title: x"', 'title "x"', "- item", "title: 5", "title:", "# comment", "title: [\"x\"]", 'title: x "y"', "é: é"])
        at = r.randint(0, len(lines))
        lines.insert(at, bad)
        eol = r.choice(["\n", "\n", "\r\n"])
        text = eol.join(["---"] + lines + ["---", "body", ""]).encode()
        full = os.path.join(proj, "content", "m.md")
        open(full, "wb").write(text)
        res = ctx.build_fails(proj, "the frontmatter has the line %r" % bad)
        check_message(ctx, res, proj, full, text, at + 2, "invalid frontmatter", "frontmatter", "line %r" % bad)
        ctx.observed(1, text, frontmatter=1)


def sc_manifest(ctx):
    """A line of the manifest is malformed or repeats a table."""
    r = ctx.rng
    proj = ctx.path("p")
    write_tree(proj, {"content/root.html": "x"})
    for _ in range(6):
        lines = ["[site]", 'name = "%s"' % r.choice(["s", "é" * 50, "x" * 500]), 'author = "a"', "", "[settings]", "strip_extensions = true", "save_data_files = false"]
        if r.random() < 0.5:
            lines += ["", "[dependencies]", "# none"]
        for _ in range(r.randint(0, 5)):
            lines.insert(r.choice([0, 1, 4, 5, len(lines)]), r.choice(["", "# comment", "# ünï"]))
        kind = r.choice(["syntax", "syntax", "duplicate"])
        if kind == "syntax":
            bad = r.choice(["name", "= 3", "author = ", "[settings", "title = unquoted", 'x = "open', "a b = 1", "x == 1", "x = [1, 2", "]", "x = 'a", "1.5.6 = = 1", "x = 01:02"])
            at = r.randrange(len(lines) + 1)
            lines.insert(at, bad)
        else:
            at = len(lines)
            lines.append("[site]")
            bad = "[site]"
        eol = r.choice(["\n", "\n", "\r\n"])
        text = eol.join(lines).encode() + r.choice([b"", eol.encode()])
        full = os.path.join(proj, "stuart.toml")
        open(full, "wb").write(text)
        res = ctx.build_fails(proj, "the manifest has the line %r" % bad)
        plain = strip_ansi(res.err)
        m = re.search(rb"(?:-->|at) ([^\n]*):(\d+):(\d+)", plain)
        ctx.require(m, "manifest-no-location", lambda: "no location in the message for the manifest line %r: %s" % (bad, plain.decode("utf-8", "replace")[:500]))
        ctx.require(os.path.realpath(os.path.join(proj, m.group(1).decode())) == full, "manifest-path", lambda: "the message names %r" % m.group(1))
        got = int(m.group(2))
        if kind == "syntax":
            # Where the parser gives up may be the end of the line, or a later line if a string or list is open.
            ok = got == at + 1 or bad in ("author = ", "x = [1, 2", "name") and got == at + 2
            if bad == "x = [1, 2":
                ok = got >= at + 1
        else:
            ok = got == at + 1
        ctx.require(ok, "manifest-line", lambda: "line %d of the manifest is %r, but the message says line %d: %s" % (at + 1, bad, got, plain.decode("utf-8", "replace")[:400]))
        ctx.observed(1, text, **{"manifest-" + kind: 1})


SCENARIOS = [Scenario("sites", sc_sites, 800, 10000), Scenario("frontmatter", sc_frontmatter, 150, 2000), Scenario("manifest", sc_manifest, 100, 1000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 6.5
