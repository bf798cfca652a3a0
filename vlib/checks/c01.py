"""C01: no input makes a command crash or hang."""
import re, shutil, time, tomllib

from ..common import *
from .. import dev as D, fsm, gen as G, sites as S
from . import c09, c11

ID = "C01"
LEVEL = "exploration"
DATA_LIMIT = 1 << 30
TECHNIQUE = "runtime monitoring: watchdogs on exit status, signals, CPU time and output of the real program under mutated projects, token soups, hostile values and plugins, and the development server"
RULE = ("projects with mutated valid templates, soups of tags, hostile markdown, frontmatter, JSON, dates, manifests, plugins and file names of arbitrary bytes, built (and benchmarked, and served) by the real program under limits of CPU time; "
        "an observation is one run that ends by itself with code 0 and the output written, or with code 1 and an error of which every part is printed, without panic, signal or abort, and that leaves the inputs alone; distinct by the hostile file")
ASSUMPTIONS = ["runs of more than 20 s of CPU time are taken for endless: generated loops are nested at most five times over arrays of at most eight elements", "the panic of chrono for invalid formats is caught by design: what counts is how the program ends",
               "nesting of blocks is limited to 150 and of TOML to 100 (deeper: known findings)"]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


TOKENS = ["{{", "}}", "{{ ", " }}", "\\{{", "\\", '"', "(", ")", ",", "=", "$", ".", "!", "|", ":", "::", "-", "_", ";", "for", "end(", "end(for)", "end(ifeq)", 'begin("a")', "{{ else }}", "{{ else() }}", "ifeq", "ifdefined($a)", "order=\"desc\"", "sortby=$a.b", "limit=1", "skip=1", "limit=-1", "skip=4294967296", "$self.content", "$env.HOME", "$a.b.c",
          "import($a, \"a.json\")", "excerpt($s, 3)", "dateformat($s, \"%Q\")", "timetoread($s)", "\n", "\r\n", "\r", "\t", "\0", "\v", "\x1b[31m", "é", "日本", "🦀", "e\u0301", "\u2028", "\ufeff", "\u202e", "\U0010ffff", "---", "---\n", "----", "title: \"x\"\n", ": ", "#", "`", "```", "~~~", "[", "]", "](", "![", "*", "**", "_", "<", ">", "</", "<!--", "-->", "&", "&amp;",
          "&#0;", "&#x110000;", "|---|", "[^1]", "[^1]:", "- [ ] ", "1. ", "> ", "{", "}", "{}", "[]", "null", "true", "0", "1", "-1", "1e999", "-0", "2147483648", "9223372036854775808", "99999999999999999999", "0.1", "NaN", "%", "%Y-%m-%d", "\u00a0", " ", "  ", "//", "/", "..", "../", "*.json", "a.json", "a/", "'", "\\u0000", "\\ud800", "\\n", "x" * 50]
BYTES = [b"\xff", b"\xfe", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\x80", b"\x00"]


def mutate(r, data, other=b"", soft=True):
    """One to a few random changes. `soft`: mostly keeps the text valid UTF-8."""
    for _ in range(r.choice([1, 1, 1, 2, 3, 5])):
        n = len(data)
        i = r.randint(0, n)
        j = min(n, i + r.choice([0, 1, 1, 2, 3, 8, 30, 200]))
        k = r.random()
        if soft and k < 0.94 or k < 0.5:
            # On whole characters.
            while 0 < i < n and data[i] & 0xc0 == 0x80:
                i -= 1
            while j < n and data[j] & 0xc0 == 0x80:
                j += 1
            j = max(i, j)
            if k < 0.3:
                data = data[:i] + r.choice(TOKENS).encode() + data[i:]
            elif k < 0.5:
                data = data[:i] + data[j:]
            elif k < 0.6:
                data = data[:i] + data[i:j] * r.choice([2, 2, 3]) + data[j:]
            elif k < 0.7:
                # A change at a tag is more interesting than anywhere else.
                at = [m.start() for m in re.finditer(rb"\{\{|\}\}|\"|\(|\)|,|\$|=|---|\n", data)]
                if at:
                    p = r.choice(at)
                    data = r.choice([data[:p] + data[p + 1:], data[:p] + data[p:p + 1] * 2 + data[p + 1:], data[:p], data[:p + 1], data[:p] + r.choice(TOKENS).encode() + data[p:], data[:p] + r.choice(TOKENS).encode() + data[p + 1:]])
            elif k < 0.76:
                data = data[:i]
            elif k < 0.82 and other:
                a = r.randint(0, len(other))
                data = data[:i] + other[a:a + r.choice([5, 20, 100])].decode("utf-8", "ignore").encode() + data[j:]
            elif k < 0.88:
                data = re.sub(rb"\d+", lambda m: r.choice([m.group(0)] * 3 + [b"0", b"-1", b"4294967295", b"99999999999999999999", b"1e400", b"2147483647", b"-2147483648"]), data)
            else:
                data = re.sub(r"[a-z ]", lambda m: m.group(0) if r.random() < 0.97 else r.choice("é日🦀\u2028\u00a0\u0301\ufeff\t"), data.decode("utf-8", "replace")).encode()
        else:
            data = r.choice([data[:i] + r.choice(BYTES) + data[i:], data[:i] + bytes([r.randrange(256)]) + data[i + 1:], data[:i] + bytes([data[i] ^ 1 << r.randrange(8)]) + data[i + 1:] if i < n else data + b"\xff", data[:i] + bytes(r.randrange(256) for _ in range(r.randint(1, 20))) + data[i:]])
    return data


def loops(text):
    """How deeply loops can be nested in a text, whatever is between."""
    depth = best = 0
    for m in re.finditer(rb"for\s*\(|end\s*\(\s*for", text):
        if m.group(0)[:1] == b"f":
            depth += 1
            best = max(best, depth)
        else:
            depth = max(0, depth - 1)
    return best


def judge(ctx, res, what, out=None, quiet=True):
    """What the property says about the end of a run."""
    if res.stuck:
        raise Violation("hang", "it never ends, and only sleeps: %s" % (what() if callable(what) else what))
    if res.timeout:
        raise Inconclusive("the wall clock watchdog fired")
    err = res.errtext()
    detail = lambda: "%s: %s" % (what() if callable(what) else what, err[-600:])
    if res.rc < 0:
        raise Violation("cpu-limit" if res.rc in (-24, -9) else "crash-signal", "killed by signal %d: %s" % (-res.rc, detail()))
    ctx.require(res.rc in (0, 1), "crash", lambda: "the exit code is %d: %s" % (res.rc, detail()))
    if res.rc == 1:
        ctx.require("error:" in err, "silent-failure", lambda: "code 1 without an error: " + detail())
        ctx.require(err.split("error:", 1)[1].strip() != "", "silent-failure", lambda: "the error says nothing: " + detail())
        # (The panic of chrono is caught.)
        ctx.require("panicked at" not in err or "chrono" in err or "fmt" in err.split("panicked at", 1)[1][:200] or "alloc" in err.split("panicked at", 1)[1][:200], "panic", lambda: "a panic: " + detail())
        if quiet:
            ctx.require(not res.out, "noise", lambda: "something is printed to standard output: %r" % res.out[:200])
    else:
        ctx.require("panicked at" not in err, "panic", lambda: "a panic: " + detail())
        ctx.require("error:" not in err or not quiet, "error-ignored", lambda: "code 0 with an error: " + detail())
        if out:
            ctx.require(os.path.isdir(out), "no-output", lambda: "code 0 without an output: " + detail())
    m = re.search(r"error: (.*)", err)
    kind = re.sub(r"[`'\"].*|[0-9].*|[^ -~].*", "", m.group(1)).strip()[:22] if m else "none"
    ctx.feature("code-%d" % res.rc)
    ctx.feature("error: " + kind if m else "built") if len([k for k in ctx.feats if k.startswith("error: ")]) < 60 else None


def run_build(ctx, proj, what, args=("-q", "build"), cwd=None):
    args = list(args)
    res = ctx.run(args, cwd=cwd or proj)
    if res.timeout or res.rc == -24:
        again = ctx.run(args, cwd=cwd or proj)
        if again.timeout and res.timeout:
            raise Violation("hang", "it does not end, twice: %s" % (what() if callable(what) else what))
        res = again
    judge(ctx, res, what, os.path.join(proj, "dist"), "-q" in args)
    return res


BUILD = [["-q", "build"]] * 8 + [["build"], ["-v", "build"], ["-q", "bench", "-i", "2"], ["bench", "--iters=1"]]


def put(path, data):
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass"))


def sc_mutants(ctx):
    """Valid projects, a few bytes of which are changed."""
    r = ctx.rng
    proj = ctx.path("p")
    site, pages, settings, static, want = c11.rich_project(ctx, proj, False)
    files = sorted(p for p in read_tree(os.path.join(proj, "content"), False))
    for _ in range(14):
        undo = {}
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            p = r.choice(["content/" + r.choice(files)] * 14 + ["stuart.toml"])
            full = os.path.join(proj, p)
            old = undo.get(p) or open(full, "rb").read()
            undo.setdefault(p, old)
            put(full, mutate(r, open(full, "rb").read(), open(os.path.join(proj, "content", r.choice(files)), "rb").read(), r.random() < 0.9))
        new = {p: open(os.path.join(proj, p), "rb").read() for p in undo}
        if max(loops(v) for v in new.values()) <= 5:
            snap = new
            run_build(ctx, proj, lambda: "mutated: %r" % {p: v[:1500] for p, v in new.items()}, r.choice(BUILD))
            ctx.require(all(open(os.path.join(proj, p), "rb").read() == v for p, v in snap.items()), "inputs-changed", "the build changes its inputs")
            ctx.observed(1, new, mutants=1, **{"mutated-" + p.rsplit(".", 1)[-1]: 1 for p in new})
            ctx.sample = {p: v.decode("utf-8", "replace")[:500] for p, v in new.items()}
        for p, v in undo.items():
            put(os.path.join(proj, p), v)


BASE = {"content/root.html": '<{{ insert("body") }}>', "content/md.html": '{{ begin("body") }}{{ $self.content }}{{ end("body") }}', "content/a.json": '["2020-01-01", "b", "é"]', "content/o.json": '[{"a": 1, "b": "x", "c": {"d": [1, 2]}}, {"a": 2, "b": "é"}, {"a": -3, "b": ""}]', "content/d.json": '{"n": 1, "s": "some text", "e": "", "m": "日本🦀é", "t": true, "f": 1.5, "z": null, "a": [1], "o": {"k": "v"}}',
        "content/posts/a.md": '---\ntitle: "A"\ndate: "2020-01-01"\n---\n\n# A\n\ntext\n', "content/posts/b.md": '---\ntitle: "B"\n---\n', "content/index.html": '{{ begin("body") }}x{{ end("body") }}'}


def base(ctx, more=None, settings=None):
    proj = ctx.path("p")
    os.makedirs(proj)
    write_tree(proj, {**BASE, "stuart.toml": manifest(**(settings or {})), **(more or {})})
    return proj


def arg(r):
    return r.choice(["$a", "$d.n", "$d.s", "$d.m", "$d.e", "$d.z", "$d.a", "$d.o", "$d", "$nope", "$self.content", "$self", "$env", "$env.HOME", "$x.b", "$a.b.c", '"text"', '""', '"é日🦀"', '"a.json"', '"o.json"', '"posts/"', '"nope.json"', '"*.json"', "1", "0", "-1", "2147483647", "-2147483648", "2147483648", "for", "ifeq", '"%Y"', '"\\"', "'a'",
                     'limit=1', 'skip=99999999999', 'order="desc"', 'sortby=$x.b', 'sortby=$x', 'sortby=$x.c.d', 'limit=0', 'skip=0', 'foo="bar"', "", " ", "é", "a b", "$", "$a.", "$.a", "$a..b", "\"open", "()", "begin(\"a\")", "{{", "}}", "\n", '"{{"', '"}}"', "=", "a=", "=b", "$a=1", "-", "1.5", "$a-b", "\\", ")", "(", "\t$a\t"])


def tag(r):
    f = r.choice(["begin", "end", "insert", "import", "for", "ifdefined", "else", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "excerpt", "timetoread", "dateformat", "nope", "a::b", "", "$", "for "])
    x = r.random()
    if x < 0.2:
        return "{{%s%s%s}}" % (r.choice(["", " ", "\n"]), arg(r), r.choice(["", " ", "\t"]))
    if x < 0.35:
        return r.choice(['{{ for($x, "o.json") }}', '{{ for($x, "a.json") }}', '{{ for($x, "posts/") }}', "{{ end(for) }}", "{{ end(ifeq) }}", '{{ ifeq(1, 1) }}', "{{ else() }}", '{{ import($d, "d.json") }}', '{{ begin("body") }}', '{{ end("body") }}', '{{ begin("s") }}', '{{ end("s") }}', '{{ insert("s") }}', "{{ ifdefined($d) }}", "{{ end(ifdefined) }}"])
    return "{{%s%s%s%s(%s)%s}}" % (r.choice(["", " ", "  "]), f, "", "", r.choice([", ", ",", " , "]).join(arg(r) for _ in range(r.choice([0, 1, 1, 2, 2, 2, 3, 4]))), r.choice(["", " ", ")", "x"]) if r.random() < 0.2 else " ")


def soup(r, n=None):
    return "".join(tag(r) if r.random() < 0.6 else r.choice(TOKENS) for _ in range(n or r.choice([1, 2, 3, 5, 10, 30])))


def sc_soup(ctx):
    """Soups of tags and tokens at all places."""
    r = ctx.rng
    proj = base(ctx)
    for _ in range(16):
        t = soup(r)
        if loops(t.encode()) > 5:
            continue
        x = r.random()
        if x < 0.5:
            p, t = "content/page.html", r.choice(["", '{{ begin("body") }}', '{{ begin("body") }}{{ import($d, "d.json") }}{{ for($a, "a.json") }}']) + t + r.choice(["", '{{ end("body") }}', '{{ end(for) }}{{ end("body") }}'])
        elif x < 0.65:
            p = "content/posts/c.md"
            t = r.choice(["", "---\n", '---\ntitle: "x"\n---\n', '---\n' + soup(r, 2) + "\n---\n"]) + t
        elif x < 0.8:
            p, t = "content/root.html", t + '{{ insert("body") }}'
        elif x < 0.9:
            p, t = "content/md.html", '{{ begin("body") }}' + t + '{{ end("body") }}'
        else:
            p = "content/index.html"
        if r.random() < 0.15:
            t = t.replace("\n", "\r\n")
        full = os.path.join(proj, p)
        put(full, t)
        run_build(ctx, proj, lambda: "%s: %r" % (p, t[:1500]), r.choice(BUILD))
        ctx.observed(1, (p, t), soups=1)
        ctx.sample = {p: t[:500]}
        if p in BASE:
            put(full, BASE[p])
        else:
            os.unlink(full)


VALUES = ["1", "-1", "0", "1.5", "1e300", "true", "null", '""', '"x"', '"' + "é" * 300 + '"', '"<p>text</p> ' + "word " * 300 + '"', '"<"', '">"', '"<a"', '"a<"', '"<<>>"', '"2020-01-01"', '"2020-02-30"', '"99999-01-01"', '"-1-1-1"', '"2020-01-01T00:00:00Z"', '"Wed, 21 Oct 2015 07:28:00 GMT"', '"\\u0000"', '"{{ $x }}"', '"\\ud83e\\udd80"', "[]", "{}", "[1]", '{"a": 1}', '[[[]]]', "[null]",
          '"1 Jan"', '"now"', '"12:60"', '"0000-00-00"', '"2020"', '"１２"', '"🦀"', '" "', '"\\n"', '"12/13/14"', '"Feb 29 2023"', '"10000000000"', '"1e9"', '"T"', '"+00:00"', '"2020-01-01 24:00"', '"1970-01-01 00:00:60"', '"262144-01-01"', '"-262145-01-01"', '"a" ', '"12am"', '"Monday"', '"2020-W01"', '"1st of May"', '"99999999999999999999"', '"00:00 +99:99"', '"2020-01-01 00:00:00 +14:00"', '"2020-01-01 -99:00"', '"1.1.1"', '"."', '":"', '"/"', '"0x10"', '"١٢٣"',
          '"Jan 99999 99999"', '"2147483648"', '"1/1/2147483648"', '"23:59:61"', '"12:00 EST"', '"1.99999999999999999999999"', '"12:00:00.9999999999"', '"PM"', '"13 PM"']
FORMATS = ["%Y-%m-%d", "%Q", "%", "%%", "%-", "%:", "%::", "%:::z", "%#z", "%+", "%s", "%f", "%.f", "%.3f", "%3f", "%9f", "%10f", "%c", "%v", "%Z", "%z", "é%Y", "%é", "%日", "", " ", "%-d", "%_d", "%0d", "%^a", "%5Y", "%e%k%l", "%U%W%G%g%V%u%w", "%n%t", "%%Y", "%Y%", "%Y%Q", "\\", "%C%y%h%b%B%a%A%j%D%x%F%R%T%X%r%p%P%M%S%I%H", "%E", "%O", "%!", "%1", "%.", "%.9", "%.99f", "x" * 3000, "%Y" * 500]


def sc_values(ctx):
    """Every function with values of every kind."""
    r = ctx.rng
    proj = base(ctx)
    for _ in range(8):
        v, w = r.choice(VALUES), r.choice(VALUES)
        if r.random() < 0.2:
            s = "".join(r.choice(list(" :-/.+,TZ0123456789") + ["Jan", "am", "PM", "GMT", "é", "日", "12", "2020", "99"]) for _ in range(r.randint(1, 14)))
            v = json.dumps(s)
        data = '{"v": %s, "w": %s, "l": [%s, %s], "r": [{"k": %s}, {"k": %s}, {"k": %s}]}' % (v, w, v, w, v, w, v)
        fmt = r.choice(FORMATS) if r.random() < 0.8 else "".join(r.choice(["%", "-", "_", "0", ".", ":", "#", "^", "3", "6", "9", "f", "z", "Y", "d", "é", "Q", "s", "j", "N", "L"]) for _ in range(r.randint(1, 8)))
        body = r.choice(['{{ excerpt($d.v, %s) }}' % r.choice(["0", "1", "2", "5", "100", "299", "300", "301", "2147483647", "2147483648", "-1"]), "{{ timetoread($d.v) }}", '{{ dateformat($d.v, "%s") }}' % fmt.replace('"', ""), '{{ dateformat($d.v, "%s") }}' % fmt.replace('"', ""), "{{ $d.v }}", "{{ $d }}", "{{ $d.v.a }}", "{{ $d.v.a.b }}",
                         *["{{ if%s($d.v, $d.w) }}y{{ else() }}n{{ end(if%s) }}" % (o, o) for o in ("eq", "gt", "le")], "{{ ifgt($d.v, %s) }}y{{ end(ifgt) }}" % r.choice(["1", '"x"', "0", "2147483647"]), "{{ for($x, $d.v) }}{{ $x }}{{ end(for) }}", "{{ for($x, $d.l) }}{{ $x }}{{ end(for) }}",
                         "{{ for($x, $d.l, sortby=$x) }}.{{ end(for) }}", '{{ for($x, $d.r, sortby=$x.k, order="%s") }}.{{ end(for) }}' % r.choice(["asc", "desc"]), "{{ for($x, $d.r, skip=%s, limit=%s) }}.{{ end(for) }}" % (r.choice(["0", "1", "2147483647", "5"]), r.choice(["0", "1", "2147483647"])), "{{ import($e, \"d.json\") }}{{ $e.v }}", "{{ for($x, $d.r) }}{{ for($y, $x.k) }}{{ $y }}{{ end(for) }}{{ end(for) }}",
                         "{{ ifdefined($d.v.a) }}y{{ end(ifdefined) }}"])
        t = '{{ begin("body") }}{{ import($d, "d.json") }}' + body + '{{ end("body") }}'
        put(os.path.join(proj, "content/d.json"), data)
        put(os.path.join(proj, "content/page.html"), t)
        run_build(ctx, proj, lambda: "%s with %s" % (body, data))
        ctx.observed(1, (body, data), values=1)
        ctx.sample = {"tag": body, "data": data[:500]}


def around(r, s):
    """With whitespace, or something like it, before and after it."""
    return r.choice(["", "", " ", "\t", "\u00a0", "\u3000", "\x0b", "\x0c", "\u2003 ", "\u200b", "\ufeff", "\u2028", "\x85", "\r"]) + s + r.choice(["", "", " ", "\t", "\u00a0", "\u3000", "\x0b", "\u200b"])


MD = ["# ", "## ", "- ", "1. ", "> ", "    ", "\t", "```\n", "~~~ x\n", "---\n", "***\n", "| a | b |\n", "|---|:-:|\n", "[a](b)", "[a][b]", "[b]: c \"d\"\n", "![x](y)", "<div>", "</div>", "<!-- ", " -->", "<?", "<![CDATA[", "<a href=\"", "*", "**", "_", "__", "~~", "`", "``", "\\", "&amp;", "&nope;", "&#x0;", "&#99999999;", "[^1]", "[^1]: note\n", "- [ ] ", "- [x] ", "\n", "\n\n", "  \n", "text", "é",
      "日本", "🦀", "\u00a0", "\0", "\ufeff", "[", "]", "(", ")", "<", ">", "http://x.y", "<http://x.y>", "<a@b.c>", "===\n", "{#id}", ":", "|", "\u2028", "1) ", "+ ", "99999999999. ", "{{ $self.title }}", "\\{{", "{{ $env.HOME }}", "\x1f", "* * *", "[a]: <b\n", "[a\n]: ", "![[", "]]", "[[a](b)](c)", "<b><i>"]


def sc_markdown(ctx):
    r = ctx.rng
    proj = base(ctx)
    for _ in range(12):
        n = r.choice([3, 10, 40, 150])
        body = "".join(r.choice(MD) for _ in range(n))
        if r.random() < 0.2:
            body = r.choice(MD) * r.choice([50, 500, 3000])
        if r.random() < 0.1:
            body = (r.choice(MD) + r.choice(MD)) * 800
        front = r.choice(["", "", '---\ntitle: "x"\n---\n', "---\n---\n", "---\r\n", "---", "--- \n", '---\ntitle: "' + r.choice(TOKENS) + '"\n---\n', "---\n" + "".join(r.choice(TOKENS + ['a: "b"', "\n"]) for _ in range(r.randint(0, 8))) + "\n---\n", "---\n" + "".join(around(r, around(r, r.choice(["a", "é", "", "title", "日本", '"k"', "a b", r.choice(TOKENS)])) + ":" + around(r, '"' + r.choice(["", "v", "é", r.choice(TOKENS)]) + '"')) + "\n" for _ in range(r.randint(1, 4))) + "---\n", '---\n: "x"\n---\n', '---\n"a": "b"\n---\n', "---\na: b\n---\n", "---\na: 1\n---\n", '---\na: "b" c\n---\n', '---\na: "\\"\n---\n', "---\n" + 'k: "v"\n' * 500 + "---\n", '---\na: "x\n---\n', "\ufeff---\n---\n", '---\ntags: ["a"]\n---\n', '\n---\na: "b"\n---\n'])
        t = front + body
        if r.random() < 0.2:
            t = t.replace("\n", r.choice(["\r\n", "\r"]))
        p = r.choice(["content/posts/c.md", "content/c.md", "content/posts/index.md", "content/index.md", "content/é .md", "content/.md", "content/posts/a.md"])
        put(os.path.join(proj, p), t)
        extra = r.random() < 0.3
        if extra:
            put(os.path.join(proj, "content/list.html"), '{{ begin("body") }}{{ for($p, "posts/") }}{{ $p.title }}{{ $p.content }}{{ excerpt($p.content, 30) }}{{ timetoread($p.content) }}{{ end(for) }}{{ end("body") }}')
        run_build(ctx, proj, lambda: "%s: %r" % (p, t[:1500]))
        ctx.observed(1, t, markdowns=1)
        ctx.sample = {p: t[:500]}
        os.unlink(os.path.join(proj, p))
        if extra:
            os.unlink(os.path.join(proj, "content/list.html"))
        if p in BASE:
            put(os.path.join(proj, p), BASE[p])


JS = ["{", "}", "[", "]", ",", ":", '"', "\\", "/", "true", "false", "null", "nul", "tru", "0", "-", "-1", "1.", ".5", "1e", "1e+", "1e5", "01", "1e999", "-1e999", "99999999999999999999999", "1" * 400, "0." + "0" * 400 + "1", '"a"', '"\\u00e9"', '"\\ud800"', '"\\udc00"', '"\\ud83e\\udd80"', '"\\u12"', '"\\x"', '"\\', '"\n"', '"\t"', '"\0"', '"é🦀"', '""', '"k": 1', '"k": "v",', "[]", "{}", " ", "\n", "\r\n", "\t",
      "\v", "\u00a0", "\ufeff", "//c\n", "/* c */", "NaN", "Infinity", "+1", "0x10", "'a'", "undefined", "[1, 2]", '{"a": {"b": [1]}}', '"__proto__": 1', "e", "E5", "\u2028"]


def sc_json(ctx):
    r = ctx.rng
    proj = base(ctx, settings={"save_metadata": r.random() < 0.5, "save_data_files": r.random() < 0.5})
    valid = [BASE["content/o.json"], BASE["content/d.json"], json.dumps({"a": [{"b": None, "c": [1.5, "é", {"d": True}]}] * 3}, ensure_ascii=False), json.dumps([{"title": "t%d" % i, "n": i} for i in range(8)], indent=2)]
    for _ in range(14):
        x = r.random()
        if x < 0.5:
            t = mutate(r, r.choice(valid).encode(), r.choice(valid).encode(), r.random() < 0.9)
        elif x < 0.8:
            t = "".join(r.choice(JS) for _ in range(r.choice([1, 2, 3, 5, 10, 40]))).encode("utf-8", "surrogatepass")
        elif x < 0.9:
            n = r.choice([10, 100, 200, 255, 256, 257, 258, 300, 1000, 50000])
            o = r.choice(["[", '{"a":', '[{"a":', '[1,', "[[],"])
            t = (o * n + r.choice(["1", "", "[]", "x"]) + r.choice(["", "".join({"[": "]", "{": "}"}.get(c, "") for c in reversed(o)) * n])).encode()
        else:
            t = ("[" + ",".join(r.choice(VALUES) for _ in range(r.choice([0, 1, 5, 100]))) + "]").encode()
        p = r.choice(["content/d.json", "content/o.json", "content/new.json", "content/posts/x.json"])
        put(os.path.join(proj, p), t)
        name = p.split("/", 1)[1]
        put(os.path.join(proj, "content/use.html"), '{{ begin("body") }}' + r.choice(["{{ import($d, \"%s\") }}{{ ifdefined($d.a) }}{{ for($x, $d.a) }}.{{ end(for) }}{{ end(ifdefined) }}", "{{ for($x, \"%s\") }}{{ ifdefined($x.b) }}{{ $x.b }}{{ end(ifdefined) }}{{ end(for) }}", "{{ for($x, \"%s\", sortby=$x.a) }}.{{ end(for) }}", "{{ import($d, \"%s\") }}{{ $d }}"]) % name + '{{ end("body") }}')
        if t.count(b",") > 20000:
            continue
        run_build(ctx, proj, lambda: "%s: %r" % (p, t[:1500]))
        ctx.observed(1, t, jsons=1)
        ctx.sample = {p: t[:500].decode("utf-8", "replace")}
        if p in BASE:
            put(os.path.join(proj, p), BASE[p])
        else:
            os.unlink(os.path.join(proj, p))


TOML = ["[", "]", "[[", "]]", "[site]", "[settings]", "[dependencies]", "name", "author", "strip_extensions", " = ", "=", '"x"', "'x'", '"""', "'''", "true", "false", "1", "-1", "0x1F", "1_000", "1e400", "inf", "nan", "1979-05-27T07:32:00Z", "1979-05-27", "07:32:00", "25:61:61", "[1, 2]", "{ a = 1 }", "{", "}", ",", ".", "#", "\n", "\r\n", "\r", "\t", "\0", "\\", '"\\u00e9"', '"\\ud800"', '"\\U00110000"', '"\\q"', "é", "\ufeff", "\x7f", "\"", "'", "a.b.c = 1", '"".x = 1', "9999999999999999999",
        "-", "+", "_", "plug = \"p.mjs\"", "plug = \"git+x\"", "plug = \"\"", "plug = \";\"", "plug = \"\\u0000\"", "plug = \"http://127.0.0.1:1/x.so\"", "plug = \"../..\"", "plug = \"*\"", "plug = \"/\"", "plug = \"x.so;y.so;z.mjs\"", "\"../x\" = \"y.js\"", '"" = "x.so"', '"a/b" = "git+/nonexistent"']


def sc_manifests(ctx):
    r = ctx.rng
    proj = base(ctx)
    valid = ['[site]\nname = "x"\nauthor = "y"\n\n[settings]\nstrip_extensions = true\nsave_data_files = false\nsave_metadata = true\n\n[dependencies]\n', 'site = { name = "x", author = \'y\' }\nsettings.save_metadata = true\n', '# c\n[site]\r\nname = """\nx"""\r\n']
    env = fsm.env_for(ctx, None, connect=1)
    env["PATH"] = ctx.path("nobin")  # (No Git, no Cargo: C23 is about those.)
    for _ in range(14):
        if r.random() < 0.6:
            t = mutate(r, r.choice(valid).encode(), r.choice(valid).encode(), r.random() < 0.9)
            if r.random() < 0.3:
                t += b"\n" + r.choice([x for x in TOML if x.startswith("plug") or x.startswith('"')]).encode()
        else:
            t = "".join(r.choice(TOML) for _ in range(r.choice([1, 3, 8, 30]))).encode("utf-8", "surrogatepass")
            if r.random() < 0.5:
                t = b'[site]\nname = "x"\n' + t
        if r.random() < 0.05:
            n = r.choice([10, 50, 100])
            t = b'[site]\nname = "x"\n[x]\na = ' + r.choice([b"[" * n + b"]" * n, b"{ a = " * n + b"1" + b"}" * n, b"[" * n])
        put(os.path.join(proj, "stuart.toml"), t)
        args = r.choice(BUILD)
        res = ctx.run(args, cwd=proj, extra_env=env)
        judge(ctx, res, lambda: "stuart.toml: %r" % t[:1500], os.path.join(proj, "dist") if "build" in args else None, "-q" in args)
        ctx.observed(1, t, manifests=1)
        ctx.sample = {"stuart.toml": t.decode("utf-8", "replace")[:500]}
        shutil.rmtree(os.path.join(proj, "_build"), ignore_errors=True)


PLUGIN = 'export default {\n  name: "plug",\n  version: "1",\n  functions: [\n    { name: "f", fn: (a, b) => "r" + a + b },\n    { name: "g", fn: () => { STUART.set("x", { a: [1, "é", null] }); return STUART.get("x").a } },\n  ],\n  parsers: [\n    { name: "p", extensions: ["abc"], fn: (s) => s },\n  ],\n}\n'


def sc_plugins(ctx):
    """Mutated plugins, and files that are no plugins."""
    r = ctx.rng
    proj = base(ctx, {"stuart.toml": manifest() + '\n[dependencies]\nplug = "p.mjs"\n', "content/page.html": '{{ begin("body") }}{{ f(1, "é") }}{{ g() }}{{ $env }}{{ end("body") }}'})
    for _ in range(4):
        x = r.random()
        name = "p.mjs"
        if x < 0.7:
            t = mutate(r, PLUGIN.encode(), BASE["content/d.json"].encode(), r.random() < 0.9)
        elif x < 0.85:
            val = r.choice(["undefined", "null", "1n", "Symbol()", "() => 1", "NaN", "-0", "1/0", "'\\ud800'", "new Date(0)", "[1,,2]", "{a: undefined}", "new Proxy({}, {})", "new Map()", "'x'.repeat(100000)", "(() => { throw null })()", "(() => { throw { toString() { throw 1 } } })()", "Promise.reject(1)", "new Promise(() => {})", "(function f() { return f() })()", "STUART.get('nope')", "STUART.set('a')", "STUART.set()", "STUART.get()", "STUART.set({}, [])",
                            "STUART.get({ toString() { throw 1 } })", "STUART.set('a', { toJSON() { throw 1 } })", "STUART.set('a', (() => { const o = {}; o.o = o; return o })())", "globalThis", "new Uint8Array(9)", "delete globalThis.STUART", "/x/g", "async () => 1", "function* () {}", "Object.create(null)", "new (class { get x() { throw 1 } })", "[].concat", "eval('(')", "JSON.parse('{')", "String.fromCharCode(0)", "STUART.set('a', 'x'.repeat(1e6))"])
            t = PLUGIN.replace('"r" + a + b', val).encode()
        else:
            t = r.choice([b"", b"\0", b"\x7fELF", b"\x7fELF" + bytes(100), bytes(r.randrange(256) for _ in range(200)), b"export default null", b"export default []", b"export default { name: 1 }", b"export default { name: '', version: '', functions: [] }", b"export default { name: 'p', version: '1', functions: [1, null, {}] }", b"export default { name: 'p', version: '1', parsers: [1, null, {}] }",
                          b"export default { name: 'p', version: '1', functions: { length: 3 } }", b"export default { name: 'p', version: '1', functions: new Proxy([], { get() { throw 1 } }) }", b"import 'x'", b"import x from './p.mjs'; export default x", b"throw 1", b"throw null", b"export default function () {}", b"export default class {}", b"export default new Promise(() => {})"])
            name = r.choice(["p.mjs"] * 3 + ["p.so", "p.js"])
        if re.search(rb"while|for ?\(", t):
            continue
        put(os.path.join(proj, name), t)
        put(os.path.join(proj, "stuart.toml"), manifest() + '\n[dependencies]\nplug = "%s"\n' % name)
        if r.random() < 0.3:
            put(os.path.join(proj, "content/x.abc"), r.choice([b"", b"{{ x", b"\xff"]))
        res = ctx.run(["-q", "build"], cwd=proj)
        judge(ctx, res, lambda: "%s: %r" % (name, t[:1500]), os.path.join(proj, "dist"), False)
        ctx.observed(1, t, plugins=1)
        ctx.sample = {name: t.decode("utf-8", "replace")[:500]}


NAMES = [b"\xff.html", b"\xff.md", b"\xff.json", b"\xff", b"a\xc3", b"\xed\xa0\x80.html", b"x" * 255, b"x" * 250 + b".html", b"x" * 251 + b".json", b"\n.html", b"a\nb.md", b"\r.html", b"\t.json", b" .html", b"..html", b"...md", b".html", b".md", b"..json", b"*.html", b"?.md", b"{{ x }}.html", b"$a.md", b"'\".html", b"\\.md", b"a\\b.html", b"\x01\x02.html", b"\x7f.md", "é.html".encode(), "日本.md".encode(), "🦀.json".encode(), "\u202e.html".encode(),
         "\u2028.md".encode(), "\ufeff.html".encode(), b"%.html", b"%00.html", b"#.html", b"a.html.md", b"a.md.html", b"a.json.html", b"index.html.html", b"HTML", b"html", b"md", b"json", b".HTML", b"x.Html", b"-.html", b"--help.md", b"~", b"CON.html", b"a;b.html", b"root.html.bak", b"root.htm", b"xroot.html", b"md.html.md", b"root.md", b"md.json"]


def sc_names(ctx):
    r = ctx.rng
    for k in range(4):
        proj = ctx.path("p%d" % k)
        os.makedirs(proj)
        dirs = [b""] + [r.choice([n for n in NAMES if n not in (b"root.html", b"md.html")]) for _ in range(r.randint(0, 3))]
        files = {}
        for _ in range(r.randint(1, 8)):
            tree = r.choice([b"content", b"content", b"content", b"static", b"temp", b"scripts"])
            d = r.choice(dirs)
            if r.random() < 0.3:
                d = os.path.join(d, r.choice(dirs))
            n = r.choice(NAMES)
            if r.random() < 0.3:
                n = bytes(r.choice([r.randrange(1, 256), 46, 97]) for _ in range(r.randint(1, 12))).replace(b"/", b"_") + r.choice([b".html", b".md", b".json", b"", b".txt"])
                if n in (b".", b".."):
                    continue
            files[os.path.join(tree, d, n)] = r.choice(['{{ begin("body") }}x{{ end("body") }}', "x", "[]", "", '---\na: "b"\n---\nx', b"\xff"])
        write_tree(proj, dict(BASE, **{"stuart.toml": manifest(save_metadata=r.random() < 0.5, save_data_files=r.random() < 0.5, strip_extensions=r.random() < 0.6), "content/list.html": '{{ begin("body") }}{{ for($x, "%s") }}.{{ end(for) }}{{ end("body") }}' % r.choice(["posts/", "", "/", ".", "./", "..", "posts", "a.json"])}))
        done = 0
        for p, v in files.items():
            try:
                write_tree(proj, {p: v})
                done += 1
            except OSError:
                pass  # One name is that of a directory and a file, or it is too long.
        if r.random() < 0.15:
            d = os.path.join(proj, "content")
            for _ in range(r.choice([30, 120])):
                d += "/" + "d" * r.choice([1, 30])
                if len(d) > 3900:
                    break
            try:
                os.makedirs(d)
                put(d + "/x.html", "x")
            except OSError:
                pass
        run_build(ctx, proj, lambda: "files: %r" % sorted(files), r.choice(BUILD))
        ctx.observed(1, sorted(files), names=done)
        ctx.sample = {"files": [repr(f) for f in sorted(files)]}


def sc_big(ctx):
    """Deep and large, but not beyond what is said to work."""
    r = ctx.rng
    n = r.choice([50, 100, 149])
    W = lambda b: '{{ begin("body") }}' + b + '{{ end("body") }}'
    forms = {
        "conditions": {"i.html": W("{{ ifeq(1, 1) }}" * n + "x" + "{{ end(ifeq) }}" * n)},
        "else": {"i.html": W("{{ ifne(1, 1) }}{{ else() }}" * n + "x" + "{{ end(ifne) }}" * n)},
        "loops": {"one.json": "[1]", "i.html": W('{{ for($x, "one.json") }}' * n + "{{ $x }}" + "{{ end(for) }}" * n)},
        "sections": {"i.html": W("".join('{{ begin("s%d") }}' % i for i in range(n)) + "x" + "".join('{{ end("s%d") }}' % i for i in reversed(range(n))))},
        "error-inside": {"i.html": W("{{ ifeq(1, 1) }}\n" * n + "{{ $nope }}" + "{{ end(ifeq) }}" * n)},
        "unclosed": {"i.html": W("{{ ifeq(1, 1) }}" * n)},
        "not-evaluated": {"i.html": W("{{ ifdefined($nope) }}" * 3000 + "x" + "{{ end(ifdefined) }}" * 3000)},
        "markdown": {"i.md": "{{ ifeq(1, 1) }}" * n + "x" + "{{ end(ifeq) }}" * n},
        "md-quotes": {"i.md": ">" * r.choice([200, 3000]) + " x\n"}, "md-lists": {"i.md": "".join("  " * i + "- x\n" for i in range(r.choice([50, 300])))},
        "md-links": {"i.md": "[" * 2000 + "a" + "](x)" * 2000}, "md-emphasis": {"i.md": "*a **b " * 2000}, "md-table": {"i.md": "|a" * 500 + "\n" + "|-" * 500 + "\n" + "|x" * 500 + "\n"}, "md-refs": {"i.md": "".join("[a%d]: x\n" % i for i in range(2000)) + "[a1] " * 2000},
        "json-deep": {"d.json": "[" * 250 + "]" * 250, "i.html": W('{{ import($d, "d.json") }}')}, "json-long": {"d.json": "[" + ",".join(["1"] * 50000) + "]", "i.html": W('{{ for($x, "d.json") }}{{ $x }}{{ end(for) }}')},
        "json-sort": {"d.json": json.dumps([{"k": (i * 7919) % 20011} for i in range(20011)]), "i.html": W('{{ for($x, "d.json", sortby=$x.k, order="desc", limit=3) }}{{ $x.k }}{{ end(for) }}')},
        "long-line": {"i.html": W("x" * 2_000_000 + "{{ $nope }}")}, "long-line-multibyte": {"i.html": W("é日🦀" * 100_000 + "{{ $nope }}" + "🦀" * 100_000)}, "long-path": {"i.html": W("{{ $a" + ".b" * 20000 + " }}")}, "many-tags": {"i.html": W("{{ $env.HOME }}" * 20000)}, "many-lines": {"i.html": W("\n" * 100000 + "{{ $nope }}")}, "long-string": {"i.html": W('{{ ifeq("%s", "x") }}{{ end(ifeq) }}' % ("y" * 500000))},
        "many-args": {"i.html": W("{{ ifeq(" + "1, " * 10000 + "1) }}")}, "many-files": {"f%d.html" % i: W("{{ $env.HOME }}") for i in range(1500)}, "many-dirs": {"d%d/e%d/f.html" % (i % 40, i): W("x") for i in range(500)}, "many-posts": {"posts/p%d.md" % i: '---\ntitle: "%d"\n---\n# x\n' % i for i in range(700)} | {"i.html": W('{{ for($p, "posts/", sortby=$p.title) }}{{ $p.title }}{{ end(for) }}')},
        "frontmatter": {"i.md": "---\n" + "".join('k%d: "v"\n' % i for i in range(5000)) + "---\nx"}, "front-long": {"i.md": '---\na: "' + "é" * 300000 + '"\n---\nx'}, "excerpt-long": {"d.json": json.dumps({"s": "<p>" * 20000 + "é" * 100000}), "i.html": W('{{ import($d, "d.json") }}{{ excerpt($d.s, 50000) }}{{ timetoread($d.s) }}')}, "excerpt-huge": {"d.json": '["a<b>c"]', "i.html": W('{{ import($d, "d.json") }}{{ excerpt($d.0, 2147483647) }}')}, "static": {"../static/big.bin": b"\0" * 5_000_000},
    }
    kind = sorted(forms)[ctx.index % len(forms)]
    proj = base(ctx, {"content/" + p: v for p, v in forms[kind].items()})
    run_build(ctx, proj, lambda: "%s (%d)" % (kind, n), r.choice([["-q", "build"], ["build"]]))
    ctx.observed(1, (kind, n), **{"big-" + kind: 1})


def sc_dev(ctx):
    """The development server goes on, whatever the project becomes."""
    r = ctx.rng
    proj = base(ctx)
    files = [p for p in BASE]
    with D.Dev(ctx, proj) as dev:
        ctx.require(dev.alive(), "dev-crash", lambda: "dev ends: " + dev.text()[-500:])
        for _ in range(6):
            dev.quiet(0.12)
            k = dev.mark()
            p = r.choice(files + ["content/new.html", "content/posts/new.md", "content/new.json", "static/x", "content/\udcff.html", "content/posts", "static/\udcfe/x"])
            full = os.path.join(proj, p)
            v = None
            try:
                if os.path.isdir(full):
                    shutil.rmtree(full)
                elif r.random() < 0.15 and os.path.exists(full):
                    os.unlink(full)
                else:
                    v = mutate(r, os.fsencode(BASE.get(p, "")) or soup(r).encode(), b"", r.random() < 0.8)
                    if loops(v) > 5:
                        continue
                    os.makedirs(os.path.dirname(full), exist_ok=True)
                    put(full, v)
            except (NotADirectoryError, FileExistsError, IsADirectoryError):
                continue
            if not dev.wait_for(lambda: dev.finished(k) + dev.failed(k) > 0, 6 if v is not None else 1):
                ctx.feature("not-rebuilt-in-time")
            dev.quiet(0.05)
            ctx.require(dev.alive(), "dev-crash", lambda: "the development server ends after %r became %r: %s" % (p, v, dev.text(k)[-800:]))
            ctx.require("panicked at" not in dev.text(k) or "chrono" in dev.text(k) or "fmt" in dev.text(k), "dev-panic", lambda: "the development server panics after %r became %r: %s" % (p, v, dev.text(k)[-800:]))
            ctx.observed(1, (p, v), dev_changes=1)
        try:
            a = dev.get("/")
        except OSError as e:
            raise Violation("dev-dead", "the development server does not answer any more: %s" % e)
        ctx.require(a is not None and a.status in (200, 404), "dev-dead", lambda: "the development server answers %s" % (a and a.status))
        ctx.sample = {"log": dev.text()[-800:]}


def sc_deep(ctx):
    """Known findings: nesting without any limit overflows the stack."""
    which = ["template-nesting", "toml-nesting"][ctx.index % 2]
    n = 60000
    if which == "template-nesting":
        proj = base(ctx, {"content/page.html": '{{ begin("body") }}' + "{{ ifeq(1, 1) }}" * n + "x" + "{{ end(ifeq) }}" * n + '{{ end("body") }}'})
    else:
        proj = base(ctx, {"stuart.toml": '[site]\nname = "x"\n[x]\na = ' + "[" * n + "]" * n + "\n"})
    res = ctx.run(["-q", "build"], cwd=proj)
    ctx.observed(1, which)
    if res.rc == -6 and "has overflowed its stack" in res.errtext():
        raise Violation(which, "%d levels: the stack overflows" % n)
    judge(ctx, res, which, os.path.join(proj, "dist"))


SCENARIOS = [Scenario("mutants", sc_mutants, 700, 12000), Scenario("soup", sc_soup, 400, 7000), Scenario("values", sc_values, 500, 8000), Scenario("markdown", sc_markdown, 240, 4000), Scenario("json", sc_json, 280, 4000), Scenario("manifests", sc_manifests, 200, 3000), Scenario("plugins", sc_plugins, 160, 2500), Scenario("names", sc_names, 240, 4000), Scenario("big", sc_big, 38, 114), Scenario("dev", sc_dev, 24, 200), Scenario("deep", sc_deep, 2, 2)]
BUDGET = {"quick": 90, "thorough": 700}
