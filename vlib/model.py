"""An independent reference model of the template language and of the output tree.

It evaluates abstract templates, and renders them to source text; it never parses templates, so that it shares no
mistake with the parser under test. What the documentation leaves open raises Unspecified, and is not generated.
"""
import json, math


class BuildError(Exception):
    """The build has to fail. `kind` is a fragment of the message, `node` the tag at fault."""

    def __init__(self, kind, node=None):
        super().__init__(kind)
        self.kind, self.node = kind, node


class Unspecified(Exception):
    pass


# -- templates --------------------------------------------------------------------------------------------------------

class Node:
    __slots__ = ("line", "file")


class Raw(Node):
    __slots__ = ("text",)

    def __init__(self, text):
        self.text = text


class Var(Node):
    __slots__ = ("path",)

    def __init__(self, path):
        self.path = path


class Section(Node):
    __slots__ = ("name", "body", "end")

    def __init__(self, name, body):
        self.name, self.body = name, body


class Insert(Node):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Import(Node):
    __slots__ = ("var", "file_name")

    def __init__(self, var, file_name):
        self.var, self.file_name = var, file_name


class For(Node):
    """`source`: ("json", path), ("md", path ending in "/") or ("var", dotted path)."""
    __slots__ = ("var", "source", "body", "skip", "limit", "sortby", "order", "end")

    def __init__(self, var, source, body, skip=None, limit=None, sortby=None, order=None):
        self.var, self.source, self.body = var, source, body
        self.skip, self.limit, self.sortby, self.order = skip, limit, sortby, order


class If(Node):
    """Operands: ("var", path), ("str", s) or ("int", i). `orelse` is None if there is no else tag."""
    __slots__ = ("op", "a", "b", "then", "orelse", "end", "els")

    def __init__(self, op, a, b, then, orelse=None):
        self.op, self.a, self.b, self.then, self.orelse = op, a, b, then, orelse


class IfDef(Node):
    __slots__ = ("path", "then", "orelse", "end", "els")

    def __init__(self, path, then, orelse=None):
        self.path, self.then, self.orelse = path, then, orelse


class Call(Node):
    """A built-in or plugin function without a body. `fn(evaluator, node)` gives its output."""
    __slots__ = ("name", "args", "fn")

    def __init__(self, name, args, fn):
        self.name, self.args, self.fn = name, args, fn


class Verbatim(Node):
    """Source text that is malformed on purpose; never evaluated."""
    __slots__ = ("source",)

    def __init__(self, source):
        self.source = source


# -- rendering to source ----------------------------------------------------------------------------------------------

class Style:
    """How tags are written. The default is `{{ name(a, b) }}`."""

    def pad(self):
        return " "

    def sep(self):
        return ", "

    def inner(self):
        return ""

    def paren(self):
        return ""


class RandomStyle(Style):
    """Random whitespace wherever it must not matter."""

    def __init__(self, rng, newlines=True):
        self.rng = rng
        self.ws = ["", " ", "  ", "\t", " \t "] + (["\n", " \r\n ", "\n\n  "] if newlines else [])

    # (Neither a line ending for `str.splitlines` only, nor zero-width characters, which are not whitespace.)
    UNUSUAL = ["\u00a0", "\u3000", "\x0b", "\x0c", "\u2003", "\u1680", " \u202f", "\u205f\t"]

    def pick(self, weights_plain=3):
        x = self.rng.random()
        return " " if x < 0.4 else self.rng.choice(self.UNUSUAL) if x > 0.985 else self.rng.choice(self.ws)

    def pad(self):
        return self.pick()

    def sep(self):
        return self.pick() + "," + self.pick()

    def inner(self):
        return "" if self.rng.random() < 0.6 else self.pick()

    def paren(self):
        return "" if self.rng.random() < 0.7 else self.pick()


def escape(text):
    return text.replace("{{", "\\{{")


def arg_source(a):
    kind, v = a
    if kind == "var":
        return "$" + v
    if kind == "str":
        return '"%s"' % v
    if kind == "int":
        return str(v)
    return v


class Writer:
    """Renders templates to source and notes the line on which each tag starts (after its braces)."""

    def __init__(self, style=None, line=1):
        self.style = style or Style()
        self.parts = []
        self.line = line

    def emit(self, s):
        self.parts.append(s)
        self.line += s.count("\n")

    def tag(self, content, node=None, attr="line"):
        self.emit("{{" + self.style.pad())
        if node is not None:
            if attr == "line":
                node.line = self.line
            else:
                setattr(node, attr, self.line)
        self.emit(content + self.style.pad() + "}}")

    def call(self, name, args, node=None, attr="line"):
        st = self.style
        body = name + st.paren() + "(" + st.inner()
        for i, a in enumerate(args):
            body += (st.sep() if i else "") + a
        self.tag(body + st.inner() + ")", node, attr)

    def write(self, nodes):
        for n in nodes:
            if isinstance(n, Raw):
                n.line = self.line
                self.emit(escape(n.text))
            elif isinstance(n, Verbatim):
                n.line = self.line
                self.emit(n.source)
            elif isinstance(n, Var):
                self.tag("$" + n.path, n)
            elif isinstance(n, Section):
                self.call("begin", ['"%s"' % n.name], n)
                self.write(n.body)
                self.call("end", ['"%s"' % n.name], n, "end")
            elif isinstance(n, Insert):
                self.call("insert", ['"%s"' % n.name], n)
            elif isinstance(n, Import):
                self.call("import", ["$" + n.var, '"%s"' % n.file_name], n)
            elif isinstance(n, For):
                args = ["$" + n.var, "$" + n.source[1] if n.source[0] == "var" else '"%s"' % n.source[1]]
                named = []
                if n.skip is not None:
                    named.append("skip=%d" % n.skip)
                if n.limit is not None:
                    named.append("limit=%d" % n.limit)
                if n.sortby is not None:
                    named.append("sortby=$" + n.sortby)
                if n.order is not None:
                    named.append('order="%s"' % n.order)
                if isinstance(self.style, RandomStyle):
                    self.style.rng.shuffle(named)
                self.call("for", args + named, n)
                self.write(n.body)
                self.call("end", ["for"], n, "end")
            elif isinstance(n, If):
                self.call("if" + n.op, [arg_source(n.a), arg_source(n.b)], n)
                self.write(n.then)
                if n.orelse is not None:
                    self.call("else", [], n, "els")
                    self.write(n.orelse)
                self.call("end", ["if" + n.op], n, "end")
            elif isinstance(n, IfDef):
                self.call("ifdefined", ["$" + n.path], n)
                self.write(n.then)
                if n.orelse is not None:
                    self.call("else", [], n, "els")
                    self.write(n.orelse)
                self.call("end", ["ifdefined"], n, "end")
            elif isinstance(n, Call):
                self.call(n.name, [arg_source(a) for a in n.args], n)
            else:
                raise TypeError(n)
        return self

    def text(self):
        return "".join(self.parts)


def source(nodes, style=None):
    return Writer(style).write(nodes).text()


def raw_ok(nodes):
    """Whether the literal text can be written without meeting what is left open: a backslash or brace right before a
    tag, or three braces in a row."""
    for i, n in enumerate(nodes):
        if isinstance(n, Raw):
            t = n.text
            last = i + 1 == len(nodes)
            if "{{{" in t or (not last and t[-1:] in ("\\", "{")):
                return False
    return True


# -- values -----------------------------------------------------------------------------------------------------------

MISSING = object()


def get_value(value, indexes):
    for i in indexes:
        if isinstance(value, dict) and i in value:
            value = value[i]
        elif isinstance(value, list) and i.isascii() and i.isdigit() and int(i) < len(value):
            value = value[int(i)]
        else:
            return None
    return value


# -- evaluation -------------------------------------------------------------------------------------------------------

class Evaluator:
    """Evaluates templates of one page. `site` gives json(path), md_dir(path)."""

    def __init__(self, site, base):
        self.site = site
        self.frames = [dict(base)]
        self.sections = {}
        self.steps = 0

    def lookup(self, path):
        """The value, None for null or a missing part, MISSING for an undefined name."""
        name, *indexes = path.split(".")
        for f in reversed(self.frames):
            if name in f:
                return get_value(f[name], indexes)
        return MISSING

    def run(self, nodes):
        out = []
        for n in nodes:
            out.append(self.eval(n))
        return "".join(out)

    def eval(self, n):
        self.steps += 1
        if self.steps > 20000:
            raise Unspecified("too long")
        if isinstance(n, Raw):
            return n.text
        if isinstance(n, Var):
            v = self.lookup(n.path)
            if v is MISSING:
                raise BuildError("undefined variable: `%s`" % n.path, n)
            if v is None:
                raise BuildError("null error: `%s`" % n.path, n)
            if not isinstance(v, str):
                raise BuildError("type error in variable `%s`" % n.path, n)
            return v
        if isinstance(n, Section):
            self.frames.append({})
            text = self.run(n.body)
            self.frames.pop()
            self.sections.setdefault(n.name, text)  # (The first of a name counts.)
            return text
        if isinstance(n, Insert):
            if n.name not in self.sections:
                raise BuildError("undefined section: `%s`" % n.name, n)
            return self.sections[n.name]
        if isinstance(n, Import):
            v = self.site.json(n)
            if n.var in self.frames[-1]:
                raise BuildError("variable already exists: `%s`" % n.var, n)
            self.frames[-1][n.var] = v
            return ""
        if isinstance(n, For):
            return self.loop(n)
        if isinstance(n, If):
            return self.branch(n, self.condition(n))
        if isinstance(n, IfDef):
            v = self.lookup(n.path)
            return self.branch(n, v is not MISSING and v is not None)
        if isinstance(n, Call):
            return n.fn(self, n)
        raise TypeError(n)

    def branch(self, n, cond):
        body = n.then if cond else n.orelse
        self.frames.append({})
        text = self.run(body or [])
        self.frames.pop()
        return text

    def operand(self, o, n):
        kind, v = o
        if kind == "var":
            value = self.lookup(v)
            if value is MISSING:
                raise BuildError("undefined variable: `%s`" % v, n)
            if value is None or isinstance(value, (bool, list, dict)):
                raise Unspecified("comparison of something other than numbers and strings")
            return value
        return v

    def condition(self, n):
        a, b = self.operand(n.a, n), self.operand(n.b, n)
        num_a, num_b = not isinstance(a, str), not isinstance(b, str)
        if n.op == "eq":
            return num_a == num_b and a == b
        if n.op == "ne":
            return not (num_a == num_b and a == b)
        if not num_a or not num_b:
            raise Unspecified("order of strings")
        return {"gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[n.op]

    def items(self, n):
        kind, src = n.source
        if kind == "json":
            v = self.site.json(n)
            if not isinstance(v, list):
                raise BuildError("not a json array", n)
        elif kind == "md":
            v = self.site.md_dir(n)
        else:
            v = self.lookup(src)
            if v is MISSING or not isinstance(v, list):
                raise BuildError("not a json array", n)
        items = list(v)
        if n.sortby is not None:
            indexes = n.sortby.split(".")[1:]
            keys = [get_value(i, indexes) for i in items]
            strs, nums = any(isinstance(k, str) for k in keys), any(isinstance(k, (int, float)) and not isinstance(k, bool) for k in keys)
            if strs and nums:
                raise Unspecified("mixed sort keys")
            # Items without a key that can be compared come before all others.
            none = [k is None or isinstance(k, (bool, list, dict)) for k in keys]
            keys = [float("-inf") if n and not strs else b"" if n else k.encode("utf-8") if strs else k for n, k in zip(none, keys)]
            items = [i for _, i in sorted(zip(keys, items), key=lambda ki: ki[0])]
        if n.order == "desc":
            items.reverse()
        if n.skip is not None:
            items = items[n.skip:]
        if n.limit is not None:
            items = items[:n.limit]
        return items

    def loop(self, n):
        out = []
        for item in self.items(n):
            self.frames.append({n.var: item})
            out.append(self.run(n.body))
            self.frames.pop()
        return "".join(out)


# -- sites ------------------------------------------------------------------------------------------------------------

class Html:
    def __init__(self, nodes, style=None):
        self.nodes, self.style = nodes, style
        self.src = None

    def source(self):
        if self.src is None:
            self.src = source(self.nodes, self.style)
        return self.src


class Md:
    """`frontmatter`: list of (key, value) or None. `body`: nodes, whose literal text has no carriage returns or final
    line ending beyond what `source` writes."""

    def __init__(self, frontmatter, body, style=None, eol="\n", fm_style=None):
        self.frontmatter, self.body, self.style, self.eol = frontmatter, body, style, eol
        self.fm_style = fm_style
        self.src = None
        self.html = None

    def front(self):
        if self.frontmatter is None:
            return []
        fmt = self.fm_style or (lambda k, v: '%s: "%s"' % (k, v))
        return ["---"] + [fmt(k, v) for k, v in self.frontmatter] + ["---"]

    def source(self):
        if self.src is None:
            front = self.front()
            w = Writer(self.style, len(front) + 1).write(self.body)
            self.src = "".join(l + "\n" for l in front) + w.text()
            if self.eol != "\n":
                self.src = self.src.replace("\n", self.eol)
        return self.src

    def body_source(self):
        """What `$self.markdown` is: the lines of the body joined by newlines."""
        w = Writer(self.style, 1).write(self.body) if not isinstance(self.style, RandomStyle) else None
        text = w.text() if w else self.source()
        if w is None:
            text = text.replace("\r\n", "\n")
            for l in self.front():
                text = text[len(l) + 1:]
        return text[:-1] if text.endswith("\n") else text


class Json:
    def __init__(self, value, text=None):
        self.value = value
        self.text = text if text is not None else json.dumps(value, ensure_ascii=False)

    def source(self):
        return self.text


class Other:
    def __init__(self, data):
        self.data = data

    def source(self):
        return self.data


class Site:
    """The content tree: relative path -> Html, Md, Json or Other."""

    def __init__(self, files, env=None, dirs=()):
        self.files, self.env, self.dirs = files, env or {}, set(dirs)
        self.md_ready = False
        for p in files:
            d = p
            while "/" in d:
                d = d.rsplit("/", 1)[0]
                self.dirs.add(d)
        for d in list(self.dirs):
            while "/" in d:
                d = d.rsplit("/", 1)[0]
                self.dirs.add(d)

    def sources(self):
        out = {}
        for p, f in self.files.items():
            s = f.source()
            out[p] = s.encode("utf-8") if isinstance(s, str) else s
        return out

    # -- what templates can see
    def norm(self, path, node):
        if path.startswith("/"):
            raise BuildError("not found: `%s`" % path, node)
        parts = [c for c in path.split("/") if c not in ("", ".")]
        if ".." in parts:
            raise BuildError("not found: `%s`" % path, node)
        return "/".join(parts)

    def json(self, node):
        path = node.file_name if isinstance(node, Import) else node.source[1]
        p = self.norm(path, node)
        f = self.files.get(p)
        if f is None:
            raise BuildError("not found: `%s`" % path, node)
        if not isinstance(f, Json):
            raise BuildError("type error in variable `<file>`" if isinstance(node, Import) else "not a json array", node)
        return f.value

    def md_dir(self, node):
        p = self.norm(node.source[1], node)
        if p and p not in self.dirs:
            raise BuildError("not found: `%s`" % node.source[1], node)
        pre = p + "/" if p else ""
        names = [f for f in self.files if f.startswith(pre) and "/" not in f[len(pre):] and isinstance(self.files[f], Md)]
        return [self.md_value(self.files[f]) for f in sorted(names, key=lambda n: n.encode("utf-8"))]

    def md_value(self, md):
        v = {}
        for k, x in md.frontmatter or []:
            v.setdefault(k, x)
        v["content"] = md.html if self.md_ready else None
        v["markdown"] = md.body_source()
        return v

    def base(self):
        return {"env": self.env}

    def nearest(self, path, name):
        d = path
        while True:
            d = d.rsplit("/", 1)[0] if "/" in d else None
            p = name if d is None else d + "/" + name
            if p in self.files:
                return p
            if d is None:
                return None

    # -- evaluation
    def preprocess(self, to_html):
        """Evaluates all markdown bodies; `to_html` converts a list of markdown texts."""
        mds = [(p, f) for p, f in sorted(self.files.items()) if isinstance(f, Md)]
        texts = []
        for p, f in mds:
            f.html = None
        for p, f in mds:
            texts.append(self.md_text(p, f))
        for (p, f), h in zip(mds, to_html(texts) if texts else []):
            f.html = h
        self.md_ready = True

    def md_text(self, p, f):
        ev = Evaluator(self, self.base())
        try:
            text = ev.run(f.body)
        except BuildError as e:
            e.file = p
            raise
        # The last line ending of a file is not part of its lines.
        if f.body and isinstance(f.body[-1], Raw) and f.body[-1].text.endswith("\n"):
            text = text[:-1]
        return text

    def page(self, path):
        """The bytes of the page at `path`."""
        f = self.files[path]
        root = self.nearest(path, "root.html")
        if root is None:
            raise BuildError("cannot find `root.html` template")
        base = self.base()
        where = path
        try:
            if isinstance(f, Html):
                ev = Evaluator(self, base)
                ev.run(f.nodes)
            else:
                md = self.nearest(path, "md.html")
                if md is None:
                    raise BuildError("cannot find `md.html` template")
                where = md
                ev = Evaluator(self, dict(base, self=self.md_value(f)))
                ev.run(self.files[md].nodes)
            ev.frames = [dict(base)]
            where = root
            return ev.run(self.files[root].nodes).encode("utf-8")
        except BuildError as e:
            e.file = where
            raise


# -- output trees -----------------------------------------------------------------------------------------------------

def is_page(path, f):
    return path.rsplit("/", 1)[-1] not in ("root.html", "md.html") and isinstance(f, (Html, Md))


def out_path(path, strip):
    """Where a built file goes."""
    d, _, name = path.rpartition("/")
    if name.endswith(".md"):
        name = name[:-3] + ".html"
    if name.endswith(".html") and strip and name != "index.html":
        stem = name[:-5]
        if stem not in ("", ".", ".."):
            name = stem + "/index.html"
    return (d + "/" if d else "") + name


def output_tree(site, strip=True, data=False, extra=None, extra_dirs=(), pages=None):
    """The expected output: path -> bytes, or None for a directory. `extra`: static and temp files."""
    out = {}

    def put(p, v):
        parts = p.split("/")
        for i in range(1, len(parts)):
            d = "/".join(parts[:i])
            if out.setdefault(d, None) is not None:
                raise BuildError("filename conflict")
        if p in out:
            raise BuildError("filename conflict")
        out[p] = v

    for d in sorted(site.dirs):
        out[d] = None
    for p, f in sorted(site.files.items()):
        name = p.rsplit("/", 1)[-1]
        if name in ("root.html", "md.html"):
            continue
        if isinstance(f, (Html, Md)):
            put(out_path(p, strip), pages[p] if pages else site.page(p))
        elif isinstance(f, Json):
            if data:
                put(p, f.source().encode("utf-8"))
        else:
            put(p, f.source())
    for d in extra_dirs:
        parts = d.split("/")
        for i in range(1, len(parts) + 1):
            x = "/".join(parts[:i])
            if out.setdefault(x, None) is not None:
                raise BuildError("filename conflict")
    for p, v in (extra or {}).items():
        put(p, v)
    return out


# -- built-in functions without a body --------------------------------------------------------------------------------

def string_arg(ev, n, path):
    v = ev.lookup(path)
    if v is MISSING:
        raise BuildError("undefined variable: `%s`" % path, n)
    if not isinstance(v, str):
        raise BuildError("type error in variable `%s`" % path, n)
    return v


def timetoread(path):
    def fn(ev, n):
        words = len(string_arg(ev, n, path).split())
        return str(max(1, words // 200))
    return Call("timetoread", [("var", path)], fn)


def strip_tags(s):
    out, tag = [], False
    for c in s:
        if c == "<":
            tag = True
        elif c == ">":
            tag = False
        elif not tag:
            out.append(c)
    return "".join(out)


def excerpt(path, length):
    def fn(ev, n):
        s = string_arg(ev, n, path)
        t = strip_tags(s)
        size = len(t.encode("utf-8"))
        if size < length:
            return t
        if not t.isascii():
            raise Unspecified("length of text that is not ASCII")
        if len(t) == length:
            return t
        return t[:length] + "..."
    return Call("excerpt", [("var", path), ("int", length)], fn)
