"""Random sites for the reference model: data, text and templates that know what is in scope."""
import json, random, string

from .model import *

NAMES = ["a", "b", "x", "item", "post", "data", "user_1", "_t", "Title", "q9", "für", "名", "env2", "self2", "loop", "k"]
KEYS = ["name", "title", "n", "tags", "meta", "url", "ok", "id", "sub", "größe", "A", "z_1", "date", "0x", "list", "content2", "", "__proto__", "constructor", "length", "0", "1", "2024"]
WORDS = ["alpha", "beta", "Gamma", "delta!", "é", "日本語", "x<y", "a&b", "<b>bold</b>", "\"quoted\"", "it's", "10%", "$5", "C:\\dir",
         "end", "for", "😀", "", " ", "tab\there", "line\nbreak", "}}", "{", "{ {", "{{", "ümlaut", "--", "/", "0", "-1", "null", "true"]
SIZES = [1, 2, 3, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097]
ALPHABETS = [string.ascii_letters + " ", "{} \\}", "äöüß€漢字🎈é\u0301\u200d", "<>&\"'=/!-", " \t\n", "\r\n", "ab{}\\\n", "\u00a0\u2028\ufeff\x00\x07\x7f",
             string.printable]


def sanitize(t):
    """Makes literal text safe to be followed by a tag: see model.raw_ok."""
    while True:
        u = t.replace("{{{", "{{ {")
        if u == t:
            break
        t = u
    if t[-1:] in ("\\", "{"):
        t += "."
    return t


def merge(nodes):
    """Joins adjacent pieces of literal text and makes all of it safe."""
    out = []
    for n in nodes:
        if isinstance(n, Raw):
            if out and isinstance(out[-1], Raw):
                out[-1] = Raw(sanitize(out[-1].text + n.text))
            else:
                out.append(Raw(sanitize(n.text)))
        else:
            for attr in ("body", "then", "orelse"):
                if getattr(n, attr, None) is not None:
                    setattr(n, attr, merge(getattr(n, attr)))
            out.append(n)
    return [n for n in out if not isinstance(n, Raw) or n.text]


def leaves(value, prefix, depth=0):
    yield prefix, value
    if depth > 5:
        return
    if isinstance(value, dict):
        for k, v in value.items():
            if k and all(c.isalnum() or c == "_" for c in k):
                yield from leaves(v, prefix + "." + k, depth + 1)
    elif isinstance(value, list):
        for i, v in enumerate(value[:4]):
            yield from leaves(v, "%s.%d" % (prefix, i), depth + 1)


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


# Strings that look like other values.
LOOKALIKES = ["7", "12", "007", "0", "-1", "+5", "1.5", "1e3", "2147483648", "true", "false", "null", "", " ", "[1]", "[]", "{}", "undefined", "NaN", "Infinity", "0x10", "2020", "2020-01-01", "True", "$x", "x.y", ".", "12 ", "\u0661"]


class Gen:
    """`weights`: how often each kind of node appears in bodies."""

    WEIGHTS = {"raw": 5, "var": 4, "if": 1.5, "ifdef": 1, "for": 1.2, "import": 0.7, "section": 0.4, "excerpt": 0.2, "ttr": 0.15}

    def __init__(self, rng, weights=None, big_text=0.02, plain=False, max_depth=4, newline_tags=True):
        self.rng = rng
        self.w = dict(self.WEIGHTS, **(weights or {}))
        self.big_text = big_text
        self.plain = plain
        self.max_depth = max_depth
        self.newline_tags = newline_tags
        self.counter = 0
        self.arrays, self.objects, self.md_dirs = [], [], []
        self.array_values = {}
        self.values = {}

    # -- text and data
    def uid(self):
        self.counter += 1
        return self.counter

    def text(self):
        r = self.rng
        x = r.random()
        if self.plain:
            return r.choice(["t", "text ", "<p>", "\n"]) + str(self.uid()) + r.choice(["", "\n", " "])
        if x < self.big_text:
            return self.sized(r.choice(SIZES))
        if x < 0.45:
            return " ".join(r.choice(WORDS) for _ in range(r.randint(1, 4)))
        if x < 0.8:
            return "".join(r.choice(r.choice(ALPHABETS)) for _ in range(r.randint(1, 12)))
        return "[%d]" % self.uid()

    def sized(self, n):
        """Text of `n` bytes."""
        a = self.rng.choice(ALPHABETS)
        out, size = [], 0
        while size < n:
            c = self.rng.choice(a)
            b = len(c.encode())
            if size + b > n:
                c, b = "#", 1
            out.append(c)
            size += b
        return "".join(out)

    def string(self):
        r = self.rng
        x = r.random()
        if x < 0.1:
            return r.choice(LOOKALIKES)
        return r.choice(WORDS) if x < 0.5 else "v%d" % self.uid() if x < 0.8 else self.text()

    def num(self):
        r = self.rng
        return r.choice([0, 1, 2, 3, 10, -1, -5, 2.5, 2.25, 0.1, -0.5, 100, 255, 65536, 2147483647, 2147483648, 4294967296, 4294967297, -2147483648,
                         -2147483649, 9007199254740991, 1e10, 1.5e-3, r.randint(-20, 20), r.randint(-20, 20) / 4])

    def value(self, depth=0):
        r = self.rng
        x = r.random()
        if depth > 2 or x < 0.45:
            return self.string()
        if x < 0.6:
            return self.num()
        if x < 0.66:
            return r.random() < 0.5
        if x < 0.71:
            return None
        if x < 0.85:
            return [self.value(depth + 1) for _ in range(r.randint(0, 3))]
        return {k: self.value(depth + 1) for k in r.sample(KEYS, r.randint(0, 3))}

    def field(self, kind):
        r = self.rng
        return {"str": lambda: self.string(), "uniq": lambda: "u%d" % self.uid(), "num": lambda: self.num(), "int": lambda: r.randint(-3, 12),
                "bool": lambda: r.random() < 0.5, "strs": lambda: [self.string() for _ in range(r.randint(0, 3))],
                "objs": lambda: [{"name": "o%d" % self.uid(), "n": r.randint(0, 5)} for _ in range(r.randint(0, 3))],
                "obj": lambda: {"title": self.string(), "n": self.num(), "sub": {"name": "s%d" % self.uid()}},
                "date": lambda: "20%02d-%02d-%02d" % (r.randint(0, 30), r.randint(1, 12), r.randint(1, 28))}[kind]()

    def records(self, n=None):
        """An array of objects with the same fields, some of them optional."""
        r = self.rng
        keys = r.sample(KEYS, r.randint(1, 5))
        schema = {k: r.choice(["str", "uniq", "num", "int", "strs", "objs", "obj", "date", "bool"]) for k in keys}
        if not any(s in ("str", "uniq", "date") for s in schema.values()):
            schema[keys[0]] = "uniq"
        optional = {k for k in keys if r.random() < 0.2}
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3, 3, 4, 5, 8]) if n is None else n):
            o = {}
            for k in keys:
                if k in optional and r.random() < 0.5:
                    if r.random() < 0.5:
                        o[k] = None
                    continue
                o[k] = self.field(schema[k])
            out.append(o)
        return out

    def array(self, n=None):
        x = self.rng.random()
        if x < 0.75:
            return self.records(n)
        return [self.string() for _ in range(self.rng.randint(0, 6) if n is None else n)]

    def data_files(self, n_arrays=3, n_objects=2, prefix=""):
        files = {}
        for i in range(n_arrays):
            p = prefix + self.rng.choice(["", "data/", "data/deep/"]) + "arr%d.json" % i
            v = self.array()
            files[p] = Json(v, self.json_text(v))
            self.arrays.append(p)
            self.values[p] = v
        for i in range(n_objects):
            p = prefix + self.rng.choice(["", "data/"]) + "obj%d.json" % i
            v = {k: self.value() for k in self.rng.sample(KEYS, self.rng.randint(1, 6))}
            v["items"] = self.array()
            v["s"] = "S%d" % self.uid()
            files[p] = Json(v, self.json_text(v))
            self.objects.append(p)
            self.values[p] = v
        return files

    def json_text(self, v):
        r = self.rng
        return json.dumps(v, ensure_ascii=False, indent=r.choice([None, None, 1, 2]))

    # -- scopes: a list of dicts, name -> example value
    def visible(self, scope):
        seen = {}
        for f in scope:
            seen.update(f)
        return seen

    def paths(self, scope, want):
        vis = self.visible(scope)
        out = []
        for name, v in vis.items():
            for p, x in leaves(v, name):
                if want(x):
                    out.append((p, x))
        return out

    def name(self, scope, fresh=False):
        vis = self.visible(scope)
        for _ in range(20):
            n = self.rng.choice(NAMES)
            if n not in scope[-1] and (not fresh or n not in vis):
                return n
        return "v%d" % self.uid()

    # -- nodes
    def body(self, scope, depth=0, n=None):
        r = self.rng
        out = []
        for _ in range(r.randint(1, 4) if n is None else n):
            x = self.node(scope, depth)
            if x is not None:
                out.extend(x if isinstance(x, list) else [x])
        return out or [Raw("-")]

    def node(self, scope, depth):
        r = self.rng
        kinds = [k for k in self.w if self.w[k] > 0 and (depth < self.max_depth or k in ("raw", "var", "excerpt", "ttr"))]
        k = r.choices(kinds, [self.w[k] for k in kinds])[0]
        return getattr(self, "n_" + k)(scope, depth) or Raw(self.text())

    def n_raw(self, scope, depth):
        return Raw(self.text())

    def n_var(self, scope, depth):
        c = self.paths(scope, lambda v: isinstance(v, str))
        return Var(self.rng.choice(c)[0]) if c else None

    def n_section(self, scope, depth):
        n = "sec%d" % self.uid()
        scope.append({})
        b = self.body(scope, depth + 1)
        scope.pop()
        return Section(n, b)

    def n_import(self, scope, depth):
        files = self.arrays + self.objects
        if not files:
            return None
        p = self.rng.choice(files)
        name = self.name(scope)
        scope[-1][name] = self.values[p]
        return Import(name, self.messy_path(p))

    def messy_path(self, p):
        x = self.rng.random()
        return "./" + p if x < 0.08 else p.replace("/", "//") if x < 0.12 else p.replace("/", "/./") if x < 0.16 else p

    def operand(self, scope, want):
        r = self.rng
        c = self.paths(scope, want)
        if c and r.random() < 0.7:
            p, v = r.choice(c)
            return ("var", p), v
        return None, None

    def n_if(self, scope, depth):
        r = self.rng
        op = r.choice(["eq", "ne", "gt", "ge", "lt", "le"])
        if op in ("eq", "ne") and r.random() < 0.6:
            a, v = self.operand(scope, lambda v: isinstance(v, str))
            b, u = self.operand(scope, lambda v: isinstance(v, str))
            ok = lambda s: '"' not in s and "\n" not in s and "{{" not in s
            if a is None:
                a = ("str", r.choice([w for w in WORDS if ok(w)]))
            if b is None:
                b = ("str", v if v is not None and ok(v) and r.random() < 0.5 else r.choice([w for w in WORDS if ok(w)]))
            if r.random() < 0.12:
                b = ("int", r.randint(-3, 3))
        else:
            a, v = self.operand(scope, number)
            b, u = self.operand(scope, number)
            if a is None:
                a = ("int", r.choice([0, 1, -1, 7, 2147483647, -2147483648]))
                v = a[1]
            if b is None:
                near = v if v is not None else r.randint(-2, 4)
                b = ("int", int(max(-2**31, min(2**31 - 1, near + r.choice([-1, 0, 0, 0, 1])))))
        if r.random() < 0.5:
            a, b = b, a
        then, orelse = self.branches(scope, depth)
        return If(op, a, b, then, orelse)

    def branches(self, scope, depth):
        scope.append({})
        then = self.body(scope, depth + 1)
        scope.pop()
        orelse = None
        if self.rng.random() < 0.55:
            scope.append({})
            orelse = self.body(scope, depth + 1) if self.rng.random() < 0.9 else []
            scope.pop()
        if self.rng.random() < 0.06:
            then = []
        return then, orelse

    def n_ifdef(self, scope, depth):
        r = self.rng
        c = self.paths(scope, lambda v: True)
        x = r.random()
        if c and x < 0.6:
            p, v = r.choice(c)
            if x < 0.25:
                p += "." + r.choice(KEYS)
        else:
            p = r.choice(NAMES) + (("." + r.choice(KEYS)) if r.random() < 0.3 else "")
        then, orelse = self.branches(scope, depth)
        return IfDef(p, then, orelse)

    def n_for(self, scope, depth):
        r = self.rng
        src = []
        for p in self.arrays:
            src.append((("json", self.messy_path(p)), self.values[p]))
        for p in self.md_dirs:
            src.append((("md", p), self.values[p]))
        vs = self.paths(scope, lambda v: isinstance(v, list))
        if vs:
            r.shuffle(vs)
            src += [(("var", p), v) for p, v in vs[:4]]
        if not src:
            return None
        source, v = r.choice(src)
        name = self.name(scope)
        f = For(name, source, None)
        if r.random() < 0.3:
            f.skip = r.choice([0, 1, 1, 2, len(v), len(v) + 1, 100])
        if r.random() < 0.3:
            f.limit = r.choice([0, 1, 1, 2, 3, len(v), 1000])
        if r.random() < 0.3:
            f.order = r.choice(["asc", "desc", "desc"])
        keys = self.sort_keys(v)
        if r.random() < 0.5 and keys:
            f.sortby = name + "." + r.choice(keys)
        elif v and all(isinstance(x, str) for x in v) and r.random() < 0.5:
            f.sortby = name
        example = v[0] if v else "x"
        scope.append({name: example})
        f.body = self.body(scope, depth + 1)
        scope.pop()
        return f

    def sort_keys(self, v):
        if not v or not all(isinstance(x, dict) for x in v):
            return []
        out = []
        for k in v[0]:
            if not (k and all(c.isalnum() or c == "_" for c in k)):
                continue
            xs = [x.get(k) for x in v]
            if all(isinstance(x, str) for x in xs) or all(number(x) for x in xs):
                out.append(k)
        return out

    def n_excerpt(self, scope, depth):
        c = self.paths(scope, lambda v: isinstance(v, str))
        return excerpt(self.rng.choice(c)[0], self.rng.choice([0, 1, 3, 10, 50, 500])) if c else None

    def n_ttr(self, scope, depth):
        c = self.paths(scope, lambda v: isinstance(v, str))
        return timetoread(self.rng.choice(c)[0]) if c else None

    # -- pages
    def style(self, p=0.5):
        return RandomStyle(self.rng, self.newline_tags) if self.rng.random() < p else Style()

    def page(self, sections=("body",), scope=None, outer=True, n=None):
        """A page with the given sections, text around them, and perhaps some more."""
        r = self.rng
        scope = scope if scope is not None else [{}]
        nodes = []
        secs = list(sections)
        if r.random() < 0.5:
            r.shuffle(secs)
        for s in secs:
            if outer and r.random() < 0.6:
                nodes.append(Raw(self.text()))
            if outer and r.random() < 0.3:
                nodes.extend(x for x in [self.n_import(scope, 0)] if x)
            scope.append({})
            nodes.append(Section(s, self.body(scope, 1, n)))
            scope.pop()
        if outer and r.random() < 0.5:
            nodes.append(Raw(self.text()))
        return merge(nodes)
