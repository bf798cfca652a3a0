"""An independent, lenient grammar of single tags: what it refuses has to be refused by Stuart."""
import re

# Named arguments of `for`, and the kinds of their values.
NAMED = {"skip": "N", "limit": "N", "sortby": "V", "order": "O"}
IDENTS = {"begin", "end", "insert", "import", "for", "else", "ifdefined", "ifeq", "ifne", "ifgt", "ifge", "iflt", "ifle", "excerpt", "timetoread", "dateformat"}
INT = re.compile(r"[+-]?[0-9]+\Z")


def split_args(s):
    """The arguments up to the closing parenthesis, and what follows it. None if it is not closed."""
    out, cur, quote = [], "", False
    for i, c in enumerate(s):
        if c == '"':
            quote = not quote
        if not quote and c in ",)":
            out.append(cur.strip())
            cur = ""
            if c == ")":
                return out, s[i + 1:]
        else:
            cur += c
    return None, ""


def kind(a):
    """V(ariable), S(tring), N(umber), I(dentifier) or None."""
    if a.startswith("$"):
        return "V" if re.match(r"\$[\w.]+\Z", a) else None
    if a.startswith('"'):
        return "S" if re.match(r'"[^"]*"\Z', a) else None
    if INT.match(a):
        return "N" if -2 ** 31 <= int(a) < 2 ** 31 else None
    return "I" if a in IDENTS else None


def acceptable(body):
    """Whether the text between the braces of a tag may be accepted.

    Lenient where nothing is promised: superfluous dots and commas, spaces around `=`, identifiers as labels."""
    body = body.strip()
    if body.startswith("$"):
        return bool(re.match(r"\$[\w.]+\Z", body))
    m = re.match(r"([\w:]+)\s*\(", body)
    if not m:
        return False
    name = m.group(1)
    if name not in IDENTS:
        return False
    args, rest = split_args(body[m.end():])
    if args is None or rest.strip():
        return False
    pos, named = [], []
    for a in args:
        if not a:
            continue
        if not a.startswith('"') and "=" in a:
            n, _, v = a.partition("=")
            named.append((n.strip(), v.strip()))
        elif named:
            return False
        else:
            pos.append(a)
    kinds = [kind(a) for a in pos]
    if None in kinds:
        return False
    k = "".join(kinds)
    if named and name != "for":
        return False
    if name in ("begin", "end"):
        return k in ("S", "I")
    if name == "insert":
        return k == "S"
    if name == "import":
        return k == "VS"
    if name == "ifdefined" or name == "timetoread":
        return k == "V"
    if name == "else":
        return k == ""
    if name == "excerpt":
        return k == "VN" and int(pos[1]) >= 0
    if name == "dateformat":
        return k == "VS"
    if name == "for":
        if k != "VV" and not (k == "VS" and (pos[1].endswith('.json"') or pos[1].endswith('/"'))):
            return False
        seen = set()
        for n, v in named:
            if n not in NAMED or n in seen:
                return False
            seen.add(n)
            want = NAMED[n]
            got = kind(v)
            if want == "O":
                if v not in ('"asc"', '"desc"'):
                    return False
            elif got != want or want == "N" and int(v) < 0:
                return False
        return True
    return len(k) == 2 and "I" not in k


CHARS = list('$"(),=.:_- \t\n|!#\'/\\[]{}<>@;+*%&~^?`') + list("abefixortn019") + ["é", "日", "🦀", "end", "for", "limit", "=1", '"x"', "$a"]


def mutate(r, body):
    """A body with one or two characters changed."""
    s = body
    for _ in range(r.choice([1, 1, 1, 2])):
        i = r.randint(0, len(s))
        x = r.random()
        if x < 0.45:
            s = s[:i] + r.choice(CHARS) + s[i:]
        elif x < 0.65:
            s = s[:i] + s[i + 1:]
        elif x < 0.8:
            s = s[:i] + r.choice(CHARS) + s[i + 1:]
        elif x < 0.87:
            s = s[:i] + s[i:i + 1] * 2 + s[i + 1:]
        elif x < 0.94 and i + 2 <= len(s):
            s = s[:i] + s[i + 1] + s[i] + s[i + 2:]
        else:
            j = min(len(s), i + r.randint(1, 6))
            s = s[:i] + s[j:]
    return s


def valid_body(r):
    """A tag which is well formed; the variables $a, $b (arrays), $d (object), $s (date) are defined."""
    def v():
        return r.choice(["$a", "$b", "$d", "$d.n", "$d.f", "$s", "$a.0"])

    def x():
        return r.choice([v(), v(), '"text"', '"a, b)"', '"k=v"', "5", "-3", "0"])
    sep = r.choice([", ", ", ", ",", " , "])

    def call(name, *args):
        return name + r.choice(["", "", " "]) + "(" + sep.join(args) + ")"
    k = r.randrange(15)
    if k < 4:
        named = ["limit=%d" % r.randint(0, 3), "skip=%d" % r.randint(0, 3), "sortby=$z.n", 'order="%s"' % r.choice(["asc", "desc"])]
        return call("for", "$z", r.choice(['"a.json"', '"a.json"', '"b/"', "$b"]), *r.sample(named, r.randint(0, 4)))
    if k < 6:
        return call("if" + r.choice(["eq", "ne", "gt", "ge", "lt", "le"]), x(), x())
    return [v, lambda: call("begin", '"name"'), lambda: call("end", r.choice(['"name"', "for", "ifeq", "ifdefined"])), lambda: call("insert", '"body"'), lambda: call("import", "$z", '"d.json"'),
            lambda: call("ifdefined", v()), lambda: call("excerpt", "$s", "3"), lambda: call("dateformat", "$s", '"%Y"'), lambda: r.choice([call("timetoread", "$s"), call("else")])][k - 6]()
