"""C04: conditionals."""
from ..common import *

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared with a reference model of conditionals, with tripwires in the branch that is not taken"
RULE = ("random sites whose pages nest conditionals, loops and sections up to 5 deep (scenario random), complete tables of comparisons of operand "
        "pairs (matrix), branches that are not taken and would fail or leave traces if any of it were executed (untaken), and comparisons of undefined "
        "variables (undefined); an observation is a page whose bytes were compared with the reference model, distinct by its source")
ASSUMPTIONS = ["the reference model (vlib/model.py) states the documented semantics; string order and comparisons of booleans, null, arrays and objects are left open",
               "operands' numbers are those whose decimal notation round-trips through a double"]

def sc_random(ctx):
    r = ctx.rng
    g = G.Gen(r, {"if": 5, "ifdef": 4, "for": 1.2, "import": 0.8, "excerpt": 0, "ttr": 0, "section": 0.5}, max_depth=5, plain=r.random() < 0.4)
    files = g.data_files(2, 2)
    files["root.html"] = ROOT
    for i in range(16):
        scope = [{}]
        head = []
        for _ in range(r.randint(1, 2)):
            head.append(g.n_import(scope, 0))
        scope.append({})
        body = head + [Raw("[")] + g.body(scope, 1, r.randint(1, 3)) + [Raw("]")]
        files["p%d.html" % i] = Html(merge_section(body), g.style())
    build_and_compare(ctx, Site(files), "conditional")


NUMS = [0, 1, -1, 2, 0.5, -0.5, 2.5, 3, 1e10, 2147483647, 2147483648, -2147483648, -2147483649, 4294967296, 4294967297, 0.1, 0.30000000000000004,
        0.3, 9007199254740991, 9007199254740990, 1e300, -1e300, 5e-324, 100, 1000000, 1000000.5, 10, 9]
STRS = ["", "a", "A", "ab", "b", " a", "a ", "é", "e\u0301", "5", "5.0", "true", "null", "a\"b", "a\nb", "日本", "{", "}}", "0", "-1", "a" * 300]


# Strings that are not equal, however alike.
LIKE = ["1", "01", "1.0", "+1", "1 ", " 1", "1e0", "0x1", "\u0661", "10", "1e1", "010", "١٠", "true", "True", "TRUE", "0", "-0", "00", "0.0", "", "null", "None"]


def sc_matrix(ctx):
    r = ctx.rng
    vals = r.sample(NUMS, 7) + r.sample(STRS, 6) + [r.choice(["1", "0", "2.5", "3", "-1"])] + r.sample(LIKE, 4)
    r.shuffle(vals)
    data = {"n%d" % i: v for i, v in enumerate(vals)}
    data["arr"] = vals
    files = {"root.html": ROOT, "d.json": Json(data)}

    def operand(v, i):
        opts = [("var", "d.n%d" % i), ("var", "d.arr.%d" % i)]
        if isinstance(v, str) and all(c not in v for c in '"\n{'):
            opts.append(("str", v))
        if isinstance(v, int) and -2**31 <= v < 2**31:
            opts.append(("int", v))
        return r.choice(opts)
    for op in ["eq", "ne", "gt", "ge", "lt", "le"]:
        body = [Import("d", "d.json")]
        n = 0
        for i, a in enumerate(vals):
            for j, b in enumerate(vals):
                if op not in ("eq", "ne") and (isinstance(a, str) or isinstance(b, str)):
                    continue
                body += [If(op, operand(a, i), operand(b, j), [Raw("T%d,%d;" % (i, j))], [Raw("F%d,%d;" % (i, j))]
                            if r.random() < 0.8 else None)]
                n += 1
        files[op + ".html"] = Html([Section("body", body)])
        ctx.feature("comparisons", n)
    build_and_compare(ctx, Site(files), "comparison")


def hostile(r, g, depth=0):
    """Something that fails or leaves a trace if any of it is executed."""
    out = []
    for _ in range(r.randint(1, 3)):
        k = r.choice(["var", "import", "for", "insert", "if", "ifdef", "section", "raw", "null", "dup", "dateformat", "okfor"])
        if k == "var":
            out.append(Var(r.choice(["nope", "nope.x", "d.missing", "d.n0"])))
        elif k == "null":
            out.append(Var("d.nul"))
        elif k == "import":
            out.append(Import("z", "missing.json"))
        elif k == "dup":
            out.append(Import("d", "d.json"))
        elif k == "for":
            out.append(For("z", r.choice([("json", "missing.json"), ("md", "missing/"), ("var", "nope"), ("json", "d.json")]),
                           hostile(r, g, depth + 1) if depth < 4 else [Raw("X")]))
        elif k == "okfor":
            out.append(For("z", ("json", "list.json"), hostile(r, g, depth + 1) if depth < 4 else [Raw("X")]))
        elif k == "insert":
            out.append(Insert("missing"))
        elif k == "dateformat":
            out.append(Call("dateformat", [("var", "d.name"), ("str", "%Y")], None))
        elif k in ("if", "ifdef") and depth < 4:
            then = hostile(r, g, depth + 1)
            orelse = hostile(r, g, depth + 1) if r.random() < 0.6 else None
            if k == "if":
                out.append(If(r.choice(["eq", "ne", "gt", "ge", "lt", "le"]), r.choice([("var", "nope"), ("int", 1), ("var", "d.n0")]),
                              r.choice([("var", "nope"), ("int", 1), ("int", 2)]), then, orelse))
            else:
                out.append(IfDef(r.choice(["nope", "d", "d.name"]), then, orelse))
        elif k == "section" and depth < 4:
            out.append(Section(r.choice(["body", "evil", "s%d" % depth]), hostile(r, g, depth + 1)))
        else:
            out.append(Raw("UNTAKEN%d" % g.uid()))
    return out


def sc_untaken(ctx):
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": ROOT, "d.json": Json({"name": "N", "n0": 5, "nul": None, "f": False, "z": 0, "e": "", "l": [], "o": {}}),
             "list.json": Json(["p", "q"])}
    true = [("def", "d.name"), ("def", "d.f"), ("def", "d.z"), ("def", "d.e"), ("def", "d.l"), ("def", "d.o"), ("def", "d"), ("def", "env"),
            ("eq", ("int", 1), ("int", 1)), ("ne", ("var", "d.n0"), ("int", 4)), ("gt", ("var", "d.n0"), ("int", 4)), ("le", ("int", 5), ("var", "d.n0")),
            ("ge", ("int", 5), ("var", "d.n0")), ("lt", ("int", -1), ("var", "d.n0")), ("eq", ("str", "N"), ("var", "d.name"))]
    false = [("def", "nope"), ("def", "d.nul"), ("def", "d.missing"), ("def", "d.l.0"), ("def", "d.name.x"), ("def", "nope.a.b"),
             ("eq", ("int", 1), ("int", 2)), ("ne", ("var", "d.n0"), ("int", 5)), ("gt", ("var", "d.n0"), ("int", 5)), ("le", ("int", 6), ("var", "d.n0")),
             ("ge", ("int", 4), ("var", "d.n0")), ("lt", ("int", 5), ("var", "d.n0")), ("eq", ("str", "n"), ("var", "d.name")), ("eq", ("str", "5"), ("var", "d.n0"))]

    def cond(c, then, orelse):
        return IfDef(c[1], then, orelse) if c[0] == "def" else If(c[0], c[1], c[2], then, orelse)

    def good(depth):
        out = [Raw("ok%d " % g.uid())]
        for _ in range(r.randint(0, 2)):
            x = r.random()
            if depth < 4 and x < 0.7:
                out.append(block(depth + 1))
            elif x < 0.8 and depth < 4:
                out.append(For("i", ("json", "list.json"), [Var("i")] + good(depth + 1)))
            elif x < 0.9:
                out.append(Var("d.name"))
            else:
                out.append(Section("n%d" % g.uid(), [Raw("in section")]))
        out.append(Raw(" after%d " % g.uid()))
        return out

    def block(depth):
        if r.random() < 0.5:
            return cond(r.choice(true), good(depth), hostile(r, g) if r.random() < 0.85 else None)
        return cond(r.choice(false), hostile(r, g), good(depth) if r.random() < 0.85 else None)
    for i in range(16):
        body = [Import("d", "d.json")] + [x for _ in range(r.randint(1, 4)) for x in (Raw("#%d " % g.uid()), block(0))] + [Raw("END")]
        files["p%d.html" % i] = Html(merge_section(body), g.style(0.3))
    if r.random() < 0.06:
        # Very deep, which costs nothing where it is not executed.
        start, end = [], []
        for i in range(r.choice([140, 255, 256, 257, 300, 600, 1100])):
            a, b = r.choice([("ifdefined($d)", "ifdefined"), ("ifeq(1, $nope)", "ifeq"), ('for($z, "list.json")', "for"), ('begin("s%d")' % i, '"s%d"' % i), ("ifle(1, 2)", "ifle")])
            start.append("{{ %s }}" % a)
            end.append(("{{ else() }}UNTAKEN" if b.startswith("if") and r.random() < 0.1 else "") + "{{ end(%s) }}" % b)
        deep = [Verbatim("".join(start) + "UNTAKEN" + "".join(reversed(end)))]
        c = r.choice(["if", "else", "loop"])
        body = [Import("d", "d.json"), Raw("[")] + ([cond(r.choice(false), deep, good(3))] if c == "if" else [cond(r.choice(true), good(3), deep)] if c == "else" else [For("i", ("var", "d.l"), deep)]) + [Raw("]")]
        files["deep.html"] = Html(merge_section(body), g.style(0.3))
        ctx.feature("deep-" + c)
    pages = build_and_compare(ctx, Site(files), "untaken-branch")
    for p in pages:
        if b"UNTAKEN" in pages[p]:
            raise AssertionError("the model is wrong")


def sc_undefined(ctx):
    """Comparing something undefined fails, wherever the tag is, if it is reached."""
    r = ctx.rng
    g = G.Gen(r, plain=True)
    files = {"root.html": ROOT, "d.json": Json({"name": "N", "n0": 5, "l": ["x"]})}
    a, b = ("var", r.choice(["nope", "Nope", "d.missing", "d.l.1", "d.name.x", "x.y"])), r.choice([("int", 1), ("str", "N"), ("var", "d.n0"), ("var", "d.name")])
    if "d." in a[1]:
        # A missing part of a variable is null, and comparing that is left open as to its value, but it is not a number or a string.
        pass
    if r.random() < 0.5:
        a, b = b, a
    bad = If(r.choice(["eq", "ne", "gt", "ge", "lt", "le"]), a, b, [Raw("then")], [Raw("else")] if r.random() < 0.5 else None)
    wrap = r.choice(["none", "taken", "loop", "section", "else"])
    body = {"none": [bad], "taken": [If("eq", ("int", 1), ("int", 1), [bad])], "loop": [For("i", ("var", "d.l"), [bad])],
            "section": [Section("s", [bad])], "else": [IfDef("zzz", [], [bad])]}[wrap]
    files["index.html"] = Html([Section("body", [Import("d", "d.json"), Raw("text")] + body)])
    site = Site(files)
    proj = ctx.path("p")
    write_project(proj, site)
    res = ctx.build_fails(proj, "a comparison uses the undefined variable %r (%s)" % ([x[1] for x in (a, b) if x[0] == "var"], wrap))
    ctx.observed(1, files["index.html"].source(), **{"undefined-" + wrap: 1})
    ctx.sample = {"source": files["index.html"].source(), "message": res.errtext()}


SCENARIOS = [Scenario("random", sc_random, 900, 9000), Scenario("matrix", sc_matrix, 120, 1200), Scenario("untaken", sc_untaken, 600, 6000),
             Scenario("undefined", sc_undefined, 200, 1500)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 6
