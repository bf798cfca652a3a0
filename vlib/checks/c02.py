"""C02: literal text and escapes."""
from ..common import *

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared byte for byte with a reference model, for random text, escapes and tag spellings"
RULE = ("random sites in which literal text of every kind (Unicode, control characters, line endings, braces, backslashes, sizes around buffer boundaries, escapes) stands "
        "between, before and after tags of every kind, in pages and root templates; tags are written with random whitespace; an observation is a page compared byte for byte, distinct by its source")
ASSUMPTIONS = ["left open and not generated: a backslash or brace immediately before a tag, and three opening braces in a row"]


def literal(g, r):
    x = r.random()
    if x < 0.25:
        return g.sized(r.choice(G.SIZES))
    if x < 0.55:
        # Escapes, several of them, with text of interesting sizes in between.
        return "".join(r.choice(["{{", "{{ x }}", "{{ $env.PATH }}", "{{ begin(\"body\") }}", "{{}}", "}}", "{ {", "{", "}", "\\", "\\\\", "\\{", "\\{{", "\\\\{{ x }}", "\n", " ", "é{{", "a"])
                       + ("" if r.random() < 0.5 else g.sized(r.choice([1, 2, 5, 60, 124, 125, 126, 127, 128]))) for _ in range(r.randint(1, 5)))
    if x < 0.7:
        return r.choice(["\r\n", "\n", "\r", " ", "\t", "\n\n\n", " \n ", "\ufeff", "\u200b", "\x00", "\u2028", "\x85", "\x1b[0m"]) * r.randint(1, 3)
    return g.text()


def pieces(g, r, scope, depth=0):
    out = []
    for _ in range(r.randint(1, 5)):
        x = r.random()
        if x < 0.6:
            out.append(Raw(literal(g, r)))
        elif x < 0.75:
            out.append(Var(r.choice(["d.s", "d.t", "d.u"])))
        elif depth < 3 and x < 0.85:
            out.append(If("eq", ("int", 1), ("int", r.choice([1, 2])), pieces(g, r, scope, depth + 1), pieces(g, r, scope, depth + 1) if r.random() < 0.6 else None))
        elif depth < 3 and x < 0.92:
            out.append(For("i", ("var", "d.l"), pieces(g, r, scope, depth + 1)))
        elif depth < 3:
            out.append(Section("s%d" % g.uid(), pieces(g, r, scope, depth + 1)))
    return out


def data():
    return Json({"s": "value", "t": "{{ $not.a.tag }} \\{{", "u": "", "l": ["1", "2"]})


def sc_pages(ctx):
    r = ctx.rng
    g = G.Gen(r, big_text=0.05)
    head = [Raw(literal(g, r))] + [Import("d", "d.json")] if r.random() < 0.7 else [Import("d", "d.json")]
    tail = Raw(literal(g, r))
    root = G.merge(head + pieces(g, r, None) + [Insert("body"), Raw(literal(g, r)), Insert("body"), tail])
    if r.random() < 0.3 and isinstance(root[-1], Raw):
        # At the very end of a file nothing follows a backslash or brace.
        end = Raw(root[-1].text + r.choice(["\\", "{", " \\{", "{\n"]))
        if raw_ok([end]):
            root[-1] = end
    files = {"root.html": Html(root, g.style()), "d.json": data()}
    for i in range(10):
        nodes = [Raw(literal(g, r))] if r.random() < 0.5 else []
        nodes.append(Section("body", [Import("d", "d.json")] + pieces(g, r, None)))
        if r.random() < 0.5:
            nodes.append(Raw(literal(g, r)))
        files["p%d.html" % i] = Html(G.merge(nodes), g.style())
    site = Site(files)
    pages = build_and_compare(ctx, site, "literal-text")
    ctx.feature("bytes", sum(len(v) for v in pages.values()))
    ctx.feature("escapes", sum(f.source().count("\\{{") for f in files.values()))


def sc_large(ctx):
    """Long stretches of text, and many tags."""
    r = ctx.rng
    g = G.Gen(r)
    n = r.choice([8191, 8192, 8193, 16384, 65535, 65536, 65537, 131072, 300001])
    body = [Import("d", "d.json"), Raw(g.sized(n)), Var("d.s"), Raw(g.sized(n // 3))]
    many = [Import("d", "d.json")]
    for i in range(r.choice([50, 300, 1500])):
        many += [Raw(r.choice(["%d:" % i, "{{", "\n", "é"])), Var("d.s")]
    files = {"root.html": Html(G.merge([Raw(g.sized(1000)), Insert("body"), Raw(g.sized(n // 5))])), "d.json": data(),
             "big.html": Html(merge_section(body)), "many.html": Html(merge_section(many))}
    build_and_compare(ctx, Site(files), "literal-text-large")


SCENARIOS = [Scenario("pages", sc_pages, 1600, 20000), Scenario("large", sc_large, 64, 600)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 7
