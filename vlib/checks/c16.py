"""C16: metadata.json."""
import shutil

from ..common import *
from ..gen import LOOKALIKES
from . import c09

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: metadata.json of the real program parsed strictly and compared with a reference model"
RULE = ("random trees of pages, markdown files with hostile frontmatter, JSON files with hostile values, other files, static and temp files, under site names and authors with every kind of character, built with and without save_metadata over earlier metadata and in histories of edits; "
        "an observation is a metadata.json that an independent strict JSON parser reads and that is equal, entry by entry, to the tree computed from the inputs (numbers as doubles, strings by code points), or the proof that none was written; distinct by inputs")
ASSUMPTIONS = ["whether templates appear in the tree and the order of its entries are left open (C14 says that it does not vary)", "JSON values have unique keys and numbers in the range of a double"]

CHARS = list("aZ 0/\"\\'{}[]:,<>&\u007f\u0080\u00a0é\u2028\u2029\u200b\ufeff\ufffd日😀\U0010ffff\ue000e\u0301#$`") + ["\\n", "\\u0041", "\\\\", "</script>", "{{ x }}", "null", "true", "1e5", "//"]
CONTROLS = ["\x00", "\x01", "\x07", "\b", "\t", "\n", "\x0b", "\x0c", "\r", "\x1b", "\x1f", "\r\n"]
NUMBERS = [0, 1, -1, 0.1, -0.1, 1.5, 1e21, 1e22, 1e-7, 1e300, -1e300, 5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 123456789012345680, 9007199254740993, 2**53, 2**63, 2**64, -2**63, 0.30000000000000004, 1 / 3, 4294967296, 1e15, 1e16, 1e17, 3.14, 100, 1000000]


def text(r, controls=True, n=None):
    a = CHARS + (CONTROLS if controls else [])
    if n is None and r.random() < 0.08:
        return r.choice(LOOKALIKES)
    return "".join(r.choice(a) for _ in range(r.choice([0, 1, 1, 2, 5, 10, 30]) if n is None else n))


def number(r):
    x = r.random()
    if x < 0.5:
        return r.choice(NUMBERS)
    if x < 0.7:
        return r.randint(-10**6, 10**6)
    if x < 0.85:
        return r.uniform(-1, 1) * 10 ** r.randint(-30, 30)
    import struct
    f = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
    return f if f == f and abs(f) != float("inf") and f != 0 else 1.0


def value(r, depth=0):
    x = r.random()
    if depth > 4 or x < 0.35:
        return text(r)
    if x < 0.55:
        return number(r)
    if x < 0.65:
        return r.choice([True, False, None])
    if x < 0.82:
        return [value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 5]))]
    return {text(r) if r.random() < 0.5 else r.choice(["name", "type", "value", "children", "data", "a", ""]): value(r, depth + 1) for _ in range(r.choice([0, 1, 2, 4]))}


def deep(n):
    v = "x"
    for i in range(n):
        v = [v] if i % 2 else {"k": v}
    return v


def dumps(r, v):
    return json.dumps(v, ensure_ascii=r.random() < 0.4, indent=r.choice([None, None, 1, "\t"]))


def strict(text):
    """Parses strictly: no NaN or infinities, no duplicate keys, nothing beside the value, valid UTF-8."""
    def bad(x):
        raise ValueError("constant " + x)

    def pairs(kv):
        d = dict(kv)
        if len(d) != len(kv):
            raise ValueError("duplicate keys")
        return d
    return json.loads(text.decode("utf-8"), parse_constant=bad, object_pairs_hook=pairs)


def same(a, b):
    """Equality of JSON values; numbers are compared as doubles, and booleans are no numbers."""
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return float(a) == float(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def expected(site, static, temp, sdirs, tdirs):
    """name -> entry, directories with their children as a dictionary."""
    root = {}

    def mkdir(parts):
        d = root
        for p in parts:
            d = d.setdefault(p, {"type": "directory", "name": p, "children": {}})["children"]
        return d

    for p, f in site.files.items():
        parts = p.split("/")
        d, n = mkdir(parts[:-1]), parts[-1]
        if n in ("root.html", "md.html"):
            continue
        if isinstance(f, Md):
            n = n[:-3] + ".html"
            d[n] = {"type": "markdown", "name": n, "value": dict(f.frontmatter or [])}
        elif isinstance(f, Json):
            d[n] = {"type": "json", "name": n, "value": f.value}
        else:
            d[n] = {"type": "file", "name": n}
    for d in site.dirs:
        mkdir(d.split("/"))
    for tree, dirs in ((static, sdirs), (temp, tdirs)):
        for p in tree:
            parts = p.split("/")
            mkdir(parts[:-1])[parts[-1]] = {"type": "file", "name": parts[-1]}
        for d in dirs:
            mkdir(d.split("/"))
    return root


def compare(ctx, got, want, templates, where=""):
    ctx.require(isinstance(got, list), "shape", lambda: "the entries of %r are %r" % (where, got))
    seen = {}
    for e in got:
        ctx.require(isinstance(e, dict) and isinstance(e.get("name"), str), "shape", lambda: "an entry of %r is %r" % (where, e))
        ctx.require(e["name"] not in seen, "twice", lambda: "%r appears twice" % (where + e["name"]))
        seen[e["name"]] = e
    for n, w in want.items():
        ctx.require(n in seen, "missing", lambda: "%r is missing in metadata.json: it has %s" % (where + n, sorted(seen)))
        e = seen.pop(n)
        ctx.require(e.get("type") == w["type"], "type", lambda: "%r has the type %r instead of %r" % (where + n, e.get("type"), w["type"]))
        ctx.require(set(e) == set(w), "keys", lambda: "%r has the keys %s instead of %s" % (where + n, sorted(e), sorted(w)))
        if w["type"] == "directory":
            compare(ctx, e["children"], w["children"], templates, where + n + "/")
        elif "value" in w:
            ctx.require(same(e["value"], w["value"]), "value", lambda: "the value of %r is %s instead of %s" % (where + n, json.dumps(e["value"])[:600], json.dumps(w["value"])[:600]))
            ctx.feature("values")
        ctx.feature(w["type"])
    rest = [n for n in seen if not (where + n in templates and seen[n].get("type") == "file" and set(seen[n]) == {"name", "type"})]
    ctx.require(not rest, "unexpected", lambda: "unexpected entries of %r in metadata.json: %s" % (where, [seen[n] for n in rest]))


def toml_string(s):
    return json.dumps(s, ensure_ascii=True) if not any(0xd800 <= ord(c) <= 0xdfff or ord(c) > 0xffff for c in s) else '"' + "".join("\\U%08X" % ord(c) for c in s) + '"'


def full_manifest(name, author, settings):
    s = "[site]\nname = %s\n" % toml_string(name).replace("\x7f", "\\u007f")
    if author is not None:
        s += "author = %s\n" % toml_string(author).replace("\x7f", "\\u007f")
    return s + "\n[settings]\n" + "".join("%s = %s\n" % (k, str(v).lower()) for k, v in settings.items())


def hostile(r, site):
    """Replaces the frontmatter and the JSON values of the site by hostile ones."""
    for p, f in list(site.files.items()):
        if isinstance(f, Json):
            v = value(r) if r.random() < 0.9 else deep(r.choice([20, 60]))
            site.files[p] = Json(v, dumps(r, v))
        elif isinstance(f, Md) and r.random() < 0.8:
            fm = {}
            for _ in range(r.randint(0, 5)):
                k = r.choice(["title", "date", "author", "type", "name", "value", "children", "é", "a-b", "Title", "x_y", "tags", "t0"])
                v = text(r, False).replace("\ufeff", "").strip()
                fm[k] = v
            site.files[p] = Md(list(fm.items()) or None, f.body)


def step(ctx, proj, s, name, author, on, args=()):
    site, settings, static, temp, sdirs, tdirs = s
    write_all(proj, s, name, author, on)
    path = os.path.join(proj, "metadata.json")
    before = open(path, "rb").read() if os.path.exists(path) else None
    ctx.build_ok(proj, args)
    if not on:
        now = open(path, "rb").read() if os.path.exists(path) else None
        ctx.require(now == before, "written", "metadata.json was changed although save_metadata is not set")
        ctx.observed(1, ("off", name, sorted(site.files)), off=1)
        return
    ctx.require(os.path.isfile(path), "not-written", "metadata.json was not written")
    data = open(path, "rb").read()
    try:
        m = strict(data)
    except ValueError as e:
        raise Violation("invalid-json", "metadata.json is not valid JSON (%s): %r" % (e, data[:800]))
    ctx.require(isinstance(m, dict) and set(m) == {"name", "author", "data"} or author is None and set(m) == {"name", "data"}, "shape", lambda: "metadata.json is %r" % data[:300])
    ctx.require(m["name"] == name, "name", lambda: "the name is %r instead of %r" % (m["name"], name))
    ctx.require(m.get("author") == author, "author", lambda: "the author is %r instead of %r" % (m.get("author"), author))
    templates = {p for p in site.files if p.rsplit("/", 1)[-1] in ("root.html", "md.html")}
    want = expected(site, static, temp, sdirs, tdirs)
    compare(ctx, m["data"], want, templates)
    ctx.observed(1, data, **{"data-%s-strip-%s" % (settings["save_data_files"], settings["strip_extensions"]): 1})
    ctx.sample = {"manifest": full_manifest(name, author, settings), "metadata": data.decode()}


def write_all(proj, s, name, author, on):
    site, settings, static, temp, sdirs, tdirs = s
    for d in ("content", "static", "temp"):
        shutil.rmtree(os.path.join(proj, d), ignore_errors=True)
    c09.write_all(proj, *s)
    more = {} if not on and ctx_choice(s) else {"save_metadata": on}
    write_tree(proj, {"stuart.toml": full_manifest(name, author, dict(settings, **more))})


def ctx_choice(s):
    return len(s[0].files) % 2 == 0


def fits(s):
    site, settings, static, temp, sdirs, tdirs = s
    return c09.valid(site, settings, static, temp, sdirs, tdirs, {p: b"" for p in site.files}) is not None


def sc_trees(ctx):
    r = ctx.rng
    g = G.Gen(r)
    s = c09.make_site(g)
    hostile(r, s[0])
    proj = ctx.path("p")
    os.makedirs(proj)
    if r.random() < 0.3:
        write_tree(proj, {"metadata.json": r.choice([b"", b"old", b"{}" * 5000])})
    name, author = text(r), text(r) if r.random() < 0.7 else None
    args = ("-o", "elsewhere") if r.random() < 0.1 else ()
    step(ctx, proj, s, name, author, r.random() < 0.92, args)
    if r.random() < 0.3:
        s = c09.make_site(g)
        hostile(r, s[0])
        step(ctx, proj, s, text(r), None, r.random() < 0.8)
        ctx.feature("rebuilt")


def sc_values(ctx):
    """Many values in one file, and the same in frontmatter."""
    r = ctx.rng
    files = {"root.html": Html([Insert("body")]), "md.html": Html([Section("body", [Var("self.content")])])}
    v = {"numbers": [number(r) for _ in range(60)], "strings": [text(r, True, r.choice([1, 2, 3, 100])) for _ in range(60)], "every": "".join(map(chr, range(0, 0x250))), "control-keys": {c: c for c in CONTROLS}, "deep": deep(r.choice([10, 40, 100])), "mixed": [value(r) for _ in range(10)],
         "big": "é/" * r.choice([10, 5000]), "astral": "".join(chr(r.randrange(0x10000, 0x110000)) for _ in range(40)), "bmp": "".join(c for c in (chr(r.randrange(0x20, 0xd800)) for _ in range(200)))}
    files["v.json"] = Json(v, dumps(r, v))
    fm = [("k%d" % i, text(r, False, r.choice([1, 3, 200])).replace("\ufeff", "").strip()) for i in range(30)]
    files["m.md"] = Md(fm, [Raw("body\n")])
    for i in range(r.randint(0, 5)):
        v = value(r)
        files["d/%d.json" % i] = Json(v, dumps(r, v))
    s = (Site(files), {"strip_extensions": r.random() < 0.5, "save_data_files": r.random() < 0.5}, {}, {}, set(), set())
    step(ctx, ctx.path("p"), s, text(r), text(r), True)


def prepare(scratch):
    return default_prepare(scratch)


SCENARIOS = [Scenario("trees", sc_trees, 1500, 20000), Scenario("values", sc_values, 250, 4000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 8, 16


def sc_out_of_range(ctx):
    """JSON allows numbers of any size; those that are too large for a double are written as `inf`."""
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": '[site]\nname = "x"\n[settings]\nsave_metadata = true\n', "content/root.html": "x", "content/a.json": "[1e999, -1e400]"})
    r = ctx.build(proj)
    ctx.observed(1, "range")
    if r.rc == 0:
        data = open(os.path.join(proj, "metadata.json"), "rb").read()
        try:
            strict(data)
        except ValueError:
            raise Violation("number-out-of-range", "metadata.json of a site with the number 1e999 is not valid JSON: %r" % data)


SCENARIOS.append(Scenario("out-of-range", sc_out_of_range, 1, 1))
