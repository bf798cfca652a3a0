"""C27: the plugins and the example that the repository ships."""
import re, shutil

from ..common import *
from .. import build as B, sites as S
from . import c11, c16, c18

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: the shipped plugins, compiled from the repository (imgopt against a stand-in for its optimizer), are loaded by the real program on random sites and every output is compared with a reference model"
RULE = ("random sites in which the function of the plugin `demo` is called at any place and in any spelling, also with arguments, which it has to refuse; sites with images of all sizes, names and directories, intact and broken, in content and static, built once and again with `imgopt`; and the example site with every combination of settings; "
        "an observation is a build whose whole output tree, or error, is that of the model; distinct by sources")
ASSUMPTIONS = ["oxipng is not available offline, so imgopt is compiled against a stand-in with a recognizable result: what is decided is what imgopt does with its optimizer, not how well that optimizes"]

TEXT = "<p>This was written by the demo function!</p>"


def prepare(scratch):
    env = default_prepare(scratch, oracle=True)
    env["demo_so"] = install(scratch, B.demo(), "demo.so")
    env["imgopt_so"] = install(scratch, B.imgopt(), "imgopt.so")
    env["example"] = os.path.join(scratch, "example")
    shutil.copytree(os.path.join(B.REPO, "example"), env["example"], ignore=shutil.ignore_patterns("dist", "temp", "_build", "metadata.json"))
    subprocess.run(["chmod", "-R", "a+rX", env["example"]], check=True)
    return env


class DGen(S.G.Gen):
    def __init__(self, rng, weights):
        super().__init__(rng, dict(weights, plugin=4), max_depth=4, big_text=0.01)

    def n_plugin(self, scope, depth):
        return Call(self.rng.choice(["demo", "demo::demo"]), [], lambda ev, n: TEXT)


def settings_of(r):
    return {"strip_extensions": r.random() < 0.6, "save_data_files": r.random() < 0.4, "save_metadata": r.random() < 0.5}


def dependencies(ctx, proj, names):
    r = ctx.rng
    deps = []
    for n in names:
        d = r.choice(["", "plugins/", "../lib/", "my plugins/"])
        f = r.choice([n + ".so", "lib%s.so" % n, n, "p %s.bin" % n])
        full = os.path.normpath(os.path.join(proj, d + f))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        os.symlink(getattr(ctx, n + "_so"), full)
        deps.append((r.choice([n, "other name " + n, "x" + n]), r.choice([d + f, d + f, full])))
    r.shuffle(deps)
    return "\n[dependencies]\n" + "".join('"%s" = "%s"\n' % d for d in deps)


def image(r, g):
    """(source, what imgopt makes of it)"""
    body = r.choice([b"", b"x", b"image %d" % g.uid(), bytes(range(256)), b"\r\n\x1a\n" * 9, b"{{ $nothing }}", b"\xff" * 3000, b"{" * 70000])
    body = b"-" + body if body.startswith(b"broken") else body
    return b"\x89PNG" + body, b"optimized:" + body[::-1]


# Other than `.png`.
NOT_PNG = ["a%d.PNG", "b%d.Png", "c%d.png.txt", "d%d.jpg", "e%d.png~", "f%dpng", "g%d.apng", "h%d.pn", "i%d.svg", "j%d.png "]
PNG = ["a%d.png", "b %d.png", "é%d.png", "c%d.html.png", "d%d.tar.gz.png", "-%d.png", "e%d..png", "index%d.png", "%d.png", "f%d.json.png", "g%d.md.png"]


def with_images(ctx, r, g, site, pages, settings, opt):
    """Adds images; returns (static, expected output tree, names of images)."""
    images = {}
    content = {}
    for i in range(r.choice([0, 1, 2, 5, 9])):
        d = r.choice(["", "", "blog/", "img/deep/", "x.png/"])
        if r.random() < 0.6:
            p = d + r.choice(PNG) % i
            src, out = image(r, g)
            images[p] = out
        else:
            p = d + r.choice(NOT_PNG) % i
            src = out = r.choice([image(r, g)[0], b"\x89PNGbroken", b"", b"no image"])
        content[p] = (src, out if opt else src)
    if opt and r.random() < 0.1:
        # A name without an extension.
        content["img/.png"] = (b"no image",) * 2
    s2 = Site(dict(site.files), dirs=site.dirs)
    for p, (src, out) in content.items():
        s2.files[p] = Other(out)
        site.files[p] = Other(src)
    static = {}
    for i in range(r.randint(0, 3)):
        static[r.choice(["", "blog/", "static/"]) + r.choice(["s%d.png", "t%d.html", "u%d.css"]) % i] = r.choice([b"", b"\x89PNGbroken", image(r, g)[0]])
    try:
        want = output_tree(s2, settings["strip_extensions"], settings["save_data_files"], static, (), pages)
    except BuildError:
        raise Discard()
    return static, want, images


def sc_sites(ctx):
    r = ctx.rng
    plugs = r.choice([["demo"], ["imgopt"], ["demo", "imgopt"], ["demo", "imgopt"]])
    g = DGen(r, {"section": 0.7, "for": 1.5, "if": 1.2}) if "demo" in plugs else S.G.Gen(r, {"for": 1.2})
    site, pages = S.rich_site(ctx, g)
    settings = settings_of(r)
    static, want, images = with_images(ctx, r, g, site, pages, settings, "imgopt" in plugs)
    proj = ctx.path("p")
    os.makedirs(proj)
    deps = dependencies(ctx, proj, plugs)
    write_project(proj, site, static, settings)
    write_tree(proj, {"stuart.toml": manifest(**settings) + deps})
    calls = [n for f in site.files.values() if isinstance(f, (Html, Md)) for n, _ in tags(S.nodes_of(f)) if isinstance(n, Call) and n.name.startswith("demo")]
    for again in range(2 if r.random() < 0.3 else 1):
        ctx.build_ok(proj)
        d = diff_trees(want, read_tree(os.path.join(proj, "dist")))
        ctx.require(d is None, "output", lambda: "the output of a site with %s: %s" % (plugs, d))
        if settings["save_metadata"]:
            c16.strict(open(os.path.join(proj, "metadata.json"), "rb").read())
        ctx.observed(1, (sorted(want.items(), key=str), plugs, again), calls=len(calls), images=len(images), again=again)
    for n in calls:
        ctx.feature("call-qualified" if "::" in n.name else "call-plain")
    ctx.sample = {"plugins": plugs, "images": sorted(images)[:9], "calls": len(calls)}

    # A mistake, and without it again.
    before = read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)
    for _ in range(r.randint(0, 3)):
        changes, text = {}, None
        if "imgopt" in plugs and r.random() < 0.6:
            data = r.choice([b"\x89PNGbroken" + b"x" * r.randint(0, 99), b"", b"no image", b"<svg/>", b"\x89PN", b" \x89PNG"])
            p = r.choice(sorted(images) or ["new.png"]) if r.random() < 0.6 else r.choice(["", "blog/", "zz/"]) + r.choice(PNG) % 99
            changes["content/" + p] = data
            text = "broken image of %d bytes" % len(data) if data.startswith(b"\x89PNG") else "invalid header"
        elif "demo" in plugs:
            seen = S.rendered(site, ctx)
            path = r.choice(S.used_templates(site, pages) + sorted(pages))
            f = site.files[path]
            pos = S.positions(f, seen)
            if not pos:
                continue
            lst, i, chain = r.choice(pos)
            v = Verbatim("{{ %s(%s) }}" % (r.choice(["demo", "demo::demo"]), r.choice(['"x"', "5", "$a", "a=1", "for", '""', "1, 2", 'x="y"', "$env.HOME"])))
            lst.insert(i, v)
            changes["content/" + path] = c11.plain_source(f, lambda line: Writer(None, line))
            lst.remove(v)
        else:
            continue
        old = {p: open(os.path.join(proj, p), "rb").read() if os.path.exists(os.path.join(proj, p)) else None for p in changes}
        write_tree(proj, changes)
        res = ctx.build_fails(proj, "of %s" % sorted(changes.items(), key=str))
        if text:
            ctx.require(text in res.errtext(), "message", lambda: "the error of the optimizer (%r) is not reported: %s" % (text, res.errtext()[:400]))
        ctx.require((read_tree(os.path.join(proj, "dist")), c11.meta_of(proj)) == before, "output-changed", lambda: "a failing build (%s) changes the output" % sorted(changes))
        for p, b in old.items():
            if b is None:
                os.unlink(os.path.join(proj, p))
                try:
                    os.rmdir(os.path.dirname(os.path.join(proj, p)))
                except OSError:
                    pass
            else:
                write_tree(proj, {p: b})
        ctx.observed(1, (sorted(changes.items(), key=str),), mistakes=1)


def sc_example(ctx):
    r = ctx.rng
    proj = ctx.path("example")
    shutil.copytree(ctx.example, proj)
    src = read_tree(proj)
    tag = re.compile(r'\{\{\s*(begin|end|insert)\("([^"]*)"\)\s*\}\}')
    page, root = (src["content/" + n].decode() for n in ("index.html", "root.html"))
    if set(p for p in src if p.startswith("content/")) != {"content/index.html", "content/root.html"} or tag.sub("", page + root).count("{{"):
        raise Discard()
    secs = dict(re.findall(r'\{\{\s*begin\("([^"]*)"\)\s*\}\}(.*?)\{\{\s*end\("[^"]*"\)\s*\}\}', page, re.S))
    want = {p[7:]: v for p, v in src.items() if p.startswith("static/")}
    want["index.html"] = tag.sub(lambda m: secs[m[2]], root).encode()
    settings = {k: v for k, v in settings_of(r).items() if r.random() < 0.6}
    if settings:
        write_tree(proj, {"stuart.toml": src["stuart.toml"] + ("\n[settings]\n" + "".join("%s = %s\n" % (k, str(v).lower()) for k, v in settings.items())).encode()})
    how = r.choice(["build", "manifest", "output", "bench"])
    out = os.path.join(proj, "dist")
    if how == "build":
        res = ctx.no_crash(ctx.run(["build"], cwd=proj))
    elif how == "manifest":
        res = ctx.no_crash(ctx.run(["build", "--manifest-path", r.choice(["example/stuart.toml", os.path.join(proj, "stuart.toml")])], cwd=ctx.dir))
    elif how == "output":
        out = ctx.path("elsewhere")
        res = ctx.no_crash(ctx.run(["-q", "build", "-o", r.choice([out, "../elsewhere"])], cwd=proj))
    else:
        res = ctx.no_crash(ctx.run(["bench", "-i", "2"], cwd=proj))
    ctx.require(res.rc == 0, "example-fails", lambda: "the example fails to build (%s): %s" % (how, res.errtext()[:500]))
    d = diff_trees(want, read_tree(out))
    ctx.require(d is None, "example-output", lambda: "the output of the example (%s, %s): %s" % (how, settings, d))
    ctx.observed(1, (how, sorted(settings.items())), example=1)


SCENARIOS = [Scenario("sites", sc_sites, 900, 15000), Scenario("example", sc_example, 120, 1500)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 3
