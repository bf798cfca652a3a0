"""C14: determinism."""
import json, re, shutil

from ..common import *
from .. import fsm, sites as S
from . import c08, c09, c11
from .c17 import failing_tag
from .c25 import plain_source, plant, targets

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: repeated builds under permuted directory orders (LD_PRELOAD), places, creation orders, previous outputs and environments are compared with each other"
RULE = ("random projects (sites with loops over directories, data and templates, trees with many names, JavaScript plugins whose functions have the same names) are built repeatedly: at the same place, at another path with the files created in another order, over another previous output, from another working directory, with unrelated environment variables, "
        "and with the entries of every directory handed out in random orders by a preloaded library; an observation is a pair of builds with identical output trees and metadata, or with the identical error message (up to the path of the project) for projects with several mistakes; distinct by project and variation, with the number of distinct entry orders seen recorded")
ASSUMPTIONS = ["time stamps and durations in messages of successful builds are not part of the result"]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


def result(proj, out="dist"):
    t = read_tree(os.path.join(proj, out))
    m = c11.meta_of(proj)
    return t, m


def compare(ctx, a, b, what):
    d = diff_trees(a[0], b[0])
    ctx.require(d is None, "output-varies", lambda: "the output %s: %s" % (what, d))
    ctx.require(a[1] == b[1], "metadata-varies", lambda: "the metadata %s: %s" % (what, diff_bytes(a[1] or b"", b[1] or b"")))


def recreate(ctx, src, dst, skip=("dist", "metadata.json", "temp")):
    """Copies the project, creating its files in a random order."""
    t = {p: v for p, v in read_tree(src).items() if p.split("/")[0] not in skip}
    items = list(t.items())
    ctx.rng.shuffle(items)
    os.makedirs(dst)
    for p, v in items:
        full = os.path.join(dst, p)
        if v is None:
            os.makedirs(full, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(full), exist_ok=True)
            open(full, "wb").write(v)


PLUGINS = {"alpha.mjs": 'export default { name: "%s", version: "1", functions: [ { name: "who", fn: () => "%s" }, { name: "count", fn: () => "" + (++n) }, { name: "only%s", fn: () => "%s" } ] }; let n = 0;\n'}


def add_plugins(ctx, r, proj, settings):
    """Two or more plugins that define the same function, and pages that call it."""
    deps, files, calls = [], {}, []
    for n in r.sample(["alpha", "beta", "gamma", "zeta", "delta", "kappa"], r.randint(2, 4)):
        files[n + ".mjs"] = PLUGINS["alpha.mjs"] % (n, n, n, n)
        deps.append('%s = "%s.mjs"' % (n, n))
        calls += ["{{ who() }}", "{{ count() }}", "{{ only%s() }}" % n, "{{ %s::who() }}" % n]
    r.shuffle(deps)
    r.shuffle(calls)
    files["stuart.toml"] = manifest(**settings) + "\n[dependencies]\n" + "\n".join(deps) + "\n"
    secs = "".join('{{ begin("%s") }}%s{{ end("%s") }}' % (s, "|".join(calls), s) for s in S.ALL_SECTIONS)
    for i in range(r.randint(1, 3)):
        files["content/plug%d/p%d.html" % (i, i)] = secs
    write_tree(proj, files)
    ctx.feature("with-plugins")


def add_dates(ctx, r, proj):
    """A page that formats dates (most without a time) with all the digits there are, estimates reading times and cuts excerpts."""
    vals, tags = {}, []
    for i in range(r.randint(2, 6)):
        t = c08.instant(r)
        vals["d%d" % i] = "%04d-%02d-%02d" % (t.dt.year, t.dt.month, t.dt.day) if r.random() < 0.4 else c08.notation(r, t)[1]
        f = r.choice(["%c %.f", "%T%.9f", "%+", "%s %f", c08.random_format(r)[0]]).replace('"', "")
        tags.append('{{ dateformat($v.d%d, "%s") }}' % (i, f))
    vals["text"] = " ".join(r.choice(["lorem", "ipsum", "<b>x</b>"]) for _ in range(r.randint(1, 600)))
    tags += ["{{ timetoread($v.text) }}", "{{ excerpt($v.text, %d) }}" % r.randint(1, 50)]
    secs = "".join('{{ begin("%s") }}{{ import($v, "dates of c14.json") }}%s{{ end("%s") }}' % (s, "|".join(tags), s) for s in S.ALL_SECTIONS)
    write_tree(proj, {"content/dates of c14.html": secs, "content/dates of c14.json": json.dumps(vals)})
    ctx.feature("dates", len(tags))


def variations(ctx, r, proj, n):
    """(name, directory, keyword arguments) of builds that must not differ."""
    out = []
    for i in range(n):
        x = r.random()
        if x < 0.5:
            out.append(("with another order of directory entries", proj, {"extra_env": fsm.env_for(ctx, ctx.path("log%d" % i), root=proj, shuffle=r.randrange(1, 10**9))}))
        elif x < 0.6:
            out.append(("when built again", proj, {}))
        elif x < 0.8:
            d = ctx.path(r.choice(["q%d", "deep/er/q %d", "Ü%d"]) % i)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            recreate(ctx, proj, d)
            out.append(("when built elsewhere", d, {"extra_env": fsm.env_for(ctx, None, root=d, shuffle=r.randrange(1, 10**9))} if r.random() < 0.5 else {}))
        elif x < 0.9:
            out.append(("with unrelated environment variables", proj, {"extra_env": {"UNRELATED_%d" % j: "x" * j for j in range(r.randint(1, 9))} | {"LANG": "de_DE.UTF-8", "TZ": r.choice(ZONES + ["Asia/Tokyo", "America/New_York", ""]), "TERM": "xterm"}}))
        else:
            out.append(("over another previous output", proj, {}))
    return out


def orders(ctx, log, seen):
    cur = {}
    for e in fsm.read_log(log):
        if e.op == "readdir" and e.path2:
            cur.setdefault(e.path, []).append(e.path2)
    k = tuple(sorted((p, tuple(v)) for p, v in cur.items()))
    seen.add(hash(k))


def sc_sites(ctx):
    r = ctx.rng
    proj = ctx.path("p")
    if r.random() < 0.65:
        site, pages, settings, static, want = c11.rich_project(ctx, proj)
        # Loops over directories with many files in them.
        d = r.choice(["posts", "blog/many"])
        for i in range(r.randint(3, 12)):
            write_tree(proj, {"content/%s/%s.md" % (d, r.choice(["a%d", "Z%d", "é%d", "%d", "x-%d", "m.%d", "%d0"]) % i): '---\ndate: "%s"\nk: "%d"\n---\ntext %d' % (r.choice(["2020", "2021"]), r.randint(0, 2), i)})
        tag = "{{ for($p, \"%s/\"%s) }}<{{ $p.date }}{{ $p.content }}{{ $p.k }}>{{ end(for) }}" % (d, r.choice(["", ", sortby=$p.k", ", sortby=$p.date, order=\"desc\"", ", order=\"desc\"", ", sortby=$p.date, skip=1, limit=3"]).replace("$p.", "$") if r.random() < 0.5 else "")
        secs = "".join('{{ begin("%s") }}%s{{ end("%s") }}' % (s, tag, s) for s in S.ALL_SECTIONS)
        write_tree(proj, {"content/list of posts.html": secs})
        if r.random() < 0.4:
            add_plugins(ctx, r, proj, settings)
        if r.random() < 0.5:
            add_dates(ctx, r, proj)
    else:
        s = c09.make_site(S.G.Gen(r))
        site, settings = s[0], dict(s[1], save_metadata=True)
        c09.write_all(proj, site, settings, s[2], {}, s[4], set())
    with open(os.path.join(proj, "stuart.toml"), encoding="utf-8") as f:
        text = f.read()
    assert '[site]\nname = "site"\n' in text
    if r.random() < 0.4:
        # Empty and odd values in the manifest.
        name, author = r.choice(["", "", " ", "p", "é", "/", "."]), r.choice([None, None, "", " ", "a"])
        write_tree(proj, {"stuart.toml": text.replace('[site]\nname = "site"\n', '[site]\nname = "%s"\n' % name + ("" if author is None else 'author = "%s"\n' % author))})
        ctx.feature("name-empty" if not name else "name-odd")
    res = ctx.build(proj)
    if res.rc != 0:
        raise Discard()
    first = result(proj)
    seen = set()
    for what, d, kw in variations(ctx, r, proj, 8):
        if "previous output" in what:
            shutil.rmtree(os.path.join(proj, "dist"))
            c09.old_output(S.G.Gen(r), os.path.join(proj, "dist"))
        res = ctx.build_ok(d, **kw)
        compare(ctx, first, result(d), "differs " + what)
        log = kw.get("extra_env", {}).get("FSMON_LOG")
        if log:
            before = len(seen)
            orders(ctx, log, seen)
            ctx.feature("distinct-entry-orders", len(seen) - before)
        ctx.observed(1, (sorted(first[0]), what, ctx.index), **{what.replace(" ", "-"): 1})
        if d != proj:
            shutil.rmtree(d)
    ctx.sample = {"files": sorted(read_tree(os.path.join(proj, "content")))[:30], "output": sorted(first[0])[:30]}


def normal(err, proj):
    """An error message without the name of the project's directory."""
    return re.sub(rb"\x1b\[[0-9;]*m", b"", err).replace(os.fsencode(os.path.realpath(proj)), b"<P>").replace(os.fsencode(proj), b"<P>")


def sc_errors(ctx):
    """Several mistakes: the same one is always reported first."""
    r = ctx.rng
    proj = ctx.path("p")
    site, pages, settings, static, want = c11.rich_project(ctx, proj)
    seen = S.rendered(site, ctx)
    ts = targets(site, pages)
    kinds = []
    for _ in range(r.randint(2, 5)):
        x = r.random()
        if x < 0.35:
            p = r.choice(ts)
            d = plant(r, site, p, seen)
            if d:
                write_tree(proj, {"content/" + p: d[0]})
                kinds.append(d[1])
        elif x < 0.6:
            p = r.choice(ts)
            f = site.files[p]
            pos = S.positions(f, seen)
            if pos:
                lst, i, chain = r.choice(pos)
                src, kind, _ = failing_tag(r, site, chain)
                v = Verbatim(src)
                lst.insert(i, v)
                text = plain_source(f, lambda line: Writer(None, line))
                lst.remove(v)
                write_tree(proj, {"content/" + p: text})
                kinds.append(kind)
        else:
            d = r.choice(["", "blog/", "docs/", "zz/", "aa/"])
            n = r.choice(["a", "b", "z", "Z", "é"])
            p, v = r.choice([(n + ".json", "{"), (n + ".html", "{{ bad"), (n + ".md", "---\nbad\n---\n"), (n + "2.html", "{{ nope() }}"), (n + "3.html", "no sections"), (n + ".html", b"\xff"), (n + ".md", "{{ $undefd }}")])
            write_tree(proj, {"content/" + d + p: v})
            kinds.append(p)
            if r.random() < 0.3:
                # Several conflicts at once.
                for q in r.sample(["q1", "q2", "q3", "sub/q4", "sub/q5"], 3):
                    write_tree(proj, {"static/zc/" + q: "s", "content/zc/" + q: "c"})
    if r.random() < 0.2:
        # Several plugins that cannot be loaded.
        deps = ['%s = "%s"' % (n, "./missing-%s.so" % n) for n in ("alpha", "beta", "gamma", "delta", "zeta")]
        r.shuffle(deps)
        write_tree(proj, {"stuart.toml": manifest(**settings) + "\n[dependencies]\n" + "\n".join(deps) + "\n"})
        kinds = ["plugins"]
    if not kinds:
        raise Discard()
    res = ctx.build_fails(proj, "there are mistakes: %s" % kinds)
    first = normal(res.err, proj)
    orders_seen = set()
    for what, d, kw in variations(ctx, r, proj, 7):
        res = ctx.build_fails(d, "there are mistakes: %s" % kinds, **kw)
        got = normal(res.err, d)
        ctx.require(got == first, "error-varies", lambda: "the error %s is another one: %r instead of %r" % (what, got[:400], first[:400]))
        log = kw.get("extra_env", {}).get("FSMON_LOG")
        if log:
            before = len(orders_seen)
            orders(ctx, log, orders_seen)
            ctx.feature("distinct-entry-orders", len(orders_seen) - before)
        ctx.observed(1, (first, what, ctx.index), **{"error-" + what.replace(" ", "-"): 1})
        if d != proj:
            shutil.rmtree(d)
    ctx.feature("plugin-errors" if kinds == ["plugins"] else "mistakes", len(kinds))
    ctx.sample = {"mistakes": kinds, "message": first.decode("utf-8", "replace")[:300]}


SCENARIOS = [Scenario("sites", sc_sites, 500, 7000), Scenario("errors", sc_errors, 450, 6000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 1.5, 3
