"""C24: the manifest and the command line."""
import errno, json, shutil, time, tomllib

from ..common import *
from .. import dev as D, fsm, sites as S
from . import c11

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: trees, exit status and streams of the real program for random command lines, manifests and directories, compared with a model, with decoy projects around"
RULE = ("random sites under manifests of many spellings (an independent TOML parser is the judge), with every combination of settings and defaults, selected by `--manifest-path` and written by `--output` in many forms from random working directories, next to a decoy project; `clean` in and outside of projects, with faults; "
        "`bench` with iteration counts; valid commands in quiet mode; unknown options and invalid manifests; an observation is the exit status, the printed text and the difference of the whole tree around the project before and after one command; distinct by command line, manifest and state")
ASSUMPTIONS = ["unknown keys of the manifest, repeated options and manifests given through symbolic links are left open", "the parent of the output directory exists"]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


NAMES = ["site", "My Site", "Ünï 日本 🦀", "a\"b", "it's", "back\\slash", "x # y", "[site]", "a=b", "", " ", "tab\there", "line\nbreak", "{{ $x }}", "'''", "\"\"\"", "\u2028", "true", "1.5"]


# -- manifests --------------------------------------------------------------------------------------------------------

def string(r, s):
    basic = '"' + "".join("\\" + c if c in '"\\' else {"\n": "\\n", "\t": r.choice(["\\t", "\t"]), "\r": "\\r"}.get(c) or (c if ord(c) >= 32 and r.random() < 0.95 else "\\u%04X" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c)) for c in s) + '"'
    opts = [basic, basic]
    if "'" not in s and not any(ord(c) < 32 for c in s):
        opts.append("'" + s + "'")
        opts.append("'''" + s + "'''")
    if '"' not in s and "\\" not in s and "\r" not in s:
        opts.append('"""' + r.choice(["", "\n"]) + s + '"""' if not s.startswith("\n") else basic)
    return r.choice(opts)


def manifest_text(r, name, author, settings):
    """A manifest that says the same in one of many ways."""
    site = [("name", string(r, name))] + ([("author", string(r, author))] if author is not None else [])
    default = {"strip_extensions": True, "save_data_files": False, "save_metadata": False}
    sets = [(k, str(v).lower()) for k, v in settings.items() if v != default[k] or r.random() < 0.5]
    r.shuffle(site)
    r.shuffle(sets)
    nl = r.choice(["\n", "\n", "\r\n"])
    top, tables = [], []

    def key(k):
        return r.choice([k, k, k, '"%s"' % k, "'%s'" % k])

    def eq():
        return r.choice([" = ", " = ", "=", "  =\t"])

    def note():
        return r.choice(["", "", "", " # a comment = \"x\"", "  "])

    def put(t, items):
        x = r.random()
        if x < 0.6:
            tables.append([r.choice(["[%s]", "[ %s ]", '["%s"]']) % t + note()] + [key(k) + eq() + v + note() for k, v in items])
        elif x < 0.8 and not any("\n" in v for _, v in items):
            top.append(key(t) + eq() + "{" + ",".join(" " + key(k) + eq() + v for k, v in items) + " }" + note())
        else:
            top.extend("%s%s%s%s%s" % (t, r.choice([".", " . "]), key(k), eq(), v) + note() for k, v in items)
    todo = [("site", site)]
    if sets or r.random() < 0.4:
        todo.append(("settings", sets))
    if r.random() < 0.15:
        todo.append(("dependencies", []))
    r.shuffle(todo)
    for t, items in todo:
        put(t, items)
    r.shuffle(tables)
    lines = list(top)
    for t in tables:
        lines += [""] * r.choice([0, 0, 1]) + t
    for _ in range(r.choice([0, 0, 1, 2])):
        lines.insert(r.randint(0, len(lines)), r.choice(["", "# comment", "#", "   # [settings]", "\t"]))
    # (Line endings within multi-line strings are left alone.)
    text = nl.join(lines) + r.choice([nl, nl, ""])
    got = tomllib.loads(text)
    if got["site"].get("name") != name or got["site"].get("author") != author or any(got.get("settings", {}).get(k, default[k]) != v for k, v in settings.items()):
        raise Discard()  # (CRLF within a string)
    return text


def project(ctx, proj, env="production", name=None):
    """A random project with a manifest of its own: (settings, name, author, text, expected output)."""
    r = ctx.rng
    site, pages, settings, static, _ = c11.rich_project(ctx, proj, False)
    f = Html([x for s in S.ALL_SECTIONS for x in (Section(s, [Var("env.STUART_ENV")]), Raw("\n"))])
    site.files["zz env.html"] = f
    write_tree(proj, {"content/zz env.html": f.source()})
    dirs = site.dirs
    site = Site(site.files, {"HOME": "/", "STUART_ENV": env})
    site.dirs = dirs
    pages = expected_pages(site, ctx, False)
    want = output_tree(site, settings["strip_extensions"], settings["save_data_files"], static, (), pages)
    nm, author = r.choice(NAMES), r.choice(NAMES + [None] * 8)
    text = manifest_text(r, nm, author, settings)
    with open(os.path.join(proj, name or "stuart.toml"), "w", newline="") as fh:
        fh.write(text)
    if name and name != "stuart.toml":
        os.unlink(os.path.join(proj, "stuart.toml"))
    return settings, nm, author, text, want


def check_metadata(ctx, data, name, author):
    m = json.loads(data)
    ctx.require(m.get("name") == name and m.get("author") == author, "metadata", lambda: "metadata.json has the name %r and the author %r instead of %r and %r" % (m.get("name"), m.get("author"), name, author))


def sub(tree, prefix):
    """Splits a tree into what is at or below the prefix, and the rest."""
    pre = prefix + "/"
    return {p[len(pre):]: v for p, v in tree.items() if p.startswith(pre)}, {p: v for p, v in tree.items() if not p.startswith(pre) and p != prefix}


def decoy(ctx, d, g=0):
    """Another project, which nothing may touch."""
    write_tree(d, {"stuart.toml": '[site]\nname = "decoy"\n[settings]\nsave_metadata = true\nsave_data_files = true\nstrip_extensions = false\n', "content/root.html": '{{ insert("body") }}', "content/index.html": '{{ begin("body") }}decoy{{ end("body") }}', "content/sub/x.json": "[]", "dist/index.html": "decoy output",
                   "metadata.json": "decoy metadata", "static/decoy.txt": "x"})


def outcome(ctx, res, quiet, what, ok=True):
    """A valid command succeeds, and is quiet if it has to be."""
    ctx.no_crash(res)
    ctx.require(res.rc == (0 if ok else 1), "exit-code", lambda: "%s exits with %d: %s" % (what, res.rc, res.text()[:500]))
    if quiet and ok:
        ctx.require(not res.out and not res.err, "not-quiet", lambda: "%s prints %r %r in quiet mode" % (what, res.out[:200], res.err[:200]))
    if not ok:
        ctx.require("error:" in res.errtext(), "silent-failure", lambda: "%s fails without an error: %r" % (what, res.text()[:200]))
        if quiet:
            ctx.require(not res.out and res.errtext().lstrip().startswith("error:"), "not-quiet", lambda: "%s prints %r %r in quiet mode" % (what, res.out[:200], res.err[:200]))


def loudness(r):
    return r.choice([[], ["-q"], ["-q"], ["--quiet"], ["-v"], ["--verbose"]])


def world(ctx):
    """A project in a tree of other things."""
    r = ctx.rng
    w = ctx.path("w")
    pname = r.choice(["proj", "my proj", "Ü", "a/b/p", "dist", "content", "p.toml", "x$y"])
    proj = os.path.join(w, pname)
    os.makedirs(proj)
    decoy(ctx, os.path.join(w, "decoy"))
    os.makedirs(os.path.join(w, "other/deep"))
    write_tree(w, {"dist/x": "not mine", "metadata.json": "not mine", "temp/x": "not mine"})
    return w, pname, proj


def sc_config(ctx):
    r = ctx.rng
    w, pname, proj = world(ctx)
    if pname == "dist" or pname == "a/b/p":
        shutil.rmtree(os.path.join(w, "dist"), ignore_errors=True)
        os.makedirs(proj, exist_ok=True)
    mname = r.choice(["stuart.toml"] * 4 + ["site.toml", "my manifest", ".stuart", "stuart.toml.bak", "é.toml", "config/../alt.toml"])
    sub_m = mname.split("/")[-1]
    settings, name, author, text, want = project(ctx, proj, name=sub_m)
    os.makedirs(os.path.join(proj, "config"))
    if sub_m != "stuart.toml" and r.random() < 0.6:
        write_tree(proj, {"stuart.toml": r.choice(["not toml [", '[site]\nname = "wrong"\n[settings]\nstrip_extensions = %s\nsave_metadata = true\n' % str(not settings["strip_extensions"]).lower()])})
    cwd = r.choice([proj, proj, os.path.join(proj, "content"), w, os.path.join(w, "decoy"), os.path.join(w, "other/deep"), "/"])
    args = []
    if cwd != proj or mname != "stuart.toml" or r.random() < 0.3:
        rel = os.path.join(os.path.relpath(proj, cwd), mname)
        ab = os.path.join(proj, mname)
        m = r.choice([rel, rel, ab, "./" + rel, os.path.join(rel[:0] + os.path.relpath(proj, cwd), "content/..", mname), ab.replace("/", "//", 1)])
        args += r.choice([["--manifest-path", m], ["--manifest-path=" + m]])
    # The output directory, relative to the manifest.
    out = r.choice(["dist"] * 3 + ["public", "o u t", "é", "sub/out", "../out", "../other/out", "ABS", "ABS2", ".hidden", "x/../y", "./z", "sub//out/", "distribution", "contents", "temp2", "-dash", "_site"])
    target = {"ABS": os.path.join(w, "other/abs"), "ABS2": os.path.join(proj, "abs out")}.get(out) or os.path.normpath(os.path.join(proj, out))
    if out != "dist" or r.random() < 0.2:
        o = target if out.startswith("ABS") else out
        os.makedirs(os.path.dirname(target), exist_ok=True)
        if "x/.." in out:
            os.makedirs(os.path.join(proj, "x"))
        forms = [["--output=" + o]] + ([["-o", o], ["-o" + o], ["--output", o]] if o[0] != "-" else [])
        a = r.choice(forms)
        args = args + a if r.random() < 0.5 else a + args
    if r.random() < 0.5:
        write_tree(target, {"old/file": b"old", "index.html": b"old"})
    if target != os.path.join(proj, "dist") and r.random() < 0.5:
        write_tree(proj, {"dist/kept": b"kept"})
    old_meta = r.choice([None, b"old metadata"])
    if old_meta is not None:
        write_tree(proj, {"metadata.json": old_meta})
    loud = loudness(r)
    before = read_tree(w)
    what = "stuart %s in %r of a project in %r" % (loud + ["build"] + args, os.path.relpath(cwd, w), pname)
    res = ctx.run(loud + ["build"] + args, cwd=cwd)
    outcome(ctx, res, "-q" in loud or "--quiet" in loud, what)
    after = read_tree(w)
    prel = os.path.relpath(proj, w)
    orel = os.path.relpath(target, w)
    got, rest = sub(after, orel)
    _, rest0 = sub(before, orel)
    ctx.require(after.get(orel, 0) is None, "no-output", lambda: "%s does not write the output to %r: there are %s" % (what, orel, sorted(set(after) - set(before))[:10]))
    d = diff_trees(want, got)
    ctx.require(d is None, "output", lambda: "the output of %s with the manifest\n%s\n: %s" % (what, text, d))
    mp = prel + "/metadata.json"
    if settings["save_metadata"]:
        ctx.require(mp in rest, "no-metadata", lambda: "%s does not write metadata.json" % what)
        check_metadata(ctx, rest.pop(mp), name, author)
        rest0.pop(mp, None)
    d = diff_trees(rest0, rest)
    ctx.require(d is None, "others", lambda: "%s changes something other than the output: %s" % (what, d))
    ctx.observed(1, (text, loud, args, os.path.relpath(cwd, w), pname), **{"cwd-" + (os.path.relpath(cwd, w) if cwd in (w, os.path.join(w, "decoy")) else "project" if cwd == proj else "other"): 1, "manifest-%s" % ("named" if sub_m != "stuart.toml" else "default"): 1,
                 "output-%s" % (out if out in ("dist", "ABS", "../out") else "other"): 1, "settings-" + "".join("01"[settings[k]] for k in sorted(settings)): 1, "spelling-" + ("table" if "[" in text.split("site")[0][-4:] else "other"): 1, "crlf": "\r\n" in text, "loud" + "".join(loud): 1})
    ctx.sample = {"command": what, "manifest": text}
    if r.random() < 0.25:
        res = ctx.run(["-q", "build"] + args, cwd=cwd)
        outcome(ctx, res, True, what + " again")
        d = diff_trees(after, read_tree(w))
        ctx.require(d is None, "again", lambda: "%s again changes something: %s" % (what, d))
        ctx.observed(1, None, again=1)


# -- clean ------------------------------------------------------------------------------------------------------------

def sc_clean(ctx):
    r = ctx.rng
    w, pname, proj = world(ctx)
    settings, name, author, text, want = project(ctx, proj)
    if r.random() < 0.15:
        write_tree(proj, {"stuart.toml": r.choice(["", "not toml", "[site]\nname = 1\n"])})  # It need not be valid in order to be cleaned.
        ctx.feature("invalid-manifest")
    elif r.random() < 0.6:
        ctx.build_ok(proj)
    write_tree(proj, {"public/index.html": "custom output", "temp/t.txt": "temp", "sub/dist/x": "x", "sub/_build/x": "x", "sub/metadata.json": "x", "content/dist/keep.txt": "x", "content/metadata.json": "[]", "static/_build/k": "x", "dist.bak/x": "x", "Dist/x": "x", "metadata.json.bak": "x", "_build2/x": "x", "outside/f": "x"})
    have = []
    if r.random() < 0.6:
        have.append("dist")
        if r.random() < 0.15:
            shutil.rmtree(os.path.join(proj, "dist"), ignore_errors=True)
            os.symlink(r.choice([os.path.join(w, "other"), "outside", "static"]), os.path.join(proj, "dist"))
            ctx.feature("linked-output")
        else:
            write_tree(proj, {"dist/a/b/c.txt": "x", "dist/%s" % r.choice(["é", "-x", " "]): "x"}, ["dist/zz empty", "dist/stuart.toml"])
            os.symlink(r.choice(["../outside", os.path.join(w, "decoy"), "../static", "nowhere"]), os.path.join(proj, "dist/link"))
            os.symlink(os.path.join(proj, "stuart.toml"), os.path.join(proj, "dist/flink"))
    if r.random() < 0.6:
        write_tree(proj, {"_build/plug/target/x.so": "x", "_build/plug2/f": "x"})
        if r.random() < 0.5:
            os.symlink("../outside", os.path.join(proj, "_build/l"))
    if r.random() < 0.6:
        if r.random() < 0.15:
            if os.path.lexists(os.path.join(proj, "metadata.json")):
                os.unlink(os.path.join(proj, "metadata.json"))
            os.symlink("outside/f", os.path.join(proj, "metadata.json"))
        else:
            write_tree(proj, {"metadata.json": "{}"})
    before = read_tree(w)
    prel = os.path.relpath(proj, w)
    mine = [os.path.join(prel, x) for x in ("dist", "_build", "metadata.json")]
    real = os.path.realpath(proj)
    places = [os.path.join(real, x) for x in ("dist", "_build", "metadata.json")]
    loud = loudness(r)
    log = ctx.path("log")
    # Elsewhere, it refuses.
    for cwd in r.sample([os.path.join(proj, "content"), w, os.path.join(w, "other/deep"), os.path.join(proj, "sub"), os.path.join(proj, "static")], 2):
        if not os.path.isdir(cwd) or os.path.exists(os.path.join(cwd, "stuart.toml")):
            continue
        res = ctx.run(loud + ["clean"], cwd=cwd, extra_env=fsm.env_for(ctx, log))
        outcome(ctx, res, "-q" in loud, "clean in %r" % cwd, False)
        muts = fsm.mutations(fsm.read_log(log))
        ctx.require(not muts, "clean-elsewhere", lambda: "`clean` outside of a project calls %r" % muts[0])
        d = diff_trees(before, read_tree(w))
        ctx.require(d is None, "clean-elsewhere", lambda: "`clean` outside of a project changes something: %s" % d)
        ctx.observed(1, (os.path.relpath(cwd, w), prel), refused=1)
    # A failing call: an error, and nothing else is touched.
    if r.random() < 0.4:
        res = ctx.run(loud + ["clean"], cwd=proj, extra_env=fsm.env_for(ctx, log, root=real, at=r.randint(1, 6), mode="errno:%d" % r.choice([errno.EACCES, errno.EIO, errno.EBUSY, errno.EPERM, errno.EROFS])))
        ctx.no_crash(res)
        muts = fsm.mutations(fsm.read_log(log))
        failed = [e for e in muts if e.res < 0]
        if failed:
            ctx.require(res.rc == 1 and "error:" in res.errtext(), "fault-ignored", lambda: "`clean` exits with %d although %r has failed" % (res.rc, failed[0]))
            ctx.observed(1, ("fault", failed[0].op, os.path.basename(failed[0].path)), faults=1)
        for e in muts:
            ctx.require(fsm.within(e.path, *places), "clean-others", lambda: "`clean` calls %r" % e)
        rest = {p: v for p, v in read_tree(w).items() if not any(p == m or p.startswith(m + "/") for m in mine)}
        d = diff_trees({p: v for p, v in before.items() if not any(p == m or p.startswith(m + "/") for m in mine)}, rest)
        ctx.require(d is None, "clean-others", lambda: "`clean` with a fault changes something else: %s" % d)
    res = ctx.run(loud + ["clean"], cwd=proj, extra_env=fsm.env_for(ctx, log))
    outcome(ctx, res, "-q" in loud, "clean")
    for e in fsm.mutations(fsm.read_log(log)):
        ctx.require(fsm.within(e.path, *places), "clean-others", lambda: "`clean` calls %r" % e)
    left = [p for p in mine if os.path.lexists(os.path.join(w, p))]
    ctx.require(not left, "not-cleaned", lambda: "`clean` leaves %s" % left)
    d = diff_trees({p: v for p, v in before.items() if not any(p == m or p.startswith(m + "/") for m in mine)}, read_tree(w))
    ctx.require(d is None, "clean-others", lambda: "`clean` changes something else: %s" % d)
    ctx.observed(1, sorted(p for p in before if p.startswith(prel)), cleaned=1, **{"had-" + os.path.basename(m): m in before for m in mine})
    ctx.sample = {"before": sorted(p for p in before if p.startswith(prel + "/") and "/content/" not in p)[:40]}
    # Nothing to clean is no error, and the project builds again.
    after = read_tree(w)
    outcome(ctx, ctx.run(["-q", "clean"], cwd=proj), True, "clean again")
    ctx.require(read_tree(w) == after, "clean-twice", "cleaning again changes something")
    if "invalid-manifest" not in ctx.feats:
        shutil.rmtree(os.path.join(proj, "temp"))
        for d in ("content/dist", "static/_build"):
            shutil.rmtree(os.path.join(proj, d))
        os.unlink(os.path.join(proj, "content/metadata.json"))
        if not os.listdir(os.path.join(proj, "static")):
            os.rmdir(os.path.join(proj, "static"))
        outcome(ctx, ctx.run(["-q", "build"], cwd=proj), True, "build after clean")
        d = diff_trees(want, read_tree(os.path.join(proj, "dist")))
        ctx.require(d is None, "rebuilt", lambda: "the output after `clean`: %s" % d)


# -- usage and manifests that are wrong -------------------------------------------------------------------------------

BAD_USAGE = [[], ["-q"], ["buil"], ["Build"], ["builds"], ["build", "extra"], ["build", "."], ["build", "--outptu", "x"], ["build", "--outputs=x"], ["build", "-o"], ["build", "--output"], ["build", "--manifest-path"], ["build", "--manifest", "stuart.toml"], ["build", "-m", "stuart.toml"], ["build", "-x"], ["build", "--no-git"],
             ["build", "-i", "3"], ["build", "--iters", "3"], ["build", "--release"], ["build", "-p"], ["build", "--", "x"], ["build", "dist", "content"], ["-o", "x", "build"], ["--output", "x", "build"], ["--manifest-path", "stuart.toml", "build"], ["-q", "-v", "build"], ["-v", "-q", "build"], ["--quiet", "--verbose", "build"], ["-qv", "clean"],
             ["-x", "build"], ["--bogus", "clean"], ["-Q", "build"], ["--verbos", "build"], ["clean", "x"], ["clean", "."], ["clean", "--all"], ["clean", "-o", "public"], ["clean", "--output", "public"], ["clean", "--manifest-path", "stuart.toml"], ["clean", "-f"], ["clean", "build"], ["cleanup"], ["CLEAN"], ["bench", "5"], ["bench", "-i"], ["bench", "--iters"],
             ["bench", "-n", "3"], ["bench", "-o", "x"], ["bench", "--iterations", "3"], ["bench", "--manifest-path", "stuart.toml"], ["new"], ["new", "a", "b"], ["new", "--no-git"], ["new", "x", "--git"], ["new", "x", "--name", "y"], ["new", "-n", "x"], ["new", "x", "-o", "y"], ["dev", "x"], ["dev", "--port", "80"], ["dev", "-p", "8000"], ["dev", "-o"], ["dev", "--open"],
             ["dev", "--manifest-path"], ["serve"], ["run"], ["init"], ["test"], ["install"], ["build", "clean"], ["build", b"\xff"], [b"\xff"], ["clean", b"\xff"], ["build", "--outpu\u0074s"], ["--color", "never", "build"], ["build", "--config=x"], ["build", "---output=x"]]
BAD_VALUES = [["bench", "-i", "abc"], ["bench", "-i", ""], ["bench", "-i", "1.5"], ["bench", "--iters=-1"], ["bench", "-i", "1e3"], ["bench", "-i", "99999999999999999999999"], ["bench", "-i", " 3"], ["bench", "-i", "0x3"], ["bench", "-i", "3;"], ["build", "--manifest-path", ""], ["build", "--manifest-path", "nothing.toml"], ["build", "--manifest-path", "."],
              ["build", "--manifest-path", "content"], ["build", "--manifest-path", "stuart.toml/x"], ["build", "--manifest-path", "nowhere/stuart.toml"], ["build", "--manifest-path", "/nonexistent/stuart.toml"], ["build", "-o", ""], ["build", "-o", "."], ["build", "-o", "content"], ["build", "-o", b"\xff"], ["build", "--manifest-path", b"\xff.toml"],
              ["build", "-o", "nowhere/at/all"][:0] or ["build", "--manifest-path", "~/stuart.toml"], ["bench", "-i", b"\xff"], ["bench", "-i", "3 4"], ["dev", "--manifest-path", "nothing.toml"], ["dev", "--manifest-path", "content"], ["dev", "--manifest-path", ""]]
HELP = [["--help"], ["-h"], ["help"], ["help", "build"], ["build", "--help"], ["build", "-h"], ["clean", "--help"], ["new", "--help"], ["bench", "-h"], ["dev", "--help"], ["--version"], ["-V"], ["-q", "--help"], ["help", "clean"]]


def small(ctx, proj):
    decoy(ctx, proj)
    write_tree(proj, {"_build/x": "x", "public/x": "x", "temp/x.txt": "x", "bin/true.sh": "x"})


def sc_usage(ctx):
    r = ctx.rng
    proj = ctx.path("w")
    small(ctx, proj)
    before = read_tree(proj)
    log = ctx.path("log")
    n = len(BAD_USAGE) + len(BAD_VALUES) + len(HELP)
    for k in range(8):
        i = (ctx.index * 8 + k) % n
        kind = "usage" if i < len(BAD_USAGE) else "value" if i < len(BAD_USAGE) + len(BAD_VALUES) else "help"
        args = (BAD_USAGE + BAD_VALUES + HELP)[i]
        if kind == "value" and r.random() < 0.4:
            args = ["-q"] + args
        res = ctx.run(args, cwd=proj, extra_env=fsm.env_for(ctx, log), wall=30)
        if res.timeout or res.stuck:
            raise Violation("hangs", "%s does not end" % args)
        ctx.require(b"panicked" not in res.err and res.rc in (0, 1, 2), "crash", lambda: "%s crashes: %d %s" % (args, res.rc, res.errtext()[:300]))
        if kind == "help":
            ctx.require(res.rc == 0 and res.out.strip(), "help", lambda: "%s exits with %d and prints %r" % (args, res.rc, res.text()[:200]))
        else:
            ctx.require(res.rc == 2 if kind == "usage" and args != [] and b"\xff" not in args else res.rc != 0, "accepted", lambda: "%s exits with %d" % (args, res.rc))
            ctx.require("error:" in res.errtext() or args in ([], ["-q"]), "silent-failure", lambda: "%s fails without an error: %r" % (args, res.text()[:200]))
        muts = [e for e in fsm.mutations(fsm.read_log(log)) if e.res >= 0]
        ctx.require(not muts, "touched", lambda: "%s calls %r" % (args, muts[0]))
        d = diff_trees(before, read_tree(proj))
        ctx.require(d is None, "touched", lambda: "%s changes something: %s" % (args, d))
        ctx.observed(1, args, **{kind: 1})
        ctx.sample = {"arguments": [str(a) for a in args], "code": res.rc, "message": res.text()[:200]}


def spoil(r, text, settings):
    """A manifest that is not valid any more: (kind, text)."""
    lines = text.split("\n")
    k = r.choice(["type", "name-type", "garbage", "duplicate", "cut-quote", "missing-name", "missing-site", "table-twice", "bool-case", "value-missing", "author-type", "key", "site-array", "dep-type", "unclosed", "fixed"])
    plain = '[site]\nname = "x"\n'
    if k == "fixed":
        return k, r.choice([m for m in c11.MANIFESTS if m is not None])
    if k == "type":
        return k, plain + "[settings]\n%s = %s\n" % (r.choice(sorted(settings)), r.choice(['"true"', "1", "0", "1.0", "1979-05-27", "'no'", '""']))
    if k == "name-type":
        return k, "[site]\nname = %s\n" % r.choice(["1", "true", "1.5", "[\"x\"]", "{ a = 1 }", "1979-05-27"])
    if k == "author-type":
        return k, plain + "author = %s\n" % r.choice(["1", "true", "[\"x\"]", "{ name = \"x\" }"])
    if k == "garbage":
        return k, text + r.choice(["\ngarbage\n", "\n= 3\n", "\n[a b]\n", "\nx = = 1\n", "\n]\n", "\n\"x\n", "\n[]\n", "\nx = [1, \n", "\n// no comment\n", "\nx = 1 y = 2\n", "\nx: 1\n"])
    if k == "duplicate":
        return k, plain + r.choice(['name = "x"\n', '"name" = "y"\n', '[settings]\nsave_metadata = true\nsave_metadata = true\n'])
    if k == "table-twice":
        return k, plain + r.choice(['[settings]\n[settings]\n', '[settings]\nsave_metadata = true\n[site]\nauthor = "x"\n'])
    if k == "cut-quote":
        return k, r.choice(['[site]\nname = "x\n', "[site]\nname = 'x\n", '[site]\nname = """x\n', "[site]\nname = x\"\n", '[site]\nname = "\\q"\n', '[site]\nname = "\\ud800"\n', '[site]\nname = "a" "b"\n'])
    if k == "missing-name":
        return k, r.choice(['[site]\n', '[site]\nauthor = "x"\n', '[site]\nNAME = "x"\n', 'name = "x"\n[site]\n', "site = {}\n"])
    if k == "missing-site":
        return k, r.choice(["", "\n", "# nothing\n", '[sites]\nname = "x"\n', '[Site]\nname = "x"\n', 'name = "x"\n', "[settings]\nsave_metadata = true\n"])
    if k == "bool-case":
        return k, plain + "[settings]\n%s = %s\n" % (r.choice(sorted(settings)), r.choice(["True", "FALSE", "yes", "on", "no", "t"]))
    if k == "value-missing":
        return k, r.choice(['[site]\nname =\n', '[site]\nname\n', plain + "[settings]\nsave_metadata =\n"])
    if k == "key":
        return k, plain + r.choice(["a b = 1\n", "é = 1\n", "= 1\n", "a. = 1\n", ".a = 1\n"])
    if k == "site-array":
        return k, r.choice(['[[site]]\nname = "x"\n', 'site = [ { name = "x" }, { name = "y" } ]\n', 'site = "x"\n'])
    if k == "dep-type":
        return k, plain + r.choice(["[dependencies]\na = 1\n", "[dependencies]\na = { path = \"x\" }\n", "[dependencies]\na = true\n", "[dependencies]\na = [\"x\"]\n"])
    return k, r.choice(['[site\nname = "x"\n', 'site = { name = "x"\n', '[[site]\nname = "x"\n', 'site = { name = "x",, }\n'])


def sc_manifests(ctx):
    """Invalid manifests fail every command that reads them, without touching anything."""
    r = ctx.rng
    w, pname, proj = world(ctx)
    settings, name, author, text, want = project(ctx, proj)
    write_tree(proj, {"dist/old.txt": "old", "metadata.json": "old", "temp/t.txt": "t", "scripts/onPreBuild": 'echo ran >> "%s"\n' % ctx.path("w/ran")})
    mp = os.path.join(proj, "stuart.toml")
    log = ctx.path("log")
    for _ in range(6):
        k, t = spoil(r, text, settings)
        t = t if isinstance(t, bytes) else t.encode("utf-8", "surrogateescape") if not t.startswith("\xff") else b"\xff" + t[1:].encode()
        x = r.random()
        os.unlink(mp)
        if x < 0.05:
            k = "missing"
        elif x < 0.1:
            k = "directory"
            os.mkdir(mp)
        elif x < 0.15:
            k = "dangling"
            os.symlink("nowhere", mp)
        elif x < 0.2:
            k = "unreadable"
            open(mp, "w").write(text)
            os.chmod(mp, 0)
        else:
            open(mp, "wb").write(t)
        before = read_tree(w) if k != "unreadable" else None
        cmd = r.choice(["build", "build", "build", "bench", "dev"])
        cwd, args = proj, [cmd]
        if cmd != "bench" and r.random() < 0.4:
            cwd = r.choice([w, os.path.join(w, "decoy"), os.path.join(proj, "content")])
            args += ["--manifest-path", r.choice([mp, os.path.relpath(mp, cwd)])]
        loud = loudness(r)
        res = ctx.run(loud + args, cwd=cwd, extra_env=fsm.env_for(ctx, log, bind=D.free_port() if cmd == "dev" else None), wall=30)
        what = "%s with an invalid manifest (%s: %r)" % (loud + args, k, t if k not in ("missing", "directory", "dangling", "unreadable") else "-")
        if res.timeout or res.stuck:
            raise Violation("accepted", "%s does not fail" % what)
        outcome(ctx, res, "-q" in loud, what, False)
        muts = [e for e in fsm.mutations(fsm.read_log(log)) if e.res >= 0]
        ctx.require(not muts, "touched", lambda: "%s calls %r" % (what, muts[0]))
        if before is not None:
            d = diff_trees(before, read_tree(w))
            ctx.require(d is None, "touched", lambda: "%s changes something: %s" % (what, d))
        ctx.observed(1, (k, t, cmd, args), **{"manifest-" + k: 1, cmd: 1})
        ctx.sample = {"manifest": t.decode("utf-8", "replace"), "command": args, "message": res.errtext()[:300]}
        if k == "directory":
            os.rmdir(mp)
            open(mp, "w").close()
        elif k == "missing":
            open(mp, "w").close()
        elif k == "unreadable":
            os.chmod(mp, 0o644)


# -- bench and quiet --------------------------------------------------------------------------------------------------

def sc_bench(ctx):
    r = ctx.rng
    w, pname, proj = world(ctx)
    settings, name, author, text, want = project(ctx, proj, "benchmark")
    write_tree(proj, {"scripts/onPreBuild": 'echo "$STUART_ENV" >> "$STUART_MANIFEST_DIR/../%s"\n' % "runs"})
    runs = os.path.join(os.path.dirname(proj), "runs")
    n = r.choice([None, None, 0, 1, 1, 2, 3, 7, 25])
    args = ["bench"] + ([] if n is None else r.choice([["-i", str(n)], ["-i%d" % n], ["--iters", str(n)], ["--iters=%d" % n], ["-i", "0%d" % n], ["-i", "+%d" % n]]))
    fails = n != 0 and r.random() < 0.2
    if fails:
        write_tree(proj, {"content/zz bad.html": "{{ nope"})
    if r.random() < 0.5:
        write_tree(proj, {"dist/old.txt": "old"})
    loud = loudness(r)
    quiet = "-q" in loud or "--quiet" in loud
    before = read_tree(w)
    res = ctx.run(loud + args, cwd=proj)
    outcome(ctx, res, quiet, "stuart %s" % (loud + args), not fails)
    after = read_tree(w)
    count = open(runs).read() if os.path.exists(runs) else ""
    ctx.require(count == "benchmark\n" * (1 if fails else 10 if n is None else n), "iterations", lambda: "stuart %s builds: %r" % (args, count))
    after.pop(os.path.relpath(runs, w), None)
    prel = os.path.relpath(proj, w)
    if fails or n == 0:
        d = diff_trees(before, after)
        ctx.require(d is None, "bench-others", lambda: "stuart %s changes something: %s" % (args, d))
    else:
        got, rest = sub(after, prel + "/dist")
        _, rest0 = sub(before, prel + "/dist")
        d = diff_trees(want, got)
        ctx.require(d is None, "bench-output", lambda: "the output of stuart %s: %s" % (args, d))
        if settings["save_metadata"]:
            ctx.require(prel + "/metadata.json" in rest, "no-metadata", "no metadata.json")
            check_metadata(ctx, rest.pop(prel + "/metadata.json"), name, author)
        d = diff_trees(rest0, rest)
        ctx.require(d is None, "bench-others", lambda: "stuart %s changes something else: %s" % (args, d))
    ctx.observed(1, (loud, args, text), **{"failing" if fails else "iterations-%s" % n: 1})
    ctx.sample = {"arguments": loud + args}


def sc_quiet(ctx):
    """The development server and `new` in quiet mode."""
    r = ctx.rng
    w, pname, proj = world(ctx)
    settings, name, author, text, want = project(ctx, proj)
    res = ctx.run(["-q", "new", "zz new"] + r.choice([[], ["--no-git"]]), cwd=w)
    outcome(ctx, res, True, "-q new")
    with D.Dev(ctx, proj, [[r.choice(["-q", "--quiet"])]]) as dev:
        ctx.require(dev.alive(), "dev-fails", lambda: "-q dev ends: " + dev.text())
        page = os.path.join(proj, "content/zz env.html")
        out = os.path.join(proj, "dist", out_path("zz env.html", settings["strip_extensions"]))
        with open(os.path.join(proj, "content/root.html")) as f:
            names = sorted(set(re.findall(r'insert\s*\(\s*"([^"]*)"', f.read())))
        for i in range(r.randint(1, 3)):
            bad = r.random() < 0.3
            dev.quiet(0.15)
            time.sleep(0.15)  # (What changes while it is building may be lost: a known finding about C21.)
            k = dev.mark()
            word = "changed %d" % i
            new = '{{ nope' if bad else "".join('{{ begin("%s") }}%s{{ end("%s") }}' % (n, word, n) for n in names)
            seen = (lambda: dev.failed(k) > 0) if bad else (lambda: word.encode() in (open(out, "rb").read() if os.path.exists(out) else b""))
            for _ in range(3):
                with open(os.path.join(w, "zz new page"), "w") as f:  # (Nothing is watched there.)
                    f.write(new)
                os.rename(os.path.join(w, "zz new page"), page)
                end = time.monotonic() + 10
                while time.monotonic() < end and not seen():
                    time.sleep(0.02)
                if seen():
                    break
            if bad:
                ctx.require(seen(), "dev-silent", lambda: "-q dev does not print the error of a build: %r" % dev.text(k))
                ctx.observed(1, None, dev_errors=1)
            else:
                if not seen():
                    raise Inconclusive("the change was not built in time")
                dev.quiet(0.1)
                ctx.require(dev.text(k) == "" or dev.failed(0), "not-quiet", lambda: "-q dev prints %r" % dev.text(k))
                ctx.observed(1, (text, i), dev_builds=1)
        t = dev.text()
        ctx.require(not any(x in t for x in ("Finished", "Detected", "Started", "Building")), "not-quiet", lambda: "-q dev prints %r" % t)
        if not dev.failed():
            ctx.require(t == "", "not-quiet", lambda: "-q dev prints %r" % t)


SCENARIOS = [Scenario("config", sc_config, 1500, 20000), Scenario("clean", sc_clean, 600, 8000), Scenario("usage", sc_usage, 60, 200), Scenario("manifests", sc_manifests, 400, 5000), Scenario("bench", sc_bench, 240, 2500), Scenario("quiet", sc_quiet, 24, 200)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 4
