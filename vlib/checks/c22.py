"""C22: `stuart new`."""
import errno, json, shutil, tomllib

from ..common import *
from .. import build as B, fsm, gen as G

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: trees before and after `stuart new`, the manifest and repository it makes, and file system faults (LD_PRELOAD), compared with a model"
RULE = ("`stuart new` with random names (quotes of all kinds, backslashes, control characters, all of Unicode, spaces, dashes, nested and absolute paths), Git configurations (global, local, absent, hostile values, no git at all) and options, at free, occupied (by files, directories, links) and impossible targets, and with a failing system call at a random place, under the file system monitor; "
        "an observation is a created project whose manifest, read by an independent TOML parser, holds exactly the name and author, whose files are those of the template, whose repository ignores what builds write, and which builds, or a refusal with code 1 that leaves everything as it was; distinct by name, configuration and target")
ASSUMPTIONS = ["`git config` determines the user", "a project that cannot be written completely because of an error of the file system is left incomplete"]


def prepare(scratch):
    env = fsm.prepare(scratch, oracle=False)
    t = os.path.join(B.REPO, "stuart/tests/basic")
    out = subprocess.run(["git", "-C", t, "ls-files", "-z", "."], stdout=subprocess.PIPE)
    names = [os.fsdecode(n) for n in out.stdout.split(b"\0") if n] if out.returncode == 0 else []
    env["template"] = {n: open(os.path.join(t, n), "rb").read() for n in names} or {p: v for p, v in read_tree(t).items() if v is not None and p.split("/")[0] in ("content", "static", "stuart.toml")}
    return env


WORDS = ["site", "my site", "a", "Ünï", "日本語", "🦀", "x.y", "a'b", 'a"b', "a\\b", "\\n", "\\u0041", '"""', "'''", "a\nb", "a\tb", "\x01", "\x7f", "\u2028", "\ufeff", "a=b", "#c", "[site]", "{{ x }}", "$HOME", "`id`", "$(id)", "a;b", "a&b", "*", "?", "%s", "-x", "--help", "-", "--", "e\u0301", "\u202e", "\u00a0", "true", "1", "1.5", "{}", "\x1b[31m", "é" * 100, "x" * 200, "\"\nauthor = \"evil", "\\", "\\\\", "end\\", "\"", "'", ",", "~", "~root", "…", "\u0000"[:0] or "_", "name\r", "a\r\nb", " lead", "trail ", "q\"\"\"q", "\U0010ffff", "\ue000"]


def rand_name(r):
    x = r.random()
    if x < 0.6:
        n = r.choice(WORDS)
    elif x < 0.85:
        n = "".join(r.choice(WORDS) for _ in range(r.randint(2, 4)))
    else:
        n = "".join(chr(r.choice([r.randrange(1, 0x80), r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randint(1, 20)))
    n = n.replace("/", "").replace("\0", "")
    return n


USERS = ["Ann", "Ann Example", "O'Neil", 'Q "Quote" R', "back\\slash", "Ünï Cödé", "日本", "🦀", "a#b", "a;b", "  spaced  ", "<x>", "tab\tname", "\\u0041", "'''", '"""', "new\nline", "x" * 300, "[a]", "$HOME", "\x01ctl", "e\u0301"]
MAILS = ["a@example.com", "a+b@x.y", 'q"q@x', "ü@ö.de", "a@b <c>", "<>", "x\\y@z", "a@b", "no mail", "'@'"]


def git_value(v):
    return '"%s"' % v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t")


def git_setup(ctx):
    """A random Git configuration. Returns the environment and a description."""
    r = ctx.rng
    env = ctx.base_env()
    env["GIT_CONFIG_NOSYSTEM"] = "1"
    lines = []
    what = r.choice(["both", "both", "both", "name", "mail", "none", "local", "hostile", "no-git", "broken"])
    if what in ("both", "name", "hostile", "local"):
        lines.append("name = " + git_value(r.choice(USERS)))
        if r.random() < 0.2:
            lines.append("name = " + git_value(r.choice(USERS)))
    if what in ("both", "mail", "hostile", "local"):
        lines.append("email = " + git_value(r.choice(MAILS)))
    cfg = "[user]\n" + "\n".join(lines) + "\n"
    if what == "hostile":
        cfg += "[init]\ndefaultBranch = ma-in\n[core]\nquotepath = false\n"
        if r.random() < 0.4:
            cfg = cfg.encode() .replace(b"name = \"", b"name = \"\xff")
    if what == "broken":
        cfg = "[user\nname = x"
    write_tree(env["HOME"], {".gitconfig": cfg})
    if what == "local":
        subprocess.run(["git", "init", "-q", ctx.path("work")], env=env, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        subprocess.run(["git", "-C", ctx.path("work"), "config", "user.name", "Local " + r.choice(["User", "Ü", "\"q\""])], env=env, check=True)
    if what == "no-git":
        os.makedirs(ctx.path("bin"))
        env["PATH"] = ctx.path("bin")
    ctx.feature("git-" + what)
    return env, what


def git_user(ctx, env, cwd, what):
    if what == "no-git":
        return None
    out = []
    for k in ("user.name", "user.email"):
        p = subprocess.run(["git", "config", "--get", k], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        if p.returncode != 0:
            return None
        out.append(p.stdout.decode("utf-8", "replace").strip())
        if not out[-1]:
            raise Discard()
    return "%s <%s>" % tuple(out)


def clean(tree):
    """Without the insides of Git repositories."""
    return {p: v for p, v in tree.items() if "/.git/" not in "/" + p and not p.startswith(".git/")}


def run_new(ctx, name, env, work, log=None, **mon):
    r = ctx.rng
    pre = r.choice([[], [], [], ["-q"], ["-v"], ["--quiet"], ["--verbose"]])
    no_git = r.random() < 0.4
    if name.startswith("-"):
        args = ["--no-git"] * no_git + ["--", name]
    else:
        args = r.choice([["--no-git"] * no_git + [name], [name] + ["--no-git"] * no_git])
        if r.random() < 0.1:
            args = ["--no-git"] * no_git + ["--", name]
    e = dict(env)
    if log:
        e.update(fsm.env_for(ctx, log=log, prog="stuart", **mon))
    res = ctx.run(pre + ["new"] + args, cwd=work, env=e)
    return res, no_git, any(a in ("-q", "--quiet") for a in pre)


def sc_new(ctx):
    r = ctx.rng
    env, what = git_setup(ctx)
    work = ctx.path("work")
    os.makedirs(work, exist_ok=True)
    write_tree(work, {"there/x.txt": "x", "file": "f"})
    name = rand_name(r)
    x = r.random()
    if not name or name in (".", ".."):
        raise Discard()
    if x < 0.1:
        name = "there/" + name
    elif x < 0.15:
        name = ctx.path("abs", name)
        os.makedirs(ctx.path("abs"))
    elif x < 0.2:
        name = "../" + name
    elif x < 0.25:
        name = "./" + name
    elif x < 0.3:
        name = name + "/"
    elif x < 0.33:
        name = "there/../" + name
    elif x < 0.36:
        os.symlink("there", os.path.join(work, "lnk"))
        name = "lnk/" + name
    target = os.path.join(work, name)
    real = os.path.join(os.path.realpath(os.path.dirname(target.rstrip("/"))), os.path.basename(target.rstrip("/")))
    if len(os.fsencode(os.path.basename(real))) > 255 or os.path.lexists(real):
        raise Discard()
    author = git_user(ctx, env, work, what)
    before = clean(read_tree(ctx.dir))
    log = ctx.path("log")
    res, no_git, quiet = run_new(ctx, name, env, work, log)
    ctx.no_crash(res)
    ctx.require(res.rc == 0, "fails", lambda: "`stuart new` fails for the name %r: %s" % (name, res.text()[:500]))
    # What was touched.
    for e in fsm.mutations(fsm.read_log(log)):
        ctx.require(fsm.within(os.path.realpath(e.path), real) or e.path == real or os.path.realpath(e.path) == real, "touched", lambda: "something else is changed: %r" % e)
        ctx.feature("file-system-calls")
    os.path.exists(log) and os.unlink(log)
    after = clean(read_tree(ctx.dir))
    rel = os.path.relpath(real, ctx.dir)
    rest = {p: v for p, v in after.items() if p != rel and not p.startswith(rel + "/")}
    d = diff_trees(before, rest)
    ctx.require(d is None, "others", lambda: "something else has changed: %s" % d)
    # What was created.
    got = {p[len(rel) + 1:]: v for p, v in after.items() if p.startswith(rel + "/")}
    want = {"content": None, "static": None}
    for p, v in ctx.template.items():
        if p.split("/")[0] in ("content", "static"):
            want[p] = v
            while "/" in p:
                p = p.rsplit("/", 1)[0]
                want[p] = None
    mani, ignore = got.pop("stuart.toml", None), got.pop(".gitignore", None)
    repo = ".git" in got
    got.pop(".git", None)
    d = diff_trees(want, got)
    ctx.require(d is None, "template", lambda: "the files of the project %r are not those of the template: %s" % (name, d))
    ctx.require(mani is not None, "no-manifest", "there is no manifest")
    try:
        m = tomllib.loads(mani.decode("utf-8"))
    except (ValueError, UnicodeDecodeError) as e:
        raise Violation("manifest", "the manifest for %r is not TOML: %s: %r" % (name, e, mani[:500]))
    site = {"name": name}
    if author is not None:
        site["author"] = author
    ctx.require(m == {"site": site}, "manifest", lambda: "the manifest is %r instead of %r: %r" % (m, {"site": site}, mani[:500]))
    if no_git:
        ctx.require(not repo and ignore is None, "no-git", "there is a repository or a .gitignore in spite of --no-git")
    else:
        ctx.require(ignore is not None, "no-ignore", "there is no .gitignore")
        if what not in ("no-git", "broken"):
            p = subprocess.run(["git", "-C", real, "rev-parse", "--show-toplevel"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            ctx.require(p.returncode == 0 and os.path.realpath(os.fsdecode(p.stdout[:-1])) == os.path.realpath(real), "no-repository", lambda: "the project %r is no Git repository: %r %r" % (name, p.stdout, p.stderr))
            ctx.feature("repositories")
    ctx.require(quiet == ("new Stuart website" not in res.text()), "message", lambda: "the message is %r" % res.text()[:300])
    # It builds, and the repository ignores what the build writes.
    with open(os.path.join(real, "stuart.toml"), "ab") as f:
        f.write(b"\n[settings]\nsave_metadata = true\n")
    ctx.build_ok(real)
    t = read_tree(os.path.join(real, "dist"))
    ctx.require("index.html" in t and t["index.html"], "build", "the project has no start page")
    meta = json.loads(open(os.path.join(real, "metadata.json"), "rb").read())
    ctx.require(meta["name"] == name and meta.get("author") == author, "metadata", lambda: "metadata.json says %r, %r instead of %r, %r" % (meta["name"], meta.get("author"), name, author))
    if not no_git and what not in ("no-git", "broken"):
        write_tree(real, {"_build/plugins/x": "x"})
        p = subprocess.run(["git", "-C", real, "status", "--porcelain", "-uall", "-z"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        bad = [l for l in p.stdout.split(b"\0") if l[3:].startswith((b"dist/", b"_build/", b"metadata.json"))]
        ctx.require(p.returncode == 0 and not bad and b"stuart.toml" in p.stdout, "ignored", lambda: "git status: %r %r" % (p.stdout[:600], p.stderr[:300]))
    # Once more: it exists now.
    before = clean(read_tree(ctx.dir))
    res, _, _ = run_new(ctx, name, env, work)
    refused(ctx, res, before, "the project %r exists already" % name)
    ctx.observed(2, (name, what, no_git, author), created=1)
    ctx.sample = {"name": name, "author": author, "manifest": mani.decode("utf-8", "replace")}


def refused(ctx, res, before, why):
    ctx.no_crash(res)
    ctx.require(res.rc == 1, "accepted", lambda: "`stuart new` ends with code %d although %s: %s" % (res.rc, why, res.text()[:300]))
    ctx.require("error:" in res.errtext(), "silent", lambda: "no error is printed although %s: %s" % (why, res.text()[:300]))
    d = diff_trees(before, clean(read_tree(ctx.dir)))
    ctx.require(d is None, "changed", lambda: "something has changed although %s: %s" % (why, d))
    ctx.feature("refused")


def sc_occupied(ctx):
    """Targets that exist or cannot be created."""
    r = ctx.rng
    env, what = git_setup(ctx)
    work = ctx.path("work")
    os.makedirs(work, exist_ok=True)
    base = rand_name(r).strip(".") or "x"
    if len(os.fsencode(base)) > 200 or base in (".", ".."):
        raise Discard()
    full = os.path.join(work, base)
    kind = r.choice(["file", "empty", "dir", "project", "dangling", "link-dir", "link-file", "parent", "parent-file", "unwritable", "long", "dot", "dotdot", "root", "empty-name", "deep", "readonly-dir", "fifo", "slash"])
    name = base
    if kind == "file":
        write_tree(work, {base: "contents"})
    elif kind == "empty":
        os.makedirs(full)
    elif kind == "dir":
        write_tree(work, {base + "/x/y.txt": "y"})
    elif kind == "project":
        write_tree(work, {base + "/stuart.toml": "[site]\nname = \"old\"\n", base + "/content/index.html": "old", base + "/content/root.html": "old", base + "/static/x": "x"})
    elif kind == "dangling":
        os.symlink("nowhere", full)
    elif kind in ("link-dir", "link-file"):
        write_tree(work, {"zz there/x.txt": "x"})
        os.symlink("zz there" + ("/x.txt" if kind == "link-file" else ""), full)
    elif kind == "parent":
        name = "missing parent/" + base
    elif kind == "deep":
        name = "a/b/c/" + base
    elif kind == "parent-file":
        write_tree(work, {"zz file": "x"})
        name = "zz file/" + base
    elif kind == "unwritable":
        os.makedirs(os.path.join(work, "zz ro"))
        os.chmod(os.path.join(work, "zz ro"), 0o555)
        name = "zz ro/" + base
    elif kind == "readonly-dir":
        os.makedirs(full)
        os.chmod(full, 0o555)
    elif kind == "long":
        name = base[:10] + "y" * r.choice([256, 300, 4095, 5000])
    elif kind == "fifo":
        os.mkfifo(full)
    elif kind == "slash":
        os.makedirs(full)
        name = base + "/" * r.randint(1, 3)
    else:
        name = {"dot": ".", "dotdot": "..", "root": "/", "empty-name": ""}[kind]
    if r.random() < 0.2 and kind not in ("dot", "dotdot", "root", "empty-name", "long"):
        name = os.path.join(work, name)
    try:
        before = clean(read_tree(ctx.dir))
    except ValueError:
        raise Discard()
    log = ctx.path("log")
    res, _, _ = run_new(ctx, name, env, work, log)
    for e in fsm.mutations(fsm.read_log(log)):
        ctx.require(e.res < 0, "touched", lambda: "something is changed: %r" % e)
    os.path.exists(log) and os.unlink(log)
    refused(ctx, res, before, "the target is impossible (%s, %r)" % (kind, name))
    ctx.observed(1, (kind, name, what), **{"target-" + kind: 1})


def sc_faults(ctx):
    """A failing system call somewhere: an error, and nothing outside of the new directory is touched."""
    r = ctx.rng
    env, what = git_setup(ctx)
    work = ctx.path("work")
    os.makedirs(work, exist_ok=True)
    write_tree(work, {"there/x.txt": "x"})
    name = "p" + str(r.randrange(100))
    real = os.path.join(os.path.realpath(work), name)
    before = clean(read_tree(ctx.dir))
    log = ctx.path("log")
    n = r.randint(1, 24)
    res, no_git, _ = run_new(ctx, name, env, work, log, root=real, at=n, mode="errno:%d" % r.choice([errno.ENOSPC, errno.EACCES, errno.EIO, errno.EROFS, errno.EDQUOT]))
    events = fsm.read_log(log)
    os.path.exists(log) and os.unlink(log)
    ctx.no_crash(res)
    after = clean(read_tree(ctx.dir))
    rest = {p: v for p, v in after.items() if p != "work/" + name and not p.startswith("work/%s/" % name)}
    d = diff_trees(before, rest)
    ctx.require(d is None, "others", lambda: "something else has changed: %s" % d)
    failed = [e for e in fsm.mutations(events) if e.res < 0]
    if failed and res.rc == 0:
        raise Violation("fault-ignored", "`stuart new` succeeds although %r has failed" % failed[0])
    if failed:
        ctx.require(res.rc == 1 and "error:" in res.errtext(), "fault-code", lambda: "code %d after %r: %s" % (res.rc, failed[0], res.text()[:300]))
        ctx.feature("faults")
    ctx.observed(1, (n, failed and failed[0].op, what))


SCENARIOS = [Scenario("new", sc_new, 2400, 30000), Scenario("occupied", sc_occupied, 1200, 12000), Scenario("faults", sc_faults, 600, 6000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 5
