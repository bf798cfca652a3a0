"""C15: build scripts."""
import shutil

from ..common import *
from .. import fsm, sites as S
from . import c11

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: instrumented build scripts record environment, trees and order of events; an offline checker compares the log with the model"
RULE = ("projects with scripts of every accepted name, and files that only look like scripts, which log their beginning and end into the same log as the preloaded monitor of stuart's own file system calls and save their environment and a copy of the output they see; they produce temp, content and static files, change the output, print and exit with random codes; "
        "an observation is a build whose total order of events, environments, script effects, final output and error message are as specified; distinct by scripts, effects and outcome")
ASSUMPTIONS = ["scripts are run by `sh`; the order among several scripts of the same kind is left open"]

PRE = ["onPreBuild", "onPreBuild.sh"]
POST = ["onPostBuild", "onPostBuild.sh"]
DECOYS = ["onPreBuild.bat", "onprebuild", "onPreBuild.sh~", "onPreBuild.py", "preBuild.sh", "onPostBuild.txt", "OnPostBuild.sh", ".onPreBuild", "onPreBuildx", "onPostBuild.SH", "onBuild.sh", "sub/onPreBuild", "sub/onPostBuild.sh", "onPostBuil", "onPreBuild .sh", "README", "lib.sh"]


def prepare(scratch):
    return fsm.prepare(scratch, oracle=True)


def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


def script(ev, log, name, body, code=None):
    return ("printf '0\\tscript\\t0\\tbegin:%s\\n' >> %s\n"
            "n=$$\nenv -0 > %s/%s.$n.env\n"
            "if [ -d \"$STUART_OUT_DIR\" ]; then cp -a \"$STUART_OUT_DIR\" %s/%s.$n.out; fi\n"
            "if [ -f \"$STUART_MANIFEST_DIR/metadata.json\" ]; then cp \"$STUART_MANIFEST_DIR/metadata.json\" %s/%s.$n.meta; fi\n"
            "if [ -e \"$STUART_TEMP_DIR\" ]; then echo temp > %s/%s.$n.temp; fi\n"
            "%s\nprintf '0\\tscript\\t0\\tend:%s\\n' >> %s\n%s\n") % (name, q(log), q(ev), name, q(ev), name, q(ev), name, q(ev), name, body, name, q(log), "" if code is None else "exit %d" % code if code >= 0 else "kill -%d $$" % -code)


def saw(ev, name):
    """What the runs of a script saved: [(environment, output tree or None, metadata or None, temp existed)]."""
    res = []
    for f in sorted(os.listdir(ev)):
        if f.startswith(name + ".") and f.endswith(".env") and f[len(name) + 1:-4].isdigit():
            b = os.path.join(ev, f[:-4])
            env = dict(kv.split("=", 1) for kv in open(b + ".env", "rb").read().decode("utf-8", "surrogateescape").split("\0") if "=" in kv)
            res.append((env, read_tree(b + ".out") if os.path.isdir(b + ".out") else None, open(b + ".meta", "rb").read() if os.path.exists(b + ".meta") else None, os.path.exists(b + ".temp")))
    return res


def check_env(ctx, env, proj, out, mode, what):
    real = os.path.realpath(proj)
    want = {"STUART_MANIFEST_PATH": os.path.join(real, "stuart.toml"), "STUART_MANIFEST_DIR": real, "STUART_TEMP_DIR": os.path.join(real, "temp"), "STUART_OUT_DIR": out}
    for k, v in want.items():
        got = env.get(k)
        ctx.require(got is not None and os.path.isabs(got) and os.path.normpath(got) == os.path.normpath(v), "env-" + k, lambda: "%s sees %s=%r instead of %r" % (what, k, got, v))
    ctx.require(env.get("STUART_ENV") == mode, "env-STUART_ENV", lambda: "%s sees STUART_ENV=%r instead of %r" % (what, env.get("STUART_ENV"), mode))
    ctx.require(env.get("FOO") == "bar é", "env-other", "%s does not see the other variables of the environment" % what)


def sc_builds(ctx):
    r = ctx.rng
    proj = ctx.path(r.choice(["p", "p q", "Ü", "a'b", "d/e"]))
    os.makedirs(proj)
    site, pages, settings, static, want = c11.rich_project(ctx, proj, scripts=False)
    ev, log = ctx.path("ev"), ctx.path("log")
    os.makedirs(ev)
    names = [n for n in PRE + POST if r.random() < 0.55]
    if not names:
        names = [r.choice(PRE + POST)]
    pre, post = [n for n in names if n in PRE], [n for n in names if n in POST]
    out, args = os.path.join(proj, "dist"), []
    if r.random() < 0.3:
        o = r.choice(["public", "./x y", "../o", os.path.join(ctx.dir, "abs out")])
        out = os.path.normpath(os.path.join(proj, o))
        args = ["-o", o]
    settings_args = list(args)
    cwd = proj
    if r.random() < 0.3:
        cwd = r.choice([ctx.dir, os.path.join(proj, "content")])
        args = args + ["--manifest-path", os.path.relpath(os.path.join(proj, "stuart.toml"), cwd)]
    # What the pre-build scripts produce.
    want = dict(want)
    effects = []
    failing = None
    x = r.random()
    if x < 0.25 and pre:
        failing = ("pre", r.choice(pre))
    elif x < 0.45 and post:
        failing = ("post", r.choice(post))
    code = r.choice([1, 2, 3, 42, 127, 128, 255, -9, -15]) if failing else None
    big = r.random() < 0.15
    bodies, post_files = {}, {}
    for n in pre:
        b = []
        for i in range(r.randint(0, 3)):
            u = "%s%d" % (n.replace(".", "_"), i)
            kind = r.choice(["temp", "temp", "content", "static", "temp-dir", "content-other"])
            effects.append(kind)
            if kind == "temp":
                b.append('mkdir -p "$STUART_TEMP_DIR/t%d"; printf "%s" > "$STUART_TEMP_DIR/t%d/%s.txt"' % (i, u, i, u))
                want["t%d" % i] = None
                want["t%d/%s.txt" % (i, u)] = u.encode()
            elif kind == "temp-dir":
                b.append('mkdir -p "$STUART_TEMP_DIR/e/%s"' % u)
                want["e"] = want["e/" + u] = None
            elif kind == "static":
                b.append('mkdir -p "$STUART_MANIFEST_DIR/static"; printf "%s" > "$STUART_MANIFEST_DIR/static/s%s.css"' % (u, u))
                want["s%s.css" % u] = u.encode()
            elif kind == "content-other":
                b.append('printf "%s" > "$STUART_MANIFEST_DIR/content/c%s.txt"' % (u, u))
                want["c%s.txt" % u] = u.encode()
            else:
                b.append('mkdir -p "$STUART_MANIFEST_DIR/content/gen%s"; printf "<%%s{{ insert(\\"only\\") }}>" "" > "$STUART_MANIFEST_DIR/content/gen%s/root.html"; printf \'{{ begin("only") }}%s{{ end("only") }}\' > "$STUART_MANIFEST_DIR/content/gen%s/index.html"' % (u, u, u, u))
                want["gen" + u] = None
                want["gen%s/index.html" % u] = ("<%s>" % u).encode()
        bodies[n] = "\n".join(b)
    for n in post:
        b = []
        if r.random() < 0.5:
            u = n.replace(".", "_")
            b.append('printf "%s" > "$STUART_OUT_DIR/post-%s.txt"' % (u, u))
            post_files["post-%s.txt" % u] = u.encode()
        bodies[n] = "\n".join(b)
    words = {}
    for n in names:
        w1, w2 = "to-stdout-%d" % r.randrange(10**6), "to-stderr-%d-é" % r.randrange(10**6)
        # Also scripts which say nothing, or only on one of the two streams.
        says = "both" if big else r.choice(["both", "both", "both", "stdout", "stderr", "nothing"])
        words[n] = (w1 if says in ("both", "stdout") else "", w2 if says in ("both", "stderr") else "")
        bodies[n] += {"both": "\necho %s; echo %s >&2" % (w1, w2), "stdout": "\necho " + w1, "stderr": "\necho %s >&2" % w2, "nothing": ""}[says]
        if big:
            bodies[n] += "\ni=0; while [ $i -lt 3000 ]; do echo xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx; echo yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy >&2; i=$((i+1)); done"
            # The end has to be in the message as well.
            bodies[n] += "\necho %s-end; echo %s-end >&2" % (w1, w2)
        if r.random() < 0.1:
            bodies[n] += "\nprintf '\\377\\376'"
    for n in names:
        p = os.path.join(proj, "scripts", n)
        text = script(ev, log, n, bodies[n], code if failing and failing[1] == n else 0 if r.random() < 0.3 else None)
        if r.random() < 0.3:
            text = r.choice(["#!/bin/sh\n", "#!/usr/bin/env bash\n", "# comment\n"]) + text
        write_tree(proj, {"scripts/" + n: text})
        if r.random() < 0.4:
            os.chmod(p, r.choice([0o755, 0o600, 0o444]))
        if r.random() < 0.1:
            os.rename(p, ctx.path("real-" + n))
            os.symlink(ctx.path("real-" + n), p)
    for n in r.sample(DECOYS, r.randint(0, 5)):
        write_tree(proj, {"scripts/" + n: script(ev, log, "decoy", "")})
    free = [n for n in PRE + POST if n not in names]
    if free and r.random() < 0.3:
        write_tree(proj, {"scripts/%s/onPreBuild" % free[0]: script(ev, log, "decoy", "")})
    # The previous state.
    old = None
    if r.random() < 0.5:
        old = {"old.html": b"old", "index.html": b"older"}
        write_tree(out, old)
        write_tree(proj, {"metadata.json": b"old metadata"})
    outer = {"FOO": "bar é"}
    if r.random() < 0.4:
        outer.update(STUART_ENV="outer", STUART_OUT_DIR="/nonexistent", STUART_TEMP_DIR="relative", STUART_MANIFEST_DIR="")
    old_meta = c11.meta_of(proj)
    e = fsm.env_for(ctx, log)
    e.update(outer)
    res = ctx.build(cwd, args, extra_env=e)
    events = fsm.read_log(log)
    ran = [x.path for x in events if x.op == "script"]
    what = "build with %s (failing: %s)" % (names, failing and (failing, code))
    ctx.require(not any("decoy" in s for s in ran), "decoy", lambda: "a file that is not a build script was run: scripts/%s" % sorted(os.listdir(os.path.join(proj, "scripts"))))
    counts = {n: ran.count("begin:" + n) for n in names}
    real = os.path.realpath(proj)
    inputs = [os.path.join(real, d) for d in ("content", "static")] + [os.path.join(proj, d) for d in ("content", "static")]
    idx = {i: x for i, x in enumerate(events)}
    pre_idx = [i for i, x in idx.items() if x.op == "script" and x.path.split(":")[1] in PRE]
    post_idx = [i for i, x in idx.items() if x.op == "script" and x.path.split(":")[1] in POST]
    reads = [i for i, x in idx.items() if x.op in ("openr", "opend") and fsm.within(x.path, *inputs)]
    muts = set(map(id, fsm.mutations(events)))
    writes = [i for i, x in idx.items() if id(x) in muts]
    # Scripts run one after the other, each from its beginning to its end.
    for i, s in enumerate(ran):
        if s.startswith("begin:") and i + 1 < len(ran):
            ctx.require(ran[i + 1] == "end:" + s[6:], "overlapping", lambda: "the scripts do not run one after the other: %s" % ran)
    for n in names:
        for env, tree, meta, temp in saw(ev, n):
            check_env(ctx, env, proj, out, "production", "scripts/" + n)
    if failing and failing[0] == "pre":
        ctx.require(res.rc == 1, "failure-ignored", lambda: "the %s succeeds" % what)
        ctx.require(counts[failing[1]] == 1 and not any(counts[n] > 1 for n in pre), "runs", lambda: "%s ran %s" % (what, counts))
        ctx.require(not post_idx, "post-after-failure", lambda: "a post-build script runs after a pre-build script has failed")
        ctx.require(not writes and not reads, "goes-on", lambda: "the build goes on after a pre-build script has failed: %r" % idx[(writes + reads)[0]])
        d = diff_trees(old, read_tree(out))
        ctx.require(d is None, "output-changed", lambda: "the previous output after a failing pre-build script: " + d)
        ctx.require(c11.meta_of(proj) == old_meta, "metadata-changed", "the previous metadata changed after a failing pre-build script")
    else:
        ctx.require(all(c == 1 for n, c in counts.items() if n in pre or not failing) and counts.get(failing and failing[1], 1) == 1 and max(counts.values()) == 1, "runs", lambda: "the scripts of a %s ran %s times" % (what, counts))
        ctx.require(res.rc == (1 if failing else 0), "exit-code", lambda: "the %s exits with %d: %s" % (what, res.rc, res.errtext()[:500]))
        ctx.require(reads and writes, "monitor", "the monitor has seen nothing of the build")
        if pre_idx:
            ctx.require(max(pre_idx) < min(reads), "reads-before-pre", lambda: "the build reads %s before the pre-build scripts are finished" % idx[min(reads)].path)
            ctx.require(max(pre_idx) < min(writes), "writes-before-pre", lambda: "the build calls %r before the pre-build scripts are finished" % idx[min(writes)])
            for n in pre:
                for env, tree, meta, temp in saw(ev, n):
                    d = diff_trees(old, tree)
                    ctx.require(d is None, "pre-sees-output", lambda: "a pre-build script does not see the previous output: " + d)
        if post_idx:
            ctx.require(min(post_idx) > max(writes), "writes-after-post", lambda: "the build calls %r after a post-build script has begun" % idx[max(writes)])
            if not settings["save_metadata"]:
                new_meta = old_meta
            else:
                new_meta = c11.meta_of(proj)
                ctx.require(new_meta is not None and new_meta != old_meta, "no-metadata", "no metadata was written")
            for n in post:
                for env, tree, meta, temp in saw(ev, n):
                    tree = tree and {p: v for p, v in tree.items() if p not in post_files}
                    d = diff_trees(want, tree)
                    ctx.require(d is None, "post-sees-output", lambda: "scripts/%s does not see the complete output: %s" % (n, d))
                    ctx.require(meta == new_meta, "post-sees-metadata", lambda: "scripts/%s sees the metadata %r" % (n, meta and meta[:100]))
                    ctx.require(not temp, "post-sees-temp", lambda: "temp still exists when scripts/%s runs" % n)
        final = dict(want)
        for n in post:
            if counts[n] == 1:
                u = n.replace(".", "_")
                if "post-%s.txt" % u in post_files:
                    final["post-%s.txt" % u] = u.encode()
        d = diff_trees(final, read_tree(out))
        ctx.require(d is None, "script-effects", lambda: "the output of a %s with %s: %s" % (what, effects, d))
        ctx.require(not os.path.lexists(os.path.join(proj, "temp")), "temp-left", "temp was not removed")
    if failing:
        msg = res.errtext()
        w1, w2 = words[failing[1]]
        if code >= 0:
            import re
            ctx.require(re.search(r"\b%d\b" % code, msg.replace(w1 or "\0", "").replace(w2 or "\0", "")), "code-in-message", lambda: "the exit code %d is not in the message: %s" % (code, msg[:400]))
        ctx.require("error:" in msg and failing[1] in msg, "name-in-message", lambda: "the message does not name the script: " + msg[:300])
        ctx.require(w1 in msg and w2 in msg, "output-in-message", lambda: "the output of the script is not in the message: " + msg[:400])
        if big:
            ctx.require(w1 + "-end" in msg and w2 + "-end" in msg and msg.count("x" * 44) >= 3000, "output-cut", lambda: "the message has only a part of the output of the script: %d bytes" % len(msg))
    ctx.observed(1, (names, effects, failing, code, sorted(settings.items()), bool(old), tuple(settings_args)), script_runs=len(ran) // 2, **{"failing-" + failing[0] if failing else "succeeding": 1})
    for k in effects:
        ctx.feature("effect-" + k)
    ctx.sample = {"scripts": names, "effects": effects, "failing": str(failing), "code": code, "events": ran, "message": res.errtext()[:200]}
    # The build after the failure is corrected.
    if failing:
        for n in names:
            write_tree(proj, {}) if not os.path.islink(os.path.join(proj, "scripts", n)) else None
        os.unlink(os.path.join(proj, "scripts", failing[1]))
        write_tree(proj, {"scripts/" + failing[1]: script(ev, log, failing[1], bodies[failing[1]])})
        ctx.build_ok(cwd, args, extra_env=outer)
        d = diff_trees(dict(want, **post_files), read_tree(out))
        ctx.require(d is None, "corrected-output", lambda: "the output after the script was corrected: " + d)
        ctx.observed(1, None, corrected=1)


def sc_bench(ctx):
    """`bench` runs the scripts in every iteration, with its own environment."""
    r = ctx.rng
    proj = ctx.path("p")
    ev, log = ctx.path("ev"), ctx.path("log")
    os.makedirs(ev)
    pre, post = r.choice(PRE), r.choice(POST)
    write_tree(proj, {"stuart.toml": manifest(), "content/root.html": '{{ $env.STUART_ENV }}{{ insert("body") }}', "content/index.html": '{{ begin("body") }}x{{ end("body") }}', "scripts/" + pre: script(ev, log, pre, 'mkdir -p "$STUART_TEMP_DIR"; echo t > "$STUART_TEMP_DIR/t.txt"'), "scripts/" + post: script(ev, log, post, "")})
    n = r.randint(1, 6)
    res = ctx.no_crash(ctx.run(["bench", r.choice(["-i", "--iters"]), str(n)], cwd=proj, extra_env=dict(fsm.env_for(ctx, log), FOO="bar é")))
    ctx.require(res.rc == 0, "bench-fails", lambda: "bench fails: " + res.errtext()[:300])
    ran = [x.path for x in fsm.read_log(log) if x.op == "script"]
    ctx.require(ran == ["begin:" + pre, "end:" + pre, "begin:" + post, "end:" + post] * n, "bench-scripts", lambda: "bench -i %d runs the scripts %s" % (n, ran))
    for s in (pre, post):
        for env, tree, meta, temp in saw(ev, s):
            check_env(ctx, env, proj, os.path.join(proj, "dist"), "benchmark", "scripts/" + s)
    got = read_tree(os.path.join(proj, "dist"))
    ctx.require(got == {"index.html": b"benchmarkx", "t.txt": b"t\n"}, "bench-output", lambda: "the output of bench is %r" % got)
    ctx.observed(n, (pre, post, n), bench_iterations=n)


SCENARIOS = [Scenario("builds", sc_builds, 900, 12000), Scenario("bench", sc_bench, 40, 400)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 4, 7
