"""Builds the code under test (from /repo's working tree) and the native parts of the machinery.

Everything lands under /verif/.build, which git ignores; nothing is written under /repo.
"""
import fcntl, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")


class BuildError(Exception):
    pass


def _env(target):
    """The environment of /opt/vp/env.sh, with our own target directory."""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], stdout=subprocess.PIPE).stdout
    env = dict(kv.split("=", 1) for kv in out.decode("utf-8", "surrogateescape").split("\0") if "=" in kv)
    env.setdefault("HOME", os.path.expanduser("~"))
    env["CARGO_TARGET_DIR"] = target
    env["CARGO_PROFILE_DEV_DEBUG"] = "0"
    env["CARGO_INCREMENTAL"] = "0"
    env.pop("LD_PRELOAD", None)
    return env


def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def _sources():
    """A hash of the sources of the code under test."""
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            if f.endswith((".rs", ".toml", ".lock", ".js", ".html", ".svg", ".md", ".json")):
                p = os.path.join(root, f)
                try:
                    with open(p, "rb") as g:
                        data = g.read()
                except OSError:
                    continue
                h.update(b"%s\0%d\0" % (os.fsencode(os.path.relpath(p, REPO)), len(data)) + data)
    return h.hexdigest()


def _forget(target):
    """Cargo only looks at the times of files: if their contents are others than at the last build, it is made to compile again."""
    stamp, now = os.path.join(target, ".sources"), _sources()
    if os.path.exists(target) and not (os.path.exists(stamp) and open(stamp).read() == now):
        for root, dirs, _ in os.walk(target):
            if os.path.basename(root) == ".fingerprint":
                for d in dirs:
                    if d.startswith(("stuart", "probe", "demo", "imgopt")):
                        shutil.rmtree(os.path.join(root, d), ignore_errors=True)
                dirs[:] = []
            else:
                dirs[:] = [d for d in dirs if d in ("debug", "release", ".fingerprint") or "-" in d and "linux" in d]
    os.makedirs(target, exist_ok=True)
    with open(stamp, "w") as f:
        f.write(now)


def _cargo(args, target, cwd, what, extra_env=None):
    _forget(target)
    env = _env(target)
    env.update(extra_env or {})
    r = subprocess.run(["cargo"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write(r.stdout.decode("utf-8", "replace")[-6000:])
        raise BuildError("building %s failed" % what)


def stuart(js=True):
    """The real command line tool, built from /repo's working tree. `js`: with all features."""
    with _lock():
        target = os.path.join(BUILD, "target-js" if js else "target-nojs")
        args = ["build", "-p", "stuart", "--locked", "--offline"] + (["--all-features"] if js else [])
        _cargo(args, target, REPO, "stuart")
        return os.path.join(target, "debug", "stuart")


def _crate(name):
    """Copies a crate of /verif/native next to the build, with /repo's lock file so that it resolves offline."""
    src = os.path.join(VERIF, "native", name)
    dst = os.path.join(BUILD, "crates", name)
    os.makedirs(dst, exist_ok=True)
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        os.makedirs(os.path.join(dst, rel), exist_ok=True)
        for f in files:
            data = open(os.path.join(root, f), "rb").read().replace(b"@REPO@", REPO.encode())
            p = os.path.join(dst, rel, f)
            if not os.path.exists(p) or open(p, "rb").read() != data:
                open(p, "wb").write(data)
    lock = os.path.join(dst, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    return dst


def crate(name, artifact):
    """Builds /verif/native/<name>, which depends on /repo's stuart-core by path."""
    with _lock():
        src = _crate(name)
        target = os.path.join(BUILD, "target-native")
        _cargo(["build", "--offline"], target, src, name)
        return os.path.join(target, "debug", artifact)


def oracle():
    """The markdown oracle: pulldown-cmark alone, from the cargo cache, with no code of /repo's."""
    return crate("oracle", "mdoracle")


def probe():
    return crate("probe", "libprobe.so")


def library():
    return crate("library", "probelib")


def shipped(name):
    """One of the plugins of the repository, from a copy whose dependency on stuart-core is absolute; `imgopt` with a stand-in for oxipng."""
    with _lock():
        src, dst = os.path.join(REPO, "plugins", name), os.path.join(BUILD, "crates", "shipped-" + name)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
        p = os.path.join(dst, "Cargo.toml")
        text = open(p).read().replace("../../stuart-core", os.path.join(REPO, "stuart-core"))
        if name == "imgopt":
            text += '\n[patch.crates-io]\noxipng = { path = "%s" }\n' % os.path.join(VERIF, "native", "oxipng")
        open(p, "w").write(text)
        shutil.copy(os.path.join(REPO, "Cargo.lock"), dst)
        target = os.path.join(BUILD, "target-shipped")
        _cargo(["build", "--offline"], target, dst, name)
        return os.path.join(target, "debug", "lib%s.so" % name)


def demo():
    return shipped("demo")


def imgopt():
    return shipped("imgopt")


def cc(name, out, args):
    with _lock():
        src = os.path.join(VERIF, "native", name)
        dst = os.path.join(BUILD, out)
        if not os.path.exists(dst) or os.path.getmtime(dst) < os.path.getmtime(src):
            r = subprocess.run(["gcc", "-O1", "-g", "-Wall", "-o", dst + ".tmp", src] + args,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                sys.stderr.write(r.stdout.decode())
                raise BuildError("building %s failed" % name)
            os.rename(dst + ".tmp", dst)
        return dst


def fsmon():
    return cc("fsmon.c", "fsmon.so", ["-shared", "-fPIC", "-ldl"])


def asan_stuart(js=False):
    """stuart and the native probe plugin, or stuart with all features, built with AddressSanitizer (nightly)."""
    with _lock():
        target = os.path.join(BUILD, "target-asan")
        flags = {"RUSTUP_TOOLCHAIN": "nightly", "RUSTFLAGS": "-Zsanitizer=address -Clink-args=-rdynamic"}
        triple = "x86_64-unknown-linux-gnu"
        _cargo(["build", "-p", "stuart", "--locked", "--offline", "--target", triple] + (["--all-features"] if js else []), target, REPO, "stuart (asan)", flags)
        if js:
            return os.path.join(target, triple, "debug", "stuart")
        src = _crate("probe")
        _cargo(["build", "--offline", "--target", triple], target, src, "probe (asan)", flags)
        d = os.path.join(target, triple, "debug")
        return os.path.join(d, "stuart"), os.path.join(d, "libprobe.so")


if __name__ == "__main__":
    t = time.time()
    have = [n for n, f in (("stuart", ""), ("oracle", "oracle"), ("probe", "probe"), ("library", "library"), ("demo", "oxipng"), ("imgopt", "oxipng"), ("fsmon", "fsmon.c"))
            if os.path.exists(os.path.join(VERIF, "native", f))]
    for name in sys.argv[1:] or have:
        print(name, globals()[name](), "%.1fs" % (time.time() - t), flush=True)
