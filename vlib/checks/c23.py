"""C23: where plugins come from."""
import http.server, shutil, socket, threading

from ..common import *
from .. import build as B, fsm
from . import c11

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: stand-ins for cargo and git and a local HTTP server that record every call, a reference model of the choice of the source, and an instrumented native plugin that logs its loading"
RULE = ("random lists of dependencies, each with one to four sources of every kind (JavaScript and native files, Cargo projects, Git repositories of many layouts, downloads with redirects and error codes, libraries of other platforms, missing and broken ones), in projects that are built several times while tools fail or are missing, the server is away, and repositories move on; "
        "an observation is a build in which exactly the sources that a reference model of the choice names were touched (calls of git and cargo, HTTP requests, loaded libraries), whose pages show the plugin of the chosen source, or which fails with an error, runs no script and leaves the previous output alone; distinct by kinds, outcomes and the state before")
ASSUMPTIONS = ["git is the real one for local repositories; cargo is replaced by a program that puts a library where the real one would", "the default port of http (the HTTP library supports no other: a known finding) is redirected to the server of the check by LD_PRELOAD", "a dependency has at most one Git source, whose URL does not change"]
NPROC = 10


def prepare(scratch):
    env = fsm.prepare(scratch)
    so = B.probe()
    env["probe"] = install(scratch, so, "probe.so")
    return env


GIT = '''#!/bin/sh
{ printf 'git'; for a; do printf '\\t%s' "$a"; done; printf '\\n'; } >> "$TOOLS/log"
for f in "$TOOLS"/fail/*; do
    [ -e "$f" ] || continue
    p=$(cat "$f"); k="$* "
    case "$k" in *"$p"*) echo "git has been told to fail" >&2; exit 128;; esac
done
for a; do case "$a" in http:*|https:*|ssh:*|git:*|ftp:*) exit 128;; esac; done
exec /usr/bin/git "$@"
'''
CARGO = '''#!/bin/sh
{ printf 'cargo'; for a; do printf '\\t%s' "$a"; done; printf '\\n'; } >> "$TOOLS/log"
m=
while [ $# -gt 0 ]; do
    case "$1" in --manifest-path) m="$2"; shift;; --manifest-path=*) m="${1#*=}";; esac
    shift
done
[ -n "$m" ] || m=Cargo.toml
d=$(dirname "$m")
read -r what arg < "$d/verif-cargo" || exit 101
case "$what" in
    fail) echo "some output"; echo "error[E0001]: does not compile" >&2; exit "$arg";;
    nolib) exit 0;;
    ok) mkdir -p "$d/target/release" && cp "$PROBE_SO" "$d/target/release/$arg" && cp "$d/verif-cfg" "$d/target/release/$arg.cfg";;
esac
'''


class Server:
    """Answers downloads and records them."""

    def __init__(self):
        self.log, self.pages = [], {}
        outer = self

        class H(http.server.BaseHTTPRequestHandler):
            protocol_version = "HTTP/1.1"

            def do_GET(self):
                outer.log.append(self.path)
                status, body, headers = outer.pages.get(self.path, (404, b"not here", {}))
                self.send_response(status)
                for k, v in headers.items():
                    self.send_header(k, v)
                self.send_header("Content-Length", str(len(body)))
                self.send_header("Connection", "close")
                self.end_headers()
                self.wfile.write(body)
                self.close_connection = True

            def log_message(self, *a):
                pass

        self.s = http.server.ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.s.daemon_threads = True
        self.port = self.s.server_address[1]
        threading.Thread(target=self.s.serve_forever, kwargs={"poll_interval": 0.02}, daemon=True).start()

    def close(self):
        self.s.shutdown()
        self.s.server_close()


def closed_port():
    """A port that refuses connections. (It stays occupied, so that nobody else listens on it.)"""
    global CLOSED
    if CLOSED is None:
        CLOSED = socket.socket()
        CLOSED.bind(("127.0.0.1", 0))
    return CLOSED.getsockname()[1]


CLOSED = None


def js(name):
    return 'export default { name: "%s", version: "1", functions: [ { name: "who", fn: () => "js %s" } ] }\n' % (name, name)


BROKEN_JS = ["export default {", "throw new Error('x')\n", "export const x = 1\n", "", "export default 5\n", "export default { name: 5 }\n", "\x00\x01", "<!DOCTYPE html><title>404</title>"]
BROKEN_SO = [b"", b"not a library", b"\x7fELF", b"\x7fELF" + b"\0" * 60, b"#!/bin/sh\n", b"!<arch>\n"]

DEPS = ["alpha", "beta", "my-plugin", "p_2", "image-opt-2", "x", "Zeta", "a1"]


def cfg(name):
    return "name\t%s\nfn\twho\techo\n" % name


class Src:
    """A source: `text` is what is in the manifest, `plug` the name of the plugin it gives."""

    def __init__(self, id, kind, text, works, plug=None, **more):
        self.id, self.kind, self.text, self.works, self.plug = id, kind, text, works, plug or id
        self.__dict__.update(more)

    def __repr__(self):
        return "%s:%s%s" % (self.id, self.kind, "" if self.works else "!")


class World:
    def __init__(self, ctx, proj, server):
        self.ctx, self.r, self.proj, self.server = ctx, ctx.rng, proj, server
        self.n = 0
        self.tools = ctx.path("tools")
        write_tree(self.tools, {"bin/git": GIT, "bin/cargo": CARGO, "fail/.keep": "", "cfgs/.keep": ""})
        os.chmod(os.path.join(self.tools, "bin/git"), 0o755)
        os.chmod(os.path.join(self.tools, "bin/cargo"), 0o755)
        self.state = {}

    def place(self, name):
        """(absolute path, how the manifest writes it) of a new file or directory."""
        r = self.r
        d = r.choice(["", "vendor/", "../lib/", "my plugins/", "ü/", "a/../", "for.dll.js.so/"])
        if d == "a/../":
            os.makedirs(os.path.join(self.proj, "a"), exist_ok=True)
        full = os.path.normpath(os.path.join(self.proj, d + name))
        os.makedirs(os.path.dirname(full), exist_ok=True)
        return full, r.choice([d + name, d + name, "./" + d + name, full])

    def cargo_files(self, id, pkg, outcome):
        """The files of a Cargo project, and whether it gives a library."""
        r = self.r
        lib = "lib%s.so" % pkg.replace("-", "_")
        toml = r.choice(['[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2021"\n\n[lib]\ncrate-type = ["cdylib"]\n', "# x\n[package]\nversion = '1.0.0'\nname = '%s'\n[lib]\ncrate-type = ['cdylib']\n[dependencies]\nstuart_core = { version = \"*\", default-features = false }\n", '[workspace]\n\n[package]\nname = "%s"\nversion = "0.1.0"\n']) % pkg
        if r.random() < 0.2 and "[lib]" in toml:
            toml = toml.replace("[lib]\n", '[lib]\nname = "other_%s"\n' % id)
            lib = "libother_%s.so" % id
        files = {"Cargo.toml": toml, "src/lib.rs": "// %s\n" % id, "verif-cfg": cfg(id), "verif-cargo": "ok %s\n" % lib}
        if outcome == "fail":
            files["verif-cargo"] = "fail %d\n" % r.choice([1, 101, 2])
        elif outcome == "nolib":
            files["verif-cargo"] = "nolib x\n"
        elif outcome == "noname":
            files["Cargo.toml"] = r.choice(['[workspace]\nmembers = ["x"]\n', "", "[package]\nversion = \"1\"\n", "[package]\nname = 5\n", "name = \"x\"\n"])
        elif outcome == "badlib":
            files["verif-cargo"] = "nolib x\n"
            files["target/release/" + lib] = r.choice(BROKEN_SO)
        return files, lib

    def source(self, dep, kinds):
        r = self.r
        self.n += 1
        id = "s%d" % self.n
        k = r.choice(kinds)
        if k == "js":
            ok = r.random() < 0.6
            full, text = self.place(id + r.choice([".js", ".mjs", ".js", ".mjs", ".so.js", ".dll.mjs"]))
            open(full, "w").write(js(id) if ok else r.choice(BROKEN_JS))
            return Src(id, k, text, ok, full=full, version=0)
        if k == "so":
            ok = r.random() < 0.6
            full, text = self.place(id + r.choice([".so", ".so", "", ".so.1", ".plugin", ".dll.so", ".js.so", ".js.1"]))
            if ok:
                shutil.copy(self.ctx.probe, full)
                write_tree(os.path.dirname(full), {os.path.basename(full) + ".cfg": cfg(id)})
            elif r.random() < 0.2:
                shutil.copy(self.ctx.fsmon, full)  # A library, but no plugin.
            else:
                open(full, "wb").write(r.choice(BROKEN_SO))
            return Src(id, k, text, ok, lib=os.path.basename(full), full=full, version=0)
        if k == "dll":
            full, text = self.place(id + ".dll")
            if r.random() < 0.5:
                shutil.copy(self.ctx.probe, full)
            return Src(id, k, r.choice([text, "http://127.0.0.1/%s.dll" % id]), False)
        if k == "missing":
            return Src(id, k, r.choice(["missing/%s.so", "%s", "../%s.js", "/nonexistent/%s", "missing %s/"]) % id, False)
        if k == "dir":
            full, text = self.place(id + "dir")
            os.makedirs(full)
            if r.random() < 0.5:
                write_tree(full, {"sub/Cargo.toml": '[package]\nname = "%s"\n' % dep, "lib.so": "x"})
            return Src(id, k, text, False)
        if k == "cargo":
            outcome = r.choice(["ok", "ok", "ok", "fail", "nolib", "noname", "badlib"])
            full, text = self.place(id + "crate")
            pkg = r.choice([dep, "pkg-" + id, "pkg_" + id, "a-b-c-" + id])
            files, lib = self.cargo_files(id, pkg, outcome)
            write_tree(full, files)
            return Src(id, k, text + r.choice(["", "/"]), outcome == "ok", lib=lib, outcome=outcome, key=full, version=0)
        if k == "git":
            outcome = r.choice(["ok", "ok", "ok", "ok", "fail", "nolib", "none"])
            where = r.choice(["", "", "plugins/%s/" % dep, "a/b/c/", "crates/x y/", "ws/%s/" % dep, "ws/a/b/c/d/e/"])
            repo = self.ctx.path("repos", id + r.choice(["", ".git"]))
            src = Src(id, k, None, outcome == "ok", where=where, repo=repo, dep=dep, outcome=outcome, version=0)
            files, lib = self.cargo_files(id, dep if outcome != "none" else "another", outcome)
            src.lib = lib
            tree = {where + p: v for p, v in files.items()}
            tree["README.md"] = "x"
            for d in r.sample(["zz/", "plugins/aaa/", "0/1/", "Z/"], r.randint(0, 3)):
                tree[d + "Cargo.toml"] = r.choice(['[package]\nname = "decoy"\n', "not toml", '[workspace]\n', '[package]\nname = "%s2"\n' % dep, '[lib]\nname = "%s"\n' % dep])
            # Other projects around it.
            around = [where[:i] for i, c in enumerate(where[:-1]) if i == 0 or where[i - 1] == "/"]
            for d in around if r.random() < 0.5 else []:
                if r.random() < 0.6:
                    tree[d + "Cargo.toml"] = r.choice(['[workspace]\nmembers = ["%s"]\n' % where[len(d):].rstrip("/"), '[package]\nname = "around"\nversion = "1.0.0"\n\n[workspace]\nmembers = ["*"]\n', '[package]\nname = "around"\n'])
            write_tree(repo, tree)
            self.git(repo, "init", "-q", "-b", "main")
            self.git(repo, "add", "-A", "-f")
            self.git(repo, "commit", "-q", "-m", "one")
            # (A path with a Cargo.toml is a Cargo project, not a repository.)
            src.text = "file://" + repo if "Cargo.toml" in tree or r.random() < 0.5 else repo
            src.key = repo
            return src
        if k == "http":
            what = r.choice(["ok", "ok", "ok", "broken", "404", "500", "redirect", "redirect", "redirect-404", "query"])
            native = r.random() < 0.5
            ext = ".so" if native else r.choice([".js", ".mjs"])
            body = open(self.ctx.probe, "rb").read() if native else js(id).encode()
            path = "/%s%s%s" % (r.choice(["", "dl/", "a/b/", "x.dll/"]), id, ext)
            url = "http://%s%s" % (r.choice(["127.0.0.1", "127.0.0.1", "localhost"]), path)
            P = self.server.pages
            tried = [path]
            ok = True
            if what in ("broken", "404", "500"):
                bad = r.choice(BROKEN_SO) if native else r.choice(BROKEN_JS).encode()
                P[path] = ({"broken": 200, "404": 404, "500": 500}[what], bad, {})
                ok = False
            elif what.startswith("redirect"):
                there = "/moved/%s-real" % id
                loc = r.choice([there, "http://127.0.0.1" + there])
                P[path] = (r.choice([301, 302, 307]), b"moved", {"Location": loc})
                tried.append(there)
                if what == "redirect":
                    P[there] = (200, body, {})
                else:
                    ok = False
            elif what == "query" and native:
                url += "?v=1&x=y"
                path += "?v=1&x=y"
                P[path] = (200, body, {})
                tried = [path]
            else:
                P[path] = (200, body, {})
            lib = url.rsplit("/", 1)[-1]
            if native:
                write_tree(self.tools, {"cfgs/%s.cfg" % lib: cfg(id)})
            return Src(id, k, url, ok, lib=lib if native else None, native=native, key=url, paths=tried, version=0)
        raise AssertionError(k)

    def git(self, repo, *args):
        e = dict(self.ctx.base_env(), GIT_CONFIG_NOSYSTEM="1", GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
        return subprocess.run(["/usr/bin/git", "-C", repo] + list(args), env=e, check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode()

    def advance(self, src):
        """A new commit with another version of the plugin."""
        src.version += 1
        write_tree(src.repo, {src.where + "verif-cfg": cfg("%sv%d" % (src.id, src.version))})
        self.git(src.repo, "commit", "-q", "-a", "-m", "v%d" % src.version)

    def change(self, s):
        """Another version of a source that is not a repository, or one that works no longer or again."""
        r = self.r
        s.version += 1
        works = r.random() < 0.7
        name = self.name(s)
        if s.kind == "js":
            open(s.full, "w").write(js(name) if works else r.choice(BROKEN_JS))
        elif s.kind == "so":
            os.unlink(s.full)  # (Not written in place: nothing else may be using it, but it is how files are replaced.)
            if works:
                shutil.copy(self.ctx.probe, s.full)
                write_tree(os.path.dirname(s.full), {os.path.basename(s.full) + ".cfg": cfg(name)})
            else:
                open(s.full, "wb").write(r.choice(BROKEN_SO))
        elif s.kind == "cargo":
            if s.outcome not in ("ok", "fail"):
                s.version -= 1
                return
            s.outcome = "ok" if works else "fail"
            write_tree(s.key, {"verif-cfg": cfg(name), "verif-cargo": "ok %s\n" % s.lib if works else "fail 101\n"})
        elif s.kind == "http":
            if works:
                self.server.pages[s.paths[-1]] = (200, open(self.ctx.probe, "rb").read() if s.native else js(name).encode(), {})
                if s.native:
                    write_tree(self.tools, {"cfgs/%s.cfg" % s.lib: cfg(name)})
            else:
                self.server.pages[s.paths[-1]] = (r.choice([200, 404, 500]), r.choice(BROKEN_SO) if s.native else r.choice(BROKEN_JS).encode(), {})
        s.works = works
        self.ctx.feature("changed-" + s.kind)

    def name(self, s):
        return s.id + ("v%d" % s.version if s.version else "")

    # -- the model ----------------------------------------------------------------------------------------------------
    def attempt(self, dep, s, f):
        """Tries a source in the model: (works, name of the plugin, calls). `f` is the fault situation of this build."""
        calls = {"git": 0, "cargo": 0, "http": []}
        if s.kind in ("js", "so"):
            return s.works, self.name(s), calls
        if s.kind == "dll":
            return False, None, None
        if s.kind == "cargo":
            calls["cargo"] = 1
            return s.works and f["cargo"], self.name(s), calls
        calls["git"] = 1 if f["git"] else 0
        if s.kind in ("missing", "dir"):
            return False, None, calls
        if s.kind == "git":
            if not f["git"] or "ls" in f.get(s.id, ()):
                return False, None, calls
            calls["git"] = 2
            if self.state.get(dep) == "clone":
                if "pull" in f.get(s.id, ()):
                    return False, None, calls
                s.have = s.version
            else:
                if "clone" in f.get(s.id, ()) or self.state.get(dep) == "downloads":
                    return False, None, calls
                self.state[dep] = "clone"
                s.have = s.version
            if s.outcome == "none":
                return False, None, calls
            calls["cargo"] = 1
            return s.works and f["cargo"], s.id + ("v%d" % s.have if s.have else ""), calls
        if s.kind == "http":
            if f["down"]:
                return False, None, calls
            calls["http"] = s.paths
            if dep not in self.state:
                self.state[dep] = "downloads"
            return s.works, self.name(s), calls
        raise AssertionError(s.kind)


def setup(ctx, w):
    r = ctx.rng
    deps = {}
    for dep in r.sample(DEPS, r.choice([1, 1, 2, 2, 3])):
        kinds = ["js", "js", "so", "so", "dll", "missing", "dir", "cargo", "cargo", "git", "git", "http", "http"]
        srcs = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            s = w.source(dep, [k for k in kinds if k != "git" or not any(x.kind == "git" for x in srcs)])
            srcs.append(s)
        deps[dep] = srcs
    return deps


def pages_of(names):
    return {"content/%d.html" % i: '{{ begin("b") }}<{{ %s::who() }}>{{ end("b") }}' % n for i, n in enumerate(names)}


def toml_key(s):
    return '"%s"' % s


def sc_sources(ctx):
    r = ctx.rng
    proj = ctx.path("home", "my proj" if r.random() < 0.2 else "p")
    os.makedirs(proj)
    server = Server()
    try:
        w = World(ctx, proj, server)
        deps = setup(ctx, w)
        enclosing = r.random() < 0.2
        settings = {"strip_extensions": False, "save_metadata": r.random() < 0.3}
        items = list(deps.items())
        r.shuffle(items)
        mani = manifest(**settings) + "\n[dependencies]\n" + "".join("%s = %s\n" % (toml_key(d), toml_key(";".join(s.text for s in ss))) for d, ss in items)
        write_tree(proj, {"stuart.toml": mani, "content/root.html": '{{ insert("b") }}', "static/s.txt": "static", "scripts/onPreBuild": 'echo ran >> "$TOOLS/scripts"\n'})
        if enclosing:
            up = ctx.path("up")
            os.makedirs(up)
            w.git(up, "init", "-q", "-b", "main")
            w.git(up, "commit", "-q", "--allow-empty", "-m", "one")
            w.git(proj, "clone", "-q", up, ctx.path("clone"))
            os.rename(ctx.path("clone", ".git"), os.path.join(proj, ".git"))
            open(os.path.join(up, "new.txt"), "w").write("x")
            w.git(up, "add", "-A")
            w.git(up, "commit", "-q", "-m", "two")
            head = w.git(proj, "rev-parse", "HEAD")
        history = []
        for step in range(r.choice([1, 2, 2, 3, 4])):
            f = {"git": r.random() > 0.06, "cargo": r.random() > 0.06, "down": r.random() < 0.1}
            for n in os.listdir(os.path.join(w.tools, "fail")):
                os.unlink(os.path.join(w.tools, "fail", n))
            for dep, ss in deps.items():
                for s in ss:
                    if s.kind in ("js", "so", "cargo", "http") and step and r.random() < 0.35:
                        w.change(s)
                    if s.kind == "git":
                        if step and r.random() < 0.4:
                            w.advance(s)
                        bad = [v for v in ("ls", "clone", "pull") if r.random() < 0.15]
                        f[s.id] = bad
                        for v in bad:
                            pat = {"ls": "ls-remote " + s.text, "clone": "clone " + s.text, "pull": "plugins/%s pull" % dep}[v] + " "
                            write_tree(w.tools, {"fail/%s-%s" % (s.id, v): pat})
            # What must happen.
            want = {"git": {}, "cargo": {}, "http": [], "libs": []}
            names, failed, natives = [], None, True
            for dep in sorted(deps, key=lambda d: d.encode()):
                chosen = None
                for s in deps[dep]:
                    ok, name, calls = w.attempt(dep, s, f)
                    ctx.feature("tried-" + s.kind)
                    if calls is None:
                        continue
                    s.tried = True
                    if calls["git"]:
                        want["git"][s.id] = calls["git"]
                    if calls["cargo"]:
                        want["cargo"][s.id] = 1
                    want["http"] += calls["http"]
                    if ok:
                        chosen = s
                        names.append(name)
                        if s.kind in ("so", "cargo", "git") or (s.kind == "http" and s.native):
                            want["libs"].append(s.lib)
                        ctx.feature("chosen-" + s.kind)
                        break
                if chosen is None:
                    failed = dep
                    break
            # Let it happen.
            for n in os.listdir(os.path.join(proj, "content")):
                if n != "root.html":
                    os.unlink(os.path.join(proj, "content", n))
            write_tree(proj, pages_of(names) or {"content/0.html": '{{ begin("b") }}x{{ end("b") }}'})
            for n in ("log", "scripts", "probe"):
                if os.path.exists(os.path.join(w.tools, n)):
                    os.unlink(os.path.join(w.tools, n))
            server.log.clear()
            bins = [os.path.join(w.tools, "bin")]
            if not (f["git"] and f["cargo"]):
                d = os.path.join(w.tools, "bin%d" % step)
                os.makedirs(d)
                for n in ("git", "cargo"):
                    if f[n]:
                        os.symlink(os.path.join(w.tools, "bin", n), os.path.join(d, n))
                for n in ("sh", "cat", "cp", "mkdir", "dirname"):
                    os.symlink("/bin/" + n if os.path.exists("/bin/" + n) else "/usr/bin/" + n, os.path.join(d, n))
                bins = [d]
            env = ctx.base_env()
            env.update(PATH=":".join(bins + (["/usr/bin:/bin"] if len(os.listdir(bins[0])) == 2 and f["git"] and f["cargo"] else [])), TOOLS=w.tools, PROBE_SO=ctx.probe, PROBE_CFG=os.path.join(w.tools, "cfgs"), PROBE_LOG=os.path.join(w.tools, "probe"), GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0",
                       GIT_AUTHOR_NAME="a", GIT_AUTHOR_EMAIL="a@b", GIT_COMMITTER_NAME="a", GIT_COMMITTER_EMAIL="a@b")
            env.update(fsm.env_for(ctx, connect=server.port if not f["down"] else closed_port()))
            cwd, args = proj, []
            if r.random() < 0.3:
                cwd = ctx.path("elsewhere")
                os.makedirs(cwd, exist_ok=True)
                args = ["--manifest-path", r.choice([os.path.join(proj, "stuart.toml"), os.path.relpath(os.path.join(proj, "stuart.toml"), cwd)])]
            before = (read_tree(os.path.join(proj, "dist")) if os.path.isdir(os.path.join(proj, "dist")) else None, c11.meta_of(proj))
            kept = {p: v for p, v in read_tree(proj).items() if p.split("/")[0] in ("content", "static", "scripts", "stuart.toml")}
            res = ctx.run(["build"] + args, cwd=cwd, env=env, wall=90)
            what = "build %d of %s with %s (before: %s)" % (step, {d: ss for d, ss in deps.items()}, f, history)
            if res.timeout:
                raise Inconclusive("the wall clock watchdog fired")
            c = res.crashed()
            ctx.require(c is None, "crash", lambda: "%s: the program crashed: %s" % (what, c))
            after = (read_tree(os.path.join(proj, "dist")) if os.path.isdir(os.path.join(proj, "dist")) else None, c11.meta_of(proj))
            # What has happened.
            tools = [l.split("\t") for l in open(os.path.join(w.tools, "log"), encoding="utf-8", errors="replace").read().split("\n")[:-1]] if os.path.exists(os.path.join(w.tools, "log")) else []
            check_calls(ctx, w, deps, tools, want, failed, what, server, proj, res, f["cargo"])
            probe = [l.split("\t") for l in open(os.path.join(w.tools, "probe")).read().split("\n")[:-1]] if os.path.exists(os.path.join(w.tools, "probe")) else []
            inits = sorted(l[0] for l in probe if l[1] == "init")
            ctx.require(inits == sorted(want["libs"]), "loaded", lambda: "%s: the libraries %s were loaded instead of %s\n%s" % (what, inits, sorted(want["libs"]), res.text()[:900]))
            scripts = os.path.exists(os.path.join(w.tools, "scripts"))
            if failed is None:
                ctx.require(res.rc == 0, "fails", lambda: "%s: the build fails: %s" % (what, res.text()[:1200]))
                for i, n in enumerate(names):
                    got = open(os.path.join(proj, "dist", "%d.html" % i), "rb").read()
                    ctx.require(b"who" in got or got == b"<js %s>" % n.encode(), "page", lambda: "%s: the page of %s is %r" % (what, n, got))
                ctx.require(scripts, "script", lambda: "%s: the script has not run" % what)
                m = re.search(r"Loaded (\d+) plugin", res.text())
                ctx.require(m is None or int(m.group(1)) == len(deps), "number", lambda: "%s: %s plugins were loaded" % (what, m and m.group(1)))
            else:
                ctx.require(res.rc == 1 and "error:" in res.errtext(), "succeeds", lambda: "%s: the build does not fail (code %d), although there is no plugin %s: %s" % (what, res.rc, failed, res.text()[:900]))
                ctx.require(not scripts, "script", lambda: "%s: the script has run although %s does not load" % (what, failed))
                ctx.require(before == after, "output", lambda: "%s: the output has changed although %s does not load: %s" % (what, failed, diff_trees(before[0] or {}, after[0] or {})))
            now = {p: v for p, v in read_tree(proj).items() if p.split("/")[0] in ("content", "static", "scripts", "stuart.toml")}
            d = diff_trees(kept, now)
            ctx.require(d is None, "inputs", lambda: "%s: the inputs have changed: %s" % (what, d))
            if enclosing:
                ctx.require(w.git(proj, "rev-parse", "HEAD") == head, "enclosing", lambda: "%s: the project's own repository was changed" % what)
                ctx.feature("in-a-repository")
            history.append((f, dict(w.state)))
            ctx.observed(1, (sorted((d, [(s.kind, s.works, getattr(s, "outcome", None)) for s in ss]) for d, ss in deps.items()), sorted((k, str(v)) for k, v in f.items()), step, failed), **{"failed" if failed else "built": 1})
        ctx.sample = {"dependencies": {d: [repr(s) for s in ss] for d, ss in deps.items()}, "manifest": mani, "builds": len(history)}
    finally:
        server.close()


def check_calls(ctx, w, deps, tools, want, failed, what, server, proj, res, has_cargo):
    """The calls of git and cargo and the requests, compared with the model."""
    order = sorted(deps, key=lambda d: d.encode())
    open_deps = order[order.index(failed) + 1:] if failed else []  # Whether the rest is tried is left open.
    srcs = {s.id: (d, s) for d, ss in deps.items() for s in ss}
    git, cargo = {}, {}
    for t in tools:
        ctx.feature("calls-of-" + t[0])
        line = " ".join(t)
        hit = None
        for id, (d, s) in srcs.items():
            if t[0] == "git" and (s.text in t or os.path.join(proj, "_build/plugins", d) in line and s.kind == "git"):
                hit = s
            if t[0] == "cargo":
                m = [os.path.normpath(os.path.dirname(a)) for a in t if a.endswith("Cargo.toml")]
                if s.kind == "cargo" and s.key in m:
                    hit = s
                if s.kind == "git" and any(a.startswith(os.path.join(os.path.realpath(proj), "_build/plugins", d)) and os.path.normpath(os.path.join(os.path.realpath(proj), "_build/plugins", d, s.where)) == a for a in m):
                    hit = s
        if hit is None:
            raise Violation("call", "%s: an unexpected call: %s" % (what, t))
        x = git if t[0] == "git" else cargo
        x[hit.id] = x.get(hit.id, 0) + 1
    for id, (d, s) in srcs.items():
        if d in open_deps:
            continue
        ctx.require((id in git) == (id in want["git"]), "git-calls", lambda: "%s: git was%s called for %s: %s" % (what, "" if id in git else " not", s, tools))
        if s.kind == "git" and id in git:
            ctx.require(git[id] >= want["git"][id] and (want["git"][id] > 1 or git[id] == 1), "git-calls", lambda: "%s: %d calls of git for %s instead of %d: %s" % (what, git[id], s, want["git"][id], tools))
        # (Without the program there is nothing to count.)
        if has_cargo:
            ctx.require(cargo.get(id, 0) == want["cargo"].get(id, 0), "cargo-calls", lambda: "%s: %d calls of cargo for %s instead of %d: %s" % (what, cargo.get(id, 0), s, want["cargo"].get(id, 0), tools))
    mine = {p for d in open_deps for s in deps[d] if s.kind == "http" for p in s.paths}
    got = [p for p in server.log if p not in mine]
    ctx.require(got == want["http"], "requests", lambda: "%s: the requests %s instead of %s\n%s" % (what, got, want["http"], res.text()[:600]))
    ctx.feature("requests", len(server.log))


SOURCES = ["", ";", ";;;", " ", "http://", "https://", "http:///x.so", "http://[", "http://[::1]/x.js", "http://127.0.0.1:99999/x", "http://127.0.0.1:x/y.so", "https://127.0.0.1/x.so", "file://", "file:///", "file:///nonexistent", "ftp://127.0.0.1/x", "ssh://127.0.0.1/x", "git@127.0.0.1:x", "-x", "--help", "--upload-pack=false", ".", "..", "/", "/dev/null", "/dev/zero/x", "content", "content/", "stuart.toml", "content/root.html", "x\\y", "C:\\x.dll", "a b", "é", "日本.so", "%s%n", "\x01", "x.so?y", "http://127.0.0.1/", "http://127.0.0.1", "http://127.0.0.1/?", "http://127.0.0.1/a/../b", "http://127.0.0.1/%00.js", "http://127.0.0.1/é.js", "http://user:pw@127.0.0.1/x.so", "HTTP://127.0.0.1/x", "http://127.0.0.1 /x", "http://" + "a" * 300 + "/x", "http://127.0.0.1/" + "a" * 300 + ".so", "x" * 5000, "a/" * 500, "https://127.0.0.1:1/x", "http://0/x", "http://127.1/x.js", "http://\u00fc/x", "...", "~", "$HOME", "*.so", "x.js", ".js", ".mjs", ".so", ".dll", "a.DLL", "_build", "_build/plugins"]


def sc_hostile(ctx):
    """Sources that make no sense: an error, never a crash."""
    r = ctx.rng
    proj = ctx.path("home", "p")
    os.makedirs(proj)
    server = Server()
    try:
        w = World(ctx, proj, server)
        write_tree(proj, {"content/root.html": "x", "static/s.txt": "x", "dist/old.txt": "old"})
        for b in range(6):
            names = r.sample(["a", "b b", "é", "..", "../../x", "/abs", "", "c/d", "-x", ".", "x" * 300, "a\\b"], r.randint(1, 2))
            deps = {}
            for n in names:
                ss = [r.choice(SOURCES) if r.random() < 0.8 else "".join(chr(r.choice([r.randrange(1, 0x7f), r.randrange(0xa0, 0xd800)])) for _ in range(r.randint(1, 15))) for _ in range(r.randint(1, 3))]
                deps[n] = ";".join(ss)
            text = manifest() + "[dependencies]\n" + "".join("%s = %s\n" % (json_str(k), json_str(v)) for k, v in deps.items())
            write_tree(proj, {"stuart.toml": text})
            env = ctx.base_env()
            env.update(PATH=os.path.join(w.tools, "bin") + ":/usr/bin:/bin", TOOLS=w.tools, PROBE_SO=ctx.probe, GIT_CONFIG_NOSYSTEM="1", GIT_TERMINAL_PROMPT="0")
            env.update(fsm.env_for(ctx, connect=server.port if r.random() < 0.7 else closed_port()))
            kept = {p: v for p, v in read_tree(ctx.path("home")).items() if not p.startswith("p/_build")}
            res = ctx.run(["-q", "build"], cwd=proj, env=env, wall=90)
            if res.timeout:
                raise Inconclusive("the wall clock watchdog fired")
            c = res.crashed()
            ctx.require(c is None, "crash", lambda: "the program crashes with the dependencies %r: %s" % (deps, c))
            ctx.require(res.rc == 1 and "error:" in res.errtext(), "hostile-accepted", lambda: "the dependencies %r are accepted: %s" % (deps, res.text()[:500]))
            now = {p: v for p, v in read_tree(ctx.path("home")).items() if not p.startswith("p/_build") and not (p.startswith("x") or p.startswith("p/x"))}
            d = diff_trees({p: v for p, v in kept.items() if not p.startswith("x") and not p.startswith("p/x")}, now)
            ctx.require(d is None, "hostile-changed", lambda: "something has changed with the dependencies %r: %s" % (deps, d))
            ctx.observed(1, sorted(deps.items()), hostile=1)
    finally:
        server.close()


def json_str(s):
    return '"' + "".join({"\\": "\\\\", '"': '\\"', "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c) or (c if c >= " " and c != "\x7f" else "\\u%04x" % ord(c)) for c in s) + '"'


def sc_port(ctx):
    """A URL with a port."""
    proj = ctx.path("p")
    server = Server()
    try:
        server.pages["/x.mjs"] = (200, js("x").encode(), {})
        write_tree(proj, {"stuart.toml": manifest() + '[dependencies]\nx = "http://127.0.0.1:%d/x.mjs"\n' % server.port, "content/root.html": '{{ insert("b") }}', "content/index.html": '{{ begin("b") }}{{ x::who() }}{{ end("b") }}'})
        res = ctx.run(["-q", "build"], cwd=proj, env=dict(ctx.base_env(), PATH="/nonexistent"))
        ctx.no_crash(res)
        ctx.observed(1, "port")
        ctx.require(res.rc == 0, "url-with-port", lambda: "a plugin is not downloaded from http://127.0.0.1:PORT/x.mjs: %s" % res.errtext()[:300])
    finally:
        server.close()


SCENARIOS = [Scenario("sources", sc_sources, 1200, 16000), Scenario("hostile", sc_hostile, 150, 2000), Scenario("port", sc_port, 1, 1)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 2, 3.2
