"""C20: what the development server serves."""
import shutil, socket, subprocess, threading, traceback, urllib.parse

from ..common import *
from .. import dev as D, fsm, sites as S
from . import c09

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: responses of the real server compared byte for byte with the files on disk under valid, hostile and malformed requests; canaries outside of the output directory"
RULE = ("random sites with every kind of file and name, built and served by the real server under random options, requested by concurrent clients under many spellings of each path (percent-encoded, doubled slashes, queries, kept connections), and malformed and hostile requests by the thousand, among them every form of path traversal towards marked files outside of the output directory; "
        "an observation is a response whose status, headers and body are what the output directory on disk demands, or a malformed request after which the server still answers and none of the marked bytes have appeared; distinct by file contents and request")
ASSUMPTIONS = ["paths that contain `..` or `:` are refused by the HTTP library, also if they are the names of files", "fewer than eight connections hold an unfinished request at once (the library has that many threads)", "requests are not pipelined", "the server listens on another port than 6904, by means of LD_PRELOAD"]
NPROC = 12

prepare = fsm.prepare

BODIES = [b"<html><body>x</body></html>", b"</body>", b"<body>no end", b"x</body>y</body>z", b"<!-- </body> --><body>\xff\x00</body>\n", b"", b"</bod</body></body", b"</BODY>", b"</body", b"<html>" + b"a" * 70000 + b"</body></html>", "<body>é日</body>".encode(), b"<script></script></body>", b"x" * 8191 + b"</body>", b"</body >", b"\r\n</body>\r\n", bytes(range(256)) + b"</body>" + bytes(range(256)), b"<body><pre>&lt;/body></pre></body>"]
NAMES = ["a.txt", "style.css", "app.js", "pic.png", "x.svg", "feed.xml", "data.json", "noext", "a b.txt", "é.txt", "日本.html", "100%.txt", "a?b.txt", "a#b.txt", "a&b=c.html", "plus+.txt", "%41.txt", "%2e.txt", "~tilde", "page.htm", "old.htm", "x.xhtml", "html", "body.js", "body.css", "x.html.txt", ".hidden", ".well-known", "a'b\".html", "[x].html", "a\\b.txt", "sp  ace.html", "*.html", "dot.", "x.tar.gz", "UPPER.TXT", "\u00a0.txt", "new\nline.txt", "tab\t.html", "index.txt", "index", "__ws", "main.js", "a=b;c.html", "e\u0301.html", "|.txt", "<x>.html", "404.html", "wasm.wasm", "v.mp4"]
DIRS = ["", "", "blog", "blog/2022", "a b", "ü", "noindex", "deep/er/est", "x.html", "%20", "assets", "__ws2", "q?", "#h"]
LISTED = ["listed", "listed/in", ".well-known", ".git/hooks", "node_modules/x", "dist", "a.d"]
NEARLY = ["index.htm", "index.php", "index.xhtml", "index", "Index.html", "INDEX.HTML", "index.html.bak", "index.txt", "index.md", "default.html", "home.html", "index.htm.html", "_index.html", "main.html", "README.md", ".index.html", "index.js", "index.json", "index.svg", "a.txt"]
TYPES = {"html": "text/html", "htm": "text/html", "css": "text/css", "js": "text/javascript", "png": "image/png", "json": "application/json", "svg": "image/svg+xml", "mp4": "video/mp4"}


def is_html(name):
    return name.rsplit("/", 1)[-1].rpartition(".")[2] in ("html", "htm") and "." in name.rsplit("/", 1)[-1].lstrip(".")


def check_body(ctx, name, data, body, what):
    """The file itself, or with the reload script before a `</body>` of an HTML page."""
    if not is_html(name) or b"</body>" not in data:
        ctx.require(body == data, "body", lambda: "%s: %s" % (what, diff_bytes(data, body)))
        ctx.feature("served-unchanged")
        return None
    n = len(body) - len(data)
    ctx.require(n > 0, "no-script", lambda: "%s: no reload script: %s" % (what, diff_bytes(data, body)))
    i = data.find(b"</body>")
    while i >= 0:
        if body[:i] == data[:i] and body[i + n:] == data[i:]:
            script = body[i:i + n]
            ctx.require(script.startswith(b"<script") and script.endswith(b"</script>") and script.count(b"<script") == 1 and b"__ws" in script, "script", lambda: "%s: what is inserted is no reload script: %r" % (what, script[:300]))
            ctx.feature("served-with-script")
            return script
        i = data.find(b"</body>", i + 1)
    raise Violation("injected", "%s: the page is changed otherwise than by a script before its </body>: %s" % (what, diff_bytes(data, body)))


def spell(r, path, style):
    """A spelling of the path (str) as a request target."""
    out = []
    for c in path:
        must = c <= " " or c in '?%"#*\x7f' or (c >= "\x80" and style == "ascii")
        if must or (style == "random" and r.random() < 0.3 and c != "/") or (style == "all" and c != "/"):
            h = b"".join(b"%%%02x" % b for b in c.encode("utf-8"))
            out.append(h if r.random() < 0.5 else h.upper())
        else:
            out.append(c.encode("utf-8"))
    return b"".join(out)


def target(r, path):
    x = r.random()
    t = b"/" + spell(r, path, r.choice(["plain", "ascii", "random", "all"]))
    if x < 0.1:
        t = b"/" + t
    if r.random() < 0.2:
        t += r.choice([b"?", b"?x=1", b"?a=/../..&b=%zz", b"?v=1?2", b"?/"])
    return t


def make_tree(r):
    """(content, static): pages and other files with hostile names."""
    content, static = {"root.html": '{{ insert("body") }}'}, {}
    for i in range(r.randint(1, 5)):
        d = r.choice(DIRS)
        b = r.choice(["<body>%d</body>" % i, "%d </body> é" % i, "text %d" % i, "</body></body>"])
        content[(d + "/" if d else "") + r.choice(["index.html", "index.html", "page%d.html" % i, "about us.html", "é.html", "q?.html"])] = '{{ begin("body") }}%s{{ end("body") }}' % b
    for i in range(r.randint(0, 3)):
        content[r.choice(["", "blog/"]) + "f%d.%s" % (i, r.choice(["txt", "css", "js"]))] = r.choice(BODIES)
    for i in range(r.randint(4, 24)):
        d = r.choice(DIRS)
        n = r.choice(NAMES) if r.random() < 0.7 else "f%d%s" % (i, r.choice([".html", ".htm", ".css", "", ".js", ".x.html", ".bin"]))
        static[(d + "/" if d else "") + n] = r.choice(BODIES) if r.random() < 0.8 else bytes(r.getrandbits(8) for _ in range(r.choice([1, 100, 5000])))
    if r.random() < 0.2:
        n = r.choice([(1 << 16) + 1, (1 << 17) + 5, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 21) + 7, (1 << 22) + 3, (1 << 23) + 1, (1 << 24) + 9])
        static[r.choice(["large.html", "large.bin", "large"])] = (r.randbytes(4099) * (n // 4099 + 1))[:n - 20] + b"<p>the end</p></body>"
    # Directories without an index, but with files whose names look like one's.
    for d in r.sample(LISTED, r.randint(1, 3)):
        for n in r.sample(NEARLY, r.randint(1, 4)):
            static[d + "/" + n] = r.choice(BODIES)
    return content, static


def setup(ctx, settings=None, more=None):
    r = ctx.rng
    content, static = make_tree(r)
    # Names that are both files and directories do not build.
    tree = {"content/" + p: v for p, v in content.items()}
    paths = set(static) | set(content)
    for p, v in static.items():
        if any(q.startswith(p + "/") or p.startswith(q + "/") for q in paths):
            continue
        tree["static/" + p] = v
    proj = ctx.path("home", "p")
    settings = dict(settings or {}, strip_extensions=r.random() < 0.5)
    write_tree(proj, dict(tree, **{"stuart.toml": "# ZZ-SECRET\n" + manifest(**settings), "secret.txt": "ZZ-SECRET", "../outside.txt": "ZZ-SECRET", "../../outside2.txt": "ZZ-SECRET", "dist2/secret.txt": "ZZ-SECRET", "distsecret.txt": "ZZ-SECRET", "content/md.html": '{{ begin("body") }}ZZ-SECRET{{ end("body") }}'}, **(more or {})))
    return proj


def start(ctx, proj):
    """The server with random options. Returns it and the output directory."""
    r = ctx.rng
    args, cwd, out = [], proj, os.path.join(proj, "dist")
    if r.random() < 0.3:
        o = r.choice(["public", "out/site", "../site out", "/abs", "é", "./public", "dist/"])
        if o == "/abs":
            o = ctx.path("abs out")
        out = os.path.normpath(os.path.join(proj, o))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        args += [r.choice(["-o", "--output"]), o]
    if r.random() < 0.3:
        cwd = ctx.path("elsewhere")
        os.makedirs(cwd)
        args += ["--manifest-path", r.choice([os.path.join(proj, "stuart.toml"), os.path.relpath(os.path.join(proj, "stuart.toml"), cwd)])]
    elif r.random() < 0.2:
        args += ["--manifest-path", "./stuart.toml"]
    srv = D.Dev(ctx, cwd, args)
    if not srv.alive():
        t = srv.text()
        srv.stop()
        raise Violation("not-started", "the server does not start with %s: %s" % (args, t[:600]))
    ctx.feature("servers")
    return srv, out


def alive(ctx, srv, what):
    ctx.require(srv.alive(), "stopped", lambda: "the server has ended after %s: %s" % (what, srv.text()[-600:]))


def change(ctx, proj, out, srv, tree):
    """Changes the site while it is served, by a build or in the output directory itself. Often to files of the same size."""
    r = ctx.rng
    files = sorted(p for p, v in tree.items() if isinstance(v, bytes) and v)
    if not files:
        return False

    def other(data):
        if r.random() < 0.65:
            # The same size.
            i = r.randrange(len(data))
            return data[:i] + bytes([data[i] ^ r.choice([1, 2, 4])]) + data[i + 1:]
        return r.choice([data + b"more", data[:-1], b"", data + data, b"<body>new</body>"])
    if r.random() < 0.5:
        mine = [p for p in files if os.path.isfile(os.path.join(proj, "static", p))]
        if not mine:
            return False
        mark = srv.mark()
        for p in r.sample(mine, min(len(mine), r.randint(1, 4))):
            with open(os.path.join(proj, "static", p), "rb") as f:
                data = f.read()
            with open(os.path.join(proj, "static", p), "wb") as f:
                f.write(other(data))
        if not srv.wait_for(lambda: srv.finished(mark) > 0, 20):
            raise Inconclusive("no build after a change")
        while True:
            n = srv.mark()
            srv.quiet(0.4)
            if srv.mark() == n:
                break
        ctx.feature("rebuilt")
    else:
        for p in r.sample(files, min(len(files), r.randint(1, 6))):
            q = os.path.join(out, p)
            st = os.stat(q)
            if r.random() < 0.1:
                os.unlink(q)
                continue
            with open(q, "wb") as f:
                f.write(other(tree[p]))
            if r.random() < 0.5:
                os.utime(q, ns=(st.st_atime_ns, st.st_mtime_ns))
        if r.random() < 0.3:
            write_tree(out, {"new dir/new file.html": b"<body>new</body>"})
        ctx.feature("output-edited")
    return True


DATES = ["Thu, 01 Jan 1970 00:00:00 GMT", "Sun, 06 Nov 1994 08:49:37 GMT", "Fri, 31 Dec 2100 23:59:59 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "yesterday", ""]


def some_headers(r):
    """Headers as browsers and caches send them. None of them asks for anything but the whole current file."""
    if r.random() < 0.5:
        return ()
    pool = [
        "If-Modified-Since: " + r.choice(DATES), "If-None-Match: " + r.choice(["*", '"abc"', 'W/"abc", "def"', ""]), "If-Unmodified-Since: " + r.choice(DATES), "If-Match: *", "Cache-Control: " + r.choice(["no-cache", "max-age=0", "only-if-cached"]), "Pragma: no-cache",
        "Accept: " + r.choice(["*/*", "text/html", "image/webp,*/*;q=0.8", "application/json", "text/plain;q=0"]), "Accept-Encoding: " + r.choice(["gzip, deflate, br", "identity", "gzip;q=1.0, *;q=0", ""]), "Accept-Language: " + r.choice(["en", "de-DE,de;q=0.9", "*"]),
        "User-Agent: " + r.choice(["curl/8.0", "Mozilla/5.0 (X11; Linux x86_64)", "", "é"]), "Referer: " + r.choice(["http://localhost:6904/", "http://localhost:6904/blog", "https://example.org/x?y=%2e%2e", ""]), "Cookie: " + r.choice(["a=b", "a=b; c=d", "session=; x", ""]), "Origin: http://localhost:6904",
        "X-Forwarded-For: " + r.choice(["10.0.0.1", "::1", "1.2.3.4, 5.6.7.8"]), "X-Original-URL: /nothing", "X-Rewrite-URL: /nothing", "X-HTTP-Method-Override: DELETE", "DNT: 1", "Sec-Fetch-Mode: navigate", "Upgrade-Insecure-Requests: 1", "Purpose: prefetch", "X-Empty:", "Authorization: Basic QTpC", "Content-Type: text/html", "Content-Length: 0",
    ]
    return tuple(r.sample(pool, r.choice([1, 1, 2, 4, 10])))


def sc_files(ctx):
    r = ctx.rng
    proj = setup(ctx)
    srv, out = start(ctx, proj)
    with srv:
        tree = read_tree(out)
        if tree is None:
            if "conflict" in srv.text():
                raise Discard()
            raise Violation("no-output", "the server has not built the site: " + srv.text()[:500])
        files = {p: v for p, v in tree.items() if isinstance(v, bytes)}
        dirs = {p for p, v in tree.items() if v is None}
        problems = []
        lock = threading.Lock()
        scripts = []
        done = []

        def one(rr, kind, get, p=None):
            headers = some_headers(rr)
            plain = get

            def get(t):
                return plain(t, headers=headers)
            if kind == "file":
                p = p or rr.choice(sorted(files))
                if ".." in p or ":" in p:
                    return
                t = target(rr, p)
                what = "GET %s for the file %r" % (t.decode("latin1"), p)
                res = get(t)
                ctx.require(res is not None, "no-response", lambda: "no response to " + what)
                ctx.require(res.status == 200, "status", lambda: "%s gives %d" % (what, res.status))
                s = check_body(ctx, p, files[p], res.body, what)
                if s:
                    scripts.append(s)
                e = p.rsplit("/", 1)[-1].rpartition(".")
                if e[0] and e[2] in TYPES:
                    ctx.require(res.headers.get("content-type", "").split(";")[0].strip() == TYPES[e[2]], "type", lambda: "%s has the type %s" % (what, res.headers.get("content-type")))
            elif kind == "dir":
                p = rr.choice(sorted(dirs | {""})) if p is None else p
                t = target(rr, p + "/" if p else "")
                what = "GET %s for the directory %r" % (t.decode("latin1"), p)
                res = get(t)
                ctx.require(res is not None, "no-response", lambda: "no response to " + what)
                idx = (p + "/" if p else "") + "index.html"
                if idx in files:
                    ctx.require(res.status == 200, "status", lambda: "%s gives %d" % (what, res.status))
                    check_body(ctx, idx, files[idx], res.body, what)
                else:
                    ctx.require(res.status == 404, "status", lambda: "%s without an index.html gives %d" % (what, res.status))
            elif kind == "redirect" and dirs:
                p = p or rr.choice(sorted(dirs))
                t = b"/" + spell(rr, p, rr.choice(["plain", "ascii", "random", "all"]))
                q = rr.choice([b"", b"", b"?x=1"])
                what = "GET %s for the directory %r" % ((t + q).decode("latin1"), p)
                res = get(t + q)
                ctx.require(res is not None, "no-response", lambda: "no response to " + what)
                ctx.require(res.status in (301, 302, 307, 308), "status", lambda: "%s gives %d" % (what, res.status))
                loc = res.headers.get("location", "")
                path = loc.split("?")[0]
                ctx.require(path.startswith("/") and not path.startswith("//") and path.endswith("/") and urllib.parse.unquote(path) == "/" + p + "/", "location", lambda: "%s redirects to %r" % (what, loc))
            else:
                base = rr.choice(sorted(tree))
                p = rr.choice([base + "x", base + "/x", base + "/", "nothing", "nothing/", base[:-1], base.upper(), "dist/" + base, "content/index.html", "index.html/", base + ".html", base + " ", "x/" + base, "stuart.toml", "static/" + base, "temp", "\x00", base + "\x00", "nothing.html", "favicon.ico", "__ws/"])
                q = p.rstrip("/") if p.rstrip("/") in dirs and p.endswith("/") else p
                if p.lstrip("/") in tree or q.lstrip("/") in dirs or not p.strip("/") or ".." in p or "//" in p:
                    return
                t = target(rr, p)
                what = "GET %s, which does not exist," % t.decode("latin1")
                res = get(t)
                ctx.require(res is not None, "no-response", lambda: "no response to " + what)
                ctx.require(res.status == 404, "status", lambda: "%s gives %d" % (what, res.status))
            with lock:
                ctx.observed(1, (kind, t, files.get(p) if kind == "file" else None), **{"request-" + kind: 1})
                done.append(t)

        def client(seed):
            rr = random.Random(seed)
            ka = None
            if rr.random() < 0.5:
                # Everything once.
                try:
                    for p in rr.sample(sorted(tree), len(tree)):
                        one(rr, "file" if p in files else rr.choice(["dir", "dir", "redirect"]), srv.get, p)
                except Violation as v:
                    with lock:
                        problems.append(v)
                    return
                except (OSError, socket.timeout) as e:
                    with lock:
                        problems.append(Violation("connection", "a request failed: %r" % e))
                    return
            try:
                for _ in range(rr.randint(5, 30)):
                    kind = rr.choice(["file", "file", "file", "dir", "redirect", "missing"])
                    if rr.random() < 0.2:
                        ka = ka or D.KeepAlive(srv)
                        one(rr, kind, ka.get)
                    else:
                        one(rr, kind, srv.get)
            except Violation as v:
                with lock:
                    problems.append(v)
            except (OSError, socket.timeout) as e:
                with lock:
                    problems.append(Violation("connection", "a request failed: %r" % e))
            except Exception:
                with lock:
                    problems.append(Violation("harness", traceback.format_exc()))
            finally:
                if ka:
                    ka.close()
        for turn in range(r.choice([1, 1, 1, 2, 3])):
            if turn and not change(ctx, proj, out, srv, tree):
                break
            tree.clear()
            tree.update(read_tree(out))
            files.clear()
            files.update({p: v for p, v in tree.items() if isinstance(v, bytes)})
            dirs.clear()
            dirs.update(p for p, v in tree.items() if v is None)
            if turn:
                ctx.feature("served-after-changes")
            n = r.choice([1, 1, 3, 6])
            ts = [threading.Thread(target=client, args=(r.random(),)) for _ in range(n)]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            alive(ctx, srv, "ordinary requests")
            if problems:
                raise problems[0]
            if n > 1:
                ctx.feature("concurrent-clients", n)
            ctx.require(len(set(scripts)) <= 1, "script-varies", "different scripts are inserted into different pages")
            d = diff_trees(tree, read_tree(out))
            ctx.require(d is None, "output-changed", lambda: "serving has changed the output directory: %s" % d)
        ctx.sample = {"files": sorted(files)[:12], "requests": [t.decode("latin1") for t in done[:12]]}
        if scripts and r.random() < 0.1:
            run_script(ctx, scripts[0])


NODE = r"""
const src = require('fs').readFileSync(0, 'utf8');
const log = [];
class WebSocket { constructor(u) { log.push('open ' + u); WebSocket.last = this; } addEventListener(t, f) { this['on' + t] = f } }
const location = { host: 'localhost:6904', hostname: 'localhost', port: '6904', protocol: 'http:', href: 'http://localhost:6904/x', reload() { log.push('reload') } };
const window = { WebSocket, location, addEventListener() {} };
new Function('WebSocket', 'location', 'window', 'document', src)(WebSocket, location, window, {});
const w = WebSocket.last;
if (w.onopen) w.onopen({});
const before = log.filter(x => x === 'reload').length;
if (w.onmessage) w.onmessage({ data: 'reload' });
console.log(JSON.stringify({ log, before }));
"""


def run_script(ctx, script):
    """The script connects to the server's socket and reloads the page on a message."""
    node = shutil.which("node")
    if not node:
        return
    src = re.sub(rb"^<script[^>]*>|</script>$", b"", script)
    p = subprocess.run([node, "-e", NODE], input=src, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode != 0:
        raise Violation("script", "the reload script fails: " + p.stderr.decode("utf-8", "replace")[:500])
    o = json.loads(p.stdout)
    ctx.require(o["before"] == 0 and any(x == "open ws://localhost:6904/__ws" for x in o["log"]) and o["log"].count("reload") == 1, "script", lambda: "the reload script does this: %s" % o)
    ctx.observed(1, None, **{"script-executed": 1})


# ---------------------------------------------------------------------------------------------------------------------

def dots(r):
    return r.choice([b"..", b"%2e%2e", b"%2E.", b".%2e", b"%252e%252e", b"..%00", b"%c0%ae%c0%ae", b"\xc0\xae\xc0\xae", b"...", b"..;", b".%00.", b"%u002e%u002e", b"..\\", b"%2e%2e%5c", b". .", b"\xef\xbc\x8e\xef\xbc\x8e", b"%ef%bc%8e%ef%bc%8e", b".\xe2\x80\xa4", b"%25%32%65%25%32%65"])


def slash(r):
    return r.choice([b"/", b"/", b"%2f", b"%2F", b"\\", b"%5c", b"//", b"/./", b"%252f", b"/%2e/", b"\xe2\x88\x95"])


def traversal(r, proj):
    end = r.choice([b"secret.txt", b"stuart.toml", b"outside.txt", b"dist2/secret.txt", b"distsecret.txt", b"content/md.html", b"../outside2.txt", os.path.join(proj, "secret.txt").encode()[1:]])
    x = r.random()
    if x < 0.6:
        return b"/" + b"".join(r.choice([b"", b"blog/", b"."]) + dots(r) + slash(r) for _ in range(r.choice([1, 1, 2, 3, 8]))) + end
    if x < 0.75:
        return r.choice([b"/", b"//", b"///", b"/%2f", b"/%2F%2f", b"file://", b"/file://", b"", b"\\", b"/\\"]) + os.path.join(proj, "secret.txt").encode()[r.choice([0, 1]):]
    if x < 0.85:
        return b"2/secret.txt" if r.random() < 0.5 else b"secret.txt"
    return b"/" + end + dots(r) + slash(r) + end


def malformed(r, proj):
    """Bytes of a request that is not well formed or not well meant. (Large bodies are not announced: see `memory`.)"""
    t = traversal(r, proj)
    x = r.random()
    if x < 0.45:
        return r.choice([b"GET", b"GET", b"GET", b"POST", b"HEAD", b"PUT", b"DELETE"]) + b" " + t + b" HTTP/1.1\r\nHost: x\r\n\r\n"
    if x < 0.55:
        return bytes(r.getrandbits(8) for _ in range(r.choice([1, 5, 40, 300]))) + r.choice([b"", b"\r\n", b"\r\n\r\n", b"\n"])
    ok = b"GET /index.html HTTP/1.1\r\nHost: localhost\r\nAccept: */*\r\n\r\n"
    if x < 0.7:
        b = bytearray(ok)
        for _ in range(r.choice([1, 1, 2, 5])):
            i = r.randrange(len(b) + 1)
            y = r.random()
            if y < 0.4 and i < len(b):
                b[i] = r.getrandbits(8)
            elif y < 0.7:
                b[i:i] = bytes([r.choice([0, 10, 13, 32, 0x25, 0x3f, 0x80, 0xff, 0x3a])]) * r.choice([1, 1, 3])
            else:
                del b[i:i + r.choice([1, 2, 10])]
        return bytes(b)
    if x < 0.75:
        return ok[:r.randrange(len(ok))]
    line = r.choice([b"GET  / HTTP/1.1", b"GET /", b"GET", b"", b" ", b"GET / HTTP/9.9", b"get / http/1.1", b"FOO / HTTP/1.1", b"GET \t HTTP/1.1", b"GET * HTTP/1.1", b"OPTIONS * HTTP/1.1", b"OPTIONS / HTTP/1.1", b"CONNECT x:1 HTTP/1.1", b"GET http://localhost/ HTTP/1.1", b"GET /%zz HTTP/1.1", b"GET /% HTTP/1.1", b"GET /%2 HTTP/1.1", b"GET /%ff HTTP/1.1", b"GET /%00 HTTP/1.1", b"GET /" + b"a" * r.choice([255, 256, 5000, 70000]) + b" HTTP/1.1", b"GET /" + b"a/" * 3000 + b" HTTP/1.1", b"GET /\xff HTTP/1.1", "GET /é HTTP/1.1".encode(), b"GET / HTTP/1.1 x", b"GET /?" + b"%" * 100 + b" HTTP/1.1", b"GET /%F0%9F HTTP/1.1", b"GET /%+1 HTTP/1.1", b"GET /%-f HTTP/1.1", b"GET / HTTP/1.1\x00", b"TRACE / HTTP/1.1"])
    h = b"".join(r.choice([b"Host: x", b"Host:", b":", b"x", b"", b"Content-Length: -1", b"Content-Length: x", b"Content-Length: 5", b"Content-Length: 0", b"Content-Length: 99999999999999999999999", b"Connection: keep-alive", b"Connection: \xc3\xa9", b"Upgrade: websocket", b"Upgrade: h2c", b"Sec-WebSocket-Key: x", b"Sec-WebSocket-Key:", b"Transfer-Encoding: chunked", b"Expect: 100-continue", b"X: " + b"y" * 9000, b"Cookie: a=b; c", b"X-Forwarded-For: 1.2.3.4", b"X-Forwarded-For: zz", b"X-Forwarded-For: ,", b"\xc3\xa9", b"\xc3", b"a:\xc3\xa9", b"Range: bytes=0-1", b" folded", b"If-Modified-Since: x"]) + r.choice([b"\r\n", b"\r\n", b"\r\n", b"\n"]) for _ in range(r.choice([0, 1, 2, 5, 30])))
    return line + r.choice([b"\r\n", b"\r\n", b"\n"]) + h + r.choice([b"\r\n", b"\r\n", b"\n", b"", b"\r\nhello"])


def sc_hostile(ctx):
    r = ctx.rng
    proj = setup(ctx, more={"static/zz-known.txt": b"known file\n"})
    srv, out = start(ctx, proj)
    with srv:
        if not os.path.exists(os.path.join(out, "zz-known.txt")):
            raise Discard()
        tree = read_tree(out)
        for k in range(r.randint(40, 120)):
            req = malformed(r, proj)
            held = None
            if r.random() < 0.1:
                # Left hanging while the others are served.
                held = srv.connect()
                held.sendall(req[:r.randrange(len(req) + 1)])
            shut = b"\r\n\r\n" not in req or b"Content-Length: 5" in req or b"keep-alive" in req.lower() or r.random() < 0.3
            try:
                res = srv.raw(req, timeout=10, shut=True if shut else False)
            except socket.timeout:
                res = srv.raw(req, timeout=10, shut=True)
            ctx.require(b"ZZ-SECRET" not in res, "escaped", lambda: "the request %r gives access to a file outside of the output directory: %r" % (req[:300], res[:300]))
            alive(ctx, srv, "the request %r" % req[:300])
            ctx.observed(1, req, malformed=1)
            m = re.match(rb"HTTP/1\.[01] (\d+)|HTTP/\S* (\d+)", res)
            ctx.feature("response-%s" % (m.group(1) or m.group(2)).decode() if m else "response-other" if res else "no-response")
            if k % 10 == 9 or b"\xc3" in req:
                try:
                    res = srv.get("/zz-known.txt")
                except OSError as e:
                    raise Violation("stopped", "the server does not answer any more after %r: %r" % (req[:300], e))
                ctx.require(res is not None and res.status == 200 and res.body == b"known file\n", "stopped", lambda: "the server does not answer properly any more after %r" % req[:300])
                ctx.observed(1, None, **{"still-served": 1})
            if held:
                held.close()
        d = diff_trees(tree, read_tree(out))
        ctx.require(d is None, "output-changed", lambda: "requests have changed the output directory: %s" % d)
        ctx.sample = {"request": req[:300], "panics": srv.text().count("panicked at")}


def sc_memory(ctx):
    """A body that is announced to be larger than the memory."""
    proj = setup(ctx, more={"static/zz-known.txt": b"known file\n"})
    srv, out = start(ctx, proj)
    with srv:
        if not os.path.exists(os.path.join(out, "zz-known.txt")):
            raise Discard()
        n = ctx.rng.choice([10**14, 10**15, 10**18, 2**63 - 1])
        srv.raw(b"POST / HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\nx" % n, shut=True)
        time.sleep(0.3)
        ctx.observed(1, n)
        ctx.require(srv.alive(), "content-length-abort", lambda: "the server has ended after a request with Content-Length: %d: %s" % (n, srv.text()[-300:]))
        res = srv.get("/zz-known.txt")
        ctx.require(res is not None and res.status == 200, "stopped", "the server does not answer any more after a request with a huge Content-Length")


def sc_star(ctx):
    """A path with a star."""
    proj = ctx.path("p")
    write_tree(proj, {"stuart.toml": manifest(), "static/*.txt": "star\n", "static/a*b.txt": "star\n", "content/root.html": ""})
    with D.Dev(ctx, proj) as srv:
        for p in ("*.txt", "a*b.txt"):
            res = srv.get("/" + p.replace("*", "%2a"))
            ctx.require(res is not None and res.status == 200 and res.body == b"star\n", "status", lambda: "the file %r is not served" % p)
            ctx.observed(1, p)
            res = srv.get("/" + p)
            ctx.require(res is not None and res.status == 200 and res.body == b"star\n", "star-in-path", lambda: "GET /%s gives %s" % (p, res and res.status))


def sc_idle(ctx):
    """Connections that stay open without a request, as browsers have them, do not keep others from being served."""
    r = ctx.rng
    proj = setup(ctx, more={"static/zz-known.txt": b"known file\n"})
    srv, out = start(ctx, proj)
    with srv:
        if not os.path.exists(os.path.join(out, "zz-known.txt")):
            raise Discard()
        n = r.choice([3, 7, 8, 9, 12, 17])
        idle, kinds = [], []
        try:
            for _ in range(n):
                kind = r.choice(["silent", "silent", "kept", "websocket"])
                kinds.append(kind)
                if kind == "silent":
                    idle.append(srv.connect())
                elif kind == "kept":
                    idle.append(D.KeepAlive(srv))
                    idle[-1].s.settimeout(60)
                    res = idle[-1].get(b"/zz-known.txt")
                    ctx.require(res is not None and res.status == 200 and res.body == b"known file\n", "stopped", lambda: "no answer with %s" % kinds)
                else:
                    idle.append(D.Ws(srv))
                    ctx.require(idle[-1].ok, "stopped", lambda: "no WebSocket with %s" % kinds)
            time.sleep(0.2)
            for _ in range(r.choice([1, 2, 10])):
                try:
                    res = srv.get("/zz-known.txt", timeout=60)
                except OSError as e:
                    raise Violation("stopped", "the server does not answer while there are other connections (%s): %r" % (kinds, e))
                ctx.require(res is not None and res.status == 200 and res.body == b"known file\n", "stopped", lambda: "no proper answer while there are other connections (%s)" % kinds)
                ctx.observed(1, (n, tuple(kinds)), **{"served-beside-idle": 1, "idle-connections": n})
        except OSError as e:
            raise Violation("stopped", "the server does not answer while there are other connections (%s): %r" % (kinds, e))
        finally:
            for c in idle:
                c.close()


def sc_port(ctx):
    """The port is taken: there is an error instead of a server that nobody can reach."""
    r = ctx.rng
    proj = setup(ctx)
    s = socket.socket()
    try:
        s.bind(("127.0.0.1", 0))
        s.listen()
        env = ctx.base_env()
        env.update(D.fsm.env_for(ctx, bind=s.getsockname()[1]))
        pre = r.choice([[], [], ["-q"]])
        p = subprocess.Popen([ctx.stuart] + pre + ["dev"], cwd=proj, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        try:
            text = p.communicate(timeout=60)[0]
        except subprocess.TimeoutExpired:
            p.kill()
            text = p.communicate()[0]
            raise Violation("not-reported", "the server goes on although its port is in use: %r" % text[-300:])
        ctx.require(p.returncode == 1 and b"error:" in strip_ansi(text), "not-reported", lambda: "with its port in use, the server ends with %d and %r" % (p.returncode, text[-300:]))
        ctx.observed(1, tuple(pre), **{"port-in-use": 1})
    finally:
        s.close()


SCENARIOS = [Scenario("files", sc_files, 240, 4000), Scenario("hostile", sc_hostile, 60, 1000), Scenario("memory", sc_memory, 3, 8), Scenario("star", sc_star, 1, 1), Scenario("idle", sc_idle, 12, 150), Scenario("port", sc_port, 3, 20)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 1, 1.6
