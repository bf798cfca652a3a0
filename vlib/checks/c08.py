"""C08: dateformat, excerpt and timetoread."""
import calendar, datetime, string

from ..common import *

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: outputs of the real program compared with calendar arithmetic and text oracles of our own"
RULE = ("random instants (1970 to 2099, ends of months and years, leap days, midnight and noon) written in about 40 notations and formatted by random format strings of all specifiers; texts with tags of any kind and words around the limits; "
        "an observation is one function call whose output is compared with an independent computation in Python, or a build that has to fail; distinct by input and format")
ASSUMPTIONS = ["notations that depend on the current date (times alone, dates without a year) are not generated", "lengths of text that is not ASCII are left open and not generated"]

MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
MONTH = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAY = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]


class T:
    """An instant in UTC with nanoseconds."""

    def __init__(self, dt, ns=0):
        self.dt, self.ns = dt, ns

    def shift(self, minutes):
        return T(self.dt + datetime.timedelta(minutes=minutes), self.ns)

    def stamp(self):
        return calendar.timegm(self.dt.timetuple())


def frac(ns, digits=None):
    if digits is not None:
        return "%09d" % ns if digits == 9 else ("%09d" % ns)[:digits]
    if ns == 0:
        return ""
    if ns % 1000000 == 0:
        return ".%03d" % (ns // 1000000)
    if ns % 1000 == 0:
        return ".%06d" % (ns // 1000)
    return ".%09d" % ns


def numbers(t):
    d = t.dt
    iso = d.isocalendar()
    h12 = d.hour % 12 or 12
    yd = d.timetuple().tm_yday
    # (value, width, default padding)
    return {"Y": (d.year, 4, "0"), "C": (d.year // 100, 2, "0"), "y": (d.year % 100, 2, "0"), "m": (d.month, 2, "0"), "d": (d.day, 2, "0"), "e": (d.day, 2, " "),
            "w": (d.isoweekday() % 7, 1, "0"), "u": (d.isoweekday(), 1, "0"), "U": ((yd + 6 - d.isoweekday() % 7) // 7, 2, "0"), "W": ((yd + 6 - d.weekday()) // 7, 2, "0"),
            "G": (iso[0], 4, "0"), "g": (iso[0] % 100, 2, "0"), "V": (iso[1], 2, "0"), "j": (yd, 3, "0"), "H": (d.hour, 2, "0"), "k": (d.hour, 2, " "), "I": (h12, 2, "0"), "l": (h12, 2, " "),
            "M": (d.minute, 2, "0"), "S": (d.second, 2, "0")}


NUMERIC = "YCymdewuGgVjHkIlMS"  # %U and %W: see sc_weeks
OTHERS = ["b", "B", "h", "a", "A", "P", "p", "D", "x", "F", "v", "R", "T", "X", "r", "Z", "z", ":z", "c", "+", "s", "t", "n", "%", ".f", ".3f", ".6f", ".9f", "3f", "6f", "9f", "f"]


def fmt(t, spec):
    """One specifier (without its percent sign)."""
    d = t.dt
    pad = None
    if spec[0] in "-_0" and len(spec) == 2 and spec[1] in NUMERIC:
        pad, spec = spec[0], spec[1]
    if spec in NUMERIC and len(spec) == 1:
        v, w, p = numbers(t)[spec]
        p = {"-": "", "_": " ", "0": "0", None: p}[pad]
        return str(v).rjust(w, p) if p else str(v)
    many = lambda s: "".join(fmt(t, x[1:]) if x[0] == "%" else x for x in s)
    return {
        "b": lambda: MON[d.month - 1], "h": lambda: MON[d.month - 1], "B": lambda: MONTH[d.month - 1], "a": lambda: DAY[d.weekday()][:3], "A": lambda: DAY[d.weekday()],
        "P": lambda: "pm" if d.hour >= 12 else "am", "p": lambda: "PM" if d.hour >= 12 else "AM", "D": lambda: d.strftime("%m/%d/") + "%02d" % (d.year % 100), "x": lambda: fmt(t, "D"),
        "F": lambda: "%04d-%02d-%02d" % (d.year, d.month, d.day), "v": lambda: many(["%e", "-", "%b", "-", "%Y"]), "R": lambda: "%02d:%02d" % (d.hour, d.minute),
        "T": lambda: "%02d:%02d:%02d" % (d.hour, d.minute, d.second), "X": lambda: fmt(t, "T"), "r": lambda: many(["%I", ":", "%M", ":", "%S", " ", "%p"]),
        "Z": lambda: "UTC", "z": lambda: "+0000", ":z": lambda: "+00:00", "c": lambda: many(["%a", " ", "%b", " ", "%e", " ", "%T", " ", "%Y"]),
        "+": lambda: fmt(t, "F") + "T" + fmt(t, "T") + frac(t.ns) + "+00:00", "s": lambda: str(t.stamp()), "t": lambda: "\t", "n": lambda: "\n", "%": lambda: "%",
        ".f": lambda: frac(t.ns), ".3f": lambda: "." + frac(t.ns, 3), ".6f": lambda: "." + frac(t.ns, 6), ".9f": lambda: "." + frac(t.ns, 9),
        "3f": lambda: frac(t.ns, 3), "6f": lambda: frac(t.ns, 6), "9f": lambda: frac(t.ns, 9), "f": lambda: "%09d" % t.ns,
    }[spec]()


def random_format(r):
    """(format string, function of an instant)."""
    parts = []
    if r.random() < 0.35:
        parts = r.choice([["%d", " ", "%B", " ", "%Y"], ["%B", " ", "%d", ", ", "%Y"], ["%-d", "/", "%-m", "/", "%y"], ["%A", ", the ", "%e", " of ", "%B"], ["%Y", "-", "%m", "-", "%d", "T", "%H", ":", "%M", ":", "%S", "%z"],
                          ["%a", ", ", "%d", " ", "%b", " ", "%Y", " ", "%T", " GMT"], ["%Y", "年", "%m", "月", "%d", "日"], ["%I", ":", "%M", " ", "%p"], ["%s"], ["%+"]])
    else:
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.4:
                parts.append("%" + r.choice(NUMERIC))
            elif x < 0.5:
                parts.append("%" + r.choice("-_0") + r.choice(NUMERIC))
            elif x < 0.85:
                parts.append("%" + r.choice(OTHERS))
            else:
                parts.append(r.choice(["at", "(", ")", "text", "é", "日", "$x", "=", "\\", "'", "[]", "5", "a.b"]))
            parts.append(r.choice(["", "", " ", "-", ", ", ":", "/", "."]))
        parts = [p for p in parts if p]
    f = "".join(parts)
    return f, lambda t: "".join(fmt(t, p[1:]) if p[0] == "%" else p for p in parts)


def instant(r):
    y = r.choice([1970, 1971, 1999, 2000, 2001, 2019, 2020, 2021, 2022, 2023, 2024, 2026, 2032, 2038, 2069, 2099, r.randint(1970, 2099), r.randint(1970, 2099)])
    m = r.randint(1, 12)
    last = calendar.monthrange(y, m)[1]
    d = r.choice([1, last, r.randint(1, last), r.randint(1, last)])
    if r.random() < 0.1:
        m, d = r.choice([(1, 1), (12, 31), (2, calendar.monthrange(y, 2)[1])])
    h, mi, s = r.choice([(0, 0, 0), (12, 0, 0), (23, 59, 59), (0, 30, 5), (12, 45, 6), (11, 59, 59), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)), (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))])
    return T(datetime.datetime(y, m, d, h, mi, s), 0)


def notation(r, t):
    """(notation's name, input, the instant that it denotes)."""
    d = t.dt
    day = T(d.replace(hour=0, minute=0, second=0))
    minute = T(d.replace(second=0))
    ampm = "pm" if d.hour >= 12 else "am"
    AP = r.choice([ampm, ampm.upper()])
    h12 = d.hour % 12 or 12
    ymd = "%04d-%02d-%02d" % (d.year, d.month, d.day)
    hms = "%02d:%02d:%02d" % (d.hour, d.minute, d.second)
    hm = "%02d:%02d" % (d.hour, d.minute)
    mon, month = MON[d.month - 1], MONTH[d.month - 1]
    name = r.choice([mon, month, mon.lower(), month.lower(), mon.upper()])
    digits = r.choice([1, 2, 3, 5, 6, 7, 9])
    fr = "%0*d" % (digits, r.randrange(10 ** digits))
    ft = T(d, int(fr.ljust(9, "0")))
    off = r.choice([0, 60, -60, 330, -480, 540, 765, -210, 14 * 60, -12 * 60])
    sign = "+" if off >= 0 else "-"
    oh, om = divmod(abs(off), 60)
    zoned = t.shift(-off)
    z4, z5 = "%s%02d%02d" % (sign, oh, om), "%s%02d:%02d" % (sign, oh, om)
    md = r.choice(["%d/%d" % (d.month, d.day), "%02d/%02d" % (d.month, d.day)])
    named_zone = r.choice([("UTC", 0), ("GMT", 0), ("PST", -8), ("EST", -5), ("EDT", -4), ("CST", -6), ("MST", -7), ("PDT", -7)])
    nz = t.shift(-60 * named_zone[1])
    nzm = minute.shift(-60 * named_zone[1])
    short = 1970 <= d.year <= 2068  # two digits: 70 to 99 are 19xx, 00 to 69 are 20xx
    kinds = {
        "ymd": (ymd, day), "ymd-hms": (ymd + " " + hms, t), "ymd-hm": (ymd + " " + hm, minute), "ymd-frac": (ymd + " " + hms + "." + fr, ft),
        "ymd-ampm": ("%s %02d:%02d:%02d %s" % (ymd, h12, d.minute, d.second, AP), t), "ymd-hm-ampm": ("%s %02d:%02d %s" % (ymd, h12, d.minute, AP), minute),
        "rfc3339-z": (ymd + "T" + hms + "Z", t), "rfc3339-frac": (ymd + "T" + hms + "." + fr + "Z", ft), "rfc3339-offset": (ymd + "T" + hms + z5, zoned),
        "rfc2822": ("%s, %02d %s %d %s %s" % (DAY[d.weekday()][:3], d.day, mon, d.year, hms, r.choice(["GMT", "+0000", "UT"])), t),
        "rfc2822-offset": ("%s, %02d %s %d %s %s" % (DAY[d.weekday()][:3], d.day, mon, d.year, hms, z4), zoned),
        "ymd-offset": (ymd + " " + hms + " " + z4, zoned), "ymd-offset-colon": (ymd + " " + hms + " " + z5, zoned), "ymd-zone": (ymd + " " + hms + " " + named_zone[0], nz), "ymd-hm-zone": (ymd + " " + hm + " " + named_zone[0], nzm),
        "postgres": (ymd + " " + hms + z5, zoned), "postgres-hours": (ymd + " " + hms + "%s%02d" % (sign, oh), t.shift(-(off // 60 * 60 if off >= 0 else -(-off // 60 * 60)))),
        "ymon-d": ("%d-%s-%02d" % (d.year, name if len(name) == 3 else mon, d.day), day),
        "mdy": ("%s %d, %d" % (name, d.day, d.year), day), "mdy-dot": ("%s. %d, %d" % (mon, d.day, d.year), day), "mdy-hms": ("%s %d, %d %s" % (name, d.day, d.year, hms), t), "mdy-comma-hms": ("%s %d, %d, %s" % (name, d.day, d.year, hms), t),
        "mdy-ampm": ("%s %d, %d %d:%02d:%02d %s" % (name, d.day, d.year, h12, d.minute, d.second, AP), t), "mdy-hm-zone": ("%s %02d, %d %s %s" % (mon, d.day, d.year, hm, named_zone[0]), nzm),
        "dmy": ("%d %s %d" % (d.day, name, d.year), day), "dmy-02": ("%02d %s %d" % (d.day, name, d.year), day), "dmy-hms": ("%d %s %d %s" % (d.day, name, d.year, hms), t), "dmy-comma-hm": ("%d %s %d, %s" % (d.day, name, d.year, hm), minute),
        "dmy-frac": ("%d %s %d %s.%s" % (d.day, name, d.year, hms, fr), ft),
        "slash-mdy": ("%s/%d" % (md, d.year), day), "slash-mdy-hms": ("%s/%d %s" % (md, d.year, hms), t), "slash-mdy-hm": ("%s/%d %s" % (md, d.year, hm), minute), "slash-mdy-ampm": ("%s/%d %d:%02d:%02d %s" % (md, d.year, h12, d.minute, d.second, AP), t),
        "slash-ymd": ("%d/%s" % (d.year, md), day), "slash-ymd-hms": ("%d/%s %s" % (d.year, md, hms), t), "slash-ymd-hm": ("%d/%s %s" % (d.year, md, hm), minute), "slash-ymd-frac": ("%d/%s %s.%s" % (d.year, md, hms, fr), ft),
        "dot-mdy": ("%02d.%02d.%d" % (d.month, d.day, d.year), day), "dot-ymd": ("%d.%02d.%02d" % (d.year, d.month, d.day), day),
        "chinese": ("%d年%02d月%02d日" % (d.year, d.month, d.day), day), "chinese-hms": ("%d年%02d月%02d日%02d时%02d分%02d秒" % (d.year, d.month, d.day, d.hour, d.minute, d.second), t),
    }
    if short and d.year < 2069:
        kinds["slash-mdy-short"] = ("%s/%02d" % (md, d.year % 100), day)
        kinds["dmy-short"] = ("%d %s %02d" % (d.day, name, d.year % 100), day)
    s = t.stamp()
    if 10**9 <= s < 10**10:
        kinds["timestamp"] = (str(s), t)
        ms = r.randrange(1000)
        kinds["timestamp-ms"] = ("%d%03d" % (s, ms), T(d, ms * 1000000))
        ns = r.randrange(10**9)
        if s * 10**9 + ns < 2**63:
            kinds["timestamp-ns"] = ("%d%09d" % (s, ns), T(d, ns))
    k = r.choice(sorted(kinds))
    return k, kinds[k][0], kinds[k][1]


def page_of(calls):
    """A page that calls functions on the values of a JSON file, separated by a marker."""
    nodes = [Raw("|")]
    for c in calls:
        nodes += [c, Raw("\u2402|")]
    return Html([Section("body", [Import("d", "d.json")] + nodes)])


def check_calls(ctx, data, calls, wants, what):
    files = {"root.html": Html([Insert("body")]), "index.html": page_of(calls), "d.json": Json(data)}
    proj = ctx.path("p")
    write_project(proj, Site(files))
    ctx.build_ok(proj)
    got = open(os.path.join(proj, "dist/index.html"), "rb").read().decode("utf-8")
    parts = got.split("\u2402|")
    ctx.require(len(parts) == len(wants) + 1 and parts[0].startswith("|"), what + "-count", lambda: "%d calls gave %d outputs: %r" % (len(wants), len(parts) - 1, got[:300]))
    parts[0] = parts[0][1:]
    for (desc, want, key, feat), p in zip(wants, parts):
        ctx.require(p == want, what, lambda: "%s: expected %r, found %r" % (desc, want, p))
        ctx.observed(1, key, **{feat: 1})


def sc_dates(ctx):
    r = ctx.rng
    data, calls, wants = [], [], []
    for i in range(40):
        # The same date often appears in several formats, and the same format with several dates.
        if i == 0 or r.random() < 0.6:
            k, text, t = notation(r, instant(r))
        if i == 0 or r.random() < 0.8:
            f, fn = random_format(r)
        data.append(text)
        calls.append(Call("dateformat", [("var", "d.%d" % i), ("str", f)], None))
        wants.append(("dateformat of %r with %r (%s)" % (text, f, k), fn(t), (text, f), k))
    check_calls(ctx, data, calls, wants, "dateformat")
    ctx.sample = {"input": data[0], "format": calls[0].args[1][1], "output": wants[0][1]}


INVALID = ["", " ", "not a date", "2022-02-30", "2021-02-29", "2022-13-01", "2022-00-10", "2022-04-31", "2022-01-01 25:00:00", "2022-01-01 12:60:00", "13/32/2022", "32 January 2022", "30 February 2022", "yesterday", "2022", "1234",
           "Foo 3, 2022", "2022-1-1-1", "{}", "null", "0", "-1", "January", "2022-01-01T99:00:00Z", "2100-02-29", "1900-02-29", "2023/02/29", "\u0662\u0660\u0662\u0662-01-01", "2022年13月01日", "<b>2022-01-01</b>", "2022-01-01 foo bar", "June 31, 2020",
           "2022_01_01", "99999999999"]


def sc_invalid_dates(ctx):
    r = ctx.rng
    bad = r.choice(INVALID) if r.random() < 0.7 else "".join(r.choice("xyz-/: ") for _ in range(r.randint(1, 12)))
    kind = r.choice(["invalid", "invalid", "invalid", "undefined", "type"])
    if kind == "type":
        bad = r.choice([None, True, 5, 20220101, 1511648546, 1.5, [], ["2022-01-01"], {}, {"date": "2022-01-01"}])
    fn = r.choice(["dateformat", "dateformat", "excerpt", "timetoread"]) if kind != "invalid" else "dateformat"
    var = "d.0" if kind != "undefined" else r.choice(["nope", "d.1", "d.x", "D", "self.date"])
    args = [("var", var)] + {"dateformat": [("str", "%d %B %Y")], "excerpt": [("int", 10)], "timetoread": []}[fn]
    files = {"root.html": Html([Insert("body")]), "d.json": Json([bad]), "index.html": Html([Section("body", [Import("d", "d.json"), Raw("x"), Call(fn, args, None)])])}
    proj = ctx.path("p")
    write_project(proj, Site(files))
    res = ctx.build_fails(proj, "%s is called with %s %r" % (fn, kind, bad))
    if kind == "invalid":
        ctx.require("invalid date" in res.errtext(), "invalid-date-message", lambda: "%r is not reported as an invalid date: %s" % (bad, res.errtext()[:300]))
    ctx.require("index.html" in res.errtext(), "invalid-date-file", lambda: "the error does not name the file: " + res.errtext()[:300])
    ctx.observed(1, (fn, kind, repr(bad), var), **{fn + "-" + kind: 1})
    ctx.sample = {"input": repr(bad), "message": res.errtext()}


def html_text(r):
    out = []
    for _ in range(r.randint(0, 12)):
        out.append(r.choice(["word ", "Lorem ipsum dolor sit amet, consectetur. ", "x", "<p>", "</p>\n", "<b>bold</b>", "<a href=\"/x?a=b&c\">", "</a>", "<br/>", "<>", "\n", "  ", "&amp;", "a > b", "<img src='a.png' alt='text'>", "<!-- comment -->",
                             "1234567890", "<ul><li>", "\t", "\"", "{}", "<p class=x>" * 3, "tail"]))
    return "".join(out)


def sc_excerpts(ctx):
    r = ctx.rng
    data, calls, wants = [], [], []
    for i in range(40):
        s = html_text(r)
        t = strip_tags(s)
        n = r.choice([0, 1, 2, 5, 10, 20, 50, 100, 1000, 2147483647 if r.random() < 0.02 else 5000, len(t), max(0, len(t) - 1), len(t) + 1, len(t) // 2])
        c = excerpt("d.%d" % i, n)
        try:
            ev = Evaluator(None, {"d": data + [s]})
            want = c.fn(ev, c)
        except Unspecified:
            n = 7777
            c = excerpt("d.%d" % i, n)
            want = t
        data.append(s)
        if n > 100000:
            n = 100000
            c = excerpt("d.%d" % i, n)
        calls.append(c)
        wants.append(("excerpt of %r to %d" % (s, n), want, (s, n), "cut" if want.endswith("...") and not t.endswith("...") else "whole"))
    check_calls(ctx, data, calls, wants, "excerpt")
    ctx.sample = {"input": data[0], "output": wants[0][1]}


def words(r, n):
    return "".join(r.choice(["a", "word", "é", "日本", "<b>", "x-y", "&", "1"]) + r.choice([" ", " ", " ", "\n", "\t", "  ", "\r\n", "\u00a0", "\u2003", " \n "]) for _ in range(n))


def sc_reading(ctx):
    r = ctx.rng
    data, calls, wants = [], [], []
    for i in range(12):
        k = r.choice([0, 1, 1, 2, 3, 5, 10])
        n = max(0, 200 * k + r.choice([-1, 0, 0, 1, 199, 100, r.randint(0, 199)]))
        s = r.choice(["", " ", "\n"]) + words(r, n)
        if r.random() < 0.5:
            s = s.rstrip()
        data.append(s)
        calls.append(timetoread("d.%d" % i))
        wants.append(("timetoread of %d words" % n, str(max(1, n // 200)), s, "minutes-%d" % max(1, n // 200) if n < 2000 else "minutes-many"))
    check_calls(ctx, data, calls, wants, "timetoread")


def sc_pages(ctx):
    """The functions in pages, on frontmatter and converted markdown."""
    r = ctx.rng
    k, text, t = notation(r, instant(r))
    f, fn = random_format(r)
    title = r.choice(["one", "a title", "with <i>tags</i> inside"])
    body = "\n".join(r.choice(["para %d\n" % i, "# head\n", "- item\n", "**bold** text " * r.randint(1, 150) + "\n"]) for i in range(r.randint(1, 4)))
    n = r.choice([10, 40, 200, 100000])
    html = md_to_html(ctx.mdoracle, [body[:-1]])[0]
    ex = excerpt("post.content", n)
    try:
        want_ex = ex.fn(Evaluator(None, {"post": {"content": html}}), ex)
    except Unspecified:
        raise Discard()
    var = r.choice(["self", "post"])
    inner = lambda v: [Call("dateformat", [("var", v + ".date"), ("str", f)], None), Raw("|"), Call("excerpt", [("var", v + ".content"), ("int", n)], None), Raw("|"), Call("timetoread", [("var", v + ".content")], None), Raw("|"), Call("timetoread", [("var", v + ".markdown")], None)]
    files = {"root.html": Html([Insert("body")]), "md.html": Html([Section("body", inner("self"))]), "p/a.md": Md([("date", text), ("title", title)], [Raw(body)]),
             "list.html": Html([Section("body", [For("post", ("md", "p/"), inner("post"))])])}
    proj = ctx.path("p")
    write_project(proj, Site(files))
    ctx.build_ok(proj)
    want = "|".join([fn(t), want_ex, str(max(1, len(html.split()) // 200)), str(max(1, len(body.split()) // 200))]).encode()
    for p in ("dist/p/a/index.html", "dist/list/index.html"):
        got = open(os.path.join(proj, p), "rb").read()
        ctx.require(got == want, "page-functions", lambda: "%s of %r: %s" % (p, text, diff_bytes(want, got)))
        ctx.observed(1, (text, f, body, n, p), **{k: 1})


def prepare(scratch):
    return default_prepare(scratch, oracle=True)


def sc_weeks(ctx):
    """The library chrono 0.4.22 computes %U and %W wrongly; any other specifier is checked by sc_dates."""
    files = {"root.html": Html([Insert("body")]), "d.json": Json(["2019-01-01", "2024-04-30"]),
             "index.html": Html([Section("body", [Import("d", "d.json")] + [x for i in (0, 1) for x in (Call("dateformat", [("var", "d.%d" % i), ("str", "%U %W;")], None), Raw(" "))])])}
    proj = ctx.path("p")
    write_project(proj, Site(files))
    ctx.build_ok(proj)
    got = open(os.path.join(proj, "dist/index.html"), "rb").read()
    ctx.observed(2, "weeks")
    ctx.require(got == b"00 00; 17 17; ", "week-number-U-W", lambda: "week numbers of 2019-01-01 and 2024-04-30 by %%U %%W: expected '00 00; 17 17;', found %r" % got)


SCENARIOS = [Scenario("weeks", sc_weeks, 1, 1), Scenario("dates", sc_dates, 500, 6000), Scenario("invalid", sc_invalid_dates, 500, 4000), Scenario("excerpts", sc_excerpts, 300, 4000), Scenario("reading", sc_reading, 200, 2500), Scenario("pages", sc_pages, 300, 4000)]
# Times the numbers of cases of the two tiers.
QUICK, THOROUGH = 3, 9
