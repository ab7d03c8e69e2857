"""
The implementation's side of the conformance checks: executes the operations
of a case against the real code of /repo and records what it does.

Run as: impl.py CASES OBSERVATIONS   (one JSON object per line in both)
"""
import contextlib
import copy
import html
import importlib
import io
import json
import os
import select
import signal
import sys
import time
from multiprocessing import Pool

REPO = os.environ.get("GR_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

CASE_SECONDS = 20


def codes(text):
    return [ord(c) for c in text]


def text(cs):
    return "".join(map(chr, cs))


class Timeout(BaseException):
    pass


# -- HTML ---------------------------------------------------------------------

def attr_html(a, quote):
    if not a["has"]:
        return " " + a["n"]
    v = text(a["v"])
    return " {}={}{}{}".format(a["n"], quote, html.escape(v, quote=True), quote)


def event_html(e, k=0):
    t = e["t"]
    quote = "'" if e.get("sq") else '"'
    if t in ("start", "startend"):
        return "<{}{}{}>".format(
            e["tag"].upper() if e.get("up") else e["tag"],
            "".join(attr_html(a, quote) for a in e["attrs"]),
            "/" if t == "startend" else "",
        )
    if t == "end":
        return "</{}>".format(e["tag"])
    if t == "data":
        d = text(e["d"])
        if e.get("num"):
            return "".join("&#{};".format(ord(c)) if c in "&<>" else c for c in d)
        return html.escape(d, quote=False)
    if t == "comment":
        return "<!--{}-->".format(text(e["d"]))
    raise ValueError(t)


def events_html(es):
    return "".join(event_html(e) for e in es)


# -- selectors and configuration ----------------------------------------------

def css_string(cs):
    return '"{}"'.format("".join("\\" + c if c in '\\"' else "\\%x " % ord(c) if c < " " else c for c in text(cs)))


def css_name(cs):
    """An identifier, with escapes for what cannot be in one."""
    t = text(cs)
    out = "".join(c if c.isalnum() or c in "-_" or c >= "\x80" else "\\" + c for c in t)
    return "\\%x " % ord(t[0]) + out[1:] if t[:1].isdigit() else out


def css(s):
    k = s["k"]
    # names of elements, attributes and pseudo-classes are the same in capitals
    name = str.upper if s.get("up") else str
    ns = s["ns"] + "|" if s.get("ns") else ""
    if k == "any":
        return "*"
    if k == "el":
        return ns + name(s["t"])
    if k == "comb":
        c = s["c"]
        sep = c if c == " " or s.get("tight") else " {} ".format(c)
        return css(s["l"]) + sep + css(s["r"])
    base = css(s["s"])
    if base == "*" and s.get("bare"):
        base = ""
    if k == "class":
        return base + "." + css_name(s["v"])
    if k == "hash":
        return base + "#" + css_name(s["v"])
    if k == "attr":
        if s["op"] == "exists":
            return "{}[{}]".format(base, ns + name(s["a"]))
        return "{}[{}{}{}]".format(base, ns + name(s["a"]), s["op"], css_string(s["v"]))
    if k == "not":
        return "{}:not({})".format(base, css(s["x"]))
    if k == "ps":
        return "{}:{}".format(base, name(s["p"]))
    if k == "pe":
        return "{}::{}".format(base, s["p"])
    if k == "nth":
        return "{}:{}({})".format(base, name(s["f"]), s["txt"])
    raise ValueError(k)


def css_group(g):
    return ", ".join(css(s) for s in g)


def template(segments, slots=None):
    out = []
    for g in segments:
        if "l" in g:
            out.append(text(g["l"]).replace("{", "{{").replace("}", "}}"))
        else:
            out.append(SLOTS[g["f"]])
    return "".join(out)


SLOTS = {
    "c": "{}", "ord": "{0}", "item": "{1}", "content": "{content}",
    "href": "{href}", "title": "{title}", "ref": "{link_reference}",
    "desc": "{description}", "type": "{type}", "selector": "{selector}",
    "host": "{host}", "port": "{port}",
}


def colour(c):
    if c["k"] == "none":
        return "" if c.get("v") else None
    if c["k"] == "hex":
        return c["txt"]
    if c["k"] == "rgb":
        return tuple(c["v"])
    return c["v"]


def setting(name, v):
    if name in ("template", "line_template", "block_template", "inline_template", "gophermap_template"):
        return template(v)
    if name == "templates":
        if isinstance(v, dict):
            return {
                k: (template(x) if "l" in x[0] or "f" in x[0] else [template(y) for y in x])
                if isinstance(x[0], dict) else [template(y) for y in x]
                for k, x in v.items()
            }
        return [template(x) for x in v]
    if name == "border":
        return [text(x) for x in v]
    if name in ("spread_char", "underline_char"):
        return text(v)
    if name in ("foreground_colour", "background_colour"):
        return colour(v)
    if name == "font":
        return None if v < 0 else v
    return v


def settings(s):
    if not s:
        return {}
    return {k: setting(k, v) for k, v in s.items()}


CLASSES = {
    "Renderer": "Renderer", "NonRenderer": "NonRenderer", "Inline": "InlineRenderer",
    "Block": "BlockRenderer", "Header": "HeaderRenderer", "MdHeader": "MarkdownHeaderRenderer",
    "Paragraph": "ParagraphRenderer", "Code": "CodeRenderer", "Pre": "PreRenderer",
    "Link": "LinkRenderer", "XLink": "ExtractedLinkRenderer", "Image": "ImageRenderer",
    "XImage": "ExtractedImageLinkRenderer", "Em": "EmRenderer", "Strong": "StrongRenderer",
    "Underline": "UnderlineRenderer", "Strike": "StrikethroughRenderer", "Break": "BreakRenderer",
    "BlockQuote": "BlockQuoteRenderer", "List": "ListRenderer", "ListItem": "ListItemRenderer",
    "OLItem": "OrderedListItemRenderer", "DefList": "DefinitionListRenderer",
    "DefTerm": "DefinitionListTermHeaderRenderer", "DefItem": "DefinitionListItemRenderer",
    "Ansi": "AnsiEscapeCodeRenderer",
}
_probes = {}


def probes():
    if not _probes:
        from gopher_render.rendering import Renderer

        class P0(Renderer):
            code = "0"

            def render(self, content):
                s = self.settings
                return "({}.{}{}:{})".format(
                    PROBE_TAGS.get(self.tag.tag, self.tag.tag), self.code,
                    "".join(" {}={}".format(k, s[k]) for k in ("k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8") if k in s),
                    content,
                )

        class P1(P0):
            code = "1"
            settings = dict(k1=10)

        class P2(P0):
            code = "2"
            settings = dict(k2=20)

        class P3(P1):
            code = "3"
            settings = dict(k2=30)

        _probes.update(P0=P0, P1=P1, P2=P2, P3=P3)
    return _probes


PROBE_TAGS = {"blockquote": "bq"}


def renderer_class(kind):
    from gopher_render import rendering
    if kind in CLASSES:
        return getattr(rendering, CLASSES[kind])
    return probes()[kind]


def rule_value(u):
    r, s = u["r"], u["s"]
    if r == "none":
        return (None, settings(s))
    if not s and not u.get("tuple"):
        return renderer_class(r)
    return (renderer_class(r), settings(s))


def parser_args(cfg):
    from gopher_render.rendering import Box
    kw = dict(
        output_format=cfg["fmt"],
        link_placement=cfg["lp"],
        image_placement=cfg["ip"],
        gopher_host=text(cfg["host"]),
        gopher_port=cfg["port"],
        optimise=cfg["optimise"],
        renderers={css_group(u["sel"]): rule_value(u) for u in cfg["rules"]},
        extracted_link_renderers={css_group(u["sel"]): rule_value(u) for u in cfg["xrules"]},
    )
    d = cfg["dflt"]
    if d["r"] != "Renderer" or d["s"]:
        kw["renderers"][""] = rule_value(d)
    if cfg.get("viaWidth"):
        kw["width"] = cfg["width"]
    else:
        box = dict(width=cfg["width"], margin=list(cfg["margin"]),
                   padding=list(cfg["padding"]), border=list(cfg["border"]))
        if cfg.get("defaults"):
            box = {k: v for k, v in box.items() if v != (67 if k == "width" else [0, 0, 0, 0])}
            if cfg["defaults"] == 2:
                box = {**dict(margin=None, padding=None, border=None), **box}
        kw["box"] = Box(**box)
        if cfg.get("defaults") == 1 and not box:
            del kw["box"]
    if cfg.get("defaults"):
        # leave out whatever is the default
        for k, v in DEFAULTS.items():
            if k in kw and kw[k] == v:
                del kw[k]
    return kw


DEFAULTS = dict(width=67, output_format="text", link_placement="footer", image_placement="inline", gopher_host="",
                gopher_port=70, optimise=True, renderers={}, extracted_link_renderers={})


# -- sessions -----------------------------------------------------------------

def make_parser(kw):
    from gopher_render import GopherHTMLParser
    return GopherHTMLParser(**kw)


def feed(parser, o):
    h = o["html"] if "html" in o else events_html(o["es"])
    cuts = o.get("cuts") or []
    if cuts == "all":
        cuts = range(1, len(h))
    at = 0
    for cut in sorted(x % (len(h) + 1) for x in cuts):
        if cut > at:
            parser.feed(h[at:cut])
            at = cut
    parser.feed(h[at:])


def run_session(case):
    # Documents on their own come first: nothing else has happened yet
    for o in case["ops"]:
        if o["op"] == "ref":
            r = in_child(run_ref, dict(cfg=case["cfgs"][o["cfg"] - 1], parts=o["parts"]), CASE_SECONDS)
            o["res"], o["out"] = (r["res"], r["out"]) if r else ("timeout", [])
    ps = {}
    shared = {}
    for o in case["ops"]:
        op = o["op"]
        try:
            if op == "ref":
                continue
            if op == "new":
                k = o["cfg"] - 1
                if case.get("shareCfg"):
                    if k not in shared:
                        shared[k] = parser_args(case["cfgs"][k])
                    kw = shared[k]
                else:
                    kw = parser_args(case["cfgs"][k])
                ps[o["p"]] = make_parser(kw)
            elif op == "feed":
                feed(ps[o["p"]], o)
            elif op == "close":
                ps[o["p"]].close()
                o["out"] = codes(ps[o["p"]].parsed)
            elif op == "read":
                o["out"] = codes(ps[o["p"]].parsed)
            elif op == "reset":
                ps[o["p"]].reset()
            o["res"] = "ok"
        except Timeout:
            raise
        except Exception as e:
            o["res"] = type(e).__name__
            o.setdefault("out", [])
            o["err"] = str(e)[:200]
            if op != "new":
                break
    return case


def run_ref(req):
    """One document in several parts, with a close after each."""
    try:
        parser = make_parser(parser_args(req["cfg"]))
        for es in req["parts"]:
            feed(parser, dict(es=es))
            parser.close()
        return dict(res="ok", out=codes(parser.parsed))
    except Timeout:
        return dict(res="timeout", out=[])
    except Exception as e:
        return dict(res=type(e).__name__, out=[])


# -- settings -----------------------------------------------------------------

def settings_type():
    """The class of the settings that renderers get."""
    from gopher_render.rendering import Renderer
    seen = []

    class Spy(Renderer):
        def render(self, content):
            seen.append(self.settings)
            return ""
    p = make_parser(dict(renderers={"x": Spy}))
    p.feed("<x></x>")
    p.close()
    return type(seen[0])


# Values that are not numbers
ND_VALUES = {-1: None, -2: False, -3: "", -4: [], -5: True}


def nd_value(f, result=True):
    """What f gives, or raises. If it is not a result, None is nothing."""
    try:
        v = f()
    except Exception as e:
        return {"k": "raise", "v": type(e).__name__}
    for n, x in ND_VALUES.items():
        if type(v) is type(x) and v == x:
            return {"k": "value", "v": n} if result or v is not None else {"k": "done", "v": 0}
    if callable(v):
        return {"k": "method", "v": 0}
    return {"k": "value", "v": v if type(v) is int else 999}


def run_nd(case):
    T = settings_type()
    d = T()
    keys = case["keys"]
    value = lambda v: ND_VALUES.get(v, v)
    for o in case["ops"]:
        op, k = o["op"], o.get("k")
        v = value(o.get("v"))
        m = {x: value(y) for x, y in o.get("m", {}).items()}
        new = []
        # The methods of the class: there may be keys of the same names
        f = {
            "setitem": lambda: d.__setitem__(k, v),
            "setattr": lambda: setattr(d, k, v),
            "delitem": lambda: d.__delitem__(k),
            "delattr": lambda: delattr(d, k),
            "update": lambda: T.update(d, m),
            "ior": lambda: T.__ior__(d, m) and None,
            "pop": lambda: T.pop(d, k),
            "setdefault": lambda: T.setdefault(d, k, v),
            "clear": lambda: T.clear(d),
            "remake": lambda: new.append(T(d)),
            "clone": lambda: new.append(copy.copy(d)),
        }[op]
        o["res"] = nd_value(f, op in ("pop", "setdefault"))
        if new:
            d = new[0]
        o["reads"] = [dict(k=x, item=nd_value(lambda: d[x]), attr=nd_value(lambda: getattr(d, x)), has=x in d)
                      for x in keys]
        o["len"] = len(d)
    return case


# -- classes of renderers -----------------------------------------------------

CLASS_VALUES = {100: "{}", 101: False, 102: "_{}_", 103: [0, 0, 0, 0], 104: [1, 0, 1, 0],
                105: None, 106: "", 107: [], 108: {"a": 1}, 109: {"b": 2}, 110: {}, 111: True}
CLASS_KEYS = ("k1", "k2", "k3", "template", "capitalized", "margin", "padding", "centered")


def run_cls(case):
    from gopher_render import rendering
    seen = []

    def render(self, content):
        seen.append(self)
        return ""
    classes = {n: renderer_class(n) for n in ("Renderer", "Inline", "Em", "Block", "Header")}
    mine = []
    insts = {}
    given = {}

    def value(v):
        v = CLASS_VALUES.get(v, v)
        return type(v)(v) if isinstance(v, (list, dict)) else v

    def code(v):
        for c, x in CLASS_VALUES.items():
            if type(x) is type(v) and x == v:
                return c
        return v if type(v) is int else 999

    def decode(s):
        # the same settings are the same object: nobody may change it
        k = json.dumps(s, sort_keys=True)
        if k not in given:
            given[k] = {a: value(b) for a, b in (s or {}).items()}
        return given[k]

    def encode(s):
        return {k: code(s[k]) for k in CLASS_KEYS if k in s} or []

    def make(cls, s):
        del seen[:]
        p = make_parser(dict(renderers={"x": (cls, decode(s)) if s else cls}))
        p.feed("<x></x><x></x>")
        p.close()
        return list(seen)

    for o in case["ops"]:
        op = o["op"]
        try:
            if op == "define":
                ns = dict(render=render)
                if o["s"]:
                    ns["settings"] = dict(decode(o["s"]))
                c = type(o["c"], tuple(classes[b] for b in o["bases"]), ns)
                classes[o["c"]] = c
                if o["c"] not in mine:
                    mine.append(o["c"])
            elif op == "cset":
                own(classes[o["c"]])[o["k"]] = value(o["v"])
            elif op == "cdel":
                del own(classes[o["c"]])[o["k"]]
            elif op == "creplace":
                classes[o["c"]].settings = dict(decode(o["s"]))
            elif op == "make":
                insts[o["i"]], insts[o["i"] + 10] = make(classes[o["c"]], o["s"])
            elif op == "iset":
                s = insts[o["i"]].settings
                if o["v"] % 2:
                    s[o["k"]] = value(o["v"])
                else:
                    setattr(s, o["k"], value(o["v"]))
            elif op == "idel":
                del insts[o["i"]].settings[o["k"]]
            o["res"] = "ok"
        except Timeout:
            raise
        except Exception as e:
            o["res"] = type(e).__name__
        o["classes"] = [dict(c=n, own=encode(c.__dict__.get("settings", {})))
                        for n, c in classes.items()]
        o["insts"] = [dict(i=i, s=encode(x.settings)) for i, x in insts.items()]
        try:
            o["fresh"] = [dict(c=n, s=encode(make(classes[n], None)[0].settings)) for n in mine]
        except Exception as e:
            o["fresh"] = []
            o["res"] = type(e).__name__
    return case


def own(cls):
    """The settings of the class itself."""
    if "settings" not in cls.__dict__:
        cls.settings = {}
    return cls.__dict__["settings"]


# -- the command --------------------------------------------------------------

def html_of_markdown(source):
    import markdown
    return markdown.Markdown(
        extensions=["markdown.extensions.codehilite", "markdown.extensions.extra", "markdown.extensions.meta"],
        extension_configs={"markdown.extensions.codehilite": {"css_class": "highlight"}},
        output_format="html5",
    ).convert(source)


def cli_library(html_text):
    """What the library makes of it with the configuration that the command is to have."""
    from gopher_render.rendering import Box
    from gopher_render.code_themes.iced_gopher import renderers
    p = make_parser(dict(box=Box(width=67, margin=[1, 0, 1, 0]), link_placement="footer",
                         image_placement="inline", renderers=renderers))
    p.feed(html_text)
    p.close()
    return p.parsed


def run_cli(case):
    import shutil
    import subprocess
    import tempfile
    for o in case["ops"]:
        work = tempfile.mkdtemp(dir=os.environ.get("GR_SCRATCH") or None)
        try:
            source = text(o["source"])
            path = os.path.join(work, text(o["name"]))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(source)
            with open(path, "rb") as f:
                before = f.read()
            args = [text(o["name"]), os.path.join(work, "out.txt")]
            if o["dump"]:
                args.insert(o.get("dumpAt", 0), o.get("flag", "-d"))
            if o["sub"]:
                env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
                env.update(PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
                try:
                    r = subprocess.run([sys.executable, "-W", "ignore", "-m", "gopher_render"] + args, cwd=work,
                                       env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=CASE_SECONDS)
                except subprocess.TimeoutExpired:
                    timed_out(case, o)
                    break
                out, rc = r.stdout.decode("utf-8", "replace"), r.returncode
            else:
                out, rc = in_child(command_here, dict(cwd=work, args=args), CASE_SECONDS) or ("", None)
                if rc is None:
                    timed_out(case, o)
                    break
            o["out"] = codes(out)
            o["res"] = rc
            with open(path, "rb") as f:
                o["same"] = f.read() == before
            o["others"] = sorted(set(os.listdir(work)) - {text(o["name"]).split("/")[0], "out.txt"})
            # as it is read: line ends are line feeds
            source = source.replace("\r\n", "\n").replace("\r", "\n")
            md = html_of_markdown(source)
            o["asMd"] = codes(md)
            o["asIs"] = codes(source)
            o["libMd"] = codes(in_child(cli_library, md, CASE_SECONDS) or "")
            o["libIs"] = codes(in_child(cli_library, source, CASE_SECONDS) or "")
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return case


def command_here(req):
    """The command in this process."""
    import runpy
    os.chdir(req["cwd"])
    sys.argv = ["gopher_render"] + req["args"]
    out = io.StringIO()
    rc = 0
    with contextlib.redirect_stdout(out):
        try:
            runpy.run_module("gopher_render", run_name="__main__")
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 1
        except Exception:
            rc = -1
    return (out.getvalue(), rc)


RUNNERS = {"session": run_session, "nd": run_nd, "cls": run_cls, "cli": run_cli}


# -- execution ----------------------------------------------------------------

def on_alarm(*args):
    raise Timeout()


def in_child(f, arg, seconds):
    """f(arg) in a process of its own; None if it takes too long or dies."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        status = 1
        try:
            os.close(r)
            signal.signal(signal.SIGALRM, on_alarm)
            signal.setitimer(signal.ITIMER_REAL, seconds)
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                res = f(arg)
            signal.setitimer(signal.ITIMER_REAL, 0)
            data = json.dumps(res).encode()
            with os.fdopen(w, "wb") as out:
                out.write(data)
            status = 0
        except BaseException:
            pass
        finally:
            os._exit(status)
    os.close(w)
    data = b""
    end = time.time() + 3 * seconds + 60
    while True:
        left = end - time.time()
        ready = select.select([r], [], [], max(0, left))[0]
        if not ready:
            os.kill(pid, signal.SIGKILL)
            data = b""
            break
        d = os.read(r, 1 << 16)
        if not d:
            break
        data += d
    os.close(r)
    status = os.waitpid(pid, 0)[1]
    if not data or status != 0:
        return None
    return json.loads(data)


def timed_out(case, o):
    """Records that an operation did not come to an end, with all that the specification reads."""
    o.update({"cli": dict(res=-2, out=[], same=True, asIs=[], asMd=[], libIs=[], libMd=[]),
              "nd": dict(res={"k": "raise", "v": "timeout"}, reads=[], len=-1)}.get(case["kind"], dict(res="timeout")))
    o.setdefault("out", [])
    o["late"] = True


def run_case(case):
    try:
        RUNNERS[case["kind"]](case)
    except Timeout:
        for o in case["ops"]:
            if "res" not in o:
                timed_out(case, o)
                break
    return case


_slow = 0


def execute(line):
    """One case in a process of its own, which nothing has happened in yet."""
    global _slow, CASE_SECONDS
    case = json.loads(line)
    # not as patient after the first ones that do not come to an end
    cli = case["kind"] == "cli"
    if _slow == 3:
        CASE_SECONDS = 5 if cli else 0.7
    elif _slow == 12:
        CASE_SECONDS = 2.5 if cli else 0.7
    r = in_child(run_case, case, 3 * CASE_SECONDS if cli else CASE_SECONDS)
    if r is None:
        timed_out(case, case["ops"][0])
        r = case
    if any(o.pop("late", False) for o in r["ops"]):
        _slow += 1
    # What comes after a failed operation has not been executed
    r["ops"] = [o for o in r["ops"] if "res" in o]
    return json.dumps(r)


def init():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    import warnings
    warnings.simplefilter("ignore")
    with contextlib.redirect_stdout(io.StringIO()):
        import gopher_render  # noqa: F401
        from gopher_render import rendering  # noqa: F401
        try:
            import pygments.lexers, pygments.formatters, markdown  # noqa: F401, E401
            for x in ("codehilite", "extra", "meta"):
                importlib.import_module("markdown.extensions." + x)
        except ImportError:
            pass


def main():
    src, dst = sys.argv[1:3]
    with open(src) as f:
        lines = [l for l in f if l.strip()]
    with Pool(int(os.environ.get("GR_PROCS", "8")), initializer=init) as pool, open(dst, "w") as out:
        for r in pool.imap(execute, lines, chunksize=8):
            out.write(r + "\n")


if __name__ == "__main__":
    main()
