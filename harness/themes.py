"""The code themes of the library, as rules of the specification."""
import importlib
import os
import pkgutil
import re
import sys

from gen import codes, el, rule

EFFECTS = set("bold faint italic fraktur underline slow_blink rapid_blink invert conceal crossed_out "
              "framed encircled overlined normalise".split())


NAMES = "black red green yellow blue magenta cyan white".split()
NAMES += ["bright_" + n for n in NAMES]


class ThemeError(Exception):
    """The theme cannot be expressed in the specification."""


class BadTheme(Exception):
    """The theme asks for something that does not exist."""


def colour(v):
    if v is None:
        return {"k": "none"}
    if isinstance(v, int):
        return {"k": "int", "v": v}
    if isinstance(v, (tuple, list)):
        return {"k": "rgb", "v": list(v)}
    if v.startswith("#"):
        h = v[1:]
        if len(h) == 3:
            h = "".join(x + x for x in h)
        if len(h) != 6 or not re.fullmatch("[0-9a-fA-F]{6}", h):
            raise BadTheme("not a colour: " + v)
        return {"k": "hex", "v": [int(h[i:i + 2], 16) for i in (0, 2, 4)], "txt": v}
    if v not in NAMES:
        raise BadTheme("not a colour: " + v)
    return {"k": "name", "v": v}


def selector(s):
    s = s.strip()
    parts = s.split()
    out = None
    for p in parts:
        m = re.fullmatch(r"([a-z][a-z0-9]*)?((?:\.[\w-]+)*)", p)
        if not m:
            raise ThemeError("unknown selector: " + s)
        x = el(m.group(1)) if m.group(1) else {"k": "any"}
        for c in m.group(2).split(".")[1:]:
            x = {"k": "class", "s": x, "v": codes(c), "bare": True}
        out = x if out is None else {"k": "comb", "c": " ", "l": out, "r": x}
    return out


def convert(renderers):
    out = []
    for key, value in renderers.items():
        cls, settings = value if isinstance(value, tuple) else (value, {})
        s = {}
        for k, v in settings.items():
            if k in ("foreground_colour", "background_colour"):
                s[k] = colour(v)
            elif k == "font":
                s[k] = v
            elif k in EFFECTS:
                s[k] = bool(v)
            else:
                raise BadTheme("unknown setting: " + k)
        if cls is None:
            kind = "none"
        else:
            kind = {"AnsiEscapeCodeRenderer": "Ansi"}.get(cls.__name__)
            if kind is None:
                raise ThemeError("unknown renderer: " + cls.__name__)
        out.append(rule([selector(x) for x in key.split(",")], kind, s))
    return out


def all_themes():
    sys.path.insert(0, os.environ.get("GR_REPO", "/repo"))
    sys.dont_write_bytecode = True
    import gopher_render.code_themes as package
    for m in sorted(x.name for x in pkgutil.iter_modules(package.__path__)):
        mod = importlib.import_module("gopher_render.code_themes." + m)
        if not isinstance(getattr(mod, "renderers", None), dict):
            continue
        try:
            rules = convert(mod.renderers)
        except (ThemeError, BadTheme) as e:
            yield m, e
        else:
            yield m, rules


def classes(rules):
    """The classes that the rules are about."""
    out = []

    def walk(s):
        if s["k"] == "class":
            c = "".join(map(chr, s["v"]))
            if c not in out and c != "highlight":
                out.append(c)
            walk(s["s"])
        elif s["k"] == "comb":
            walk(s["l"])
            walk(s["r"])
    for u in rules:
        for s in u["sel"]:
            walk(s)
    return out
