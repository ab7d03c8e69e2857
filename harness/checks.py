"""
The checks: which models are explored and which behaviours the implementation
is made to follow, for every property.
"""
import random
from html.parser import HTMLParser

import gen
from gen import (Gen, WORDS, MESSY, SENTENCES, ODD_SPACES, attr, base_cfg, codes, comment, data, el, element, end, fld, lit,
                 rule, session, start, tpl)

from impl import css_group

ANY = {"k": "any"}
NO_MARGIN = {"margin": [0, 0, 0, 0]}


def comb(left, c, right):
    return {"k": "comb", "c": c, "l": left, "r": right}


def cls(s, v):
    return {"k": "class", "s": s, "v": codes(v)}


def only(*tags):
    """A selector of elements that does not take the place of a default rule."""
    return [el(t) for t in tags] + [el("zz")]


PROBE_TAGS = ("x y z w q p a b i u s em img br hr div span li ul ol pre code input wbr meta col area base embed "
              "link param source track h1 h2 h3 section blockquote").split()


def probe_cfg(rnd, tags=None):
    c = base_cfg(lp="inline", ip="inline", width=60)
    if rnd.random() < 0.5:
        c["dflt"] = {"r": "P0", "s": []}
        c["rules"] = [rule(el(t), "P0") for t in PROBE_TAGS if t not in ("x", "y", "z", "w", "q", "section")]
    else:
        c["rules"] = [rule(el(t), "P0") for t in PROBE_TAGS]
    return c


def decorate(rnd, es):
    """Other ways to write the same document."""
    out = []
    for e in es:
        e = dict(e)
        if e["t"] in ("start", "startend"):
            if rnd.random() < 0.15:
                e["up"] = True
            if rnd.random() < 0.2:
                e["sq"] = True
        if e["t"] == "data" and rnd.random() < 0.2:
            e["num"] = True
        out.append(e)
    return out


def probe_soup(rnd, n, tags):
    """Anything at all made of some tags."""
    out = []
    for _ in range(n):
        x = rnd.random()
        t = rnd.choice(tags)
        if x < 0.42:
            e = start(t, [attr("class", "c")] if rnd.random() < 0.2 else [])
            if rnd.random() < 0.12:
                e["t"] = "startend"
            out.append(e)
        elif x < 0.72:
            out.append(end(t))
        elif x < 0.93:
            out.append(data(rnd.choice(["a", "bc", "d", "1", "e&f", "x<y", "{}"])))
        else:
            out.append(comment(rnd.choice(["c", "<x>", "</y>", " a -- b "])))
    return decorate(rnd, out)


def times(ck, quick, factor=15):
    """The number of cases."""
    return 2 * quick if ck.quick else quick * factor


def rich(rnd, lines=True, **kw):
    """lines: may the texts have line ends other than the line feed?"""
    g = Gen(rnd, words=rnd.choice([WORDS, MESSY, SENTENCES]),
            spaces=rnd.choice([[" "], [" ", "  ", "\n", "\n  ", "\t", " \n\n ", ""]]), unknown=["x", "section"])
    if rnd.random() < 0.5:
        g.unknown = g.unknown + rnd.sample(gen.OTHERS, 2)
    if rnd.random() < 0.12:
        odd = rnd.sample([x for x in ODD_SPACES if lines or len(("a" + x + "a").splitlines()) == 1], 4)
        g.spaces = g.spaces + odd + [" " + odd[0], odd[1] + "\n", odd[2] + odd[3]]
        g.edges = ["", " ", odd[0], odd[1]]
    g.spacy = rnd.random() < 0.15
    for k, v in kw.items():
        setattr(g, k, v)
    return g


# -----------------------------------------------------------------------------

def c01(ck):
    cl = ["exact", "balanced"]
    ck.family("nest", 4 if ck.quick else 6, times(ck, 700, 10), cl)
    ck.family("void", 4 if ck.quick else 6, times(ck, 300, 10), cl)
    r = ck.rnd
    docs = []
    for _ in range(times(ck, 900)):
        tags = r.sample(PROBE_TAGS, r.randint(2, 6)) + r.sample(["br", "hr", "img", "input"], 1)
        docs.append((probe_cfg(r), probe_soup(r, r.randint(3, 25), tags)))
    # well-formed and deep
    for _ in range(times(ck, 300)):
        docs.append((probe_cfg(r), decorate(r, deep(r, r.randint(2, 12)))))
    # almost well-formed
    for _ in range(times(ck, 300)):
        a, b = r.choice(gen.ALIKE)
        es = deep(r, r.randint(2, 8), [a, b] + r.sample(DEEP_TAGS, 2)) if r.random() < 0.7 else rich(r, unknown=["x", "section"]).document((1, 2))
        docs.append((probe_cfg(r), decorate(r, gen.slips(r, es))))
    ck.sessions("random documents", docs, cl, share=3)
    docs = [(probe_cfg(r), nested(r, r.randint(25, 60), r.choice([DEEP_TAGS, PROBE_TAGS[:4], ["x"], ["p", "div"], ["ul", "li"]]))) for _ in range(times(ck, 5, 6))]
    docs += [(probe_cfg(r), siblings(r, r.randint(60, 130), DEEP_TAGS + ["br", "img"])) for _ in range(times(ck, 3, 6))]
    ck.sessions("large documents", docs, cl, share=1)


def nested(r, n, tags, attrs=0, name="c"):
    """Elements in each other, with texts around them."""
    es = [data(r.choice(["t", "some words"]))]
    for k in range(n):
        es = element(r.choice(tags), ([data("a%d " % k)] if r.random() < 0.4 else []) + es + ([data(" b%d" % k)] if r.random() < 0.4 else []),
                     [attr("class", name)] if r.random() < attrs else [])
    return es


def siblings(r, n, tags):
    es = []
    for k in range(n):
        t = r.choice(tags)
        es += element(t, [] if t in gen.VOID else [data("a%d" % k)])
    return es


def many_links(r, n, gm, images=0.2):
    """Enough of them for numbers with several digits."""
    g = Gen(r, words=WORDS, hrefs=["/r", "/s", "http://w", "i.png"], titles=["Title", "Some words"], alts=["Pic", "An image of something", ""], coincidences=0)
    c = base_cfg(fmt="gophermap" if gm else "text", width=200, lp="footer" if gm else r.choice(["footer", "after_block"]),
                 ip=r.choice(["inline", "footer"] if gm else ["inline", "footer", "after_block"]))
    es = []
    while n > 0:
        kids = []
        for _ in range(r.randint(1, 9)):
            kids += (g.image() if r.random() < images else g.link(0)) + [data(" w ")]
            n -= 1
        es += element("p", kids)
    return c, es


def wide(r, w):
    s = wrap_options(r)
    pool = r.choice([WORDS, SENTENCES, WORDS + HYPHENATED, WORDS + ["y" * 90, "z" * 310]])
    return para_cfg(r, w, s), [r.choice(pool) for _ in range(r.randint(30, 90))]


DEEP_TAGS = ["x", "y", "p", "div", "ul", "li", "em", "pre", "blockquote", "section"]


def deep(r, d, tags=DEEP_TAGS):
    out = []
    for _ in range(r.randint(1, 3)):
        x = r.random()
        if x < 0.5 and d > 0:
            out += element(r.choice(tags), deep(r, d - r.randint(1, 3), tags))
        elif x < 0.65:
            out += element(r.choice(gen.VOID))
        elif x < 0.75:
            out.append(comment("c"))
        else:
            out.append(data(r.choice("abcd")))
    return out


# -----------------------------------------------------------------------------

class Events(HTMLParser):
    """The parsing events of a text, with adjacent pieces of text merged."""

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.events = []

    def handle_starttag(self, tag, attrs):
        self.events.append(("s", tag, tuple(attrs)))

    def handle_startendtag(self, tag, attrs):
        self.events.append(("se", tag, tuple(attrs)))

    def handle_endtag(self, tag):
        self.events.append(("e", tag))

    def handle_data(self, d):
        if self.events and self.events[-1][0] == "d":
            self.events[-1] = ("d", self.events[-1][1] + d)
        else:
            self.events.append(("d", d))

    def handle_comment(self, d):
        self.events.append(("c", d))

    def handle_decl(self, d):
        self.events.append(("!", d))

    def unknown_decl(self, d):
        self.events.append(("?!", d))

    def handle_pi(self, d):
        self.events.append(("pi", d))


def html_events(html, cuts):
    p = Events()
    at = 0
    for c in cuts:
        p.feed(html[at:c])
        at = c
    p.feed(html[at:])
    p.close()
    return p.events


RAW = ("<p> </p> <em> </em> <a href='x'> <a href=\"y z\" title='t'> </a> <br> <br/> <img src=i alt='a b'> <pre> </pre> <li> <ul> "
       "</ul> <div class='a b'> </div> <x> <!-- c --> <!doctype html> <?pi x> &amp; &lt; &#65; &#x42; &nbsp; & &am &unknown; &eacute "
       "< > </ <3 <! <!- </> </p > <p/> <P> <h1> </h1> <code> </code> <dl> <dt> <dd> <blockquote> </blockquote> "
       "word two wörd \u6f22 ' \" = /> a&b {} {0} %s \\").split(" ") + ["  ", "\n", "\t", " ", "<ol>\n<li>", "</li>\n</ol>"]


def raw_html(r, n):
    return "".join(r.choice(RAW) + r.choice(["", "", "", " "]) for _ in range(n))


def raw_stable(html, cuts):
    whole = html_events(html, [])
    return html_events(html, range(1, len(html))) == whole and html_events(html, cuts) == whole


def split_session(r, cfg, feeds, html_len):
    """The same document, fed in different ways."""
    ops = []
    ways = [None, "all"] + [sorted(r.sample(range(1, html_len), min(html_len - 1, r.randint(1, 4))))
                            for _ in range(2) if html_len > 1]
    for n, cuts in enumerate(ways, 1):
        f = {"op": "feed", "p": n, **feeds}
        if cuts is not None:
            f["cuts"] = cuts
        ops += [{"op": "new", "p": n, "cfg": 1}, f, {"op": "close", "p": n}]
    return dict(kind="session", cfgs=[cfg], ops=ops, cl=["same text"])


def c02(ck):
    import impl
    r = ck.rnd
    fam, cases = ck.behaviours("nest", 3 if ck.quick else 4, times(ck, 60))
    for c, h in cases:
        es = fam["pre"] + [fam["alpha"][i - 1] for i in h]
        ck.add("nest", split_session(r, fam["cfgs"][c - 1], dict(es=es), len(impl.events_html(es))))
    fam, cases = ck.behaviours("space", 4 if ck.quick else 5, times(ck, 150))
    for c, h in cases:
        es = fam["pre"] + [fam["alpha"][i - 1] for i in h]
        ck.add("space", split_session(r, fam["cfgs"][c - 1], dict(es=es), len(impl.events_html(es))))
    for _ in range(times(ck, 350)):
        g = rich(r, size=(1, 2))
        cfg = g.cfg()
        cfg["rules"] = g.rules()
        cfg["xrules"] = g.xrules()
        es = decorate(r, g.document((1, 2)))
        ck.add("random documents", split_session(r, cfg, dict(es=es), len(impl.events_html(es))))
    n = 0
    while n < times(ck, 350):
        h = raw_html(r, r.randint(2, 14))
        k = split_session(r, Gen(r).cfg(), dict(es=[], html=h), len(h))
        if all(raw_stable(h, o["cuts"]) for o in k["ops"] if isinstance(o.get("cuts"), list)):
            n += 1
            ck.add("random text", k)
    for _ in range(times(ck, 10, 8)):
        g = rich(r, size=(2, 4))
        cfg = g.cfg()
        es = g.document((4, 8))
        n = len(impl.events_html(es))
        k = split_session(r, cfg, dict(es=es), n)
        for o in k["ops"]:
            if isinstance(o.get("cuts"), list):
                o["cuts"] = sorted(r.randint(0, n) for _ in range(r.choice([50, 150])))
        ck.add("large documents", k)


# -----------------------------------------------------------------------------

def history_case(r, cfgs, ops, share, cl):
    """
    ops: feed, close and reset.  Before them come the documents on their own,
    after each of them the texts of all parsers are read.
    """
    new = [{"op": "new", "p": p, "cfg": p if not share else 1} for p in (1, 2)]
    refs = []
    parts = {1: [[]], 2: [[]]}
    fresh = {1: True, 2: True}
    out = []
    for o in ops:
        o = dict(o)
        p = o["p"]
        if o["op"] == "reset":
            parts[p] = [[]]
        elif o["op"] == "feed":
            parts[p][-1] = parts[p][-1] + o["es"]
        else:
            refs.append({"op": "ref", "cfg": p if not share else 1, "parts": [list(x) for x in parts[p]]})
            parts[p].append([])
        out.append(o)
        if r.random() < 0.7:
            out += [{"op": "read", "p": q} for q in (1, 2)]
    uniq = []
    for x in refs:
        if x not in uniq:
            uniq.append(x)
    return dict(kind="session", cfgs=cfgs[:1] if share else cfgs, ops=uniq + new + out, cl=cl, shareCfg=share)


def c03(ck):
    r = ck.rnd
    cl = ["same text", "exact"]
    fam, cases = ck.behaviours("sessions", 3 if ck.quick else 4, times(ck, 450, 12), module="MC_Session")
    for _, h in cases:
        ops = [fam["alpha"][i - 1] for i in h]
        ops += [{"op": "close", "p": p} for p in (1, 2)]
        share = r.random() < 0.5
        cfgs = list(fam["cfgs"])
        if r.random() < 0.5:
            cfgs.reverse()
        ck.add("sessions", history_case(r, cfgs, ops, share, cl))
    for _ in range(times(ck, 250)):
        g = rich(r, size=(1, 2), length=(1, 3))
        cfgs = []
        share = r.random() < 0.4
        for _ in (1, 2):
            c = g.cfg()
            c["rules"] = g.rules(n=(2, 8) if share else (0, 3))
            c["xrules"] = g.xrules()
            cfgs.append(c)
        if not share and r.random() < 0.4:
            # the same selectors for something else
            cfgs[1] = dict(cfgs[0], rules=[dict(u, s=v["s"]) if u["r"] == v["r"] else u for u in cfgs[0]["rules"]
                                           for v in [r.choice([w for w in cfgs[0]["rules"] if w["r"] == u["r"]])]])
            for u in cfgs[1]["rules"]:
                if u["s"] and "margin" in u["s"]:
                    u["s"] = dict(u["s"], margin=g.sides([2, 2, 2, 3]))
                elif u["s"] and "template" in u["s"] and u["r"] in ("Inline", "Em", "Strong", "none"):
                    u["s"] = dict(u["s"], capitalized=r.random() < 0.5)
        ops = []
        for _ in range(r.randint(4, 9)):
            p = r.randint(1, 2)
            x = r.random()
            if x < 0.55:
                es = g.document((1, 2)) if r.random() < 0.6 else g.soup(
                    ["p", "em", "a", "img", "li", "ol", "pre", "code", "x", "blockquote"], r.randint(1, 6))
                # in the middle of something
                if r.random() < 0.4 and len(es) > 2:
                    es = es[:r.randint(1, len(es) - 1)]
                ops.append({"op": "feed", "p": p, "es": es})
            elif x < 0.8:
                ops.append({"op": "close", "p": p})
            else:
                ops.append({"op": "reset", "p": p})
        ops += [{"op": "close", "p": p} for p in (1, 2)]
        ck.add("random histories", history_case(r, cfgs, ops, share, cl))
    # The same settings for several parsers, in the hands of all renderers
    for _ in range(times(ck, 60)):
        g = rich(r, size=(1, 2), length=(1, 3), depth=2)
        c = g.cfg(width=(40,))
        c["rules"] = g.rules(n=(15, 30))
        for u in c["rules"]:
            if "margin" in u["s"] and r.random() < 0.7:
                u["s"]["margin"] = [r.randint(1, 4), r.randint(1, 3), r.randint(1, 4), r.randint(1, 3)]
        c["xrules"] = g.xrules(0.8)
        es = g.document((2, 4))
        ops = [{"op": "feed", "p": 1, "es": es}, {"op": "close", "p": 1}, {"op": "feed", "p": 2, "es": es}, {"op": "close", "p": 2},
               {"op": "reset", "p": 1}, {"op": "feed", "p": 1, "es": es}, {"op": "close", "p": 1}]
        ck.add("shared settings", history_case(r, [c], ops, True, cl))
    # the same parsers many times
    for _ in range(times(ck, 6, 8)):
        g = rich(r, size=(1, 2), length=(1, 2), depth=1)
        cfgs = [g.cfg(), g.cfg()]
        for c in cfgs:
            c["rules"] = g.rules()
        es = [g.document((1, 1)) for _ in range(3)]
        ops = []
        for _ in range(r.randint(15, 30)):
            p = r.randint(1, 2)
            ops += [{"op": "feed", "p": p, "es": r.choice(es)}, {"op": "close", "p": p}]
            if r.random() < 0.7:
                ops.append({"op": "reset", "p": p})
        ck.add("long histories", history_case(r, cfgs, ops, r.random() < 0.3, cl))


# -----------------------------------------------------------------------------

NASTY = ("{ } {} {0} {content} {{x}} % %s %(a)s %% \\ \\n \\1 < <b> & &amp; &#65; @ \u20ac \u2603 a} {b c{d}e 100% f\\g "
         "\u00fcber \u6f22\u5b57 w{0}w {ref} {href} {title} stra\u00dfe cafe\u0301 \ufeffbom a\u200db \u202er").split()


def c04(ck):
    cl = ["conserved"]
    ck.family("text", 4 if ck.quick else 6, times(ck, 700, 10), cl)
    ck.family("inline", 4 if ck.quick else 5, times(ck, 200), ["letters conserved"])
    r = ck.rnd
    docs = []
    for _ in range(times(ck, 900)):
        g = rich(r, coincidences=0, hrefs=["/1", "2", "/3/4"], titles=["5", "6 7"], alts=["8", "9 9"], images=0.05)
        g.words = r.choice([WORDS + NASTY, NASTY, SENTENCES + NASTY])
        gm = r.random() < 0.15
        c = g.cfg(fmt="gophermap" if gm else "text", lp="footer" if gm else "inline", ip="inline")
        if gm:
            g.links = g.images = 0
        g.INLINE_TEMPLATES = ["{c}", "[{c}]", "_{c}_", "{c}!", "({c}", "*{c}*"]
        c["rules"] = [u for u in g.rules() if not (set(template_text(u)) & LETTERS) and u["r"] not in ("Link", "Image")
                      and el("a") not in u["sel"] and el("img") not in u["sel"]]
        if r.random() < 0.15:
            c["rules"].append(rule(el(r.choice(["x", "span", "em", "p", "li"])), "NonRenderer"))
        es = g.document() if gm or r.random() < 0.85 else g.soup(
            ["p", "em", "a", "br", "div", "li", "ol", "pre", "code", "span", "x", "blockquote"], r.randint(3, 14))
        docs.append((c, decorate(r, es)))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 250)):
        g = rich(r, coincidences=0, hrefs=["/1", "2", "/3/4"], titles=["5", "6 7"], alts=["8", "9 9"], images=0.05, breaks=0.15,
                 edges=["", "", " "])
        g.words = r.choice([MARKERS, WORDS + MARKERS, MARKERS + NASTY])
        c = g.cfg(fmt="text", lp="inline", ip="inline")
        if r.random() < 0.4:
            c["rules"] = g.rules()
        elif r.random() < 0.6:
            # words longer than lines, whole and broken
            g.words = g.words + RULERS + RULERS
            g.length = (5, 15)
            g.blocks = ["p", "p", "ul"]
            c["width"] = r.choice([5, 7, 10])
            s = {"break_long_words": r.random() < 0.3, "break_on_hyphens": r.random() < 0.6, "fix_sentence_endings": r.random() < 0.5}
            c["rules"] = [rule(el("p"), "Paragraph", s), rule(comb(el("ul"), ">", el("li")), "none", s)]
        docs.append((c, decorate(r, g.document())))
    ck.sessions("text like markers", docs, ["all but whitespace"], share=3)
    docs = []
    for _ in range(times(ck, 6, 6)):
        g = rich(r, coincidences=0, hrefs=["/1", "2", "/3/4"], titles=["5", "6 7"], alts=["8", "9 9"], images=0.02, length=(20, 120),
                 words=WORDS + NASTY + ["long" * 30, "{}" * 40])
        docs.append((g.cfg(fmt="text", lp="inline", ip="inline", width=(30, 67, 150)), g.document((2, 4))))
    ck.sessions("large documents", docs, cl, share=1)


RULERS = ["-" * 12, "=" * 13, "_" * 11, "*" * 12, "." * 14, "-" * 7, "- - -", "-=-=-=-=-=-", "a-----------b", "~~~~~~~~~~~~", "------------a", "b------"]
# What the default renderers put around texts
MARKERS = ("> > > >> >>> > * * ** *** # ## ### 1. 2. 10. : :: | || [1] [x][2] ``` ` `` _ __ ~~ ~ ![a](b) [a](b) - -- + = == ==== "
           "... .. . \" ' [ ] ( ) ; , / a b one").split()
LETTERS = set(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ{}%\\<>&@$\u20ac\u2603"))


def template_text(x):
    """The code points of all literal parts of templates and other texts of settings."""
    if isinstance(x, dict):
        if "sel" in x:
            return template_text(x["s"])
        return [c for k, v in x.items() if k not in ("txt", "k", "v", "margin", "padding", "start_index", "step",
                                                     "initial_indent", "subsequent_indent", "indent", "spread", "font")
                for c in template_text(v)]
    if isinstance(x, list):
        if x and all(isinstance(i, int) and not isinstance(i, bool) for i in x):
            return list(x)
        return [c for v in x for c in template_text(v)]
    return []


# -----------------------------------------------------------------------------

def nth(s, f, a, b, txt):
    return {"k": "nth", "s": s, "f": f, "na": a, "nb": b, "txt": txt}


def an_plus_b(r):
    a, b = r.randint(-3, 4), r.randint(-3, 6)
    x = r.random()
    if x < 0.2:
        return 0, b, "%d" % b if b >= 0 or True else ""
    if x < 0.3:
        return 2, 0, "even"
    if x < 0.4:
        return 2, 1, "odd"
    head = {1: "n", -1: "-n"}.get(a, "%dn" % a)
    if r.random() < 0.2:
        return a, 0, head
    sep = r.choice(["", " "])
    return a, b, head + sep + ("+" if b >= 0 else "-") + sep + str(abs(b))


def selector(r, d=2):
    s = plain_selector(r, d)
    if r.random() < 0.03:
        # applies to the last element
        s = {"k": "pe", "s": s, "p": r.choice(["before", "first-line", "x"])} if s["k"] != "comb" else s
    return notation(r, s) if r.random() < 0.25 else s


def notation(r, s):
    """The same, written differently."""
    s = {k: notation(r, v) if isinstance(v, dict) else v for k, v in s.items()}
    if s["k"] in ("el", "attr", "ps", "nth") and r.random() < 0.5:
        s["up"] = True
    if s["k"] == "comb" and s["c"] != " " and r.random() < 0.5:
        s["tight"] = True
    if s["k"] not in ("any", "el", "comb") and s["s"] == ANY and r.random() < 0.5:
        s["bare"] = True
    return s


ATTR_VALUES = {
    "class": ["c", "c d", "d  c", "e-f", "", "cd", None, "a:b c", "1x", "d \u00e9_", "C", "c\td", " c\n d ", "c\u00a0d", "c\x0bd", " ", "c c"],
    "id": ["i", "j", "I", "i-j", "i j", "", None],
    "t": ["v", "v-w", "w v", "", "vw", "x\"y", " v ", "V", None, "w\tv", "v\nw", "w\n v", "\t", "v\u00a0w", "v-w-x", "v-", "-v", "--", "vv"],
    "lang": ["v", "v-w", "en-GB", "en", "en-GB-x", "eng", "EN"],
}


def derived(r, op, v):
    """A value to compare the value of an attribute with, that makes a difference."""
    if r.random() < 0.3 or len(v) < 2 or op == "=":
        return v
    k = r.randint(1, len(v) - 1)
    if op == "~=":
        return r.choice(v.split() or [v])
    if op == "|=":
        return r.choice([v[:v.index("-")], v[:v.rindex("-")], v[:v.index("-") + 1]]) if "-" in v else v
    if op == "^=":
        return v[:k]
    if op == "$=":
        return v[k:]
    return v[r.randint(0, k - 1):k] if k else v


def plain_selector(r, d=2):
    base = lambda: {"k": "el", "t": r.choice(["x", "y"]), "ns": "ns"} if r.random() < 0.02 else r.choice([ANY, el("x"), el("y"), el("z"), el("p"), el("em"), el("li")])
    s = base()
    for _ in range(r.choice([0, 0, 1, 1, 1, 2])):
        x = r.random()
        if x < 0.2:
            s = cls(s, r.choice(["c", "d", "e-f", "c", "d", "a:b", "1x", "\u00e9_"]))
        elif x < 0.3:
            s = {"k": "hash", "s": s, "v": codes(r.choice(["i", "j"]))}
        elif x < 0.5:
            op = r.choice(["exists", "=", "~=", "|=", "^=", "$=", "*="])
            v = r.choice(["v", "v-w", "w", "", "v w", "c", "c d", "-", "x\"y", "V"]) if op != "exists" else ""
            a = r.choice(["t", "class", "id", "lang"])
            if op != "exists" and r.random() < 0.6:
                v = derived(r, op, r.choice([x for x in ATTR_VALUES[a] if x is not None]))
            s = {"k": "attr", "s": s, "a": a, "op": op, "v": codes(v)}
            if r.random() < 0.05:
                s["ns"] = "ns"
        elif x < 0.65:
            s = {"k": "ps", "s": s, "p": r.choice(["first-child", "last-child", "first-child", "last-child",
                                                   "only-child", "empty", "hover", "root"])}
        elif x < 0.88:
            a, b, txt = an_plus_b(r)
            s = nth(s, r.choice(["nth-child", "nth-last-child"]), a, b, txt)
        else:
            sub = r.choice([el("x"), el("p"), cls(ANY, "c"), {"k": "hash", "s": ANY, "v": codes("i")},
                            {"k": "ps", "s": ANY, "p": "first-child"}, nth(ANY, "nth-child", 2, 0, "2n"),
                            {"k": "attr", "s": ANY, "a": "t", "op": "exists", "v": []}])
            s = {"k": "not", "s": s, "x": sub}
    if d > 0 and r.random() < 0.5:
        s = comb(s, r.choice([" ", ">", "+", "~"]), plain_selector(r, 0) if r.random() < .6 else simple(plain_selector(r, d - 1)))
    if d == 2 and r.random() < 0.25:
        s = comb(s, r.choice([" ", ">", "+", "~"]), simple(plain_selector(r, 0)))
    return s


def simple(s):
    """Combinations lean to the left."""
    return s if s["k"] != "comb" else s["r"] if s["r"]["k"] != "comb" else simple(s["r"])


def far_nth(r):
    a, b = r.choice([0, 1, 2, 7, 10, 11, -1]), r.randint(8, 30)
    return nth(ANY, r.choice(["nth-child", "nth-last-child"]), a, b, "%dn+%d" % (a, b))


def chain_selector(r):
    """Simple selectors that many elements match, so that all ways to match the combinators have to be tried."""
    part = lambda: r.choice([el("x"), el("x"), el("y"), el("y"), cls(ANY, "c"), ANY, cls(el("x"), "c"),
                             {"k": "ps", "s": el("x"), "p": r.choice(["first-child", "last-child"])},
                             {"k": "not", "s": ANY, "x": el("x")}])
    s = part()
    for _ in range(r.choice([2, 2, 2, 3, 3, 4])):
        s = comb(s, r.choice([" ", " ", ">", "+", "~", "~"]), part())
    return s


def chain_doc(r, d):
    out = []
    for _ in range(r.randint(1, 4 if d > 2 else 3)):
        t = r.choice(["x", "y"])
        ats = [attr("class", "c")] if r.random() < 0.3 else []
        out += element(t, chain_doc(r, d - 1) if d > 0 and r.random() < 0.8 else [], ats)
        if r.random() < 0.1:
            out.append(data(" "))
    return out


def tree_doc(r, tags, d, spaces=True):
    out = []
    for _ in range(r.randint(1, 5)):
        if spaces and r.random() < 0.4:
            out.append(data(r.choice([" ", "\n", "t", "\n  "])))
        if r.random() < 0.08:
            out.append(comment("c"))
        t = r.choice(tags)
        ats = []
        if r.random() < 0.4:
            ats.append(attr("class", r.choice(ATTR_VALUES["class"])))
        if r.random() < 0.25:
            ats.append(attr("id", r.choice(ATTR_VALUES["id"])))
        if r.random() < 0.3:
            ats.append(attr("t", r.choice(ATTR_VALUES["t"])))
        if r.random() < 0.2:
            ats.append(attr("lang", r.choice(ATTR_VALUES["lang"])))
        if r.random() < 0.1:
            out += [dict(start(t, ats), t="startend")]
        else:
            out += element(t, tree_doc(r, tags, d - 1, spaces) if d > 0 and r.random() < 0.65 else [data("t")], ats)
    return out


def select_cfg(r, sels):
    """Every selector sets one key."""
    c = base_cfg(lp="inline", ip="inline", width=60, dflt={"r": "P0", "s": []})
    c["rules"] = [rule(s, "none", {"k%d" % (k + 1): 1}) for k, s in enumerate(sels)]
    return c


def c05(ck):
    cl = ["exact"]
    ck.family("select", 4 if ck.quick else 5, times(ck, 700, 10), cl)
    ck.family("siblings", 3 if ck.quick else 5, times(ck, 300, 10), cl)
    r = ck.rnd
    docs = []
    for _ in range(times(ck, 700)):
        sels = []
        seen = set()
        while len(sels) < 8:
            g = [selector(r)] + ([selector(r, 1)] if r.random() < 0.15 else [])
            if css_group(g) not in seen:
                seen.add(css_group(g))
                sels.append(g)
        docs.append((select_cfg(r, sels), tree_doc(r, ["x", "y", "z"], r.randint(1, 3))))
    ck.sessions("random selectors", docs, cl, share=2)
    docs = []
    for _ in range(times(ck, 150)):
        sels = []
        while len(sels) < 8:
            s = [chain_selector(r)]
            if s not in sels:
                sels.append(s)
        docs.append((select_cfg(r, sels), chain_doc(r, r.randint(2, 4))))
    ck.sessions("random combinations", docs, cl, share=2)
    docs = []
    for _ in range(times(ck, 6, 6)):
        sels = []
        while len(sels) < 8:
            x = [chain_selector(r) if r.random() < 0.5 else
                 far_nth(r)]
            if x not in sels:
                sels.append(x)
        docs.append((select_cfg(r, sels), nested(r, r.randint(12, 25), ["x", "y"], 0.3, "c") if r.random() < 0.5 else
                     siblings(r, r.randint(25, 45), ["x", "y"])))
    ck.sessions("large documents", docs, cl, share=1)


# -----------------------------------------------------------------------------

COMPETING = [ANY, el("x"), cls(el("x"), "c"), cls(ANY, "c"), cls(ANY, "d"), cls(cls(ANY, "c"), "d"), {"k": "hash", "s": ANY, "v": codes("i")},
             {"k": "hash", "s": el("x"), "v": codes("i")}, comb(el("y"), " ", el("x")), comb(el("y"), ">", el("x")), comb(cls(ANY, "c"), " ", el("x")),
             comb(el("y"), " ", cls(el("x"), "c")), {"k": "ps", "s": el("x"), "p": "first-child"}, {"k": "ps", "s": ANY, "p": "last-child"},
             nth(el("x"), "nth-child", 2, 1, "odd"), {"k": "attr", "s": ANY, "a": "class", "op": "exists", "v": []},
             {"k": "not", "s": el("x"), "x": cls(ANY, "d")}, {"k": "not", "s": ANY, "x": {"k": "hash", "s": ANY, "v": codes("i")}},
             comb(el("x"), "+", el("x")), comb(el("x"), "~", ANY)]


def cascade_rules(r):
    out = []
    used = set()
    for _ in range(r.randint(2, 7)):
        s = [selector(r, r.choice([0, 0, 1, 2]))]
        if r.random() < 0.15:
            s.append(selector(r, 1))
        if css_group(s) in used:
            continue
        used.add(css_group(s))
        st = {k: r.randint(0, 9) for k in ("k1", "k2", "k3") if r.random() < 0.5}
        kind = r.choice(["none", "none", "P0", "P1", "P2", "P3"])
        u = rule(s, kind, st)
        if kind != "none" and not st and r.random() < 0.5:
            u["tuple"] = True
        out.append(u)
    return out


def c06(ck):
    cl = ["exact"]
    ck.family("cascade", 3 if ck.quick else 4, times(ck, 600, 10), cl)
    r = ck.rnd
    docs = []
    for _ in range(times(ck, 500)):
        c = base_cfg(lp="inline", ip="inline", width=60)
        c["dflt"] = r.choice([{"r": "Renderer", "s": []}, {"r": "P0", "s": []}, {"r": "P2", "s": {"k1": 7, "k2": 8}},
                              {"r": "P3", "s": {"k3": 9}}, {"r": "none", "s": {"k1": 5}}])
        c["rules"] = cascade_rules(r)
        docs.append((c, tree_doc(r, ["x", "y", "z"], r.randint(1, 3))))
    ck.sessions("random rules", docs, cl, share=2)
    # rules that nearly all match
    docs = []
    for _ in range(times(ck, 150)):
        c = base_cfg(lp="inline", ip="inline", width=60, dflt={"r": "P0", "s": []})
        used = set()
        for _ in range(r.randint(2, 6)):
            g = r.sample(COMPETING, r.choice([1, 1, 2, 2, 3]))
            if css_group(g) not in used:
                used.add(css_group(g))
                c["rules"].append(rule(g, r.choice(["none", "P1", "P2", "P3"]), {k: r.randint(0, 9) for k in ("k1", "k2") if r.random() < 0.6}))
        ats = lambda: ([attr("class", r.choice(["c", "c d", "d"]))] if r.random() < 0.8 else []) + ([attr("id", "i")] if r.random() < 0.4 else [])
        docs.append((c, element("y", [e for _ in range(r.randint(1, 3)) for e in element("x", [data("t")] + (element("x", [], ats()) if r.random() < 0.3 else []), ats())], ats())))
    ck.sessions("competing rules", docs, cl, share=4)
    # the default rules, overridden and extended
    docs = []
    for _ in range(times(ck, 350)):
        g = rich(r, words=WORDS, classes=["c", "d"], size=(1, 2), length=(1, 3), links=0.2, images=0.15)
        c = g.cfg(width=(60, 100), margins=0)
        c["rules"] = default_rules(r, g)
        c["xrules"] = link_rules(r, g)
        if r.random() < 0.3:
            c["dflt"] = {"r": "Strong", "s": {"template": tpl("<{c}>")}}
        docs.append((c, g.document()))
    ck.sessions("default rules", docs, cl, share=3)
    # many of one kind against few of another
    docs = []
    for _ in range(times(ck, 25, 6)):
        n = r.randint(9, 14)
        few = lambda: r.choice([cls(ANY, "c"), cls(el("x"), "c"), {"k": "hash", "s": ANY, "v": codes("i")}, comb(cls(ANY, "c"), " ", el("x")),
                                {"k": "ps", "s": ANY, "p": "first-child"}, {"k": "ps", "s": el("x"), "p": "first-child"}])

        def many():
            x = el("x")
            if r.random() < 0.4:
                for _ in range(r.randint(9, 13)):
                    x = cls(x, "c")
                return x
            for _ in range(r.randint(9, n)):
                x = comb(x, r.choice([" ", ">"]), el("x"))
            return x
        sels = []
        for f in r.sample([few, many, few, many], 4):
            x = [f()]
            if x not in sels:
                sels.append(x)
        c = base_cfg(lp="inline", ip="inline", width=60, dflt={"r": "P0", "s": []},
                     rules=[rule(x, r.choice(["none", "P1", "P2", "P3"]), {k: r.randint(0, 9) for k in ("k1", "k2") if r.random() < 0.7})
                            for x in sels])
        es = [data("t")]
        for d in range(n + 2):
            es = element("x", es, ([attr("class", "c")] if r.random() < 0.7 else []) + ([attr("id", "i")] if r.random() < 0.4 else []))
        docs.append((c, es))
    ck.sessions("long selectors", docs, cl, share=2)


def default_rules(r, g):
    """Rules that compete with the default ones for their elements."""
    out = []
    keys = {"Em": "template", "Strong": "template"}
    for _ in range(r.randint(1, 5)):
        t = r.choice(["em", "strong", "p", "h1", "h2", "li", "a", "img", "code", "blockquote", "pre", "dd", "span"])
        base = r.choice([el(t), cls(el(t), "c"), cls(cls(ANY, "c"), "d"), comb(el("p"), " ", el(t)), cls(ANY, "d"),
                         {"k": "ps", "s": el(t), "p": "first-child"}, comb(el("ul"), ">", el("li")),
                         {"k": "not", "s": el(t), "x": cls(ANY, "c")}])
        inline = t in ("em", "strong", "span")
        own = r.choice(["none", "none", "Strong", "Em", "Underline"]) if inline else "none"
        if inline:
            s = {"template": tpl(r.choice(["<{c}>", "({c})", "={c}="]))} if r.random() < 0.7 else {"capitalized": True}
        elif t == "a":
            s = {"templates": {"reference": tpl("{content}@{ref}"), "inline": [tpl("{content}@{href}"), tpl("{title}@{href}")]}}
        elif t == "img":
            s = {"templates": {"reference": tpl("{title}@{ref}"), "inline": tpl("{title}@{href}")}}
        elif t == "code":
            s = {"inline_template": tpl("'{c}'")}
        elif t == "pre":
            s = {"indent": r.randint(0, 3)}
        elif t in ("p", "li", "dd"):
            s = r.choice([{"margin": [2, 0, 1, 1]}, {"capitalized": True}, {"initial_indent": 2}, {"line_template": tpl("+ {c}")}])
        elif t in ("h1", "h2"):
            s = r.choice([{"capitalized": True}, {"underlined": True}, {"margin": [0, 0, 2, 2]}])
        else:
            s = r.choice([{"margin": [1, 0, 1, 2]}, {"line_template": tpl("| {c}")}])
        # in the place of the default rule, there has to be a renderer
        if base == el(t) and own == "none":
            own = g.KIND_OF.get(t, "DefItem" if t == "dd" else "ListItem")
        if base["k"] in ("class",) and base["s"]["k"] != "el" and not inline:
            s = {"margin": [1, 0, 1, 1]}
        out.append(rule(base, own, s))
    seen = []
    for u in out:
        if all(u["sel"] != v["sel"] for v in seen):
            seen.append(u)
    return seen


def link_rules(r, g):
    out = []
    if r.random() < 0.4:
        out.append(rule(el("a"), r.choice(["XLink", "XLink", "none"]), g.kind_settings("XLink")))
    if r.random() < 0.4:
        out.append(rule(el("img"), r.choice(["XImage", "XImage", "none"]), g.kind_settings("XImage")))
    if r.random() < 0.5:
        out.append(rule(cls(r.choice([ANY, el("a")]), "c"), "none", {"max_link_description": r.choice([2, 5, 20])}))
    if r.random() < 0.3:
        out.append(rule(comb(el("p"), " ", el("a")), "none", {"max_link_description": 3}))
    return out


# -----------------------------------------------------------------------------

def c07(ck):
    r = ck.rnd
    fam, cases = ck.behaviours("classes", 3 if ck.quick else 4, times(ck, 800, 10), module="MC_Classes")
    for _, h in cases:
        ck.add("classes", dict(kind="cls", ops=[dict(o) for o in fam["pre"]] + [dict(fam["alpha"][i - 1]) for i in h]))
    for _ in range(times(ck, 300)):
        ck.add("random classes", dict(kind="cls", ops=class_history(r, r.randint(4, 14))))
    for _ in range(times(ck, 12, 8)):
        ck.add("long histories", dict(kind="cls", ops=class_history(r, r.randint(25, 45))))


def class_history(r, n):
    classes = {}
    insts = set()
    lib = ["Renderer", "Inline", "Em", "Block", "Header"]
    keys = ["k1", "k2", "k3", "template", "centered"]
    ops = []
    depth = {}
    own = {}
    val = lambda: r.randint(1, 9) if r.random() < 0.7 else r.choice([0, 101, 105, 105, 106, 107, 108, 109, 110, 111])
    st = lambda: {k: val() for k in keys if r.random() < 0.35} or []
    for k in range(n):
        x = r.random()
        if x < 0.35 or not classes:
            c = "C%d" % (len(classes) + 1)
            pool = list(classes) + r.sample(lib, 1)
            b = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 2, 3])))
            if "Renderer" in b and len(b) > 1:
                b.remove("Renderer")
                b.append("Renderer")
            s = st()
            ops.append({"op": "define", "c": c, "bases": b, "s": s})
            classes[c] = True
            own[c] = s or {}
        elif x < 0.5:
            c = r.choice(list(classes))
            k = r.choice(keys)
            ops.append({"op": "cset", "c": c, "k": k, "v": val()})
        elif x < 0.6:
            ops.append({"op": "creplace", "c": r.choice(list(classes)), "s": st()})
        elif x < 0.85:
            i = r.randint(1, 3)
            ops.append({"op": "make", "i": i, "c": r.choice(list(classes)), "s": st()})
            insts.add(i)
        elif insts:
            ops.append({"op": "iset", "i": r.choice(sorted(insts)), "k": r.choice(keys), "v": val()})
    # classes that cannot be made are no classes: the order of bases may be impossible
    good = {"Renderer", "Inline", "Em", "Block", "Header"}
    made = dict(Renderer=type("R", (), {}))
    made["Inline"] = type("I", (made["Renderer"],), {})
    made["Em"] = type("E", (made["Inline"],), {})
    made["Block"] = type("B", (made["Renderer"],), {})
    made["Header"] = type("H", (made["Block"],), {})
    out = []
    for o in ops:
        if o["op"] == "define":
            if not all(b in made for b in o["bases"]):
                continue
            try:
                made[o["c"]] = type(o["c"], tuple(made[b] for b in o["bases"]), {})
            except TypeError:
                out.append(o)
                continue
        elif "c" in o and o["c"] not in made:
            continue
        elif o["op"] == "iset" and not any(p["op"] == "make" and p["i"] == o["i"] for p in out):
            continue
        out.append(o)
    return out


# -----------------------------------------------------------------------------

# Names that are alike, among others
ND_KEYS = ["a", "b", "A", "a_b", "a-b", "ab", "_a", "a_", "__x", "1", "", "class", "line_template", "line-template", "\u00e9",
           "keys", "get", "pop", "items", "copy", "values", "update", "clear", "setdefault", "popitem"]


def c08(ck):
    r = ck.rnd
    fam, cases = ck.behaviours("settings", 3 if ck.quick else 4, times(ck, 2500, 10), module="MC_NameDict")
    for _, h in cases:
        ck.add("settings", dict(kind="nd", keys=["a", "b", "keys", "get"], ops=[dict(fam["alpha"][i - 1]) for i in h]))
    value = lambda: r.randint(1, 9) if r.random() < 0.6 else r.randint(-5, 0)
    for _ in range(times(ck, 500)):
        ops = []
        keys = r.sample(ND_KEYS, r.randint(2, 6))
        if r.random() < 0.3:
            keys = list({*keys, *r.choice([("a_b", "a-b", "ab"), ("a", "A", "_a", "a_"), ("line_template", "line-template")])})
        for _ in range(r.randint(3, 15)):
            op = r.choice(["setitem", "setattr", "setattr", "delitem", "delattr", "update", "ior", "pop", "setdefault", "remake",
                           "clear" if r.random() < 0.2 else "delattr",
                           # copying needs the method
                           "clone" if "items" not in keys else "delitem"])
            o = {"op": op}
            if op in ("update", "ior"):
                o["m"] = {k: value() for k in r.sample(keys, r.randint(1, min(3, len(keys))))}
            elif op not in ("clear", "remake", "clone"):
                o["k"] = r.choice(keys)
            if op in ("setitem", "setattr", "setdefault"):
                o["v"] = value()
            ops.append(o)
        ck.add("random settings", dict(kind="nd", keys=keys, ops=ops))
    # many keys and long histories
    for _ in range(times(ck, 12, 8)):
        keys = ["k%d" % k for k in range(r.randint(12, 30))]
        ops = []
        for _ in range(r.randint(40, 80)):
            op = r.choice(["setitem", "setattr", "setitem", "setattr", "delitem", "delattr", "update", "pop", "setdefault"])
            o = {"op": op, "k": r.choice(keys)}
            if op == "update":
                o = {"op": op, "m": {k: value() for k in r.sample(keys, r.randint(1, 12))}}
            elif op in ("setitem", "setattr", "setdefault"):
                o["v"] = value()
            ops.append(o)
        ck.add("long histories", dict(kind="nd", keys=keys, ops=ops))


# -----------------------------------------------------------------------------

def link_docs(ck, n, share=3, **kw):
    r = ck.rnd
    docs = []
    for _ in range(n):
        g = rich(r, words=WORDS, links=0.35, images=0.15, comments=0.03, length=(1, 3), size=(1, 3),
                 blocks=[b for b in gen.BLOCKS if not b.startswith("pre")] + ["prelinks"],
                 hrefs=["/r", "/s", "http://w", "#t", "i.png"], titles=["Title", "", "Some words"],
                 alts=["Pic", "An image", "", None])
        for k, v in kw.items():
            setattr(g, k, v)
        docs.append(g)
    return docs


def c09(ck):
    r = ck.rnd
    cl = ["link numbers", "references"]
    ck.family("links", 4 if ck.quick else 5, times(ck, 700, 10), cl)
    docs = []
    for g in link_docs(ck, times(ck, 700)):
        gm = r.random() < 0.2
        c = g.cfg(fmt="gophermap" if gm else "text", width=(200,), ip=r.choice(["inline", "footer", "after_block"]), margins=0.3)
        if gm:
            c["lp"] = "footer"
            c["ip"] = r.choice(["inline", "footer"])
        # numbers cannot be told if there is something between their digits
        c["rules"] = [u for u in g.rules(["em", "strong", "h1", "div", "span", "blockquote"], (0, 2)) if "spread" not in u["s"]]
        if r.random() < 0.2:
            es = g.soup(["p", "em", "a", "a", "img", "div", "li", "blockquote"], r.randint(3, 14))
            # blocks in links in paragraphs: lines that are filled up would be
            # broken before the reference
            for u in c["rules"]:
                for k in ("border", "padding"):
                    if u["s"]:
                        u["s"].pop(k, None)
                u["s"] = u["s"] or []
        else:
            es = g.document()
        docs.append((c, es))
    ck.sessions("random documents", docs, cl, share=3)
    ck.sessions("many links", [many_links(r, r.choice([12, 40, 105, 120]), False) for _ in range(times(ck, 6, 6))], cl, share=1)


SPECIAL = ['say "hi"', "{0}", "{title}", "{href} {}", "100% s", "a\\nb", "[x](y)", "{content}", "}{", "<b>", "&amp;", "\u00e9\u6f22 \u00df", "'s"]


def c10(ck):
    r = ck.rnd
    cl = ["exact but numbers"]
    ck.family("links", 4 if ck.quick else 5, times(ck, 500, 10), cl)
    docs = []
    for g in link_docs(ck, times(ck, 700), depth=1, words=["alpha", "beta", "gamma", "d", "epsilonzeta", "exactly10c", "elevenchars"],
                       titles=["exactly10c", "elevenchars", "Title", "", "Two words"],
                       blocks=["p", "p", "div", "ul", "blockquote", "h2"],
                       edges=["", "", " ", "  "],
                       alts=["exactly10c", "elevenchars", " exactly10c", "exactly10c  ", "  elevenchars ", "Pic", "", None, " padded ",
                             "An image of it", " ", "ends  here too"]):
        c = g.cfg(fmt="text", width=(200,), margins=0)
        c["rules"] = [rule(el(t), k, g.kind_settings(k)) for t, k in (("a", "Link"), ("img", "Image")) if r.random() < 0.3]
        c["xrules"] = g.xrules(0.3)
        g.sourceless = 0.4
        if r.random() < 0.25:
            # what could be mistaken for something else
            g.titles = g.alts = SPECIAL
            g.hrefs = ["/a{b}c", "/100%", "/{href}", "x\\y", "/a b", "/q?x=\"y\"&z", "/r", "/[1]"]
        docs.append((c, g.document()))
    ck.sessions("random documents", docs, cl, share=3)
    ck.sessions("many links", [many_links(r, r.choice([12, 40, 105]), False, 0) for _ in range(times(ck, 4, 6))], cl, share=1)


def c11(ck):
    r = ck.rnd
    cl = ["link lines", "descriptions", "text as in text"]
    text = lambda c: [dict(c, fmt="text")]
    ck.family("gopher", 4 if ck.quick else 5, times(ck, 400, 10), cl, variants=text)
    docs = []
    for g in link_docs(ck, times(ck, 500), spaces=[" ", "\n", "  \n ", "  "], titles=["Title", "A\n title", "two  \n  words", " padded ", "", "\n"],
                       alts=["Pic", "An\n image of\n it", " padded alternative ", "", None]):
        g.spacy = False     # a template with a tab would make a line of text look like a link line
        c = g.cfg(fmt="gophermap", lp="footer", ip=r.choice(["footer", "inline"]), width=(30, 60))
        c["rules"] = g.rules(["div", "p", "h1", "em", "strong", "blockquote", "ul", "a"], (0, 3))
        c["xrules"] = []
        for t, k in (("a", "XLink"), ("img", "XImage")):
            if r.random() < 0.5:
                s = g.box_settings(0.6)
                if "margin" in s and r.random() < 0.5:
                    s["margin"] = [0, s["margin"][1], 0, s["margin"][3]]
                if r.random() < 0.4:
                    s["max_link_description"] = r.choice([0, 1, 5, 10, 40])
                c["xrules"].append(rule(el(t), k, s))
        if r.random() < 0.3:
            c["padding"] = g.sides([1, 2, 1, 2])
            c["border"] = g.sides([1, 1, 1, 1])
        if r.random() < 0.25:
            # where tabs do not stay, other than in a link line
            g.blocks = ["p", "ul", "ol"]
            g.inlines = [t for t in g.inlines if t != "code"]
            g.titles = ["a\tb", "one\ttwo\nthree  four\tfive\u00a0six\tseven", "\t", "a b c d\te f"]
            g.alts = g.titles + ["a\x0bb\x0cc\x1cd\u2028e\u3000f g h"]
            g.spaces = [" ", "\t", "\n\t"]
            es = []
            for _ in range(r.randint(1, 3)):
                es += g.block() + g.ws()
            c["rules"] = [u for u in c["rules"] if el("a") in u["sel"]]
        elif r.random() < 0.2:
            es = g.soup(["p", "a", "a", "pre", "em", "img", "li", "blockquote"], r.randint(2, 9))
        else:
            es = g.document()
        docs.append((c, es))
    ck.sessions("random documents", docs, cl, share=2, variants=text)
    for k, (es, name) in enumerate(AFTER_BLOCK):
        c = base_cfg(fmt="gophermap", lp="after_block", ip="inline", width=60)
        case = session([c], [(1, es)], ["link lines after blocks"])
        if name is None:
            ck.add("links after blocks", case)
        else:
            ck.finding(name, case)
    ck.sessions("many links", [many_links(r, r.choice([12, 40, 105]), True, 0.5) for _ in range(times(ck, 4, 6))], cl, share=1, variants=text)


def _a(href, *kids, **ats):
    return element("a", list(kids), [attr("href", href)] + [attr(k, v) for k, v in ats.items()])


AFTER_BLOCK = [
    # at the root and in elements that lay nothing out, lines are whole
    (_a("/r", data("one")) + [data(" text")], None),
    (element("section", _a("/r", data("one")) + _a("/s", data("two"))), None),
    # in paragraphs and quotations they are wrapped, marked or filled up
    (element("p", _a("/r", data("one two"))), "after-block-paragraph"),
    (element("blockquote", _a("/r", data("one"))), "after-block-quote"),
    (element("ul", element("li", _a("/r", data("one")))), "after-block-item"),
]


# -----------------------------------------------------------------------------

URL_CHARS = list("abz019./:?#;=&@%-_~+[]() ") + ["gopher://", "http://", "//", "mailto:", ".txt", ".html", ".gif", ".png", "/1/", "../",
                                                ":70", ":7071", "h.org", "URL:", "é", "漢", "%20", ".md", ".tar", "?x=y.gif", "#f.htm"]


def url_docs(r, hrefs, n=12):
    docs = []
    for k in range(0, len(hrefs), n):
        es = []
        for h in hrefs[k:k + n]:
            es += _a(h, data("x")) if r.random() < 0.85 else element("img", (), [attr("src", h), attr("alt", "y")])
        c = base_cfg(fmt="gophermap", lp="footer", ip="footer", port=r.choice([70, 7070, 0]), host=codes(r.choice(["my.host", "H", "::1"])))
        docs.append((c, es))
    return docs


def c12(ck):
    r = ck.rnd
    cl = ["targets"]
    fam, cases = ck.behaviours("targets", 1, times(ck, 4000, 16), module="MC_Url")
    hrefs = []
    for _, (a, b, c, d, e) in cases:
        hrefs.append("".join(map(chr, fam["schemes"][a - 1] + fam["hosts"][b - 1] + fam["dirs"][c - 1] + fam["names"][d - 1] + fam["ends"][e - 1])))
    ck.sessions("targets", url_docs(r, hrefs), cl, share=2)
    exts = ("html htm gif jpg jpeg png bmp tiff txt csv tsv md tif xhtml htmlx shtml gifx jpe jp pngs webp svg tx text xt csvx "
            "sv mdown markdown m d mp3 pdf zip gz json xml h g I 0 1 9").split()
    hrefs = [a + "f." + e + b for e in exts for a in ("", "/d.x/", "gopher://o.org/", "gopher://o.org:7/g.y/") for b in ("", "?q")]
    ck.sessions("extensions", url_docs(r, hrefs), cl, share=2)
    hrefs = ["".join(r.choice(URL_CHARS) for _ in range(r.randint(0, 8))) for _ in range(times(ck, 2500))]
    hrefs = [h for h in hrefs if url_known(h)]
    ck.sessions("random targets", url_docs(r, hrefs), cl, share=2)


def url_known(h):
    """Without things that the standard library itself does not treat uniformly."""
    return "[" not in h and "]" not in h


# -----------------------------------------------------------------------------

def para_cfg(r, w, s, tpl_text="[{c}]", optimise=False):
    st = {"margin": [0, 0, 0, 0], "justification": "left", "line_template": tpl(tpl_text)}
    st.update(s)
    return base_cfg(width=w, lp="inline", optimise=optimise, rules=[rule(el("p"), "Paragraph", st)])


HYPHENATED = ("well-known up-to-date a-b -x x- --y y-- a--b c---d e-1 1-f 2-3 state-of-the-art g-h-i jk-lm-no - -- --- é-à "
              "under_score-and x_-y (p-q) r-s. t-u! 'v-w' non-\u6f22\u5b57 anti-disestablishmentarian-ism e\u0301-o\u0308 re\u0301sume\u0301 \ufeffx a\u200d-b").split()


def wrap_text(r):
    pool = r.choice([WORDS, SENTENCES, HYPHENATED, MESSY, WORDS + HYPHENATED + SENTENCES,
                     ["a", "bb", "ccc", "dddd", "eeeee", "ffffff", "ggggggg", "hhhhhhhhhhhhhhhh", "i" * 30]])
    return [r.choice(pool) for _ in range(r.randint(1, 14))]


def inline_run(r, words, spaces=(" ",), marks=("em", "strong", "span", "x")):
    """The words with some of them in inline elements, and breaks."""
    es = []
    text = ""
    for k, w in enumerate(words):
        text += ("" if k == 0 else r.choice(spaces)) + w
        x = r.random()
        if x < 0.1 and marks:
            if text:
                es.append(data(text))
            es += element(r.choice(marks), [data(r.choice(words))])
            text = ""
        elif x < 0.14:
            if text:
                es.append(data(text))
            es += element("br")
            text = ""
    if text:
        es.append(data(text))
    return es


def wrap_options(r):
    s = {}
    for k, hi in (("initial_indent", 5), ("subsequent_indent", 5)):
        if r.random() < 0.35:
            s[k] = r.randint(0, hi)
    for k in ("fix_sentence_endings", "break_long_words", "break_on_hyphens", "capitalized"):
        if r.random() < 0.35:
            s[k] = r.random() < 0.5
    return s


def c13(ck):
    r = ck.rnd
    cl = ["exact"]
    ck.family("wrap", 4 if ck.quick else 5, times(ck, 700, 12), cl)
    docs = []
    for _ in range(times(ck, 900)):
        t = r.choice(["p", "p", "p", "li", "dd"])
        s = wrap_options(r)
        w = r.choice([4, 6, 8, 10, 12, 15, 20, 30, 40, 67])
        c = para_cfg(r, w, s, r.choice(["[{c}]", "{c}", "{c}|"]), r.random() < 0.3)
        if t != "p":
            c["rules"] = [rule(el(t), "ListItem" if t == "li" else "DefItem", {**s, "margin": [0, 0, 0, 0]})]
        if r.random() < 0.4:
            c["margin"] = [0, r.randint(0, 3), 0, r.randint(0, 3)]
        if r.random() < 0.25:
            # whitespace that is not of the document
            more = {}
            if r.random() < 0.6:
                more["drop_whitespace"] = False
            if r.random() < 0.5:
                more.update(r.choice([{"expand_tabs": False}, {"tabsize": r.choice([1, 3, 4])}, {"replace_whitespace": False},
                                      {"expand_tabs": False, "replace_whitespace": False}]))
            c["rules"][0]["s"].update(more)
            for x in ("x", "em"):
                if r.random() < 0.7:
                    c["rules"].append(rule(el(x), "Inline", {"template": tpl(r.choice(Gen.WRAP_TEMPLATES))}))
        docs.append((c, element(t, inline_run(r, wrap_text(r), r.choice([(" ",), (" ", "  ", "\n"), (" ", "")])))))
    ck.sessions("random paragraphs", docs, cl, share=4)
    docs = []
    for _ in range(times(ck, 20, 8)):
        c, words = wide(r, r.choice([73, 80, 81, 100, 132, 150, 200, 255, 300]))
        docs.append((c, element("p", inline_run(r, words))))
    ck.sessions("wide paragraphs", docs, cl, share=2)


def c14(ck):
    r = ck.rnd
    cl = ["justified"]

    def left(c):
        c = dict(c)
        c["rules"] = [dict(u, s=dict(u["s"], justification="left")) for u in c["rules"]]
        return [c]
    ck.family("justify", 4 if ck.quick else 5, times(ck, 900, 10), cl, variants=left, share=4)
    docs = []
    for _ in range(times(ck, 900)):
        s = wrap_options(r)
        s["justification"] = r.choice(["full", "full", "full", "right", "center"])
        words = wrap_text(r)
        es = [e for e in inline_run(r, words, marks=("em", "strong", "y")) if e.get("tag") != "br"]
        c = para_cfg(r, r.choice([6, 9, 10, 14, 15, 20, 27, 30, 40, 66]), s)
        if r.random() < 0.25:
            # escape sequences take up no room
            c["rules"].append(rule(el("y"), "Ansi", Gen(r).ansi_settings(0)))
        docs.append((c, element("p", es)))
    ck.sessions("random paragraphs", docs, cl, share=4, variants=left)
    docs = []
    for _ in range(times(ck, 20, 8)):
        c, words = wide(r, r.choice([73, 80, 100, 101, 132, 150, 200, 255]))
        c["rules"][0]["s"]["justification"] = r.choice(["full", "full", "right", "center"])
        docs.append((c, element("p", [data(" ".join(words))])))
    ck.sessions("wide paragraphs", docs, cl, share=2, variants=left)


# -----------------------------------------------------------------------------

def c15(ck):
    r = ck.rnd
    cl = ["exact", "width"]
    ck.family("boxes", 5 if ck.quick else 6, times(ck, 500, 10), cl)
    docs = []
    for _ in range(times(ck, 700)):
        g = rich(r, lines=False, words=WORDS, links=0, images=0, breaks=0.03, inlines=["em", "strong"], unknown=[],
                 blocks=["p", "p", "div", "div", "blockquote", "ul", "ol", "dl", "pre", "h2"], depth=3, size=(1, 2), length=(2, 9))
        c = g.cfg(fmt="text", lp="inline", ip="inline", width=(20, 30, 40, 55, 67))
        if r.random() < 0.4:
            c["padding"] = g.sides([1, 2, 1, 2])
            c["border"] = g.sides([1, 1, 1, 1])
        c["rules"] = [rule(only(t), "none", g.box_settings(0.7, 0.7))
                      for t in r.sample(["p", "div", "blockquote", "ul", "ol", "li", "dl", "dd", "pre", "h2"], r.randint(1, 5))]
        for u in c["rules"]:
            # blocks apart from each other
            if u["s"] and "margin" in u["s"] and r.random() < 0.7:
                u["s"]["margin"][0] = max(1, u["s"]["margin"][0])
                u["s"]["margin"][2] = max(1, u["s"]["margin"][2])
        c["optimise"] = r.random() < 0.3
        if r.random() < 0.1 and not any(c["margin"] + c["padding"] + c["border"]):
            c["viaWidth"] = True
        docs.append((c, g.document()))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 14, 8)):
        g = rich(r, lines=False, words=WORDS, links=0, images=0, inlines=["em"], unknown=[],
                 blocks=["div", "div", "blockquote", "p"], depth=6, size=(1, 2), length=(2, 9), mixed=0)
        c = g.cfg(fmt="text", lp="inline", ip="inline", width=(80, 120, 200))
        if r.random() < 0.5:
            c["margin"] = g.sides([12, 12, 12, 12])
        c["rules"] = [rule(only(t), "none", g.box_settings(0.7, 0.7)) for t in r.sample(["p", "div", "blockquote"], r.randint(1, 3))]
        for u in c["rules"]:
            if u["s"] and r.random() < 0.5:
                u["s"][r.choice(["margin", "padding"])] = g.sides([11, 12, 10, 11])
        c["optimise"] = r.random() < 0.3
        docs.append((c, g.document((1, 1))))
    ck.sessions("large boxes", docs, cl, share=1)


def c16(ck):
    r = ck.rnd
    cl = ["exact"]
    ck.family("list", 4 if ck.quick else 6, times(ck, 400, 10), cl)
    ck.family("defs", 4 if ck.quick else 6, times(ck, 200, 10), cl)
    docs = []
    for _ in range(times(ck, 600)):
        g = rich(r, words=WORDS, blocks=["ul", "ol", "ol", "dl"], links=0.03, images=0, size=(1, 2), length=(1, 6), depth=r.choice([1, 2, 3]),
                 pretty=0.6, comments=0.1, breaks=0.05)
        c = g.cfg(fmt="text", width=(16, 24, 40, 67), margins=0.2)
        tags = [t for t in ("li", "olli", "dd", "dt", "ul", "ol", "dl") if r.random() < 0.3]
        c["rules"] = []
        for t in tags:
            if t in ("li", "olli"):
                c["rules"].append(g.tag_rule(t))
            else:
                k = {"dd": "DefItem", "dt": "DefTerm", "ul": "List", "ol": "List", "dl": "DefList"}[t]
                c["rules"].append(rule(only(t), "none", g.kind_settings(k)))
        es = g.document((1, 2))
        if r.random() < 0.3:
            es = long_list(r, g)
        docs.append((c, es))
    ck.sessions("random lists", docs, cl, share=3)
    # lists whose items are not all alike, and items that are not all of the name
    docs = []
    for _ in range(times(ck, 90)):
        c = base_cfg(width=40)
        k = r.choice(["li", "p", "x", "div"])
        other = r.choice([cls(el(k), "c"), {"k": "ps", "s": el(k), "p": "first-child"}, {"k": "ps", "s": el(k), "p": "last-child"},
                          {"k": "not", "s": el(k), "x": cls(ANY, "c")}])
        s = {x: r.randint(-3, 12) for x in ("start_index", "step") if r.random() < 0.4}
        if k != "li":
            c["rules"].append(rule(comb(el("ol"), ">", el(k)), "OLItem", s))
        else:
            c["rules"].append(rule([comb(el("ol"), ">", el("li")), el("zz")], "none", s))
        if r.random() < 0.8:
            c["rules"].append(rule(comb(el("ol"), ">", other), r.choice(["ListItem", "NonRenderer", "DefItem", "OLItem", "Block", "Paragraph", "none"]),
                                   r.choice([[], {"margin": [2, 0, 0, 0]}])))
        g = rich(r, words=WORDS, unknown=[])
        kids = []
        for _ in range(r.randint(2, 8)):
            kids += g.ws() + element(k if r.random() < 0.8 else r.choice(["li", "p", "x"]), [data(g.text())], [attr("class", "c")] if r.random() < 0.4 else [])
        docs.append((c, element("ol", kids)))
    ck.sessions("mixed lists", docs, cl, share=3)
    docs = []
    for n in [12, 101, 112] if ck.quick else [12, 99, 100, 101, 112, 205, 1005]:
        c = base_cfg(width=30)
        if r.random() < 0.5:
            c["rules"] = [rule([comb(el("ol"), ">", el("li")), el("zz")], "none", r.choice([{"start_index": 95}, {"step": 11}, {"start_index": 7, "step": -1}]))]
        docs.append((c, element("ol", [e for k in range(n) for e in element("li", [data("a" if k % 7 else "some more words to fill the line")])])))
    ck.sessions("long lists", docs, cl, share=1)


def long_list(r, g):
    """Many items, with other things between them."""
    kids = []
    for k in range(r.randint(8, 13)):
        kids += g.ws()
        if r.random() < 0.1:
            kids.append(comment("c"))
        if r.random() < 0.08:
            kids += element(r.choice(["x", "ol", "span"]), [data("t")])
        kids += element("li", [data(g.text())])
    return element("ol", kids)


def c17(ck):
    r = ck.rnd
    cl = ["exact", "verbatim"]
    ck.family("pre", 4 if ck.quick else 5, times(ck, 600, 10), cl)
    docs = []
    for _ in range(times(ck, 600)):
        g = rich(r, words=WORDS, blocks=["pre", "precode", "p", "div", "blockquote", "pre"], links=0.02, images=0,
                 inlines=["em", "code", "span", "code"], depth=2, unknown=["x"])
        c = g.cfg(fmt="text", width=(10, 20, 40), margins=0.3)
        c["rules"] = [u for u in (rule(only(t), "none", g.kind_settings(k)) for t, k in (("pre", "Pre"), ("code", "Code"), ("blockquote", "BlockQuote")))
                      if r.random() < 0.4]
        es = []
        for _ in range(r.randint(1, 3)):
            es += g.block() if r.random() < 0.5 else pre_block(r) if r.random() < 0.8 else element("p", element("code", [data(g.text() + "\n" + g.text())]))
            es += g.ws()
        docs.append((c, es))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 400)):
        es = []
        for _ in range(r.randint(1, 3)):
            es += [data(r.choice(PRE_TEXTS))] if r.random() < 0.3 else element("p", [data(r.choice(PRE_TEXTS))]) if r.random() < 0.4 else pre_block(r)
        es = misnested(r, element(r.choice(["div", "x", "blockquote"]), es) + [data(r.choice(PRE_TEXTS))], r.choice([0, 1, 2, 3]))
        if r.random() < 0.3:
            es = Gen(r).soup(["pre", "pre", "code", "em", "p", "div", "b"], r.randint(4, 14), word=lambda: r.choice(PRE_TEXTS))
        docs.append((base_cfg(width=40), es))
    ck.sessions("misnested", docs, cl, share=4)
    docs = []
    for _ in range(times(ck, 6, 8)):
        c = base_cfg(width=r.choice([10, 40, 67]))
        lines = "".join(r.choice(["    ", "\t", "", " "]) + r.choice(["x" * 100, "word " * 30, "a", "", "def f(): pass", " " * 60 + "y"]) + "\n" for _ in range(r.randint(20, 60)))
        docs.append((c, element("pre", element("code", [data(lines)]) if r.random() < 0.5 else [data(lines)]) + element("p", [data("a  b\n c")])))
    ck.sessions("long blocks", docs, cl, share=1)


def misnested(r, es, n):
    """Some tags elsewhere than they were."""
    es = list(es)
    for _ in range(n):
        tags = [i for i, e in enumerate(es) if e["t"] in ("start", "end")]
        if tags:
            i = r.choice(tags)
            e = es.pop(i)
            if r.random() < 0.8:
                es.insert(max(0, min(len(es), i + r.choice([-2, -1, -1, 1, 1, 2]))), e)
    return es


PRE_TEXTS = ["if", "  (x)", " ", "a  b", "\n", "\n\n", "\n    x", "d  f():\n", "\t", "a = {} ", " # c", "a \n b",
             "a\u00a0b", "\u3000x", "\ufeff\u200b\u00ad", "e\u0301  \u00df"]


def pre_block(r):
    """Preformatted text with highlighting."""
    kids = []
    for _ in range(r.randint(1, 8)):
        s = r.choice(["if", "(x)", " ", "    ", "\n", "\n\n", "\n    ", "def  f():", "\t", "a = {}", " # c", "x" * 30, "é漢", "\u00a0", "\u3000\u00a0x ", "\ufeff"])
        if r.random() < 0.45:
            kids += element(r.choice(["span", "b", "x", "em"]), [data(s)], [attr("class", r.choice(["k", "n", "o"]))])
        else:
            kids.append(data(s))
        if r.random() < 0.04:
            kids += element("br")
    inner = element("code", kids) if r.random() < 0.5 else kids
    return element("pre", inner)


def c18(ck):
    r = ck.rnd
    ck.family("space", 5 if ck.quick else 7, times(ck, 900, 10), ["exact", "collapsed"])

    def white():
        sp, ed = [" ", "  ", "\n", " \n ", "\t", "\n\n", "\t\n\t", "   "], ["", " ", "\n", "\t", "  ", "\n  "]
        if r.random() < 0.4:
            odd = r.sample(ODD_SPACES, 3)
            sp = sp + odd + [x + y for x in odd for y in ("\n", " ")] + [y + x for x in odd for y in ("\n", "\t")]
            ed = ed + odd + [x + y + " " for x in odd for y in ("\n", " ")] + [y + x + " " for x in odd for y in ("\n", "\n ")]
        return dict(words=["a", "bb", "ccc", "dddd"], spaces=sp, edges=ed)

    docs = []
    for _ in range(times(ck, 600)):
        g = rich(r, **white(), links=0.02, images=0, inlines=["em", "strong", "span", "code"],
                 unknown=["x"], breaks=0.12, blocks=["p", "p", "div", "h2", "ul", "blockquote"], comments=0.1, pretty=0.7, mixed=0.3)
        c = g.cfg(fmt="text", width=(30, 60), margins=0)
        docs.append((c, g.document()))
    ck.sessions("random documents", docs, ["exact"], share=3)
    docs = []
    for _ in range(times(ck, 300)):
        g = rich(r, **white(), links=0, images=0, inlines=["em", "strong"], blocks=["p"],
                 breaks=0.12, comments=0.1, pretty=0.7, anchors=0)
        es = element("p", g.inline())
        docs.append((g.cfg(fmt="text", width=(30, 60), margins=0), es))
    ck.sessions("random paragraphs", docs, ["exact", "same text"], share=3)
    docs = []
    for _ in range(times(ck, 10, 8)):
        run = lambda: "".join(r.choice([" ", "\n", "\t"]) for _ in range(r.choice([10, 40, 200])))
        es = element("p", [data(run() + "a" + run() + "b"), *element("em", [data(run() + "c" + run())]), data("d" + run() + "e")])
        docs.append((base_cfg(width=r.choice([20, 60])), es))
    ck.sessions("long runs", docs, ["exact", "same text"], share=2)


def c19(ck):
    r = ck.rnd
    cl = ["exact"]
    ck.family("heading", 4 if ck.quick else 5, times(ck, 400, 10), cl)
    ck.family("quote", 4 if ck.quick else 6, times(ck, 300, 10), cl)
    docs = []
    for _ in range(times(ck, 600)):
        g = rich(r, words=r.choice([WORDS, MESSY]), blocks=["h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "blockquote", "p"],
                 links=0.02, images=0, depth=r.choice([1, 2, 3]), size=(1, 2), length=(1, 6))
        c = g.cfg(fmt="text", width=(24, 40, 67), margins=0.3)
        c["rules"] = []
        for t in ["h1", "h2", "h3", "h4", "h5", "h6"]:
            if r.random() < 0.4:
                c["rules"].append(rule(el(t), "Header", g.kind_settings("Header")) if r.random() < 0.5
                                  else rule(only(t), "none", g.kind_settings("MdHeader")))
        if r.random() < 0.5:
            c["rules"].append(rule(only("blockquote"), "none", g.kind_settings("BlockQuote")))
        if r.random() < 0.2:
            c["rules"].append(rule(el("b"), "Ansi", g.ansi_settings()))
        docs.append((c, g.document()))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 10, 8)):
        g = rich(r, words=WORDS, links=0, images=0, blocks=["p"], length=(1, 9), size=(1, 1))
        es = g.block()
        for _ in range(r.randint(4, 9)):
            es = element("blockquote", (g.block() if r.random() < 0.3 else []) + es + (g.block() if r.random() < 0.3 else []))
        docs.append((g.cfg(fmt="text", width=(40, 67, 100), margins=0.2), es))
        c = g.cfg(fmt="text", width=(20, 67, 90), margins=0)
        c["rules"] = [rule(el("h2"), "Header", g.kind_settings("Header"))]
        if r.random() < 0.4:
            c["rules"][0]["s"] = {"spread": r.randint(4, 9), "centered": r.random() < 0.5, "underlined": True}
        docs.append((c, element("h2", [data(" ".join(r.choice(WORDS) for _ in range(r.randint(1, 30))))])))
    ck.sessions("large documents", docs, cl, share=2)


def c20(ck):
    r = ck.rnd
    cl = ["exact"]
    ck.family("inline", 4 if ck.quick else 5, times(ck, 600, 10), cl)
    docs = []
    for _ in range(times(ck, 700)):
        g = rich(r, blocks=["p"], links=0.06, images=0.04, anchors=0.08, unknown=["x", "y", "section"], classes=["c"], depth=4, size=(1, 3), length=(1, 3))
        c = g.cfg(fmt="text", width=(60, 100), margins=0)
        c["rules"] = []
        for t in r.sample(["em", "strong", "i", "b", "u", "ins", "s", "del", "span", "x", "code", "a"], r.randint(0, 6)):
            if t == "a":
                c["rules"].append(rule(only("a"), "none", {"capitalized": True}))
            elif t == "code":
                c["rules"].append(rule(only("code"), "none", g.kind_settings("Code")))
            elif r.random() < 0.12:
                c["rules"].append(rule(el(t), "NonRenderer"))
            elif r.random() < 0.6 or t == "x":
                c["rules"].append(rule(el(t), r.choice(["Inline", "Em", "Strong", "Strike", "Underline"]), g.inline_settings()))
            else:
                c["rules"].append(rule(only(t), "none", g.inline_settings()))
        docs.append((c, element("p", g.inline()) if r.random() < 0.8 else g.inline()))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 12, 8)):
        tags = ["em", "strong", "u", "s", "span", "x", "code"]
        g = rich(r)
        c = base_cfg(width=100)
        c["rules"] = [rule(el(t), r.choice(["Inline", "Em", "Strong"]), g.inline_settings()) for t in r.sample(tags, r.randint(0, 3))]
        docs.append((c, element("p", nested(r, r.randint(7, 16), tags))))
    ck.sessions("deep documents", docs, cl, share=2)


# -----------------------------------------------------------------------------

def unstyled(c):
    keys = set(Gen.EFFECTS) | {"font", "foreground_colour", "background_colour", "normalise"}

    def plain(u):
        if u["r"] != "Ansi":
            return u
        return dict(u, r="Inline", s={k: v for k, v in u["s"].items() if k not in keys} or [] if u["s"] else [])
    return [{k: v for k, v in dict(c, rules=[plain(u) for u in c["rules"]], xrules=[plain(u) for u in c["xrules"]],
                                   dflt=plain(c["dflt"])).items()}]


def c21(ck):
    r = ck.rnd
    cl = ["nothing left on", "pens", "as without styling"]
    ck.family("ansi", 4 if ck.quick else 5, times(ck, 300, 10), cl, variants=unstyled, share=4)
    docs = []
    for _ in range(times(ck, 450)):
        g = rich(r, lines=False, blocks=["p", "p", "ul", "blockquote", "h2", "pre", "div", "dl"], links=0, images=0,
                 inlines=["em", "b", "span"], unknown=["x", "y", "z"], depth=3, size=(1, 3), length=(1, 5), breaks=0.04)
        g.words = r.choice([WORDS, ["one", "two", "antidisestablishment", "well-known", "x", "ended."]])
        if r.random() < 0.5:
            g.breaks = 0
        else:
            # lines of nothing but spaces may have more or fewer of them
            g.LINE_TEMPLATES = ["{c}", "> {c}", "* {c}", "-> {c}"]
        c = g.cfg(fmt="text", lp="inline", ip="inline", width=(9, 14, 24, 40))
        c["rules"] = [rule(el(t), "Ansi", {**g.ansi_settings(), **({"capitalized": True} if r.random() < 0.15 else {}),
                                           **({"template": tpl("<{c}>")} if r.random() < 0.15 else {})})
                      for t in r.sample(["x", "y", "z", "span", "b"], r.randint(2, 4))]
        # no letters in what is around the text
        c["rules"] += [u for u in g.rules(["p", "h2", "li", "olli", "dd", "dt", "blockquote", "pre"], (0, 3))
                       if not (set(template_text(u)) & LETTERS)]
        docs.append((c, g.document((1, 2))))
    ck.sessions("random documents", docs, cl, share=2, variants=unstyled)
    # descriptions of links
    docs = []
    for _ in range(times(ck, 100)):
        g = rich(r, lines=False, words=WORDS, blocks=["p"], links=0.4, images=0, inlines=["em"], unknown=["x", "y"], depth=3, length=(1, 3))
        c = g.cfg(width=(30, 60), margins=0)
        c["rules"] = [rule(el(t), "Ansi", g.ansi_settings(0)) for t in ("x", "y")]
        docs.append((c, g.document((1, 2))))
    ck.sessions("random links", docs, ["nothing left on", "as without styling"], share=2, variants=unstyled)
    # the themes
    import themes
    for name, rules in themes.all_themes():
        if isinstance(rules, themes.BadTheme):
            ck.direct("theme " + name, "pens", "theme %s: %s" % (name, rules))
        if isinstance(rules, Exception):
            print("theme %s is not explored: %s" % (name, rules))
            continue
        docs = []
        classes = themes.classes(rules)
        for _ in range(times(ck, 8, 6)):
            c = base_cfg(lp="inline", width=r.choice([30, 60]), rules=rules, margin=[1, 0, 1, r.randint(0, 2)])
            docs.append((c, highlighted(r, classes)))
        # every rule of the theme
        every = []
        for k in classes:
            every += element("span", [data("w")], [attr("class", k)])
        docs.append((base_cfg(lp="inline", width=60, rules=rules),
                     element("div", element("pre", every), [attr("class", "highlight")])))
        ck.sessions("theme " + name, docs, cl, share=3, variants=unstyled)
    docs = []
    for _ in range(times(ck, 8, 6)):
        tags = ["x", "y", "z", "b", "span"]
        g = rich(r, lines=False)
        c = base_cfg(lp="inline", ip="inline", width=r.choice([20, 60]))
        c["rules"] = [rule(el(t), "Ansi", g.ansi_settings()) for t in r.sample(tags, r.randint(3, 5))]
        docs.append((c, element("p", nested(r, r.randint(6, 10), tags))))
    ck.sessions("deep documents", docs, cl, share=2, variants=unstyled)


def highlighted(r, classes):
    kids = []
    for _ in range(r.randint(2, 10)):
        k = element("span", [data(r.choice(["word", "if", "x  y", "f"]))], [attr("class", r.choice(classes))])
        if r.random() < 0.2:
            k = element("span", k + [data("z")], [attr("class", r.choice(classes))])
        kids += k
        kids.append(data(r.choice([" ", "\n", "\n    ", "(", ""])))
    return element("div", element("pre", kids), [attr("class", "highlight")])


def c22(ck):
    r = ck.rnd
    cl = ["optimised"]
    other = lambda c: [dict(c, optimise=not c["optimise"])]
    ck.family("optimise", 4 if ck.quick else 5, times(ck, 400, 10), cl, variants=other)
    docs = []
    for _ in range(times(ck, 500)):
        g = rich(r)
        c = g.cfg()
        c["rules"] = g.rules()
        c["xrules"] = g.xrules()
        if r.random() < 0.3:
            c["padding"] = g.sides([1, 2, 1, 2])
            c["border"] = g.sides([1, 1, 1, 1])
        if r.random() < 0.4:
            c["defaults"] = 1
        docs.append((c, g.document() if r.random() < 0.8 else g.block() + [data("x \n y  \n")]))
    ck.sessions("random documents", docs, cl, share=2, variants=other)
    docs = []
    for _ in range(times(ck, 6, 6)):
        g = rich(r, length=(5, 40))
        c = g.cfg(width=(30, 80, 120))
        c["rules"] = g.rules()
        docs.append((c, g.document((5, 9))))
    ck.sessions("large documents", docs, cl, share=1, variants=other)


# -----------------------------------------------------------------------------

ODD = ["\x00", "\r\n", "\x0b", "\u2028", "\u00a0", "\U0001f600", "\ud7ff", "<script>a<b</script>", "<style>p{}</style>", "<![CDATA[x]]>",
       "<!DOCTYPE", "<!--", "-->", "&#0;", "&#xd800;", "&#1114112;", "&#99999999999;", "&#27;[31m", "\x1b[1m", "\x1b", "\x1b[", "<a href>", "<a href=\"\">",
       "<img>", "<img alt>", "<img src>", "<img src='x' alt>", "<p class>", "<p id>", "<li>", "</li>", "<ol>", "<ul>", "<dl><dt>", "<dd>", "<a href='http://[x'>",
       "<a href='//[::1'>", "<a href='gopher://h:99999/'>", "<a href='gopher:///x'>", "<a href='x' href='y'>", "<br></br>", "<pre>", "<code>\n\n</code>",
       "<textarea><p>", "<title>x", "<plaintext>", "</body></html>", "<table><tr><td>", "<hr>", "<h1></h1>", "<h7>", "<p></p>", "<blockquote></blockquote>",
       "<div></div>", "<a href='a\nb\tc'>", "<p title='\"'>", "<x:y>", "<p style=color:red>", "{", "}", "{}", "{0.__class__}", "%", "\\", "<em><strong>", "</em></strong>",
       "<em class='c'>", "<em class='d e-f'>", "<p id='i'>", "<x t='v w' lang='v-w'>", "<p class='c' id='j'>", "<em t>", "<em>x</em>", "<input><wbr><source>", "<area><base><col><embed><link><meta><param><track>", "<q>", "&lt;p&gt;", "<a href='javascript:x'>t</a>", "<?xml version='1.0'?>"]


def c23(ck):
    r = ck.rnd
    cl = ["is text"]
    ck.family("nest", 4, times(ck, 200), cl)
    for _ in range(times(ck, 1200)):
        g = rich(r)
        ops, cfgs = [], []
        for p in range(1, r.randint(2, 4)):
            c = g.cfg(width=(1, 2, 5, 12, 20, 40, 67))
            c["lp"] = r.choice(["inline", "footer", "after_block"])
            c["ip"] = r.choice(["inline", "footer", "after_block"])
            if r.random() < 0.15:
                c["host"] = []
            if r.random() < 0.1:
                c["dflt"] = {"r": r.choice(["none", "Inline", "Paragraph"]), "s": {"capitalized": True, "margin": [1, 0, 0, 1]}}
            c["rules"] = g.rules()
            c["xrules"] = g.xrules()
            if r.random() < 0.3:
                c["rules"].append(rule(el(r.choice(["p", "em", "a", "img", "pre", "li", "br", "x"])), r.choice(["NonRenderer", "Inline", "Block", "Renderer", "Paragraph", "BlockQuote"])))
            if r.random() < 0.3:
                c["rules"].append(rule(el("x"), "Ansi", g.ansi_settings()))
            if r.random() < 0.3:
                for _ in range(r.randint(1, 3)):
                    c["rules"].append(rule(selector(r), r.choice(["none", "Block", "Inline", "Ansi", "Paragraph"]), r.choice([[], {}])))
            if r.random() < 0.2:
                c["padding"] = g.sides([2, 3, 2, 3])
                c["border"] = g.sides([1, 2, 1, 2])
            cfgs.append(c)
            ops.append({"op": "new", "p": p, "cfg": len(cfgs)})
            bad = c["fmt"] == "gophermap" and (c["lp"] == "inline" or not c["host"])
            if bad:
                continue
            for _ in range(r.randint(1, 2)):
                parts = []
                for _ in range(r.randint(1, 18)):
                    x = r.random()
                    parts.append(r.choice(ODD) if x < 0.45 else r.choice(RAW) if x < 0.85 else g.text())
                h = "".join(parts)
                ops.append({"op": "feed", "p": p, "es": [], "html": h,
                            "cuts": [r.randint(0, len(h)) for _ in range(r.choice([0, 0, 1, 3]))]})
                if r.random() < 0.2:
                    ops += [{"op": "close", "p": p}]
            ops.append({"op": "close", "p": p})
        ck.add("random text", dict(kind="session", cfgs=cfgs, ops=ops, cl=cl))
    # well-formed documents with all configurations
    docs = []
    for _ in range(times(ck, 400)):
        g = rich(r, classes=["c"])
        c = g.cfg(width=(1, 3, 8, 20, 67))
        c["rules"] = g.rules(n=(2, 8))
        c["xrules"] = g.xrules(0.6)
        docs.append((c, g.document()))
    ck.sessions("random documents", docs, cl, share=3)
    docs = []
    for _ in range(times(ck, 250)):
        c = base_cfg(width=r.choice([3, 20, 67]))
        for _ in range(r.randint(3, 12)):
            c["rules"].append(rule(chain_selector(r) if r.random() < 0.3 else selector(r),
                                   r.choice(["none", "Block", "Inline", "Ansi", "Paragraph", "NonRenderer"])))
        docs.append((c, tree_doc(r, ["x", "y", "z", "p", "em", "li"], 4)))
    ck.sessions("selectors", docs, cl, share=3)
    # long and deep ones
    for k in range(6):
        es = []
        t = ["div", "blockquote", "em", "li", "ul", "x"][k]
        for _ in range(60):
            es.append(start(t))
        es.append(data("deep"))
        ck.add("deep documents", session([base_cfg(width=r.choice([20, 200]))], [(1, es)], cl))
    es = element("p", [data("word " * 3000)]) + element("pre", [data("line\n" * 500)])
    ck.add("long documents", session([base_cfg()], [(1, es)], cl))
    deep_es = [start("div")] * 2000 + [data("x")]
    case = session([base_cfg()], [(1, [])], cl)
    case["ops"][1]["html"] = "<div>" * 2000 + "x"
    ck.finding("deep-nesting", case)


# -----------------------------------------------------------------------------

MD = ["# Title", "Some *text* with **words**.", "* item\n* other", "1. one\n2. two", "> quoted\n> text", "    code block\n    more",
      "```python\ndef f(x):\n    return x + 1\n```", "[link](http://x.org/a) and ![img](/i.png)", "---", "Term\n:   Definition", "`code` & <b>html</b>",
      "| a | b |\n|---|---|\n| 1 | 2 |", "<p>raw  html</p>", "Footnote[^1]\n\n[^1]: note", "line one  \nline two", "Setext\n=====", "a < b > c {0} %s",
      "    :::python\n    x = 1", "    #!python\n    def f(): pass", "``` {.python}\nclass A: pass\n```", "## Title {#id .k}", "*[HTML]: Hyper Text\n\nThe HTML.",
      '<div markdown="1">\n*in* html\n</div>', "snake_case_word and __strong__", "- a\n\n    b", "1. x\n    * y", "<http://x.org>", "![pic]\n\n[pic]: /p.png \"T\"",
      "\\*escaped\\*", "***", "a | b\n--|--\n1 | 2", "~~~\nraw *x*\n~~~", "\ttabbed\tcode\n\t\tmore"]
HTML = ["<h1>Title</h1>", "<p>Some <em>text</em>\n with <strong>words</strong></p>", "<ul><li>one</li><li>two</li></ul>", "*not* markdown", "# not a title",
        "<pre>a  b\n c</pre>", "<a href='/r'>link</a>", "<img src='i.png' alt='Pic'>", "<blockquote><p>q</p></blockquote>", "&amp; &lt;", "> x", "1. one",
        "<div class='highlight'><pre><span class='k'>if</span> x</pre></div>", "    indented", "<p>unclosed", "\u00e9\u6f22", "<p>a</em> b</p></div>",
        "</x>", "<img src='/j.gif'>", "<pre>a\tb\n\tc  \u00a0d</pre>", "<p>e\tf\x0c g</p>", "<a name='here'>anchor</a>", "<dl><dt>t<dd>d</dl>", "<hr>", "a<br>b", "<a href='http://x.org/' title='T'><img src='k.png' title='K'></a>"]


def c24(ck):
    r = ck.rnd
    fam, cases = ck.behaviours("paths", 5 if ck.quick else 6, times(ck, 150, 8), module="MC_Cli",
                               want=lambda f, c: good_path("".join(chr(x) for i in c[1] for x in f["alpha"][i - 1])))
    names = ["".join(chr(x) for i in h for x in fam["alpha"][i - 1]) for _, h in cases]
    # as many of Markdown as of anything else
    others = [n for n in names if not n.endswith(".md")]
    names = [n for n in names if n.endswith(".md")] + others
    names += [n + ".md" for n in others[::2] if not n.endswith(".")]
    names += ["page.md", "page.html", "page", "page.md.html", "page.html.md", "README.MD", ".md", "dir.md/page", "dir/page.md", "md", "a b.md", "page.markdown",
              "page.txt", "x.mdx", "page.md~", "page.Md"] * 3
    subs = 12 if ck.quick else 60
    for k, n in enumerate(names):
        ops = []
        for _ in range(2):
            parts = [r.choice(MD if r.random() < 0.7 else HTML) for _ in range(r.randint(0, 5))]
            if r.random() < 0.15:
                parts.insert(0, "title: Some meta\nauthor: me\n")
            sep = r.choice(["\n\n", "\n"])
            src = sep.join(parts) + r.choice(["", "\n"])
            if r.random() < 0.1:
                src = src.replace("\n", "\r\n")
            ops.append({"op": "cli", "name": codes(n), "source": codes(src), "dump": r.random() < 0.4,
                        "flag": r.choice(["-d", "--dump"]), "dumpAt": r.choice([0, 1, 2]), "sub": len(ops) == 0 and k % max(1, len(names) // subs) == 0})
        ck.add("commands", dict(kind="cli", ops=ops))
    for _ in range(times(ck, 4, 6)):
        n = r.choice(["long.md", "long.html"])
        src = "\n\n".join(r.choice(MD if r.random() < 0.8 else HTML) for _ in range(r.randint(25, 60)))
        ck.add("long sources", dict(kind="cli", ops=[{"op": "cli", "name": codes(n), "source": codes(src), "dump": r.random() < 0.5,
                                                       "flag": "-d", "dumpAt": 0, "sub": False}]))


def good_path(n):
    last = n.split("/")[-1]
    return not last.startswith("..") and last not in (".", "") and all(x not in (".", "..") for x in n.split("/")[:-1])


MODULES = {"C07": "TraceCls", "C08": "TraceND", "C24": "TraceCli"}
CHECKS = {n.upper(): f for n, f in list(globals().items()) if len(n) == 3 and n[0] == "c" and n[1:].isdigit()}
