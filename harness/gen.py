"""
Random documents, configurations and rules, in the terms of the specification.
Everything is drawn from the generator of random numbers that is given.
"""
def codes(s):
    return [ord(c) for c in s]

WORDS = "alpha beta gamma delta one two three four five six seven a b to of and the".split()
MESSY = ("alpha beta word. End! a b it's well-known so--called supercalifragilistic (x) \u00e9t\u00e9 "
         "\u6f22\u5b57 {} {0} {x} % %s & <b> q? \"say.\" back\\slash one two three four five six semi;colon "
         "\u20ac5 \u2603 cafe\u0301 stra\u00dfe \u00ff \ufeffbom a\u200db \u202er a_b *c* #d x=y &amp; {{y}} }{ <!-- anti-dis-establish 1-2 a-1 -- --x x-- e.g. 'No.'").split()
SENTENCES = ("it ended. Then we said: what? Nothing! ok. \"Yes.\" 'No!' x. Y. 3. well-known up-to-date state-of-the-art "
             "a-b c--d antidisestablishmentarianism pneumonoultramicroscopicsilicovolcanoconiosis one two three of to in").split()
# Every kind of whitespace, and line ends that are none to HTML
ODD_SPACES = ["\x0b", "\x0c", "\r", "\r\n", "\x1c", "\x1d", "\x1e", "\x1f", "\x85", "\u00a0", "\u1680", "\u2003", "\u2009", "\u2028", "\u2029",
              "\u202f", "\u205f", "\u3000", "\u200b", "\u00ad", "\u2060", "\ufeff", "\u200d", "\u0301"]
INLINES = ["em", "strong", "i", "b", "u", "ins", "s", "del", "span", "code"]
BLOCKS = ["p", "p", "p", "h1", "h2", "h3", "h4", "h5", "h6", "div", "ul", "ol", "blockquote", "pre", "dl", "precode"]
HREFS = ["http://x.org/a", "/foo.txt", "gopher://h.org:71/1/x.gif", "../a.b/c", "#top", "mailto:me@x.org", "", "a b.html"]

NONE = {"k": "none"}
ANY = {"k": "any"}


def el(t):
    return {"k": "el", "t": t}


def rule(sel, r="none", s=None):
    return {"sel": sel if isinstance(sel, list) else [sel], "r": r, "s": s if s else []}


def attr(n, v):
    return {"n": n, "has": v is not None, "v": codes(v or "")}


def start(tag, attrs=()):
    return {"t": "start", "tag": tag, "attrs": list(attrs)}


def end(tag):
    return {"t": "end", "tag": tag}


def data(s):
    return {"t": "data", "d": codes(s)}


def comment(s):
    return {"t": "comment", "d": codes(s)}


VOID = ("area base br col embed hr img input link meta param source track wbr").split()


def element(tag, kids=(), attrs=()):
    return [start(tag, attrs)] + list(kids) + ([] if tag in VOID else [end(tag)])


def base_cfg(**kw):
    c = dict(fmt="text", lp="footer", ip="inline", host=codes("my.host"), port=70, width=67,
             margin=[0] * 4, padding=[0] * 4, border=[0] * 4, optimise=True,
             rules=[], xrules=[], dflt={"r": "Renderer", "s": []})
    c.update(kw)
    return c


def lit(s):
    return {"l": codes(s)}


def fld(f):
    return {"f": f}


def tpl(s):
    """'> {c}' -> segments; {name} are the fields."""
    out = []
    while s:
        i = s.find("{")
        if i < 0:
            out.append(lit(s))
            break
        if i:
            out.append(lit(s[:i]))
        j = s.index("}", i)
        out.append(fld(s[i + 1:j]))
        s = s[j + 1:]
    return out


# Elements that may be taken for each other
ALIKE = [("b", "strong"), ("i", "em"), ("u", "ins"), ("s", "del"), ("ul", "ol"), ("ol", "dl"), ("dt", "dd"), ("li", "dd"), ("p", "div"),
         ("h1", "h2"), ("h2", "h3"), ("pre", "code"), ("div", "section"), ("blockquote", "q"), ("a", "img"), ("span", "font"), ("x", "y")]


def slips(rnd, es, n=(1, 3)):
    """The same with some end tags of another, similar element, forgotten, doubled or out of order."""
    es = [dict(e) for e in es]
    for _ in range(rnd.randint(*n)):
        ends = [k for k, e in enumerate(es) if e["t"] == "end"]
        if not ends:
            break
        k = rnd.choice(ends)
        x = rnd.random()
        alike = [b if a == es[k]["tag"] else a for a, b in ALIKE if es[k]["tag"] in (a, b)]
        if x < 0.5 and alike:
            e = end(rnd.choice(alike))
            if rnd.random() < 0.5:
                es[k] = e
            else:
                es.insert(k, e)
        elif x < 0.65:
            del es[k]
        elif x < 0.8:
            es.insert(k, dict(es[k]))
        else:
            j = rnd.choice(ends)
            es[k], es[j] = es[j], es[k]
    return es


def braces(a, f, b):
    """A template with literal braces."""
    return [lit(a), fld(f), lit(b)]


# Elements that the library knows nothing about, and attributes that mean nothing to it
OTHERS = ("table tr td th tbody thead caption figure figcaption small sub sup q cite abbr kbd samp var mark time nav main article aside header "
          "footer address label form button select option details summary body html tt big center font dir menu ruby rt bdi h7 my-tag x1 li2").split()
NOISE = [("hidden", None), ("style", "display:none"), ("align", "center"), ("start", "5"), ("value", "3"), ("reversed", None), ("type", "a"),
         ("width", "9"), ("lang", "en"), ("dir", "rtl"), ("data-x", "{}"), ("aria-hidden", "true"), ("name", "n"), ("id", "i"), ("cite", "/c"),
         ("target", "_blank"), ("rel", "nofollow"), ("download", None), ("height", "1"), ("color", "red"), ("content", "x"), ("open", None)]


class Gen:
    """Options may be given to the constructor or changed later."""

    words = WORDS
    spaces = [" "]              # between words
    edges = ["", " "]           # around the words of a text
    length = (1, 6)             # words in a text
    inlines = INLINES
    blocks = BLOCKS
    links = 0.1                 # of the inline content
    images = 0.07
    breaks = 0.07
    hrefs = HREFS
    titles = ["Some title here", "T", "exactly10c", "elevenchars", ""]
    alts = ["An image text", "Pic", "", "exactly10c", "elevenchars", None]
    title_p = 0.4
    pretty = 0.4
    anchors = 0.05              # a without href
    comments = 0.05
    depth = 2
    cut = 0.07                  # documents that end early
    coincidences = 0.08         # of titles, texts and addresses
    spacy = False               # templates with whitespace for wrapping
    mixed = 0.1                 # inline content directly in containers
    unknown = []                # elements without a renderer of their own
    classes = []
    noise = 0.06                # attributes that mean nothing here
    sourceless = 0.2            # of the images with a meaningless attribute, how many have no address
    size = (1, 3)

    def __init__(self, rnd, **kw):
        self.r = rnd
        for k, v in kw.items():
            if not hasattr(type(self), k):
                raise TypeError(k)
            setattr(self, k, v)

    def p(self, x):
        return self.r.random() < x

    def text(self):
        r = self.r
        s = r.choice(self.edges)
        n = r.randint(*self.length)
        for i in range(n):
            s += r.choice(self.words)
            if i < n - 1:
                s += r.choice(self.spaces)
        return s + r.choice(self.edges)

    def data(self):
        return [data(self.text())]

    def attrs(self):
        out = []
        if self.classes and self.p(0.5):
            out.append(attr("class", " ".join(self.r.sample(self.classes, self.r.randint(1, min(2, len(self.classes)))))))
        if self.p(self.noise):
            out.append(attr(*self.r.choice(NOISE)))
        return out

    def link(self, d):
        at = self.attrs() + ([attr(*self.r.choice([("alt", "Other"), ("src", "/other"), ("name", "n")]))] if self.p(self.noise) else [])
        at.append(attr("href", self.r.choice(self.hrefs)))
        kids = self.inline(d)
        if self.p(self.title_p):
            at.append(attr("title", self.r.choice(self.titles)))
        if self.p(self.coincidences):
            # the text as the title, the address as the title, the text as the address
            t = "".join(chr(c) for e in kids if e["t"] == "data" for c in e["d"])
            x = self.r.random()
            if x < 0.4:
                at = at[:-1] + [attr("title", t)] if at[-1]["n"] == "title" else at + [attr("title", t.strip())]
            elif x < 0.7 and at[-1]["n"] == "href":
                at.append(attr("title", "".join(map(chr, at[-1]["v"]))))
            elif t.strip().isalnum():
                at = [attr("href", t.strip())] + [a for a in at if a["n"] != "href"]
        return element("a", kids, at)

    def image(self):
        at = self.attrs() + [attr("src", self.r.choice([h for h in self.hrefs if h] or ["/i.png"]))]
        alt = self.r.choice(self.alts)
        if alt is not None:
            at.append(attr("alt", alt))
        if self.p(self.noise):
            # what would mean something elsewhere
            at.append(attr(*self.r.choice([("title", "Other"), ("href", "/other"), ("longdesc", "/l")])))
            if self.p(self.sourceless):
                at = [a for a in at if a["n"] != "src"]
        return element("img", (), at)

    def inline(self, d=None):
        d = self.depth if d is None else d
        out = []
        for _ in range(self.r.randint(*self.size)):
            x = self.r.random()
            if self.p(self.comments):
                out.append(comment(self.r.choice(["note", " a > b ", "<p>"])))
            if x < self.links:
                out += self.link(d - 1) if d > 0 else self.data()
            elif x < self.links + self.images:
                out += self.image()
            elif x < self.links + self.images + self.breaks:
                out += element("br")
            elif x < self.links + self.images + self.breaks + self.anchors:
                out += element("a", self.inline(d - 1) if d > 0 else self.data(),
                               [attr("name", "n")] if self.p(.5) else [])
            elif x < 0.75 and d > 0 and (self.inlines or self.unknown):
                out += element(self.r.choice(self.inlines + self.unknown), self.inline(d - 1), self.attrs())
            else:
                out += self.data()
        return out

    def ws(self):
        return [data(self.r.choice(["\n", "\n  ", " "]))] if self.p(self.pretty) else []

    def pre_text(self):
        out = []
        for _ in range(self.r.randint(1, 3)):
            s = "".join(self.r.choice(["a", "b  c", "   ", "\n", "\n    ", "word ", "if (x) {y}", "{}", "\t"])
                        for _ in range(self.r.randint(1, 5)))
            if self.p(0.3) and self.inlines:
                out += element(self.r.choice(self.inlines), [data(s)], self.attrs())
            else:
                out.append(data(s))
        return out

    def items(self, tags, d):
        out = []
        for _ in range(self.r.randint(1, 3)):
            for t in tags:
                kids = self.inline(1)
                if d > 0 and self.p(0.4):
                    kids = (self.inline(1) if self.p(0.5) else []) + self.block(d - 1)
                out += self.ws() + element(t, kids, self.attrs())
            if self.p(self.comments):
                out.append(comment("item"))
        return out + self.ws()

    def block(self, d=None):
        d = self.depth if d is None else d
        simple = [b for b in self.blocks if b in ("p", "h1", "h2", "h3", "h4", "h5", "h6")]
        t = self.r.choice(self.blocks if d > 0 else simple or self.blocks)
        at = self.attrs()
        if t in ("p", "h1", "h2", "h3", "h4", "h5", "h6"):
            return element(t, self.inline(), at)
        if t in ("ul", "ol"):
            return element(t, self.items(["li"], d), at)
        if t == "dl":
            return element(t, self.items(["dt", "dd"], d), at)
        if t == "pre":
            return element("pre", self.pre_text(), at)
        if t == "prelinks":
            return element("pre", self.inline(), at)
        if t == "precode":
            return element("pre", element("code", self.pre_text()), at)
        kids = []
        for _ in range(self.r.randint(1, 3)):
            kids += self.ws() + (self.block(d - 1) if (d > 0 or simple) and not self.p(self.mixed) else self.inline(0))
        return element(t, kids + self.ws(), at)

    def document(self, blocks=(1, 3)):
        out = []
        for _ in range(self.r.randint(*blocks)):
            out += self.block() + self.ws()
        if self.p(0.05):
            out += self.inline()
        if self.p(self.cut):
            # somewhere, or just before the last elements' ends
            if self.p(0.5):
                out = out[:self.r.randint(len(out) // 2, len(out))]
            while out and (out[-1]["t"] == "end" or out[-1]["t"] == "data" and not self.p(0.5)):
                out.pop()
        return out

    # -- malformed documents --------------------------------------------------

    def soup(self, tags, n, word=None):
        """Any start and end tags, text and comments."""
        out = []
        for _ in range(n):
            x = self.r.random()
            t = self.r.choice(tags)
            if x < 0.4:
                e = start(t, self.link_attrs(t))
                if self.p(0.15):
                    e["t"] = "startend"
                if self.p(0.1):
                    e["up"] = True
                out.append(e)
            elif x < 0.7:
                out.append(end(t))
            elif x < 0.95:
                out.append(data(word() if word else self.text()))
            else:
                out.append(comment(self.r.choice(["c", "<x>", "</x>"])))
        return out

    def link_attrs(self, t):
        if t == "a" and self.p(0.7):
            return [attr("href", self.r.choice(self.hrefs))] + ([attr("title", self.r.choice(self.titles))] if self.p(.3) else [])
        if t == "img":
            return [attr("src", "/i.png")] + ([attr("alt", self.r.choice([x for x in self.alts if x]))] if self.p(.6) else [])
        return self.attrs()

    # -- configurations -------------------------------------------------------

    def sides(self, hi, p=0.5):
        return [self.r.randint(0, h) if self.p(p) else 0 for h in hi]

    def cfg(self, fmt=None, width=(12, 20, 30, 40, 67), gm=0.2, margins=0.5, **kw):
        r = self.r
        fmt = fmt or ("gophermap" if self.p(gm) else "text")
        c = base_cfg(
            fmt=fmt, lp=r.choice(["footer", "after_block"] if fmt == "gophermap" else ["inline", "footer", "after_block"]),
            ip=r.choice(["inline", "footer", "after_block"]), port=r.choice([70, 7070]), width=r.choice(width),
            margin=self.sides([2, 4, 2, 5]) if self.p(margins) else [0] * 4, optimise=self.p(0.5))
        c.update(kw)
        if self.p(0.2):
            # arguments that are the defaults left out (1), or given as None (2)
            c["defaults"] = r.choice([1, 2])
        return c

    def border(self):
        r = self.r
        wide = self.p(0.08)
        return [codes(r.choice(["", "-", "=-"])), codes(r.choice(["", "|", " #"] + ["  <->", "1234"] * wide)),
                codes(r.choice(["", "_", "-="])), codes(r.choice(["", "|", "# "] + ["<->  ", "5678"] * wide))]

    def box_settings(self, p=0.5, borders=0.5):
        s = {}
        if self.p(p):
            s["margin"] = self.sides([2, 2, 2, 3])
        if self.p(p):
            s["padding"] = self.sides([1, 2, 1, 2])
        if self.p(p * borders):
            s["border"] = self.border()
        return s

    def line_settings(self, indents=4):
        r = self.r
        s = {}
        if self.p(0.6):
            s["justification"] = r.choice(["left", "right", "center", "full", "none"])
        if self.p(0.3):
            s["initial_indent"] = r.randint(0, indents)
        if self.p(0.3):
            s["subsequent_indent"] = r.randint(0, indents)
        for k, q in (("capitalized", .15), ("fix_sentence_endings", .3), ("break_long_words", .4),
                     ("break_on_hyphens", .4)):
            if self.p(q):
                s[k] = self.p(0.5)
        if self.p(0.12):
            s["drop_whitespace"] = False
        if self.p(0.08):
            s.update(r.choice([{"expand_tabs": False}, {"tabsize": r.choice([1, 3, 4])}, {"replace_whitespace": False},
                               {"expand_tabs": False, "replace_whitespace": False}]))
        return s

    def header_settings(self):
        r = self.r
        s = {}
        for k in ("capitalized", "centered", "underlined", "underline_full"):
            if self.p(0.4):
                s[k] = self.p(0.7)
        if self.p(0.3):
            s["spread"] = r.randint(0, 3)
        if self.p(0.3):
            s["spread_char"] = codes(r.choice([" ", ".", "- ", "x", ""]))
        if self.p(0.3):
            s["underline_char"] = codes(r.choice(["-", "~", "*", "x", "-=", "", " "]))
        if self.p(0.3):
            s["template"] = tpl(r.choice(["{c}", "[ {c} ]", "* {c}", "no. {c} end", "%s \\n {c}"])) if self.p(0.9) else braces("{", "c", "}")
        return s

    LINE_TEMPLATES = ["{c}", "> {c}", "|{c}|", "* {c}", "-> {c}", "{c} <", "x {c} y", "%d\\{c}"]

    COLOURS = [b + c for b in ("", "bright_") for c in "black red green yellow blue magenta cyan white".split()]

    def colour(self):
        r = self.r
        k = r.randint(0, 3)
        if self.p(0.06):
            return {"k": "none", "v": self.p(0.5)}
        if k == 0:
            return {"k": "name", "v": r.choice(self.COLOURS)}
        if k == 1:
            return {"k": "int", "v": r.choice([0, 1, 7, 8, 9, 15, 16, 17, 100, 231, 255])}
        rgb = [r.choice([0, 17, 255, 128, 1, 9, 10, 99, 170, 254]) for _ in range(3)]
        if k == 2:
            return {"k": "rgb", "v": rgb}
        if all(x % 17 == 0 for x in rgb) and self.p(0.5):
            txt = "#" + "".join("%x" % (x // 17) for x in rgb)
        else:
            txt = ("#%02x%02x%02x" if self.p(0.7) else "#%02X%02X%02X") % tuple(rgb)
        return {"k": "hex", "v": rgb, "txt": txt}

    EFFECTS = ("bold faint italic fraktur underline slow_blink rapid_blink invert conceal crossed_out "
               "framed encircled overlined").split()

    def ansi_settings(self, normalise=0.15):
        r = self.r
        s = {k: self.p(0.93) for k in r.sample(self.EFFECTS, r.choice([0, 1, 1, 2, 3]))}
        if self.p(0.4):
            s["foreground_colour"] = self.colour()
        if self.p(0.3):
            s["background_colour"] = self.colour()
        if self.p(0.15):
            s["font"] = r.choice([-1, 0, 1, 2, 3, 5, 8, 9])
        if self.p(normalise):
            s["normalise"] = True
        return s

    INLINE_TEMPLATES = ["{c}", "<{c}>", "_{c}_", "{c}!", "({c}", "*{c}*", "<x {c}>", "a{c}z"]
    WRAP_TEMPLATES = ["{c}\t|", "\t{c}", "  {c}  ", "{c}   ."]

    def inline_settings(self):
        s = {}
        if self.p(0.6):
            s["template"] = (tpl(self.r.choice(self.INLINE_TEMPLATES + (self.WRAP_TEMPLATES if self.spacy else []))) if self.p(0.95)
                             else braces("{", "c", "}}"))
        if self.p(0.3):
            s["capitalized"] = self.p(0.7)
        return s

    def kind_settings(self, kind):
        r = self.r
        if kind in ("Inline", "Em", "Strong", "Underline", "Strike", "Break"):
            return self.inline_settings() if kind != "Break" else {}
        if kind == "Ansi":
            return {**self.ansi_settings(), **(self.inline_settings() if self.p(0.3) else {})}
        if kind in ("Block", "List", "DefList"):
            return self.box_settings()
        if kind in ("Header", "MdHeader", "DefTerm"):
            s = {**self.box_settings(0.3), **self.header_settings()}
            if kind == "MdHeader":
                s.pop("template", None)
            return s
        if kind == "Paragraph":
            s = {**self.box_settings(0.3), **self.line_settings()}
            if self.p(0.3):
                s["line_template"] = tpl(r.choice(self.LINE_TEMPLATES)) if self.p(0.9) else braces("{} ", "c", "")
            if self.p(0.2):
                s["skip_for_code_or_pre"] = False
            return s
        if kind in ("ListItem", "DefItem"):
            s = {**self.box_settings(0.3), **self.line_settings()}
            if self.p(0.5):
                s["line_template"] = tpl(r.choice(["- {c}", "* {c}", "{c}", "+++ {c}", "item {c}", "{c}|"])) if self.p(0.9) else braces("{", "c", "}")
            return s
        if kind == "OLItem":
            s = {**self.box_settings(0.3), **self.line_settings()}
            if self.p(0.4):
                s["line_template"] = tpl(r.choice(["{ord}) {item}", "({ord}) {item}", "* {c}", "no. {ord}: {item}", "{ord}{item}", "{item} {ord}", "{ord}/{ord} {item}"]))
                if self.p(0.1):
                    s["line_template"] = [lit("{"), fld("ord"), lit("}}"), fld("item")]
            if self.p(0.5):
                s["start_index"] = r.choice([0, 1, 5, 9, 98, -3, 999])
            if self.p(0.4):
                s["step"] = r.choice([2, 10, -1, 0, -7, 3])
            return s
        if kind == "BlockQuote":
            s = self.box_settings(0.3)
            if self.p(0.5):
                s["line_template"] = tpl(r.choice(["> {c}", ": {c}", "| {c} |", "{c}", "q {c}", ">{c}"])) if self.p(0.9) else braces("}{ ", "c", " {")
            return s
        if kind == "Pre":
            s = self.box_settings(0.3)
            if self.p(0.5):
                s["indent"] = r.randint(0, 6)
            if self.p(0.4):
                s["line_template"] = tpl(r.choice(["{c}", "| {c}", "$ {c}", "a {c} b", "%{c}"])) if self.p(0.9) else braces("{", "c", "}")
            return s
        if kind == "Code":
            s = {}
            if self.p(0.5):
                s["inline_template"] = tpl(r.choice(["`{c}`", "<{c}>", "{c}", "code {c}"])) if self.p(0.9) else braces("{", "c", "}")
            if self.p(0.5):
                s["block_template"] = tpl(r.choice(["~~~\n{c}\n~~~", "{c}", "a\n{c}b"])) if self.p(0.9) else braces("{\n", "c", "\n}")
            return s
        if kind == "Link":
            s = {}
            if self.p(0.5):
                s["templates"] = {
                    "reference": tpl(r.choice(["{content} ({ref})", "[{content}][{ref}]", "{content}"])),
                    "inline": [tpl(r.choice(["{content} <{href}>", "[{content}]({href})"])),
                               tpl(r.choice(["{content} <{href}> {title}", "[{title}]({href})"]))]}
            if self.p(0.2):
                s["capitalized"] = True
            return s
        if kind == "Image":
            s = {}
            if self.p(0.5):
                s["templates"] = {"reference": tpl(r.choice(["{title} ({ref})", "[{title}][{ref}]"])),
                                  "inline": tpl(r.choice(["![{title}]({href})", "<{href}>"]))}
            return s
        if kind in ("XLink", "XImage"):
            s = self.box_settings(0.2) if self.p(0.3) else {}
            if self.p(0.4):
                s["max_link_description"] = r.choice([0, 1, 5, 10, 40])
            if self.p(0.3):
                s["templates"] = [tpl("\n{ref}: {desc} {href}"),
                                  tpl("\n{ref}: {desc} {href}" + (" {title}"))]
            if self.p(0.2):
                s["gophermap_template"] = tpl("{type}({ref}) {desc}\t{selector}\t{host}\t{port}\n")
            return s
        return {}

    KIND_OF = dict(p="Paragraph", h1="MdHeader", h2="MdHeader", h3="MdHeader", h4="MdHeader", h5="MdHeader",
                   h6="MdHeader", div="Block", ul="List", ol="List", blockquote="BlockQuote", pre="Pre",
                   code="Code", dl="DefList", dt="DefTerm", dd="DefItem", em="Em", i="Em", strong="Strong",
                   b="Strong", u="Underline", ins="Underline", s="Strike", span="Inline", a="Link", img="Image")
    KIND_OF["del"] = "Strike"

    def tag_rule(self, t):
        """A rule for the elements of a tag that fits what they are."""
        if t in ("li", "olli"):
            if t == "li":
                return rule({"k": "comb", "c": ">", "l": el("ul"), "r": el("li")}, self.r.choice(["none", "ListItem"]),
                            self.kind_settings("ListItem"))
            return rule({"k": "comb", "c": ">", "l": el("ol"), "r": el("li")}, "OLItem", self.kind_settings("OLItem"))
        kind = self.KIND_OF[t]
        own = kind
        if kind == "MdHeader" and self.p(0.4):
            kind = own = "Header"
        elif kind in ("Em", "Strong", "Underline", "Strike", "Inline") and self.p(0.3):
            kind = own = self.r.choice(["Inline", "Ansi", "Strong", "Em"])
        elif self.p(0.5):
            own = "none"
        s = self.kind_settings(kind)
        if own == "none" and self.p(0.85):
            # beside the default rule, not in its place
            return rule([el(t), el("zz")], "none", s)
        return rule(el(t), own, s)

    def rules(self, tags=None, n=(0, 4)):
        tags = tags or sorted(self.KIND_OF) + ["li", "olli"]
        pick = self.r.sample(tags, min(len(tags), self.r.randint(*n)))
        return [self.tag_rule(t) for t in pick]

    def xrules(self, p=0.4):
        out = []
        for t, k in (("a", "XLink"), ("img", "XImage")):
            if self.p(p):
                # a rule without a renderer takes the default one's place
                out.append(rule(el(t), "none" if self.p(0.1) else k, self.kind_settings(k)))
        return out


def session(cfgs, docs, cl, **kw):
    """One parser for each configuration number and document."""
    ops = []
    for n, (c, es) in enumerate(docs, 1):
        ops += [{"op": "new", "p": n, "cfg": c}, {"op": "feed", "p": n, "es": es}, {"op": "close", "p": n}]
    return dict(kind="session", cfgs=cfgs, ops=ops, cl=list(cl), **kw)
