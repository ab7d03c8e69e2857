# Second batch.
bug("c02-space-after-text", "C02",
    [("_parser.py", """        # Ignore any whitespace data on its own, unless in a pre tag
""", """        # Ignore any whitespace data on its own if there is text before it
        top = self._tag_stack[-1] if self._tag_stack else self.tree
        if not self._in_pre and data.isspace() and top.children and top.children[-1].tag is None:
            return
""")],
    """
p = GopherHTMLParser()
for piece in ("<p>one", " ", "two</p>"):
    p.feed(piece)
p.close()
expect(p.parsed, render("<p>one two</p>"))
""", "A document cut so that a piece of a text is nothing but whitespace",
    "Such a piece is dropped and the words around it are joined.")

bug("c02-pre-data", "C02",
    [("_parser.py", """        d = DataParser(parent, data, in_pre=self._in_pre)
""", """        d = DataParser(parent, data.lstrip('\\n') if self._in_pre and not siblings else data, in_pre=self._in_pre)
""")],
    """
p = GopherHTMLParser()
for piece in ("<pre>", "\\n", "\\n  one</pre>"):
    p.feed(piece)
p.close()
expect(p.parsed, render("<pre>\\n\\n  one</pre>"))
""", "A preformatted text that begins with several line breaks, cut between them",
    "The line breaks that come with the first piece are dropped, those of later pieces are not.")

bug("c03-class-mutation", "C03",
    [("rendering.py", """        if '{1' in self.settings.line_template:
            self.settings.line_template = self.settings.line_template.format(""",
      """        if '{1' in self.settings.line_template:
            if 'settings' in self.context:
                self.settings = self.context['settings']
            self.settings.line_template = self.settings.line_template.format(""")] if False else
    [("_parser.py", """        if self.renderer_settings is not None:
            render_context['settings'] = self.renderer_settings

        render_inst = self.renderer(self, **render_context)""", """        if self.renderer_settings is not None:
            render_context['settings'] = self.renderer_settings

        render_inst = self.renderer(self, **render_context)
        if self.renderer_settings is not None and self.tag == 'ol':
            self.renderer_settings.setdefault('margin', render_inst.settings.margin)
            self.renderer_settings['margin'][0] = min(1, self.renderer_settings['margin'][0])""")],
    """
class Mine(R.ListRenderer):
    settings = dict(margin=[3, 0, 1, 0])
r = {'ol': (Mine, {})}
expect(render("<ol><li>a</li></ol>", renderers=r), "\\n\\n\\n1. a\\n")
expect(render("<ol><li>a</li></ol>", renderers=r), "\\n\\n\\n1. a\\n")
""", "An ordered list whose renderer has a top margin of more than one line, rendered twice",
    "Rendering changes the settings of the class, so the next document looks different.")

bug("c03-number-not-reset", "C03",
    [("_parser.py", """    def reset(self):
        super().reset()
        self._parsed = []
        self.parsed = ""
        self._tag_stack = []
""", """    def reset(self):
        super().reset()
        self._parsed = []
        self.parsed = ""
        del self._tag_stack[1:]
""")],
    """
p = GopherHTMLParser()
p.feed("<blockquote><p>one")
p.reset()
p.feed("<p>two</p>")
p.close()
expect(p.parsed, render("<p>two</p>"))
""", "A reset while elements are open", "The outermost open element stays open: what is fed next goes into it and is lost.")

bug("c04-break-long-unicode", "C04",
    [("rendering.py", """    parts = [p.upper() for p in textwrap._escape_regex.split(text)]
""", """    parts = [p.upper().replace('\\u00df', 'SS') for p in textwrap._escape_regex.split(text)]
""")] if False else
    [("rendering.py", """        # TODO: There may be other circumstances where we need to skip
        # However, every instance I've encountered so far has been resolvable
        # by correcting markdown or the markdown parser settings, so...
        if settings.skip_for_code_or_pre and self._skip(self.tag.children):
            return content
""", """        # TODO: There may be other circumstances where we need to skip
        # However, every instance I've encountered so far has been resolvable
        # by correcting markdown or the markdown parser settings, so...
        if settings.skip_for_code_or_pre and self._skip(self.tag.tag_children()):
            return content.strip() if len(self.tag.children) == 1 else content[:self.box.inner_width]
""")],
    """
words = " ".join("word%d" % i for i in range(40))
expect(render("<p>%s <code>x</code></p>" % words, width=20).split(), words.split() + ["`x`"])
""", "A paragraph longer than a line whose only element is a code", "The paragraph is cut off at the width.")

bug("c04-format-content", "C04",
    [("rendering.py", """        return "\\n".join(
            [template.format(line) for line in just_split]
        )


# TODO: Need to differentiate""", """        return template.format(("\\n" + template.partition("{")[0]).join(just_split)) if template.endswith("{}") else "\\n".join(
            [template.format(line) for line in just_split if line]
        )


# TODO: Need to differentiate""")] if False else
    [("rendering.py", """        return "\\n".join(
            [template.format(line) for line in content_split]
        )


class ListRenderer""", """        return "\\n".join(
            [template.format(line) for line in content_split]
        ).replace(template.format(template.format("")), template.format(""))


class ListRenderer""")],
    """
expect(render("<blockquote>one &gt; <br>&gt; two<br>three &gt; x</blockquote>").replace(" ", "").replace("\\n", ""), ">one>>>two>three>x")
""", "A quotation with a line that starts with the marker itself", "A > of the text is lost with the marker.")

bug("c07-mro-order", "C07",
    [("rendering.py", """        for klass in all_classes[::-1]:
            if 'settings' in vars(klass):
                all_bases.append(klass.settings)""", """        for klass in sorted(all_classes[::-1], key=lambda k: len(inspect.getmro(k))):
            if 'settings' in vars(klass):
                all_bases.append(klass.settings)""")],
    """
class A(R.Renderer):
    settings = dict(k='a')
class B(R.Renderer):
    settings = dict(j=1)
class B2(B):
    settings = dict(k='b')
class C(A, B2):
    pass
class T:
    tag = 'x'
expect(C(T()).settings.k, 'a')
""", "A renderer with two bases, the second one with the longer ancestry, that set the same key",
    "The settings of the second base win although the first one comes before it in the method resolution order.")

bug("c07-subclass-cache", "C07",
    [("rendering.py", """        s = namedict()
        all_classes = inspect.getmro(cls)
        all_bases = []
        for klass in all_classes[::-1]:
            if 'settings' in vars(klass):
                all_bases.append(klass.settings)
        for base in all_bases:
            s.update(base)
""", """        s = namedict()
        all_classes = inspect.getmro(cls)
        all_bases = []
        for klass in all_classes[::-1]:
            if 'settings' in vars(klass):
                if klass.settings:
                    all_bases.append(klass.settings)
        for base in all_bases[:-1]:
            s.update(base)
        if len(all_bases) == 1:
            s = all_bases[0]
        elif all_bases:
            s.update(all_bases[-1])
""")],
    """
class A(R.Renderer):
    settings = dict(k=1)
class T:
    tag = 'x'
a = A(T())
a.settings.k = 2
expect(A(T()).settings.k, 1)
expect(A(T(), settings={'k': 3}).settings.k, 3)
expect(A(T()).settings.k, 1)
""", "A renderer class that is the only one of its ancestry that has settings, and an instance whose settings are changed",
    "The instance has the settings of the class itself, so a change of one affects all others.")

bug("c08-falsy", "C08",
    [("_namedict.py", """        if hasattr(self, name) and not name in self:
            object.__setattr__(self, name, value)
        else:
            self[name] = value""", """        if hasattr(self, name) and self.get(name, self) is None or hasattr(dict, name) and not name in self:
            object.__setattr__(self, name, value)
        else:
            self[name] = value""")],
    """
from gopher_render._namedict import namedict
n = namedict(font=None)
n.font = 3
expect((n['font'], n.font), (3, 3))
""", "An attribute assignment to a key whose value is None",
    "The attribute is set on the object instead of in the mapping, so item access gives the old value.")

bug("c08-getattr-default", "C08",
    [("_namedict.py", """        if name in self:
            return self[name]
        raise AttributeError(name)""", """        if name in self:
            return self[name]
        if name.replace('_', '-') in self:
            return self[name.replace('_', '-')]
        raise AttributeError(name)""")],
    """
from gopher_render._namedict import namedict
n = namedict({'a-b': 1})
expect(hasattr(n, 'a_b'), False)
""", "A missing attribute for which there is an item with hyphens for its underscores",
    "Attribute access gives the other item.")
