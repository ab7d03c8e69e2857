# First batch of planted bugs.
bug("c01-stray-end-pops", "C01",
    [("_parser.py", """        if top.tag == tag:
            top.closed = True
        else:""", """        if top.tag == tag or any(t.tag == tag for t in self._tag_stack[:-2]):
            top.closed = True
        else:""")],
    """
expect(render("<div><p>one <em>two</p></div> three</em></p></div>"), render("<div><p>one <em>two three</em></p></div>"))
expect(render("<div><p><b>x</div>y</b> z</p></div>"), render("<div><p><b>xy</b> z</p></div>"))
""", "An end tag that belongs to an open element at least two levels above the innermost one",
    "It closes the innermost element, so the text after it is rendered outside of it.")

bug("c01-void-track", "C01",
    [("_parser.py", """        if not t.closed:
            self._tag_stack.append(t)""", """        if not t.closed or (tag == 'wbr' and parent is not self.tree):
            self._tag_stack.append(t)""")],
    """
expect(render("<p>a<em>b<wbr>c</em> d</p>"), render("<p>a<em>bc</em> d</p>"))
expect(render("<p>a<wbr>b</p>\\n<p>c</p>"), render("<p>ab</p>\\n<p>c</p>"))
""", "A wbr element inside another element",
    "The stack of open elements gets a closed element, and what follows goes to the root of the document.")

bug("c03-close-discards", "C03",
    [("_parser.py", """        # Anything being left in _tag_stack probably indicates an unclosed tag...
        # Pop everything off anyway and add any root tags to the tree.
        while len(self._tag_stack) > 0:
            t = self._tag_stack.pop()
            if t.parent is None:
                self.tree.append(t)
""", """        # Anything being left in _tag_stack probably indicates an unclosed tag...
        # Pop everything off anyway and add any root tags to the tree.
        for t in self._tag_stack:
            if t.parent is None:
                self.tree.append(t)
""")],
    """
p = GopherHTMLParser()
p.feed("<p>one <em>two")
p.close()
first = p.parsed
p.feed("<p>three</p>")
p.close()
expect(p.parsed, render("<p>one <em>two</em></p><p>three</p>"))
""", "A close with elements open, followed by more input and another close",
    "The elements that were open at the close stay open, so what is fed after it goes into them.")

bug("c04-template-user-text", "C04",
    [("rendering.py", """                " "*settings.indent,
                    settings.line_template.format(line)
""", """                " "*settings.indent,
                    settings.line_template.format(line).format(line)
""")] if False else
    [("rendering.py", """        inner = settings.template.format(
            spread_func(
                capitalize_func(
                    super()._inner_render(content)
                ),
                settings.spread_char,
                settings.spread
            )
        )""", """        inner = settings.template.format(
            spread_func(
                capitalize_func(
                    super()._inner_render(content)
                ),
                settings.spread_char,
                settings.spread
            ).replace("{{", "{").replace("}}", "}")
        )""")],
    """
expect(render("<h1>a {{b}} c</h1>"), "\\n# a {{b}} c #\\n")
""", "Doubled braces in a heading", "The text is treated like a template: doubled braces become single ones.")

bug("c04-wrap-drops", "C04",
    [("_textwrap.py", "            if self.drop_whitespace and cur_line and cur_line[-1].strip() == '':",
      "            if self.drop_whitespace and cur_line and (\n                    cur_line[-1].strip() == '' or len(lines) > 2 and cur_len > width and cur_line[-1].strip('-') == ''):")],
    """
expect("".join(render("<p>aaaa bbbb cccc dddd %s eeee</p>" % ("-" * 70), width=5, renderers={'p': (R.ParagraphRenderer, dict(break_long_words=False))}).split()), "aaaabbbbccccdddd" + "-" * 70 + "eeee")
""", "A run of hyphens longer than a line, on at least the fourth line, with long words kept whole",
    "The run is lost.")

bug("c05-any-ancestor-skips-root-child", "C05",
    [("_selectors.py", """    if _selector_matches(tag.parent, selector):
        return True
    return _any_ancestor_matches(tag.parent, selector)""", """    if _selector_matches(tag.parent, selector):
        return True
    if isinstance(selector, CombinedSelector) and selector.combinator == '>':
        # Only the nearest candidate counts
        if _selector_matches(tag.parent, selector.subselector):
            return False
    return _any_ancestor_matches(tag.parent, selector)""")],
    """
r = {'section > div em': (R.InlineRenderer, dict(template="({})"))}
expect(render("<section><div><div><em>x</em></div></div></section>", renderers=r), "(x)")
""", "A child combinator to the left of a descendant combinator, and a nearer ancestor that matches only the right part of it",
    "There is no backtracking: the element is taken not to match.")

bug("c05-dash-match", "C05",
    [("_selectors.py", """        if selector.operator == '|=':""",
      """        if selector.operator == '|=' and '-' not in value:""")],
    """
r = {'em[lang|="de-AT"]': (R.InlineRenderer, dict(template="({})"))}
expect(render('<em lang="de-AT-1996">a</em><em lang="de-AT">b</em><em lang="de">c</em>', renderers=r), "(a)(b)_c_")
""", "A dash match attribute selector whose value has a hyphen itself", "It never matches.")

bug("c06-specificity-swapped", "C06",
    [("_selectors.py", """            specificity1[1],
            specificity2[1],
            _compare(
                specificity1[2],
                specificity2[2],
            )""", """            specificity1[1] + specificity1[2] // 3,
            specificity2[1] + specificity2[2] // 3,
            _compare(
                specificity1[2],
                specificity2[2],
            )""")],
    """
r = {'.k': (R.InlineRenderer, dict(template="({})")), 'section div em': (R.InlineRenderer, dict(template="<{}>"))}
expect(render('<section><div><em class="k">a</em></div></section>', renderers=r), "(a)")
""", "Three type selectors against one class selector", "Enough type selectors outweigh a class.")

bug("c06-best-of-list", "C06",
    [("_selectors.py", """            if _more_specific(s.specificity(), best_specificity):
                matched = True
                best_specificity = s.specificity()""", """            if not matched:
                matched = True
                best_specificity = s.specificity()""")],
    """
r = {'em, em.k': (R.InlineRenderer, dict(template="({})")), 'div em': (R.InlineRenderer, dict(template="<{}>"))}
expect(render('<div><em class="k">a</em></div>', renderers=r), "(a)")
""", "A rule with a list of selectors several of which match, the first one not being the most specific",
    "The specificity of the first that matches is used.")

bug("c06-tie-earlier", "C06",
    [("_parser.py", "        all_matches.sort(key=lambda m: m[0])",
      "        all_matches.sort(key=lambda m: (m[0], len(m[1].selector) > 1))")],
    """
r = {'em.a, em.b': (R.InlineRenderer, dict(template="({})")), 'em.c': (R.InlineRenderer, dict(template="<{}>"))}
expect(render('<em class="a c">x</em>', renderers=r), "<x>")
""", "A tie in specificity between a rule with a list of selectors and a later one with a single selector",
    "The earlier rule wins.")
