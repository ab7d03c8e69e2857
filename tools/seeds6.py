# Sixth batch: limits, coincidences, and attributes that mean something elsewhere.
bug("c05-deep-ancestor", "C05",
    [("_selectors.py", """    return _any_ancestor_matches(tag.parent, selector)""",
      """    return _any_ancestor_matches(tag.parent, selector, depth + 1)"""),
     ("_selectors.py", """def _any_ancestor_matches(tag, selector):
    if not hasattr(tag, 'parent') or tag.parent is None:""", """def _any_ancestor_matches(tag, selector, depth=0):
    if not hasattr(tag, 'parent') or tag.parent is None or depth == 6:""")],
    """
r = {'section em': (R.InlineRenderer, dict(template='<{}>'))}
p = GopherHTMLParser(renderers=r)
p.feed("<section><p><b><s><u><i><b><s><em>x</em></s></b></i></u></s></b></p></section>")
p.close()
expect("<x>" in p.parsed, True)
""", "A descendant combinator over more than six elements", "The rule does not apply.")

bug("c09-hundred", "C09",
    [("_parser.py", "                link_reference=self._next_link_number,", "                link_reference=self._next_link_number % 100,")],
    """
t = render("<p>" + "".join('<a href="/%d">w</a> ' % i for i in range(1, 103)) + "</p>", link_placement="footer", width=67)
expect("[100]" in t, True)
expect(t.count("[1]"), 2)
""", "A hundred links or more", "The numbers start again at 0.")

bug("c16-hundred", "C16",
    [("rendering.py", "        return (items.index(tag) * step) + start_index", "        return (min(items.index(tag), 99) * step) + start_index")],
    """
t = render("<ol>" + "<li>x</li>" * 102 + "</ol>")
expect([l.strip() for l in t.strip("\\n").split("\\n")][-3:], ["100. x", "101. x", "102. x"])
""", "More than a hundred items", "All others have the same number.")

bug("c16-value", "C16",
    [("rendering.py", "        return (items.index(tag) * step) + start_index", """        if tag.attrs.get('value', '').isdigit():
            return int(tag.attrs['value'])
        return (items.index(tag) * step) + start_index""")],
    """
expect(render('<ol><li>a</li><li value="7">b</li><li>c</li></ol>'), render('<ol><li>a</li><li>b</li><li>c</li></ol>'))
""", "An attribute value on a list item", "The number of the item is not that of its place.")

bug("c10-title-of-image", "C10",
    [("_parser.py", "            self.title = self.attrs.get('alt', None)", "            self.title = self.attrs.get('alt', self.attrs.get('title'))")],
    """
expect(render('<p><img src="/i.png" title="T"></p>'), render('<p><img src="/i.png"></p>'))
""", "An image with a title and without an alternative text", "The title stands for the alternative text instead of the default.")

bug("c12-strip-href", "C12",
    [("_parser.py", "            self.href = self.attrs.get('href', None)", "            self.href = (self.attrs.get('href') or '').replace(' ', '%20')")],
    """
t = render('<p><a href="/a b.txt">x</a></p>', output_format="gophermap", link_placement="footer", gopher_host="h", gopher_port=70)
expect("/a b.txt" in t, True)
""", "An address with blanks in it", "The selector is not that of the address.")

bug("c24-tabs", "C24",
    [("cli.py", "    parser.feed(source_text)", "    parser.feed(source_text.expandtabs(4))")],
    """
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.html")
    open(f, "w").write("<pre>a\\tb</pre>")
    out = subprocess.run([sys.executable, "-W", "ignore", "-m", "gopher_render", f, os.path.join(d, "out")], stdout=subprocess.PIPE, text=True).stdout
expect("a\\tb" in out, True)
""", "A tab in preformatted text", "It is replaced by blanks.")

bug("c13-combining", "C13",
    [("_textwrap.py", "    return len(actual)", "    return sum(not '\\u0300' <= c < '\\u0370' for c in actual)")],
    """
t = render("<p>" + "e\\u0301" * 4 + " " + "bb " * 4 + "</p>", width=10, optimise=False)
expect(max(len(l.rstrip()) for l in t.split("\\n")) <= 10, True)
""", "Combining characters in wrapped text", "Lines are longer than the width.")

bug("c21-bright-int", "C21",
    [("rendering.py", "        return \"{};5;{}\".format(control, colour)", "        return \"{};5;{}\".format(control, colour % 255)")],
    """
r = {'em': (R.AnsiEscapeCodeRenderer, dict(foreground_colour=255))}
expect("38;5;255m" in render("<p><em>x</em></p>", renderers=r), True)
""", "The last colour of the palette", "It is shown as the first.")

bug("c14-odd-gap", "C14",
    [("rendering.py", "    for line in lines[:-1]:\n        ls", "    for line in lines[:-1]:\n        if len(line) * 2 < width:\n            justified.append(line)\n            continue\n        ls")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='full', margin=[0, 0, 0, 0]))}
t = render("<p>a b cccccccccccccccccccc</p>", width=20, renderers=r)
expect(t.split("\\n")[0], "a                  b")
""", "A line of less than half of the width that is not the last", "It is not justified.")

bug("c06-hundred", "C06",
    [("_selectors.py", """        specificity1[0],
        specificity2[0],
        _compare(
            specificity1[1],
            specificity2[1],""", """        specificity1[0] + specificity1[1] // 10,
        specificity2[0] + specificity2[1] // 10,
        _compare(
            specificity1[1],
            specificity2[1],""")],
    """
r = {'.c' * 11: (R.InlineRenderer, dict(template='<{}>')), '#i.c': (R.InlineRenderer, dict(template='({})')), '#i': (R.InlineRenderer, dict(template='!{}!'))}
expect("(x)" in render('<p><em class="c" id="i">x</em></p>', renderers=dict(r)), True)
r = {'#i': (R.InlineRenderer, dict(template='({})')), '.c' * 11: (R.InlineRenderer, dict(template='<{}>'))}
expect("(x)" in render('<p><em class="c" id="i">x</em></p>', renderers=r), True)
""", "A selector with ten classes or more against one with an id", "The classes win.")
