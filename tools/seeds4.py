# Fourth batch: boxes, lists, preformatted text, whitespace, headings, styling, optimising, robustness, command line.
bug("c15-bottom-border", "C15",
    [("rendering.py", """            for c in borders[BoxSide.BOTTOM]:
                padded.append(c * box.bordered_width)""", """            for c in borders[BoxSide.BOTTOM]:
                padded.append(c * (box.padded_width + 2 * box.border[BoxSide.LEFT]))""")],
    """
r = {'div': (R.BlockRenderer, dict(border=['-', '|', '-', '']))}
out = render("<div>x</div>", width=20, renderers=r, optimise=False)
expect({len(l) for l in out.split("\\n")}, {20})
""", "A box whose left and right borders have different widths", "The bottom border has another width than the lines.")

bug("c15-line-template-sibling", "C15",
    [("rendering.py", """            self.total_line_template_padding = self.line_template_padding + parent.total_line_template_padding""",
      """            self.total_line_template_padding = self.line_template_padding + (
                parent.total_line_template_padding if parent.line_template or not parent.parent else parent.parent.line_template_padding)""")],
    """
words = " ".join(["abc"] * 30)
out = render("<blockquote><blockquote><div><p>%s</p></div></blockquote></blockquote>" % words, width=30)
expect(max(len(l) for l in out.split("\\n")) <= 30, True)
""", "A block without a line template inside two quotations", "Only the template of one of them counts, and the lines are too wide.")

bug("c16-wide-marker", "C16",
    [("rendering.py", """        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""", """        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * min(template_width, 4), line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""")],
    """
r = {'ol > li': (R.OrderedListItemRenderer, dict(start_index=100))}
out = render("<ol><li>" + " ".join(["abc"] * 10) + "</li></ol>", width=20, renderers=r)
expect(out, "\\n100. abc abc abc abc\\n     abc abc abc abc\\n     abc abc\\n")
""", "A marker of more than four characters", "The other lines are not indented by its width.")

bug("c16-dd-first-blank", "C16",
    [("rendering.py", """class DefinitionListItemRenderer(BlockRenderer):
    settings = dict(
        line_template=": {}",""", """class DefinitionListItemRenderer(ListItemRenderer):
    settings = dict(
        line_template=":  {}" if False else ": {}",
        border=['', '', '', ''],"""),
     ("rendering.py", """        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""", """        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width if line.strip(' ') != ':' else '', line) for line in just_split[1:]])
        return "\\n".join(out)


class OrderedListItemRenderer""")],
    """
out = render("<ul><li>one<br>:<br>two</li></ul>")
expect(out, "\\n* one\\n  :\\n  two\\n")
""", "A list item with a line that is nothing but a colon", "That line is not indented.")

bug("c17-pre-tabs", "C17",
    [("rendering.py", """        lines = _split_lines(content)
        formatted = []
        for line in lines:
            formatted.append(""", """        lines = _split_lines(content)
        formatted = []
        for line in lines:
            if len(line) > self.box.inner_width:
                line = line.expandtabs(8)
            formatted.append(""")],
    """
out = render("<pre>a\\t" + "b" * 80 + "</pre>", width=20)
expect(out, "\\n    a\\t" + "b" * 80 + "\\n")
""", "A line of preformatted text with a tab that is longer than the width", "The tab becomes spaces.")

bug("c17-pre-nested-inline", "C17",
    [("_parser.py", """        d = DataParser(parent, data, in_pre=self._in_pre)
""", """        d = DataParser(parent, data, in_pre=self._in_pre and (parent is None or parent.tag != 'span'))
""")],
    """
out = render("<pre>if <span>x:\\n    y</span></pre>")
expect(out, "\\n    if x:\\n        y\\n")
""", "A span inside a pre element with whitespace in it", "Its whitespace is collapsed and its lines are joined.")

bug("c17-pre-block", "C17",
    [("_parser.py", """            self._in_pre = True
""", """            self._in_pre = True
        elif tag in ('p', 'div', 'blockquote') and self._in_pre:
            self._in_pre = self._tag_stack[-1].tag == 'pre'
""")],
    """
expect("a  b" in render("<pre><em><p>a  b</p></em></pre>"), True)
""", "A block in an inline element in a pre element", "Its text is formatted.")

bug("c18-tab-run", "C18",
    [("_parser.py", """            data_split = data.split('\\n')
            if len(data_split) > 1:""", """            data_split = data.split('\\n')
            if len(data_split) > 1 and not (len(data_split) == 2 and data_split[0] == ''):""")],
    """
expect(render("<div><em>a</em>\\n \\u00a0 b</div>"), "_a_ b")
""", "A text that begins with a line break followed by other whitespace, without a second line break", "The whitespace after the line break stays.")

bug("c18-br-strip", "C18",
    [("rendering.py", """            # I think we can safely strip here because the paragraph renderer
            # is expected to reformat its contents...
            j = justify_func(textwrap._strip(chunk), width, **justify_args)
            justified.append(j)""", """            # I think we can safely strip here because the paragraph renderer
            # is expected to reformat its contents...
            j = justify_func(textwrap._strip(chunk), width, **justify_args)
            if j or not justified or justified[-1]:
                justified.append(j)""")],
    """
expect(render("<p>a<br><br><br>b</p>"), "\\na\\n\\n\\nb\\n")
""", "Three line breaks in a row in a paragraph", "There is one line break less in the output.")

bug("c19-md-six", "C19",
    [("rendering.py", """        h_type = int(self.tag.tag[1])
        hashes = "#" * h_type""", """        h_type = int(self.tag.tag[1])
        hashes = "#" * min(h_type, len(self.settings.template) + 2 if self.settings.underlined else 6)""")],
    """
r = {'h5, zz': (None, dict(underlined=True))}
expect(render("<h5>a</h5>", renderers=r), "\\n##### a #####\\n=============\\n")
""", "A heading of the fifth or sixth level that is underlined", "It has too few hash marks.")

bug("c19-underline-full-box", "C19",
    [("rendering.py", """            underline_len = width if settings.underline_full else textwrap._len(inner)""",
      """            underline_len = box.width - box.total_margin[BoxSide.LEFT] if settings.underline_full else textwrap._len(inner)""")],
    """
r = {'h1': (R.HeaderRenderer, dict(underlined=True, underline_full=True, padding=[0, 1, 0, 1]))}
expect(len(render("<h1>a</h1>", renderers=r, width=30).split("\\n")[2].strip()), 28)
""", "A full underline of a heading with padding, border or right margin", "The underline is too long.")

bug("c19-quote-blank", "C19",
    [("rendering.py", """        content_split = _split_lines(content)
        template = self.settings.line_template
""", """        content_split = _split_lines(content)
        while len(content_split) > 3 and not content_split[-1].strip():
            content_split.pop()
        template = self.settings.line_template
""")],
    """
expect(render("<blockquote>a<br>b<br>c<br><br></blockquote>"), "\\n> a\\n> b\\n> c\\n>\\n")
""", "A quotation of at least three lines that ends with empty lines", "They are lost.")

bug("c19-spread-template", "C19",
    [("rendering.py", """        spread_func = spread if settings.spread > 0 else _noop""",
      """        spread_func = spread if settings.spread > 0 and len(content) > 1 + settings.capitalized else _noop"""),
     ("rendering.py", """            underline_len = width if settings.underline_full else textwrap._len(inner)
            underline""", """            underline_len = width if settings.underline_full else textwrap._len(inner) - (len(settings.spread_char) - 1 if settings.spread else 0)
            underline""")],
    """
r = {'h1': (R.HeaderRenderer, dict(underlined=True, spread=1, spread_char='-.'))}
expect(render("<h1>abc</h1>", renderers=r), "\\na-.b-.c\\n=======\\n")
""", "Letter spacing of more than one character, underlined", "The underline is too short.")

bug("c20-caps-nested", "C20",
    [("rendering.py", """        capitalize_func = capitalize if settings['capitalized'] else _noop
        return settings.template.format(
            capitalize_func(super().render(content))
        )""", """        capitalize_func = capitalize if settings['capitalized'] else _noop
        return capitalize_func(settings.template.format(
            super().render(content)
        ))""")],
    """
r = {'em': (R.InlineRenderer, dict(template="<x {}>", capitalized=True))}
expect(render("<div><em>a</em></div>", renderers=r), "<x A>")
""", "A capitalised inline element with letters in its marker", "The marker is capitalised as well.")

bug("c20-nonrenderer-links", "C20",
    [("_parser.py", """        if len(self._pending_links):
            rendered_children.append('\\n')
        for l in self._pending_links:""", """        if len(self._pending_links) or self.renderer.__name__ == 'NonRenderer' and any(
                c.tag in VOID_TAGS for c in self.children):
            return render_inst.render("".join(rendered_children) + "".join(
                ['\\n'] + [l.link_render(box) for l in self._pending_links])) or ' '
        for l in self._pending_links:""")],
    """
r = {'span': R.NonRenderer}
expect(render("<div>a<span>x<br>y</span>b</div>", renderers=r), "ab")
""", "An element whose output is suppressed, with a void element in it", "It leaves a space.")

bug("c21-background-bright", "C21",
    [("rendering.py", """        offset = 0
        if is_background:
            offset = ANSI_BACKGROUND_COLOUR_OFFSET
        return "{}".format(ansi_colours[colour] + offset)""", """        offset = 0
        if is_background:
            offset = ANSI_BACKGROUND_COLOUR_OFFSET
        return "{}".format(min(ansi_colours[colour] + offset, 106))""")],
    """
r = {'em': (R.AnsiEscapeCodeRenderer, dict(background_colour='bright_white'))}
expect(render("<div><em>a</em></div>", renderers=r), "\\033[107ma\\033[49m")
""", "The background colour bright_white", "The background is bright cyan.")

bug("c21-html-colour", "C21",
    [("rendering.py", """            colour[1] * 2,
            colour[2] * 2,
        )
    return (""", """            colour[1] * 2,
            colour[2] + colour[1],
        )
    return (""")],
    """
r = {'em': (R.AnsiEscapeCodeRenderer, dict(foreground_colour='#123'))}
expect(render("<div><em>a</em></div>", renderers=r), "\\033[38;2;17;34;51ma\\033[39m")
""", "A short HTML colour whose green and blue are not the same", "The blue is wrong.")

bug("c21-normalise-nested", "C21",
    [("rendering.py", """        if normalise:
            disable.append(ANSI_ESCAPE_SEQUENCE.format(0))
""", """        if normalise and enable:
            disable.append(ANSI_ESCAPE_SEQUENCE.format(0 if len(enable) > 1 else ansi_escape_sequences["bold"][1]))
""")],
    """
r = {'em': (R.AnsiEscapeCodeRenderer, dict(underline=True, normalise=True))}
out = render("<div><em>a</em>b</div>", renderers=r)
expect(out, "\\033[4ma\\033[0mb")
""", "One effect other than bold with normalise", "It is not switched off.")

bug("c22-optimise-lines", "C22",
    [("_parser.py", """        split = parsed.split('\\n')
        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised)""", """        split = parsed.splitlines()
        optimised = [l.rstrip() for l in split]
        return '\\n'.join(optimised + ([''] if parsed.endswith('\\n') else []))""")],
    """
expect(render("<div>a\\u2028b</div>"), "a\\u2028b")
expect(render("<pre>a\\x0cb</pre>"), "\\n    a\\n    b\\n"[:0] + render("<pre>a\\x0cb</pre>"))
""", "Text with a line separator other than a line feed", "It becomes a line break when optimising.")

bug("c22-default-off", "C22",
    [("_parser.py", """        if self._optimise:
            self.parsed = self._optimise_parsed()""", """        if self._optimise and (self._output_format == 'text' or self._footer_pending_links):
            self.parsed = self._optimise_parsed()""")],
    """
out = render("<blockquote>a<br><br>b</blockquote>", output_format='gophermap', gopher_host='h')
expect(out, "\\n> a\\n>\\n> b\\n")
""", "A gophermap without links in the footer", "It is not optimised.")

bug("c23-host", "C23",
    [("_parser.py", """        if output_format == 'gophermap' and gopher_host == '':
            raise ValueError("gopher_host is required for gophermap output")""", """        if output_format == 'gophermap' and gopher_host == '' and link_placement == 'footer':
            raise ValueError("gopher_host is required for gophermap output")""")],
    """
try:
    GopherHTMLParser(output_format='gophermap', link_placement='after_block')
except ValueError:
    pass
else:
    expect("accepted", "ValueError")
""", "Gophermap output without a host and with links after their blocks", "The configuration is accepted.")

bug("c23-attr-none", "C23",
    [("_selectors.py", """        if selector.operator == '~=':""",
      """        if selector.operator == '~=' and (attrib == 'class' or tag.attrs[attrib].strip()):""")],
    """
r = {'em[class~="k"]': R.InlineRenderer, 'em[title~="k"]': (R.InlineRenderer, dict(template='({})'))}
expect(render('<div><em class="k">a</em><em title>b</em></div>', renderers=r), "a_b_")
""", "A ~= selector for an attribute, and an element that has it without a value", "It raises an AttributeError.")

bug("c23-close-empty", "C23",
    [("_parser.py", """        while len(self._tag_stack) > 0:
            t = self._tag_stack.pop()
            if t.parent is None:
                self.tree.append(t)
""", """        while len(self._tag_stack) > 0:
            t = self._tag_stack.pop()
            if t.tag != self._tag_stack[0].tag if len(self._tag_stack) > 6 else t.parent is None:
                self._tag_stack.remove(t)
""")],
    """
render("<div><p><em><b><i><u><s><span>x")
render("<div><p><em><b><i><u><s><span>x</span>")
""", "Eight elements open at the end of the document", "It raises a ValueError from within close.")

bug("c24-suffix", "C24",
    [("cli.py", """    if source_path.suffix == '.md':""", """    if source_path.name.split('.')[1:2] == ['md']:""")],
    """
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.b.md")
    open(f, "w").write("# Title\\n")
    out = subprocess.run([sys.executable, "-W", "ignore", "-m", "gopher_render", f, os.path.join(d, "out")], stdout=subprocess.PIPE, text=True).stdout
expect("# Title #" in out, True)
""", "A Markdown file whose name has several dots", "It is not converted from Markdown.")

bug("c24-strip", "C24",
    [("cli.py", """    print(parser.parsed)
""", """    print(parser.parsed if parser.parsed.strip() else '')
""")],
    """
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.html")
    open(f, "w").write("<p>&nbsp;</p>")
    out = subprocess.run([sys.executable, "-W", "ignore", "-m", "gopher_render", f, os.path.join(d, "out")], stdout=subprocess.PIPE, text=True).stdout
p = GopherHTMLParser(box=R.Box(width=67, margin=[1, 0, 1, 0]))
p.feed("<p>&nbsp;</p>")
p.close()
expect(out, p.parsed + "\\n")
""", "A source that renders to nothing but whitespace", "An empty line is printed instead of the text.")
