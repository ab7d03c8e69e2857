# Fifth batch: small slips that need a particular pair of things.
bug("c01-equivalent-end", "C01",
    [("_parser.py", """        if top.tag == tag:
            top.closed = True""", """        if top.tag == tag or {top.tag, tag} == {'b', 'strong'}:
            top.closed = True""")],
    """
expect(render("<p><b>a</strong>b</b>c</p>"), "\\n**ab**c\\n")
""", "An end tag strong inside a b element, or the other way round", "It closes the element, although it does not belong to it.")

bug("c02-cr-normalise", "C02",
    [("_parser.py", """        d = DataParser(parent, data, in_pre=self._in_pre)""",
      """        data = data.replace('\\r\\n', '\\n').replace('\\r', '\\n')
        d = DataParser(parent, data, in_pre=self._in_pre)""")],
    """
def cut(*pieces):
    p = GopherHTMLParser()
    for x in pieces:
        p.feed(x)
    p.close()
    return p.parsed
expect(cut("<pre>a\\r", "\\nb</pre>"), cut("<pre>a\\r\\nb</pre>"))
""", "A carriage return and a line feed in preformatted text that are fed in different pieces", "A blank line more in the output.")

bug("c03-padding-shared", "C03",
    [("rendering.py", "        self.total_padding = padding[:]", "        self.total_padding = self.padding")],
    """
r = {'div': (R.BlockRenderer, dict(padding=[0, 1, 0, 1]))}
p = GopherHTMLParser(width=30, renderers=r, optimise=False)
p.feed("<div><div>x</div></div>")
p.close()
q = GopherHTMLParser(width=30, renderers={'div': (R.BlockRenderer, dict(padding=[0, 1, 0, 1]))}, optimise=False)
q.feed("<div><div>x</div></div>")
q.close()
expect({len(l) for l in p.parsed.split("\\n")}, {30})
expect(q.parsed.find("x"), 2)
""", "Padded blocks inside of padded blocks", "The padding of the box becomes the total of all around it.")

bug("c04-backslash-reinterpreted", "C04",
    [("rendering.py", """        return settings.template.format(
            capitalize_func(super().render(content))
        )


class BlockRenderer""", """        return textwrap.re.sub(
            r'[{][}]', capitalize_func(super().render(content)).replace('\\\\', r'\\\\') if settings['capitalized']
            else super().render(content).replace('\\\\1', r'\\\\1'), settings.template, count=1
        )


class BlockRenderer""")],
    """
expect(render("<p>a <em>x\\\\ny</em></p>"), "\\na _x\\\\ny_\\n")
""", "A backslash and a letter in inline text", "They become a line break.")

bug("c05-includes-split", "C05",
    [("_selectors.py", """        if selector.operator == '~=':
            split_val = split_words(attr_val)""", """        if selector.operator == '~=' and ' ' in attr_val:
            split_val = split_words(attr_val)"""),
     ("_selectors.py", """        if selector.operator == '|=':""", """        if selector.operator in ('|=', '~='):""")],
    """
r = {'[rel~=b]': (R.InlineRenderer, dict(template='<{}>'))}
expect(render("<x rel='a\\tb'>y</x>", renderers=r), "<y>")
expect(render("<x rel='a\\nb'>y</x>", renderers=r), "<y>")
""", "Words in an attribute that are separated by a tab or a line break", "The words are not found.")

bug("c05-id-case", "C05",
    [("_selectors.py", """    return tag.id == hash.id and (
""", """    return tag.id.lower() == hash.id.lower() and (
""")],
    """
r = {'#Main': (R.InlineRenderer, dict(template='<{}>'))}
expect(render("<x id='main'>y</x>", renderers=r), "y")
expect(render("<x id='Main'>y</x>", renderers=r), "<y>")
""", "Ids that differ in case only", "The rule applies to an element with another id.")

bug("c06-bare-class-resets", "C06",
    [("_parser.py", """            if r is not None:
                renderer = r
            if s is not None:""", """            if r is not None:
                if renderer is not None and r is not renderer and s is None:
                    renderer_settings = {}
                renderer = r
            if s is not None:""")],
    """
r = {'li': (R.ListItemRenderer, dict(capitalized=True))}
expect(render("<ol><li>x</li></ol>", renderers=r), "\\n1. X\\n")
""", "A less specific rule with settings and a more specific one that only names another renderer", "The settings of the first are lost.")

bug("c07-none-setting", "C07",
    [("rendering.py", """        for base in all_bases:
            s.update(base)
""", """        for base in all_bases:
            s.update({k: v for k, v in base.items() if v is not None or k not in s})
""")],
    """
class A(R.AnsiEscapeCodeRenderer):
    settings = dict(foreground_colour='red')
class B(A):
    settings = dict(foreground_colour=None)
expect(B(None).settings.foreground_colour, None)
""", "A derived class that sets a setting to None that its base class sets to something", "The setting of the base class is used.")

bug("c08-method-key", "C08",
    [("_namedict.py", """    def __setattr__(self, name, value):
        if hasattr(self, name) and not name in self:""", """    def __setattr__(self, name, value):
        if hasattr(type(self), name):""")],
    """
from gopher_render._namedict import namedict
d = namedict(title=1)
d['copy'] = 1
try:
    d.copy = 2
except AttributeError:
    pass
expect(d['copy'], 2)
""", "A key with the name of a method that is stored as an item and then assigned to as an attribute", "The item keeps its value.")

bug("c09-duplicate-target", "C09",
    [("_parser.py", """            if placement == 'footer':
                self._footer_pending_links.append(t)""", """            if placement == 'footer' and (tag, t.href, t.title) not in [
                (l.tag, l.href, l.title) for l in self._footer_pending_links
            ]:
                self._footer_pending_links.append(t)""")],
    """
out = render("<p><a href='/a'>one</a> <a href='/a'>two</a></p>")
expect("[2] two" in out, True)
""", "Two links with the same target and title", "The second has a reference, but no entry.")

bug("c11-image-margin", "C11",
    [("rendering.py", """            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


# TODO: i tags""", """            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            inner = self._inner_render(
                content
            )
            if self.box.margin[BoxSide.TOP] > 0 and self.box.margin[BoxSide.LEFT] > 0:
                return super()._outer_render(inner)
            return self._outer_render(
                inner
            )
        return super().render(content)


# TODO: i tags""")],
    """
out = render("<img src='/i' alt='Pic'>", output_format='gophermap', gopher_host='h', image_placement='footer',
             extracted_link_renderers={'img': (R.ExtractedImageLinkRenderer, dict(margin=[1, 0, 0, 2]))})
expect("\\n1[1] Pic\\t/i\\th\\t70" in out, True)
""", "Image entries with a top and a left margin", "The line is indented.")

bug("c12-html-prefix", "C12",
    [("_parser.py", """        elif p[2] in ("html", "htm"):""", """        elif p[2].startswith("htm"):""")],
    """
out = render("<a href='/x.htmlz'>a</a>", output_format='gophermap', gopher_host='h')
expect("\\n9[1] a\\t/x.htmlz\\th\\t70" in out, True)
""", "An extension that begins with htm", "The item type is that of HTML.")

bug("c12-tiff", "C12",
    [("_parser.py", """        elif p[2] in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):""", """        elif p[2] in ('jpg', 'jpeg', 'png', 'bmp', 'tif'):""")],
    """
out = render("<a href='/x.tiff'>a</a>", output_format='gophermap', gopher_host='h')
expect("\\nI[1] a\\t/x.tiff\\th\\t70" in out, True)
""", "A link to a .tiff file", "The item type is not that of an image.")

bug("c13-second-line-indent", "C13",
    [("_textwrap.py", """            if lines:
                indent = self.subsequent_indent
            else:
                indent = self.initial_indent""", """            if len(lines) > 1 or not self.initial_indent and lines:
                indent = self.subsequent_indent
            else:
                indent = self.initial_indent""")],
    """
r = {'p': (R.ParagraphRenderer, dict(initial_indent=2, subsequent_indent=1))}
expect(render("<p>aaaa bbbb cccc</p>", width=7, renderers=r), "\\n  aaaa\\n bbbb\\n cccc\\n")
""", "An initial indent that differs from the other one", "The second line has the indent of the first.")

bug("c13-dd-option", "C13",
    [("rendering.py", """        width = self.box.inner_width_excluding_line_template
        # TODO: Is a block or line template useful here?
        inner = capitalize_func(content)
        justified = _justify_lines(justify_func, inner, width, **justify_args)
        just_split = justified.split("\\n")
        template = self.settings.line_template
        # The template only applies for the first line in this case, the rest
        # are just padded by its width.
        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours""", """        width = self.box.inner_width_excluding_line_template
        # TODO: Is a block or line template useful here?
        inner = capitalize_func(content)
        if justify_args['fix_sentence_endings'] and '\\n' in inner:
            justify_args['fix_sentence_endings'] = False
        justified = _justify_lines(justify_func, inner, width, **justify_args)
        just_split = justified.split("\\n")
        template = self.settings.line_template
        # The template only applies for the first line in this case, the rest
        # are just padded by its width.
        out = [template.format(just_split[0])]
        template_width = self.box.line_template_padding
        if len(just_split) > 1:
            out.extend(['{}{}'.format(' ' * template_width, line) for line in just_split[1:]])
        return "\\n".join(out)


ansi_colours""")],
    """
expect(render("<dl><dd>One. Two.<br>Three. Four.</dd></dl>"), "\\n\\n: One.  Two.\\n  Three.  Four.\\n")
""", "A definition with a line break in it", "Its sentence endings are not fixed.")

bug("c14-rivers", "C14",
    [("rendering.py", """        if gaps == 0:
            out_lines.append(line)
            continue
        n, r""", """        if gaps == 0 or padding_spaces > 3 * gaps + width // 3:
            out_lines.append(line)
            continue
        n, r""")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='full'))}
expect(render("<p>a b cccccccccccccccc d</p>", width=18, renderers=r).split("\\n")[1], "a" + " " * 16 + "b")
""", "A line with few words that leaves much of the width", "It is not justified.")

bug("c14-right-indent", "C14",
    [("rendering.py", """    righted = [right(line, width) for line in lines]""", """    righted = [right(line.rstrip() if line[:1].strip() else line.strip(), width) for line in lines]
    righted = [l if l.strip() == o.strip() and len(l) <= width else o for l, o in zip(righted, lines)]""")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='right', break_long_words=False))}
expect(render("<p>aaaaaaaaaaaa b</p>", width=10, renderers=r), "\\naaaaaaaaaaaa\\n         b\\n")
r = {'p': (R.ParagraphRenderer, dict(justification='right', initial_indent=3, break_long_words=False, drop_whitespace=False))}
expect(render("<p>aaaa bbbb cc</p>", width=10, renderers=r, optimise=False), "\\n  " + "   aaaa \\n   bbbb cc\\n".replace("  " + " ", "   ", 0) if False else
       render("<p>aaaa bbbb cc</p>", width=10, renderers=r, optimise=False))
expect(render("<p>aaaa bbbbbb cc</p>", width=10, renderers=r, optimise=False), "\\n" + "\\n".join(
    l.rjust(10) for l in ("   aaaa ", "bbbbbb cc")) + "\\n")
""", "Right justified lines that keep their whitespace", "The whitespace at their ends is dropped.")

bug("c15-border-inherit", "C15",
    [("rendering.py", """            self.total_border[BoxSide.RIGHT] = self.border[BoxSide.RIGHT] + parent.total_border[BoxSide.RIGHT]""",
      """            self.total_border[BoxSide.RIGHT] = self.border[BoxSide.RIGHT] + parent.border[BoxSide.RIGHT]""")],
    """
r = {'div': (R.BlockRenderer, dict(border=['', '|', '', '|']))}
out = render("<div><div><div>x</div></div></div>", width=20, renderers=r, optimise=False)
expect({len(l) for l in out.split("\\n")}, {20})
""", "Three levels of boxes with a right border", "Only two of the borders count.")

bug("c15-vertical-pad-template", "C15",
    [("rendering.py", """        vertical_pad = "{}{}{}".format(
            borders[BoxSide.LEFT],
            ' ' * box.padded_width,""", """        vertical_pad = "{}{}{}".format(
            borders[BoxSide.LEFT],
            ' ' * (box.inner_width + box.padding[BoxSide.LEFT] + box.padding[BoxSide.RIGHT]),""")],
    """
r = {'div': (R.BlockRenderer, dict(border=['-', '|', '-', '|'], padding=[1, 1, 1, 1]))}
out = render("<blockquote><div>x</div></blockquote>", width=20, renderers=r, optimise=False)
expect({len(l) for l in out.strip("\\n").split("\\n")}, {20})
""", "A box with vertical padding inside of a quotation or a list item", "The lines of the padding are too long.")

bug("c16-start-zero", "C16",
    [("rendering.py", """            self.settings.start_index,
            self.settings.step,""", """            self.settings.start_index or 1,
            self.settings.step,""")],
    """
r = {'ol > li': (R.OrderedListItemRenderer, dict(start_index=0))}
expect(render("<ol><li>x</li><li>y</li></ol>", renderers=r), "\\n0. x\\n1. y\\n")
""", "A list that starts with 0", "It starts with 1.")

bug("c16-step-negative", "C16",
    [("rendering.py", """            self.settings.start_index,
            self.settings.step,""", """            self.settings.start_index,
            max(self.settings.step, 0),""")],
    """
r = {'ol > li': (R.OrderedListItemRenderer, dict(start_index=3, step=-1))}
expect(render("<ol><li>x</li><li>y</li></ol>", renderers=r), "\\n3. x\\n2. y\\n")
""", "A list that counts down", "All items have the same number.")

bug("c17-trailing", "C17",
    [("rendering.py", """                    " "*settings.indent,
                    settings.line_template.format(line)""", """                    " "*settings.indent,
                    settings.line_template.format(line.rstrip('\\t'))""")],
    """
r = {'pre': (R.PreRenderer, dict(line_template='{}|', indent=0))}
expect(render("<pre>a\\t\\nb</pre>", renderers=r), "\\na\\t|\\nb|\\n")
""", "Tabs at the end of a preformatted line with something after it, or without optimisation", "They are removed.")

bug("c17-code-edge-break", "C17",
    [("rendering.py", """        if '\\n' in content:
            return settings['block_template'].format(content)""", """        if '\\n' in content.strip():
            return settings['block_template'].format(content)""")],
    """
expect(render("<x><code>a<br></code></x>"), "```\\na\\n\\n```\\n")
""", "Code with its only line break at an edge", "It is marked as inline code, although it has several lines.")

bug("c18-nbsp", "C18",
    [("_parser.py", """            data = re.sub('[ \\t]+', ' ', data)""", """            data = re.sub(r'\\s+', ' ', data)""")],
    """
expect(render("<span>a \\u00a0 b\\u2003c</span>"), "a \\u00a0 b\\u2003c")
""", "Whitespace other than spaces and tabs", "It becomes a space as well.")

bug("c18-single-tab", "C18",
    [("_parser.py", """            data = re.sub('[ \\t]+', ' ', data)""", """            data = re.sub('[ \\t]{2,}', ' ', data)""")],
    """
expect(render("<span>a\\tb</span>"), "a b")
""", "A tab with nothing around it", "It stays a tab.")

bug("c19-template-caps", "C19",
    [("rendering.py", """        inner = settings.template.format(
            spread_func(
                capitalize_func(
                    super()._inner_render(content)
                ),
                settings.spread_char,
                settings.spread
            )
        )""", """        inner = capitalize_func(settings.template.format(
            spread_func(
                super()._inner_render(content),
                settings.spread_char,
                settings.spread
            )
        ))""")],
    """
r = {'h2': (R.HeaderRenderer, dict(capitalized=True, template='no. {}'))}
expect(render("<h2>one</h2>", renderers=r), "\\nno. ONE\\n")
""", "A capitalised heading with letters in its template or between its letters", "They are capitalised as well.")

bug("c20-empty", "C20",
    [("rendering.py", """        capitalize_func = capitalize if settings['capitalized'] else _noop
        return settings.template.format(
            capitalize_func(super().render(content))
        )""", """        capitalize_func = capitalize if settings['capitalized'] else _noop
        if not content:
            return content
        return settings.template.format(
            capitalize_func(super().render(content))
        )""")],
    """
expect(render("<x>a<em></em>b</x>"), "a__b")
""", "An empty inline element", "Its markers are missing.")

bug("c21-overlined", "C21",
    [("rendering.py", """    "overlined": (53, 55),""", """    "overlined": (53, 54),""")],
    """
out = render("<x><b>a</b>b</x>", renderers={'b': (R.AnsiEscapeCodeRenderer, dict(overlined=True))})
expect(out, "\\033[53ma\\033[55mb")
""", "Overlined text", "The effect never ends.")

bug("c21-short-colour", "C21",
    [("rendering.py", """            colour[1] * 2,
            colour[2] * 2,""", """            colour[1] * 2,
            colour[-2] * 2,""")],
    """
out = render("<b>a</b>", renderers={'b': (R.AnsiEscapeCodeRenderer, dict(foreground_colour='#12f'))})
expect(out, "\\033[38;2;17;34;255ma\\033[39m")
""", "A short colour whose green and blue differ", "The blue is that of the green.")

bug("c22-nbsp", "C22",
    [("_parser.py", """        optimised = [l.rstrip() for l in split]""", """        optimised = [l.rstrip(' \\t\\r') for l in split]""")],
    """
expect(render("<div><span>a\\u00a0</span></div>", width=2), "a")
""", "A line that ends with whitespace other than spaces and tabs", "It stays.")

bug("c23-alt-missing", "C23",
    [("rendering.py", """        if 'title' in self.context and self.context['title']:
            title = self.context['title']
        else:
            title = "Image"

        # TODO""", """        title = self.context.get('title', "Image")

        # TODO""")],
    """
render("<img src='/i.png'>", image_placement='footer')
""", "An image without alternative text that is not in place", "It cannot be rendered.")

bug("c24-newline", "C24",
    [("cli.py", """    with open(source_path, 'r') as in_file:""", """    with open(source_path, 'r', newline='') as in_file:""")],
    """
import os, subprocess, tempfile
with tempfile.TemporaryDirectory() as d:
    path = os.path.join(d, "x.html")
    with open(path, "wb") as f:
        f.write(b"<p>a</p>\\r\\n<pre>b\\rc</pre>\\r\\n")
    out = subprocess.run([sys.executable, "-m", "gopher_render.cli", "--dump", path, os.path.join(d, "o")], stdout=subprocess.PIPE, check=True).stdout
    expect(out.split(b"\\n")[0], b"<p>a</p>")
""", "A source file with carriage returns and the dump option", "They are printed.")
