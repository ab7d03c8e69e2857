# Third batch: links, gophermaps, wrapping.
bug("c09-nested-number", "C09",
    [("_parser.py", """                link_reference=self._next_link_number,
""", """                link_reference=self._next_link_number if tag == 'a' or self._link_placement != 'inline' else len(self._footer_pending_links) + 1,
""")],
    """
out = render('<p><img src="/a"></p><p><img src="/b"></p>', link_placement='inline', image_placement='after_block')
expect([n in out for n in ("[Image][1]", "[Image][2]")], [True, True])
""", "Links in place and images after their blocks", "All images get the number 1.")

bug("c09-footer-order", "C09",
    [("_parser.py", """            if placement == 'footer':
                self._footer_pending_links.append(t)""", """            if placement == 'footer':
                # A linked image comes before what it is in
                if isinstance(parent, LinkParser) and self._footer_pending_links and tag == 'img':
                    self._footer_pending_links.insert(-1, t)
                else:
                    self._footer_pending_links.append(t)""")],
    """
out = render('<p><a href="/x">go <img src="/i.png" alt="pic"></a></p>', image_placement='footer')
expect(out.index("[1] go"), out.index("[1] go"))
expect(out.rindex("\\n[1]") < out.rindex("\\n[2]"), True)
""", "An image inside a link, both in the footer", "Its entry comes before that of the link, so the numbers do not ascend.")

bug("c09-after-block-image", "C09",
    [("_parser.py", """            if placement != 'inline':
                self._next_link_number += 1""", """            if placement != 'inline' and not (tag == 'img' and placement == 'after_block' and self._in_pre):
                self._next_link_number += 1""")],
    """
out = render('<div><pre>a <img src="/1"> <img src="/2"></pre></div>', image_placement='after_block')
expect(("[Image][1]" in out, "[Image][2]" in out), (True, True))
""", "An image after its block, inside a pre", "The next link gets the same number.")

bug("c10-title-ten", "C10",
    [("rendering.py", """        trimmed_title = title.strip()
        trimming = len(trimmed_title) > max_link_description
        trimmed_title = trimmed_title[:max_link_description]
        if trimming:""", """        trimmed_title = title.strip()
        trimming = len(title) > max_link_description
        trimmed_title = trimmed_title[:max_link_description]
        if trimming:""")],
    """
expect(render('<p><img src="/i" alt="  exactly10 "></p>', image_placement='footer').split("\\n")[-1], "[1] exactly10: /i")
""", "An alternative text that is not too long but for the whitespace around it", "It is marked as cut.")

bug("c10-title-empty", "C10",
    [("rendering.py", """            if title:
                template = settings.templates[1]
                keywords["title"] = title
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer""", """            if title and title != content:
                template = settings.templates[1]
                keywords["title"] = title
            return template.format(
                **keywords
            )

    def _outer_render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A left margin would not be acceptable for gophermap links, so only
            # apply the top and bottom margins, if any.
            box = self.box
            return "{}{}{}".format(
                '\\n' * box.margin[BoxSide.TOP],
                content,
                '\\n' * box.margin[BoxSide.BOTTOM],
            )
        return super()._outer_render(content)

    def render(self, content):
        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


class ImageRenderer""")],
    """
expect(render('<p><a href="/i" title="same">same</a></p>').split("\\n")[-1], '[1] same: /i "same"')
""", "A link whose title is its content", "The entry has no title.")

bug("c10-inline-title", "C10",
    [("rendering.py", """            if "title" in self.context and self.context["title"]:
                return settings.templates["inline"][1].format(
                    content=capitalize_func(super().render(content)),""", """            if "title" in self.context and self.context["title"] and content.strip():
                return settings.templates["inline"][1].format(
                    content=capitalize_func(super().render(content)),""")],
    """
expect(render('<p><a href="/i" title="T"></a></p>', link_placement='inline'), '\\n[](/i "T")\\n')
""", "A link in place without content that has a title", "The title is lost.")

bug("c11-description-nbsp", "C11",
    [("rendering.py", """            description = trimmed_title
            gopher_link = self.context['gopher_link']
            link_ref = self.context["link_reference"]
            # Tabs and newlines are the delimiters of the format
            description = " ".join(description.split())""", """            description = trimmed_title
            gopher_link = self.context['gopher_link']
            link_ref = self.context["link_reference"]
            # Tabs and newlines are the delimiters of the format
            description = " ".join(description.split(None, 3))""")],
    """
out = render('<p><img src="/i" alt="a b c d\\te"></p>', output_format='gophermap', gopher_host='h', image_placement='footer')
expect(out.rstrip("\\n").split("\\n")[-1], "1[1] a b c d e\\t/i\\th\\t70")
""", "An image with an alternative text of at least five words with a tab or line break after the third", "The line has too many tabs or is broken.")

bug("c11-indent-second", "C11",
    [("_parser.py", """        if self._output_format != 'gophermap':
            self._parsed.extend(footer)
            footer = []""", """        if self._output_format != 'gophermap' or len(footer) < 3 and self._in_pre:
            self._parsed.extend(footer)
            footer = []""")],
    """
out = render('<p><a href="/x">a</a></p><pre>b', output_format='gophermap', gopher_host='h', box=R.Box(width=60, margin=[0, 0, 0, 3]))
expect(out.rstrip("\\n").split("\\n")[-1], "1[1] a\\t/x\\th\\t70")
""", "A gophermap with one link and a pre element that is not closed, and a left margin", "The link line is indented.")

bug("c11-border-title", "C11",
    [("rendering.py", """        output_format = self.context['output_format']
        if output_format == "gophermap":
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        return super().render(content)


# TODO: i tags""", """        output_format = self.context['output_format']
        if output_format == "gophermap" and any(self._border_width[BoxSide.LEFT::-2]):
            # A border would not be acceptable for gophermap links, so skip
            # that render step.
            return self._outer_render(
                self._inner_render(
                    content
                )
            )
        if output_format == "gophermap" and self.box.margin[BoxSide.LEFT] == 0 and not any(self.box.padding):
            return self._outer_render(self._inner_render(content))
        return super().render(content)


# TODO: i tags""")],
    """
out = render('<p><img src="/i" alt="pic"></p>', output_format='gophermap', gopher_host='h', image_placement='footer',
             extracted_link_renderers={'img': (R.ExtractedImageLinkRenderer, dict(padding=[0, 0, 0, 2]))})
expect([l for l in out.split("\\n") if "\\t" in l], ["1[1] pic\\t/i\\th\\t70"])
""", "A gophermap with images in the footer and a padding configured for them", "Their lines are padded, and there are more lines.")

bug("c12-port-zero", "C12",
    [("_parser.py", """                selector=parsed.path,
                host=hostname,
""", """                selector=parsed.path or '/',
                host=hostname,
""")],
    """
out = render('<p><a href="gopher://x.org">a</a></p>', output_format='gophermap', gopher_host='h')
expect(out.rstrip("\\n").split("\\n")[-1], "1[1] a\\t\\tx.org\\t70")
""", "An absolute gopher URL without a path", "The selector is not the path of the URL.")

bug("c12-scheme-case", "C12",
    [("_parser.py", """        if parsed.scheme in ("http", "https"):
            return dict(""", """        if parsed.scheme in ("http", "https") or hostname and self.href.startswith("//"):
            return dict(""")],
    """
out = render('<p><a href="//x.org/a.txt">a</a></p>', output_format='gophermap', gopher_host='h')
expect(out.rstrip("\\n").split("\\n")[-1], "0[1] a\\t/a.txt\\th\\t70")
""", "A relative link with a host but no scheme", "It is given as a web link.")

bug("c12-extension-query", "C12",
    [("_parser.py", """        elif p[2] in ('jpg', 'jpeg', 'png', 'bmp', 'tiff'):
            return 'I'""", """        elif p[2] in ('jpg', 'jpeg', 'png', 'bmp', 'tiff') and '.' not in p[0]:
            return 'I'""")],
    """
out = render('<p><a href="/a.b.png">a</a></p>', output_format='gophermap', gopher_host='h')
expect(out.rstrip("\\n").split("\\n")[-1], "I[1] a\\t/a.b.png\\th\\t70")
""", "An image whose name has several dots", "The type is that of a binary file.")

bug("c13-chunk-exact", "C13",
    [("_textwrap.py", """            # Maximum width for this line.
            width = self.width - len(indent)
""", """            # Maximum width for this line.
            width = self.width - max(len(indent), len(self.initial_indent) if not lines or len(lines) == 3 else 0)
""")],
    """
r = {'p': (R.ParagraphRenderer, dict(initial_indent=4, subsequent_indent=1))}
out = render("<p>" + " ".join(["ab"] * 40) + "</p>", width=21, renderers=r)
expect([len(l) for l in out.strip("\\n").split("\\n")[1:5]], [len(l) for l in out.strip("\\n").split("\\n")[1:2]] * 4)
""", "A paragraph of at least four lines with a larger indentation of the first one", "The fourth line is not filled.")

bug("c13-sentence", "C13",
    [("_textwrap.py", """            # If the last chunk on this line is all whitespace, drop it.
            if self.drop_whitespace and cur_line and cur_line[-1].strip() == '':
                cur_len -= _len(cur_line[-1])
                del cur_line[-1]
""", """            # If the last chunk on this line is all whitespace, drop it.
            if self.drop_whitespace and cur_line and cur_line[-1] == ' ':
                cur_len -= _len(cur_line[-1])
                del cur_line[-1]
""")],
    """
out = render("<p>it ended. And so on</p>", width=13, optimise=False, renderers={'p': (R.ParagraphRenderer, dict(line_template="[{}]"))})
expect(out, '\\n[it ended.]  \\n[And so on]  \\n')
""", "A line that ends with a sentence whose end has two spaces", "The line ends with two spaces and may be too long for its justification.")

bug("c13-long-word", "C13",
    [("_textwrap.py", """            # The current line is full, and the next chunk is too big to
            # fit on *any* line (not just this one).
            if chunks and _len(chunks[-1]) > width:""", """            # The current line is full, and the next chunk is too big to
            # fit on *any* line (not just this one).
            if chunks and _len(chunks[-1]) > self.width:""")],
    """
r = {'p': (R.ParagraphRenderer, dict(initial_indent=0, subsequent_indent=3))}
import signal
signal.alarm(10)
out = render("<p>abcdefgh ijklmnopq</p>", width=10, renderers=r)
expect(out.strip("\\n").split("\\n"), ["abcdefgh", "   ijklmno", "   pq"])
""", "A word that fits into the width but not beside the indentation", "Endless loop: the word fits nowhere and is not broken.")

bug("c14-remainder-side", "C14",
    [("rendering.py", """            wide = ' ' * (n + 2)
            out_lines.append(indent + wide.join(words[:r]) + wide + narrow.join(words[r:]))""",
      """            wide = ' ' * (n + 2)
            if n and len(out_lines) % 2:
                words, r = words[::-1], gaps - r
                line = narrow.join(words[:r + 1]) + wide + wide.join(words[r + 1:])
                words, r = words[::-1], gaps - r
                out_lines.append(indent + narrow.join(words[:gaps - r + 1]) + wide + wide.join(words[gaps - r + 1:]))
                continue
            out_lines.append(indent + wide.join(words[:r]) + wide + narrow.join(words[r:]))""")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='full'))}
def gaps(l):
    import re
    return [len(x) for x in re.findall(" +", l.strip())]
for w in range(12, 30):
    out = render("<p>" + "y" * w + " " + " ".join(["aa bb cc dd", "x" * (w - 3)] * 4) + "</p>", width=w, renderers=r)
    for l in out.strip("\\n").split("\\n"):
        expect(gaps(l), sorted(gaps(l), reverse=True))
""", "An even line with at least as many spaces to add as gaps, and a remainder", "The larger gaps come last.")

bug("c14-center-indent", "C14",
    [("rendering.py", """def right_justify(text, width, *args, **kwargs):
    lines = textwrap.wrap(text, width, *args, **kwargs)
    righted = [right(line, width) for line in lines]""", """def right_justify(text, width, *args, **kwargs):
    lines = textwrap.wrap(text, width, *args, **kwargs)
    righted = [right(line, width) for line in lines if line.strip()]
    if len(righted) > 4 and width % 2:
        righted[-1] = righted[-1][1:] + righted[-1][:1]""")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='right'))}
out = render("<p>" + " ".join(["word"] * 18) + "</p>", width=21, renderers=r, optimise=False)
expect(out.strip("\\n").split("\\n")[-1], " " * 12 + "word word")
""", "A right justified paragraph of more than four lines with an odd width", "The last line is one column off.")

bug("c14-full-multispace", "C14",
    [("rendering.py", """        words = rs.split(' ')
        gaps = (len(words) - 1)""", """        words = rs.split()
        gaps = (len(words) - 1)""")],
    """
r = {'p': (R.ParagraphRenderer, dict(justification='full'))}
out = render("<p>it ended. Then we said so to them all.</p>", width=20, renderers=r)
expect(out.strip("\\n").split("\\n")[0], "it  ended.   Then we")
""", "A line with the end of a sentence inside, fully justified", "It is one column short.")
