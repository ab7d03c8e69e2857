#!/usr/bin/env python3
"""Writes properties.jsonl (the properties are kept here, in a readable form)."""
import json, os
P = "gopher_render/_parser.py"
R = "gopher_render/rendering.py"
S = "gopher_render/_selectors.py"
W = "gopher_render/_textwrap.py"
N = "gopher_render/_namedict.py"
L = "gopher_render/cli.py"
OUT = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    OUT.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None,
        ),
    ))


prop("C01", "Rendered output follows the element tree of the document",
     "Every element's rendering contains exactly the text and elements between its start tag and its own end tag, each exactly once and in document order. "
     "Void elements (br, img, hr, ...) never take content, an end tag that does not belong to the innermost open element is ignored, and elements left open end with the document. "
     "A comment never becomes part of the output.",
     ["inputs", "histories"], "every sequence of start tags, end tags, self-closing tags, text and comments, well-formed or not",
     "The tests parse about twenty well-formed documents; none has an unmatched or missing end tag, and void elements are tried only as br and img.",
     [P], [("open element stack", P + ": handle_starttag, handle_endtag, _get_top"), ("void elements", P + ": VOID_TAGS, TagParser.closed")],
     ["the text a parser gives after it is closed, with renderers that print the structure they are given"],
     [("open elements", "stack of elements that are not ended yet", P + ": GopherHTMLParser._tag_stack")])

prop("C02", "How the input is split into feeds does not matter",
     "Feeding a document in any number of pieces, cut anywhere (inside a tag, an attribute, a character reference, a word or a run of whitespace), gives the same output as feeding it at once.",
     ["inputs", "schedules"], "every document and every way of cutting it into pieces",
     "Every test feeds its document in one piece.",
     [P], [("merging of adjacent text", P + ": handle_data, DataParser.append"), ("whitespace collapsing on the whole run", P + ": DataParser.append")],
     ["the output for the same document, cut differently"],
     [("raw text", "text of a node before whitespace is collapsed", P + ": DataParser._raw")])

prop("C03", "Parsers can be reused, closed repeatedly, and do not influence each other",
     "After a reset a parser behaves like a new one with the same configuration, whatever it was fed before and wherever it stopped. "
     "Closing again without new input leaves the output as it is, input after a close continues the document, and the output changes only by closing and resetting. "
     "Parsers that exist at the same time, even when given the very same configuration objects, behave as if each were alone.",
     ["histories", "schedules"], "every interleaving of creating, feeding, closing, reading and resetting several parsers",
     "The tests create a new parser for each document and close it once.",
     [P, R], [("reset", P + ": GopherHTMLParser.reset"), ("output is recompiled on close", P + ": GopherHTMLParser.close"), ("settings are copied per renderer", R + ": Renderer.__new__")],
     ["the output of each parser after each operation"],
     [("session", "document, link counter, pending links, preformatted flag, compiled output", P + ": GopherHTMLParser")])

prop("C04", "No text is lost, duplicated, reordered or reinterpreted",
     "Every non-whitespace character of the text of the document that is not suppressed by configuration appears in the output exactly once and in document order, except that text may be capitalised where configured. "
     "Braces, percent signs, backslashes and markup characters in the text come out literally.",
     ["inputs", "configurations"], "every document, width, justification, box and choice of renderers that does not suppress text, any characters in the text",
     "The tests compare a handful of fixed texts without special characters, at one width.",
     [P, R, W], [("rendering of children in order", P + ": TagParser.render"), ("content is only ever an argument of a template", R)],
     ["the characters of the output"])

prop("C05", "CSS selectors match the elements they match in CSS",
     "A rule applies to an element if and only if one of its selectors matches it by the CSS definition of type, universal, class, id, attribute, negation, first-child, last-child, nth-child and nth-last-child selectors and the descendant, child, adjacent and general sibling combinators. "
     "Text between elements never affects a match, and selectors that are not supported match nothing.",
     ["inputs", "programs"], "every element tree and every selector built from the supported parts",
     "The tests try each selector on one or two fixed small trees; combinations, series such as 2n+1, and attributes without a value are not tried.",
     [S], [("matching", S + ": _selector_matches and the functions it dispatches to")],
     ["the elements to which the settings of a rule apply"])

prop("C06", "The cascade picks renderer and settings like CSS does",
     "An element's renderer is that of the most specific matching rule that names one, and each of its settings comes from the most specific matching rule that sets it; ties go to the rule defined later, and user rules override or extend the default ones. "
     "The renderer and the settings are chosen independently, settings also reach links rendered in place and as list entries, and elements without a renderer get the default renderer.",
     ["inputs", "configurations"], "every element tree and every list of rules",
     "No test has more than one user-defined rule, and none overrides settings only.",
     [P, S], [("rule table", P + ": RendererMap.get_for_tag, GopherHTMLParser.__init__"), ("specificity", S + ": tag_matches, Specificity")],
     ["renderer and settings of every element, as printed by probing renderers"])

prop("C07", "Renderer classes inherit settings without sharing them",
     "The settings of a renderer are those of its class, which come from all its base classes with the more derived class winning, overridden by the settings of the rule. "
     "Changing the settings of a class affects later renderers of this class and its subclasses only, and assigning, adding or deleting settings of one renderer affects no class and no other renderer.",
     ["histories", "programs"], "every class hierarchy and every sequence of definitions, changes and instantiations",
     "The tests check two instantiations of one two-level hierarchy.",
     [R], [("per class settings", R + ": _RendererMeta"), ("aggregation", R + ": Renderer.__new__, Renderer.__getattribute__, _adjust_settings")],
     ["the settings that renderers and classes have after each step"])

prop("C08", "Settings are one mapping, by item and by attribute",
     "Item access and attribute access to settings always agree, after any sequence of writes, deletions and updates through either, for every key that is not the name of a method of mappings; a missing key raises AttributeError or KeyError respectively. "
     "A key that has the name of a method of mappings can be stored as an item and leaves the method as it is, and assigning to the attribute of such a name creates no item.",
     ["histories"], "every sequence of reads, writes, deletions, updates and copies through items and attributes",
     "The tests make one assignment and one deletion each.",
     [N], [("attribute access", N + ": namedict")], ["values and exceptions of each operation"])

prop("C09", "Links are numbered consecutively and references match their entries",
     "The links that are not rendered in place (anchors with a target, and images, according to the placement configured for each) are numbered 1, 2, 3, ... in document order. "
     "Each gets exactly one reference with its number where it is in the text and exactly one entry with the same number, and the entries of a list are in ascending order. "
     "Links rendered in place consume no number and have no entry, and anchors without a target are plain text.",
     ["inputs", "configurations"], "every document and every combination of placements",
     "The tests have at most two links and never mix links with images.",
     [P, R], [("numbering", P + ": handle_starttag"), ("pending links", P + ": _footer_pending_links, add_pending_link")],
     ["references and entries in the output"],
     [("next number", "number of the next link", P + ": GopherHTMLParser._next_link_number")])

prop("C10", "Link references and entries show the right text in the right place",
     "A link in place shows its content, target and, if it has one, its title; an entry shows the description and target of its own link, the description cut to the configured length and marked exactly if it is longer, and the title if there is one (for images: the alternative text, or a default). "
     "Footer entries come after the whole text, and entries after a block are at the end of the element that directly contains the link, or the outermost link around it.",
     ["inputs", "configurations"], "every link and image, with every placement, maximal description length and template",
     "The tests have one short and one long description, and never a title together with other placements.",
     [P, R], [("in place and extracted rendering", P + ": LinkParser.render, LinkParser.link_render"), ("templates", R + ": LinkRenderer, ExtractedLinkRenderer, ImageRenderer, ExtractedImageLinkRenderer")],
     ["the output"])

prop("C11", "Every link in a gophermap is one well-formed line",
     "In gophermap output each footer link is exactly one line with type and description, selector, host and port separated by exactly three tabs, with no indentation, border or padding whatever the configuration, and whatever whitespace the description contains. "
     "The description is the title if there is one, otherwise the possibly shortened content, and for an image its possibly shortened alternative text; the lines are in link order, and the text outside the link lines is the same as in text output.",
     ["inputs", "configurations"], "every document, placement, box and renderer settings in gophermap output",
     "The tests check two gophermaps without a margin, with one-word links.",
     [P, R], [("gophermap template", R + ": ExtractedLinkRenderer, ExtractedImageLinkRenderer"), ("unindented footer", P + ": close")],
     ["the lines of the output"])

prop("C12", "Gophermap lines point to the target of the link",
     "For an absolute gopher URL the line has the URL's path, host and port (70 if it has none); for a relative link the path and the configured host and port; for any other URL, malformed ones included, type h, the selector URL: followed by the URL as it is, and the configured host and port. "
     "The item type of gopher and relative links follows from the extension of the last path segment only: h, g, I, 0 and 9 for web pages, GIFs, other images, texts and other files, and 1 without an extension.",
     ["inputs"], "every link target: scheme, user, host, port, path, query and fragment, valid or not",
     "The tests have five targets.",
     [P], [("target analysis", P + ": LinkParser._parse_href, _guess_type")], ["the fields of the link lines"])

prop("C13", "Wrapping fills lines to the width without exceeding or changing the text",
     "A wrapped text has the same words in the same order; no line is longer than the width unless it is a single word that must not be broken, and no line could have taken the next word or the next part of it. "
     "Words that are longer than a line are broken only if allowed, at the width or after a hyphen; initial and subsequent indents apply to the first and the other lines, and sentence endings get two spaces where configured.",
     ["inputs", "configurations"], "every text, width, indentation and wrapping option",
     "The tests wrap a few paragraphs of ordinary words, all at width 67.",
     [W, R], [("wrapping", W + ": AnsiAwareTextWrapper"), ("left justification", R + ": left_justify, ParagraphRenderer")],
     ["the lines of a paragraph"])

prop("C14", "Justification only adds spaces, in the right places",
     "Fully justified lines, except the last one and those without a gap, have exactly the configured width, with the added spaces distributed over the gaps so that no two gaps differ by more than one added space, the larger ones first. "
     "Right and centre justified lines are padded on the left and on both sides to exactly the width, centring with sides that differ by at most one. "
     "Left justified lines get no padding.",
     ["inputs", "configurations"], "every text, width, indentation and justification, with and without terminal styling",
     "The tests compare one paragraph per justification.",
     [R], [("justification", R + ": full_justify, right_justify, center_justify, center, right")],
     ["the lines of a paragraph"])

prop("C15", "Nested boxes add up: margins, padding and borders fit the width",
     "Every block is placed inside the content area of the one around it: left margins and paddings move it, and its lines, padding and border included, are filled up with spaces to exactly the width of that area minus its margins. "
     "No line of wrapped text is wider than the configured width minus the right margins, as long as at least one column is left for text (and it has no line separators other than the line feed). "
     "Vertical margins, paddings and borders add exactly their number of lines, and the left margin of the document applies to every line.",
     ["inputs", "configurations"], "every nesting of blocks with every combination of margins, paddings, borders and line prefixes, every width",
     "The tests nest blockquotes and lists, but never padding or borders.",
     [R, P], [("box model", R + ": Box"), ("block rendering", R + ": BlockRenderer")], ["the lines of the output"],
     [("box", "width and accumulated sides of an element", R + ": Box")])

prop("C16", "List items are numbered, marked and indented consistently",
     "Each item of a list has its marker before its first line only and its other lines indented by the width of the marker; the items of an ordered list count from the configured start by the configured step regardless of whitespace, comments or other elements between them, and nested lists count on their own. "
     "Definitions are marked and indented in the same way.",
     ["inputs", "configurations"], "every list, nested to any depth, with every content, marker, start and step",
     "The tests have lists of two or three items, nested at most once.",
     [R, P], [("items", R + ": ListItemRenderer, OrderedListItemRenderer, DefinitionListItemRenderer"), ("default rules for first items", P + ": GopherHTMLParser.__init__")],
     ["the lines of the output"])

prop("C17", "Preformatted text and code are reproduced verbatim",
     "Inside a pre element every line is reproduced with its whitespace and without wrapping, whatever elements it contains, preceded only by the indentation and the prefix configured for it. "
     "Code outside of it is marked as inline code, or as a block if it has several lines, and what follows a preformatted block is formatted normally again.",
     ["inputs", "configurations"], "every content, width, and indentation of pre and code, in every context",
     "The tests have two preformatted blocks.",
     [P, R], [("preformatted flag", P + ": handle_starttag, handle_endtag, DataParser"), ("pre and code", R + ": PreRenderer, CodeRenderer, ParagraphRenderer._skip")],
     ["the lines of the output"],
     [("in pre", "whether text is preformatted", P + ": GopherHTMLParser._in_pre")])

prop("C18", "Whitespace collapses outside preformatted text, and words stay apart",
     "Outside preformatted text every run of spaces and tabs within a text, and every line break together with the whitespace around it, is one space, and whitespace that separates words from an adjacent element is never lost. "
     "Line breaks in the source never cause line breaks in a paragraph, while every br does.",
     ["inputs"], "every distribution of whitespace over the texts of a document",
     "The tests have two or three pretty-printed fragments.",
     [P, R], [("normalisation", P + ": DataParser"), ("line breaks", R + ": BreakRenderer, ParagraphRenderer")], ["the output"])

prop("C19", "Headings and quotations are marked line by line",
     "A heading shows its text between as many hash marks as its level by default, and its capitalisation, letter spacing, template, centring and underline, of the length of the text or of the full width, are exactly those configured. "
     "Every line of a quotation, at every level of nesting and including empty ones, starts with the quotation prefix once per level, and its text is wrapped to the width that is left.",
     ["inputs", "configurations"], "every heading and heading setting, every nesting of quotations and other blocks",
     "The tests have one heading per level with one setting each, and quotations nested twice.",
     [R, P], [("headings", R + ": HeaderRenderer, MarkdownHeaderRenderer"), ("quotations", R + ": BlockQuoteRenderer")], ["the lines of the output"])

prop("C20", "Inline markup composes",
     "Each inline element renders as its content between the markers configured for it, nested as the elements are, capitalised exactly if configured, and without any effect on the text around it. "
     "Elements without a renderer of their own leave their content as it is, and a renderer that suppresses output suppresses its element and nothing else.",
     ["inputs", "configurations"], "every nesting of inline elements, templates and capitalisation",
     "The tests have each inline element alone, once.",
     [R, P], [("templates", R + ": InlineRenderer and subclasses, NonRenderer"), ("composition", P + ": TagParser.render")], ["the output"])

prop("C21", "Terminal styling covers exactly its text and changes nothing else",
     "On a terminal every character of the text appears in the colours, font and effects configured for the elements around it, the innermost colour and font counting, and in no others; no styling is left at the end. "
     "Removing the escape sequences gives the output that there would be without styling, apart from spaces at the ends of the text of lines (for texts without line separators other than the line feed): they take part in no width, wrapping, alignment, trimming or capitalisation, and none is ever broken. "
     "This holds for all the code themes.",
     ["inputs", "configurations"], "every combination of effects, fonts and colours in their four notations, on any element, in any block",
     "There are no tests for terminal styling.",
     [R, W, "gopher_render/code_themes"], [("escape sequences", R + ": AnsiEscapeCodeRenderer"), ("visible length", W + ": _len, AnsiAwareTextWrapper")],
     ["the escape sequences and characters of the output"])

prop("C22", "Optimising only removes trailing whitespace",
     "With optimisation the output is that without it, line by line, with the whitespace at the end of each line removed: no line is added, removed or otherwise changed, and no line ends with whitespace. "
     "It is on unless switched off.",
     ["inputs", "configurations"], "every document and configuration",
     "All but a few tests run with one setting of this option, and no test compares both.",
     [P], [("optimisation", P + ": _optimise_parsed")], ["the output with and without optimisation"])

prop("C23", "Every supported configuration and every input renders",
     "Configurations are rejected with a ValueError exactly if they ask for gophermap output with links in place or without a host. "
     "With every other configuration, every input, however malformed, leads to text after closing and never to an exception or an endless loop.",
     ["inputs", "configurations"], "every HTML input, width from 1 up, box, placement, output format and settings of the documented kinds",
     "The tests check one rejected configuration and only well-formed input.",
     [P, R, S, W], [("validation", P + ": GopherHTMLParser.__init__"), ("rendering", P + ": close")], ["exceptions and time"])

prop("C24", "The command line prints what the library renders",
     "The command prints exactly the text that the library gives for the source with a width of 67, one line of margin above and below, links in the footer, images in place and the default colour theme, after converting it from Markdown if and only if the file name says so, and nothing else. "
     "With the dump option the HTML is printed before it, and the source file is never changed.",
     ["inputs", "configurations"], "every Markdown and HTML file, and the options",
     "There are no tests for the command line.",
     [L], [("command", L + ": main")], ["standard output of the command"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in OUT:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].replace("...", "").count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p) + "\n")
