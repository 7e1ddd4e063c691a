#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/parser.rs"; B = "src/block.rs"; T = "src/table.rs"; H = "src/htmltools.rs"; U = "src/urlutils.rs"; X = "src/regextra.rs"; S = "src/regex_snips.rs"
ALL = [P, B, T, H, U, X, S]
def m(name, where): return {"name": name, "where": where}
RT = [m("conversion entry point", P + " Textile::parse")]
PROPS = [
 dict(id="C01", title="Converting any text under any options returns a result",
  statement="For every input text and every combination of parser options, conversion returns a string: it never panics, never overflows a number or the stack, and never runs forever. Long, deeply nested, malformed and non-ASCII documents are no exception.",
  over=["inputs", "configurations"], text="every Unicode text, every option set",
  why="The tests convert a few hundred well-formed ASCII documents under a handful of option sets; none of them is malformed on purpose, repeated to a length where expression back-tracking limits bite, or numerically extreme.",
  files=ALL, mech=[m("all conversion stages", P), m("attribute parsing", B), m("entity decoding", H), m("expression helpers", X)],
  tech="exhaustive bounded enumeration of token sequences, construct contexts and pumped documents on the real parser",
  note="Every document of the stated token/context/pumping bounds is executed under a crash, panic, overflow and hang monitor; documents outside the bounds are not covered."),
 dict(id="C02", title="Restricted mode lets no HTML typed by the author become markup",
  statement="In restricted mode every tag and every attribute in the output is one that the Textile markup itself produces: HTML tags, comments, quotes and entities typed in the document appear only as escaped text, wherever they stand. No text placed in a title, label, citation, URL, language, code or raw passage can end an attribute or a tag early and so add markup of its own.",
  over=["inputs", "configurations"], text="every text in every position of every construct, restricted mode with every other option",
  why="Two restricted values and a few fixtures are tested; injection needs a particular mix of quoting characters in a particular slot of a particular construct.",
  files=[P, B, T, H, U], mech=[m("input escaping", P + " Textile::parse"), m("attribute quoting", H + " quoteattr"), m("deferred fragments", P + " shelve/retrieve"), m("URL re-encoding", U)],
  tech="exhaustive enumeration of payload sequences in every construct slot, judged by an independent HTML5 tokenizer",
  note="All payload token sequences up to the bound in all listed slots; the judge is html5ever's tokenizer with per-tag attribute tables."),
 dict(id="C03", title="Restricted mode ignores author-chosen classes, ids and styles",
  statement="In restricted mode a class, id or style given in a document is ignored by every construct that accepts attributes: the output is the same as if it had not been written. The only classes, ids and styles that occur are those the converter makes itself (anchors of footnotes and notes, capitals, alignment, padding, the language label of a code block).",
  over=["inputs", "configurations"], text="every construct that takes attributes, every combination and order of attributes",
  why="The fixtures cover phrase modifiers only, in one order.",
  files=[B, P, T], mech=[m("attribute parsing", B + " BlockAttributes::parse"), m("call sites that pass the mode", P + ", " + T)],
  tech="exhaustive enumeration of attribute combinations over all attribute slots, metamorphic and observer oracle",
  note="All attribute lists up to the bound in every attribute slot; compared with the same document without them."),
 dict(id="C04", title="Only allowed URL schemes reach links, images and citations",
  statement="Every link target, image source and citation produced from Textile markup is either relative or has an allowed scheme: http, https, ftp and mailto in restricted mode, and additionally file, tel, callto, sftp and data otherwise. Link and image markup with any other scheme stays in the text and makes no link or image, and a citation with one is dropped; this covers direct URLs, aliases and images used as links.",
  over=["inputs", "configurations"], text="every URL text in every URL position of the language, both modes",
  why="Tests try one or two bad schemes in plain links.",
  files=[P, B, U], mech=[m("scheme lists", P), m("link, image, alias and citation handling", P + ", " + B), m("URL normalisation", U)],
  tech="exhaustive enumeration of scheme spellings in every URL slot, judged by a tokenizer and the WHATWG URL parser",
  note="All listed scheme spellings x URL slots x surroundings x modes."),
 dict(id="C05", title="Disabling images removes images and nothing else",
  statement="With images disabled no image is produced from image markup anywhere in the document, and the markup stays in the text. Everything else is converted exactly as it is with images enabled.",
  over=["inputs", "configurations"], text="every document containing image markup in any position",
  why="One fixture has images disabled.",
  files=[P], mech=[m("image stage in paragraphs and in link texts", P + " graf, replace_links")],
  tech="exhaustive enumeration of image forms in every surrounding, with a reference for the text kept",
  note="All listed image forms x positions x option sets, plus the general document spaces."),
 dict(id="C06", title="Lite mode keeps only simple blocks",
  statement="In lite mode paragraphs, block quotes and code blocks are the only blocks: headings, preformatted and raw blocks, hidden comments, footnote definitions, lists, definition lists and tables are not recognised and their markup stays in the paragraph text, as does inline code and raw-text markup. Phrase markup, links, images and typography work as usual.",
  over=["inputs", "configurations"], text="every block marker in lite mode, with every phrase content",
  why="One doc example and a few fixtures use lite mode.",
  files=[P, T], mech=[m("lite block table", P + " BLOCK_TAGS_LITE_RE_S"), m("stage selection", P + " graf")],
  tech="exhaustive enumeration of block markers x contents against a reference model of lite mode",
  note="All listed block markers, attributes and contents; plus a whitelist of elements over the general document spaces."),
 dict(id="C07", title="Sanitizing applies the configured sanitizer to the whole output",
  statement="With sanitizing enabled the result is exactly what the sanitizer, with its default rules or with the adjustments the caller made, leaves of the unsanitized conversion. So no script, event handler, inline style or dangerous URL survives, unless the caller allowed it.",
  over=["inputs", "configurations"], text="every document incl. raw HTML, every sanitizer adjustment",
  why="Doc examples show two documents.",
  files=[P], mech=[m("sanitizing step", P + " Textile::parse"), m("configuration", P + " set_sanitize, adjust_sanitizer")],
  tech="exhaustive enumeration of hostile fragments in every construct; equality with a direct sanitizer run and fixed-point check",
  note="All payload sequences up to the bound in every slot; oracle is ammonia called directly by the harness."),
 dict(id="C08", title="Internal placeholders neither leak nor can be forged",
  statement="The placeholders the converter uses internally never show in the output, and text in a document that imitates them is plain text that cannot summon other parts of the document. The parser's identifier influences nothing but the generated anchor names.",
  over=["inputs", "configurations"], text="every document, including ones written to imitate placeholders, and every identifier",
  why="No test contains placeholder-like text or compares two identifiers.",
  files=[P], mech=[m("placeholder scheme", P + " shelve, shelve_url, store_tags, retrieve*"), m("input filtering", P + " Textile::parse"), m("identifier", P + " set_uid")],
  tech="exhaustive enumeration of placeholder fragments and constructs; identifier-renaming equivalence on every execution",
  note="All fragment sequences up to the bound; all construct pairs; several identifiers incl. ones with special characters."),
 dict(id="C09", title="The result depends only on the text and the options",
  statement="Converting a text gives the same result every time, whatever the same parser or other parsers converted before, and whatever options were set and replaced on the way. Options may be set in any order, before or between conversions; the last value of each option is the one that counts.",
  over=["histories", "configurations"], text="every history of option changes and conversions",
  why="Tests build a parser once, configure it once and never compare histories.",
  files=[P], mech=[m("per-parser caches", P + " regex_cache"), m("per-conversion state", P + " ParserState"), m("option setters", P)],
  tech="explicit exploration of all operation histories up to a depth on live parser objects, compared with a fresh parser",
  note="All histories up to the bound over option setters and conversions of state-heavy documents."),
 dict(id="C10", title="Code and preformatted text is shown verbatim",
  statement="The text of inline code, code blocks and preformatted blocks (single, extended, and given as HTML tags) is shown character for character as written: Textile markup, typography and HTML inside it have no effect. This holds in restricted mode too, and wherever the code stands (paragraph, heading, quote, list, table, link text). Only a marker for raw text inside inline code comes first.",
  over=["inputs", "configurations"], text="every code text, in every position",
  why="Fixtures contain a few dozen code snippets.",
  files=[P, B, H], mech=[m("inline code", P + " code"), m("code blocks", B + " Block::new"), m("escaping", H + " encode_html")],
  tech="exhaustive enumeration of code texts over a markup alphabet x code forms x positions, verbatim-text oracle through an HTML tokenizer",
  note="All token sequences up to the bound as code text."),
 dict(id="C11", title="Text excluded from Textile passes through untouched",
  statement="Text marked as not Textile (inline, as tag, as block and as extended block) reaches the output byte for byte, with no markup or typography applied, in every position where it may stand. In restricted mode it reaches the output escaped and is shown as written. Only a typed break tag is brought into the chosen form and followed by a line end.",
  over=["inputs", "configurations"], text="every raw text, in every position",
  why="A handful of fixtures.",
  files=[P, B], mech=[m("inline raw text", P + " no_textile"), m("raw blocks", B + " Block::new")],
  tech="exhaustive enumeration of raw texts x forms x positions, exact-output oracle",
  note="All token sequences up to the bound as raw text."),
 dict(id="C12", title="Blocks are recognised, separated, extended and closed correctly",
  statement="A document is a sequence of blocks separated by blank lines, and each becomes exactly the element its marker names, in order, independent of its neighbours. A block started with two dots extends over the following unmarked blocks and is closed at the next marked block or at the end; hidden blocks leave nothing behind.",
  over=["inputs"], text="every sequence of blocks",
  why="Fixtures sample a few sequences; extension and closing depend on the whole history of preceding blocks.",
  files=[P, B], mech=[m("block loop", P + " block"), m("block construction", B + " Block::new")],
  tech="explicit-state reference model of the block loop; every block sequence up to a depth replayed on the parser",
  note="All block sequences up to the bound; exact output compared with the model."),
 dict(id="C13", title="Phrase markup nests and converts to the right elements",
  statement="Each phrase marker produces its element around exactly the marked text, alone, side by side, nested in any order up to the supported depth, bracketed, and next to punctuation. Marker characters inside words or standing alone stay as text.",
  over=["inputs"], text="every phrase tree up to the depth, in every surrounding",
  why="Fixtures cover single markers and a few nestings.",
  files=[P], mech=[m("phrase expressions and recursion", P + " span_re, span, store_tags, retrieve_tags")],
  tech="exhaustive enumeration of phrase trees and surroundings against a rendering model",
  note="All trees and surroundings up to the bound; exact output compared with the model."),
 dict(id="C14", title="Links get the right target, text, title and surroundings",
  statement="A link yields one anchor with the written text, title and attributes and with its URL normalised and escaped; punctuation and unbalanced brackets that follow the URL stay outside, balanced brackets stay inside. Aliases resolve to their definition wherever that stands and the definition disappears from the text, a self-titled link shows its URL, and a configured link relation appears on every link.",
  over=["inputs", "configurations"], text="every link text x URL x trailing text x form",
  why="Many single fixtures, no combinations.",
  files=[P, U], mech=[m("link start search", P + " mark_start_of_links"), m("URL end search", P + " replace_links"), m("aliases", P + " get_refs, retrieve_urls"), m("normalisation", U)],
  tech="exhaustive enumeration of link parts against a rendering model",
  note="All combinations of the listed parts; exact output compared with the model."),
 dict(id="C15", title="Images get the right source, text, alignment and link",
  statement="Image markup yields one image with the written source, alternative text and title, attributes and alignment (by class or by attribute, depending on the output kind and the alignment option), wrapped in a link when a target is given. It stands alone, inside text, links, lists and tables alike.",
  over=["inputs", "configurations"], text="every combination of image parts and options",
  why="Single fixtures.",
  files=[P, H], mech=[m("image expression and rendering", P + " image"), m("attribute order and quoting", B + ", " + H)],
  tech="exhaustive enumeration of image parts x options against a rendering model",
  note="All combinations of the listed parts; exact output compared with the model."),
 dict(id="C16", title="Lists keep their items, nesting, kinds and numbering",
  statement="Lists yield one properly nested list structure in which every item appears exactly once, in order, at the depth and in the kind of list its markers say. Start numbers and continued numbering give the right first number, and continuation lines stay in their item; definition lists pair terms with definitions.",
  over=["inputs"], text="every sequence of list lines",
  why="Fixtures sample few nestings; closing tags depend on the whole sequence of levels.",
  files=[P], mech=[m("lists", P + " textile_lists"), m("definition lists", P + " redcloth_list"), m("line breaks", P + " do_tag_br")],
  tech="exhaustive enumeration of list line sequences against a tree-building model",
  note="All level/kind sequences up to the bound; structure compared with the model through an HTML tokenizer."),
 dict(id="C17", title="Tables keep their rows, cells, groups and attributes",
  statement="A table yields one table whose rows and cells appear in order with their text, header cells, spans, alignment and attributes as written. Caption, summary, column definitions and head, body and foot groups go where the markup puts them, and nothing of the table is lost or repeated.",
  over=["inputs"], text="every table up to a size, every combination of table features",
  why="A few table fixtures.",
  files=[T, P, B], mech=[m("table recognition", P + " table"), m("table rendering", T + " process_table")],
  tech="exhaustive enumeration of table shapes and features against a rendering model",
  note="All combinations of the listed table features up to the bound; exact output compared with the model."),
 dict(id="C18", title="Footnote references and footnotes point at each other",
  statement="A footnote reference followed by its footnote links to exactly that footnote, and a footnote with a back link links back to its first reference; every generated id is unique in the document. References can be repeated or kept unlinked, and several footnotes do not mix.",
  over=["inputs", "histories"], text="every sequence of references and footnotes where the reference comes first",
  why="Fixtures hold two or three footnotes in order.",
  files=[P, B], mech=[m("references", P + " footnote_ref"), m("footnotes", B + " Block::new"), m("id counter", P + " increment_link_index")],
  tech="exhaustive enumeration of reference/definition histories, link-graph oracle over the tokenized output",
  note="All histories up to the bound."),
 dict(id="C19", title="Notes are numbered, listed and linked consistently",
  statement="Note references are numbered in the order of first use, and a note list shows each referenced note once, in that order, with its text and back links to all its references, wherever the definitions stand; unreferenced notes appear only when asked for. Undefined notes are reported as such, repeated definitions are ignored, and a note list can be repeated.",
  over=["inputs", "histories"], text="every sequence of note references, definitions and lists",
  why="Fixtures hold one arrangement (references, definitions, lists) with three notes.",
  files=[P, B], mech=[m("references", P + " note_ref"), m("definitions", P + " parse_note_defs, " + B), m("lists", P + " place_note_lists, make_back_ref_link")],
  tech="explicit-state reference model of the notes; every history up to a depth replayed on the parser",
  note="All histories up to the bound; exact output compared with the model."),
 dict(id="C20", title="Classes, ids, styles, languages, alignment and padding are applied",
  statement="Attributes given to a block, phrase, link, image, list item, table part, footnote or note appear on exactly that element with the given values, in whatever order they are written. Alignment and padding become the corresponding style, invalid classes and ids are dropped, and elements without attributes get none. (In restricted mode the angle brackets that align blocks are escaped text and align nothing.)",
  over=["inputs"], text="every attribute list on every kind of element",
  why="Fixtures test single attributes on few elements.",
  files=[B, P, T, S], mech=[m("attribute grammar", S), m("attribute parsing and rendering", B + " BlockAttributes")],
  tech="exhaustive enumeration of attribute lists x elements against an attribute model",
  note="All attribute lists up to the bound on all listed elements; exact attributes compared with the model."),
 dict(id="C21", title="Typography is applied as documented and only to text",
  statement="Straight quotes, apostrophes, dashes, ellipses, dimension signs, fractions, degrees, plus-minus, trademark signs, acronyms and capitals are converted to their typographic form in running text of any block or phrase. Tags, attributes, URLs and code are not touched by it.",
  over=["inputs"], text="every sequence of typographic tokens, in every element",
  why="Fixtures show each glyph once or twice; interaction with neighbours is what matters.",
  files=[P], mech=[m("glyph expressions", P + " make_glyph_replacers, DYN_3PLUS_RE"), m("application", P + " glyphs, glyph_quoted_quote")],
  tech="exhaustive enumeration of typographic token sequences against a token-level model",
  note="All token sequences up to the bound; exact output compared with the model."),
 dict(id="C22", title="Ordinary text is kept and escaped exactly once",
  statement="Text without markup comes out as the same text: no character is lost, repeated or reordered, and every stray ampersand, every greater-than sign and every less-than sign that starts no tag is escaped exactly once while existing entities are kept. This holds for any script and in every element that holds text.",
  over=["inputs"], text="every text over plain words, Unicode, punctuation and stray special characters",
  why="Fixtures show a few sentences.",
  files=[P, H], mech=[m("escaping of text", P + " glyphs"), m("block output", P + " block")],
  tech="exhaustive enumeration of plain texts x elements, identity oracle through an HTML tokenizer",
  note="All token sequences up to the bound in all listed elements."),
 dict(id="C23", title="Line ends and blank lines do not change the meaning",
  statement="CR, LF and CRLF line ends give the same result, lines with only blanks count as blank lines, and blank lines before and after a document do not matter. Inside a paragraph, heading, quote, list item or table cell each line end is shown as exactly one line break, unless the next line starts with a blank or a pipe.",
  over=["inputs"], text="every document under every assignment of line-end styles",
  why="All tests use LF.",
  files=[P], mech=[m("normalisation", P + " normalize_newlines"), m("line breaks", P + " do_p_br, do_tag_br")],
  tech="exhaustive enumeration of line-end assignments over multi-line documents, equivalence oracle",
  note="All assignments of line ends up to the bound."),
 dict(id="C24", title="HTML5 and XHTML output differ only where they should",
  statement="The XHTML and HTML5 results of a document are the same except that XHTML writes self-closed breaks, acronym instead of abbr, and the align attribute instead of an alignment class on images. Every generated break, and every break typed in the middle of a line of text, has the chosen form and is followed by a line end.",
  over=["inputs", "configurations"], text="every document in both output kinds",
  why="Separate value tables, few documents in both.",
  files=[P], mech=[m("output kind", P + " set_html_kind, proper_br_tag, image, glyphs, parse")],
  tech="exhaustive enumeration of documents, both kinds executed and compared under the stated mapping",
  note="All documents of the general spaces up to the bound, executed in both kinds."),
 dict(id="C25", title="Raw HTML is passed through outside restricted mode",
  statement="Outside restricted mode HTML tags on one line and comments after a blank, a bracket or the start of a line are kept exactly as written, attributes included (attribute values that hold complete Textile phrases, links, images or footnote marks aside), while Textile between them still works. Blocks of block-level HTML, lone comments and dividers are not wrapped in paragraphs, inline HTML is, and with raw blocks enabled a block wrapped in an unknown element is left alone.",
  over=["inputs", "configurations"], text="every HTML fragment in every position",
  why="Some fixtures for a few tags.",
  files=[P, H, S], mech=[m("wrapping decision", H + " has_raw_text"), m("dividers", S + " DIVIDER_RE"), m("tag splitting", P + " glyphs"), m("comments", P + " get_html_comments")],
  tech="exhaustive enumeration of HTML elements x shapes x positions against a wrapping model",
  note="All listed elements and shapes."),
 dict(id="C26", title="Image sizes are taken from the image and failures are harmless",
  statement="With image sizing on, an image gets the width and height found in the first kilobyte of the file, however the server splits its answer; relative images and images that cannot be fetched or understood are converted without a size. No server behaviour makes conversion fail, and without the option nothing is fetched.",
  over=["fault_sequences", "inputs"], text="every way of splitting, truncating, corrupting or refusing the answer",
  why="The only tests need the Internet and a well-behaved server.",
  files=[P], mech=[m("fetching loop", P + " get_image_size"), m("use of the size", P + " image")],
  tech="enumeration of all server answers (split, truncated, corrupted, refused) against a loopback server",
  note="All split and truncation points of the listed images and all listed fault kinds.", level="fault_enumeration"),
 dict(id="C27", title="Every element that is opened is closed",
  statement="In restricted mode, and in any document without typed HTML, every element the converter opens is closed, nothing is closed that was not opened, and blocks, lists, tables and their parts nest properly. Malformed, overlapping and unfinished markup is no exception.",
  over=["inputs", "configurations"], text="every document, in restricted mode or without typed HTML",
  why="The fixtures compare well-formed documents with their expected output; the combinations that leave an element open are malformed ones.",
  files=[P, T, B], mech=[m("list stage", P + " textile_lists"), m("phrase tags", P + " span, retrieve_tags"), m("table stage", T), m("blocks", P + " block")],
  tech="exhaustive enumeration of token sequences and construct combinations, judged by a tokenizer and a stack automaton",
  note="All documents of the stated bounds; phrase elements are counted, all others must nest (phrases that cross each other in the source cross in the output)."),
 dict(id="C28", title="Blocks do not influence each other",
  statement="A document made of two parts separated by a blank line converts to the conversion of the first followed by that of the second, whatever the parts hold, malformed markup included. Only the features that are defined across blocks are excepted: extended blocks, footnotes, notes and note lists, link aliases, and lists that continue the numbering.",
  over=["inputs", "histories"], text="every pair of parts without cross-block features",
  why="The tests convert documents of one feature at a time; state that leaks from one block to the next shows only in a later block of another kind.",
  files=[P, T, B], mech=[m("block loop and its state", P + " block"), m("conversion state", P + " ParserState")],
  tech="exhaustive enumeration of document pairs on the real parser, with the converted parts as oracle",
  note="All token sequences and constructs of the bounds before and after a probe that uses every feature, and all pairs of constructs; runs of line ends in the output are compared as one."),
 dict(id="C29", title="Relation, alignment and raw-block options change only what they name",
  statement="A configured link relation is put, with exactly the configured text, on every link made from link markup and on every linked image, and changes nothing else. The way of aligning images changes only whether the alignment is an attribute or a class of the image, and defaults to the one the kind of HTML calls for. Enabling raw blocks changes nothing in documents where no line begins with a tag.",
  over=["inputs", "configurations"], text="every document, every relation text, every way of alignment",
  why="One fixture each uses these options, with one document.",
  files=[P, H], mech=[m("relation", P + " replace_links, image"), m("alignment", P + " image"), m("raw blocks", P + " is_raw_block")],
  tech="exhaustive enumeration of documents x option values, compared token by token with the conversion without the option",
  note="All documents of the stated bounds x all listed relation texts and ways of alignment."),
 dict(id="C30", title="With block tags off only phrases and typography are converted",
  statement="With block tags disabled the document is one run of text: phrase markup and typography are converted as they are within a paragraph, lines stay lines, and nothing else is recognised. No paragraph, list, table, link, image or code element is made, and the markup for them stays in the text.",
  over=["inputs", "configurations"], text="every document with block tags disabled",
  why="No test disables block tags.",
  files=[P], mech=[m("conversion without blocks", P + " Textile::parse"), m("phrases and glyphs", P + " span, glyphs")],
  tech="exhaustive enumeration of documents against a reference model, the paragraph conversion and an element whitelist",
  note="All listed kinds of markup x contents, all phrase and typography sequences of the bounds, and the general document spaces."),
 dict(id="C31", title="Complete constructs in one text do not influence each other",
  statement="Within one paragraph, heading, list item, table cell, quote or note, constructs that close everything they open (phrases, links, images, code, raw text, quotations, glyphs, acronyms, tags, comments) are each converted as they would be alone between words, in order and with the text between them unchanged.",
  over=["inputs"], text="every sequence of complete inline constructs in every element",
  why="The fixtures show one or two constructs at a time; a greedy or misplaced match shows only when another construct of some other kind stands on the same line.",
  files=[P], mech=[m("inline stages", P + " graf"), m("links", P + " mark_start_of_links, replace_links"), m("phrases", P + " span"), m("glyphs", P + " glyphs")],
  tech="exhaustive enumeration of sequences of constructs, compared with the conversions of the parts",
  note="All pairs (all texts between, all elements) and all triples of 83 constructs."),
]
BUILT = open(os.path.join(ROOT, "tools", "built")).read().split()
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mech"],
                        "observe_at": ["returned string of Textile::parse"], "hook_needed": "none"}}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "./check.sh build",
  "hooks": {"guard": "none", "enable": "no hooks: the checks use the public API only", "source_commits": []},
  "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
      "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": p.get("level", "model_checking"), "level_note": p["note"]}
      for p in PROPS if p["id"] in BUILT],
  "not_applicable": [{"property": p["id"], "reason": "check under construction"} for p in PROPS if p["id"] not in BUILT]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
