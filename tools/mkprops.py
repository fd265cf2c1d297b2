"""Writes /verif/properties.jsonl (the property texts live here, one call each)."""
import json, os
OUT = []
def P(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": mechanism, "where": ", ".join(files)}]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = list(observe)
    OUT.append({"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- layout
P("L01", "Children without a main-axis position are stacked, in order, and fill shares",
  "Children that give no position on their parent's main axis are placed one directly after another, in the order of the parent's layout children, in vertical and in horizontal boxes alike. If none of them asks for a fill size the whole group is centred on the main axis; otherwise the space left by the other stacked children (their fixed size, or the larger of their minimum and their percentage of the parent; a dynamic size reserves nothing) is shared among the fill children exactly in proportion to their weights, so that the group starts at the parent's edge. Children with an explicit main-axis position take no part in the stacking or in the shared space.",
  ["inputs"], "Every list of children of any length, every mix of fixed/percentage/fill/positioned children, both orientations, all numeric sizes.",
  "tests/test_layout.py lays out a handful of fixed trees; sums, shares and accumulated offsets are only right for all child lists if the loop invariants hold.",
  ["elsie/boxtree/layout.py"], "Layout.set_rect: first loop accumulates used space and fill weights, second loop advances a running main-axis offset.",
  [("Layout.rect", "final rectangle of a box")], ["Layout.set_rect on a parent, rectangles handed to the children"])
P("L02", "The size a box gets follows its size definition on both axes",
  "On the cross axis a child gets the full inner size of the parent when its size is a fill, on the main axis its weight times the unit share; a percentage gives that fraction of the parent's inner size but never less than the child's own minimum, and a plain or missing size gives the minimum. A size given as a dynamic value is used as it evaluates at layout time. Boxes of both orientations behave alike with the axes exchanged; a fill box (fbox) fills its parent on both axes and a spread box (sbox) on the parent's cross axis, unless given other sizes.",
  ["inputs"], "All size definitions (number, digits, percentage, fill, fill(N), dynamic, none), all parent rectangles, both orientations.",
  "Tests check single numeric instances per definition; the rule must hold for every combination of definition, minimum and parent size.",
  ["elsie/boxtree/value.py", "elsie/boxtree/layout.py"], "SizeValue.compute/ensure and their use by Layout.set_rect and ensure_width/ensure_height.")
P("L03", "Explicit positions place a box relative to its parent on both axes",
  "A number (or digits) places the child's edge that many pixels from the parent's inner left/top edge, \"N%\" places it at N percent of the parent's inner width/height from that edge, and \"[N%]\" splits the free space so that N percent of it lies before the child. A dynamic position is used as it evaluates at layout time, and a child without a cross-axis position is centred on the cross axis. The rules are the same for x and y and for parents of both orientations, each axis using only that axis' own parent extent; an overlay covers exactly the inner area of its parent, unless given otherwise.",
  ["inputs"], "All position definitions, both axes, both parent orientations, all rectangles.",
  "Tests cover vertical parents and few numbers; a horizontal parent with a relative y was never asserted (and was wrong).",
  ["elsie/boxtree/layout.py", "elsie/boxtree/value.py"], "PosValue.compute and the x/y branches of Layout.set_rect.")
P("L04", "Padding: precedence of the arguments, and symmetric effect on the inner area",
  "Each of the four paddings is the side argument if given, else the axis argument if given, else the common padding if given, else zero (an explicit zero counts as given). A box's content area is the rectangle it was assigned with exactly those paddings removed on their own sides, and the same paddings are added to the size the box requests from its parent, including the sizes its text and images request.",
  ["inputs"], "All combinations of given/omitted padding arguments and all numeric values.",
  "2^7 combinations of given/omitted arguments times all numbers; tests use two of them.",
  ["elsie/boxtree/layout.py", "elsie/utils/geom.py"], "Layout.add/_set_padding, Rect.shrink in set_rect, compute_size_request, ensure_width/ensure_height.")
P("L05", "A box requests enough space for its stacked children",
  "Bottom-up, the size a box requests is, per axis, the larger of its own minimum and the requirement of its stacked children plus padding: the sum of their requests along the main axis and the maximum across it. Explicitly positioned children contribute nothing, and a box never requests less than what was asked of it before.",
  ["inputs"], "All child lists of any length and nesting, both orientations, all sizes.",
  "The recursion is over arbitrary trees; tests check a few small ones.",
  ["elsie/boxtree/layout.py"], "Layout.compute_size_request, min_children_size, SizeValue.ensure.")
P("L06", "Dynamic coordinates resolve against the final layout",
  "A coordinate or point taken from a box resolves, when evaluated after layout, to the box's final content rectangle: numbers are offsets from its left/top edge, percentages are fractions of its width/height, the mid point is its centre, and added offsets are added exactly, once. Evaluation does not depend on when the value was created, on how often it is evaluated, or on the orientation of any box, and a re-layout is reflected by the next evaluation.",
  ["inputs", "histories"], "All values, chains of added offsets, all final rectangles, values created before or after later layout changes.",
  "Tests evaluate a few points of one layout.",
  ["elsie/boxtree/lazy.py", "elsie/boxtree/layout.py", "elsie/boxtree/boxmixin.py"], "Layout.x/y/point, LazyValue.map/add/eval, LazyPoint.add/eval, unpack_point/eval_value/eval_pair.")
P("L07", "Exactly the documented size and position notations are understood, exactly",
  "A size text is accepted only as digits, digits followed by a percent sign, \"fill\", or \"fill(\" digits \")\"; a position text only as digits, digits with a percent sign, or a bracketed percentage. An accepted text means exactly the number it spells (percentages divided by one hundred), numbers of either numeric type are taken as pixels unchanged, and everything else is rejected with an error when the box is created rather than silently mis-sized.",
  ["inputs"], "All texts.",
  "The set of texts is infinite; tests sample about a dozen.",
  ["elsie/boxtree/value.py"], "SizeValue.parse / PosValue.parse and their regular expressions.")
# ---------------------------------------------------------------- fragments
P("F01", "Fragment selectors show a box in exactly the selected fragments",
  "A selector shows a box in fragment s exactly if s is one of the listed numbers, lies in one of the listed closed ranges (both ends included), or is at or after the listed open start; no selector means every fragment from 1. \"next\" stands for one more than the current fragment and \"last\" for the current fragment, at the time the box is created. Texts outside the notation, reversed ranges, two open starts and placeholders without a current fragment are rejected with an error.",
  ["inputs"], "All selector texts (any number of comma-separated parts, any numbers, spaces around parts), all fragments, all current fragments.",
  "Selectors and fragment numbers are unbounded; tests list a few dozen.",
  ["elsie/slides/show.py"], "ShowInfo.parse, is_visible, max_step, replace_relative_steps.")
P("F02", "A slide renders one page per fragment, in order, up to its highest fragment",
  "A slide yields exactly one page for each fragment 1..N in increasing order, slides in deck (or selection) order, where N is the highest fragment mentioned by any box of the slide, at any depth, or required by any image on it, and at least 1. The current fragment starts at 1, equals the highest fragment mentioned so far on that slide, never decreases, and is not affected by other slides.",
  ["inputs", "histories"], "All trees of boxes and selectors, all construction orders, all selections of slides.",
  "The page count is a maximum over arbitrary trees built by arbitrary call sequences.",
  ["elsie/slides/slide.py", "elsie/slides/slidedeck.py", "elsie/boxtree/box.py", "elsie/boxtree/boxmixin.py"],
  "BoxMixin.box and Box._ensure_steps maintain max_step; Slide.steps traverses; SlideDeck.render enumerates steps.")
P("F03", "Items are painted exactly when all their boxes are shown, in z order",
  "In each fragment every item whose box and all of whose enclosing boxes are shown in that fragment is painted exactly once, and no other item is painted. Items are painted by increasing z level, and items with equal z level in depth-first order of the box tree. The z level of a box is the given one, otherwise its parent's, and an item's is that of its box.",
  ["inputs"], "All box trees, visibilities, z levels and fragments.",
  "Needs induction over arbitrary trees; tests compare a few rendered slides.",
  ["elsie/boxtree/box.py", "elsie/boxtree/boxmixin.py", "elsie/boxtree/boxitem.py", "elsie/render/backends/svg/backend.py", "elsie/render/backends/cairo/backend.py"],
  "Box.get_painters recursion, stable sort by z_level in create_render_unit of both backends.")
P("F04", "New children take the requested place in the paint order",
  "A new box or item is painted after all existing children of its box by default, before all of them when prepended, directly after the given sibling when inserted above it and directly before it when inserted below it; the relative order of the existing children never changes. Asking for both or for a sibling that is not a child is rejected. A prepended box also comes first in the layout; methods called on an item act on the box that holds the item.",
  ["inputs", "histories"], "All sequences of insertions of any length.",
  "Sequences of insertions are unbounded; tests do one of each.",
  ["elsie/boxtree/box.py", "elsie/boxtree/layout.py", "elsie/boxtree/boxmixin.py"], "Box.add_child, Layout.add(prepend), BoxMixin.box, BoxItem._get_box.")
# ---------------------------------------------------------------- text
P("T01", "Inline markup is recognised exactly and no character of the text is lost",
  "Text outside style markup appears in the output character for character and line by line, only the markup itself (escape character, style name, opening and matching closing bracket) is removed, and every styled section covers exactly the text between its brackets. Sections are properly nested whatever the text, a closing bracket outside any section is ordinary text, and a section left open is rejected with an error. Line breaks at the very end of the text are dropped.",
  ["inputs"], "All texts and all choices of escape, opening and closing characters.",
  "Texts are unbounded; tests list about ten.",
  ["elsie/text/textparser.py"], "parse_text scanner and normalize_tokens.")
P("T02", "Line numbering, line extraction and style removal keep the text",
  "Line numbering puts before every line, empty ones included, its number counted from 1, padded with zeros to the width of the largest number, in the line-number style, and changes nothing else. Extracting the line around a styled section yields exactly that line's text with all enclosing styles reopened and everything balanced; removing styles yields exactly the characters and line breaks.",
  ["inputs"], "All parsed texts of any length and nesting.",
  "Nested sections spanning many lines are unbounded; tests use a few.",
  ["elsie/text/textparser.py"], "add_line_numbers, number_of_lines, extract_line, _open_blocks, tokens_to_text_without_style.")
P("T03", "Highlighted code keeps its text, and user styles in it cover what they enclosed",
  "Code shown with syntax highlighting shows exactly the characters and line breaks of the source after tab expansion (apart from surrounding blank lines), with properly nested sections. When inline styles are enabled as well, every user section covers exactly the characters it enclosed in the source, and every highlighted character keeps its highlighting.",
  ["inputs"], "All code texts, languages and user markup, tab sizes, escape characters.",
  "Merging two independent nestings has unboundedly many interleavings; tests cover five.",
  ["elsie/text/textparser.py", "elsie/text/highlight.py", "elsie/boxtree/boxmixin.py"], "tokens_merge/_tokens_merge_helper, highlight_code formatter, BoxMixin.code.")
P("T04", "Text, line boxes and inline boxes have the geometry of the text they stand for",
  "Text is centred vertically in its box and aligned horizontally as its style says; its requested size is its measured width and number of lines times line height. Scaled text gets the largest scale at which it fits its box in both directions. A line box spans exactly the requested lines (plus one pixel) and an inline box the measured extent of the chosen occurrence on its line, both at any scale and however often the deck is laid out.",
  ["inputs", "histories"], "All texts, rectangles, alignments, line indices, occurrences; repeated layouts.",
  "Tests compare a few fixed drawings and never lay out twice.",
  ["elsie/text/textboxitem.py"], "TextBoxItem._make_query/render/line_box/inline_box and the scale callback.")
P("S01", "Composed text styles take each property from the most specific style setting it",
  "Composing or updating a style with another takes every property the other one sets and keeps all the rest; composing never changes its operands, and reading a style by name returns an independent copy. A full style is the default style composed with the named or given one. A value of the wrong kind for a property is rejected and leaves the style as it was.",
  ["inputs"], "All pairs of styles, every property set or unset on either side, all values including falsy ones.",
  "3^10 set/unset patterns times values; tests use a few.",
  ["elsie/text/textstyle.py", "elsie/text/stylecontainer.py"], "TextStyle.update/compose/copy, compose_style, property setters.")
P("S02", "Named styles are scoped: a change is seen below, later, and nowhere else",
  "Defining or updating a named style on a box or deck affects lookups on that container and on boxes or slides created from it afterwards, and never any parent, sibling or descendant that already existed, nor text already drawn. A based definition takes what it does not set from the named base at that time, and using a returned style object does not change later lookups of containers that did not receive it.",
  ["inputs", "histories"], "All sequences of style operations and box creations over all trees.",
  "A property of all histories of aliasing dictionaries; tests check two short ones.",
  ["elsie/text/stylecontainer.py", "elsie/boxtree/boxmixin.py", "elsie/slides/slidedeck.py"], "StyleContainer.set_style/update_style copy-on-write dictionaries.")
# ---------------------------------------------------------------- svg
P("X01", "Produced XML is well formed and carries texts and attribute values unchanged",
  "Whatever strings are used as element texts and attribute values, the document built from balanced open/close calls is well-formed XML, has exactly the requested elements and nesting, and reading it back gives the same attribute values and the same texts (ordinary spaces becoming non-breaking ones). Closing the wrong or no element, setting an attribute on no open tag, and finishing an unfinished document are rejected.",
  ["inputs", "histories"], "All strings (of XML characters) and all call sequences.",
  "Strings and call sequences are unbounded; tests never use quotes in attributes.",
  ["elsie/utils/sxml.py"], "Xml.element/set/text/close/to_string, escape_text.")
P("X02", "Text markup becomes well-nested SVG with the right style on every character",
  "Every balanced parsed text is emitted as well-formed SVG whose characters and line breaks are those of the text, each character inside elements giving it the style of the enclosing sections, where an inner section overrides outer ones unless its priority is lower. Each line break starts a new line of the text at the same x, advanced by the line height times the number of breaks, with all open sections continued. Sections with undefined non-dummy names are rejected.",
  ["inputs"], "All balanced token sequences, all style tables and priorities.",
  "Token sequences are unbounded; tests compare a few fixed drawings.",
  ["elsie/render/backends/svg/draw.py"], "draw_text state machine over tokens with a stack of active styles.")
P("X03", "Shapes are emitted with the geometry and paint of the box they were asked for",
  "A rectangle, ellipse, polygon, line or path is emitted with exactly the coordinates of the content rectangle of its box or of its points, rotated about its own centre (rectangle, ellipse) or centroid (polygon) by the given angle. The fill is the given background or none, and the stroke appears exactly if a colour is given, with the given width and dashes. Bitmaps and SVGs are emitted at the given position, size and scale, rotated about their own centre.",
  ["inputs"], "All rectangles, point lists of any length, paint arguments and angles.",
  "Coordinates and point lists are unbounded; tests compare fixed drawings.",
  ["elsie/render/backends/svg/draw.py", "elsie/render/backends/svg/utils.py", "elsie/render/backends/svg/rcontext.py", "elsie/boxtree/boxmixin.py", "elsie/utils/geom.py"],
  "draw_rect/draw_ellipse/draw_polygon/draw_polyline/draw_path/draw_bitmap/draw_svg, set_paint_style, apply_rotation, find_centroid.")
# ---------------------------------------------------------------- images
P("I01", "Images keep their aspect ratio, fit their box and are centred in it",
  "An image without explicit scale is drawn at the largest size that keeps its aspect ratio and fits the box in every direction in which the box has an extent; with an explicit scale it is drawn at exactly that multiple of its natural size. Either way it is centred in the box. The box requests the natural size (times scale) if it defines no size itself, otherwise just enough to keep the aspect ratio of its defined extents.",
  ["inputs"], "All image sizes, scales and box rectangles.",
  "All real sizes; tests use a few files.",
  ["elsie/boxtree/boxmixin.py", "elsie/boxtree/layout.py", "elsie/ext/latex.py"], "scaler, draw closures of _image_svg/_image_bitmap, Layout.set_image_size_request.")
P("I02", "Image fragments: each slide fragment shows exactly the selected image elements",
  "In slide fragment s an image with fragments shows exactly the elements whose label annotation, and those of all their ancestors, select fragment s minus the start offset; before its start fragment nothing is shown, and with an explicit selection the s-th selected image fragment, if any, is shown instead. Everything else of the image is left intact, including text around hidden elements, and the image file itself is never changed. With fragments disabled annotations are ignored, and the slide has enough fragments to show every annotated one.",
  ["inputs"], "All SVG trees and labels, starts, selections and fragments.",
  "Trees and labels are unbounded; tests use three files.",
  ["elsie/render/image.py", "elsie/boxtree/boxmixin.py", "elsie/slides/show.py"], "create_image_data, get_image_steps, ShowInfo.from_label, step computation in _image_svg.draw.")
P("I03", "SVG lengths convert with the right unit and renamed ids keep their references",
  "A length of an SVG document is converted to pixels with the factor of its unit (mm, cm, pt, in, pc, px or none), for every number. Renaming the ids of a document renames every id exactly once and every reference to it, in any attribute and any number per attribute, so that each reference still denotes the same element; nothing else changes, even if one id is a prefix of another. Pictures rendered from LaTeX so keep their own elements, whatever other snippets are on the page.",
  ["inputs"], "All numbers and units; all documents, ids and reference patterns.",
  "Reference patterns are unbounded; the tests check one.",
  ["elsie/render/backends/svg/utils.py"], "svg_size_to_pixels, rename_ids.")
P("I04", "OpenRaster images convert to the same picture with the same layers",
  "Converting an OpenRaster file yields an SVG of the same size in which every visible layer with visible pixels appears exactly once, at its offset plus the offsets of its enclosing groups, with its own and its groups' opacity and label, in the same stacking order, and nothing else. Hidden layers, hidden groups with everything in them, and empty layers are left out.",
  ["inputs"], "All layer trees, offsets, opacities and visibilities.",
  "Layer trees are unbounded; tests have two files.",
  ["elsie/render/ora.py"], "convert_ora_to_svg: recursive _children_to_svg/_stack_to_svg/_layer_to_svg.")
# ---------------------------------------------------------------- caches, rendering
P("C01", "The file cache returns complete results for exactly the requested input",
  "A request returns the path of a file holding what the producer made for exactly that input, data type and software version, produced at most once while the file exists and never mixed up with another input. Pruning removes exactly the cache files not requested since the deck was created, keeps all others and all foreign files, and later requests still work. If a producer fails or the process dies while a file is being produced, the error reaches the caller and no later request, in this process or a later one, returns an incomplete file or hangs.",
  ["inputs", "histories", "crash_points", "fault_sequences"], "All sequences of requests, prunes, failures and restarts over all inputs.",
  "Histories with failures and restarts; tests never make a producer fail and prune once.",
  ["elsie/utils/cache.py"], "FsCache.ensure/ensure_by_file/get/remove_unused over cache_files/touched_files/in_progress.",
  [("FsCache.cache_files", "names of finished cache files"), ("FsCache.touched_files", "names requested since creation")])
P("C02", "The text-measurement cache never changes a measurement",
  "Measuring a text gives the value the backend would measure for exactly that drawing, whether it comes from memory, from the saved cache of an earlier run or from a fresh measurement, and each distinct measurement is made at most once per deck. A saved cache loads back with the same values for the same keys, is ignored entirely if the software versions differ, and saving (which rendering does unless told otherwise) after pruning keeps every measurement made by or used for the deck, however often the deck is rendered.",
  ["inputs", "histories"], "All sequences of queries, prunes, saves and reloads.",
  "A property of histories across processes; tests never reload.",
  ["elsie/render/backends/svg/backend.py", "elsie/render/backends/svg/query.py"], "process_query, prune_cache, save_cache, _load_query_cache/_save_query_cache.")
P("R01", "Rendering is repeatable and does not disturb the deck",
  "Rendering a deck again, whole or a selection of its slides, in any export format and after any earlier renders, produces the same pages as before for the slides that did not change. Rendering one slide does not depend on, or alter, any other slide.",
  ["inputs", "histories"], "All decks and all sequences of renders and selections.",
  "Needs two renders of the same deck; tests render each deck once.",
  ["elsie/slides/slidedeck.py", "elsie/slides/slide.py", "elsie/text/textboxitem.py", "elsie/boxtree/layout.py"], "SlideDeck.render, Slide.prepare, layout callbacks.")
P("R02", "Several slides per page are placed in reading order without loss",
  "With C columns and R rows, page k consists of exactly the pages k*C*R to k*C*R+C*R-1 of the ungrouped sequence, the j-th of them shifted right by (j mod C) slide widths and down by (j div C) slide heights on a page of C by R slides. No page is lost, repeated or reordered, included PDF pages keep their place, and one by one grouping changes nothing.",
  ["inputs"], "All numbers of pages, rows and columns and slide sizes, with or without included PDFs.",
  "All counts and grid sizes; the tests check one grid.",
  ["elsie/render/render.py", "elsie/slides/slidedeck.py"], "per_page_grouping loop with idx / limit.")
P("R03", "Every page is exported once and the output lists all pages in order",
  "The final document or list of exported files contains the export of every page exactly once and in page order, included PDF files contribute their pages at their place among the slides, and the requested format is used for every page; a PowerPoint export has one slide per page, in order, filled by the picture of the page. Post-processing sees the root boxes of the selected slides, in order, before they are laid out. A failed export is reported and not silently skipped.",
  ["inputs", "fault_sequences"], "All decks, selections, formats and merge tools.",
  "All unit sequences; tests check counts for a few decks.",
  ["elsie/slides/slidedeck.py", "elsie/slides/slide.py", "elsie/render/render.py", "elsie/render/pdfmerge.py"], "SlideDeck.render export loop, RenderUnit.export, pdf mergers.")
P("R04", "The name policy decides what happens to slides with equal names",
  "Under the \"unique\" policy creating a slide whose name exists fails and leaves the deck unchanged, and unnamed slides are allowed; under \"replace\" the earlier slide of that name disappears, the new one is last and all others keep their order, and a name is required; under \"ignore\" slides are always appended. The automatic policy is \"replace\" inside a notebook and \"ignore\" elsewhere. Included PDF files never interfere.",
  ["inputs", "histories"], "All policies and all sequences of slide creations and PDF inclusions.",
  "All creation histories; tests use two or three slides.",
  ["elsie/slides/slidedeck.py"], "SlideDeck.__init__/_apply_name_policy/get_slide_by_name/new_slide/add_pdf.")
P("R05", "The Inkscape session stays in step with its requests",
  "Every command sent to the drawing program is answered by the text it printed for exactly that command: answers are never shifted, split or mixed up with the prompt, however long they are or however they arrive. The document is opened before and closed after every measurement or export, even if that fails, an answer that is not a number is reported as an error, and if the program ends the call fails instead of hanging.",
  ["inputs", "fault_sequences"], "All answer texts and chunkings, all command sequences, program death at any point.",
  "Depends on the bytes the other process prints; tests use one well-behaved Inkscape.",
  ["elsie/render/inkscape.py"], "InkscapeShell.wait_for_prompt/run_command/run_query/convert_to_pdf, svg_file_input.")
P("J01", "A slide shown in a notebook has exactly its fragments, in order",
  "The page that is made for a slide (or a box of it) in a notebook, as SVG or PNG, contains every fragment of exactly that slide once, in order, each in an element with its number and with the content that rendering the slide gives. Controls are there exactly if the slide has several fragments; they start at the first one, always show exactly one fragment and its number, move by one within 1 to the number of fragments, are disabled at the ends, and affect only the fragments of their own page. Showing a slide leaves the cached files of the other slides in place and changes no other slide.",
  ["inputs", "histories"], "All numbers of fragments, both formats, all sequences of button presses, any number of slides in one notebook.",
  "tests/test_jupyter.py checks single regular expressions on one slide; order, numbering and the state of the controls depend on the number of fragments and the clicks.",
  ["elsie/render/jupyter.py", "elsie/slides/slide.py", "elsie/boxtree/box.py"],
  "get_slide_repr_steps, render_slide_html and get_javascript; Slide._repr_html_ and Box._repr_html_.")
# ---------------------------------------------------------------- ext
P("E01", "List items are numbered, labelled and indented by their place in the nesting",
  "The n-th item of a list started at s shows the counter s+n-1 behind the counters of the enclosing items at the time the sublist was made (or the given replacement levels), whatever is done to other lists in between. Labels come from the item, else from its list, else from the kind of the list; box arguments come from the call, else from the enclosing lists, and items appear with the current fragment by default. Counters of a list are changed only by adding items to that list.",
  ["inputs", "histories"], "All interleavings of item and sublist creation at any depth.",
  "Interleavings of nested builders are unbounded; tests check a few.",
  ["elsie/ext/list.py"], "ListBuilder.item/ul/ol/_create_sublist/_create_box and the level list.")
P("E02", "Markdown content appears completely, in order and in its own style",
  "Every heading, paragraph, quote, code block and list item of the supported Markdown subset appears exactly once and in document order, with all its text and its bold, italic and link sections in the respective style, headings in the style of their level, and list items in the list (ordered or not, at its start number) they belong to. Styles the box already defines take precedence over the built-in ones. Blank input gives an empty result instead of an error.",
  ["inputs"], "All documents of the supported subset.",
  "Documents are unbounded; tests compare a few drawings.",
  ["elsie/ext/markdown.py", "elsie/text/textparser.py"], "build_* functions over the marko tree, get_raw_text, create_root_md_box, trim_indent.")
# ---------------------------------------------------------------- shapes
P("G01", "Arrow heads sit at the ends of lines and lines are shortened to meet them",
  "An arrow head on a line has its tip exactly at the original end point, its two other corners at the arrow's size from the tip and at its angle on either side of the line's direction, and its inner point, if any, on the line. The line itself is shortened along its own direction, by half the head's depth (or half the stroke width for open heads), so that it keeps its direction and other end. Start and end arrows are treated alike and all other points of the line are unchanged.",
  ["inputs"], "All points, sizes, angles, widths and inner factors; lines of any number of points.",
  "Real-valued geometry; tests compare one drawing.",
  ["elsie/shapes/arrow.py", "elsie/utils/geom.py", "elsie/boxtree/boxmixin.py"], "Arrow.render/move_end_point, segment_resize, draw closure of BoxMixin.line.")
P("G02", "Paths keep every command and point; an arrow only moves the end",
  "A path is accepted exactly if every command is one of the supported ones with a whole multiple of its number of points, and is then drawn with exactly these commands and points in order, each point resolved relative to the box after layout. With an end arrow only the final point of the path changes, shortened along the direction from the point given before it, and the head is drawn at the original end; the given command list is never modified and drawing again gives the same result.",
  ["inputs", "histories"], "All command lists and points, repeated drawing.",
  "Command lists are unbounded; tests compare two drawings.",
  ["elsie/shapes/path.py", "elsie/boxtree/boxmixin.py"], "check_and_unpack_path_commands, eval_path_commands, path_points_for_end_arrow, path_update_end_point.")
# ---------------------------------------------------------------- cairo
P("K01", "The Cairo backend draws paths with SVG semantics",
  "A path drawn by the Cairo backend follows the same curve as the SVG path with the same commands: moves, lines and cubic curves through the same points, smooth curves with the control point reflected from the previous curve of the same kind (or the current point otherwise), and quadratic curves as the equal cubic ones.",
  ["inputs"], "All command lists and coordinates.",
  "All command sequences; tests compare images of two paths.",
  ["elsie/render/backends/cairo/shapes.py"], "draw_path with last control points, reflect, draw_quadratic_bezier.")
P("K02", "The Cairo backend places shapes and views where SVG would",
  "Rotation turns shapes clockwise about their own centre or centroid without moving it, an ellipse has the box's axes whichever is longer, and rounded rectangles stay inside their rectangle with the given radii limited to half its sides. A view box is scaled uniformly to fit the page and centred in it, and every drawing leaves the transformation as it found it, even if it fails.",
  ["inputs"], "All rectangles, angles, radii, points and view boxes.",
  "Real-valued geometry; tests compare a few images.",
  ["elsie/render/backends/cairo/draw.py", "elsie/render/backends/cairo/rcontext.py"], "transform, apply_viewbox, rounded_rectangle, ctx_scope, draw_* methods.")
P("K03", "The Cairo backend styles every character like the SVG backend does",
  "For every balanced parsed text the Cairo backend lays out exactly its characters and line breaks (with an invisible placeholder on empty lines), and every character is covered by the attributes of the composition of all enclosing sections, lower-priority sections having no effect and dummy sections none at all. The character range measured for a section is exactly the text of that section, also for characters of several bytes.",
  ["inputs"], "All balanced token sequences, style tables, priorities and characters.",
  "Token sequences are unbounded; tests compare a few images.",
  ["elsie/render/backends/cairo/text.py"], "get_text_and_attributes, get_byte_range.")
P("N01", "Concurrent requests to the file cache make each file once and all get it",
  "If several threads request files of one cache at the same time, each file is made once, by one of the requests, unless making it fails, and every request gets the path of the complete file, never of a missing or partial one. No request waits for ever, also if a producer fails, and files of different inputs made at the same time do not get mixed up. (Requests that ask not to wait are excluded.)",
  ["schedules", "inputs"], "All numbers of threads, schedules, inputs and failures of producers.",
  "Schedules are not controlled by any test; the tests use one thread.",
  ["elsie/utils/cache.py"], "FsCache.ensure: lock, table of files in progress, conditions.")
# ---------------------------------------------------------------- not applicable
P("N02", "Both backends and Inkscape itself turn the drawing into the same pixels",
  "The PDF and PNG pages show the same picture whichever backend produced them.",
  ["inputs", "configurations"], "All drawings, both backends.",
  "Needs the rasteriser of external programs; image comparisons sample a few drawings.",
  ["elsie/render/backends/cairo/rcontext.py", "elsie/render/inkscape.py"], "Inkscape, Cairo and Pango turn drawing commands into pixels.")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in OUT:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(OUT))
