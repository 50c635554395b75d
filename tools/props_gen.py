import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
V='victor/src/'
p('V01','Document tree links stay consistent under every edit',
 "Whatever sequence of insertions, removals, text insertions and moves of children the parser performs, the parent, sibling and child links of all nodes keep describing one ordered forest, and every operation changes exactly the lists of children that it says it changes, in order. Text inserted next to an existing text is added at the end of that text (and to no other node), and moving the children of a node moves all of them, in order.",
 ['histories'],'every sequence of tree operations on every document, with nodes that exist and children that are not ancestors of their new parent',
 'The tests parse a few dozen documents without misnested content; foster parenting, the adoption agency and re-parenting of several children are hardly run, and link damage only shows in later walks.',
 [V+'dom/mod.rs',V+'dom/html.rs'],[('links between nodes','Document::append, insert_before, detach'),('parser interface','TreeSink for Sink'),('merging of texts','Sink::append_common')])
p('V02','Walks over the document visit every node exactly once in document order',
 "Walking all the nodes of a document from its root visits exactly the nodes that are in the tree, each once, parents before children and siblings in order, and ends. Walking from a node to its ancestors or to its following siblings visits exactly those, nearest first, and the text content of an element is the concatenation of its child texts in order.",
 ['inputs'],'every well-formed tree and every starting node',
 'Tests only ever look at the link elements of small documents; whether the walk backtracks over several levels and stops at the root depends on the shape of the tree.',
 [V+'dom/mod.rs'],[('next node in tree order','Document::next_in_tree_order, nodes'),('walks','node_and_ancestors, node_and_following_siblings'),('text content','child_text_content, root_element')])
p('V03','Loading a font never panics, whatever its bytes',
 "Giving arbitrary bytes to the font loader either gives a font or an error: it never panics, overflows, reads outside of the data or runs forever. The same holds for every later query about characters and glyph metrics of a font that was accepted.",
 ['inputs'],'every byte sequence as a font file, every character and every glyph identifier',
 'The tests only load two well-formed fonts; truncated tables, out-of-range offsets, counts and glyph identifiers never occur.',
 [V+'fonts/parsing.rs',V+'fonts/mod.rs',V+'fonts/cmap.rs',V+'fonts/tables.rs'],[('checked reads','Position, Slice, ReadFromBytes'),('table directory','parse'),('character map','Cmap'),('metrics','Font::glyph_width')])
p('V04','Character lookups agree with the character map of the font',
 "For every character, the glyph found for it is the one that the selected character map subtable of the font assigns (first segment or group whose range contains the character, with the arithmetic that the format defines), and a character that the subtable does not map gives no glyph. Enumerating the map gives exactly the pairs of characters and glyphs that looking up every character gives.",
 ['inputs'],'every subtable of format 4 or 12 with segments in order, and every Unicode character',
 'The bundled fonts only use some of the ways to encode a map (no glyph array in some, no 32-bit groups), and the tests look up a few dozen characters.',
 [V+'fonts/cmap.rs',V+'fonts/tables.rs'],[('format 4','Format4::get, each_code_point'),('format 12','Format12::get, each_code_point'),('subtable choice','Cmap::parse')])
p('V05','Font metrics are read from the right place of the right table',
 "Every metric that a font reports (bounding box, ascent, descent, units per em and advance width of any glyph) is the big-endian number at the offset that the OpenType format gives for it in the table of that name, and glyphs past the last advance width have the last advance width. A lookup in the sorted table directory finds a table exactly when it is present, and walking an array of records gives its items in order, from both ends, without skipping or repeating any.",
 ['inputs'],'every well-formed font file and every glyph identifier',
 'One font family with one layout of tables is tested; fixed-pitch metrics arrays that are shorter than the glyph count, absent tables and reverse iteration do not occur there.',
 [V+'fonts/parsing.rs',V+'fonts/tables.rs',V+'fonts/mod.rs'],[('field offsets','static fields of tables'),('directory search','Slice::binary_search_by_key'),('iteration','SliceIter'),('metrics','Font::parse, glyph_width')])
p('V06','Shaping keeps one glyph per character and the exact total advance',
 "Shaping a text gives, for every character in order, the glyph that the font maps it to (or the missing-glyph glyph), and the advance width of the segment is always the sum of the advances of its glyphs. Going back to a saved state restores exactly the glyphs and the width that the segment had when the state was saved.",
 ['histories'],'every font, every text, every sequence of appending, saving and restoring',
 'Tests shape a few sentences and never look at the widths; the sum is only wrong after particular sequences of saves and restores.',
 [V+'text.rs'],[('shaping','ShapedSegment::append, append_char'),('backtracking','save, restore')])
p('V07','Plain text layout keeps every character and stays inside of the page width',
 "Laying out plain text puts every character that is not a line break on some page exactly once and in order, page after page and line after line. A line is never wider than the space between the side margins unless it holds a single unbreakable piece, and a line that is justified ends exactly at the end margin.",
 ['inputs','configurations'],'every text, page size, margins and font size for which the text area is not empty',
 'Only one book excerpt is laid out, at one page size; lines that just fit, long words and explicit breaks at page ends are not covered.',
 [V+'text_plain.rs'],[('line breaking and pages','layout'),('justification','Line')])
p('V08','PDF objects are written so that a reader gets back the same objects',
 "Every object written to a PDF file (null, booleans, numbers, names, strings, arrays, dictionaries, streams and references) reads back, by the PDF syntax rules, as the same object, whatever bytes its names and strings contain. Real numbers are always finite and have no exponent, and the length given for a stream is the number of bytes of its data.",
 ['inputs'],'every object that can be built, every byte in names and strings, every float',
 'The tests compare two whole files; delimiters, white space, number signs, backslashes, line ends and extreme numbers inside of names, strings and numbers do not occur there.',
 [V+'pdf/object.rs'],[('object syntax','Object::write'),('names and strings','write_name, write_literal_string'),('numbers','write_float')])
p('V09','The cross-reference table of a PDF locates every object',
 "In every PDF file that is produced, each entry of the cross-reference table that is in use gives the byte offset at which the object with that number begins, every object number is used at most once and every reference points to an object in the file. The trailer counts all entries, names the catalog and the document information, and the offset of the table at the end of the file is right.",
 ['inputs','histories'],'every sequence of adding objects, and every document',
 'Tests only compare two files with fixed content; offsets and numbering depend on the sizes of everything that comes before.',
 [V+'pdf/syntax.rs',V+'pdf/convert.rs'],[('offsets and numbering','PdfFile, BasicObjects, assign_indirect_object_id'),('table and trailer','finish')])
p('V10','Page content draws what was asked for, with the right graphics state',
 "The content of each page, interpreted by the PDF rules, paints the same rectangles and texts in the same order, with the same geometry (in pixels from the top left of the page) and the color, alpha, font and font size that are current for each. Every resource name that the content uses is defined in the page's resources with that meaning, whatever was drawn before on the same or on other pages.",
 ['histories'],'every sequence of drawing operations and color changes on every number of pages',
 'Two drawings are compared with stored files; redundant state elimination and sharing of resources only go wrong for particular sequences of colors, alphas and fonts.',
 [V+'pdf/convert.rs',V+'pdf/mod.rs'],[('state tracking','PageContent / InProgressPage: set_color, show_text, paint_rectangle'),('shared resources','InProgressDoc: add_font, alpha states')])
p('V11','Text in a PDF selects the right glyphs and stays searchable',
 "The glyph codes that a page shows select the glyphs of the text, in order, in an embedded copy of the exact font file, with the widths of the font scaled to thousandths of an em. The map from codes to Unicode that comes with each font is syntactically valid (blocks of at most 100 entries) and maps every glyph that some character selects back to a character that selects it.",
 ['inputs'],'every font that loads, every text of mapped characters',
 'Stored-file comparison covers a single font; block sizes, glyphs shared by several characters, characters outside of the basic plane and units-per-em other than that of the font are not covered.',
 [V+'pdf/convert.rs',V+'fonts/mod.rs'],[('glyph codes','show_text'),('ToUnicode and widths','add_font')])
p('V12','The cascade picks the declaration that CSS says wins',
 "For each element and property, the value comes from the declaration that wins by the rules of the CSS cascade: author rules over the user agent's, important over normal (with the user agent's important rules over the author's), then higher specificity, then later position. This does not depend on how rules are spread over style sheets, selector lists or declarations.",
 ['inputs'],'every set of rules and declarations that match an element',
 'The test documents hardly have two rules for the same element; order of rules, specificity ties and importance are combinatorial.',
 [V+'style/cascade.rs',V+'style/rules.rs',V+'style/declaration_block.rs'],[('order of rules','StyleSetBuilder::finish, style_for_element'),('importance','DeclarationBlock')])
p('V13','Declarations parse to the right properties and invalid ones change nothing',
 "A valid declaration sets exactly the property (or, for a shorthand, exactly the longhands) that it names to the declared values, with omitted values filled in as CSS defines, whatever the case of keywords and the white space and comments around it. An invalid or unknown declaration is dropped as a whole without affecting any other declaration, before or after it.",
 ['inputs'],'every declaration block',
 'Test documents only have valid, simple declarations; combinations of invalid declarations, importance flags and shorthands are not reached.',
 [V+'style/declaration_block.rs',V+'style/values/generic.rs',V+'style/properties/macros.rs',V+'style/values/length.rs',V+'style/values/border.rs'],[('declarations','LonghandDeclarationParser, DeclarationBlock::push'),('shorthands','FourSides, BorderSide, Background'),('values','Parse implementations')])
p('V14','Selectors match the elements that the Selectors specification says',
 "A style rule applies to an element exactly when one of its selectors matches it: type, universal, class, id and attribute selectors (with every operator), all four combinators, negation, and the structural pseudo-classes such as first-child, nth-child, empty and root. Matching looks only at elements, attributes and text of the document, not at comments or processing instructions.",
 ['inputs'],'every document tree, every selector made of these parts',
 'Test documents only use type selectors; navigation over text and comment nodes and attribute matching are not tested.',
 [V+'style/selectors.rs'],[('tree navigation and attributes','selectors::Element for NodeRef')])
p('V15','Computed values follow inheritance, initial values and unit conversion',
 "The computed value of each property is the cascaded one converted to pixels (em relative to the element's own font size, or to the parent's for the font size itself), or else the parent's computed value for inherited properties and for inherit, or else the initial value. Where CSS defines adjustments they hold: borders without a style have no width, and root, floating and absolutely positioned elements are block-level.",
 ['inputs'],'every chain of elements with every combination of declared values',
 'Test documents use pixels almost only, and one level of inheritance.',
 [V+'style/properties/mod.rs',V+'style/properties/macros.rs',V+'style/values/length.rs',V+'style/values/box_.rs',V+'style/values/border.rs',V+'style/values/fonts.rs'],[('cascade into computed values','ComputedValues::new'),('units','SpecifiedLength::to_computed'),('fix-ups','post_cascade_fixups / Display')])
p('V16','Logical and physical geometry convert into each other without loss',
 "For each writing mode and direction, converting sizes, sides, vectors and rectangles from physical to flow-relative coordinates follows the definition of CSS Writing Modes, and converting back gives the original. In the horizontal left-to-right mode, a rectangle keeps its size and stays at the same place of its container under conversion.",
 ['inputs'],'all values, all writing modes and directions',
 'Only horizontal left-to-right is ever exercised by the tests.',
 [V+'geom.rs',V+'style/values/writing_modes.rs'],[('conversions','flow_relative / physical: Vec2, Sides, Rect')])
p('V17','Block widths, margins and paddings always add up to the containing block',
 "For every block-level box in normal flow, the inline margins, borders, paddings and width add up to the width of its containing block: auto widths fill what remains, auto margins share what remains equally (and are not negative), and otherwise the end margin absorbs the difference. Percentages of margins, paddings and widths refer to the width of the containing block, and of heights to its height where that is known.",
 ['inputs'],'all combinations of lengths, percentages and auto for margins, paddings and width, in left-to-right documents with lengths that are not negative (margins may be)',
 'Reference tests cover one page of three boxes with fixed margins; the equation has eight combinations of auto and over-constrained cases.',
 [V+'layout/flow/mod.rs',V+'layout/mod.rs'],[('inline axis','layout_in_flow_non_replaced_block_level'),('percentages','percentages_relative_to, inline-relative paddings')])
p('V18','Absolutely positioned boxes satisfy the CSS positioning equations',
 "For an absolutely positioned box, offsets, margins, borders, paddings and size add up to the padding box of its containing block in both axes, with auto values resolved as CSS 2.1 (10.3.7 and 10.6.4) says: the static position when both offsets are auto, sizes from offsets, equal auto margins, and the end offset ignored when over-constrained. The containing block is that of the nearest positioned block-level ancestor, or else the page.",
 ['inputs'],'all combinations of auto, lengths and percentages of offsets, margins and sizes (except where a shrink-to-fit width would be needed), at any nesting depth',
 'Reference tests check half a dozen combinations out of several hundred, and one nesting of containing blocks.',
 [V+'layout/positioned.rs',V+'layout/fragments.rs'],[('constraint solving','AbsolutelyPositionedFragment, solve_axis'),('containing blocks','in_positioned_containing_block')])
p('V19','Vertical stacking collapses margins as CSS says',
 "Block-level boxes of a block container are stacked in order with adjoining vertical margins collapsed: the collapsed margin is the largest positive margin minus the largest absolute value of the negative ones, across siblings, across empty boxes, and through the top and bottom of parents without border or padding there. The automatic height of a block is the extent of its in-flow content, without the margins that collapse through its edges.",
 ['inputs'],'every tree of in-flow blocks with margins of any sign, paddings, borders and heights',
 'Reference tests have two sibling paragraphs; margins that collapse through empty boxes and several levels depend on the shape of the tree.',
 [V+'layout/flow/mod.rs',V+'layout/fragments.rs'],[('collapsing','CollapsedMargin, CollapsedBlockMargins, PlacementState'),('stacking','layout_block_level_children')])
p('V20','Inline content is broken into lines that fit, in order and without loss',
 "The texts of a block are put on lines in order; every line takes as much of a text as fits in the width that is available and breaks only at break opportunities of that text, no content is lost, repeated or reordered, and lines are stacked without overlap. Margins, borders and paddings of inline boxes take space at their start and end once, and not at line breaks.",
 ['inputs'],'every text, width, font size and nesting of inline boxes',
 'Reference tests have one single-line paragraph; breaking happens only for particular combinations of widths.',
 [V+'layout/flow/inline.rs',V+'text.rs'],[('line breaking','TextRun::layout'),('inline boxes over lines','InlineBox::start_layout, PartialInlineBoxFragment'),('lines','InlineNestingLevelState, LinesBoxes')])
p('V21','The box tree keeps all rendered text in document order, white space collapsed',
 "The rendered text of a document is the text of the elements that are displayed, in document order, with sequences of collapsible white space reduced to one space and removed at the start of a block; elements with display none and their descendants contribute nothing. Blocks inside of inline elements split the inline element around them without losing, repeating or reordering any content, and building boxes never fails.",
 ['inputs'],'every document with any mix of block, inline, contents and none as display values at any depth',
 'Test documents nest blocks and inlines in one way only; splitting and white space state carry over between many kinds of neighbours.',
 [V+'layout/flow/construct.rs',V+'layout/dom_traversal.rs',V+'layout/flow/root.rs'],[('box construction','BlockContainerBuilder'),('white space','handle_leading_whitespace, capture_whitespace'),('traversal','traverse_children_of, NonReplacedContents')])
p('V22','Painting shows every box at its place, in order, with its color',
 "Every box with a visible background is painted as one rectangle that covers its border box at its absolute position on the page, in the background color (where color keywords refer to the element's own color), parents before children and in document order. Every text is painted once, at its position, in the color and font size of its element, and boxes without visible background paint nothing.",
 ['inputs'],'every fragment tree: nesting depth, offsets, colors',
 'Three reference drawings check boxes at depth two; accumulated offsets only differ for deeper nests.',
 [V+'paint.rs',V+'layout/flow/root.rs'],[('painting','Fragment::paint_onto'),('page and canvas','Document::to_pdf_bytes')])
p('V23','Sizes and numbers passed to the C libraries are checked, never wrapped',
 "Converting a size or length for the C libraries gives the same number in the other type (of a floating-point number, its integer part) when it is within the limits of that type, and otherwise an error: never a wrapped, clamped or made-up value. This includes not-a-number, infinities and values just past the limits of the target type. The sizes of images and pages go through these conversions, so a size that the C library cannot take makes no image of another size.",
 ['inputs'],'every floating-point number and integer',
 'The tests convert a few sizes that all fit.',
 ['lester/src/convert.rs'],[('conversions','TryInto implementations')])
p('V24','Images survive a round trip through PNG and rendering errors are reported',
 "Writing an image as PNG and reading it back gives the same size and pixels, errors and panics of the caller's reader or writer come back to the caller instead of crossing the C library, and failed rendering is an error.",
 ['inputs','fault_sequences'],'every image size and content, every failing read or write',
 'The tests fail the first or a later call of a single small image.',
 ['lester/src/cairo.rs','lester/src/poppler.rs','lester/src/errors.rs'],[('callbacks','with_c_callback!'),('status checks','CairoError')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
