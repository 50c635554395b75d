PROPS = {
    'V01': dict(
        title='Document tree links stay consistent under every edit',
        units=['dom'], harness=['dom'], level='proof',
        note='All link-editing functions of the node arena and of the parser interface carry contracts over an abstract forest (ordered lists of children); Verus discharges them for every arena and operand. The harness runs random operation sequences on the real arena and is only used to find failing inputs.',
        bounded='sequences of at most 60 tree operations on the real arena, compared with lists of children',
        assumptions=['the HTML parser (html5ever) only passes identifiers of nodes that exist, never inserts a node below itself, and inserts before a node only if that node has a parent',
                     'StrTendril and String are modelled as sequences of characters'],
    ),
    'V02': dict(
        title='Walks over the document visit every node exactly once in document order',
        units=['dom_walk'], harness=['dom'], level='proof',
        note='The walks (all nodes, ancestors, following siblings), the text content and the choice of the root element carry contracts over the abstract forest of V01; std::iter::successors and Iterator::find_map are written out as verified code. lemma_pre_exact shows that the order walked has exactly the nodes of the tree, each once.',
        bounded='random trees of up to 60 operations on the real arena, every node as start of every walk',
        assumptions=['String and Cow<String> are modelled as sequences of characters; push_str on Cow::to_mut appends'],
    ),
    'V03': dict(
        title='Loading a font never panics, whatever its bytes',
        units=['fonts'], harness=['fontbytes'], level='proof', messages=r'overflow|underflow|precondition|decreases|division|bounds',
        note='Every function of the font reader (reads of numbers, positions, slices, their iterator, both searches, the table accessors, the table directory, both cmap formats, names and metrics) is verified to be free of overflow, of out-of-bounds reads and of non-terminating loops, for every byte sequence; errors are values. The harness changes bytes of generated and bundled fonts and queries everything.',
        bounded='generated fonts and the bundled font with up to 6 changed places; glyph and character queries at range limits',
        assumptions=['font files are shorter than 2^32 - 1 bytes', 'decoding of name strings (from_utf8_lossy, chunks) is not under contract: the harness runs it',
                     'conversion of integers to f32 and euclid arithmetic do not panic'],
        trusted=['array_of: reading n bytes through the pointer of a slice of length n', 'transmute of bytes to integers followed by from_be gives the big-endian number'],
    ),
    'V04': dict(
        title='Character lookups agree with the character map of the font',
        units=['fonts'], harness=['fontcmap'], level='proof', functions=r'cmap|glyph_id|binary_search',
        note='Format4 and Format12 lookups and enumerations are proved against the relation that the OpenType specification defines (lookup of ordered subtables by binary search, enumeration of any subtable), and Cmap::parse is proved to choose the last supported record. The closure that Cmap::each_code_point puts between the table and its caller (skips glyph 0 and surrogates) is only covered by the harness.',
        bounded='generated fonts with up to 4 subtables of up to 300 segments or groups; every range limit, 3 points per range, 50 random characters, and the whole enumeration',
        assumptions=['font files are shorter than 2^32 - 1 bytes', 'segments and groups are in order and within the file, as the format requires'],
        trusted=['array_of: reading n bytes through the pointer of a slice of length n', 'transmute of bytes to integers followed by from_be gives the big-endian number'],
    ),
    'V05': dict(
        title='Font metrics are read from the right place of the right table',
        units=['fonts'], harness=['fontmetrics'], level='proof', functions=r'tables|parsing|mod\.rs|types',
        note='Each generated accessor is proved to point to the offset of the OpenType specification (the macro-expanded crate is what is verified), each read to give the big-endian number, find_table to find a listed table of a sorted directory, Font::parse to take each metric from its table, glyph_width to repeat the last advance, SliceIter to give the items in order from both ends. Conversion to ems (f32 division) is left to the harness.',
        bounded='generated fonts with up to 12 further tables in random order; all metrics, names and about 50 glyphs per font',
        assumptions=['font files are shorter than 2^32 - 1 bytes', 'the derived order of Tag is that of its four bytes', 'integer to f32 conversion and division are as euclid and num_traits do them'],
        trusted=['array_of: reading n bytes through the pointer of a slice of length n', 'transmute of bytes to integers followed by from_be gives the big-endian number',
                 'sizes of the repr(C) table structures (global layout)'],
    ),
    'V06': dict(
        title='Shaping keeps one glyph per character and the exact total advance',
        units=['fonts'], harness=['shape'], level='proof', functions=r'text\.rs|glyph_id|glyph_width',
        note='append_char, append, naive_shape, save and restore are proved against the relation shapes(segment, text), on top of the proved contracts of Font::glyph_id and Font::glyph_width: one glyph per character, each the one of the character map, and the advance is the sum of the advances in order. Lengths are added by an uninterpreted operation, so the proof is about which advances are added in which order, and restoring gives the identical sum.',
        bounded='random fonts, sequences of up to 12 calls of up to 400 characters, with nested saved states',
        assumptions=['addition of f32 lengths has no effect but its result', 'try_for_each on an iterator of characters calls the closure for each until the first error', 'font files are shorter than 2^32 - 1 bytes'],
        trusted=['array_of and the transmutes of the font reader (see V03)'],
    ),
    'V07': dict(
        title='Plain text layout keeps every character and stays inside of the page width',
        units=['plain'], harness=['plain'], level='proof', functions=r'text_plain\.rs',
        note='All of text_plain.rs is under contract: the units, the closure that makes the pieces between two breaks, Rewind, and layout with its four loops (also that it ends). layout is proved to show the pieces of the text, each once and in order, on lines of consecutive pieces; each line starts at the margin, no line of several pieces is wider than the space between the margins, a line ends where a break is mandatory or where the next piece does not fit, a justified line ends exactly at the margin, lines follow each other by the line height on a page and pages follow each other; and the glyphs shown are, one after another, those of the text without its line feeds (lemma_all).',
        bounded='random texts of up to 800 words of letters, spaces, tabs and ideographs, random fonts, pages and margins; break opportunities by UAX #14 for these classes',
        assumptions=['the margins fit into the page (otherwise euclid has an assertion that fails)', 'f32 arithmetic is arithmetic of real numbers'],
        trusted=['xi_unicode::LineBreakIterator: increasing break positions between characters, a mandatory one at the end of a text, one after each line feed, none in the empty text', 'ShapedSegment::naive_shape (proved in unit fonts, V05)', 'pdf::Document and Page: texts are shown on the last page in order (proved in unit convert, V10); a dropped page is the next page of its document', 'lengths, scales, rectangles of euclid: bodies written out in plain_euclid.inc', 'str slices by byte offsets, trim_end_matches', 'Iterator::map as a struct with the extracted closure, Rewind with that iterator as its only type argument, Option::or_else as a match'],
    ),
    'V08': dict(
        title='PDF objects are written so that a reader gets back the same objects',
        units=['pdf'], harness=['pdfobject'], level='proof', functions=r'object\.rs',
        note='Object::write, Dictionary::write and everything below them are proved to write exactly the bytes of enc(object), for every nesting; lemmas show that a reader of the PDF syntax gets names, strings, hexadecimal strings and integers back from enc. The table of character kinds is proved to be the one of the PDF specification. The text of real numbers comes from dtoa and the standard formatter, which are not under contract: the harness reads them back.',
        bounded='random nested objects (depth up to 3), every byte in names and strings, every power of two as real number',
        assumptions=['dtoa and itoa write the decimal text of a number', 'a writer takes what write_all is given, or fails', 'termination of the two recursive writers (Object::write, write_pairs) is not proved'],
    ),
    'V09': dict(
        title='The cross-reference table of a PDF locates every object',
        units=['pdf'], harness=['pdffile', 'pdfpage'], level='proof', functions=r'syntax\.rs',
        note='PdfFile::write is proved to write exactly file_text: header, every object at the offset that its entry has, ten digits per offset, the trailer, startxref; lemmas show where an entry and an object are. The harness loads files by their cross-reference table and follows every reference.',
        bounded='files of up to 1000 objects and 10 MB; random documents of up to 4 pages',
        assumptions=['a file is shorter than 4 GiB', 'itoa writes the decimal text of a number', 'dictionaries that are written refer to numbers that add_stream and add_dictionary returned (callers: convert.rs, covered by the harness)'],
        trusted=['slice_to_10: the first ten bytes of an array of twenty'],
    ),
    'V10': dict(
        title='Page content draws what was asked for, with the right graphics state',
        units=['pdf', 'convert'], harness=['pdfpage'], level='proof', functions=r'convert\.rs|mod convert|pdf/mod\.rs|object\.rs|syntax\.rs',
        note='All of convert.rs and the public operations of pdf/mod.rs are under contract. The specification has an interpreter of content streams (the operators that are used, their operands, the graphics state, the current matrix): every operation is proved to append text that this interpreter reads as exactly the mark asked for, with the current color, a graphics state whose alpha is within 1/65535 of the one asked for, and, for texts, a font resource of that font; all earlier marks stay, and so does the meaning of every name (lemma_grows), on this and on other pages. new, set_color, set_alpha, add_font, paint_rectangle, show_text and Drop keep the invariant of the document (names are distinct, maps and resources agree), and InProgressDoc::write is proved to give the file of exactly these objects, with a page tree that lists the pages and defines all resources.',
        bounded='random documents of up to 4 pages of up to 60 calls, three fonts',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'fewer than 2^32 objects and a file of less than 2^32 bytes', 'a text of less than 2^28 glyphs', 'dropping a page adds it (Drop is checked as a function)'],
        trusted=['std HashMap (alpha states) as vstd specifies it', 'the map of fonts by address (HashMap<ByAddress<Arc<Font>>, String>, its entry API): two keys of the same address are the same font', 'accessors of Font (their relation to the bytes of the font is V03, V04, V05)', 'char::encode_utf16, write! and format! of numbers, `as u16` and `as i32` of floats', 'impl From<T> for T is the identity', 'std::io::Write for Vec appends'],
    ),
    'V11': dict(
        title='Text in a PDF selects the right glyphs and stays searchable',
        units=['pdf', 'convert'], harness=['pdftext'], level='proof', functions=r'add_font|show_text|object\.rs|syntax\.rs',
        note='show_text is proved to show the glyph numbers in order, two bytes each, in a font resource whose font is that of the text; add_font to make the four objects of the font: the exact bytes of its file, a descriptor, the map to Unicode and the font itself (with Identity-H and the width of every glyph in thousandths of an em), whose references agree (font_object), and to keep those of all other fonts. The map to Unicode (write_bfchar and the loop over each_code_point) is proved to be the text cmap_text: all pairs of characters and glyphs of the font in order, in blocks of 100 and a last one of at most 100, each with its own count, glyphs as four hexadecimal digits and characters in UTF-16.',
        bounded='random fonts (format 4 and 12) of up to 3000 glyphs',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'a text of less than 2^28 glyphs, fewer than 2^32 objects', 'each_code_point(f) calls f for what V04 checks: here, a loop over these pairs'],
        trusted=['std HashMap (alpha states) as vstd specifies it', 'the map of fonts by address (HashMap<ByAddress<Arc<Font>>, String>, its entry API): two keys of the same address are the same font', 'accessors of Font (their relation to the bytes of the font is V03, V04, V05)', 'char::encode_utf16, write! and format! of numbers, `as u16` and `as i32` of floats', 'impl From<T> for T is the identity', 'std::io::Write for Vec appends'],
    ),
    'V12': dict(
        title='The cascade picks the declaration that CSS says wins',
        units=['style'], harness=['cascade'], level='proof', functions=r'cascade\.rs|declaration_block|Phase for|mod cascade|if_early|if_late|is_early',
        note='style_for_element is proved to give the style of computed_style(style_order(…)): the last declaration for a property in the order user agent normal, author normal, author important, user agent important; within an origin in the order of the rules, which StyleSetBuilder::finish is proved to sort stably by specificity, with the style attribute behind all rules (lemma_winner_is_last: no later declaration is about the same property). The functions are the real ones, the ones that the properties! macro generates in their expanded form; each entry of the jump tables is a function with a contract.',
        bounded='random documents of up to 12 elements with up to 4 style sheets and style attributes, up to 8 rules of up to 6 declarations',
        assumptions=['cssparser gives the rules of a style sheet in order, and the selectors crate decides which elements a selector selects (V14)', 'the block of a rule or style attribute is well-formed (proved for V13: DeclarationBlock::parse)'],
        trusted=['<[T]>::sort_by_key is a stable sort', 'Arc::make_mut changes the value of this pointer only', 'smallvec::SmallVec behaves as Vec, SmallBitVec as a sequence of bits', 'jump tables dispatch on the tag of an enum with a fixed representation: the n-th entry is for the n-th variant', 'a lazy static has the value of its initializer', 'for_each and zip on slices are the sequential loops they are rewritten to'],
    ),
    'V13': dict(
        title='Declarations parse to the right properties and invalid ones change nothing',
        units=['parse'], harness=['declarations'], level='proof', functions=r'Parse for|declaration_block|property_data_by_name|ValueOrInitial|entry',
        note='DeclarationBlock::parse is proved to give exactly the declarations of declarations_of(sources): each declaration of the list contributes what declared_by says for its name and tokens (the property or the longhands of the shorthand, with the values that the grammar of that property finds, initial values for the parts that are left out, CSS-wide keywords for every longhand, the importance of `!important`), or nothing at all if the name is unknown, the value is not valid, or something is left over. Under contract: DeclarationBlock::parse, LonghandDeclarationParser::parse_value, the map property_data_by_name with each of its 39 closures (as functions, in macro-expanded form) and all Parse implementations, derived and written by hand. The assertions in the code are proved, and so is the well-formedness of a block that V12 relies on. The grammar in the contract has the three recorded deviations (order of four sides, negative sizes, percentages as border widths), so that they are not reported again.',
        bounded='random declaration blocks of up to 8 declarations, valid and broken, of every property',
        assumptions=['no color is also a line style or a line width (colors_differ)', 'f32 numbers of tokens are real numbers'],
        trusted=['the tokenizer of cssparser, Parser::state/reset/next, expect_exhausted, parse_important and Color::parse', 'DeclarationListParser gives parse_value a parser that ends with the declaration, for each declaration in order', 'the lookup in the perfect hash map, ASCII case-insensitive (rewritten to comparisons with the keys)', 'smallbitvec::SmallBitVec is a sequence of bits', 'derived Clone and Default'],
    ),
    'V14': dict(
        title='Selectors match the elements that the Selectors specification says',
        units=['selectors'], harness=['selectors'], level='proof',
        note='All that victor contributes to selector matching is under contract: `matches` hands the element to the selectors crate without quirks and without a Bloom filter, and every function of `impl selectors::Element for NodeRef` that the crate calls is proved to describe that element of that document: the parent element, the next and previous element siblings (find_element, with the step as a closure), root, emptiness, local name, namespace, link, id, classes (the words between ASCII white space) and attribute tests (some attribute with this local name, in this namespace, for which the operator holds). The statements are over the tree that the links of the arena form (the same forest relation as V01).',
        bounded='random documents of up to 25 nodes (elements, texts, comments), random selectors of up to 4 compounds',
        assumptions=['the nodes of a document form a forest (proved for V01)'],
        trusted=['the matching algorithm and the parser of the selectors crate', 'AttrSelectorOperation::eval_str and CaseSensitivity::eq of the selectors crate', 'two atoms of string_cache are equal iff their texts are', 'str::split, Iterator::any and Iterator::find', 'opaque() only identifies an element'],
    ),
    'V15': dict(
        title='Computed values follow inheritance, initial values and unit conversion',
        units=['style'], harness=['computed', 'boxtree'], level='proof', functions=r'style/values|mod values|mod definitions|properties/mod',
        note='ComputedValues::new is proved to give every longhand the declared value of its winner converted to a computed value (em relative to the font size of the element, or of the parent for font-size), or the inherited, or the initial value (tables written from the CSS specifications), for inherit, initial and unset too; then the adjustments of border widths and display. All conversions (FromSpecified, EarlyFromSpecified, From) and both jump tables are under contract in their macro-expanded form. That the root element is block-level is decided by the box tree, which the harness covers.',
        bounded='random documents of up to 12 elements with declarations of every longhand',
        assumptions=['f32 arithmetic is arithmetic of real numbers'],
        trusted=['Arc::make_mut changes the value of this pointer only', 'jump tables dispatch on the tag of an enum with a fixed representation: the n-th entry is for the n-th variant', 'a lazy static has the value of its initializer', 'RGBA::transparent of cssparser'],
    ),
    'V16': dict(
        title='Logical and physical geometry convert into each other without loss',
        units=['geom'], harness=['geom'], level='proof',
        note='All of geom.rs and the arithmetic of length.rs are under contract. The conversions are proved equal to the table of CSS Writing Modes (which physical side is start and end in each mode), and lemmas show that converting there and back gives the original. Rectangles only convert in the horizontal left-to-right mode; the other modes are not implemented there.',
        bounded='random values in every writing mode and direction',
        assumptions=['f32 arithmetic is arithmetic of real numbers (lengths that take part in rounding are not compared bit by bit)'],
    ),
    'V17': dict(
        title='Block widths, margins and paddings always add up to the containing block',
        units=['layout'], harness=['blocks'], level='proof', functions=r'length\.rs|geom\.rs|properties/mod\.rs|relative_adj|layout_in_flow|impl BlockLevelBox|layout/mod\.rs',
        note='layout_in_flow_non_replaced_block_level is proved to give margins, width and height that satisfy the equations of CSS 2.1 10.3.3 and 10.5 (css_block_width, css_height), for every style and containing block, on top of contracts for all of the arithmetic of lengths, sides and percentages; its callees get the containing block child_block, which fixes what percentages of descendants refer to. The harness lays out random documents and compares every painted rectangle with an independent model.',
        bounded='documents of up to about 25 elements, all combinations of auto, lengths and percentages',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'percentages of values refer to a finite containing block (root.rs gives the page)', 'termination of the recursion over the box tree is not proved (the tree is finite)',
                     'rayon\'s parallel iterators give the results of the sequential loops they are rewritten to', 'Option and closure combinators (or_else, map, unwrap_or_else) as in the listed rewrites'],
        trusted=['inline formatting contexts are an uninterpreted relation in this unit (their layout is proved in the unit inline, see V20)', 'replaced contents do not exist (their type is uninhabited)'],
    ),
    'V18': dict(
        title='Absolutely positioned boxes satisfy the CSS positioning equations',
        units=['layout'], harness=['abspos'], level='proof', functions=r'length\.rs|geom\.rs|properties/mod\.rs|positioned\.rs|layout_in_flow|layout_block_level_children|impl BlockLevelBox|BlockFormattingContext|layout/mod\.rs',
        note='AbsolutelyPositionedBox::layout, solve_axis, AbsolutelyPositionedFragment::layout, in_positioned_containing_block and adjust_static_positions are proved against the equations of CSS 2.1 10.3.7 and 10.6.4, and layout_in_flow_non_replaced_block_level to be the containing block of the boxes that its contents left behind exactly if it is relatively positioned. A width that needs shrink-to-fit is outside of the property. What an inline formatting context does with static positions, and the initial containing block of root.rs, is left to the harness.',
        bounded='documents of up to about 25 elements with positioned boxes at any depth, all combinations of auto, lengths and percentages of the offsets, margins and sizes',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'rayon\'s parallel iterators give the results of the sequential loops they are rewritten to', 'termination of the recursion over the box tree is not proved'],
        trusted=['inline formatting contexts are an uninterpreted relation in this unit (their layout is proved in the unit inline, see V20)', 'rest_mut: a mutable slice from an index on'],
    ),
    'V19': dict(
        title='Vertical stacking collapses margins as CSS says',
        units=['layout'], harness=['blocks'], level='proof', functions=r'fragments\.rs|length\.rs|layout_in_flow|layout_block_level_children|impl BlockLevelBox|BlockFormattingContext|BlockContainer',
        note='CollapsedMargin is proved to be the pair (largest positive, smallest negative) under adjoin and solve; place_block_level_fragment and layout_block_level_children to place each box at the end of the previous plus the collapsed margin (relations stacks and placed, with lemmas distance_of_boxes, first_box, end_of_boxes, leading_margins and open_margins that state the distances in closed form), and layout_in_flow_non_replaced_block_level to collapse with its children exactly where CSS 2.1 8.3.1 says, with the automatic height of 10.6.3.',
        bounded='documents of up to about 25 elements with margins of any sign, paddings, borders and heights',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'rayon\'s parallel iterators give the results of the sequential loops they are rewritten to (the merge of partial results is concatenation)', 'termination of the recursion over the box tree is not proved', 'floats and clearance are not implemented in this code base'],
        trusted=['inline formatting contexts are an uninterpreted relation in this unit (their layout is proved in the unit inline, see V20)', 'rest_mut: a mutable slice from an index on'],
    ),
    'V20': dict(
        title='Inline content is broken into lines that fit, in order and without loss',
        units=['inline', 'layout'], harness=['inlines'], level='proof', functions=r'inline\.rs|text\.rs|length\.rs|geom\.rs|fonts\.rs|properties/mod\.rs|relative_adj',
        note='All of inline layout is under contract: InlineFormattingContext::layout is proved, for every tree of inline boxes, texts and out-of-flow boxes and every width, to make the fragments of a deterministic model (inline_layout: the boxes are read in document order; put_text breaks lines; start and end place the sides of inline boxes; break_line repeats the open boxes on the next line without their sides), and lemmas over that model show that no character is lost, repeated or reordered (text_is_kept), that a piece of text ends only after a space or at the end, and that a line takes as much as fits. InlineBox::start_layout, PartialInlineBoxFragment::finish_layout, LinesBoxes::finish_line, TextRun::layout and ShapedSegment are each proved against their part of the model.',
        bounded='documents of up to about 25 elements with words of up to 6 characters, nested inline boxes with margins, borders and paddings',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'looking up glyphs and widths in the built-in font does not fail and always gives the same', 'an absolutely positioned box in inline content has a display value that generates a box (the box tree gives it no other)', 'the loops over the tree are not proved to end (the tree is finite)'],
        trusted=['box_and_inside, line_level: disjoint mutable references to neighbouring levels instead of the re-borrowed nesting_level of the loop over iter_mut().rev()', 'str::Chars (as_str, clone, next) is a position in a sequence of characters', 'Font::glyph_id and Font::glyph_width', 'f32 literals are their decimal values'],
    ),
    'V21': dict(
        title='The box tree keeps all rendered text in document order, white space collapsed',
        units=['boxes'], harness=['boxtree'], level='proof',
        note='The construction of boxes is under contract as a whole: for every document that is a finite tree, traverse_children_of and traverse_element are proved to walk it in document order and to leave out what has display none (events), BlockContainerBuilder to do step for each of them (text is collapsed against the last character on the lines; a block splits the open inline boxes around it), and BlockContainer::construct, IntermediateBlockLevelBox::finish, IndependentFormattingContext::construct and construct_for_root_element to give exactly these boxes, at every depth (built, made, root_made). Lemmas text_is_kept and white_space_collapses: no character other than white space is lost, repeated or moved, and white space is single spaces, never at the start of a block or behind a space. unimplemented!, expect and debug_assert! are proved not to be reached.',
        bounded='documents of up to about 40 elements with any mix of display values',
        assumptions=['the document is a finite tree (V01)', 'the cascade gives a style for every element (V12 to V15), never display: inline flow-root, which the parser of display does not know', 'there are no pseudo-elements and no replaced elements (both functions are stubs)', 'rayon\'s parallel iterators give the results of the sequential loop they are rewritten to', 'the recursion over the document is not proved to end (it is finite)', 'the contents of out-of-flow boxes in the middle of inline content are not followed further (bounded: the harness)'],
        trusted=['the inner function last_text of handle_text (Arc::get_mut of the last text)', 'BoxSlot, layout data and unset_boxes_in_subtree (which boxes an element remembers)', 'strings: positions of ASCII bytes are those of characters (starts_with, position, split_at, trim_start_matches, push, push_str, ends_with)', 'which style an anonymous box inherits'],
    ),
    'V22': dict(
        title='Painting shows every box at its place, in order, with its color',
        units=['paint'], harness=['paint'], level='proof',
        note='All of paint.rs is under contract: a fragment is proved to add exactly the marks of `shown` to the page (its own background at its border box, when not fully transparent, then its children in order, each relative to the content box of the fragment; a text at its baseline in its color and size), for trees of any depth, and to_pdf_bytes to give the file with one page of 600 by 800 that shows the fragments of the layout in order. Colors (to_rgba, From<cssparser::RGBA>), border_rect, to_physical and translate are proved too. What a page does with rectangles, texts and colors is the contract of pdf::Page, which V10 and V11 check.',
        bounded='documents of up to about 25 elements with backgrounds and colors',
        assumptions=['f32 arithmetic is arithmetic of real numbers', 'all anonymous fragments are in the horizontal left-to-right mode, the only one that ComputedValues::writing_mode gives (proved in V16)', 'dropping a page adds it to its document (Drop for InProgressPage): the implicit drop is made explicit'],
        trusted=['pdf::Page::set_color, paint_rectangle and show_text (the marks they make), pdf::Document', 'embedding a font that was loaded does not fail', 'euclid types are plain numbers', 'cssparser::RGBA::red_f32 and the others'],
        functions=r'paint\.rs|fragments\.rs|geom\.rs|primitives\.rs|length\.rs|fonts\.rs|to_rgba',
    ),
    'V23': dict(
        title='Sizes and numbers passed to the C libraries are checked, never wrapped',
        units=[], kani=['convert'], harness=['lester+convert:convert', 'lester:sizes'], level='proof',
        technique='contract-based deductive verification: function contracts on the real module, discharged by Kani (CBMC) for every number without bounds, with a bounded companion harness on the real crate for failing inputs',
        note='The four conversions of lester/src/convert.rs (the file itself is compiled, nothing is extracted) carry contracts that Kani discharges bit-precisely for every f64, usize, i32 and u32; there are no loops and no bounds. The callers in cairo.rs and poppler.rs call C libraries and are only covered by the harness, which makes images and renders pages of sizes around all limits.',
        bounded='images of up to 2 million pixels and all sizes that are too large; documents of more than 2 and 4 GiB',
        assumptions=['the callers use these conversions (bounded: the harness asks for images, pages and documents of sizes around the limits)', 'a 64-bit target'],
    ),
}
NOT_APPLICABLE = {
    'V24': 'What decides it is outside of any Rust verifier: encoding and decoding happen in libpng and cairo (C, linked as shared libraries), and catching a panic at the border to C (catch_unwind, resume_unwind, extern "C" callbacks through void pointers) is not modelled by Verus or Kani. A contract would have to assume the round trip that the property claims.',
}
