/// `Object::from(object)`
pub assume_specification<T>[ <T as From<T>>::from ](t: T) -> (r: T) ensures r == t;
pub assume_specification [std::string::String::into_bytes] (s: std::string::String) -> (r: std::vec::Vec<u8>) ensures r@ == utf8(s);
/// the bytes of a text
pub open spec fn utf8(s: String) -> Seq<u8> { vstd::utf8::encode_utf8(s@) }
// ---------------------------------------------------------------- euclid and primitives.rs
pub struct Em;
/// euclid::Length: a number with a unit
pub struct Measure<U>(pub F32, pub PhantomData<U>);
pub struct CssPx;
pub struct Point<U> { pub x: F32, pub y: F32, pub _unit: PhantomData<U> }
pub struct Size<U> { pub width: F32, pub height: F32, pub _unit: PhantomData<U> }
pub struct Rect<U> { pub origin: Point<U>, pub size: Size<U> }
//@@ item victor/src/primitives.rs | struct RGBA
//@@ attr #[derive(Clone, Copy)]
//@@ end
pub struct GlyphId(pub u16);
//@@ item victor/src/text.rs | struct ShapedSegment
//@@ sub /advance_width: Length</ => advance_width: Measure<
//@@ sub OPT /^struct/ => pub struct
//@@ end
//@@ item victor/src/primitives.rs | struct TextRun
//@@ sub /text::ShapedSegment/ => ShapedSegment
//@@ sub /font_size: Length</ => font_size: Measure<
//@@ end

// ---------------------------------------------------------------- fonts
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Font { x: u8 }
pub struct FontError;
/// see fonts/mod.rs for what these are in the file
impl Font {
    pub uninterp spec fn data(self) -> Seq<u8>;
    pub uninterp spec fn name(self) -> Seq<u8>;
    pub uninterp spec fn count(self) -> u16;
    /// in ems
    pub uninterp spec fn ascent(self) -> real;
    pub uninterp spec fn descent(self) -> real;
    pub uninterp spec fn left(self) -> real;
    pub uninterp spec fn bottom(self) -> real;
    pub uninterp spec fn right(self) -> real;
    pub uninterp spec fn top(self) -> real;
    pub uninterp spec fn width(self, glyph: int) -> real;
    /// the characters with glyphs, in the order of each_code_point
    pub uninterp spec fn mapping(self) -> Seq<(char, u16)>;
    #[verifier::external_body]
    pub fn bytes(&self) -> (r: &[u8]) ensures r@ == self.data() { unimplemented!() }
    #[verifier::external_body]
    pub fn postscript_name(&self) -> (r: &str) ensures r.spec_bytes() == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn glyph_count(&self) -> (r: u16) ensures r == self.count() { unimplemented!() }
    #[verifier::external_body]
    pub fn ascender(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.ascent() { unimplemented!() }
    #[verifier::external_body]
    pub fn descender(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.descent() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_x(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.left() { unimplemented!() }
    #[verifier::external_body]
    pub fn min_y(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.bottom() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_x(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.right() { unimplemented!() }
    #[verifier::external_body]
    pub fn max_y(&self) -> (r: Measure<Em>) ensures r.0.0@ == self.top() { unimplemented!() }
    #[verifier::external_body]
    pub fn glyph_width(&self, g: GlyphId) -> (r: Result<Measure<Em>, FontError>) ensures r matches Ok(w) ==> w.0.0@ == self.width(g.0 as int) { unimplemented!() }
    /// `each_code_point(f)`: what f is called with
    #[verifier::external_body]
    pub fn code_points(&self) -> (r: Result<Vec<(char, GlyphId)>, FontError>)
        ensures r matches Ok(v) ==> v@.len() == self.mapping().len() && forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == self.mapping()[i].0 && v@[i].1.0 == self.mapping()[i].1
    { unimplemented!() }
}
impl<U> Measure<U> { pub fn get(self) -> (r: F32) ensures r == self.0 { self.0 } }
pub open spec fn trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
pub open spec fn saturate(n: int) -> int { if n > i32::MAX { i32::MAX as int } else if n < i32::MIN { i32::MIN as int } else { n } }
/// of an em, in thousandths
pub open spec fn thousandths(x: real) -> int { saturate(trunc(x * 1000real)) }
/// `as i32`
#[verifier::external_body]
pub fn to_i32(x: F32) -> (r: i32) ensures r == saturate(trunc(x.0@)) { unimplemented!() }
impl<'a> vstd::std_specs::convert::FromSpecImpl<Measure<Em>> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Measure<Em>) -> Self { Object::I32(thousandths(v.0.0@) as i32) }
}
impl<'a> From<Measure<Em>> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<euclid::Length<f32, Em>> for Object<'a> :: from
//@@ sub /euclid::Length<f32, Em>/ => Measure<Em>
//@@ sub /\((value[^;{}]*?)\) as i32/ => to_i32(\1)
//@@ ret r
//@@ end
}

// ---------------------------------------------------------------- content streams (ISO 32000-1, 7.8.2)
/// operands
pub enum Val { Int(int), Num(F32), Name(Seq<u8>), Hex(Seq<u8>), Other(Seq<u8>) }
pub open spec fn val(o: Object) -> Val {
    match o {
        Object::I32(n) => Val::Int(n as int),
        Object::Usize(n) => Val::Int(n as int),
        Object::Float(x) => Val::Num(x),
        Object::Name(s) => Val::Name(s@),
        Object::HexString(s) => Val::Hex(s@),
        o => Val::Other(enc(o)),
    }
}
pub open spec fn val_text(v: Val) -> Seq<u8> {
    match v {
        Val::Int(n) => int_text(n),
        Val::Num(x) => float_text(x),
        Val::Name(s) => enc_name(s),
        Val::Hex(s) => BYTES("<") + hex_text(s) + BYTES(">"),
        Val::Other(t) => t,
    }
}
/// an operator and its operands
pub struct Op { pub args: Seq<Val>, pub name: Seq<u8> }
pub open spec fn args_text(a: Seq<Val>) -> Seq<u8> decreases a.len() {
    if a.len() == 0 { seq![] } else { args_text(a.drop_last()) + val_text(a.last()) + seq![32u8] }
}
pub open spec fn op_text(o: Op) -> Seq<u8> { args_text(o.args) + o.name + seq![10u8] }
/// the text of a content stream
pub open spec fn stream_of(ops: Seq<Op>) -> Seq<u8> decreases ops.len() {
    if ops.len() == 0 { seq![] } else { stream_of(ops.drop_last()) + op_text(ops.last()) }
}
/// a content stream, and then some operands
#[verifier::opaque]
pub open spec fn text_is(t: Seq<u8>, ops: Seq<Op>, args: Seq<Val>) -> bool { t == stream_of(ops) + args_text(args) }
pub proof fn lemma_operand(t: Seq<u8>, ops: Seq<Op>, args: Seq<Val>, o: Object)
    requires text_is(t, ops, args)
    ensures text_is((t + enc(o)).push(32), ops, args.push(val(o)))
{
    reveal(text_is);
    assert(val_text(val(o)) == enc(o));
    assert(args.push(val(o)).drop_last() =~= args);
    assert((t + enc(o)).push(32) =~= stream_of(ops) + args_text(args.push(val(o))));
}
pub proof fn lemma_operator(t: Seq<u8>, ops: Seq<Op>, args: Seq<Val>, name: Seq<u8>)
    requires text_is(t, ops, args)
    ensures text_is((t + name).push(10), ops.push(Op { name, args }), Seq::empty()), run(ops.push(Op { name, args })) == step(run(ops), Op { name, args })
{
    reveal(text_is);
    let o = Op { name, args };
    assert(ops.push(o).drop_last() =~= ops);
    assert((t + name).push(10) =~= stream_of(ops.push(o)) + args_text(Seq::empty()));
}
pub fn append(v: &mut Vec<u8>, b: &[u8]) ensures final(v)@ == old(v)@ + b@ { v.extend_from_slice(b); assert(v@ =~= old(v)@ + b@); }
pub proof fn lemma_nothing() ensures text_is(Seq::empty(), Seq::empty(), Seq::empty()) { reveal(text_is); }

// ---------------------------------------------------------------- what a content stream draws (8.4, 8.5, 9.4)
pub enum Operator { ConcatMatrix, GraphicsState, Rectangle, Fill, Rgb, BeginText, EndText, FontSize, TextMatrix, Show, Unknown }
pub open spec fn operator(n: Seq<u8>) -> Operator {
    if n == BYTES("cm") { Operator::ConcatMatrix }
    else if n == BYTES("gs") { Operator::GraphicsState }
    else if n == BYTES("re") { Operator::Rectangle }
    else if n == BYTES("f") { Operator::Fill }
    else if n == BYTES("rg") { Operator::Rgb }
    else if n == BYTES("BT") { Operator::BeginText }
    else if n == BYTES("ET") { Operator::EndText }
    else if n == BYTES("Tf") { Operator::FontSize }
    else if n == BYTES("Tm") { Operator::TextMatrix }
    else if n == BYTES("Tj") { Operator::Show }
    else { Operator::Unknown }
}
pub proof fn lemma_operators()
    ensures
        operator(BYTES("cm")) == Operator::ConcatMatrix, operator(BYTES("gs")) == Operator::GraphicsState, operator(BYTES("re")) == Operator::Rectangle,
        operator(BYTES("f")) == Operator::Fill, operator(BYTES("rg")) == Operator::Rgb, operator(BYTES("BT")) == Operator::BeginText,
        operator(BYTES("ET")) == Operator::EndText, operator(BYTES("Tf")) == Operator::FontSize, operator(BYTES("Tm")) == Operator::TextMatrix,
        operator(BYTES("Tj")) == Operator::Show,
{
    REVEAL("cm"); REVEAL("gs"); REVEAL("re"); REVEAL("f"); REVEAL("rg"); REVEAL("BT"); REVEAL("ET"); REVEAL("Tf"); REVEAL("Tm"); REVEAL("Tj");
    let all = seq![BYTES("cm"), BYTES("gs"), BYTES("re"), BYTES("f"), BYTES("rg"), BYTES("BT"), BYTES("ET"), BYTES("Tf"), BYTES("Tm"), BYTES("Tj")];
    assert(BYTES("cm")[0] == 99 && BYTES("gs")[0] == 103 && BYTES("re")[0] == 114 && BYTES("re")[1] == 101 && BYTES("f")[0] == 102 && BYTES("rg")[0] == 114 && BYTES("rg")[1] == 103);
    assert(BYTES("BT")[0] == 66 && BYTES("ET")[0] == 69 && BYTES("Tf")[0] == 84 && BYTES("Tf")[1] == 102 && BYTES("Tm")[0] == 84 && BYTES("Tm")[1] == 109 && BYTES("Tj")[0] == 84 && BYTES("Tj")[1] == 106);
}
/// a b c d e f
pub type Matrix = Seq<real>;
pub enum Mark {
    /// a rectangle in user space
    Fill { x: real, y: real, width: real, height: real, color: (real, real, real), state: Option<Seq<u8>>, ctm: Seq<Matrix> },
    /// codes of glyphs, from the origin of text space
    Text { codes: Seq<u8>, font: Seq<u8>, size: real, matrix: Matrix, color: (real, real, real), state: Option<Seq<u8>>, ctm: Seq<Matrix> },
}
pub struct Drawn {
    /// matrices from user space to that of the page, the last one applies first
    pub ctm: Seq<Matrix>,
    pub color: (real, real, real),
    /// the last graphics state (a name of a resource)
    pub state: Option<Seq<u8>>,
    pub path: Option<(real, real, real, real)>,
    pub in_text: bool,
    pub font: Option<(Seq<u8>, real)>,
    pub matrix: Option<Matrix>,
    pub marks: Seq<Mark>,
    /// every operator is known, where it may be, and has operands of the right types
    pub valid: bool,
}
pub open spec fn is_num(v: Val) -> bool { v is Int || v is Num }
pub open spec fn real_of(v: Val) -> real { match v { Val::Int(n) => n as real, Val::Num(x) => x.0@, _ => 0real } }
pub open spec fn numbers(a: Seq<Val>, n: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> is_num(#[trigger] a[i]) }
pub open spec fn reals(a: Seq<Val>) -> Seq<real> { a.map_values(|v: Val| real_of(v)) }
pub open spec fn nothing() -> Drawn {
    Drawn { ctm: seq![], color: (0real, 0real, 0real), state: None, path: None, in_text: false, font: None, matrix: None, marks: seq![], valid: true }
}
pub open spec fn step(d: Drawn, o: Op) -> Drawn {
    let a = o.args;
    let bad = Drawn { valid: false, ..d };
    match operator(o.name) {
        // a path that is begun is painted next
        Operator::Fill => match d.path {
            Some(p) if a.len() == 0 => Drawn { path: None, marks: d.marks.push(Mark::Fill { x: p.0, y: p.1, width: p.2, height: p.3, color: d.color, state: d.state, ctm: d.ctm }), ..d },
            _ => bad,
        },
        _ if d.path is Some => bad,
        Operator::ConcatMatrix => if numbers(a, 6) && !d.in_text { Drawn { ctm: d.ctm.push(reals(a)), ..d } } else { bad },
        Operator::GraphicsState => match a { _ if a.len() == 1 && a[0] is Name => Drawn { state: Some(a[0]->Name_0), ..d }, _ => bad },
        Operator::Rectangle => if numbers(a, 4) && !d.in_text { Drawn { path: Some((real_of(a[0]), real_of(a[1]), real_of(a[2]), real_of(a[3]))), ..d } } else { bad },
        Operator::Rgb => if numbers(a, 3) { Drawn { color: (real_of(a[0]), real_of(a[1]), real_of(a[2])), ..d } } else { bad },
        Operator::BeginText => if a.len() == 0 && !d.in_text { Drawn { in_text: true, matrix: None, ..d } } else { bad },
        Operator::EndText => if a.len() == 0 && d.in_text { Drawn { in_text: false, matrix: None, ..d } } else { bad },
        Operator::FontSize => if a.len() == 2 && a[0] is Name && is_num(a[1]) { Drawn { font: Some((a[0]->Name_0, real_of(a[1]))), ..d } } else { bad },
        Operator::TextMatrix => if numbers(a, 6) && d.in_text { Drawn { matrix: Some(reals(a)), ..d } } else { bad },
        // the matrix after a text is not followed
        Operator::Show => if a.len() == 1 && a[0] is Hex && d.in_text && d.font is Some && d.matrix is Some {
            Drawn { matrix: None, marks: d.marks.push(Mark::Text { codes: a[0]->Hex_0, font: (d.font->0).0, size: (d.font->0).1, matrix: d.matrix->0, color: d.color, state: d.state, ctm: d.ctm }), ..d }
        } else { bad },
        Operator::Unknown => bad,
    }
}
pub open spec fn run(ops: Seq<Op>) -> Drawn decreases ops.len() {
    if ops.len() == 0 { nothing() } else { step(run(ops.drop_last()), ops.last()) }
}

// ---------------------------------------------------------------- the constants
/// 96 pixels or 72 points are an inch
pub open spec fn pt_per_px() -> real { 72real / 96real }
//@@ gsub /(?<!const )(?<!fn )\b(PT_PER_INCH|PX_PER_INCH|PT_PER_PX|CSS_TO_PDF_SCALE_X|CSS_TO_PDF_SCALE_Y)\b(?!:)/ => \1()
//@@ item victor/src/pdf/convert.rs | const PT_PER_INCH
//@@ sub /const (\w+): f32 = (.*?);.*/ => pub fn \1() -> (r: f32) ensures r.0@ == 72real { \2 }
//@@ end
//@@ item victor/src/pdf/convert.rs | const PX_PER_INCH
//@@ sub /const (\w+): f32 = (.*?);.*/ => pub fn \1() -> (r: f32) ensures r.0@ == 96real { \2 }
//@@ end
//@@ item victor/src/pdf/convert.rs | const PT_PER_PX
//@@ sub /const (\w+): f32 = (.*?);.*/ => pub fn \1() -> (r: f32) ensures r.0@ == pt_per_px() { \2 }
//@@ end
//@@ item victor/src/pdf/convert.rs | const CSS_TO_PDF_SCALE_X
//@@ sub /const (\w+): f32 = (.*?);.*/ => pub fn \1() -> (r: f32) ensures r.0@ == pt_per_px() { \2 }
//@@ end
//@@ item victor/src/pdf/convert.rs | const CSS_TO_PDF_SCALE_Y
//@@ sub /const (\w+): f32 = (.*?);.*/ => pub fn \1() -> (r: f32) ensures r.0@ == -pt_per_px() { \2 }
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const CURRENT_TRANSFORMATION_MATRIX
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("cm") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const EXTENDED_GRAPHICS_STATE
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("gs") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const RECTANGLE
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("re") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const FILL
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("f") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const NON_STROKING_RGB_COLOR
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("rg") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const BEGIN_TEXT
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("BT") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const END_TEXT
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("ET") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const TEXT_FONT_AND_SIZE
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("Tf") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const TEXT_MATRIX
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("Tm") { \2 }
//@@ bytes
//@@ end
//@@ item @expanded | mod pdf :: mod convert :: const SHOW_TEXT
//@@ sub /const (\w+): &'static str = ("[^"]*");/ => pub fn \1() -> (r: &'static str) ensures r.spec_bytes() == BYTES("Tj") { \2 }
//@@ bytes
//@@ end
//@@ gsub /Object::from\((Object::\w+\((?:[^()]|\([^()]*\))*\))\)/ => \1
//@@ gsub /(Object::(?:from|HexString)\((?:[^()]|\([^()]*\))*\))\.write\(&mut (\w+)\.operations\)\.unwrap\(\);(\s*\2\.operations\.push\([^()]*\);)?/ => { let o_ = \1; let ghost text_ = \2.operations@; o_.write(&mut \2.operations).unwrap(); \3 proof { lemma_operand(text_, \2.ops@, \2.args@, o_); } \2.args = Ghost(\2.args@.push(val(o_))); assert(text_is(\2.operations@, \2.ops@, \2.args@)); }
//@@ gsub /(\w+)\.operations\.extend\(str::as_bytes\((\w+)\)\);(\s*\1\.operations\.push\([^()]*\);)?/ => { let op_ = str::as_bytes(\2()); let ghost text_ = \1.operations@; append(&mut \1.operations, op_); \3 proof { lemma_operator(text_, \1.ops@, \1.args@, op_@); } \1.ops = Ghost(\1.ops@.push(Op { name: op_@, args: \1.args@ })); \1.args = Ghost(Seq::empty()); assert(text_is(\1.operations@, \1.ops@, \1.args@)); }
//@@ gsub /&\*(\w+_key)\b/ => \1.as_str()
// ---------------------------------------------------------------- the dictionaries
pub open spec fn pair(key: Seq<u8>, value: Seq<u8>) -> Seq<u8> { BYTES(" ") + enc_name(key) + BYTES(" ") + value }
pub open spec fn reference(id: int) -> Seq<u8> { int_text(id) + BYTES(" 0 R") }
pub open spec fn em_text(x: real) -> Seq<u8> { int_text(thousandths(x)) }
pub open spec fn real_text(x: real) -> Seq<u8> { float_text(fl(x)) }
pub open spec fn page_text(content: int, width: real, height: real) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("Page"))) + pair(BYTES("Parent"), reference(1)) + pair(BYTES("Contents"), reference(content))
        + pair(BYTES("MediaBox"), BYTES("[") + (int_text(0) + BYTES(" ") + int_text(0) + BYTES(" ") + real_text(width) + BYTES(" ") + real_text(height)) + BYTES("]")) + BYTES(" >>")
}
pub open spec fn descriptor_text(f: Font, file: int) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("FontDescriptor"))) + pair(BYTES("FontName"), enc_name(f.name()))
        + pair(BYTES("FontBBox"), BYTES("[") + (em_text(f.left()) + BYTES(" ") + em_text(f.bottom()) + BYTES(" ") + em_text(f.right()) + BYTES(" ") + em_text(f.top())) + BYTES("]"))
        + pair(BYTES("Ascent"), em_text(f.ascent())) + pair(BYTES("Descent"), em_text(f.descent())) + pair(BYTES("FontFile2"), reference(file))
        + pair(BYTES("ItalicAngle"), int_text(0)) + pair(BYTES("Flags"), int_text(4)) + pair(BYTES("CapHeight"), em_text(f.top()))
        + pair(BYTES("StemV"), int_text(80)) + pair(BYTES("StemH"), int_text(80)) + BYTES(" >>")
}
/// the widths of the first n glyphs
pub open spec fn widths(f: Font, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else if n == 1 { em_text(f.width(0)) } else { widths(f, n - 1) + BYTES(" ") + em_text(f.width(n - 1)) }
}
pub open spec fn descendant_text(f: Font, descriptor: int) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("Font"))) + pair(BYTES("Subtype"), enc_name(BYTES("CIDFontType2"))) + pair(BYTES("BaseFont"), enc_name(f.name()))
        + pair(BYTES("CIDSystemInfo"), BYTES("<<") + pair(BYTES("Registry"), BYTES("(") + lit_text(BYTES("Adobe")) + BYTES(")")) + pair(BYTES("Ordering"), BYTES("(") + lit_text(BYTES("Identity")) + BYTES(")"))
            + pair(BYTES("Supplement"), int_text(0)) + BYTES(" >>"))
        + pair(BYTES("FontDescriptor"), reference(descriptor))
        + pair(BYTES("W"), BYTES("[") + (int_text(0) + BYTES(" ") + (BYTES("[") + widths(f, f.count() as int) + BYTES("]"))) + BYTES("]")) + BYTES(" >>")
}
pub open spec fn font_text(f: Font, descriptor: int, to_unicode: int) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("Font"))) + pair(BYTES("Subtype"), enc_name(BYTES("Type0"))) + pair(BYTES("BaseFont"), enc_name(f.name()))
        + pair(BYTES("ToUnicode"), reference(to_unicode)) + pair(BYTES("Encoding"), enc_name(BYTES("Identity-H")))
        + pair(BYTES("DescendantFonts"), BYTES("[") + descendant_text(f, descriptor) + BYTES("]")) + BYTES(" >>")
}
/// a stream with these pairs in its dictionary
pub open spec fn stream_with(pairs: Seq<u8>, contents: Seq<u8>) -> Seq<u8> {
    BYTES("<<") + pairs + BYTES(" ") + enc_name(BYTES("Length")) + BYTES(" ") + int_text(contents.len() as int) + BYTES(" >>") + BYTES("\nstream\n") + contents + BYTES("\nendstream")
}
pub open spec fn file_stream(f: Font) -> Seq<u8> { stream_with(pair(BYTES("Length1"), int_text(f.data().len() as int)), f.data()) }
// ---- the map to Unicode (9.10.3)
pub open spec fn low_hex(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (87 + n) as u8 } }
pub open spec fn hex4(n: u16) -> Seq<u8> { seq![low_hex(n as int / 4096), low_hex(n as int / 256 % 16), low_hex(n as int / 16 % 16), low_hex(n as int % 16)] }
pub open spec fn utf16(c: char) -> Seq<u16> {
    let n = c as u32 as int;
    if n < 0x10000 { seq![n as u16] } else { seq![(0xD800 + (n - 0x10000) / 0x400) as u16, (0xDC00 + (n - 0x10000) % 0x400) as u16] }
}
pub open spec fn units_text(u: Seq<u16>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { units_text(u, n - 1) + hex4(u[n - 1]) } }
pub open spec fn map_line(c: char, g: u16) -> Seq<u8> { BYTES("<") + hex4(g) + BYTES("> <") + units_text(utf16(c), utf16(c).len() as int) + BYTES(">\n") }
/// entries from i, up to j
pub open spec fn map_lines(m: Seq<(char, u16)>, i: int, j: int) -> Seq<u8> decreases j - i { if j <= i { seq![] } else { map_lines(m, i, j - 1) + map_line(m[j - 1].0, m[j - 1].1) } }
/// at most 100
pub open spec fn map_block(m: Seq<(char, u16)>, i: int, j: int) -> Seq<u8> { int_text(j - i) + BYTES(" beginbfchar\n") + map_lines(m, i, j) + BYTES("endbfchar\n") }
/// the first n blocks, of 100 entries each
pub open spec fn map_blocks(m: Seq<(char, u16)>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { map_blocks(m, n - 1) + map_block(m, 100 * (n - 1), 100 * n) } }
/// all entries: full blocks, and one with the rest
pub open spec fn map_all(m: Seq<(char, u16)>) -> Seq<u8> {
    let n = (m.len() - 1) / 100;
    if m.len() == 0 { seq![] } else { map_blocks(m, n) + map_block(m, 100 * n, m.len() as int) }
}
pub open spec fn cmap_text(f: Font) -> Seq<u8> {
    BYTES("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo\n<< /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n<0000> <ffff>\nendcodespacerange\n")
        + map_all(f.mapping())
        + BYTES("endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend")
}
/// o refers to an object for this font
pub open spec fn font_object(objs: Seq<Seq<u8>>, o: Object, f: Font) -> bool {
    &&& o is Reference
    &&& 7 <= o->Reference_0.0 < objs.len() + 4
    &&& objs[o->Reference_0.0 - 4] == font_text(f, o->Reference_0.0 - 2, o->Reference_0.0 - 1)
    &&& objs[o->Reference_0.0 - 5] == stream_with(seq![], cmap_text(f))
    &&& objs[o->Reference_0.0 - 6] == descriptor_text(f, o->Reference_0.0 - 3)
    &&& objs[o->Reference_0.0 - 7] == file_stream(f)
}
pub open spec fn chain(s: Seq<(&[u8], Object)>) -> Seq<u8> {
    if s.len() == 0 { seq![] }
    else if s.len() == 1 { enc_pair(s[0]) }
    else if s.len() == 2 { enc_pair(s[0]) + enc_pair(s[1]) }
    else if s.len() == 3 { enc_pair(s[0]) + enc_pair(s[1]) + enc_pair(s[2]) }
    else if s.len() == 4 { enc_pair(s[0]) + enc_pair(s[1]) + enc_pair(s[2]) + enc_pair(s[3]) }
    else if s.len() == 6 { enc_pair(s[0]) + enc_pair(s[1]) + enc_pair(s[2]) + enc_pair(s[3]) + enc_pair(s[4]) + enc_pair(s[5]) }
    else if s.len() == 11 { enc_pair(s[0]) + enc_pair(s[1]) + enc_pair(s[2]) + enc_pair(s[3]) + enc_pair(s[4]) + enc_pair(s[5]) + enc_pair(s[6]) + enc_pair(s[7]) + enc_pair(s[8]) + enc_pair(s[9]) + enc_pair(s[10]) }
    else { enc_pairs(s, s.len() as int) }
}
pub open spec fn chain_items(s: Seq<Object>) -> Seq<u8> {
    if s.len() == 1 { enc(s[0]) }
    else if s.len() == 2 { enc(s[0]) + BYTES(" ") + enc(s[1]) }
    else if s.len() == 4 { enc(s[0]) + BYTES(" ") + enc(s[1]) + BYTES(" ") + enc(s[2]) + BYTES(" ") + enc(s[3]) }
    else { enc_items(s, s.len() as int) }
}
#[verifier::spinoff_prover]
pub proof fn lemma_chain(s: Seq<(&[u8], Object)>) ensures enc_pairs(s, s.len() as int) == chain(s)
{
    hide(enc); hide(enc_pair);
    assert(enc_pairs(s, 0) == Seq::<u8>::empty());
    if s.len() >= 1 { lemma_enc_pairs_1(s); }
    if s.len() >= 2 { lemma_enc_pairs_step(s, 2); }
    if s.len() >= 3 { lemma_enc_pairs_step(s, 3); }
    if s.len() >= 4 { lemma_enc_pairs_step(s, 4); }
    if s.len() >= 5 { lemma_enc_pairs_step(s, 5); }
    if s.len() >= 6 { lemma_enc_pairs_step(s, 6); }
    if s.len() >= 7 { lemma_enc_pairs_step(s, 7); }
    if s.len() >= 8 { lemma_enc_pairs_step(s, 8); }
    if s.len() >= 9 { lemma_enc_pairs_step(s, 9); }
    if s.len() >= 10 { lemma_enc_pairs_step(s, 10); }
    if s.len() >= 11 { lemma_enc_pairs_step(s, 11); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_chain_items(s: Seq<Object>) ensures enc_items(s, s.len() as int) == chain_items(s)
{
    hide(enc);
    if s.len() >= 1 { lemma_item_1(s); }
    assert(enc_items(s, 0) =~= Seq::<u8>::empty());
    if s.len() >= 2 { lemma_item(s, 2); }
    if s.len() >= 3 { lemma_item(s, 3); }
    if s.len() >= 4 { lemma_item(s, 4); }
}
pub proof fn lemma_item(s: Seq<Object>, n: int) requires 2 <= n <= s.len() ensures enc_items(s, n) == enc_items(s, n - 1) + BYTES(" ") + enc(s[n - 1]) {}
pub proof fn lemma_item_1(s: Seq<Object>) requires s.len() >= 1 ensures enc_items(s, 1) == enc(s[0]) {}
pub mod dictionaries {
use super::*;
pub broadcast proof fn lemma_dict(d: Dictionary)
    ensures d.prev is None ==> #[trigger] enc_dict(d) == BYTES("<<") + chain(d.pairs@) + BYTES(" >>")
{ if d.prev is None { lemma_no_prev(d); lemma_chain(d.pairs@); } }
pub broadcast proof fn lemma_array(s: &[Object]) ensures #[trigger] enc(Object::Array(s)) == BYTES("[") + chain_items(s@) + BYTES("]") { lemma_chain_items(s@); }
pub broadcast proof fn lemma_stream_text(d: Dictionary, c: Seq<u8>)
    ensures d.prev is None ==> #[trigger] stream_text(d, c) == stream_with(chain(d.pairs@), c)
{ if d.prev is None { lemma_no_prev(d); lemma_chain(d.pairs@); } }
pub broadcast group dictionaries { lemma_dict, lemma_array, lemma_stream_text }
}
// ---------------------------------------------------------------- the document
/// a map whose keys are the addresses of fonts: here only that, of the same address, is the same font
pub struct FontMap { pub entries: Ghost<Seq<(Font, Seq<u8>)>> }
//@@ item victor/src/pdf/convert.rs | struct InProgressDoc
//@@ sub /(\w+):(?= [&(\w])/ => pub \1:
//@@ sub /HashMap<ByAddress<Arc<Font>>, String>/ => FontMap
//@@ sub OPT /^struct/ => pub struct
//@@ end
//@@ item victor/src/pdf/convert.rs | struct GraphicsState
//@@ sub /struct Gr/ => pub struct Gr
//@@ sub /(\w+):(?= [&(\w])/ => pub \1:
//@@ end
//@@ item victor/src/pdf/convert.rs | struct InProgressPage
//@@ sub OPT /^struct/ => pub struct
//@@ sub /(\w+):(?= [&(\w])/ => pub \1:
//@@ sub /(pub operations: Vec<u8>,)/ => \1 pub ops: Ghost<Seq<Op>>, pub args: Ghost<Seq<Val>>,
//@@ end
pub open spec fn alpha_name(i: int) -> Seq<u8> { BYTES("a") + dec(i as nat) }
pub open spec fn font_name(i: int) -> Seq<u8> { BYTES("f") + dec(i as nat) }
/// 0 to 65535
pub open spec fn key_of(alpha: real) -> int { (alpha * 65535real).floor() }
/// state n of the resources
pub open spec fn is_state(d: InProgressDoc, i: int, name: Seq<u8>) -> bool { 0 <= i < d.extended_graphics_states@.len() && name == alpha_name(i) }
pub open spec fn alpha_at(d: InProgressDoc, i: int) -> real { d.extended_graphics_states@[i].1->GraphicsStateDictionaryAlpha_0.0@ }
/// what the operator gs sets with this name
pub open spec fn has_state(d: InProgressDoc, name: Seq<u8>) -> bool { exists|i: int| is_state(d, i, name) }
pub open spec fn alpha_of(d: InProgressDoc, state: Option<Seq<u8>>) -> real {
    match state { None => 1real, Some(n) => alpha_at(d, choose|i: int| is_state(d, i, n)) }
}
pub open spec fn is_font(d: InProgressDoc, i: int, name: Seq<u8>) -> bool { 0 <= i < d.font_resources@.len() && name == font_name(i) }
pub open spec fn has_font(d: InProgressDoc, name: Seq<u8>) -> bool { exists|i: int| is_font(d, i, name) }
pub open spec fn font_of(d: InProgressDoc, name: Seq<u8>) -> Font { d.fonts.entries@[choose|i: int| is_font(d, i, name)].0 }
pub proof fn lemma_dec_injective(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b { lemma_number_reads_back(a); lemma_number_reads_back(b); }
pub proof fn lemma_names(i: int, j: int)
    requires i >= 0, j >= 0
    ensures alpha_name(i) == alpha_name(j) ==> i == j, font_name(i) == font_name(j) ==> i == j
{
    if alpha_name(i) == alpha_name(j) {
        assert(dec(i as nat) =~= alpha_name(i).subrange(BYTES("a").len() as int, alpha_name(i).len() as int));
        assert(dec(j as nat) =~= alpha_name(j).subrange(BYTES("a").len() as int, alpha_name(j).len() as int));
        lemma_dec_injective(i as nat, j as nat);
    }
    if font_name(i) == font_name(j) {
        assert(dec(i as nat) =~= font_name(i).subrange(BYTES("f").len() as int, font_name(i).len() as int));
        assert(dec(j as nat) =~= font_name(j).subrange(BYTES("f").len() as int, font_name(j).len() as int));
        lemma_dec_injective(i as nat, j as nat);
    }
}
pub proof fn lemma_state(d: InProgressDoc, i: int)
    requires 0 <= i < d.extended_graphics_states@.len()
    ensures has_state(d, alpha_name(i)), alpha_of(d, Some(alpha_name(i))) == alpha_at(d, i)
{
    let n = alpha_name(i);
    assert(is_state(d, i, n));
    let j = choose|j: int| is_state(d, j, n);
    lemma_names(i, j);
}
pub open spec fn state_key(d: InProgressDoc, k: u16, i: int) -> bool {
    0 <= i < d.extended_graphics_states@.len() && utf8(d.alpha_states@[k]) == alpha_name(i) && key_of(alpha_at(d, i)) == k
}
/// the names of resources are different, and those in the maps are that of resources
pub open spec fn doc_ok(d: InProgressDoc) -> bool {
    &&& consistent(d.pdf)

    &&& d.alpha_states@.len() == d.extended_graphics_states@.len()
    &&& forall|i: int| 0 <= i < d.extended_graphics_states@.len() ==>
        (#[trigger] d.extended_graphics_states@[i]).0@ == alpha_name(i) && d.extended_graphics_states@[i].1 is GraphicsStateDictionaryAlpha
    &&& forall|k: u16| #[trigger] d.alpha_states@.contains_key(k) ==> exists|i: int| state_key(d, k, i)
    &&& d.fonts.entries@.len() == d.font_resources@.len()
    &&& forall|i: int| 0 <= i < d.font_resources@.len() ==>
        (#[trigger] d.font_resources@[i]).0@ == font_name(i) && d.fonts.entries@[i].1 == font_name(i)
    &&& forall|i: int| 0 <= i < d.font_resources@.len() ==> #[trigger] font_object(objects(d), d.font_resources@[i].1, d.fonts.entries@[i].0)
}
/// their texts; the first one is number 4
pub open spec fn objects(d: InProgressDoc) -> Seq<Seq<u8>> { views(d.pdf.indirect_objects@) }
/// room for more objects
pub open spec fn room(d: InProgressDoc, n: int) -> bool { d.pdf.indirect_objects@.len() + n < 0xffff_ff00 }
/// resources and objects stay what they were
pub open spec fn grows(a: InProgressDoc, b: InProgressDoc) -> bool {
    &&& a.extended_graphics_states@.is_prefix_of(b.extended_graphics_states@)
    &&& a.font_resources@.is_prefix_of(b.font_resources@)
    &&& a.fonts.entries@.is_prefix_of(b.fonts.entries@)
    &&& objects(a).is_prefix_of(objects(b))
    &&& b.pdf.indirect_objects@.len() <= a.pdf.indirect_objects@.len() + 4
    &&& a.page_ids@ == b.page_ids@
}
/// all names that a mark depends on are in the resources
pub open spec fn named(d: InProgressDoc, m: Mark) -> bool {
    match m {
        Mark::Fill { state, .. } => state matches Some(n) ==> has_state(d, n),
        Mark::Text { state, font, .. } => (state matches Some(n) ==> has_state(d, n)) && has_font(d, font),
    }
}
/// nothing changes for what was drawn before
pub proof fn lemma_grows(a: InProgressDoc, b: InProgressDoc)
    requires grows(a, b), doc_ok(a), doc_ok(b)
    ensures
        forall|n: Seq<u8>| #[trigger] has_state(a, n) ==> has_state(b, n) && alpha_of(b, Some(n)) == alpha_of(a, Some(n)),
        forall|n: Seq<u8>| #[trigger] has_font(a, n) ==> has_font(b, n) && font_of(b, n) == font_of(a, n),
        forall|m: Mark| #[trigger] named(a, m) ==> named(b, m),
{
    assert forall|n: Seq<u8>| #[trigger] has_state(a, n) implies has_state(b, n) && alpha_of(b, Some(n)) == alpha_of(a, Some(n)) by {
        let i = choose|i: int| is_state(a, i, n);
        lemma_state(a, i);
        lemma_state(b, i);
    }
    assert forall|n: Seq<u8>| #[trigger] has_font(a, n) implies has_font(b, n) && font_of(b, n) == font_of(a, n) by {
        let i = choose|i: int| is_font(a, i, n);
        assert(is_font(b, i, n));
        let j = choose|j: int| is_font(b, j, n);
        lemma_names(i, j);
    }
}
pub open spec fn near(a: real, b: real) -> bool { -1real < (a - b) * 65535real < 1real }
pub open spec fn color_of(c: (F32, F32, F32)) -> (real, real, real) { (c.0.0@, c.1.0@, c.2.0@) }
/// pixels from the top left corner
pub open spec fn pixels() -> Seq<Matrix> { seq![seq![pt_per_px(), 0real, 0real, -pt_per_px(), 0real, 0real]] }
impl<'a> InProgressPage<'a> {
    pub open spec fn drawn(self) -> Drawn { run(self.ops@) }
    pub open spec fn ok(self) -> bool {
        &&& doc_ok(*self.doc)
        &&& self.args@ == Seq::<Val>::empty()
        &&& text_is(self.operations@, self.ops@, self.args@)
        &&& self.drawn().valid && self.drawn().path is None && !self.drawn().in_text
        &&& self.drawn().ctm == pixels()
        &&& self.drawn().color == color_of(self.graphics_state.non_stroking_color_rgb)
        &&& (self.drawn().state matches Some(n) ==> has_state(*self.doc, n))
        &&& near(alpha_of(*self.doc, self.drawn().state), self.graphics_state.alpha.0@)
        &&& 0real <= self.graphics_state.alpha.0@ <= 1real
        &&& forall|i: int| 0 <= i < self.drawn().marks.len() ==> named(*self.doc, #[trigger] self.drawn().marks[i])
    }
    /// the same page, not smaller
    #[verifier::prophetic]
    pub open spec fn later(self, p: Self) -> bool {
        grows(*self.doc, *p.doc) && *final(self.doc) == *final(p.doc) && p.size == self.size
    }
}
impl FontMap {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.entries@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.entries@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, key: ByAddress<Arc<Font>>) -> (r: Entry<'_>)
        ensures match r {
            Entry::Occupied(e) => *final(self) == *old(self) && exists|i: int| 0 <= i < old(self).entries@.len() && #[trigger] old(self).entries@[i] == (*key.0, utf8(e.name)),
            Entry::Vacant(e) => *e.map == *old(self) && *final(self) == *final(e.map) && e.key@ == *key.0,
        }
    { unimplemented!() }
}
pub struct ByAddress<T>(pub T);
pub enum Entry<'a> { Occupied(OccupiedEntry), Vacant(VacantEntry<'a>) }
pub struct OccupiedEntry { pub name: String }
impl OccupiedEntry { pub fn get(&self) -> (r: &String) ensures *r == self.name { &self.name } }
pub struct VacantEntry<'a> { pub map: &'a mut FontMap, pub key: Ghost<Font> }
impl<'a> VacantEntry<'a> {
    #[verifier::external_body]
    pub fn insert(self, name: String) ensures final(self.map).entries@ == old(self.map).entries@.push((self.key@, utf8(name))) { unimplemented!() }
}
impl InProgressDoc {
//@@ fn victor/src/pdf/convert.rs | impl InProgressDoc :: new
//@@ sub /fonts: HashMap::new\(\)/ => fonts: FontMap::new()
//@@ ret r
//@@ spec
    ensures doc_ok(r), r.pdf.indirect_objects@.len() == 0, r.page_ids@.len() == 0
//@@ end
}
pub fn different(a: &(F32, F32, F32), b: &(F32, F32, F32)) -> (r: bool) ensures r == (*a != *b) { !(a.0 == b.0 && a.1 == b.1 && a.2 == b.2) }
/// `format!("…{}", n)`
#[verifier::external_body]
pub fn numbered(prefix: &str, n: usize) -> (r: String) ensures utf8(r) == prefix.spec_bytes() + dec(n as nat) { unimplemented!() }
/// `as u16`, of a number in its range
#[verifier::external_body]
pub fn to_u16(x: F32) -> (r: u16) requires 0real <= x.0@ <= 65535real ensures r == x.0@.floor() { unimplemented!() }
pub open spec fn clamp(a: real) -> real { if a < 0real { 0real } else if a > 1real { 1real } else { a } }
pub proof fn lemma_near(a: real, b: real) requires key_of(a) == key_of(b) ensures near(a, b) {}
pub open spec fn rect_mark(r: Rect<CssPx>, d: Drawn) -> Mark {
    Mark::Fill { x: r.origin.x.0@, y: r.origin.y.0@, width: r.size.width.0@, height: r.size.height.0@, color: d.color, state: d.state, ctm: pixels() }
}
impl<'a> InProgressPage<'a> {
//@@ fn @expanded | mod pdf :: mod convert :: impl<'a> InProgressPage<'a> :: new
//@@ sub /operations: Vec::new\(\),/ => operations: Vec::new(), ops: Ghost(Seq::empty()), args: Ghost(Seq::empty()),
//@@ ret r
//@@ spec
    requires doc_ok(*old(doc))
    ensures r.ok(), r.size == size, r.drawn().marks.len() == 0, *r.doc == *old(doc), *final(r.doc) == *final(doc)
//@@ start
    proof { lemma_nothing(); lemma_operators(); }
//@@ before /page\s*$/
    proof {
        assert(reals(page.ops@[0].args) =~= pixels()[0]);
        assert(run(page.ops@.drop_last()) == nothing());
        assert(page.drawn().ctm =~= pixels());
    }
//@@ end
//@@ fn @expanded | mod pdf :: mod convert :: impl<'a> InProgressPage<'a> :: set_color
//@@ sub /&RGBA\(r, g, b, a\): &RGBA/ => rgba: &RGBA
//@@ sub /(\S+) != \(r, g, b\)/ => different(&\1, &(r, g, b))
//@@ spec
    requires old(self).ok(), room(*old(self).doc, 0)
    ensures
        final(self).ok(), old(self).later(*final(self)),
        final(self).drawn().marks == old(self).drawn().marks,
        final(self).drawn().color == (rgba.0.0@, rgba.1.0@, rgba.2.0@),
        near(alpha_of(*final(self).doc, final(self).drawn().state), clamp(rgba.3.0@)),
//@@ start
    let RGBA(r, g, b, a) = *rgba;
    proof { lemma_operators(); }
//@@ end
//@@ fn @expanded | mod pdf :: mod convert :: impl<'a> InProgressPage<'a> :: paint_rectangle
//@@ spec
    requires old(self).ok()
    ensures
        final(self).ok(), old(self).later(*final(self)), *final(self).doc == *old(self).doc,
        final(self).drawn() == (Drawn { marks: old(self).drawn().marks.push(rect_mark(*rect, old(self).drawn())), ..old(self).drawn() }),
//@@ start
    proof { lemma_operators(); }
//@@ end
//@@ fn @expanded | mod pdf :: mod convert :: impl<'a> InProgressPage<'a> :: set_alpha
//@@ sub /\{\s*let res\s*=\s*::alloc::fmt::format\(format_args!\(("\w*)\{0\}", (\w+)\)\);\s*res\s*\}/ => numbered(\1", \2)
//@@ sub /=\s*\(([^;]*)\) as u16;/ => = to_u16(\1);
//@@ sub /u16::max_value\(\) as f32/ => num(u16::MAX as u32)
//@@ sub /(self\.doc\.alpha_states)\.entry\((\w+)\)\.or_insert_with\(\|\|\s*(\{.*?\n\s*pdf_key\s*\})\);/ => match \1.get(&\2) { Some(k_) => k_.clone(), None => { let v_: String = \3; \1.insert(\2, v_.clone()); v_ } };
//@@ bytes
//@@ spec
    requires old(self).ok(), room(*old(self).doc, 0)
    ensures
        final(self).ok(), old(self).later(*final(self)),
        final(self).drawn().marks == old(self).drawn().marks,
        final(self).drawn().color == old(self).drawn().color,
        near(alpha_of(*final(self).doc, final(self).drawn().state), clamp(alpha.0@)),
//@@ start
    proof { lemma_operators(); }
    let ghost a0 = alpha.0@;
//@@ before /\{ let o_/
    proof {
        assert(alpha.0@ == clamp(a0));
        let d = *old(self).doc;
        let e = *self.doc;
        if d.alpha_states@.contains_key(hash_key) {
            let i = choose|i: int| state_key(d, hash_key, i);
            lemma_state(d, i);
            lemma_near(alpha_at(d, i), alpha.0@);
        } else {
            let n = d.extended_graphics_states@.len() as int;
            assert(e.extended_graphics_states@.len() == n + 1);
            assert(e.extended_graphics_states@[n].0@ == alpha_name(n));
            assert(state_key(e, hash_key, n));
            assert forall|k: u16| #[trigger] e.alpha_states@.contains_key(k) implies exists|i: int| state_key(e, k, i) by {
                if k != hash_key {
                    assert(d.alpha_states@.contains_key(k));
                    let i = choose|i: int| state_key(d, k, i);
                    assert(state_key(e, k, i));
                }
            }
            assert(doc_ok(e));
            assert(grows(d, e));
            lemma_grows(d, e);
            lemma_state(e, n);
        }
    }
//@@ end
}

// ---------------------------------------------------------------- fonts in the document
/// `write!(t, "{}", n)`
#[verifier::external_body]
pub fn append_dec(t: &mut Vec<u8>, n: usize) ensures final(t)@ == old(t)@ + int_text(n as int) { unimplemented!() }
/// `write!(t, "{:04x}", n)`
#[verifier::external_body]
pub fn append_hex4(t: &mut Vec<u8>, n: &u16) ensures final(t)@ == old(t)@ + hex4(*n) { unimplemented!() }
/// char::encode_utf16
#[verifier::external_body]
pub fn encode_utf16(c: &char) -> (r: Vec<u16>) ensures r@ == utf16(*c) { unimplemented!() }
pub fn vec_of(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { let mut v = Vec::new(); v.extend_from_slice(b); assert(v@ =~= b@); v }
pub fn smaller(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub open spec fn zip(c: Seq<char>, g: Seq<u16>) -> Seq<(char, u16)> { Seq::new(c.len(), |i: int| (c[i], g[i])) }
//@@ gsub /write!\((\w+), "\{\}([^"{}]*)", ([^;]*?)\)\.unwrap\(\)/ => { append_dec(\1, \3); append(\1, b"\2") }
//@@ gsub /write!\((\w+), "([^"{}]*)\{:04x\}([^"{}]*)", (\w+)\)\.unwrap\(\)/ => { append(\1, b"\2"); append_hex4(\1, \4); append(\1, b"\3") }
//@@ fn victor/src/pdf/convert.rs | impl<'a> InProgressPage<'a> :: add_font
//@@ closure write_bfchar => pub fn write_bfchar(to_unicode_cmap: &mut Vec<u8>, $params)
//@@ sub /for \(ch, glyph_id\) in chars\.iter\(\)\.zip\(glyph_ids\) \{/ => let mut k_: usize = 0; while k_ < smaller(chars.len(), glyph_ids.len()) { let ch = &chars[k_]; let glyph_id = &glyph_ids[k_]; k_ = k_ + 1;
//@@ sub /for code_unit in ch\.encode_utf16\(&mut \[0, 0\]\) \{/ => let units_ = encode_utf16(ch); let mut j_: usize = 0; while j_ < units_.len() { let code_unit = &units_[j_]; j_ = j_ + 1;
//@@ sub /to_unicode_cmap\.extend\((b"[^"]*")\)/ => append(to_unicode_cmap, \1)
//@@ bytes
//@@ spec
    requires chars@.len() == glyph_ids@.len()
    ensures final(to_unicode_cmap)@ == old(to_unicode_cmap)@ + map_block(zip(chars@, glyph_ids@), 0, chars@.len() as int)
//@@ start
    let ghost z = zip(chars@, glyph_ids@);
    let ghost t0 = to_unicode_cmap@;
//@@ loop 1
    invariant
        k_ <= chars@.len(), chars@.len() == glyph_ids@.len(), z == zip(chars@, glyph_ids@),
        to_unicode_cmap@ == t0 + int_text(chars@.len() as int) + BYTES(" beginbfchar\n") + map_lines(z, 0, k_ as int),
    decreases chars@.len() - k_
//@@ beforeloop 2
    let ghost t1 = to_unicode_cmap@;
//@@ loop 2
    invariant
        0 <= j_ <= units_@.len(), units_@ == utf16(*ch), to_unicode_cmap@ == t1 + units_text(units_@, j_ as int),
    decreases units_@.len() - j_
//@@ end
pub proof fn lemma_lines(z: Seq<(char, u16)>, m: Seq<(char, u16)>, a: int, n: int)
    requires 0 <= a, 0 <= n <= z.len(), a + n <= m.len(), forall|k: int| 0 <= k < n ==> #[trigger] z[k] == m[a + k]
    ensures map_lines(z, 0, n) == map_lines(m, a, a + n)
    decreases n
{ if n > 0 { lemma_lines(z, m, a, n - 1); assert(z[n - 1] == m[a + n - 1]); } }
/// n entries from a on are a block
pub proof fn lemma_block(z: Seq<(char, u16)>, m: Seq<(char, u16)>, a: int, n: int)
    requires 0 <= a, 0 <= n == z.len(), a + n <= m.len(), forall|k: int| 0 <= k < n ==> #[trigger] z[k] == m[a + k]
    ensures map_block(z, 0, n) == map_block(m, a, a + n)
{ lemma_lines(z, m, a, n); }
pub open spec fn cmap_start() -> Seq<u8> {
    BYTES("/CIDInit /ProcSet findresource begin\n12 dict begin\nbegincmap\n/CIDSystemInfo\n<< /Registry (Adobe) /Ordering (UCS) /Supplement 0 >> def\n/CMapName /Adobe-Identity-UCS def\n/CMapType 2 def\n1 begincodespacerange\n<0000> <ffff>\nendcodespacerange\n")
}
pub proof fn lemma_widths(s: Seq<Object>, f: Font, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < n ==> #[trigger] s[k] == Object::I32(thousandths(f.width(k)) as i32)
    ensures enc_items(s, n) == widths(f, n)
    decreases n
{
    if n > 1 { lemma_widths(s, f, n - 1); lemma_item(s, n); }
    if n >= 1 { assert(s[n - 1] == Object::I32(thousandths(f.width(n - 1)) as i32)); assert(enc(s[n - 1]) == em_text(f.width(n - 1))); }
    if n == 1 { lemma_item_1(s); }
    if n == 0 { assert(enc_items(s, 0) =~= Seq::<u8>::empty()); }
}
pub open spec fn key(d: Dictionary, i: int, k: Seq<u8>) -> bool { 0 <= i < d.pairs@.len() && d.pairs@[i].0@ == k }
pub open spec fn val_at<'a>(d: Dictionary<'a>, i: int) -> Object<'a> { d.pairs@[i].1 }
pub open spec fn em(x: real) -> Object<'static> { Object::I32(thousandths(x) as i32) }
pub open spec fn is_name(o: Object, n: Seq<u8>) -> bool { o matches Object::Name(s) && s@ == n }
pub open spec fn is_literal(o: Object, n: Seq<u8>) -> bool { o matches Object::LiteralString(s) && s@ == n }
pub open spec fn is_ref(o: Object, n: int) -> bool { o matches Object::Reference(r) && r.0 == n }
pub open spec fn is_descriptor(d: Dictionary, f: Font, file: int) -> bool {
    &&& d.prev is None && d.pairs@.len() == 11
    &&& key(d, 0, BYTES("Type")) && is_name(val_at(d, 0), BYTES("FontDescriptor"))
    &&& key(d, 1, BYTES("FontName")) && is_name(val_at(d, 1), f.name())
    &&& key(d, 2, BYTES("FontBBox")) && (val_at(d, 2) matches Object::Array(b) && b@.len() == 4 && b@[0] == em(f.left()) && b@[1] == em(f.bottom()) && b@[2] == em(f.right()) && b@[3] == em(f.top()))
    &&& key(d, 3, BYTES("Ascent")) && val_at(d, 3) == em(f.ascent())
    &&& key(d, 4, BYTES("Descent")) && val_at(d, 4) == em(f.descent())
    &&& key(d, 5, BYTES("FontFile2")) && is_ref(val_at(d, 5), file)
    &&& key(d, 6, BYTES("ItalicAngle")) && val_at(d, 6) == Object::I32(0)
    &&& key(d, 7, BYTES("Flags")) && val_at(d, 7) == Object::I32(4)
    &&& key(d, 8, BYTES("CapHeight")) && val_at(d, 8) == em(f.top())
    &&& key(d, 9, BYTES("StemV")) && val_at(d, 9) == Object::I32(80)
    &&& key(d, 10, BYTES("StemH")) && val_at(d, 10) == Object::I32(80)
}
pub open spec fn is_system(d: Dictionary) -> bool {
    &&& d.prev is None && d.pairs@.len() == 3
    &&& key(d, 0, BYTES("Registry")) && is_literal(val_at(d, 0), BYTES("Adobe"))
    &&& key(d, 1, BYTES("Ordering")) && is_literal(val_at(d, 1), BYTES("Identity"))
    &&& key(d, 2, BYTES("Supplement")) && val_at(d, 2) == Object::I32(0)
}
pub open spec fn are_widths(s: Seq<Object>, f: Font) -> bool { s.len() == f.count() && forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] == em(f.width(k)) }
pub open spec fn is_descendant(d: Dictionary, f: Font, descriptor: int) -> bool {
    &&& d.prev is None && d.pairs@.len() == 6
    &&& key(d, 0, BYTES("Type")) && is_name(val_at(d, 0), BYTES("Font"))
    &&& key(d, 1, BYTES("Subtype")) && is_name(val_at(d, 1), BYTES("CIDFontType2"))
    &&& key(d, 2, BYTES("BaseFont")) && is_name(val_at(d, 2), f.name())
    &&& key(d, 3, BYTES("CIDSystemInfo")) && (val_at(d, 3) matches Object::Dictionary(e) && is_system(e))
    &&& key(d, 4, BYTES("FontDescriptor")) && is_ref(val_at(d, 4), descriptor)
    &&& key(d, 5, BYTES("W")) && (val_at(d, 5) matches Object::Array(b) && b@.len() == 2 && b@[0] == Object::I32(0) && (b@[1] matches Object::Array(w) && are_widths(w@, f)))
}
pub open spec fn is_font_dict(d: Dictionary, f: Font, descriptor: int, to_unicode: int) -> bool {
    &&& d.prev is None && d.pairs@.len() == 6
    &&& key(d, 0, BYTES("Type")) && is_name(val_at(d, 0), BYTES("Font"))
    &&& key(d, 1, BYTES("Subtype")) && is_name(val_at(d, 1), BYTES("Type0"))
    &&& key(d, 2, BYTES("BaseFont")) && is_name(val_at(d, 2), f.name())
    &&& key(d, 3, BYTES("ToUnicode")) && is_ref(val_at(d, 3), to_unicode)
    &&& key(d, 4, BYTES("Encoding")) && is_name(val_at(d, 4), BYTES("Identity-H"))
    &&& key(d, 5, BYTES("DescendantFonts")) && (val_at(d, 5) matches Object::Array(b) && b@.len() == 1 && (b@[0] matches Object::Dictionary(e) && is_descendant(e, f, descriptor)))
}
pub proof fn lemma_name_text(o: Object, n: Seq<u8>) requires is_name(o, n) ensures enc(o) == enc_name(n) {}
pub proof fn lemma_literal_text(o: Object, n: Seq<u8>) requires is_literal(o, n) ensures enc(o) == BYTES("(") + lit_text(n) + BYTES(")") {}
pub proof fn lemma_ref_text(o: Object, n: int) requires is_ref(o, n) ensures enc(o) == reference(n) {}
pub proof fn lemma_em_text(o: Object, x: real) requires o == em(x) ensures enc(o) == em_text(x) {}
pub proof fn lemma_int_text(o: Object) requires o is I32 ensures enc(o) == int_text(o->I32_0 as int) {}
pub proof fn lemma_array_text(s: &[Object]) ensures enc(Object::Array(s)) == BYTES("[") + chain_items(s@) + BYTES("]") { lemma_chain_items(s@); }
pub proof fn lemma_dict_parts(d: Dictionary) ensures enc_dict(d) == BYTES("<<") + enc_all_pairs(d) + BYTES(" >>") { hide(enc); hide(enc_pairs); }
pub proof fn lemma_dict_object(d: Dictionary) ensures enc(Object::Dictionary(d)) == enc_dict(d) {}
pub proof fn lemma_dict_text(d: Dictionary) requires d.prev is None ensures enc_dict(d) == BYTES("<<") + chain(d.pairs@) + BYTES(" >>"), enc(Object::Dictionary(d)) == enc_dict(d)
{ hide(enc); hide(enc_dict); hide(enc_pairs); hide(chain); hide(enc_all_pairs); lemma_dict_parts(d); lemma_dict_object(d); lemma_no_prev(d); lemma_chain(d.pairs@); }
pub proof fn lemma_pair(d: Dictionary, i: int, k: Seq<u8>) requires key(d, i, k) ensures enc_pair(d.pairs@[i]) == pair(k, enc(val_at(d, i))) {}
/// more objects
pub open spec fn more(a: InProgressDoc, b: InProgressDoc) -> bool {
    &&& a.extended_graphics_states@ == b.extended_graphics_states@ &&& a.font_resources@ == b.font_resources@ &&& a.fonts == b.fonts
    &&& a.alpha_states@ == b.alpha_states@ &&& a.page_ids@ == b.page_ids@
    &&& objects(a).is_prefix_of(objects(b)) &&& b.pdf.indirect_objects@.len() <= a.pdf.indirect_objects@.len() + 4 &&& consistent(b.pdf)
}
pub proof fn lemma_font_object(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>, o: Object, f: Font)
    requires a.is_prefix_of(b), font_object(a, o, f)
    ensures font_object(b, o, f)
{
    hide(file_stream); hide(stream_with); hide(descriptor_text); hide(font_text); hide(cmap_text);
    let n = o->Reference_0.0 as int;
    assert(a[n - 4] == b[n - 4] && a[n - 5] == b[n - 5] && a[n - 6] == b[n - 6] && a[n - 7] == b[n - 7]);
}
pub proof fn lemma_more(a: InProgressDoc, b: InProgressDoc) requires doc_ok(a), more(a, b) ensures doc_ok(b), grows(a, b)
{
    hide(font_object);
    assert forall|i: int| 0 <= i < b.font_resources@.len() implies #[trigger] font_object(objects(b), b.font_resources@[i].1, b.fonts.entries@[i].0) by {
        assert(font_object(objects(a), a.font_resources@[i].1, a.fonts.entries@[i].0));
        lemma_font_object(objects(a), objects(b), a.font_resources@[i].1, a.fonts.entries@[i].0);
    }
    assert forall|k: u16| #[trigger] b.alpha_states@.contains_key(k) implies exists|i: int| state_key(b, k, i) by {
        let i = choose|i: int| state_key(a, k, i);
        assert(state_key(b, k, i));
    }
}
pub proof fn lemma_page_ids(a: InProgressDoc, b: InProgressDoc) requires doc_ok(a), b == (InProgressDoc { page_ids: b.page_ids, ..a }) ensures doc_ok(b)
{
    hide(font_object);
    assert forall|k: u16| #[trigger] b.alpha_states@.contains_key(k) implies exists|i: int| state_key(b, k, i) by {
        let i = choose|i: int| state_key(a, k, i);
        assert(state_key(b, k, i));
    }
    assert forall|i: int| 0 <= i < b.font_resources@.len() implies #[trigger] font_object(objects(b), b.font_resources@[i].1, b.fonts.entries@[i].0) by {
        assert(font_object(objects(a), a.font_resources@[i].1, a.fonts.entries@[i].0));
    }
}
/// the objects of a font: the file, the descriptor, the map to Unicode, the font
pub open spec fn four_more(o: Seq<Seq<u8>>, f: Font) -> Seq<Seq<u8>> {
    o.push(file_stream(f)).push(descriptor_text(f, o.len() as int + 4)).push(stream_with(seq![], cmap_text(f))).push(font_text(f, o.len() as int + 5, o.len() as int + 6))
}
pub proof fn lemma_four_more(o: Seq<Seq<u8>>, f: Font, r: Object)
    requires is_ref(r, o.len() as int + 7)
    ensures font_object(four_more(o, f), r, f), o.is_prefix_of(four_more(o, f))
{ hide(file_stream); hide(stream_with); hide(descriptor_text); hide(font_text); hide(cmap_text); }
/// what is needed to make a font
pub proof fn lemma_room(d: InProgressDoc) requires doc_ok(d) ensures consistent(d.pdf), d.fonts.entries@.len() == d.font_resources@.len(), objects(d).len() == d.pdf.indirect_objects@.len() {}
/// one more font, whose objects are the last four
pub proof fn lemma_fonts_more(a: InProgressDoc, b: InProgressDoc, f: Font)
    requires
        doc_ok(a), objects(b) == four_more(objects(a), f), b.fonts.entries@.len() == a.fonts.entries@.len() + 1, a.fonts.entries@.is_prefix_of(b.fonts.entries@), b.fonts.entries@.last().0 == f,
        b.font_resources@.len() == a.font_resources@.len() + 1, a.font_resources@.is_prefix_of(b.font_resources@), is_ref(b.font_resources@.last().1, objects(a).len() as int + 7),
    ensures forall|i: int| 0 <= i < b.font_resources@.len() ==> #[trigger] font_object(objects(b), b.font_resources@[i].1, b.fonts.entries@[i].0)
{
    hide(font_object); hide(four_more); hide(objects);
    let n = a.font_resources@.len() as int;
    lemma_four_more(objects(a), f, b.font_resources@.last().1);
    assert forall|i: int| 0 <= i < b.font_resources@.len() implies #[trigger] font_object(objects(b), b.font_resources@[i].1, b.fonts.entries@[i].0) by {
        if i < n {
            assert(b.font_resources@[i] == a.font_resources@[i]);
            assert(b.fonts.entries@[i] == a.fonts.entries@[i]);
            assert(font_object(objects(a), a.font_resources@[i].1, a.fonts.entries@[i].0));
            lemma_font_object(objects(a), objects(b), a.font_resources@[i].1, a.fonts.entries@[i].0);
        }
    }
}
pub proof fn lemma_states_same(a: InProgressDoc, b: InProgressDoc)
    requires doc_ok(a), a.extended_graphics_states@ == b.extended_graphics_states@, a.alpha_states@ == b.alpha_states@
    ensures
        b.alpha_states@.len() == b.extended_graphics_states@.len(),
        forall|k: u16| #[trigger] b.alpha_states@.contains_key(k) ==> exists|i: int| state_key(b, k, i),
        forall|i: int| 0 <= i < b.extended_graphics_states@.len() ==> (#[trigger] b.extended_graphics_states@[i]).0@ == alpha_name(i) && b.extended_graphics_states@[i].1 is GraphicsStateDictionaryAlpha,
{
    hide(font_object); hide(alpha_name); hide(font_name);
    assert forall|k: u16| #[trigger] b.alpha_states@.contains_key(k) implies exists|i: int| state_key(b, k, i) by {
        let i = choose|i: int| state_key(a, k, i);
        assert(state_key(b, k, i));
    }
}
pub proof fn lemma_font_names(a: InProgressDoc, b: InProgressDoc, f: Font, name: Seq<u8>)
    requires
        doc_ok(a), b.fonts.entries@ == a.fonts.entries@.push((f, name)),
        b.font_resources@.len() == a.font_resources@.len() + 1, a.font_resources@.is_prefix_of(b.font_resources@),
        b.font_resources@.last().0@ == name, name == font_name(a.fonts.entries@.len() as int),
    ensures
        b.fonts.entries@.len() == b.font_resources@.len(),
        forall|i: int| 0 <= i < b.font_resources@.len() ==> (#[trigger] b.font_resources@[i]).0@ == font_name(i) && b.fonts.entries@[i].1 == font_name(i),
        has_font(b, name), font_of(b, name) == f,
{
    hide(font_object); hide(alpha_name); hide(font_name);
    let n = a.font_resources@.len() as int;
    assert forall|i: int| 0 <= i < b.font_resources@.len() implies (#[trigger] b.font_resources@[i]).0@ == font_name(i) && b.fonts.entries@[i].1 == font_name(i) by {
        if i < n { assert(b.font_resources@[i] == a.font_resources@[i]); assert(b.fonts.entries@[i] == a.fonts.entries@[i]); }
    }
    assert(is_font(b, n, name));
    let j = choose|j: int| is_font(b, j, name);
    lemma_names(n, j);
}
pub proof fn lemma_one_more(a: InProgressDoc, b: InProgressDoc, f: Font, name: Seq<u8>)
    requires
        doc_ok(a), consistent(b.pdf), a.extended_graphics_states@ == b.extended_graphics_states@, a.alpha_states@ == b.alpha_states@, a.page_ids@ == b.page_ids@,
        objects(b) == four_more(objects(a), f),
        b.font_resources@.len() == a.font_resources@.len() + 1, a.font_resources@.is_prefix_of(b.font_resources@),
        b.font_resources@.last().0@ == name, name == font_name(a.fonts.entries@.len() as int), is_ref(b.font_resources@.last().1, a.pdf.indirect_objects@.len() as int + 7),
        b.fonts.entries@ == a.fonts.entries@.push((f, name)),
    ensures doc_ok(b), grows(a, b), has_font(b, name), font_of(b, name) == f
{
    hide(font_object); hide(alpha_name); hide(font_name); hide(four_more); hide(has_font); hide(font_of); hide(state_key);
    assert(objects(b).len() == b.pdf.indirect_objects@.len() && objects(a).len() == a.pdf.indirect_objects@.len());
    lemma_four_more(objects(a), f, b.font_resources@.last().1);
    lemma_four_more_len(objects(a), f);
    lemma_fonts_more(a, b, f);
    lemma_states_same(a, b);
    lemma_font_names(a, b, f, name);
}
pub proof fn lemma_four_more_len(o: Seq<Seq<u8>>, f: Font) ensures four_more(o, f).len() == o.len() + 4 { hide(file_stream); hide(stream_with); hide(descriptor_text); hide(font_text); hide(cmap_text); }
/// the name of a font that is there
pub proof fn lemma_known(d: InProgressDoc, i: int)
    requires doc_ok(d), 0 <= i < d.fonts.entries@.len()
    ensures has_font(d, d.fonts.entries@[i].1), font_of(d, d.fonts.entries@[i].1) == d.fonts.entries@[i].0
{
    hide(font_object);
    let name = d.fonts.entries@[i].1;
    assert(d.font_resources@[i].0@ == font_name(i));
    assert(is_font(d, i, name));
    let j = choose|j: int| is_font(d, j, name);
    lemma_names(i, j);
}
pub proof fn lemma_no_blocks(m: Seq<(char, u16)>) ensures cmap_start() + map_blocks(m, 0) == cmap_start() { assert(map_blocks(m, 0) =~= Seq::<u8>::empty()); }
pub proof fn lemma_blocks_step(m: Seq<(char, u16)>, q: int) requires q >= 0 ensures map_blocks(m, q + 1) == map_blocks(m, q) + map_block(m, 100 * q, 100 * q + 100) {}
pub proof fn lemma_all_blocks(m: Seq<(char, u16)>)
    ensures
        m.len() == 0 ==> map_all(m) == map_blocks(m, 0),
        m.len() > 0 ==> map_all(m) == map_blocks(m, (m.len() - 1) / 100) + map_block(m, 100 * ((m.len() - 1) / 100), m.len() as int),
{ if m.len() == 0 { assert(map_blocks(m, 0) =~= Seq::<u8>::empty()); } }
pub proof fn lemma_cmap(f: Font)
    ensures cmap_text(f) == cmap_start() + map_all(f.mapping()) + BYTES("endcmap\nCMapName currentdict /CMap defineresource pop\nend\nend")
{}
pub mod font_dictionaries {
use super::*;
pub broadcast proof fn lemma_known_font(d: InProgressDoc, i: int)
    requires doc_ok(d), 0 <= i < d.fonts.entries@.len()
    ensures #![trigger doc_ok(d), d.fonts.entries@[i]] has_font(d, d.fonts.entries@[i].1) && font_of(d, d.fonts.entries@[i].1) == d.fonts.entries@[i].0
{ lemma_known(d, i); }
pub broadcast proof fn lemma_more_objects(a: InProgressDoc, b: InProgressDoc)
    requires more(a, b)
    ensures #![trigger doc_ok(a), doc_ok(b)] doc_ok(a) ==> doc_ok(b) && grows(a, b)
{ if doc_ok(a) { lemma_more(a, b); } }
#[verifier::spinoff_prover]
pub broadcast proof fn lemma_descriptor(d: Dictionary, f: Font, file: int)
    requires is_descriptor(d, f, file)
    ensures #[trigger] enc_dict(d) == #[trigger] descriptor_text(f, file)
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    lemma_dict_text(d);
    lemma_pair(d, 0, BYTES("Type")); lemma_name_text(val_at(d, 0), BYTES("FontDescriptor"));
    lemma_pair(d, 1, BYTES("FontName")); lemma_name_text(val_at(d, 1), f.name());
    lemma_pair(d, 2, BYTES("FontBBox"));
    let b = val_at(d, 2)->Array_0;
    lemma_array_text(b);
    lemma_em_text(b@[0], f.left()); lemma_em_text(b@[1], f.bottom()); lemma_em_text(b@[2], f.right()); lemma_em_text(b@[3], f.top());
    lemma_pair(d, 3, BYTES("Ascent")); lemma_em_text(val_at(d, 3), f.ascent());
    lemma_pair(d, 4, BYTES("Descent")); lemma_em_text(val_at(d, 4), f.descent());
    lemma_pair(d, 5, BYTES("FontFile2")); lemma_ref_text(val_at(d, 5), file);
    lemma_pair(d, 6, BYTES("ItalicAngle")); lemma_int_text(val_at(d, 6));
    lemma_pair(d, 7, BYTES("Flags")); lemma_int_text(val_at(d, 7));
    lemma_pair(d, 8, BYTES("CapHeight")); lemma_em_text(val_at(d, 8), f.top());
    lemma_pair(d, 9, BYTES("StemV")); lemma_int_text(val_at(d, 9));
    lemma_pair(d, 10, BYTES("StemH")); lemma_int_text(val_at(d, 10));
    assert(enc_dict(d) =~= descriptor_text(f, file));
}
#[verifier::spinoff_prover]
pub proof fn lemma_system(d: Dictionary)
    requires is_system(d)
    ensures enc_dict(d) == BYTES("<<") + pair(BYTES("Registry"), BYTES("(") + lit_text(BYTES("Adobe")) + BYTES(")")) + pair(BYTES("Ordering"), BYTES("(") + lit_text(BYTES("Identity")) + BYTES(")"))
            + pair(BYTES("Supplement"), int_text(0)) + BYTES(" >>")
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    lemma_dict_text(d);
    lemma_pair(d, 0, BYTES("Registry")); lemma_literal_text(val_at(d, 0), BYTES("Adobe"));
    lemma_pair(d, 1, BYTES("Ordering")); lemma_literal_text(val_at(d, 1), BYTES("Identity"));
    lemma_pair(d, 2, BYTES("Supplement")); lemma_int_text(val_at(d, 2));
}
#[verifier::spinoff_prover]
pub proof fn lemma_descendant(d: Dictionary, f: Font, descriptor: int)
    requires is_descendant(d, f, descriptor)
    ensures enc_dict(d) == descendant_text(f, descriptor)
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    lemma_dict_text(d);
    lemma_pair(d, 0, BYTES("Type")); lemma_name_text(val_at(d, 0), BYTES("Font"));
    lemma_pair(d, 1, BYTES("Subtype")); lemma_name_text(val_at(d, 1), BYTES("CIDFontType2"));
    lemma_pair(d, 2, BYTES("BaseFont")); lemma_name_text(val_at(d, 2), f.name());
    lemma_pair(d, 3, BYTES("CIDSystemInfo")); lemma_system(val_at(d, 3)->Dictionary_0); lemma_dict_text(val_at(d, 3)->Dictionary_0);
    lemma_pair(d, 4, BYTES("FontDescriptor")); lemma_ref_text(val_at(d, 4), descriptor);
    lemma_pair(d, 5, BYTES("W"));
    let b = val_at(d, 5)->Array_0;
    let w = b@[1]->Array_0;
    lemma_array_text(b);
    lemma_int_text(b@[0]);
    lemma_array_items(w);
    lemma_widths(w@, f, f.count() as int);
    assert(enc_dict(d) =~= descendant_text(f, descriptor));
}
pub proof fn lemma_array_items(s: &[Object]) ensures enc(Object::Array(s)) == BYTES("[") + enc_items(s@, s@.len() as int) + BYTES("]") {}
#[verifier::spinoff_prover]
pub broadcast proof fn lemma_font_dict(d: Dictionary, f: Font, descriptor: int, to_unicode: int)
    requires is_font_dict(d, f, descriptor, to_unicode)
    ensures #[trigger] enc_dict(d) == #[trigger] font_text(f, descriptor, to_unicode)
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    lemma_dict_text(d);
    lemma_pair(d, 0, BYTES("Type")); lemma_name_text(val_at(d, 0), BYTES("Font"));
    lemma_pair(d, 1, BYTES("Subtype")); lemma_name_text(val_at(d, 1), BYTES("Type0"));
    lemma_pair(d, 2, BYTES("BaseFont")); lemma_name_text(val_at(d, 2), f.name());
    lemma_pair(d, 3, BYTES("ToUnicode")); lemma_ref_text(val_at(d, 3), to_unicode);
    lemma_pair(d, 4, BYTES("Encoding")); lemma_name_text(val_at(d, 4), BYTES("Identity-H"));
    lemma_pair(d, 5, BYTES("DescendantFonts"));
    let b = val_at(d, 5)->Array_0;
    lemma_array_text(b);
    lemma_descendant(b@[0]->Dictionary_0, f, descriptor); lemma_dict_text(b@[0]->Dictionary_0);
    assert(enc_dict(d) =~= font_text(f, descriptor, to_unicode));
}
pub broadcast proof fn lemma_plain_stream(d: Dictionary, c: Seq<u8>)
    requires d.prev is None, d.pairs@.len() == 0
    ensures #[trigger] stream_text(d, c) == stream_with(seq![], c)
{ lemma_no_prev(d); }
pub broadcast proof fn lemma_file_stream(d: Dictionary, f: Font)
    requires d.prev is None, d.pairs@.len() == 1, key(d, 0, BYTES("Length1")), val_at(d, 0) == Object::Usize(f.data().len() as usize), f.data().len() <= usize::MAX
    ensures #[trigger] stream_text(d, f.data()) == file_stream(f)
{ lemma_no_prev(d); lemma_chain(d.pairs@); lemma_pair(d, 0, BYTES("Length1")); lemma_usize_text(val_at(d, 0)); }
pub proof fn lemma_usize_text(o: Object) requires o is Usize ensures enc(o) == int_text(o->Usize_0 as int) {}
pub broadcast group font_dictionaries { lemma_more_objects, lemma_known_font, lemma_descriptor, lemma_font_dict, lemma_plain_stream, lemma_file_stream }
}
impl<'a> InProgressPage<'a> {
//@@ fn victor/src/pdf/convert.rs | impl<'a> InProgressPage<'a> :: add_font
//@@ dropclosure write_bfchar
//@@ attr #[verifier::loop_isolation(false)] #[verifier::spinoff_prover]
//@@ sub /b("(?:[^"\\]|\\.)*")\s*\.to_vec\(\)/ => vec_of(b\1)
//@@ sub /to_unicode_cmap\.extend\(\s*b("(?:[^"\\]|\\.)*")\s*\.as_ref\(\),?\s*\)/ => append(&mut to_unicode_cmap, b\1)
//@@ sub /write_bfchar\(&(\w+), &(\w+)\)/ => write_bfchar(&mut to_unicode_cmap, \1.as_slice(), \2.as_slice())
//@@ sub /write_bfchar\(&(\w+)\[\.\.(\w+)\], &(\w+)\[\.\.(\w+)\]\)/ => write_bfchar(&mut to_unicode_cmap, vstd::slice::slice_subrange(\1.as_slice(), 0, \2), vstd::slice::slice_subrange(\3.as_slice(), 0, \4))
//@@ sub /font\.each_code_point\(\|(\w+), GlyphId\((\w+)\)\| \{(.*?)\n            \}\)\?;/ => let pairs_ = font.code_points()?; let mut n_: usize = 0; while n_ < pairs_.len() { let \1 = pairs_[n_].0; let \2 = pairs_[n_].1.0; n_ = n_ + 1; \3 }
//@@ sub /font_bytes\.into\(\)/ => font_bytes
//@@ sub /to_unicode_cmap\.into\(\)/ => to_unicode_cmap.as_slice()
//@@ sub /font_dict_id\.into\(\)/ => Object::from(font_dict_id)
//@@ sub /&\*glyph_widths/ => glyph_widths.as_slice()
//@@ sub /format!\(("\w*)\{\}", (\w+)\)/ => numbered(\1", \2)
//@@ sub /for i in 0\.\.font\.glyph_count\(\)/ => for i in it: 0..font.glyph_count()
//@@ bytes
//@@ ret r
//@@ spec
    requires doc_ok(*old(self).doc), room(*old(self).doc, 8)
    ensures
        doc_ok(*final(self).doc), old(self).later(*final(self)),
        *final(self) == (InProgressPage { doc: final(self).doc, ..*old(self) }),
        final(self).doc.extended_graphics_states@ == old(self).doc.extended_graphics_states@,
        r matches Ok(name) ==> has_font(*final(self).doc, utf8(name)) && font_of(*final(self).doc, utf8(name)) == **font,
//@@ start
    hide(doc_ok); hide(grows); hide(has_font); hide(font_of); hide(font_object);
    hide(enc); hide(enc_dict); hide(stream_text); hide(descriptor_text); hide(font_text); hide(stream_with); hide(map_blocks); hide(map_all); hide(map_lines); hide(map_block); hide(widths); hide(file_stream); hide(cmap_text);
    broadcast use font_dictionaries::font_dictionaries;
    let ghost d0 = *self.doc;
    proof { lemma_room(d0); }
    let ghost m = font.mapping();
//@@ loop 1
    invariant
        n_ <= pairs_@.len(), pairs_@.len() == m.len(), forall|k: int| 0 <= k < m.len() ==> (#[trigger] pairs_@[k]).0 == m[k].0 && pairs_@[k].1.0 == m[k].1,
        0 <= i <= 100, i <= n_, (n_ - i) % 100 == 0, n_ > 0 ==> i > 0, m == font.mapping(),
        to_unicode_cmap@ == cmap_start() + map_blocks(m, (n_ - i) / 100),
        forall|k: int| 0 <= k < i ==> #[trigger] chars@[k] == m[n_ - i + k].0,
        forall|k: int| 0 <= k < i ==> #[trigger] glyph_ids@[k] == m[n_ - i + k].1,
    decreases m.len() - n_
//@@ beforeloop 1
    proof { lemma_no_blocks(m); }
//@@ loopstart 1
    proof { if i >= 100 { lemma_block(zip(chars@, glyph_ids@), m, n_ - i, 100); lemma_blocks_step(m, (n_ - i) / 100); } }
//@@ afterloop 1
    proof {
        assert(n_ == m.len());
        lemma_all_blocks(m);
        if i > 0 {
            let c = chars@.subrange(0, i as int);
            let g = glyph_ids@.subrange(0, i as int);
            lemma_block(zip(c, g), m, m.len() - i, i as int);
        }
    }
//@@ after /\.add_stream\(\s*dictionary! \{[^}]*\},\s*font_bytes,\s*\);/
    let ghost l0 = objects(d0);
    let ghost l1 = objects(d0).push(file_stream(**font));
    assert(views(self.doc.pdf.indirect_objects@) == l1);
//@@ before /let mut to_unicode_cmap/
    let ghost l2 = l1.push(descriptor_text(**font, truetype_id.0 as int));
    assert(views(self.doc.pdf.indirect_objects@) == l2);
//@@ before /append\(&mut to_unicode_cmap, \(?b_endcmap/
    assert(to_unicode_cmap@ =~= cmap_start() + map_all(m));
//@@ before /let to_unicode_id/
    proof { lemma_cmap(**font); }
    assert(to_unicode_cmap@ == cmap_text(**font));
//@@ before /let mut glyph_widths/
    let ghost l3 = l2.push(stream_with(seq![], cmap_text(**font)));
    assert(views(self.doc.pdf.indirect_objects@) == l3);
//@@ before /Ok\(pdf_key\)/
    proof { assert(objects(*self.doc) == four_more(objects(d0), **font)); lemma_one_more(d0, *self.doc, **font, utf8(pdf_key)); }
//@@ before /let pdf_key/
    let ghost l4 = l3.push(font_text(**font, font_descriptor_id.0 as int, to_unicode_id.0 as int));
    assert(views(self.doc.pdf.indirect_objects@) == l4);
//@@ loop 2
    invariant
        glyph_widths@.len() == it.index@,
        forall|k: int| 0 <= k < it.index@ ==> #[trigger] glyph_widths@[k] == em(font.width(k)),
//@@ afterloop 2
    assert(are_widths(glyph_widths@, **font));
//@@ end
}
/// two bytes each, the high one first
pub open spec fn codes(g: Seq<GlyphId>, n: int) -> Seq<u8> decreases n { if n <= 0 { seq![] } else { codes(g, n - 1).push(#[verifier::truncate] ((g[n - 1].0 >> 8) as u8)).push(#[verifier::truncate] (g[n - 1].0 as u8)) } }
/// the text upright, in font units scaled to pixels, from the origin
pub open spec fn text_mark(t: TextRun, font: Seq<u8>, d: Drawn) -> Mark {
    let s = t.font_size.0.0@;
    Mark::Text {
        codes: codes(t.segment.glyphs@, t.segment.glyphs@.len() as int), font, size: 1real,
        matrix: seq![s, 0real, 0real, -s, t.origin.x.0@, t.origin.y.0@],
        color: d.color, state: d.state, ctm: pixels(),
    }
}
impl<'a> InProgressPage<'a> {
//@@ fn @expanded | mod pdf :: mod convert :: impl<'a> InProgressPage<'a> :: show_text
//@@ sub /let TextRun \{ ref (\w+), ref (\w+), ref (\w+) \} =\s*\*text;/ => let \1 = &text.\1; let \2 = &text.\2; let \3 = &text.\3;
//@@ sub /for &GlyphId\((\w+)\) in &([\w.]+) \{/ => for glyph_ in it: \2.iter() { let \1 = glyph_.0;
//@@ attr #[verifier::loop_isolation(false)]
//@@ sub /= self\.add_font\(([^()]*)\)\?;/ => = { let added_ = self.add_font(\1); proof { lemma_grows(d0, *self.doc); assert(self.ok()); } added_? };
//@@ sub /&\*font_key/ => font_key.as_str()
//@@ sub /Object::HexString\(&glyph_codes\)/ => Object::HexString(glyph_codes.as_slice())
//@@ ret r
//@@ spec
    requires old(self).ok(), room(*old(self).doc, 8), text.segment.glyphs@.len() < 0x1000_0000
    ensures
        final(self).ok(), old(self).later(*final(self)),
        final(self).graphics_state == old(self).graphics_state,
        final(self).drawn().color == old(self).drawn().color, final(self).drawn().state == old(self).drawn().state,
        r is Err ==> final(self).drawn() == old(self).drawn(),
        r is Ok ==> (final(self).drawn().font matches Some(font) && has_font(*final(self).doc, font.0) && font_of(*final(self).doc, font.0) == *text.segment.font
            && final(self).drawn().marks == old(self).drawn().marks.push(text_mark(*text, font.0, old(self).drawn()))),
//@@ start
    proof { lemma_operators(); }
    let ghost d0 = *self.doc;
//@@ loop 1
    invariant
        it.seq().len() == segment.glyphs@.len(), forall|k: int| 0 <= k < it.seq().len() ==> *(#[trigger] it.seq()[k]) == segment.glyphs@[k],
        glyph_codes@ == codes(segment.glyphs@, it.index@),
//@@ afterloop 1
    let ghost d1 = *self.doc;
    let ghost drawn = self.drawn();
    proof { lemma_grows(d0, d1); assert(self.ok()); }
//@@ before /Ok\(\(\)\)\s*$/
    proof {
        let m = text_mark(*text, utf8(font_key), drawn);
        let n = self.ops@.len() as int;
        assert(self.drawn().marks.len() == drawn.marks.len() + 1);
        assert(self.drawn().marks.last()->Text_matrix =~= m->Text_matrix);
        assert(self.drawn().marks =~= drawn.marks.push(m));
    }
//@@ end
}
/// o refers to a page of this size (in pixels), with this content
pub open spec fn is_page(objs: Seq<Seq<u8>>, o: Object, width: real, height: real, content: Seq<u8>) -> bool {
    &&& o is Reference
    &&& 5 <= o->Reference_0.0 < objs.len() + 4
    &&& objs[o->Reference_0.0 - 4] == page_text(o->Reference_0.0 - 1, width * pt_per_px(), height * -pt_per_px())
    &&& objs[o->Reference_0.0 - 5] == stream_with(seq![], content)
}
pub open spec fn is_page_dict(d: Dictionary, content: int, width: real, height: real) -> bool {
    &&& d.prev is None && d.pairs@.len() == 4
    &&& key(d, 0, BYTES("Type")) && is_name(val_at(d, 0), BYTES("Page"))
    &&& key(d, 1, BYTES("Parent")) && is_ref(val_at(d, 1), 1)
    &&& key(d, 2, BYTES("Contents")) && is_ref(val_at(d, 2), content)
    &&& key(d, 3, BYTES("MediaBox")) && (val_at(d, 3) matches Object::Array(b) && b@.len() == 4 && b@[0] == Object::I32(0) && b@[1] == Object::I32(0) && b@[2] == Object::Float(fl(width)) && b@[3] == Object::Float(fl(height)))
}
pub proof fn lemma_float_text(o: Object) requires o is Float ensures enc(o) == float_text(o->Float_0) {}
/// the resources, and the references to all pages
pub open spec fn resources_text(d: InProgressDoc) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Font"), BYTES("<<") + enc_owned(d.font_resources@, d.font_resources@.len() as int) + BYTES(" >>"))
        + pair(BYTES("ExtGState"), BYTES("<<") + enc_owned(d.extended_graphics_states@, d.extended_graphics_states@.len() as int) + BYTES(" >>")) + BYTES(" >>")
}
pub open spec fn pages_text(d: InProgressDoc) -> Seq<u8> {
    BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("Pages"))) + pair(BYTES("Count"), int_text(d.page_ids@.len() as int))
        + pair(BYTES("Kids"), BYTES("[") + enc_items(d.page_ids@, d.page_ids@.len() as int) + BYTES("]"))
        + pair(BYTES("Resources"), resources_text(d)) + BYTES(" >>")
}
pub open spec fn catalog_text() -> Seq<u8> { BYTES("<<") + pair(BYTES("Type"), enc_name(BYTES("Catalog"))) + pair(BYTES("Pages"), reference(1)) + BYTES(" >>") }
pub open spec fn info_text() -> Seq<u8> { BYTES("<<") + pair(BYTES("Producer"), BYTES("(") + lit_text(BYTES("Victor <https://github.com/SimonSapin/victor>")) + BYTES(")")) + BYTES(" >>") }
/// all objects of the file
pub open spec fn all_objects(d: InProgressDoc) -> Seq<Seq<u8>> { seq![pages_text(d), catalog_text(), info_text()] + objects(d) }
pub open spec fn is_resources(e: Dictionary, d: InProgressDoc) -> bool {
    &&& e.prev is None && e.pairs@.len() == 2
    &&& key(e, 0, BYTES("Font")) && (val_at(e, 0) matches Object::DictionaryWithOwnedKeys(s) && s@ == d.font_resources@)
    &&& key(e, 1, BYTES("ExtGState")) && (val_at(e, 1) matches Object::DictionaryWithOwnedKeys(s) && s@ == d.extended_graphics_states@)
}
pub open spec fn is_pages(e: Dictionary, d: InProgressDoc) -> bool {
    &&& e.prev is None && e.pairs@.len() == 4
    &&& key(e, 0, BYTES("Type")) && is_name(val_at(e, 0), BYTES("Pages"))
    &&& key(e, 1, BYTES("Count")) && val_at(e, 1) == Object::Usize(d.page_ids@.len() as usize) && d.page_ids@.len() <= usize::MAX
    &&& key(e, 2, BYTES("Kids")) && (val_at(e, 2) matches Object::Array(s) && s@ == d.page_ids@)
    &&& key(e, 3, BYTES("Resources")) && (val_at(e, 3) matches Object::Dictionary(r) && is_resources(r, d))
}
pub open spec fn is_catalog(e: Dictionary) -> bool {
    &&& e.prev is None && e.pairs@.len() == 2
    &&& key(e, 0, BYTES("Type")) && is_name(val_at(e, 0), BYTES("Catalog"))
    &&& key(e, 1, BYTES("Pages")) && is_ref(val_at(e, 1), 1)
}
pub open spec fn is_info(e: Dictionary) -> bool {
    &&& e.prev is None && e.pairs@.len() == 1
    &&& key(e, 0, BYTES("Producer")) && is_literal(val_at(e, 0), BYTES("Victor <https://github.com/SimonSapin/victor>"))
}
pub proof fn lemma_owned_text(o: Object) requires o is DictionaryWithOwnedKeys
    ensures enc(o) == BYTES("<<") + enc_owned((o->DictionaryWithOwnedKeys_0)@, (o->DictionaryWithOwnedKeys_0)@.len() as int) + BYTES(" >>") {}
pub mod page_dictionaries {
use super::*;
#[verifier::spinoff_prover]
pub broadcast proof fn lemma_page_dict(d: Dictionary, content: int, width: real, height: real)
    requires is_page_dict(d, content, width, height)
    ensures #[trigger] enc_dict(d) == #[trigger] page_text(content, width, height)
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    lemma_dict_text(d);
    lemma_pair(d, 0, BYTES("Type")); lemma_name_text(val_at(d, 0), BYTES("Page"));
    lemma_pair(d, 1, BYTES("Parent")); lemma_ref_text(val_at(d, 1), 1);
    lemma_pair(d, 2, BYTES("Contents")); lemma_ref_text(val_at(d, 2), content);
    lemma_pair(d, 3, BYTES("MediaBox"));
    let b = val_at(d, 3)->Array_0;
    lemma_array_text(b);
    lemma_int_text(b@[0]); lemma_int_text(b@[1]); lemma_float_text(b@[2]); lemma_float_text(b@[3]);
    assert(enc_dict(d) =~= page_text(content, width, height));
}
#[verifier::spinoff_prover]
pub proof fn lemma_resources(e: Dictionary, d: InProgressDoc)
    requires is_resources(e, d)
    ensures enc_dict(e) == resources_text(d)
{
    hide(enc); hide(enc_dict); hide(enc_pair); hide(enc_owned);
    lemma_dict_text(e);
    lemma_pair(e, 0, BYTES("Font")); lemma_owned_text(val_at(e, 0));
    lemma_pair(e, 1, BYTES("ExtGState")); lemma_owned_text(val_at(e, 1));
}
#[verifier::spinoff_prover]
pub proof fn lemma_pages(e: Dictionary, d: InProgressDoc)
    requires is_pages(e, d)
    ensures enc_dict(e) == pages_text(d)
{
    hide(enc); hide(enc_dict); hide(enc_pair); hide(enc_items); hide(resources_text);
    lemma_dict_text(e);
    lemma_pair(e, 0, BYTES("Type")); lemma_name_text(val_at(e, 0), BYTES("Pages"));
    lemma_pair(e, 1, BYTES("Count")); font_dictionaries::lemma_usize_text(val_at(e, 1));
    lemma_pair(e, 2, BYTES("Kids")); font_dictionaries::lemma_array_items(val_at(e, 2)->Array_0);
    lemma_pair(e, 3, BYTES("Resources")); lemma_resources(val_at(e, 3)->Dictionary_0, d); lemma_dict_text(val_at(e, 3)->Dictionary_0);
}
#[verifier::spinoff_prover]
pub proof fn lemma_fixed(e: Dictionary)
    ensures is_catalog(e) ==> enc_dict(e) == catalog_text(), is_info(e) ==> enc_dict(e) == info_text()
{
    hide(enc); hide(enc_dict); hide(enc_pair);
    if is_catalog(e) {
        lemma_dict_text(e);
        lemma_pair(e, 0, BYTES("Type")); lemma_name_text(val_at(e, 0), BYTES("Catalog"));
        lemma_pair(e, 1, BYTES("Pages")); lemma_ref_text(val_at(e, 1), 1);
    }
    if is_info(e) {
        lemma_dict_text(e);
        lemma_pair(e, 0, BYTES("Producer")); lemma_literal_text(val_at(e, 0), BYTES("Victor <https://github.com/SimonSapin/victor>"));
    }
}
pub broadcast proof fn lemma_all_objects(b: BasicObjects, d: InProgressDoc)
    requires is_pages(b.page_tree, d), is_catalog(b.catalog), is_info(b.info)
    ensures #[trigger] bodies(b, d.pdf) == all_objects(d)
{
    hide(enc_dict); hide(pages_text); hide(catalog_text); hide(info_text);
    lemma_pages(b.page_tree, d); lemma_fixed(b.catalog); lemma_fixed(b.info);
    assert(bodies(b, d.pdf) =~= all_objects(d));
}
pub broadcast group page_dictionaries { lemma_page_dict, lemma_all_objects, font_dictionaries::lemma_plain_stream }
}
impl<'a> InProgressPage<'a> {
//@@ fn victor/src/pdf/convert.rs | impl<'a> Drop for InProgressPage<'a> :: drop
//@@ sub /self\.operations\.as_slice\(\)\.into\(\)/ => self.operations.as_slice()
//@@ sub /page_id\.into\(\)/ => Object::from(page_id)
//@@ bytes
//@@ spec
    requires old(self).ok(), room(*old(self).doc, 8)
    ensures
        doc_ok(*final(self).doc),
        final(self).doc.extended_graphics_states@ == old(self).doc.extended_graphics_states@,
        final(self).doc.font_resources@ == old(self).doc.font_resources@,
        final(self).doc.fonts == old(self).doc.fonts,
        objects(*old(self).doc).is_prefix_of(objects(*final(self).doc)),
        final(self).doc.pdf.indirect_objects@.len() == old(self).doc.pdf.indirect_objects@.len() + 2,
        final(self).doc.page_ids@.len() == old(self).doc.page_ids@.len() + 1,
        old(self).doc.page_ids@.is_prefix_of(final(self).doc.page_ids@),
        is_page(objects(*final(self).doc), final(self).doc.page_ids@.last(), old(self).size.width.0@, old(self).size.height.0@, old(self).operations@),
        *final(final(self).doc) == *final(old(self).doc),
//@@ start
    hide(enc); hide(enc_dict); hide(stream_text); hide(page_text); hide(stream_with); hide(font_object);
    broadcast use page_dictionaries::page_dictionaries;
    let ghost d0 = *self.doc;
    let ghost w = self.size.width.0@ * pt_per_px();
    let ghost h = self.size.height.0@ * -pt_per_px();
//@@ before /let page_id/
    assert(objects(*self.doc) == objects(d0).push(stream_with(seq![], self.operations@)));
//@@ before /self\.doc\.page_ids\.push/
    proof { lemma_more(d0, *self.doc); }
    let ghost d1 = *self.doc;
    assert(objects(*self.doc) == objects(d0).push(stream_with(seq![], self.operations@)).push(page_text(content_id.0 as int, w, h)));
//@@ after /self\.doc\.page_ids\.push\([^;]*\);/
    proof { lemma_page_ids(d1, *self.doc); }
//@@ end
}
impl InProgressDoc {
//@@ fn victor/src/pdf/convert.rs | impl InProgressDoc :: write
//@@ sub /&\*self\.page_ids/ => self.page_ids.as_slice()
//@@ sub /\(&self\.(\w+)\)/ => (self.\1.as_slice())
//@@ bytes
//@@ ret r
//@@ spec
    requires
        doc_ok(*self), all_objects(*self).len() < 0xffff_fff0, file_text(all_objects(*self)).len() <= u32::MAX,
    ensures
        r is Ok ==> final(w).out() == old(w).out() + file_text(all_objects(*self)),
        old(w).infallible() ==> r is Ok,
//@@ start
    hide(enc); hide(enc_dict); hide(bodies); hide(all_objects); hide(file_text); hide(font_object);
    broadcast use page_dictionaries::page_dictionaries;
//@@ end
}
// ---------------------------------------------------------------- victor/src/pdf/mod.rs
//@@ item victor/src/pdf/mod.rs | struct Document
//@@ sub /(\w+):(?= [&(\w])/ => pub \1:
//@@ end
//@@ item victor/src/pdf/mod.rs | struct Page
//@@ sub /(\w+):(?= [&(\w])/ => pub \1:
//@@ end
impl Document {
//@@ fn victor/src/pdf/mod.rs | impl Document :: new
//@@ ret r
//@@ spec
    ensures doc_ok(r.in_progress), r.in_progress.pdf.indirect_objects@.len() == 0, r.in_progress.page_ids@.len() == 0
//@@ end
//@@ fn victor/src/pdf/mod.rs | impl Document :: add_page
//@@ sub /-> Page/ => -> Page<'_>
//@@ ret r
//@@ spec
    requires doc_ok(old(self).in_progress)
    ensures
        r.in_progress.ok(), r.in_progress.size == size, r.in_progress.drawn().marks.len() == 0,
        *r.in_progress.doc == old(self).in_progress, *final(r.in_progress.doc) == final(self).in_progress,
//@@ end
//@@ fn victor/src/pdf/mod.rs | impl Document :: write_to_pdf
//@@ sub /Result<\(\), io::Error>/ => io::Result<()>
//@@ ret r
//@@ spec
    requires
        doc_ok(self.in_progress), all_objects(self.in_progress).len() < 0xffff_fff0, file_text(all_objects(self.in_progress)).len() <= u32::MAX,
    ensures
        r is Ok ==> final(stream).out() == old(stream).out() + file_text(all_objects(self.in_progress)),
        old(stream).infallible() ==> r is Ok,
//@@ end
//@@ fn victor/src/pdf/mod.rs | impl Document :: write_to_pdf_bytes
//@@ sub /let mut bytes = Vec::new\(\)/ => let mut bytes: Vec<u8> = Vec::new()
//@@ ret r
//@@ spec
    requires
        doc_ok(self.in_progress), all_objects(self.in_progress).len() < 0xffff_fff0, file_text(all_objects(self.in_progress)).len() <= u32::MAX,
    ensures r@ == file_text(all_objects(self.in_progress))
//@@ start
    hide(file_text); hide(all_objects);
//@@ end
}
impl<'doc> Page<'doc> {
//@@ fn victor/src/pdf/mod.rs | impl<'doc> Page<'doc> :: set_color
//@@ ret r
//@@ spec
    requires old(self).in_progress.ok(), room(*old(self).in_progress.doc, 0)
    ensures
        r.in_progress.ok(), old(self).in_progress.later(r.in_progress), *final(self) == *final(r),
        r.in_progress.drawn().marks == old(self).in_progress.drawn().marks,
        r.in_progress.drawn().color == (rgba.0.0@, rgba.1.0@, rgba.2.0@),
        near(alpha_of(*r.in_progress.doc, r.in_progress.drawn().state), clamp(rgba.3.0@)),
//@@ end
//@@ fn victor/src/pdf/mod.rs | impl<'doc> Page<'doc> :: paint_rectangle
//@@ ret r
//@@ spec
    requires old(self).in_progress.ok()
    ensures
        r.in_progress.ok(), old(self).in_progress.later(r.in_progress), *r.in_progress.doc == *old(self).in_progress.doc, *final(self) == *final(r),
        r.in_progress.drawn() == (Drawn { marks: old(self).in_progress.drawn().marks.push(rect_mark(*rect, old(self).in_progress.drawn())), ..old(self).in_progress.drawn() }),
//@@ end
//@@ fn victor/src/pdf/mod.rs | impl<'doc> Page<'doc> :: show_text
//@@ ret r
//@@ spec
    requires old(self).in_progress.ok(), room(*old(self).in_progress.doc, 8), text.segment.glyphs@.len() < 0x1000_0000
    ensures
        r matches Ok(p) ==> p.in_progress.ok() && old(self).in_progress.later(p.in_progress) && *final(self) == *final(p)
            && p.in_progress.drawn().color == old(self).in_progress.drawn().color && p.in_progress.drawn().state == old(self).in_progress.drawn().state
            && (p.in_progress.drawn().font matches Some(font) && has_font(*p.in_progress.doc, font.0) && font_of(*p.in_progress.doc, font.0) == *text.segment.font
                && p.in_progress.drawn().marks == old(self).in_progress.drawn().marks.push(text_mark(*text, font.0, old(self).in_progress.drawn()))),
        r is Err ==> final(self).in_progress.ok() && old(self).in_progress.later(final(self).in_progress) && final(self).in_progress.drawn() == old(self).in_progress.drawn(),
//@@ end
}
