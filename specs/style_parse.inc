// ---------------------------------------------------------------- cssparser
/// text in ASCII lower case
pub open spec fn lower_char(c: char) -> char { if 'A' <= c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
pub open spec fn low(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| lower_char(c)) }
#[verifier::external_body]
pub fn lower(s: &str) -> (r: String) ensures r@ == low(s@) { unimplemented!() }
pub fn vassert(b: bool) requires b { }
#[verifier::external_body]
pub fn same(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub struct CowRcStr<'i> { x: &'i str }
pub uninterp spec fn text_of(s: CowRcStr) -> Seq<char>;
impl<'i> CowRcStr<'i> {
    #[verifier::external_body]
    pub fn lowered(&self) -> (r: String) ensures r@ == low(text_of(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == text_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// the tokens that values are made of
pub enum Token<'i> { Ident(CowRcStr<'i>), Number { value: F32 }, Percentage { unit_value: F32 }, Dimension { value: F32, unit: CowRcStr<'i> }, Delim(char), Other }
impl<'i> Token<'i> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct PropertyParseError<'i> { x: &'i str }
//@@ item victor/src/style/errors.rs | enum PropertyParseErrorKind
//@@ end
/// a parser inside of one declaration: the tokens that are left
#[verifier::external_body]
pub struct Parser<'i, 't> { x: PhantomData<(&'i str, &'t str)> }
#[verifier::external_body]
pub struct ParserState { x: u8 }
pub uninterp spec fn saved<'i>(s: ParserState) -> Seq<Token<'i>>;
impl<'i, 't> Parser<'i, 't> {
    pub uninterp spec fn rest(&self) -> Seq<Token<'i>>;
    #[verifier::external_body]
    pub fn state(&self) -> (r: ParserState) ensures saved(r) == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn reset(&mut self, s: &ParserState) ensures final(self).rest() == saved::<'i>(*s) { unimplemented!() }
    /// the next token, skipping white space and comments
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Result<Token<'i>, PropertyParseError<'i>>)
        ensures
            old(self).rest().len() == 0 ==> r is Err,
            old(self).rest().len() > 0 ==> r == Ok::<Token<'i>, PropertyParseError<'i>>(old(self).rest()[0]) && final(self).rest() == old(self).rest().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn expect_exhausted(&mut self) -> (r: Result<(), PropertyParseError<'i>>) ensures r is Ok == (old(self).rest().len() == 0) { unimplemented!() }
    // the errors say nothing about the value
    #[verifier::external_body]
    pub fn new_error_for_next_token(&mut self) -> PropertyParseError<'i> { unimplemented!() }
    #[verifier::external_body]
    pub fn new_unexpected_token_error(&self, t: Token<'i>) -> PropertyParseError<'i> { unimplemented!() }
    #[verifier::external_body]
    pub fn new_custom_error(&self, e: PropertyParseErrorKind<'i>) -> PropertyParseError<'i> { unimplemented!() }
    // as in cssparser
    pub fn expect_ident(&mut self) -> (r: Result<CowRcStr<'i>, PropertyParseError<'i>>)
        ensures agrees(r, ident(old(self).rest()), final(self).rest())
    {
        match self.next()? { Token::Ident(i) => Ok(i), t => Err(self.new_unexpected_token_error(t)) }
    }
    pub fn expect_percentage(&mut self) -> (r: Result<F32, PropertyParseError<'i>>)
        ensures agrees(r, percentage(old(self).rest()), final(self).rest())
    {
        match self.next()? { Token::Percentage { unit_value } => Ok(unit_value), t => Err(self.new_unexpected_token_error(t)) }
    }
}
/// what there is to parse at the start of some tokens, and what is left
pub type Parsed<'i, T> = Option<(T, Seq<Token<'i>>)>;
pub open spec fn agrees<'i, T>(r: Result<T, PropertyParseError<'i>>, p: Parsed<'i, T>, rest: Seq<Token<'i>>) -> bool {
    match p { Some(x) => r == Ok::<T, PropertyParseError<'i>>(x.0) && rest == x.1, None => r is Err }
}
pub open spec fn ident<'i>(t: Seq<Token<'i>>) -> Parsed<'i, CowRcStr<'i>> {
    if t.len() > 0 { match t[0] { Token::Ident(i) => Some((i, t.skip(1))), _ => None } } else { None }
}
pub open spec fn percentage<'i>(t: Seq<Token<'i>>) -> Parsed<'i, F32> {
    if t.len() > 0 { match t[0] { Token::Percentage { unit_value } => Some((unit_value, t.skip(1))), _ => None } } else { None }
}
/// the next token is an identifier: its text in lower case
pub open spec fn word<'i>(t: Seq<Token<'i>>) -> Seq<char> { low(text_of((ident(t)->0).0)) }
/// `!important`
pub open spec fn important_at<'i>(t: Seq<Token<'i>>) -> bool { t.len() >= 2 && t[0] == Token::<'i>::Delim('!') && ident(t.skip(1)) is Some && word(t.skip(1)) == "important"@ }
#[verifier::external_body]
pub fn parse_important<'i, 't>(parser: &mut Parser<'i, 't>) -> (r: Result<(), PropertyParseError<'i>>)
    ensures r is Ok == important_at(old(parser).rest()), r is Ok ==> final(parser).rest() == old(parser).rest().skip(2)
{ unimplemented!() }
/// Parser::try of cssparser, for the functions that it is called with
pub fn try_parse<'i, 't, T: Parse>(parser: &mut Parser<'i, 't>) -> (r: Result<T, PropertyParseError<'i>>)
    ensures agrees(r, T::parsed(old(parser).rest()), final(parser).rest()), r is Err ==> final(parser).rest() == old(parser).rest()
{
    let start = parser.state();
    let r = T::parse(parser);
    if r.is_err() { parser.reset(&start); }
    r
}
pub fn try_ident<'i, 't>(parser: &mut Parser<'i, 't>) -> (r: Result<CowRcStr<'i>, PropertyParseError<'i>>)
    ensures agrees(r, ident(old(parser).rest()), final(parser).rest()), r is Err ==> final(parser).rest() == old(parser).rest()
{
    let start = parser.state();
    let r = parser.expect_ident();
    if r.is_err() { parser.reset(&start); }
    r
}
pub fn try_important<'i, 't>(parser: &mut Parser<'i, 't>) -> (r: Result<(), PropertyParseError<'i>>)
    ensures r is Ok == important_at(old(parser).rest()), final(parser).rest() == (if r is Ok { old(parser).rest().skip(2) } else { old(parser).rest() })
{
    let start = parser.state();
    let r = parse_important(parser);
    if r.is_err() { parser.reset(&start); }
    r
}
//@@ gsub /\bcssparser::Parser</ => Parser<
//@@ gsub /\bcssparser::Token\b/ => Token
//@@ gsub /\bcrate::style::errors::PropertyParseError\b/ => PropertyParseError
//@@ gsub /parser\s*\.r#try\(\s*(?:crate::style::values::)?Parse::parse\s*\)/ => try_parse(parser)
//@@ gsub /parser\s*\.r#try\(\s*(\w+)::parse\s*\)/ => try_parse::<\1>(parser)
//@@ gsub /parser\s*\.r#try\(\|parser\| parser\.expect_ident_cloned\(\)\)/ => try_ident(parser)
//@@ gsub /parser\s*\.r#try\(\s*cssparser::parse_important\s*\)/ => try_important(parser)
//@@ gsub /&\*(\w+)\.to_ascii_lowercase\(\)/ => \1.lowered()
//@@ gsub /(?:crate::style::values::|super::)?\bParse::parse\(parser\)/ => parse(parser)
pub fn parse<'i, 't, T: Parse>(parser: &mut Parser<'i, 't>) -> (r: Result<T, PropertyParseError<'i>>)
    ensures agrees(r, T::parsed(old(parser).rest()), final(parser).rest())
{ T::parse(parser) }

// ---------------------------------------------------------------- values
pub trait Parse: Sized {
    /// the value that the grammar of CSS finds at the start of the tokens
    spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self>;
    fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> (r: Result<Self, PropertyParseError<'i>>)
        ensures agrees(r, Self::parsed(old(parser).rest()), final(parser).rest());
}
/// a keyword of a property
pub open spec fn keyword<'i, T>(t: Seq<Token<'i>>, v: Option<T>) -> Parsed<'i, T> { if ident(t) is Some && v is Some { Some((v->0, (ident(t)->0).1)) } else { None } }
pub proof fn keywords_differ()
    ensures
        "none"@ != "solid"@, "none"@ != "left"@, "none"@ != "right"@, "left"@ != "right"@, "none"@ != "contents"@, "none"@ != "block"@, "none"@ != "flow-root"@, "none"@ != "inline"@,
        "contents"@ != "block"@, "contents"@ != "flow-root"@, "contents"@ != "inline"@, "block"@ != "flow-root"@, "block"@ != "inline"@, "flow-root"@ != "inline"@,
        "static"@ != "relative"@, "static"@ != "absolute"@, "relative"@ != "absolute"@, "inherit"@ != "initial"@, "inherit"@ != "unset"@, "initial"@ != "unset"@,
        "thin"@ != "medium"@, "thin"@ != "thick"@, "medium"@ != "thick"@, "px"@ != "em"@
{
    reveal_strlit("none"); reveal_strlit("solid"); reveal_strlit("left"); reveal_strlit("right"); reveal_strlit("contents"); reveal_strlit("block"); reveal_strlit("flow-root"); reveal_strlit("inline");
    reveal_strlit("static"); reveal_strlit("relative"); reveal_strlit("absolute"); reveal_strlit("inherit"); reveal_strlit("initial"); reveal_strlit("unset");
    reveal_strlit("thin"); reveal_strlit("medium"); reveal_strlit("thick"); reveal_strlit("px"); reveal_strlit("em");
    assert("none"@[0] != "solid"@[0] && "none"@[0] != "left"@[0] && "none"@[0] != "right"@[0] && "left"@[0] != "right"@[0] && "none"@[0] != "contents"@[0]);
    assert("block"@[0] != "flow-root"@[0] && "block"@[0] != "inline"@[0] && "flow-root"@[0] != "inline"@[0] && "contents"@[0] != "block"@[0] && "contents"@[0] != "flow-root"@[0]);
    assert("thin"@[1] != "thick"@[1] || "thin"@.len() != "thick"@.len());
    assert("static"@[0] != "relative"@[0] && "static"@[0] != "absolute"@[0] && "relative"@[0] != "absolute"@[0] && "inherit"@[2] != "initial"@[2] && "inherit"@[0] != "unset"@[0] && "px"@[0] != "em"@[0]);
}
impl Parse for CssWideKeyword {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        keyword(t, if w == "inherit"@ { Some(CssWideKeyword::Inherit) } else if w == "initial"@ { Some(CssWideKeyword::Initial) } else if w == "unset"@ { Some(CssWideKeyword::Unset) } else { None })
    }
//@@ fn @expanded | mod style :: mod values :: impl crate::style::values::Parse for CssWideKeyword where :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl Parse for LineStyle {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        keyword(t, if w == "none"@ { Some(LineStyle::None) } else if w == "solid"@ { Some(LineStyle::Solid) } else { None })
    }
//@@ fn @expanded | mod style :: mod values :: mod border :: impl crate::style::values::Parse for LineStyle where :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl Parse for Float {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        keyword(t, if w == "none"@ { Some(Float::None) } else if w == "left"@ { Some(Float::Left) } else if w == "right"@ { Some(Float::Right) } else { None })
    }
//@@ fn @expanded | mod style :: mod values :: mod box_ :: impl crate::style::values::Parse for Float where :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl Parse for Position {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        keyword(t, if w == "static"@ { Some(Position::Static) } else if w == "relative"@ { Some(Position::Relative) } else if w == "absolute"@ { Some(Position::Absolute) } else { None })
    }
//@@ fn @expanded | mod style :: mod values :: mod box_ :: impl crate::style::values::Parse for Position where :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
pub open spec fn css_box(outside: DisplayOutside, inside: DisplayInside) -> Option<Display> { Some(Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside, inside })) }
impl Parse for Display {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        keyword(t, if w == "none"@ { Some(Display::None) } else if w == "contents"@ { Some(Display::Contents) }
            else if w == "block"@ { css_box(DisplayOutside::Block, DisplayInside::Flow) } else if w == "flow-root"@ { css_box(DisplayOutside::Block, DisplayInside::FlowRoot) }
            else if w == "inline"@ { css_box(DisplayOutside::Inline, DisplayInside::Flow) } else { None })
    }
//@@ fn victor/src/style/values/box_.rs | impl super::Parse for Display :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl Parse for SpecifiedLength {
    /// a length in px or em, or zero without a unit
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        if t.len() == 0 { None } else { match t[0] {
            Token::Dimension { value, unit } =>
                if low(text_of(unit)) == "px"@ { Some((SpecifiedLength::Absolute(Length { px: value }), t.skip(1))) }
                else if low(text_of(unit)) == "em"@ { Some((SpecifiedLength::Em(value), t.skip(1))) } else { None },
            Token::Number { value } => if value == fl(0real) { Some((SpecifiedLength::Absolute(len(0real)), t.skip(1))) } else { None },
            _ => None,
        } }
    }
//@@ fn victor/src/style/values/length.rs | impl Parse for SpecifiedLength :: parse
//@@ sub /match parser\.next\(\)\? \{/ => match &parser.next()? {
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl Parse for Percentage {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> { match percentage(t) { Some(p) => Some((Percentage { unit_value: p.0 }, p.1)), None => None } }
//@@ fn victor/src/style/values/length.rs | impl Parse for Percentage :: parse
//@@ ret r
//@@ end
}
impl Parse for SpecifiedLengthOrPercentage {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        match (SpecifiedLength::parsed(t), Percentage::parsed(t)) {
            (Some(l), _) => Some((SpecifiedLengthOrPercentage::Length(l.0), l.1)),
            (None, Some(p)) => Some((SpecifiedLengthOrPercentage::Percentage(p.0), p.1)),
            (None, None) => None,
        }
    }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl crate::style::values::Parse for SpecifiedLengthOrPercentage where :: parse
//@@ ret r
//@@ end
}
impl Parse for SpecifiedLengthOrPercentageOrAuto {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        match (SpecifiedLength::parsed(t), Percentage::parsed(t)) {
            (Some(l), _) => Some((SpecifiedLengthOrPercentageOrAuto::Length(l.0), l.1)),
            (None, Some(p)) => Some((SpecifiedLengthOrPercentageOrAuto::Percentage(p.0), p.1)),
            (None, None) => keyword(t, if word(t) == "auto"@ { Some(SpecifiedLengthOrPercentageOrAuto::Auto) } else { None }),
        }
    }
//@@ fn @expanded | mod style :: mod values :: mod length :: impl crate::style::values::Parse for SpecifiedLengthOrPercentageOrAuto where :: parse
//@@ strmatch
//@@ ret r
//@@ end
}
//@@ item victor/src/style/values/border.rs | enum ParsedLineWidth
//@@ sub /\benum/ => pub enum
//@@ end
pub open spec fn parsed_line_width<'i>(t: Seq<Token<'i>>) -> Parsed<'i, ParsedLineWidth> {
    let w = word(t);
    match SpecifiedLengthOrPercentage::parsed(t) {
        Some(l) => Some((ParsedLineWidth::Other(l.0), l.1)),
        None => keyword(t, if w == "thin"@ { Some(ParsedLineWidth::Thin) } else if w == "medium"@ { Some(ParsedLineWidth::Medium) } else if w == "thick"@ { Some(ParsedLineWidth::Thick) } else { None }),
    }
}
impl Parse for ParsedLineWidth {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> { parsed_line_width(t) }
//@@ fn @expanded | mod style :: mod values :: mod border :: impl crate::style::values::Parse for ParsedLineWidth where :: parse
//@@ strmatch
//@@ ret r
//@@ start
    proof { keywords_differ(); assert(<ParsedLineWidth as Parse>::parsed(parser.rest()) == parsed_line_width(parser.rest())); }
//@@ end
}
pub open spec fn px_wide(x: real) -> SpecifiedLineWidth { SpecifiedLineWidth(SpecifiedLengthOrPercentage::Length(SpecifiedLength::Absolute(len(x)))) }
impl Parse for SpecifiedLineWidth {
    /// thin, medium and thick are 1, 3 and 5 pixels (Backgrounds 3, 3.3); percentages are a known finding
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let w = word(t);
        match SpecifiedLengthOrPercentage::parsed(t) {
            Some(l) => Some((SpecifiedLineWidth(l.0), l.1)),
            None => keyword(t, if w == "thin"@ { Some(px_wide(1real)) } else if w == "medium"@ { Some(px_wide(3real)) } else if w == "thick"@ { Some(px_wide(5real)) } else { None }),
        }
    }
//@@ fn victor/src/style/values/border.rs | impl super::Parse for SpecifiedLineWidth :: parse
//@@ sub OPT /(SpecifiedLength::Absolute\(Length \{ px \}\))\.into\(\)/ => SpecifiedLengthOrPercentage::from(\1)
//@@ ret r
//@@ start
    proof { keywords_differ(); }
//@@ end
}
impl SpecifiedLengthOrPercentage {
//@@ fn @expanded | mod style :: mod values :: mod length :: impl std::convert::From<SpecifiedLength> for SpecifiedLengthOrPercentage :: from
//@@ ret r
//@@ spec
    ensures r == SpecifiedLengthOrPercentage::Length(x)
//@@ end
}
/// cssparser::Color::parse
pub uninterp spec fn color_at<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Color>;
impl Parse for Color {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> { color_at(t) }
    #[verifier::external_body]
    fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> (r: Result<Self, PropertyParseError<'i>>) { unimplemented!() }
}
/// no color is a border style or a length, and no keyword of those is the name of a color
#[verifier::external_body]
pub proof fn colors_differ<'i>(t: Seq<Token<'i>>)
    ensures color_at(t) is Some ==> LineStyle::parsed(t) is None && SpecifiedLineWidth::parsed(t) is None
{ }
/// derived: the same value
pub trait SameClone: Sized { fn same_clone(&self) -> (r: Self) ensures r == *self; }
impl SameClone for LineStyle { fn same_clone(&self) -> (r: Self) { *self } }
impl SameClone for Color { fn same_clone(&self) -> (r: Self) { *self } }
impl SameClone for SpecifiedLineWidth { fn same_clone(&self) -> (r: Self) { *self } }
impl SameClone for SpecifiedLengthOrPercentage { fn same_clone(&self) -> (r: Self) { *self } }
impl SameClone for SpecifiedLengthOrPercentageOrAuto { fn same_clone(&self) -> (r: Self) { *self } }
//@@ item victor/src/style/values/generic.rs | struct FourSides
//@@ end
/// one to four values: omitted ones are the same as on the opposite side, or as the first
// The order is top, left, bottom, right and not top, right, bottom, left as in CSS: known finding four-sides-order.
pub open spec fn four_sides<'i, T: Parse>(t: Seq<Token<'i>>) -> Parsed<'i, FourSides<T>> {
    match T::parsed(t) {
        None => None,
        Some(a) => match T::parsed(a.1) {
            None => Some((FourSides { top: a.0, left: a.0, bottom: a.0, right: a.0 }, a.1)),
            Some(b) => match T::parsed(b.1) {
                None => Some((FourSides { top: a.0, left: b.0, bottom: a.0, right: b.0 }, b.1)),
                Some(c) => match T::parsed(c.1) {
                    None => Some((FourSides { top: a.0, left: b.0, bottom: c.0, right: b.0 }, c.1)),
                    Some(d) => Some((FourSides { top: a.0, left: b.0, bottom: c.0, right: d.0 }, d.1)),
                },
            },
        },
    }
}
impl<T: Parse + SameClone> Parse for FourSides<T> {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> { four_sides(t) }
//@@ fn victor/src/style/values/generic.rs | impl<T> Parse for FourSides<T> where T: Parse + Clone, :: parse
//@@ sub /\.clone\(\)/ => .same_clone()
//@@ ret r
//@@ end
}
//@@ item victor/src/style/values/background.rs | struct Background
//@@ end
impl Parse for Background {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> { match color_at(t) { Some(c) => Some((Background { color: Some(c.0) }, c.1)), None => None } }
//@@ fn victor/src/style/values/background.rs | impl super::Parse for Background :: parse
//@@ ret r
//@@ end
}
//@@ item victor/src/style/values/border.rs | struct BorderSide
//@@ end
impl BorderSide {
    // derived
    fn default() -> (r: Self) ensures r == (BorderSide { style: None, color: None, width: None }) { BorderSide { style: None, color: None, width: None } }
}
pub open spec fn missing(s: BorderSide) -> nat { (if s.style is None { 1nat } else { 0nat }) + (if s.color is None { 1nat } else { 0nat }) + (if s.width is None { 1nat } else { 0nat }) }
/// a style, a color and a width in any order, each at most once, as far as there are any
pub open spec fn side_parts<'i>(s: BorderSide, t: Seq<Token<'i>>) -> (BorderSide, Seq<Token<'i>>)
    decreases missing(s)
{
    if s.style is None && LineStyle::parsed(t) is Some { side_parts(BorderSide { style: Some((LineStyle::parsed(t)->0).0), ..s }, (LineStyle::parsed(t)->0).1) }
    else if s.width is None && SpecifiedLineWidth::parsed(t) is Some { side_parts(BorderSide { width: Some((SpecifiedLineWidth::parsed(t)->0).0), ..s }, (SpecifiedLineWidth::parsed(t)->0).1) }
    else if s.color is None && color_at(t) is Some { side_parts(BorderSide { color: Some((color_at(t)->0).0), ..s }, (color_at(t)->0).1) }
    else { (s, t) }
}
impl Parse for BorderSide {
    open spec fn parsed<'i>(t: Seq<Token<'i>>) -> Parsed<'i, Self> {
        let p = side_parts(BorderSide { style: None, color: None, width: None }, t);
        if missing(p.0) < 3 { Some(p) } else { None }
    }
//@@ fn @expanded | mod style :: mod values :: mod border :: impl crate::style::values::Parse for BorderSide :: parse
//@@ sub /let mut any = false;/ => let mut any = false; let ghost t0 = parser.rest();
//@@ ret r
//@@ loop 1
        invariant
            side_parts(BorderSide { style: None, color: None, width: None }, t0) == side_parts(values, parser.rest()),
            any == (missing(values) < 3),
        ensures
            side_parts(BorderSide { style: None, color: None, width: None }, t0) == (values, parser.rest()),
            any == (missing(values) < 3),
        decreases missing(values)
//@@ loopstart 1
        proof { keywords_differ(); colors_differ(parser.rest()); }
//@@ end
}

// ---------------------------------------------------------------- properties
/// what the name of a declaration stands for
pub enum Property { One(LonghandId), Margin, Padding, BorderStyle, BorderColor, BorderWidth, BorderTop, Background }
pub open spec fn property(name: Seq<char>) -> Option<Property> {
    if name == "font-size"@ { Some(Property::One(LonghandId::font_size)) }
    else if name == "color"@ { Some(Property::One(LonghandId::color)) }
    else if name == "position"@ { Some(Property::One(LonghandId::position)) }
    else if name == "float"@ { Some(Property::One(LonghandId::float)) }
    else if name == "display"@ { Some(Property::One(LonghandId::display)) }
    else if name == "top"@ { Some(Property::One(LonghandId::top)) }
    else if name == "left"@ { Some(Property::One(LonghandId::left)) }
    else if name == "bottom"@ { Some(Property::One(LonghandId::bottom)) }
    else if name == "right"@ { Some(Property::One(LonghandId::right)) }
    else if name == "width"@ { Some(Property::One(LonghandId::width)) }
    else if name == "height"@ { Some(Property::One(LonghandId::height)) }
    else if name == "margin-top"@ { Some(Property::One(LonghandId::margin_top)) }
    else if name == "margin-left"@ { Some(Property::One(LonghandId::margin_left)) }
    else if name == "margin-bottom"@ { Some(Property::One(LonghandId::margin_bottom)) }
    else if name == "margin-right"@ { Some(Property::One(LonghandId::margin_right)) }
    else if name == "padding-top"@ { Some(Property::One(LonghandId::padding_top)) }
    else if name == "padding-left"@ { Some(Property::One(LonghandId::padding_left)) }
    else if name == "padding-bottom"@ { Some(Property::One(LonghandId::padding_bottom)) }
    else if name == "padding-right"@ { Some(Property::One(LonghandId::padding_right)) }
    else if name == "border-top-color"@ { Some(Property::One(LonghandId::border_top_color)) }
    else if name == "border-left-color"@ { Some(Property::One(LonghandId::border_left_color)) }
    else if name == "border-bottom-color"@ { Some(Property::One(LonghandId::border_bottom_color)) }
    else if name == "border-right-color"@ { Some(Property::One(LonghandId::border_right_color)) }
    else if name == "border-top-style"@ { Some(Property::One(LonghandId::border_top_style)) }
    else if name == "border-left-style"@ { Some(Property::One(LonghandId::border_left_style)) }
    else if name == "border-bottom-style"@ { Some(Property::One(LonghandId::border_bottom_style)) }
    else if name == "border-right-style"@ { Some(Property::One(LonghandId::border_right_style)) }
    else if name == "border-top-width"@ { Some(Property::One(LonghandId::border_top_width)) }
    else if name == "border-left-width"@ { Some(Property::One(LonghandId::border_left_width)) }
    else if name == "border-bottom-width"@ { Some(Property::One(LonghandId::border_bottom_width)) }
    else if name == "border-right-width"@ { Some(Property::One(LonghandId::border_right_width)) }
    else if name == "background-color"@ { Some(Property::One(LonghandId::background_color)) }
    else if name == "margin"@ { Some(Property::Margin) }
    else if name == "padding"@ { Some(Property::Padding) }
    else if name == "border-style"@ { Some(Property::BorderStyle) }
    else if name == "border-color"@ { Some(Property::BorderColor) }
    else if name == "border-width"@ { Some(Property::BorderWidth) }
    else if name == "border-top"@ { Some(Property::BorderTop) }
    else if name == "background"@ { Some(Property::Background) }
    else { None }
}
/// names with different keys are different
pub open spec fn key(s: Seq<char>) -> (nat, char, char, char) { (s.len(), s[0], s[7], s[14]) }
pub open spec fn key_is(s: Seq<char>, n: nat, a: char, b: char, c: char) -> bool {
    s.len() == n && s[0] == a && (n > 7 ==> s[7] == b) && (n > 14 ==> s[14] == c)
}
pub proof fn names_differ()
    ensures
        key_is("font-size"@, 9, 'f', 'z', ' '),
        key_is("color"@, 5, 'c', ' ', ' '),
        key_is("position"@, 8, 'p', 'n', ' '),
        key_is("float"@, 5, 'f', ' ', ' '),
        key_is("display"@, 7, 'd', ' ', ' '),
        key_is("top"@, 3, 't', ' ', ' '),
        key_is("left"@, 4, 'l', ' ', ' '),
        key_is("bottom"@, 6, 'b', ' ', ' '),
        key_is("right"@, 5, 'r', ' ', ' '),
        key_is("width"@, 5, 'w', ' ', ' '),
        key_is("height"@, 6, 'h', ' ', ' '),
        key_is("margin-top"@, 10, 'm', 't', ' '),
        key_is("margin-left"@, 11, 'm', 'l', ' '),
        key_is("margin-bottom"@, 13, 'm', 'b', ' '),
        key_is("margin-right"@, 12, 'm', 'r', ' '),
        key_is("padding-top"@, 11, 'p', '-', ' '),
        key_is("padding-left"@, 12, 'p', '-', ' '),
        key_is("padding-bottom"@, 14, 'p', '-', ' '),
        key_is("padding-right"@, 13, 'p', '-', ' '),
        key_is("border-top-color"@, 16, 'b', 't', 'o'),
        key_is("border-left-color"@, 17, 'b', 'l', 'l'),
        key_is("border-bottom-color"@, 19, 'b', 'b', 'c'),
        key_is("border-right-color"@, 18, 'b', 'r', 'o'),
        key_is("border-top-style"@, 16, 'b', 't', 'l'),
        key_is("border-left-style"@, 17, 'b', 'l', 'y'),
        key_is("border-bottom-style"@, 19, 'b', 'b', 's'),
        key_is("border-right-style"@, 18, 'b', 'r', 't'),
        key_is("border-top-width"@, 16, 'b', 't', 't'),
        key_is("border-left-width"@, 17, 'b', 'l', 'd'),
        key_is("border-bottom-width"@, 19, 'b', 'b', 'w'),
        key_is("border-right-width"@, 18, 'b', 'r', 'i'),
        key_is("background-color"@, 16, 'b', 'u', 'o'),
        key_is("margin"@, 6, 'm', ' ', ' '),
        key_is("padding"@, 7, 'p', ' ', ' '),
        key_is("border-style"@, 12, 'b', 's', ' '),
        key_is("border-color"@, 12, 'b', 'c', ' '),
        key_is("border-width"@, 12, 'b', 'w', ' '),
        key_is("border-top"@, 10, 'b', 't', ' '),
        key_is("background"@, 10, 'b', 'u', ' '),
{
    reveal_strlit("font-size");
    reveal_strlit("color");
    reveal_strlit("position");
    reveal_strlit("float");
    reveal_strlit("display");
    reveal_strlit("top");
    reveal_strlit("left");
    reveal_strlit("bottom");
    reveal_strlit("right");
    reveal_strlit("width");
    reveal_strlit("height");
    reveal_strlit("margin-top");
    reveal_strlit("margin-left");
    reveal_strlit("margin-bottom");
    reveal_strlit("margin-right");
    reveal_strlit("padding-top");
    reveal_strlit("padding-left");
    reveal_strlit("padding-bottom");
    reveal_strlit("padding-right");
    reveal_strlit("border-top-color");
    reveal_strlit("border-left-color");
    reveal_strlit("border-bottom-color");
    reveal_strlit("border-right-color");
    reveal_strlit("border-top-style");
    reveal_strlit("border-left-style");
    reveal_strlit("border-bottom-style");
    reveal_strlit("border-right-style");
    reveal_strlit("border-top-width");
    reveal_strlit("border-left-width");
    reveal_strlit("border-bottom-width");
    reveal_strlit("border-right-width");
    reveal_strlit("background-color");
    reveal_strlit("margin");
    reveal_strlit("padding");
    reveal_strlit("border-style");
    reveal_strlit("border-color");
    reveal_strlit("border-width");
    reveal_strlit("border-top");
    reveal_strlit("background");
}
/// the properties that a declaration sets, in the order of declarations
pub open spec fn longhands(p: Property) -> Seq<LonghandId> {
    match p {
        Property::One(id) => seq![id],
        Property::Margin => seq![LonghandId::margin_top, LonghandId::margin_left, LonghandId::margin_bottom, LonghandId::margin_right],
        Property::Padding => seq![LonghandId::padding_top, LonghandId::padding_left, LonghandId::padding_bottom, LonghandId::padding_right],
        Property::BorderStyle => seq![LonghandId::border_top_style, LonghandId::border_left_style, LonghandId::border_bottom_style, LonghandId::border_right_style],
        Property::BorderColor => seq![LonghandId::border_top_color, LonghandId::border_left_color, LonghandId::border_bottom_color, LonghandId::border_right_color],
        Property::BorderWidth => seq![LonghandId::border_top_width, LonghandId::border_left_width, LonghandId::border_bottom_width, LonghandId::border_right_width],
        Property::BorderTop => seq![LonghandId::border_top_style, LonghandId::border_top_color, LonghandId::border_top_width],
        Property::Background => seq![LonghandId::background_color],
    }
}
/// the value of one property
pub open spec fn one<'i>(id: LonghandId, t: Seq<Token<'i>>) -> Parsed<'i, Seq<LonghandDeclaration>> {
    match id {
        LonghandId::font_size => match SpecifiedLength::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::font_size(v.0)], v.1)), None => None },
        LonghandId::color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::color(v.0)], v.1)), None => None },
        LonghandId::position => match Position::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::position(v.0)], v.1)), None => None },
        LonghandId::float => match Float::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::float(v.0)], v.1)), None => None },
        LonghandId::display => match Display::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::display(v.0)], v.1)), None => None },
        LonghandId::top => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::top(v.0)], v.1)), None => None },
        LonghandId::left => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::left(v.0)], v.1)), None => None },
        LonghandId::bottom => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::bottom(v.0)], v.1)), None => None },
        LonghandId::right => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::right(v.0)], v.1)), None => None },
        LonghandId::width => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::width(v.0)], v.1)), None => None },
        LonghandId::height => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::height(v.0)], v.1)), None => None },
        LonghandId::margin_top => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::margin_top(v.0)], v.1)), None => None },
        LonghandId::margin_left => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::margin_left(v.0)], v.1)), None => None },
        LonghandId::margin_bottom => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::margin_bottom(v.0)], v.1)), None => None },
        LonghandId::margin_right => match SpecifiedLengthOrPercentageOrAuto::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::margin_right(v.0)], v.1)), None => None },
        LonghandId::padding_top => match SpecifiedLengthOrPercentage::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::padding_top(v.0)], v.1)), None => None },
        LonghandId::padding_left => match SpecifiedLengthOrPercentage::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::padding_left(v.0)], v.1)), None => None },
        LonghandId::padding_bottom => match SpecifiedLengthOrPercentage::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::padding_bottom(v.0)], v.1)), None => None },
        LonghandId::padding_right => match SpecifiedLengthOrPercentage::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::padding_right(v.0)], v.1)), None => None },
        LonghandId::border_top_color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_color(v.0)], v.1)), None => None },
        LonghandId::border_left_color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_left_color(v.0)], v.1)), None => None },
        LonghandId::border_bottom_color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_bottom_color(v.0)], v.1)), None => None },
        LonghandId::border_right_color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_right_color(v.0)], v.1)), None => None },
        LonghandId::border_top_style => match LineStyle::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_style(v.0)], v.1)), None => None },
        LonghandId::border_left_style => match LineStyle::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_left_style(v.0)], v.1)), None => None },
        LonghandId::border_bottom_style => match LineStyle::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_bottom_style(v.0)], v.1)), None => None },
        LonghandId::border_right_style => match LineStyle::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_right_style(v.0)], v.1)), None => None },
        LonghandId::border_top_width => match SpecifiedLineWidth::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_width(v.0)], v.1)), None => None },
        LonghandId::border_left_width => match SpecifiedLineWidth::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_left_width(v.0)], v.1)), None => None },
        LonghandId::border_bottom_width => match SpecifiedLineWidth::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_bottom_width(v.0)], v.1)), None => None },
        LonghandId::border_right_width => match SpecifiedLineWidth::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::border_right_width(v.0)], v.1)), None => None },
        LonghandId::background_color => match Color::parsed(t) { Some(v) => Some((seq![LonghandDeclaration::background_color(v.0)], v.1)), None => None },
    }
}
pub open spec fn initial_value(id: LonghandId) -> LonghandDeclaration { LonghandDeclaration::CssWide(id, CssWideKeyword::Initial) }
/// what the tokens of a value declare
pub open spec fn value<'i>(p: Property, t: Seq<Token<'i>>) -> Parsed<'i, Seq<LonghandDeclaration>> {
    match p {
        Property::One(id) => one(id, t),
        Property::Margin => match four_sides::<SpecifiedLengthOrPercentageOrAuto>(t) { Some(v) => Some((seq![LonghandDeclaration::margin_top(v.0.top), LonghandDeclaration::margin_left(v.0.left), LonghandDeclaration::margin_bottom(v.0.bottom), LonghandDeclaration::margin_right(v.0.right)], v.1)), None => None },
        Property::Padding => match four_sides::<SpecifiedLengthOrPercentage>(t) { Some(v) => Some((seq![LonghandDeclaration::padding_top(v.0.top), LonghandDeclaration::padding_left(v.0.left), LonghandDeclaration::padding_bottom(v.0.bottom), LonghandDeclaration::padding_right(v.0.right)], v.1)), None => None },
        Property::BorderStyle => match four_sides::<LineStyle>(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_style(v.0.top), LonghandDeclaration::border_left_style(v.0.left), LonghandDeclaration::border_bottom_style(v.0.bottom), LonghandDeclaration::border_right_style(v.0.right)], v.1)), None => None },
        Property::BorderColor => match four_sides::<Color>(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_color(v.0.top), LonghandDeclaration::border_left_color(v.0.left), LonghandDeclaration::border_bottom_color(v.0.bottom), LonghandDeclaration::border_right_color(v.0.right)], v.1)), None => None },
        Property::BorderWidth => match four_sides::<SpecifiedLineWidth>(t) { Some(v) => Some((seq![LonghandDeclaration::border_top_width(v.0.top), LonghandDeclaration::border_left_width(v.0.left), LonghandDeclaration::border_bottom_width(v.0.bottom), LonghandDeclaration::border_right_width(v.0.right)], v.1)), None => None },
        // a part that is left out has its initial value
        Property::BorderTop => match BorderSide::parsed(t) {
            Some(v) => Some((seq![
                match v.0.style { Some(x) => LonghandDeclaration::border_top_style(x), None => initial_value(LonghandId::border_top_style) },
                match v.0.color { Some(x) => LonghandDeclaration::border_top_color(x), None => initial_value(LonghandId::border_top_color) },
                match v.0.width { Some(x) => LonghandDeclaration::border_top_width(x), None => initial_value(LonghandId::border_top_width) },
            ], v.1)),
            None => None,
        },
        Property::Background => match color_at(t) { Some(v) => Some((seq![LonghandDeclaration::background_color(v.0)], v.1)), None => None },
    }
}
pub trait ValueOrInitial<T>: Sized {
    spec fn given(self) -> Option<T>;
    fn into<F>(self, id: LonghandId, constructor: F) -> (r: LonghandDeclaration) where F: Fn(T) -> LonghandDeclaration
        requires forall|v: T| constructor.requires((v,))
        ensures match self.given() { Some(v) => constructor.ensures((v,), r), None => r == initial_value(id) };
}
impl<T> ValueOrInitial<T> for T {
    open spec fn given(self) -> Option<T> { Some(self) }
//@@ fn victor/src/style/properties/mod.rs | impl<T> ValueOrInitial<T> for T :: into
//@@ ret r
//@@ end
}
impl<T> ValueOrInitial<T> for Option<T> {
    open spec fn given(self) -> Option<T> { self }
//@@ fn victor/src/style/properties/mod.rs | impl<T> ValueOrInitial<T> for Option<T> :: into
//@@ ret r
//@@ end
}
//@@ item victor/src/style/properties/mod.rs | struct PropertyData
//@@ sub /\bFnParseProperty\b/ => Entry
//@@ end
/// the flags cover the declarations, and no more than those
pub open spec fn phases(r: PerPhase<bool>, ds: Seq<LonghandDeclaration>) -> bool {
    (forall|k: int| 0 <= k < ds.len() ==> covers(r, #[trigger] ds[k])) && (r.early || r.late ==> ds.len() > 0)
}
//@@ gsub /\bcrate::style::properties::/ =>
//@@ fn @expanded | mod style :: mod properties :: mod definitions :: property_data_by_name
//@@ sub /ValueOrInitial::into\(\s*(\w+),\s*LonghandId::(\w+),\s*LonghandDeclaration::(\w+)\s*\)/ => ValueOrInitial::into(\1, LonghandId::\2, |v_| -> (r_: LonghandDeclaration) ensures r_ == LonghandDeclaration::\3(v_) { LonghandDeclaration::\3(v_) })
//@@ sub /&'static crate::style::properties::PropertyData/ => PropertyData
//@@ propmap
    ensures
        property($name) is Some,
        match value(property($name)->0, old(parser).rest()) {
            Some(v) => r is Ok && final(parser).rest() == v.1 && final(declarations)@ == old(declarations)@ + v.0 && phases(r->Ok_0, v.0),
            None => r is Err && final(declarations)@ == old(declarations)@,
        },
START
    proof { names_differ(); }
//@@ ret r
//@@ spec
    ensures
        match property(low(input@)) {
            Some(p) => r is Some && property(entry_name(r->0.parse)) == Some(p) && r->0.longhands@ == longhands(p),
            None => r is None,
        },
//@@ start
    proof { names_differ(); }
//@@ end
// ---------------------------------------------------------------- declaration_block.rs
/// what `name: tokens` declares, and whether it is important; nothing if it is not valid
pub open spec fn declared_by<'i>(name: Seq<char>, t: Seq<Token<'i>>) -> Option<(Seq<LonghandDeclaration>, bool)> {
    match property(low(name)) {
        None => None,
        Some(p) => {
            let v = match CssWideKeyword::parsed(t) {
                Some(k) => Some((longhands(p).map_values(|id: LonghandId| LonghandDeclaration::CssWide(id, k.0)), k.1)),
                None => value(p, t),
            };
            match v {
                None => None,
                Some(v) => {
                    let important = important_at(v.1);
                    // nothing may be left after the value and `!important`
                    if (if important { v.1.skip(2) } else { v.1 }).len() == 0 { Some((v.0, important)) } else { None }
                },
            }
        },
    }
}
pub open spec fn copies(n: nat, b: bool) -> Seq<bool> { Seq::new(n, |k: int| b) }
impl SmallBitVec {
    /// extend(repeat(b).take(n))
    #[verifier::external_body]
    pub fn extend_with(&mut self, n: usize, b: bool) ensures final(self)@ == old(self)@ + copies(n as nat, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn all_true(&self) -> (r: bool) ensures r == (forall|k: int| 0 <= k < self@.len() ==> #[trigger] self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn all_false(&self) -> (r: bool) ensures r == (forall|k: int| 0 <= k < self@.len() ==> !#[trigger] self@[k]) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
}
impl PerPhase<bool> {
    // derived
    pub fn default() -> (r: Self) ensures !r.early, !r.late { PerPhase { early: false, late: false } }
}
pub open spec fn some_bit(b: Seq<bool>, important: bool) -> bool { exists|k: int| 0 <= k < b.len() && #[trigger] b[k] == important }
impl DeclarationBlock {
    // derived
    pub fn default() -> (r: Self) ensures r.declarations@.len() == 0, r.important@.len() == 0, r.exact()
    { DeclarationBlock { declarations: Vec::new(), important: SmallBitVec::new(), any_important: PerPhase::default(), any_normal: PerPhase::default() } }
    /// well formed, and a flag is only set for an importance that is there
    pub open spec fn exact(self) -> bool {
        self.wf() && (self.any_normal.early || self.any_normal.late) == some_bit(self.important@, false) && (self.any_important.early || self.any_important.late) == some_bit(self.important@, true)
    }
    /// this block with some more declarations
    pub open spec fn with(self, d: Option<(Seq<LonghandDeclaration>, bool)>, then: DeclarationBlock) -> bool {
        match d {
            Some(d) => then.declarations@ == self.declarations@ + d.0 && then.important@ == self.important@ + copies(d.0.len(), d.1),
            None => then.declarations@ == self.declarations@ && then.important@ == self.important@,
        }
    }
}
pub open spec fn both(a: PerPhase<bool>, b: PerPhase<bool>) -> PerPhase<bool> { PerPhase { early: a.early || b.early, late: a.late || b.late } }
proof fn lemma_with(b0: DeclarationBlock, added: Seq<LonghandDeclaration>, important: bool, parsed: PerPhase<bool>, b1: DeclarationBlock)
    requires
        b0.exact(), phases(parsed, added), added.len() > 0,
        b0.with(Some((added, important)), b1),
        b1.any(important) == both(b0.any(important), parsed), b1.any(!important) == b0.any(!important),
    ensures b1.exact()
{
    let n = b0.declarations@.len() as int;
    assert forall|k: int| #![trigger b1.declarations@[k]] 0 <= k < b1.declarations@.len() implies covers(b1.any(b1.important@[k]), b1.declarations@[k]) by {
        if k < n { assert(covers(b0.any(b0.important@[k]), b0.declarations@[k])); assert(b1.important@[k] == b0.important@[k]); assert(b1.declarations@[k] == b0.declarations@[k]); }
        else { assert(b1.important@[k] == important); assert(b1.declarations@[k] == added[k - n]); assert(covers(parsed, added[k - n])); }
    }
    assert(covers(parsed, added[0]));
    assert(b1.important@[n] == important);
    assert(some_bit(b1.important@, important));
    assert(some_bit(b1.important@, !important) == some_bit(b0.important@, !important)) by {
        if some_bit(b0.important@, !important) { let k = choose|k: int| 0 <= k < n && #[trigger] b0.important@[k] == !important; assert(b1.important@[k] == !important); }
        if some_bit(b1.important@, !important) { let k = choose|k: int| 0 <= k < b1.important@.len() && #[trigger] b1.important@[k] == !important; assert(k < n); assert(b0.important@[k] == !important); }
    }
}
//@@ item victor/src/style/declaration_block.rs | struct LonghandDeclarationParser
//@@ sub /(\n\s*)block:/ => \1pub block:
//@@ end
impl LonghandDeclarationParser {
//@@ fn victor/src/style/declaration_block.rs | impl<'i> DeclarationParser<'i> for LonghandDeclarationParser :: parse_value
//@@ hdr fn parse_value<'i, 't>(&mut self, name: CowRcStr<'i>, parser: &mut Parser<'i, 't>) -> Result<(), PropertyParseError<'i>>
//@@ sub /property_data_by_name\(&name\)/ => property_data_by_name(name.as_str())
//@@ sub /\(data\.parse\)\(parser, &mut self\.block\.declarations\)/ => entry_parse(&data.parse, parser, &mut self.block.declarations)
//@@ sub /parser\.r#try\(CssWideKeyword::parse\)/ => try_parse::<CssWideKeyword>(parser)
//@@ sub OPT /for &longhand in data\.longhands \{/ => let mut k_: usize = 0; while k_ < data.longhands.len() { let longhand = data.longhands[k_]; k_ = k_ + 1;
//@@ sub OPT /\.extend\(repeat\((\w+)\)\.take\((\w+)\)\)/ => .extend_with(\2, \1)
//@@ sub OPT /any\.(\w+) \|= parsed\.(\w+);/ => any.\1 = any.\1 || parsed.\2;
//@@ sub OPT /Err\(error\.into\(\)\)/ => Err(error)
//@@ sub OPT /assert!\(/ => vassert(
//@@ ret r
//@@ spec
    requires old(self).block.exact()
    ensures
        final(self).block.exact(),
        old(self).block.with(declared_by(text_of(name), old(parser).rest()), final(self).block),
        r is Ok == declared_by(text_of(name), old(parser).rest()) is Some,
//@@ start
    let ghost t0 = parser.rest();
    let ghost b0 = self.block;
    let ghost p0 = property(low(text_of(name)))->0;
    let ghost wide = longhands(p0).map_values(|id: LonghandId| LonghandDeclaration::CssWide(id, (CssWideKeyword::parsed(t0)->0).0));
//@@ loop 1
        invariant
            property(low(text_of(name))) == Some(p0), CssWideKeyword::parsed(t0) == Some((keyword, parser.rest())),
            wide == longhands(p0).map_values(|id: LonghandId| LonghandDeclaration::CssWide(id, (CssWideKeyword::parsed(t0)->0).0)),
            data.longhands@ == longhands(p0), k_ <= data.longhands@.len(), wide.len() == data.longhands@.len(),
            self.block.declarations@ == b0.declarations@ + wide.take(k_ as int), phases(parsed, wide.take(k_ as int)),
            self.block.important == b0.important, self.block.any_important == b0.any_important, self.block.any_normal == b0.any_normal,
        decreases data.longhands@.len() - k_
//@@ loopstart 1
        proof { assert(wide.take(k_ + 1) =~= wide.take(k_ as int).push(wide[k_ as int])); }
//@@ before /let important =/
    let ghost added: Seq<LonghandDeclaration>;
    proof {
        added = match CssWideKeyword::parsed(t0) { Some(k) => wide, None => (value(p0, t0)->0).0 };
        assert(wide.take(wide.len() as int) =~= wide);
        assert(self.block.declarations@ == b0.declarations@ + added);
        assert(phases(parsed, added));
        assert((b0.declarations@ + added).subrange(0, b0.declarations@.len() as int) =~= b0.declarations@);
    }
//@@ before /Ok\(\(\)\)/
    proof {
        lemma_with(b0, added, important, parsed, self.block);
    }
//@@ end
}
/// what a list of declarations is made of, up to the end of each: a name with the tokens of the value, or something else
pub enum Source<'i> { Property(CowRcStr<'i>, Seq<Token<'i>>), Other }
pub open spec fn meaning<'i>(s: Source<'i>) -> Option<(Seq<LonghandDeclaration>, bool)> { match s { Source::Property(name, t) => declared_by(text_of(name), t), Source::Other => None } }
pub enum SourceParser<'i, 't> { Property(CowRcStr<'i>, Parser<'i, 't>), Other(PropertyParseError<'i>) }
impl<'i, 't> Parser<'i, 't> { pub uninterp spec fn sources(&self) -> Seq<Source<'i>>; }
/// cssparser: each declaration is given to parse_value with a parser that ends where the declaration ends
pub struct DeclarationListParser<'i, 't> { pub parser: LonghandDeclarationParser, pub rest: ListRest<'i, 't> }
#[verifier::external_body]
pub struct ListRest<'i, 't> { x: PhantomData<(&'i str, &'t str)> }
impl<'i, 't> ListRest<'i, 't> {
    pub uninterp spec fn sources(&self) -> Seq<Source<'i>>;
    #[verifier::external_body]
    pub fn new(parser: &mut Parser<'i, 't>) -> (r: Self) ensures r.sources() == old(parser).sources() { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<SourceParser<'i, 't>>)
        ensures match r {
            None => old(self).sources().len() == 0 && final(self).sources() == old(self).sources(),
            Some(s) => old(self).sources().len() > 0 && final(self).sources() == old(self).sources().skip(1) && match s {
                SourceParser::Property(name, p) => old(self).sources()[0] == Source::Property(name, p.rest()),
                SourceParser::Other(e) => old(self).sources()[0] is Other,
            },
        }
    { unimplemented!() }
}
impl<'i, 't> DeclarationListParser<'i, 't> {
    fn new(parser: &mut Parser<'i, 't>, p: LonghandDeclarationParser) -> (r: Self) ensures r.parser == p, r.rest.sources() == old(parser).sources()
    { DeclarationListParser { parser: p, rest: ListRest::new(parser) } }
    // as in cssparser
    fn next(&mut self) -> (r: Option<Result<(), PropertyParseError<'i>>>)
        requires old(self).parser.block.exact()
        ensures
            final(self).parser.block.exact(),
            r is None ==> old(self).rest.sources().len() == 0 && final(self).rest.sources() == old(self).rest.sources() && final(self).parser.block == old(self).parser.block,
            r is Some ==> old(self).rest.sources().len() > 0 && final(self).rest.sources() == old(self).rest.sources().skip(1)
                && old(self).parser.block.with(meaning(old(self).rest.sources()[0]), final(self).parser.block)
                && r->0 is Ok == meaning(old(self).rest.sources()[0]) is Some,
    {
        match self.rest.next() {
            None => None,
            Some(SourceParser::Property(name, parser)) => { let mut parser = parser; Some(self.parser.parse_value(name, &mut parser)) },
            Some(SourceParser::Other(e)) => Some(Err(e)),
        }
    }
}
/// the declarations of some sources with their importance, in order
pub open spec fn declarations_of<'i>(s: Seq<Source<'i>>) -> (Seq<LonghandDeclaration>, Seq<bool>)
    decreases s.len()
{
    if s.len() == 0 { (seq![], seq![]) } else {
        let before = declarations_of(s.drop_last());
        match meaning(s.last()) { Some(d) => (before.0 + d.0, before.1 + copies(d.0.len(), d.1)), None => before }
    }
}
impl DeclarationBlock {
//@@ fn victor/src/style/declaration_block.rs | impl DeclarationBlock :: parse
//@@ sub OPT /debug_assert_eq!\((.*?),\s*(.*?)\s*\);/ => vassert((\1) == (\2));
//@@ sub OPT /assert!\(/ => vassert(
//@@ ret r
//@@ spec
    ensures
        r.exact(),
        r.declarations@ == declarations_of(old(parser).sources()).0,
        r.important@ == declarations_of(old(parser).sources()).1,
//@@ start
    let ghost all = parser.sources();
    let ghost mut n: int = 0;
//@@ beforeloop 1
    proof { assert(all.skip(0) =~= all); }
//@@ loop 1
    invariant
        iter.parser.block.exact(), 0 <= n <= all.len(), iter.rest.sources() == all.skip(n),
        iter.parser.block.declarations@ == declarations_of(all.take(n)).0, iter.parser.block.important@ == declarations_of(all.take(n)).1,
    ensures
        iter.parser.block.exact(),
        iter.parser.block.declarations@ == declarations_of(all).0, iter.parser.block.important@ == declarations_of(all).1,
    decreases all.len() - n
//@@ loopstart 1
    proof {
        if n < all.len() { assert(all.take(n + 1).drop_last() =~= all.take(n)); assert(all.take(n + 1).last() == all[n]); } else { assert(all.take(n) =~= all); }
    }
//@@ before /match result/
    proof { n = n + 1; assert(all.skip(n - 1).skip(1) =~= all.skip(n)); }
//@@ end
}
