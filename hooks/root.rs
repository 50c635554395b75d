/// Entry points for the harness in /verif; compiled with --cfg victor_verif only.
pub mod verif {
    pub use crate::dom::verif_dom as dom;
    pub use crate::pdf::verif_pdf as pdf;

    /// What the crate reads from a font.
    pub mod font {
        use crate::fonts::{Font, FontError, GlyphId};
        pub fn glyph_id(f: &Font, c: char) -> Result<u16, FontError> {
            f.glyph_id(c).map(|g| g.0)
        }
        pub fn glyph_width(f: &Font, g: u16) -> Result<f32, FontError> {
            f.glyph_width(GlyphId(g)).map(|w| w.get())
        }
        pub fn pairs(f: &Font, limit: usize) -> Result<Vec<(char, u16)>, FontError> {
            let mut v = Vec::new();
            f.each_code_point(|c, g| {
                if v.len() < limit {
                    v.push((c, g.0))
                }
            })?;
            Ok(v)
        }
        pub fn name(f: &Font) -> &str {
            f.postscript_name()
        }
        pub fn glyph_count(f: &Font) -> u16 {
            f.glyph_count()
        }
        /// ascender, descender, min_x, min_y, max_x, max_y
        pub fn metrics(f: &Font) -> [f32; 6] {
            [
                f.ascender().get(),
                f.descender().get(),
                f.min_x().get(),
                f.min_y().get(),
                f.max_x().get(),
                f.max_y().get(),
            ]
        }
    }

    /// What shaping gives.
    pub mod text {
        use crate::text::ShapedSegment;
        pub fn glyphs(s: &ShapedSegment) -> Vec<u16> {
            s.glyphs.iter().map(|g| g.0).collect()
        }
        pub fn advance(s: &ShapedSegment) -> f32 {
            s.advance_width.get()
        }
    }

    /// Computed values of the elements of a document.
    pub mod style {
        use crate::dom::Document;
        use crate::style::values::*;
        use crate::style::{style_for_element, ComputedValues, StyleSetBuilder};
        use cssparser::{Color, RGBA};
        use std::sync::Arc;

        fn rgba(c: RGBA) -> String {
            format!("{},{},{},{}", c.red, c.green, c.blue, c.alpha)
        }
        fn color(c: Color) -> String {
            match c {
                Color::CurrentColor => "currentcolor".to_owned(),
                Color::RGBA(c) => rgba(c),
            }
        }
        fn lp(v: LengthOrPercentage) -> String {
            match v {
                LengthOrPercentage::Length(l) => format!("{:?}", l),
                LengthOrPercentage::Percentage(p) => format!("{:?}", p),
            }
        }
        fn lpa(v: LengthOrPercentageOrAuto) -> String {
            match v {
                LengthOrPercentageOrAuto::Length(l) => format!("{:?}", l),
                LengthOrPercentageOrAuto::Percentage(p) => format!("{:?}", p),
                LengthOrPercentageOrAuto::Auto => "auto".to_owned(),
            }
        }
        fn display(d: Display) -> &'static str {
            match d {
                Display::None => "none",
                Display::Contents => "contents",
                Display::GeneratingBox(DisplayGeneratingBox::OutsideInside { outside, inside }) => {
                    match (outside, inside) {
                        (DisplayOutside::Inline, DisplayInside::Flow) => "inline",
                        (DisplayOutside::Inline, DisplayInside::FlowRoot) => "inline-block",
                        (DisplayOutside::Block, DisplayInside::Flow) => "block",
                        (DisplayOutside::Block, DisplayInside::FlowRoot) => "flow-root",
                    }
                }
            }
        }
        fn line_style(s: LineStyle) -> &'static str {
            match s {
                LineStyle::None => "none",
                LineStyle::Solid => "solid",
            }
        }

        fn all(s: &ComputedValues) -> Vec<(String, String)> {
            let (b, bo, m, p) = (&s.box_, &s.border, &s.margin, &s.padding);
            let mut v = vec![
                ("font-size", format!("{:?}", s.font.font_size.0)),
                ("color", rgba(s.color.color)),
                ("position", match b.position {
                    Position::Static => "static",
                    Position::Relative => "relative",
                    Position::Absolute => "absolute",
                }.to_owned()),
                ("float", match b.float {
                    Float::None => "none",
                    Float::Left => "left",
                    Float::Right => "right",
                }.to_owned()),
                ("display", display(b.display).to_owned()),
                ("specified-display", display(s.specified_display).to_owned()),
                ("background-color", color(s.background.background_color)),
            ];
            for (n, x) in vec![
                ("top", b.top), ("left", b.left), ("bottom", b.bottom), ("right", b.right),
                ("width", b.width), ("height", b.height),
                ("margin-top", m.margin_top), ("margin-left", m.margin_left),
                ("margin-bottom", m.margin_bottom), ("margin-right", m.margin_right),
            ] {
                v.push((n, lpa(x)))
            }
            for (n, x) in vec![
                ("padding-top", p.padding_top), ("padding-left", p.padding_left),
                ("padding-bottom", p.padding_bottom), ("padding-right", p.padding_right),
                ("border-top-width", bo.border_top_width.0), ("border-left-width", bo.border_left_width.0),
                ("border-bottom-width", bo.border_bottom_width.0), ("border-right-width", bo.border_right_width.0),
            ] {
                v.push((n, lp(x)))
            }
            for (n, x) in vec![
                ("border-top-color", bo.border_top_color), ("border-left-color", bo.border_left_color),
                ("border-bottom-color", bo.border_bottom_color), ("border-right-color", bo.border_right_color),
            ] {
                v.push((n, color(x)))
            }
            for (n, x) in vec![
                ("border-top-style", bo.border_top_style), ("border-left-style", bo.border_left_style),
                ("border-bottom-style", bo.border_bottom_style), ("border-right-style", bo.border_right_style),
            ] {
                v.push((n, line_style(x).to_owned()))
            }
            v.into_iter().map(|(n, x)| (n.to_owned(), x)).collect()
        }

        /// For each element in document order: its attribute k, that of its parent, and
        /// the computed values. The style sheets are those of the document, or the given ones.
        pub fn computed(
            document: &Document,
            sheets: Option<&[String]>,
        ) -> Vec<(Option<String>, Option<String>, Vec<(String, String)>)> {
            let author = match sheets {
                None => document.parse_stylesheets(),
                Some(s) => {
                    let mut b = StyleSetBuilder::new();
                    for s in s {
                        b.add_stylesheet(s)
                    }
                    b.finish()
                }
            };
            let k = |id| {
                let n: &crate::dom::Node = &document[id];
                n.as_element().and_then(|e| e.get_attr(&html5ever::LocalName::from("k"))).map(|s| s.to_owned())
            };
            let mut styles: Vec<(crate::dom::NodeId, Arc<ComputedValues>)> = Vec::new();
            let mut out = Vec::new();
            for id in document.nodes() {
                if document[id].as_element().is_none() {
                    continue;
                }
                let parent = document[id].parent;
                let parent_style = parent.and_then(|p| styles.iter().find(|(i, _)| *i == p).map(|(_, s)| s.clone()));
                let style = style_for_element(&author, document, id, parent_style.as_ref().map(|s| &**s));
                out.push((k(id), parent.and_then(k), all(&style)));
                styles.push((id, style));
            }
            out
        }
    }

    /// Logical and physical geometry, on integers.
    pub mod geom {
        use crate::geom::{flow_relative, physical};
        use crate::style::values::{Direction, WritingMode};
        pub type Mode = (usize, usize);
        fn mode(m: Mode) -> (WritingMode, Direction) {
            use self::{Direction::*, WritingMode::*};
            (
                [HorizontalTb, VerticalRl, VerticalLr, SidewaysRl, SidewaysLr][m.0],
                [Ltr, Rtl][m.1],
            )
        }
        fn lv(a: [i32; 2]) -> flow_relative::Vec2<i32> {
            flow_relative::Vec2 { inline: a[0], block: a[1] }
        }
        fn pv(a: [i32; 2]) -> physical::Vec2<i32> {
            physical::Vec2 { x: a[0], y: a[1] }
        }
        fn vl(a: flow_relative::Vec2<i32>) -> [i32; 2] {
            [a.inline, a.block]
        }
        fn vp(a: physical::Vec2<i32>) -> [i32; 2] {
            [a.x, a.y]
        }
        /// inline-start, inline-end, block-start, block-end
        fn ls(a: [i32; 4]) -> flow_relative::Sides<i32> {
            flow_relative::Sides { inline_start: a[0], inline_end: a[1], block_start: a[2], block_end: a[3] }
        }
        fn sl(a: flow_relative::Sides<i32>) -> [i32; 4] {
            [a.inline_start, a.inline_end, a.block_start, a.block_end]
        }
        fn lr(a: [i32; 4]) -> flow_relative::Rect<i32> {
            flow_relative::Rect { start_corner: lv([a[0], a[1]]), size: lv([a[2], a[3]]) }
        }
        fn rl(a: flow_relative::Rect<i32>) -> [i32; 4] {
            [a.start_corner.inline, a.start_corner.block, a.size.inline, a.size.block]
        }
        fn pr(a: [i32; 4]) -> physical::Rect<i32> {
            physical::Rect { top_left: pv([a[0], a[1]]), size: pv([a[2], a[3]]) }
        }
        fn rp(a: physical::Rect<i32>) -> [i32; 4] {
            [a.top_left.x, a.top_left.y, a.size.x, a.size.y]
        }
        pub fn size_to_flow_relative(a: [i32; 2], m: Mode) -> [i32; 2] {
            vl(pv(a).size_to_flow_relative(mode(m)))
        }
        pub fn size_to_physical(a: [i32; 2], m: Mode) -> [i32; 2] {
            vp(lv(a).size_to_physical(mode(m)))
        }
        /// top, right, bottom, left
        pub fn sides_to_flow_relative(a: [i32; 4], m: Mode) -> [i32; 4] {
            sl(physical::Sides { top: a[0], right: a[1], bottom: a[2], left: a[3] }.to_flow_relative(mode(m)))
        }
        pub fn rect_to_physical(a: [i32; 4], m: Mode, container: [i32; 4]) -> [i32; 4] {
            rp(lr(a).to_physical(mode(m), &pr(container)))
        }
        pub fn inflate(a: [i32; 4], s: [i32; 4]) -> [i32; 4] {
            rl(lr(a).inflate(&ls(s)))
        }
        pub fn translate(a: [i32; 4], by: [i32; 2]) -> [i32; 4] {
            rp(pr(a).translate(&pv(by)))
        }
        pub fn add(a: [i32; 2], b: [i32; 2]) -> [[i32; 2]; 3] {
            let mut c = lv(a);
            c += &lv(b);
            [vl(&lv(a) + &lv(b)), vp(&pv(a) + &pv(b)), vl(c)]
        }
        pub fn sides_add(a: [i32; 4], b: [i32; 4]) -> [i32; 4] {
            sl(&ls(a) + &ls(b))
        }
        pub fn sides_map(a: [i32; 4], d: [i32; 2]) -> [[i32; 4]; 2] {
            [sl(ls(a).map(|x| x * d[0])), sl(ls(a).map_inline_and_block_axes(|x| x * d[0], |x| x * d[1]))]
        }
        pub fn sides_sums(a: [i32; 4]) -> ([i32; 2], [i32; 2]) {
            let s = ls(a);
            ([s.inline_sum(), s.block_sum()], vl(s.start_corner()))
        }
    }
}
