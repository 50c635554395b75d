// ---- the table directory
pub open spec fn entry_at(d: Slice<TableDirectoryEntry>, i: int) -> int { d.start.byte_position + 16 * i }
pub open spec fn entry_tag(d: Slice<TableDirectoryEntry>, b: Seq<u8>, i: int) -> u32 { be32(b, entry_at(d, i)) }
/// a table of this name starts at p
pub open spec fn is_table(d: Slice<TableDirectoryEntry>, b: Seq<u8>, tag: Tag, p: int) -> bool {
    exists|i: int| 0 <= i < d.count && #[trigger] entry_tag(d, b, i) == tag_num(tag) && be32(b, entry_at(d, i) + 8) == p
}
pub open spec fn directory_sorted(d: Slice<TableDirectoryEntry>, b: Seq<u8>) -> bool {
    forall|i: int, j: int| 0 <= i < j < d.count ==> #[trigger] entry_tag(d, b, i) <= #[trigger] entry_tag(d, b, j)
}
pub open spec fn directory_whole(d: Slice<TableDirectoryEntry>, b: Seq<u8>) -> bool { has(b, d.start.byte_position as int, 16 * d.count) }
pub open spec fn table_listed(d: Slice<TableDirectoryEntry>, b: Seq<u8>, tag: Tag) -> bool { exists|i: int| 0 <= i < d.count && #[trigger] entry_tag(d, b, i) == tag_num(tag) }
proof fn lemma_entry_at(d: Slice<TableDirectoryEntry>)
    ensures forall|i: int| #[trigger] d.at(i) == entry_at(d, i)
{
    assert forall|i: int| #[trigger] d.at(i) == entry_at(d, i) by {
        assert((vstd::layout::size_of::<TableDirectoryEntry>() as u32) * i == 16 * i) by (nonlinear_arith) requires vstd::layout::size_of::<TableDirectoryEntry>() as u32 == 16;
    }
}
proof fn lemma_tag_num(b: Seq<u8>, p: int, t: Tag)
    requires has(b, p, 4), t == Tag(arr4(tail(b, p)))
    ensures tag_num(t) == be32(b, p)
{ }
impl Slice<TableDirectoryEntry> {
//@@ fn victor/src/fonts/mod.rs | impl Slice<TableDirectoryEntry> :: find_table
//@@ sub /&T::TAG/ => &T::tag()
//@@ sub /let search = self\.binary_search_by_key\((&\S+), \|entry\| (.*?)\)\?;/ => let f_ = |entry: Position<TableDirectoryEntry>| -> (r: Result<Tag, FontError>) requires file(bytes@) ensures r is Ok <==> has(bytes@, entry.byte_position as int, 4), r is Ok ==> tag_num(r->Ok_0) == be32(bytes@, entry.byte_position as int) { let r = \2; proof { if r is Ok { lemma_tag_num(bytes@, entry.byte_position as int, r->Ok_0); } } r }; let found_ = self.binary_search_by_key(\1, f_); proof { lemma_entry_at(*self); if directory_whole(*self, bytes@) && directory_sorted(*self, bytes@) { let key = |i: int| tag_of(entry_tag(*self, bytes@, i)); assert forall|i: int| tag_num(#[trigger] key(i)) == entry_tag(*self, bytes@, i) by { lemma_tag_of(entry_tag(*self, bytes@, i)); } lemma_keys(*self, bytes@, f_, key); assert(keys(*self, f_, key)); assert(sorted_by(key, T::tag_spec(), self.count as int)); if found_ == Ok::<Option<Position<TableDirectoryEntry>>, FontError>(None) { assert forall|i: int| 0 <= i < self.count implies #[trigger] entry_tag(*self, bytes@, i) != tag_num(T::tag_spec()) by { assert(key(i).order(T::tag_spec()) != Ordering::Equal); } } } } let search = found_?;
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures
        r matches Ok(p) ==> is_table(*self, bytes@, T::tag_spec(), p.byte_position as int),
        directory_whole(*self, bytes@) && directory_sorted(*self, bytes@) && table_listed(*self, bytes@, T::tag_spec()) ==> r is Ok,
//@@ end
}
proof fn lemma_keys<F: Fn(Position<TableDirectoryEntry>) -> Result<Tag, FontError>>(d: Slice<TableDirectoryEntry>, b: Seq<u8>, f: F, key: spec_fn(int) -> Tag)
    requires
        forall|i: int| #[trigger] d.at(i) == entry_at(d, i), file(b), directory_whole(d, b),
        forall|i: int| tag_num(#[trigger] key(i)) == entry_tag(d, b, i),
        forall|p: Position<TableDirectoryEntry>, r: Result<Tag, FontError>| #[trigger] f.ensures((p,), r) && r is Ok ==> tag_num(r->Ok_0) == be32(b, p.byte_position as int),
    ensures keys(d, f, key)
{
    assert forall|i: int, p: Position<TableDirectoryEntry>, r: Result<Tag, FontError>| 0 <= i < d.count && p.byte_position == sat(#[trigger] d.at(i)) && #[trigger] f.ensures((p,), r) && r is Ok implies r->Ok_0 == key(i) by {
        lemma_tag_inj(r->Ok_0, key(i));
    }
}
// ---- Font
/// conversions to floating point: not interpreted
pub uninterp spec fn as_f32<A, B>(x: TypedScale<u16, A, B>) -> TypedScale<f32, A, B>;
pub uninterp spec fn in_ems<T>(length: Length<T, FontDesignUnit>, per_em: TypedScale<f32, Em, FontDesignUnit>) -> Length<f32, Em>;
impl<A, B> TypedScale<u16, A, B> {
    #[verifier::external_body]
    pub fn cast(self) -> (r: TypedScale<f32, A, B>) ensures r == as_f32(self) { unimplemented!() }
}
/// the decodings of name strings: not interpreted
pub uninterp spec fn macintosh(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn ucs2(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
fn decode_macintosh(string_bytes: &[u8]) -> (r: String) ensures r@ == macintosh(string_bytes@) { unimplemented!() }
#[verifier::external_body]
fn decode_ucs2(string_bytes: &[u8]) -> (r: String) ensures r@ == ucs2(string_bytes@) { unimplemented!() }

pub open spec fn name_rec(h: int, i: int) -> int { h + 6 + 12 * i }
pub open spec fn name_start(b: Seq<u8>, h: int, i: int) -> int { h + be16(b, h + 4) + be16(b, name_rec(h, i) + 10) }
pub open spec fn name_bytes(b: Seq<u8>, h: int, i: int) -> Seq<u8> { b.subrange(name_start(b, h, i), name_start(b, h, i) + be16(b, name_rec(h, i) + 8)) }
/// record i of the naming table at h is a PostScript name that can be decoded
pub open spec fn is_mac_name(b: Seq<u8>, h: int, i: int) -> bool { be16(b, name_rec(h, i) + 6) == 6 && be16(b, name_rec(h, i)) == 1 }
pub open spec fn is_ucs2_name(b: Seq<u8>, h: int, i: int) -> bool { be16(b, name_rec(h, i) + 6) == 6 && be16(b, name_rec(h, i)) == 3 && be16(b, name_rec(h, i) + 2) == 1 }
pub open spec fn usable(b: Seq<u8>, h: int, i: int) -> bool { is_mac_name(b, h, i) || is_ucs2_name(b, h, i) }
pub open spec fn name_of(b: Seq<u8>, h: int, i: int, s: Seq<char>) -> bool {
    &&& is_mac_name(b, h, i) || is_ucs2_name(b, h, i)
    &&& has(b, name_start(b, h, i), be16(b, name_rec(h, i) + 8) as int)
    &&& s == if is_mac_name(b, h, i) { macintosh(name_bytes(b, h, i)) } else { ucs2(name_bytes(b, h, i)) }
}
/// the first name that can be decoded
pub open spec fn is_name_of(b: Seq<u8>, h: int, s: Seq<char>) -> bool {
    exists|i: int| 0 <= i < be16(b, h + 2) && #[trigger] name_of(b, h, i, s) && forall|j: int| 0 <= j < i ==> !#[trigger] usable(b, h, j)
}
pub open spec fn tag_name() -> Tag { Tag([110u8, 97u8, 109u8, 101u8]) }
pub open spec fn tag_cmap() -> Tag { Tag([99u8, 109u8, 97u8, 112u8]) }
pub open spec fn tag_maxp() -> Tag { Tag([109u8, 97u8, 120u8, 112u8]) }
pub open spec fn tag_head() -> Tag { Tag([104u8, 101u8, 97u8, 100u8]) }
pub open spec fn tag_hhea() -> Tag { Tag([104u8, 104u8, 101u8, 97u8]) }
pub open spec fn tag_hmtx() -> Tag { Tag([104u8, 109u8, 116u8, 120u8]) }
proof fn lemma_name_at(s: Slice<NameRecord>, i: int)
    ensures s.at(i) == s.start.byte_position + 12 * i
{ assert((vstd::layout::size_of::<NameRecord>() as u32) * i == 12 * i) by (nonlinear_arith) requires vstd::layout::size_of::<NameRecord>() as u32 == 12; }
//@@ fn victor/src/fonts/mod.rs | read_postscript_name
//@@ attr #[verifier::loop_isolation(false)]
//@@ sub /fn decode_macintosh\(.*?\n    \};?\n/ =>
//@@ sub OPT /fn decode_ucs2\(.*?\n    \};?\n/ =>
//@@ sub /let string_bytes = \|record: Position<NameRecord>\| \{(.*?)\n    \};/ => let string_bytes = |record: Position<NameRecord>| -> (r: Result<&[u8], FontError>) requires file(bytes@) ensures r matches Ok(s) ==> { let at = string_storage_start.byte_position + be16(bytes@, record.byte_position + 10); let n = be16(bytes@, record.byte_position + 8) as int; has(bytes@, record.byte_position as int, 12) && has(bytes@, at, n) && s@ == bytes@.subrange(at, at + n) } { \1 };
//@@ sub /for record in name_records \{/ => let mut it_ = name_records.into_iter(); let ghost mut n_: int = 0; let ghost h = naming_table_header.byte_position as int; proof { lemma_name_at(name_records, name_records.count as int); } while let Some(record) = it_.next() { proof { n_ = n_ + 1; }
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures r matches Ok(s) ==> exists|h: int| is_table(table_directory, bytes@, tag_name(), h) && #[trigger] is_name_of(bytes@, h, s@)
//@@ loop 1
    invariant
        file(bytes@), 0 <= n_ <= name_records.count, name_records.count == be16(bytes@, h + 2), h == naming_table_header.byte_position, h + 6 <= bytes@.len(),
        is_table(table_directory, bytes@, tag_name(), h),
        string_storage_start.byte_position == sat(h + be16(bytes@, h + 4)),
        it_.start.byte_position == sat(name_rec(h, n_)),
        it_.end.byte_position == sat(name_rec(h, name_records.count as int)),
        forall|j: int| 0 <= j < n_ ==> !#[trigger] usable(bytes@, h, j),
        forall|p: Position<NameRecord>| string_bytes.requires((p,)),
    decreases name_records.count - n_
//@@ before OPT /return Ok\(postscript_name\)/
    proof { assert(name_of(bytes@, h, n_ - 1, postscript_name@)); assert(is_name_of(bytes@, h, postscript_name@)); let r_ = Ok::<String, FontError>(postscript_name); assert(is_table(table_directory, bytes@, tag_name(), h) && is_name_of(bytes@, h, r_->Ok_0@)); assert(exists|h: int| is_table(table_directory, bytes@, tag_name(), h) && #[trigger] is_name_of(bytes@, h, r_->Ok_0@)); }
//@@ end

//@@ item victor/src/fonts/mod.rs | struct GlyphId
//@@ attr #[derive(Copy, Clone)]
//@@ end
//@@ item victor/src/fonts/mod.rs | struct Font
//@@ sub /bytes: Cow<'static, \[u8\]>/ => pub bytes: Vec<u8>
//@@ sub /cmap: Cmap/ => pub cmap: Cmap
//@@ sub /postscript_name: String/ => pub postscript_name: String
//@@ sub /glyph_count: u16/ => pub glyph_count: u16
//@@ sub /font_design_units_per_em: euclid::TypedScale/ => pub font_design_units_per_em: TypedScale
//@@ sub /horizontal_metrics: Slice/ => pub horizontal_metrics: Slice
//@@ sub /(ascender|descender|min_x|min_y|max_x|max_y): euclid::Length/ => pub \1: Length
//@@ end
/// what a font file at a table directory d says
pub open spec fn directory(b: Seq<u8>, d: Slice<TableDirectoryEntry>) -> bool { d.start.byte_position == 12 && d.count == be16(b, 4) && has(b, 4, 2) }
pub open spec fn i16_at(b: Seq<u8>, p: int, x: Length<i16, FontDesignUnit>) -> bool { has(b, p, 2) && x.v == signed16(be16(b, p)) }
pub open spec fn font_of(f: Font, b: Seq<u8>, d: Slice<TableDirectoryEntry>, cmap: int, name: int, maxp: int, head: int, hhea: int, hmtx: int) -> bool {
    &&& has(b, 0, 4) && (be32(b, 0) == 0x74727565 || be32(b, 0) == 0x10000)
    &&& directory(b, d)
    &&& is_table(d, b, tag_cmap(), cmap) && is_table(d, b, tag_name(), name) && is_table(d, b, tag_maxp(), maxp)
    &&& is_table(d, b, tag_head(), head) && is_table(d, b, tag_hhea(), hhea) && is_table(d, b, tag_hmtx(), hmtx)
    &&& is_cmap_of(f.cmap, b, cmap)
    &&& is_name_of(b, name, f.postscript_name@)
    &&& has(b, maxp + 4, 2) && f.glyph_count == be16(b, maxp + 4)
    &&& f.horizontal_metrics.start.byte_position == hmtx
    &&& has(b, hhea + 34, 2) && f.horizontal_metrics.count == be16(b, hhea + 34)
    &&& has(b, head + 18, 2) && f.font_design_units_per_em == as_f32(TypedScale::<u16, Em, FontDesignUnit> { v: be16(b, head + 18), a: PhantomData, b: PhantomData })
    &&& i16_at(b, hhea + 4, f.ascender) && i16_at(b, hhea + 6, f.descender)
    &&& i16_at(b, head + 36, f.min_x) && i16_at(b, head + 38, f.min_y) && i16_at(b, head + 40, f.max_x) && i16_at(b, head + 42, f.max_y)
}
impl Font {
//@@ fn victor/src/fonts/mod.rs | impl Font :: parse_without_cow_bytes_field
//@@ sub OPT /Ok\(Font \{(.*)\}\)/ => let r_ = Font {\1}; proof { let cm = choose|h: int| is_table(table_directory, bytes@, tag_cmap(), h) && #[trigger] is_cmap_of(r_.cmap, bytes@, h); let nm = choose|h: int| is_table(table_directory, bytes@, tag_name(), h) && #[trigger] is_name_of(bytes@, h, r_.postscript_name@); assert(font_of(r_, bytes@, table_directory, cm, nm, maxp.byte_position as int, header.byte_position as int, horizontal_header.byte_position as int, r_.horizontal_metrics.start.byte_position as int)); } Ok(r_)
//@@ sub /b""\[\.\.\]\.into\(\)/ => Vec::new()
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures r matches Ok(f) ==> exists|d: Slice<TableDirectoryEntry>, cmap: int, name: int, maxp: int, head: int, hhea: int, hmtx: int| #[trigger] font_of(f, bytes@, d, cmap, name, maxp, head, hhea, hmtx)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: bytes
//@@ sub /&self\.bytes/ => self.bytes.as_slice()
//@@ ret r
//@@ spec
    ensures r@ == self.bytes@
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: glyph_count
//@@ ret r
//@@ spec
    ensures r == self.glyph_count
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: glyph_id
//@@ sub /&self\.bytes/ => self.bytes.as_slice()
//@@ ret r
//@@ spec
    requires file(self.bytes@)
    ensures
        self.cmap.whole(self.bytes@) ==> r is Ok,
        r matches Ok(g) ==> g.0 != 0 ==> self.cmap.maps(self.bytes@, ch as u32, g.0),
        r matches Ok(g) ==> g.0 == 0 && self.cmap.in_order(self.bytes@) ==> forall|h: u16| h != 0 ==> !#[trigger] self.cmap.maps(self.bytes@, ch as u32, h),
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: glyph_width
//@@ sub /euclid::Length/ => Length
//@@ sub /&self\.bytes/ => self.bytes.as_slice()
//@@ ret r
//@@ spec
    requires file(self.bytes@)
    ensures
        self.horizontal_metrics.count == 0 ==> r is Err,
        self.horizontal_metrics.count > 0 && has(self.bytes@, self.horizontal_metrics.start.byte_position as int, 4 * self.horizontal_metrics.count) ==> r is Ok,
        r matches Ok(w) ==> {
            // the advance of the last record is that of all further glyphs
            let last = self.horizontal_metrics.count - 1;
            let i = if glyph_id.0 < last { glyph_id.0 as int } else { last };
            let at = self.horizontal_metrics.start.byte_position + 4 * i;
            has(self.bytes@, at, 2) && w == in_ems(Length::<u16, FontDesignUnit> { v: be16(self.bytes@, at), unit: PhantomData }, self.font_design_units_per_em)
        },
//@@ end
    #[verifier::external_body]
    fn to_ems<T>(&self, length: Length<T, FontDesignUnit>) -> (r: Length<f32, Em>) ensures r == in_ems(length, self.font_design_units_per_em) { unimplemented!() }
//@@ fn victor/src/fonts/mod.rs | impl Font :: ascender
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.ascender, self.font_design_units_per_em)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: descender
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.descender, self.font_design_units_per_em)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: min_x
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.min_x, self.font_design_units_per_em)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: min_y
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.min_y, self.font_design_units_per_em)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: max_x
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.max_x, self.font_design_units_per_em)
//@@ end
//@@ fn victor/src/fonts/mod.rs | impl Font :: max_y
//@@ sub /euclid::Length/ => Length
//@@ ret r
//@@ spec
    ensures r == in_ems(self.max_y, self.font_design_units_per_em)
//@@ end
}
impl Cmap {
    pub open spec fn maps(&self, b: Seq<u8>, c: u32, g: u16) -> bool { match self { Cmap::Format4(t) => t.maps(b, c, g), Cmap::Format12(t) => t.maps(b, c, g) } }
    pub open spec fn in_order(&self, b: Seq<u8>) -> bool { match self { Cmap::Format4(t) => t.in_order(b), Cmap::Format12(t) => t.in_order(b) } }
    pub open spec fn whole(&self, b: Seq<u8>) -> bool { match self { Cmap::Format4(t) => t.whole(b), Cmap::Format12(t) => t.whole(b) } }
}
