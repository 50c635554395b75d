// ---- cmap.rs
/// what the callback of each_code_point is given, in order
pub struct Pairs { pub log: Ghost<Seq<(u32, u16)>> }
impl Pairs {
    fn call(&mut self, c: u32, g: u16)
        ensures final(self).log@ == old(self).log@.push((c, g))
    { proof { self.log@ = self.log@.push((c, g)); } }
}
pub open spec fn has_pair(log: Seq<(u32, u16)>, c: u32, g: u16) -> bool { log.contains((c, g)) }
proof fn lemma_push(log: Seq<(u32, u16)>, c: u32, g: u16)
    ensures forall|x: u32, y: u16| #[trigger] has_pair(log.push((c, g)), x, y) <==> has_pair(log, x, y) || (x == c && y == g)
{
    let l = log.push((c, g));
    assert forall|x: u32, y: u16| #[trigger] has_pair(l, x, y) <==> has_pair(log, x, y) || (x == c && y == g) by {
        if has_pair(l, x, y) { let k = choose|k: int| 0 <= k < l.len() && l[k] == (x, y); if k < log.len() { assert(log[k] == (x, y)); } }
        if has_pair(log, x, y) { let k = choose|k: int| 0 <= k < log.len() && log[k] == (x, y); assert(l[k] == (x, y)); }
        assert(l[log.len() as int] == (c, g));
    }
}
pub open spec fn opt(g: int) -> Option<u16> { if g == 0 { None } else { Some(g as u16) } }

//@@ item victor/src/fonts/cmap.rs | struct Format4
//@@ sub /segment_count: u32/ => pub segment_count: u32
//@@ sub /end_codes: Pos/ => pub end_codes: Pos
//@@ sub /start_codes: Pos/ => pub start_codes: Pos
//@@ sub /id_deltas: Pos/ => pub id_deltas: Pos
//@@ sub /id_range_offsets: Pos/ => pub id_range_offsets: Pos
//@@ end
//@@ item victor/src/fonts/cmap.rs | struct Format12
//@@ sub /groups: Slice/ => pub groups: Slice
//@@ end
//@@ item victor/src/fonts/cmap.rs | enum Cmap
//@@ end

// format 4 as the OpenType specification defines it
impl Format4 {
    pub open spec fn end(&self, b: Seq<u8>, i: int) -> u16 { be16(b, self.end_codes.byte_position + 2 * i) }
    pub open spec fn first(&self, b: Seq<u8>, i: int) -> u16 { be16(b, self.start_codes.byte_position + 2 * i) }
    pub open spec fn delta(&self, b: Seq<u8>, i: int) -> u16 { be16(b, self.id_deltas.byte_position + 2 * i) }
    pub open spec fn range_at(&self, i: int) -> int { self.id_range_offsets.byte_position + 2 * i }
    pub open spec fn in_segment(&self, b: Seq<u8>, i: int, c: u32) -> bool { 0 <= i < self.segment_count && self.first(b, i) <= c <= self.end(b, i) }
    /// where the glyph array has the glyph of c
    pub open spec fn glyph_at(&self, b: Seq<u8>, i: int, c: int) -> int { self.range_at(i) + 2 * (c - self.first(b, i)) + be16(b, self.range_at(i)) }
    /// the glyph of character c of segment i; 0: none
    pub open spec fn glyph(&self, b: Seq<u8>, i: int, c: int) -> int {
        if be16(b, self.range_at(i)) != 0 {
            let g = be16(b, self.glyph_at(b, i, c));
            if g == 0 { 0 } else { (g + self.delta(b, i)) % 65536 }
        } else { (c + self.delta(b, i)) % 65536 }
    }
    pub open spec fn in_order(&self, b: Seq<u8>) -> bool {
        &&& forall|i: int| 0 <= i < self.segment_count ==> #[trigger] self.first(b, i) <= self.end(b, i)
        &&& forall|i: int, j: int| 0 <= i < j < self.segment_count ==> #[trigger] self.end(b, i) < #[trigger] self.first(b, j)
    }
    /// all that the subtable refers to is within the file
    pub open spec fn whole(&self, b: Seq<u8>) -> bool {
        &&& has(b, self.end_codes.byte_position as int, 2 * self.segment_count)
        &&& has(b, self.start_codes.byte_position as int, 2 * self.segment_count)
        &&& has(b, self.id_deltas.byte_position as int, 2 * self.segment_count)
        &&& has(b, self.id_range_offsets.byte_position as int, 2 * self.segment_count)
        &&& forall|i: int, c: u32| #[trigger] self.in_segment(b, i, c) && be16(b, self.range_at(i)) != 0 ==> has(b, self.glyph_at(b, i, c as int), 2)
    }
    pub open spec fn side(&self, b: Seq<u8>, i: int, c: int) -> Ordering {
        if c > self.end(b, i) { Ordering::Less } else if c < self.first(b, i) { Ordering::Greater } else { Ordering::Equal }
    }
    /// the character map: the pairs of characters and glyphs
    pub open spec fn maps(&self, b: Seq<u8>, c: u32, g: u16) -> bool {
        g != 0 && exists|i: int| self.in_segment(b, i, c) && #[trigger] self.glyph(b, i, c as int) == g
    }
    proof fn lemma_ordered(&self, b: Seq<u8>, c: int, o: spec_fn(u32) -> Ordering)
        requires self.in_order(b), forall|i: u32| #[trigger] o(i) == self.side(b, i as int, c)
        ensures ordered(o, self.segment_count)
    {
        assert forall|i: u32, j: u32| i < j < self.segment_count && #[trigger] o(j) == Ordering::Less implies #[trigger] o(i) == Ordering::Less by {
            assert(self.first(b, j as int) <= self.end(b, j as int)); assert(self.end(b, i as int) < self.first(b, j as int));
        }
        assert forall|i: u32, j: u32| i < j < self.segment_count && #[trigger] o(i) == Ordering::Greater implies #[trigger] o(j) == Ordering::Greater by {
            assert(self.first(b, j as int) <= self.end(b, j as int)); assert(self.end(b, i as int) < self.first(b, j as int));
        }
    }
    proof fn lemma_unique(&self, b: Seq<u8>, i: int, j: int, c: u32)
        requires self.in_order(b), self.in_segment(b, i, c), self.in_segment(b, j, c)
        ensures i == j
    { if i < j { assert(self.end(b, i) < self.first(b, j)); } else if j < i { assert(self.end(b, j) < self.first(b, i)); } }
}
impl Format4 {
//@@ fn victor/src/fonts/cmap.rs | impl Format4 :: parse
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures
        r is Ok <==> has(bytes@, sat(encoding_header.byte_position + 6) as int, 2),
        r matches Ok(f) ==> {
            let n = f.segment_count as int;
            &&& n == be16(bytes@, encoding_header.byte_position + 6) / 2
            &&& f.end_codes.byte_position == sat(encoding_header.byte_position + 14)
            &&& f.start_codes.byte_position == sat(encoding_header.byte_position + 16 + 2 * n)
            &&& f.id_deltas.byte_position == sat(encoding_header.byte_position + 16 + 4 * n)
            &&& f.id_range_offsets.byte_position == sat(encoding_header.byte_position + 16 + 6 * n)
        },
//@@ after OPT /let segment_count = .*?;/
    proof { let m = (segment_count + 1) as u32; assert((vstd::layout::size_of::<u16>() as u32) * m.num() == 2 * segment_count + 2) by (nonlinear_arith) requires vstd::layout::size_of::<u16>() as u32 == 2, m == segment_count + 1, m.num() == m; }
//@@ end
//@@ fn victor/src/fonts/cmap.rs | impl Format4 :: get
//@@ sub /binary_search\(self\.segment_count, \|segment_index\| \{(.*?)\n        \}\);/ => { let g = comparing(|segment_index: u32| -> (r: Result<Ordering, FontError>) requires segment_index < self.segment_count, file(bytes@) ensures r is Ok ==> r->Ok_0 == self.side(bytes@, segment_index as int, code_point as int), self.whole(bytes@) ==> r is Ok { \1 }); let found = binary_search(self.segment_count, g); proof { let o = |i: u32| self.side(bytes@, i as int, code_point as int); assert(answers(g, o, self.segment_count)); if self.in_order(bytes@) { self.lemma_ordered(bytes@, code_point as int, o); if found == Ok::<Option<u32>, FontError>(None) { assert forall|i: int| !#[trigger] self.in_segment(bytes@, i, code_point as u32) by { if 0 <= i < self.segment_count { assert(o(i as u32) != Ordering::Equal); } } } } } found };
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures
        self.whole(bytes@) ==> r is Ok,
        r matches Ok(Some(g)) ==> self.maps(bytes@, code_point, g),
        // a character that has no glyph in an ordered subtable is not mapped
        code_point > 0xFFFF ==> forall|g: u16| !#[trigger] self.maps(bytes@, code_point, g),
        code_point <= 0xFFFF && r == Ok::<Option<u16>, FontError>(None) && self.in_order(bytes@) ==> forall|g: u16| !#[trigger] self.maps(bytes@, code_point, g),
//@@ start
    let ghost wide = code_point;
    proof {
        assert forall|g: u16| self.in_order(bytes@) && #[trigger] self.maps(bytes@, code_point, g) implies forall|j: int| #[trigger] self.in_segment(bytes@, j, code_point) ==> self.glyph(bytes@, j, code_point as int) == g by {
            let i = choose|i: int| self.in_segment(bytes@, i, code_point) && #[trigger] self.glyph(bytes@, i, code_point as int) == g;
            assert forall|j: int| #[trigger] self.in_segment(bytes@, j, code_point) implies self.glyph(bytes@, j, code_point as int) == g by { self.lemma_unique(bytes@, i, j, code_point); }
        }
    }
//@@ after OPT /let code_point = code_point as u16;/
    proof {
        assert(code_point as u32 == wide && code_point as int == wide as int);
        if self.in_order(bytes@) {
            assert forall|i: int, j: int| #[trigger] self.in_segment(bytes@, i, code_point as u32) && #[trigger] self.in_segment(bytes@, j, code_point as u32) implies i == j by { self.lemma_unique(bytes@, i, j, code_point as u32); }
        }
    }
//@@ end
//@@ fn victor/src/fonts/cmap.rs | impl Format4 :: glyph_id
//@@ ret r
//@@ spec
    requires
        file(bytes@), segment_index < self.segment_count, start_code <= code_point,
        has(bytes@, self.start_codes.byte_position + 2 * segment_index, 2),
        start_code == self.first(bytes@, segment_index as int),
        self.in_segment(bytes@, segment_index as int, code_point as u32),
    ensures
        self.whole(bytes@) ==> r is Ok,
        r is Ok ==> r->Ok_0 == opt(self.glyph(bytes@, segment_index as int, code_point as int)),
//@@ end
//@@ fn victor/src/fonts/cmap.rs | impl Format4 :: each_code_point
//@@ hdr fn each_code_point(&self, bytes: &[u8], f: &mut Pairs) -> (r: Result<(), FontError>)
//@@ sub /\bf\(/ => f.call(
//@@ sub /for code_point in start_code\.\.=end_code \{/ => let mut next_ = start_code; let mut more_ = start_code <= end_code; while more_ { let code_point = next_; if next_ == end_code { more_ = false; } else { next_ = next_ + 1; }
//@@ spec
    requires file(bytes@), old(f).log@.len() == 0
    ensures
        self.whole(bytes@) ==> r is Ok,
        r is Ok ==> forall|c: u32, g: u16| #[trigger] has_pair(final(f).log@, c, g) <==> self.maps(bytes@, c, g),
        r is Err ==> forall|c: u32, g: u16| #[trigger] has_pair(final(f).log@, c, g) ==> self.maps(bytes@, c, g),
//@@ loop 1
    invariant
        file(bytes@),
        forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, segment_index as int, 0),
//@@ loop 2
    invariant
        file(bytes@), segment_index < self.segment_count,
        has(bytes@, self.start_codes.byte_position + 2 * segment_index, 2),
        start_code == self.first(bytes@, segment_index as int), end_code == self.end(bytes@, segment_index as int),
        more_ ==> start_code <= next_ <= end_code,
        forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, segment_index as int, if more_ { next_ as int } else { 65536 }),
    decreases (if more_ { end_code - next_ + 1 } else { 0 })
//@@ loopstart 2
    let ghost before = f.log@; let ghost at = next_;
//@@ loopend 2
    proof {
        lemma_push(before, code_point as u32, self.glyph(bytes@, segment_index as int, code_point as int) as u16);
        assert forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, segment_index as int, if more_ { next_ as int } else { 65536 }) by {
            self.lemma_step(bytes@, c, g, segment_index as int, at as int, if more_ { next_ as int } else { 65536 });
        }
    }
//@@ end
    /// the pairs of the segments before n, and of the characters before m of segment n
    pub open spec fn maps_below(&self, b: Seq<u8>, c: u32, g: u16, n: int, m: int) -> bool {
        g != 0 && exists|i: int| self.in_segment(b, i, c) && (i < n || (i == n && c < m)) && #[trigger] self.glyph(b, i, c as int) == g
    }
    proof fn lemma_step(&self, b: Seq<u8>, c: u32, g: u16, n: int, m: int, m2: int)
        requires self.in_segment(b, n, m as u32), 0 <= m < 65536, m2 == m + 1 || (m == self.end(b, n) && m2 > m)
        ensures self.maps_below(b, c, g, n, m2) <==> self.maps_below(b, c, g, n, m) || (c == m && g != 0 && self.glyph(b, n, m) == g)
    {
    }
}

// format 12 as the OpenType specification defines it; glyph numbers that do not fit 16 bits are missing glyphs
impl Format12 {
    pub open spec fn at(&self, i: int) -> int { self.groups.start.byte_position + 12 * i }
    pub open spec fn first(&self, b: Seq<u8>, i: int) -> u32 { be32(b, self.at(i)) }
    pub open spec fn end(&self, b: Seq<u8>, i: int) -> u32 { be32(b, self.at(i) + 4) }
    pub open spec fn glyph(&self, b: Seq<u8>, i: int, c: int) -> int { be32(b, self.at(i) + 8) + (c - self.first(b, i)) }
    pub open spec fn in_group(&self, b: Seq<u8>, i: int, c: u32) -> bool { 0 <= i < self.groups.count && self.first(b, i) <= c <= self.end(b, i) }
    pub open spec fn in_order(&self, b: Seq<u8>) -> bool {
        &&& forall|i: int| 0 <= i < self.groups.count ==> #[trigger] self.first(b, i) <= self.end(b, i)
        &&& forall|i: int, j: int| 0 <= i < j < self.groups.count ==> #[trigger] self.end(b, i) < #[trigger] self.first(b, j)
    }
    pub open spec fn whole(&self, b: Seq<u8>) -> bool { has(b, self.groups.start.byte_position as int, 12 * self.groups.count) }
    pub open spec fn maps(&self, b: Seq<u8>, c: u32, g: u16) -> bool {
        exists|i: int| self.in_group(b, i, c) && #[trigger] self.glyph(b, i, c as int) == g
    }
    pub open spec fn side(&self, b: Seq<u8>, i: int, c: int) -> Ordering {
        if c < self.first(b, i) { Ordering::Greater } else if c > self.end(b, i) { Ordering::Less } else { Ordering::Equal }
    }
    proof fn lemma_ordered(&self, b: Seq<u8>, c: int, o: spec_fn(u32) -> Ordering)
        requires self.in_order(b), forall|i: u32| #[trigger] o(i) == self.side(b, i as int, c)
        ensures ordered(o, self.groups.count)
    {
        assert forall|i: u32, j: u32| i < j < self.groups.count && #[trigger] o(j) == Ordering::Less implies #[trigger] o(i) == Ordering::Less by {
            assert(self.first(b, j as int) <= self.end(b, j as int)); assert(self.end(b, i as int) < self.first(b, j as int));
        }
        assert forall|i: u32, j: u32| i < j < self.groups.count && #[trigger] o(i) == Ordering::Greater implies #[trigger] o(j) == Ordering::Greater by {
            assert(self.first(b, j as int) <= self.end(b, j as int)); assert(self.end(b, i as int) < self.first(b, j as int));
        }
    }
    proof fn lemma_unique(&self, b: Seq<u8>, i: int, j: int, c: u32)
        requires self.in_order(b), self.in_group(b, i, c), self.in_group(b, j, c)
        ensures i == j
    { if i < j { assert(self.end(b, i) < self.first(b, j)); } else if j < i { assert(self.end(b, j) < self.first(b, i)); } }
    /// the pairs of the groups before n, and of the characters before m of group n
    pub open spec fn maps_below(&self, b: Seq<u8>, c: u32, g: u16, n: int, m: int) -> bool {
        c <= 0x10FFFF && exists|i: int| self.in_group(b, i, c) && (i < n || (i == n && c < m)) && #[trigger] self.glyph(b, i, c as int) == g
    }
//@@ fn victor/src/fonts/cmap.rs | impl Format12 :: parse
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures
        r is Ok <==> has(bytes@, encoding_header.byte_position + 12, 4),
        r matches Ok(f) ==> f.groups.start.byte_position == encoding_header.byte_position + 16 && f.groups.count == be32(bytes@, encoding_header.byte_position + 12),
//@@ end
//@@ fn victor/src/fonts/cmap.rs | impl Format12 :: get
//@@ sub /let result = binary_search\(self\.groups\.count\(\), \|index\| \{(.*?)\n        \}\);/ => let result = { let g = comparing(|index: u32| -> (r: Result<Ordering, FontError>) requires index < self.groups.count, file(bytes@) ensures r is Ok ==> r->Ok_0 == self.side(bytes@, index as int, code_point as int), self.whole(bytes@) ==> r is Ok { proof { self.lemma_at(index as int); } \1 }); let found = binary_search(self.groups.count(), g); proof { let o = |i: u32| self.side(bytes@, i as int, code_point as int); assert(answers(g, o, self.groups.count)); if self.in_order(bytes@) { self.lemma_ordered(bytes@, code_point as int, o); if found == Ok::<Option<u32>, FontError>(None) { assert forall|i: int| !#[trigger] self.in_group(bytes@, i, code_point) by { if 0 <= i < self.groups.count { assert(o(i as u32) != Ordering::Equal); } } } } } found };
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures
        self.whole(bytes@) ==> r is Ok,
        r matches Ok(Some(g)) ==> self.maps(bytes@, code_point, g),
        r == Ok::<Option<u16>, FontError>(None) && self.in_order(bytes@) ==> forall|g: u16| !#[trigger] self.maps(bytes@, code_point, g),
//@@ after OPT /let start_glyph_id = .*?;/
    proof { self.lemma_at(index as int); assert(self.in_group(bytes@, index as int, code_point)); self.lemma_one(bytes@, code_point, index as int); }
//@@ before OPT /if id32 <= 0xFFFF/
    proof { if id32 <= 0xFFFF { assert(self.glyph(bytes@, index as int, code_point as int) == (id32 as u16) as int); } }
//@@ end
    proof fn lemma_one(&self, b: Seq<u8>, c: u32, j: int)
        requires self.in_group(b, j, c)
        ensures self.in_order(b) ==> forall|g: u16| #[trigger] self.maps(b, c, g) ==> self.glyph(b, j, c as int) == g
    {
        if self.in_order(b) {
            assert forall|g: u16| #[trigger] self.maps(b, c, g) implies self.glyph(b, j, c as int) == g by {
                let i = choose|i: int| self.in_group(b, i, c) && #[trigger] self.glyph(b, i, c as int) == g;
                self.lemma_unique(b, i, j, c);
            }
        }
    }
    proof fn lemma_at(&self, i: int)
        ensures self.groups.at(i) == self.at(i)
    { assert((vstd::layout::size_of::<CmapFormat12Group>() as u32) * i == 12 * i) by (nonlinear_arith) requires vstd::layout::size_of::<CmapFormat12Group>() as u32 == 12; }
//@@ fn victor/src/fonts/cmap.rs | impl Format12 :: each_code_point
//@@ hdr fn each_code_point(&self, bytes: &[u8], f: &mut Pairs) -> (r: Result<(), FontError>)
//@@ sub /\bf\(/ => f.call(
//@@ sub /for group in self\.groups \{/ => let mut it_ = self.groups.into_iter(); let ghost mut n_: int = 0; while let Some(group) = it_.next() {
//@@ sub /for code_point in start_code\.\.=end_code\.min\(char::MAX as u32\) \{/ => let last_ = end_code.min(0x10FFFF); let mut next_ = start_code; let mut more_ = start_code <= last_; while more_ { let code_point = next_; if next_ == last_ { more_ = false; } else { next_ = next_ + 1; }
//@@ spec
    requires file(bytes@), old(f).log@.len() == 0, self.groups.start.byte_position <= bytes@.len()
    ensures
        self.whole(bytes@) ==> r is Ok,
        r is Ok ==> forall|c: u32, g: u16| c <= 0x10FFFF ==> (#[trigger] has_pair(final(f).log@, c, g) <==> self.maps(bytes@, c, g)),
        r is Err ==> forall|c: u32, g: u16| #[trigger] has_pair(final(f).log@, c, g) ==> self.maps(bytes@, c, g),
//@@ start
    proof { self.lemma_at(self.groups.count as int); }
//@@ loop 1
    invariant
        file(bytes@), 0 <= n_ <= self.groups.count,
        it_.start.byte_position == self.at(n_), self.at(n_) <= bytes@.len(),
        it_.end.byte_position == sat(self.at(self.groups.count as int)),
        forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, n_, 0),
    ensures n_ == self.groups.count
    decreases self.groups.count - n_
//@@ loopend 1
    proof { n_ = n_ + 1; }
//@@ loop 2
    invariant
        file(bytes@), 0 <= n_ < self.groups.count, has(bytes@, self.at(n_), 12),
        start_code == self.first(bytes@, n_), end_code == self.end(bytes@, n_), last_ == (if end_code < 0x10FFFF { end_code } else { 0x10FFFFu32 }),
        start_glyph_id == be32(bytes@, self.at(n_) + 8),
        more_ ==> start_code <= next_ <= last_,
        forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, n_, if more_ { next_ as int } else { 0x110000 }),
    ensures forall|c: u32, g: u16| #[trigger] has_pair(f.log@, c, g) <==> self.maps_below(bytes@, c, g, n_, 0x110000)
    decreases (if more_ { last_ - next_ + 1 } else { 0 })
//@@ loopstart 2
    let ghost before = f.log@; let ghost at = next_;
    proof { lemma_push(before, next_, self.glyph(bytes@, n_, next_ as int) as u16); }
//@@ end
}

// ---- the choice of the subtable
pub open spec fn rec(h: int, i: int) -> int { h + 4 + 8 * i }
/// encoding record i of the cmap table at h: the subtable's position
pub open spec fn subtable(b: Seq<u8>, h: int, i: int) -> int { h + be32(b, rec(h, i) + 4) }
pub open spec fn is_kind(b: Seq<u8>, h: int, i: int, encoding: int, format: int) -> bool {
    be16(b, rec(h, i)) == 3 && be16(b, rec(h, i) + 2) == encoding && be16(b, subtable(b, h, i)) == format
}
pub open spec fn supported(b: Seq<u8>, h: int, i: int) -> bool { is_kind(b, h, i, 1, 4) || is_kind(b, h, i, 10, 12) }
pub open spec fn parsed(cm: Cmap, b: Seq<u8>, h: int, i: int) -> bool {
    let s = subtable(b, h, i);
    match cm {
        Cmap::Format4(f) => is_kind(b, h, i, 1, 4) && {
            let n = f.segment_count as int;
            &&& n == be16(b, s + 6) / 2
            &&& f.end_codes.byte_position == sat(s + 14)
            &&& f.start_codes.byte_position == sat(s + 16 + 2 * n)
            &&& f.id_deltas.byte_position == sat(s + 16 + 4 * n)
            &&& f.id_range_offsets.byte_position == sat(s + 16 + 6 * n)
        },
        Cmap::Format12(f) => is_kind(b, h, i, 10, 12) && f.groups.start.byte_position == s + 16 && f.groups.count == be32(b, s + 12) && s + 16 <= b.len(),
    }
}
/// the subtable of the last supported encoding record of the table at h
pub open spec fn is_cmap_of(cm: Cmap, b: Seq<u8>, h: int) -> bool {
    exists|i: int| 0 <= i < be16(b, h + 2) && #[trigger] parsed(cm, b, h, i) && forall|j: int| i < j < be16(b, h + 2) ==> !#[trigger] supported(b, h, j)
}
proof fn lemma_record_at(s: Slice<CmapEncodingRecord>, i: int)
    ensures s.at(i) == s.start.byte_position + 8 * i
{ assert((vstd::layout::size_of::<CmapEncodingRecord>() as u32) * i == 8 * i) by (nonlinear_arith) requires vstd::layout::size_of::<CmapEncodingRecord>() as u32 == 8; }
impl Cmap {
//@@ fn victor/src/fonts/cmap.rs | impl Cmap :: parse
//@@ sub /for record in cmap_records\.into_iter\(\)\.rev\(\) \{/ => let mut it_ = cmap_records.into_iter(); let ghost mut n_: int = cmap_records.count as int; let ghost h = cmap_header.byte_position as int; proof { lemma_record_at(cmap_records, cmap_records.count as int); } while let Some(record) = it_.next_back() {
//@@ sub OPT /return Ok\(Cmap::Format4\((.*?)\?\)\)/ => let r_ = Cmap::Format4(\1?); proof { assert(parsed(r_, bytes@, h, n_)); assert(is_cmap_of(r_, bytes@, h)); } return Ok(r_);
//@@ sub OPT /return Ok\(Cmap::Format12\((.*?)\?\)\)/ => let r_ = Cmap::Format12(\1?); proof { assert(parsed(r_, bytes@, h, n_)); assert(is_cmap_of(r_, bytes@, h)); } return Ok(r_);
//@@ ret r
//@@ spec
    requires file(bytes@)
    ensures r matches Ok(cm) ==> exists|h: int| is_table(table_directory, bytes@, Tag([99u8, 109u8, 97u8, 112u8]), h) && #[trigger] is_cmap_of(cm, bytes@, h)
//@@ loop 1
    invariant
        file(bytes@), 0 <= n_ <= cmap_records.count, cmap_records.count == be16(bytes@, h + 2), h == cmap_header.byte_position, h + 4 <= bytes@.len(),
        is_table(table_directory, bytes@, Tag([99u8, 109u8, 97u8, 112u8]), h),
        it_.start.byte_position == h + 4,
        it_.end.byte_position == sat(rec(h, n_)),
        forall|j: int| n_ <= j < cmap_records.count ==> !#[trigger] supported(bytes@, h, j),
    decreases n_
//@@ loopstart 1
    proof { n_ = n_ - 1; }
//@@ end
}
