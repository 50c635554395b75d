pub open spec fn sat(x: int) -> u32 { if x > u32::MAX { u32::MAX } else if x < 0 { 0 } else { x as u32 } }
/// big-endian numbers at a position
pub open spec fn be16(b: Seq<u8>, p: int) -> u16 { (b[p] as int * 256 + b[p + 1] as int) as u16 }
pub open spec fn be32(b: Seq<u8>, p: int) -> u32 { (b[p] as int * 16777216 + b[p + 1] as int * 65536 + b[p + 2] as int * 256 + b[p + 3] as int) as u32 }
pub open spec fn signed16(x: u16) -> i16 { if x < 32768 { x as i16 } else { (x as int - 65536) as i16 } }
pub open spec fn tail(b: Seq<u8>, p: int) -> Seq<u8> { b.subrange(p, b.len() as int) }
/// n bytes at p are within the file
pub open spec fn has(b: Seq<u8>, p: int, n: int) -> bool { 0 <= p && p + n <= b.len() }
/// a font file of less than 4 GiB (2^32 - 1 bytes)
pub open spec fn file(b: Seq<u8>) -> bool { b.len() < u32::MAX }

pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool) ensures r == (*a == *b);

/// std::cmp::min, for the only type that is used
pub mod cmp { use vstd::prelude::*; pub fn min(a: u32, b: u32) -> (r: u32) ensures r == if a < b { a } else { b } { if a < b { a } else { b } } }

// ---- euclid
#[verifier::reject_recursive_types(U)]
pub struct Length<T, U> { pub v: T, pub unit: PhantomData<U> }
impl<T: Copy, U> Copy for Length<T, U> {}
impl<T: Copy, U> Clone for Length<T, U> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
pub struct TypedScale<T, A, B> { pub v: T, pub a: PhantomData<A>, pub b: PhantomData<B> }
impl<T, U> Length<T, U> { pub fn new(v: T) -> (r: Self) ensures r.v == v { Length { v, unit: PhantomData } } }
impl<T, A, B> TypedScale<T, A, B> { pub fn new(v: T) -> (r: Self) ensures r.v == v { TypedScale { v, a: PhantomData, b: PhantomData } } }
pub struct Em;
pub struct FontDesignUnit;

//@@ item victor/src/fonts/mod.rs | enum FontError
//@@ end
//@@ item victor/src/fonts/types.rs | type FontDesignUnitsPerEmFactorU16
//@@ sub /euclid::TypedScale/ => TypedScale
//@@ end
//@@ item victor/src/fonts/types.rs | type FWord
//@@ sub /euclid::Length/ => Length
//@@ end
//@@ item victor/src/fonts/types.rs | type UFWord
//@@ sub /euclid::Length/ => Length
//@@ end
//@@ item victor/src/fonts/types.rs | struct FixedPoint
//@@ end
//@@ item victor/src/fonts/types.rs | struct LongDateTime
//@@ end
//@@ item victor/src/fonts/types.rs | struct Tag
//@@ attr #[derive(Copy, Clone)]
//@@ end
//@@ item victor/src/fonts/parsing.rs | struct Position
//@@ sub /byte_position: u32/ => pub byte_position: u32
//@@ sub /ty: Phantom/ => pub ty: Phantom
//@@ attr #[verifier::reject_recursive_types(T)]
//@@ end
//@@ item victor/src/fonts/parsing.rs | struct Slice
//@@ sub /start: Pos/ => pub start: Pos
//@@ sub /count: u32/ => pub count: u32
//@@ attr #[verifier::reject_recursive_types(T)]
//@@ end
//@@ item victor/src/fonts/parsing.rs | struct SliceIter
//@@ sub /start: Pos/ => pub start: Pos
//@@ sub /end: Pos/ => pub end: Pos
//@@ attr #[verifier::reject_recursive_types(T)]
//@@ end

impl<T> Copy for Position<T> {}
impl<T> Clone for Position<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> Clone for Position<T> :: clone
//@@ ret r
//@@ spec
    ensures r == *self
//@@ end
}
impl<T> Copy for Slice<T> {}
impl<T> Clone for Slice<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> Clone for Slice<T> :: clone
//@@ ret r
//@@ spec
    ensures r == *self
//@@ end
}
impl<T> vstd::std_specs::cmp::PartialEqSpecImpl for Position<T> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.byte_position == other.byte_position }
}
impl<T> PartialEq for Position<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> PartialEq for Position<T> :: eq
//@@ ret r
//@@ end
}

/// `Into<u32>`, for the types that are used
pub trait IntoU32: Sized { spec fn num(self) -> u32; fn into(self) -> (r: u32) ensures r == self.num(); }
impl IntoU32 for u32 { open spec fn num(self) -> u32 { self } fn into(self) -> (r: u32) { self } }
impl IntoU32 for u16 { open spec fn num(self) -> u32 { self as u32 } fn into(self) -> (r: u32) { self as u32 } }

pub trait ReadFromBytes: Sized {
    spec fn width() -> int;
    spec fn value(b: Seq<u8>) -> Self;
    fn read_from(bytes: &[u8]) -> (r: Result<Self, FontError>)
        ensures
            r is Ok <==> bytes@.len() >= Self::width(),
            r is Ok ==> r->Ok_0 == Self::value(bytes@);
}
/// the bytes behind a reference to exactly n bytes: `*(bytes.as_ptr() as *const [u8; n])`
#[verifier::external_body]
pub fn array_of<const N: usize>(bytes: &[u8]) -> (r: [u8; N])
    requires bytes@.len() == N
    ensures r@ == bytes@
{ unimplemented!() }
pub open spec fn arr2(b: Seq<u8>) -> [u8; 2] { [b[0], b[1]] }
pub open spec fn arr4(b: Seq<u8>) -> [u8; 4] { [b[0], b[1], b[2], b[3]] }
/// numbers of the byte order of the machine; only their conversion from big-endian is used
pub uninterp spec fn native_u16(b: [u8; 2]) -> u16;
pub uninterp spec fn native_i16(b: [u8; 2]) -> i16;
pub uninterp spec fn native_u32(b: [u8; 4]) -> u32;
pub assume_specification [u16::from_be] (x: u16) -> (r: u16) ensures forall|b: [u8; 2]| #[trigger] native_u16(b) == x ==> r == be16(b@, 0);
pub assume_specification [i16::from_be] (x: i16) -> (r: i16) ensures forall|b: [u8; 2]| #[trigger] native_i16(b) == x ==> r == signed16(be16(b@, 0));
pub assume_specification [u32::from_be] (x: u32) -> (r: u32) ensures forall|b: [u8; 4]| #[trigger] native_u32(b) == x ==> r == be32(b@, 0);

impl ReadFromBytes for [u8; 2] {
    open spec fn width() -> int { 2 }
    open spec fn value(b: Seq<u8>) -> Self { arr2(b) }
//@@ fn @expanded | mod fonts :: mod parsing :: impl ReadFromBytes for [u8; 2] :: read_from
//@@ sub /let ptr = bytes\.as_ptr\(\) as \*const \[u8; 2\];\s*unsafe \{ Ok\(\*ptr\) \}/ => let r = array_of::<2>(bytes); assert(r =~= arr2(bytes@)); Ok(r)
//@@ ret r
//@@ end
}
impl ReadFromBytes for [u8; 4] {
    open spec fn width() -> int { 4 }
    open spec fn value(b: Seq<u8>) -> Self { arr4(b) }
//@@ fn @expanded | mod fonts :: mod parsing :: impl ReadFromBytes for [u8; 4] :: read_from
//@@ sub /let ptr = bytes\.as_ptr\(\) as \*const \[u8; 4\];\s*unsafe \{ Ok\(\*ptr\) \}/ => let r = array_of::<4>(bytes); assert(r =~= arr4(bytes@)); Ok(r)
//@@ ret r
//@@ end
}
//@@ fn victor/src/fonts/parsing.rs | i16_from_bytes
//@@ attr #[verifier::external_body]
//@@ ret r
//@@ spec
    ensures r == native_i16(bytes)
//@@ end
//@@ fn victor/src/fonts/parsing.rs | u16_from_bytes
//@@ attr #[verifier::external_body]
//@@ ret r
//@@ spec
    ensures r == native_u16(bytes)
//@@ end
//@@ fn victor/src/fonts/parsing.rs | u32_from_bytes
//@@ attr #[verifier::external_body]
//@@ ret r
//@@ spec
    ensures r == native_u32(bytes)
//@@ end
impl ReadFromBytes for i16 {
    open spec fn width() -> int { 2 }
    open spec fn value(b: Seq<u8>) -> Self { signed16(be16(b, 0)) }
//@@ fn victor/src/fonts/parsing.rs | impl ReadFromBytes for i16 :: read_from
//@@ ret r
//@@ end
}
impl ReadFromBytes for u16 {
    open spec fn width() -> int { 2 }
    open spec fn value(b: Seq<u8>) -> Self { be16(b, 0) }
//@@ fn victor/src/fonts/parsing.rs | impl ReadFromBytes for u16 :: read_from
//@@ ret r
//@@ end
}
impl ReadFromBytes for u32 {
    open spec fn width() -> int { 4 }
    open spec fn value(b: Seq<u8>) -> Self { be32(b, 0) }
//@@ fn victor/src/fonts/parsing.rs | impl ReadFromBytes for u32 :: read_from
//@@ ret r
//@@ end
}
impl ReadFromBytes for Tag {
    open spec fn width() -> int { 4 }
    open spec fn value(b: Seq<u8>) -> Self { Tag(arr4(b)) }
//@@ fn @expanded | mod fonts :: mod types :: impl crate::fonts::parsing::ReadFromBytes for Tag :: read_from
//@@ sub /use crate::fonts::parsing::ReadFromBytes;/ =>
//@@ sub /crate::fonts::FontError/ => FontError
//@@ sub /\.map\(Tag\)/ => .map(|x: [u8; 4]| -> (r: Tag) ensures r == Tag(x) { Tag(x) })
//@@ ret r
//@@ end
}
impl<T, Src, Dst> ReadFromBytes for TypedScale<T, Src, Dst> where T: ReadFromBytes {
    open spec fn width() -> int { T::width() }
    open spec fn value(b: Seq<u8>) -> Self { TypedScale { v: T::value(b), a: PhantomData, b: PhantomData } }
//@@ fn victor/src/fonts/parsing.rs | impl<T, Src, Dst> ReadFromBytes for euclid::TypedScale<T, Src, Dst> where T: ReadFromBytes, :: read_from
//@@ sub /\.map\(euclid::TypedScale::new\)/ => .map(|x: T| -> (r: Self) ensures r == (TypedScale { v: x, a: PhantomData, b: PhantomData }) { TypedScale::new(x) })
//@@ ret r
//@@ end
}
impl<T, Unit> ReadFromBytes for Length<T, Unit> where T: ReadFromBytes {
    open spec fn width() -> int { T::width() }
    open spec fn value(b: Seq<u8>) -> Self { Length { v: T::value(b), unit: PhantomData } }
//@@ fn victor/src/fonts/parsing.rs | impl<T, Unit> ReadFromBytes for euclid::Length<T, Unit> where T: ReadFromBytes, :: read_from
//@@ sub /\.map\(euclid::Length::new\)/ => .map(|x: T| -> (r: Self) ensures r == (Length { v: x, unit: PhantomData }) { Length::new(x) })
//@@ ret r
//@@ end
}

impl Position<OffsetSubtable> {
//@@ fn victor/src/fonts/parsing.rs | impl Position<OffsetSubtable> :: initial
//@@ ret r
//@@ spec
    ensures r.byte_position == 0
//@@ end
}
impl<T> Position<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> Position<T> :: cast
//@@ ret r
//@@ spec
    ensures r.byte_position == self.byte_position
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Position<T> :: offset_bytes
//@@ sub /O: Into<u32>/ => O: IntoU32
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + by.num())
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Position<T> :: offset
//@@ sub /O: Into<u32>/ => O: IntoU32
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + (vstd::layout::size_of::<T>() as u32) * by.num())
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Position<T> :: followed_by
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + vstd::layout::size_of::<T>() as u32)
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Position<T> :: read_from
//@@ ret r
//@@ spec
    requires T::width() >= 0
    ensures
        r is Ok <==> has(bytes@, self.byte_position as int, T::width()),
        r is Ok ==> r->Ok_0 == T::value(tail(bytes@, self.byte_position as int)),
//@@ end
}
impl Slice<u8> {
//@@ fn victor/src/fonts/parsing.rs | impl Slice<u8> :: read_from
//@@ ret r
//@@ spec
    ensures
        r is Ok <==> has(bytes@, self.start.byte_position as int, self.count as int),
        r is Ok ==> r->Ok_0@ == bytes@.subrange(self.start.byte_position as int, self.start.byte_position + self.count),
//@@ end
}
/// only fixes the kind of the closure
fn comparing<F: Fn(u32) -> Result<Ordering, FontError>>(f: F) -> (r: F) ensures r == f { f }
/// `Ord`, for the only type that is used
pub trait Key: Sized {
    spec fn order(self, other: Self) -> Ordering;
    fn cmp(&self, other: &Self) -> (r: Ordering) ensures r == self.order(*other);
}
pub open spec fn tag_num(t: Tag) -> u32 { be32(t.0@, 0) }
pub open spec fn compare(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal } }
impl Key for Tag {
    open spec fn order(self, other: Self) -> Ordering { compare(tag_num(self) as int, tag_num(other) as int) }
    /// derived: the order of the four bytes
    #[verifier::external_body]
    fn cmp(&self, other: &Self) -> (r: Ordering) { unimplemented!() }
}
impl<T> Slice<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> Slice<T> :: new
//@@ sub /C: Into<u32>/ => C: IntoU32
//@@ ret r
//@@ spec
    ensures r.start == start, r.count == count.num()
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Slice<T> :: count
//@@ ret r
//@@ spec
    ensures r == self.count
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> Slice<T> :: get_unchecked
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.at(index as int))
//@@ end
    pub open spec fn at(&self, index: int) -> int { self.start.byte_position + (vstd::layout::size_of::<T>() as u32) * index }
//@@ fn victor/src/fonts/parsing.rs | impl<T> Slice<T> :: binary_search_by_key
//@@ attr #[inline]
//@@ sub /F: FnMut\(/ => F: Fn(
//@@ sub /mut f: F/ => f: F
//@@ sub /V: Ord/ => V: Key
//@@ sub /binary_search\(self\.count, \|index\| \{\s*Ok\(f\(self\.get_unchecked\(index\)\)\?\.cmp\(value\)\)\s*\}\)\s*\.map\(\|opt\| opt\.map\(\|index\| self\.get_unchecked\(index\)\)\)/ => let g = comparing(|index: u32| -> (r: Result<Ordering, FontError>) requires index < self.count ensures r is Ok ==> exists|p: Position<T>, v: V| p.byte_position == sat(self.at(index as int)) && #[trigger] f.ensures((p,), Ok(v)) && r->Ok_0 == v.order(*value), r is Err ==> exists|p: Position<T>| p.byte_position == sat(self.at(index as int)) && #[trigger] f.ensures((p,), Err(r->Err_0)) { Ok(f(self.get_unchecked(index))?.cmp(value)) }); let found = binary_search(self.count, g); proof { if found == Ok::<Option<u32>, FontError>(None) { assert forall|key: spec_fn(int) -> V| #[trigger] keys(*self, f, key) && sorted_by(key, *value, self.count as int) implies forall|i: int| 0 <= i < self.count ==> (#[trigger] key(i)).order(*value) != Ordering::Equal by { let o = |i: u32| key(i as int).order(*value); assert(answers(g, o, self.count)); assert(ordered(o, self.count)); assert forall|i: int| 0 <= i < self.count implies (#[trigger] key(i)).order(*value) != Ordering::Equal by { assert(o(i as u32) != Ordering::Equal); } } } } found.map(|opt: Option<u32>| -> (r: Option<Position<T>>) ensures r is Some <==> opt is Some, r is Some ==> r->0.byte_position == sat(self.at(opt->0 as int)) { opt.map(|index: u32| -> (r: Position<T>) ensures r.byte_position == sat(self.at(index as int)) { self.get_unchecked(index) }) })
//@@ ret r
//@@ spec
    requires
        forall|i: int, p: Position<T>| 0 <= i < self.count && p.byte_position == #[trigger] sat(self.at(i)) ==> #[trigger] f.requires((p,)),
    ensures
        // what is found has the key that is looked for
        r matches Ok(Some(q)) ==> exists|i: int, p: Position<T>, v: V| 0 <= i < self.count && q.byte_position == p.byte_position && p.byte_position == sat(#[trigger] self.at(i))
            && #[trigger] f.ensures((p,), Ok(v)) && v.order(*value) == Ordering::Equal,
        // if nothing is found in a sorted slice, no item has that key
        r matches Ok(None) ==> forall|key: spec_fn(int) -> V| #[trigger] keys(*self, f, key) && sorted_by(key, *value, self.count as int)
            ==> forall|i: int| 0 <= i < self.count ==> (#[trigger] key(i)).order(*value) != Ordering::Equal,
        r matches Err(e) ==> exists|i: int, p: Position<T>| 0 <= i < self.count && p.byte_position == sat(#[trigger] self.at(i)) && #[trigger] f.ensures((p,), Err(e)),
//@@ end
}
/// the keys that f reads from the items
pub open spec fn keys<T, V, F: Fn(Position<T>) -> Result<V, FontError>>(s: Slice<T>, f: F, key: spec_fn(int) -> V) -> bool {
    forall|i: int, p: Position<T>, r: Result<V, FontError>| 0 <= i < s.count && p.byte_position == sat(#[trigger] s.at(i)) && #[trigger] f.ensures((p,), r) && r is Ok ==> r->Ok_0 == key(i)
}
pub open spec fn sorted_by<V: Key>(key: spec_fn(int) -> V, value: V, n: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < n && #[trigger] key(j).order(value) == Ordering::Less ==> #[trigger] key(i).order(value) == Ordering::Less
    &&& forall|i: int, j: int| 0 <= i < j < n && #[trigger] key(i).order(value) == Ordering::Greater ==> #[trigger] key(j).order(value) == Ordering::Greater
}
impl<T> Slice<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> IntoIterator for Slice<T> :: into_iter
//@@ ret r
//@@ spec
    ensures r.start == self.start, r.end.byte_position == sat(self.at(self.count as int))
//@@ end
}
impl<T> SliceIter<T> {
//@@ fn victor/src/fonts/parsing.rs | impl<T> Iterator for SliceIter<T> :: next
//@@ sub /Option<Self::Item>/ => Option<Position<T>>
//@@ ret r
//@@ spec
    ensures
        old(self).start.byte_position == old(self).end.byte_position ==> r is None && *final(self) == *old(self),
        old(self).start.byte_position != old(self).end.byte_position ==> r == Some(old(self).start)
            && final(self).start.byte_position == sat(old(self).start.byte_position + vstd::layout::size_of::<T>() as u32)
            && final(self).end == old(self).end,
//@@ end
//@@ fn victor/src/fonts/parsing.rs | impl<T> DoubleEndedIterator for SliceIter<T> :: next_back
//@@ sub /Option<Self::Item>/ => Option<Position<T>>
//@@ ret r
//@@ spec
    requires old(self).start.byte_position != old(self).end.byte_position ==> old(self).end.byte_position >= vstd::layout::size_of::<T>() as u32
    ensures
        old(self).start.byte_position == old(self).end.byte_position ==> r is None && *final(self) == *old(self),
        old(self).start.byte_position != old(self).end.byte_position ==> r is Some
            && r->0.byte_position == old(self).end.byte_position - vstd::layout::size_of::<T>() as u32
            && final(self).end == r->0 && final(self).start == old(self).start,
//@@ end
}

/// the items up to some index are Less, then come Equal ones, then Greater ones
pub open spec fn ordered(o: spec_fn(u32) -> Ordering, size: u32) -> bool {
    &&& forall|i: u32, j: u32| i < j < size && #[trigger] o(j) == Ordering::Less ==> #[trigger] o(i) == Ordering::Less
    &&& forall|i: u32, j: u32| i < j < size && #[trigger] o(i) == Ordering::Greater ==> #[trigger] o(j) == Ordering::Greater
}
/// f answers o(i) for every index below size, or fails
pub open spec fn answers<F: FnMut(u32) -> Result<Ordering, E>, E>(f: F, o: spec_fn(u32) -> Ordering, size: u32) -> bool {
    forall|i: u32, r: Result<Ordering, E>| i < size && #[trigger] f.ensures((i,), r) && r is Ok ==> r->Ok_0 == o(i)
}
//@@ fn victor/src/fonts/parsing.rs | binary_search
//@@ attr #[verifier::loop_isolation(false)]
//@@ ret r
//@@ spec
    requires forall|i: u32| i < size ==> #[trigger] f.requires((i,))
    ensures
        r matches Ok(Some(i)) ==> i < size && f.ensures((i,), Ok(Ordering::Equal)),
        r matches Err(e) ==> exists|i: u32| i < size && #[trigger] f.ensures((i,), Err(e)),
        r matches Ok(None) ==> forall|o: spec_fn(u32) -> Ordering| #[trigger] answers(f, o, size) && ordered(o, size)
            ==> forall|i: u32| i < size ==> #[trigger] o(i) != Ordering::Equal,
//@@ start
    let ghost n = size; let ghost f0 = f;
//@@ loop 1
    invariant
        f == f0, n > 0, 1 <= size, base + size <= n,
        forall|i: u32| i < n ==> #[trigger] f.requires((i,)),
        forall|o: spec_fn(u32) -> Ordering| #[trigger] answers(f, o, n) && ordered(o, n) ==> {
            &&& forall|i: u32| i < base ==> #[trigger] o(i) != Ordering::Equal || o(base) == Ordering::Equal
            &&& forall|i: u32| base + size <= i < n ==> #[trigger] o(i) == Ordering::Greater
        },
    decreases size
//@@ end
/// the tag with these four bytes
pub open spec fn tag_of(n: u32) -> Tag { Tag([(n / 16777216) as u8, (n / 65536 % 256) as u8, (n / 256 % 256) as u8, (n % 256) as u8]) }
proof fn lemma_tag_of(n: u32) ensures tag_num(tag_of(n)) == n { }
proof fn lemma_tag_inj(a: Tag, b: Tag) requires tag_num(a) == tag_num(b) ensures a == b {
    lemma_digits(a.0@[0] as int, a.0@[1] as int, a.0@[2] as int, a.0@[3] as int, b.0@[0] as int, b.0@[1] as int, b.0@[2] as int, b.0@[3] as int);
    assert(a.0@ =~= b.0@);
    assert(a.0 =~= b.0);
}
proof fn lemma_digits(a0: int, a1: int, a2: int, a3: int, b0: int, b1: int, b2: int, b3: int)
    requires
        0 <= a0 < 256, 0 <= a1 < 256, 0 <= a2 < 256, 0 <= a3 < 256, 0 <= b0 < 256, 0 <= b1 < 256, 0 <= b2 < 256, 0 <= b3 < 256,
        a0 * 16777216 + a1 * 65536 + a2 * 256 + a3 == b0 * 16777216 + b1 * 65536 + b2 * 256 + b3,
    ensures a0 == b0, a1 == b1, a2 == b2, a3 == b3
{ assert(a0 == b0); assert(a1 == b1); assert(a2 == b2); }
