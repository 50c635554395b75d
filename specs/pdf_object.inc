// ---- the PDF syntax of objects (ISO 32000-1, 7.2 and 7.3)
pub open spec fn whitespace(b: u8) -> bool { b == 0 || b == 9 || b == 10 || b == 12 || b == 13 || b == 32 }
pub open spec fn delimiter(b: u8) -> bool {
    b == 40 || b == 41 || b == 60 || b == 62 || b == 91 || b == 93 || b == 123 || b == 125 || b == 47 || b == 37
}
pub open spec fn regular(b: u8) -> bool { !whitespace(b) && !delimiter(b) }
pub open spec fn digit(n: int) -> u8 { (48 + n) as u8 }
/// decimal digits of a natural number
pub open spec fn dec(n: nat) -> Seq<u8> decreases n {
    if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) }
}
pub open spec fn int_text(n: int) -> Seq<u8> { if n < 0 { seq![45u8] + dec((-n) as nat) } else { dec(n as nat) } }
pub open spec fn hex_digit(n: int) -> u8 { if n < 10 { (48 + n) as u8 } else { (55 + n) as u8 } }
pub open spec fn hex2(b: u8) -> Seq<u8> { seq![hex_digit(b as int / 16), hex_digit(b as int % 16)] }
/// the text of a real number: left to the harness
pub uninterp spec fn float_text(v: Flt) -> Seq<u8>;

// what is written
pub open spec fn name_char(b: u8) -> Seq<u8> { if regular(b) && b != 35 { seq![b] } else { BYTES("#") + hex2(b) } }
pub open spec fn name_text(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { name_text(s.drop_last()) + name_char(s.last()) }
}
pub open spec fn enc_name(s: Seq<u8>) -> Seq<u8> { BYTES("/") + name_text(s) }
pub open spec fn lit_char(b: u8) -> Seq<u8> {
    if b == 92 || b == 40 || b == 41 { seq![92u8, b] } else if b == 13 { BYTES("\\r") } else { seq![b] }
}
pub open spec fn lit_text(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { lit_text(s.drop_last()) + lit_char(s.last()) }
}
pub open spec fn hex_text(s: Seq<u8>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { seq![] } else { hex_text(s.drop_last()) + hex2(s.last()) }
}
pub open spec fn enc(o: Object) -> Seq<u8> decreases o, 0int {
    match o {
        Object::Usize(v) => int_text(v as int),
        Object::I32(v) => int_text(v as int),
        Object::Float(v) => float_text(v),
        Object::Name(s) => enc_name(s@),
        Object::LiteralString(s) => BYTES("(") + lit_text(s@) + BYTES(")"),
        Object::HexString(s) => BYTES("<") + hex_text(s@) + BYTES(">"),
        Object::Array(s) => BYTES("[") + enc_items(s@, s@.len() as int) + BYTES("]"),
        Object::Dictionary(d) => enc_dict(d),
        Object::Reference(id) => int_text(id.0 as int) + BYTES(" 0 R"),
        Object::GraphicsStateDictionaryAlpha(v) => BYTES("<<") + BYTES(" ") + enc_name(BYTES("CA")) + BYTES(" ") + float_text(v) + BYTES(" ") + enc_name(BYTES("ca")) + BYTES(" ") + float_text(v) + BYTES(" >>"),
        Object::DictionaryWithOwnedKeys(s) => BYTES("<<") + enc_owned(s@, s@.len() as int) + BYTES(" >>"),
    }
}
/// the first n items, separated by a space
pub open spec fn enc_items(s: Seq<Object>, n: int) -> Seq<u8> decreases s, n {
    if n <= 0 || n > s.len() { seq![] } else if n == 1 { enc(s[0]) } else { enc_items(s, n - 1) + BYTES(" ") + enc(s[n - 1]) }
}
pub open spec fn enc_owned(s: Seq<(Vec<u8>, Object)>, n: int) -> Seq<u8> decreases s, n {
    if n <= 0 || n > s.len() { seq![] } else { enc_owned(s, n - 1) + BYTES(" ") + enc_name(s[n - 1].0@) + BYTES(" ") + enc(s[n - 1].1) }
}
pub open spec fn enc_pairs(s: Seq<(&[u8], Object)>, n: int) -> Seq<u8> decreases s, n {
    if n <= 0 || n > s.len() { seq![] } else { enc_pairs(s, n - 1) + BYTES(" ") + enc_name(s[n - 1].0@) + BYTES(" ") + enc(s[n - 1].1) }
}
/// the pairs of linked dictionaries, then those of this one
pub open spec fn enc_all_pairs(d: Dictionary) -> Seq<u8> decreases d, 0int {
    (match d.prev { Some(p) => enc_all_pairs(*p), None => seq![] }) + enc_pairs(d.pairs@, d.pairs@.len() as int)
}
pub open spec fn enc_dict(d: Dictionary) -> Seq<u8> decreases d, 1int {
    BYTES("<<") + enc_all_pairs(d) + BYTES(" >>")
}

// ---- reading it back
pub open spec fn unhex(b: u8) -> Option<int> {
    if 48 <= b <= 57 { Some(b as int - 48) } else if 65 <= b <= 70 { Some(b as int - 55) } else if 97 <= b <= 102 { Some(b as int - 87) } else { None }
}
pub open spec fn put(b: u8, r: Option<(Seq<u8>, Seq<u8>)>) -> Option<(Seq<u8>, Seq<u8>)> {
    match r { Some((v, rest)) => Some((seq![b] + v, rest)), None => None }
}
/// 7.3.5: after "/", regular characters up to a white-space or delimiter character; # and two hexadecimal digits is a byte
pub open spec fn read_name(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    if s.len() == 0 || !regular(s[0]) { Some((seq![], s)) }
    else if s[0] == 35 {
        if s.len() >= 3 && unhex(s[1]) is Some && unhex(s[2]) is Some {
            put((unhex(s[1])->0 * 16 + unhex(s[2])->0) as u8, read_name(s.subrange(3, s.len() as int)))
        } else { None }
    } else { put(s[0], read_name(s.subrange(1, s.len() as int))) }
}
/// 7.3.4.3: after "<"
pub open spec fn read_hex(s: Seq<u8>) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == 62 { Some((seq![], s.subrange(1, s.len() as int))) }
    else if s.len() >= 2 && unhex(s[0]) is Some && unhex(s[1]) is Some {
        put((unhex(s[0])->0 * 16 + unhex(s[1])->0) as u8, read_hex(s.subrange(2, s.len() as int)))
    } else { None }
}
/// 7.3.4.2: after "(", with that many further parentheses open
pub open spec fn read_lit(s: Seq<u8>, depth: nat) -> Option<(Seq<u8>, Seq<u8>)> decreases s.len() {
    if s.len() == 0 { None }
    else if s[0] == 41 && depth == 0 { Some((seq![], s.subrange(1, s.len() as int))) }
    else if s[0] == 41 { put(41, read_lit(s.subrange(1, s.len() as int), (depth - 1) as nat)) }
    else if s[0] == 40 { put(40, read_lit(s.subrange(1, s.len() as int), depth + 1)) }
    else if s[0] == 13 {
        // an end-of-line marker reads as LF
        if s.len() >= 2 && s[1] == 10 { put(10, read_lit(s.subrange(2, s.len() as int), depth)) }
        else { put(10, read_lit(s.subrange(1, s.len() as int), depth)) }
    } else if s[0] == 92 {
        if s.len() < 2 { None }
        else {
            let e = s[1];
            let r = s.subrange(2, s.len() as int);
            if e == 110 { put(10, read_lit(r, depth)) }
            else if e == 114 { put(13, read_lit(r, depth)) }
            else if e == 116 { put(9, read_lit(r, depth)) }
            else if e == 98 { put(8, read_lit(r, depth)) }
            else if e == 102 { put(12, read_lit(r, depth)) }
            else if e == 40 || e == 41 || e == 92 { put(e, read_lit(r, depth)) }
            else { None }       // octal and line continuation are never written
        }
    } else { put(s[0], read_lit(s.subrange(1, s.len() as int), depth)) }
}
pub open spec fn read_nat(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { read_nat(s.drop_last()) * 10 + (s.last() - 48) as nat }
}

pub proof fn lemma_hex(b: u8)
    ensures
        unhex(hex_digit(b as int / 16)) == Some(b as int / 16), unhex(hex_digit(b as int % 16)) == Some(b as int % 16),
        (b as int / 16 * 16 + b as int % 16) as u8 == b,
        hex_digit(b as int / 16) != 62, regular(hex_digit(b as int / 16)),
{}
/// V08: whatever the bytes of a name, it reads back
pub proof fn lemma_name_reads_back(s: Seq<u8>, rest: Seq<u8>)
    requires rest.len() == 0 || !regular(rest[0])
    ensures read_name(name_text(s) + rest) == Some((s, rest))
    decreases s.len()
{
    lemma_name_read(s, seq![], rest);
    assert(name_text(s) + seq![] + rest =~= name_text(s) + rest);
    assert(read_name(rest) == Some((Seq::<u8>::empty(), rest)));
    assert(s + Seq::<u8>::empty() =~= s);
}
/// text of s, then other text t of a name
pub proof fn lemma_name_read(s: Seq<u8>, t: Seq<u8>, rest: Seq<u8>)
    requires read_name(t + rest) is Some
    ensures read_name(name_text(s) + t + rest) == Some((s + read_name(t + rest)->Some_0.0, read_name(t + rest)->Some_0.1))
    decreases s.len()
{
    if s.len() == 0 {
        assert(name_text(s) + t + rest =~= t + rest);
        assert(s + read_name(t + rest)->Some_0.0 =~= read_name(t + rest)->Some_0.0);
    } else {
        let b = s.last();
        let t2 = name_char(b) + t;
        lemma_hex(b);
        let x = t2 + rest;
        if regular(b) && b != 35 {
            assert(x.subrange(1, x.len() as int) =~= t + rest);
        } else {
            REVEAL("#");
            assert(x.subrange(3, x.len() as int) =~= t + rest);
            assert(x[0] == 35 && x[1] == hex_digit(b as int / 16) && x[2] == hex_digit(b as int % 16));
        }
        assert(read_name(x) == put(b, read_name(t + rest)));
        lemma_name_read(s.drop_last(), t2, rest);
        assert(name_text(s) + t + rest =~= name_text(s.drop_last()) + t2 + rest);
        assert(s.drop_last() + (seq![b] + read_name(t + rest)->Some_0.0) =~= s + read_name(t + rest)->Some_0.0);
    }
}
/// V08: whatever the bytes of a string, it reads back
pub proof fn lemma_string_reads_back(s: Seq<u8>, rest: Seq<u8>)
    ensures read_lit(lit_text(s) + seq![41u8] + rest, 0) == Some((s, rest))
{
    let e = seq![41u8] + rest;
    assert(e.subrange(1, e.len() as int) =~= rest);
    lemma_string_read(s, e);
    assert(lit_text(s) + seq![41u8] + rest =~= lit_text(s) + e);
    assert(s + Seq::<u8>::empty() =~= s);
}
pub proof fn lemma_string_read(s: Seq<u8>, t: Seq<u8>)
    requires read_lit(t, 0) is Some
    ensures read_lit(lit_text(s) + t, 0) == Some((s + read_lit(t, 0)->Some_0.0, read_lit(t, 0)->Some_0.1))
    decreases s.len()
{
    if s.len() == 0 {
        assert(lit_text(s) + t =~= t);
        assert(s + read_lit(t, 0)->Some_0.0 =~= read_lit(t, 0)->Some_0.0);
    } else {
        let b = s.last();
        REVEAL("\\r");
        let t2 = lit_char(b) + t;
        if lit_char(b).len() == 1 { assert(t2.subrange(1, t2.len() as int) =~= t); } else { assert(t2.subrange(2, t2.len() as int) =~= t); }
        assert(read_lit(t2, 0) == put(b, read_lit(t, 0)));
        lemma_string_read(s.drop_last(), t2);
        assert(lit_text(s) + t =~= lit_text(s.drop_last()) + t2);
        assert(s.drop_last() + (seq![b] + read_lit(t, 0)->Some_0.0) =~= s + read_lit(t, 0)->Some_0.0);
    }
}
pub proof fn lemma_hex_reads_back(s: Seq<u8>, rest: Seq<u8>)
    ensures read_hex(hex_text(s) + seq![62u8] + rest) == Some((s, rest))
{
    let e = seq![62u8] + rest;
    assert(e.subrange(1, e.len() as int) =~= rest);
    lemma_hex_read(s, e);
    assert(hex_text(s) + seq![62u8] + rest =~= hex_text(s) + e);
    assert(s + Seq::<u8>::empty() =~= s);
}
#[verifier::spinoff_prover]
pub proof fn lemma_hex_read(s: Seq<u8>, t: Seq<u8>)
    requires read_hex(t) is Some
    ensures read_hex(hex_text(s) + t) == Some((s + read_hex(t)->Some_0.0, read_hex(t)->Some_0.1))
    decreases s.len()
{
    if s.len() == 0 {
        assert(hex_text(s) + t =~= t);
        assert(s + read_hex(t)->Some_0.0 =~= read_hex(t)->Some_0.0);
    } else {
        let b = s.last();
        let t2 = hex2(b) + t;
        lemma_hex(b);
        assert(t2.subrange(2, t2.len() as int) =~= t);
        assert(read_hex(t2) == put(b, read_hex(t)));
        lemma_hex_read(s.drop_last(), t2);
        assert(hex_text(s) + t =~= hex_text(s.drop_last()) + t2);
        assert(s.drop_last() + (seq![b] + read_hex(t)->Some_0.0) =~= s + read_hex(t)->Some_0.0);
    }
}
pub proof fn lemma_number_reads_back(n: nat)
    ensures read_nat(dec(n)) == n, dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> 48 <= #[trigger] dec(n)[i] <= 57
    decreases n
{
    if n >= 10 {
        lemma_number_reads_back(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    } else {
        assert(dec(n).drop_last() =~= Seq::<u8>::empty());
        assert(read_nat(dec(n).drop_last()) == 0);
    }
}

// ---- std::io, itoa
pub mod io { #[derive(Debug)] pub struct Error; pub type Result<T> = core::result::Result<T, Error>; }
/// std::io::Write: what has been written so far
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    /// never reports an error
    spec fn infallible(&self) -> bool;
    /// what is behind this writer, when it is done
    #[verifier::prophetic]
    spec fn target(&self) -> (Seq<u8>, bool);
    /// how many bytes have been written, modulo 2^64
    spec fn count(&self) -> usize;
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>)
        ensures
            r is Ok ==> final(self).out() == old(self).out() + b@ && final(self).count() == plus(old(self).count(), b@.len()),
            old(self).infallible() ==> r is Ok && final(self).infallible(),
            final(self).target() == old(self).target();
}
pub mod wrapping { use vstd::prelude::*;
pub broadcast proof fn lemma_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures #[trigger] (a + (b + c)) == a + b + c
{ assert(a + (b + c) =~= a + b + c); }
pub broadcast proof fn lemma_empty(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub broadcast proof fn lemma_empty_first(a: Seq<u8>) ensures #[trigger] (Seq::<u8>::empty() + a) == a { assert(Seq::<u8>::empty() + a =~= a); }
/// addition modulo 2^64
#[verifier::opaque]
pub open spec fn plus(a: usize, n: nat) -> usize { ((a + n) % 0x1_0000_0000_0000_0000) as usize }
pub broadcast proof fn lemma_plus(a: usize, n: nat, m: nat)
    ensures #[trigger] plus(plus(a, n), m) == plus(a, n + m)
{ reveal(plus); }
pub broadcast proof fn lemma_plus_0(a: usize) ensures #[trigger] plus(a, 0) == a { reveal(plus); }
}
use wrapping::*;
use texts::*;
broadcast use {texts::axiom_slice_of, wrapping::lemma_plus, wrapping::lemma_plus_0, wrapping::lemma_assoc, wrapping::lemma_empty, wrapping::lemma_empty_first};
global size_of usize == 8;
/// arrays of one and two bytes
pub proof fn lemma_arrays(x: u8, y: u8) ensures [x]@ == seq![x], [x, y]@ == seq![x, y] { assert([x]@ =~= seq![x]); assert([x, y]@ =~= seq![x, y]); }
impl Write for Vec<u8> {
    #[verifier::prophetic]
    open spec fn target(&self) -> (Seq<u8>, bool) { (Seq::empty(), true) }
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn infallible(&self) -> bool { true }
    open spec fn count(&self) -> usize { plus(0, self@.len()) }
    fn write_all(&mut self, b: &[u8]) -> (r: io::Result<()>) { self.extend_from_slice(b); Ok(()) }
}
#[verifier::prophetic]
pub open spec fn wrote<W: Write>(r: io::Result<()>, w0: W, w1: W, text: Seq<u8>) -> bool {
    (r is Ok ==> w1.out() == w0.out() + text && w1.count() == plus(w0.count(), text.len())) && (w0.infallible() ==> r is Ok && w1.infallible()) && w1.target() == w0.target()
}
/// in the middle: this much was written
#[verifier::prophetic]
pub open spec fn since<W: Write>(w0: W, w1: W, text: Seq<u8>) -> bool {
    w1.out() == w0.out() + text && w1.count() == plus(w0.count(), text.len()) && (w0.infallible() ==> w1.infallible()) && w1.target() == w0.target()
}
pub trait Number: Sized { spec fn num(self) -> int; }
impl Number for i32 { open spec fn num(self) -> int { self as int } }
impl Number for u32 { open spec fn num(self) -> int { self as int } }
impl Number for usize { open spec fn num(self) -> int { self as int } }
pub mod itoa {
    use super::*;
    #[verifier::external_body]
    pub fn write<W: Write, N: Number>(w: &mut W, n: N) -> (r: io::Result<usize>)
        ensures
            r is Ok ==> final(w).out() == old(w).out() + int_text(n.num()) && final(w).count() == plus(old(w).count(), int_text(n.num()).len()),
            old(w).infallible() ==> r is Ok && final(w).infallible(),
            final(w).target() == old(w).target(),
    { unimplemented!() }
}
/// a string literal of the source is these bytes
#[verifier::external_body]
pub fn lit(b: &'static [u8]) -> (r: &'static str) ensures r.spec_bytes() == b@ { unimplemented!() }
pub assume_specification [<str as AsRef<[u8]>>::as_ref] (s: &str) -> (r: &[u8]) ensures r@ == s.spec_bytes();
/// the bytes of a text
pub mod texts { use vstd::prelude::*; use vstd::string::*;
pub uninterp spec fn slice_of(s: &str) -> &[u8];
pub broadcast axiom fn axiom_slice_of(s: &str) ensures (#[trigger] slice_of(s))@ == s.spec_bytes(); }
#[verifier::external_body]
pub fn bytes_of(s: &str) -> (r: &[u8]) ensures r == slice_of(s), r@ == s.spec_bytes() { unimplemented!() }

//@@ item victor/src/pdf/syntax.rs | struct IndirectObjectId
//@@ attr #[derive(Copy, Clone)]
//@@ end
//@@ item victor/src/pdf/object.rs | enum Object
//@@ end
//@@ item victor/src/pdf/object.rs | type KeyValuePairs
//@@ end
//@@ item victor/src/pdf/object.rs | struct Dictionary
//@@ end
//@@ item victor/src/pdf/object.rs | enum CharKind
//@@ sub /enum CharKind/ => pub enum CharKind
//@@ end
pub open spec fn kind_of(b: u8) -> CharKind {
    if whitespace(b) { CharKind::Whitespace } else if delimiter(b) { CharKind::Delimiter } else { CharKind::Regular }
}
//@@ item victor/src/pdf/object.rs | static KIND
//@@ sub /static KIND: \[CharKind; 256\] =/ => exec static KIND: [CharKind; 256] ensures forall|i: int| 0 <= i < 256 ==> #[trigger] KIND@[i] == kind_of(i as u8)
//@@ sub /\};\s*$/ => }
//@@ end

//@@ item victor/src/pdf/object.rs | macro_rules array
//@@ sub /(&\[[^;]*\])\[\.\.\]/ => (\1).as_slice()
//@@ sub /crate::pdf::object::Object::/ => Object::
//@@ end
//@@ item victor/src/pdf/object.rs | macro_rules key_value_pairs
//@@ sub /crate::pdf::object::Object::/ => Object::
//@@ end
//@@ item victor/src/pdf/object.rs | macro_rules dictionary
//@@ end
//@@ item victor/src/pdf/object.rs | macro_rules linked_dictionary
//@@ sub /::std::borrow::Borrow::borrow\(\$prev\)/ => $prev
//@@ end

impl<'a> vstd::std_specs::convert::FromSpecImpl<i32> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: i32) -> Self { Object::I32(v) }
}
impl<'a> From<i32> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<i32> for Object<'a> :: from
//@@ ret r
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<usize> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: usize) -> Self { Object::Usize(v) }
}
impl<'a> From<usize> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<usize> for Object<'a> :: from
//@@ ret r
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<Flt> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Flt) -> Self { Object::Float(v) }
}
impl<'a> From<Flt> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<f32> for Object<'a> :: from
//@@ ret r
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a str> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a str) -> Self { Object::Name(slice_of(v)) }
}
impl<'a> From<&'a str> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<&'a str> for Object<'a> :: from
//@@ sub /name\.as_bytes\(\)/ => bytes_of(name)
//@@ ret r
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<IndirectObjectId> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: IndirectObjectId) -> Self { Object::Reference(v) }
}
impl<'a> From<IndirectObjectId> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<IndirectObjectId> for Object<'a> :: from
//@@ ret r
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a [Object<'a>]> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'a [Object<'a>]) -> Self { Object::Array(v) }
}
impl<'a> From<&'a [Object<'a>]> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<&'a [Object<'a>]> for Object<'a> :: from
//@@ ret r
//@@ hdr fn from(value: &'a [Object<'a>]) -> (r: Self)
//@@ end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<Dictionary<'a>> for Object<'a> {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: Dictionary<'a>) -> Self { Object::Dictionary(v) }
}
impl<'a> From<Dictionary<'a>> for Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> From<Dictionary<'a>> for Object<'a> :: from
//@@ ret r
//@@ end
}

//@@ fn victor/src/pdf/object.rs | write_hex
//@@ bytes inline
//@@ ret r
//@@ spec
    ensures wrote(r, *old(w), *final(w), hex2(byte))
//@@ start
    assert(byte >> 4 == byte / 16) by (bit_vector);
    assert(byte & 0x0F == byte % 16) by (bit_vector);
    proof { lemma_hex(byte); }
//@@ end

//@@ fn victor/src/pdf/object.rs | write_name
//@@ bytes
//@@ sub /for &byte in name/ => for byte_ in it: name
//@@ sub /match KIND\[byte as usize\]/ => match &KIND[byte as usize]
//@@ ret r
//@@ spec
    ensures wrote(r, *old(w), *final(w), enc_name(name@))
//@@ start
//@@ loop 1
    invariant
        it.seq().len() == name@.len(), forall|i: int| 0 <= i < name@.len() ==> *(#[trigger] it.seq()[i]) == name@[i],
        since(*old(w), *w, enc_name(name@.take(it.index@))),
//@@ loopstart 1
    let byte = *byte_;
    proof {
        lemma_arrays(byte, 0);
        lemma_arrays(92, byte);
        assert(name@.take(it.index@ + 1).drop_last() =~= name@.take(it.index@));
        assert(name@.take(it.index@ + 1).last() == byte);
    }
//@@ afterloop 1
    proof { assert(name@.take(name@.len() as int) =~= name@); }
//@@ end

/// dtoa, and what is written for numbers out of its range
#[verifier::external_body]
pub fn write_float<W: Write>(value: Flt, w: &mut W) -> (r: io::Result<()>)
    ensures wrote(r, *old(w), *final(w), float_text(value))
{ unimplemented!() }

/// names of regular characters are written as they are
pub proof fn lemma_plain_name(s: Seq<u8>) requires forall|i: int| 0 <= i < s.len() ==> regular(#[trigger] s[i]) && s[i] != 35 ensures name_text(s) == s decreases s.len()
{
    if s.len() > 0 { lemma_plain_name(s.drop_last()); assert(name_text(s) =~= s); } else { assert(s =~= Seq::<u8>::empty()); }
}
/// the dictionary of a graphics state with some alpha
pub proof fn lemma_alpha(d: Dictionary, v: Flt)
    requires d.prev is None, d.pairs@.len() == 2, d.pairs@[0].0@ == BYTES("CA"), d.pairs@[1].0@ == BYTES("ca"),
        d.pairs@[0].1 == Object::Float(v), d.pairs@[1].1 == Object::Float(v)
    ensures enc_dict(d) == BYTES("<<") + BYTES(" ") + enc_name(BYTES("CA")) + BYTES(" ") + float_text(v) + BYTES(" ") + enc_name(BYTES("ca")) + BYTES(" ") + float_text(v) + BYTES(" >>")
{
    lemma_enc_pairs_2(d.pairs@);
    lemma_no_prev(d);
    assert(enc(d.pairs@[0].1) == float_text(v));
    assert(enc(d.pairs@[1].1) == float_text(v));
}
pub open spec fn enc_pair(p: (&[u8], Object)) -> Seq<u8> { BYTES(" ") + enc_name(p.0@) + BYTES(" ") + enc(p.1) }
pub proof fn lemma_enc_pairs_0(s: Seq<(&[u8], Object)>) requires s.len() == 0 ensures enc_pairs(s, s.len() as int) == seq![] {}
pub proof fn lemma_enc_pairs_step(s: Seq<(&[u8], Object)>, n: int) requires 1 <= n <= s.len() ensures enc_pairs(s, n) == enc_pairs(s, n - 1) + enc_pair(s[n - 1]) {}
pub proof fn lemma_enc_pairs_1(s: Seq<(&[u8], Object)>) requires s.len() >= 1 ensures enc_pairs(s, 1) == enc_pair(s[0])
{
    lemma_enc_pairs_step(s, 1);
    assert(enc_pairs(s, 0) + enc_pair(s[0]) =~= enc_pair(s[0]));
}
pub proof fn lemma_enc_pairs_2(s: Seq<(&[u8], Object)>) requires s.len() >= 2 ensures enc_pairs(s, 2) == enc_pair(s[0]) + enc_pair(s[1])
{ lemma_enc_pairs_1(s); lemma_enc_pairs_step(s, 2); }
pub proof fn lemma_enc_pairs_3(s: Seq<(&[u8], Object)>) requires s.len() >= 3 ensures enc_pairs(s, 3) == enc_pair(s[0]) + enc_pair(s[1]) + enc_pair(s[2])
{ lemma_enc_pairs_2(s); lemma_enc_pairs_step(s, 3); }
pub proof fn lemma_no_prev(d: Dictionary) requires d.prev is None ensures enc_all_pairs(d) == enc_pairs(d.pairs@, d.pairs@.len() as int)
{ assert(enc_all_pairs(d) =~= enc_pairs(d.pairs@, d.pairs@.len() as int)); }
impl<'a> Dictionary<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> Dictionary<'a> :: write
//@@ bytes
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    ensures wrote(r, *old(w), *final(w), enc_dict(*self))
//@@ start
//@@ end
//@@ fn victor/src/pdf/object.rs | impl<'a> Dictionary<'a> :: write_pairs
//@@ bytes
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ sub /for &\(key, ref value\) in self.pairs/ => for pair_ in it: self.pairs
//@@ ret r
//@@ spec
    ensures wrote(r, *old(w), *final(w), enc_all_pairs(*self))
//@@ start
//@@ loop 1
    invariant
        it.seq().len() == self.pairs@.len(), forall|i: int| 0 <= i < self.pairs@.len() ==> *(#[trigger] it.seq()[i]) == self.pairs@[i],
        since(*old(w), *w, (match self.prev { Some(p) => enc_all_pairs(*p), None => seq![] }) + enc_pairs(self.pairs@, it.index@)),
//@@ loopstart 1
    let key = pair_.0;
    let value = &pair_.1;
//@@ end
}
impl<'a> Object<'a> {
//@@ fn victor/src/pdf/object.rs | impl<'a> Object<'a> :: write
//@@ sub /\.map\(\|_\| \(\)\)/ => .map(|_x: usize| -> (u: ()) ensures true { () })
//@@ sub /for &byte in value/ => for byte_ in it: value
//@@ sub /for item in iter/ => for item in it: iter
//@@ sub /for &\(ref key, ref value\) in value/ => for pair_ in it: value
//@@ bytes
//@@ attr #[verifier::exec_allows_no_decreases_clause]
//@@ ret r
//@@ spec
    ensures wrote(r, *old(w), *final(w), enc(*self))
//@@ start
//@@ loop 1
    invariant
        it.seq().len() == value@.len(), forall|i: int| 0 <= i < value@.len() ==> *(#[trigger] it.seq()[i]) == value@[i],
        since(*old(w), *w, BYTES("(") + lit_text(value@.take(it.index@))),
//@@ loopstart 1
    let byte = *byte_;
    proof {
        lemma_arrays(byte, 0);
        lemma_arrays(92, byte);
        assert(value@.take(it.index@ + 1).drop_last() =~= value@.take(it.index@));
        assert(value@.take(it.index@ + 1).last() == byte);
    }
//@@ afterloop 1
    proof { assert(value@.take(value@.len() as int) =~= value@); }
//@@ loop 2
    invariant
        it.seq().len() == value@.len(), forall|i: int| 0 <= i < value@.len() ==> *(#[trigger] it.seq()[i]) == value@[i],
        since(*old(w), *w, BYTES("<") + hex_text(value@.take(it.index@))),
//@@ loopstart 2
    let byte = *byte_;
    proof {
        lemma_arrays(byte, 0);
        lemma_arrays(92, byte);
        assert(value@.take(it.index@ + 1).drop_last() =~= value@.take(it.index@));
        assert(value@.take(it.index@ + 1).last() == byte);
    }
//@@ afterloop 2
    proof { assert(value@.take(value@.len() as int) =~= value@); }
//@@ loop 3
    invariant
        value@.len() > 0, it.seq().len() == value@.len() - 1, forall|i: int| 0 <= i < value@.len() - 1 ==> *(#[trigger] it.seq()[i]) == value@[i + 1],
        since(*old(w), *w, BYTES("[") + enc_items(value@, it.index@ + 1)),
//@@ loop 4
    invariant
        it.seq().len() == value@.len(), forall|i: int| 0 <= i < value@.len() ==> *(#[trigger] it.seq()[i]) == value@[i],
        since(*old(w), *w, BYTES("<<") + enc_owned(value@, it.index@)),
//@@ loopstart 4
    let key = &pair_.0;
    let value = &pair_.1;
//@@ before OPT /dict\.write\(w\)/
    proof { lemma_alpha(dict, value); }
//@@ end
}
