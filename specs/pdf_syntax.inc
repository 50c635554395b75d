// ---- file structure (ISO 32000-1, 7.5)
//@@ item victor/src/pdf/syntax.rs | const FIRST_ID
//@@ end
//@@ item victor/src/pdf/syntax.rs | const PAGE_TREE_ID
//@@ end
//@@ item victor/src/pdf/syntax.rs | const CATALOG_ID
//@@ end
//@@ item victor/src/pdf/syntax.rs | const INFO_ID
//@@ end
//@@ item victor/src/pdf/syntax.rs | const FIRST_AVAILABLE_ID
//@@ end
//@@ item victor/src/pdf/syntax.rs | struct BasicObjects
//@@ end
//@@ item victor/src/pdf/syntax.rs | struct PdfFile
//@@ sub /indirect_objects:/ => pub indirect_objects:
//@@ sub /next_id:/ => pub next_id:
//@@ end
//@@ item victor/src/pdf/syntax.rs | struct CountingWrite
//@@ sub /inner:/ => pub inner:
//@@ sub /bytes_written:/ => pub bytes_written:
//@@ end

pub open spec fn object_text(number: int, body: Seq<u8>) -> Seq<u8> {
    int_text(number) + BYTES(" 0 obj\n") + body + BYTES("\nendobj\n")
}
/// header and the first n objects, numbered from 1
pub open spec fn body_text(bodies: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { BYTES("%PDF-1.5\n%\xB5\xED\xAE\xFB\n") } else { body_text(bodies, n - 1) + object_text(n, bodies[n - 1]) }
}
/// where the object with this number begins
pub open spec fn offset_of(bodies: Seq<Seq<u8>>, number: int) -> int { body_text(bodies, number - 1).len() as int }
/// n as k decimal digits
pub open spec fn padded(n: int, k: int) -> Seq<u8> decreases k {
    if k <= 0 { seq![] } else { padded(n / 10, k - 1).push(digit(n % 10)) }
}
/// entries of the objects 1 to n: exactly 20 bytes each
pub open spec fn xref_entries(bodies: Seq<Seq<u8>>, n: int) -> Seq<u8> decreases n {
    if n <= 0 { seq![] } else { xref_entries(bodies, n - 1) + padded(offset_of(bodies, n), 10) + BYTES(" 00000 n \n") }
}
pub open spec fn trailer_text(bodies: Seq<Seq<u8>>) -> Seq<u8> { trailer_text_of(bodies.len() as int + 1) }
pub open spec fn trailer_text_of(size: int) -> Seq<u8> {
    BYTES("trailer\n") + BYTES("<<") + BYTES(" ") + enc_name(BYTES("Size")) + BYTES(" ") + int_text(size)
        + BYTES(" ") + enc_name(BYTES("Root")) + BYTES(" ") + int_text(2) + BYTES(" 0 R")
        + BYTES(" ") + enc_name(BYTES("Info")) + BYTES(" ") + int_text(3) + BYTES(" 0 R") + BYTES(" >>")
}
pub open spec fn xref_text(b: Seq<Seq<u8>>) -> Seq<u8> {
    BYTES("xref\n0 ") + int_text(b.len() as int + 1) + BYTES("\n0000000000 65535 f \n") + xref_entries(b, b.len() as int)
}
pub open spec fn end_text(b: Seq<Seq<u8>>) -> Seq<u8> {
    xref_text(b) + trailer_text(b) + BYTES("\nstartxref\n") + int_text(body_text(b, b.len() as int).len() as int) + BYTES("\n%%EOF")
}
pub open spec fn file_text(b: Seq<Seq<u8>>) -> Seq<u8> { body_text(b, b.len() as int) + end_text(b) }
pub open spec fn views(v: Seq<Vec<u8>>) -> Seq<Seq<u8>> { v.map_values(|x: Vec<u8>| x@) }
/// the bodies of all objects, in the order of their numbers
pub open spec fn bodies(b: BasicObjects, f: PdfFile) -> Seq<Seq<u8>> {
    seq![enc_dict(b.page_tree), enc_dict(b.catalog), enc_dict(b.info)] + views(f.indirect_objects@)
}
pub open spec fn consistent(f: PdfFile) -> bool { f.next_id.0 == f.indirect_objects@.len() + 4 }
pub open spec fn stream_text(meta: Dictionary, contents: Seq<u8>) -> Seq<u8> {
    BYTES("<<") + enc_all_pairs(meta) + BYTES(" ") + enc_name(BYTES("Length")) + BYTES(" ") + int_text(contents.len() as int) + BYTES(" >>") + BYTES("\nstream\n") + contents + BYTES("\nendstream")
}

pub proof fn lemma_body_grows(b: Seq<Seq<u8>>, i: int, n: int)
    requires 0 <= i <= n
    ensures body_text(b, i).is_prefix_of(body_text(b, n)), body_text(b, i).len() <= body_text(b, n).len()
    decreases n
{
    if i < n { lemma_body_grows(b, i, n - 1); assert(body_text(b, i).is_prefix_of(body_text(b, n))); }
}
pub proof fn lemma_prefix_at(f: Seq<u8>, p: Seq<u8>, o: Seq<u8>, rest: Seq<u8>)
    requires f == p + o + rest
    ensures o.is_prefix_of(f.subrange(p.len() as int, f.len() as int))
{
    assert(f.subrange(p.len() as int, f.len() as int) =~= o + rest);
}
pub proof fn lemma_prefix_split(f: Seq<u8>, p: Seq<u8>)
    requires p.is_prefix_of(f)
    ensures f == p + f.subrange(p.len() as int, f.len() as int)
{ assert(f =~= p + f.subrange(p.len() as int, f.len() as int)); }
/// V09: at the offset in the table, the object with that number begins
pub proof fn lemma_located(b: Seq<Seq<u8>>, number: int)
    requires 1 <= number <= b.len()
    ensures object_text(number, b[number - 1]).is_prefix_of(file_text(b).subrange(offset_of(b, number), file_text(b).len() as int)),
        0 <= offset_of(b, number) < file_text(b).len()
{
    hide(end_text);
    hide(object_text);
    let n = b.len() as int;
    let o = object_text(number, b[number - 1]);
    lemma_body_grows(b, number, n);
    let p = body_text(b, number - 1);
    assert(body_text(b, number) == p + o);
    lemma_prefix_split(body_text(b, n), p + o);
    let r = body_text(b, n).subrange((p + o).len() as int, body_text(b, n).len() as int);
    assert(file_text(b) =~= p + o + (r + end_text(b)));
    lemma_prefix_at(file_text(b), p, o, r + end_text(b));
    assert(o.len() > 0) by { reveal(object_text); }
}
pub proof fn lemma_padded_reads_back(n: int, k: int)
    requires 0 <= n < pow10(k), k >= 0
    ensures read_nat(padded(n, k)) == n, padded(n, k).len() == k
    decreases k
{
    if k > 0 {
        lemma_padded_reads_back(n / 10, k - 1);
        assert(padded(n, k).drop_last() =~= padded(n / 10, k - 1));
    } else {}
}
pub open spec fn pow10(k: int) -> int decreases k { if k <= 0 { 1 } else { 10 * pow10(k - 1) } }
pub proof fn lemma_div_pow(n: int, k: int)
    requires n >= 0, k >= 0
    ensures n / pow10(k) / 10 == n / pow10(k + 1), pow10(k) > 0, pow10(k + 1) > 0, n / 10 / pow10(k) == n / pow10(k + 1)
    decreases k
{
    if k > 0 { lemma_div_pow(n, k - 1); }
    assert(pow10(k + 1) == 10 * pow10(k));
    assert(pow10(k) > 0 ==> n / pow10(k) / 10 == n / (pow10(k) * 10)) by { if pow10(k) > 0 { vstd::arithmetic::div_mod::lemma_div_denominator(n, pow10(k), 10); } }
    assert(pow10(k) > 0 ==> n / 10 / pow10(k) == n / (10 * pow10(k))) by { if pow10(k) > 0 { vstd::arithmetic::div_mod::lemma_div_denominator(n, 10, pow10(k)); } }
}
pub proof fn lemma_padded_front(n: int, k: int)
    requires n >= 0, k >= 0
    ensures padded(n, k + 1) =~= seq![digit(n / pow10(k) % 10)] + padded(n, k)
    decreases k
{
    if k > 0 {
        lemma_padded_front(n / 10, k - 1);
        lemma_div_pow(n, k - 1);
        assert(n / 10 / pow10(k - 1) == n / pow10(k));
        assert(padded(n, k + 1) == padded(n / 10, k).push(digit(n % 10)));
        assert(padded(n, k) == padded(n / 10, k - 1).push(digit(n % 10)));
    } else {
        assert(pow10(0) == 1);
        assert(n / 1 == n);
        assert(padded(n, 1) == padded(n / 10, 0).push(digit(n % 10)));
    }
}
pub proof fn lemma_entries(b: Seq<Seq<u8>>, n: int)
    requires 0 <= n
    ensures xref_entries(b, n).len() == 20 * n
    decreases n
{
    if n > 0 { REVEAL(" 00000 n \n"); lemma_entries(b, n - 1); lemma_padded_len(offset_of(b, n), 10); }
}
pub proof fn lemma_padded_len(n: int, k: int) requires k >= 0 ensures padded(n, k).len() == k decreases k
{ if k > 0 { lemma_padded_len(n / 10, k - 1); } }
/// V09: entry i of the table (20 bytes each) is the offset of object i
pub proof fn lemma_entry_at(b: Seq<Seq<u8>>, i: int, n: int)
    requires 1 <= i <= n, offset_of(b, i) <= u32::MAX
    ensures ({ let e = xref_entries(b, n).subrange(20 * (i - 1), 20 * i);
        &&& read_nat(e.subrange(0, 10)) == offset_of(b, i)
        &&& e.subrange(10, 20) == BYTES(" 00000 n \n") })
    decreases n
{
    REVEAL(" 00000 n \n");
    lemma_entries(b, n - 1);
    lemma_padded_len(offset_of(b, n), 10);
    let x = xref_entries(b, n);
    if i < n {
        lemma_entry_at(b, i, n - 1);
        assert(x.subrange(20 * (i - 1), 20 * i) =~= xref_entries(b, n - 1).subrange(20 * (i - 1), 20 * i));
    } else {
        let e = x.subrange(20 * (i - 1), 20 * i);
        reveal_with_fuel(pow10, 11);
        assert(pow10(10) == 10_000_000_000);
        lemma_padded_reads_back(offset_of(b, n), 10);
        assert(e.subrange(0, 10) =~= padded(offset_of(b, n), 10));
        assert(e.subrange(10, 20) =~= BYTES(" 00000 n \n"));
    }
}

pub proof fn lemma_wrapping(a: usize, b: usize) ensures vstd::wrapping::usize_specs::wrapping_add(a, b) == plus(a, b as nat) { reveal(plus); }
impl<'a, W: Write> Write for CountingWrite<'a, W> {
    #[verifier::prophetic]
    open spec fn target(&self) -> (Seq<u8>, bool) { ((*final(self.inner)).out(), (*final(self.inner)).infallible()) }
    open spec fn out(&self) -> Seq<u8> { self.inner.out() }
    open spec fn infallible(&self) -> bool { self.inner.infallible() }
    open spec fn count(&self) -> usize { self.bytes_written }
//@@ fn victor/src/pdf/syntax.rs | impl<'a, W: Write> Write for CountingWrite<'a, W> :: write_all
//@@ start
    proof { lemma_wrapping(self.bytes_written, buffer.len()); }
//@@ sub /self\.bytes_written \+= (.*?);/ => self.bytes_written = self.bytes_written.wrapping_add(\1);
//@@ ret r
//@@ end
}

//@@ fn victor/src/pdf/syntax.rs | itoa_zero_padded
//@@ bytes inline
//@@ sub /for byte in buffer\.iter_mut\(\)\.rev\(\)/ => for i_ in it: (0..10usize).rev()
//@@ sub /\*byte = / => buffer[i_] =
//@@ spec
    ensures final(buffer)@ == padded(value as int, 10)
//@@ start
    let ghost v0 = value as int;
    proof { reveal_with_fuel(pow10, 1); lemma_div_pow(v0, 0); }
//@@ loop 1
    invariant
        it.seq().len() == 10, forall|i: int| 0 <= i < 10 ==> #[trigger] it.seq()[i] == 9 - i,
        value == v0 / pow10(it.index@), v0 >= 0, pow10(it.index@) > 0,
        buffer@.subrange(10 - it.index@, 10) =~= padded(v0, it.index@),
//@@ loopstart 1
    proof { lemma_padded_front(v0, it.index@); lemma_div_pow(v0, it.index@); }
//@@ afterloop 1
    proof { assert(buffer@.subrange(0, 10) =~= buffer@); }
//@@ end

pub proof fn lemma_views_push(v: Seq<Vec<u8>>, x: Vec<u8>) ensures views(v.push(x)) =~= views(v).push(x@) {}
/// the dictionary of a stream: the given pairs and the length
pub proof fn lemma_with_length(meta: Dictionary, d: Dictionary, contents: Seq<u8>)
    requires d.prev == Some(&meta), d.pairs@.len() == 1, d.pairs@[0].0@ == BYTES("Length"), d.pairs@[0].1 == Object::Usize(contents.len() as usize), contents.len() <= usize::MAX
    ensures enc_dict(d) == BYTES("<<") + enc_all_pairs(meta) + BYTES(" ") + enc_name(BYTES("Length")) + BYTES(" ") + int_text(contents.len() as int) + BYTES(" >>")
{
    lemma_enc_pairs_1(d.pairs@);
    assert(enc(d.pairs@[0].1) == int_text(contents.len() as int));
    assert(enc_all_pairs(d) == enc_all_pairs(meta) + enc_pair(d.pairs@[0]));
}
pub proof fn lemma_bodies(b: BasicObjects, f: PdfFile)
    ensures ({ let bs = bodies(b, f);
        &&& bs.len() == 3 + f.indirect_objects@.len() &&& bs[0] == enc_dict(b.page_tree) &&& bs[1] == enc_dict(b.catalog) &&& bs[2] == enc_dict(b.info)
        &&& forall|i: int| 0 <= i < f.indirect_objects@.len() ==> f.indirect_objects@[i]@ == #[trigger] bs[i + 3]
        &&& body_text(bs, bs.len() as int).len() <= file_text(bs).len()
        &&& body_text(bs, 0) == BYTES("%PDF-1.5\n%\xB5\xED\xAE\xFB\n")
        &&& file_text(bs) == body_text(bs, bs.len() as int) + BYTES("xref\n0 ") + int_text(bs.len() as int + 1) + BYTES("\n0000000000 65535 f \n") + xref_entries(bs, bs.len() as int)
            + trailer_text_of(bs.len() as int + 1) + BYTES("\nstartxref\n") + int_text(body_text(bs, bs.len() as int).len() as int) + BYTES("\n%%EOF") })
{
    hide(xref_entries); hide(enc_dict);
    let bs = bodies(b, f);
    assert forall|i: int| 0 <= i < f.indirect_objects@.len() implies f.indirect_objects@[i]@ == #[trigger] bs[i + 3] by {
        assert(bs[i + 3] == views(f.indirect_objects@)[i]);
    }
}
pub proof fn lemma_body_step(b: Seq<Seq<u8>>, n: int)
    requires n > 0
    ensures body_text(b, n) == body_text(b, n - 1) + int_text(n) + BYTES(" 0 obj\n") + b[n - 1] + BYTES("\nendobj\n")
{}
pub proof fn lemma_entry_0(b: Seq<Seq<u8>>) ensures xref_entries(b, 0) == Seq::<u8>::empty() {}
pub proof fn lemma_entry_step(b: Seq<Seq<u8>>, n: int)
    requires n > 0
    ensures xref_entries(b, n) == xref_entries(b, n - 1) + padded(offset_of(b, n), 10) + BYTES(" 00000 n \n")
{}
/// `assert_eq!`: proved
pub fn same<T>(a: T, b: T) requires a == b {}
pub proof fn lemma_count(n: nat) requires n <= u32::MAX ensures plus(0, n) == n { reveal(plus); }
/// `slice_to_10`, unsafe: the first ten bytes
#[verifier::external_body]
pub fn slice_to_10(buffer: &mut [u8; 20]) -> (r: &mut [u8; 10])
    ensures r@ == old(buffer)@.subrange(0, 10), final(buffer)@ == final(r)@ + old(buffer)@.subrange(10, 20)
{ unimplemented!() }
#[verifier::spinoff_prover]
pub proof fn lemma_trailer(d: Dictionary, size: usize)
    requires d.prev is None, d.pairs@.len() == 3, d.pairs@[0].0@ == BYTES("Size"), d.pairs@[1].0@ == BYTES("Root"), d.pairs@[2].0@ == BYTES("Info"),
        d.pairs@[0].1 == Object::Usize(size), d.pairs@[1].1 == Object::Reference(IndirectObjectId(2)), d.pairs@[2].1 == Object::Reference(IndirectObjectId(3))
    ensures BYTES("trailer\n") + enc_dict(d) == trailer_text_of(size as int)
{
    lemma_no_prev(d);
    lemma_enc_pairs_3(d.pairs@);
    assert(enc(d.pairs@[0].1) == int_text(size as int));
    assert(enc(d.pairs@[1].1) == int_text(2) + BYTES(" 0 R"));
    assert(enc(d.pairs@[2].1) == int_text(3) + BYTES(" 0 R"));
}
impl PdfFile {
//@@ fn victor/src/pdf/syntax.rs | impl PdfFile :: new
//@@ ret r
//@@ spec
    ensures consistent(r), r.indirect_objects@.len() == 0
//@@ end
//@@ fn victor/src/pdf/syntax.rs | impl PdfFile :: add_indirect_object
//@@ ret r
//@@ spec
    requires consistent(*old(self)), old(self).indirect_objects@.len() < 0xffff_ffff - 4
    ensures
        consistent(*final(self)),
        final(self).indirect_objects@ == old(self).indirect_objects@.push(serialized_contents),
        r.0 == old(self).indirect_objects@.len() + 4,
//@@ end
//@@ fn victor/src/pdf/syntax.rs | impl PdfFile :: add_dictionary
//@@ ret r
//@@ spec
    requires consistent(*old(self)), old(self).indirect_objects@.len() < 0xffff_ffff - 4
    ensures
        consistent(*final(self)),
        views(final(self).indirect_objects@) == views(old(self).indirect_objects@).push(enc_dict(dict)),
        final(self).indirect_objects@.len() == old(self).indirect_objects@.len() + 1,
        r.0 == old(self).indirect_objects@.len() + 4,
//@@ before /self\.add_indirect_object\(obj\)/
    proof { lemma_views_push(self.indirect_objects@, obj); assert(obj@ =~= enc_dict(dict)); }
//@@ end
//@@ fn victor/src/pdf/syntax.rs | impl PdfFile :: add_stream
//@@ bytes
//@@ sub /contents: Cow<\[u8\]>/ => contents: &[u8]
//@@ sub /extend_from_slice\(&contents\)/ => extend_from_slice(contents)
//@@ ret r
//@@ spec
    requires consistent(*old(self)), old(self).indirect_objects@.len() < 0xffff_ffff - 4
    ensures
        consistent(*final(self)),
        views(final(self).indirect_objects@) == views(old(self).indirect_objects@).push(stream_text(meta, contents@)),
        final(self).indirect_objects@.len() == old(self).indirect_objects@.len() + 1,
        r.0 == old(self).indirect_objects@.len() + 4,
//@@ start
    let ghost meta0 = meta;
//@@ before /self\.add_indirect_object\(obj\)/
    proof {
        lemma_with_length(meta0, meta, contents@);
        assert(obj@ =~= stream_text(meta0, contents@));
        lemma_views_push(self.indirect_objects@, obj);
    }
//@@ end
//@@ fn victor/src/pdf/syntax.rs | impl PdfFile :: write
//@@ sub /w: &mut W, basic/ => w_: &mut W, basic
//@@ sub /assert_eq!\((.*?), (.*?)\);/ => same(\1, \2);
//@@ sub /itoa\(/ => itoa::write(
//@@ sub /for &\(object_id, dictionary\) in &\[\s*(\(.*?\)),\s*\] \{/ => let basic_ = [\1];\nfor pair_ in it: basic_.iter() {
//@@ sub /for contents in &self.indirect_objects/ => for contents in it: &self.indirect_objects
//@@ sub /for &offset in &indirect_object_offsets/ => for offset_ in it: &indirect_object_offsets
//@@ bytes
//@@ ret r
//@@ spec
    requires
        consistent(*self),
        bodies(*basic_objects, *self).len() < 0xffff_fff0,
        file_text(bodies(*basic_objects, *self)).len() <= u32::MAX,
    ensures
        r is Ok ==> final(w_).out() == old(w_).out() + file_text(bodies(*basic_objects, *self)),
        old(w_).infallible() ==> r is Ok,
//@@ start
    hide(bodies); hide(file_text); hide(body_text); hide(xref_entries); hide(trailer_text); hide(enc_dict); hide(int_text); hide(object_text);
    proof { lemma_bodies(*basic_objects, *self); }
    let w: &mut W = w_;
    let ghost bs = bodies(*basic_objects, *self);
    let ghost n = bs.len() as int;
    let ghost out0 = w.out();
    let ghost inf0 = w.infallible();
//@@ loop 1
    invariant
        it.seq().len() == 3, forall|i: int| 0 <= i < 3 ==> *(#[trigger] it.seq()[i]) == basic_@[i],
        basic_@ == seq![(PAGE_TREE_ID, &basic_objects.page_tree), (CATALOG_ID, &basic_objects.catalog), (INFO_ID, &basic_objects.info)],
        n == bs.len(), body_text(bs, n).len() <= u32::MAX, bs[0] == enc_dict(basic_objects.page_tree), bs[1] == enc_dict(basic_objects.catalog), bs[2] == enc_dict(basic_objects.info), n >= 3,
        next_object_id.0 == 1 + it.index@,
        indirect_object_offsets@.len() == it.index@,
        forall|j: int| 0 <= j < it.index@ ==> #[trigger] indirect_object_offsets@[j] == offset_of(bs, j + 1),
        w.out() == out0 + body_text(bs, it.index@),
        w.target() == target0,
        w.count() == plus(0, body_text(bs, it.index@).len()),
        inf0 == old(w_).infallible(), inf0 ==> w.infallible(),
//@@ beforeloop 1
    let ghost target0 = w.target();
//@@ loopstart 1
    let (object_id, dictionary) = *pair_;
    proof {
        lemma_body_grows(bs, it.index@, n);
        lemma_body_step(bs, it.index@ + 1);
        assert(bs[it.index@] == enc_dict(*dictionary));
        lemma_count(body_text(bs, it.index@).len());
    }
//@@ loop 2
    invariant
        it.seq().len() == n - 3, self.indirect_objects@.len() == n - 3, forall|i: int| 0 <= i < n - 3 ==> *(#[trigger] it.seq()[i]) == self.indirect_objects@[i],
        n == bs.len(), body_text(bs, n).len() <= u32::MAX, forall|i: int| 0 <= i < n - 3 ==> self.indirect_objects@[i]@ == #[trigger] bs[i + 3], n < 0xffff_fff0,
        next_object_id.0 == 4 + it.index@,
        indirect_object_offsets@.len() == it.index@ + 3,
        forall|j: int| 0 <= j < it.index@ + 3 ==> #[trigger] indirect_object_offsets@[j] == offset_of(bs, j + 1),
        w.out() == out0 + body_text(bs, it.index@ + 3),
        w.target() == target0,
        w.count() == plus(0, body_text(bs, it.index@ + 3).len()),
        inf0 == old(w_).infallible(), inf0 ==> w.infallible(),
//@@ loopstart 2
    proof {
        lemma_body_grows(bs, it.index@ + 3, n);
        lemma_body_step(bs, it.index@ + 4);
        assert(bs[it.index@ + 3] == contents@);
        lemma_count(body_text(bs, it.index@ + 3).len());
    }
//@@ loop 3
    invariant
        it.seq().len() == n, indirect_object_offsets@.len() == n, forall|i: int| 0 <= i < n ==> *(#[trigger] it.seq()[i]) == indirect_object_offsets@[i],
        forall|j: int| 0 <= j < n ==> #[trigger] indirect_object_offsets@[j] == offset_of(bs, j + 1),
        buffer@.subrange(10, 20) =~= BYTES(" 00000 n \n"),
        w.out() == out0 + (body_text(bs, n) + BYTES("xref\n0 ") + int_text(n + 1) + BYTES("\n0000000000 65535 f \n") + xref_entries(bs, it.index@)),
        inf0 == old(w_).infallible(), inf0 ==> w.infallible(),
//@@ loopstart 3
    let offset = *offset_;
    assert(offset == offset_of(bs, it.index@ + 1));
    proof { lemma_entry_step(bs, it.index@ + 1); }
//@@ before /startxref = w.bytes_written/
    proof { lemma_count(body_text(bs, n).len()); }
//@@ beforeloop 3
    proof { lemma_entry_0(bs); REVEAL("0000000000 00000 n \n"); REVEAL(" 00000 n \n"); assert(buffer@.subrange(10, 20) =~= BYTES(" 00000 n \n")); }
//@@ before /trailer\.write\(w\)/
    proof { lemma_trailer(trailer, xref_table_size); }
//@@ end
}
