
// ---------------------------------------------------------------- external bit sets
// TRUSTED: bitset_fixed::BitSet: buffer() yields its words; derived == compares size and words
#[verifier::external_body]
pub struct BitSet { x: u8 }
impl BitSet { pub uninterp spec fn words(&self) -> Seq<u64>; pub uninterp spec fn size(&self) -> nat; }
#[verifier::external]
impl PartialEq for BitSet { fn eq(&self, other: &BitSet) -> bool { unimplemented!() } }
pub assume_specification [<BitSet as PartialEq>::eq](a: &BitSet, b: &BitSet) -> (r: bool)
    ensures r == (a.size() == b.size() && a.words() =~= b.words());

// stands for Cloned<slice::Iter<u64>> : the words not yet yielded
#[verifier::external_body]
pub struct Words<'a> { x: &'a u8 }
impl<'a> Words<'a> {
    pub uninterp spec fn view(&self) -> Seq<u64>;
    #[verifier::external_body]
    pub fn of(bs: &'a BitSet) -> (r: Words<'a>)
        ensures r@ == bs.words(), r@.len() < usize::MAX / 128,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<u64>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.subrange(1, old(self)@.len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len(),
    { unimplemented!() }
}

pub open spec fn wbit(w: u64, i: int) -> bool { 0 <= i < 64 && (w >> (i as u64)) & 1 == 1 }
/// bit e of the (infinite, zero extended) bit string
pub open spec fn bit(ws: Seq<u64>, e: int) -> bool { 0 <= e < 64 * ws.len() && wbit(ws[e / 64], e % 64) }

proof fn lemma_mask(w: u64, o: u64)
    requires o < 64,
    ensures (w & (1u64 << o) != 0) == ((w >> o) & 1 == 1),
        o < 63 ==> (1u64 << o) << 1 == 1u64 << ((o + 1) as u64),
        o == 63 ==> (1u64 << o) << 1 == 0,
        w & (1u64 << o) == 0 || w & (1u64 << o) == 1u64 << o,
        (1u64 << o) > 0,
{
    assert((w & (1u64 << o) != 0) == ((w >> o) & 1 == 1)) by (bit_vector) requires o < 64;
    assert(o < 63 ==> (1u64 << o) << 1 == 1u64 << ((o + 1) as u64)) by (bit_vector) requires o < 64;
    assert(o == 63 ==> (1u64 << o) << 1 == 0) by (bit_vector) requires o < 64;
    assert(w & (1u64 << o) == 0 || w & (1u64 << o) == 1u64 << o) by (bit_vector) requires o < 64;
    assert((1u64 << o) > 0) by (bit_vector) requires o < 64;
}
proof fn lemma_zero(o: u64)
    ensures (0u64 >> o) & 1 == 0,
{ assert((0u64 >> o) & 1 == 0) by (bit_vector); }

proof fn lemma_diff(x: u64, y: u64)
    requires forall|i: int| 0 <= i < 64 ==> wbit(x, i) == wbit(y, i),
    ensures x == y,
{
    if x != y {
        assert forall|i: u64| i < 64 implies (x >> i) & 1 == (y >> i) & 1 by {
            assert(wbit(x, i as int) == wbit(y, i as int));
            assert((x >> i) & 1 == 0 || (x >> i) & 1 == 1) by (bit_vector);
            assert((y >> i) & 1 == 0 || (y >> i) & 1 == 1) by (bit_vector);
        }
        assert(x == y) by (bit_vector) requires forall|i: u64| i < 64 ==> (x >> i) & 1 == (y >> i) & 1;
    }
}

