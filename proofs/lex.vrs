@@include common.inc
@@include bits.inc
// ---------------------------------------------------------------- C14: lexicographic order
@@item src/utils.rs struct LexBitSet
@@end
impl<'a> LexBitSet<'a> {
    pub open spec fn b(&self, e: int) -> bool { bit(self.0.words(), e) }
}
pub open spec fn same(a: LexBitSet, b: LexBitSet) -> bool { forall|e: int| a.b(e) == b.b(e) }
pub open spec fn first_diff(a: LexBitSet, b: LexBitSet, i: int) -> bool {
    i >= 0 && a.b(i) != b.b(i) && forall|e: int| e < i ==> a.b(e) == b.b(e)
}
pub open spec fn less(a: LexBitSet, b: LexBitSet) -> bool { exists|i: int| #[trigger] first_diff(a, b, i) && !a.b(i) && b.b(i) }
pub open spec fn ord_is(a: LexBitSet, b: LexBitSet, o: Ordering) -> bool {
    &&& (o == Ordering::Equal <==> same(a, b))
    &&& (o == Ordering::Less <==> less(a, b))
    &&& (o == Ordering::Greater <==> less(b, a))
}
// the laws of a total order, for any outcome allowed by the contract of cmp
proof fn law_unique(a: LexBitSet, b: LexBitSet, o: Ordering, p: Ordering) requires ord_is(a, b, o), ord_is(a, b, p) ensures o == p {}
proof fn law_reflexive(a: LexBitSet, o: Ordering) requires ord_is(a, a, o) ensures o == Ordering::Equal { assert(same(a, a)); }
proof fn law_antisymmetric(a: LexBitSet, b: LexBitSet, o: Ordering, p: Ordering)
    requires ord_is(a, b, o), ord_is(b, a, p),
    ensures (o == Ordering::Equal <==> p == Ordering::Equal), (o == Ordering::Less <==> p == Ordering::Greater),
{ assert(same(a, b) ==> same(b, a)); assert(same(b, a) ==> same(a, b)); }
proof fn law_transitive(a: LexBitSet, b: LexBitSet, c: LexBitSet, o: Ordering, p: Ordering, q: Ordering)
    requires ord_is(a, b, o), ord_is(b, c, p), ord_is(a, c, q), o != Ordering::Greater, p != Ordering::Greater,
    ensures q != Ordering::Greater, q == Ordering::Equal <==> o == Ordering::Equal && p == Ordering::Equal,
{
    if o == Ordering::Less && p == Ordering::Less {
        let i = choose|i: int| #[trigger] first_diff(a, b, i) && !a.b(i) && b.b(i);
        let j = choose|j: int| #[trigger] first_diff(b, c, j) && !b.b(j) && c.b(j);
        let k = if i < j { i } else { j };
        assert(first_diff(a, c, k) && !a.b(k) && c.b(k));
        assert(less(a, c));
    } else if o == Ordering::Less {
        let i = choose|i: int| #[trigger] first_diff(a, b, i) && !a.b(i) && b.b(i);
        assert(first_diff(a, c, i) && !a.b(i) && c.b(i));
    } else if p == Ordering::Less {
        let j = choose|j: int| #[trigger] first_diff(b, c, j) && !b.b(j) && c.b(j);
        assert(first_diff(a, c, j) && !a.b(j) && c.b(j));
    } else { assert(same(a, c)); }
}
proof fn lemma_less_asym(a: LexBitSet, b: LexBitSet, i: int)
    requires first_diff(a, b, i),
    ensures !same(a, b), !a.b(i) ==> less(a, b) && !less(b, a), a.b(i) ==> less(b, a) && !less(a, b),
{
    assert(first_diff(b, a, i));
    assert forall|j: int| first_diff(a, b, j) implies j == i by { if j < i { assert(a.b(j) == b.b(j)); } if i < j { assert(a.b(i) == b.b(i)); } }
    assert forall|j: int| first_diff(b, a, j) implies first_diff(a, b, j) by {}
}
proof fn lemma_same_no_less(a: LexBitSet, b: LexBitSet) requires same(a, b) ensures !less(a, b), !less(b, a) {}
pub open spec fn wat(s: Seq<u64>, k: int) -> u64 { if 0 <= k < s.len() { s[k] } else { 0 } }
proof fn lemma_wat(s: Seq<u64>, e: int)
    requires e >= 0,
    ensures bit(s, e) == wbit(wat(s, e / 64), e % 64),
{ if e >= 64 * s.len() { lemma_zero((e % 64) as u64); assert(e / 64 >= s.len()); } else { assert(e / 64 < s.len()); } }
pub open spec fn agree(a: LexBitSet, b: LexBitSet, n: int) -> bool { forall|e: int| e < n ==> a.b(e) == b.b(e) }

impl<'a> LexBitSet<'a> {
@@fn src/utils.rs {{Ord for LexBitSet<'_>}} cmp
@@rewrite* {{self.0.buffer().iter().cloned()}} => {{Words::of(self.0)}}
@@rewrite* {{$o:id.0.buffer().iter().cloned()}} => {{Words::of($o.0)}}
@@rewrite* {{for _ in 0..end {}} => {{for vp_k in 0..end {}}
@@rewrite* {{for _ in 0..64 {}} => {{for vp_i in 0..64usize {}}
@@spec
    ensures ord_is(*self, *$p1, ret),
@@entry
    let ghost xs = self.0.words(); let ghost ys = $p1.0.words();
    let ghost (ga, gb) = (*self, *$p1);
@@loop {{for vp_k in 0..end {}}
        invariant xs == ga.0.words(), ys == gb.0.words(), end >= xs.len(), end >= ys.len(), *self == ga, *$p1 == gb,
            x@ =~= (if vp_k < xs.len() { xs.subrange(vp_k as int, xs.len() as int) } else { Seq::empty() }),
            y@ =~= (if vp_k < ys.len() { ys.subrange(vp_k as int, ys.len() as int) } else { Seq::empty() }),
            agree(ga, gb, 64 * vp_k),
@@after {{let yi = y.next().unwrap_or(0);}}
            proof {
                assert(xi == wat(xs, vp_k as int)); assert(yi == wat(ys, vp_k as int));
                assert forall|e: int| 64 * vp_k <= e < 64 * vp_k + 64 implies #[trigger] ga.b(e) == wbit(xi, e - 64 * vp_k) by {
                    lemma_wat(xs, e); assert(e / 64 == vp_k && e % 64 == e - 64 * vp_k);
                }
                assert forall|e: int| 64 * vp_k <= e < 64 * vp_k + 64 implies #[trigger] gb.b(e) == wbit(yi, e - 64 * vp_k) by {
                    lemma_wat(ys, e); assert(e / 64 == vp_k && e % 64 == e - 64 * vp_k);
                }
                assert(1u64 << 0u64 == 1u64) by (bit_vector);
            }
@@loop {{for vp_i in 0..64usize {}}
                    invariant xs == ga.0.words(), ys == gb.0.words(), *self == ga, *$p1 == gb,
                        vp_i < 64 ==> mask == 1u64 << (vp_i as u64),
                        agree(ga, gb, 64 * vp_k + vp_i),
                        forall|e: int| 64 * vp_k <= e < 64 * vp_k + 64 ==> #[trigger] ga.b(e) == wbit(xi, e - 64 * vp_k),
                        forall|e: int| 64 * vp_k <= e < 64 * vp_k + 64 ==> #[trigger] gb.b(e) == wbit(yi, e - 64 * vp_k),
@@before {{let bit_x = $e;}}
                    proof { lemma_mask(xi, vp_i as u64); lemma_mask(yi, vp_i as u64); 
                        assert(ga.b(64 * vp_k + vp_i) == wbit(xi, vp_i as int)); assert(gb.b(64 * vp_k + vp_i) == wbit(yi, vp_i as int)); }
@@before {{return bit_x.cmp(&bit_y);}}
                        proof { assert(first_diff(ga, gb, 64 * vp_k + vp_i)); lemma_less_asym(ga, gb, 64 * vp_k + vp_i); }
@@before {{Ordering::Equal}}
        proof {
            assert forall|e: int| ga.b(e) == gb.b(e) by { }
            lemma_same_no_less(ga, gb);
        }
@@end
@@fn src/utils.rs {{PartialOrd for LexBitSet<'_>}} partial_cmp
@@spec
    ensures ret is Some, ord_is(*self, *$p1, ret->0),
@@end
@@fn src/utils.rs {{PartialEq for LexBitSet<'_>}} eq
@@spec
    ensures ret == same(*self, *$p1),
@@rewrite* {{self.0 == $o:id.0}} => {{*self.0 == *$o.0}}
@@entry
        proof { assert(self.0.words() == $p1.0.words() ==> same(*self, *$p1)); }
@@end
}

}
fn main() {}
