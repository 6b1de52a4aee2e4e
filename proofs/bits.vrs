@@include common.inc
@@include bits.inc
// ---------------------------------------------------------------- C13: iteration
@@item src/utils.rs struct BitSetIter
@@rewrite {{Cloned<Iter<'a, u64>>}} => {{Words<'a>}}
@@end

impl<'a> BitSetIter<'a> {
    pub open spec fn wf(&self) -> bool {
        &&& self.offset <= 64
        &&& self.base + 64 * (self.iter@.len() + if self.word is Some { 1int } else { 0 }) + 64 <= usize::MAX
        &&& self.word is None ==> self.iter@.len() == 0
    }
    /// the elements still to come
    pub open spec fn rem(&self, e: int) -> bool {
        self.word is Some && (
            (self.base + self.offset <= e < self.base + 64 && wbit(self.word->0, e - self.base))
            || (self.base + 64 <= e && bit(self.iter@, e - self.base - 64)))
    }
@@fn src/utils.rs {{BitSetIter<'_>}} new
@@sig {{$x:id(bs: &BitSet) -> BitSetIter}} => {{$x(bs: &'a BitSet) -> BitSetIter<'a>}}
@@rewrite* {{bs.buffer().iter().cloned()}} => {{Words::of(bs)}}
@@spec
    ensures ret.wf(), forall|e: int| ret.rem(e) <==> bit($p1.words(), e),
@@entry
    proof { assert forall|e: int| e >= 64 && $p1.words().len() > 0 implies bit($p1.words().subrange(1, $p1.words().len() as int), e - 64) == bit($p1.words(), e) by {
        assert((e - 64) / 64 == e / 64 - 1); assert((e - 64) % 64 == e % 64); } 
        assert forall|e: int| 0 <= e < 64 implies #[trigger] (e / 64) == 0 && e % 64 == e by {}
        assert forall|e: int| bit($p1.words(), e) implies $p1.words().len() > 0 by {} }
@@end
@@fn src/utils.rs {{Iterator for BitSetIter<'_>}} next
@@sig {{Option<Self::Item>}} => {{Option<usize>}}
@@spec
    requires old(self).wf(),
    ensures final(self).wf(),
        ret is None ==> forall|e: int| !old(self).rem(e),
        ret is Some ==> old(self).rem(ret->0 as int)
            && (forall|e: int| old(self).rem(e) ==> e >= ret->0)
            && (forall|e: int| final(self).rem(e) <==> old(self).rem(e) && e > ret->0),
        ret is None ==> forall|e: int| !final(self).rem(e),
@@loop {{while let Some($w:id) = self.word {}}
        invariant self.wf(), forall|e: int| self.rem(e) <==> old(self).rem(e),
        ensures self.word is None,
        decreases self.iter@.len() + (if self.word is Some { 1int } else { 0int }), 64 - self.offset,
@@before {{$x = self.iter.next();}}
        let ghost s0 = *self;
@@after {{self.offset = 0;}}
        proof {
            assert forall|e: int| self.rem(e) <==> s0.rem(e) by {
                let i = s0.iter@;
                if w == 0 { lemma_zero((e - s0.base) as u64); }
                if i.len() > 0 {
                    assert(self.word->0 == i[0]);
                    let r = e - s0.base - 64;
                    if 0 <= r < 64 { assert(r / 64 == 0 && r % 64 == r); }
                    if r >= 64 { assert((r - 64) / 64 == r / 64 - 1 && (r - 64) % 64 == r % 64); }
                }
            }
        }
@@loop {{while ($w & $m) == 0 && $c {}}
                    invariant self.wf(), self.word == Some($w), self.base == s1.base, self.iter == s1.iter, self.word == s1.word,
                        s1.offset <= self.offset <= 64,
                        self.offset < 64 ==> $m == 1u64 << (self.offset as u64),
                        forall|e: int| self.rem(e) <==> s1.rem(e),
                    decreases 64 - self.offset,
@@before {{let mut mask = $x;}}
                    let ghost s1 = *self;
                    proof { lemma_mask(w, self.offset as u64); }
@@before {{mask <<= 1;}}
                    proof { lemma_mask(w, self.offset as u64); }
                    let ghost s2 = *self;
@@after {{mask <<= 1; self.offset += 1;}}
                    proof { assert forall|e: int| self.rem(e) <==> s2.rem(e) by { if e == s2.base + s2.offset { assert(!wbit(w, s2.offset as int)); } } }
@@before {{let ret = Some($x);}}
                    let ghost s3 = *self;
                    proof { lemma_mask(w, self.offset as u64); assert(wbit(w, self.offset as int)); assert(s3.rem(s3.base + s3.offset)); }
@@end
}

}
fn main() {}
