// ---------------------------------------------------------------- NodeFlags (src/mdd/node_flags.rs), every setter and getter
@@item src/mdd/node_flags.rs struct NodeFlags
@@derive Clone, Copy
@@end
/// exact, relaxed, marked, cutset, deleted, pruned: the meaning of the bits
pub open spec fn fx(f: NodeFlags) -> bool { f.0 & 1 == 1 && f.0 & 2 == 0 }
pub open spec fn fr(f: NodeFlags) -> bool { f.0 & 2 == 2 }
pub open spec fn fm(f: NodeFlags) -> bool { f.0 & 4 == 4 }
pub open spec fn fc(f: NodeFlags) -> bool { f.0 & 8 == 8 }
pub open spec fn fd(f: NodeFlags) -> bool { f.0 & 16 == 16 }
pub open spec fn fp(f: NodeFlags) -> bool { f.0 & 32 == 32 }
/// a and b agree on everything but the flags of the mask
pub open spec fn feq(a: NodeFlags, b: NodeFlags, x: bool, r: bool, m: bool, c: bool, d: bool, p: bool) -> bool {
    fx(a) == x && fr(a) == r && fm(a) == m && fc(a) == c && fd(a) == d && fp(a) == p
}
impl NodeFlags {
@@item src/mdd/node_flags.rs const F_EXACT
@@end
@@item src/mdd/node_flags.rs const F_RELAXED
@@end
@@item src/mdd/node_flags.rs const F_MARKED
@@end
@@item src/mdd/node_flags.rs const F_CUTSET
@@end
@@item src/mdd/node_flags.rs const F_DELETED
@@end
@@item src/mdd/node_flags.rs const F_BARRIER
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} new_exact
@@spec
    ensures feq(ret, ret, true, false, false, false, false, false),
@@entry
    proof { assert(1u8 & 1 == 1 && 1u8 & 2 == 0 && 1u8 & 4 == 0 && 1u8 & 8 == 0 && 1u8 & 16 == 0 && 1u8 & 32 == 0) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} new_relaxed
@@spec
    ensures feq(ret, ret, false, true, false, false, false, false),
@@entry
    proof { assert(2u8 & 1 == 0 && 2u8 & 2 == 2 && 2u8 & 4 == 0 && 2u8 & 8 == 0 && 2u8 & 16 == 0 && 2u8 & 32 == 0) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} test
@@spec
    ensures ret == (self.0 & $p1 == $p1),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} add
@@spec
    ensures final(self).0 == old(self).0 | $p1,
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} remove
@@spec
    ensures final(self).0 == old(self).0 & !$p1,
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set
@@spec
    ensures final(self).0 == (if $p2 { old(self).0 | $p1 } else { old(self).0 & !$p1 }),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_exact
@@spec
    ensures ret == fx(self),
@@entry
    proof { let x = self.0; assert((x & 2 == 2) == (x & 2 != 0)) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_relaxed
@@spec
    ensures ret == fr(self),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_marked
@@spec
    ensures ret == fm(self),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_cutset
@@spec
    ensures ret == fc(self),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_deleted
@@spec
    ensures ret == fd(self),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} is_pruned_by_barrier
@@spec
    ensures ret == fp(self),
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_exact
@@spec
    ensures feq(*final(self), *old(self), $p1 && !fr(*old(self)), fr(*old(self)), fm(*old(self)), fc(*old(self)), fd(*old(self)), fp(*old(self))),
@@entry
    proof { let x = self.0; assert((x | 1) & 1 == 1 && (x | 1) & 2 == x & 2 && (x | 1) & 4 == x & 4 && (x | 1) & 8 == x & 8 && (x | 1) & 16 == x & 16 && (x | 1) & 32 == x & 32) by (bit_vector);
        assert((x & !1u8) & 1 == 0 && (x & !1u8) & 2 == x & 2 && (x & !1u8) & 4 == x & 4 && (x & !1u8) & 8 == x & 8 && (x & !1u8) & 16 == x & 16 && (x & !1u8) & 32 == x & 32) by (bit_vector);
        assert(x & 2 == 0 || x & 2 == 2) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_relaxed
@@spec
    ensures $p1 ==> feq(*final(self), *old(self), false, true, fm(*old(self)), fc(*old(self)), fd(*old(self)), fp(*old(self))),
@@entry
    proof { let x = self.0; assert((x | 2) & 1 == x & 1 && (x | 2) & 2 == 2 && (x | 2) & 4 == x & 4 && (x | 2) & 8 == x & 8 && (x | 2) & 16 == x & 16 && (x | 2) & 32 == x & 32) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_marked
@@spec
    ensures feq(*final(self), *old(self), fx(*old(self)), fr(*old(self)), $p1, fc(*old(self)), fd(*old(self)), fp(*old(self))),
@@entry
    proof { let x = self.0; assert((x | 4) & 1 == x & 1 && (x | 4) & 2 == x & 2 && (x | 4) & 4 == 4 && (x | 4) & 8 == x & 8 && (x | 4) & 16 == x & 16 && (x | 4) & 32 == x & 32) by (bit_vector);
        assert((x & !4u8) & 1 == x & 1 && (x & !4u8) & 2 == x & 2 && (x & !4u8) & 4 == 0 && (x & !4u8) & 8 == x & 8 && (x & !4u8) & 16 == x & 16 && (x & !4u8) & 32 == x & 32) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_cutset
@@spec
    ensures feq(*final(self), *old(self), fx(*old(self)), fr(*old(self)), fm(*old(self)), $p1, fd(*old(self)), fp(*old(self))),
@@entry
    proof { let x = self.0; assert((x | 8) & 1 == x & 1 && (x | 8) & 2 == x & 2 && (x | 8) & 4 == x & 4 && (x | 8) & 8 == 8 && (x | 8) & 16 == x & 16 && (x | 8) & 32 == x & 32) by (bit_vector);
        assert((x & !8u8) & 1 == x & 1 && (x & !8u8) & 2 == x & 2 && (x & !8u8) & 4 == x & 4 && (x & !8u8) & 8 == 0 && (x & !8u8) & 16 == x & 16 && (x & !8u8) & 32 == x & 32) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_deleted
@@spec
    ensures feq(*final(self), *old(self), fx(*old(self)), fr(*old(self)), fm(*old(self)), fc(*old(self)), $p1, fp(*old(self))),
@@entry
    proof { let x = self.0; assert((x | 16) & 1 == x & 1 && (x | 16) & 2 == x & 2 && (x | 16) & 4 == x & 4 && (x | 16) & 8 == x & 8 && (x | 16) & 16 == 16 && (x | 16) & 32 == x & 32) by (bit_vector);
        assert((x & !16u8) & 1 == x & 1 && (x & !16u8) & 2 == x & 2 && (x & !16u8) & 4 == x & 4 && (x & !16u8) & 8 == x & 8 && (x & !16u8) & 16 == 0 && (x & !16u8) & 32 == x & 32) by (bit_vector); }
@@end
@@fn src/mdd/node_flags.rs {{impl NodeFlags}} set_pruned_by_barrier
@@spec
    ensures feq(*final(self), *old(self), fx(*old(self)), fr(*old(self)), fm(*old(self)), fc(*old(self)), fd(*old(self)), $p1),
@@entry
    proof { let x = self.0; assert((x | 32) & 1 == x & 1 && (x | 32) & 2 == x & 2 && (x | 32) & 4 == x & 4 && (x | 32) & 8 == x & 8 && (x | 32) & 16 == x & 16 && (x | 32) & 32 == 32) by (bit_vector);
        assert((x & !32u8) & 1 == x & 1 && (x & !32u8) & 2 == x & 2 && (x & !32u8) & 4 == x & 4 && (x & !32u8) & 8 == x & 8 && (x & !32u8) & 16 == x & 16 && (x & !32u8) & 32 == 0) by (bit_vector); }
@@end
}
