@@include common.inc
// ---------------------------------------------------------------- C15: matrix
@@item src/utils.rs struct Matrix
@@end
impl<T> Matrix<T> {
    /// m columns, n rows, as documented
    pub open spec fn wf(&self) -> bool { self.data@.len() == self.m * self.n }
    pub open spec fn valid(&self, idx: (usize, usize)) -> bool { idx.0 < self.n && idx.1 < self.m }
}
proof fn lemma_pos(m: int, n: int, r: int, c: int)
    requires 0 <= r < n, 0 <= c < m,
    ensures 0 <= m * r + c < m * n, m * r <= m * n, 0 <= m * r,
{ assert(0 <= m * r + c < m * n && m * r <= m * n && 0 <= m * r) by (nonlinear_arith) requires 0 <= r < n, 0 <= c < m; }
proof fn lemma_inj(m: int, r: int, c: int, r2: int, c2: int)
    requires 0 <= c < m, 0 <= c2 < m, 0 <= r, 0 <= r2, m * r + c == m * r2 + c2,
    ensures r == r2, c == c2,
{
    if r < r2 { assert(m * r + m <= m * r2) by (nonlinear_arith) requires r < r2, m > 0; }
    if r2 < r { assert(m * r2 + m <= m * r) by (nonlinear_arith) requires r2 < r, m > 0; }
    assert(r == r2);
}
impl<T> Matrix<T> {
    pub open spec fn at(&self, r: int, c: int) -> T { self.data@[self.m * r + c] }
@@fn src/utils.rs {{<T> Matrix<T>}} pos
@@spec
    requires self.wf(), self.valid($p1),
    ensures ret == self.m * $p1.0 + $p1.1, ret < self.data@.len(),
@@entry
        proof { assert(self.data.len() <= usize::MAX); lemma_pos(self.m as int, self.n as int, $p1.0 as int, $p1.1 as int); }
@@end
@@fn src/utils.rs {{<T> Index<(usize, usize)> for Matrix<T>}} index
@@sig {{&Self::Output}} => {{&T}}
@@spec
    requires self.wf(), self.valid($p1),
    ensures *ret == self.at($p1.0 as int, $p1.1 as int),
@@end
@@fn src/utils.rs {{<T> IndexMut<(usize, usize)> for Matrix<T>}} index_mut
@@sig {{&mut Self::Output}} => {{&mut T}}
@@spec
    requires old(self).wf(), old(self).valid($p1),
    ensures *ret == old(self).at($p1.0 as int, $p1.1 as int), final(self).wf(), final(self).m == old(self).m, final(self).n == old(self).n,
        final(self).at($p1.0 as int, $p1.1 as int) == *final(ret),
        forall|r: int, c: int| 0 <= r < old(self).n && 0 <= c < old(self).m && (r != $p1.0 || c != $p1.1) ==> #[trigger] final(self).at(r, c) == old(self).at(r, c),
@@entry
        proof { assert forall|r: int, c: int| 0 <= r < old(self).n && 0 <= c < old(self).m && (r != $p1.0 || c != $p1.1) implies
                0 <= #[trigger] (old(self).m * r + c) < old(self).data@.len() && old(self).m * r + c != old(self).m * $p1.0 + $p1.1 by {
            lemma_pos(old(self).m as int, old(self).n as int, r, c);
            if old(self).m * r + c == old(self).m * $p1.0 + $p1.1 { lemma_inj(old(self).m as int, r, c, $p1.0 as int, $p1.1 as int); } } }
@@end
}
impl<T: Default + Clone> Matrix<T> {
@@fn src/utils.rs {{<T: Default + Clone> Matrix<T>}} new
@@spec
    requires $p1 * $p2 <= usize::MAX,
    ensures ret.wf(), ret.m == $p1, ret.n == $p2,
        exists|d: T| #[trigger] call_ensures(T::default, (), d) && forall|r: int, c: int| 0 <= r < ret.n && 0 <= c < ret.m ==> cloned(d, #[trigger] ret.at(r, c)),
@@entry
        proof { assert forall|r: int, c: int| 0 <= r < $p2 && 0 <= c < $p1 implies 0 <= #[trigger] ($p1 * r + c) < $p1 * $p2 by { lemma_pos($p1 as int, $p2 as int, r, c); } }
@@end
}
impl<T: Clone> Matrix<T> {
@@fn src/utils.rs {{<T: Clone> Matrix<T>}} new_default
@@spec
    requires $p1 * $p2 <= usize::MAX,
    ensures ret.wf(), ret.m == $p1, ret.n == $p2, forall|r: int, c: int| 0 <= r < ret.n && 0 <= c < ret.m ==> cloned($p3, #[trigger] ret.at(r, c)),
@@entry
        proof { assert forall|r: int, c: int| 0 <= r < $p2 && 0 <= c < $p1 implies 0 <= #[trigger] ($p1 * r + c) < $p1 * $p2 by { lemma_pos($p1 as int, $p2 as int, r, c); } }
@@end
}
}
fn main() {}
