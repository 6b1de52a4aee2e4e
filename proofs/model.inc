// ---------------------------------------------------------------- the dynamic program, as mathematics
// One arbitrary transition system per state type.  Nothing is known about these functions but what the trait
// contracts below say: the proofs hold for every model.
pub uninterp spec fn s0<T>() -> T;
pub uninterp spec fn v0<T>() -> int;
pub uninterp spec fn sdepth<T>(s: T) -> int;
/// number of variables
pub uninterp spec fn nvars<T>() -> int;
/// the k-th variable to be decided
pub uninterp spec fn order<T>(k: int) -> Variable;
pub uninterp spec fn indom<T>(s: T, d: Decision) -> bool;
pub uninterp spec fn trans<T>(s: T, d: Decision) -> T;
pub uninterp spec fn tcost<T>(s: T, d: Decision) -> int;
/// bound on the magnitude of one transition cost, of the original or relaxed model
pub uninterp spec fn cmax<T>() -> int;
/// `m` was produced by merging a set of states that contains `s`
pub uninterp spec fn rel<T>(s: T, m: T) -> bool;

pub open spec fn lim<T>(k: int) -> int decreases k { if k <= 0 { 0 } else { lim::<T>(k - 1) + cmax::<T>() } }
pub proof fn lim_mono<T>(a: int, b: int)
    requires 0 <= a <= b, cmax::<T>() >= 0,
    ensures 0 <= lim::<T>(a) <= lim::<T>(b)
    decreases b
{
    if a < b { lim_mono::<T>(a, b - 1); } else if a > 0 { lim_mono::<T>(a - 1, a - 1); }
}
pub open spec fn big() -> int { isize::MAX as int / 8 }
/// the magnitudes for which the saturating arithmetic of the code is exact
pub open spec fn small<T>(v: int) -> bool {
    cmax::<T>() >= 0 && -big() <= v - lim::<T>(nvars::<T>() + 1) && v + lim::<T>(nvars::<T>() + 1) <= big()
}

/// some completion of `s` over `r` further decisions is worth at least `y`
pub open spec fn reach<T>(r: int, s: T, y: int) -> bool decreases r {
    if r <= 0 { y <= 0 } else { exists|d: Decision| #[trigger] indom(s, d) && reach(r - 1, trans(s, d), y - tcost(s, d)) }
}
/// some complete completion of `s` is worth at least `y`
pub open spec fn rch<T>(s: T, y: int) -> bool { reach(nvars::<T>() - sdepth(s), s, y) }
pub proof fn reach_less<T>(r: int, s: T, y: int, z: int)
    requires reach(r, s, y), z <= y
    ensures reach(r, s, z)
    decreases r
{
    if r > 0 {
        let d = choose|d: Decision| #[trigger] indom(s, d) && reach(r - 1, trans(s, d), y - tcost(s, d));
        reach_less(r - 1, trans(s, d), y - tcost(s, d), z - tcost(s, d));
    }
}

// ---- sequences of decisions, in the order of the variables
pub open spec fn stt<T>(s: T, f: Seq<Decision>) -> T decreases f.len() { if f.len() == 0 { s } else { trans(stt(s, f.drop_last()), f.last()) } }
pub open spec fn val<T>(s: T, f: Seq<Decision>) -> int decreases f.len() { if f.len() == 0 { 0 } else { val(s, f.drop_last()) + tcost(stt(s, f.drop_last()), f.last()) } }
pub open spec fn feas<T>(s: T, f: Seq<Decision>) -> bool decreases f.len() { if f.len() == 0 { true } else { feas(s, f.drop_last()) && indom(stt(s, f.drop_last()), f.last()) } }
pub proof fn run_push<T>(s: T, f: Seq<Decision>, d: Decision)
    ensures stt(s, f.push(d)) == trans(stt(s, f), d), val(s, f.push(d)) == val(s, f) + tcost(stt(s, f), d), feas(s, f.push(d)) == (feas(s, f) && indom(stt(s, f), d))
{
    assert(f.push(d).drop_last() =~= f);
}
pub proof fn run_concat<T>(s: T, f: Seq<Decision>, g: Seq<Decision>)
    ensures stt(s, f + g) == stt(stt(s, f), g), val(s, f + g) == val(s, f) + val(stt(s, f), g), feas(s, f + g) == (feas(s, f) && feas(stt(s, f), g))
    decreases g.len()
{
    if g.len() == 0 { assert(f + g =~= f); }
    else {
        assert((f + g).drop_last() =~= f + g.drop_last());
        run_concat(s, f, g.drop_last());
    }
}
/// a feasible prefix followed by a completion worth y is a completion
pub proof fn run_reach<T>(s: T, f: Seq<Decision>, r: int, y: int)
    requires feas(s, f), reach(r, stt(s, f), y), r >= 0
    ensures reach(r + f.len(), s, val(s, f) + y)
    decreases f.len()
{
    if f.len() > 0 {
        let p = f.drop_last(); let d = f.last();
        assert(indom(stt(s, p), d));
        assert(reach(r + 1, stt(s, p), tcost(stt(s, p), d) + y));
        run_reach(s, p, r + 1, tcost(stt(s, p), d) + y);
    }
}
/// q extends p by a feasible run of the model: same decisions (in any order), true state, true value
pub open spec fn ext_by<T>(p: SP<T>, q: SP<T>, f: Seq<Decision>) -> bool {
    &&& feas(*p.state, f) && stt(*p.state, f) == *q.state && q.value == p.value + val(*p.state, f)
    &&& q.path.to_multiset() =~= p.path.to_multiset().add(f.to_multiset())
    &&& sdepth(*q.state) == sdepth(*p.state) + f.len()
}
pub open spec fn ext<T>(p: SP<T>, q: SP<T>) -> bool { exists|f: Seq<Decision>| #[trigger] ext_by(p, q, f) }
