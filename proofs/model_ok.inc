pub open spec fn model_ok<T>() -> bool {
    &&& 0 <= nvars::<T>() < 0x7fff_ffff && cmax::<T>() >= 0
    &&& forall|s: T, d: Decision| #[trigger] indom(s, d) ==> 0 <= sdepth(s) < nvars::<T>() && sdepth(trans(s, d)) == sdepth(s) + 1
            && d.var == order::<T>(sdepth(s)) && -cmax::<T>() <= tcost(s, d) <= cmax::<T>()
    &&& forall|s: T, m: T| #[trigger] rel(s, m) ==> sdepth(m) == sdepth(s)
}
pub proof fn reach_bound<T>(r: int, s: T, y: int)
    requires model_ok::<T>(), reach(r, s, y)
    ensures y <= lim::<T>(r)
    decreases r
{
    if r > 0 {
        let d = choose|d: Decision| #[trigger] indom(s, d) && reach(r - 1, trans(s, d), y - tcost(s, d));
        reach_bound(r - 1, trans(s, d), y - tcost(s, d));
    }
}
pub open spec fn rs<T>(r: SP<T>) -> T { *r.state }
pub open spec fn dr<T>(r: SP<T>) -> int { sdepth(*r.state) }
