// ---------------------------------------------------------------- records of the barrier
/// a record (state, threshold, explored)
pub struct Rec<T> { pub s: T, pub th: int, pub ex: bool }
/// what one thread read from and published to the barrier, in ghost form
#[verifier::reject_recursive_types(T)]
pub tracked struct Log<T> { pub ghost seen: ISet<Rec<T>>, pub ghost pubs: ISet<Rec<T>> }
/// a record that was read, of depth at least d, promises at least x
pub open spec fn exc1<T>(q: Rec<T>, x: int, d: int) -> bool { sdepth(q.s) >= d && exists|z: int| #[trigger] rch(q.s, z) && q.th + z >= x }
pub open spec fn exc<T>(seen: ISet<Rec<T>>, x: int, d: int) -> bool { exists|q: Rec<T>| #[trigger] seen.contains(q) && exc1(q, x, d) }
pub proof fn exc_less<T>(seen: ISet<Rec<T>>, x: int, d: int, x2: int, d2: int)
    requires exc(seen, x, d), x2 <= x, d2 <= d
    ensures exc(seen, x2, d2)
{
    let q = choose|q: Rec<T>| #[trigger] seen.contains(q) && exc1(q, x, d);
    let z = choose|z: int| #[trigger] rch(q.s, z) && q.th + z >= x;
    assert(rch(q.s, z)); assert(exc1(q, x2, d2));
}
pub proof fn exc_more<T>(seen: ISet<Rec<T>>, see2: ISet<Rec<T>>, x: int, d: int)
    requires exc(seen, x, d), seen.subset_of(see2)
    ensures exc(see2, x, d)
{
    let q = choose|q: Rec<T>| #[trigger] seen.contains(q) && exc1(q, x, d); assert(see2.contains(q));
}
