#![verifier::allow(undeclared_external_trait)]
use vstd::prelude::*;
use std::cmp::Ordering;
use std::cmp::Ordering::{Greater, Less};
use std::sync::Arc;
verus! {
#[verifier::external_body]
pub fn vp_probe() -> (r: bool) { unimplemented!() }

// assumed contract of core::cmp::Ordering::then_with
pub assume_specification<F: FnOnce() -> Ordering + std::marker::Destruct> [std::cmp::Ordering::then_with] (o: Ordering, f: F) -> (r: Ordering)
    requires o == Ordering::Equal ==> call_requires(f, ()),
    ensures o != Ordering::Equal ==> r == o, o == Ordering::Equal ==> call_ensures(f, (), r);

// assumed contract of the derived PartialEq of core::cmp::Ordering
pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r <==> *a == *b;
