#![feature(const_destruct)]
#![allow(warnings)]
@@include common.inc
@@include flags.inc
}
fn main() {}
