//@ include prelude.vrs
//@ include crypto.vrs
//@ include geometry.vrs
//@ include reader_fns.vrs
fn main() {}
