//@ include prelude.vrs
//@ include crypto.vrs
//@ include geometry.vrs
//@ include hash_spec.vrs
//@ include hash_fns.vrs
//@ include writer_fns.vrs
fn main() {}
