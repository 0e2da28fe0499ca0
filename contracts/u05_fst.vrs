//@ include prelude.vrs
//@ include codec.vrs
//@ include fst_spec.vrs
//@ include fst_codec.vrs
fn main() {}
