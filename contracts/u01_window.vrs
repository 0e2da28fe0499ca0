//@ include prelude.vrs
//@ include window_fns.vrs
fn main() {}
