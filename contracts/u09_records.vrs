//@ include prelude.vrs
//@ include crypto.vrs
//@ include codec.vrs
//@ include records.vrs
//@ include record_layout.vrs
fn main() {}
