//@ include prelude.vrs
//@ include crypto.vrs
//@ include geometry.vrs
//@ include codec.vrs
//@ include records.vrs trusted
//@ include record_layout.vrs
//@ include window_fns.vrs trusted
//@ include reader_fns.vrs trusted
//@ include fst_spec.vrs
//@ include fst_codec.vrs trusted
//@ include iter.vrs
//@ include fst_find.vrs trusted
//@ include fs.vrs
//@ include disc_fns.vrs
fn main() {}
