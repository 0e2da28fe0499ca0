//@ include prelude.vrs
//@ include crypto.vrs
//@ include geometry.vrs
//@ include codec.vrs
//@ include records.vrs trusted
//@ include record_layout.vrs
//@ include hash_spec.vrs
//@ include hash_fns.vrs trusted
//@ include window_fns.vrs trusted
//@ include writer_fns.vrs trusted
//@ include holds.vrs
//@ include writer_view.vrs
//@ include fst_spec.vrs
//@ include fst_codec.vrs trusted
//@ include iter.vrs
//@ include fst_visit.vrs trusted
//@ include build_base.vrs
//@ include build_def.vrs trusted
//@ include progress.vrs
fn main() {}
