//@ include prelude.vrs
//@ include crypto.vrs
//@ include geometry.vrs
//@ include codec.vrs
//@ include records.vrs trusted
//@ include record_layout.vrs
//@ include hash_spec.vrs
//@ include hash_fns.vrs trusted
//@ include window_fns.vrs trusted
//@ include writer_fns.vrs trusted
//@ include holds.vrs
//@ include writer_view.vrs
//@ include fst_spec.vrs
//@ include fst_codec.vrs trusted
//@ include iter.vrs
//@ include fst_find.vrs trusted
//@ include fst_add.vrs trusted
//@ include fst_visit.vrs trusted
//@ include build_base.vrs trusted
//@ include disc_lists.vrs
//@ include build_table.vrs trusted
//@ include build_def.vrs trusted
//@ include build_part.vrs trusted
//@ include certs.vrs
//@ include fs.vrs
//@ include dir_fs.vrs
//@ include dir_tree.vrs
//@ include dir_fns.vrs
fn main() {}
