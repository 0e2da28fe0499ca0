//@ include prelude.vrs
//@ include codec.vrs
//@ include fst_spec.vrs
//@ include iter.vrs
verus! {
//@ fn fst.rs FstNode::get_name
//@ spec
    ensures r@ == nname(nv(*self)),
//@ end
}
//@ include fst_find.vrs
//@ include fst_add.vrs
fn main() {}
