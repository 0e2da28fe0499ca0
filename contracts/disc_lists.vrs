verus! {
pub open spec fn table_count(d: Seq<u8>, i: int) -> int { be32(d, 0x40000 + 8 * i) }
pub open spec fn table_off(d: Seq<u8>, i: int) -> int { 4 * be32(d, 0x40004 + 8 * i) }
/// entries in the first `n` tables
pub open spec fn table_sum(d: Seq<u8>, n: int) -> int
    decreases n,
{
    if n <= 0 { 0 } else { table_sum(d, n - 1) + table_count(d, n - 1) }
}
/// `v` is what the first `n` tables list, in table order
pub open spec fn lists(d: Seq<u8>, n: int, v: Seq<WiiPartTableEntry>) -> bool {
    v.len() == table_sum(d, n)
    && forall|i: int, j: int| #![trigger lay_entry(d, table_off(d, i) + 8 * j, v[table_sum(d, i) + j])]
        0 <= i < n && 0 <= j < table_count(d, i) ==> lay_entry(d, table_off(d, i) + 8 * j, v[table_sum(d, i) + j])
}
} // verus!
