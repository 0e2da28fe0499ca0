verus! {
// ---- texts in records (binrw NullString through String) ------------------------------------------
pub open spec fn is_cstr_len(d: Seq<u8>, p: int, n: int) -> bool {
    0 <= n && 0 <= p && p + n < d.len() && d[p + n] == 0u8 && forall|i: int| p <= i < p + n ==> #[trigger] d[i] != 0u8
}
pub open spec fn cstr_len(d: Seq<u8>, p: int) -> int { choose|n: int| is_cstr_len(d, p, n) }
pub proof fn lemma_cstr_len(d: Seq<u8>, p: int, n: int)
    requires is_cstr_len(d, p, n),
    ensures cstr_len(d, p) == n, is_cstr_len(d, p, cstr_len(d, p)),
{
    let m = cstr_len(d, p);
    assert(is_cstr_len(d, p, m));
    if m < n { assert(d[p + m] != 0u8); }
    if n < m { assert(d[p + n] != 0u8); }
}
/// bytes by which a text with its terminator exceeds `k`
pub open spec fn cstr_over(d: Seq<u8>, p: int, k: int) -> int { if cstr_len(d, p) + 1 > k { cstr_len(d, p) + 1 - k } else { 0 } }
pub open spec fn text_over(s: Seq<char>, k: int) -> int { if rec_utf8(s).len() + 1 > k { rec_utf8(s).len() + 1 - k } else { 0 } }
pub open spec fn text_read(d: Seq<u8>, p: int, s: Seq<char>) -> bool {
    exists|n: int| is_cstr_len(d, p, n) && s == rec_lossy(#[trigger] d.subrange(p, p + n))
}
pub open spec fn text_written(d: Seq<u8>, p: int, k: int, s: Seq<char>) -> bool {
    let e = rec_utf8(s);
    p + e.len() < d.len() && d.subrange(p, p + e.len()) == e && d[p + e.len()] == 0u8 && zero_run(d, p + e.len() + 1, k - e.len() - 1)
}
pub mod rec_text {
    use vstd::prelude::*;
    /// the UTF-8 bytes of a text, and the text `String::from_utf8_lossy` makes of bytes
    pub uninterp spec fn rec_utf8(s: Seq<char>) -> Seq<u8>;
    pub uninterp spec fn rec_lossy(b: Seq<u8>) -> Seq<char>;
    pub axiom fn axiom_rec_utf8_nulfree(s: Seq<char>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\0',
        ensures forall|i: int| 0 <= i < rec_utf8(s).len() ==> #[trigger] rec_utf8(s)[i] != 0u8;
    pub axiom fn axiom_rec_utf8(s: Seq<char>)
        ensures rec_lossy(rec_utf8(s)) == s;
}
pub use rec_text::*;
pub open spec fn title_ok(s: Seq<char>) -> bool {
    rec_utf8(s).len() <= 63 && forall|i: int| 0 <= i < s.len() ==> s[i] != '\0'
}

// ---- the title key -------------------------------------------------------------------------------
//@ const lib.rs COMMON_KEYS
pub open spec fn key_iv(title_id: Seq<u8>) -> Seq<u8> { title_id + Seq::new(8, |i: int| 0u8) }
/// the console's common keys
pub open spec fn common_key(i: int) -> Seq<u8> {
    if i == 0 { seq![0xebu8, 0xe4u8, 0x2au8, 0x22u8, 0x5eu8, 0x85u8, 0x93u8, 0xe4u8, 0x48u8, 0xd9u8, 0xc5u8, 0x45u8, 0x73u8, 0x81u8, 0xaau8, 0xf7u8] }
    else { seq![0x63u8, 0xb8u8, 0x2bu8, 0xb4u8, 0xf4u8, 0x61u8, 0x4eu8, 0x2eu8, 0x13u8, 0xf2u8, 0xfeu8, 0xfbu8, 0xbau8, 0x4cu8, 0x9bu8, 0x7eu8] }
}
pub open spec fn encrypt_title_key_spec(key: Seq<u8>, idx: u8, title_id: Seq<u8>) -> Option<Seq<u8>> {
    if idx < 2 { Some(cbc_enc(common_key(idx as int), key_iv(title_id), key)) } else { None }
}
pub open spec fn decrypt_title_key_spec(key: Seq<u8>, idx: u8, title_id: Seq<u8>) -> Option<Seq<u8>> {
    if idx < 2 { Some(cbc_dec(common_key(idx as int), key_iv(title_id), key)) } else { None }
}
/// `slice.get(i).copied()`
pub fn vp_get_copied<T: Copy>(s: &[T], i: usize) -> (r: Option<T>)
    ensures r is Some <==> i < s@.len(), r is Some ==> r->Some_0 == s@[i as int],
{
    if i < s.len() { Some(s[i]) } else { None }
}
//@ fn structs.rs get_common_key
//@ spec
    ensures
        r is Ok <==> common_key_idx < 2,
        r is Ok ==> r->Ok_0@ == common_key(common_key_idx as int),
//@ at start
    proof {
        assert(COMMON_KEYS[0]@ =~= common_key(0));
        assert(COMMON_KEYS[1]@ =~= common_key(1));
    }
//@ end
//@ fn structs.rs decrypt_title_key tryid hoist
//@ spec
    ensures
        r is Ok <==> decrypt_title_key_spec(key@, common_key_idx, title_id@) is Some,
        r is Ok ==> Some(r->Ok_0@) == decrypt_title_key_spec(key@, common_key_idx, title_id@),
//@ at after copy_from_slice
    assert(iv@ =~= key_iv(title_id@));
//@ end
//@ fn structs.rs encrypt_title_key tryid hoist
//@ spec
    ensures
        r is Ok <==> encrypt_title_key_spec(key@, common_key_idx, title_id@) is Some,
        r is Ok ==> Some(r->Ok_0@) == encrypt_title_key_spec(key@, common_key_idx, title_id@),
//@ at after copy_from_slice
    assert(iv@ =~= key_iv(title_id@));
//@ end
/// what is encrypted is recovered
pub proof fn theorem_title_key(key: Seq<u8>, idx: u8, title_id: Seq<u8>)
    requires key.len() == 16, idx < 2,
    ensures decrypt_title_key_spec(encrypt_title_key_spec(key, idx, title_id)->Some_0, idx, title_id) == Some(key),
{
}

// ---- records, and the layout their attributes declare --------------------------------------------
//@ struct lib.rs ShiftedU64
//@ codec lib.rs ShiftedU64
//@ enum structs.rs WiiPartType
//@ codec structs.rs WiiPartType
//@ enum structs.rs SigType
//@ codec structs.rs SigType
//@ enum structs.rs KeyType
//@ codec structs.rs KeyType
//@ struct structs.rs WiiPartTableEntry
//@ codec structs.rs WiiPartTableEntry
//@ struct structs.rs TicketTimeLimit
//@ codec structs.rs TicketTimeLimit
//@ struct structs.rs Ticket
//@ codec structs.rs Ticket
//@ struct structs.rs TMDContent
//@ codec structs.rs TMDContent
//@ struct structs.rs TMD
//@ codec structs.rs TMD
//@ struct structs.rs Certificate
//@ codec structs.rs Certificate
//@ struct structs.rs WiiPartitionHeader
//@ codec structs.rs WiiPartitionHeader
//@ struct structs.rs DiscHeader
//@ codec structs.rs DiscHeader
//@ struct structs.rs DOLHeader
//@ codec structs.rs DOLHeader
//@ struct structs.rs ApploaderHeader
//@ codec structs.rs ApploaderHeader
} // verus!
