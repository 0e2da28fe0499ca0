verus! {
//@ struct fst.rs RawFstNode
//@ enum fst.rs FstNode
//@ struct fst.rs Fst
//@ struct fst.rs FstToBytes
//@ enum fst.rs FstToBytesError

/// the tree as a value
pub enum Node {
    File { name: Seq<char>, offset: int, length: int },
    Dir { name: Seq<char>, files: Seq<Node> },
}
pub open spec fn nv(n: FstNode) -> Node
    decreases n,
{
    match n {
        FstNode::File { name, offset, length } => Node::File { name: name@, offset: offset as int, length: length as int },
        FstNode::Directory { name, files } => Node::Dir { name: name@, files: nvs(files@) },
    }
}
pub open spec fn nvs(s: Seq<FstNode>) -> Seq<Node>
    decreases s,
{
    if s.len() == 0 { Seq::empty() } else { nvs(s.drop_last()).push(nv(s.last())) }
}
pub proof fn lemma_nvs(s: Seq<FstNode>)
    ensures nvs(s).len() == s.len(), forall|i: int| #![trigger nvs(s)[i]] #![trigger s[i]] 0 <= i < s.len() ==> nvs(s)[i] == nv(s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_nvs(s.drop_last());
    }
}
pub proof fn lemma_nvs_push(s: Seq<FstNode>, n: FstNode)
    ensures nvs(s.push(n)) == nvs(s).push(nv(n)),
{
    assert(s.push(n).drop_last() =~= s);
}
pub proof fn lemma_nvs_take(s: Seq<FstNode>, k: int)
    requires 0 <= k < s.len(),
    ensures nvs(s.take(k + 1)) == nvs(s.take(k)).push(nv(s[k])), nvs(s.take(k)).push(nv(s[k])).drop_last() == nvs(s.take(k)),
{
    assert(s.take(k + 1) =~= s.take(k).push(s[k]));
    lemma_nvs_push(s.take(k), s[k]);
    assert(nvs(s.take(k)).push(nv(s[k])).drop_last() =~= nvs(s.take(k)));
}

pub open spec fn nname(n: Node) -> Seq<char> {
    match n { Node::File { name, .. } => name, Node::Dir { name, .. } => name }
}
pub open spec fn kids(n: Node) -> Seq<Node> {
    match n { Node::File { .. } => Seq::empty(), Node::Dir { files, .. } => files }
}
pub open spec fn dir_files(n: FstNode) -> Seq<FstNode> { match n { FstNode::Directory { files, .. } => files@, _ => Seq::empty() } }
pub proof fn lemma_nvs_update(v: Seq<FstNode>, k: int, n: FstNode)
    requires 0 <= k < v.len(),
    ensures nvs(v.update(k, n)) == nvs(v).update(k, nv(n)), nvs(v)[k] == nv(v[k]),
{
    lemma_nvs(v);
    lemma_nvs(v.update(k, n));
    assert(nvs(v.update(k, n)) =~= nvs(v).update(k, nv(n)));
}
/// number of entries a node takes in the table
pub open spec fn size(n: Node) -> int
    decreases n,
{
    match n { Node::File { .. } => 1, Node::Dir { files, .. } => 1 + total(files) }
}
pub open spec fn total(s: Seq<Node>) -> int
    decreases s,
{
    if s.len() == 0 { 0 } else { total(s.drop_last()) + size(s.last()) }
}
pub proof fn lemma_size(n: Node)
    ensures size(n) >= 1,
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_total(files); }
}
pub proof fn lemma_total(s: Seq<Node>)
    ensures total(s) >= 0, total(s) >= s.len(),
    decreases s,
{
    if s.len() > 0 { lemma_total(s.drop_last()); lemma_size(s.last()); }
}
pub proof fn lemma_total_push(s: Seq<Node>, n: Node)
    ensures total(s.push(n)) == total(s) + size(n),
{
    assert(s.push(n).drop_last() =~= s);
}
pub proof fn lemma_total_take(s: Seq<Node>, k: int)
    requires 0 <= k <= s.len(),
    ensures 0 <= total(s.take(k)) <= total(s), k < s.len() ==> total(s.take(k)) + size(s[k]) <= total(s),
    decreases s.len() - k,
{
    lemma_total(s.take(k));
    if k < s.len() {
        lemma_total_take(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        lemma_size(s[k]);
    } else {
        assert(s.take(k) =~= s);
    }
}

// ---- the console's format ----------------------------------------------------------------------
/// entry `i` and the ones after it describe the node; `par` is the index of its directory (-1: any)
pub open spec fn node_at(raw: Seq<RawFstNode>, i: int, par: int, n: Node) -> bool
    decreases n,
{
    0 <= i < raw.len() && match n {
        Node::File { name, offset, length } => !raw[i].is_directory && raw[i].offset * 4 == offset && raw[i].length == length,
        Node::Dir { name, files } => raw[i].is_directory && raw[i].length == i + size(n) && (par >= 0 ==> raw[i].offset == par)
            && seq_at(raw, i + 1, if par < 0 { -1 } else { i }, files),
    }
}
pub open spec fn seq_at(raw: Seq<RawFstNode>, from: int, par: int, s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> seq_at(raw, from, par, s.drop_last()) && node_at(raw, from + total(s.drop_last()), par, s.last())
}
/// the name of entry `i`: the NUL-terminated bytes at `so` plus the entry's name offset
pub open spec fn is_cstr(d: Seq<u8>, p: int, b: Seq<u8>) -> bool {
    0 <= p && p + b.len() < d.len() && d[p + b.len()] == 0
    && (forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == d[p + i] && b[i] != 0)
}
pub open spec fn name_ok(d: Seq<u8>, p: int, name: Seq<char>) -> bool {
    exists|b: Seq<u8>| #[trigger] is_cstr(d, p, b) && sjis_dec(b) == Some(name)
}
pub open spec fn named1(d: Seq<u8>, so: int, offs: Seq<u32>, i: int, n: Node) -> bool
    decreases n,
{
    0 <= i < offs.len() && name_ok(d, so + offs[i], nname(n)) && match n {
        Node::File { .. } => true,
        Node::Dir { files, .. } => named(d, so, offs, i + 1, files),
    }
}
pub open spec fn named(d: Seq<u8>, so: int, offs: Seq<u32>, from: int, s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> named(d, so, offs, from, s.drop_last()) && named1(d, so, offs, from + total(s.drop_last()), s.last())
}

// ---- Shift-JIS (crate encoding_rs) --------------------------------------------------------------
/// decoding as `Encoding::decode` does; None: malformed
pub uninterp spec fn sjis_dec(b: Seq<u8>) -> Option<Seq<char>>;
/// what `Encoding::encode` produces, and whether it reports an unmappable character
pub uninterp spec fn sjis_enc(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn sjis_enc_err(s: Seq<char>) -> bool;
/// the text `decode_without_bom_handling` produces
pub uninterp spec fn sjis_dec_nobom(b: Seq<u8>) -> Seq<char>;
/// a name that survives
pub open spec fn survives(s: Seq<char>) -> bool { !sjis_enc_err(s) && sjis_dec_nobom(sjis_enc(s)) == s }

pub open spec fn nulfree(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '\0' }

pub open spec fn nulfree1(n: Node) -> bool
    decreases n,
{
    nulfree(nname(n)) && match n { Node::File { .. } => true, Node::Dir { files, .. } => nulfrees(files) }
}
pub open spec fn nulfrees(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> nulfrees(s.drop_last()) && nulfree1(s.last())
}

pub mod sjis_axioms {
    use vstd::prelude::*;
    use crate::*;
    /// the encoder emits a zero byte only for U+0000
    #[verifier::external_body]
    pub proof fn axiom_enc_nulfree(s: Seq<char>)
        requires survives(s), nulfree(s),
        ensures forall|i: int| 0 <= i < sjis_enc(s).len() ==> #[trigger] sjis_enc(s)[i] != 0u8,
    {}
    /// the encoder's output never starts with a byte order mark, so that decoding with and without
    /// handling one agree on it
    #[verifier::external_body]
    pub proof fn axiom_no_bom(s: Seq<char>)
        requires survives(s),
        ensures sjis_dec(sjis_enc(s)) == Some(s),
    {}
}

pub struct Sjis {}
pub const SHIFT_JIS: Sjis = Sjis {};
pub struct CowBytes { pub v: Vec<u8> }
impl CowBytes {
    pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self.v@ { self.v.as_slice() }
}
pub struct CowStr { pub s: String }
impl CowStr {
    pub fn into(self) -> (r: String) ensures r == self.s { self.s }
}
pub struct NullString { pub v: Vec<u8> }
impl BeRead for NullString {
    open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool { is_cstr(d, p, v.v@) && n == v.v@.len() + 1 }
    open spec fn total() -> bool { true }
}
impl Sjis {
    #[verifier::external_body]
    pub fn decode(&self, b: &NullString) -> (r: (CowStr, u8, bool))
        ensures r.2 == (sjis_dec(b.v@) is None), !r.2 ==> sjis_dec(b.v@) == Some(r.0.s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(&self, s: &String) -> (r: (CowBytes, u8, bool))
        ensures r.2 == sjis_enc_err(s@), !r.2 ==> r.0.v@ == sjis_enc(s@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn decode_without_bom_handling(&self, b: &CowBytes) -> (r: (CowStr, bool))
        ensures r.0.s@ == sjis_dec_nobom(b.v@),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vp_str_eq(a: &String, b: &String) -> (r: bool)
    ensures r == (a@ == b@),
{ a == b }
} // verus!
