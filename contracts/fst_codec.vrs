verus! {
impl BeRead for RawFstNode {
    open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool { n == 12 && is_raw(d, p, v) }
    open spec fn total() -> bool { true }
}
/// the twelve bytes at `p` are this entry
pub open spec fn is_raw(d: Seq<u8>, p: int, v: RawFstNode) -> bool {
    0 <= p && p + 12 <= d.len() && v.is_directory == (d[p] != 0) && v.name_offset == be24(d, p + 1)
    && v.offset == be32(d, p + 4) && v.length == be32(d, p + 8)
}
impl BeWrite for Vec<RawFstNode> {
    open spec fn writes(&self, b: Seq<u8>) -> bool {
        b.len() == 12 * self@.len()
        && (forall|i: int| 0 <= i < self@.len() && self@[i].name_offset < 0x100_0000 ==> #[trigger] is_raw(b, 12 * i, self@[i]))
    }
}
//@ codec fst.rs RawFstNode alone
/// the layout the attributes declare is that of the format
pub proof fn theorem_raw(d: Seq<u8>, p: int, v: RawFstNode, n: int, b: Seq<u8>)
    ensures
        RawFstNode_parses(d, p, v, n) <==> is_raw(d, p, v) && n == 12,
        RawFstNode_writes(v, b) && v.name_offset < 0x100_0000 ==> is_raw(b, 0, v) && b.len() == 12,
{
    let x = be32(d, p) as u32;
    assert((x >> 24) == x / 0x100_0000 && (x & 0xffffffu32) == x % 0x100_0000) by (bit_vector);
    let y = v.name_offset;
    assert(y < 0x100_0000 ==> (1u32 << 24 | y) == 0x100_0000 + y && (0u32 << 24 | y) == y) by (bit_vector);
    assert(0 <= be32(d, p) < 0x1_0000_0000);
    assert(x / 0x100_0000 == d[p]);
    assert(x % 0x100_0000 == be24(d, p + 1));
}
pub open spec fn noffs(raw: Seq<RawFstNode>) -> Seq<u32> { Seq::new(raw.len(), |i: int| raw[i].name_offset) }

/// `d` holds, from `p` on, the table of the tree `s`
pub open spec fn table_at(d: Seq<u8>, p: int, raw: Seq<RawFstNode>, par: int, s: Seq<Node>) -> bool {
    raw.len() >= 1 && (forall|i: int| 0 <= i < raw.len() ==> #[trigger] is_raw(d, p + 12 * i, raw[i]))
    && raw[0].is_directory && raw[0].offset == 0 && raw[0].length == raw.len() && raw.len() == 1 + total(s)
    && seq_at(raw, 1, par, s) && named(d, p + 12 * raw.len(), noffs(raw), 1, s)
}
pub open spec fn is_table(d: Seq<u8>, p: int, s: Seq<Node>) -> bool {
    exists|raw: Seq<RawFstNode>| #[trigger] table_at(d, p, raw, 0, s)
}

// ---- lemmas over the format ----------------------------------------------------------------------
/// only the entries of the node matter
pub proof fn lemma_node_frame(a: Seq<RawFstNode>, b: Seq<RawFstNode>, i: int, par: int, n: Node)
    requires node_at(a, i, par, n), i + size(n) <= b.len(), forall|j: int| i <= j < i + size(n) ==> #[trigger] a[j] == b[j],
    ensures node_at(b, i, par, n),
    decreases n,
{
    lemma_size(n);
    assert(a[i] == b[i]);
    if let Node::Dir { files, .. } = n { lemma_seq_frame(a, b, i + 1, if par < 0 { -1 } else { i }, files); }
}
pub proof fn lemma_seq_frame(a: Seq<RawFstNode>, b: Seq<RawFstNode>, from: int, par: int, s: Seq<Node>)
    requires seq_at(a, from, par, s), from + total(s) <= b.len(), forall|j: int| from <= j < from + total(s) ==> #[trigger] a[j] == b[j],
    ensures seq_at(b, from, par, s),
    decreases s,
{
    if s.len() > 0 {
        lemma_size(s.last());
        lemma_total(s.drop_last());
        lemma_seq_frame(a, b, from, par, s.drop_last());
        lemma_node_frame(a, b, from + total(s.drop_last()), par, s.last());
    }
}
/// forgetting the parent indices
pub proof fn lemma_node_anypar(a: Seq<RawFstNode>, i: int, par: int, n: Node)
    requires node_at(a, i, par, n),
    ensures node_at(a, i, -1, n),
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_seq_anypar(a, i + 1, if par < 0 { -1 } else { i }, files); }
}
pub proof fn lemma_seq_anypar(a: Seq<RawFstNode>, from: int, par: int, s: Seq<Node>)
    requires seq_at(a, from, par, s),
    ensures seq_at(a, from, -1, s),
    decreases s,
{
    if s.len() > 0 {
        lemma_seq_anypar(a, from, par, s.drop_last());
        lemma_node_anypar(a, from + total(s.drop_last()), par, s.last());
    }
}
pub proof fn lemma_name_grow(d: Seq<u8>, so: int, d2: Seq<u8>, so2: int, o: int, name: Seq<char>)
    requires name_ok(d, so + o, name), 0 <= o, 0 <= so, 0 <= so2, so2 + d.len() - so <= d2.len(), forall|i: int| so <= i < d.len() ==> #[trigger] d[i] == d2[so2 - so + i],
    ensures name_ok(d2, so2 + o, name),
{
    let b = choose|b: Seq<u8>| #[trigger] is_cstr(d, so + o, b) && sjis_dec(b) == Some(name);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == d2[so2 + o + i] && b[i] != 0 by {
        assert(b[i] == d[so + o + i]);
    }
    assert(d[so + o + b.len()] == d2[so2 - so + so + o + b.len()]);
    assert(is_cstr(d2, so2 + o, b));
}
/// a longer string table, wherever it lies, and more entries change no name
pub proof fn lemma_named1_grow(d: Seq<u8>, so: int, offs: Seq<u32>, d2: Seq<u8>, so2: int, offs2: Seq<u32>, i: int, n: Node)
    requires named1(d, so, offs, i, n), 0 <= so, 0 <= so2, so2 + d.len() - so <= d2.len(), forall|i: int| so <= i < d.len() ==> #[trigger] d[i] == d2[so2 - so + i],
        i + size(n) <= offs2.len(), forall|j: int| i <= j < i + size(n) ==> #[trigger] offs[j] == offs2[j],
    ensures named1(d2, so2, offs2, i, n),
    decreases n,
{
    lemma_size(n);
    assert(offs[i] == offs2[i]);
    lemma_name_grow(d, so, d2, so2, offs[i] as int, nname(n));
    if let Node::Dir { files, .. } = n { lemma_named_grow(d, so, offs, d2, so2, offs2, i + 1, files); }
}
pub proof fn lemma_named_grow(d: Seq<u8>, so: int, offs: Seq<u32>, d2: Seq<u8>, so2: int, offs2: Seq<u32>, from: int, s: Seq<Node>)
    requires named(d, so, offs, from, s), 0 <= so, 0 <= so2, so2 + d.len() - so <= d2.len(), forall|i: int| so <= i < d.len() ==> #[trigger] d[i] == d2[so2 - so + i],
        from + total(s) <= offs2.len(), forall|j: int| from <= j < from + total(s) ==> #[trigger] offs[j] == offs2[j],
    ensures named(d2, so2, offs2, from, s),
    decreases s,
{
    if s.len() > 0 {
        lemma_size(s.last());
        lemma_total(s.drop_last());
        lemma_named_grow(d, so, offs, d2, so2, offs2, from, s.drop_last());
        lemma_named1_grow(d, so, offs, d2, so2, offs2, from + total(s.drop_last()), s.last());
    }
}
pub proof fn lemma_seq_take(raw: Seq<RawFstNode>, d: Seq<u8>, so: int, from: int, par: int, s: Seq<Node>, k: int)
    requires seq_at(raw, from, par, s), named(d, so, noffs(raw), from, s), 0 <= k <= s.len(),
    ensures seq_at(raw, from, par, s.take(k)), named(d, so, noffs(raw), from, s.take(k)),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_seq_take(raw, d, so, from, par, s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}
pub proof fn lemma_cstr_unique(d: Seq<u8>, p: int, a: Seq<u8>, b: Seq<u8>)
    requires is_cstr(d, p, a), is_cstr(d, p, b),
    ensures a == b,
{
    if a.len() < b.len() { assert(b[a.len() as int] == d[p + a.len()]); }
    if b.len() < a.len() { assert(a[b.len() as int] == d[p + b.len()]); }
    assert(a =~= b);
}
pub proof fn lemma_name_unique(d: Seq<u8>, p: int, a: Seq<char>, b: Seq<char>)
    requires name_ok(d, p, a), name_ok(d, p, b),
    ensures a == b,
{
    let x = choose|x: Seq<u8>| #[trigger] is_cstr(d, p, x) && sjis_dec(x) == Some(a);
    let y = choose|y: Seq<u8>| #[trigger] is_cstr(d, p, y) && sjis_dec(y) == Some(b);
    lemma_cstr_unique(d, p, x, y);
}
/// the table determines the tree
pub proof fn lemma_unique1(raw: Seq<RawFstNode>, d: Seq<u8>, so: int, i: int, a: Node, b: Node)
    requires node_at(raw, i, -1, a), node_at(raw, i, -1, b), named1(d, so, noffs(raw), i, a), named1(d, so, noffs(raw), i, b),
    ensures a == b,
    decreases size(a), 0int,
{
    lemma_name_unique(d, so + noffs(raw)[i], nname(a), nname(b));
    match (a, b) {
        (Node::Dir { name: n1, files: f1 }, Node::Dir { name: n2, files: f2 }) => {
            lemma_total(f1);
            lemma_total(f2);
            lemma_unique(raw, d, so, i + 1, f1, f2);
            lemma_total_take(f2, f1.len() as int);
            if f1.len() < f2.len() {
                lemma_total_take(f2, f1.len() as int);
                lemma_size(f2[f1.len() as int]);
            }
            assert(f1 =~= f2);
        },
        _ => {},
    }
}
pub proof fn lemma_unique(raw: Seq<RawFstNode>, d: Seq<u8>, so: int, from: int, a: Seq<Node>, b: Seq<Node>)
    requires seq_at(raw, from, -1, a), seq_at(raw, from, -1, b), named(d, so, noffs(raw), from, a), named(d, so, noffs(raw), from, b), total(a) <= total(b),
    ensures a.len() <= b.len(), a == b.take(a.len() as int),
    decreases total(a), 1int,
{
    lemma_total(a);
    if a.len() == 0 {
        assert(a =~= b.take(0));
    } else {
        let a1 = a.drop_last();
        let k = a1.len() as int;
        lemma_size(a.last());
        lemma_total(a1);
        lemma_unique(raw, d, so, from, a1, b);
        if k == b.len() { assert(b.take(k) =~= b); }
        lemma_seq_take(raw, d, so, from, -1, b, k + 1);
        assert(b.take(k + 1).drop_last() =~= b.take(k));
        lemma_unique1(raw, d, so, from + total(a1), a.last(), b[k]);
        assert(a =~= b.take(k + 1));
    }
}
/// two trees of the same table are the same tree
pub proof fn lemma_table_unique(d: Seq<u8>, p: int, raw: Seq<RawFstNode>, a: Seq<Node>, par: int, raw2: Seq<RawFstNode>, b: Seq<Node>, par2: int)
    requires table_at(d, p, raw, par, a), table_at(d, p, raw2, par2, b),
    ensures a == b,
{
    assert(is_raw(d, p + 12 * 0, raw[0]) && is_raw(d, p + 12 * 0, raw2[0]));
    assert forall|i: int| 0 <= i < raw.len() implies raw[i] == raw2[i] by {
        assert(is_raw(d, p + 12 * i, raw[i]) && is_raw(d, p + 12 * i, raw2[i]));
    }
    assert(raw =~= raw2);
    lemma_seq_anypar(raw, 1, par, a);
    lemma_seq_anypar(raw, 1, par2, b);
    let so = p + 12 * raw.len();
    lemma_unique(raw, d, so, 1, a, b);
    lemma_unique(raw, d, so, 1, b, a);
    assert(a =~= b);
}

//@ fn fst.rs FstNode::get_name
//@ spec
    ensures r@ == nname(nv(*self)),
//@ end

// ---- reading -------------------------------------------------------------------------------------
//@ fn fst.rs read_shiftjs try
//@ spec
    requires (*old(rs)).wf(), offset <= (*old(rs)).top(),
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).data() == (*old(rs)).data(), (*final(rs)).top() == (*old(rs)).top(),
        r is Ok ==> name_ok((*old(rs)).data(), offset as int, r->Ok_0@),
        r is Err && !(r->Err_0 is Io) ==> forall|n: Seq<char>| !#[trigger] name_ok((*old(rs)).data(), offset as int, n),
//@ at after null_str
    let ghost nb = null_str.v@;
    assert(is_cstr((*rs).data(), offset as int, nb));
    assert forall|b: Seq<u8>| is_cstr((*rs).data(), offset as int, b) implies b == nb by { lemma_cstr_unique((*rs).data(), offset as int, b, nb); }
//@ end


/// the entries before `end` describe some tree from `from` on
pub open spec fn good(raw: Seq<RawFstNode>, d: Seq<u8>, so: int, from: int, end: int, t: Seq<Node>) -> bool {
    seq_at(raw, from, -1, t) && named(d, so, noffs(raw), from, t) && total(t) == end - from
}
/// any such tree starts with what was read so far and goes on with the next entry
pub proof fn lemma_good_next(raw: Seq<RawFstNode>, d: Seq<u8>, so: int, from: int, end: int, t: Seq<Node>, done: Seq<Node>)
    requires good(raw, d, so, from, end, t), seq_at(raw, from, -1, done), named(d, so, noffs(raw), from, done), total(done) < end - from,
    ensures
        done.len() < t.len(),
        node_at(raw, from + total(done), -1, t[done.len() as int]),
        named1(d, so, noffs(raw), from + total(done), t[done.len() as int]),
        size(t[done.len() as int]) <= end - from - total(done),
        size(t[done.len() as int]) >= 1,
{
    lemma_unique(raw, d, so, from, done, t);
    let k = done.len() as int;
    if k == t.len() { assert(t.take(k) =~= t); }
    lemma_seq_take(raw, d, so, from, -1, t, k + 1);
    assert(t.take(k + 1).drop_last() =~= t.take(k));
    lemma_total_take(t, k);
    lemma_size(t[k]);
}

//@ fn fst.rs Fst::transform_fst_rec try
//@ spec
    requires
        (*old(rs)).wf(), (*old(rs)).top() >= str_offset + 0xffff_ffff,
        *old(cur_idx) <= children_end <= raw_nodes@.len(),
        forall|i: int| 0 <= i < raw_nodes@.len() ==> #[trigger] raw_nodes@[i].name_offset < 0x100_0000,
        str_offset < 0x200_0000_0000,
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).data() == (*old(rs)).data(), (*final(rs)).top() == (*old(rs)).top(),
        r is Ok ==> *final(cur_idx) == children_end
            && good(raw_nodes@, (*old(rs)).data(), str_offset as int, *old(cur_idx) as int, children_end as int, nvs(r->Ok_0@)),
        r is Err && !(r->Err_0 is Io) ==> forall|t: Seq<Node>| !#[trigger] good(raw_nodes@, (*old(rs)).data(), str_offset as int, *old(cur_idx) as int, children_end as int, t),
    decreases children_end - *old(cur_idx),
//@ loop 0
    invariant
        (*rs).wf(), (*rs).refs() == (*old(rs)).refs(), (*rs).data() == (*old(rs)).data(), (*rs).top() == (*old(rs)).top(),
        (*rs).top() >= str_offset + 0xffff_ffff, str_offset < 0x200_0000_0000,
        *old(cur_idx) <= *cur_idx <= children_end <= raw_nodes@.len(),
        forall|i: int| 0 <= i < raw_nodes@.len() ==> #[trigger] raw_nodes@[i].name_offset < 0x100_0000,
        seq_at(raw_nodes@, *old(cur_idx) as int, -1, nvs(nodes@)),
        named((*rs).data(), str_offset as int, noffs(raw_nodes@), *old(cur_idx) as int, nvs(nodes@)),
        *cur_idx == *old(cur_idx) + total(nvs(nodes@)),
    decreases children_end - *cur_idx,
//@ at loop 0 start
    let ghost i = *cur_idx as int;
    let ghost done = nvs(nodes@);
    let ghost nodes0 = nodes@;
    let ghost d = (*rs).data();
    let ghost so = str_offset as int;
    let ghost raws = raw_nodes@;
    let ghost i0 = *old(cur_idx) as int;
    let ghost ce = children_end as int;
    proof {
        assert forall|t: Seq<Node>| #[trigger] good(raws, d, so, i0, ce, t) implies done.len() < t.len() && node_at(raws, i, -1, t[done.len() as int])
            && named1(d, so, noffs(raws), i, t[done.len() as int]) && 1 <= size(t[done.len() as int]) <= ce - i
            && (t[done.len() as int] is Dir ==> good(raws, d, so, i + 1, raws[i].length as int, t[done.len() as int]->Dir_files)) by {
            lemma_good_next(raws, d, so, i0, ce, t, done);
        }
        assert(vstd::arithmetic::power2::pow2(2) == 4) by { vstd::arithmetic::power2::lemma2_to64(); }
        vstd::bits::lemma_u64_shl_is_mul(raws[i].offset as u64, 2);
        assert(noffs(raws)[i] == raws[i].name_offset);
    }
//@ at loop 0 end
    proof {
        let n = nodes@.last();
        assert(nodes@ =~= nodes0.push(n));
        lemma_nvs_push(nodes0, n);
        lemma_total_push(done, nv(n));
        assert(nvs(nodes@).drop_last() =~= done);
        assert(node_at(raws, i, -1, nv(n)));
        assert(named1(d, so, noffs(raws), i, nv(n)));
    }
//@ end

pub open spec fn readable(d: Seq<u8>, p: int, t: Seq<Node>) -> bool {
    exists|raw: Seq<RawFstNode>| #[trigger] table_at(d, p, raw, -1, t)
}
//@ fn fst.rs Fst::read try
//@ spec
    requires (*old(rs)).wf(), offset < 0x100_0000_0000, (*old(rs)).top() >= 0x300_0000_0000,
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).data() == (*old(rs)).data(), (*final(rs)).top() == (*old(rs)).top(),
        r is Ok ==> readable((*old(rs)).data(), offset as int, nvs(r->Ok_0.entries@)),
        r is Err && !(r->Err_0 is Io) ==> forall|t: Seq<Node>| !#[trigger] readable((*old(rs)).data(), offset as int, t),
//@ loop 0
    invariant
        (*rs).wf(), (*rs).refs() == (*old(rs)).refs(), (*rs).data() == (*old(rs)).data(), (*rs).top() == (*old(rs)).top(), (*rs).top() >= 0x300_0000_0000,
        offset < 0x100_0000_0000,
        nodes@.len() >= 1, nodes@.len() == vp_i + 1,
        nodes@[0].length == total_node_count + 1, nodes@[0].is_directory, nodes@[0].offset == 0,
        (*rs).at() == offset + 12 * nodes@.len(),
        forall|i: int| 0 <= i < nodes@.len() ==> #[trigger] is_raw((*rs).data(), offset + 12 * i, nodes@[i]),
//@ at after root_node:RawFstNode=
    let ghost d = (*rs).data();
    let ghost p = offset as int;
    proof {
        assert forall|raw: Seq<RawFstNode>, t: Seq<Node>| #[trigger] table_at(d, p, raw, -1, t) implies raw[0] == root_node by {
            assert(is_raw(d, p + 12 * 0, raw[0]));
        }
        assert(is_raw(d, p + 12 * 0, root_node));
    }
//@ at after str_offset=
    proof {
        let raws = nodes@;
        let so = str_offset as int;
        assert forall|t: Seq<Node>| #[trigger] readable(d, p, t) implies good(raws, d, so, 1, raws.len() as int, t) by {
            let raw = choose|raw: Seq<RawFstNode>| #[trigger] table_at(d, p, raw, -1, t);
            assert(is_raw(d, p + 12 * 0, raws[0]));
            assert(is_raw(d, p + 12 * 0, raw[0]));
            assert forall|i: int| 0 <= i < raw.len() implies raw[i] == raws[i] by {
                assert(is_raw(d, p + 12 * i, raw[i]) && is_raw(d, p + 12 * i, raws[i]));
            }
            assert(raw =~= raws);
        }
        assert forall|i: int| 0 <= i < raws.len() implies #[trigger] raws[i].name_offset < 0x100_0000 by {
            assert(is_raw(d, p + 12 * i, raws[i]));
        }
    }
//@ at end
    proof {
        assert(table_at(d, p, nodes@, -1, nvs(fst_nodes@)));
    }
//@ end

impl VpFrom<FstToBytesError> for FstToBytesError {
    open spec fn from_is(e: FstToBytesError, r: Self) -> bool { r == e }
    fn vp_from(e: FstToBytesError) -> (r: Self) { e }
}
// ---- writing -------------------------------------------------------------------------------------
/// every name can be encoded
pub open spec fn enc1(n: Node) -> bool
    decreases n,
{
    survives(nname(n)) && match n { Node::File { .. } => true, Node::Dir { files, .. } => encs(files) }
}
pub open spec fn encs(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> encs(s.drop_last()) && enc1(s.last())
}
/// room the names take, each with its terminator
pub open spec fn room1(n: Node) -> int
    decreases n,
{
    sjis_enc(nname(n)).len() + 1 + match n { Node::File { .. } => 0, Node::Dir { files, .. } => name_room(files) }
}
pub open spec fn name_room(s: Seq<Node>) -> int
    decreases s,
{
    if s.len() == 0 { 0 } else { name_room(s.drop_last()) + room1(s.last()) }
}
pub open spec fn node_name(n: FstNode) -> Seq<char> { nname(nv(n)) }
pub proof fn lemma_encs_take(s: Seq<Node>, k: int)
    requires 0 <= k <= s.len(),
    ensures
        encs(s) ==> encs(s.take(k)) && (k < s.len() ==> enc1(s[k])),
        nulfrees(s) ==> nulfrees(s.take(k)) && (k < s.len() ==> nulfree1(s[k])),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_encs_take(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}

//@ fn fst.rs rec_build_fst_bytes try
//@ subst SHIFT_JIS.decode_without_bom_handling(&bytes).0 != node.get_name().as_str() ==> !vp_str_eq(&SHIFT_JIS.decode_without_bom_handling(&bytes).0.s, node.get_name())
//@ spec
    ensures
        old(name_offsets)@.is_prefix_of(final(name_offsets)@),
        old(str_bytes)@.is_prefix_of(final(str_bytes)@),
        final(str_bytes)@.len() - old(str_bytes)@.len() >= final(name_offsets)@.len() - old(name_offsets)@.len(),
        r is Ok ==> final(name_offsets)@.len() == old(name_offsets)@.len() + total(nvs(nodes@)),
        r is Ok && final(str_bytes)@.len() < 0x100_0000 ==> forall|i: int| old(name_offsets)@.len() <= i < final(name_offsets)@.len() ==> #[trigger] final(name_offsets)@[i] < 0x100_0000,
        r is Ok && final(str_bytes)@.len() < 0x100_0000 && nulfrees(nvs(nodes@)) ==>
            named(final(str_bytes)@, 0, final(name_offsets)@, old(name_offsets)@.len() as int, nvs(nodes@)),
        r is Ok ==> encs(nvs(nodes@)),
        r is Ok ==> final(str_bytes)@.len() - old(str_bytes)@.len() <= name_room(nvs(nodes@)),
        r is Err ==> !encs(nvs(nodes@)),
    decreases nodes@,
//@ loop 0 iter it
    invariant
        0 <= it.index@ <= nodes@.len(),
        old(name_offsets)@.is_prefix_of(name_offsets@),
        old(str_bytes)@.is_prefix_of(str_bytes@),
        str_bytes@.len() - old(str_bytes)@.len() >= name_offsets@.len() - old(name_offsets)@.len(),
        name_offsets@.len() == old(name_offsets)@.len() + total(nvs(nodes@.take(it.index@))),
        str_bytes@.len() < 0x100_0000 ==> forall|i: int| old(name_offsets)@.len() <= i < name_offsets@.len() ==> #[trigger] name_offsets@[i] < 0x100_0000,
        str_bytes@.len() < 0x100_0000 && nulfrees(nvs(nodes@)) ==>
            named(str_bytes@, 0, name_offsets@, old(name_offsets)@.len() as int, nvs(nodes@.take(it.index@))),
        encs(nvs(nodes@.take(it.index@))),
        str_bytes@.len() - old(str_bytes)@.len() <= name_room(nvs(nodes@.take(it.index@))),
//@ at loop 0 start
    let ghost k = it.index@;
    let ghost sb0 = str_bytes@;
    let ghost no0 = name_offsets@;
    let ghost s = nvs(nodes@);
    proof {
        lemma_nvs(nodes@);
        lemma_nvs_take(nodes@, k);
        lemma_encs_take(s, k);
        lemma_nvs(nodes@.take(k));
        assert(s.take(k) =~= nvs(nodes@.take(k))) by {
            assert forall|j: int| 0 <= j < k implies #[trigger] s[j] == nvs(nodes@.take(k))[j] by {}
        }
        assert(*node == nodes@[k]);
        assert(s[k] == nv(*node));
    }
    let ghost p = sb0.len() as int;
    let ghost i0 = no0.len() as int;
//@ at after name_offsets.push
    let ghost sb1 = str_bytes@;
    let ghost no1 = name_offsets@;
    proof {
        let b = bytes.v@;
        assert(sb1 =~= sb0 + b.push(0));
        if nulfrees(s) && sb1.len() < 0x100_0000 {
            sjis_axioms::axiom_enc_nulfree(node_name(*node));
            sjis_axioms::axiom_no_bom(node_name(*node));
            assert(is_cstr(sb1, p, b));
            assert(name_ok(sb1, 0 + no1[i0], nname(nv(*node))));
        }
    }
//@ at loop 0 end
    proof {
        let sb2 = str_bytes@;
        let no2 = name_offsets@;
        assert(sb0.is_prefix_of(sb2));
        assert(no0.is_prefix_of(no2));
        lemma_total(nvs(nodes@.take(k)));
        if nulfrees(s) && sb2.len() < 0x100_0000 {
            lemma_named_grow(sb0, 0, no0, sb2, 0, no2, old(name_offsets)@.len() as int, nvs(nodes@.take(k)));
            lemma_name_grow(sb1, 0, sb2, 0, no1[i0] as int, nname(nv(*node)));
            assert(named1(sb2, 0, no2, i0, nv(*node)));
        }
        assert(enc1(nv(*node)));
        lemma_total_push(nvs(nodes@.take(k)), nv(*node));
        assert(no2.len() == no0.len() + size(nv(*node)));
        assert(sb1.len() - sb0.len() <= sjis_enc(nname(nv(*node))).len() + 1);
        assert(sb2.len() - sb0.len() <= room1(nv(*node)));
        assert(name_room(nvs(nodes@.take(k)).push(nv(*node))) == name_room(nvs(nodes@.take(k))) + room1(nv(*node)));
        if sb2.len() < 0x100_0000 {
            assert forall|i: int| old(name_offsets)@.len() <= i < no2.len() implies #[trigger] no2[i] < 0x100_0000 by {
                if i < no0.len() { assert(no2[i] == no0[i]); }
                else if i == no0.len() { assert(no2[i] == no1[i0]); }
            }
        }
    }
//@ at end
    assert(nodes@.take(nodes@.len() as int) =~= nodes@);
//@ end

/// every file offset can be stored
pub open spec fn fit1(n: Node) -> bool
    decreases n,
{
    match n { Node::File { offset, .. } => offset % 4 == 0 && offset < 0x4_0000_0000, Node::Dir { files, .. } => fits(files) }
}
pub open spec fn fits(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> fits(s.drop_last()) && fit1(s.last())
}
pub proof fn lemma_fits_take(s: Seq<Node>, k: int)
    requires 0 <= k <= s.len(), fits(s),
    ensures fits(s.take(k)) && (k < s.len() ==> fit1(s[k])),
    decreases s.len() - k,
{
    if k < s.len() {
        lemma_fits_take(s, k + 1);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
    } else {
        assert(s.take(k) =~= s);
    }
}

//@ fn fst.rs FstToBytes::build_node_bytes_rec
//@ spec
    requires
        1 <= *old(idx), *old(idx) == old(raw_nodes)@.len(), *old(idx) + total(nvs(nodes@)) <= str_offsets@.len() <= 0xffff_ffff,
    ensures
        *final(idx) == final(raw_nodes)@.len(), final(raw_nodes)@.len() == old(raw_nodes)@.len() + total(nvs(nodes@)),
        old(raw_nodes)@.is_prefix_of(final(raw_nodes)@),
        forall|i: int| old(raw_nodes)@.len() <= i < final(raw_nodes)@.len() ==> #[trigger] final(raw_nodes)@[i].name_offset == str_offsets@[i],
        fits(nvs(nodes@)) ==> seq_at(final(raw_nodes)@, *old(idx) as int, *old(idx) - 1, nvs(nodes@)),
    decreases nodes@,
//@ loop 0 iter it
    invariant
        0 <= it.index@ <= nodes@.len(),
        parent_idx == *old(idx) - 1,
        1 <= *old(idx), *old(idx) == old(raw_nodes)@.len(), *old(idx) + total(nvs(nodes@)) <= str_offsets@.len() <= 0xffff_ffff,
        *idx == raw_nodes@.len(), raw_nodes@.len() == old(raw_nodes)@.len() + total(nvs(nodes@.take(it.index@))),
        old(raw_nodes)@.is_prefix_of(raw_nodes@),
        forall|i: int| old(raw_nodes)@.len() <= i < raw_nodes@.len() ==> #[trigger] raw_nodes@[i].name_offset == str_offsets@[i],
        fits(nvs(nodes@)) ==> seq_at(raw_nodes@, *old(idx) as int, *old(idx) - 1, nvs(nodes@.take(it.index@))),
//@ at loop 0 start
    let ghost k = it.index@;
    let ghost r0 = raw_nodes@;
    let ghost s = nvs(nodes@);
    let ghost i0 = *old(idx) as int;
    let ghost pi = parent_idx as int;
    let ghost ti = *idx as int;
    proof {
        lemma_nvs(nodes@);
        lemma_nvs_take(nodes@, k);
        lemma_nvs(nodes@.take(k));
        assert(s.take(k) =~= nvs(nodes@.take(k))) by {
            assert forall|j: int| 0 <= j < k implies #[trigger] s[j] == nvs(nodes@.take(k))[j] by {}
        }
        assert(*node == nodes@[k]);
        assert(s[k] == nv(*node));
        lemma_total_take(s, k);
        lemma_size(s[k]);
        lemma_total_push(nvs(nodes@.take(k)), nv(*node));
        if fits(s) { lemma_fits_take(s, k); }
        if let FstNode::File { offset, .. } = *node {
            vstd::bits::lemma_u64_shr_is_div(offset, 2);
            assert(vstd::arithmetic::power2::pow2(2) == 4) by { vstd::arithmetic::power2::lemma2_to64(); }
        }
    }
//@ at after Self::build_node_bytes_rec
    let ghost ra = raw_nodes@;
    let ghost rp = r0.push(RawFstNode { is_directory: true, name_offset, offset: parent_idx, length: 0xffff_ffff });
    assert(rp.is_prefix_of(ra));
    assert(ra[ti] == rp[ti]);
    assert forall|j: int| 0 <= j < r0.len() implies #[trigger] ra[j] == r0[j] by { assert(ra[j] == rp[j]); }
//@ at after get_mut(this_idx)
    proof {
        let r2 = raw_nodes@;
        assert(r2 =~= ra.update(ti, RawFstNode { length: *idx, ..ra[ti] }));
        if fits(s) {
            lemma_seq_frame(ra, r2, ti + 1, ti, nvs(files@));
        }
    }
//@ at loop 0 end
    proof {
        let r2 = raw_nodes@;
        assert(r0.is_prefix_of(r2));
        assert(r2.len() == r0.len() + size(nv(*node)));
        if fits(s) {
            lemma_seq_frame(r0, r2, i0, pi, nvs(nodes@.take(k)));
            assert(node_at(r2, ti, pi, nv(*node)));
        }
    }
//@ at end
    assert(nodes@.take(nodes@.len() as int) =~= nodes@);
//@ end

impl FstToBytes {
    /// what the conversion establishes and the callback over the files keeps
    pub open spec fn inv(&self) -> bool {
        fb_inv(self.str_offsets@, self.str_bytes@, nvs(self.fst.entries@))
    }
}
pub open spec fn fb_inv(offs: Seq<u32>, bytes: Seq<u8>, s: Seq<Node>) -> bool {
    offs.len() == 1 + total(s) && offs.len() <= bytes.len() && bytes.len() <= 1 + name_room(s)
    && (bytes.len() < 0x100_0000 ==> forall|i: int| 0 <= i < offs.len() ==> #[trigger] offs[i] < 0x100_0000)
    && (bytes.len() < 0x100_0000 && nulfrees(s) ==> named(bytes, 0, offs, 1, s))
    && encs(s)
}
//@ fn fst.rs FstToBytes::try_from try
//@ retty Result<FstToBytes, FstToBytesError>
//@ spec
    ensures
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.fst == value,
        r is Err ==> !encs(nvs(value.entries@)),
//@ at end
    assert(seq![0u32].is_prefix_of(str_offsets@));
    assert(str_offsets@[0] == seq![0u32][0]);
//@ end

//@ fn fst.rs FstToBytes::write_to try
//@ bound W Sink
//@ spec
    requires (*old(w)).ready(), self.inv(), self.str_bytes@.len() < 0x100_0000,
    ensures
        W::linked(*old(w), *final(w)),
        r is Ok ==> (*final(w)).ready(),
        r is Ok ==> exists|b: Seq<u8>| #[trigger] W::put(*old(w), *final(w), b)
            && b.len() == 12 * self.str_offsets@.len() + self.str_bytes@.len()
            && (nulfrees(nvs(self.fst.entries@)) && fits(nvs(self.fst.entries@)) ==> is_table(b, 0, nvs(self.fst.entries@))),
//@ at after Self::build_node_bytes_rec
    let ghost r1 = raw_nodes@;
    let ghost root = RawFstNode { is_directory: true, name_offset: 0, offset: 0, length: 0xffff_ffff };
    assert(seq![root].is_prefix_of(r1));
    assert(r1[0] == seq![root][0]);
//@ at after get_mut(0)
    let ghost w0 = *w;
    let ghost s = nvs(self.fst.entries@);
    let ghost raw = raw_nodes@;
    let ghost sb = self.str_bytes@;
    proof {
        lemma_total(s);
        assert(raw =~= r1.update(0, RawFstNode { length: idx, ..root }));
        if fits(s) { lemma_seq_frame(r1, raw, 1, 0, s); }
        assert forall|i: int| 0 <= i < raw.len() implies #[trigger] raw[i].name_offset == self.str_offsets@[i] || i == 0 by { if i > 0 { assert(r1[i].name_offset == self.str_offsets@[i]); } }
    }
//@ at after write_be(
    let ghost w1 = *w;
    proof { assert forall|c: W| #[trigger] W::linked(w1, c) implies W::linked(w0, c) by { W::lemma_linked(w0, w1, c); } }
//@ at end
    proof {
        let rb = choose|rb: Seq<u8>| #[trigger] raw_nodes.writes(rb) && W::put(w0, w1, rb);
        let b = rb + sb;
        W::lemma_put(w0, w1, *w, rb, sb);
        let offs = self.str_offsets@;
        if nulfrees(s) && fits(s) {
            assert forall|i: int| 0 <= i < raw.len() implies #[trigger] is_raw(b, 0 + 12 * i, raw[i]) by {
                assert(is_raw(rb, 12 * i, raw[i]));
            }
            lemma_named_grow(sb, 0, offs, b, rb.len() as int, noffs(raw), 1, s);
            assert(table_at(b, 0, raw, 0, s));
        }
    }
//@ end

/// C04: what was written is what is read, and it is never rejected
pub proof fn theorem_round_trip(d: Seq<u8>, p: int, b: Seq<u8>, s: Seq<Node>)
    requires is_table(b, 0, s), 0 <= p,
    ensures
        readable(write_at(d, p, b), p, s),
        forall|t: Seq<Node>| #[trigger] readable(write_at(d, p, b), p, t) ==> t == s,
{
    let raw = choose|raw: Seq<RawFstNode>| #[trigger] table_at(b, 0, raw, 0, s);
    let e = write_at(d, p, b);
    assert(is_raw(b, 0 + 12 * 0int, raw[0]));
    assert forall|i: int| 0 <= i < b.len() implies e[p + i] == b[i] by {}
    assert forall|i: int| 0 <= i < raw.len() implies #[trigger] is_raw(e, p + 12 * i, raw[i]) by {
        assert(is_raw(b, 0 + 12 * i, raw[i]));
        let q = 12 * i;
        assert(e[p + q] == b[q] && e[p + (q + 1)] == b[q + 1] && e[p + (q + 2)] == b[q + 2] && e[p + (q + 3)] == b[q + 3]
            && e[p + (q + 4)] == b[q + 4] && e[p + (q + 5)] == b[q + 5] && e[p + (q + 6)] == b[q + 6] && e[p + (q + 7)] == b[q + 7]
            && e[p + (q + 8)] == b[q + 8] && e[p + (q + 9)] == b[q + 9] && e[p + (q + 10)] == b[q + 10] && e[p + (q + 11)] == b[q + 11]);
    }
    let so = 12 * raw.len() as int;
    assert forall|j: int| so <= j < b.len() implies #[trigger] b[j] == e[(p + so) - so + j] by { assert(e[p + j] == b[j]); }
    lemma_named_grow(b, so, noffs(raw), e, p + so, noffs(raw), 1, s);
    assert(table_at(e, p, raw, 0, s));
    lemma_seq_anypar(raw, 1, 0, s);
    assert(table_at(e, p, raw, -1, s));
    assert forall|t: Seq<Node>| #[trigger] readable(e, p, t) implies t == s by {
        let raw2 = choose|raw2: Seq<RawFstNode>| #[trigger] table_at(e, p, raw2, -1, t);
        lemma_table_unique(e, p, raw, s, 0, raw2, t, -1);
    }
}
} // verus!
