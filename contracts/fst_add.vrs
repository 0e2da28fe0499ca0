verus! {
// ---- the order of names ---------------------------------------------------------------------------
pub open spec fn lower(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8)
    ensures r == lower(*b);
pub open spec fn fold(s: Seq<char>) -> Seq<u8> { Seq::new(utf8(s).len(), |i: int| lower(utf8(s)[i])) }
pub mod utf8_axioms {
    use vstd::prelude::*;
    use crate::*;
    /// UTF-8 has a zero byte only for U+0000
    #[verifier::external_body]
    pub proof fn axiom_utf8_nulfree(s: Seq<char>)
        requires nulfree(s),
        ensures forall|i: int| 0 <= i < utf8(s).len() ==> #[trigger] utf8(s)[i] != 0u8,
    {}
}
/// byte by byte, the end counting as a zero byte
pub open spec fn cmp0(a: Seq<u8>, b: Seq<u8>) -> Ordering
    decreases a.len(),
{
    let x = if a.len() > 0 { a[0] } else { 0 };
    let y = if b.len() > 0 { b[0] } else { 0 };
    if x < y { Ordering::Less } else if x > y { Ordering::Greater } else if a.len() == 0 || b.len() == 0 { Ordering::Equal }
    else { cmp0(a.drop_first(), b.drop_first()) }
}
pub open spec fn nz(a: Seq<u8>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 0 }
pub proof fn lemma_cmp_rev(a: Seq<u8>, b: Seq<u8>)
    ensures
        cmp0(a, b) == Ordering::Less <==> cmp0(b, a) == Ordering::Greater,
        cmp0(a, b) == Ordering::Greater <==> cmp0(b, a) == Ordering::Less,
        cmp0(a, a) == Ordering::Equal,
    decreases a.len(),
{
    if a.len() > 0 { lemma_cmp_rev(a.drop_first(), if b.len() > 0 { b.drop_first() } else { b }); }
}
pub proof fn lemma_cmp_eq(a: Seq<u8>, b: Seq<u8>)
    requires nz(a), nz(b), cmp0(a, b) == Ordering::Equal,
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        assert(nz(a.drop_first()) && nz(b.drop_first()));
        lemma_cmp_eq(a.drop_first(), b.drop_first());
        assert(a =~= seq![a[0]] + a.drop_first());
        assert(b =~= seq![b[0]] + b.drop_first());
    } else {
        assert(a =~= b);
    }
}
pub proof fn lemma_cmp_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires nz(a), nz(b), nz(c), cmp0(a, b) == Ordering::Less, cmp0(b, c) == Ordering::Less,
    ensures cmp0(a, c) == Ordering::Less,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        assert(nz(a.drop_first()) && nz(b.drop_first()) && nz(c.drop_first()));
        lemma_cmp_trans(a.drop_first(), b.drop_first(), c.drop_first());
    }
}
/// the comparison from position `i` on
pub proof fn lemma_cmp_skip(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i <= a.len(), i <= b.len(), forall|j: int| 0 <= j < i ==> a[j] == b[j],
    ensures cmp0(a, b) == cmp0(a.skip(i), b.skip(i)),
    decreases i,
{
    if i > 0 {
        assert forall|j: int| 0 <= j < i - 1 implies a.drop_first()[j] == b.drop_first()[j] by {}
        lemma_cmp_skip(a.drop_first(), b.drop_first(), i - 1);
        assert(a.drop_first().skip(i - 1) =~= a.skip(i));
        assert(b.drop_first().skip(i - 1) =~= b.skip(i));
    } else {
        assert(a.skip(0) =~= a);
        assert(b.skip(0) =~= b);
    }
}

pub assume_specification [<Ordering as PartialEq>::eq] (a: &Ordering, b: &Ordering) -> (r: bool)
    ensures r == (*a == *b);
//@ fn fst.rs ordering_ignore_case foriter
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures r == cmp0(fold(s1@), fold(s2@)),
//@ closure 0 b: u8 -> c: u8
    ensures c == lower(b)
//@ closure 1 b: u8 -> c: u8
    ensures c == lower(b)
//@ loop 0
    invariant
        0 <= k <= fold(s1@).len() + 1, k <= fold(s2@).len() + 1,
        vp_it.rest() == z.skip(k), z.len() == min_int(a0.len() as int, b0.len() as int),
        forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == (a0[i], b0[i]),
        forall|i: int| 0 <= i < k ==> #[trigger] a0[i] == b0[i],
    decreases vp_it.rest().len(),
//@ at start
    let ghost a = fold(s1@);
    let ghost b = fold(s2@);
    let ghost a0 = a.push(0);
    let ghost b0 = b.push(0);
    let ghost mut k: int = 0;
//@ at loop 0 before
    let ghost z = vp_it.rest();
    assert(z.skip(0) =~= z);
    proof {
        assert(z.len() == min_int(a0.len() as int, b0.len() as int));
        assert forall|i: int| 0 <= i < z.len() implies #[trigger] z[i] == (a0[i], b0[i]) by { }
    }
//@ at loop 0 start
    proof {
        if vp_it.rest().len() > 0 {
            assert(vp_it.rest()[0] == z[k]);
            assert(z.skip(k).drop_first() =~= z.skip(k + 1));
            assert(forall|j: int| 0 <= j < k && j < a.len() && j < b.len() ==> a[j] == b[j]) by { assert forall|j: int| 0 <= j < k && j < a.len() && j < b.len() implies a[j] == b[j] by { assert(a0[j] == b0[j]); } }
            if k <= a.len() && k <= b.len() { lemma_cmp_skip(a, b, k); }
            k = k + 1;
        }
    }
//@ at loop 0 after
    proof {
        let m = min_int(a.len() as int, b.len() as int);
        assert(z.skip(k).len() == 0);
        assert(a0[m] == b0[m]);
        assert forall|j: int| 0 <= j < m implies a[j] == b[j] by { assert(a0[j] == b0[j]); }
        lemma_cmp_skip(a, b, m);
    }
//@ end

//@ fn fst.rs FstNode::node_compare
//@ spec
    ensures r == cmp0(key(nv(*self)), key(nv(*other))),
//@ end

pub open spec fn key(n: Node) -> Seq<u8> { fold(nname(n)) }
/// strictly ascending names
pub open spec fn strict(s: Seq<Node>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp0(key(#[trigger] s[i]), key(#[trigger] s[j])) == Ordering::Less
}
/// at every level
pub open spec fn ordered1(n: Node) -> bool
    decreases n,
{
    match n { Node::File { .. } => true, Node::Dir { files, .. } => strict(files) && ordered_all(files) }
}
pub open spec fn ordered_all(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> ordered_all(s.drop_last()) && ordered1(s.last())
}
pub open spec fn ordered(s: Seq<Node>) -> bool { strict(s) && ordered_all(s) }
pub proof fn lemma_ordered_all(s: Seq<Node>)
    ensures ordered_all(s) <==> forall|i: int| 0 <= i < s.len() ==> ordered1(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_ordered_all(s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == #[trigger] s[i]);
    }
}
pub proof fn lemma_nulfrees(s: Seq<Node>)
    ensures nulfrees(s) <==> forall|i: int| 0 <= i < s.len() ==> nulfree1(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_nulfrees(s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == #[trigger] s[i]);
    }
}
pub proof fn lemma_fold_nz(s: Seq<char>)
    requires nulfree(s),
    ensures nz(fold(s)),
{
    utf8_axioms::axiom_utf8_nulfree(s);
}
/// how many names are smaller
pub open spec fn rank(s: Seq<Node>, k: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() > 0 && cmp0(key(s[0]), k) == Ordering::Less { 1 + rank(s.drop_first(), k) } else { 0 }
}
pub open spec fn present(s: Seq<Node>, k: Seq<u8>) -> bool {
    rank(s, k) < s.len() && cmp0(key(s[rank(s, k)]), k) == Ordering::Equal
}
pub proof fn lemma_rank_is(s: Seq<Node>, k: Seq<u8>, p: int)
    requires 0 <= p <= s.len(), forall|i: int| 0 <= i < p ==> cmp0(key(#[trigger] s[i]), k) == Ordering::Less, p < s.len() ==> cmp0(key(s[p]), k) != Ordering::Less,
    ensures rank(s, k) == p,
    decreases s.len(),
{
    if p > 0 {
        assert forall|i: int| 0 <= i < p - 1 implies cmp0(key(#[trigger] s.drop_first()[i]), k) == Ordering::Less by { assert(s.drop_first()[i] == s[i + 1]); }
        lemma_rank_is(s.drop_first(), k, p - 1);
    }
}
pub proof fn lemma_rank(s: Seq<Node>, k: Seq<u8>)
    ensures 0 <= rank(s, k) <= s.len(), forall|i: int| 0 <= i < rank(s, k) ==> cmp0(key(#[trigger] s[i]), k) == Ordering::Less,
        rank(s, k) < s.len() ==> cmp0(key(s[rank(s, k)]), k) != Ordering::Less,
    decreases s.len(),
{
    if s.len() > 0 && cmp0(key(s[0]), k) == Ordering::Less {
        lemma_rank(s.drop_first(), k);
        assert forall|i: int| 0 <= i < rank(s, k) implies cmp0(key(#[trigger] s[i]), k) == Ordering::Less by { if i > 0 { assert(s.drop_first()[i - 1] == s[i]); } }
    }
}

/// no component of the path is a file
pub open spec fn addable(s: Seq<Node>, path: Seq<Seq<char>>) -> bool
    decreases path.len(),
{
    if path.len() == 0 || !present(s, fold(path[0])) { true } else { s[rank(s, fold(path[0]))] is Dir && addable(kids(s[rank(s, fold(path[0]))]), path.drop_first()) }
}
/// the tree with `x` under the path
pub open spec fn added(s: Seq<Node>, path: Seq<Seq<char>>, x: Node) -> Seq<Node>
    decreases path.len(),
{
    let k = if path.len() == 0 { key(x) } else { fold(path[0]) };
    let p = rank(s, k);
    if path.len() == 0 {
        if present(s, k) { s.update(p, x) } else { s.insert(p, x) }
    } else if present(s, k) {
        s.update(p, Node::Dir { name: nname(s[p]), files: added(kids(s[p]), path.drop_first(), x) })
    } else {
        s.insert(p, Node::Dir { name: path[0], files: added(Seq::empty(), path.drop_first(), x) })
    }
}
/// the node `x` takes the place of
pub open spec fn displaced(s: Seq<Node>, path: Seq<Seq<char>>, x: Node) -> Option<Node>
    decreases path.len(),
{
    let k = if path.len() == 0 { key(x) } else { fold(path[0]) };
    let p = rank(s, k);
    if !present(s, k) { None } else if path.len() == 0 { Some(s[p]) } else { displaced(kids(s[p]), path.drop_first(), x) }
}

/// C05: the tree stays ordered
pub proof fn theorem_added_ordered(s: Seq<Node>, path: Seq<Seq<char>>, x: Node)
    requires ordered(s), ordered1(x), nulfrees(s), nulfree1(x), forall|i: int| 0 <= i < path.len() ==> nulfree(#[trigger] path[i]), addable(s, path),
    ensures ordered(added(s, path, x)), nulfrees(added(s, path, x)),
    decreases path.len(),
{
    let k = if path.len() == 0 { key(x) } else { fold(path[0]) };
    let p = rank(s, k);
    lemma_ordered_all(s);
    lemma_nulfrees(s);
    lemma_rank(s, k);
    lemma_fold_nz(if path.len() == 0 { nname(x) } else { path[0] });
    let rest = if path.len() == 0 { path } else { path.drop_first() };
    if path.len() > 0 {
        assert forall|i: int| 0 <= i < rest.len() implies nulfree(#[trigger] rest[i]) by { assert(rest[i] == path[i + 1]); }
        if present(s, k) {
            theorem_added_ordered(kids(s[p]), rest, x);
        } else {
            theorem_added_ordered(Seq::empty(), rest, x);
        }
    }
    let r = added(s, path, x);
    let n = r[p];
    assert(ordered1(n) && nulfree1(n));
    lemma_ordered_all(r);
    lemma_nulfrees(r);
    assert forall|i: int| 0 <= i < s.len() implies nz(key(#[trigger] s[i])) by { lemma_fold_nz(nname(s[i])); }
    assert(nz(key(n)) && nz(k)) by { lemma_fold_nz(nname(n)); }
    assert forall|i: int| p <= i < s.len() && (i > p || !present(s, k)) implies cmp0(k, key(#[trigger] s[i])) == Ordering::Less by {
        lemma_cmp_rev(k, key(s[i]));
        if cmp0(key(s[i]), k) == Ordering::Less { 
            if i > p {
                lemma_cmp_trans(key(s[p]), key(s[i]), k);
            }
        } else if cmp0(key(s[i]), k) == Ordering::Equal {
            lemma_cmp_eq(key(s[i]), k);
            if i > p {
                assert(cmp0(key(s[p]), key(s[i])) == Ordering::Less);
            }
        }
    }
    if present(s, k) {
        lemma_cmp_eq(key(s[p]), k);
        assert(key(n) == k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies cmp0(key(#[trigger] r[i]), key(#[trigger] r[j])) == Ordering::Less by {
            if i != p { assert(r[i] == s[i]); }
            if j != p { assert(r[j] == s[j]); }
        }
        assert forall|i: int| 0 <= i < r.len() implies ordered1(#[trigger] r[i]) && nulfree1(r[i]) by { if i != p { assert(r[i] == s[i]); } }
    } else {
        assert(key(n) == k);
        assert forall|i: int, j: int| 0 <= i < j < r.len() implies cmp0(key(#[trigger] r[i]), key(#[trigger] r[j])) == Ordering::Less by {
            if i < p { assert(r[i] == s[i]); }
            if i > p { assert(r[i] == s[i - 1]); }
            if j < p { assert(r[j] == s[j]); }
            if j > p { assert(r[j] == s[j - 1]); }
        }
        assert forall|i: int| 0 <= i < r.len() implies ordered1(#[trigger] r[i]) && nulfree1(r[i]) by {
            if i < p { assert(r[i] == s[i]); }
            if i > p { assert(r[i] == s[i - 1]); }
        }
    }
}

/// lookup ignoring case
pub open spec fn ifind(s: Seq<Node>, path: Seq<Seq<char>>, k: Seq<u8>) -> Option<Node>
    decreases path.len(),
{
    let q = if path.len() == 0 { k } else { fold(path[0]) };
    if !present(s, q) { None } else if path.len() == 0 { Some(s[rank(s, q)]) } else { ifind(kids(s[rank(s, q)]), path.drop_first(), k) }
}
/// C05: the new node is found under the path
pub proof fn theorem_added_found(s: Seq<Node>, path: Seq<Seq<char>>, x: Node)
    requires addable(s, path),
    ensures ifind(added(s, path, x), path, key(x)) == Some(x),
    decreases path.len(),
{
    let k = if path.len() == 0 { key(x) } else { fold(path[0]) };
    let p = rank(s, k);
    lemma_rank(s, k);
    lemma_cmp_rev(k, k);
    let r = added(s, path, x);
    if path.len() > 0 {
        if present(s, k) { theorem_added_found(kids(s[p]), path.drop_first(), x); } else { theorem_added_found(Seq::empty(), path.drop_first(), x); }
    }
    assert forall|i: int| 0 <= i < p implies cmp0(key(#[trigger] r[i]), k) == Ordering::Less by { assert(r[i] == s[i]); }
    assert(cmp0(key(r[p]), k) == Ordering::Equal);
    lemma_rank_is(r, k, p);
}

pub open spec fn by_key(k: Seq<u8>) -> spec_fn(FstNode) -> Ordering { |n: FstNode| cmp0(key(nv(n)), k) }
/// what a binary search by the key means in an ordered directory
pub proof fn lemma_search(v: Seq<FstNode>, k: Seq<u8>)
    requires strict(nvs(v)), nulfrees(nvs(v)), nz(k),
    ensures
        searchable(v, by_key(k)),
        0 <= rank(nvs(v), k) <= v.len() == nvs(v).len(),
        present(nvs(v), k) ==> rank(nvs(v), k) < v.len() && nvs(v)[rank(nvs(v), k)] == nv(v[rank(nvs(v), k)]),
        forall|r: Result<usize, usize>| #[trigger] searched(v, by_key(k), r) ==> match r {
            Ok(p) => present(nvs(v), k) && rank(nvs(v), k) == p,
            Err(p) => !present(nvs(v), k) && rank(nvs(v), k) == p,
        },
{
    reveal(searchable);
    reveal(searched);
    let s = nvs(v);
    lemma_nvs(v);
    lemma_nulfrees(s);
    lemma_rank(s, k);
    assert forall|i: int| 0 <= i < s.len() implies nz(key(#[trigger] s[i])) by { lemma_fold_nz(nname(s[i])); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies
            (by_key(k)(#[trigger] v[j]) == Ordering::Less ==> by_key(k)(#[trigger] v[i]) == Ordering::Less)
            && (by_key(k)(v[i]) == Ordering::Greater ==> by_key(k)(v[j]) == Ordering::Greater) by {
        assert(cmp0(key(s[i]), key(s[j])) == Ordering::Less);
        if cmp0(key(nv(v[j])), k) == Ordering::Less { lemma_cmp_trans(key(s[i]), key(s[j]), k); }
        if cmp0(key(nv(v[i])), k) == Ordering::Greater {
            lemma_cmp_rev(key(s[i]), k);
            lemma_cmp_trans(k, key(s[i]), key(s[j]));
            lemma_cmp_rev(key(s[j]), k);
        }
    }
    assert forall|r: Result<usize, usize>| #[trigger] searched(v, by_key(k), r) implies match r {
            Ok(p) => present(nvs(v), k) && rank(nvs(v), k) == p,
            Err(p) => !present(nvs(v), k) && rank(nvs(v), k) == p,
        } by {
        match r {
            Ok(p) => {
                assert(by_key(k)(v[p as int]) == cmp0(key(s[p as int]), k));
                lemma_cmp_eq(key(s[p as int]), k);
                assert forall|i: int| 0 <= i < p implies cmp0(key(#[trigger] s[i]), k) == Ordering::Less by { assert(cmp0(key(s[i]), key(s[p as int])) == Ordering::Less); }
                lemma_rank_is(s, k, p as int);
            }
            Err(p) => {
                assert forall|i: int| 0 <= i < p implies cmp0(key(#[trigger] s[i]), k) == Ordering::Less by { assert(by_key(k)(v[i]) == Ordering::Less); }
                if p < s.len() { assert(by_key(k)(v[p as int]) == Ordering::Greater); assert(s[p as int] == nv(v[p as int])); }
                lemma_rank_is(s, k, p as int);
            }
        }
    }
}
pub proof fn lemma_nvs_insert(v: Seq<FstNode>, k: int, n: FstNode)
    requires 0 <= k <= v.len(),
    ensures nvs(v.insert(k, n)) == nvs(v).insert(k, nv(n)),
{
    lemma_nvs(v);
    lemma_nvs(v.insert(k, n));
    assert(nvs(v.insert(k, n)) =~= nvs(v).insert(k, nv(n)));
}
pub open spec fn nulfree_path(p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < p.len() ==> nulfree(#[trigger] p[i]) }

/// an empty directory takes everything
pub proof fn lemma_addable_empty(path: Seq<Seq<char>>, x: Node)
    ensures addable(Seq::empty(), path), displaced(Seq::empty(), path, x) is None, ordered(Seq::empty()), nulfrees(Seq::empty()),
{
}

//@ fn fst.rs add_node_iter foriter
//@ bound I VpIterator<&'b str>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires ordered(nvs(old(nodes)@)), nulfrees(nvs(old(nodes)@)), nulfree1(nv(new_node)), nulfree_path(strs(iter.rest())),
    ensures
        r is Ok == addable(nvs(old(nodes)@), strs(iter.rest())),
        r is Err ==> nvs(final(nodes)@) == nvs(old(nodes)@),
        r is Ok ==> nvs(final(nodes)@) == added(nvs(old(nodes)@), strs(iter.rest()), nv(new_node)),
        r is Ok ==> (r->Ok_0 is Some) == (displaced(nvs(old(nodes)@), strs(iter.rest()), nv(new_node)) is Some),
        r is Ok && r->Ok_0 is Some ==> nv(r->Ok_0->Some_0) == displaced(nvs(old(nodes)@), strs(iter.rest()), nv(new_node))->Some_0,
//@ closure 0 probe: &FstNode -> o: Ordering
    ensures o == cmp0(key(nv(*probe)), fold(cur_part@))
//@ closure 1 probe: &FstNode -> o: Ordering
    ensures o == cmp0(key(nv(*probe)), key(x))
//@ closure 2 probe: &FstNode -> o: Ordering
    ensures o == cmp0(key(nv(*probe)), fold(cur_part@))
//@ closure 3 probe: &FstNode -> o: Ordering
    ensures o == cmp0(key(nv(*probe)), key(x))
//@ at start
    let ghost path = strs(iter.rest());
    let ghost x = nv(new_node);
    let ghost v0 = nodes@;
    let ghost root = nvs(nodes@);
    let ghost fin = final(nodes)@;
    proof {
        lemma_fold_nz(nname(x));
        lemma_nulfrees(root);
        lemma_ordered_all(root);
        lemma_nvs(v0);
        lemma_search(v0, key(x));
        lemma_nvs_insert(v0, rank(root, key(x)), new_node);
        if rank(root, key(x)) < v0.len() { lemma_nvs_update(v0, rank(root, key(x)), new_node); }
        if path.len() > 0 {
            lemma_strs(iter.rest());
            lemma_fold_nz(path[0]);
            lemma_search(v0, fold(path[0]));
        }
    }
//@ at after let node=match vp_binary_search_by(nodes
    proof {
        let p = rank(root, fold(cur_part@));
        if present(root, fold(cur_part@)) {
            assert(fin =~= v0.update(p, *final(node)));
            lemma_nvs_update(v0, p, *final(node));
            assert(root.update(p, root[p]) =~= root);
        }
    }
//@ at after let mut dir_node_files=
    let ghost p0 = rank(root, fold(path[0]));
    proof {
        assert(path.len() > 0);
        assert(strs(iter.rest()) =~= path.drop_first());
        let fs = final(dir_node_files)@;
        if present(root, fold(path[0])) {
            assert(v0[p0] is Directory);
            assert(dir_files(v0[p0]) == dir_node_files@);
            assert(fin.len() == v0.len());
            assert(fin =~= v0.update(p0, fin[p0]));
            lemma_nvs_update(v0, p0, fin[p0]);
            assert(root.update(p0, root[p0]) =~= root);
        } else {
            assert(dir_node_files@.len() == 0);
            assert(nvs(dir_node_files@) =~= Seq::<Node>::empty());
            assert(fin =~= v0.insert(p0, fin[p0]));
            lemma_nvs_insert(v0, p0, fin[p0]);
            lemma_addable_empty(path.drop_first(), x);
        }
    }
//@ loop 0
    invariant
        nulfree_path(strs(iter.rest())),
        ordered(nvs(dir_node_files@)), nulfrees(nvs(dir_node_files@)),
        addable(root, path) == addable(nvs(dir_node_files@), strs(iter.rest())),
        displaced(root, path, x) == displaced(nvs(dir_node_files@), strs(iter.rest()), x),
        nvs(final(dir_node_files)@) == added(nvs(dir_node_files@), strs(iter.rest()), x) ==> nvs(fin) == added(root, path, x),
        !addable(nvs(dir_node_files@), strs(iter.rest())) && nvs(final(dir_node_files)@) == nvs(dir_node_files@) ==> nvs(fin) == root,
    decreases iter.rest().len(),
//@ at loop 0 start
    let ghost d0 = dir_node_files@;
    let ghost s0 = nvs(d0);
    let ghost fd = final(dir_node_files)@;
    let ghost path0 = strs(iter.rest());
    proof {
        lemma_nulfrees(s0);
        lemma_ordered_all(s0);
        lemma_nvs(d0);
        if iter.rest().len() > 0 {
            lemma_strs(iter.rest());
            lemma_fold_nz(path0[0]);
            lemma_search(d0, fold(path0[0]));
        }
    }
//@ at after let node=match vp_binary_search_by(dir_node_files
    let ghost fnode = *final(node);
    proof {
        let p = rank(s0, fold(cur_part@));
        assert(strs(iter.rest()) =~= path0.drop_first());
        if p < d0.len() {
            lemma_nvs_update(d0, p, d0[p]);
            assert(d0.update(p, d0[p]) =~= d0);
            assert(s0.update(p, s0[p]) =~= s0);
        }
        assert(present(s0, fold(cur_part@)) ==> *node == d0[p]);
        assert(!present(s0, fold(cur_part@)) ==> *node is Directory);
    }
//@ at after dir_node_files=match node
    proof {
        let p = rank(s0, fold(cur_part@));
        if present(s0, fold(cur_part@)) {
            assert(fd =~= d0.update(p, fnode));
            lemma_nvs_update(d0, p, fnode);
        } else {
            assert(fd =~= d0.insert(p, fnode));
            lemma_nvs_insert(d0, p, fnode);
            lemma_addable_empty(path0.drop_first(), x);
        }
        assert(present(s0, fold(cur_part@)) || nvs(dir_node_files@) =~= Seq::<Node>::empty());
        assert(nulfree_path(strs(iter.rest()))) by {
            assert forall|i: int| 0 <= i < path0.drop_first().len() implies nulfree(#[trigger] path0.drop_first()[i]) by { assert(path0.drop_first()[i] == path0[i + 1]); }
        }
    }
//@ at loop 0 after
    let ghost d1 = dir_node_files@;
    let ghost fd1 = final(dir_node_files)@;
    proof {
        let s1 = nvs(d1);
        let p = rank(s1, key(x));
        assert(strs(iter.rest()).len() == 0);
        lemma_search(d1, key(x));
        lemma_nvs(d1);
        lemma_rank(s1, key(x));
        lemma_nvs_insert(d1, p, new_node);
        if p < d1.len() { lemma_nvs_update(d1, p, new_node); }
    }
//@ end

//@ fn fst.rs Fst::add_node_iter
//@ bound I VpIterator<&'b str>
//@ spec
    requires ordered(nvs(old(self).entries@)), nulfrees(nvs(old(self).entries@)), nulfree1(nv(node)), nulfree_path(strs(iter.rest())),
    ensures
        r is Ok == addable(nvs(old(self).entries@), strs(iter.rest())),
        r is Err ==> nvs(final(self).entries@) == nvs(old(self).entries@),
        r is Ok ==> nvs(final(self).entries@) == added(nvs(old(self).entries@), strs(iter.rest()), nv(node)),
        r is Ok ==> (r->Ok_0 is Some) == (displaced(nvs(old(self).entries@), strs(iter.rest()), nv(node)) is Some),
        r is Ok && r->Ok_0 is Some ==> nv(r->Ok_0->Some_0) == displaced(nvs(old(self).entries@), strs(iter.rest()), nv(node))->Some_0,
//@ end
//@ fn fst.rs Fst::add_node_path
//@ spec
    requires ordered(nvs(old(self).entries@)), nulfrees(nvs(old(self).entries@)), nulfree1(nv(node)), nulfree_path(parts(s@)),
    ensures
        r is Ok == addable(nvs(old(self).entries@), parts(s@)),
        r is Err ==> nvs(final(self).entries@) == nvs(old(self).entries@),
        r is Ok ==> nvs(final(self).entries@) == added(nvs(old(self).entries@), parts(s@), nv(node)),
        r is Ok ==> (r->Ok_0 is Some) == (displaced(nvs(old(self).entries@), parts(s@), nv(node)) is Some),
        r is Ok && r->Ok_0 is Some ==> nv(r->Ok_0->Some_0) == displaced(nvs(old(self).entries@), parts(s@), nv(node))->Some_0,
//@ closure 0 p: &&str -> b: bool
    ensures b == ((*p)@.len() > 0)
//@ at start
    proof { lemma_parts(s); }
//@ end

// ---- re-ordering ---------------------------------------------------------------------------------
/// ascending names, equal ones allowed
pub open spec fn weak(s: Seq<Node>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> cmp0(key(#[trigger] s[i]), key(#[trigger] s[j])) != Ordering::Greater
}
pub open spec fn sorted1(n: Node) -> bool
    decreases n,
{
    match n { Node::File { .. } => true, Node::Dir { files, .. } => weak(files) && sorted_all(files) }
}
pub open spec fn sorted_all(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> sorted_all(s.drop_last()) && sorted1(s.last())
}
/// the same node up to the order inside directories
pub open spec fn same1(x: Node, y: Node) -> bool
    decreases y,
{
    match (x, y) {
        (Node::Dir { name: n1, files: f1 }, Node::Dir { name: n2, files: f2 }) => n1 == n2 && exists|m: Seq<Node>| #[trigger] m.to_multiset() == f1.to_multiset() && same_all(m, f2),
        _ => x == y,
    }
}
pub open spec fn same_all(m: Seq<Node>, b: Seq<Node>) -> bool
    decreases b,
{
    m.len() == b.len() && (b.len() > 0 ==> same_all(m.drop_last(), b.drop_last()) && same1(m.last(), b.last()))
}
/// exactly the same nodes, in any order at every level
pub open spec fn same_set(a: Seq<Node>, b: Seq<Node>) -> bool
{
    exists|m: Seq<Node>| m.to_multiset() == a.to_multiset() && #[trigger] same_all(m, b)
}
pub proof fn lemma_sorted_all(s: Seq<Node>)
    ensures sorted_all(s) <==> forall|i: int| 0 <= i < s.len() ==> sorted1(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_sorted_all(s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == #[trigger] s[i]);
    }
}
pub proof fn lemma_same_all(m: Seq<Node>, b: Seq<Node>)
    ensures same_all(m, b) <==> m.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> same1(#[trigger] m[i], #[trigger] b[i]),
    decreases b.len(),
{
    if m.len() == b.len() && b.len() > 0 {
        lemma_same_all(m.drop_last(), b.drop_last());
        assert forall|i: int| 0 <= i < b.len() - 1 implies m.drop_last()[i] == #[trigger] m[i] && b.drop_last()[i] == #[trigger] b[i] by {}
        if forall|i: int| 0 <= i < b.len() ==> same1(#[trigger] m[i], #[trigger] b[i]) {
            assert forall|i: int| 0 <= i < b.len() - 1 implies same1(#[trigger] m.drop_last()[i], #[trigger] b.drop_last()[i]) by { assert(same1(m[i], b[i])); }
        } else if same_all(m, b) {
            assert forall|i: int| 0 <= i < b.len() implies same1(#[trigger] m[i], #[trigger] b[i]) by { if i < b.len() - 1 { assert(same1(m.drop_last()[i], b.drop_last()[i])); } }
        }
    }
}
pub proof fn lemma_same_set(m: Seq<Node>, a: Seq<Node>, b: Seq<Node>)
    requires m.to_multiset() == a.to_multiset(), same_all(m, b),
    ensures same_set(a, b),
{
}
pub proof fn lemma_same_dir(x: Node, y: Node)
    requires x is Dir, y is Dir, nname(x) == nname(y), same_set(kids(x), kids(y)),
    ensures same1(x, y),
{
    let m = choose|m: Seq<Node>| m.to_multiset() == kids(x).to_multiset() && #[trigger] same_all(m, kids(y));
    reveal_with_fuel(same1, 2);
    reveal_with_fuel(same_all, 2);
    assert(same_all(m, kids(y)));
}
pub open spec fn by_name() -> spec_fn(FstNode, FstNode) -> Ordering { |a: FstNode, b: FstNode| cmp0(key(nv(a)), key(nv(b))) }
pub proof fn lemma_total_on(v: Seq<FstNode>)
    requires nulfrees(nvs(v)),
    ensures total_on(v, by_name()),
{
    reveal(total_on);
    lemma_nvs(v);
    lemma_nulfrees(nvs(v));
    assert forall|x: FstNode| #[trigger] v.contains(x) implies nz(key(nv(x))) by {
        let i = choose|i: int| 0 <= i < v.len() && v[i] == x;
        assert(nulfree1(nvs(v)[i]));
        lemma_fold_nz(nname(nv(x)));
    }
    let g = by_name();
    assert forall|x: FstNode, y: FstNode| v.contains(x) && v.contains(y) implies (#[trigger] g(x, y) == Ordering::Less <==> g(y, x) == Ordering::Greater) && (g(x, y) == Ordering::Equal <==> g(y, x) == Ordering::Equal) by {
        lemma_cmp_rev(key(nv(x)), key(nv(y)));
    }
    assert forall|x: FstNode| v.contains(x) implies #[trigger] g(x, x) == Ordering::Equal by { lemma_cmp_rev(key(nv(x)), key(nv(x))); }
    assert forall|x: FstNode, y: FstNode, z: FstNode| v.contains(x) && v.contains(y) && v.contains(z) && #[trigger] g(x, y) != Ordering::Greater && #[trigger] g(y, z) != Ordering::Greater
            implies g(x, z) != Ordering::Greater && (g(x, z) == Ordering::Equal ==> g(x, y) == Ordering::Equal && g(y, z) == Ordering::Equal) by {
        let (a, b, c) = (key(nv(x)), key(nv(y)), key(nv(z)));
        if cmp0(a, b) == Ordering::Equal { lemma_cmp_eq(a, b); }
        else if cmp0(b, c) == Ordering::Equal { lemma_cmp_eq(b, c); }
        else { lemma_cmp_trans(a, b, c); }
    }
}
/// the views of a permutation are a permutation of the views
pub proof fn lemma_nvs_multiset(v: Seq<FstNode>, w: Seq<FstNode>)
    requires v.to_multiset() == w.to_multiset(),
    ensures nvs(v).to_multiset() == nvs(w).to_multiset(),
    decreases v.len(),
{
    v.to_multiset_ensures();
    w.to_multiset_ensures();
    if v.len() > 0 {
        let x = v.last();
        assert(v.contains(x)) by { assert(v[v.len() - 1] == x); }
        assert(w.to_multiset().count(x) > 0);
        let j = choose|j: int| 0 <= j < w.len() && w[j] == x;
        let w1 = w.remove(j);
        assert(v.drop_last() =~= v.remove(v.len() - 1));
        assert(v.drop_last().to_multiset() == v.to_multiset().remove(x));
        assert(w1.to_multiset() == w.to_multiset().remove(x));
        lemma_nvs_multiset(v.drop_last(), w1);
        lemma_nvs_remove(w, j);
        lemma_nvs(v);
        nvs(v).to_multiset_ensures();
        nvs(w).to_multiset_ensures();
        lemma_nvs_remove(v, v.len() - 1);
        lemma_nvs(w);
        assert(nvs(v).remove(v.len() - 1).to_multiset() == nvs(v).to_multiset().remove(nv(x)));
        assert(nvs(w).remove(j).to_multiset() == nvs(w).to_multiset().remove(nv(x)));
        assert(nvs(v).contains(nv(x))) by { assert(nvs(v)[v.len() - 1] == nv(x)); }
        lemma_nvs(w);
        assert(nvs(w).contains(nv(x))) by { assert(nvs(w)[j] == nv(x)); }
        assert(nvs(v).to_multiset() =~= nvs(v).to_multiset().remove(nv(x)).insert(nv(x)));
        assert(nvs(w).to_multiset() =~= nvs(w).to_multiset().remove(nv(x)).insert(nv(x)));
    } else {
        assert(w.len() == 0);
        assert(nvs(v) =~= nvs(w));
    }
}

//@ fn fst.rs Fst::fix_ordering_rec
//@ spec
    requires nulfrees(nvs(old(nodes)@)),
    ensures
        weak(nvs(final(nodes)@)), sorted_all(nvs(final(nodes)@)), nulfrees(nvs(final(nodes)@)),
        same_set(nvs(old(nodes)@), nvs(final(nodes)@)),
    decreases total(nvs(old(nodes)@)),
//@ attr
#[verifier::loop_isolation(false)]
//@ at start
    let ghost v0 = nodes@;
    let ghost fin = final(nodes)@;
    proof { lemma_total_on(nodes@); }
//@ loop 0 iter it
    invariant
        it.seq().len() == m.len(),
        fin.len() == m.len(),
        forall|i: int| 0 <= i < m.len() ==> *(#[trigger] it.seq()[i]) == m[i] && *final(it.seq()[i]) == fin[i],
        forall|i: int| 0 <= i < it.index@ ==> same1(nv(m[i]), nv(#[trigger] fin[i])) && sorted1(nv(fin[i])) && nulfree1(nv(fin[i])),
//@ at loop 0 before
    let ghost m = nodes@;
    proof {
        lemma_nvs(v0);
        lemma_nvs(m);
        lemma_nvs_multiset(v0, m);
        lemma_nulfrees(nvs(v0));
        assert forall|i: int| 0 <= i < m.len() implies nulfree1(nv(#[trigger] m[i])) && size(nv(m[i])) <= total(nvs(v0)) by {
            v0.to_multiset_ensures();
            m.to_multiset_ensures();
            assert(m.contains(m[i]));
            assert(v0.to_multiset().count(m[i]) > 0);
            assert(v0.contains(m[i]));
            let j = choose|j: int| 0 <= j < v0.len() && v0[j] == m[i];
            assert(nvs(v0)[j] == nv(m[i]));
            lemma_total_take(nvs(v0), j);
        }
    }
//@ at loop 0 start
    proof {
        let n = nv(m[it.index@ as int]);
        assert(nulfree1(n) && size(n) <= total(nvs(v0)));
        lemma_total(nvs(v0));
        lemma_total(kids(n));
    }
//@ at loop 0 after
    proof {
        lemma_nvs(fin);
        lemma_nulfrees(nvs(fin));
        lemma_sorted_all(nvs(fin));
        lemma_same_all(nvs(m), nvs(fin));
        assert forall|i: int| 0 <= i < fin.len() implies same1(#[trigger] nvs(m)[i], #[trigger] nvs(fin)[i]) && nname(nvs(m)[i]) == nname(nvs(fin)[i]) by { assert(same1(nv(m[i]), nv(fin[i]))); }
        assert(same_all(nvs(m), nvs(fin)));
        assert(nvs(m).to_multiset() == nvs(v0).to_multiset());
        lemma_same_set(nvs(m), nvs(v0), nvs(fin));
        assert(sorted_by(m, by_name()));
        assert forall|i: int, j: int| 0 <= i < j < fin.len() implies cmp0(key(#[trigger] nvs(fin)[i]), key(#[trigger] nvs(fin)[j])) != Ordering::Greater by {
            assert(by_name()(m[i], m[j]) != Ordering::Greater);
        }
    }
//@ end
//@ fn fst.rs Fst::fix_ordering
//@ spec
    requires nulfrees(nvs(old(self).entries@)),
    ensures
        weak(nvs(final(self).entries@)), sorted_all(nvs(final(self).entries@)), nulfrees(nvs(final(self).entries@)),
        same_set(nvs(old(self).entries@), nvs(final(self).entries@)),
//@ end
} // verus!
