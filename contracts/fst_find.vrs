verus! {
// ---- lookup --------------------------------------------------------------------------------------
/// index of the first node with that name, -1 if there is none
pub open spec fn first(s: Seq<Node>, name: Seq<char>) -> int
    decreases s.len(),
{
    if s.len() == 0 { -1 } else if first(s.drop_last(), name) >= 0 { first(s.drop_last(), name) } else if nname(s.last()) == name { s.len() - 1 } else { -1 }
}
pub proof fn lemma_first(s: Seq<Node>, name: Seq<char>)
    ensures
        -1 <= first(s, name) < s.len(),
        first(s, name) >= 0 ==> nname(s[first(s, name)]) == name,
        forall|i: int| 0 <= i < (if first(s, name) < 0 { s.len() as int } else { first(s, name) }) ==> nname(#[trigger] s[i]) != name,
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_first(s.drop_last(), name);
        assert forall|i: int| 0 <= i < (if first(s, name) < 0 { s.len() as int } else { first(s, name) }) implies nname(#[trigger] s[i]) != name by {
            if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); }
        }
    }
}
pub proof fn lemma_first_is(s: Seq<Node>, name: Seq<char>, k: int)
    requires 0 <= k < s.len(), nname(s[k]) == name, forall|i: int| 0 <= i < k ==> nname(#[trigger] s[i]) != name,
    ensures first(s, name) == k,
{
    lemma_first(s, name);
    if first(s, name) >= 0 && first(s, name) < k { assert(nname(s[first(s, name)]) != name); }
}
/// the node addressed by the path
pub open spec fn find(s: Seq<Node>, path: Seq<Seq<char>>) -> Option<Node>
    decreases path.len(),
{
    if path.len() == 0 || first(s, path[0]) < 0 { None } else { under(s[first(s, path[0])], path.drop_first()) }
}
pub open spec fn under(n: Node, path: Seq<Seq<char>>) -> Option<Node>
    decreases path.len(),
{
    if path.len() == 0 { Some(n) } else if n is File { None } else if first(kids(n), path[0]) < 0 { None } else { under(kids(n)[first(kids(n), path[0])], path.drop_first()) }
}
/// the node below `n` at the path replaced by `y`, all else as it was
pub open spec fn put_under(n: Node, path: Seq<Seq<char>>, y: Node) -> Node
    decreases path.len(),
{
    if path.len() == 0 { y } else { match n {
        Node::File { .. } => n,
        Node::Dir { name, files } => { let i = first(files, path[0]); if i < 0 { n } else { Node::Dir { name, files: files.update(i, put_under(files[i], path.drop_first(), y)) } } },
    } }
}
pub open spec fn put(s: Seq<Node>, path: Seq<Seq<char>>, y: Node) -> Seq<Node> {
    if path.len() == 0 || first(s, path[0]) < 0 { s } else { s.update(first(s, path[0]), put_under(s[first(s, path[0])], path.drop_first(), y)) }
}
/// without the addressed node
pub open spec fn del_under(n: Node, path: Seq<Seq<char>>) -> Node
    decreases path.len(),
{
    match n {
        Node::File { .. } => n,
        Node::Dir { name, files } => if path.len() == 0 { n } else { let i = first(files, path[0]); if i < 0 { n } else if path.len() == 1 { Node::Dir { name, files: files.remove(i) } }
            else { Node::Dir { name, files: files.update(i, del_under(files[i], path.drop_first())) } } },
    }
}
pub open spec fn del(s: Seq<Node>, path: Seq<Seq<char>>) -> Seq<Node> {
    if path.len() == 0 || first(s, path[0]) < 0 { s } else if path.len() == 1 { s.remove(first(s, path[0])) } else { s.update(first(s, path[0]), del_under(s[first(s, path[0])], path.drop_first())) }
}

pub proof fn lemma_strs(s: Seq<&str>)
    requires s.len() > 0,
    ensures strs(s)[0] == s[0]@, strs(s.drop_first()) == strs(s).drop_first(),
{
    assert(strs(s.drop_first()) =~= strs(s).drop_first());
}
pub proof fn lemma_nvs_first(v: Seq<FstNode>, name: Seq<char>, k: int)
    requires 0 <= k < v.len(), nname(nv(v[k])) == name, forall|i: int| 0 <= i < k ==> nname(nv(#[trigger] v[i])) != name,
    ensures first(nvs(v), name) == k,
{
    lemma_nvs(v);
    lemma_first_is(nvs(v), name, k);
}
pub proof fn lemma_nvs_nofirst(v: Seq<FstNode>, name: Seq<char>)
    requires forall|i: int| 0 <= i < v.len() ==> nname(nv(#[trigger] v[i])) != name,
    ensures first(nvs(v), name) < 0,
{
    lemma_nvs(v);
    lemma_first(nvs(v), name);
    if first(nvs(v), name) >= 0 { assert(nvs(v)[first(nvs(v), name)] == nv(v[first(nvs(v), name)])); }
}
pub proof fn lemma_nvs_remove(v: Seq<FstNode>, k: int)
    requires 0 <= k < v.len(),
    ensures nvs(v.remove(k)) == nvs(v).remove(k), nvs(v)[k] == nv(v[k]),
{
    lemma_nvs(v);
    lemma_nvs(v.remove(k));
    assert(nvs(v.remove(k)) =~= nvs(v).remove(k));
}

//@ fn fst.rs find_node_iter foriter tryo
//@ bound I VpIterator<&'b str>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        (r is Some) == (find(nvs(nodes@), strs(iter.rest())) is Some),
        r is Some ==> nv(*r->Some_0) == find(nvs(nodes@), strs(iter.rest()))->Some_0,
//@ closure 0 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ closure 1 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ at start
    let ghost path = iter.rest();
    let ghost root = nvs(nodes@);
//@ at after let cur_part=
    proof {
        lemma_strs(path);
        lemma_nvs(nodes@);
        lemma_first(root, cur_part@);
    }
//@ loop 0
    invariant
        find(root, strs(path)) == under(nv(*cur_node), strs(iter.rest())),
    decreases iter.rest().len(),
//@ at loop 0 start
    proof {
        if iter.rest().len() > 0 {
            lemma_strs(iter.rest());
            let fs = dir_files(*cur_node);
            lemma_nvs(fs);
            lemma_first(nvs(fs), iter.rest()[0]@);
        }
    }
//@ end

//@ fn fst.rs find_node_iter_mut foriter tryo
//@ bound I VpIterator<&'b str>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        match r {
            None => find(nvs(old(nodes)@), strs(iter.rest())) is None && nvs(final(nodes)@) == nvs(old(nodes)@),
            Some(x) => find(nvs(old(nodes)@), strs(iter.rest())) == Some(nv(*x))
                && nvs(final(nodes)@) == put(nvs(old(nodes)@), strs(iter.rest()), nv(*final(x))),
        },
//@ closure 0 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ closure 1 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ at start
    let ghost path = iter.rest();
    let ghost v0 = nodes@;
    let ghost root = nvs(nodes@);
    let ghost fin = final(nodes)@;
//@ at after let cur_part=
    proof {
        lemma_strs(path);
        lemma_nvs(v0);
        lemma_first(root, cur_part@);
    }
//@ at after let mut cur_node=
    proof {
        let k = first(root, cur_part@);
        lemma_nvs_update(v0, k, *final(cur_node));
        lemma_nvs(v0);
        assert(root.update(k, root[k]) =~= root);
    }
//@ loop 0
    invariant
        find(root, strs(path)) == under(nv(*cur_node), strs(iter.rest())),
        nv(*final(cur_node)) == nv(*cur_node) ==> nvs(fin) == root,
        forall|y: Node| nv(*final(cur_node)) == #[trigger] put_under(nv(*cur_node), strs(iter.rest()), y) ==> nvs(fin) == put(root, strs(path), y),
    decreases iter.rest().len(),
//@ at loop 0 start
    let ghost c0 = *cur_node;
    let ghost fc = *final(cur_node);
    let ghost rest0 = strs(iter.rest());
    let ghost fs = dir_files(*cur_node);
    let ghost ffs = dir_files(*final(cur_node));
    proof {
        if iter.rest().len() > 0 {
            lemma_strs(iter.rest());
            lemma_nvs(fs);
            lemma_first(nvs(fs), iter.rest()[0]@);
        }
    }
//@ at after cur_node=(match vp_find_mut(files
    proof {
        let k = first(nvs(fs), cur_part@);
        assert(ffs == fs.update(k, *final(cur_node)));
        lemma_nvs_update(fs, k, *final(cur_node));
        assert(nvs(fs).update(k, nvs(fs)[k]) =~= nvs(fs));
        assert forall|y: Node| nv(*final(cur_node)) == #[trigger] put_under(nv(*cur_node), strs(iter.rest()), y) implies nvs(fin) == put(root, strs(path), y) by {
            assert(nv(fc) == put_under(nv(c0), rest0, y));
        }
    }
//@ at end
    assert(put_under(nv(*cur_node), strs(iter.rest()), nv(*final(cur_node))) == nv(*final(cur_node)));
//@ end

//@ fn fst.rs remove_node_iter foriter tryo
//@ bound I VpIterator<&'b str>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        match r {
            None => find(nvs(old(nodes)@), strs(iter.rest())) is None && nvs(final(nodes)@) == nvs(old(nodes)@),
            Some(x) => find(nvs(old(nodes)@), strs(iter.rest())) == Some(nv(x))
                && nvs(final(nodes)@) == del(nvs(old(nodes)@), strs(iter.rest())),
        },
//@ closure 0 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ closure 1 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ closure 2 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ closure 3 n: &FstNode -> b: bool
    ensures b == (nname(nv(*n)) == cur_part@)
//@ at start
    let ghost path = iter.rest();
    let ghost v0 = nodes@;
    let ghost root = nvs(nodes@);
    let ghost fin = final(nodes)@;
//@ at after let cur_part=
    proof {
        lemma_strs(path);
        lemma_nvs(v0);
        lemma_first(root, cur_part@);
        if first(root, cur_part@) >= 0 { lemma_nvs_remove(v0, first(root, cur_part@)); }
    }
//@ at after let mut cur_node=
    proof {
        let k = first(root, cur_part@);
        lemma_nvs_update(v0, k, *final(cur_node));
        lemma_nvs(v0);
        assert(root.update(k, root[k]) =~= root);
    }
//@ loop 0
    invariant
        peek_iter.rest().len() >= 1,
        find(root, strs(path)) == under(nv(*cur_node), strs(peek_iter.rest())),
        nv(*final(cur_node)) == nv(*cur_node) ==> nvs(fin) == root,
        nv(*final(cur_node)) == del_under(nv(*cur_node), strs(peek_iter.rest())) ==> nvs(fin) == del(root, strs(path)),
    decreases peek_iter.rest().len(),
//@ at loop 0 start
    let ghost c0 = *cur_node;
    let ghost fc = *final(cur_node);
    let ghost rest0 = strs(peek_iter.rest());
    let ghost fs = dir_files(*cur_node);
    let ghost ffs = dir_files(*final(cur_node));
    proof {
        lemma_strs(peek_iter.rest());
        lemma_nvs(fs);
        lemma_first(nvs(fs), peek_iter.rest()[0]@);
        if first(nvs(fs), peek_iter.rest()[0]@) >= 0 { lemma_nvs_remove(fs, first(nvs(fs), peek_iter.rest()[0]@)); }
    }
//@ at after cur_node=(match vp_find_mut(files
    proof {
        let k = first(nvs(fs), cur_part@);
        assert(ffs == fs.update(k, *final(cur_node)));
        lemma_nvs_update(fs, k, *final(cur_node));
        assert(nvs(fs).update(k, nvs(fs)[k]) =~= nvs(fs));
    }
//@ at before return Some(files.remove(
    proof {
        assert(idx == first(nvs(fs), cur_part@));
        assert(rest0.len() == 1);
        reveal_with_fuel(under, 2);
        assert(under(nv(c0), rest0) == Some(nv(fs[idx as int])));
        assert(del_under(nv(c0), rest0) == Node::Dir { name: nname(nv(c0)), files: nvs(fs.remove(idx as int)) });
        assert(ffs == fs.remove(idx as int) ==> nv(fc) == del_under(nv(c0), rest0));
    }
//@ end

/// the components of a path: the non-empty pieces between slashes
pub open spec fn parts(s: Seq<char>) -> Seq<Seq<char>> { split(s, '/').filter(|p: Seq<char>| p.len() > 0) }
pub proof fn lemma_strs_filter(s: Seq<&str>, p: spec_fn(&str) -> bool, q: spec_fn(Seq<char>) -> bool)
    requires forall|x: &str| #[trigger] p(x) == q(x@),
    ensures strs(s.filter(p)) == strs(s).filter(q),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        lemma_strs_filter(s.drop_last(), p, q);
        assert(strs(s).drop_last() =~= strs(s.drop_last()));
        assert(strs(s.filter(p)) =~= strs(s).filter(q));
    } else {
        assert(strs(s.filter(p)) =~= strs(s).filter(q));
    }
}
pub open spec fn nonempty<'a>() -> spec_fn(&'a str) -> bool { |x: &'a str| x@.len() > 0 }
/// what the pieces without the empty ones are
pub proof fn lemma_parts(s: &str)
    ensures forall|v: Seq<&str>| #[trigger] strs(v) == split(s@, '/') ==> strs(v.filter(nonempty())) == parts(s@),
{
    assert forall|v: Seq<&str>| #[trigger] strs(v) == split(s@, '/') implies strs(v.filter(nonempty())) == parts(s@) by {
        lemma_strs_filter(v, nonempty(), |p: Seq<char>| p.len() > 0);
    }
}

//@ fn fst.rs Fst::find_node_iter
//@ bound I VpIterator<&'b str>
//@ spec
    ensures
        (r is Some) == (find(nvs(self.entries@), strs(iter.rest())) is Some),
        r is Some ==> nv(*r->Some_0) == find(nvs(self.entries@), strs(iter.rest()))->Some_0,
//@ end
//@ fn fst.rs Fst::find_node_path
//@ spec
    ensures
        (r is Some) == (find(nvs(self.entries@), parts(s@)) is Some),
        r is Some ==> nv(*r->Some_0) == find(nvs(self.entries@), parts(s@))->Some_0,
//@ closure 0 p: &&str -> b: bool
    ensures b == ((*p)@.len() > 0)
//@ at start
    proof { lemma_parts(s); }
//@ end

//@ fn fst.rs Fst::find_node_iter_mut
//@ bound I VpIterator<&'b str>
//@ spec
    ensures
        match r {
            None => find(nvs(old(self).entries@), strs(iter.rest())) is None && nvs(final(self).entries@) == nvs(old(self).entries@),
            Some(x) => find(nvs(old(self).entries@), strs(iter.rest())) == Some(nv(*x))
                && nvs(final(self).entries@) == put(nvs(old(self).entries@), strs(iter.rest()), nv(*final(x))),
        },
//@ end
//@ fn fst.rs Fst::find_node_path_mut
//@ spec
    ensures
        match r {
            None => find(nvs(old(self).entries@), parts(s@)) is None && nvs(final(self).entries@) == nvs(old(self).entries@),
            Some(x) => find(nvs(old(self).entries@), parts(s@)) == Some(nv(*x))
                && nvs(final(self).entries@) == put(nvs(old(self).entries@), parts(s@), nv(*final(x))),
        },
//@ closure 0 p: &&str -> b: bool
    ensures b == ((*p)@.len() > 0)
//@ at start
    proof { lemma_parts(s); }
//@ end

//@ fn fst.rs Fst::remove_node_iter
//@ bound I VpIterator<&'b str>
//@ spec
    ensures
        match r {
            None => find(nvs(old(self).entries@), strs(iter.rest())) is None && nvs(final(self).entries@) == nvs(old(self).entries@),
            Some(x) => find(nvs(old(self).entries@), strs(iter.rest())) == Some(nv(x))
                && nvs(final(self).entries@) == del(nvs(old(self).entries@), strs(iter.rest())),
        },
//@ end
//@ fn fst.rs Fst::remove_node_path
//@ spec
    ensures
        match r {
            None => find(nvs(old(self).entries@), parts(s@)) is None && nvs(final(self).entries@) == nvs(old(self).entries@),
            Some(x) => find(nvs(old(self).entries@), parts(s@)) == Some(nv(x))
                && nvs(final(self).entries@) == del(nvs(old(self).entries@), parts(s@)),
        },
//@ closure 0 p: &&str -> b: bool
    ensures b == ((*p)@.len() > 0)
//@ at start
    proof { lemma_parts(s); }
//@ end
} // verus!
