verus! {
// ---- the files below a directory -----------------------------------------------------------------
/// a file below a directory: its path from there and its path in the file system
pub ghost struct Disk { pub rel: Seq<Seq<char>>, pub full: Seq<Seq<char>> }
/// the files below the first `n` entries of `p`, which is `rel` from the top
pub open spec fn below_dir(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, n: nat) -> Seq<Disk>
    decreases depth(p), n,
{
    if n == 0 { Seq::empty() } else { below_dir(p, rel, (n - 1) as nat) + entry_files(p, rel, (n - 1) as nat) }
}
pub open spec fn entry_files(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, i: nat) -> Seq<Disk>
    decreases depth(p), i,
{
    match names(p)[i as int] {
        None => Seq::empty(),
        Some(s) => if !dir_at(joined(p, s)) { seq![Disk { rel: rel.push(s), full: joined(p, s) }] }
            else if depth(joined(p, s)) < depth(p) { below_dir(joined(p, s), rel.push(s), names(joined(p, s)).len()) } else { Seq::empty() },
    }
}
pub open spec fn all_below(p: Seq<Seq<char>>, rel: Seq<Seq<char>>) -> Seq<Disk> { below_dir(p, rel, names(p).len()) }
/// the path below `p`
pub open spec fn at_path(p: Seq<Seq<char>>, rel: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases rel.len(),
{
    if rel.len() == 0 { p } else { joined(at_path(p, rel.drop_last()), rel.last()) }
}

/// a node for that file (the length is the one it has)
pub open spec fn node_for(e: Disk, x: Node) -> bool { x is File && nname(x) == e.rel.last() && (file_at(e.full) ==> x->File_length == content(e.full).len() && content(e.full).len() < 0x1_0000_0000) }
/// the tree `t` is `s` with the files `evs` added one after the other, none in the place of anything
pub open spec fn grew(s: Seq<Node>, evs: Seq<Disk>, t: Seq<Node>) -> bool
    decreases evs.len(),
{
    if evs.len() == 0 { t == s } else { exists|u: Seq<Node>, x: Node| grew(s, evs.drop_last(), u) && #[trigger] one_more(u, evs.last(), x, t) }
}
pub open spec fn one_more(u: Seq<Node>, e: Disk, x: Node, t: Seq<Node>) -> bool {
    node_for(e, x) && addable(u, e.rel.drop_last()) && displaced(u, e.rel.drop_last(), x) is None && t == added(u, e.rel.drop_last(), x)
}
pub proof fn lemma_grew_more(s: Seq<Node>, evs: Seq<Disk>, u: Seq<Node>, e: Disk, x: Node)
    requires grew(s, evs, u), node_for(e, x), addable(u, e.rel.drop_last()), displaced(u, e.rel.drop_last(), x) is None,
    ensures grew(s, evs.push(e), added(u, e.rel.drop_last(), x)),
{
    assert(evs.push(e).drop_last() =~= evs);
    assert(evs.push(e).last() == e);
    assert(one_more(u, evs.push(e).last(), x, added(u, e.rel.drop_last(), x)));
}
pub proof fn lemma_grew_on(s: Seq<Node>, a: Seq<Disk>, u: Seq<Node>, b: Seq<Disk>, t: Seq<Node>)
    requires grew(s, a, u), grew(u, b, t),
    ensures grew(s, a + b, t),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        let (w, x) = choose|w: Seq<Node>, x: Node| grew(u, b.drop_last(), w) && #[trigger] one_more(w, b.last(), x, t);
        lemma_grew_on(s, a, u, b.drop_last(), w);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(one_more(w, (a + b).last(), x, t));
    }
}

// ---- what adding a file does to the list of files ------------------------------------------------
/// every name can be listed by a directory
pub open spec fn proper1(n: Node) -> bool
    decreases n,
{
    proper(nname(n)) && match n { Node::File { .. } => true, Node::Dir { files, .. } => propers(files) }
}
pub open spec fn propers(s: Seq<Node>) -> bool
    decreases s,
{
    s.len() > 0 ==> propers(s.drop_last()) && proper1(s.last())
}
pub proof fn lemma_propers(s: Seq<Node>)
    ensures propers(s) <==> forall|i: int| 0 <= i < s.len() ==> proper1(#[trigger] s[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_propers(s.drop_last());
        assert(forall|i: int| 0 <= i < s.len() - 1 ==> s.drop_last()[i] == #[trigger] s[i]);
    }
}
pub proof fn lemma_count_update(s: Seq<Node>, k: int, n: Node)
    requires 0 <= k < s.len(),
    ensures count(s.update(k, n)) == count(s) - count1(s[k]) + count1(n),
    decreases s.len(),
{
    let r = s.update(k, n);
    if k == s.len() - 1 {
        assert(r.drop_last() =~= s.drop_last());
    } else {
        assert(r.drop_last() =~= s.drop_last().update(k, n));
        lemma_count_update(s.drop_last(), k, n);
    }
}
pub proof fn lemma_count_insert(s: Seq<Node>, k: int, n: Node)
    requires 0 <= k <= s.len(),
    ensures count(s.insert(k, n)) == count(s) + count1(n),
    decreases s.len(),
{
    let r = s.insert(k, n);
    if k == s.len() {
        assert(r.drop_last() =~= s);
    } else {
        assert(r.drop_last() =~= s.drop_last().insert(k, n));
        assert(r.last() == s.last());
        lemma_count_insert(s.drop_last(), k, n);
    }
}
pub open spec fn propers_path(p: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < p.len() ==> proper(#[trigger] p[i]) }
pub proof fn lemma_added_count(s: Seq<Node>, path: Seq<Seq<char>>, x: Node)
    requires addable(s, path), displaced(s, path, x) is None, x is File,
    ensures count(added(s, path, x)) == count(s) + 1, propers(s) && proper1(x) && propers_path(path) ==> propers(added(s, path, x)),
    decreases path.len(),
{
    let k = if path.len() == 0 { key(x) } else { fold(path[0]) };
    let p = rank(s, k);
    lemma_rank(s, k);
    let r = added(s, path, x);
    let rest = if path.len() == 0 { path } else { path.drop_first() };
    if propers_path(path) { assert forall|i: int| 0 <= i < rest.len() implies proper(#[trigger] rest[i]) by { if path.len() > 0 { assert(rest[i] == path[i + 1]); } } }
    lemma_propers(s);
    lemma_propers(r);
    if path.len() == 0 {
        lemma_count_insert(s, p, x);
    } else if present(s, k) {
        lemma_added_count(kids(s[p]), rest, x);
        lemma_count_update(s, p, r[p]);
        if propers(s) { assert(proper1(s[p])); }
    } else {
        lemma_addable_empty(rest, x);
        lemma_added_count(Seq::empty(), rest, x);
        lemma_count_insert(s, p, r[p]);
    }
    if propers(s) && proper1(x) && propers_path(path) {
        if path.len() > 0 { assert(proper(path[0])); }
        assert(proper1(r[p]));
        assert forall|i: int| 0 <= i < r.len() implies proper1(#[trigger] r[i]) by {
            if present(s, k) { if i != p { assert(r[i] == s[i]); } }
            else if i < p { assert(r[i] == s[i]); } else if i > p { assert(r[i] == s[i - 1]); }
        }
    }
}
pub open spec fn good_rel(e: Disk) -> bool { e.rel.len() > 0 && propers_path(e.rel) && nulfree_path(e.rel) }
pub open spec fn good_rels(evs: Seq<Disk>) -> bool { forall|i: int| 0 <= i < evs.len() ==> good_rel(#[trigger] evs[i]) }
pub proof fn lemma_good_rel(e: Disk)
    requires good_rel(e),
    ensures propers_path(e.rel.drop_last()), nulfree_path(e.rel.drop_last()), proper(e.rel.last()), nulfree(e.rel.last()),
{
    assert forall|i: int| 0 <= i < e.rel.len() - 1 implies proper(#[trigger] e.rel.drop_last()[i]) && nulfree(e.rel.drop_last()[i]) by { assert(e.rel.drop_last()[i] == e.rel[i]); }
}
/// the tree stays ordered, and has one file more for each
pub proof fn lemma_grew(s: Seq<Node>, evs: Seq<Disk>, t: Seq<Node>)
    requires grew(s, evs, t), good_rels(evs), ordered(s), nulfrees(s), propers(s),
    ensures ordered(t), nulfrees(t), propers(t), count(t) == count(s) + evs.len(),
    decreases evs.len(),
{
    if evs.len() > 0 {
        let (u, x) = choose|u: Seq<Node>, x: Node| grew(s, evs.drop_last(), u) && #[trigger] one_more(u, evs.last(), x, t);
        assert(good_rels(evs.drop_last())) by { assert forall|i: int| 0 <= i < evs.len() - 1 implies good_rel(#[trigger] evs.drop_last()[i]) by { assert(evs.drop_last()[i] == evs[i]); } }
        lemma_grew(s, evs.drop_last(), u);
        assert(good_rel(evs.last()));
        lemma_good_rel(evs.last());
        let dirs = evs.last().rel.drop_last();
        lemma_added_count(u, dirs, x);
        theorem_added_ordered(u, dirs, x);
    }
}

// ---- the paths of an ordered tree are different --------------------------------------------------
pub open spec fn starts(a: Seq<Seq<char>>, p: Seq<Seq<char>>) -> bool { p.len() <= a.len() && a.take(p.len() as int) == p }
pub proof fn lemma_file_paths1(n: Node, path: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < files1(n, path).len() ==> starts((#[trigger] files1(n, path)[i]).0, path.push(nname(n))),
    decreases n,
{
    match n {
        Node::File { .. } => { assert(path.push(nname(n)).take((path.len() + 1) as int) =~= path.push(nname(n))); }
        Node::Dir { name, files } => {
            lemma_file_paths(files, path.push(name));
            assert forall|i: int| 0 <= i < files1(n, path).len() implies starts((#[trigger] files1(n, path)[i]).0, path.push(nname(n))) by {
                let a = files_of(files, path.push(name))[i].0;
                assert(under_path(a, path.push(name)));
            }
        }
    }
}
pub open spec fn under_path(a: Seq<Seq<char>>, p: Seq<Seq<char>>) -> bool { starts(a, p) && a.len() > p.len() }
pub proof fn lemma_file_paths(s: Seq<Node>, path: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < files_of(s, path).len() ==> under_path((#[trigger] files_of(s, path)[i]).0, path) && exists|j: int| 0 <= j < s.len() && files_of(s, path)[i].0[path.len() as int] == nname(#[trigger] s[j]),
    decreases s,
{
    if s.len() > 0 {
        let (a, b) = (files_of(s.drop_last(), path), files1(s.last(), path));
        lemma_file_paths(s.drop_last(), path);
        lemma_file_paths1(s.last(), path);
        assert forall|i: int| 0 <= i < files_of(s, path).len() implies under_path((#[trigger] files_of(s, path)[i]).0, path) && exists|j: int| 0 <= j < s.len() && files_of(s, path)[i].0[path.len() as int] == nname(#[trigger] s[j]) by {
            let q = files_of(s, path)[i].0;
            if i < a.len() {
                assert(files_of(s, path)[i] == a[i]);
                let j = choose|j: int| 0 <= j < s.len() - 1 && a[i].0[path.len() as int] == nname(#[trigger] s.drop_last()[j]);
                assert(nname(s[j]) == q[path.len() as int]);
            } else {
                assert(files_of(s, path)[i] == b[i - a.len()]);
                let pn = path.push(nname(s.last()));
                assert(starts(q, pn));
                assert(q.take(path.len() as int) =~= q.take(pn.len() as int).take(path.len() as int));
                assert(pn.take(path.len() as int) =~= path);
                assert(q[path.len() as int] == q.take(pn.len() as int)[path.len() as int]);
                assert(nname(s[s.len() - 1]) == q[path.len() as int]);
            }
        }
    }
}
pub open spec fn apart(f: Seq<(Seq<Seq<char>>, Node)>) -> bool { forall|i: int, j: int| 0 <= i < j < f.len() ==> (#[trigger] f[i]).0 != (#[trigger] f[j]).0 }
pub proof fn lemma_apart1(n: Node, path: Seq<Seq<char>>)
    requires ordered1(n), nulfree1(n),
    ensures apart(files1(n, path)),
    decreases n,
{
    if let Node::Dir { name, files } = n { lemma_apart(files, path.push(name)); }
}
pub proof fn lemma_apart(s: Seq<Node>, path: Seq<Seq<char>>)
    requires ordered(s), nulfrees(s),
    ensures apart(files_of(s, path)),
    decreases s,
{
    if s.len() > 0 {
        let (a, b) = (files_of(s.drop_last(), path), files1(s.last(), path));
        let f = files_of(s, path);
        assert(strict(s.drop_last())) by { assert forall|i: int, j: int| 0 <= i < j < s.len() - 1 implies cmp0(key(#[trigger] s.drop_last()[i]), key(#[trigger] s.drop_last()[j])) == Ordering::Less by { assert(cmp0(key(s[i]), key(s[j])) == Ordering::Less); } }
        lemma_apart(s.drop_last(), path);
        lemma_apart1(s.last(), path);
        lemma_file_paths(s.drop_last(), path);
        lemma_file_paths1(s.last(), path);
        assert forall|i: int, j: int| 0 <= i < j < f.len() implies (#[trigger] f[i]).0 != (#[trigger] f[j]).0 by {
            if j < a.len() { assert(f[i] == a[i] && f[j] == a[j]); }
            else if i >= a.len() { assert(f[i] == b[i - a.len()] && f[j] == b[j - a.len()]); }
            else {
                assert(f[i] == a[i] && f[j] == b[j - a.len()]);
                let m = path.len() as int;
                let w = choose|w: int| 0 <= w < s.len() - 1 && a[i].0[m] == nname(#[trigger] s.drop_last()[w]);
                let pn = path.push(nname(s.last()));
                assert(starts(f[j].0, pn));
                assert(f[j].0[m] == f[j].0.take(pn.len() as int)[m]);
                assert(cmp0(key(s[w]), key(s[s.len() - 1])) == Ordering::Less);
                lemma_cmp_rev(key(s.last()), key(s.last()));
            }
        }
    }
}
pub proof fn lemma_paths_proper1(n: Node, path: Seq<Seq<char>>)
    requires proper1(n), propers_path(path),
    ensures forall|i: int| 0 <= i < files1(n, path).len() ==> propers_path((#[trigger] files1(n, path)[i]).0),
    decreases n,
{
    assert forall|i: int| 0 <= i < path.len() + 1 implies proper(#[trigger] path.push(nname(n))[i]) by { if i < path.len() { assert(proper(path[i])); } }
    match n {
        Node::Dir { name, files } => { assert(propers_path(path.push(name))); lemma_paths_proper(files, path.push(name)); assert(files1(n, path) == files_of(files, path.push(name))); }
        Node::File { .. } => { assert(propers_path(path.push(nname(n)))); assert(files1(n, path)[0].0 == path.push(nname(n))); }
    }
}
pub proof fn lemma_paths_proper(s: Seq<Node>, path: Seq<Seq<char>>)
    requires propers(s), propers_path(path),
    ensures forall|i: int| 0 <= i < files_of(s, path).len() ==> propers_path((#[trigger] files_of(s, path)[i]).0),
    decreases s,
{
    if s.len() > 0 {
        lemma_paths_proper(s.drop_last(), path);
        lemma_paths_proper1(s.last(), path);
        let a = files_of(s.drop_last(), path);
        assert forall|i: int| 0 <= i < files_of(s, path).len() implies propers_path((#[trigger] files_of(s, path)[i]).0) by {
            if i < a.len() { assert(files_of(s, path)[i] == a[i]); } else { assert(files_of(s, path)[i] == files1(s.last(), path)[i - a.len()]); }
        }
    }
}

// ---- the files below a directory are those the paths lead to --------------------------------------
pub proof fn lemma_below_good(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, n: nat)
    requires n <= names(p).len(), propers_path(rel), nulfree_path(rel),
    ensures good_rels(below_dir(p, rel, n)),
    decreases depth(p), n,
{
    if n > 0 {
        lemma_below_good(p, rel, (n - 1) as nat);
        let f = entry_files(p, rel, (n - 1) as nat);
        assert(good_rels(f)) by {
            if let Some(s) = names(p)[n - 1] {
                fs_axioms::axiom_listed(p, n - 1);
                assert forall|i: int| 0 <= i < rel.len() + 1 implies proper(#[trigger] rel.push(s)[i]) && nulfree(rel.push(s)[i]) by { if i < rel.len() { assert(proper(rel[i]) && nulfree(rel[i])); } }
                assert(propers_path(rel.push(s)) && nulfree_path(rel.push(s)));
                if dir_at(joined(p, s)) && depth(joined(p, s)) < depth(p) { lemma_below_good(joined(p, s), rel.push(s), names(joined(p, s)).len()); }
            }
        }
        assert forall|i: int| 0 <= i < below_dir(p, rel, n).len() implies good_rel(#[trigger] below_dir(p, rel, n)[i]) by {
            let a = below_dir(p, rel, (n - 1) as nat);
            if i < a.len() { assert(below_dir(p, rel, n)[i] == a[i]); } else { assert(below_dir(p, rel, n)[i] == f[i - a.len()]); }
        }
    }
}
pub proof fn lemma_below_has(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, i: int, n: nat)
    requires 0 <= i < n <= names(p).len(),
    ensures forall|e: Disk| #[trigger] entry_files(p, rel, i as nat).contains(e) ==> below_dir(p, rel, n).contains(e),
    decreases n,
{
    let (a, f) = (below_dir(p, rel, (n - 1) as nat), entry_files(p, rel, (n - 1) as nat));
    if i < n - 1 { lemma_below_has(p, rel, i, (n - 1) as nat); }
    assert forall|e: Disk| #[trigger] entry_files(p, rel, i as nat).contains(e) implies below_dir(p, rel, n).contains(e) by {
        if i < n - 1 {
            let k = choose|k: int| 0 <= k < a.len() && a[k] == e;
            assert(below_dir(p, rel, n)[k] == e);
        } else {
            let k = choose|k: int| 0 <= k < f.len() && f[k] == e;
            assert(below_dir(p, rel, n)[a.len() + k] == e);
        }
    }
}
/// parents of what is there are directories that list it
pub proof fn lemma_at_dirs(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, k: int)
    requires 0 <= k < rel.len(), propers_path(rel), file_at(at_path(p, rel)),
    ensures dir_at(at_path(p, rel.take(k))), names(at_path(p, rel.take(k))).contains(Some(rel[k])), at_path(p, rel.take(k + 1)) == joined(at_path(p, rel.take(k)), rel[k]),
    decreases rel.len() - k,
{
    assert(rel.take(k + 1).drop_last() =~= rel.take(k));
    assert(proper(rel[k]));
    if k + 1 < rel.len() { lemma_at_dirs(p, rel, k + 1); } else { assert(rel.take(k + 1) =~= rel); }
    fs_axioms::axiom_there(at_path(p, rel.take(k)), rel[k]);
}
/// a file is among those below
pub proof fn lemma_file_below(p: Seq<Seq<char>>, rel: Seq<Seq<char>>, k: int)
    requires 0 <= k < rel.len(), propers_path(rel), file_at(at_path(p, rel)),
    ensures all_below(at_path(p, rel.take(k)), rel.take(k)).contains(Disk { rel, full: at_path(p, rel) }),
    decreases rel.len() - k,
{
    let (q, r) = (at_path(p, rel.take(k)), rel.take(k));
    let e = Disk { rel, full: at_path(p, rel) };
    lemma_at_dirs(p, rel, k);
    let i = choose|i: int| 0 <= i < names(q).len() && names(q)[i] == Some(rel[k]);
    assert(r.push(rel[k]) =~= rel.take(k + 1));
    fs_axioms::axiom_kind(at_path(p, rel.take(k + 1)));
    if k + 1 < rel.len() {
        lemma_at_dirs(p, rel, k + 1);
        fs_axioms::axiom_depth(q, i);
        lemma_file_below(p, rel, k + 1);
    } else {
        assert(rel.take(k + 1) =~= rel);
        assert(entry_files(q, r, i as nat)[0] == e);
    }
    assert(entry_files(q, r, i as nat).contains(e));
    lemma_below_has(q, r, i, names(q).len());
}
/// as many different things, all from a list that is not longer, are all of the list
pub proof fn lemma_all_of<A>(a: Seq<A>, b: Seq<A>, x: A)
    requires a.no_duplicates(), forall|i: int| 0 <= i < a.len() ==> b.contains(#[trigger] a[i]), b.len() <= a.len(), b.contains(x),
    ensures a.contains(x),
{
    let (s, t) = (a.to_set(), b.to_set());
    a.unique_seq_to_set();
    assert(t.len() <= b.len()) by { b.lemma_cardinality_of_set(); }
    assert(s.subset_of(t)) by { assert forall|y: A| s.contains(y) implies t.contains(y) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b.contains(a[i])); } }
    vstd::set_lib::lemma_len_subset(s, t);
    vstd::set_lib::lemma_subset_equality(s, t);
    assert(t.contains(x));
}
} // verus!
