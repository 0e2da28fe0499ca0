verus! {
// ---- visiting ------------------------------------------------------------------------------------
/// one call of a visitor
pub struct Ev<E> { pub path: Seq<Seq<char>>, pub node: Node, pub after: Node, pub res: Result<(), E> }
/// any FnMut(&Vec<&str>, &FstNode) -> Result<(), E>, with a record of its calls
pub trait VpVisitor<E>: Sized {
    spec fn log(&self) -> Seq<Ev<E>>;
    /// what the calls keep up
    spec fn inv(&self) -> bool;
    /// what the calls never change
    type Refs;
    #[verifier::prophetic]
    spec fn refs(&self) -> Self::Refs;
    /// what it may be called with
    spec fn takes(&self, path: Seq<Seq<char>>, node: Node) -> bool;
    fn vp_call(&mut self, path: &Vec<&str>, node: &FstNode) -> (r: Result<(), E>)
        requires (*old(self)).inv(), (*old(self)).takes(strs(path@), nv(*node)),
        ensures (*final(self)).inv(), (*final(self)).refs() == (*old(self)).refs(),
            forall|p: Seq<Seq<char>>, n: Node| #[trigger] (*final(self)).takes(p, n) == (*old(self)).takes(p, n),
            (*final(self)).log() == (*old(self)).log().push(Ev { path: strs(path@), node: nv(*node), after: nv(*node), res: r });
}
pub open spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// any FnMut(&Vec<String>, &mut FstNode) -> Result<(), E>
pub trait VpVisitorMut<E> {
    spec fn log(&self) -> Seq<Ev<E>>;
    fn vp_call(&mut self, path: &Vec<String>, node: &mut FstNode) -> (r: Result<(), E>)
        ensures (*final(self)).log() == (*old(self)).log().push(Ev { path: texts(path@), node: nv(*old(node)), after: nv(*final(node)), res: r });
}
/// one call of a visitor of files
pub struct Fv<E> { pub path: Seq<Seq<char>>, pub offset: int, pub length: int, pub offset1: int, pub length1: int, pub res: Result<(), E> }
/// any FnMut(&Vec<String>, &mut u64, &mut u32) -> Result<(), E>
pub trait VpFileVisitor<E>: Sized {
    spec fn log(&self) -> Seq<Fv<E>>;
    /// what the calls keep up as long as they succeed
    spec fn inv(&self) -> bool;
    /// what the calls never change
    type Refs;
    #[verifier::prophetic]
    spec fn refs(&self) -> Self::Refs;
    fn vp_call(&mut self, path: &Vec<String>, offset: &mut u64, length: &mut u32) -> (r: Result<(), E>)
        requires (*old(self)).inv(),
        ensures (*final(self)).refs() == (*old(self)).refs(), r is Ok ==> (*final(self)).inv(),
            (*final(self)).log() == (*old(self)).log().push(Fv { path: texts(path@), offset: *old(offset) as int, length: *old(length) as int,
            offset1: *final(offset) as int, length1: *final(length) as int, res: r });
}
/// nodes with their paths, parents first
pub open spec fn visits1(n: Node, path: Seq<Seq<char>>) -> Seq<(Seq<Seq<char>>, Node)>
    decreases n,
{
    seq![(path.push(nname(n)), n)] + match n { Node::File { .. } => Seq::empty(), Node::Dir { name, files } => visits(files, path.push(name)) }
}
pub open spec fn visits(s: Seq<Node>, path: Seq<Seq<char>>) -> Seq<(Seq<Seq<char>>, Node)>
    decreases s,
{
    if s.len() == 0 { Seq::empty() } else { visits(s.drop_last(), path) + visits1(s.last(), path) }
}
/// between `a` and `b` the visitor was called for the nodes of `vs` one after the other, up to the first error
#[verifier::opaque]
pub open spec fn ran<E>(a: Seq<Ev<E>>, b: Seq<Ev<E>>, vs: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>) -> bool {
    let n = b.len() - a.len();
    &&& 0 <= n <= vs.len()
    &&& b.take(a.len() as int) == a
    &&& forall|i: int| 0 <= i < n ==> (#[trigger] b[a.len() + i]).path == vs[i].0 && b[a.len() + i].node == vs[i].1 && b[a.len() + i].after == vs[i].1
    &&& forall|i: int| 0 <= i < n - 1 ==> (#[trigger] b[a.len() + i]).res is Ok
    &&& match r { Ok(_) => n == vs.len() && (n > 0 ==> b.last().res is Ok), Err(e) => n > 0 && b.last().res == r }
}
pub proof fn lemma_ran_nothing<E>(a: Seq<Ev<E>>)
    ensures ran(a, a, Seq::empty(), Ok(())),
{
    reveal(ran);
    assert(a.take(a.len() as int) =~= a);
}
pub proof fn lemma_ran_call<E>(a: Seq<Ev<E>>, e: Ev<E>, vs: Seq<(Seq<Seq<char>>, Node)>)
    requires vs.len() == 1, e.path == vs[0].0, e.node == vs[0].1, e.after == vs[0].1,
    ensures ran(a, a.push(e), vs, e.res),
{
    reveal(ran);
    assert(a.push(e).take(a.len() as int) =~= a);
}
pub proof fn lemma_ran_then<E>(a: Seq<Ev<E>>, b: Seq<Ev<E>>, c: Seq<Ev<E>>, v1: Seq<(Seq<Seq<char>>, Node)>, v2: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>)
    requires ran(a, b, v1, Ok(())), ran(b, c, v2, r),
    ensures ran(a, c, v1 + v2, r),
{
    reveal(ran);
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert forall|i: int| 0 <= i < c.len() - a.len() implies (#[trigger] c[a.len() + i]).path == (v1 + v2)[i].0 && c[a.len() + i].node == (v1 + v2)[i].1 && c[a.len() + i].after == (v1 + v2)[i].1
            && (i < c.len() - a.len() - 1 ==> c[a.len() + i].res is Ok) by {
        if i < v1.len() {
            assert(c.take(b.len() as int)[a.len() + i] == c[a.len() + i]);
            assert(b[a.len() + i] == c[a.len() + i]);
            assert(i == v1.len() - 1 ==> b.last() == b[a.len() + i]);
        } else {
            assert(c[b.len() + (i - v1.len())] == c[a.len() + i]);
        }
    }
}
pub proof fn lemma_ran_more<E>(a: Seq<Ev<E>>, b: Seq<Ev<E>>, v1: Seq<(Seq<Seq<char>>, Node)>, v2: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>)
    requires ran(a, b, v1, r), r is Err,
    ensures ran(a, b, v1 + v2, r),
{
    reveal(ran);
}
pub proof fn lemma_visits_take(s: Seq<Node>, path: Seq<Seq<char>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        visits(s.take(k + 1), path) == visits(s.take(k), path) + visits1(s[k], path),
        exists|t: Seq<(Seq<Seq<char>>, Node)>| visits(s, path) == #[trigger] (visits(s.take(k + 1), path) + t),
    decreases s.len() - k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    if k + 1 < s.len() {
        lemma_visits_take(s, path, k + 1);
        let t = choose|t: Seq<(Seq<Seq<char>>, Node)>| visits(s, path) == #[trigger] (visits(s.take(k + 2), path) + t);
        let t1 = visits1(s[k + 1], path) + t;
        assert(visits(s, path) =~= visits(s.take(k + 1), path) + t1);
    } else {
        assert(s.take(k + 1) =~= s);
        assert(visits(s, path) =~= visits(s.take(k + 1), path) + Seq::empty());
    }
}
/// the visitor may be called with all of `vs`
pub open spec fn takes_all<E, F: VpVisitor<E>>(f: F, vs: Seq<(Seq<Seq<char>>, Node)>) -> bool { forall|i: int| 0 <= i < vs.len() ==> f.takes((#[trigger] vs[i]).0, vs[i].1) }
pub open spec fn same_takes<E, F: VpVisitor<E>>(f: F, g: F) -> bool { forall|p: Seq<Seq<char>>, n: Node| #[trigger] g.takes(p, n) == f.takes(p, n) }
pub proof fn lemma_takes_part<E, F: VpVisitor<E>>(f: F, g: F, a: Seq<(Seq<Seq<char>>, Node)>, b: Seq<(Seq<Seq<char>>, Node)>, c: Seq<(Seq<Seq<char>>, Node)>)
    requires takes_all::<E, F>(f, a + b + c), same_takes::<E, F>(f, g),
    ensures takes_all::<E, F>(g, b),
{
    assert forall|i: int| 0 <= i < b.len() implies g.takes((#[trigger] b[i]).0, b[i].1) by { assert((a + b + c)[a.len() + i] == b[i]); }
}
pub proof fn lemma_strs_push(v: Seq<&str>, x: &str)
    ensures strs(v.push(x)) == strs(v).push(x@), strs(v.push(x)).drop_last() == strs(v),
{
    assert(strs(v.push(x)) =~= strs(v).push(x@));
    assert(strs(v.push(x)).drop_last() =~= strs(v));
}

//@ fn fst.rs Fst::callback_all_files_rec callfn:f tryid
//@ bound F VpVisitor<E>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires (*old(f)).inv(), takes_all::<E, F>(*old(f), visits(nvs(nodes@), strs(old(vec)@))),
    ensures
        (*final(f)).inv(), (*final(f)).refs() == (*old(f)).refs(), same_takes::<E, F>(*old(f), *final(f)),
        ran((*old(f)).log(), (*final(f)).log(), visits(nvs(nodes@), strs(old(vec)@)), r),
        r is Ok ==> final(vec)@ == old(vec)@,
    decreases nodes,
//@ loop 0 iter it
    invariant
        vec@ == v0, (*f).inv(), (*f).refs() == (*old(f)).refs(), same_takes::<E, F>(*old(f), *f),
        ran(l0, (*f).log(), visits(s.take(it.index@ as int), path), Ok(())),
//@ at start
    let ghost v0 = vec@;
    let ghost path = strs(vec@);
    let ghost s = nvs(nodes@);
    let ghost l0 = (*f).log();
    proof {
        lemma_nvs(nodes@);
        lemma_ran_nothing(l0);
        assert(s.take(0) =~= Seq::<Node>::empty());
    }
//@ at loop 0 start
    let ghost k = it.index@ as int;
    let ghost l1 = (*f).log();
    let ghost n = nv(*node);
    let ghost me = seq![(path.push(nname(n)), n)];
    let ghost below = match n { Node::File { .. } => Seq::<(Seq<Seq<char>>, Node)>::empty(), Node::Dir { name, files } => visits(files, path.push(name)) };
    let ghost before = visits(s.take(k), path);
    proof { lemma_visits_take(s, path, k); }
    let ghost rest = choose|t: Seq<(Seq<Seq<char>>, Node)>| visits(s, path) == #[trigger] (visits(s.take(k + 1), path) + t);
    proof {
        lemma_visits_take(s, path, k);
        assert(n == s[k]);
        assert(before + me + below =~= visits(s.take(k + 1), path));
        assert(before + me + (below + rest) =~= visits(s, path));
        assert(before + me + below + rest =~= visits(s, path));
        lemma_takes_part::<E, F>(*old(f), *f, before, me, below + rest);
        lemma_takes_part::<E, F>(*old(f), *f, before + me, below, rest);
        assert(me[0] == (path.push(nname(n)), n));
        let f1 = *f;
        assert forall|g: F| #[trigger] same_takes::<E, F>(f1, g) implies takes_all::<E, F>(g, below) && same_takes::<E, F>(*old(f), g) by {
            lemma_takes_part::<E, F>(f1, g, Seq::empty(), below, Seq::empty());
            assert(Seq::<(Seq<Seq<char>>, Node)>::empty() + below + Seq::empty() =~= below);
        }
    }
//@ at after vec.push(
    proof {
        lemma_strs_push(v0, vec@.last());
        assert forall|x: Result<(), E>| ran(l1, #[trigger] l1.push(Ev { path: path.push(nname(n)), node: n, after: n, res: x }), me, x) by {
            lemma_ran_call(l1, Ev { path: path.push(nname(n)), node: n, after: n, res: x }, me);
        }
        assert forall|l2: Seq<Ev<E>>, x: Result<(), E>| #[trigger] ran(l1, l2, me, x) implies ran(l0, l2, before + me, x) && (x is Err ==> ran(l0, l2, visits(s, path), x)) by {
            lemma_ran_then(l0, l1, l2, before, me, x);
            if x is Err { lemma_ran_more(l0, l2, before + me, below + rest, x); }
        }
        assert forall|l2: Seq<Ev<E>>, l3: Seq<Ev<E>>, x: Result<(), E>| #[trigger] ran(l0, l2, before + me, Ok(())) && #[trigger] ran(l2, l3, below, x) implies ran(l0, l3, before + me + below, x) && (x is Err ==> ran(l0, l3, visits(s, path), x)) by {
            lemma_ran_then(l0, l2, l3, before + me, below, x);
            if x is Err { lemma_ran_more(l0, l3, before + me + below, rest, x); }
        }
    }
//@ at loop 0 end
    proof {
        assert(vec@ =~= v0);
        lemma_ran_nothing((*f).log());
    }
//@ at loop 0 after
    proof { assert(s.take(s.len() as int) =~= s); }
//@ end

//@ fn fst.rs Fst::callback_all_files
//@ bound F VpVisitor<E>
//@ spec
    requires (*old(f)).inv(), takes_all::<E, F>(*old(f), visits(nvs(self.entries@), Seq::empty())),
    ensures
        (*final(f)).inv(), (*final(f)).refs() == (*old(f)).refs(),
        ran((*old(f)).log(), (*final(f)).log(), visits(nvs(self.entries@), Seq::empty()), r),
//@ at after let mut path=
    assert(strs(path@) =~= Seq::<Seq<char>>::empty());
//@ end

// ---- the visitor may change the node ---------------------------------------------------------------
/// the calls `evs` are those made for `n` and all below it, which they leave as `m`
pub open spec fn walked1<E>(n: Node, path: Seq<Seq<char>>, evs: Seq<Ev<E>>, m: Node, r: Result<(), E>) -> bool
    decreases evs.len(), 0int,
{
    // first the node itself
    evs.len() > 0 && evs[0].path == path.push(nname(n)) && evs[0].node == n && match evs[0].res {
        // an error ends it there
        Err(_) => evs.len() == 1 && r == evs[0].res && m == evs[0].after,
        Ok(_) => match evs[0].after {
            Node::File { .. } => evs.len() == 1 && r is Ok && m == evs[0].after,
            // then what is in it now, under its name as it is now
            Node::Dir { name, files } => m is Dir && nname(m) == name
                && (r is Ok ==> walked(files, path.push(name), evs.drop_first(), kids(m)))
                && (r is Err ==> stopped(files, path.push(name), evs.drop_first(), kids(m), r)),
        },
    }
}
pub open spec fn cut<E>(evs: Seq<Ev<E>>, k: int) -> bool { 0 <= k <= evs.len() }
/// one node after the other, all calls succeeding
pub open spec fn walked<E>(s: Seq<Node>, path: Seq<Seq<char>>, evs: Seq<Ev<E>>, t: Seq<Node>) -> bool
    decreases evs.len(), 1 + s.len(),
{
    t.len() == s.len() && if s.len() == 0 { evs.len() == 0 } else {
        exists|k: int| #[trigger] cut(evs, k) && walked(s.drop_last(), path, evs.take(k), t.drop_last()) && walked1(s.last(), path, evs.skip(k), t.last(), Ok(()))
    }
}
/// up to a node with a failing call, the nodes after it untouched
pub open spec fn stopped<E>(s: Seq<Node>, path: Seq<Seq<char>>, evs: Seq<Ev<E>>, t: Seq<Node>, r: Result<(), E>) -> bool
    decreases evs.len(), 1 + s.len(),
{
    r is Err && t.len() == s.len() && exists|k: int, j: int| #[trigger] cut2(evs, k, s, j)
        && walked(s.take(j), path, evs.take(k), t.take(j)) && walked1(s[j], path, evs.skip(k), t[j], r) && t.skip(j + 1) == s.skip(j + 1)
}
pub open spec fn cut2<E>(evs: Seq<Ev<E>>, k: int, s: Seq<Node>, j: int) -> bool { 0 <= k <= evs.len() && 0 <= j < s.len() }
pub open spec fn new_calls<T>(a: Seq<T>, b: Seq<T>) -> Seq<T> { b.skip(a.len() as int) }
pub open spec fn grown<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

pub proof fn lemma_walked_next<E>(s: Seq<Node>, path: Seq<Seq<char>>, a: Seq<Ev<E>>, b: Seq<Ev<E>>, c: Seq<Ev<E>>, t: Seq<Node>, n: Node, m: Node)
    requires grown(a, b), grown(b, c), walked(s, path, new_calls(a, b), t), walked1(n, path, new_calls(b, c), m, Ok(())),
    ensures grown(a, c), walked(s.push(n), path, new_calls(a, c), t.push(m)),
{
    let k = b.len() - a.len();
    let e = new_calls(a, c);
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert(e.take(k) =~= new_calls(a, b)) by { assert(c.take(b.len() as int).skip(a.len() as int) =~= e.take(k)); }
    assert(e.skip(k) =~= new_calls(b, c));
    assert(s.push(n).drop_last() =~= s);
    assert(t.push(m).drop_last() =~= t);
    assert(cut(e, k));
}
pub proof fn lemma_stopped<E>(s: Seq<Node>, path: Seq<Seq<char>>, a: Seq<Ev<E>>, b: Seq<Ev<E>>, c: Seq<Ev<E>>, t: Seq<Node>, j: int, r: Result<(), E>)
    requires grown(a, b), grown(b, c), 0 <= j < s.len() == t.len(), walked(s.take(j), path, new_calls(a, b), t.take(j)), walked1(s[j], path, new_calls(b, c), t[j], r), r is Err, t.skip(j + 1) == s.skip(j + 1),
    ensures grown(a, c), stopped(s, path, new_calls(a, c), t, r),
{
    let k = b.len() - a.len();
    let e = new_calls(a, c);
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert(e.take(k) =~= new_calls(a, b)) by { assert(c.take(b.len() as int).skip(a.len() as int) =~= e.take(k)); }
    assert(e.skip(k) =~= new_calls(b, c));
    assert(cut2(e, k, s, j));
}
/// a call for the node, then the calls below it
pub proof fn lemma_walked1<E>(n: Node, path: Seq<Seq<char>>, a: Seq<Ev<E>>, e: Ev<E>, c: Seq<Ev<E>>, m: Node, r: Result<(), E>)
    requires
        e.path == path.push(nname(n)), e.node == n, grown(a.push(e), c),
        e.res is Err ==> c == a.push(e) && r == e.res && m == e.after,
        e.res is Ok && e.after is File ==> c == a.push(e) && r is Ok && m == e.after,
        e.res is Ok && e.after is Dir ==> m is Dir && nname(m) == nname(e.after)
            && (r is Ok ==> walked(kids(e.after), path.push(nname(e.after)), new_calls(a.push(e), c), kids(m)))
            && (r is Err ==> stopped(kids(e.after), path.push(nname(e.after)), new_calls(a.push(e), c), kids(m), r)),
    ensures grown(a, c), walked1(n, path, new_calls(a, c), m, r),
{
    let evs = new_calls(a, c);
    let b = a.push(e);
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert(b.take(a.len() as int) =~= a);
    assert(evs[0] == c[a.len() as int]);
    assert(c[a.len() as int] == c.take(b.len() as int)[a.len() as int]);
    assert(evs[0] == e);
    assert(evs.drop_first() =~= new_calls(b, c));
}
pub proof fn lemma_texts_push(v: Seq<String>, x: String)
    ensures texts(v.push(x)) == texts(v).push(x@),
{
    assert(texts(v.push(x)) =~= texts(v).push(x@));
}

//@ fn fst.rs Fst::callback_all_files_rec_mut callfn:f tryid idxmut
//@ bound F VpVisitorMut<E>
//@ attr
#[verifier::loop_isolation(false)]
#[verifier::exec_allows_no_decreases_clause]
//@ spec
    ensures
        grown((*old(f)).log(), (*final(f)).log()),
        r is Ok ==> walked(nvs(old(nodes)@), texts(old(vec)@), new_calls((*old(f)).log(), (*final(f)).log()), nvs(final(nodes)@)),
        r is Err ==> stopped(nvs(old(nodes)@), texts(old(vec)@), new_calls((*old(f)).log(), (*final(f)).log()), nvs(final(nodes)@), r),
        r is Ok ==> final(vec)@ == old(vec)@,
//@ loop 0
    invariant
        vec@ == v0, 0 <= vp_k <= v.len(), nodes@.len() == v.len(),
        forall|i: int| vp_k <= i < v.len() ==> #[trigger] nodes@[i] == v[i],
        grown(l0, (*f).log()),
        walked(nvs(v).take(vp_k as int), path, new_calls(l0, (*f).log()), nvs(nodes@).take(vp_k as int)),
    decreases v.len() - vp_k,
//@ at start
    let ghost v0 = vec@;
    let ghost v = nodes@;
    let ghost fin = final(nodes)@;
    let ghost path = texts(vec@);
    let ghost l0 = (*f).log();
    proof {
        lemma_nvs(v);
        assert(l0.take(l0.len() as int) =~= l0);
        assert(nvs(v).take(0) =~= Seq::<Node>::empty());
        assert(new_calls(l0, l0) =~= Seq::<Ev<E>>::empty());
    }
//@ at loop 0 start
    let ghost k = vp_k as int;
    let ghost l1 = (*f).log();
    let ghost w = nodes@;
    let ghost n = nv(w[k]);
    proof { lemma_nvs(w); }
    proof {
        assert forall|c: Seq<Ev<E>>, m: FstNode, r: Result<(), E>| #[trigger] walked1(n, path, new_calls(l1, c), nv(m), r) && grown(l1, c) && r is Err
            implies grown(l0, c) && stopped(nvs(v), path, new_calls(l0, c), nvs(w.update(k, m)), r) by {
            lemma_nvs_update(w, k, m);
            assert(nvs(w.update(k, m)).take(k) =~= nvs(w).take(k));
            assert(nvs(w.update(k, m)).skip(k + 1) =~= nvs(v).skip(k + 1));
            lemma_stopped(nvs(v), path, l0, l1, c, nvs(w.update(k, m)), k, r);
        }
        assert forall|c: Seq<Ev<E>>, m: FstNode, r: Result<(), E>| #[trigger] walked1(n, path, new_calls(l1, c), nv(m), r) && grown(l1, c) && r is Ok
            implies grown(l0, c) && walked(nvs(v).take(k + 1), path, new_calls(l0, c), nvs(w.update(k, m)).take(k + 1)) by {
            lemma_nvs_update(w, k, m);
            assert(nvs(v).take(k + 1) =~= nvs(v).take(k).push(n));
            assert(nvs(w.update(k, m)).take(k + 1) =~= nvs(w).take(k).push(nv(m)));
            lemma_walked_next(nvs(v).take(k), path, l0, l1, c, nvs(w).take(k), n, nv(m));
        }
        assert forall|x: Node, r: Result<(), E>| grown(l1, #[trigger] l1.push(Ev { path: path.push(nname(n)), node: n, after: x, res: r }))
                && (r is Err || x is File ==> walked1(n, path, new_calls(l1, l1.push(Ev { path: path.push(nname(n)), node: n, after: x, res: r })), x, r)) by {
            let e = Ev { path: path.push(nname(n)), node: n, after: x, res: r };
            assert(l1.push(e).take(l1.push(e).len() as int) =~= l1.push(e));
            assert(l1.push(e).take(l1.len() as int) =~= l1);
            if r is Err || x is File { lemma_walked1(n, path, l1, e, l1.push(e), x, r); }
        }
    }
//@ at after let node=
    let ghost fnode = *final(node);
//@ at after vec.push(
    proof { lemma_texts_push(v0, vec@.last()); }
//@ at after if let Some(saved_name)
    let ghost after = nv(*node);
    let ghost an = *node;
    let ghost l2 = (*f).log();
    let ghost e = l2.last();
    proof {
        assert(vec@ =~= v0.push(vec@.last()));
        lemma_texts_push(v0, vec@.last());
        assert(texts(vec@) == path.push(nname(after)));
        assert(l2 =~= l1.push(e));
        assert(an is Directory ==> kids(after) == nvs(dir_files(an)));
        assert forall|c: Seq<Ev<E>>, km: Seq<Node>, r: Result<(), E>|
            after is Dir && r is Err && grown(l2, c) && #[trigger] stopped(kids(after), path.push(nname(after)), new_calls(l2, c), km, r)
            implies grown(l1, c) && walked1(n, path, new_calls(l1, c), Node::Dir { name: nname(after), files: km }, r) by {
            lemma_walked1(n, path, l1, e, c, Node::Dir { name: nname(after), files: km }, r);
        }
        assert forall|c: Seq<Ev<E>>, km: Seq<Node>|
            after is Dir && grown(l2, c) && #[trigger] walked(kids(after), path.push(nname(after)), new_calls(l2, c), km)
            implies grown(l1, c) && walked1(n, path, new_calls(l1, c), Node::Dir { name: nname(after), files: km }, Ok::<(), E>(())) by {
            lemma_walked1(n, path, l1, e, c, Node::Dir { name: nname(after), files: km }, Ok::<(), E>(()));
        }
    }
//@ at loop 0 end
    proof {
        assert(vec@ =~= v0);
        assert(nodes@ =~= w.update(k, fnode));
        assert(walked1(n, path, new_calls(l1, (*f).log()), nv(fnode), Ok::<(), E>(())));
    }
//@ at loop 0 after
    proof {
        lemma_nvs(nodes@);
        assert(nvs(v).take(v.len() as int) =~= nvs(v));
        assert(nvs(nodes@).take(v.len() as int) =~= nvs(nodes@));
    }
//@ end

//@ fn fst.rs Fst::callback_all_files_mut
//@ bound F VpVisitorMut<E>
//@ spec
    ensures
        grown((*old(f)).log(), (*final(f)).log()),
        r is Ok ==> walked(nvs(old(self).entries@), Seq::empty(), new_calls((*old(f)).log(), (*final(f)).log()), nvs(final(self).entries@)),
        r is Err ==> stopped(nvs(old(self).entries@), Seq::empty(), new_calls((*old(f)).log(), (*final(f)).log()), nvs(final(self).entries@), r),
//@ at after let mut path=
    assert(texts(path@) =~= Seq::<Seq<char>>::empty());
//@ end

// ---- only files, their places may be changed -------------------------------------------------------
/// files with their paths
pub open spec fn files1(n: Node, path: Seq<Seq<char>>) -> Seq<(Seq<Seq<char>>, Node)>
    decreases n,
{
    match n { Node::File { .. } => seq![(path.push(nname(n)), n)], Node::Dir { name, files } => files_of(files, path.push(name)) }
}
pub open spec fn files_of(s: Seq<Node>, path: Seq<Seq<char>>) -> Seq<(Seq<Seq<char>>, Node)>
    decreases s,
{
    if s.len() == 0 { Seq::empty() } else { files_of(s.drop_last(), path) + files1(s.last(), path) }
}
/// the node with the calls' results filled in, file after file
pub open spec fn filled1<E>(n: Node, evs: Seq<Fv<E>>) -> Node
    decreases n,
{
    match n {
        Node::File { name, .. } => if evs.len() > 0 { Node::File { name, offset: evs[0].offset1, length: evs[0].length1 } } else { n },
        Node::Dir { name, files } => Node::Dir { name, files: filled(files, evs) },
    }
}
pub open spec fn filled<E>(s: Seq<Node>, evs: Seq<Fv<E>>) -> Seq<Node>
    decreases s,
{
    if s.len() == 0 { s } else {
        let k = count(s.drop_last());
        filled(s.drop_last(), evs).push(filled1(s.last(), if k <= evs.len() { evs.skip(k) } else { Seq::empty() }))
    }
}
pub open spec fn count1(n: Node) -> int
    decreases n,
{
    match n { Node::File { .. } => 1, Node::Dir { files, .. } => count(files) }
}
pub open spec fn count(s: Seq<Node>) -> int
    decreases s,
{
    if s.len() == 0 { 0 } else { count(s.drop_last()) + count1(s.last()) }
}

//@ fn fst.rs FstToBytes::get_total_file_count_rec
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires total(nvs(nodes@)) <= usize::MAX,
    ensures r == count(nvs(nodes@)),
    decreases nodes,
//@ loop 0 iter it
    invariant
        vp_acc == count(nvs(nodes@).take(it.index@ as int)),
        vp_acc <= total(nvs(nodes@).take(it.index@ as int)),
//@ at start
    proof {
        lemma_nvs(nodes@);
        assert(nvs(nodes@).take(0) =~= Seq::<Node>::empty());
    }
//@ at loop 0 start
    proof {
        let k = it.index@ as int;
        let s = nvs(nodes@);
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        lemma_total_take(s, k);
        lemma_count1(s[k]);
    }
//@ at loop 0 after
    proof { assert(nvs(nodes@).take(nodes@.len() as int) =~= nvs(nodes@)); }
//@ end
pub proof fn lemma_count1(n: Node)
    ensures 0 <= count1(n) <= size(n), n is Dir ==> total(kids(n)) < size(n),
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_count(files); }
}
pub proof fn lemma_count(s: Seq<Node>)
    ensures 0 <= count(s) <= total(s),
    decreases s,
{
    if s.len() > 0 { lemma_count(s.drop_last()); lemma_count1(s.last()); }
}
//@ fn fst.rs FstToBytes::get_total_file_count
//@ spec
    requires total(nvs(self.fst.entries@)) <= usize::MAX,
    ensures r == count(nvs(self.fst.entries@)),
//@ end

pub open spec fn called<E>(e: Fv<E>, f: (Seq<Seq<char>>, Node)) -> bool {
    e.path == f.0 && f.1 is File && e.offset == f.1->File_offset && e.length == f.1->File_length
}
/// the calls made for the files of `fs`, one after the other, up to the first error
#[verifier::opaque]
pub open spec fn called_all<E>(evs: Seq<Fv<E>>, fs: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>) -> bool {
    &&& evs.len() <= fs.len()
    &&& forall|i: int| 0 <= i < evs.len() ==> called(#[trigger] evs[i], fs[i])
    &&& forall|i: int| 0 <= i < evs.len() - 1 ==> (#[trigger] evs[i]).res is Ok
    &&& match r { Ok(_) => evs.len() == fs.len() && (evs.len() > 0 ==> evs.last().res is Ok), Err(_) => evs.len() > 0 && evs.last().res == r }
}
pub proof fn lemma_called_then<E>(a: Seq<Fv<E>>, b: Seq<Fv<E>>, f1: Seq<(Seq<Seq<char>>, Node)>, f2: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>)
    requires called_all(a, f1, Ok(())), called_all(b, f2, r),
    ensures called_all(a + b, f1 + f2, r),
{
    reveal(called_all);
    assert forall|i: int| 0 <= i < (a + b).len() implies called(#[trigger] (a + b)[i], (f1 + f2)[i]) && (i < (a + b).len() - 1 ==> (a + b)[i].res is Ok) by {
        if i < a.len() { assert((a + b)[i] == a[i]); assert(i == a.len() - 1 ==> a.last() == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); }
    }
    if b.len() > 0 { assert((a + b).last() == b.last()); } else { assert(a + b =~= a); }
}
pub proof fn lemma_called_more<E>(a: Seq<Fv<E>>, f1: Seq<(Seq<Seq<char>>, Node)>, f2: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>)
    requires called_all(a, f1, r), r is Err,
    ensures called_all(a, f1 + f2, r),
{
    reveal(called_all);
}
pub proof fn lemma_called_one<E>(e: Fv<E>, f: (Seq<Seq<char>>, Node))
    requires called(e, f),
    ensures called_all(seq![e], seq![f], e.res), called_all(Seq::<Fv<E>>::empty(), Seq::empty(), Ok(())),
{
    reveal(called_all);
}
pub proof fn lemma_called_len<E>(evs: Seq<Fv<E>>, fs: Seq<(Seq<Seq<char>>, Node)>, r: Result<(), E>)
    requires called_all(evs, fs, r),
    ensures evs.len() <= fs.len(), r is Ok ==> evs.len() == fs.len(),
{
    reveal(called_all);
}
pub proof fn lemma_files1_len(n: Node, path: Seq<Seq<char>>)
    ensures files1(n, path).len() == count1(n),
    decreases n,
{
    if let Node::Dir { name, files } = n { lemma_files_len(files, path.push(name)); }
}
pub proof fn lemma_files_len(s: Seq<Node>, path: Seq<Seq<char>>)
    ensures files_of(s, path).len() == count(s),
    decreases s,
{
    if s.len() > 0 { lemma_files_len(s.drop_last(), path); lemma_files1_len(s.last(), path); }
}
pub proof fn lemma_files_take(s: Seq<Node>, path: Seq<Seq<char>>, k: int)
    requires 0 <= k < s.len(),
    ensures
        files_of(s.take(k + 1), path) == files_of(s.take(k), path) + files1(s[k], path),
        exists|t: Seq<(Seq<Seq<char>>, Node)>| files_of(s, path) == #[trigger] (files_of(s.take(k + 1), path) + t),
    decreases s.len() - k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    if k + 1 < s.len() {
        lemma_files_take(s, path, k + 1);
        let t = choose|t: Seq<(Seq<Seq<char>>, Node)>| files_of(s, path) == #[trigger] (files_of(s.take(k + 2), path) + t);
        let t1 = files1(s[k + 1], path) + t;
        assert(files_of(s, path) =~= files_of(s.take(k + 1), path) + t1);
    } else {
        assert(s.take(k + 1) =~= s);
        assert(files_of(s, path) =~= files_of(s.take(k + 1), path) + Seq::empty());
    }
}
pub proof fn lemma_filled1_nothing<E>(n: Node)
    ensures filled1(n, Seq::<Fv<E>>::empty()) == n,
    decreases n,
{
    if let Node::Dir { name, files } = n { lemma_filled_nothing::<E>(files); }
}
pub proof fn lemma_filled_nothing<E>(s: Seq<Node>)
    ensures filled(s, Seq::<Fv<E>>::empty()) == s,
    decreases s,
{
    if s.len() > 0 {
        lemma_filled_nothing::<E>(s.drop_last());
        lemma_filled1_nothing::<E>(s.last());
        let k = count(s.drop_last());
        lemma_count(s.drop_last());
        assert(k == 0 ==> Seq::<Fv<E>>::empty().skip(k) =~= Seq::empty());
        assert(s.drop_last().push(s.last()) =~= s);
    }
}
pub proof fn lemma_filled1_enough<E>(n: Node, a: Seq<Fv<E>>, b: Seq<Fv<E>>)
    requires a.len() >= count1(n),
    ensures filled1(n, a + b) == filled1(n, a),
    decreases n,
{
    match n { Node::Dir { name, files } => lemma_filled_enough(files, a, b), Node::File { .. } => assert((a + b)[0] == a[0]) }
}
pub proof fn lemma_filled_enough<E>(s: Seq<Node>, a: Seq<Fv<E>>, b: Seq<Fv<E>>)
    requires a.len() >= count(s),
    ensures filled(s, a + b) == filled(s, a),
    decreases s,
{
    if s.len() > 0 {
        let k = count(s.drop_last());
        lemma_count1(s.last());
        lemma_count(s.drop_last());
        lemma_filled_enough(s.drop_last(), a, b);
        lemma_filled1_enough(s.last(), a.skip(k), b);
        assert((a + b).skip(k) =~= a.skip(k) + b);
    }
}
/// calls for the first `k` nodes and then for the next one, whether all of them were made or not
pub proof fn lemma_filled_at<E>(s: Seq<Node>, a: Seq<Fv<E>>, b: Seq<Fv<E>>, k: int)
    requires 0 <= k < s.len(), a.len() == count(s.take(k)), b.len() <= count1(s[k]),
    ensures
        filled(s.take(k + 1), a + b) == filled(s.take(k), a).push(filled1(s[k], b)),
        b.len() == count1(s[k]) ==> count(s.take(k + 1)) == (a + b).len(),
        filled(s, a + b) == filled(s.take(k), a).push(filled1(s[k], b)) + s.skip(k + 1),
        filled(s.take(k), a).len() == k,
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    assert(s.take(k + 1).last() == s[k]);
    lemma_filled_enough(s.take(k), a, b);
    assert((a + b).skip(a.len() as int) =~= b);
    lemma_filled_rest(s, a + b, k + 1);
    lemma_filled_len(s.take(k), a);
}
pub proof fn lemma_filled_len<E>(s: Seq<Node>, a: Seq<Fv<E>>)
    ensures filled(s, a).len() == s.len(),
    decreases s,
{
    if s.len() > 0 { lemma_filled_len(s.drop_last(), a); }
}
pub proof fn lemma_filled_rest<E>(s: Seq<Node>, a: Seq<Fv<E>>, k: int)
    requires 0 <= k <= s.len(), a.len() <= count(s.take(k)),
    ensures filled(s, a) == filled(s.take(k), a) + s.skip(k),
    decreases s.len() - k,
{
    if k < s.len() {
        assert(s.take(k + 1).drop_last() =~= s.take(k));
        assert(s.take(k + 1).last() == s[k]);
        lemma_count1(s[k]);
        lemma_filled_rest(s, a, k + 1);
        let c = count(s.take(k));
        assert(c <= a.len() ==> a.skip(c) =~= Seq::empty());
        lemma_filled1_nothing::<E>(s[k]);
        assert(filled(s.take(k + 1), a) == filled(s.take(k), a).push(s[k]));
        assert(filled(s.take(k), a).push(s[k]) + s.skip(k + 1) =~= filled(s.take(k), a) + s.skip(k));
    } else {
        assert(s.take(k) =~= s);
        assert(filled(s, a) + s.skip(k) =~= filled(s, a));
    }
}
pub proof fn lemma_grown<T>(a: Seq<T>, b: Seq<T>, c: Seq<T>)
    requires grown(a, b), grown(b, c),
    ensures grown(a, c), new_calls(a, c) == new_calls(a, b) + new_calls(b, c),
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    assert(new_calls(a, c) =~= new_calls(a, b) + new_calls(b, c)) by {
        assert forall|i: int| 0 <= i < b.len() - a.len() implies #[trigger] c[a.len() + i] == b[a.len() + i] by { assert(c.take(b.len() as int)[a.len() + i] == c[a.len() + i]); }
    }
}

//@ fn fst.rs FstToBytes::callback_all_files_rec_mut callfn:f tryid idxmut
//@ bound F VpFileVisitor<E>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires (*old(f)).inv(),
    ensures
        (*final(f)).refs() == (*old(f)).refs(), r is Ok ==> (*final(f)).inv(),
        grown((*old(f)).log(), (*final(f)).log()),
        called_all(new_calls((*old(f)).log(), (*final(f)).log()), files_of(nvs(old(nodes)@), texts(old(path)@)), r),
        nvs(final(nodes)@) == filled(nvs(old(nodes)@), new_calls((*old(f)).log(), (*final(f)).log())),
        r is Ok ==> final(path)@ == old(path)@,
    decreases total(nvs(old(nodes)@)),
//@ loop 0
    invariant
        (*f).inv(), (*f).refs() == (*old(f)).refs(),
        path@ == v0, 0 <= vp_k <= v.len(), nodes@.len() == v.len(),
        forall|i: int| vp_k <= i < v.len() ==> #[trigger] nodes@[i] == v[i],
        grown(l0, (*f).log()),
        called_all(new_calls(l0, (*f).log()), files_of(s.take(vp_k as int), p), Ok(())),
        nvs(nodes@).take(vp_k as int) == filled(s.take(vp_k as int), new_calls(l0, (*f).log())),
    decreases v.len() - vp_k,
//@ at start
    let ghost v0 = path@;
    let ghost v = nodes@;
    let ghost s = nvs(v);
    let ghost p = texts(path@);
    let ghost l0 = (*f).log();
    proof {
        lemma_nvs(v);
        reveal(called_all);
        assert(l0.take(l0.len() as int) =~= l0);
        assert(s.take(0) =~= Seq::<Node>::empty());
        assert(new_calls(l0, l0) =~= Seq::<Fv<E>>::empty());
    }
//@ at loop 0 start
    let ghost k = vp_k as int;
    let ghost l1 = (*f).log();
    let ghost w = nodes@;
    let ghost n = nv(w[k]);
    let ghost nm = nname(n);
//@ at after let node=
    let ghost fnode = *final(node);
    proof {
        lemma_nvs(w);
        lemma_total_take(s, k);
        lemma_count1(n);
        lemma_total(kids(n));
        lemma_files_take(s, p, k);
        lemma_files_len(s.take(k), p);
        lemma_files1_len(n, p);
        lemma_called_len(new_calls(l0, l1), files_of(s.take(k), p), Ok(()));
        lemma_nvs_update(w, k, fnode);
        if n is Dir { assert(files1(n, p) == files_of(nvs(dir_files(w[k])), p.push(nm))); }
        let rest = choose|t: Seq<(Seq<Seq<char>>, Node)>| files_of(s, p) == #[trigger] (files_of(s.take(k + 1), p) + t);
        assert forall|e: Fv<E>| #![trigger l1.push(e)] grown(l1, l1.push(e)) && new_calls(l1, l1.push(e)) == seq![e]
            && (n is File && called(e, (p.push(nm), n)) ==> called_all(new_calls(l1, l1.push(e)), files1(n, p), e.res)) by {
            assert(l1.push(e).take(l1.len() as int) =~= l1);
            assert(new_calls(l1, l1.push(e)) =~= seq![e]);
            if n is File && called(e, (p.push(nm), n)) { lemma_called_one(e, (p.push(nm), n)); }
        }
        assert forall|c: Seq<Fv<E>>, r: Result<(), E>| #[trigger] called_all(new_calls(l1, c), files1(n, p), r) && grown(l1, c) && nv(fnode) == filled1(n, new_calls(l1, c)) implies
            grown(l0, c)
            && (r is Err ==> called_all(new_calls(l0, c), files_of(s, p), r) && nvs(w.update(k, fnode)) == filled(s, new_calls(l0, c)))
            && (r is Ok ==> called_all(new_calls(l0, c), files_of(s.take(k + 1), p), r) && nvs(w.update(k, fnode)).take(k + 1) == filled(s.take(k + 1), new_calls(l0, c))) by {
            lemma_grown(l0, l1, c);
            let (x, y) = (new_calls(l0, l1), new_calls(l1, c));
            lemma_called_len(y, files1(n, p), r);
            lemma_called_then(x, y, files_of(s.take(k), p), files1(n, p), r);
            if r is Err { lemma_called_more(x + y, files_of(s.take(k + 1), p), rest, r); }
            lemma_filled_at(s, x, y, k);
            assert(nvs(w.update(k, fnode)).take(k + 1) =~= nvs(w).take(k).push(nv(fnode)));
            assert(nvs(w.update(k, fnode)) =~= nvs(w).take(k).push(nv(fnode)) + s.skip(k + 1));
        }
    }
//@ at after path.push(
    proof { lemma_texts_push(v0, path@.last()); }
//@ at loop 0 end
    proof {
        assert(path@ =~= v0);
        assert(nodes@ =~= w.update(k, fnode));
    }
//@ at loop 0 after
    proof {
        lemma_nvs(nodes@);
        assert(s.take(v.len() as int) =~= s);
        assert(nvs(nodes@).take(v.len() as int) =~= nvs(nodes@));
    }
//@ end
//@ fn fst.rs FstToBytes::callback_all_files_mut
//@ bound F VpFileVisitor<E>
//@ spec
    requires (*old(f)).inv(),
    ensures
        (*final(f)).refs() == (*old(f)).refs(), r is Ok ==> (*final(f)).inv(),
        grown((*old(f)).log(), (*final(f)).log()),
        called_all(new_calls((*old(f)).log(), (*final(f)).log()), files_of(nvs(old(self).fst.entries@), Seq::empty()), r),
        nvs(final(self).fst.entries@) == filled(nvs(old(self).fst.entries@), new_calls((*old(f)).log(), (*final(f)).log())),
        final(self).str_offsets == old(self).str_offsets, final(self).str_bytes == old(self).str_bytes,
//@ at after let mut path=
    assert(texts(path@) =~= Seq::<Seq<char>>::empty());
//@ end

/// C07: the file count is the number of calls
pub proof fn theorem_count<E>(s: Seq<Node>, path: Seq<Seq<char>>, evs: Seq<Fv<E>>)
    requires called_all(evs, files_of(s, path), Ok(())),
    ensures evs.len() == count(s),
{
    lemma_called_len(evs, files_of(s, path), Ok(()));
    lemma_files_len(s, path);
}
pub open spec fn still<E>(evs: Seq<Ev<E>>) -> bool { forall|i: int| 0 <= i < evs.len() ==> (#[trigger] evs[i]).after == evs[i].node }
pub open spec fn seen<E>(evs: Seq<Ev<E>>) -> Seq<(Seq<Seq<char>>, Node)> { Seq::new(evs.len(), |i: int| (evs[i].path, evs[i].node)) }
/// C07: a mutable visitor that changes nothing sees what the other one sees, and nothing changes
pub proof fn theorem_walked_still<E>(s: Seq<Node>, path: Seq<Seq<char>>, evs: Seq<Ev<E>>, t: Seq<Node>)
    requires walked(s, path, evs, t), still(evs),
    ensures t == s, seen(evs) == visits(s, path),
    decreases evs.len(), 1 + s.len(),
{
    if s.len() > 0 {
        let k = choose|k: int| #[trigger] cut(evs, k) && walked(s.drop_last(), path, evs.take(k), t.drop_last()) && walked1(s.last(), path, evs.skip(k), t.last(), Ok::<(), E>(()));
        assert(still(evs.take(k)) && still(evs.skip(k)));
        theorem_walked_still(s.drop_last(), path, evs.take(k), t.drop_last());
        theorem_walked1_still(s.last(), path, evs.skip(k), t.last());
        assert(t =~= t.drop_last().push(t.last()));
        assert(s =~= s.drop_last().push(s.last()));
        assert(seen(evs) =~= seen(evs.take(k)) + seen(evs.skip(k)));
    } else {
        assert(t =~= s);
        assert(seen(evs) =~= visits(s, path));
    }
}
pub proof fn theorem_walked1_still<E>(n: Node, path: Seq<Seq<char>>, evs: Seq<Ev<E>>, m: Node)
    requires walked1(n, path, evs, m, Ok::<(), E>(())), still(evs),
    ensures m == n, seen(evs) == visits1(n, path),
    decreases evs.len(), 0int,
{
    assert(evs[0].after == evs[0].node);
    if let Node::Dir { name, files } = n {
        assert(still(evs.drop_first()));
        theorem_walked_still(files, path.push(name), evs.drop_first(), kids(m));
        assert(seen(evs) =~= seq![(path.push(name), n)] + seen(evs.drop_first()));
    } else {
        assert(seen(evs) =~= visits1(n, path));
    }
}
} // verus!
