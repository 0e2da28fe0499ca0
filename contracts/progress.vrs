verus! {
// ---- f64: IEEE 754 arithmetic as the exact result rounded ------------------------------------------------
/// the nearest f64
pub uninterp spec fn rnd(x: real) -> real;
pub axiom fn axiom_rnd_mono(x: real, y: real)
    requires x <= y,
    ensures rnd(x) <= rnd(y);
pub axiom fn axiom_rnd_int(n: int)
    requires 0 <= n <= 0x20_0000_0000_0000,
    ensures rnd(n as real) == n as real;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VpF64 { x: f64 }
impl VpF64 { pub uninterp spec fn v(self) -> real; }
pub trait VpNum: Sized { spec fn num(self) -> int; }
impl VpNum for usize { open spec fn num(self) -> int { self as int } }
impl VpNum for u64 { open spec fn num(self) -> int { self as int } }
impl VpNum for u32 { open spec fn num(self) -> int { self as int } }
impl VpNum for i32 { open spec fn num(self) -> int { self as int } }
#[verifier::external_body]
pub fn vp_f64<T: VpNum>(x: T) -> (r: VpF64) ensures r.v() == rnd(x.num() as real) { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_lit(n: u32) -> (r: VpF64) ensures r.v() == n as real { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_div(a: VpF64, b: VpF64) -> (r: VpF64) ensures b.v() != 0real ==> r.v() == rnd(a.v() / b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_mul(a: VpF64, b: VpF64) -> (r: VpF64) ensures r.v() == rnd(a.v() * b.v()) { unimplemented!() }
#[verifier::external_body]
pub fn vp_f64_floor(a: VpF64) -> (r: VpF64) ensures r.v() == a.v().floor() as real { unimplemented!() }
pub open spec fn to_u8(x: real) -> int { if x < 0real { 0 } else if x >= 255real { 255 } else { x.floor() } }
#[verifier::external_body]
pub fn vp_f64_u8(a: VpF64) -> (r: u8) ensures r == to_u8(a.v()) { unimplemented!() }

// ---- percentages -----------------------------------------------------------------------------------------
pub open spec fn pct(a: int, b: int) -> int { to_u8(rnd(rnd(rnd(a as real) / rnd(b as real)) * 100real)) }
pub proof fn lemma_rnd_pos(b: int)
    requires b > 0,
    ensures rnd(b as real) >= 1real,
{
    axiom_rnd_int(1);
    axiom_rnd_mono(1real, b as real);
}
pub proof fn lemma_pct(a: int, c: int, b: int)
    requires 0 <= a <= c <= b, b > 0,
    ensures 0 <= pct(a, b) <= pct(c, b) <= 100, pct(b, b) == 100,
{
    let ra = rnd(a as real);
    let rc = rnd(c as real);
    let rb = rnd(b as real);
    axiom_rnd_int(0);
    axiom_rnd_int(1);
    axiom_rnd_int(100);
    lemma_rnd_pos(b);
    axiom_rnd_mono(a as real, c as real);
    axiom_rnd_mono(c as real, b as real);
    axiom_rnd_mono(0real, a as real);
    assert(0real <= ra / rb <= rc / rb <= 1real && rb / rb == 1real) by (nonlinear_arith) requires 0real <= ra <= rc <= rb, rb >= 1real;
    axiom_rnd_mono(ra / rb, rc / rb);
    axiom_rnd_mono(rc / rb, 1real);
    axiom_rnd_mono(0real, ra / rb);
    let qa = rnd(ra / rb);
    let qc = rnd(rc / rb);
    axiom_rnd_mono(qa * 100real, qc * 100real);
    axiom_rnd_mono(qc * 100real, 100real);
    axiom_rnd_mono(0real, qa * 100real);
}

// ---- reports -------------------------------------------------------------------------------------------
/// the progress callback, with a record of its calls
pub trait VpReport: Sized {
    spec fn said(&self) -> Seq<u8>;
    fn vp_call(&mut self, x: u8)
        ensures (*final(self)).said() == (*old(self)).said().push(x);
}
/// C17: from 0 up, never down, never above 100
pub open spec fn climbs(s: Seq<u8>) -> bool {
    s.len() > 0 && s[0] == 0 && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= 100)
    && (forall|i: int, j: int| 0 <= i <= j < s.len() ==> (#[trigger] s[i]) <= (#[trigger] s[j]))
}
/// `said` is `before` and then the percentages of `ks` in `total`, which never go down
pub open spec fn reports(before: Seq<u8>, said: Seq<u8>, ks: Seq<int>, total: int) -> bool {
    &&& said.len() == before.len() + ks.len()
    &&& forall|i: int| 0 <= i < before.len() ==> #[trigger] said[i] == before[i]
    &&& forall|i: int| 0 <= i < ks.len() ==> total > 0 && 0 <= (#[trigger] ks[i]) && said[before.len() + i] == pct(ks[i], total)
    &&& forall|i: int, j: int| 0 <= i <= j < ks.len() ==> (#[trigger] ks[i]) <= (#[trigger] ks[j])
}
pub proof fn lemma_report(before: Seq<u8>, said: Seq<u8>, ks: Seq<int>, total: int, k: int, v: u8)
    requires reports(before, said, ks, total), total > 0, k >= 0, v == pct(k, total), forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] <= k,
    ensures reports(before, said.push(v), ks.push(k), total),
{
    assert forall|i: int| 0 <= i < ks.push(k).len() implies total > 0 && 0 <= (#[trigger] ks.push(k)[i]) && said.push(v)[before.len() + i] == pct(ks.push(k)[i], total) by {
        if i < ks.len() { assert(ks.push(k)[i] == ks[i]); assert(said.push(v)[before.len() + i] == said[before.len() + i]); }
    }
    assert forall|i: int| 0 <= i < before.len() implies #[trigger] said.push(v)[i] == before[i] by { assert(said[i] == before[i]); }
    assert forall|i: int, j: int| 0 <= i <= j < ks.push(k).len() implies (#[trigger] ks.push(k)[i]) <= (#[trigger] ks.push(k)[j]) by {
        if j < ks.len() { assert(ks[i] <= ks[j]); } else if i < ks.len() { assert(ks[i] <= k); }
    }
}
pub open spec fn fresh_said(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { b.skip(a.len() as int) }
pub proof fn lemma_climbs(a: Seq<u8>, before: Seq<u8>, said: Seq<u8>, ks: Seq<int>, total: int)
    requires before == a.push(0u8), reports(before, said, ks, total), ks.len() > 0 ==> ks.last() <= total,
    ensures climbs(fresh_said(a, said)), ks.len() > 0 && ks.last() == total ==> fresh_said(a, said).last() == 100,
{
    let f = fresh_said(a, said);
    assert(f[0] == said[a.len() as int]);
    assert(before[a.len() as int] == 0u8);
    assert(said[a.len() as int] == before[a.len() as int]);
    assert forall|i: int| 1 <= i < f.len() implies f[i] == pct(#[trigger] ks[i - 1], total) && 0 <= ks[i - 1] <= total && total > 0 by {
        assert(f[i] == said[before.len() + (i - 1)]);
        assert(ks[i - 1] <= ks[ks.len() - 1]);
    }
    assert forall|i: int| 0 <= i < f.len() implies #[trigger] f[i] <= 100 by {
        if i > 0 { assert(0 <= ks[i - 1]); lemma_pct(ks[i - 1], ks[i - 1], total); }
    }
    assert forall|i: int, j: int| 0 <= i <= j < f.len() implies (#[trigger] f[i]) <= (#[trigger] f[j]) by {
        if i > 0 { assert(ks[i - 1] <= ks[j - 1]); lemma_pct(ks[i - 1], ks[j - 1], total); }
    }
    if ks.len() > 0 && ks.last() == total {
        assert(f.last() == f[f.len() - 1]);
        assert(ks[f.len() - 2] == ks.last());
        lemma_pct(total, total, total);
    }
}

// ---- the lengths in a table -------------------------------------------------------------------------------
pub open spec fn flen(n: Node) -> int { match n { Node::File { length, .. } => length as int, Node::Dir { .. } => 0 } }
pub open spec fn fone(n: Node) -> int { match n { Node::File { .. } => 1, Node::Dir { .. } => 0 } }
pub open spec fn bytes_in(v: Seq<(Seq<Seq<char>>, Node)>) -> int
    decreases v.len(),
{
    if v.len() == 0 { 0 } else { bytes_in(v.drop_last()) + flen(v.last().1) }
}
pub open spec fn files_in(v: Seq<(Seq<Seq<char>>, Node)>) -> int
    decreases v.len(),
{
    if v.len() == 0 { 0 } else { files_in(v.drop_last()) + fone(v.last().1) }
}
pub proof fn lemma_in_cat(a: Seq<(Seq<Seq<char>>, Node)>, b: Seq<(Seq<Seq<char>>, Node)>)
    ensures bytes_in(a + b) == bytes_in(a) + bytes_in(b), files_in(a + b) == files_in(a) + files_in(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
    } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lemma_in_cat(a, b.drop_last());
    }
}
pub proof fn lemma_in1(n: Node, path: Seq<Seq<char>>)
    ensures bytes_in(visits1(n, path)) == bytes_in(files1(n, path)), files_in(visits1(n, path)) == files_in(files1(n, path)),
    decreases n,
{
    let me = seq![(path.push(nname(n)), n)];
    assert(me.drop_last() =~= Seq::<(Seq<Seq<char>>, Node)>::empty());
    assert(bytes_in(me.drop_last()) == 0 && files_in(me.drop_last()) == 0);
    assert(bytes_in(me) == flen(n) && files_in(me) == fone(n));
    match n {
        Node::File { .. } => { assert(me + Seq::<(Seq<Seq<char>>, Node)>::empty() =~= me); }
        Node::Dir { name, files } => { lemma_in_cat(me, visits(files, path.push(name))); lemma_in(files, path.push(name)); }
    }
}
/// the traversals of all nodes and of the files meet the same files
pub proof fn lemma_in(s: Seq<Node>, path: Seq<Seq<char>>)
    ensures bytes_in(visits(s, path)) == bytes_in(files_of(s, path)), files_in(visits(s, path)) == files_in(files_of(s, path)),
    decreases s,
{
    if s.len() > 0 {
        lemma_in(s.drop_last(), path);
        lemma_in1(s.last(), path);
        lemma_in_cat(visits(s.drop_last(), path), visits1(s.last(), path));
        lemma_in_cat(files_of(s.drop_last(), path), files1(s.last(), path));
    }
}
/// what is announced for each file is what is given for it
pub open spec fn announced<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id) -> bool {
    forall|s: Seq<Node>, k: int, b: Seq<u8>, n: u32| #[trigger] P::gives_fst(id, s) && 0 <= k < files_of(s, Seq::empty()).len()
        && #[trigger] P::gives_file(id, files_of(s, Seq::empty())[k].0, b, n) ==> b.len() == flen(files_of(s, Seq::empty())[k].1)
}

// ---- counting --------------------------------------------------------------------------------------------
/// a machine does not hold a table of 2^31 nodes (each takes more than one byte)
#[verifier::external_body]
pub fn vp_few(n: Ghost<int>)
    ensures n@ < 0x7fff_ffff,
{ unimplemented!() }
#[derive(Debug)]
pub struct VpNever { x: u8 }
pub open spec fn evn<E>(l: Seq<Ev<E>>) -> Seq<(Seq<Seq<char>>, Node)> { Seq::new(l.len(), |i: int| (l[i].path, l[i].node)) }
pub struct VpCount<'a, 'b> { pub total_files: &'a mut i32, pub total_bytes: &'b mut usize, pub log: Ghost<Seq<Ev<VpNever>>> }
impl<'a, 'b> VpCount<'a, 'b> {
    pub open spec fn good(&self) -> bool {
        &&& *self.total_files == files_in(evn(self.log@)) && *self.total_bytes == bytes_in(evn(self.log@))
        &&& 0 <= *self.total_files <= self.log@.len() && *self.total_bytes <= self.log@.len() * 0xffff_ffff
        &&& forall|i: int| 0 <= i < self.log@.len() ==> (#[trigger] self.log@[i]).res is Ok
    }
    #[verifier::prophetic]
    pub open spec fn ends(&self) -> (i32, usize) { (*final(self.total_files), *final(self.total_bytes)) }
}
//@ fn builder.rs WiiDiscBuilder::add_partition@callback_all_files only:progress_cb:write_to+get_disc_header+get_bi2+get_apploader+get_dol try hoist float
//@ sig fn body(&mut self, _p: &Vec<&str>, node: &FstNode) -> Result<(), VpNever>
//@ implhdr impl<'a, 'b> VpCount<'a, 'b>
//@ captures *total_files *total_bytes
//@ spec
    requires 0 <= *old(self).total_files < 0x7fff_ffff, *old(self).total_bytes < 0x8000_0000_0000_0000,
    ensures
        r is Ok, final(self).log == old(self).log, final(self).ends() == old(self).ends(),
        *final(self).total_files == *old(self).total_files + fone(nv(*node)), *final(self).total_bytes == *old(self).total_bytes + flen(nv(*node)),
//@ end
impl<'a, 'b> VpVisitor<VpNever> for VpCount<'a, 'b> {
    open spec fn log(&self) -> Seq<Ev<VpNever>> { self.log@ }
    open spec fn inv(&self) -> bool { self.good() }
    type Refs = (i32, usize);
    #[verifier::prophetic]
    open spec fn refs(&self) -> (i32, usize) { self.ends() }
    open spec fn takes(&self, path: Seq<Seq<char>>, node: Node) -> bool { true }
    fn vp_call(&mut self, path: &Vec<&str>, node: &FstNode) -> (r: Result<(), VpNever>) {
        let ghost l0 = self.log@;
        vp_few(Ghost(self.log@.len() as int));
        let r = self.body(path, node);
        proof {
            let e = Ev { path: strs(path@), node: nv(*node), after: nv(*node), res: r };
            self.log@ = self.log@.push(e);
            assert(evn(self.log@).drop_last() =~= evn(l0));
            assert(evn(self.log@).last() == (e.path, e.node));
            assert(0 <= flen(e.node) <= 0xffff_ffff);
        }
        r
    }
}
pub fn vp_count<'a, 'b>(total_files: &'a mut i32, total_bytes: &'b mut usize) -> (r: VpCount<'a, 'b>)
    requires *old(total_files) == 0, *old(total_bytes) == 0,
    ensures r.good(), r.log@ == Seq::<Ev<VpNever>>::empty(), r.ends() == (*final(total_files), *final(total_bytes)),
{
    VpCount { total_files, total_bytes, log: Ghost(Seq::empty()) }
}
pub proof fn lemma_counted(log: Seq<Ev<VpNever>>, s: Seq<Node>, r: Result<(), VpNever>)
    requires ran(Seq::<Ev<VpNever>>::empty(), log, visits(s, Seq::empty()), r), forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).res is Ok,
    ensures r is Ok, bytes_in(evn(log)) == bytes_in(files_of(s, Seq::empty())), files_in(evn(log)) == files_in(files_of(s, Seq::empty())),
{
    reveal(ran);
    lemma_in(s, Seq::empty());
    let z = Seq::<Ev<VpNever>>::empty();
    if r is Err { assert(log[log.len() - 1].res is Ok); }
    assert forall|i: int| 0 <= i < log.len() implies #[trigger] evn(log)[i] == visits(s, Seq::empty())[i] by { assert(log[z.len() + i] == log[i]); }
    assert(evn(log) =~= visits(s, Seq::empty()));
}

// ---- reporting while the files are written ------------------------------------------------------------------
pub open spec fn sum(s: Seq<int>) -> int
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { sum(s.drop_last()) + s.last() }
}
/// the lengths given by the calls
pub open spec fn lens<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, log: Seq<Fv<PartitionAddError<E>>>, given: Seq<int>) -> bool {
    given.len() == log.len()
    && forall|k: int| 0 <= k < log.len() ==> given_len::<E, P>(id, (#[trigger] log[k]).path, given[k]) || given[k] == 0 && log[k].res is Err
}
pub open spec fn given_len<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, path: Seq<Seq<char>>, n: int) -> bool {
    exists|b: Seq<u8>, p: u32| #[trigger] P::gives_file(id, path, b, p) && b.len() == n
}
pub open spec fn below_4g<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id) -> bool {
    forall|path: Seq<Seq<char>>, b: Seq<u8>, p: u32| #[trigger] P::gives_file(id, path, b, p) ==> b.len() < 0x1_0000_0000
}
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(C)]
pub struct VpShow<'a, 'b, 'c, 'd, E: Error, P: WiiPartitionDefinition<E>, C: VpReport> {
    pub processed_files: &'a mut i32,
    pub processed_file_bytes: &'b mut usize,
    pub uses_file_byte_progress: bool,
    pub total_bytes: usize,
    pub total_files: i32,
    pub partition_def: &'c mut P,
    pub progress_cb: &'d mut C,
    pub log: Ghost<Seq<Fv<PartitionAddError<E>>>>,
    pub given: Ghost<Seq<int>>,
    pub ks: Ghost<Seq<int>>,
    pub before: Ghost<Seq<u8>>,
}
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(E)]
#[verifier::reject_recursive_types(C)]
pub ghost struct ShowRefs<E: Error, P: WiiPartitionDefinition<E>, C: VpReport> {
    pub f: i32, pub b: usize, pub d: P, pub c: C, pub id: P::Id, pub uses: bool, pub tb: usize, pub tf: i32, pub before: Seq<u8>, pub fine: bool, pub e: Option<E>,
}
impl<'a, 'b, 'c, 'd, E: Error, P: WiiPartitionDefinition<E>, C: VpReport> VpShow<'a, 'b, 'c, 'd, E, P, C> {
    pub open spec fn tot(&self) -> int { if self.uses_file_byte_progress { self.total_bytes as int } else { self.total_files as int } }
    pub open spec fn cur(&self) -> int { if self.uses_file_byte_progress { *self.processed_file_bytes as int } else { *self.processed_files as int } }
    /// the reports so far are percentages of a count that never goes down, none above `cap`
    pub open spec fn so_far(&self, ks: Seq<int>, cap: int) -> bool {
        &&& self.tot() > 0 ==> reports(self.before@, (*self.progress_cb).said(), ks, self.tot())
        &&& forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] <= cap
    }
    /// what holds after every call, failed or not
    pub open spec fn fine(&self) -> bool {
        &&& self.so_far(self.ks@, if self.uses_file_byte_progress { sum(self.given@) } else { self.log@.len() as int })
        &&& self.log@.len() == 0 ==> self.ks@.len() == 0 && (*self.progress_cb).said() == self.before@
        &&& lens::<E, P>(self.partition_def.id(), self.log@, self.given@)
    }
    pub open spec fn good(&self) -> bool {
        &&& self.fine() && below_4g::<E, P>(self.partition_def.id())
        &&& self.uses_file_byte_progress ==> self.total_bytes > 0
        &&& 0 <= *self.processed_files <= self.log@.len()
        &&& *self.processed_file_bytes <= self.log@.len() * 0xffff_ffff
        &&& self.uses_file_byte_progress ==> *self.processed_file_bytes == sum(self.given@)
        &&& self.so_far(self.ks@, self.cur())
        &&& self.uses_file_byte_progress && *self.processed_file_bytes > 0 ==> self.ks@.len() > 0 && self.ks@.last() == *self.processed_file_bytes
    }
    #[verifier::prophetic]
    pub open spec fn fixed(&self) -> ShowRefs<E, P, C> {
        ShowRefs { f: *final(self.processed_files), b: *final(self.processed_file_bytes), d: *final(self.partition_def), c: *final(self.progress_cb), id: self.partition_def.id(),
            uses: self.uses_file_byte_progress, tb: self.total_bytes, tf: self.total_files, before: self.before@, fine: true, e: None }
    }
    #[verifier::prophetic]
    pub open spec fn srefs(&self) -> ShowRefs<E, P, C> { ShowRefs { fine: self.fine(), ..self.fixed() } }
}
//@ fn builder.rs WiiDiscBuilder::add_partition@callback_all_files_mut only:progress_cb:write_to+get_disc_header+get_bi2+get_apploader+get_dol try hoist float
//@ sig fn body(&mut self, path: &Vec<String>, offset: &mut u64, size: &mut u32) -> Result<(), PartitionAddError<E>>
//@ implhdr impl<'a, 'b, 'c, 'd, E: Error, P: WiiPartitionDefinition<E>, C: VpReport> VpShow<'a, 'b, 'c, 'd, E, P, C>
//@ captures *processed_files *processed_file_bytes =uses_file_byte_progress =total_bytes =total_files partition_def progress_cb
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).good(), *old(self).processed_files < 0x7fff_ffff, *old(self).processed_file_bytes < 0x8000_0000_0000_0000,
    ensures
        final(self).fixed() == old(self).fixed(), final(self).log == old(self).log, final(self).given == old(self).given,
        0 <= *final(self).processed_files <= *old(self).processed_files + 1,
        (*final(self)).so_far(final(self).ks@, (*final(self)).cur()),
        *final(self).processed_file_bytes >= *old(self).processed_file_bytes,
        r is Err ==> *final(self).processed_file_bytes == *old(self).processed_file_bytes
            || exists|n: int| #[trigger] given_len::<E, P>(old(self).partition_def.id(), texts(path@), n) && *final(self).processed_file_bytes <= *old(self).processed_file_bytes + n,
        r is Ok ==> exists|n: int| #[trigger] given_len::<E, P>(old(self).partition_def.id(), texts(path@), n)
            && *final(self).processed_file_bytes == *old(self).processed_file_bytes + if old(self).uses_file_byte_progress { n } else { 0 },
        old(self).uses_file_byte_progress && *final(self).processed_file_bytes > 0 ==> final(self).ks@.len() > 0 && final(self).ks@.last() == *final(self).processed_file_bytes,
//@ at start
    let ghost b0 = *self.processed_file_bytes as int;
    proof { lemma_rnd_pos_all(self.tot()); }
//@ at loop 0 before
    let ghost pf0 = *self.processed_files;
//@ loop 0
    invariant
        self.fixed() == old(self).fixed(), self.log == old(self).log, self.given == old(self).given,
        *self.processed_files == pf0,
        remaining_data@.len() <= data.v@.len(),
        *self.processed_file_bytes == b0 + if self.uses_file_byte_progress { data.v@.len() - remaining_data@.len() } else { 0 },
        self.so_far(self.ks@, self.cur()),
        self.uses_file_byte_progress && *self.processed_file_bytes > 0 ==> self.ks@.len() > 0 && self.ks@.last() == *self.processed_file_bytes,
        given_len::<E, P>(old(self).partition_def.id(), texts(path@), data.v@.len() as int),
    decreases remaining_data@.len(),
//@ at each after self.progress_cb.vp_call(
    proof {
        let said = (*self.progress_cb).said();
        if self.tot() > 0 {
            assert(said.drop_last().push(said.last()) =~= said);
            lemma_report(self.before@, said.drop_last(), self.ks@, self.tot(), self.cur(), said.last());
        }
        self.ks@ = self.ks@.push(self.cur());
    }
//@ end
pub proof fn lemma_rnd_pos_all(b: int)
    ensures b > 0 ==> rnd(b as real) >= 1real,
{
    if b > 0 { lemma_rnd_pos(b); }
}

impl<'a, 'b, 'c, 'd, E: Error, P: WiiPartitionDefinition<E>, C: VpReport> VpFileVisitor<PartitionAddError<E>> for VpShow<'a, 'b, 'c, 'd, E, P, C> {
    open spec fn log(&self) -> Seq<Fv<PartitionAddError<E>>> { self.log@ }
    open spec fn inv(&self) -> bool { self.good() }
    type Refs = ShowRefs<E, P, C>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> ShowRefs<E, P, C> { self.srefs() }
    fn vp_call(&mut self, path: &Vec<String>, offset: &mut u64, length: &mut u32) -> (r: Result<(), PartitionAddError<E>>) {
        let ghost s0 = *self;
        let ghost (g0, l0, id) = (self.given@, self.log@, self.partition_def.id());
        let ghost (o1, n1) = (*offset as int, *length as int);
        vp_few(Ghost(self.log@.len() as int));
        let r = self.body(path, offset, length);
        proof {
            let e = Fv { path: texts(path@), offset: o1, length: n1, offset1: *offset as int, length1: *length as int, res: r };
            let d = *self.processed_file_bytes - *s0.processed_file_bytes;
            let n = if r is Err && d == 0 { 0 } else if r is Err {
                choose|n: int| #[trigger] given_len::<E, P>(id, texts(path@), n) && d <= n
            } else {
                choose|n: int| #[trigger] given_len::<E, P>(id, texts(path@), n) && d == if s0.uses_file_byte_progress { n } else { 0 }
            };
            assert(n >= 0 && (n < 0x1_0000_0000));
            self.log@ = self.log@.push(e);
            self.given@ = self.given@.push(n);
            assert(self.given@.drop_last() =~= g0);
            assert(sum(self.given@) == sum(g0) + n);
            assert forall|k: int| 0 <= k < self.log@.len() implies given_len::<E, P>(id, (#[trigger] self.log@[k]).path, self.given@[k]) || self.given@[k] == 0 && self.log@[k].res is Err by {
                if k < l0.len() { assert(self.log@[k] == l0[k]); assert(self.given@[k] == g0[k]); }
            }
            assert(lens::<E, P>(id, self.log@, self.given@));
        }
        r
    }
}
pub fn vp_show<'a, 'b, 'c, 'd, E: Error, P: WiiPartitionDefinition<E>, C: VpReport>(processed_files: &'a mut i32, processed_file_bytes: &'b mut usize, uses_file_byte_progress: bool, total_bytes: usize, total_files: i32, partition_def: &'c mut P, progress_cb: &'d mut C) -> (r: VpShow<'a, 'b, 'c, 'd, E, P, C>)
    requires *old(processed_files) == 0, *old(processed_file_bytes) == 0, uses_file_byte_progress ==> total_bytes > 0, below_4g::<E, P>((*old(partition_def)).id()),
    ensures
        r.good(), r.log@ == Seq::<Fv<PartitionAddError<E>>>::empty(),
        r.fixed() == (ShowRefs::<E, P, C> { f: *final(processed_files), b: *final(processed_file_bytes), d: *final(partition_def), c: *final(progress_cb), id: (*old(partition_def)).id(),
            uses: uses_file_byte_progress, tb: total_bytes, tf: total_files, before: (*old(progress_cb)).said(), fine: true, e: None }),
{
    let ghost b = (*progress_cb).said();
    VpShow { processed_files, processed_file_bytes, uses_file_byte_progress, total_bytes, total_files, partition_def, progress_cb, log: Ghost(Seq::empty()), given: Ghost(Seq::empty()), ks: Ghost(Seq::empty()), before: Ghost(b) }
}
pub proof fn lemma_sum_given<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, s: Seq<Node>, log: Seq<Fv<PartitionAddError<E>>>, given: Seq<int>, m: int)
    requires
        announced::<E, P>(id), P::gives_fst(id, s), lens::<E, P>(id, log, given), 0 <= m <= log.len() <= files_of(s, Seq::empty()).len(),
        forall|i: int| 0 <= i < log.len() ==> called(#[trigger] log[i], files_of(s, Seq::empty())[i]),
        lengths(files_of(s, Seq::empty())),
    ensures
        0 <= sum(given.take(m)) <= bytes_in(files_of(s, Seq::empty()).take(m)),
        (forall|i: int| 0 <= i < m ==> (#[trigger] log[i]).res is Ok) ==> sum(given.take(m)) == bytes_in(files_of(s, Seq::empty()).take(m)),
        files_in(files_of(s, Seq::empty()).take(m)) == m,
    decreases m,
{
    let fs = files_of(s, Seq::empty());
    if m > 0 {
        lemma_sum_given::<E, P>(id, s, log, given, m - 1);
        assert(given.take(m).drop_last() =~= given.take(m - 1));
        assert(fs.take(m).drop_last() =~= fs.take(m - 1));
        assert(called(log[m - 1], fs[m - 1]));
        if given_len::<E, P>(id, log[m - 1].path, given[m - 1]) {
            let (b, p) = choose|b: Seq<u8>, p: u32| #[trigger] P::gives_file(id, log[m - 1].path, b, p) && b.len() == given[m - 1];
            assert(P::gives_file(id, fs[m - 1].0, b, p));
            assert(b.len() == flen(fs[m - 1].1));
        }
        assert(flen(fs[m - 1].1) >= 0);
    }
}
pub open spec fn lengths(v: Seq<(Seq<Seq<char>>, Node)>) -> bool { forall|i: int| 0 <= i < v.len() ==> flen((#[trigger] v[i]).1) >= 0 }
pub proof fn lemma_lengths1(n: FstNode, path: Seq<Seq<char>>)
    ensures lengths(files1(nv(n), path)),
    decreases n,
{
    match n {
        FstNode::File { .. } => {}
        FstNode::Directory { name, files } => { lemma_lengths(files@, path.push(name@)); }
    }
}
pub proof fn lemma_lengths(s: Seq<FstNode>, path: Seq<Seq<char>>)
    ensures lengths(files_of(nvs(s), path)),
    decreases s,
{
    lemma_nvs(s);
    if s.len() > 0 {
        lemma_lengths(s.drop_last(), path);
        lemma_nvs(s.drop_last());
        assert(nvs(s).drop_last() =~= nvs(s.drop_last()));
        lemma_lengths1(s.last(), path);
        let (a, b) = (files_of(nvs(s.drop_last()), path), files1(nv(s.last()), path));
        assert forall|i: int| 0 <= i < (a + b).len() implies flen((#[trigger] (a + b)[i]).1) >= 0 by { if i < a.len() { assert(flen(a[i].1) >= 0); } else { assert(flen(b[i - a.len()].1) >= 0); } }
    }
}
/// what the reports were when the traversal ended
pub proof fn lemma_shown<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, t: Seq<FstNode>, a: Seq<u8>, said: Seq<u8>, ks: Seq<int>, log: Seq<Fv<PartitionAddError<E>>>, given: Seq<int>, uses: bool, tb: int, tf: int, r: Result<(), PartitionAddError<E>>)
    requires
        announced::<E, P>(id), P::gives_fst(id, nvs(t)), lens::<E, P>(id, log, given), called_all(log, files_of(nvs(t), Seq::empty()), r),
        tb == bytes_in(files_of(nvs(t), Seq::empty())), tf == files_in(files_of(nvs(t), Seq::empty())), uses == (tb != 0),
        ({
            let tot = if uses { tb } else { tf };
            tot > 0 ==> reports(a.push(0u8), said, ks, tot)
        }),
        forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] <= if uses { sum(given) } else { log.len() as int },
        log.len() == 0 ==> ks.len() == 0 && said == a.push(0u8),
    ensures
        climbs(fresh_said(a, said)), said.len() > a.len(),
        r is Ok && uses ==> sum(given) == tb,
        r is Ok && uses && ks.len() > 0 && ks.last() == tb ==> fresh_said(a, said).last() == 100,
{
    reveal(called_all);
    let fs = files_of(nvs(t), Seq::empty());
    let tot = if uses { tb } else { tf };
    lemma_lengths(t, Seq::empty());
    lemma_sum_given::<E, P>(id, nvs(t), log, given, log.len() as int);
    assert(given.take(log.len() as int) =~= given);
    assert(fs =~= fs.take(log.len() as int) + fs.skip(log.len() as int));
    lemma_in_cat(fs.take(log.len() as int), fs.skip(log.len() as int));
    lemma_in_pos(fs.skip(log.len() as int));
    lemma_in_pos(fs);
    if r is Ok { assert(forall|i: int| 0 <= i < log.len() ==> (#[trigger] log[i]).res is Ok) by { assert(log.len() > 0 ==> log.last() == log[log.len() - 1]); } assert(fs.take(log.len() as int) =~= fs); }
    if tot > 0 {
        if ks.len() > 0 { assert(ks[ks.len() - 1] <= tot); }
        lemma_climbs(a, a.push(0u8), said, ks, tot);
    } else {
        assert(log.len() == 0);
        assert(fresh_said(a, said) =~= seq![0u8]);
    }
}
pub proof fn lemma_in_pos(v: Seq<(Seq<Seq<char>>, Node)>)
    requires lengths(v),
    ensures bytes_in(v) >= 0, files_in(v) >= 0,
    decreases v.len(),
{
    if v.len() > 0 {
        assert forall|i: int| 0 <= i < v.drop_last().len() implies flen((#[trigger] v.drop_last()[i]).1) >= 0 by { assert(v.drop_last()[i] == v[i]); }
        lemma_in_pos(v.drop_last());
        assert(flen(v[v.len() - 1].1) >= 0);
    }
}
//@ fn builder.rs WiiDiscBuilder::add_partition only:progress_cb:write_to+get_disc_header+get_bi2+get_apploader+get_dol try hoist float callfn:progress_cb liftclosure:callback_all_files:vp_count:*total_files+*total_bytes liftclosure:callback_all_files_mut:vp_show:*processed_files+*processed_file_bytes+=uses_file_byte_progress+=total_bytes+=total_files+partition_def+progress_cb
//@ bound C VpReport
//@ spec
    requires announced::<E, P>((*old(partition_def)).id()), below_4g::<E, P>((*old(partition_def)).id()),
    ensures
        (*final(progress_cb)).said().len() >= (*old(progress_cb)).said().len(),
        climbs(fresh_said((*old(progress_cb)).said(), (*final(progress_cb)).said())),
        r is Ok ==> exists|s: Seq<Node>| #[trigger] P::gives_fst((*old(partition_def)).id(), s)
            && (bytes_in(files_of(s, Seq::empty())) > 0 ==> fresh_said((*old(progress_cb)).said(), (*final(progress_cb)).said()).last() == 100),
//@ at after .vp_call(0)
    let ghost a = (*old(progress_cb)).said();
    let ghost id = (*old(partition_def)).id();
    proof {
        assert((*progress_cb).said() =~= a.push(0u8));
        assert(fresh_said(a, a.push(0u8)) =~= seq![0u8]);
    }
//@ at after .callback_all_files(&mut vp_v)
    proof {
        assert(takes_all::<VpNever, VpCount>(vp_v, visits(nvs(source_fst.entries@), Seq::empty())));
        lemma_counted(vp_v.log@, nvs(source_fst.entries@), vp_r);
    }
//@ at after let mut fst=
    let ghost tree = fst.fst.entries@;
//@ at after .callback_all_files_mut(&mut vp_v)
    proof {
        assert(new_calls(Seq::<Fv<PartitionAddError<E>>>::empty(), vp_v.log@) =~= vp_v.log@);
        assert(vp_v.fine());
        assert(P::gives_fst(id, nvs(tree)));
        lemma_shown::<E, P>(id, tree, a, (*vp_v.progress_cb).said(), vp_v.ks@, vp_v.log@, vp_v.given@, uses_file_byte_progress, total_bytes as int, total_files as int, vp_r);
    }
//@ end
}
