verus! {
// ---- filling in the places changes nothing else ----------------------------------------------------------
/// the same tree but for the places
pub open spec fn alike1(a: Node, b: Node) -> bool
    decreases a,
{
    match (a, b) {
        (Node::File { name, .. }, Node::File { name: name2, .. }) => name == name2,
        (Node::Dir { name, files }, Node::Dir { name: name2, files: files2 }) => name == name2 && alike(files, files2),
        _ => false,
    }
}
pub open spec fn alike(a: Seq<Node>, b: Seq<Node>) -> bool
    decreases a,
{
    a.len() == b.len() && (a.len() > 0 ==> alike(a.drop_last(), b.drop_last()) && alike1(a.last(), b.last()))
}
pub proof fn lemma_alike_filled1<E>(n: Node, evs: Seq<Fv<E>>)
    ensures alike1(n, filled1(n, evs)),
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_alike_filled(files, evs); }
}
pub proof fn lemma_alike_filled<E>(s: Seq<Node>, evs: Seq<Fv<E>>)
    ensures alike(s, filled(s, evs)),
    decreases s,
{
    if s.len() > 0 {
        let k = count(s.drop_last());
        lemma_alike_filled(s.drop_last(), evs);
        lemma_alike_filled1(s.last(), if k <= evs.len() { evs.skip(k) } else { Seq::empty() });
        assert(filled(s, evs).drop_last() =~= filled(s.drop_last(), evs));
    }
}
pub proof fn lemma_alike1(a: Node, b: Node, bytes: Seq<u8>, so: int, offs: Seq<u32>, i: int)
    requires alike1(a, b),
    ensures nname(b) == nname(a), size(b) == size(a), enc1(b) == enc1(a), nulfree1(b) == nulfree1(a), room1(b) == room1(a), named1(bytes, so, offs, i, b) == named1(bytes, so, offs, i, a),
    decreases a,
{
    if let Node::Dir { files, .. } = a { lemma_alike(files, kids(b), bytes, so, offs, i + 1); }
}
pub proof fn lemma_alike(a: Seq<Node>, b: Seq<Node>, bytes: Seq<u8>, so: int, offs: Seq<u32>, from: int)
    requires alike(a, b),
    ensures total(b) == total(a), encs(b) == encs(a), nulfrees(b) == nulfrees(a), name_room(b) == name_room(a), named(bytes, so, offs, from, b) == named(bytes, so, offs, from, a),
    decreases a,
{
    if a.len() > 0 {
        lemma_alike(a.drop_last(), b.drop_last(), bytes, so, offs, from);
        lemma_alike1(a.last(), b.last(), bytes, so, offs, from + total(a.drop_last()));
    }
}
pub broadcast proof fn lemma_fb_filled<E>(offs: Seq<u32>, bytes: Seq<u8>, s: Seq<Node>, evs: Seq<Fv<E>>)
    requires #[trigger] fb_inv(offs, bytes, s),
    ensures fb_inv(offs, bytes, #[trigger] filled(s, evs)), nulfrees(filled(s, evs)) == nulfrees(s),
{
    lemma_alike_filled(s, evs);
    lemma_alike(s, filled(s, evs), bytes, 0, offs, 1);
}
pub proof fn lemma_fits_filled1<E>(n: Node, evs: Seq<Fv<E>>)
    requires low(evs), count1(n) <= evs.len(),
    ensures fit1(filled1(n, evs)),
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_fits_filled(files, evs); }
}
pub proof fn lemma_fits_filled<E>(s: Seq<Node>, evs: Seq<Fv<E>>)
    requires low(evs), count(s) <= evs.len(),
    ensures fits(filled(s, evs)),
    decreases s,
{
    if s.len() > 0 {
        let k = count(s.drop_last());
        lemma_count(s.drop_last());
        lemma_count1(s.last());
        lemma_fits_filled(s.drop_last(), evs);
        lemma_fits_filled1(s.last(), evs.skip(k));
        assert(filled(s, evs).drop_last() =~= filled(s.drop_last(), evs));
    }
}

// ---- the files ---------------------------------------------------------------------------------------
pub mod pview {
use vstd::prelude::*;
use crate::*;
/// nothing was begun behind `p`
#[verifier::opaque]
pub open spec fn tight(v: Wv, p: int) -> bool { 0 < p <= wroom(v) && wgroups(v) == grp(p - 1) + 1 }
pub broadcast proof fn lemma_tight_put(v: Wv, v2: Wv, p: int, q: int, x: Seq<u8>)
    requires #[trigger] tight(v, p), #[trigger] wput(v, v2, q, x), p <= q <= wroom(v), sound(v),
    ensures tight(v2, q + x.len()),
{
    reveal(tight);
    lemma_wput(v, v2, q, x);
    lemma_tight_on(v, p, q);
    lemma_grp(q - 1, q + x.len() - 1);
}
pub proof fn lemma_tight_on(v: Wv, p: int, q: int)
    requires tight(v, p), p <= q <= wroom(v), sound(v),
    ensures tight(v, q),
{
    reveal(tight);
    lemma_sound(v);
    lemma_grp(p - 1, q - 1);
    lemma_ends(wgroups(v) - 1, 0, q);
}
pub broadcast proof fn lemma_fresh_tight(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>)
    requires #[trigger] fresh(i, d), d.len() <= i.data_offset,
    ensures tight(put_down(i, d), 1),
{
    reveal(tight); reveal(fresh);
    lemma_fresh_sound(i, d);
    assert(grp(0) == 0) by { reveal(grp); }
}
/// how many groups that makes
pub broadcast proof fn lemma_tight_groups(v: Wv, p: int)
    requires #[trigger] tight(v, p), sound(v),
    ensures wgroups(v) == (p + 0x1f0000 - 1) / 0x1f0000, 1 <= wgroups(v) <= 4915, p <= wroom(v),
{
    reveal(tight); reveal(grp);
    lemma_sound(v);
}
/// writing over what is there begins no group
pub broadcast proof fn lemma_wput_inside(v: Wv, v2: Wv, p: int, x: Seq<u8>)
    requires #[trigger] wput(v, v2, p, x), p + x.len() <= wroom(v), sound(v), 0 <= p,
    ensures wgroups(v2) == wgroups(v),
{
    lemma_wput(v, v2, p, x);
    lemma_sound(v);
    if x.len() > 0 { lemma_ends(wgroups(v) - 1, p, x.len() as int); }
}
pub broadcast proof fn lemma_room(v: Wv)
    requires #[trigger] sound(v),
    ensures 0x2440 <= wroom(v), wroom(v) <= 4915 * 0x1f0000,
{
    lemma_sound(v);
    reveal(sound);
}
pub broadcast proof fn lemma_lifted_room(v: Wv, p: int, a: int, r: int)
    requires #[trigger] sound(v), #[trigger] lifted(p, a, r), a == 0x20 || a == 0x40, p <= wroom(v),
    ensures r <= wroom(v),
{
    reveal(lifted);
    lemma_sound(v);
}
/// a file and its place
pub ghost struct Given { pub path: Seq<Seq<char>>, pub data: Seq<u8>, pub pad: u32, pub off: int }
/// the data and the zeros asked for behind it
pub open spec fn padded(f: Given) -> Seq<u8> { f.data + zeros(f.pad as nat) }
/// the files with their padding lie one behind the other between `lo` and `end`
#[verifier::opaque]
pub open spec fn in_row(g: Seq<Given>, lo: int, end: int) -> bool {
    (forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).off % 0x40 == 0 && lo <= g[k].off && g[k].off + g[k].data.len() + g[k].pad <= end)
    && (forall|j: int, k: int| 0 <= j < k < g.len() ==> (#[trigger] g[j]).off + g[j].data.len() + g[j].pad <= (#[trigger] g[k]).off)
}
/// the writer holds every file, one behind the other from `lo` to `end`
#[verifier::opaque]
pub open spec fn placed(v: Wv, lo: int, g: Seq<Given>, end: int) -> bool
{
    lo <= end && end % 0x40 == 0 && in_row(g, lo, end)
    && (forall|k: int| 0 <= k < g.len() ==> has(v, (#[trigger] g[k]).off, padded(g[k])))
}
pub proof fn lemma_in_row(v: Wv, g: Seq<Given>, lo: int, end: int, lo2: int, end2: int)
    requires placed(v, lo, g, end), lo2 <= lo, end <= end2,
    ensures in_row(g, lo2, end2),
{
    reveal(placed); reveal(in_row);
}
pub broadcast proof fn lemma_placed_put(v: Wv, v2: Wv, lo: int, g: Seq<Given>, end: int, p: int, x: Seq<u8>)
    requires #[trigger] placed(v, lo, g, end), #[trigger] wput(v, v2, p, x), end <= p || p + x.len() <= lo,
    ensures placed(v2, lo, g, end),
{
    reveal(placed); reveal(in_row);
    assert forall|k: int| 0 <= k < g.len() implies has(v2, (#[trigger] g[k]).off, padded(g[k])) by { lemma_wput_has(v, v2, p, x, g[k].off, padded(g[k])); }
}
pub broadcast proof fn lemma_placed_lo(v: Wv, lo: int, g: Seq<Given>, end: int)
    requires #[trigger] placed(v, lo, g, end),
    ensures lo <= end, end % 0x40 == 0,
{
    reveal(placed);
}
pub proof fn lemma_placed_more(v: Wv, lo: int, g: Seq<Given>, end: int, f: Given, end2: int)
    requires placed(v, lo, g, end), has(v, f.off, padded(f)), f.off == end, end + f.data.len() + f.pad <= end2, end2 % 0x40 == 0,
    ensures placed(v, lo, g.push(f), end2),
{
    reveal(placed); reveal(in_row);
}
/// every file is in the data
#[verifier::opaque]
pub open spec fn plain_placed(d: Seq<u8>, off: int, key: Seq<u8>, g: Seq<Given>) -> bool {
    forall|k: int| 0 <= k < g.len() ==> plain_holds(d, off, key, (#[trigger] g[k]).off, padded(g[k]))
}
pub broadcast proof fn lemma_placed_flushed(v: Wv, v2: Wv, lo: int, g: Seq<Given>, end: int)
    requires #[trigger] wflushed(v, v2), #[trigger] placed(v, lo, g, end),
    ensures plain_placed(v2.d, woff(v), wkey(v), g),
{
    reveal(placed); reveal(plain_placed);
    assert forall|k: int| 0 <= k < g.len() implies plain_holds(v2.d, woff(v), wkey(v), (#[trigger] g[k]).off, padded(g[k])) by { lemma_flushed_has(v, v2, g[k].off, padded(g[k])); }
}
pub broadcast proof fn lemma_placed_write(d: Seq<u8>, off: int, key: Seq<u8>, g: Seq<Given>, q: int, x: Seq<u8>)
    requires #[trigger] plain_placed(d, off, key, g), 0 <= q, q + x.len() <= off,
    ensures plain_placed(#[trigger] write_at(d, q, x), off, key, g),
{
    reveal(plain_placed);
    assert forall|k: int| 0 <= k < g.len() implies plain_holds(write_at(d, q, x), off, key, (#[trigger] g[k]).off, padded(g[k])) by { lemma_plain_write(d, off, key, g[k].off, padded(g[k]), q, x); }
}
/// offsets can be stored
pub broadcast proof fn lemma_fits<E: Error, P: WiiPartitionDefinition<E>>(v: Wv, lo: int, id: P::Id, log: Seq<Fv<PartitionAddError<E>>>, g: Seq<Given>, end: int, s: Seq<Node>)
    requires #[trigger] placed(v, lo, g, end), #[trigger] agree::<E, P>(id, log, g), end <= 4915 * 0x1f0000, called_all(log, files_of(s, Seq::empty()), Ok(())),
    ensures fits(#[trigger] filled(s, log)),
{
    reveal(placed); reveal(in_row); reveal(agree);
    theorem_count(s, Seq::empty(), log);
    assert forall|k: int| 0 <= k < log.len() implies (#[trigger] log[k]).offset1 % 4 == 0 && log[k].offset1 < 0x4_0000_0000 by { assert(g[k].off == log[k].offset1); }
    lemma_fits_filled(s, log);
}
pub open spec fn low<E>(evs: Seq<Fv<E>>) -> bool { forall|k: int| 0 <= k < evs.len() ==> (#[trigger] evs[k]).offset1 % 4 == 0 && evs[k].offset1 < 0x4_0000_0000 }
/// the calls agree with what was placed
#[verifier::opaque]
pub open spec fn agree<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, log: Seq<Fv<PartitionAddError<E>>>, g: Seq<Given>) -> bool {
    log.len() == g.len()
    && forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).path == log[k].path && g[k].off == log[k].offset1 && says(log[k].length1, g[k].data)
        && P::gives_file(id, g[k].path, g[k].data, g[k].pad)
}
pub proof fn lemma_agree_more<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, log: Seq<Fv<PartitionAddError<E>>>, g: Seq<Given>, e: Fv<PartitionAddError<E>>, f: Given)
    requires agree::<E, P>(id, log, g), f.path == e.path, f.off == e.offset1, says(e.length1, f.data), P::gives_file(id, f.path, f.data, f.pad),
    ensures agree::<E, P>(id, log.push(e), g.push(f)),
{
    reveal(agree);
}
/// one file written from `p0` on, followed by zeros up to `p1`
pub open spec fn filler(data: Seq<u8>, n: int) -> Seq<u8> { data + zeros((n - data.len()) as nat) }
pub open spec fn file_written<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, v0: Wv, v1: Wv, path: Seq<Seq<char>>, off: int, len: int, p0: int, p1: int) -> bool {
    off == p0 && p1 % 0x40 == 0
    && exists|data: Seq<u8>, pad: u32| #[trigger] P::gives_file(id, path, data, pad) && says(len, data)
        && p0 + data.len() + pad <= p1 < p0 + data.len() + pad + 0x40 && wput(v0, v1, p0, filler(data, p1 - p0))
}
pub proof fn lemma_has_part(v: Wv, p: int, x: Seq<u8>, y: Seq<u8>)
    requires has(v, p, x + y),
    ensures has(v, p, x), has(v, p + x.len(), y),
{
    reveal(has);
    assert forall|i: int| 0 <= i < x.len() implies v.inner.byte(v.d, p + i) == #[trigger] x[i] by { assert((x + y)[i] == x[i]); }
    assert forall|i: int| 0 <= i < y.len() implies v.inner.byte(v.d, p + x.len() + i) == #[trigger] y[i] by { assert((x + y)[x.len() + i] == y[i]); assert(v.inner.byte(v.d, p + (x.len() + i)) == y[i]); }
}
}
pub use pview::*;

/// the closure that writes the files, with what it captures
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(E)]
pub struct VpFiles<'a, 'b, 'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream> {
    pub crypto_writer: &'a mut WiiEncryptedReadWriteStream<'w, F>,
    pub partition_def: &'b mut P,
    pub log: Ghost<Seq<Fv<PartitionAddError<E>>>>,
    pub given: Ghost<Seq<Given>>,
    pub start: Ghost<Wv>,
    pub lo: Ghost<int>,
}
#[verifier::reject_recursive_types(F)]
#[verifier::reject_recursive_types(P)]
#[verifier::reject_recursive_types(E)]
pub ghost struct FileRefs<'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream> {
    pub w: WiiEncryptedReadWriteStream<'w, F>, pub d: P, pub f: F, pub top: int, pub refs: F::Refs, pub id: P::Id, pub start: Wv, pub lo: int,
    pub e: Option<E>,
}
impl<'a, 'b, 'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream> VpFiles<'a, 'b, 'w, E, P, F> {
    pub open spec fn now(&self) -> Wv { wv(*self.crypto_writer) }
    pub open spec fn place(&self) -> int { self.crypto_writer.inner.current_position as int }
    pub open spec fn good(&self) -> bool {
        self.crypto_writer.ready() && tight(self.now(), self.place()) && wafter(self.start@, self.now(), self.lo@)
        && placed(self.now(), self.lo@, self.given@, self.place()) && agree::<E, P>(self.partition_def.id(), self.log@, self.given@)
        && modest::<E, P>(self.partition_def.id()) && 0 < self.lo@
    }
    #[verifier::prophetic]
    pub open spec fn frefs(&self) -> FileRefs<'w, E, P, F> {
        FileRefs { w: *final(self.crypto_writer), d: *final(self.partition_def), f: *final((*self.crypto_writer).file), top: (*(*self.crypto_writer).file).top(),
            refs: (*(*self.crypto_writer).file).refs(), id: self.partition_def.id(), start: self.start@, lo: self.lo@, e: None }
    }
}
//@ fn builder.rs WiiDiscBuilder::add_partition@callback_all_files_mut noprogress:progress_cb try hoist
//@ sig fn body(&mut self, path: &Vec<String>, offset: &mut u64, size: &mut u32) -> Result<(), PartitionAddError<E>>
//@ implhdr impl<'a, 'b, 'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream> VpFiles<'a, 'b, 'w, E, P, F>
//@ captures crypto_writer partition_def
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).good(),
    ensures
        final(self).frefs() == old(self).frefs(), final(self).log == old(self).log, final(self).given == old(self).given,
        r is Ok ==> file_written::<E, P>(old(self).partition_def.id(), old(self).now(), final(self).now(), texts(path@), *final(offset) as int, *final(size) as int, old(self).place(), final(self).place()),
        r is Ok ==> final(self).crypto_writer.ready(),
//@ at start
    broadcast use {lemma_room, lemma_wput};
    reveal(lifted);
    let ghost v0 = self.now();
    let ghost p0 = self.place();
    let ghost id = self.partition_def.id();
    proof { lemma_put_nothing(v0, p0); }
//@ loop 0
    invariant
        self.frefs() == old(self).frefs(), self.log == old(self).log, self.given == old(self).given,
        self.crypto_writer.ready(), remaining_data@.len() <= data.v@.len(), remaining_data@ =~= data.v@.skip(data.v@.len() - remaining_data@.len()),
        self.place() == p0 + data.v@.len() - remaining_data@.len(),
        wput(v0, self.now(), p0, data.v@.take(data.v@.len() - remaining_data@.len())),
    decreases remaining_data@.len(),
//@ at loop 0 before
    proof { assert(data.v@.take(0) =~= Seq::<u8>::empty()); }
//@ at loop 0 start
    let ghost v1 = self.now();
    let ghost k1 = data.v@.len() - remaining_data@.len();
//@ at loop 0 end
    proof {
        lemma_put_put(v0, v1, self.now(), p0, data.v@.take(k1), batch@);
        assert(data.v@.take(k1) + batch@ =~= data.v@.take(data.v@.len() - remaining_data@.len()));
    }
//@ at loop 1 before
    proof { assert(filler(data.v@, data.v@.len() as int) =~= data.v@); assert(data.v@.take(data.v@.len() as int) =~= data.v@); }
//@ loop 1
    invariant
        self.frefs() == old(self).frefs(), self.log == old(self).log, self.given == old(self).given,
        self.crypto_writer.ready(), current_position <= next_start || current_position == p0 + data.v@.len(), current_position == self.place(),
        p0 + data.v@.len() <= current_position,
        wput(v0, self.now(), p0, filler(data.v@, current_position - p0)),
    decreases next_start - current_position,
//@ at loop 1 start
    let ghost v2 = self.now();
    let ghost k2 = current_position - p0;
//@ at loop 1 end
    proof {
        let z = filler(data.v@, current_position - p0);
        let y = zeros((current_position - p0 - k2) as nat);
        assert(filler(data.v@, k2) + y =~= z);
        assert(ZEROS@.subrange(0, bytes_to_write as int) =~= y);
        lemma_put_put(v0, v2, self.now(), p0, filler(data.v@, k2), y);
    }
//@ end

impl<'a, 'b, 'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream> VpFileVisitor<PartitionAddError<E>> for VpFiles<'a, 'b, 'w, E, P, F> {
    open spec fn log(&self) -> Seq<Fv<PartitionAddError<E>>> { self.log@ }
    open spec fn inv(&self) -> bool { self.good() }
    type Refs = FileRefs<'w, E, P, F>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> FileRefs<'w, E, P, F> { self.frefs() }
    fn vp_call(&mut self, path: &Vec<String>, offset: &mut u64, length: &mut u32) -> (r: Result<(), PartitionAddError<E>>) {
        let ghost s0 = *self;
        let ghost (v0, p0, id) = (self.now(), self.place(), self.partition_def.id());
        let ghost (o0, l0) = (*offset as int, *length as int);
        let r = self.body(path, offset, length);
        proof {
            let e = Fv { path: texts(path@), offset: o0, length: l0, offset1: *offset as int, length1: *length as int, res: r };
            if r is Ok {
                let (v1, p1) = (self.now(), self.place());
                let (data, pad) = choose|data: Seq<u8>, pad: u32| #[trigger] P::gives_file(id, texts(path@), data, pad) && says(*length as int, data)
                    && p0 + data.len() + pad <= p1 < p0 + data.len() + pad + 0x40 && wput(v0, v1, p0, filler(data, p1 - p0));
                let z = filler(data, p1 - p0);
                let f = Given { path: texts(path@), data, pad, off: p0 };
                lemma_wput(v0, v1, p0, z);
                lemma_room(v0); lemma_room(v1);
                assert(z =~= padded(f) + zeros((p1 - p0 - data.len() - pad) as nat));
                lemma_has_part(v1, p0, padded(f), zeros((p1 - p0 - data.len() - pad) as nat));
                lemma_tight_put(v0, v1, p0, p0, z);
                lemma_placed_put(v0, v1, self.lo@, self.given@, p0, p0, z);
                lemma_placed_more(v1, self.lo@, self.given@, p0, f, p1);
                lemma_placed_lo(v0, self.lo@, self.given@, p0);
                lemma_wafter_put(self.start@, v0, v1, self.lo@, p0, z);
                lemma_agree_more::<E, P>(id, self.log@, self.given@, e, f);
                self.given@ = self.given@.push(f);
            }
            self.log@ = self.log@.push(e);
        }
        r
    }
}
pub fn vp_files<'a, 'b, 'w, E: Error, P: WiiPartitionDefinition<E>, F: Stream>(crypto_writer: &'a mut WiiEncryptedReadWriteStream<'w, F>, partition_def: &'b mut P) -> (r: VpFiles<'a, 'b, 'w, E, P, F>)
    requires
        old(crypto_writer).ready(), old(crypto_writer).inner.current_position % 0x40 == 0, modest::<E, P>((*old(partition_def)).id()),
        exists|q: int| #[trigger] tight(wv(*old(crypto_writer)), q) && q <= old(crypto_writer).inner.current_position,
    ensures
        r.good(), r.frefs() == (FileRefs::<'w, E, P, F> { w: *final(crypto_writer), d: *final(partition_def), f: *final((*old(crypto_writer)).file), top: (*(*old(crypto_writer)).file).top(),
            refs: (*(*old(crypto_writer)).file).refs(), id: (*old(partition_def)).id(), start: wv(*old(crypto_writer)), lo: old(crypto_writer).inner.current_position as int, e: None }),
        r.log@.len() == 0, r.given@.len() == 0,
{
    let ghost v = wv(*crypto_writer);
    let ghost p = crypto_writer.inner.current_position as int;
    proof {
        let q = choose|q: int| #[trigger] tight(v, q) && q <= p;
        lemma_room(v);
        lemma_tight_on(v, q, p);
        lemma_wafter_self(v, p);
        reveal(tight); reveal(placed); reveal(in_row); reveal(agree);
    }
    VpFiles { crypto_writer, partition_def, log: Ghost(Seq::empty()), given: Ghost(Seq::empty()), start: Ghost(v), lo: Ghost(p) }
}

/// `std::io::Cursor` over a growing vector, written to at its end
pub struct Cursor<'a> { pub v: &'a mut Vec<u8>, pub pos: u64 }
impl<'a> Cursor<'a> {
    pub fn new(v: &'a mut Vec<u8>) -> (r: Cursor<'a>)
        ensures *r.v == *old(v), *final(r.v) == *final(v), r.pos == 0,
    { Cursor { v, pos: 0 } }
}
impl<'a> Sink for Cursor<'a> {
    open spec fn ready(&self) -> bool { self.pos == (*self.v)@.len() }
    open spec fn place(&self) -> int { self.pos as int }
    #[verifier::prophetic]
    open spec fn linked(a: Self, b: Self) -> bool { *final(b.v) == *final(a.v) }
    #[verifier::prophetic]
    open spec fn put(a: Self, b: Self, x: Seq<u8>) -> bool { *final(b.v) == *final(a.v) && (*b.v)@ == (*a.v)@ + x && b.ready() }
    proof fn lemma_put(a: Self, b: Self, c: Self, x: Seq<u8>, y: Seq<u8>) { assert((*a.v)@ + x + y =~= (*a.v)@ + (x + y)); }
    proof fn lemma_linked(a: Self, b: Self, c: Self) {}
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) { unimplemented!() }
}
pub open spec fn three(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> Seq<u8> { a + b + c }
#[verifier::opaque]
pub open spec fn chain(v: Seq<Certificate>, b: Seq<u8>) -> bool {
    exists|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| b == #[trigger] three(x, y, z) && v[0].writes(x) && v[1].writes(y) && v[2].writes(z)
}
impl BeWrite for [Certificate; 3] {
    open spec fn writes(&self, b: Seq<u8>) -> bool { chain(self@, b) }
}
pub fn vp_skip(lo: usize, hi: usize, n: usize) -> (r: usize)
    requires lo <= hi,
    ensures r == min_int(lo + n, hi as int),
{ if n <= hi - lo { lo + n } else { hi } }
pub fn vp_take(lo: usize, hi: usize, n: usize) -> (r: usize)
    requires lo <= hi,
    ensures r == min_int(lo + n, hi as int),
{ if n <= hi - lo { lo + n } else { hi } }
//@ fn lib.rs ShiftedU64::from
//@ spec
    ensures r.0 == v,
//@ end

#[verifier::external_body]
pub fn vp_to_be_bytes(x: u64) -> (r: [u8; 8])
    ensures be64(r@, 0) == x,
{ x.to_be_bytes() }
/// the bytes of a number in the order of the machine
pub uninterp spec fn ne64(x: u64) -> Seq<u8>;
#[verifier::external_body]
pub fn vp_to_ne_bytes(x: u64) -> (r: [u8; 8])
    ensures r@ == ne64(x), ne64(x).len() == 8,
{ x.to_ne_bytes() }

// ---- the finished partition ------------------------------------------------------------------------------
pub open spec fn tail(d: Seq<u8>, n: int) -> Seq<u8> { d.subrange(n, d.len() as int) }
/// the header with the places filled in
pub open spec fn header_filled(h0: DiscHeader, h: DiscHeader) -> bool {
    h == (DiscHeader { dol_off: h.dol_off, fst_off: h.fst_off, fst_sz: h.fst_sz, fst_max_sz: h.fst_max_sz, ..h0 })
}
/// as it is stored: the size of the table is rounded down to a multiple of four (and leaves room for that)
pub open spec fn stored_size(x: ShiftedU64) -> ShiftedU64 { ShiftedU64((x.0 - x.0 % 4) as u64) }
pub open spec fn stored_header(h: DiscHeader) -> DiscHeader { DiscHeader { fst_sz: stored_size(h.fst_sz), fst_max_sz: stored_size(h.fst_max_sz), ..h } }
#[verifier::reject_recursive_types(E)]
pub ghost struct Plan<E: Error> { pub h0: DiscHeader, pub h: DiscHeader, pub hb: Seq<u8>, pub bi2: Seq<u8>, pub appl: Seq<u8>, pub dol: Seq<u8>,
    pub tree: Seq<Node>, pub table: Seq<u8>, pub log: Seq<Fv<PartitionAddError<E>>>, pub files: Seq<Given> }
/// the encrypted data holds what was given, where the header and the table say
pub open spec fn contents<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, key: Seq<u8>, id: P::Id, size: int, x: Plan<E>) -> bool {
    &&& 0x2440 + x.appl.len() <= x.h.dol_off.0 && x.h.dol_off.0 % 0x20 == 0 && x.h.dol_off.0 + x.dol.len() <= x.h.fst_off.0 && x.h.fst_off.0 % 0x20 == 0
        && x.bi2.len() <= 0x2000 && x.hb.len() == 0x440 && x.h.fst_off.0 + x.h.fst_sz.0 <= size && in_row(x.files, x.h.fst_off.0 + x.h.fst_sz.0, size)
    &&& P::gives_header(id, x.h0) && header_filled(x.h0, x.h) && x.h.writes(x.hb) && disc_ok(stored_header(x.h)) && plain_holds(d, 0x20000, key, 0, x.hb)
    &&& P::gives_bi2(id, x.bi2) && plain_holds(d, 0x20000, key, 0x440, x.bi2)
    &&& P::gives_apploader(id, x.appl) && plain_holds(d, 0x20000, key, 0x2440, x.appl)
    &&& P::gives_dol(id, x.dol) && plain_holds(d, 0x20000, key, x.h.dol_off.0 as int, x.dol)
    &&& P::gives_fst(id, x.tree) && is_table(x.table, 0, filled(x.tree, x.log)) && plain_holds(d, 0x20000, key, x.h.fst_off.0 as int, x.table)
        && x.table.len() <= stored_size(x.h.fst_sz).0 && x.h.fst_max_sz == x.h.fst_sz
    &&& called_all(x.log, files_of(x.tree, Seq::empty()), Ok(())) && agree::<E, P>(id, x.log, x.files) && plain_placed(d, 0x20000, key, x.files)
}
#[verifier::opaque]
pub open spec fn gives<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, key: Seq<u8>, id: P::Id, size: int) -> bool { exists|x: Plan<E>| contents::<E, P>(d, key, id, size, x) }
pub broadcast proof fn lemma_gives_write<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, key: Seq<u8>, id: P::Id, size: int, q: int, x: Seq<u8>)
    requires #[trigger] gives::<E, P>(d, key, id, size), 0 <= q, q + x.len() <= 0x20000,
    ensures gives::<E, P>(#[trigger] write_at(d, q, x), key, id, size),
{
    broadcast use {lemma_plain_write, lemma_placed_write};
    reveal(gives);
    let y = choose|y: Plan<E>| contents::<E, P>(d, key, id, size, y);
    assert(contents::<E, P>(write_at(d, q, x), key, id, size, y));
}
// ---- what the table says about a file is where the file is -----------------------------------------------
pub proof fn lemma_filled_files1<E>(n: Node, path: Seq<Seq<char>>, evs: Seq<Fv<E>>, k: int)
    requires 0 <= k < count1(n) <= evs.len(),
    ensures files1(filled1(n, evs), path).len() == count1(n), files1(filled1(n, evs), path)[k].0 == files1(n, path)[k].0,
        files1(filled1(n, evs), path)[k].1 == (Node::File { name: files1(n, path)[k].0.last(), offset: evs[k].offset1, length: evs[k].length1 }),
    decreases n,
{
    match n { Node::Dir { name, files } => lemma_filled_files(files, path.push(name), evs, k), Node::File { .. } => {} }
}
pub proof fn lemma_filled_count1<E>(n: Node, evs: Seq<Fv<E>>)
    ensures count1(filled1(n, evs)) == count1(n),
    decreases n,
{
    if let Node::Dir { files, .. } = n { lemma_filled_count(files, evs); }
}
pub proof fn lemma_filled_count<E>(s: Seq<Node>, evs: Seq<Fv<E>>)
    ensures count(filled(s, evs)) == count(s),
    decreases s,
{
    if s.len() > 0 {
        let k = count(s.drop_last());
        lemma_filled_count(s.drop_last(), evs);
        lemma_filled_count1(s.last(), if k <= evs.len() { evs.skip(k) } else { Seq::empty() });
        assert(filled(s, evs).drop_last() =~= filled(s.drop_last(), evs));
    }
}
pub proof fn lemma_filled_files<E>(s: Seq<Node>, path: Seq<Seq<char>>, evs: Seq<Fv<E>>, k: int)
    requires 0 <= k < count(s) <= evs.len(),
    ensures files_of(filled(s, evs), path).len() == count(s), files_of(filled(s, evs), path)[k].0 == files_of(s, path)[k].0,
        files_of(filled(s, evs), path)[k].1 == (Node::File { name: files_of(s, path)[k].0.last(), offset: evs[k].offset1, length: evs[k].length1 }),
    decreases s,
{
    let c = count(s.drop_last());
    lemma_count(s.drop_last());
    lemma_count1(s.last());
    lemma_files_len(s.drop_last(), path);
    lemma_filled_count(s, evs);
    lemma_filled_count(s.drop_last(), evs);
    lemma_files_len(filled(s, evs), path);
    lemma_files_len(filled(s.drop_last(), evs), path);
    assert(filled(s, evs).drop_last() =~= filled(s.drop_last(), evs));
    lemma_filled_count1(s.last(), evs.skip(c));
    lemma_files1_len(filled1(s.last(), evs.skip(c)), path);
    lemma_files1_len(s.last(), path);
    lemma_files_len(s, path);
    if k < c { lemma_filled_files(s.drop_last(), path, evs, k); } else { lemma_filled_files1(s.last(), path, evs.skip(c), k - c); }
}
/// the finished file table has exactly the files of the definition, at the same paths in the same order, and each entry states the
/// exact length of the data the definition gave for that path and an offset, a multiple of 0x40 behind the table, at which exactly
/// that data lies in the decrypted partition, followed by the zeros asked for
pub open spec fn delivers<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, key: Seq<u8>, id: P::Id, size: int, tree: Seq<Node>, done: Seq<Node>, from: int, path: Seq<Seq<char>>, n: Node) -> bool {
    n is File && from <= n->File_offset && n->File_offset % 0x40 == 0 && exists|data: Seq<u8>, pad: u32| #[trigger] P::gives_file(id, path, data, pad) && data.len() == n->File_length
        && n->File_offset + data.len() + pad <= size && plain_holds(d, 0x20000, key, n->File_offset as int, data + zeros(pad as nat))
}
pub proof fn theorem_delivered<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, key: Seq<u8>, id: P::Id, size: int, x: Plan<E>)
    requires contents::<E, P>(d, key, id, size, x), lengths_fit::<E, P>(id, x.tree),
    ensures ({
        let done = files_of(filled(x.tree, x.log), Seq::empty());
        let want = files_of(x.tree, Seq::empty());
        done.len() == want.len()
        && (forall|k: int| 0 <= k < want.len() ==> (#[trigger] done[k]).0 == want[k].0 && delivers::<E, P>(d, key, id, size, x.tree, filled(x.tree, x.log), x.h.fst_off.0 + x.h.fst_sz.0, done[k].0, done[k].1))
        && (forall|j: int, k: int| 0 <= j < k < want.len() ==> (#[trigger] done[j]).1->File_offset + done[j].1->File_length <= (#[trigger] done[k]).1->File_offset)
    }),
{
    reveal(called_all); reveal(agree); reveal(plain_placed); reveal(in_row);
    let (evs, g) = (x.log, x.files);
    let done = files_of(filled(x.tree, evs), Seq::empty());
    let want = files_of(x.tree, Seq::empty());
    lemma_files_len(x.tree, Seq::empty());
    lemma_filled_count(x.tree, evs);
    lemma_files_len(filled(x.tree, evs), Seq::empty());
    assert forall|k: int| 0 <= k < want.len() implies (#[trigger] done[k]).0 == want[k].0 && done[k].1 is File && done[k].1->File_offset == g[k].off && done[k].1->File_length == g[k].data.len()
        && delivers::<E, P>(d, key, id, size, x.tree, filled(x.tree, evs), x.h.fst_off.0 + x.h.fst_sz.0, done[k].0, done[k].1) by {
        lemma_filled_files(x.tree, Seq::empty(), evs, k);
        assert(called(evs[k], want[k]));
        assert(g[k].path == evs[k].path);
        assert(plain_holds(d, 0x20000, key, g[k].off, padded(g[k])));
        assert(P::gives_file(id, done[k].0, g[k].data, g[k].pad));
    }
    assert forall|j: int, k: int| 0 <= j < k < want.len() implies (#[trigger] done[j]).1->File_offset + done[j].1->File_length <= (#[trigger] done[k]).1->File_offset by {
        assert(g[j].off + g[j].data.len() + g[j].pad <= g[k].off);
    }
}
/// the TMD with its content entry brought up to date and its signature faked
pub open spec fn countered(b: Seq<u8>, i: u64) -> Seq<u8> { Seq::new(b.len(), |k: int| if 0x19a <= k < 0x1a2 { ne64(i)[k - 0x19a] } else { b[k] }) }
pub open spec fn zero_hash(b: Seq<u8>) -> bool { sha1(b.subrange(0x140, b.len() as int))[0] == 0 }
pub open spec fn tmd_done(b0: Seq<u8>, b: Seq<u8>, h3: Seq<u8>, size: int) -> bool {
    b.len() == b0.len() && b.len() >= 0x208 && b.subrange(0x1f4, 0x208) == sha1(h3) && be64(b, 0x1ec) == size
    && (forall|i: int| 4 <= i < 0x104 ==> #[trigger] b[i] == 0)
    && (forall|i: int| 0 <= i < b.len() && !(4 <= i < 0x104) && !(0x19a <= i < 0x1a2) && !(0x1ec <= i < 0x208) ==> #[trigger] b[i] == b0[i])
    && (zero_hash(b) || forall|i: u64| i < u64::MAX ==> !zero_hash(#[trigger] countered(b, i)))
}
pub open spec fn head_ok(d: Seq<u8>, h: WiiPartitionHeader, ticket: Ticket, tmd: TMD, certs: [Certificate; 3], h3: Seq<u8>, size: int) -> bool {
    &&& record(d, 0, h) && h.ticket == ticket && phdr_ok(h) && h.tmd_off.0 == 0x2c0 && 0x2c0 + h.tmd_size <= h.cert_chain_off.0 && h.cert_chain_off.0 + h.cert_chain_size <= 0x8000 && h.global_hash_table_off.0 == 0x8000 && h.data_off.0 == 0x20000 && h.data_size.0 == size
    &&& record(d, h.cert_chain_off.0 as int, certs) && h.tmd_size == tmd_size(tmd) && h.cert_chain_size == cert_size(certs@[0]) + cert_size(certs@[1]) + cert_size(certs@[2])
    &&& exists|b0: Seq<u8>, b: Seq<u8>| #[trigger] tmd.writes(b0) && #[trigger] tmd_done(b0, b, h3, size) && holds(d, 0x2c0, b)
}
pub open spec fn built<E: Error, P: WiiPartitionDefinition<E>>(d: Seq<u8>, ticket: Ticket, tmd: TMD, certs: [Certificate; 3], id: P::Id, n: int) -> bool {
    exists|h: WiiPartitionHeader, h3: Seq<u8>| #[trigger] head_ok(d, h, ticket, tmd, certs, h3, n * 0x1f0000)
        && holds(d, 0x8000, h3) && #[trigger] all_hashed(d, 0x20000, ticket.title_key@, h3, n) && d.len() == 0x20000 + n * 0x200000
        && gives::<E, P>(d, ticket.title_key@, id, n * 0x1f0000)
}
pub open spec fn head_room(tmd: TMD, certs: [Certificate; 3]) -> bool {
    0 < tmd.contents@.len() < 700 && cert_ok(certs@[0]) && cert_ok(certs@[1]) && cert_ok(certs@[2])
    && 0x2e0 + tmd_size(tmd) + cert_size(certs@[0]) + cert_size(certs@[1]) + cert_size(certs@[2]) <= 0x8000
}
/// how long the records are
pub proof fn lemma_tmd_len(v: TMD, b: Seq<u8>)
    requires v.writes(b), v.contents@.len() < 0x1_0000,
    ensures b.len() == tmd_size(v),
{
    theorem_tmd(b, 0, v, 0, b);
}
pub proof fn lemma_certs_len(v: [Certificate; 3], b: Seq<u8>)
    requires v.writes(b), cert_ok(v@[0]), cert_ok(v@[1]), cert_ok(v@[2]),
    ensures b.len() == cert_size(v@[0]) + cert_size(v@[1]) + cert_size(v@[2]),
{
    reveal(chain);
    let (x, y, z) = choose|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| b == #[trigger] three(x, y, z) && v@[0].writes(x) && v@[1].writes(y) && v@[2].writes(z);
    theorem_cert(x, 0, v@[0], 0, x);
    theorem_cert(y, 0, v@[1], 0, y);
    theorem_cert(z, 0, v@[2], 0, z);
}
pub proof fn lemma_disc_len(v: DiscHeader, b: Seq<u8>)
    requires v.writes(b), title_ok(v.game_title@), off_ok(v.dol_off), off_ok(v.fst_off), v.fst_sz.0 < 0x4_0000_0000, v.fst_max_sz.0 < 0x4_0000_0000,
    ensures b.len() == 0x440, stored_header(v).writes(b), disc_ok(stored_header(v)),
{
    let (x, y) = (v.fst_sz.0, v.fst_max_sz.0);
    assert(((x - x % 4) as u64) >> 2 == x >> 2) by (bit_vector);
    assert(((y - y % 4) as u64) >> 2 == y >> 2) by (bit_vector);
    theorem_disc_written(stored_header(v), b);
}
pub proof fn lemma_phdr_len(v: WiiPartitionHeader, b: Seq<u8>)
    requires v.writes(b), phdr_ok(v),
    ensures b.len() == 0x2c0,
{
    theorem_phdr(b, 0, v, 0, b);
}
pub proof fn lemma_below_blank(d: Seq<u8>, e: Seq<u8>, o: int)
    requires blank(d, 0x40008, 0x40020), below(e, o) == below(d, o), 0x50000 <= o,
    ensures blank(e, 0x40008, 0x40020),
{
    reveal(blank);
    assert forall|i: int| 0x40008 <= i < 0x40020 && i < e.len() implies #[trigger] e[i] == 0u8 by {
        assert(below(e, o)[i] == e[i]);
        assert(below(d, o)[i] == (if i < d.len() { d[i] } else { 0u8 }));
    }
}
/// the TMD, its signature not yet faked
pub open spec fn tmd_mid(b0: Seq<u8>, b: Seq<u8>, h3: Seq<u8>, size: int) -> bool {
    b.len() == b0.len() && b.len() >= 0x208 && b.subrange(0x1f4, 0x208) == sha1(h3) && be64(b, 0x1ec) == size
    && (forall|i: int| 4 <= i < 0x104 ==> #[trigger] b[i] == 0)
    && (forall|i: int| 0 <= i < b.len() && !(4 <= i < 0x104) && !(0x1ec <= i < 0x208) ==> #[trigger] b[i] == b0[i])
}
pub proof fn lemma_tmd_mid(b0: Seq<u8>, b1: Seq<u8>, b: Seq<u8>, h3: Seq<u8>, size: int)
    requires
        b0.len() >= 0x208, b1.len() == b0.len(), b.len() == b0.len(), be64(b1, 0x1ec) == size,
        b1.subrange(0x1f4, 0x208) == sha1(h3),
        forall|i: int| 0 <= i < b0.len() && !(0x1ec <= i < 0x208) ==> #[trigger] b1[i] == b0[i],
        forall|i: int| 4 <= i < 0x104 ==> #[trigger] b[i] == 0,
        forall|i: int| 0 <= i < b0.len() && !(4 <= i < 0x104) ==> #[trigger] b[i] == b1[i],
    ensures tmd_mid(b0, b, h3, size),
{
    assert(b.subrange(0x1f4, 0x208) =~= b1.subrange(0x1f4, 0x208));
}
pub proof fn lemma_tmd_done(b0: Seq<u8>, b2: Seq<u8>, b: Seq<u8>, h3: Seq<u8>, size: int)
    requires
        tmd_mid(b0, b2, h3, size), b.len() == b0.len(),
        forall|i: int| 0 <= i < b0.len() && !(0x19a <= i < 0x1a2) ==> #[trigger] b[i] == b2[i],
        zero_hash(b) || forall|j: u64| j < u64::MAX ==> !zero_hash(#[trigger] countered(b2, j)),
    ensures tmd_done(b0, b, h3, size),
{
    assert(b.subrange(0x1f4, 0x208) =~= b2.subrange(0x1f4, 0x208));
    assert forall|j: u64| j < u64::MAX implies #[trigger] countered(b, j) == countered(b2, j) by { assert(countered(b, j) =~= countered(b2, j)); }
}
//@ fn builder.rs WiiDiscBuilder::add_partition try into cowargs shifted asref hoist forbreak vecmut noprogress:progress_cb liftclosure:callback_all_files_mut:vp_files owned:partition_window owned:crypto_writer
//@ captures crypto_writer partition_def
//@ spec
    requires
        old(self).inv(), old(self).current_data_offset < 0x4_0000_0000, modest::<E, P>((*old(partition_def)).id()),
        tmd.contents@.len() > 0 ==> head_room(tmd, cert_chain), ticket.common_key_idx < 2,
    ensures
        final(self).disc_header == old(self).disc_header, final(self).region == old(self).region, (*final(partition_def)).id() == (*old(partition_def)).id(),
        r is Err ==> final(self).partitions@ == old(self).partitions@,
        r is Ok ==> final(self).partitions@ == old(self).partitions@.push(WiiPartTableEntry { part_data_off: ShiftedU64(old(self).current_data_offset), part_type }),
        r is Ok ==> final(self).file.refs() == old(self).file.refs() && final(self).inv(),
        r is Ok ==> final(self).file.data().len() == final(self).current_data_offset,
        r is Ok ==> below(final(self).file.data(), old(self).current_data_offset as int) == below(old(self).file.data(), old(self).current_data_offset as int),
        r is Ok ==> exists|n: int| 0 < n <= 4915 && final(self).current_data_offset == old(self).current_data_offset + 0x20000 + n * 0x200000
            && #[trigger] built::<E, P>(tail(final(self).file.data(), old(self).current_data_offset as int), ticket, tmd, cert_chain, (*old(partition_def)).id(), n),
//@ attr
#[verifier::rlimit(100)]
//@ at start
    hide(write_at); hide(be64); hide(phdr_ok); hide(zero_run); hide(tmd_mid); hide(tmd_done); hide(DiscHeader_writes); hide(TMD_writes); hide(WiiPartitionHeader_writes); hide(Ticket_writes); hide(Certificate_writes); hide(cert_ok);
    broadcast use {lemma_wput, lemma_wput_has, lemma_wput_holds, lemma_wafter, lemma_wafter_has, lemma_wafter_holds, lemma_flushed, lemma_fresh_sound, lemma_flushed_has, lemma_flushed_holds, lemma_plain_write, lemma_hashed_write, lemma_holds_write, lemma_holds_kept, lemma_tight_put, lemma_placed_put, lemma_placed_flushed, lemma_placed_write, lemma_room, lemma_lifted_room, lemma_fresh_tight, lemma_wput_inside, lemma_fb_filled, lemma_fits, lemma_placed_lo, lemma_gives_write};
//@ at after write_be(&mut Cursor::new
    let ghost tb0 = tmd_buf@;
    proof { assert(Seq::<u8>::empty() + tb0 =~= tb0); assert(tmd.writes(tb0)); lemma_tmd_len(tmd, tb0); }
//@ at after part_header.cert_chain_size=
    let ghost dc = partition_window.data();
    let ghost cb = choose|b: Seq<u8>| #[trigger] cert_chain.writes(b) && holds(dc, part_header.cert_chain_off.0 as int, b) && partition_window.pos == part_header.cert_chain_off.0 + b.len();
    let ghost co = part_header.cert_chain_off.0 as int;
    proof { lemma_certs_len(cert_chain, cb); }
    assert(record(dc, part_header.cert_chain_off.0 as int, cert_chain));
    assert(part_header.cert_chain_size == cert_size(cert_chain@[0]) + cert_size(cert_chain@[1]) + cert_size(cert_chain@[2]));
    assert(dc.len() <= 0x8000);
//@ at after let mut crypto_writer=
    proof { assert(sound(wv(crypto_writer))); assert(crypto_writer.ready()); assert(holds(wv(crypto_writer).d, co, cb)); }
//@ at after part_disc_header.dol_off=
    proof {
        assert(exists|x: Seq<u8>| #[trigger] P::gives_bi2(old(partition_def).id(), x) && has(wv(crypto_writer), 0x440, x));
        assert(exists|x: Seq<u8>| #[trigger] P::gives_apploader(old(partition_def).id(), x) && has(wv(crypto_writer), 0x2440, x));
    }
//@ at after let fst_end=
    proof {
        assert(exists|x: Seq<u8>| #[trigger] P::gives_bi2(old(partition_def).id(), x) && has(wv(crypto_writer), 0x440, x));
        assert(exists|x: Seq<u8>| #[trigger] P::gives_apploader(old(partition_def).id(), x) && has(wv(crypto_writer), 0x2440, x));
        assert(exists|x: Seq<u8>| #[trigger] P::gives_dol(old(partition_def).id(), x) && has(wv(crypto_writer), part_disc_header.dol_off.0 as int, x));
        assert(crypto_writer.ready());
        assert(tight(wv(crypto_writer), fst_end as int));
        assert(holds(wv(crypto_writer).d, co, cb));
    }
//@ at after let data_start=
    assert(data_start % 0x40 == 0) by { reveal(lifted); }
//@ at after let vp_r=
    assert(new_calls(Seq::<Fv<PartitionAddError<E>>>::empty(), vp_v.log@) =~= vp_v.log@);
//@ at before let groups=
    let ghost vf = wv(crypto_writer);
    let ghost pf = crypto_writer.inner.current_position as int;
    let ghost (log, files) = choose|log: Seq<Fv<PartitionAddError<E>>>, g: Seq<Given>| #[trigger] agree::<E, P>(old(partition_def).id(), log, g)
        && called_all(log, files_of(tree, Seq::empty()), Ok(())) && placed(vf, data_start as int, g, crypto_writer.inner.current_position as int) && nvs(fst.fst.entries@) == filled(tree, log);
    proof { assert(holds(vf.d, co, cb)); assert(agree::<E, P>(old(partition_def).id(), log, files)); assert(called_all(log, files_of(tree, Seq::empty()), Ok(())));
     assert(placed(vf, data_start as int, files, crypto_writer.inner.current_position as int) && nvs(fst.fst.entries@) == filled(tree, log)); }
    proof { lemma_tight_groups(vf, crypto_writer.inner.current_position as int); }
//@ at after let groups=
    assert(groups == wgroups(vf) && groups <= 4915 && GROUP_SIZE == 0x200000 && GROUP_DATA_SIZE == 0x1f0000);
//@ at before crypto_writer.seek(SeekFrom::Start(0))
    let ghost table = choose|x: Seq<u8>| #[trigger] wput(vf, wv(crypto_writer), part_disc_header.fst_off.0 as int, x) && is_table(x, 0, filled(tree, log)) && x.len() + 4 == part_disc_header.fst_sz.0;
    proof { assert(wput(vf, wv(crypto_writer), part_disc_header.fst_off.0 as int, table)); assert(is_table(table, 0, filled(tree, log)) && table.len() + 4 == part_disc_header.fst_sz.0); }
//@ at before write_be(vp_mut!(crypto_writer
    let ghost vh = wv(crypto_writer);
//@ at after write_be(vp_mut!(crypto_writer
    let ghost hb = choose|b: Seq<u8>| #[trigger] part_disc_header.writes(b) && wput(vh, wv(crypto_writer), 0, b);
    assert(part_disc_header.dol_off.0 % 4 == 0 && part_disc_header.fst_off.0 % 4 == 0) by { reveal(lifted); }
    proof { lemma_disc_len(part_disc_header, hb); }
//@ at before crypto_writer.flush()
    let ghost vw = wv(crypto_writer);
    proof { lemma_sound_inv(crypto_writer); assert(woff(vw) == 0x20000 && wkey(vw) == part_header.ticket.title_key@); }
//@ at before let h3=
    let ghost vx = wv(crypto_writer);
    proof {
        let (id, d, key, h) = (old(partition_def).id(), vx.d, part_header.ticket.title_key@, part_disc_header);
        lemma_flushed_hashed(vw, vx, 0, hb);
        assert(holds(vx.d, co, cb));
        let bi2 = choose|x: Seq<u8>| #[trigger] P::gives_bi2(id, x) && plain_holds(d, 0x20000, key, 0x440, x);
        let appl = choose|x: Seq<u8>| #[trigger] P::gives_apploader(id, x) && plain_holds(d, 0x20000, key, 0x2440, x) && 0x2440 + x.len() <= h.dol_off.0;
        let dol = choose|x: Seq<u8>| #[trigger] P::gives_dol(id, x) && plain_holds(d, 0x20000, key, h.dol_off.0 as int, x) && h.dol_off.0 + x.len() <= h.fst_off.0;
        lemma_in_row(vf, files, data_start as int, pf, h.fst_off.0 + h.fst_sz.0, total_size as int);
        assert(h.dol_off.0 % 0x20 == 0 && h.fst_off.0 % 0x20 == 0) by { reveal(lifted); }
        let x = Plan::<E> { h0, h, hb, bi2, appl, dol, tree, table, log, files };
        assert(P::gives_header(id, h0)); assert(header_filled(h0, h)); assert(h.writes(hb)); assert(disc_ok(stored_header(h))); assert(plain_holds(d, 0x20000, key, 0, hb));
        assert(P::gives_bi2(id, x.bi2) && plain_holds(d, 0x20000, key, 0x440, x.bi2));
        assert(P::gives_apploader(id, x.appl) && plain_holds(d, 0x20000, key, 0x2440, x.appl));
        assert(P::gives_dol(id, x.dol) && plain_holds(d, 0x20000, key, x.h.dol_off.0 as int, x.dol));
        assert(P::gives_fst(id, tree)); assert(plain_holds(d, 0x20000, key, x.h.fst_off.0 as int, x.table)); assert(is_table(x.table, 0, filled(x.tree, x.log)));
        assert(x.table.len() <= stored_size(x.h.fst_sz).0 && x.h.fst_max_sz == x.h.fst_sz);
        assert(contents::<E, P>(d, key, id, total_size as int, x));
        assert(gives::<E, P>(d, key, id, total_size as int)) by { reveal(gives); }
    }
//@ at after let source_fst=
    let ghost tree = nvs(source_fst.entries@);
//@ at after let mut part_disc_header=
    let ghost h0 = part_disc_header;
//@ at end
    proof {
        let fd = self.file.data();
        let o = part_data_off as int;
        assert(df =~= tail(fd, o));
        assert(below(fd, o) == below(old(self).file.data(), o));
        lemma_below_blank(old(self).file.data(), fd, o);
        assert(self.file.wf() && self.file.top() == u64::MAX);
        assert(self.file.refs() == old(self).file.refs());
        assert(fd.len() <= self.current_data_offset);
        assert(self.current_data_offset % 0x20000 == 0x10000);
    }
//@ at loop 0 before
    let ghost tb1 = tmd_buf@;
    proof {
        assert(Seq::<u8>::empty() + h3@ =~= h3@); assert(h3@.subrange(0, 0x18000) =~= h3@); assert(digest@ == sha1(h3@));
        assert(tb1.len() == tb0.len()); assert(tb1.subrange(0x1f4, 0x208) =~= sha1(h3@));
        assert(be64(tb1, 0x1ec) == total_size) by { reveal(be64); }
        assert(forall|i: int| 0 <= i < tb0.len() && !(0x1ec <= i < 0x208) ==> #[trigger] tb1[i] == tb0[i]);
    }
//@ loop 0
    invariant
        tmd_buf@.len() == tb1.len(), 4 <= vp_k <= vp_hi == 0x104 <= tb1.len(),
        forall|i: int| 4 <= i < vp_k ==> #[trigger] tmd_buf@[i] == 0,
        forall|i: int| 0 <= i < tb1.len() && !(4 <= i < vp_k) ==> #[trigger] tmd_buf@[i] == tb1[i],
    decreases vp_hi - vp_k,
//@ at loop 0 after
    proof { lemma_tmd_mid(tb0, tb1, tmd_buf@, h3@, total_size as int); }
//@ at loop 1 before
    let ghost tb2 = tmd_buf@;
//@ loop 1
    invariant_except_break
        forall|j: u64| j < vp_n ==> !zero_hash(#[trigger] countered(tb2, j)),
    invariant
        tmd_buf@.len() == tb2.len() >= 0x208, hasher.acc@ =~= Seq::<u8>::empty(), vp_n <= u64::MAX,
        forall|i: int| 0 <= i < tb2.len() && !(0x19a <= i < 0x1a2) ==> #[trigger] tmd_buf@[i] == tb2[i],
    ensures
        zero_hash(tmd_buf@) || forall|j: u64| j < u64::MAX ==> !zero_hash(#[trigger] countered(tb2, j)),
    decreases u64::MAX - vp_n,
//@ at loop 1 after
    proof { lemma_tmd_done(tb0, tb2, tmd_buf@, h3@, total_size as int); }
    assert(tmd_done(tb0, tmd_buf@, h3@, total_size as int));
//@ at before write_be(vp_mut!(partition_window),&part_header)
    let ghost dt = partition_window.data();
    assert(holds(dt, co, cb));
    assert(phdr_ok(part_header)) by { reveal(phdr_ok); reveal(lifted); }
//@ at after write_be(vp_mut!(partition_window),&part_header)
    let ghost df = partition_window.data();
    let ghost pb = choose|b: Seq<u8>| #[trigger] part_header.writes(b) && df == write_at(dt, 0, b);
    proof {
        lemma_phdr_len(part_header, pb);
        assert(record(df, 0, part_header));
        assert(record(df, part_header.cert_chain_off.0 as int, cert_chain));
        assert(holds(df, 0x2c0, tmd_buf@));
        assert(head_ok(df, part_header, ticket, tmd, cert_chain, h3@, total_size as int));
        assert(holds(df, 0x8000, h3@));
        assert(all_hashed(df, 0x20000, ticket.title_key@, h3@, groups as int));
        assert(df.len() == 0x20000 + groups * 0x200000);
        assert(gives::<E, P>(df, ticket.title_key@, old(partition_def).id(), total_size as int));
        assert(built::<E, P>(df, ticket, tmd, cert_chain, old(partition_def).id(), groups as int));
    }
//@ at after let hash=
    proof {
        assert(tmd_buf@ =~= countered(tb2, i));
        assert(Seq::<u8>::empty() + tmd_buf@.subrange(0x140, tmd_buf@.len() as int) =~= tmd_buf@.subrange(0x140, tmd_buf@.len() as int));
    }
//@ end
} // verus!
