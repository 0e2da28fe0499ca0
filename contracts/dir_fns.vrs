verus! {
// ---- std, as far as the extracted code uses it ------------------------------------------------------
#[verifier::external_body]
pub fn vp_string(s: &str) -> (r: String)
    ensures r@ == s@,
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_or_empty(o: Option<&str>) -> (r: &str)
    ensures r@ == (if o is Some { o->Some_0@ } else { Seq::empty() }),
{ unimplemented!() }
pub fn vp_to_u32(x: u64) -> (r: Result<u32, ()>)
    ensures r is Ok == (x < 0x1_0000_0000), r is Ok ==> r->Ok_0 == x,
{ if x < 0x1_0000_0000 { Ok(x as u32) } else { Err(()) } }
#[verifier::external_body]
pub fn vp_iter<'a, T>(v: &'a [T]) -> (r: VpIter<&'a T>)
    ensures r.rest().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r.rest()[i]) == v@[i],
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_cow(v: &Vec<u8>) -> (r: CowBytes)
    ensures r.v@ == v@,
{ unimplemented!() }
//@ enum dir_reader.rs BuildDirError
impl VpFrom<io::Error> for BuildDirError {
    open spec fn from_is(e: io::Error, r: Self) -> bool { r == BuildDirError::IO(e) }
    fn vp_from(e: io::Error) -> (r: Self) { BuildDirError::IO(e) }
}
impl VpFrom<BuildDirError> for BuildDirError {
    open spec fn from_is(e: BuildDirError, r: Self) -> bool { r == e }
    fn vp_from(e: BuildDirError) -> (r: Self) { e }
}
impl Fst {
    /// derived
    pub fn default() -> (r: Fst)
        ensures r.entries@.len() == 0,
    { Fst { entries: Vec::new() } }
}
// ---- the scan of a directory -------------------------------------------------------------------------
/// the names of the first `n` entries and of all below them are valid Unicode
pub open spec fn all_named(p: Seq<Seq<char>>, n: nat) -> bool
    decreases depth(p), n,
{
    n > 0 ==> all_named(p, (n - 1) as nat) && names(p)[n - 1] is Some && (dir_at(joined(p, names(p)[n - 1]->Some_0)) && depth(joined(p, names(p)[n - 1]->Some_0)) < depth(p)
        ==> all_named(joined(p, names(p)[n - 1]->Some_0), names(joined(p, names(p)[n - 1]->Some_0)).len()))
}
pub broadcast proof fn lemma_strs_texts(a: Seq<&str>, b: Seq<String>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i]@,
    ensures #[trigger] strs(a) == #[trigger] texts(b),
{
    assert(strs(a) =~= texts(b));
}
pub broadcast proof fn lemma_texts_pop(d: Seq<String>)
    requires d.len() > 0,
    ensures #[trigger] texts(d.drop_last()) == texts(d).drop_last(),
{
    assert(texts(d.drop_last()) =~= texts(d).drop_last());
}
pub proof fn lemma_path_push(rel: Seq<Seq<char>>, s: Seq<char>)
    requires propers_path(rel), nulfree_path(rel), proper(s), nulfree(s),
    ensures propers_path(rel.push(s)), nulfree_path(rel.push(s)),
{
    assert forall|i: int| 0 <= i < rel.len() + 1 implies proper(#[trigger] rel.push(s)[i]) && nulfree(rel.push(s)[i]) by { if i < rel.len() { assert(proper(rel[i]) && nulfree(rel[i])); } }
}
//@ fn dir_reader.rs build_fst_from_directory_tree_rec stdlib try foriter
//@ bound P =Path
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        ordered(nvs(old(fst).entries@)), nulfrees(nvs(old(fst).entries@)), propers(nvs(old(fst).entries@)),
        nulfree_path(texts(old(dirs)@)), propers_path(texts(old(dirs)@)),
    ensures
        r is Ok ==> grew(nvs(old(fst).entries@), all_below(path.pv(), texts(old(dirs)@)), nvs(final(fst).entries@)),
        r is Ok ==> texts(final(dirs)@) == texts(old(dirs)@),
        r is Ok ==> all_named(path.pv(), names(path.pv()).len()),
    decreases depth(path.pv()),
//@ closure 0 s: &String -> r: &str
    ensures r@ == s@
//@ at start
    let ghost pp = path.pv();
    let ghost rel = texts(dirs@);
    let ghost s0 = nvs(fst.entries@);
    let ghost mut k: nat = 0;
    broadcast use {lemma_strs_texts, lemma_texts_pop};
//@ at loop 0 before
    proof { assert(names(pp).skip(0) =~= names(pp)); }
//@ loop 0
    invariant
        k <= names(pp).len(), vp_it.dir@ == pp, vp_it.left@ == names(pp).skip(k as int), texts(dirs@) == rel,
        grew(s0, below_dir(pp, rel, k), nvs(fst.entries@)), all_named(pp, k),
    decreases vp_it.left@.len(),
//@ at loop 0 start
    let ghost s1 = nvs(fst.entries@);
    let ghost k1 = k;
    proof {
        lemma_below_good(pp, rel, k);
        lemma_grew(s0, below_dir(pp, rel, k), s1);
        if k < names(pp).len() {
            assert(names(pp).skip(k as int)[0] == names(pp)[k as int]);
            assert(names(pp).skip(k as int).drop_first() =~= names(pp).skip((k + 1) as int));
            k = k + 1;
        }
    }
//@ at after let filename=
    let ghost fname = filename@;
    proof {
        fs_axioms::axiom_listed(pp, k1 as int);
        lemma_path_push(rel, fname);
    }
//@ at after dirs.push(
    proof {
        assert(texts(dirs@) =~= rel.push(fname));
        assert(names(pp)[k1 as int] == Some(fname));
        assert(dir_at(joined(pp, fname)));
        fs_axioms::axiom_depth(pp, k1 as int);
        assert(path@ == joined(pp, fname));
        assert(depth(path.pv()) < depth(pp));

    }
//@ at loop 0 end
    proof {
        if dir_at(joined(pp, fname)) {
            assert(rel.push(fname).drop_last() =~= rel);
            assert(texts(dirs@) =~= rel);
            lemma_grew_on(s0, below_dir(pp, rel, k1), s1, entry_files(pp, rel, k1), nvs(fst.entries@));
        } else {
            let e = Disk { rel: rel.push(fname), full: joined(pp, fname) };
            assert(e.rel.drop_last() =~= rel);
            let x = Node::File { name: fname, offset: 0, length: metadata.vlen() as int };
            lemma_grew_more(s0, below_dir(pp, rel, k1), s1, e, x);
            assert(names(pp)[k1 as int] == Some(fname));
            assert(k == k1 + 1);
            assert(entry_files(pp, rel, k1) == seq![e]);
            assert(below_dir(pp, rel, k) =~= below_dir(pp, rel, k1).push(e));
        }
    }
//@ end
//@ fn dir_reader.rs build_fst_from_directory_tree stdlib try
//@ bound P =Path
//@ spec
    ensures
        r is Ok ==> grew(Seq::empty(), all_below(path@, Seq::empty()), nvs(r->Ok_0.entries@)),
        r is Ok ==> all_named(path@, names(path@).len()),
//@ at after let mut dirs=
    proof { lemma_empty_tree(fst.entries@, dirs@); }
//@ end
pub proof fn lemma_empty_tree(v: Seq<FstNode>, d: Seq<String>)
    requires v.len() == 0, d.len() == 0,
    ensures nvs(v) == Seq::<Node>::empty(), ordered(nvs(v)), nulfrees(nvs(v)), propers(nvs(v)), texts(d) == Seq::<Seq<char>>::empty(),
{
    assert(nvs(v) =~= Seq::<Node>::empty());
    assert(texts(d) =~= Seq::<Seq<char>>::empty());
}

// ---- the directory as the contents of a partition ----------------------------------------------------
impl Error for BuildDirError {}
//@ type builder.rs DirPartAddErr
//@ struct builder.rs DirPartitionBuilder
impl Fst {
    /// derived
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Fst)
        ensures nvs(r.entries@) == nvs(self.entries@),
    { unimplemented!() }
}
//@ fn builder.rs try_open stdlib try
//@ spec
    ensures r is Ok ==> file_at(path@) && r->Ok_0.wf() && r->Ok_0.bytes() == content(path@) && r->Ok_0.pos() == 0,
//@ end
pub type DirId = (Seq<Seq<char>>, Seq<Node>);
impl DirPartitionBuilder {
    pub open spec fn vid(&self) -> DirId { (self.base_dir@, nvs(self.fst.entries@)) }
}
pub open spec fn dir_header(i: DirId, h: DiscHeader) -> bool { file_at(joined(i.0, "sys/boot.bin"@)) && exists|n: int| #[trigger] DiscHeader::parses(content(joined(i.0, "sys/boot.bin"@)), 0, h, n) }
pub open spec fn dir_file(i: DirId, name: Seq<char>, b: Seq<u8>) -> bool { file_at(joined(i.0, name)) && b == content(joined(i.0, name)) }
pub open spec fn dir_data(i: DirId, path: Seq<Seq<char>>, b: Seq<u8>, pad: u32) -> bool {
    file_at(at_path(joined(i.0, "files"@), path)) && b == content(at_path(joined(i.0, "files"@), path)) && pad == 0
}
//@ fn builder.rs DirPartitionBuilder::get_disc_header stdlib try
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> dir_header(old(self).vid(), r->Ok_0),
//@ end
//@ fn builder.rs DirPartitionBuilder::get_bi2 stdlib try
//@ retty Result<CowBytes, DirPartAddErr>
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> dir_file(old(self).vid(), "sys/bi2.bin"@, r->Ok_0.v@),
//@ end
//@ fn builder.rs DirPartitionBuilder::get_apploader stdlib try
//@ retty Result<CowBytes, DirPartAddErr>
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> dir_file(old(self).vid(), "sys/apploader.img"@, r->Ok_0.v@),
//@ end
//@ fn builder.rs DirPartitionBuilder::get_fst stdlib try
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> nvs(r->Ok_0.entries@) == old(self).vid().1,
//@ end
//@ fn builder.rs DirPartitionBuilder::get_dol stdlib try
//@ retty Result<CowBytes, DirPartAddErr>
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> dir_file(old(self).vid(), "sys/main.dol"@, r->Ok_0.v@),
//@ end
//@ fn builder.rs DirPartitionBuilder::get_file_data stdlib try
//@ retty Result<(CowBytes, u32), DirPartAddErr>
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures final(self).vid() == old(self).vid(), r is Ok ==> dir_data(old(self).vid(), texts(path@), r->Ok_0.0.v@, r->Ok_0.1),
//@ at loop 0 before
    proof { assert(texts(path@).take(0) =~= Seq::<Seq<char>>::empty()); }
//@ loop 0 iter it
    invariant fs_path@ == at_path(joined(old(self).base_dir@, "files"@), texts(path@).take(it.index@)),
//@ at loop 0 end
    proof {
        let k = it.index@;
        assert(texts(path@).take(k + 1).drop_last() =~= texts(path@).take(k));
        assert(texts(path@).take(k + 1).last() == texts(path@)[k]);
    }
//@ at loop 0 after
    proof { assert(texts(path@).take(path@.len() as int) =~= texts(path@)); }
//@ end
impl WiiPartitionDefinition<BuildDirError> for DirPartitionBuilder {
    type Id = DirId;
    open spec fn id(&self) -> DirId { self.vid() }
    open spec fn gives_header(i: DirId, h: DiscHeader) -> bool { dir_header(i, h) }
    open spec fn gives_bi2(i: DirId, b: Seq<u8>) -> bool { dir_file(i, "sys/bi2.bin"@, b) }
    open spec fn gives_apploader(i: DirId, b: Seq<u8>) -> bool { dir_file(i, "sys/apploader.img"@, b) }
    open spec fn gives_fst(i: DirId, s: Seq<Node>) -> bool { s == i.1 }
    open spec fn gives_dol(i: DirId, b: Seq<u8>) -> bool { dir_file(i, "sys/main.dol"@, b) }
    open spec fn gives_file(i: DirId, path: Seq<Seq<char>>, b: Seq<u8>, pad: u32) -> bool { dir_data(i, path, b, pad) }
    fn get_disc_header(&mut self) -> (r: Result<DiscHeader, PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_disc_header(self) }
    fn get_bi2(&mut self) -> (r: Result<CowBytes, PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_bi2(self) }
    fn get_apploader(&mut self) -> (r: Result<CowBytes, PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_apploader(self) }
    fn get_fst(&mut self) -> (r: Result<Fst, PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_fst(self) }
    fn get_dol(&mut self) -> (r: Result<CowBytes, PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_dol(self) }
    fn get_file_data(&mut self, path: &Vec<String>) -> (r: Result<(CowBytes, u32), PartitionAddError<BuildDirError>>) { DirPartitionBuilder::get_file_data(self, path) }
}

pub mod dir_reader { pub use crate::build_fst_from_directory_tree; }
// ---- the disc made of a directory ---------------------------------------------------------------------
pub open spec fn scanned(dir: Seq<Seq<char>>, t: Seq<Node>) -> bool { grew(Seq::empty(), all_below(joined(joined(dir, "DATA"@), "files"@), Seq::empty()), t) }
#[verifier::opaque]
pub open spec fn holds_record<T: BeRead>(p: Seq<Seq<char>>, v: T) -> bool { exists|n: int| #[trigger] T::parses(content(p), 0, v, n) }
/// `read_be`, the outcome by a name
pub fn read_record<T: BeRead, S: Stream>(s: &mut S) -> (r: BinResult<T>)
    requires (*old(s)).wf(),
    ensures
        (*final(s)).wf(), (*final(s)).refs() == (*old(s)).refs(), (*final(s)).top() == (*old(s)).top(), (*final(s)).data() == (*old(s)).data(), (*final(s)).eof() == (*old(s)).eof(),
        r is Ok && (*old(s)).at() == 0 ==> forall|p: Seq<Seq<char>>| (*old(s)).data() == #[trigger] content(p) ==> holds_record(p, r->Ok_0),
{
    reveal(holds_record);
    read_be(s)
}
/// sizes within the format's reach
#[verifier::opaque]
pub open spec fn dir_modest(dir: Seq<Seq<char>>) -> bool {
    let data = joined(dir, "DATA"@);
    title_read(content(joined(dir, "DATA/sys/boot.bin"@)), 0x20) && title_read(content(joined(data, "sys/boot.bin"@)), 0x20)
    && content(joined(data, "sys/bi2.bin"@)).len() <= 0x2000
    && (forall|t: Seq<Node>| #[trigger] scanned(dir, t) ==> name_room(t) < 0xff_ffff)
    && (forall|tmd: TMD, certs: [Certificate; 3]| #[trigger] holds_record(joined(data, "tmd.bin"@), tmd) && #[trigger] holds_record(joined(data, "cert.bin"@), certs)
        && tmd.contents@.len() > 0 ==> head_room(tmd, certs))
}
pub ghost struct DirPlan { pub header: DiscHeader, pub region: Seq<u8>, pub ticket: Ticket, pub tmd: TMD, pub certs: [Certificate; 3], pub tree: Seq<Node>, pub groups: int }
/// what the files of the directory say
pub open spec fn dir_says(dir: Seq<Seq<char>>, x: DirPlan) -> bool {
    let data = joined(dir, "DATA"@);
    &&& file_at(joined(dir, "DATA/sys/boot.bin"@)) && file_at(joined(dir, "DATA/disc/region.bin"@)) && file_at(joined(data, "ticket.bin"@)) && file_at(joined(data, "tmd.bin"@)) && file_at(joined(data, "cert.bin"@))
    &&& holds_record(joined(dir, "DATA/sys/boot.bin"@), x.header)
    &&& content(joined(dir, "DATA/disc/region.bin"@)).len() >= 32 && x.region == content(joined(dir, "DATA/disc/region.bin"@)).take(32)
    &&& holds_record(joined(data, "ticket.bin"@), x.ticket)
    &&& holds_record(joined(data, "tmd.bin"@), x.tmd)
    &&& holds_record(joined(data, "cert.bin"@), x.certs)
    &&& scanned(dir, x.tree) && all_named(joined(data, "files"@), names(joined(data, "files"@)).len())
}
pub open spec fn cleared(h: DiscHeader) -> DiscHeader { DiscHeader { disable_hash_verification: 0, disable_disc_enc: 0, ..h } }
/// the image: header, region, one data partition at 0x50000 in the table, and that partition
pub open spec fn dir_image(d: Seq<u8>, dir: Seq<Seq<char>>, x: DirPlan) -> bool {
    &&& lay_disc(d, 0, cleared(x.header))
    &&& 0x4e020 <= d.len() && d.subrange(0x4e000, 0x4e020) == x.region
    &&& lists(d, 4, seq![WiiPartTableEntry { part_data_off: ShiftedU64(0x50000), part_type: WiiPartType::Data }])
    &&& 0 < x.groups <= 4915 && built::<BuildDirError, DirPartitionBuilder>(tail(d, 0x50000), x.ticket, x.tmd, x.certs, (joined(dir, "DATA"@), x.tree), x.groups)
}
pub proof fn lemma_scanned(dir: Seq<Seq<char>>, t: Seq<Node>)
    requires scanned(dir, t),
    ensures ordered(t), nulfrees(t), propers(t), count(t) == all_below(joined(joined(dir, "DATA"@), "files"@), Seq::empty()).len(),
{
    let p = joined(joined(dir, "DATA"@), "files"@);
    lemma_below_good(p, Seq::empty(), names(p).len());
    lemma_grew(Seq::empty(), all_below(p, Seq::empty()), t);
}
pub proof fn lemma_dir_modest(dir: Seq<Seq<char>>, t: Seq<Node>)
    requires dir_modest(dir), scanned(dir, t),
    ensures modest::<BuildDirError, DirPartitionBuilder>((joined(dir, "DATA"@), t)),
{
    reveal(dir_modest);
    lemma_scanned(dir, t);
    let i = (joined(dir, "DATA"@), t);
    assert forall|h: DiscHeader| #[trigger] DirPartitionBuilder::gives_header(i, h) implies title_ok(h.game_title@) by {
        let d = content(joined(i.0, "sys/boot.bin"@));
        let n = choose|n: int| #[trigger] DiscHeader::parses(d, 0, h, n);
        theorem_disc_read(d, 0, h, n);
    }
}
pub proof fn lemma_dir_header(dir: Seq<Seq<char>>, h: DiscHeader)
    requires dir_modest(dir), holds_record(joined(dir, "DATA/sys/boot.bin"@), h),
    ensures disc_ok(cleared(h)),
{
    reveal(dir_modest); reveal(holds_record);
    let d = content(joined(dir, "DATA/sys/boot.bin"@));
    let n = choose|n: int| #[trigger] DiscHeader::parses(d, 0, h, n);
    theorem_disc_read(d, 0, h, n);
}
pub proof fn lemma_dir_ticket(p: Seq<Seq<char>>, v: Ticket)
    requires holds_record(p, v),
    ensures v.common_key_idx < 2,
{
    reveal(holds_record);
    let n = choose|n: int| #[trigger] Ticket::parses(content(p), 0, v, n);
    theorem_ticket(content(p), 0, v, n, Seq::empty());
}
pub proof fn lemma_dir_head(dir: Seq<Seq<char>>, tmd: TMD, certs: [Certificate; 3])
    requires dir_modest(dir), holds_record(joined(joined(dir, "DATA"@), "tmd.bin"@), tmd), holds_record(joined(joined(dir, "DATA"@), "cert.bin"@), certs), tmd.contents@.len() > 0,
    ensures head_room(tmd, certs),
{
    reveal(dir_modest);
}
pub proof fn lemma_tail_only(d: Seq<u8>, d2: Seq<u8>, hi: int)
    requires only(d, d2, 0, hi), 0 <= hi <= d.len(),
    ensures tail(d2, hi) == tail(d, hi),
{
    reveal(only);
    assert(tail(d2, hi) =~= tail(d, hi));
}
//@ fn builder.rs build_from_directory stdlib try owned:f readas:read_record
//@ spec
    requires (*old(dest)).wf(), (*old(dest)).top() == u64::MAX, (*old(dest)).data().len() == 0, dir_modest(dir@),
    ensures r is Ok ==> exists|x: DirPlan| #[trigger] dir_says(dir@, x) && dir_image((*final(dest)).data(), dir@, x),
//@ at start
    hide(disc_ok); hide(lay_disc); hide(lists); hide(built); hide(head_room); hide(modest); hide(off_ok);
//@ at before disc_header.disable_
    let ghost h0 = disc_header;
//@ at after let region=
    proof { assert(region@ =~= content(joined(dir@, "DATA/disc/region.bin"@)).take(32)); }
//@ at before let mut dir_builder=
    let ghost tree = nvs(fst.entries@);
    let ghost data = joined(dir@, "DATA"@);
    proof {
        lemma_dir_modest(dir@, tree);
        lemma_dir_header(dir@, h0);
        assert(disc_header == cleared(h0));
        lemma_dir_ticket(joined(data, "ticket.bin"@), ticket);
        if tmd.contents@.len() > 0 { lemma_dir_head(dir@, tmd, cert_chain); }
    }
//@ at after builder.add_partition
    let ghost d1 = builder.file.data();
    let ghost n = choose|n: int| 0 < n <= 4915 && builder.current_data_offset == 0x50000 + 0x20000 + n * 0x200000 && #[trigger] built::<BuildDirError, DirPartitionBuilder>(tail(d1, 0x50000), ticket, tmd, cert_chain, (data, tree), n);
    let ghost e = WiiPartTableEntry { part_data_off: ShiftedU64(0x50000), part_type: WiiPartType::Data };
    proof {
        assert(builder.partitions@ =~= seq![e]);
        assert(off_ok(e.part_data_off)) by { reveal(off_ok); }
        assert(d1.len() >= 0x50000);
    }
//@ at end
    proof {
        let d2 = builder.file.data();
        lemma_tail_only(d1, d2, 0x50000);
        let x = DirPlan { header: h0, region: region@, ticket, tmd, certs: cert_chain, tree, groups: n };
        assert(dir_says(dir@, x));
        assert(dir_image(d2, dir@, x));
    }
//@ end
/// the files that were scanned are below 4 GiB
pub proof fn lemma_grew_lengths(s: Seq<Node>, evs: Seq<Disk>, t: Seq<Node>)
    requires grew(s, evs, t),
    ensures forall|e: Disk| #[trigger] evs.contains(e) && file_at(e.full) ==> content(e.full).len() < 0x1_0000_0000,
    decreases evs.len(),
{
    if evs.len() > 0 {
        let (u, x) = choose|u: Seq<Node>, x: Node| grew(s, evs.drop_last(), u) && #[trigger] one_more(u, evs.last(), x, t);
        lemma_grew_lengths(s, evs.drop_last(), u);
        assert forall|e: Disk| #[trigger] evs.contains(e) && file_at(e.full) implies content(e.full).len() < 0x1_0000_0000 by {
            let i = choose|i: int| 0 <= i < evs.len() && evs[i] == e;
            if i < evs.len() - 1 { assert(evs.drop_last()[i] == e); assert(evs.drop_last().contains(e)); }
        }
    }
}
pub open spec fn disc_files(dir: Seq<Seq<char>>) -> Seq<Seq<char>> { joined(joined(dir, "DATA"@), "files"@) }
/// a path of the tree that leads to a file is one that was scanned
pub proof fn lemma_scanned_file(dir: Seq<Seq<char>>, t: Seq<Node>, rel: Seq<Seq<char>>)
    requires scanned(dir, t), rel.len() > 0, propers_path(rel), file_at(at_path(disc_files(dir), rel)),
    ensures all_below(disc_files(dir), Seq::empty()).contains(Disk { rel, full: at_path(disc_files(dir), rel) }), content(at_path(disc_files(dir), rel)).len() < 0x1_0000_0000,
{
    lemma_file_below(disc_files(dir), rel, 0);
    assert(rel.take(0) =~= Seq::<Seq<char>>::empty());
    lemma_grew_lengths(Seq::empty(), all_below(disc_files(dir), Seq::empty()), t);
}
pub proof fn lemma_scanned_paths(dir: Seq<Seq<char>>, t: Seq<Node>)
    requires scanned(dir, t),
    ensures forall|k: int| 0 <= k < files_of(t, Seq::empty()).len() ==> good_path((#[trigger] files_of(t, Seq::empty())[k]).0), apart(files_of(t, Seq::empty())),
{
    lemma_scanned(dir, t);
    lemma_paths_proper(t, Seq::empty());
    lemma_apart(t, Seq::empty());
    lemma_file_paths(t, Seq::empty());
    assert forall|k: int| 0 <= k < files_of(t, Seq::empty()).len() implies good_path((#[trigger] files_of(t, Seq::empty())[k]).0) by { assert(under_path(files_of(t, Seq::empty())[k].0, Seq::empty())); }
}
pub open spec fn good_path(rel: Seq<Seq<char>>) -> bool { rel.len() > 0 && propers_path(rel) }
/// an entry of the table for the file at that path below the directory, all of which it holds
pub open spec fn carries(d: Seq<u8>, key: Seq<u8>, dir: Seq<Seq<char>>, size: int, f: (Seq<Seq<char>>, Node)) -> bool {
    let full = at_path(disc_files(dir), f.0);
    f.1 is File && file_at(full) && f.1->File_length == content(full).len() && f.1->File_offset % 0x40 == 0 && f.1->File_offset + f.1->File_length <= size
        && plain_holds(d, 0x20000, key, f.1->File_offset as int, content(full))
}
/// the partition made of a directory: the entries of its table are the files below the directory,
/// each at its own place with all of its bytes, and nothing else
pub proof fn theorem_directory(d: Seq<u8>, dir: Seq<Seq<char>>, x: DirPlan, size: int, y: Plan<BuildDirError>)
    requires dir_says(dir, x), contents::<BuildDirError, DirPartitionBuilder>(d, x.ticket.title_key@, (joined(dir, "DATA"@), x.tree), size, y),
    ensures ({
        let done = files_of(filled(y.tree, y.log), Seq::empty());
        is_table(y.table, 0, filled(y.tree, y.log)) && plain_holds(d, 0x20000, x.ticket.title_key@, y.h.fst_off.0 as int, y.table)
        && (forall|k: int| 0 <= k < done.len() ==> carries(d, x.ticket.title_key@, dir, size, #[trigger] done[k]))
        && (forall|j: int, k: int| 0 <= j < k < done.len() ==> (#[trigger] done[j]).1->File_offset + done[j].1->File_length <= (#[trigger] done[k]).1->File_offset)
        && (forall|rel: Seq<Seq<char>>| good_path(rel) && file_at(#[trigger] at_path(disc_files(dir), rel)) ==> exists|k: int| 0 <= k < done.len() && (#[trigger] done[k]).0 == rel)
    }),
{
    let key = x.ticket.title_key@;
    let id = (joined(dir, "DATA"@), x.tree);
    let (t, done, want) = (x.tree, files_of(filled(y.tree, y.log), Seq::empty()), files_of(x.tree, Seq::empty()));
    let root = disc_files(dir);
    lemma_scanned(dir, t);
    lemma_scanned_paths(dir, t);
    assert(lengths_fit::<BuildDirError, DirPartitionBuilder>(id, y.tree)) by {
        assert forall|k: int, b: Seq<u8>, n: u32| 0 <= k < want.len() && #[trigger] DirPartitionBuilder::gives_file(id, want[k].0, b, n) implies b.len() < 0x1_0000_0000 by {
            assert(good_path(want[k].0));
            lemma_scanned_file(dir, t, want[k].0);
        }
    }
    theorem_delivered::<BuildDirError, DirPartitionBuilder>(d, key, id, size, y);
    assert forall|k: int| 0 <= k < done.len() implies carries(d, key, dir, size, #[trigger] done[k]) by {
        let f = done[k];
        assert(delivers::<BuildDirError, DirPartitionBuilder>(d, key, id, size, y.tree, filled(y.tree, y.log), y.h.fst_off.0 + y.h.fst_sz.0, f.0, f.1));
        let (data, pad) = choose|data: Seq<u8>, pad: u32| #[trigger] DirPartitionBuilder::gives_file(id, f.0, data, pad) && data.len() == f.1->File_length
            && f.1->File_offset + data.len() + pad <= size && plain_holds(d, 0x20000, key, f.1->File_offset as int, data + zeros(pad as nat));
        assert(data + zeros(0) =~= data);
    }
    let all = all_below(root, Seq::empty());
    let a = Seq::new(done.len(), |k: int| done[k].0);
    let b = Seq::new(all.len(), |k: int| all[k].rel);
    assert forall|rel: Seq<Seq<char>>| good_path(rel) && file_at(#[trigger] at_path(root, rel)) implies exists|k: int| 0 <= k < done.len() && (#[trigger] done[k]).0 == rel by {
        lemma_files_len(t, Seq::empty());
        lemma_scanned_file(dir, t, rel);
        let j = choose|j: int| 0 <= j < all.len() && all[j] == (Disk { rel, full: at_path(root, rel) });
        assert(b[j] == rel);
        assert(a.no_duplicates()) by {
            assert forall|i: int, k: int| 0 <= i < a.len() && 0 <= k < a.len() && i != k implies a[i] != a[k] by {
                assert(done[i].0 == want[i].0 && done[k].0 == want[k].0);
                assert(want[i].0 != want[k].0) by { if i < k { } else { assert(want[k].0 != want[i].0); } }
            }
        }
        assert forall|i: int| 0 <= i < a.len() implies b.contains(#[trigger] a[i]) by {
            assert(carries(d, key, dir, size, done[i]));
            assert(good_path(want[i].0));
            assert(done[i].0 == want[i].0);
            lemma_scanned_file(dir, t, a[i]);
            let m = choose|m: int| 0 <= m < all.len() && all[m] == (Disk { rel: a[i], full: at_path(root, a[i]) });
            assert(b[m] == a[i]);
        }
        lemma_all_of(a, b, rel);
        let k = choose|k: int| 0 <= k < a.len() && a[k] == rel;
        assert(done[k].0 == rel);
    }
}
} // verus!
