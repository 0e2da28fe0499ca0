verus! {
// ---- Python, as far as the extracted code uses it ---------------------------------------------------
pub struct PyErr { x: u8 }
pub type PyResult<T> = Result<T, PyErr>;
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Py<T> { x: T }
pub struct PyAny { x: u8 }
impl VpFrom<io::Error> for PyErr {
    open spec fn from_is(e: io::Error, r: Self) -> bool { true }
    fn vp_from(e: io::Error) -> (r: Self) { PyErr { x: 0 } }
}
impl VpFrom<PyErr> for PyErr {
    open spec fn from_is(e: PyErr, r: Self) -> bool { r == e }
    fn vp_from(e: PyErr) -> (r: Self) { e }
}
pub mod exceptions {
    use vstd::prelude::*;
    use crate::*;
    pub struct PyException { x: u8 }
    impl PyException { #[verifier::external_body] pub fn new_err(s: String) -> PyErr { unimplemented!() } }
    pub struct PyValueError { x: u8 }
    impl PyValueError { #[verifier::external_body] pub fn new_err(s: String) -> PyErr { unimplemented!() } }
}
#[verifier::external_body]
pub fn vp_any_error() -> (r: PyErr) { unimplemented!() }
/// the error as an exception, the value as it is
pub trait PyErrIoExt<T>: Sized {
    spec fn same(self, r: PyResult<T>) -> bool;
    fn into_pyerr(self) -> (r: PyResult<T>) ensures self.same(r);
    fn into_pyerr_with_path(self, path: &Path) -> (r: PyResult<T>) ensures self.same(r);
}
impl<T> PyErrIoExt<T> for Result<T, io::Error> {
    open spec fn same(self, r: PyResult<T>) -> bool { (self is Ok) == (r is Ok) && (self is Ok ==> r->Ok_0 == self->Ok_0) }
    fn into_pyerr(self) -> (r: PyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(PyErr { x: 0 }) } }
    fn into_pyerr_with_path(self, path: &Path) -> (r: PyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(PyErr { x: 0 }) } }
}
impl<T> PyErrIoExt<T> for Result<T, binrw::Error> {
    open spec fn same(self, r: PyResult<T>) -> bool { (self is Ok) == (r is Ok) && (self is Ok ==> r->Ok_0 == self->Ok_0) }
    fn into_pyerr(self) -> (r: PyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(PyErr { x: 0 }) } }
    fn into_pyerr_with_path(self, path: &Path) -> (r: PyResult<T>) { match self { Ok(x) => Ok(x), Err(_) => Err(PyErr { x: 0 }) } }
}
/// the callback answers this path with something true
pub uninterp spec fn agrees(cb: Py<PyAny>, path: Seq<char>) -> bool;
/// `callback(path)`, as a truth value; an exception counts as false
#[verifier::external_body]
pub fn vp_truthy(cb: &Py<PyAny>, path: String) -> (r: bool)
    ensures r == agrees(*cb, path@),
{ unimplemented!() }
// ---- std -----------------------------------------------------------------------------------------------
#[verifier::external_body]
pub fn vp_fmt<S: VpStr>(s: &S) -> (r: String)
    ensures r@ == s.sv(),
{ unimplemented!() }
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn vp_upper(s: &mut String)
    ensures final(s)@ == upper(old(s)@),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_drain<T>(v: &mut Vec<T>) -> (r: VpIter<T>)
    ensures r.rest() == old(v)@, final(v)@ == Seq::<T>::empty(),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_any<T, F: Fn(&T) -> bool>(v: &Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        !r ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r ==> exists|i: int| #![trigger v@[i]] 0 <= i < v@.len() && f.ensures((&v@[i],), true),
{ unimplemented!() }
/// `s.join("/")`
pub open spec fn slashed(p: Seq<Seq<char>>) -> Seq<char>
    decreases p.len(),
{
    if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { slashed(p.drop_last()) + seq!['/'] + p.last() }
}
#[verifier::external_body]
pub fn vp_join(v: &Vec<String>, sep: &str) -> (r: String)
    requires sep@ == "/"@,
    ensures r@ == slashed(texts(v@)),
{ unimplemented!() }
impl DiscHeader {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: DiscHeader) ensures r == *self { unimplemented!() }
}
impl Fst {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Fst) ensures nvs(r.entries@) == nvs(self.entries@) { unimplemented!() }
}
impl<'a> VpStr for &'a str { open spec fn sv(&self) -> Seq<char> { (*self)@ } }
impl Path {
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<Path>)
        ensures forall|p: Seq<Seq<char>>, s: Seq<char>| self@ == #[trigger] joined(p, s) && proper(s) ==> r is Some,
    { unimplemented!() }
}
pub open spec fn three(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) -> Seq<u8> { a + b + c }
impl BeWrite for [Certificate; 3] {
    open spec fn writes(&self, b: Seq<u8>) -> bool {
        exists|x: Seq<u8>, y: Seq<u8>, z: Seq<u8>| b == #[trigger] three(x, y, z) && self@[0].writes(x) && self@[1].writes(y) && self@[2].writes(z)
    }
}

//@ fn fst.rs Fst::get_entries_mut
//@ spec
    ensures *r == old(self).entries, final(self).entries == *final(r),
//@ end
//@ struct ../disc-riider-py/src/lib.rs Section
//@ struct ../disc-riider-py/src/lib.rs WiiIsoExtractor

// ---- removal -------------------------------------------------------------------------------------------
/// the files for which the callback says so are gone, everything else is as it was
pub open spec fn left1(n: Node, path: Seq<Seq<char>>, cb: Py<PyAny>) -> Seq<Node>
    decreases n,
{
    match n {
        Node::File { name, .. } => if agrees(cb, slashed(path.push(name))) { Seq::empty() } else { seq![n] },
        Node::Dir { name, files } => seq![Node::Dir { name, files: left(files, path.push(name), cb) }],
    }
}
pub open spec fn left(s: Seq<Node>, path: Seq<Seq<char>>, cb: Py<PyAny>) -> Seq<Node>
    decreases s,
{
    if s.len() == 0 { Seq::empty() } else { left(s.drop_last(), path, cb) + left1(s.last(), path, cb) }
}
pub proof fn lemma_left_take(s: Seq<Node>, path: Seq<Seq<char>>, cb: Py<PyAny>, k: int)
    requires 0 <= k < s.len(),
    ensures left(s.take(k + 1), path, cb) == left(s.take(k), path, cb) + left1(s[k], path, cb),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::remove_files_by_callback::should_remove_file retain
//@ subst Python::attach(|py| { callback.call1(py, (path,)).and_then(|obj| obj.is_truthy(py)) }).unwrap_or(false) ==> vp_truthy(callback, path)
//@ subst dirstack.join("/") ==> vp_join(&*dirstack, "/")
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    ensures
        nvs(final(nodes)@) == left(nvs(old(nodes)@), texts(old(dirstack)@), *callback),
        final(dirstack)@ == old(dirstack)@,
    decreases total(nvs(old(nodes)@)),
//@ at start
    let ghost v = nodes@;
    let ghost s = nvs(v);
    let ghost p = texts(dirstack@);
    let ghost ds = dirstack@;
    let ghost mut done = 0int;
    proof {
        lemma_nvs(v);
        assert(s.take(0) =~= Seq::<Node>::empty());
        assert(nvs(nodes@).take(0) =~= Seq::<Node>::empty());
    }
//@ loop 0
    invariant
        dirstack@ == ds, 0 <= done <= v.len(), 0 <= vp_k <= done, nodes@.len() == vp_k + v.len() - done,
        forall|i: int| done <= i < v.len() ==> #[trigger] nodes@[vp_k + i - done] == v[i],
        nvs(nodes@).take(vp_k as int) == left(s.take(done), p, *callback),
    decreases v.len() - done,
//@ at loop 0 start
    let ghost w = nodes@;
    let ghost k = vp_k as int;
    proof {
        lemma_nvs(w); lemma_nvs(v); lemma_total_take(s, done); lemma_count1(s[done]); lemma_total(kids(s[done]));
        lemma_left_take(s, p, *callback, done);
        assert(w[k + done - done] == v[done]);
        assert(nv(w[k]) == s[done]);
        assert forall|x: String| #[trigger] texts(ds.push(x)) == p.push(x@) by { lemma_texts_push(ds, x); }
        assert forall|x: String| (#[trigger] ds.push(x)).drop_last() == ds by { assert(ds.push(x).drop_last() =~= ds); }
    }
//@ at after let vp_keep=
    let ghost x = nodes@;
    let ghost m = x[k];
    proof {
        assert(x =~= w.update(k, m));
        assert(dirstack@ =~= ds);
        assert(vp_keep ==> left1(s[done], p, *callback) == seq![nv(m)]);
        assert(!vp_keep ==> left1(s[done], p, *callback) == Seq::<Node>::empty());
    }
//@ at loop 0 end
    proof {
        lemma_nvs(x); lemma_nvs(nodes@);
        if vp_keep { assert(nvs(nodes@).take(k + 1) =~= nvs(w).take(k) + seq![nv(m)]); }
        else { assert(nodes@ =~= x.remove(k)); assert(nvs(nodes@).take(k) =~= nvs(w).take(k)); assert(nvs(w).take(k) + Seq::<Node>::empty() =~= nvs(w).take(k)); }
        assert forall|i: int| done + 1 <= i < v.len() implies #[trigger] nodes@[vp_k + i - (done + 1)] == v[i] by { assert(w[k + i - done] == v[i]); }
        done = done + 1;
    }
//@ at loop 0 after
    proof {
        lemma_nvs(nodes@);
        assert(s.take(done) =~= s);
        assert(nvs(nodes@).take(vp_k as int) =~= nvs(nodes@));
    }
//@ end

impl WiiIsoExtractor {
    /// every section is a partition of this disc
    pub open spec fn inv(&self) -> bool {
        roomy(self.iso.file)
        && (forall|i: int| 0 <= i < self.iso.partitions@.len() ==> entry_ok(#[trigger] self.iso.partitions@[i]))
        && (forall|i: int| 0 <= i < self.sections_to_extract@.len() ==> (#[trigger] self.sections_to_extract@[i]).partition_reader.inv(self.iso.file.data()))
    }
}
/// section `k` is the first of that name
pub open spec fn first_named(v: Seq<Section>, name: Seq<char>, k: int) -> bool {
    0 <= k < v.len() && v[k].part@ == name && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).part@ != name
}
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::get_partition streq:part fieldref
//@ spec
    ensures
        r is Ok ==> exists|k: int| #[trigger] first_named(old(self).sections_to_extract@, upper(section@), k) && *r->Ok_0 == old(self).sections_to_extract@[k]
            && final(self).sections_to_extract@ == old(self).sections_to_extract@.update(k, *final(r->Ok_0)) && final(self).iso == old(self).iso,
        r is Err ==> final(self).sections_to_extract@ == old(self).sections_to_extract@ && final(self).iso == old(self).iso,
//@ at start
    let ghost v0 = self.sections_to_extract@;
    proof {
        let u = upper(section@);
        assert forall|k: int| #![trigger v0[k]] first_named(v0, u, k) == (0 <= k < v0.len() && v0[k].part@ == u && forall|i: int| 0 <= i < k ==> (#[trigger] v0[i]).part@ != u) by {}
    }
//@ closure 0 part: &Section -> b: bool
    ensures b == (part.part@ == section@)
//@ end
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::get_dol_hash try fieldref streq:part
//@ subst hasher.finalize().try_into().unwrap() ==> hasher.finalize()
//@ spec
    requires old(self).inv(),
    ensures
        final(self).iso.kept(&old(self).iso), final(self).inv(),
        r is Ok ==> exists|k: int, dol: Seq<u8>| #[trigger] first_named(old(self).sections_to_extract@, upper(section@), k)
            && #[trigger] old(self).sections_to_extract@[k].partition_reader.is_dol(old(self).iso.file.data(), dol) && r->Ok_0@ == sha1(dol),
//@ at start
    hide(WiiPartitionReadInfo::inv); hide(WiiPartitionReadInfo::is_dol); hide(WiiPartitionReadInfo::same); hide(entry_ok);
    let ghost v0 = self.sections_to_extract@;
    let ghost u = upper(section@);
//@ at after let partition=
    let ghost p0 = *partition;
    let ghost k = choose|k: int| 0 <= k < v0.len() && p0 == #[trigger] v0[k] && (forall|i: int| 0 <= i < k ==> (#[trigger] v0[i]).part@ != u);
    proof { assert(first_named(v0, u, k)); }
//@ closure 0 part: &Section -> b: bool
    ensures b == (part.part@ == section@)
//@ end
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::remove_files_by_callback lift try
//@ spec
    ensures
        final(self).iso == old(self).iso,
        r is Err ==> final(self).sections_to_extract@ == old(self).sections_to_extract@,
        r is Ok ==> exists|k: int, s: Section| #[trigger] first_named(old(self).sections_to_extract@, upper(section@), k) && final(self).sections_to_extract@ == old(self).sections_to_extract@.update(k, s)
            && s.part == old(self).sections_to_extract@[k].part && s.partition_reader == old(self).sections_to_extract@[k].partition_reader
            && #[trigger] nvs(s.fst.entries@) == left(nvs(old(self).sections_to_extract@[k].fst.entries@), Seq::empty(), callback),
//@ at start
    let ghost v0 = self.sections_to_extract@;
    let ghost u = upper(section@);
//@ at after let partition=
    let ghost fin = *final(partition);
    let ghost p0 = *partition;
    proof { assert(texts(Seq::<String>::empty()) =~= Seq::<Seq<char>>::empty()); }
//@ at end
    proof {
        let k = choose|k: int| #[trigger] first_named(v0, u, k) && p0 == v0[k] && self.sections_to_extract@ == v0.update(k, fin);
        assert(first_named(v0, u, k) && nvs(fin.fst.entries@) == left(nvs(v0[k].fst.entries@), Seq::empty(), callback));
    }
//@ end
//@ fn ../disc-riider-py/src/lib.rs binrw_write_file try owned:f
//@ sig pub fn binrw_write_file<T: BeWrite>(p: &Path, value: &T) -> PyResult<()>
//@ spec
    requires may_write(p@),
    ensures r is Ok ==> wrote::<T>(p@, *value),
//@ at start
    proof { reveal(wrote); lemma_write_empty(); }
//@ end
/// the file at `p` was made to hold the record `v`
#[verifier::opaque]
pub open spec fn wrote<T: BeWrite>(p: Seq<Seq<char>>, v: T) -> bool { exists|b: Seq<u8>| #[trigger] stored(p, b) && v.writes(b) }

pub open spec fn section_type(name: Seq<char>, t: WiiPartType) -> bool {
    (name == "DATA"@ && t is Data) || (name == "CHANNEL"@ && t is Channel) || (name == "UPDATE"@ && t is Update)
}
/// entry `k` is the first of type `t`
pub open spec fn first_of(v: Seq<WiiPartTableEntry>, t: WiiPartType, k: int) -> bool {
    0 <= k < v.len() && v[k].part_type == t && forall|i: int| 0 <= i < k ==> (#[trigger] v[i]).part_type != t
}
/// `s` is the partition of that name as the disc has it
pub open spec fn fresh_section(e: WiiIsoExtractor, name: Seq<char>, s: Section) -> bool {
    let d = e.iso.file.data();
    let p = s.partition_reader;
    s.part@ == name && nvs(s.fst.entries@) == nvs(p.fst.entries@) && p.inv(d)
    && (exists|t: WiiPartType, k: int| #[trigger] section_type(name, t) && #[trigger] first_of(e.iso.partitions@, t, k) && p.partition_entry == e.iso.partitions@[k])
    && disc_at(p.plain(d), 0, p.encrypted_header) && readable(p.plain(d), p.encrypted_header.fst_off.0 as int, nvs(p.fst.entries@))
}
/// `v.iter().find(f)` on a slice
#[verifier::external_body]
pub fn vp_find_in<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: Option<&T>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] f.requires((&v@[i],)),
    ensures
        r is None ==> forall|i: int| #![trigger v@[i]] 0 <= i < v@.len() ==> f.ensures((&v@[i],), false),
        r is Some ==> exists|k: int| 0 <= k < v@.len() && *r->Some_0 == #[trigger] v@[k] && f.ensures((&v@[k],), true)
            && forall|i: int| #![trigger v@[i]] 0 <= i < k ==> f.ensures((&v@[i],), false),
{ v.iter().find(|x| f(x)) }
#[verifier::external_body]
pub fn vp_same_type(a: WiiPartType, b: WiiPartType) -> (r: bool)
    ensures r == (a == b),
{ unimplemented!() }
#[verifier::external_body]
pub fn vp_cloned(x: Option<&WiiPartTableEntry>) -> (r: Option<WiiPartTableEntry>)
    ensures r is Some == (x is Some), x is Some ==> r->Some_0 == *x->Some_0,
{ unimplemented!() }
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::prepare_extract_section try fieldref streq:part strmatch maperr
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).iso.kept(&old(self).iso),
        r is Err ==> final(self).sections_to_extract@ == old(self).sections_to_extract@,
        r is Ok ==> exists|s: Section| #[trigger] fresh_section(*old(self), upper(section@), s) && final(self).sections_to_extract@ == old(self).sections_to_extract@.push(s)
            && forall|i: int| 0 <= i < old(self).sections_to_extract@.len() ==> (#[trigger] old(self).sections_to_extract@[i]).part@ != upper(section@),
//@ closure 0 s: &Section -> b: bool
    ensures b == (s.part@ == section@)
//@ closure 1 p: &WiiPartTableEntry -> b: bool
    ensures b == (p.part_type == part_type)
//@ at start
    let ghost u = upper(section@);
    let ghost pp = self.iso.partitions@;
//@ at after let partition=
    proof {
        let k = choose|k: int| 0 <= k < pp.len() && partition == #[trigger] pp[k] && pp[k].part_type == part_type && forall|i: int| 0 <= i < k ==> (#[trigger] pp[i]).part_type != part_type;
        assert(first_of(pp, part_type, k) && section_type(u, part_type) && partition == pp[k]);
    }
//@ at end
    assert(fresh_section(*old(self), u, self.sections_to_extract@.last()));
//@ end
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::new try maperr
//@ ret r
//@ spec
    ensures
        r is Ok ==> r->Ok_0.inv() && r->Ok_0.sections_to_extract@.len() == 0 && r->Ok_0.iso.file.data() == content(path@)
            && disc_at(content(path@), 0, r->Ok_0.iso.header) && 0x4e020 <= content(path@).len() && r->Ok_0.iso.region@ == content(path@).subrange(0x4e000, 0x4e020)
            && lists(content(path@), 4, r->Ok_0.iso.partitions@),
//@ end

// ---- extraction ------------------------------------------------------------------------------------------
pub open spec fn fpath(base: Seq<Seq<char>>, p: Seq<Seq<char>>) -> Seq<Seq<char>>
    decreases p.len(),
{
    if p.len() == 0 { base } else { joined(fpath(base, p.drop_last()), p.last()) }
}
pub open spec fn files_dir(sp: Seq<Seq<char>>) -> Seq<Seq<char>> { joined(sp, "files"@) }
/// the closure that writes the files, with what it captures
pub struct VpExtract<'a, 'b> {
    pub section_path: &'a Path,
    pub wii_encrypt_reader: &'a mut CryptPartReader<'b, File>,
    pub buffer: &'a mut [u8; 0x10000],
    pub log: Ghost<Seq<Ev<io::Error>>>,
}
pub ghost struct ExtractRefs<'b> {
    pub w: CryptPartReader<'b, File>, pub r: CryptRefs<File, Seq<Seq<char>>>, pub sp: Seq<Seq<char>>, pub b: [u8; 0x10000],
}
/// the decrypted partition
pub ghost struct Part { pub image: Seq<u8>, pub off: int, pub key: Seq<u8>, pub size: int }
pub open spec fn part_of<'b>(w: CryptPartReader<'b, File>) -> Part {
    Part { image: (*w.rs).data(), off: w.crypt_part_state.data_offset as int, key: w.crypt_part_state.encryption_key@, size: w.crypt_part_state.data_size as int }
}
/// `b` is what a partition has at `p`: `n` bytes or up to the end of the data
pub open spec fn cut_out(r: Part, p: int, n: int, b: Seq<u8>) -> bool {
    b.len() <= n && (b.len() == n || p + b.len() >= r.size) && b == plain_seq(r.image, r.off, r.key, p, b.len() as int)
}
pub open spec fn file_out(sp: Seq<Seq<char>>, r: Part, path: Seq<Seq<char>>, n: Node) -> bool {
    n is File ==> exists|b: Seq<u8>| #[trigger] stored(fpath(files_dir(sp), path), b) && cut_out(r, n->File_offset, n->File_length, b)
}
impl<'a, 'b> VpExtract<'a, 'b> {
    pub open spec fn good(&self) -> bool {
        self.wii_encrypt_reader.inv()
        && forall|i: int| 0 <= i < self.log@.len() && (#[trigger] self.log@[i]).res is Ok ==> file_out(self.section_path@, part_of(*self.wii_encrypt_reader), self.log@[i].path, self.log@[i].node)
    }
    #[verifier::prophetic]
    pub open spec fn erefs(&self) -> ExtractRefs<'b> {
        ExtractRefs { w: *final(self.wii_encrypt_reader), r: (*self.wii_encrypt_reader).refs(), sp: self.section_path@, b: *final(self.buffer) }
    }
    pub open spec fn may(&self, path: Seq<Seq<char>>, n: Node) -> bool { file_leave(self.section_path@, path, n) }
}
pub open spec fn file_leave(sp: Seq<Seq<char>>, path: Seq<Seq<char>>, n: Node) -> bool {
    path.len() > 0 && (n is File ==> proper(path.last()) && may_write(fpath(files_dir(sp), path)))
}
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::extract_to@callback_all_files noprogress:callback tryid hoist
//@ sig fn body(&mut self, names: &Vec<&str>, node: &FstNode) -> Result<(), io::Error>
//@ implhdr impl<'a, 'b> VpExtract<'a, 'b>
//@ captures &section_path wii_encrypt_reader buffer
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).good(), old(self).may(strs(names@), nv(*node)),
    ensures
        final(self).erefs() == old(self).erefs(), final(self).log == old(self).log, final(self).wii_encrypt_reader.inv(),
        r is Ok ==> file_out(old(self).section_path@, part_of(*old(self).wii_encrypt_reader), strs(names@), nv(*node)),
//@ at start
    proof { lemma_write_empty(); }
    let ghost w0 = *self.wii_encrypt_reader;
    let ghost rf = part_of(w0);
    let ghost base = files_dir(self.section_path@);
    let ghost ps = strs(names@);
    let ghost (off, len) = (nv(*node)->File_offset, nv(*node)->File_length);
//@ loop 0 iter it
    invariant filepath@ == fpath(base, ps.take(it.index@ as int)),
//@ at loop 0 before
    proof { assert(ps.take(0) =~= Seq::<Seq<char>>::empty()); }
//@ at loop 0 start
    let ghost k = it.index@ as int;
//@ at loop 0 end
    proof { assert(ps.take(k + 1).drop_last() =~= ps.take(k)); assert(name@ == ps[k]); }
//@ at loop 0 after
    proof { assert(ps.take(ps.len() as int) =~= ps); assert(filepath@ == joined(fpath(base, ps.drop_last()), ps.last())); }
//@ loop 1
    invariant
        outfile.wf(), outfile.path() == fpath(base, ps), outfile.pos() == outfile.bytes().len(), outfile.bytes().len() + bytes_left == len,
        self.wii_encrypt_reader.inv(), self.erefs() == old(self).erefs(), self.log == old(self).log,
        self.wii_encrypt_reader.crypt_part_state.current_position == off + outfile.bytes().len(),
        outfile.bytes() == plain_seq(rf.image, rf.off, rf.key, off, outfile.bytes().len() as int),
    decreases bytes_left,
//@ at loop 1 after
    assert(cut_out(rf, off, len, outfile.bytes()));
//@ at loop 1 start
    let ghost b0 = outfile.bytes();
//@ at loop 1 end
    proof {
        assert(outfile.bytes() =~= plain_seq(rf.image, rf.off, rf.key, off, outfile.bytes().len() as int));
    }
//@ end
impl<'a, 'b> VpVisitor<io::Error> for VpExtract<'a, 'b> {
    open spec fn log(&self) -> Seq<Ev<io::Error>> { self.log@ }
    open spec fn inv(&self) -> bool { self.good() }
    type Refs = ExtractRefs<'b>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> ExtractRefs<'b> { self.erefs() }
    open spec fn takes(&self, path: Seq<Seq<char>>, node: Node) -> bool { self.may(path, node) }
    fn vp_call(&mut self, path: &Vec<&str>, node: &FstNode) -> (r: Result<(), io::Error>) {
        let r = self.body(path, node);
        proof { self.log@ = self.log@.push(Ev { path: strs(path@), node: nv(*node), after: nv(*node), res: r }); }
        r
    }
}
pub fn vp_extract<'a, 'b>(section_path: &'a Path, wii_encrypt_reader: &'a mut CryptPartReader<'b, File>, buffer: &'a mut [u8; 0x10000]) -> (r: VpExtract<'a, 'b>)
    requires old(wii_encrypt_reader).inv(),
    ensures
        r.good(), r.log@.len() == 0, r.section_path@ == section_path@,
        r.erefs() == (ExtractRefs { w: *final(wii_encrypt_reader), r: (*old(wii_encrypt_reader)).refs(), sp: section_path@, b: *final(buffer) }),
{
    VpExtract { section_path, wii_encrypt_reader, buffer, log: Ghost(Seq::empty()) }
}

/// where the parts of a section go
pub open spec fn disc_file(sp: Seq<Seq<char>>, name: Seq<char>) -> Seq<Seq<char>> { joined(joined(sp, "disc"@), name) }
/// leave to make the files of a section, and no others
#[verifier::opaque]
pub open spec fn section_leave(path: Seq<Seq<char>>, s: Section) -> bool {
    let sp = joined(path, s.part@);
    let vs = visits(nvs(s.fst.entries@), Seq::empty());
    may_write(disc_file(sp, "header.bin"@)) && may_write(disc_file(sp, "region.bin"@)) && sys_writable(sp)
    && may_write(joined(sp, "cert.bin"@)) && may_write(joined(sp, "tmd.bin"@)) && may_write(joined(sp, "ticket.bin"@))
    && leave_all(sp, vs)
}
#[verifier::opaque]
pub open spec fn wrote_sys(sp: Seq<Seq<char>>, p: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    wrote_boot(sp, p.encrypted_header) && wrote_bi2(sp, p, d) && wrote_appl(sp, p, d) && wrote_dol(sp, p, d) && wrote_fst(sp, p, d)
}
pub open spec fn part_in(p: WiiPartitionReadInfo, d: Seq<u8>) -> Part {
    Part { image: d, off: p.encrypt_part_state.data_offset as int, key: p.encrypt_part_state.encryption_key@, size: p.encrypt_part_state.data_size as int }
}
/// every file of the tree, at its path, with the bytes the partition has for it
#[verifier::opaque]
pub open spec fn wrote_files(sp: Seq<Seq<char>>, p: WiiPartitionReadInfo, vs: Seq<(Seq<Seq<char>>, Node)>, d: Seq<u8>) -> bool {
    forall|i: int| 0 <= i < vs.len() ==> file_out(sp, part_in(p, d), (#[trigger] vs[i]).0, vs[i].1)
}
#[verifier::opaque]
pub open spec fn wrote_certs(sp: Seq<Seq<char>>, p: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|c: [Certificate; 3], n: int| #[trigger] <[Certificate; 3]>::parses(d, p.partition_entry.part_data_off.0 + p.wii_partition_header.cert_chain_off.0, c, n) && wrote::<[Certificate; 3]>(joined(sp, "cert.bin"@), c)
}
#[verifier::opaque]
pub open spec fn wrote_tmd(sp: Seq<Seq<char>>, p: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|t: TMD| #[trigger] lay_tmd(d, p.partition_entry.part_data_off.0 + p.wii_partition_header.tmd_off.0, t) && wrote::<TMD>(joined(sp, "tmd.bin"@), t)
}
#[verifier::opaque]
pub open spec fn section_out(path: Seq<Seq<char>>, h: DiscHeader, region: Seq<u8>, s: Section, d: Seq<u8>) -> bool {
    let sp = joined(path, s.part@);
    let p = s.partition_reader;
    wrote::<DiscHeader>(disc_file(sp, "header.bin"@), h) && stored(disc_file(sp, "region.bin"@), region)
    && wrote_sys(sp, p, d) && wrote_files(sp, p, visits(nvs(s.fst.entries@), Seq::empty()), d)
    && wrote_certs(sp, p, d) && wrote_tmd(sp, p, d) && wrote::<Ticket>(joined(sp, "ticket.bin"@), p.wii_partition_header.ticket)
}
pub proof fn lemma_leave(path: Seq<Seq<char>>, s: Section)
    requires section_leave(path, s),
    ensures ({
        let sp = joined(path, s.part@);
        may_write(disc_file(sp, "header.bin"@)) && may_write(disc_file(sp, "region.bin"@)) && sys_writable(sp)
        && may_write(joined(sp, "cert.bin"@)) && may_write(joined(sp, "tmd.bin"@)) && may_write(joined(sp, "ticket.bin"@))
        && leave_all(sp, visits(nvs(s.fst.entries@), Seq::empty()))
    }),
{ reveal(section_leave); }
pub open spec fn leave_all(sp: Seq<Seq<char>>, vs: Seq<(Seq<Seq<char>>, Node)>) -> bool { forall|i: int| 0 <= i < vs.len() ==> file_leave(sp, (#[trigger] vs[i]).0, vs[i].1) }
pub proof fn lemma_takes<'a, 'b>(x: VpExtract<'a, 'b>, vs: Seq<(Seq<Seq<char>>, Node)>)
    requires leave_all(x.section_path@, vs),
    ensures takes_all::<io::Error, VpExtract<'a, 'b>>(x, vs),
{}
pub proof fn lemma_files_out<'a, 'b>(x: VpExtract<'a, 'b>, sp: Seq<Seq<char>>, p: WiiPartitionReadInfo, vs: Seq<(Seq<Seq<char>>, Node)>, d: Seq<u8>, r: Result<(), io::Error>)
    requires x.good(), x.section_path@ == sp, part_of(*x.wii_encrypt_reader) == part_in(p, d), ran(Seq::<Ev<io::Error>>::empty(), x.log@, vs, r), r is Ok,
    ensures wrote_files(sp, p, vs, d),
{
    reveal(ran); reveal(wrote_files);
    let l = x.log@;
    assert forall|i: int| 0 <= i < vs.len() implies file_out(sp, part_in(p, d), (#[trigger] vs[i]).0, vs[i].1) by {
        let z = Seq::<Ev<io::Error>>::empty();
        assert(l[z.len() + i].res is Ok) by { if i == vs.len() - 1 { assert(l.last() == l[i]); } }
        assert(l[i].path == vs[i].0 && l[i].node == vs[i].1);
    }
}
pub proof fn lemma_section_out(path: Seq<Seq<char>>, h: DiscHeader, region: Seq<u8>, s: Section, d: Seq<u8>)
    requires ({
        let sp = joined(path, s.part@);
        let p = s.partition_reader;
        wrote::<DiscHeader>(disc_file(sp, "header.bin"@), h) && stored(disc_file(sp, "region.bin"@), region)
        && wrote_sys(sp, p, d) && wrote_files(sp, p, visits(nvs(s.fst.entries@), Seq::empty()), d)
        && wrote_certs(sp, p, d) && wrote_tmd(sp, p, d) && wrote::<Ticket>(joined(sp, "ticket.bin"@), p.wii_partition_header.ticket)
    }),
    ensures section_out(path, h, region, s, d),
{ reveal(section_out); }
//@ fn ../disc-riider-py/src/lib.rs WiiIsoExtractor::extract_to noprogress:callback try foriter fmt liftclosure:callback_all_files:vp_extract
//@ captures &section_path wii_encrypt_reader buffer
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires
        old(self).inv(),
        forall|i: int| 0 <= i < old(self).sections_to_extract@.len() ==> section_leave(path@, #[trigger] old(self).sections_to_extract@[i]),
    ensures
        final(self).inv(), final(self).iso.kept(&old(self).iso), final(self).sections_to_extract@.len() == 0,
        r is Ok ==> forall|i: int| 0 <= i < old(self).sections_to_extract@.len() ==>
            section_out(path@, old(self).iso.header, old(self).iso.region@, #[trigger] old(self).sections_to_extract@[i], old(self).iso.file.data()),
//@ at start
    hide(wrote_boot); hide(wrote_bi2); hide(wrote_appl); hide(wrote_dol); hide(wrote_fst); hide(lay_tmd); hide(lay_phdr); hide(file_out); hide(nvs); hide(visits); hide(leave_all); hide(EncryptedPartState::inv); hide(takes_all);
    let ghost e0 = *self;
    let ghost v = self.sections_to_extract@;
    let ghost d = self.iso.file.data();
    let ghost mut k = 0int;
//@ loop 0
    invariant
        0 <= k <= v.len(), vp_it.rest() == v.skip(k), self.iso.kept(&e0.iso), roomy(self.iso.file), self.sections_to_extract@.len() == 0,
        forall|i: int| 0 <= i < k ==> section_out(path@, e0.iso.header, e0.iso.region@, #[trigger] v[i], d),
    decreases v.len() - k,
//@ at after let mut partition=
    let ghost sec = v[k];
    let ghost sp = joined(path@, sec.part@);
    let ghost p0 = sec.partition_reader;
    let ghost vs = visits(nvs(sec.fst.entries@), Seq::empty());
    proof { assert(e0.sections_to_extract@[k] == sec); assert(partition == sec); lemma_leave(path@, sec); }
//@ at before let mut buffer=
    proof { reveal(wrote_sys); assert(wrote_sys(sp, p0, d)); }
//@ at before let vp_r=
    let ghost x0 = vp_v;
    proof { assert(x0.log() =~= Seq::<Ev<io::Error>>::empty()); lemma_takes(vp_v, vs); assert(part_of(*vp_v.wii_encrypt_reader) == part_in(p0, d)); }
//@ at after let vp_r=
    proof { assert(ran(x0.log(), vp_v.log(), vs, vp_r)); if vp_r is Ok { lemma_files_out(vp_v, sp, p0, vs, d, vp_r); } }
//@ at before drop(
    assert(wrote_files(sp, p0, vs, d));
//@ at after drop(
    assert(self.iso.kept(&e0.iso) && partition.partition_reader.same(&p0) && partition.partition_reader.inv(d));
//@ at after binrw_write_file(&section_path.join("cert.bin")
    proof { reveal(wrote_certs); assert(wrote_certs(sp, p0, d)); }
//@ at after binrw_write_file(&section_path.join("tmd.bin")
    proof { reveal(wrote_tmd); assert(wrote_tmd(sp, p0, d)); }
//@ at loop 0 end
    proof {
        lemma_section_out(path@, e0.iso.header, e0.iso.region@, sec, d);
        k = k + 1;
    }
//@ end
} // verus!
