verus! {
// ---- what a partition is made of ---------------------------------------------------------------------
pub trait Error {}
//@ enum builder.rs PartitionAddError
impl<E: Error> VpFrom<io::Error> for PartitionAddError<E> {
    open spec fn from_is(e: io::Error, r: Self) -> bool { r == PartitionAddError::<E>::IO(e) }
    fn vp_from(e: io::Error) -> (r: Self) { PartitionAddError::IO(e) }
}
impl<E: Error> VpFrom<binrw::Error> for PartitionAddError<E> {
    open spec fn from_is(e: binrw::Error, r: Self) -> bool { r == PartitionAddError::<E>::BinRW(e) }
    fn vp_from(e: binrw::Error) -> (r: Self) { PartitionAddError::BinRW(e) }
}
impl<E: Error> VpFrom<FstToBytesError> for PartitionAddError<E> {
    open spec fn from_is(e: FstToBytesError, r: Self) -> bool { r == PartitionAddError::<E>::Fst(e) }
    fn vp_from(e: FstToBytesError) -> (r: Self) { PartitionAddError::Fst(e) }
}
impl<E: Error> VpFrom<PartitionAddError<E>> for PartitionAddError<E> {
    open spec fn from_is(e: PartitionAddError<E>, r: Self) -> bool { r == e }
    fn vp_from(e: PartitionAddError<E>) -> (r: Self) { e }
}
/// anything that gives the contents: what it may give depends only on its `id`, which no call changes
pub trait WiiPartitionDefinition<E: Error>: Sized {
    type Id;
    spec fn id(&self) -> Self::Id;
    spec fn gives_header(i: Self::Id, h: DiscHeader) -> bool;
    spec fn gives_bi2(i: Self::Id, b: Seq<u8>) -> bool;
    spec fn gives_apploader(i: Self::Id, b: Seq<u8>) -> bool;
    spec fn gives_fst(i: Self::Id, s: Seq<Node>) -> bool;
    spec fn gives_dol(i: Self::Id, b: Seq<u8>) -> bool;
    spec fn gives_file(i: Self::Id, path: Seq<Seq<char>>, b: Seq<u8>, pad: u32) -> bool;
    fn get_disc_header(&mut self) -> (r: Result<DiscHeader, PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_header((*old(self)).id(), r->Ok_0);
    fn get_bi2(&mut self) -> (r: Result<CowBytes, PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_bi2((*old(self)).id(), r->Ok_0.v@);
    fn get_apploader(&mut self) -> (r: Result<CowBytes, PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_apploader((*old(self)).id(), r->Ok_0.v@);
    fn get_fst(&mut self) -> (r: Result<Fst, PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_fst((*old(self)).id(), nvs(r->Ok_0.entries@));
    fn get_dol(&mut self) -> (r: Result<CowBytes, PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_dol((*old(self)).id(), r->Ok_0.v@);
    fn get_file_data(&mut self, path: &Vec<String>) -> (r: Result<(CowBytes, u32), PartitionAddError<E>>)
        ensures (*final(self)).id() == (*old(self)).id(), r is Ok ==> Self::gives_file((*old(self)).id(), texts(path@), r->Ok_0.0.v@, r->Ok_0.1);
}
/// sizes within the format's reach
pub open spec fn modest<E: Error, P: WiiPartitionDefinition<E>>(i: P::Id) -> bool {
    (forall|h: DiscHeader| #[trigger] P::gives_header(i, h) ==> title_ok(h.game_title@))
    && (forall|b: Seq<u8>| #[trigger] P::gives_bi2(i, b) ==> b.len() <= 0x2000)
    && (forall|s: Seq<Node>| #[trigger] P::gives_fst(i, s) ==> nulfrees(s) && name_room(s) < 0xff_ffff)
}
/// what the table can state as a length: all of it below 4 GiB
pub open spec fn says(len: int, data: Seq<u8>) -> bool { data.len() < 0x1_0000_0000 ==> len == data.len() }
/// the files of the tree are below 4 GiB
pub open spec fn lengths_fit<E: Error, P: WiiPartitionDefinition<E>>(id: P::Id, tree: Seq<Node>) -> bool {
    forall|k: int, b: Seq<u8>, n: u32| 0 <= k < files_of(tree, Seq::empty()).len() && #[trigger] P::gives_file(id, files_of(tree, Seq::empty())[k].0, b, n) ==> b.len() < 0x1_0000_0000
}
}
