verus! {
/// binrw reads an array element by element
impl BeRead for [Certificate; 3] {
    open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool {
        exists|a: int, b: int| #[trigger] Certificate::parses(d, p, v@[0], a) && #[trigger] Certificate::parses(d, p + a, v@[1], b) && Certificate::parses(d, p + a + b, v@[2], n - a - b)
    }
    open spec fn total() -> bool { false }
}
} // verus!
