verus! {
/// a table of 20-byte hashes is given by its entries
pub proof fn lemma_table(x: Seq<u8>, f: spec_fn(int) -> Seq<u8>, n: int)
    requires
        0 <= n, x.len() == 20 * n,
        forall|k: int| 0 <= k < n ==> (#[trigger] f(k)).len() == 20 && x.subrange(20 * k, 20 * k + 20) == f(k),
    ensures x == Seq::new((20 * n) as nat, |i: int| f(i / 20)[i % 20]),
{
    assert forall|i: int| 0 <= i < 20 * n implies x[i] == f(i / 20)[i % 20] by {
        let k = i / 20;
        assert(f(k).len() == 20);
        assert(x.subrange(20 * k, 20 * k + 20)[i % 20] == x[20 * k + i % 20]);
    }
    assert(x =~= Seq::new((20 * n) as nat, |i: int| f(i / 20)[i % 20]));
}
pub open spec fn h0_entry(data: Seq<u8>, j: int) -> Seq<u8> { sha1(data.subrange(j * 0x400, j * 0x400 + 0x400)) }
pub open spec fn h1_entry(g: Seq<u8>, b: int) -> Seq<u8> { sha1(h0_of(dat(g, b))) }
pub open spec fn h2_entry(g: Seq<u8>, s: int) -> Seq<u8> { sha1(h1_of(g, s)) }
pub proof fn lemma_h0(x: Seq<u8>, data: Seq<u8>)
    requires x.len() == 620, forall|j: int| 0 <= j < 31 ==> x.subrange(20 * j, 20 * j + 20) == #[trigger] h0_entry(data, j),
    ensures x == h0_of(data),
{
    lemma_table(x, |j: int| h0_entry(data, j), 31);
    assert(x =~= h0_of(data));
}
pub proof fn lemma_h1(x: Seq<u8>, g: Seq<u8>, s: int)
    requires x.len() == 160, forall|c: int| 0 <= c < 8 ==> x.subrange(20 * c, 20 * c + 20) == #[trigger] h1_entry(g, s * 8 + c),
    ensures x == h1_of(g, s),
{
    let f = |c: int| h1_entry(g, s * 8 + c);
    assert forall|k: int| 0 <= k < 8 implies (#[trigger] f(k)).len() == 20 && x.subrange(20 * k, 20 * k + 20) == f(k) by {
        assert(x.subrange(20 * k, 20 * k + 20) == h1_entry(g, s * 8 + k));
    }
    lemma_table(x, f, 8);
    assert(x =~= h1_of(g, s));
}
pub proof fn lemma_h2(x: Seq<u8>, g: Seq<u8>)
    requires x.len() == 160, forall|s: int| 0 <= s < 8 ==> x.subrange(20 * s, 20 * s + 20) == #[trigger] h2_entry(g, s),
    ensures x == h2_of(g),
{
    lemma_table(x, |s: int| h2_entry(g, s), 8);
    assert(x =~= h2_of(g));
}
/// changing bytes inside block `c` only changes that block
pub proof fn lemma_frame(p0: Seq<u8>, p1: Seq<u8>, c: int, n: int)
    requires
        0 <= c < n, p0.len() == n * 0x8000, p1.len() == p0.len(),
        forall|i: int| 0 <= i < p0.len() && !(c * 0x8000 <= i < c * 0x8000 + 0x8000) ==> p1[i] == p0[i],
    ensures
        forall|b: int| 0 <= b < n && b != c ==> #[trigger] blk(p1, b) == blk(p0, b),
{
    assert forall|b: int| 0 <= b < n && b != c implies #[trigger] blk(p1, b) == blk(p0, b) by {
        assert(blk(p1, b) =~= blk(p0, b));
    }
}
/// blocks of a buffer from block 8s on
pub proof fn lemma_tail(g: Seq<u8>, s: int, b: int)
    requires g.len() == 0x200000, 0 <= s < 8, 0 <= b < (8 - s) * 8,
    ensures blk(g.subrange(s * 0x40000, 0x200000), b) == blk(g, s * 8 + b),
{
    assert(blk(g.subrange(s * 0x40000, 0x200000), b) =~= blk(g, s * 8 + b));
}

//@ fn reader_writer.rs hash_encrypt_block
//@ subst [0; 16].as_ref() ==> [0u8; 16].as_ref()
//@ spec
    ensures
        forall|b: int| 0 <= b < 64 ==> #[trigger] blk(final(buffer)@, b) == stored_block(old(buffer)@, encryption_key@, b),
        h3_ref is Some ==> final(h3_ref->Some_0)@ == sha1(h2_of(old(buffer)@)),
//@ at start
    let ghost g0 = buffer@;
//@ loop 0
    invariant
        g0.len() == 0x200000, buffer@.len() == 0x200000, h2@.len() == 160, hasher.acc@ == Seq::<u8>::empty(),
        forall|b: int| 0 <= b < 64 ==> #[trigger] dat(buffer@, b) == dat(g0, b),
        forall|b: int| 0 <= b < s * 8 ==> (#[trigger] blk(buffer@, b)).subrange(0, 0x340) == head1_of(g0, b),
        forall|k: int| 0 <= k < s ==> h2@.subrange(20 * k, 20 * k + 20) == #[trigger] h2_entry(g0, k),
//@ at loop 0 start
    let ghost us: usize = s;
    let ghost gs = buffer@;
    let ghost n: int = (8 - s) * 8;
    let ghost p0 = gs.subrange(s * 0x40000, 0x200000);
//@ loop 1
    invariant
        0 <= s < 8, n == (8 - s) * 8, p0.len() == n * 0x8000, ptr1@.len() == n * 0x8000, h1@.len() == 160, hasher.acc@ == Seq::<u8>::empty(),
        forall|b: int| 0 <= b < n ==> #[trigger] dat(ptr1@, b) == dat(p0, b),
        forall|b: int| 0 <= b < c ==> (#[trigger] blk(ptr1@, b)).subrange(0, 0x280) == h0_of(dat(p0, b)) + zeros(0x14),
        forall|b: int| c <= b < n ==> #[trigger] blk(ptr1@, b) == blk(p0, b),
        forall|k: int| 0 <= k < c ==> h1@.subrange(20 * k, 20 * k + 20) == #[trigger] h1_entry(p0, k),
//@ at loop 1 start
    let ghost uc: usize = c;
    let ghost pc = ptr1@;
    let ghost hc = h1@;
    let ghost d = dat(p0, c as int);
//@ loop 2
    invariant
        0 <= s < 8, 0 <= c < 8, n == (8 - s) * 8, pc.len() == n * 0x8000, ptr0@ == pc.subrange(c * 0x8000, n * 0x8000), h0@.len() == 620, hasher.acc@ == Seq::<u8>::empty(),
        d == dat(pc, c as int),
        forall|k: int| 0 <= k < j ==> h0@.subrange(20 * k, 20 * k + 20) == #[trigger] h0_entry(d, k),
//@ at loop 2 start
    let ghost uj: usize = j;
    let ghost hj = h0@;
    let ghost vj: int = j as int;
    assert(ptr0@.subrange((vj + 1) * 0x400, ptr0@.len() as int).subrange(0, 0x400) =~= d.subrange(vj * 0x400, vj * 0x400 + 0x400));
    assert(ptr0@.subrange((vj + 1) * 0x400, (vj + 2) * 0x400) =~= d.subrange(vj * 0x400, vj * 0x400 + 0x400));
    assert(Seq::<u8>::empty() + d.subrange(vj * 0x400, vj * 0x400 + 0x400) =~= d.subrange(vj * 0x400, vj * 0x400 + 0x400));
//@ at loop 2 end
    assert(h0@.subrange(20 * j, 20 * j + 20) =~= h0_entry(d, j as int));
    assert forall|k: int| 0 <= k < j implies h0@.subrange(20 * k, 20 * k + 20) == #[trigger] h0_entry(d, k) by {
        assert(h0@.subrange(20 * k, 20 * k + 20) =~= hj.subrange(20 * k, 20 * k + 20));
    }
//@ at loop 2 after
    proof { lemma_h0(h0@, d); }
    assert(Seq::<u8>::empty() + h0@ =~= h0@);
//@ at loop 1 end
    proof { lemma_frame(pc, ptr1@, c as int, n); }
    assert(h1@.subrange(20 * c, 20 * c + 20) =~= h1_entry(p0, c as int));
    assert forall|k: int| 0 <= k < c implies h1@.subrange(20 * k, 20 * k + 20) == #[trigger] h1_entry(p0, k) by {
        assert(h1@.subrange(20 * k, 20 * k + 20) =~= hc.subrange(20 * k, 20 * k + 20));
    }
    assert(blk(ptr1@, c as int).subrange(0, 0x280) =~= h0_of(d) + zeros(0x14));
    assert(dat(ptr1@, c as int) =~= dat(pc, c as int));
    assert forall|b: int| 0 <= b < n implies #[trigger] dat(ptr1@, b) == dat(pc, b) by {
        if b != c { assert(blk(ptr1@, b) == blk(pc, b)); }
    }
//@ at loop 1 after
    proof {
        assert forall|c: int| 0 <= c < 8 implies h1@.subrange(20 * c, 20 * c + 20) == #[trigger] h1_entry(g0, s * 8 + c) by {
            assert(h1@.subrange(20 * c, 20 * c + 20) == h1_entry(p0, c));
            lemma_tail(gs, s as int, c);
            assert(dat(gs, s * 8 + c) == dat(g0, s * 8 + c));
        }
        lemma_h1(h1@, g0, s as int);
    }
    assert(Seq::<u8>::empty() + h1@ =~= h1@);
    let ghost p1 = ptr1@;
    let ghost hs = h2@;
//@ loop 3
    invariant
        0 <= s < 8, n == (8 - s) * 8, p1.len() == n * 0x8000, ptr1@.len() == n * 0x8000, h1@.len() == 160,
        forall|b: int| 0 <= b < n ==> #[trigger] dat(ptr1@, b) == dat(p1, b),
        forall|b: int| 0 <= b < c ==> (#[trigger] blk(ptr1@, b)).subrange(0, 0x340) == blk(p1, b).subrange(0, 0x280) + h1@ + zeros(0x20),
        forall|b: int| c <= b < n ==> #[trigger] blk(ptr1@, b) == blk(p1, b),
//@ at loop 3 start
    let ghost uc: usize = c;
    let ghost pc = ptr1@;
//@ at loop 3 end
    proof { lemma_frame(pc, ptr1@, c as int, n); }
    assert(blk(ptr1@, c as int).subrange(0, 0x340) =~= blk(pc, c as int).subrange(0, 0x280) + h1@ + zeros(0x20));
    assert(dat(ptr1@, c as int) =~= dat(pc, c as int));
    assert forall|b: int| 0 <= b < n implies #[trigger] dat(ptr1@, b) == dat(pc, b) by {
        if b != c { assert(blk(ptr1@, b) == blk(pc, b)); }
    }
//@ at loop 3 after
    let ghost p2 = ptr1@;
//@ at loop 0 end
    proof {
        assert(h2@.subrange(20 * s, 20 * s + 20) =~= h2_entry(g0, s as int));
        assert forall|k: int| 0 <= k < s implies h2@.subrange(20 * k, 20 * k + 20) == #[trigger] h2_entry(g0, k) by {
            assert(h2@.subrange(20 * k, 20 * k + 20) =~= hs.subrange(20 * k, 20 * k + 20));
        }
        assert(buffer@.subrange(s * 0x40000, 0x200000) =~= p2);
        assert forall|b: int| 0 <= b < 64 implies #[trigger] dat(buffer@, b) == dat(g0, b) by {
            if b < s * 8 {
                assert(blk(buffer@, b) =~= blk(gs, b));
            } else {
                lemma_tail(buffer@, s as int, b - s * 8);
                lemma_tail(gs, s as int, b - s * 8);
                assert(dat(p2, b - s * 8) == dat(p0, b - s * 8));
            }
            assert(dat(gs, b) == dat(g0, b));
        }
        assert forall|b: int| 0 <= b < (s + 1) * 8 implies (#[trigger] blk(buffer@, b)).subrange(0, 0x340) == head1_of(g0, b) by {
            if b < s * 8 {
                assert(blk(buffer@, b) =~= blk(gs, b));
            } else {
                lemma_tail(buffer@, s as int, b - s * 8);
                lemma_tail(gs, s as int, b - s * 8);
                assert(dat(gs, b) == dat(g0, b));
                assert(blk(p2, b - s * 8).subrange(0, 0x340) == blk(p1, b - s * 8).subrange(0, 0x280) + h1@ + zeros(0x20));
                assert(blk(p1, b - s * 8).subrange(0, 0x280) == h0_of(dat(p0, b - s * 8)) + zeros(0x14));
            }
        }
    }
//@ at loop 0 after
    proof { lemma_h2(h2@, g0); }
    assert(Seq::<u8>::empty() + h2@ =~= h2@);
//@ loop 4
    invariant
        g0.len() == 0x200000, buffer@.len() == 0x200000, h2@ == h2_of(g0), h2@.len() == 160, encryption_key@.len() == 16,
        forall|b: int| 0 <= b < s * 8 ==> #[trigger] blk(buffer@, b) == stored_block(g0, encryption_key@, b),
        forall|b: int| s * 8 <= b < 64 ==> #[trigger] dat(buffer@, b) == dat(g0, b),
        forall|b: int| s * 8 <= b < 64 ==> (#[trigger] blk(buffer@, b)).subrange(0, 0x340) == head1_of(g0, b),
//@ at loop 4 start
    let ghost us: usize = s;
    let ghost gs = buffer@;
    let ghost n: int = (8 - s) * 8;
    let ghost p0 = gs.subrange(s * 0x40000, 0x200000);
    proof {
        assert forall|b: int| 0 <= b < n implies (#[trigger] blk(p0, b)).subrange(0, 0x340) == head1_of(g0, s * 8 + b) && dat(p0, b) == dat(g0, s * 8 + b) by {
            lemma_tail(gs, s as int, b);
            assert(blk(gs, s * 8 + b).subrange(0, 0x340) == head1_of(g0, s * 8 + b));
            assert(dat(gs, s * 8 + b) == dat(g0, s * 8 + b));
        }
    }
//@ loop 5
    invariant
        0 <= s < 8, n == (8 - s) * 8, p0.len() == n * 0x8000, ptr1@.len() == n * 0x8000, h2@ == h2_of(g0), h2@.len() == 160, encryption_key@.len() == 16,
        forall|b: int| 0 <= b < n ==> (#[trigger] blk(p0, b)).subrange(0, 0x340) == head1_of(g0, s * 8 + b) && dat(p0, b) == dat(g0, s * 8 + b),
        forall|b: int| 0 <= b < c ==> #[trigger] blk(ptr1@, b) == stored_block(g0, encryption_key@, s * 8 + b),
        forall|b: int| c <= b < n ==> #[trigger] blk(ptr1@, b) == blk(p0, b),
//@ at loop 5 start
    let ghost uc: usize = c;
    let ghost pc = ptr1@;
    let ghost vc: int = c as int;
    let ghost h = head_of(g0, s * 8 + vc);
    let ghost e = cbc_enc(encryption_key@, zeros(16), h);
    assert(blk(pc, vc) == blk(p0, vc));
    assert(h =~= blk(pc, vc).subrange(0, 0x340) + h2@ + zeros(0x20));
    assert(h.len() == 0x400 && e.len() == 0x400);
//@ at before Aes128CbcEnc::new(&(encryption_key), &([0
    assert(ptr0@.subrange(0, 0x400) =~= h);
    assert(ptr0@.subrange(0x400, 0x8000) =~= dat(g0, s * 8 + vc));
//@ at before Aes128CbcEnc::new(&(encryption_key), &(ptr0
    assert(ptr0@.subrange(0, 0x400) =~= e);
    assert(ptr0@.subrange(0x400, 0x8000) =~= dat(g0, s * 8 + vc));
    assert(ptr0@.subrange(0x3d0, ptr0@.len() as int).subrange(0, 16) =~= e.subrange(0x3d0, 0x3e0));
    assert(ptr0@.subrange(0x3d0, 0x3e0) =~= e.subrange(0x3d0, 0x3e0));
//@ at loop 5 end
    proof {
        lemma_frame(pc, ptr1@, c as int, n);
        assert(blk(ptr1@, c as int).subrange(0, 0x400) =~= e);
        assert(blk(ptr1@, c as int).subrange(0x400, 0x8000) =~= cbc_enc(encryption_key@, e.subrange(0x3d0, 0x3e0), dat(g0, s * 8 + c)));
        assert(blk(ptr1@, c as int) =~= stored_block(g0, encryption_key@, s * 8 + c));
    }
//@ at loop 5 after
    let ghost p2 = ptr1@;
//@ at loop 4 end
    proof {
        assert(buffer@.subrange(s * 0x40000, 0x200000) =~= p2);
        assert forall|b: int| 0 <= b < 64 implies #[trigger] blk(buffer@, b) == (if b < s * 8 { blk(gs, b) } else { blk(p2, b - s * 8) }) by {
            if b < s * 8 {
                assert(blk(buffer@, b) =~= blk(gs, b));
            } else {
                lemma_tail(buffer@, s as int, b - s * 8);
            }
        }
        assert forall|b: int| (s + 1) * 8 <= b < 64 implies #[trigger] blk(buffer@, b) == blk(gs, b) by {
            lemma_tail(gs, s as int, b - s * 8);
        }
    }
//@ end
} // verus!
