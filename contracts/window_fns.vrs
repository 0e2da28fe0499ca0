verus! {
//@ struct window.rs IOWindow

/// what lies before `n` (nothing written there reads as zero once something is written behind it)
pub open spec fn below(d: Seq<u8>, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| if i < d.len() { d[i] } else { 0u8 })
}
pub proof fn lemma_below_write(d: Seq<u8>, n: int, p: int, b: Seq<u8>)
    requires 0 <= n <= p,
    ensures below(write_at(d, p, b), n) == below(d, n),
{
    assert(below(write_at(d, p, b), n) =~= below(d, n));
}
/// where the window is and what lies before it
#[verifier::reject_recursive_types(T)]
pub ghost struct WinRefs<T> { pub source: T, pub start: u64, pub length: Option<u64>, pub before: Seq<u8> }
impl<R: Stream> IOWindow<R> {
    /// the bytes of the window: the source's, from `start` on and not beyond `length`
    pub open spec fn bytes(&self) -> Seq<u8> {
        let d = self.source.data();
        let end = match self.length { Some(n) if self.start + n < d.len() => self.start + n, _ => d.len() as int };
        if self.start as int <= end { d.subrange(self.start as int, end) } else { Seq::empty() }
    }
    /// where reading reports the end of the window
    pub open spec fn end(&self) -> int {
        match self.length { Some(n) if self.start + n < self.source.eof() => n as int, _ => self.source.eof() - self.start }
    }
    pub open spec fn inv(&self) -> bool {
        self.source.wf() && self.start + self.pos <= self.source.top() <= u64::MAX && self.needs_seek
    }
    pub open spec fn left(&self) -> int {
        match self.length { Some(n) => if n >= self.pos { n - self.pos } else { 0 }, None => u64::MAX as int }
    }
    /// everything but the source and the position
    #[verifier::prophetic]
    pub open spec fn same_frame(&self, o: &Self) -> bool {
        self.start == o.start && self.length == o.length && self.source.top() == o.source.top() && self.source.refs() == o.source.refs()
        && below(self.source.data(), self.start as int) == below(o.source.data(), o.start as int)
    }
}

//@ fn window.rs IOWindow::new
//@ spec
    requires source.wf(), start <= source.top() <= u64::MAX,
    ensures
        r.inv(), r.source == source, r.start == start, r.length == length, r.pos == 0,
//@ end

//@ fn window.rs IOWindow::ensure_seeked
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)), final(self).pos == old(self).pos,
        final(self).source.data() == old(self).source.data(), final(self).source.eof() == old(self).source.eof(),
        r is Ok ==> final(self).source.at() == final(self).start + final(self).pos,
//@ end

//@ fn window.rs IOWindow::bytes_left optmap
//@ spec
    ensures
        r is Some == self.length is Some,
        r is Some ==> r->Some_0 == self.left(),
//@ end

//@ fn window.rs IOWindow::read
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)),
        final(self).source.data() == old(self).source.data(), final(self).source.eof() == old(self).source.eof(),
        r is Ok ==> final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(self).pos == old(self).pos,
        r is Ok ==> r->Ok_0 <= old(buf)@.len()
            && final(self).pos == old(self).pos + r->Ok_0
            && is_read(old(self).bytes(), old(self).pos as int, final(buf)@, r->Ok_0 as int)
            && (forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i])
            && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).pos >= old(self).end()),
//@ end

//@ fn window.rs IOWindow::read_exact
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)),
        final(self).source.data() == old(self).source.data(), final(self).source.eof() == old(self).source.eof(),
        r is Ok ==> final(buf)@.len() == old(buf)@.len(),
        r is Err ==> final(self).pos == old(self).pos,
        r is Ok ==> final(self).pos == old(self).pos + old(buf)@.len()
            && is_read(old(self).bytes(), old(self).pos as int, final(buf)@, old(buf)@.len() as int),
        // what does not fit is refused, what fits is passed on
        old(buf)@.len() > old(self).left() ==> r is Err,
//@ end

//@ fn window.rs IOWindow::write
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)),
        r is Err ==> final(self).pos == old(self).pos && final(self).source.data() == old(self).source.data(),
        r is Ok ==> r->Ok_0 <= buf@.len() && r->Ok_0 <= old(self).left()
            && final(self).pos == old(self).pos + r->Ok_0
            && final(self).source.data() == write_at(old(self).source.data(), old(self).start + old(self).pos, buf@.subrange(0, r->Ok_0 as int))
            && final(self).bytes() == write_at(old(self).bytes(), old(self).pos as int, buf@.subrange(0, r->Ok_0 as int)),
//@ at start
    proof {
        let d = self.source.data();
        let n = self.start as int;
        assert forall|p: int, b: Seq<u8>| n <= p implies below(#[trigger] write_at(d, p, b), n) == below(d, n) by { lemma_below_write(d, n, p, b); }
    }
//@ end

//@ fn window.rs IOWindow::flush
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)), final(self).pos == old(self).pos,
        final(self).source.data() == old(self).source.data(), final(self).source.eof() == old(self).source.eof(),
//@ end

//@ fn window.rs IOWindow::seek
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_frame(old(self)),
        final(self).source.data() == old(self).source.data(), final(self).source.eof() == old(self).source.eof(),
        r is Err ==> final(self).pos == old(self).pos,
        r is Ok ==> final(self).pos == r->Ok_0,
        ({
            let want = match pos {
                SeekFrom::Start(o) => o as int,
                SeekFrom::Current(o) => sat_add_signed(old(self).pos as int, o as int),
                SeekFrom::End(o) => sat_add_signed(old(self).length->Some_0 as int, o as int),
            };
            let top = old(self).source.top() - old(self).start;
            r is Ok ==> !(pos is End && old(self).length is None) && r->Ok_0 == (if want <= top { want } else { top })
        }),
        pos is End && old(self).length is None ==> r is Err && r->Err_0.kind is Unsupported,
//@ end

//@ fn window.rs IOWindow::stream_position
//@ spec
    requires old(self).inv(),
    ensures
        *final(self) == *old(self), r is Ok, r->Ok_0 == old(self).pos,
//@ end


// a window is itself a stream: this is the statement other units use
impl<R: Stream> Stream for IOWindow<R> {
    type Refs = WinRefs<R::Refs>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> WinRefs<R::Refs> {
        WinRefs { source: self.source.refs(), start: self.start, length: self.length, before: below(self.source.data(), self.start as int) }
    }
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn data(&self) -> Seq<u8> { self.bytes() }
    open spec fn at(&self) -> u64 { self.pos }
    open spec fn eof(&self) -> int { self.end() }
    open spec fn top(&self) -> int { self.source.top() - self.start }
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { IOWindow::seek(self, p) }
    fn stream_position(&mut self) -> (r: io::Result<u64>) { IOWindow::stream_position(self) }
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { IOWindow::read(self, buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>) { IOWindow::read_exact(self, buf) }
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { IOWindow::write(self, buf) }
    fn flush(&mut self) -> (r: io::Result<()>) { IOWindow::flush(self) }
}
} // verus!
