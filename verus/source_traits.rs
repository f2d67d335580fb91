// ---- data sources: the assumed behaviour of the code behind EntryData
// A source has one content; reads deliver it from the position, short or not ready as it likes;
// a read or seek that fails or is not ready delivers nothing.

/// how often a source has reported not-ready to this task context (and arranged for a wake-up)
pub uninterp spec fn waits(cx: Context<'_>) -> nat;
pub open spec fn waited<T>(a: Context<'_>, b: Context<'_>, r: Poll<T>) -> bool { waits(b) == waits(a) + (if r is Pending { 1nat } else { 0nat }) }

pub trait Future: Sized {
    type Output;
    /// values the future may still give
    spec fn delivers(&self, o: Self::Output) -> bool;
    spec fn finished(&self) -> bool;
    fn poll(&mut self, cx: &mut Context<'_>) -> (r: Poll<Self::Output>)
        requires !old(self).finished()
        ensures
            waited(*old(cx), *final(cx), r),
            r is Ready ==> old(self).delivers(ready_val(r)),
            r is Pending ==> !final(self).finished() && (forall|o: Self::Output| #[trigger] final(self).delivers(o) ==> old(self).delivers(o));
}

/// what a read does: `n` more bytes of `content` from `pos`, none only at the end or without room
pub open spec fn read_ok(content: Seq<u8>, pos: nat, pos2: nat, a: ReadBuf<'_>, b: ReadBuf<'_>) -> bool {
    &&& pos <= pos2
    &&& pos2 - pos <= a.rem()
    &&& pos2 > pos ==> pos2 <= content.len()
    &&& pos2 == pos ==> (a.rem() == 0 || pos >= content.len())
    &&& appended(a, b, if pos2 > pos { content.subrange(pos as int, pos2 as int) } else { Seq::empty() })
}

pub open spec fn read_result(r: Poll<IoResult<()>>, content: Seq<u8>, pos: nat, pos2: nat, a: ReadBuf<'_>, b: ReadBuf<'_>) -> bool {
    match r {
        Poll::Ready(Ok(_)) => read_ok(content, pos, pos2, a, b),
        Poll::Ready(Err(e)) => from_source(e) && pos2 == pos && unfilled_only(a, b),
        Poll::Pending => pos2 == pos && unfilled_only(a, b),
    }
}

pub trait EntryReader<D: ?Sized>: Sized {
    spec fn content(&self, data: &D) -> Seq<u8>;
    spec fn pos(&self) -> nat;
    /// may be read or start a seek
    spec fn idle(&self) -> bool;
    /// may complete a seek
    spec fn pending(&self) -> bool;
    spec fn target(&self) -> nat;

    fn poll_read(&mut self, data: &D, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> (r: Poll<IoResult<()>>)
        requires old(self).idle()
        ensures
            final(self).content(data) == old(self).content(data),
            final(self).idle(),
            waited(*old(cx), *final(cx), r),
            read_result(r, old(self).content(data), old(self).pos(), final(self).pos(), *old(buf), *final(buf));

    fn start_seek(&mut self, data: &D, pos: SeekFrom) -> (r: IoResult<()>)
        requires old(self).idle()
        ensures
            final(self).content(data) == old(self).content(data),
            r is Ok ==> final(self).pending() && (pos is Start ==> final(self).target() == start_of(pos)),
            r is Err ==> final(self).idle() && (from_source(r->Err_0) || !(pos is Start) && err_kind(r->Err_0) == std::io::ErrorKind::InvalidInput);

    fn poll_seek_complete(&mut self, data: &D, cx: &mut Context<'_>) -> (r: Poll<IoResult<u64>>)
        requires old(self).pending()
        ensures
            final(self).content(data) == old(self).content(data),
            waited(*old(cx), *final(cx), r),
            match r {
                Poll::Pending => final(self).pending() && final(self).target() == old(self).target(),
                Poll::Ready(Ok(p)) => final(self).idle() && p == old(self).target() && final(self).pos() == p,
                Poll::Ready(Err(e)) => final(self).idle() && from_source(e),
            };
}

pub trait EntryData: Sized {
    type Reader: EntryReader<Self>;
    type Future: Future<Output = IoResult<Self::Reader>>;

    spec fn dcontent(&self) -> Seq<u8>;
    spec fn dsize(&self) -> u64;

    fn get_reader(&self) -> (r: Self::Future)
        requires self.dsize() > 0
        ensures !r.finished(), fut_ok::<Self, Self::Reader, Self::Future>(r, self.dcontent(), self);

    fn size(&self) -> (r: u64) ensures r == self.dsize();
}

/// a reader as opened
pub open spec fn fresh_reader<D, R: EntryReader<D>>(x: R, content: Seq<u8>, data: &D) -> bool {
    x.content(data) == content && x.pos() == 0 && x.idle() && content.len() <= u64::MAX
}
pub open spec fn fut_ok<D, R: EntryReader<D>, F: Future<Output = IoResult<R>>>(f: F, content: Seq<u8>, data: &D) -> bool {
    forall|o: IoResult<R>| #[trigger] f.delivers(o) ==> match o {
        Ok(x) => fresh_reader::<D, R>(x, content, data),
        Err(e) => from_source(e),
    }
}
