//! Scripted entry sources: every operation of a source follows a list of actions.
use crate::spec::content_byte;
use std::cell::RefCell;
use std::future::Future;
use std::io::{Error, ErrorKind, Result, SeekFrom};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncSeek, ReadBuf};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    /// do all that was asked
    Full,
    /// report not-ready
    Pending,
    /// deliver at most that many bytes
    Short(u16),
    /// fail
    Err,
}

#[derive(Debug, Default)]
pub struct World {
    pub acts: Vec<Act>,
    pub next: usize,
    /// action used when the list is exhausted: None = Full, else repeats the list
    pub cycle: bool,
    pub pend_in_call: bool,
    pub err_in_call: bool,
    /// the kind of the last failure
    pub kind: Option<ErrorKind>,
    pub opens: Vec<u32>,
    pub live: usize,
    pub max_live: usize,
    pub bytes_read: u64,
    pub seeks: u64,
}

impl World {
    fn act(&mut self) -> Act {
        if self.next >= self.acts.len() {
            if self.cycle && !self.acts.is_empty() {
                self.next = 0;
            } else {
                return Act::Full;
            }
        }
        let a = self.acts[self.next];
        self.next += 1;
        match a {
            Act::Pending => self.pend_in_call = true,
            Act::Err => self.err_in_call = true,
            _ => {}
        }
        a
    }
}

const KINDS: [ErrorKind; 8] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::Interrupted, ErrorKind::WouldBlock,
    ErrorKind::InvalidInput, ErrorKind::TimedOut, ErrorKind::NotFound, ErrorKind::PermissionDenied];

/// A failure of a source; its kind depends on where in the history it happens.
fn injected(w: &W, what: &str) -> Error {
    let mut w = w.borrow_mut();
    let h = (w.next as u64).wrapping_mul(2_654_435_761).wrapping_add(w.acts.len() as u64 * 40503).wrapping_add(w.opens.len() as u64 * 97).wrapping_add(w.bytes_read * 31);
    let k = KINDS[((h ^ (h >> 7) ^ (h >> 15)) % 8) as usize];
    w.kind = Some(k);
    Error::new(k, format!("injected {what} failure"))
}

pub type W = Rc<RefCell<World>>;

#[derive(Clone, Debug)]
pub struct Src {
    pub id: u32,
    /// size it declares
    pub declared: u64,
    /// size it delivers
    pub actual: u64,
    pub w: W,
}

pub struct Live(W);
impl Live {
    fn new(w: &W) -> Live {
        let mut b = w.borrow_mut();
        b.live += 1;
        b.max_live = b.max_live.max(b.live);
        drop(b);
        Live(w.clone())
    }
}
impl Drop for Live {
    fn drop(&mut self) {
        if let Ok(mut b) = self.0.try_borrow_mut() {
            b.live -= 1;
        }
    }
}

pub struct SrcFuture {
    src: Src,
    done: bool,
    live: Option<Live>,
}

impl Future for SrcFuture {
    type Output = Result<SrcReader>;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        assert!(!self.done, "source future polled after completion");
        let a = self.src.w.borrow_mut().act();
        match a {
            Act::Pending => Poll::Pending,
            Act::Err => {
                self.done = true;
                Poll::Ready(Err(injected(&self.src.w, "open")))
            }
            _ => {
                self.done = true;
                let live = self.live.take();
                Poll::Ready(Ok(SrcReader { src: self.src.clone(), pos: 0, seek: None, _live: live }))
            }
        }
    }
}

pub struct SrcReader {
    src: Src,
    pos: u64,
    seek: Option<SeekFrom>,
    _live: Option<Live>,
}

impl AsyncRead for SrcReader {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
        assert!(self.seek.is_none(), "source read while a seek is in progress");
        let a = self.src.w.borrow_mut().act();
        let mut n = self.src.actual.saturating_sub(self.pos).min(buf.remaining() as u64) as usize;
        match a {
            Act::Pending => return Poll::Pending,
            Act::Err => return Poll::Ready(Err(injected(&self.src.w, "read"))),
            Act::Short(k) => n = n.min(k.max(1) as usize),
            Act::Full => {}
        }
        let id = self.src.id;
        if id >= crate::spec::FLAT {
            buf.initialize_unfilled_to(n).fill(id as u8);
            buf.advance(n);
        } else {
            for i in 0..n {
                buf.put_slice(&[content_byte(id, self.pos + i as u64)]);
            }
        }
        self.pos += n as u64;
        self.src.w.borrow_mut().bytes_read += n as u64;
        Poll::Ready(Ok(()))
    }
}

impl AsyncSeek for SrcReader {
    fn start_seek(mut self: Pin<&mut Self>, position: SeekFrom) -> Result<()> {
        assert!(self.seek.is_none(), "start_seek while a seek is in progress");
        self.src.w.borrow_mut().seeks += 1;
        let a = self.src.w.borrow_mut().act();
        if a == Act::Err {
            return Err(injected(&self.src.w, "start_seek"));
        }
        if a == Act::Pending {
            // start_seek cannot report not-ready
            self.src.w.borrow_mut().pend_in_call = false;
        }
        self.seek = Some(position);
        Ok(())
    }

    fn poll_complete(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<u64>> {
        let a = self.src.w.borrow_mut().act();
        match a {
            Act::Pending => return Poll::Pending,
            Act::Err => {
                self.seek = None;
                return Poll::Ready(Err(injected(&self.src.w, "seek")));
            }
            _ => {}
        }
        if let Some(s) = self.seek.take() {
            let p = match s {
                SeekFrom::Start(p) => Some(p),
                SeekFrom::End(o) => self.src.actual.checked_add_signed(o),
                SeekFrom::Current(o) => self.pos.checked_add_signed(o),
            };
            match p {
                Some(p) => self.pos = p,
                None => return Poll::Ready(Err(Error::other("bad seek"))),
            }
        }
        Poll::Ready(Ok(self.pos))
    }
}

impl zippity::EntryData for Src {
    type Reader = SrcReader;
    type Future = SrcFuture;
    fn get_reader(&self) -> SrcFuture {
        self.w.borrow_mut().opens.push(self.id);
        SrcFuture { src: self.clone(), done: false, live: Some(Live::new(&self.w)) }
    }
    fn size(&self) -> u64 {
        self.declared
    }
}
