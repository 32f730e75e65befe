//! The seam: the stream handed to the library. It implements the runtime's buffered-read and
//! write traits over the simulated socket and counts exactly what the library writes, flushes
//! and consumes.
use crate::scenario::IO_KINDS;
use crate::world::W;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

pub struct Sock {
    pub w: W,
    pub sid: usize,
}

enum Inner {
    Direct(Sock),
    #[cfg(feature = "rt-tokio")]
    Wrapped(Box<tokio::io::BufStream<Sock>>),
}

pub struct SimStream {
    w: W,
    sid: usize,
    inner: Inner,
    rbuf: Vec<u8>,
    rpos: usize,
}

impl std::fmt::Debug for SimStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SimStream({})", self.sid)
    }
}

impl SimStream {
    pub fn new(w: W, sid: usize) -> SimStream {
        let wrap = w.borrow().ss[sid].plan.link.wrap;
        let sock = Sock { w: w.clone(), sid };
        #[cfg(feature = "rt-tokio")]
        let inner = if wrap > 0 {
            Inner::Wrapped(Box::new(tokio::io::BufStream::with_capacity(wrap, wrap, sock)))
        } else {
            Inner::Direct(sock)
        };
        #[cfg(not(feature = "rt-tokio"))]
        let inner = {
            let _ = wrap;
            Inner::Direct(sock)
        };
        SimStream { w, sid, inner, rbuf: vec![], rpos: 0 }
    }

    fn do_write(&mut self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = match &mut self.inner {
            Inner::Direct(s) => s.w.borrow_mut().sock_write(s.sid, cx, buf),
            #[cfg(feature = "rt-tokio")]
            Inner::Wrapped(b) => tokio::io::AsyncWrite::poll_write(Pin::new(b), cx, buf),
        };
        if let Poll::Ready(Ok(n)) = &r {
            self.w.borrow_mut().client_wrote(self.sid, &buf[..*n]);
        }
        r
    }

    fn do_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        match &mut self.inner {
            Inner::Direct(s) => s.w.borrow_mut().sock_flush(s.sid, cx),
            #[cfg(feature = "rt-tokio")]
            Inner::Wrapped(b) => tokio::io::AsyncWrite::poll_flush(Pin::new(b), cx),
        }
    }

    /// Bytes the library may look at, without consuming them.
    fn do_fill(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
        loop {
            let (consumed, discard) = {
                let w = self.w.borrow();
                (w.ss[self.sid].consumed, w.ss[self.sid].discard_until)
            };
            let n = match &mut self.inner {
                Inner::Direct(s) => {
                    if self.rpos == self.rbuf.len() {
                        let r = s.w.borrow_mut().sock_read(s.sid, cx, usize::MAX);
                        match r {
                            Poll::Ready(Ok(v)) => {
                                self.rbuf = v;
                                self.rpos = 0;
                            }
                            Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                            Poll::Pending => return Poll::Pending,
                        }
                    }
                    self.rbuf.len() - self.rpos
                }
                #[cfg(feature = "rt-tokio")]
                Inner::Wrapped(b) => match tokio::io::AsyncBufRead::poll_fill_buf(Pin::new(b), cx) {
                    Poll::Ready(Ok(v)) => v.len(),
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    Poll::Pending => return Poll::Pending,
                },
            };
            if n > 0 && consumed < discard {
                self.do_consume(n.min((discard - consumed) as usize));
                continue;
            }
            break;
        }
        match &mut self.inner {
            Inner::Direct(_) => Poll::Ready(Ok(&self.rbuf[self.rpos..])),
            #[cfg(feature = "rt-tokio")]
            Inner::Wrapped(b) => tokio::io::AsyncBufRead::poll_fill_buf(Pin::new(b), cx),
        }
    }

    fn do_consume(&mut self, n: usize) {
        match &mut self.inner {
            Inner::Direct(_) => {
                assert!(self.rpos + n <= self.rbuf.len(), "consume past the buffer");
                self.rpos += n;
            }
            #[cfg(feature = "rt-tokio")]
            Inner::Wrapped(b) => tokio::io::AsyncBufRead::consume(Pin::new(b), n),
        }
        self.w.borrow_mut().client_consumed(self.sid, n);
    }
}

#[cfg(feature = "rt-tokio")]
mod imp {
    use super::*;
    use tokio::io::{AsyncBufRead, AsyncRead, AsyncWrite, ReadBuf};

    impl AsyncRead for Sock {
        fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let r = self.w.borrow_mut().sock_read(self.sid, cx, buf.remaining());
            match r {
                Poll::Ready(Ok(v)) => {
                    buf.put_slice(&v);
                    Poll::Ready(Ok(()))
                }
                Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
                Poll::Pending => Poll::Pending,
            }
        }
    }
    impl AsyncWrite for Sock {
        fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.w.borrow_mut().sock_write(self.sid, cx, buf)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.w.borrow_mut().sock_flush(self.sid, cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.w.borrow_mut().sock_flush(self.sid, cx)
        }
    }
    impl AsyncRead for SimStream {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
            let n = match self.do_fill(cx) {
                Poll::Ready(Ok(v)) => {
                    let n = v.len().min(buf.remaining());
                    buf.put_slice(&v[..n]);
                    n
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            self.do_consume(n);
            Poll::Ready(Ok(()))
        }
    }
    impl AsyncBufRead for SimStream {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().do_fill(cx)
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            self.do_consume(n)
        }
    }
    impl AsyncWrite for SimStream {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.do_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.do_flush(cx)
        }
        fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.do_flush(cx)
        }
    }
}

#[cfg(feature = "rt-async-std")]
mod imp {
    use super::*;
    use async_std::io::{BufRead, Read, Write};

    impl Read for SimStream {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
            let n = match self.do_fill(cx) {
                Poll::Ready(Ok(v)) => {
                    let n = v.len().min(buf.len());
                    buf[..n].copy_from_slice(&v[..n]);
                    n
                }
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            };
            self.do_consume(n);
            Poll::Ready(Ok(n))
        }
    }
    impl BufRead for SimStream {
        fn poll_fill_buf(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<&[u8]>> {
            self.get_mut().do_fill(cx)
        }
        fn consume(mut self: Pin<&mut Self>, n: usize) {
            self.do_consume(n)
        }
    }
    impl Write for SimStream {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
            self.do_write(cx, buf)
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.do_flush(cx)
        }
        fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.do_flush(cx)
        }
    }
}

/// A message source under the simulator's control. It must be Send + Sync, so it carries its
/// own random stream instead of a handle on the world.
pub struct SimReader {
    pub data: Vec<u8>,
    pub pos: usize,
    pub rng: crate::rng::Rng,
    pub max: usize,
    pub pend: u32,
    pub fail_at: Option<usize>,
    pub fail_kind: u64,
}

pub const READER_ERROR: &str = "message source failed";

impl SimReader {
    fn next(&mut self, cx: &mut Context<'_>, room: usize) -> Poll<io::Result<Vec<u8>>> {
        if self.pend > 0 && self.rng.permille(self.pend) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let stop = self.fail_at.unwrap_or(usize::MAX).min(self.data.len());
        if self.pos >= stop && self.fail_at.is_some() {
            return Poll::Ready(Err(io::Error::new(IO_KINDS[(self.fail_kind % IO_KINDS.len() as u64) as usize], READER_ERROR)));
        }
        let mut n = (stop - self.pos).min(room).min(self.max.max(1));
        if n > 1 && self.rng.permille(500) {
            n = self.rng.range(1, n as u64) as usize;
        }
        let out = self.data[self.pos..self.pos + n].to_vec();
        self.pos += n;
        Poll::Ready(Ok(out))
    }
}

#[cfg(feature = "rt-tokio")]
impl tokio::io::AsyncRead for SimReader {
    fn poll_read(
        mut self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut tokio::io::ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        match self.next(cx, buf.remaining()) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

#[cfg(feature = "rt-async-std")]
impl async_std::io::Read for SimReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        match self.next(cx, buf.len()) {
            Poll::Ready(Ok(v)) => {
                buf[..v.len()].copy_from_slice(&v);
                Poll::Ready(Ok(v.len()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
