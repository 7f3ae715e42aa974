//! A simulated network with the interface of tokio::net.
use crate::sim::{self, w, NetWhat, Port};
use std::io::{Error, ErrorKind, Result};
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use real::io::{AsyncRead, AsyncWrite, ReadBuf};

pub use std::net::ToSocketAddrs;
fn addr_of<A: ToSocketAddrs>(a: A) -> Result<SocketAddr> {
    a.to_socket_addrs()?.next().ok_or_else(|| ErrorKind::InvalidInput.into())
}

#[derive(Debug)]
pub struct TcpListener {
    idx: usize,
    addr: SocketAddr,
}
impl TcpListener {
    pub async fn bind<A: ToSocketAddrs>(a: A) -> Result<TcpListener> {
        sim::point();
        let addr = addr_of(a)?;
        Self::bind_now(addr)
    }
    fn bind_now(addr: SocketAddr) -> Result<TcpListener> {
        let port = addr.port();
        let used = w().listeners.iter().any(|l| l.alive && l.port == port);
        if used || sim::bind_fails(port) {
            w().event(NetWhat::Bind(port, false));
            sim::point();
            return Err(Error::from_raw_os_error(if used { 98 } else { w().errors.bind }));
        }
        w().listeners.push(sim::Listener { port, alive: true, backlog: Default::default(), waker: None });
        let idx = w().listeners.len() - 1;
        w().event(NetWhat::Bind(port, true));
        sim::point();
        Ok(TcpListener { idx, addr })
    }
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<Result<(TcpStream, SocketAddr)>> {
        if sim::tearing() || sim::out_of_budget(cx) {
            return Poll::Pending;
        }
        let port = self.addr.port();
        if sim::accept_fails(port) {
            w().event(NetWhat::Accept(port, false));
            return Poll::Ready(Err(Error::from_raw_os_error(w().errors.accept)));
        }
        let l = &mut w().listeners[self.idx];
        match l.backlog.pop_front() {
            Some(c) => {
                sim::accept_done(port);
                w().conns[c].accepted = true;
                w().event(NetWhat::Accept(port, true));
                let peer = SocketAddr::new(IpAddr::V4(Ipv4Addr::LOCALHOST), 40_000 + c as u16);
                let both = Arc::new(Both { id: c });
                Poll::Ready(Ok((TcpStream { c: both, local: self.addr, peer }, peer)))
            }
            None => {
                l.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
    pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
        sim::point();
        let r = std::future::poll_fn(|cx| self.poll_accept(cx)).await;
        sim::point();
        r
    }
    pub fn local_addr(&self) -> Result<SocketAddr> {
        Ok(self.addr)
    }
    pub fn set_ttl(&self, _: u32) -> Result<()> {
        Ok(())
    }
}
impl Drop for TcpListener {
    fn drop(&mut self) {
        if sim::tearing() {
            return;
        }
        let l = &mut w().listeners[self.idx];
        l.alive = false;
        let waiting: Vec<usize> = l.backlog.drain(..).collect();
        for c in &waiting {
            w().conns[*c].refused = true;
        }
        w().event(NetWhat::ListenerDropped(self.addr.port(), waiting.len()));
    }
}

/// A socket of which the listener is made.
#[derive(Debug)]
pub struct TcpSocket {
    addr: std::sync::Mutex<Option<SocketAddr>>,
}
impl TcpSocket {
    pub fn new_v4() -> Result<Self> {
        Ok(TcpSocket { addr: Default::default() })
    }
    pub fn set_reuseaddr(&self, _: bool) -> Result<()> {
        Ok(())
    }
    pub fn set_reuseport(&self, _: bool) -> Result<()> {
        Ok(())
    }
    pub fn bind(&self, a: SocketAddr) -> Result<()> {
        *self.addr.lock().unwrap() = Some(a);
        Ok(())
    }
    pub fn listen(self, _: u32) -> Result<TcpListener> {
        let a = self.addr.lock().unwrap().ok_or_else(|| Error::from(ErrorKind::InvalidInput))?;
        TcpListener::bind_now(a)
    }
}

/// Both directions of a connection; closed when the last part is dropped.
#[derive(Debug)]
struct Both {
    id: usize,
}
impl Drop for Both {
    fn drop(&mut self) {
        if sim::tearing() {
            return;
        }
        close_write(self.id);
        w().conns[self.id].read_dropped = true;
    }
}
fn close_write(id: usize) {
    let at = w().steps;
    let k = &mut w().conns[id];
    k.write_dropped = true;
    k.write_closed_at.get_or_insert(at);
}

fn do_read(id: usize, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>, take: bool) -> Poll<Result<()>> {
    if sim::tearing() {
        return Poll::Pending;
    }
    sim::point();
    if sim::out_of_budget(cx) {
        return Poll::Pending;
    }
    let k = &mut w().conns[id];
    if buf.remaining() == 0 {
        return Poll::Ready(Ok(()));
    }
    if !k.inbox.is_empty() {
        let n = k.inbox.len().min(buf.remaining());
        let n = if w().split_reads && n > 1 {
            // everything, or the first 1 .. n-1 bytes
            match sim::choice(n) {
                0 => n,
                m => m,
            }
        } else {
            n
        };
        let k = &mut w().conns[id];
        let bytes: Vec<u8> = k.inbox.iter().take(n).copied().collect();
        buf.put_slice(&bytes);
        if take {
            k.inbox.drain(..n);
            k.taken += n;
            let at = w().steps;
            k.taken_at.push((k.taken, at));
        }
        return Poll::Ready(Ok(()));
    }
    if k.fin || k.reset {
        k.eof_reads += 1;
        if k.eof_reads > 40 {
            return spin(id);
        }
        // the failure of a connection is told once; after the end of the stream it is none for a reader
        if !k.fin && !k.failure_told {
            k.failure_told = true;
            return Poll::Ready(Err(Error::from_raw_os_error(w().errors.reset)));
        }
        return Poll::Ready(Ok(()));
    }
    k.rd = Some(cx.waker().clone());
    Poll::Pending
}
/// The code keeps using a connection that is gone: noted, and stopped.
fn spin<T>(id: usize) -> Poll<T> {
    if !w().spins.contains(&id) {
        w().spins.push(id);
    }
    Poll::Pending
}

fn do_write(id: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
    if sim::tearing() {
        return Poll::Pending;
    }
    sim::point();
    if sim::out_of_budget(cx) {
        return Poll::Pending;
    }
    let k = &mut w().conns[id];
    if k.write_dropped {
        return Poll::Ready(Err(ErrorKind::BrokenPipe.into()));
    }
    if k.reset || k.closed {
        k.eof_reads += 1;
        if k.eof_reads > 40 {
            return spin(id);
        }
        k.late_writes += 1;
        let first = k.late_writes == 1;
        // the kernel may still take bytes of which nobody will ever hear
        if first && !k.reset && sim::choice(2) == 1 {
            return Poll::Ready(Ok(buf.len()));
        }
        let k = &mut w().conns[id];
        let e = if k.reset && !k.failure_told && !k.fin { w().errors.reset } else { 32 };
        w().conns[id].failure_told = true;
        return Poll::Ready(Err(Error::from_raw_os_error(e)));
    }
    if buf.is_empty() {
        return Poll::Ready(Ok(0));
    }
    let n = buf.len().min(w().room(id));
    if n == 0 {
        w().conns[id].wr = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let n = if w().split_writes && n > 1 {
        let few = [n, 1, n / 2, n - 1];
        few[sim::choice(if n == 2 { 2 } else if n == 3 { 3 } else { 4 }.min(n))]
    } else {
        n
    };
    let at = w().steps;
    let k = &mut w().conns[id];
    k.out_at.push((k.out.len() + n, at));
    for b in &buf[..n] {
        k.out.push(*b);
        if *b == 1 {
            if k.out[k.field_start..].starts_with(b"10=") {
                k.in_msgs += 1;
            }
            k.field_start = k.out.len();
        }
    }
    Poll::Ready(Ok(n))
}
fn do_shutdown(id: usize) -> Poll<Result<()>> {
    if !sim::tearing() {
        close_write(id);
    }
    Poll::Ready(Ok(()))
}

#[derive(Debug)]
pub struct TcpStream {
    c: Arc<Both>,
    local: SocketAddr,
    peer: SocketAddr,
}
macro_rules! common {
    () => {
        pub fn local_addr(&self) -> Result<SocketAddr> {
            Ok(self.local)
        }
        pub fn peer_addr(&self) -> Result<SocketAddr> {
            Ok(self.peer)
        }
    };
}
macro_rules! reading {
    () => {
        pub async fn readable(&self) -> Result<()> {
            let id = self.c.id;
            std::future::poll_fn(|cx| {
                let k = &mut w().conns[id];
                if !k.inbox.is_empty() || k.fin || k.reset {
                    return Poll::Ready(Ok(()));
                }
                k.rd = Some(cx.waker().clone());
                Poll::Pending
            })
            .await
        }
        pub fn try_read(&self, b: &mut [u8]) -> Result<usize> {
            let waker = std::task::Waker::noop();
            let mut buf = ReadBuf::new(b);
            match do_read(self.c.id, &mut Context::from_waker(waker), &mut buf, true) {
                Poll::Ready(r) => r.map(|_| buf.filled().len()),
                Poll::Pending => Err(ErrorKind::WouldBlock.into()),
            }
        }
        pub async fn peek(&self, b: &mut [u8]) -> Result<usize> {
            let mut buf = ReadBuf::new(b);
            let id = self.c.id;
            std::future::poll_fn(|cx| do_read(id, cx, &mut buf, false)).await?;
            Ok(buf.filled().len())
        }
    };
}
macro_rules! writing {
    () => {
        pub async fn writable(&self) -> Result<()> {
            let id = self.c.id;
            std::future::poll_fn(|cx| {
                let k = &w().conns[id];
                if k.reset || k.closed || w().room(id) > 0 {
                    return Poll::Ready(Ok(()));
                }
                w().conns[id].wr = Some(cx.waker().clone());
                Poll::Pending
            })
            .await
        }
        pub fn try_write(&self, b: &[u8]) -> Result<usize> {
            let waker = std::task::Waker::noop();
            match do_write(self.c.id, &mut Context::from_waker(waker), b) {
                Poll::Ready(r) => r,
                Poll::Pending => Err(ErrorKind::WouldBlock.into()),
            }
        }
    };
}
macro_rules! read_impl {
    ($t:ty) => {
        impl AsyncRead for $t {
            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<Result<()>> {
                do_read(self.c.id, cx, buf, true)
            }
        }
    };
}
macro_rules! write_impl {
    ($t:ty) => {
        impl AsyncWrite for $t {
            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize>> {
                do_write(self.c.id, cx, buf)
            }
            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
                Poll::Ready(Ok(()))
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> {
                do_shutdown(self.c.id)
            }
        }
    };
}
impl TcpStream {
    common!();
    reading!();
    writing!();
    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
        (
            tcp::OwnedReadHalf { c: self.c.clone(), local: self.local, peer: self.peer },
            tcp::OwnedWriteHalf { c: self.c.clone(), local: self.local, peer: self.peer, close: true },
        )
    }
    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
        (
            tcp::ReadHalf { c: self.c.clone(), local: self.local, peer: self.peer, _l: Default::default() },
            tcp::WriteHalf { c: self.c.clone(), local: self.local, peer: self.peer, _l: Default::default() },
        )
    }
    pub fn set_nodelay(&self, _: bool) -> Result<()> {
        Ok(())
    }
    pub fn nodelay(&self) -> Result<bool> {
        Ok(true)
    }
    pub fn set_linger(&self, _: Option<std::time::Duration>) -> Result<()> {
        Ok(())
    }
    pub fn shutdown_std(&self, how: Shutdown) {
        if how != Shutdown::Read {
            close_write(self.c.id);
        }
    }
}
read_impl!(TcpStream);
write_impl!(TcpStream);

pub mod tcp {
    use super::*;
    #[derive(Debug)]
    pub struct OwnedReadHalf {
        pub(super) c: Arc<Both>,
        pub(super) local: SocketAddr,
        pub(super) peer: SocketAddr,
    }
    #[derive(Debug)]
    pub struct OwnedWriteHalf {
        pub(super) c: Arc<Both>,
        pub(super) local: SocketAddr,
        pub(super) peer: SocketAddr,
        pub(super) close: bool,
    }
    #[derive(Debug)]
    pub struct ReadHalf<'a> {
        pub(super) c: Arc<Both>,
        pub(super) local: SocketAddr,
        pub(super) peer: SocketAddr,
        pub(super) _l: std::marker::PhantomData<&'a mut ()>,
    }
    #[derive(Debug)]
    pub struct WriteHalf<'a> {
        pub(super) c: Arc<Both>,
        pub(super) local: SocketAddr,
        pub(super) peer: SocketAddr,
        pub(super) _l: std::marker::PhantomData<&'a mut ()>,
    }
    #[derive(Debug)]
    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
    impl OwnedReadHalf {
        common!();
        reading!();
        pub fn reunite(self, mut o: OwnedWriteHalf) -> std::result::Result<TcpStream, ReuniteError> {
            if self.c.id != o.c.id {
                return Err(ReuniteError(self, o));
            }
            o.close = false;
            Ok(TcpStream { c: self.c.clone(), local: self.local, peer: self.peer })
        }
    }
    impl OwnedWriteHalf {
        common!();
        writing!();
        pub fn forget(mut self) {
            self.close = false;
        }
        pub fn reunite(self, o: OwnedReadHalf) -> std::result::Result<TcpStream, ReuniteError> {
            o.reunite(self)
        }
    }
    impl Drop for OwnedWriteHalf {
        fn drop(&mut self) {
            if self.close && !sim::tearing() {
                close_write(self.c.id);
            }
        }
    }
    impl Drop for OwnedReadHalf {
        fn drop(&mut self) {
            if !sim::tearing() {
                w().conns[self.c.id].read_dropped = true;
            }
        }
    }
    impl ReadHalf<'_> {
        common!();
        reading!();
    }
    impl WriteHalf<'_> {
        common!();
        writing!();
    }
    read_impl!(OwnedReadHalf);
    write_impl!(OwnedWriteHalf);
    read_impl!(ReadHalf<'_>);
    write_impl!(WriteHalf<'_>);
}
#[allow(unused)]
fn _p(_: Port) {}
