use crate::{
    Interest, Registry, Token,
    event::Source,
    sim::{self, err},
};
use std::{
    fmt,
    io::{self, ErrorKind, IoSlice, IoSliceMut, Read, Write},
    net::{Shutdown, SocketAddr},
};

macro_rules! socket {
    ($name:ident) => {
        pub struct $name {
            pub(crate) fd: usize,
        }
        impl Drop for $name {
            fn drop(&mut self) {
                sim::try_with(|s| s.close(self.fd));
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, concat!(stringify!($name), "#{}"), self.fd)
            }
        }
        impl Source for $name {
            fn register(&mut self, r: &Registry, t: Token, i: Interest) -> io::Result<()> {
                sim::with(|s| s.register(self.fd, r.id, t, i))
            }
            fn reregister(&mut self, r: &Registry, t: Token, i: Interest) -> io::Result<()> {
                sim::with(|s| s.reregister(self.fd, r.id, t, i))
            }
            fn deregister(&mut self, r: &Registry) -> io::Result<()> {
                sim::with(|s| s.deregister(self.fd, r.id))
            }
        }
        impl $name {
            pub fn local_addr(&self) -> io::Result<SocketAddr> {
                sim::with(|s| Ok(s.fds[self.fd].local))
            }
            pub fn take_error(&self) -> io::Result<Option<io::Error>> {
                sim::with(|s| Ok(s.fds[self.fd].so_error.take().map(err)))
            }
            pub fn set_ttl(&self, _: u32) -> io::Result<()> {
                Ok(())
            }
            pub fn ttl(&self) -> io::Result<u32> {
                Ok(64)
            }
        }
    };
}
socket!(TcpListener);
socket!(TcpStream);
socket!(UdpSocket);

impl TcpListener {
    pub fn bind(addr: SocketAddr) -> io::Result<TcpListener> {
        sim::op("bind");
        sim::with(|s| s.bind(addr, true)).map(|fd| TcpListener { fd })
    }
    pub fn accept(&self) -> io::Result<(TcpStream, SocketAddr)> {
        sim::op("accept");
        sim::with(|s| s.accept(self.fd)).map(|(fd, a)| (TcpStream { fd }, a))
    }
}

impl TcpStream {
    pub fn connect(addr: SocketAddr) -> io::Result<TcpStream> {
        sim::op("connect");
        sim::connect(addr).map(|fd| TcpStream { fd })
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        sim::with(|s| {
            let f = &s.fds[self.fd];
            if f.connected { Ok(f.remote) } else { Err(ErrorKind::NotConnected.into()) }
        })
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        sim::op("shutdown");
        sim::with(|s| s.shutdown(self.fd, how))
    }
    pub fn set_nodelay(&self, v: bool) -> io::Result<()> {
        sim::with(|s| {
            s.fds[self.fd].nodelay = v;
            Ok(())
        })
    }
    pub fn nodelay(&self) -> io::Result<bool> {
        sim::with(|s| Ok(s.fds[self.fd].nodelay))
    }
    pub fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
        sim::with(|s| s.peek(self.fd, buf))
    }
}
impl Read for TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sim::read(self.fd, buf)
    }
    fn read_vectored(&mut self, bufs: &mut [IoSliceMut<'_>]) -> io::Result<usize> {
        match bufs.iter_mut().find(|b| !b.is_empty()) {
            Some(b) => sim::read(self.fd, b),
            None => Ok(0),
        }
    }
}
impl Read for &TcpStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sim::read(self.fd, buf)
    }
}
impl Write for TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sim::write(self.fd, buf)
    }
    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.to_vec()).collect();
        sim::write(self.fd, &all)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &TcpStream {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sim::write(self.fd, buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl UdpSocket {
    pub fn bind(addr: SocketAddr) -> io::Result<UdpSocket> {
        sim::op("bind");
        sim::with(|s| s.bind(addr, false)).map(|fd| UdpSocket { fd })
    }
    pub fn send_to(&self, buf: &[u8], target: SocketAddr) -> io::Result<usize> {
        sim::send_to(self.fd, buf, target)
    }
    pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        sim::recv_from(self.fd, buf, false)
    }
    pub fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        sim::recv_from(self.fd, buf, true)
    }
}
