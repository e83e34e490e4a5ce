//! Transport that records what passes and fails on demand.
use aldrin_core::channel::{Bounded, Unbounded};
use aldrin_core::message::{Connect2, Message};
use aldrin_core::transport::AsyncTransport;
use std::cell::RefCell;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

#[derive(Debug)]
pub enum Wire {
    B(Bounded),
    U(Unbounded),
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum TapError {
    Disconnected,
    Injected,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Fault {
    /// The operation fails, everything else as well from then on.
    Error,
    /// The other side is gone, as seen by both.
    Eof,
}

pub enum Seen {
    Tx(Message),
    Rx(Message),
    Err(bool),
}

#[derive(Default)]
pub struct TapCtl {
    pub sink: Option<Box<dyn FnMut(Seen)>>,
    pub ops: u64,
    /// Fails the operation with this number.
    pub at: Option<(u64, Fault)>,
    pub minor: Option<u32>,
    pub fired: bool,
    pub dropped: bool,
}

impl std::fmt::Debug for TapCtl {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("TapCtl")
    }
}

#[derive(Debug)]
pub struct Tap {
    wire: Option<Wire>,
    ctl: Rc<RefCell<TapCtl>>,
}

impl Tap {
    pub fn new(wire: Wire, ctl: Rc<RefCell<TapCtl>>) -> Self {
        Self {
            wire: Some(wire),
            ctl,
        }
    }

    /// Counts an operation; it must fail if an error is returned.
    fn step(&mut self) -> Result<(), TapError> {
        let mut c = self.ctl.borrow_mut();
        c.ops += 1;
        if let Some((k, f)) = c.at {
            if c.ops >= k && !c.fired {
                c.fired = true;
                drop(c);
                self.wire = None;
                self.see(Seen::Err(true));
                return Err(if f == Fault::Error {
                    TapError::Injected
                } else {
                    TapError::Disconnected
                });
            }
        }
        if c.fired {
            return Err(TapError::Disconnected);
        }
        Ok(())
    }

    fn see(&self, s: Seen) {
        // The sink must not be borrowed while the code under test runs; it only logs.
        let sink = self.ctl.borrow_mut().sink.take();
        if let Some(mut f) = sink {
            f(s);
            self.ctl.borrow_mut().sink = Some(f);
        }
    }

    fn err<T>(&self) -> Poll<Result<T, TapError>> {
        self.see(Seen::Err(false));
        Poll::Ready(Err(TapError::Disconnected))
    }
}

macro_rules! on {
    ($self:ident, $t:ident => $e:expr) => {
        match $self.wire.as_mut().unwrap() {
            Wire::B(t) => {
                let $t = Pin::new(t);
                $e
            }
            Wire::U(t) => {
                let $t = Pin::new(t);
                $e
            }
        }
    };
}

impl AsyncTransport for Tap {
    type Error = TapError;

    fn receive_poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, TapError>> {
        self.step()?;
        match on!(self, t => t.receive_poll(cx)) {
            Poll::Ready(Ok(m)) => {
                self.see(Seen::Rx(m.clone()));
                Poll::Ready(Ok(m))
            }
            Poll::Ready(Err(_)) => self.err(),
            Poll::Pending => Poll::Pending,
        }
    }

    fn send_poll_ready(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        self.step()?;
        match on!(self, t => t.send_poll_ready(cx)) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => self.err(),
            Poll::Pending => Poll::Pending,
        }
    }

    fn send_start(mut self: Pin<&mut Self>, mut msg: Message) -> Result<(), TapError> {
        self.step()?;
        self.see(Seen::Tx(msg.clone()));
        let minor = self.ctl.borrow().minor;
        if let (Message::Connect2(Connect2 { minor_version, .. }), Some(v)) = (&mut msg, minor) {
            *minor_version = v;
        }
        match on!(self, t => t.send_start(msg)) {
            Ok(()) => Ok(()),
            Err(_) => {
                self.see(Seen::Err(false));
                Err(TapError::Disconnected)
            }
        }
    }

    fn send_poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), TapError>> {
        self.step()?;
        match on!(self, t => t.send_poll_flush(cx)) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(_)) => self.err(),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl Drop for Tap {
    fn drop(&mut self) {
        self.ctl.borrow_mut().dropped = true;
    }
}
