//! In-memory transport whose other side is driven by the harness.
use aldrin_core::message::Message;
use aldrin_core::transport::AsyncTransport;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum MemError {
    Eof,
    Injected,
}

#[derive(Default)]
pub struct Link {
    /// Messages from the harness to the code under test.
    pub inbox: VecDeque<Message>,
    /// Messages from the code under test.
    pub outbox: Vec<Message>,
    pub fail_recv: Option<MemError>,
    pub fail_send: bool,
    /// Sending is not possible for now (backpressure).
    pub block_send: bool,
    pub send_failed: bool,
    pub dropped: bool,
    waker: Option<Waker>,
    swaker: Option<Waker>,
}

impl std::fmt::Debug for Link {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Link")
    }
}

impl Link {
    pub fn push(&mut self, msg: Message) {
        self.inbox.push_back(msg);
        self.wake();
    }

    pub fn wake(&mut self) {
        if let Some(w) = self.waker.take() {
            w.wake();
        }
        if let Some(w) = self.swaker.take() {
            w.wake();
        }
    }
}

#[derive(Debug)]
pub struct MemTransport(pub Rc<RefCell<Link>>);

impl Drop for MemTransport {
    fn drop(&mut self) {
        self.0.borrow_mut().dropped = true;
    }
}

impl AsyncTransport for MemTransport {
    type Error = MemError;

    fn receive_poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<Message, MemError>> {
        let mut l = self.0.borrow_mut();
        if let Some(m) = l.inbox.pop_front() {
            return Poll::Ready(Ok(m));
        }
        if let Some(e) = &l.fail_recv {
            return Poll::Ready(Err(e.clone()));
        }
        l.waker = Some(cx.waker().clone());
        Poll::Pending
    }

    fn send_poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), MemError>> {
        let mut l = self.0.borrow_mut();
        if l.fail_send {
            l.send_failed = true;
            Poll::Ready(Err(MemError::Injected))
        } else if l.block_send {
            l.swaker = Some(cx.waker().clone());
            Poll::Pending
        } else {
            Poll::Ready(Ok(()))
        }
    }

    fn send_start(self: Pin<&mut Self>, msg: Message) -> Result<(), MemError> {
        let mut l = self.0.borrow_mut();
        if l.fail_send {
            l.send_failed = true;
            return Err(MemError::Injected);
        }
        l.outbox.push(msg);
        Ok(())
    }

    fn send_poll_flush(self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Result<(), MemError>> {
        let mut l = self.0.borrow_mut();
        if l.fail_send {
            l.send_failed = true;
            Poll::Ready(Err(MemError::Injected))
        } else {
            Poll::Ready(Ok(()))
        }
    }
}
