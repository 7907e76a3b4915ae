use std::{
    fmt,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll},
};

use futures_core::Stream;

use crate::{
    channel::ChannelCloser,
    message::Delivery,
    model::{with, Item},
    types::ShortString,
    ConsumerState, Result,
};

/// Cancels the consumer when its last handle goes away.
pub(crate) struct Canceler {
    pub(crate) id: usize,
}
impl Drop for Canceler {
    fn drop(&mut self) {
        if mcrt::active() && !mcrt::tearing() {
            let w = with(|w| w.cancel_consumer(self.id));
            for w in w {
                w.wake();
            }
        }
    }
}

#[derive(Clone)]
pub struct Consumer {
    pub(crate) id: usize,
    pub(crate) tag: ShortString,
    pub(crate) queue: ShortString,
    pub(crate) _canceler: Arc<Canceler>,
    pub(crate) _closer: Arc<ChannelCloser>,
}
impl Consumer {
    pub fn tag(&self) -> ShortString {
        self.tag.clone()
    }
    pub fn queue(&self) -> ShortString {
        self.queue.clone()
    }
    pub fn state(&self) -> ConsumerState {
        if with(|w| w.consumers[self.id].active) {
            ConsumerState::Active
        } else {
            ConsumerState::Canceled
        }
    }
}
impl fmt::Debug for Consumer {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Consumer({})", self.tag)
    }
}
impl Stream for Consumer {
    type Item = Result<Delivery>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        mcrt::point(mcrt::Kind::Broker);
        with(|w| {
            let c = &mut w.consumers[self.id];
            c.wakers.push(cx.waker().clone());
            match c.buffer.pop_front() {
                Some(Item::Delivery(d)) => Poll::Ready(Some(Ok(d))),
                Some(Item::Error(e)) => Poll::Ready(Some(Err(e))),
                Some(Item::End) => Poll::Ready(None),
                None => Poll::Pending,
            }
        })
    }
}
