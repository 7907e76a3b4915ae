use std::{
    future::Future,
    pin::Pin,
    task::{Context, Poll},
};

use crate::{message::BasicReturnMessage, Result};

#[derive(Debug)]
pub enum Confirmation {
    Ack(Option<Box<BasicReturnMessage>>),
    Nack(Option<Box<BasicReturnMessage>>),
    NotRequested,
}
impl Confirmation {
    pub fn take_message(self) -> Option<BasicReturnMessage> {
        match self {
            Confirmation::Ack(Some(m)) | Confirmation::Nack(Some(m)) => Some(*m),
            _ => None,
        }
    }
    pub fn is_ack(&self) -> bool {
        matches!(self, Confirmation::Ack(_))
    }
    pub fn is_nack(&self) -> bool {
        matches!(self, Confirmation::Nack(_))
    }
}

#[derive(Debug)]
pub struct PublisherConfirm {
    pub(crate) requested: bool,
}
impl Future for PublisherConfirm {
    type Output = Result<Confirmation>;
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        Poll::Ready(Ok(if self.requested {
            Confirmation::Ack(None)
        } else {
            Confirmation::NotRequested
        }))
    }
}
