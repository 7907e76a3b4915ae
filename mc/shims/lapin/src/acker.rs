use std::sync::{
    atomic::{AtomicBool, Ordering},
    Arc,
};

use crate::{
    model::{self, rpc, with},
    options::{BasicAckOptions, BasicNackOptions, BasicRejectOptions},
    protocol::{AMQPError, AMQPSoftError},
    types::DeliveryTag,
    Error, Result,
};

#[derive(Clone, Debug)]
pub struct Acker {
    pub(crate) channel: usize,
    pub(crate) tag: DeliveryTag,
    pub(crate) used: Arc<AtomicBool>,
}
impl Acker {
    fn claim(&self) -> Result<()> {
        mcrt::point(mcrt::Kind::Broker);
        if self.used.swap(true, Ordering::SeqCst) {
            return Err(Error::ProtocolError(AMQPError::new(
                AMQPSoftError::PRECONDITIONFAILED.into(),
                "Attempted to use an already used Acker".into(),
            )));
        }
        Ok(())
    }
    pub async fn ack(&self, o: BasicAckOptions) -> Result<()> {
        self.claim()?;
        rpc(|| with(|w| w.settle(self.channel, self.tag, o.multiple, model::Settle::Ack))).await
    }
    pub async fn nack(&self, o: BasicNackOptions) -> Result<()> {
        self.claim()?;
        rpc(|| {
            with(|w| w.settle(self.channel, self.tag, o.multiple, model::Settle::reject(o.requeue)))
        })
        .await
    }
    pub async fn reject(&self, o: BasicRejectOptions) -> Result<()> {
        self.claim()?;
        rpc(|| with(|w| w.settle(self.channel, self.tag, false, model::Settle::reject(o.requeue))))
            .await
    }
    pub fn used(&self) -> bool {
        self.used.load(Ordering::SeqCst)
    }
}
impl PartialEq for Acker {
    fn eq(&self, o: &Acker) -> bool {
        self.channel == o.channel && self.tag == o.tag
    }
}
