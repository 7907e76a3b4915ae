use std::{fmt, sync::Arc};

use crate::{
    connection::ConnectionCloser,
    consumer::{Canceler, Consumer},
    message::BasicGetMessage,
    model::{rpc, with, Settle},
    options::*,
    publisher_confirm::PublisherConfirm,
    queue::Queue,
    types::{ChannelId, DeliveryTag, FieldTable, MessageCount, ReplyCode},
    BasicProperties, ChannelState, Error, ExchangeKind, Result,
};

pub(crate) struct ChannelCloser {
    pub(crate) id: usize,
}
impl Drop for ChannelCloser {
    fn drop(&mut self) {
        if mcrt::active() && !mcrt::tearing() {
            let w = with(|w| w.close_channel(self.id, None));
            for w in w {
                w.wake();
            }
        }
    }
}

#[derive(Clone)]
pub struct Channel {
    pub(crate) id: usize,
    pub(crate) conn: usize,
    pub(crate) closer: Arc<ChannelCloser>,
    pub(crate) _conn_closer: Arc<ConnectionCloser>,
}
impl fmt::Debug for Channel {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Channel({})", self.id)
    }
}
impl PartialEq for Channel {
    fn eq(&self, o: &Channel) -> bool {
        self.id == o.id
    }
}

pub struct ChannelStatus {
    state: ChannelState,
}
impl ChannelStatus {
    pub fn connected(&self) -> bool {
        self.state == ChannelState::Connected
    }
    pub fn state(&self) -> ChannelState {
        self.state.clone()
    }
}

impl Channel {
    pub fn id(&self) -> ChannelId {
        self.id as ChannelId
    }
    /// Not part of lapin: identifies the connection to the harness.
    pub fn model_connection(&self) -> usize {
        self.conn
    }
    pub fn status(&self) -> ChannelStatus {
        ChannelStatus {
            state: with(|w| w.channels[self.id].state.clone()),
        }
    }
    pub fn on_error<E: FnMut(Error) + Send + 'static>(&self, _: E) {}

    pub async fn close(&self, _: ReplyCode, _: &str) -> Result<()> {
        rpc(|| {
            with(|w| match w.check(self.id) {
                Err(e) => (Err(e), Vec::new()),
                Ok(()) => (Ok(()), w.close_channel(self.id, None)),
            })
        })
        .await
    }
    pub async fn basic_qos(&self, prefetch: u16, o: BasicQosOptions) -> Result<()> {
        rpc(|| {
            (
                with(|w| {
                    w.check(self.id)?;
                    let c = &mut w.channels[self.id];
                    if o.global {
                        c.global_prefetch = prefetch;
                    } else {
                        c.prefetch = prefetch;
                    }
                    Ok(())
                }),
                Vec::new(),
            )
        })
        .await
    }
    pub async fn confirm_select(&self, _: ConfirmSelectOptions) -> Result<()> {
        rpc(|| {
            (
                with(|w| {
                    w.check(self.id)?;
                    w.channels[self.id].confirm = true;
                    Ok(())
                }),
                Vec::new(),
            )
        })
        .await
    }
    pub async fn basic_publish(
        &self,
        exchange: &str,
        routing_key: &str,
        _: BasicPublishOptions,
        payload: &[u8],
        properties: BasicProperties,
    ) -> Result<PublisherConfirm> {
        rpc(|| with(|w| w.publish(self.id, exchange, routing_key, payload, properties))).await
    }
    pub async fn basic_consume(
        &self,
        queue: &str,
        tag: &str,
        o: BasicConsumeOptions,
        _: FieldTable,
    ) -> Result<Consumer> {
        let (id, tag) = rpc(|| with(|w| w.consume(self.id, queue, tag, o))).await?;
        Ok(Consumer {
            id,
            tag: tag.into(),
            queue: queue.into(),
            _canceler: Arc::new(Canceler { id }),
            _closer: self.closer.clone(),
        })
    }
    pub async fn basic_get(
        &self,
        queue: &str,
        o: BasicGetOptions,
    ) -> Result<Option<BasicGetMessage>> {
        rpc(|| with(|w| w.get(self.id, queue, o))).await
    }
    pub async fn basic_cancel(&self, tag: &str, _: BasicCancelOptions) -> Result<()> {
        rpc(|| {
            with(|w| {
                if let Err(e) = w.check(self.id) {
                    return (Err(e), Vec::new());
                }
                let wk = w.cancel_tag(self.id, tag);
                (Ok(()), wk)
            })
        })
        .await
    }
    pub async fn basic_ack(&self, tag: DeliveryTag, o: BasicAckOptions) -> Result<()> {
        rpc(|| with(|w| w.settle(self.id, tag, o.multiple, Settle::Ack))).await
    }
    pub async fn basic_nack(&self, tag: DeliveryTag, o: BasicNackOptions) -> Result<()> {
        rpc(|| with(|w| w.settle(self.id, tag, o.multiple, Settle::reject(o.requeue)))).await
    }
    pub async fn basic_reject(&self, tag: DeliveryTag, o: BasicRejectOptions) -> Result<()> {
        rpc(|| with(|w| w.settle(self.id, tag, false, Settle::reject(o.requeue)))).await
    }
    pub async fn queue_declare(
        &self,
        queue: &str,
        o: QueueDeclareOptions,
        args: FieldTable,
    ) -> Result<Queue> {
        rpc(|| with(|w| w.queue_declare(self.id, queue, o, &args))).await
    }
    pub async fn queue_bind(
        &self,
        queue: &str,
        exchange: &str,
        key: &str,
        _: QueueBindOptions,
        _: FieldTable,
    ) -> Result<()> {
        rpc(|| with(|w| w.queue_bind(self.id, queue, exchange, key))).await
    }
    pub async fn queue_unbind(
        &self,
        queue: &str,
        exchange: &str,
        key: &str,
        _: FieldTable,
    ) -> Result<()> {
        rpc(|| with(|w| w.queue_unbind(self.id, queue, exchange, key))).await
    }
    pub async fn queue_purge(&self, queue: &str, _: QueuePurgeOptions) -> Result<MessageCount> {
        rpc(|| with(|w| w.queue_purge(self.id, queue))).await
    }
    pub async fn queue_delete(&self, queue: &str, o: QueueDeleteOptions) -> Result<MessageCount> {
        rpc(|| with(|w| w.queue_delete(self.id, queue, o))).await
    }
    pub async fn exchange_declare(
        &self,
        name: &str,
        kind: ExchangeKind,
        o: ExchangeDeclareOptions,
        args: FieldTable,
    ) -> Result<()> {
        rpc(|| with(|w| w.exchange_declare(self.id, name, &kind, o, &args))).await
    }
    pub async fn exchange_delete(&self, name: &str, _: ExchangeDeleteOptions) -> Result<()> {
        rpc(|| with(|w| w.exchange_delete(self.id, name))).await
    }
}
