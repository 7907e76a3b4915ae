//! Request options, copied from lapin 2.5.0.
use crate::types::Boolean;

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicQosOptions {
    pub global: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicConsumeOptions {
    pub no_local: Boolean,
    pub no_ack: Boolean,
    pub exclusive: Boolean,
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicCancelOptions {
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicPublishOptions {
    pub mandatory: Boolean,
    pub immediate: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicDeliverOptions {
    pub redelivered: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicGetOptions {
    pub no_ack: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicGetOkOptions {
    pub redelivered: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicAckOptions {
    pub multiple: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicRejectOptions {
    pub requeue: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicRecoverAsyncOptions {
    pub requeue: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicRecoverOptions {
    pub requeue: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct BasicNackOptions {
    pub multiple: Boolean,
    pub requeue: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ChannelFlowOptions {
    pub active: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ChannelFlowOkOptions {
    pub active: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct AccessRequestOptions {
    pub exclusive: Boolean,
    pub passive: Boolean,
    pub active: Boolean,
    pub write: Boolean,
    pub read: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ExchangeDeclareOptions {
    pub passive: Boolean,
    pub durable: Boolean,
    pub auto_delete: Boolean,
    pub internal: Boolean,
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ExchangeDeleteOptions {
    pub if_unused: Boolean,
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ExchangeBindOptions {
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ExchangeUnbindOptions {
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct QueueDeclareOptions {
    pub passive: Boolean,
    pub durable: Boolean,
    pub exclusive: Boolean,
    pub auto_delete: Boolean,
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct QueueBindOptions {
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct QueuePurgeOptions {
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct QueueDeleteOptions {
    pub if_unused: Boolean,
    pub if_empty: Boolean,
    pub nowait: Boolean,
}

#[derive(Copy, Clone, Debug, Default, PartialEq)]
pub struct ConfirmSelectOptions {
    pub nowait: Boolean,
}
