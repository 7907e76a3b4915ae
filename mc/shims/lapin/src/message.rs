use std::ops::Deref;

use crate::{
    acker::Acker,
    types::{DeliveryTag, MessageCount, ReplyCode, ShortString},
    BasicProperties, Result,
};

pub type DeliveryResult = Result<Option<Delivery>>;

#[derive(Debug, PartialEq)]
pub struct Delivery {
    pub delivery_tag: DeliveryTag,
    pub exchange: ShortString,
    pub routing_key: ShortString,
    pub redelivered: bool,
    pub properties: BasicProperties,
    pub data: Vec<u8>,
    pub acker: Acker,
}
impl Deref for Delivery {
    type Target = Acker;
    fn deref(&self) -> &Acker {
        &self.acker
    }
}

#[derive(Debug, PartialEq)]
pub struct BasicGetMessage {
    pub delivery: Delivery,
    pub message_count: MessageCount,
}
impl Deref for BasicGetMessage {
    type Target = Delivery;
    fn deref(&self) -> &Delivery {
        &self.delivery
    }
}

#[derive(Debug, PartialEq)]
pub struct BasicReturnMessage {
    pub delivery: Delivery,
    pub reply_code: ReplyCode,
    pub reply_text: ShortString,
}
