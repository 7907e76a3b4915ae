use crate::types::{ConsumerCount, MessageCount, ShortString};

#[derive(Clone, Debug)]
pub struct Queue {
    pub(crate) name: ShortString,
    pub(crate) message_count: MessageCount,
    pub(crate) consumer_count: ConsumerCount,
}
impl Queue {
    pub fn name(&self) -> &ShortString {
        &self.name
    }
    pub fn message_count(&self) -> MessageCount {
        self.message_count
    }
    pub fn consumer_count(&self) -> ConsumerCount {
        self.consumer_count
    }
}
