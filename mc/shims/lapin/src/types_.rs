//! Plain types, as in lapin 2.5.0.
use std::{fmt, io, sync::Arc};

use amq_protocol::{
    protocol::AMQPError,
    types::{AMQPValue, ChannelId, FieldTable, LongString},
};

pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug)]
#[non_exhaustive]
pub enum Error {
    ChannelsLimitReached,
    InvalidChannel(ChannelId),
    InvalidChannelState(ChannelState),
    InvalidConnectionState(ConnectionState),
    IOError(Arc<io::Error>),
    ProtocolError(AMQPError),
    MissingHeartbeatError,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::ChannelsLimitReached => write!(f, "the maximum number of channels for this connection has been reached"),
            Error::InvalidChannel(c) => write!(f, "invalid channel: {c}"),
            Error::InvalidChannelState(s) => write!(f, "invalid channel state: {s:?}"),
            Error::InvalidConnectionState(s) => write!(f, "invalid connection state: {s:?}"),
            Error::IOError(e) => write!(f, "IO error: {e}"),
            Error::ProtocolError(e) => write!(f, "protocol error: {e}"),
            Error::MissingHeartbeatError => write!(f, "no heartbeat received from server for too long"),
        }
    }
}
impl std::error::Error for Error {}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum ChannelState {
    #[default]
    Initial,
    Connected,
    Closing,
    Closed,
    Error,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum ConnectionState {
    #[default]
    Initial,
    Connecting,
    Connected,
    Closing,
    Closed,
    Error,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ConsumerState {
    Active,
    ActiveWithDelegate,
    Canceling,
    Canceled,
}
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub enum ExchangeKind {
    Custom(String),
    #[default]
    Direct,
    Fanout,
    Headers,
    Topic,
}

#[derive(Clone)]
pub struct ConnectionProperties {
    pub locale: String,
    pub client_properties: FieldTable,
}
impl Default for ConnectionProperties {
    fn default() -> Self {
        Self {
            locale: "en_US".into(),
            client_properties: FieldTable::default(),
        }
    }
}
impl ConnectionProperties {
    #[must_use]
    pub fn with_connection_name(mut self, name: LongString) -> Self {
        self.client_properties
            .insert("connection_name".into(), AMQPValue::LongString(name));
        self
    }
    #[must_use]
    pub fn with_executor<E: Send + Sync + 'static>(self, _: E) -> Self {
        self
    }
    #[must_use]
    pub fn with_reactor<R: Send + Sync + 'static>(self, _: R) -> Self {
        self
    }
}
