//! `lapin` against an in-memory model of an AMQP 0-9-1 broker that lives in the
//! execution of the model checker. Types without behaviour are the real ones.
//!
//! Every operation is one atomic step of the broker preceded by a scheduling
//! point, and its reply arrives on a later poll, so that other tasks run
//! between a request and its reply and a future can be dropped in between.
pub use amq_protocol::{
    auth,
    protocol::{self, BasicProperties},
    types, uri,
};

mod types_;
pub use types_::*;

pub mod options;

pub mod acker;
mod channel;
mod connection;
mod consumer;
pub mod message;
pub mod model;
pub mod publisher_confirm;
mod queue;

pub use channel::{Channel, ChannelStatus};
pub use connection::{Connection, ConnectionStatus};
pub use consumer::Consumer;
pub use queue::Queue;
