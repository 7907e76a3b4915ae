use std::{fmt, sync::Arc};

use crate::{
    channel::{Channel, ChannelCloser},
    model::{self, rpc, with},
    types::ReplyCode,
    ConnectionProperties, ConnectionState, Error, Result,
};

pub(crate) struct ConnectionCloser {
    pub(crate) id: usize,
}
impl Drop for ConnectionCloser {
    fn drop(&mut self) {
        if mcrt::active() && !mcrt::tearing() {
            let w = with(|w| w.close_connection(self.id, None));
            for w in w {
                w.wake();
            }
        }
    }
}

pub struct Connection {
    id: usize,
    closer: Arc<ConnectionCloser>,
}
impl fmt::Debug for Connection {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Connection({})", self.id)
    }
}

pub struct ConnectionStatus {
    open: bool,
}
impl ConnectionStatus {
    pub fn connected(&self) -> bool {
        self.open
    }
    pub fn errored(&self) -> bool {
        !self.open
    }
    pub fn state(&self) -> ConnectionState {
        if self.open {
            ConnectionState::Connected
        } else {
            ConnectionState::Closed
        }
    }
}

impl Connection {
    pub async fn connect(uri: &str, _: ConnectionProperties) -> Result<Connection> {
        if !mcrt::active() {
            return Err(Error::MissingHeartbeatError);
        }
        let id = rpc(|| (with(|w| w.connect(uri)), Vec::new())).await?;
        Ok(Connection {
            id,
            closer: Arc::new(ConnectionCloser { id }),
        })
    }
    pub async fn create_channel(&self) -> Result<Channel> {
        let id = rpc(|| (with(|w| w.open_channel(self.id)), Vec::new())).await?;
        Ok(Channel {
            id,
            conn: self.id,
            closer: Arc::new(ChannelCloser { id }),
            _conn_closer: self.closer.clone(),
        })
    }
    pub fn status(&self) -> ConnectionStatus {
        ConnectionStatus {
            open: with(|w| w.conns[self.id].open),
        }
    }
    pub fn on_error<E: FnMut(Error) + Send + 'static>(&self, _: E) {}
    pub async fn close(&self, _: ReplyCode, _: &str) -> Result<()> {
        rpc(|| {
            with(|w| {
                if !w.conns[self.id].open {
                    return (
                        Err(Error::InvalidConnectionState(ConnectionState::Closed)),
                        Vec::new(),
                    );
                }
                let wk = w.close_connection(self.id, None);
                (Ok(()), wk)
            })
        })
        .await
    }
    /// Not part of lapin: identifies the connection to the harness.
    pub fn model_id(&self) -> usize {
        self.id
    }
}
#[allow(unused)]
fn _unused(_: &model::World) {}
