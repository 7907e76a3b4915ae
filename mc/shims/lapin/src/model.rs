//! State and steps of the modelled broker.
use std::{
    collections::{BTreeMap, VecDeque},
    io,
    sync::{atomic::AtomicBool, Arc},
    task::{Poll, Waker},
};

use crate::{
    acker::Acker,
    message::{BasicGetMessage, Delivery},
    options::*,
    protocol::{AMQPError, AMQPErrorKind, AMQPHardError, AMQPSoftError},
    publisher_confirm::PublisherConfirm,
    queue::Queue,
    types::{DeliveryTag, FieldTable, MessageCount},
    BasicProperties, ChannelState, ConnectionState, Error, ExchangeKind, Result,
};

/// Result of a step and the wakers to run after it.
pub type Step<T> = (Result<T>, Vec<Waker>);

/// Runs a step at the first poll and replies at the second.
pub(crate) async fn rpc<T>(step: impl FnOnce() -> Step<T>) -> Result<T> {
    mcrt::point(mcrt::Kind::Broker);
    let (r, wakers) = step();
    for w in wakers {
        w.wake();
    }
    let mut first = true;
    std::future::poll_fn(|cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await;
    r
}

pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    mcrt::local::<World, R>("lapin", f)
}

pub(crate) enum Item {
    Delivery(Delivery),
    Error(Error),
    End,
}

#[derive(Clone, Debug)]
struct Msg {
    seq: u64,
    /// The queue's incarnation.
    queue_id: u64,
    data: Vec<u8>,
    exchange: String,
    key: String,
    props: BasicProperties,
    redelivered: bool,
}

struct QueueSt {
    id: u64,
    /// Owner of an exclusive queue.
    conn: usize,
    had_consumer: bool,
    ready: VecDeque<Msg>,
    durable: bool,
    exclusive: bool,
    auto_delete: bool,
    args: FieldTable,
    rr: usize,
}

struct ExchangeSt {
    kind: String,
    durable: bool,
    auto_delete: bool,
    args: FieldTable,
    bindings: Vec<(String, String)>,
}

#[derive(Default)]
struct Broker {
    queues: BTreeMap<String, QueueSt>,
    exchanges: BTreeMap<String, ExchangeSt>,
}

pub struct ConnSt {
    pub open: bool,
    pub uri: String,
}

pub struct ChanSt {
    conn: usize,
    pub state: ChannelState,
    pub(crate) prefetch: u16,
    pub(crate) global_prefetch: u16,
    pub(crate) confirm: bool,
    next_tag: u64,
    unacked: BTreeMap<u64, (String, Msg, Option<usize>)>,
}

pub struct ConsSt {
    chan: usize,
    pub tag: String,
    queue: String,
    pub active: bool,
    no_ack: bool,
    prefetch: u16,
    pub(crate) buffer: VecDeque<Item>,
    pub(crate) wakers: Vec<Waker>,
}

pub(crate) enum Settle {
    Ack,
    Requeue,
    Discard,
}
impl Settle {
    pub(crate) fn reject(requeue: bool) -> Self {
        if requeue {
            Settle::Requeue
        } else {
            Settle::Discard
        }
    }
}

#[derive(Default)]
pub struct World {
    brokers: BTreeMap<String, Broker>,
    pub conns: Vec<ConnSt>,
    pub channels: Vec<ChanSt>,
    pub consumers: Vec<ConsSt>,
    seq: u64,
    /// Messages that were nacked without requeue, by queue.
    pub discarded: Vec<(String, Vec<u8>)>,
    /// Settled deliveries in order: (queue, payload, acked).
    pub settled: Vec<(String, Vec<u8>, bool)>,
    pub refuse_connections: bool,
    /// The next requests (in all channels) of these names fail.
    pub fail_publishes: u32,
}

fn soft(e: AMQPSoftError, msg: &str) -> Error {
    Error::ProtocolError(AMQPError::new(AMQPErrorKind::Soft(e), msg.into()))
}
fn io_err() -> Error {
    Error::IOError(Arc::new(io::Error::new(
        io::ErrorKind::ConnectionAborted,
        "connection lost",
    )))
}

impl World {
    pub(crate) fn connect(&mut self, uri: &str) -> Result<usize> {
        if self.refuse_connections {
            return Err(io_err());
        }
        self.brokers.entry(uri.to_string()).or_default();
        self.conns.push(ConnSt {
            open: true,
            uri: uri.to_string(),
        });
        Ok(self.conns.len() - 1)
    }
    pub(crate) fn open_channel(&mut self, conn: usize) -> Result<usize> {
        if !self.conns[conn].open {
            return Err(Error::InvalidConnectionState(ConnectionState::Closed));
        }
        self.channels.push(ChanSt {
            conn,
            state: ChannelState::Connected,
            prefetch: 0,
            global_prefetch: 0,
            confirm: false,
            next_tag: 1,
            unacked: BTreeMap::new(),
        });
        Ok(self.channels.len() - 1)
    }
    pub(crate) fn check(&self, chan: usize) -> Result<()> {
        let c = &self.channels[chan];
        if c.state != ChannelState::Connected {
            return Err(Error::InvalidChannelState(c.state.clone()));
        }
        Ok(())
    }
    fn uri(&self, chan: usize) -> String {
        self.conns[self.channels[chan].conn].uri.clone()
    }
    fn broker(&mut self, chan: usize) -> &mut Broker {
        let u = self.uri(chan);
        self.brokers.get_mut(&u).unwrap()
    }

    /// Closes a channel; with an error it is a server-side failure.
    pub(crate) fn close_channel(&mut self, chan: usize, err: Option<Error>) -> Vec<Waker> {
        let mut wk = Vec::new();
        if self.channels[chan].state != ChannelState::Connected {
            return wk;
        }
        self.channels[chan].state = match err {
            None => ChannelState::Closed,
            Some(_) => ChannelState::Error,
        };
        for c in self.consumers.iter_mut() {
            if c.chan == chan && c.active {
                c.active = false;
                if let Some(e) = &err {
                    c.buffer.push_back(Item::Error(e.clone()));
                }
                c.buffer.push_back(Item::End);
                wk.append(&mut c.wakers);
            }
        }
        let un = std::mem::take(&mut self.channels[chan].unacked);
        let uri = self.uri(chan);
        let mut touched = Vec::new();
        for (_, (q, mut m, _)) in un {
            m.redelivered = true;
            self.requeue(&uri, &q, m);
            touched.push(q);
        }
        for q in touched {
            self.dispatch(&uri, &q, &mut wk);
        }
        self.sweep(&uri, &mut wk);
        wk
    }
    pub(crate) fn close_connection(&mut self, conn: usize, err: Option<Error>) -> Vec<Waker> {
        let mut wk = Vec::new();
        if !self.conns[conn].open {
            return wk;
        }
        self.conns[conn].open = false;
        // All channels stop consuming before any message is requeued.
        let chans: Vec<usize> = (0..self.channels.len())
            .filter(|&i| self.channels[i].conn == conn)
            .collect();
        for c in self.consumers.iter_mut() {
            if chans.contains(&c.chan) && c.active {
                c.active = false;
                if let Some(e) = &err {
                    c.buffer.push_back(Item::Error(e.clone()));
                }
                c.buffer.push_back(Item::End);
                wk.append(&mut c.wakers);
            }
        }
        for ch in chans {
            wk.append(&mut self.close_channel(ch, err.clone()));
        }
        let uri = self.conns[conn].uri.clone();
        let own: Vec<String> = self.brokers[&uri]
            .queues
            .iter()
            .filter(|(_, q)| q.exclusive && q.conn == conn)
            .map(|(n, _)| n.clone())
            .collect();
        for q in own {
            self.remove_queue(&uri, &q, &mut wk);
        }
        wk
    }
    /// Harness: the network drops this connection.
    pub fn kill_connection(&mut self, conn: usize) -> Vec<Waker> {
        self.close_connection(conn, Some(io_err()))
    }
    /// A request that the server answers with a channel exception.
    fn exception<T>(&mut self, chan: usize, e: Error) -> Step<T> {
        let wk = self.close_channel(chan, Some(e.clone()));
        (Err(e), wk)
    }

    fn requeue(&mut self, uri: &str, q: &str, m: Msg) {
        if let Some(q) = self.brokers.get_mut(uri).unwrap().queues.get_mut(q).filter(|q| q.id == m.queue_id) {
            let at = q.ready.iter().position(|x| x.seq > m.seq).unwrap_or(q.ready.len());
            q.ready.insert(at, m);
        }
    }

    fn dispatch(&mut self, uri: &str, qname: &str, wk: &mut Vec<Waker>) {
        loop {
            let Some(q) = self.brokers.get_mut(uri).unwrap().queues.get_mut(qname) else {
                return;
            };
            if q.ready.is_empty() {
                return;
            }
            let eligible: Vec<usize> = (0..self.consumers.len())
                .filter(|&i| {
                    let c = &self.consumers[i];
                    let ch = &self.channels[c.chan];
                    if !c.active || c.queue != qname || self.conns[ch.conn].uri != uri {
                        return false;
                    }
                    if c.no_ack {
                        return true;
                    }
                    let mine = ch.unacked.values().filter(|u| u.2 == Some(i)).count();
                    let all = ch.unacked.len();
                    (c.prefetch == 0 || mine < c.prefetch as usize)
                        && (ch.global_prefetch == 0 || all < ch.global_prefetch as usize)
                })
                .collect();
            if eligible.is_empty() {
                return;
            }
            let pick = eligible
                .iter()
                .copied()
                .find(|&i| i >= q.rr)
                .unwrap_or(eligible[0]);
            q.rr = pick + 1;
            let m = q.ready.pop_front().unwrap();
            let c = &mut self.consumers[pick];
            let ch = &mut self.channels[c.chan];
            let tag = ch.next_tag;
            ch.next_tag += 1;
            let d = Delivery {
                delivery_tag: tag,
                exchange: m.exchange.clone().into(),
                routing_key: m.key.clone().into(),
                redelivered: m.redelivered,
                properties: m.props.clone(),
                data: m.data.clone(),
                acker: Acker {
                    channel: c.chan,
                    tag,
                    used: Arc::new(AtomicBool::new(false)),
                },
            };
            if !c.no_ack {
                ch.unacked.insert(tag, (qname.to_string(), m, Some(pick)));
            }
            c.buffer.push_back(Item::Delivery(d));
            wk.append(&mut c.wakers);
        }
    }

    pub(crate) fn settle(&mut self, chan: usize, tag: DeliveryTag, multiple: bool, s: Settle) -> Step<()> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let tags: Vec<u64> = if multiple {
            self.channels[chan]
                .unacked
                .keys()
                .copied()
                .filter(|t| tag == 0 || *t <= tag)
                .collect()
        } else {
            vec![tag]
        };
        let uri = self.uri(chan);
        let mut wk = Vec::new();
        let mut touched = Vec::new();
        for t in tags {
            let Some((q, mut m, _)) = self.channels[chan].unacked.remove(&t) else {
                // The client learns about it asynchronously.
                let e = soft(AMQPSoftError::PRECONDITIONFAILED, "unknown delivery tag");
                let wk = self.close_channel(chan, Some(e));
                return (Ok(()), wk);
            };
            match s {
                Settle::Ack => self.settled.push((q.clone(), m.data.clone(), true)),
                Settle::Requeue => {
                    m.redelivered = true;
                    self.requeue(&uri, &q, m);
                }
                Settle::Discard => {
                    self.settled.push((q.clone(), m.data.clone(), false));
                    self.discarded.push((q.clone(), m.data));
                }
            }
            touched.push(q);
        }
        for q in touched {
            self.dispatch(&uri, &q, &mut wk);
        }
        // Global limits can free other queues of the channel.
        if self.channels[chan].global_prefetch != 0 {
            let names: Vec<String> = self.brokers[&uri].queues.keys().cloned().collect();
            for q in names {
                self.dispatch(&uri, &q, &mut wk);
            }
        }
        (Ok(()), wk)
    }

    pub(crate) fn publish(
        &mut self,
        chan: usize,
        exchange: &str,
        key: &str,
        data: &[u8],
        props: BasicProperties,
    ) -> Step<PublisherConfirm> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        if self.fail_publishes > 0 {
            self.fail_publishes -= 1;
            return (Err(io_err()), Vec::new());
        }
        let requested = self.channels[chan].confirm;
        let targets: Vec<String> = if exchange.is_empty() {
            vec![key.to_string()]
        } else {
            match self.broker(chan).exchanges.get(exchange) {
                None => {
                    let e = soft(AMQPSoftError::NOTFOUND, "no exchange");
                    let wk = self.close_channel(chan, Some(e));
                    return (Ok(PublisherConfirm { requested: false }), wk);
                }
                Some(x) => {
                    let mut t: Vec<String> = x
                        .bindings
                        .iter()
                        .filter(|(_, k)| x.kind == "fanout" || k == key)
                        .map(|(q, _)| q.clone())
                        .collect();
                    t.dedup();
                    t
                }
            }
        };
        let uri = self.uri(chan);
        let mut wk = Vec::new();
        for t in targets {
            self.seq += 1;
            if let Some(q) = self.brokers.get_mut(&uri).unwrap().queues.get_mut(&t) {
                q.ready.push_back(Msg {
                    seq: self.seq,
                    queue_id: q.id,
                    data: data.to_vec(),
                    exchange: exchange.to_string(),
                    key: key.to_string(),
                    props: props.clone(),
                    redelivered: false,
                });
                self.dispatch(&uri, &t, &mut wk);
            }
        }
        (Ok(PublisherConfirm { requested }), wk)
    }
    /// Harness: puts raw bytes in a queue.
    pub fn inject(&mut self, uri: &str, queue: &str, data: &[u8]) -> Vec<Waker> {
        let mut wk = Vec::new();
        self.seq += 1;
        if let Some(q) = self.brokers.get_mut(uri).and_then(|b| b.queues.get_mut(queue)) {
            q.ready.push_back(Msg {
                seq: self.seq,
                queue_id: q.id,
                data: data.to_vec(),
                exchange: String::new(),
                key: queue.to_string(),
                props: BasicProperties::default(),
                redelivered: false,
            });
            self.dispatch(uri, queue, &mut wk);
        }
        wk
    }

    pub(crate) fn consume(
        &mut self,
        chan: usize,
        queue: &str,
        tag: &str,
        o: BasicConsumeOptions,
    ) -> Step<(usize, String)> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        if !self.broker(chan).queues.contains_key(queue) {
            return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no queue"));
        }
        if self.locked(chan, queue) {
            return self.exception(chan, soft(AMQPSoftError::RESOURCELOCKED, "exclusive queue"));
        }
        let id = self.consumers.len();
        let tag = if tag.is_empty() {
            format!("ctag-{id}")
        } else {
            tag.to_string()
        };
        if self
            .consumers
            .iter()
            .any(|c| c.active && c.chan == chan && c.tag == tag)
        {
            let e = Error::ProtocolError(AMQPError::new(
                AMQPErrorKind::Hard(AMQPHardError::NOTALLOWED),
                "attempt to reuse consumer tag".into(),
            ));
            let conn = self.channels[chan].conn;
            let wk = self.close_connection(conn, Some(e.clone()));
            return (Err(e), wk);
        }
        self.consumers.push(ConsSt {
            chan,
            tag: tag.clone(),
            queue: queue.to_string(),
            active: true,
            no_ack: o.no_ack,
            prefetch: self.channels[chan].prefetch,
            buffer: VecDeque::new(),
            wakers: Vec::new(),
        });
        let uri = self.uri(chan);
        let mut wk = Vec::new();
        self.broker(chan).queues.get_mut(queue).unwrap().had_consumer = true;
        self.dispatch(&uri, queue, &mut wk);
        (Ok((id, tag)), wk)
    }
    pub(crate) fn get(
        &mut self,
        chan: usize,
        queue: &str,
        o: BasicGetOptions,
    ) -> Step<Option<BasicGetMessage>> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let Some(q) = self.broker(chan).queues.get_mut(queue) else {
            return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no queue"));
        };
        let Some(m) = q.ready.pop_front() else {
            return (Ok(None), Vec::new());
        };
        let left = q.ready.len() as MessageCount;
        let ch = &mut self.channels[chan];
        let tag = ch.next_tag;
        ch.next_tag += 1;
        let delivery = Delivery {
            delivery_tag: tag,
            exchange: m.exchange.clone().into(),
            routing_key: m.key.clone().into(),
            redelivered: m.redelivered,
            properties: m.props.clone(),
            data: m.data.clone(),
            acker: Acker {
                channel: chan,
                tag,
                used: Arc::new(AtomicBool::new(false)),
            },
        };
        if !o.no_ack {
            ch.unacked.insert(tag, (queue.to_string(), m, None));
        }
        (
            Ok(Some(BasicGetMessage {
                delivery,
                message_count: left,
            })),
            Vec::new(),
        )
    }
    /// Client side cancellation. What the client had buffered stays unsettled.
    pub(crate) fn cancel_consumer(&mut self, id: usize) -> Vec<Waker> {
        let c = &mut self.consumers[id];
        if !c.active {
            return Vec::new();
        }
        c.active = false;
        c.buffer.push_back(Item::End);
        let mut wk = std::mem::take(&mut c.wakers);
        let uri = self.uri(self.consumers[id].chan);
        self.sweep(&uri, &mut wk);
        wk
    }
    pub(crate) fn cancel_tag(&mut self, chan: usize, tag: &str) -> Vec<Waker> {
        match (0..self.consumers.len())
            .find(|&i| self.consumers[i].active && self.consumers[i].chan == chan && self.consumers[i].tag == tag)
        {
            Some(i) => self.cancel_consumer(i),
            None => Vec::new(),
        }
    }

    /// Whether another connection owns the queue.
    fn locked(&mut self, chan: usize, q: &str) -> bool {
        let conn = self.channels[chan].conn;
        self.broker(chan)
            .queues
            .get(q)
            .map(|q| q.exclusive && q.conn != conn)
            .unwrap_or(false)
    }
    fn remove_queue(&mut self, uri: &str, q: &str, wk: &mut Vec<Waker>) {
        let b = self.brokers.get_mut(uri).unwrap();
        b.queues.remove(q);
        let mut gone = Vec::new();
        for (n, x) in b.exchanges.iter_mut() {
            let before = x.bindings.len();
            x.bindings.retain(|e| e.0 != q);
            if x.auto_delete && before > 0 && x.bindings.is_empty() {
                gone.push(n.clone());
            }
        }
        for n in gone {
            b.exchanges.remove(&n);
        }
        for i in 0..self.consumers.len() {
            let same = self.conns[self.channels[self.consumers[i].chan].conn].uri == uri;
            if same && self.consumers[i].active && self.consumers[i].queue == q {
                self.consumers[i].active = false;
                self.consumers[i].buffer.push_back(Item::End);
                wk.append(&mut self.consumers[i].wakers);
            }
        }
    }
    /// Removes auto-delete queues whose last consumer is gone.
    fn sweep(&mut self, uri: &str, wk: &mut Vec<Waker>) {
        let names: Vec<String> = self.brokers[uri]
            .queues
            .iter()
            .filter(|(_, q)| q.auto_delete && q.had_consumer)
            .map(|(n, _)| n.clone())
            .collect();
        for n in names {
            let used = self.consumers.iter().any(|c| {
                c.active && c.queue == n && self.conns[self.channels[c.chan].conn].uri == uri
            });
            if !used {
                self.remove_queue(uri, &n, wk);
            }
        }
    }

    fn queue_info(&mut self, chan: usize, name: &str) -> Queue {
        let uri = self.uri(chan);
        let n = self.brokers[&uri].queues[name].ready.len();
        let consumers = self
            .consumers
            .iter()
            .filter(|c| c.active && c.queue == name && self.conns[self.channels[c.chan].conn].uri == uri)
            .count();
        Queue {
            name: name.into(),
            message_count: n as MessageCount,
            consumer_count: consumers as u32,
        }
    }
    pub(crate) fn queue_declare(
        &mut self,
        chan: usize,
        name: &str,
        o: QueueDeclareOptions,
        args: &FieldTable,
    ) -> Step<Queue> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let name = if name.is_empty() {
            self.seq += 1;
            format!("amq.gen-{}", self.seq)
        } else {
            name.to_string()
        };
        if self.locked(chan, &name) {
            return self.exception(chan, soft(AMQPSoftError::RESOURCELOCKED, "exclusive queue"));
        }
        match self.broker(chan).queues.get(&name) {
            Some(q) => {
                if !o.passive
                    && (q.durable != o.durable
                        || q.exclusive != o.exclusive
                        || q.auto_delete != o.auto_delete
                        || q.args != *args)
                {
                    return self.exception(
                        chan,
                        soft(AMQPSoftError::PRECONDITIONFAILED, "inequivalent arg for queue"),
                    );
                }
            }
            None => {
                if o.passive {
                    return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no queue"));
                }
                self.seq += 1;
                let (id, conn) = (self.seq, self.channels[chan].conn);
                self.broker(chan).queues.insert(
                    name.clone(),
                    QueueSt {
                        id,
                        conn,
                        had_consumer: false,
                        ready: VecDeque::new(),
                        durable: o.durable,
                        exclusive: o.exclusive,
                        auto_delete: o.auto_delete,
                        args: args.clone(),
                        rr: 0,
                    },
                );
            }
        }
        (Ok(self.queue_info(chan, &name)), Vec::new())
    }
    pub(crate) fn queue_bind(&mut self, chan: usize, q: &str, x: &str, key: &str) -> Step<()> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let b = self.broker(chan);
        if !b.queues.contains_key(q) || !b.exchanges.contains_key(x) {
            return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no queue or exchange"));
        }
        let x = b.exchanges.get_mut(x).unwrap();
        let e = (q.to_string(), key.to_string());
        if !x.bindings.contains(&e) {
            x.bindings.push(e);
        }
        (Ok(()), Vec::new())
    }
    pub(crate) fn queue_unbind(&mut self, chan: usize, q: &str, x: &str, key: &str) -> Step<()> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        if let Some(x) = self.broker(chan).exchanges.get_mut(x) {
            x.bindings.retain(|b| !(b.0 == q && b.1 == key));
        }
        (Ok(()), Vec::new())
    }
    pub(crate) fn queue_purge(&mut self, chan: usize, q: &str) -> Step<MessageCount> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let n = match self.broker(chan).queues.get_mut(q) {
            Some(q) => {
                let n = q.ready.len();
                q.ready.clear();
                n
            }
            None => return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no queue")),
        };
        (Ok(n as MessageCount), Vec::new())
    }
    pub(crate) fn queue_delete(&mut self, chan: usize, q: &str, o: QueueDeleteOptions) -> Step<MessageCount> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let uri = self.uri(chan);
        if !self.brokers[&uri].queues.contains_key(q) {
            return (Ok(0), Vec::new());
        }
        let info = self.queue_info(chan, q);
        if self.locked(chan, q) {
            return self.exception(chan, soft(AMQPSoftError::RESOURCELOCKED, "exclusive queue"));
        }
        if (o.if_unused && info.consumer_count > 0) || (o.if_empty && info.message_count > 0) {
            return self.exception(
                chan,
                soft(AMQPSoftError::PRECONDITIONFAILED, "queue in use or not empty"),
            );
        }
        let mut wk = Vec::new();
        self.remove_queue(&uri, q, &mut wk);
        (Ok(info.message_count), wk)
    }
    pub(crate) fn exchange_declare(
        &mut self,
        chan: usize,
        name: &str,
        kind: &ExchangeKind,
        o: ExchangeDeclareOptions,
        args: &FieldTable,
    ) -> Step<()> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        let kind = match kind {
            ExchangeKind::Custom(s) => s.clone(),
            ExchangeKind::Direct => "direct".into(),
            ExchangeKind::Fanout => "fanout".into(),
            ExchangeKind::Headers => "headers".into(),
            ExchangeKind::Topic => "topic".into(),
        };
        match self.broker(chan).exchanges.get(name) {
            Some(x) => {
                if !o.passive
                    && (x.kind != kind
                        || x.durable != o.durable
                        || x.auto_delete != o.auto_delete
                        || x.args != *args)
                {
                    return self.exception(
                        chan,
                        soft(AMQPSoftError::PRECONDITIONFAILED, "inequivalent arg for exchange"),
                    );
                }
            }
            None => {
                if o.passive {
                    return self.exception(chan, soft(AMQPSoftError::NOTFOUND, "no exchange"));
                }
                self.broker(chan).exchanges.insert(
                    name.to_string(),
                    ExchangeSt {
                        kind,
                        durable: o.durable,
                        auto_delete: o.auto_delete,
                        args: args.clone(),
                        bindings: Vec::new(),
                    },
                );
            }
        }
        (Ok(()), Vec::new())
    }
    pub(crate) fn exchange_delete(&mut self, chan: usize, name: &str) -> Step<()> {
        if let Err(e) = self.check(chan) {
            return (Err(e), Vec::new());
        }
        self.broker(chan).exchanges.remove(name);
        (Ok(()), Vec::new())
    }

    // Inspection by the harness.
    pub fn queue_names(&self, uri: &str) -> Vec<String> {
        self.brokers
            .get(uri)
            .map(|b| b.queues.keys().cloned().collect())
            .unwrap_or_default()
    }
    pub fn exchange_names(&self, uri: &str) -> Vec<String> {
        self.brokers
            .get(uri)
            .map(|b| b.exchanges.keys().cloned().collect())
            .unwrap_or_default()
    }
    /// Messages ready for delivery and delivered but unsettled.
    pub fn depth(&self, uri: &str, q: &str) -> Option<(usize, usize)> {
        let ready = self.brokers.get(uri)?.queues.get(q)?.ready.len();
        let un = self
            .channels
            .iter()
            .filter(|c| self.conns[c.conn].uri == uri)
            .flat_map(|c| c.unacked.values())
            .filter(|u| u.0 == q)
            .count();
        Some((ready, un))
    }
    pub fn open_connections(&self, uri: &str) -> usize {
        self.conns.iter().filter(|c| c.open && c.uri == uri).count()
    }
}
