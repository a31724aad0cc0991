//! C41: subscribers of the fills feed, applying its updates, always hold exactly the market's fills.
use crate::common::*;
use crate::fill_event_filter;
use anchor_lang::Discriminator;
use fixed::types::I80F48;
use mango_feeds_connector::chain_data::{AccountData, ChainData, SlotData};
use mango_feeds_connector::{metrics::Metrics, AccountWrite, SlotStatus, SlotUpdate};
use mango_feeds_lib::{MarketConfig, OrderbookSide};
use mango_v4::state::{AnyEvent, EventQueue, FillEvent as OnChainFill, OutEvent, QueueHeader, Side, MAX_NUM_EVENTS};
use serde_json::Value;
use service_mango_fills::{FillEvent, FillEventFilterMessage, FillEventType, FillUpdateStatus};
use solana_sdk::account::{AccountSharedData, ReadableAccount, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::{BTreeMap, HashMap};
use std::sync::{atomic::AtomicBool, Arc};

const CAP: u64 = MAX_NUM_EVENTS as u64;

#[derive(Clone, Debug, PartialEq)]
struct Fill {
    seq: u64,
    /// everything else follows from this number
    n: u64,
}
fn on_chain(f: &Fill) -> AnyEvent {
    bytemuck::cast(OnChainFill::new(
        if f.n % 2 == 0 { Side::Bid } else { Side::Ask },
        f.n % 3 == 0,
        (f.n % 5) as u8,
        1_700_000_000 + f.n,
        f.seq,
        pk(&format!("maker {}", f.n % 3)),
        f.n as u128,
        300 + f.n,
        I80F48::from_num(0.25 * (f.n % 4) as f64),
        1_600_000_000 + f.n,
        pk(&format!("taker {}", f.n % 2)),
        400 + f.n,
        I80F48::from_num(0.5 + 0.25 * (f.n % 4) as f64),
        1000 + f.n as i64,
        7 + f.n as i64,
    ))
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * b.abs()
}
/// what a subscriber has to be told about a fill
fn shows(e: &FillEvent, f: &Fill, m: &MarketConfig) -> bool {
    let n = f.n;
    // lots to display units: quote_lot native quote per base_lot native base
    let unit = 10f64.powi(m.base_decimals as i32 - m.quote_decimals as i32);
    e.event_type == FillEventType::Perp
        && e.maker == pk(&format!("maker {}", n % 3)).to_string()
        && e.taker == pk(&format!("taker {}", n % 2)).to_string()
        && matches!((&e.taker_side, n % 2), (OrderbookSide::Bid, 0) | (OrderbookSide::Ask, 1))
        && e.timestamp == 1_700_000_000 + n
        && e.seq_num == f.seq
        && e.maker_client_order_id == 300 + n
        && e.taker_client_order_id == 400 + n
        && e.maker_fee == 0.25 * (n % 4) as f32
        && e.taker_fee == 0.5 + 0.25 * (n % 4) as f32
        && near(e.price, (1000 + n) as f64 * m.quote_lot_size as f64 / m.base_lot_size as f64 * unit)
        && near(e.quantity, (7 + n) as f64 * m.base_lot_size as f64 / 10f64.powi(m.base_decimals as i32))
}

/// what a subscriber reads on the wire says the same
fn wire(m: &FillEventFilterMessage) -> Result<(), String> {
    let side = |s: &OrderbookSide| if matches!(s, OrderbookSide::Bid) { "bid" } else { "ask" };
    let fill = |v: &Value, e: &FillEvent| -> bool {
        v["eventType"] == if e.event_type == FillEventType::Perp { "perp" } else { "spot" }
            && v["maker"] == e.maker
            && v["taker"] == e.taker
            && v["takerSide"] == side(&e.taker_side)
            && v["timestamp"].as_str().and_then(|t| chrono::DateTime::parse_from_rfc3339(t).ok()).map(|t| t.timestamp()) == Some(e.timestamp as i64)
            && v["seqNum"] == e.seq_num
            && v["makerClientOrderId"] == e.maker_client_order_id
            && v["takerClientOrderId"] == e.taker_client_order_id
            && v["makerFee"] == e.maker_fee as f64
            && v["takerFee"] == e.taker_fee as f64
            && v["price"] == e.price
            && v["quantity"] == e.quantity
    };
    let status = |s: &FillUpdateStatus| if *s == FillUpdateStatus::New { "new" } else { "revoke" };
    let ok = match m {
        FillEventFilterMessage::Update(u) => {
            let v = serde_json::to_value(u).unwrap();
            fill(&v["event"], &u.event) && v["marketKey"] == u.market_key && v["marketName"] == u.market_name && v["status"] == status(&u.status) && v["slot"] == u.slot && v["writeVersion"] == u.write_version
        }
        FillEventFilterMessage::HeadUpdate(u) => {
            let v = serde_json::to_value(u).unwrap();
            v["head"] == u.head
                && v["previousHead"] == u.prev_head
                && v["headSeqNum"] == u.head_seq_num
                && v["previousHeadSeqNum"] == u.prev_head_seq_num
                && v["marketKey"] == u.market_key
                && v["marketName"] == u.market_name
                && v["status"] == status(&u.status)
                && v["slot"] == u.slot
                && v["writeVersion"] == u.write_version
        }
        FillEventFilterMessage::Checkpoint(c) => {
            let v = serde_json::to_value(c).unwrap();
            let events = v["events"].as_array().map_or(&[][..], |a| a);
            events.len() == c.events.len() && events.iter().zip(&c.events).all(|(v, e)| fill(v, e)) && v["market"] == c.market && v["queue"] == c.queue && v["slot"] == c.slot && v["write_version"] == c.write_version
        }
    };
    ensure(ok, || "message on the wire says something else".into())
}

/// event queue as the program keeps it, and the fills in it by sequence number
#[derive(Clone)]
struct Queue {
    q: Box<EventQueue>,
    fills: BTreeMap<u64, Fill>,
}
impl Queue {
    fn new(start: u64) -> Self {
        let mut q: Box<EventQueue> = Box::new(bytemuck::Zeroable::zeroed());
        q.header.seq_num = start.saturating_sub(3);
        q.header.set_head((q.header.seq_num % CAP) as u32);
        let mut me = Queue { q, fills: BTreeMap::new() };
        for s in start.saturating_sub(CAP)..start.saturating_sub(3) {
            me.q.buf[(s % CAP) as usize] = bytemuck::cast(OutEvent::new(Side::Bid, 0, 1, s, pk("owner"), 1, s as u128));
        }
        if start > 0 {
            me.fill(900);
            me.out();
            me.fill(901);
            me.pop(2);
        }
        me
    }
    fn seq(&self) -> u64 {
        self.q.header.seq_num
    }
    fn fill(&mut self, n: u64) {
        let f = Fill { seq: self.seq(), n };
        if self.q.push_back(on_chain(&f)).is_ok() {
            self.fills.insert(f.seq, f);
        }
    }
    fn out(&mut self) {
        let s = self.seq();
        let _ = self.q.push_back(bytemuck::cast(OutEvent::new(Side::Ask, 0, 1, s, pk("owner"), 1, s as u128)));
    }
    fn pop(&mut self, n: usize) {
        for _ in 0..n {
            let _ = self.q.pop_front();
        }
    }
    fn data(&self) -> Vec<u8> {
        let mut d = EventQueue::DISCRIMINATOR.to_vec();
        d.extend_from_slice(bytemuck::bytes_of(&*self.q));
        d
    }
}
/// what a subscriber knows of one market
struct View {
    version: (u64, u64),
    queue: Queue,
    fills: BTreeMap<u64, FillEvent>,
}
#[derive(Clone)]
struct Slot {
    id: u64,
    parent: Option<usize>,
    queues: [Queue; 2],
}
struct Feed {
    writes: async_channel::Sender<AccountWrite>,
    slots_in: async_channel::Sender<SlotUpdate>,
    out: async_channel::Receiver<FillEventFilterMessage>,
    chain: ChainData,
    markets: Vec<(Pubkey, MarketConfig)>,
    /// queue contents by market and version
    versions: HashMap<(usize, (u64, u64)), Queue>,
    views: [Option<View>; 2],
    slots: Vec<Slot>,
    version: u64,
    n: u64,
    /// forks do not reach behind this slot
    rooted: usize,
}
fn market(n: usize) -> (Pubkey, MarketConfig) {
    let k = |s: &str| pk(&format!("market {n} {s}"));
    (
        k("address"),
        MarketConfig {
            name: format!("M{n}-PERP"),
            bids: k("bids"),
            asks: k("asks"),
            event_queue: k("queue"),
            oracle: k("oracle"),
            base_decimals: [6, 4][n],
            quote_decimals: 6,
            base_lot_size: [100, 10_000][n],
            quote_lot_size: [10, 1][n],
        },
    )
}
impl Feed {
    fn new(start: u64, branch: usize) -> Self {
        tokio::mc_reset();
        tokio::mc_select_start(branch);
        let markets = vec![market(0), market(1)];
        let (writes, slots_in, out) = tokio::mc_block_on(fill_event_filter::init(markets.clone(), vec![], Metrics, Arc::new(AtomicBool::new(false)))).unwrap();
        tokio::mc_run();
        let queues = [Queue::new(start), Queue::new(0)];
        let mut f = Feed { writes, slots_in, out, chain: ChainData::new(), markets, versions: HashMap::new(), views: [None, None], slots: vec![Slot { id: 100, parent: None, queues }], version: 0, n: 0, rooted: 0 };
        f.slot_update(0).unwrap();
        f.write(0, 0).unwrap();
        f.write(1, 0).unwrap();
        f
    }
    fn slot_update(&mut self, slot: usize) -> Result<(), String> {
        let s = &self.slots[slot];
        let (slot, parent) = (s.id, s.parent.map(|p| self.slots[p].id));
        self.slots_in.try_send(SlotUpdate { slot, parent, status: SlotStatus::Processed }).unwrap();
        self.chain.update_slot(SlotData { slot, parent, status: SlotStatus::Processed, chain: 0 });
        self.deliver()
    }
    fn send(&mut self, m: usize, slot: u64, version: u64, queue: Queue) -> Result<(), String> {
        let data = queue.data();
        let k = self.markets[m].1.event_queue;
        self.versions.insert((m, (slot, version)), queue);
        self.chain.update_account(k, AccountData { slot, write_version: version, account: AccountSharedData::create(1, vec![], mango_v4::ID, false, 0) });
        self.writes.try_send(AccountWrite { pubkey: k, slot, write_version: version, lamports: 1, owner: mango_v4::ID, executable: false, rent_epoch: 0, data, is_selected: true }).unwrap();
        self.deliver()
    }
    fn write(&mut self, m: usize, slot: usize) -> Result<(), String> {
        self.version += 1;
        let s = self.slots[slot].clone();
        self.send(m, s.id, self.version, s.queues[m].clone())
    }
    /// lets the service run until it waits for input, and compares what subscribers now know
    fn deliver(&mut self) -> Result<(), String> {
        tokio::mc_run();
        let mut messages = vec![];
        while let Ok(m) = self.out.try_recv() {
            messages.push(m);
        }
        let mut due = [false; 2];
        for m in 0..2 {
            let Ok(live) = self.chain.account(&self.markets[m].1.event_queue) else { continue };
            let v = (live.slot, live.write_version);
            if self.views[m].as_ref().map_or(true, |x| v > x.version) {
                due[m] = true;
            }
        }
        for m in 0..2 {
            let cfg = self.markets[m].clone();
            let name = cfg.0.to_string();
            let mine: Vec<&FillEventFilterMessage> = messages
                .iter()
                .filter(|x| match x {
                    FillEventFilterMessage::Update(u) => u.market_key == name,
                    FillEventFilterMessage::HeadUpdate(u) => u.market_key == name,
                    FillEventFilterMessage::Checkpoint(u) => u.market == name,
                })
                .collect();
            if !due[m] {
                ensure(mine.is_empty(), || "messages although the queue did not change".into())?;
                continue;
            }
            let live = self.chain.account(&cfg.1.event_queue).unwrap();
            let version = (live.slot, live.write_version);
            let now = self.versions[&(m, version)].clone();
            let Some(view) = self.views[m].as_mut() else {
                // subscribers start from the first state seen
                let fills = now.fills.iter().map(|(s, f)| (*s, FillEvent::new_from_perp(bytemuck::cast(on_chain(f)), &cfg.1))).collect();
                self.views[m] = Some(View { version, queue: now, fills });
                continue;
            };
            let (mut checkpoints, mut heads) = (0, 0);
            for x in mine {
                wire(x)?;
                match x {
                    FillEventFilterMessage::Update(u) => {
                        ensure((u.slot, u.write_version) == version && u.market_name == cfg.1.name, || "update labelled with another version or market".into())?;
                        let seq = u.event.seq_num;
                        match u.status {
                            FillUpdateStatus::New => ensure(view.fills.insert(seq, u.event.clone()).is_none(), || format!("fill announced twice | {seq}"))?,
                            FillUpdateStatus::Revoke => {
                                let old = view.fills.remove(&seq).ok_or_else(|| format!("unknown fill revoked | {seq}"))?;
                                ensure(format!("{old:?}") == format!("{:?}", u.event), || format!("revoked fill is not the one announced | {seq}"))?;
                            }
                        }
                    }
                    FillEventFilterMessage::HeadUpdate(u) => {
                        heads += 1;
                        let (h0, h1) = (&view.queue.q.header, &now.q.header);
                        ensure((u.slot, u.write_version) == version && u.market_name == cfg.1.name && u.status == FillUpdateStatus::New, || "head update labelled with another version or market".into())?;
                        ensure((u.prev_head, u.head) == (h0.head(), h1.head()), || "head update with wrong heads".into())?;
                        let next = |h: &mango_v4::state::EventQueueHeader| h.seq_num - h.count() as u64;
                        if h1.count() < CAP as usize {
                            ensure(u.head_seq_num == next(h1), || format!("head update with a wrong sequence number | {} instead of {}", u.head_seq_num, next(h1)))?;
                        }
                        if h0.count() < CAP as usize {
                            ensure(u.prev_head_seq_num == next(h0), || format!("head update with a wrong previous sequence number | {} instead of {}", u.prev_head_seq_num, next(h0)))?;
                        }
                    }
                    FillEventFilterMessage::Checkpoint(c) => {
                        checkpoints += 1;
                        ensure((c.slot, c.write_version) == version && c.queue == cfg.1.event_queue.to_string(), || "checkpoint labelled with another version or queue".into())?;
                        let from = view.queue.seq().max(now.seq()).saturating_sub(CAP);
                        let want: Vec<&Fill> = now.fills.range(from..).map(|(_, f)| f).collect();
                        ensure(c.events.len() == want.len() && c.events.iter().zip(&want).all(|(e, f)| shows(e, f, &cfg.1)), || format!("checkpoint is not the queue's fills | {:?} instead of {:?}", c.events.iter().map(|e| e.seq_num).collect::<Vec<_>>(), want.iter().map(|f| f.seq).collect::<Vec<_>>()))?;
                    }
                }
            }
            let moved = view.queue.q.header.head() != now.q.header.head();
            ensure(checkpoints == 1, || format!("{checkpoints} checkpoints for a change of the queue"))?;
            ensure(heads == moved as usize, || format!("{heads} head updates | head moved: {moved}"))?;
            let from = view.queue.seq().max(now.seq()).saturating_sub(CAP);
            let known: Vec<&FillEvent> = view.fills.range(from..).map(|(_, e)| e).collect();
            let want: Vec<&Fill> = now.fills.range(from..).map(|(_, f)| f).collect();
            ensure(known.len() == want.len() && known.iter().zip(&want).all(|(e, f)| shows(e, f, &cfg.1)), || format!("subscribers do not know exactly the fills of the queue | {:?} instead of {:?}", known.iter().map(|e| e.seq_num).collect::<Vec<_>>(), want.iter().map(|f| f.seq).collect::<Vec<_>>()))?;
            view.version = version;
            view.queue = now;
        }
        Ok(())
    }
    /// a new slot on top of `parent`
    fn slot(&mut self, parent: usize) -> usize {
        let s = Slot { id: self.slots.last().unwrap().id + 1, parent: Some(parent), queues: self.slots[parent].queues.clone() };
        self.slots.push(s);
        self.slots.len() - 1
    }
}
const OPS: [&str; 16] = [
    "fill",
    "two fills and an out",
    "out",
    "one event consumed",
    "fill and two events consumed",
    "all events consumed",
    "fork one slot back, fill",
    "fork one slot back, nothing",
    "fork two slots back, out and fill",
    "fill twice in one slot, both writes seen",
    "one fill consumed, many outs come and go",
    "fill on the other market",
    "unrelated account written",
    "older write of the slot arrives late",
    "slot announced after its write, fill",
    "fill whose write is missed, then a fill",
];
impl Run for Feed {
    fn step(&mut self, op: usize) -> Result<(), String> {
        self.n += 1;
        let n = self.n * 10;
        let tip = self.slots.len() - 1;
        let back = |f: &Feed, k: usize| (0..k).fold(tip, |at, _| f.slots[at].parent.filter(|p| *p >= f.rooted).unwrap_or(at));
        match op {
            0..=5 | 10 => {
                let s = self.slot(tip);
                let q = &mut self.slots[s].queues[0];
                match op {
                    0 => q.fill(n),
                    1 => {
                        q.fill(n);
                        q.out();
                        q.fill(n + 1);
                    }
                    2 => q.out(),
                    3 => q.pop(1),
                    4 => {
                        q.fill(n);
                        q.pop(2);
                    }
                    5 => q.pop(500),
                    _ => {
                        q.pop(1);
                        q.fill(n);
                        for _ in 0..CAP - 3 {
                            q.out();
                            q.pop(1);
                        }
                        q.fill(n + 1);
                        // forks longer than the queue are out of bounds
                        self.rooted = s;
                    }
                }
                self.slot_update(s)?;
                self.write(0, s)
            }
            6 | 7 | 8 => {
                let p = back(self, if op == 8 { 2 } else { 1 });
                let s = self.slot(p);
                let q = &mut self.slots[s].queues[0];
                if op == 8 {
                    q.out();
                }
                if op != 7 {
                    q.fill(n);
                }
                self.slot_update(s)?;
                if op != 7 {
                    self.write(0, s)?;
                }
                Ok(())
            }
            9 => {
                let s = self.slot(tip);
                self.slot_update(s)?;
                self.slots[s].queues[0].fill(n);
                self.write(0, s)?;
                self.slots[s].queues[0].pop(1);
                self.slots[s].queues[0].fill(n + 1);
                self.write(0, s)
            }
            11 => {
                let s = self.slot(tip);
                self.slots[s].queues[1].fill(n);
                self.slots[s].queues[1].pop(n as usize % 3);
                self.slot_update(s)?;
                self.write(1, s)
            }
            12 => {
                self.writes
                    .try_send(AccountWrite { pubkey: pk("unrelated"), slot: self.slots[tip].id, write_version: 1, lamports: 1, owner: mango_v4::ID, executable: false, rent_epoch: 0, data: vec![0; 40], is_selected: true })
                    .unwrap();
                self.deliver()
            }
            13 => {
                let s = self.slot(tip);
                self.slot_update(s)?;
                self.slots[s].queues[0].out();
                let (id, early) = (self.slots[s].id, self.slots[s].queues[0].clone());
                self.version += 1;
                let v = self.version;
                self.slots[s].queues[0].fill(n);
                self.write(0, s)?;
                // never replaces the newer one
                self.send(0, id, v, early)
            }
            14 => {
                let s = self.slot(tip);
                self.slots[s].queues[0].fill(n);
                self.write(0, s)?;
                self.slot_update(s)
            }
            _ => {
                let s = self.slot(tip);
                self.slots[s].queues[0].fill(n);
                self.slot_update(s)?;
                let s = self.slot(s);
                self.slots[s].queues[0].fill(n + 1);
                self.slot_update(s)?;
                self.write(0, s)
            }
        }
    }
}
pub fn run(r: &Report) {
    let _ = (AccountSharedData::default().data(),);
    let (long, short) = if r.thorough { (5, 4) } else { (4, 3) };
    for start in [0u64, 3, 486, 488, 490, 976, 5000] {
        r.explore(&format!("queue position {start}"), &OPS, if start == 490 || start == 0 { long } else { short }, || Feed::new(start, 0));
    }
    let width = tokio_width();
    for branch in 1..width {
        r.explore(&format!("input branch {branch} polled first"), &OPS, short, || Feed::new(490, branch));
    }
    r.count("branches of the input select", width as u64);
}
fn tokio_width() -> usize {
    let _ = Feed::new(0, 0);
    tokio::mc_select_width()
}
