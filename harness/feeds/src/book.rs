//! C42: subscribers of the order book feed, applying its updates, always hold the current book.
use crate::common::*;
use crate::orderbook_filter;
use anchor_lang::Discriminator;
use fixed::types::I80F48;
use mango_feeds_connector::chain_data::{AccountData, ChainData, SlotData};
use mango_feeds_connector::{metrics::Metrics, AccountWrite, SlotStatus, SlotUpdate};
use mango_feeds_lib::{MarketConfig, OrderbookSide};
use mango_v4::state::{new_node_key, oracle_pegged_price_data, BookSide, BookSideOrderTree, LeafNode, PostOrderType, Side, StubOracle};
use serde_json::Value;
use service_mango_orderbook::{Order, OrderbookFilterMessage, OrderbookLevel};
use solana_sdk::account::{AccountSharedData, WritableAccount};
use solana_sdk::pubkey::Pubkey;
use std::collections::HashMap;
use std::sync::{atomic::AtomicBool, Arc};

/// (price or peg offset in lots, pegged, peg limit, lots, owner, expired)
#[derive(Clone, Copy, PartialEq, Debug)]
struct Leaf {
    price: i64,
    pegged: bool,
    limit: i64,
    lots: i64,
    owner: u8,
    expired: bool,
    id: u64,
}
const fn leaf(price: i64, lots: i64, owner: u8, id: u64) -> Leaf {
    Leaf { price, pegged: false, limit: -1, lots, owner, expired: false, id }
}
#[derive(Clone, PartialEq)]
enum Data {
    Side(Vec<Leaf>),
    /// oracle price in lots of the first market
    Oracle(i64),
}
const PERPS: usize = 2;
/// markets 0 and 1 are perp markets with the same oracle, market 2 is a spot market
fn market(n: usize) -> (Pubkey, MarketConfig) {
    let k = |s: &str| pk(&format!("market {n} {s}"));
    let cfg = MarketConfig {
        name: format!("M{n}"),
        bids: k("bids"),
        asks: k("asks"),
        event_queue: k("queue"),
        oracle: pk("oracle"),
        base_decimals: [6, 4, 6][n],
        quote_decimals: 6,
        base_lot_size: [100, 1000, 10][n],
        quote_lot_size: [10, 10, 1][n],
    };
    (k("address"), cfg)
}
fn oracle_lots(m: usize, lots0: i64) -> i64 {
    // market 0: 10 native quote per native base is 100 lots; market 1 has 10 times larger base lots
    lots0 * [1, 10][m]
}
fn oracle_data(lots: i64) -> Vec<u8> {
    let mut o: StubOracle = bytemuck::Zeroable::zeroed();
    o.price = I80F48::from_num(lots) * I80F48::from_num(10) / I80F48::from_num(100) + I80F48::from_num(0.0001);
    o.last_update_ts = 1_600_000_000;
    let mut d = StubOracle::discriminator().to_vec();
    d.extend_from_slice(bytemuck::bytes_of(&o));
    d
}
fn perp_side(side: Side, leaves: &[Leaf]) -> Vec<u8> {
    let mut b: Box<BookSide> = Box::new(bytemuck::Zeroable::zeroed());
    b.nodes.order_tree_type = (side == Side::Ask) as u8;
    for l in leaves {
        let data = if l.pegged { oracle_pegged_price_data(l.price) } else { l.price as u64 };
        let (ts, tif) = if l.expired { (1_600_000_000, 10) } else { (1_600_000_000, 0) };
        let node = LeafNode::new(0, new_node_key(side, data, l.id), pk(&format!("owner {}", l.owner)), l.lots, ts, PostOrderType::Limit, tif, l.limit, l.id);
        let tree = if l.pegged { BookSideOrderTree::OraclePegged } else { BookSideOrderTree::Fixed };
        assert!(b.insert_leaf(tree, &node).is_ok());
    }
    let mut d = BookSide::discriminator().to_vec();
    d.extend_from_slice(bytemuck::bytes_of(&*b));
    d
}
fn spot_side(leaves: &[Leaf]) -> Vec<u8> {
    let mut d = b"serum".to_vec();
    d.extend_from_slice(&33u64.to_le_bytes());
    d.extend_from_slice(&(leaves.len() as u64).to_le_bytes());
    for l in leaves {
        let n = serum_dex::critbit::LeafNode { key: (l.price as u128) << 64 | l.id as u128, quantity: l.lots as u64, owner: bytemuck::cast(pk(&format!("owner {}", l.owner)).to_bytes()), client_order_id: 0 };
        d.extend_from_slice(bytemuck::bytes_of(&n));
    }
    d.resize(5 + 8 + 8 + 16 * serum_dex::critbit::LEAF, 0);
    d.extend_from_slice(b"padding");
    d
}
/// orders a trader could hit, in display units
fn visible(m: usize, side: usize, leaves: &[Leaf], oracle: i64) -> Vec<(f64, f64, String)> {
    let cfg = market(m).1;
    let unit = 10f64.powi(cfg.base_decimals as i32 - cfg.quote_decimals as i32);
    let mut v: Vec<(f64, f64, String)> = leaves
        .iter()
        .filter(|l| !l.expired || m >= PERPS)
        .filter_map(|l| {
            let price = if !l.pegged {
                l.price
            } else {
                let p = oracle_lots(m, oracle) + l.price;
                if p < 1 || l.limit >= 0 && (side == 0 && p > l.limit || side == 1 && p < l.limit) {
                    return None;
                }
                p
            };
            Some((price as f64 * cfg.quote_lot_size as f64 / cfg.base_lot_size as f64 * unit, l.lots as f64 * cfg.base_lot_size as f64 / 10f64.powi(cfg.base_decimals as i32), pk(&format!("owner {}", l.owner)).to_string()))
        })
        .collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs())
}
fn same_orders(have: &[Order], want: &[(f64, f64, String)]) -> bool {
    let mut have: Vec<&Order> = have.iter().collect();
    have.sort_by(|a, b| (a.price, a.quantity, &a.owner_pubkey).partial_cmp(&(b.price, b.quantity, &b.owner_pubkey)).unwrap());
    have.len() == want.len() && have.iter().zip(want).all(|(h, w)| near(h.price, w.0) && near(h.quantity, w.1) && h.owner_pubkey == w.2)
}
fn levels(want: &[(f64, f64, String)]) -> Vec<OrderbookLevel> {
    let mut v: Vec<OrderbookLevel> = vec![];
    for w in want {
        match v.last_mut() {
            Some(l) if near(l[0], w.0) => l[1] += w.1,
            _ => v.push([w.0, w.1]),
        }
    }
    v
}
fn same_levels(have: &[OrderbookLevel], want: &[(f64, f64, String)]) -> bool {
    let mut have = have.to_vec();
    have.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let want = levels(want);
    have.len() == want.len() && have.iter().zip(&want).all(|(h, w)| near(h[0], w[0]) && near(h[1], w[1]))
}
/// what a subscriber reads on the wire says the same
fn wire(m: &OrderbookFilterMessage) -> Result<(), String> {
    let side = |s: &OrderbookSide| if matches!(s, OrderbookSide::Bid) { "bid" } else { "ask" };
    let list = |v: &Value, n: usize| v.as_array().filter(|a| a.len() == n).cloned();
    let orders = |v: &Value, w: &[Order]| list(v, w.len()).map_or(false, |a| a.iter().zip(w).all(|(v, o)| v["price"] == o.price && v["quantity"] == o.quantity && v["ownerPubkey"] == o.owner_pubkey));
    let lvls = |v: &Value, w: &[OrderbookLevel]| list(v, w.len()).map_or(false, |a| a.iter().zip(w).all(|(v, l)| v[0] == l[0] && v[1] == l[1]));
    let head = |v: &Value, market: &str, slot: u64, version: u64| v["market"] == market && v["slot"] == slot && v["write_version"] == version;
    let ok = match m {
        OrderbookFilterMessage::LevelUpdate(u) => {
            let v = serde_json::to_value(u).unwrap();
            head(&v, &u.market, u.slot, u.write_version) && v["side"] == side(&u.side) && lvls(&v["update"], &u.update)
        }
        OrderbookFilterMessage::BookUpdate(u) => {
            let v = serde_json::to_value(u).unwrap();
            head(&v, &u.market, u.slot, u.write_version) && v["side"] == side(&u.side) && orders(&v["additions"], &u.additions) && orders(&v["removals"], &u.removals)
        }
        OrderbookFilterMessage::LevelCheckpoint(u) => {
            let v = serde_json::to_value(u).unwrap();
            head(&v, &u.market, u.slot, u.write_version) && lvls(&v["bids"], &u.bids) && lvls(&v["asks"], &u.asks)
        }
        OrderbookFilterMessage::BookCheckpoint(u) => {
            let v = serde_json::to_value(u).unwrap();
            head(&v, &u.market, u.slot, u.write_version) && orders(&v["bids"], &u.bids) && orders(&v["asks"], &u.asks)
        }
    };
    ensure(ok, || "message on the wire says something else".into())
}
struct SideView {
    side_version: (u64, u64),
    oracle_version: (u64, u64),
    /// what the service was last given
    want: Vec<(f64, f64, String)>,
    /// what subscribers hold, order by order and level by level
    orders: Vec<Order>,
    levels: Vec<OrderbookLevel>,
}
struct Feed {
    writes: async_channel::Sender<AccountWrite>,
    slots_in: async_channel::Sender<SlotUpdate>,
    out: async_channel::Receiver<OrderbookFilterMessage>,
    chain: ChainData,
    markets: Vec<(Pubkey, MarketConfig)>,
    versions: HashMap<(Pubkey, (u64, u64)), Data>,
    views: HashMap<Pubkey, SideView>,
    /// current contents, and those one slot ago
    now: HashMap<Pubkey, Data>,
    before: HashMap<Pubkey, Data>,
    slot: u64,
    parent: u64,
    version: u64,
    next: u64,
}
impl Feed {
    fn new(branch: usize) -> Self {
        tokio::mc_reset();
        tokio::mc_select_start(branch);
        let markets: Vec<_> = (0..3).map(market).collect();
        let (writes, slots_in, out) = tokio::mc_block_on(orderbook_filter::init(markets[..PERPS].to_vec(), markets[PERPS..].to_vec(), Metrics, Arc::new(AtomicBool::new(false)))).unwrap();
        tokio::mc_run();
        let mut f = Feed { writes, slots_in, out, chain: ChainData::new(), markets, versions: HashMap::new(), views: HashMap::new(), now: HashMap::new(), before: HashMap::new(), slot: 10, parent: 9, version: 0, next: 100 };
        f.new_slot(9).unwrap();
        f.put(pk("oracle"), Data::Oracle(100)).unwrap();
        for m in 0..3 {
            let mut bids = vec![leaf(99, 4, 0, 1), leaf(98, 5, 1, 2)];
            let mut asks = vec![leaf(101, 4, 0, 3), leaf(103, 6, 1, 4)];
            if m < PERPS {
                bids.push(Leaf { pegged: true, ..leaf(-3, 7, 2, 5) });
                bids.push(Leaf { expired: true, ..leaf(97, 3, 2, 7) });
                asks.push(Leaf { pegged: true, ..leaf(3, 7, 2, 6) });
                asks.push(Leaf { expired: true, ..leaf(102, 3, 2, 8) });
            }
            let (b, a) = (f.markets[m].1.bids, f.markets[m].1.asks);
            f.put(b, Data::Side(bids)).unwrap();
            f.put(a, Data::Side(asks)).unwrap();
        }
        f.new_slot(f.slot).unwrap();
        f
    }
    fn new_slot(&mut self, parent: u64) -> Result<(), String> {
        self.slot += 1;
        self.parent = parent;
        self.before = self.now.clone();
        let (slot, parent) = (self.slot, Some(parent));
        self.slots_in.try_send(SlotUpdate { slot, parent, status: SlotStatus::Processed }).unwrap();
        self.chain.update_slot(SlotData { slot, parent, status: SlotStatus::Processed, chain: 0 });
        self.deliver()
    }
    fn put(&mut self, k: Pubkey, d: Data) -> Result<(), String> {
        self.now.insert(k, d.clone());
        self.version += 1;
        let (slot, write_version) = (self.slot, self.version);
        let (owner, data) = match &d {
            Data::Oracle(p) => (mango_v4::ID, oracle_data(*p)),
            Data::Side(l) => {
                let m = (0..3).find(|m| self.markets[*m].1.bids == k || self.markets[*m].1.asks == k).unwrap();
                let side = if self.markets[m].1.bids == k { Side::Bid } else { Side::Ask };
                if m < PERPS {
                    (mango_v4::ID, perp_side(side, l))
                } else {
                    (pk("dex"), spot_side(l))
                }
            }
        };
        self.versions.insert((k, (slot, write_version)), d);
        self.chain.update_account(k, AccountData { slot, write_version, account: AccountSharedData::create(1, vec![], owner, false, 0) });
        self.writes.try_send(AccountWrite { pubkey: k, slot, write_version, lamports: 1, owner, executable: false, rent_epoch: 0, data, is_selected: true }).unwrap();
        self.deliver()
    }
    fn deliver(&mut self) -> Result<(), String> {
        tokio::mc_run();
        let mut messages = vec![];
        while let Ok(m) = self.out.try_recv() {
            wire(&m)?;
            messages.push(m);
        }
        let live = |f: &Feed, k: &Pubkey| f.chain.account(k).ok().map(|a| (a.slot, a.write_version));
        let oracle = live(self, &pk("oracle"));
        for m in 0..3 {
            let cfg = self.markets[m].clone();
            let name = cfg.0.to_string();
            let mut due = [false; 2];
            for (side, k) in [cfg.1.bids, cfg.1.asks].iter().enumerate() {
                let Some(v) = live(self, k) else { continue };
                let (ov, lots) = if m < PERPS {
                    let Some(ov) = oracle else { continue };
                    let Data::Oracle(lots) = self.versions[&(pk("oracle"), ov)] else { unreachable!() };
                    (ov, lots)
                } else {
                    ((0, 0), 0)
                };
                let Data::Side(leaves) = &self.versions[&(*k, v)] else { unreachable!() };
                let want = visible(m, side, leaves, lots);
                match self.views.get_mut(k) {
                    None => {
                        // subscribers start from the first state seen
                        let orders = want.iter().map(|w| Order { price: w.0, quantity: w.1, owner_pubkey: w.2.clone() }).collect();
                        self.views.insert(*k, SideView { side_version: v, oracle_version: ov, levels: levels(&want), want, orders });
                    }
                    Some(view) if v > view.side_version || ov > view.oracle_version => {
                        due[side] = true;
                        view.side_version = v;
                        view.oracle_version = ov;
                        view.want = want;
                    }
                    Some(_) => {}
                }
            }
            let mut books = None;
            let mut tops = None;
            let side_of = |s: &OrderbookSide| matches!(s, OrderbookSide::Ask) as usize;
            for x in &messages {
                match x {
                    OrderbookFilterMessage::BookUpdate(u) if u.market == name => {
                        let s = side_of(&u.side);
                        ensure(due[s], || "update of a side that did not change".into())?;
                        let view = self.views.get_mut(&[cfg.1.bids, cfg.1.asks][s]).unwrap();
                        ensure((u.slot, u.write_version) == view.side_version, || "book update labelled with another version".into())?;
                        for o in &u.removals {
                            let at = view.orders.iter().position(|h| near(h.price, o.price) && near(h.quantity, o.quantity) && h.owner_pubkey == o.owner_pubkey);
                            view.orders.remove(at.ok_or_else(|| format!("removal of an unknown order | {o:?}"))?);
                        }
                        view.orders.extend(u.additions.iter().cloned());
                    }
                    OrderbookFilterMessage::LevelUpdate(u) if u.market == name => {
                        let s = side_of(&u.side);
                        ensure(due[s], || "update of a side that did not change".into())?;
                        let view = self.views.get_mut(&[cfg.1.bids, cfg.1.asks][s]).unwrap();
                        ensure((u.slot, u.write_version) == view.side_version, || "level update labelled with another version".into())?;
                        for l in &u.update {
                            view.levels.retain(|h| !near(h[0], l[0]));
                            if l[1] != 0.0 {
                                view.levels.push(*l);
                            }
                        }
                    }
                    OrderbookFilterMessage::BookCheckpoint(c) if c.market == name => books = Some(c),
                    OrderbookFilterMessage::LevelCheckpoint(c) if c.market == name => tops = Some(c),
                    _ => {}
                }
            }
            let both = |f: &Feed| Some((f.views.get(&cfg.1.bids)?.want.clone(), f.views.get(&cfg.1.asks)?.want.clone()));
            for k in [cfg.1.bids, cfg.1.asks] {
                if let Some(v) = self.views.get(&k) {
                    ensure(same_orders(&v.orders, &v.want), || format!("subscribers do not hold the book's orders | market {m} bids {} hold {:?} instead of {:?}", k == cfg.1.bids, v.orders, v.want))?;
                    ensure(same_levels(&v.levels, &v.want), || format!("subscribers do not hold the book's levels | market {m} bids {} hold {:?} instead of {:?}", k == cfg.1.bids, v.levels, levels(&v.want)))?;
                }
            }
            if due[0] || due[1] {
                if let Some((b, a)) = both(self) {
                    let c = books.ok_or("no checkpoint for a change of the book")?;
                    ensure(same_orders(&c.bids, &b) && same_orders(&c.asks, &a), || format!("checkpoint is not the book | {c:?} instead of {b:?} {a:?}"))?;
                    let c = tops.ok_or("no level checkpoint for a change of the book")?;
                    ensure(same_levels(&c.bids, &b) && same_levels(&c.asks, &a), || format!("level checkpoint is not the book | {c:?} instead of {b:?} {a:?}"))?;
                }
            } else {
                ensure(books.is_none() && tops.is_none(), || "checkpoint although nothing changed".into())?;
            }
        }
        Ok(())
    }
    fn leaves(&self, m: usize, side: usize) -> Vec<Leaf> {
        let Data::Side(l) = &self.now[&[self.markets[m].1.bids, self.markets[m].1.asks][side]] else { unreachable!() };
        l.clone()
    }
    fn key(&self, m: usize, side: usize) -> Pubkey {
        [self.markets[m].1.bids, self.markets[m].1.asks][side]
    }
    fn toggle(&mut self, m: usize, side: usize, l: Leaf) -> Vec<Leaf> {
        let mut v = self.leaves(m, side);
        let same = |x: &Leaf| (x.price, x.pegged, x.lots, x.owner, x.limit) == (l.price, l.pegged, l.lots, l.owner, l.limit);
        match v.iter().rposition(same) {
            Some(i) => {
                v.remove(i);
            }
            None => {
                self.next += 1;
                v.push(Leaf { id: self.next, ..l });
            }
        }
        v
    }
}
const OPS: [&str; 18] = [
    "bid at a new level comes or goes",
    "bid of another owner at an existing level comes or goes",
    "second, equal bid added",
    "first bid goes",
    "bid partially filled",
    "all bids go",
    "ask at a new level comes or goes",
    "second, equal ask added",
    "bid and ask change in one slot",
    "oracle up one lot",
    "oracle down two lots",
    "pegged bid with a limit comes or goes",
    "pegged ask with a limit comes or goes",
    "oracle and bids change in one slot, oracle first",
    "ask replaced by one at another price",
    "spot bid and ask come or go",
    "two changes of the bids in one slot, only the last seen",
    "the last slot is dropped by a fork, asks change",
];
impl Run for Feed {
    fn step(&mut self, op: usize) -> Result<(), String> {
        if op != 17 {
            self.new_slot(self.slot)?;
        }
        let (bids, asks) = (self.key(0, 0), self.key(0, 1));
        let Data::Oracle(lots) = self.now[&pk("oracle")] else { unreachable!() };
        match op {
            0 => {
                let v = self.toggle(0, 0, leaf(96, 3, 1, 0));
                self.put(bids, Data::Side(v))
            }
            1 => {
                let v = self.toggle(0, 0, leaf(99, 4, 2, 0));
                self.put(bids, Data::Side(v))
            }
            2 | 7 => {
                let side = (op == 7) as usize;
                let mut v = self.leaves(0, side);
                self.next += 1;
                v.push(leaf([98, 101][side], [5, 4][side], [1, 0][side], self.next));
                self.put(self.key(0, side), Data::Side(v))
            }
            3 => {
                let mut v = self.leaves(0, 0);
                if !v.is_empty() {
                    v.remove(0);
                }
                self.put(bids, Data::Side(v))
            }
            4 => {
                let mut v = self.leaves(0, 0);
                if let Some(l) = v.iter_mut().find(|l| l.lots > 1) {
                    l.lots -= 1;
                }
                self.put(bids, Data::Side(v))
            }
            5 => self.put(bids, Data::Side(vec![])),
            6 => {
                let v = self.toggle(0, 1, leaf(105, 2, 1, 0));
                self.put(asks, Data::Side(v))
            }
            8 => {
                let a = self.toggle(0, 1, leaf(104, 9, 2, 0));
                self.put(asks, Data::Side(a))?;
                let b = self.toggle(0, 0, leaf(94, 9, 2, 0));
                self.put(bids, Data::Side(b))
            }
            9 => self.put(pk("oracle"), Data::Oracle(lots + 1)),
            10 => self.put(pk("oracle"), Data::Oracle(lots - 2)),
            11 => {
                let v = self.toggle(0, 0, Leaf { pegged: true, limit: 98, ..leaf(-2, 8, 1, 0) });
                self.put(bids, Data::Side(v))
            }
            12 => {
                let v = self.toggle(0, 1, Leaf { pegged: true, limit: 102, ..leaf(2, 8, 1, 0) });
                self.put(asks, Data::Side(v))
            }
            13 => {
                self.put(pk("oracle"), Data::Oracle(lots + 1))?;
                let v = self.toggle(0, 0, leaf(96, 3, 1, 0));
                self.put(bids, Data::Side(v))
            }
            14 => {
                let mut v = self.leaves(0, 1);
                self.next += 1;
                if let Some(l) = v.iter_mut().find(|l| !l.pegged && !l.expired) {
                    l.price = if l.price == 101 { 106 } else { 101 };
                    l.id = self.next;
                }
                self.put(asks, Data::Side(v))
            }
            15 => {
                let v = self.toggle(2, 0, leaf(97, 3, 1, 0));
                self.put(self.key(2, 0), Data::Side(v))?;
                let v = self.toggle(2, 1, leaf(103, 6, 1, 0));
                self.put(self.key(2, 1), Data::Side(v))
            }
            16 => {
                let v = self.toggle(0, 0, leaf(96, 3, 1, 0));
                self.now.insert(bids, Data::Side(v));
                let v = self.toggle(0, 0, leaf(99, 4, 2, 0));
                self.put(bids, Data::Side(v))
            }
            _ => {
                self.now = self.before.clone();
                self.new_slot(self.parent)?;
                let v = self.toggle(0, 1, leaf(105, 2, 1, 0));
                self.put(asks, Data::Side(v))
            }
        }
    }
}
pub fn run(r: &Report) {
    let (long, short) = if r.thorough { (5, 4) } else { (4, 3) };
    let _ = Feed::new(0);
    let width = tokio::mc_select_width();
    r.explore("input branch 0 polled first", &OPS, long, || Feed::new(0));
    for branch in 1..width {
        r.explore(&format!("input branch {branch} polled first"), &OPS, short, || Feed::new(branch));
    }
    r.count("branches of the input select", width as u64);
}
