//! A small working central-limit-order-book DEX with the Serum v3 account semantics that
//! mango-v4 observes: funds are locked on placement, takers are credited immediately, makers
//! and cancelled orders only when the crank consumes the event queue, SettleFunds pays out
//! the free balances, rebates go to the referrer account.
use crate::critbit::{LeafNode, Slab};
use crate::instruction::*;
use crate::matching::{OrderType, Side};
use crate::state::*;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program::invoke_signed, program_error::ProgramError, pubkey::Pubkey};

pub const TAKER_FEE_BPS: u64 = 4;
pub const REFERRER_SHARE: u64 = 5; // 1/5 of the taker fee

const E_BASE: u32 = 0x1000500;
fn e(n: u32) -> ProgramError {
    ProgramError::Custom(E_BASE + n)
}
fn key_of(a: [u64; 4]) -> Pubkey {
    Pubkey::new_from_array(bytemuck::cast(a))
}

pub fn with_pod<T: bytemuck::Pod, R>(a: &AccountInfo, f: impl FnOnce(&mut T) -> Result<R, ProgramError>) -> Result<R, ProgramError> {
    let mut d = a.try_borrow_mut_data()?;
    let l = d.len();
    if l < 12 || &d[..5] != b"serum" {
        return Err(e(1));
    }
    let b = &mut d[5..l - 7];
    let n = std::mem::size_of::<T>();
    let mut t: T = bytemuck::pod_read_unaligned(&b[..n]);
    let r = f(&mut t)?;
    b[..n].copy_from_slice(bytemuck::bytes_of(&t));
    Ok(r)
}
fn with_book<R>(a: &AccountInfo, f: impl FnOnce(&mut Slab) -> Result<R, ProgramError>) -> Result<R, ProgramError> {
    let mut d = a.try_borrow_mut_data()?;
    let l = d.len();
    f(Slab::new(&mut d[13..l - 7]))
}

#[derive(Clone, Copy, Debug)]
#[repr(C, packed)]
pub struct Event {
    pub kind: u64, // 1 = maker fill, 2 = taker fill, 3 = out
    pub side: u64, // side of the owner's order: 0 bid, 1 ask
    pub owner: [u64; 4],
    pub slot: u64,
    pub clear_slot: u64,
    pub coin_qty: u64,  // native coin
    pub pc_qty: u64,    // native pc
    pub unlock: u64,    // native amount to unlock (out)
    pub rebate: u64,
    pub client_order_id: u64,
}
unsafe impl bytemuck::Zeroable for Event {}
unsafe impl bytemuck::Pod for Event {}
const EV: usize = std::mem::size_of::<Event>();

pub struct Queue<'a>(&'a mut [u8]);
impl<'a> Queue<'a> {
    pub fn wrap(data: &'a mut [u8]) -> Self {
        let l = data.len();
        Queue(&mut data[5..l - 7])
    }
    fn num(&self, i: usize) -> u64 {
        u64::from_le_bytes(self.0[8 * i..8 * i + 8].try_into().unwrap())
    }
    fn set_num(&mut self, i: usize, v: u64) {
        self.0[8 * i..8 * i + 8].copy_from_slice(&v.to_le_bytes())
    }
    // header: flags, len, seq_num
    pub fn len(&self) -> usize {
        self.num(1) as usize
    }
    pub fn next_seq(&mut self) -> u64 {
        let s = self.num(2);
        self.set_num(2, s + 1);
        s
    }
    pub fn get(&self, i: usize) -> Event {
        bytemuck::pod_read_unaligned(&self.0[24 + i * EV..24 + (i + 1) * EV])
    }
    pub fn push(&mut self, ev: &Event) -> ProgramResult {
        let n = self.len();
        if 24 + (n + 1) * EV > self.0.len() {
            return Err(e(2));
        }
        self.0[24 + n * EV..24 + (n + 1) * EV].copy_from_slice(bytemuck::bytes_of(ev));
        self.set_num(1, n as u64 + 1);
        Ok(())
    }
    pub fn pop(&mut self) -> Option<Event> {
        let n = self.len();
        if n == 0 {
            return None;
        }
        let ev = self.get(0);
        self.0.copy_within(24 + EV..24 + n * EV, 24);
        self.0[24 + (n - 1) * EV..24 + n * EV].fill(0);
        self.set_num(1, n as u64 - 1);
        Some(ev)
    }
}
fn with_queue<R>(a: &AccountInfo, f: impl FnOnce(&mut Queue) -> Result<R, ProgramError>) -> Result<R, ProgramError> {
    let mut d = a.try_borrow_mut_data()?;
    f(&mut Queue::wrap(&mut d))
}

fn token_transfer<'a>(token_program: &AccountInfo<'a>, from: &AccountInfo<'a>, to: &AccountInfo<'a>, auth: &AccountInfo<'a>, amount: u64, seeds: &[&[&[u8]]]) -> ProgramResult {
    if amount == 0 {
        return Ok(());
    }
    if *token_program.key != spl_token::ID {
        return Err(ProgramError::IncorrectProgramId);
    }
    let ix = spl_token::instruction::transfer(&spl_token::ID, from.key, to.key, auth.key, &[], amount)?;
    invoke_signed(&ix, &[from.clone(), to.clone(), auth.clone(), token_program.clone()], seeds)
}

pub fn vault_signer(program: &Pubkey, market: &Pubkey) -> (Pubkey, u64) {
    for n in 0u64..255 {
        if let Ok(p) = Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], program) {
            return (p, n);
        }
    }
    unreachable!()
}

fn check_oo(oo: &OpenOrders, market: &AccountInfo, owner: &AccountInfo) -> ProgramResult {
    if { oo.account_flags } != AccountFlag::Initialized as u64 | AccountFlag::OpenOrders as u64 {
        return Err(e(3));
    }
    if key_of(oo.market) != *market.key || key_of(oo.owner) != *owner.key || !owner.is_signer {
        return Err(e(4));
    }
    Ok(())
}

pub fn process(program_id: &Pubkey, a: &[AccountInfo], data: &[u8]) -> ProgramResult {
    match MarketInstruction::unpack(data).ok_or(ProgramError::InvalidInstructionData)? {
        MarketInstruction::InitOpenOrders => {
            let (oo_ai, owner, market) = (&a[0], &a[1], &a[2]);
            if oo_ai.owner != program_id || market.owner != program_id || !owner.is_signer {
                return Err(e(5));
            }
            {
                let mut d = oo_ai.try_borrow_mut_data()?;
                if d.len() != 12 + std::mem::size_of::<OpenOrders>() || d.iter().any(|b| *b != 0) {
                    return Err(e(6));
                }
                let l = d.len();
                d[..5].copy_from_slice(ACCOUNT_HEAD_PADDING);
                d[l - 7..].copy_from_slice(ACCOUNT_TAIL_PADDING);
            }
            with_pod(oo_ai, |oo: &mut OpenOrders| {
                oo.account_flags = AccountFlag::Initialized as u64 | AccountFlag::OpenOrders as u64;
                oo.market = market.key.to_aligned_bytes();
                oo.owner = owner.key.to_aligned_bytes();
                oo.free_slot_bits = u128::MAX;
                Ok(())
            })
        }
        MarketInstruction::CloseOpenOrders => {
            let (oo_ai, owner, dest, market) = (&a[0], &a[1], &a[2], &a[3]);
            with_pod(oo_ai, |oo: &mut OpenOrders| {
                check_oo(oo, market, owner)?;
                if { oo.free_slot_bits } != u128::MAX || oo.native_coin_total != 0 || oo.native_pc_total != 0 || oo.referrer_rebates_accrued != 0 {
                    return Err(e(7));
                }
                oo.account_flags |= AccountFlag::Disabled as u64;
                Ok(())
            })?;
            let l = oo_ai.lamports();
            **oo_ai.try_borrow_mut_lamports()? = 0;
            **dest.try_borrow_mut_lamports()? += l;
            Ok(())
        }
        MarketInstruction::NewOrderV3(o) => new_order(program_id, a, o),
        MarketInstruction::CancelOrderV2(c) => {
            let (market, bids, asks, oo_ai, owner, evq) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
            let ms = load_market(program_id, market)?;
            check_market(&ms, bids, asks, evq)?;
            with_pod(oo_ai, |oo: &mut OpenOrders| check_oo(oo, market, owner))?;
            let book = if c.side == Side::Bid { bids } else { asks };
            cancel_by_key(&ms, oo_ai, book, evq, c.side, c.order_id)
        }
        MarketInstruction::CancelOrderByClientIdV2(id) => {
            let (market, bids, asks, oo_ai, owner, evq) = (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
            let ms = load_market(program_id, market)?;
            check_market(&ms, bids, asks, evq)?;
            let found = with_pod(oo_ai, |oo: &mut OpenOrders| {
                check_oo(oo, market, owner)?;
                let (ids, orders, free, isbid) = (oo.client_order_ids, oo.orders, oo.free_slot_bits, oo.is_bid_bits);
                Ok((0..128).find(|i| (free >> i) & 1 == 0 && ids[*i] == id).map(|i| (orders[i], (isbid >> i) & 1 == 1)))
            })?;
            let (key, bid) = found.ok_or(e(8))?;
            let (side, book) = if bid { (Side::Bid, bids) } else { (Side::Ask, asks) };
            cancel_by_key(&ms, oo_ai, book, evq, side, key)
        }
        MarketInstruction::SettleFunds => {
            let (market, oo_ai, owner, coin_vault, pc_vault, coin_wallet, pc_wallet, signer, token_program) =
                (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8]);
            let referrer = a.get(9);
            let ms = load_market(program_id, market)?;
            if key_of(ms.coin_vault) != *coin_vault.key || key_of(ms.pc_vault) != *pc_vault.key {
                return Err(e(9));
            }
            let (coin, pc, reb) = with_pod(oo_ai, |oo: &mut OpenOrders| {
                check_oo(oo, market, owner)?;
                let r = (oo.native_coin_free, oo.native_pc_free, oo.referrer_rebates_accrued);
                oo.native_coin_total -= r.0;
                oo.native_coin_free = 0;
                oo.native_pc_total -= r.1;
                oo.native_pc_free = 0;
                oo.referrer_rebates_accrued = 0;
                Ok(r)
            })?;
            with_pod(market, |m: &mut MarketState| {
                m.coin_deposits_total -= coin;
                m.pc_deposits_total -= pc;
                if referrer.is_some() {
                    m.referrer_rebates_accrued -= reb;
                }
                Ok(())
            })?;
            let nonce = { ms.vault_signer_nonce }.to_le_bytes();
            let seeds: &[&[u8]] = &[market.key.as_ref(), &nonce];
            token_transfer(token_program, coin_vault, coin_wallet, signer, coin, &[seeds])?;
            token_transfer(token_program, pc_vault, pc_wallet, signer, pc, &[seeds])?;
            if let Some(r) = referrer {
                token_transfer(token_program, pc_vault, r, signer, reb, &[seeds])?;
            }
            Ok(())
        }
        MarketInstruction::ConsumeEvents(limit) => {
            // [market, event_q, open orders...]
            let (market, evq) = (&a[0], &a[1]);
            let ms = load_market(program_id, market)?;
            if key_of(ms.event_q) != *evq.key {
                return Err(e(10));
            }
            for _ in 0..limit {
                let ev = match with_queue(evq, |q| Ok(q.pop()))? {
                    Some(x) => x,
                    None => break,
                };
                let owner = key_of(ev.owner);
                let oo_ai = a[2..].iter().find(|x| *x.key == owner).ok_or(e(11))?;
                with_pod(oo_ai, |oo: &mut OpenOrders| {
                    match { ev.kind } {
                        1 if ev.side == 0 => {
                            // maker bid filled: locked pc spent, coin received
                            oo.native_pc_total -= ev.pc_qty;
                            oo.native_coin_total += ev.coin_qty;
                            oo.native_coin_free += ev.coin_qty;
                        }
                        1 => {
                            oo.native_coin_total -= ev.coin_qty;
                            oo.native_pc_total += ev.pc_qty;
                            oo.native_pc_free += ev.pc_qty;
                        }
                        2 => oo.referrer_rebates_accrued += ev.rebate,
                        3 if ev.side == 0 => oo.native_pc_free += ev.unlock,
                        3 => oo.native_coin_free += ev.unlock,
                        _ => return Err(e(12)),
                    }
                    if ev.clear_slot == 1 {
                        free_slot(oo, ev.slot);
                    }
                    Ok(())
                })?;
            }
            Ok(())
        }
    }
}

fn free_slot(oo: &mut OpenOrders, slot: u64) {
    let mut orders = oo.orders;
    let mut ids = oo.client_order_ids;
    orders[slot as usize] = 0;
    ids[slot as usize] = 0;
    oo.orders = orders;
    oo.client_order_ids = ids;
    oo.free_slot_bits |= 1u128 << slot;
    oo.is_bid_bits &= !(1u128 << slot);
}

fn load_market(program_id: &Pubkey, market: &AccountInfo) -> Result<MarketState, ProgramError> {
    if market.owner != program_id {
        return Err(e(13));
    }
    let ms = with_pod(market, |m: &mut MarketState| Ok(*m))?;
    ms.check_flags(false).map_err(|_| e(14))?;
    if key_of(ms.own_address) != *market.key {
        return Err(e(15));
    }
    Ok(ms)
}
fn check_market(ms: &MarketState, bids: &AccountInfo, asks: &AccountInfo, evq: &AccountInfo) -> ProgramResult {
    if key_of(ms.bids) != *bids.key || key_of(ms.asks) != *asks.key || key_of(ms.event_q) != *evq.key {
        return Err(e(16));
    }
    Ok(())
}

fn native_locked(ms: &MarketState, side: Side, leaf: &LeafNode) -> u64 {
    match side {
        Side::Bid => leaf.quantity * leaf.price() * ms.pc_lot_size,
        Side::Ask => leaf.quantity * ms.coin_lot_size,
    }
}

fn cancel_by_key(ms: &MarketState, oo_ai: &AccountInfo, book: &AccountInfo, evq: &AccountInfo, side: Side, key: u128) -> ProgramResult {
    let leaf = with_book(book, |b| {
        let h = b.find_by_key(key).ok_or(e(17))?;
        if key_of(b.get(h as usize).owner) != *oo_ai.key {
            return Err(e(18));
        }
        Ok(b.remove_by_key(key).unwrap())
    })?;
    with_queue(evq, |q| q.push(&out_event(ms, side, &leaf, native_locked(ms, side, &leaf), true)))
}

fn out_event(_ms: &MarketState, side: Side, leaf: &LeafNode, unlock: u64, clear: bool) -> Event {
    Event { kind: 3, side: side as u64, owner: leaf.owner, slot: leaf.owner_slot, clear_slot: clear as u64, coin_qty: 0, pc_qty: 0, unlock, rebate: 0, client_order_id: leaf.client_order_id }
}

fn new_order(program_id: &Pubkey, a: &[AccountInfo], o: NewOrderInstructionV3) -> ProgramResult {
    let (market, oo_ai, req_q, evq, bids, asks, payer, owner, coin_vault, pc_vault, token_program) =
        (&a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &a[6], &a[7], &a[8], &a[9], &a[10]);
    let ms = load_market(program_id, market)?;
    check_market(&ms, bids, asks, evq)?;
    if key_of(ms.req_q) != *req_q.key || key_of(ms.coin_vault) != *coin_vault.key || key_of(ms.pc_vault) != *pc_vault.key {
        return Err(e(19));
    }
    let side = o.side;
    let limit_price = o.limit_price.get();
    let max_coin = o.max_coin_qty.get();
    let max_pc = o.max_native_pc_qty_including_fees.get();
    // deposit
    let deposit = with_pod(oo_ai, |oo: &mut OpenOrders| {
        check_oo(oo, market, owner)?;
        Ok(match side {
            Side::Bid => {
                let from_free = max_pc.min(oo.native_pc_free);
                oo.native_pc_free -= from_free;
                oo.native_pc_total += max_pc - from_free;
                max_pc - from_free
            }
            Side::Ask => {
                let lock = max_coin.checked_mul(ms.coin_lot_size).ok_or(e(20))?;
                let from_free = lock.min(oo.native_coin_free);
                oo.native_coin_free -= from_free;
                oo.native_coin_total += lock - from_free;
                lock - from_free
            }
        })
    })?;
    let vault = if side == Side::Bid { pc_vault } else { coin_vault };
    {
        // deposits must come from the payer the owner authorized
        if payer.key == coin_vault.key || payer.key == pc_vault.key {
            return Err(e(21));
        }
        token_transfer(token_program, payer, vault, owner, deposit, &[])?;
    }
    // matching
    let (own_book, opp_book) = if side == Side::Bid { (bids, asks) } else { (asks, bids) };
    let mut coin_left = max_coin;
    let mut pc_left = max_pc; // bids only: native pc available including fees
    let mut coin_recv = 0u64; // native
    let mut pc_recv = 0u64;
    let mut pc_paid = 0u64;
    let mut coin_paid = 0u64;
    let mut fees = 0u64;
    let mut self_unlock_coin = 0u64;
    for _ in 0..o.limit {
        if coin_left == 0 {
            break;
        }
        let best = with_book(opp_book, |b| {
            let v = b.iter();
            Ok(if side == Side::Bid { v.first().copied() } else { v.last().copied() })
        })?;
        let best = match best {
            Some(b) => b,
            None => break,
        };
        let price = best.price();
        let crosses = if side == Side::Bid { price <= limit_price } else { price >= limit_price };
        if !crosses {
            break;
        }
        if o.order_type == OrderType::PostOnly {
            coin_left = 0;
            break;
        }
        let bq = { best.quantity };
        let opp_side = if side == Side::Bid { Side::Ask } else { Side::Bid };
        if key_of(best.owner) == *oo_ai.key {
            match o.self_trade_behavior {
                SelfTradeBehavior::AbortTransaction => return Err(e(22)),
                SelfTradeBehavior::CancelProvide => {
                    with_book(opp_book, |b| Ok(b.remove_by_key(best.key).unwrap()))?;
                    let u = native_locked(&ms, opp_side, &best);
                    with_queue(evq, |q| q.push(&out_event(&ms, opp_side, &best, u, true)))?;
                    continue;
                }
                SelfTradeBehavior::DecrementTake => {
                    let q = bq.min(coin_left);
                    let mut part = best;
                    part.quantity = q;
                    let u = native_locked(&ms, opp_side, &part);
                    shrink(opp_book, &best, q)?;
                    with_queue(evq, |e| e.push(&out_event(&ms, opp_side, &best, u, q == bq)))?;
                    coin_left -= q;
                    if side == Side::Ask {
                        self_unlock_coin += q * ms.coin_lot_size;
                    }
                    continue;
                }
            }
        }
        let mut q = bq.min(coin_left);
        if side == Side::Bid {
            // affordable quantity including fees
            let unit = price * ms.pc_lot_size;
            while q > 0 && q * unit + fee(q * unit) > pc_left {
                q -= 1;
            }
            if q == 0 {
                coin_left = 0;
                break;
            }
        }
        let coin = q * ms.coin_lot_size;
        let pc = q * price * ms.pc_lot_size;
        let f = fee(pc);
        fees += f;
        coin_left -= q;
        if side == Side::Bid {
            pc_left -= pc + f;
            pc_paid += pc + f;
            coin_recv += coin;
        } else {
            coin_paid += coin;
            pc_recv += pc - f;
        }
        shrink(opp_book, &best, q)?;
        with_queue(evq, |eq| {
            eq.push(&Event {
                kind: 1,
                side: opp_side as u64,
                owner: best.owner,
                slot: best.owner_slot,
                clear_slot: (q == bq) as u64,
                coin_qty: coin,
                pc_qty: pc,
                unlock: 0,
                rebate: 0,
                client_order_id: best.client_order_id,
            })
        })?;
    }
    // rest goes on the book
    let mut posted: Option<LeafNode> = None;
    if coin_left > 0 && o.order_type != OrderType::ImmediateOrCancel {
        let q = if side == Side::Bid { coin_left.min(pc_left / (limit_price * ms.pc_lot_size)) } else { coin_left };
        if q > 0 {
            let seq = with_queue(evq, |x| Ok(x.next_seq()))?;
            let key = (limit_price as u128) << 64 | if side == Side::Bid { !seq } else { seq } as u128;
            let slot = with_pod(oo_ai, |oo: &mut OpenOrders| {
                let free = oo.free_slot_bits;
                if free == 0 {
                    return Err(e(23));
                }
                let s = free.trailing_zeros() as usize;
                let mut orders = oo.orders;
                let mut ids = oo.client_order_ids;
                orders[s] = key;
                ids[s] = o.client_order_id;
                oo.orders = orders;
                oo.client_order_ids = ids;
                oo.free_slot_bits &= !(1u128 << s);
                if side == Side::Bid {
                    oo.is_bid_bits |= 1u128 << s;
                }
                Ok(s as u64)
            })?;
            let leaf = LeafNode { key, quantity: q, owner: oo_ai.key.to_aligned_bytes(), owner_slot: slot, client_order_id: o.client_order_id };
            with_book(own_book, |b| if b.insert(&leaf) { Ok(()) } else { Err(e(24)) })?;
            posted = Some(leaf);
        }
    }
    let still_locked = posted.map(|l| native_locked(&ms, side, &l)).unwrap_or(0);
    // taker proceeds
    with_pod(oo_ai, |oo: &mut OpenOrders| {
        match side {
            Side::Bid => {
                oo.native_pc_total -= pc_paid;
                oo.native_coin_total += coin_recv;
                oo.native_coin_free += coin_recv;
                oo.native_pc_free += max_pc - pc_paid - still_locked;
            }
            Side::Ask => {
                oo.native_coin_total -= coin_paid;
                oo.native_pc_total += pc_recv;
                oo.native_pc_free += pc_recv;
                let _ = self_unlock_coin; // part of max_coin that is neither paid nor posted
                oo.native_coin_free += max_coin * ms.coin_lot_size - coin_paid - still_locked;
            }
        }
        Ok(())
    })?;
    let rebate = fees / REFERRER_SHARE;
    if fees > 0 {
        with_queue(evq, |q| {
            q.push(&Event { kind: 2, side: side as u64, owner: oo_ai.key.to_aligned_bytes(), slot: 0, clear_slot: 0, coin_qty: 0, pc_qty: 0, unlock: 0, rebate, client_order_id: 0 })
        })?;
    }
    with_pod(market, |m: &mut MarketState| {
        match side {
            Side::Bid => m.pc_deposits_total += deposit,
            Side::Ask => m.coin_deposits_total += deposit,
        }
        m.pc_deposits_total -= fees;
        m.pc_fees_accrued += fees - rebate;
        m.referrer_rebates_accrued += rebate;
        Ok(())
    })
}

fn fee(pc: u64) -> u64 {
    (pc * TAKER_FEE_BPS + 9999) / 10000
}

fn shrink(book: &AccountInfo, leaf: &LeafNode, q: u64) -> ProgramResult {
    with_book(book, |b| {
        let i = b.find_by_key(leaf.key).unwrap() as usize;
        let mut l = b.get(i);
        if l.quantity == q {
            b.remove_by_key(leaf.key);
        } else {
            l.quantity -= q;
            b.set(i, &l);
        }
        Ok(())
    })
}
