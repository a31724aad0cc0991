//! C39: the crank turns event queue writes into instructions that process the queue's next events.
use crate::common::*;
use crate::transaction_builder;
use anchor_lang::{Discriminator, InstructionData};
use mango_feeds_connector::{metrics::Metrics, AccountWrite};
use mango_v4::state::{AnyEvent, EventQueue, FillEvent, OutEvent, QueueHeader, Side, MAX_NUM_EVENTS};
use rayon::prelude::*;
use solana_sdk::{instruction::Instruction, pubkey::Pubkey};
use std::collections::BTreeSet;

fn owner(n: usize) -> Pubkey {
    pk(&format!("owner {n}"))
}
/// events: 0 = fill of owner 0 by owner 1, 1 = fill of 2 by 0, 2 = out of 3, 3 = out of 0, 4 = fill 4 by 5
const KINDS: usize = 5;
fn parties(k: usize) -> Vec<usize> {
    [vec![0, 1], vec![2, 0], vec![3], vec![0], vec![4, 5]][k].clone()
}
fn is_fill(k: usize) -> bool {
    parties(k).len() == 2
}
fn perp_queue(start: u64, kinds: &[usize]) -> Vec<u8> {
    let mut q: Box<EventQueue> = Box::new(bytemuck::Zeroable::zeroed());
    q.header.seq_num = start;
    q.header.set_head((start % MAX_NUM_EVENTS as u64) as u32);
    // what was consumed earlier stays in the buffer
    for e in q.buf.iter_mut().take(start.min(MAX_NUM_EVENTS as u64) as usize) {
        *e = bytemuck::cast(OutEvent::new(Side::Bid, 0, 1, 0, owner(9), 1, 1));
    }
    for k in kinds {
        let seq = q.header.seq_num;
        let p = parties(*k);
        let e: AnyEvent = if is_fill(*k) {
            bytemuck::cast(FillEvent::new(Side::Bid, true, 0, 1, seq, owner(p[0]), 1, 1, fixed::types::I80F48::ZERO, 1, owner(p[1]), 1, fixed::types::I80F48::ZERO, 10, 1))
        } else {
            bytemuck::cast(OutEvent::new(Side::Ask, 0, 1, seq, owner(p[0]), 1, 1))
        };
        let _ = q.push_back(e);
    }
    let mut data = EventQueue::DISCRIMINATOR.to_vec();
    data.extend_from_slice(bytemuck::bytes_of(&*q));
    data
}
fn words(p: &Pubkey) -> [u64; 4] {
    bytemuck::cast(p.to_bytes())
}
const CAP: u64 = 8;
fn spot_queue(start: u64, kinds: &[usize]) -> Vec<u8> {
    let mut events = vec![serum_dex::state::Event { event_flags: serum_dex::state::OUT, owner: words(&owner(9)), ..bytemuck::Zeroable::zeroed() }; CAP as usize];
    for (i, k) in kinds.iter().enumerate() {
        events[((start + i as u64) % CAP) as usize] = serum_dex::state::Event {
            event_flags: if is_fill(*k) { serum_dex::state::FILL } else { serum_dex::state::OUT },
            owner: words(&owner(*parties(*k).last().unwrap())),
            ..bytemuck::Zeroable::zeroed()
        };
    }
    let mut d = b"serum".to_vec();
    for x in [17u64, start % CAP, kinds.len() as u64, start + kinds.len() as u64] {
        d.extend_from_slice(&x.to_le_bytes());
    }
    d.extend_from_slice(bytemuck::cast_slice(&events));
    d.extend_from_slice(&[0; 3]); // the account need not be a whole number of events
    d.extend_from_slice(b"padding");
    d
}
fn write(pubkey: Pubkey, owner: Pubkey, data: Vec<u8>) -> AccountWrite {
    AccountWrite { pubkey, slot: 5, write_version: 7, lamports: 1, owner, executable: false, rent_epoch: 0, data, is_selected: true }
}
fn crank(w: AccountWrite) -> Vec<Vec<Instruction>> {
    tokio::mc_reset();
    let m = |s: &str| (pk(&format!("{s} market")), pk(&format!("{s} queue")));
    let (send, _slots, out) = transaction_builder::init(vec![m("p0"), m("p1")], vec![m("s0"), m("s1")], pk("group"), Metrics).unwrap();
    tokio::mc_run();
    send.try_send(w).unwrap();
    tokio::mc_run();
    let mut r = vec![];
    while let Ok(i) = out.try_recv() {
        r.push(i);
    }
    tokio::mc_reset();
    r
}
fn check_perp(mkt: &str, start: u64, kinds: &[usize]) -> Result<bool, String> {
    let sent = crank(write(pk(&format!("{mkt} queue")), mango_v4::ID, perp_queue(start, kinds)));
    let worth = kinds.iter().any(|k| is_fill(*k)) || kinds.len() > 2;
    if !worth {
        ensure(sent.is_empty(), || "cranked a queue with neither fills nor a backlog".into())?;
        return Ok(false);
    }
    ensure(sent.len() == 1 && sent[0].len() == 1, || format!("{} transactions for a queue with events to process", sent.len()))?;
    let ix = &sent[0][0];
    ensure(ix.program_id == mango_v4::ID, || "instruction for another program".into())?;
    let limit = (0..=kinds.len().max(64)).find(|l| ix.data == mango_v4::instruction::PerpConsumeEvents { limit: *l }.data());
    let limit = limit.ok_or("not an instruction to consume events")?;
    let named: Vec<Pubkey> = ix.accounts[..3.min(ix.accounts.len())].iter().map(|a| a.pubkey).collect();
    ensure(named == [pk("group"), pk(&format!("{mkt} market")), pk(&format!("{mkt} queue"))], || "wrong group, market or queue".into())?;
    ensure(ix.accounts[1].is_writable && ix.accounts[2].is_writable, || "market or queue not writable".into())?;
    // the program processes at most 8 events per instruction
    let process = limit.min(kinds.len()).min(8);
    ensure(process == kinds.len().min(8), || format!("limit below what one instruction can process | {limit}"))?;
    let need: BTreeSet<Pubkey> = kinds[..process].iter().flat_map(|k| parties(*k)).map(owner).collect();
    let rest = &ix.accounts[3..];
    for n in &need {
        ensure(rest.iter().any(|a| a.pubkey == *n && a.is_writable), || "an account of one of the next events is missing or read-only".into())?;
    }
    let all: BTreeSet<Pubkey> = kinds.iter().flat_map(|k| parties(*k)).map(owner).collect();
    ensure(rest.iter().all(|a| all.contains(&a.pubkey)), || "an account that has nothing to do with the queue's events".into())?;
    ensure(ix.accounts.iter().all(|a| !a.is_signer), || "signature required".into())?;
    Ok(true)
}
fn check_spot(mkt: &str, start: u64, kinds: &[usize]) -> Result<bool, String> {
    let (market, queue) = (pk(&format!("{mkt} market")), pk(&format!("{mkt} queue")));
    let sent = crank(write(queue, pk("dex"), spot_queue(start, kinds)));
    let worth = kinds.iter().any(|k| is_fill(*k)) || kinds.len() > 2;
    if !worth {
        ensure(sent.is_empty(), || "cranked a spot queue with neither fills nor a backlog".into())?;
        return Ok(false);
    }
    ensure(sent.len() == 1 && sent[0].len() == 1, || format!("{} transactions for a spot queue with events to process", sent.len()))?;
    let ix = &sent[0][0];
    ensure(ix.program_id.to_string() == "srmqPvymJeFKQ4zGQed1GFppgkRHL9kaELCbyksJtPX", || "instruction for another program".into())?;
    ensure(ix.data == serum_dex::instruction::MarketInstruction::ConsumeEvents(kinds.len() as u16).pack(), || "not an instruction to consume all events".into())?;
    let n = ix.accounts.len();
    ensure(n >= 4 && ix.accounts[n - 4].pubkey == market && ix.accounts[n - 3].pubkey == queue, || "wrong market or queue".into())?;
    ensure(ix.accounts.iter().all(|a| a.is_writable && !a.is_signer), || "account flags".into())?;
    let open: Vec<Pubkey> = ix.accounts[..n - 4].iter().map(|a| a.pubkey).collect();
    let mut need: Vec<Pubkey> = kinds.iter().map(|k| owner(*parties(*k).last().unwrap())).collect();
    // the DEX finds an event's open orders account by binary search over the 64-bit words of the keys
    need.sort_by_key(words);
    need.dedup();
    ensure(open == need, || "open orders accounts of the events are not passed in the order the DEX searches them in".into())?;
    Ok(true)
}
fn sequences(max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        last = last.iter().flat_map(|s: &Vec<usize>| (0..KINDS).map(move |k| s.iter().copied().chain([k]).collect())).collect();
        all.extend(last.clone());
    }
    all
}
pub fn run(r: &Report) {
    let depth = if r.thorough { 7 } else { 5 };
    let mut kinds = sequences(depth);
    // longer queues: more events than one instruction takes
    for k in 0..KINDS {
        for n in [8, 9, 10, 11, 12, 60] {
            kinds.push((0..n).map(|i| if i == n - 1 { k } else { 2 + i % 2 }).collect());
            kinds.push((0..n).map(|i| if i == 8 { k } else { 3 }).collect());
            kinds.push((0..n).map(|i| (i + k) % KINDS).collect());
        }
    }
    // starts: fresh queue, in the middle, wrapping around the end of the buffer
    let perp_starts = [0u64, 3, 486, 487, 488, 975, 4879];
    let spot_starts = [0u64, 5, 6, 7, 8, 23, 8003];
    let one = |name: &str, f: &(dyn Fn() -> Result<bool, String> + Sync), s: usize, k: &[usize]| {
        let x = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f())).unwrap_or_else(|e| Err(format!("panicked: {}", panic_text(&e))));
        match x {
            Ok(sent) => r.count(&format!("{name} {}", if sent { "sent" } else { "throttled" }), 1),
            Err(w) => r.violation(name, [s].iter().chain(k).copied().collect(), &format!("{w} | start {s} events {k:?}")),
        }
    };
    kinds.par_iter().for_each(|k| {
        for s in perp_starts {
            for m in ["p0", "p1"] {
                one("perp queue", &|| check_perp(m, s, k), s as usize, k);
            }
        }
        if k.len() <= CAP as usize {
            for s in spot_starts {
                for m in ["s0", "s1"] {
                    one("spot queue", &|| check_spot(m, s, k), s as usize, k);
                }
            }
        }
    });
    one("other account", &|| ensure(crank(write(pk("p0 market"), mango_v4::ID, perp_queue(0, &[0]))).is_empty(), || "a write of another account was cranked".into()).map(|_| false), 0, &[]);
    let n = r.counts.lock().unwrap().values().sum::<u64>();
    r.cases(n, &format!("queues of up to {depth} events of {KINDS} kinds at {} perp and {} spot positions, longer queues of up to 60 events", perp_starts.len(), spot_starts.len()));
}
