//! Margin account layout: creation, resizing, migration, edits and closing of accounts, and the
//! sequence check, each compared with an independent description of the account's bytes.
use crate::explore::Report;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use bytemuck::Zeroable;
use mango_v4::state::*;
use rayon::prelude::*;
use solana_program::instruction::Instruction;
use solana_program::rent::Rent;
use solana_program::system_program;

const SZ: [usize; 5] = [184, 120, 304, 96, 0];
const NAMES: [&str; 5] = ["tokens", "spot", "perps", "orders", "swaps"];
fn size(n: usize) -> usize {
    if n == 4 {
        std::mem::size_of::<TokenConditionalSwap>()
    } else {
        SZ[n]
    }
}
fn space(c: &[u8; 5]) -> usize {
    8 + 400 + 8 + (0..5).map(|n| 8 + size(n) * c[n] as usize).sum::<usize>() + 64
}
/// where the slot says whether it is used
fn active(sec: usize, b: &[u8]) -> bool {
    match sec {
        0 => bytemuck::pod_read_unaligned::<TokenPosition>(b).token_index != u16::MAX,
        1 => bytemuck::pod_read_unaligned::<Serum3Orders>(b).market_index != u16::MAX,
        2 => bytemuck::pod_read_unaligned::<PerpPosition>(b).market_index != u16::MAX,
        3 => bytemuck::pod_read_unaligned::<PerpOpenOrder>(b).market != u16::MAX,
        _ => bytemuck::pod_read_unaligned::<TokenConditionalSwap>(b).is_configured == 1,
    }
}
/// an arbitrary used or unused slot
fn slot(sec: usize, n: usize, used: bool) -> Vec<u8> {
    let mut b: Vec<u8> = (0..size(sec)).map(|i| (i * 7 + n * 31 + sec * 53 + used as usize * 3 + 1) as u8).collect();
    macro_rules! put {
        ($t:ty, $x:ident, $e:expr) => {{
            let mut $x: $t = bytemuck::pod_read_unaligned(&b);
            $e;
            b = bytemuck::bytes_of(&$x).to_vec();
        }};
    }
    let v = if used { 3 + 2 * n as u16 } else { u16::MAX };
    match sec {
        0 => put!(TokenPosition, x, x.token_index = v),
        1 => put!(Serum3Orders, x, x.market_index = v),
        2 => put!(PerpPosition, x, x.market_index = v),
        3 => put!(PerpOpenOrder, x, x.market = v),
        _ => put!(TokenConditionalSwap, x, x.is_configured = used as u8),
    }
    assert_eq!(active(sec, &b), used);
    b
}
fn empty(sec: usize) -> Vec<u8> {
    match sec {
        0 => bytemuck::bytes_of(&TokenPosition::default()).to_vec(),
        1 => bytemuck::bytes_of(&Serum3Orders::default()).to_vec(),
        2 => bytemuck::bytes_of(&PerpPosition::default()).to_vec(),
        3 => bytemuck::bytes_of(&PerpOpenOrder::default()).to_vec(),
        _ => bytemuck::bytes_of(&TokenConditionalSwap::default()).to_vec(),
    }
}
/// a used slot that has nothing in it yet
fn fresh(sec: usize, n: usize) -> Vec<u8> {
    let mut b = empty(sec);
    let v = (3 + 2 * n as u16).to_le_bytes();
    let (x, y) = (slot(sec, n, true), slot(sec, n, false));
    match sec {
        4 => {
            let o = (0..b.len()).find(|i| x[*i] == 1 && y[*i] == 0 && { let mut c = y.clone(); c[*i] = 1; active(4, &c) }).unwrap();
            b[o] = 1;
        }
        _ => {
            let o = (0..b.len() - 1).find(|i| b[*i] == 255 && b[*i + 1] == 255 && y[*i] == 255 && y[*i + 1] == 255 && { let mut c = b.clone(); c[*i..*i + 2].copy_from_slice(&v); active(sec, &c) }).unwrap();
            b[o..o + 2].copy_from_slice(&v);
        }
    }
    assert!(active(sec, &b) && !active(sec, &empty(sec)));
    b
}
type Secs = [Vec<Vec<u8>>; 5];
fn secs(masks: &[(u8, u64); 5]) -> Secs {
    std::array::from_fn(|n| (0..masks[n].0 as usize).map(|i| slot(n, i, masks[n].1.checked_shr(i as u32).unwrap_or(0) & 1 == 1)).collect())
}
fn counts(s: &Secs) -> [u8; 5] {
    std::array::from_fn(|n| s[n].len() as u8)
}
/// account bytes: `head` is discriminator, fixed part and header
fn bytes(head: &[u8], s: &Secs) -> Vec<u8> {
    let mut b = head[..416].to_vec();
    for v in s {
        b.extend([0u8; 4]);
        b.extend((v.len() as u32).to_le_bytes());
        for x in v {
            b.extend(x);
        }
    }
    b.extend([0u8; 64]);
    assert_eq!(b.len(), space(&counts(s)));
    b
}
/// read an account back: sections and reserved bytes
fn read(b: &[u8]) -> Option<(Secs, Vec<u8>)> {
    let mut p = 416;
    let mut out: Secs = Default::default();
    for n in 0..5 {
        let c = u32::from_le_bytes(b.get(p + 4..p + 8)?.try_into().unwrap()) as usize;
        p += 8;
        for _ in 0..c {
            out[n].push(b.get(p..p + size(n))?.to_vec());
            p += size(n);
        }
    }
    Some((out, b[p..].to_vec()))
}
/// the sections after resizing, or None if they do not fit
fn resized(s: &Secs, new: &[u8; 5]) -> Option<Secs> {
    let mut out: Secs = Default::default();
    for n in 0..5 {
        let mut keep: Vec<Vec<u8>> = if n == 3 {
            // orders are referred to by position
            let last = s[n].iter().rposition(|x| active(n, x)).map_or(0, |i| i + 1);
            s[n][..last].to_vec()
        } else {
            s[n].iter().filter(|x| active(n, x)).cloned().collect()
        };
        if keep.len() > new[n] as usize {
            return None;
        }
        keep.resize(new[n] as usize, empty(n));
        out[n] = keep;
    }
    Some(out)
}
fn health_accounts(c: &[u8; 5]) -> usize {
    c[0] as usize * 2 + c[1] as usize + c[2] as usize * 2
}
fn allowed(old: &[u8; 5], new: &[u8; 5]) -> bool {
    (health_accounts(new) <= health_accounts(old) || health_accounts(new) <= 28) && (new[3] <= old[3] || new[3] <= 64) && (new[4] <= old[4] || new[4] <= 64)
}
fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}
fn expand(fx: &Fix, c: &[u8; 5], v1: bool) -> Instruction {
    let ac = mango_v4::accounts::AccountExpand { group: fx.w.group, account: fx.accts[0], owner: fx.owners[0], payer: fx.w.payer, system_program: system_program::ID };
    if v1 {
        ix(ac, mango_v4::instruction::AccountExpand { token_count: c[0], serum3_count: c[1], perp_count: c[2], perp_oo_count: c[3] })
    } else {
        ix(ac, mango_v4::instruction::AccountExpandV2 { token_count: c[0], serum3_count: c[1], perp_count: c[2], perp_oo_count: c[3], token_conditional_swap_count: c[4] })
    }
}
fn migrate(fx: &Fix) -> Instruction {
    ix(mango_v4::accounts::AccountSizeMigration { group: fx.w.group, account: fx.accts[0], payer: fx.w.payer, system_program: system_program::ID }, mango_v4::instruction::AccountSizeMigration {})
}
fn lam(s: &State, k: &Pubkey) -> u64 {
    s.accts.get(k).map_or(0, |a| a.lamports)
}
pub struct Base {
    fx: Fix,
    s: State,
    head: Vec<u8>,
}
pub fn base() -> Base {
    let mut s = State::new();
    let mut fx = fix("acc", &mut s, &[TokCfg::quote(), TokCfg { price: 2.0, ..TokCfg::default() }], &[]);
    fx.user(&mut s, "u", 1_000_000_000);
    let k = fx.accts[0];
    // every fixed field that the owner cannot set differs from its default
    edit_acc(&mut s, &k, |a| {
        a.fixed.delegate = pk("a delegate");
        a.fixed.sequence_number = 77;
        a.fixed.net_deposits = -12345;
        a.fixed.perp_spot_transfers = 999;
        a.fixed.health_region_begin_init_health = 42;
        a.fixed.frozen_until = 5;
        a.fixed.buyback_fees_accrued_current = 11;
        a.fixed.buyback_fees_accrued_previous = 12;
        a.fixed.buyback_fees_expiry_timestamp = 13;
        a.fixed.next_token_conditional_swap_id = 14;
        a.fixed.temporary_delegate = pk("b delegate");
        a.fixed.temporary_delegate_expiry = 15;
        a.fixed.last_collateral_fee_charge = 16;
    });
    let head = s.data(&k)[..416].to_vec();
    Base { fx, s, head }
}
fn put(b: &Base, data: Vec<u8>, extra: i64) -> State {
    let mut s = b.s.clone();
    let k = b.fx.accts[0];
    let l = rent(data.len()) as i64 + extra;
    s.set(k, Acct::new(l as u64, mango_v4::ID, data));
    s
}
fn check_after(b: &Base, pre: &State, post: &State, want: &Secs, lamports: u64) -> Result<(), String> {
    let k = b.fx.accts[0];
    let d = post.data(&k);
    if d.len() != space(&counts(want)) {
        return Err(format!("account size {} instead of {}", d.len(), space(&counts(want))));
    }
    if d[..416] != pre.data(&k)[..416] {
        return Err("the fixed part of the account changed".into());
    }
    let (got, res) = read(d).ok_or("account is unreadable")?;
    for n in 0..5 {
        if got[n].len() != want[n].len() {
            return Err(format!("{} {} instead of {}", got[n].len(), NAMES[n], want[n].len()));
        }
        for i in 0..want[n].len() {
            if got[n][i] != want[n][i] {
                let how = if want[n][i] == empty(n) { "not an empty slot" } else { "not what the account held" };
                return Err(format!("{} slot {i} is {how}", NAMES[n]));
            }
        }
    }
    if res != vec![0u8; 64] {
        return Err("reserved bytes are not zero".into());
    }
    let payer = b.fx.w.payer;
    if lam(post, &k) != lamports {
        return Err(format!("account holds {} lamports instead of {lamports}", lam(post, &k)));
    }
    if lam(pre, &payer) + lam(pre, &k) != lam(post, &payer) + lam(post, &k) {
        return Err("lamports went astray".into());
    }
    for (x, a) in &pre.accts {
        if *x != k && *x != payer && post.accts.get(x).map_or(true, |y| y.data != a.data || y.lamports != a.lamports) {
            return Err(format!("account {x} changed"));
        }
    }
    Ok(())
}
/// one resize: Ok iff it fits, is within the limits and does not grow by more than the runtime allows
fn one_expand(rep: &Report, b: &Base, masks: &[(u8, u64); 5], new: &[u8; 5], extra: i64, v1: bool) {
    rep.case();
    let old = secs(masks);
    let mut new = *new;
    if v1 {
        new[4] = 0;
    }
    let pre = put(b, bytes(&b.head, &old), extra);
    let mut post = pre.clone();
    let r = quiet_catch(|| {
        let r = post.tx(&[expand(&b.fx, &new, v1)]);
        (r, post)
    });
    let key = || format!("resize {masks:?} to {new:?}{}{}", if v1 { " v1" } else { "" }, if extra != 0 { " with surplus" } else { "" });
    let (r, post) = match r {
        Ok(x) => x,
        Err(e) => return rep.violation(&key(), &format!("crashed: {e}")),
    };
    let oc = counts(&old);
    let fits = resized(&old, &new);
    let small = space(&new) <= space(&oc) + 10240;
    match (fits, allowed(&oc, &new) && small, &r) {
        (Some(want), true, Ok(_)) => {
            if let Err(e) = check_after(b, &pre, &post, &want, rent(space(&new))) {
                rep.violation(&key(), &e);
            }
        }
        (Some(_), true, Err(e)) => rep.violation(&key(), &format!("refused: {e:?}")),
        (_, _, Ok(_)) => rep.violation(&key(), "accepted although it does not fit or exceeds the limits"),
        _ => {}
    }
}
pub fn expand_enum(rep: &Report) {
    let b = base();
    // every combination of per-section situations
    let opts: Vec<(u8, u64, u8)> = vec![(2, 0b10, 1), (2, 0b10, 3), (2, 0b01, 2), (0, 0, 2), (2, 0, 0), (3, 0b101, 2), (2, 0b11, 1), (1, 1, 1), (3, 0b010, 1), (0, 0, 0), (3, 0b110, 3), (3, 0b111, 4), (4, 0b1001, 2), (3, 0b100, 2)];
    let n = if rep.thorough { opts.len() } else { 8 };
    (0..n.pow(5)).into_par_iter().for_each(|c| {
        let mut x = c;
        let o: [(u8, u64, u8); 5] = std::array::from_fn(|_| {
            let v = opts[x % n];
            x /= n;
            v
        });
        let masks = o.map(|v| (v.0, v.1));
        let new = o.map(|v| v.2);
        let h = (c % 7) as i64;
        one_expand(rep, &b, &masks, &new, if h == 3 { 1_234_567 } else { 0 }, h == 5);
    });
    // every pair of sections: every occupancy of up to 3 slots and every new count
    let all: Vec<(u8, u64, u8)> = (0..4u8).flat_map(|old| (0..1u64 << old).flat_map(move |m| (0..4u8).map(move |new| (old, m, new)))).collect();
    let bg: &[(u8, u64, u8)] = if rep.thorough { &[(2, 0b10, 1), (2, 0b10, 3), (2, 0b01, 2), (0, 0, 2), (3, 0b101, 2)] } else { &[(2, 0b10, 1), (2, 0b10, 3)] };
    let mut jobs = vec![];
    for i in 0..5 {
        for j in i + 1..5 {
            for g in bg {
                jobs.push((i, j, *g));
            }
        }
    }
    jobs.par_iter().for_each(|(i, j, g)| {
        all.par_iter().for_each(|x| {
            for y in &all {
                let mut o = [*g; 5];
                o[*i] = *x;
                o[*j] = *y;
                one_expand(rep, &b, &o.map(|v| (v.0, v.1)), &o.map(|v| v.2), 0, false);
            }
        })
    });
    // full size accounts: every place of a single used slot, moved in all directions
    for (old, new) in [([8u8, 4, 4, 64, 8], [4u8, 8, 4, 64, 8]), ([4, 8, 4, 64, 8], [8, 4, 4, 64, 8]), ([4, 4, 4, 32, 4], [4, 4, 4, 64, 8]), ([4, 4, 4, 64, 8], [4, 4, 4, 32, 4]), ([6, 4, 6, 16, 16], [8, 4, 2, 40, 2]), ([16, 8, 8, 64, 0], [8, 4, 4, 64, 8])] {
        for sec in 0..5 {
            (0..=old[sec] as u64).into_par_iter().for_each(|i| {
                for other in [0u64, 1] {
                    let mut m: [(u8, u64); 5] = old.map(|c| (c, if c > 0 { other } else { 0 }));
                    m[sec].1 |= 1u64.checked_shl(i as u32).unwrap_or(0);
                    if i as u8 == old[sec] {
                        // all of them
                        m[sec].1 = if old[sec] == 64 { u64::MAX } else { (1 << old[sec]) - 1 };
                    }
                    one_expand(rep, &b, &m, &new, 0, false);
                }
            });
        }
    }
}
/// Every combination of counts from several old layouts: the limits on the number of slots.
pub fn limits_enum(rep: &Report) {
    let b = base();
    let olds: &[[u8; 5]] = &[[4, 4, 4, 8, 2], [2, 1, 0, 0, 0], [16, 8, 8, 64, 4], [0, 0, 0, 0, 0], [8, 4, 4, 64, 8], [14, 0, 0, 70, 66]];
    let st = if rep.thorough { 1 } else { 2 };
    for old in olds {
        let grid: Vec<[u8; 5]> = (0..=17u8).flat_map(|t| (0..=30u8).step_by(st).flat_map(move |s| (0..=16u8).map(move |p| [t, s, p, 0, 0]))).collect();
        grid.par_iter().for_each(|n| {
            let new = [n[0], n[1], n[2], old[3], old[4]];
            one_expand(rep, &b, &old.map(|c| (c, 0)), &new, 0, false);
        });
        (0..=255u8).into_par_iter().for_each(|n| {
            for sec in 0..5 {
                let mut new = *old;
                new[sec] = n;
                one_expand(rep, &b, &old.map(|c| (c, 0)), &new, 0, false);
            }
            let mut new = *old;
            new[3] = n;
            new[4] = old[4] + 1;
            one_expand(rep, &b, &old.map(|c| (c, 0)), &new, 0, false);
        });
    }
}
/// Accounts of other sizes than their contents need: left over space, or no room for swaps.
pub fn migrate_enum(rep: &Report) {
    let b = base();
    let ms = |c: u8, few: u64| -> Vec<(u8, u64)> {
        let full = if c == 0 { 0 } else { (1u64 << c) - 1 };
        let mut v = vec![(c, 0), (c, full), (c, full & few), (c, full & !few)];
        v.dedup();
        v
    };
    let (ts, ss, ps): (&[u8], &[u8], &[u8]) = if rep.thorough { (&[0, 4, 7, 8, 9, 12, 16], &[0, 2, 4, 5, 8], &[0, 2, 4, 5, 8]) } else { (&[4, 8, 9, 16], &[2, 4, 8], &[0, 4, 5, 8]) };
    let mut jobs = vec![];
    for t in ts.iter().flat_map(|c| ms(*c, 0b1_0101_0101)) {
        for s in ss.iter().flat_map(|c| ms(*c, 0b10010)) {
            for p in ps.iter().flat_map(|c| ms(*c, 0b10100)) {
                for oo in [(0, 0), (4, 0b0010), (64, 1 << 63)] {
                    jobs.push((t, s, p, oo));
                }
            }
        }
    }
    jobs.par_iter().for_each(|(t, s, p, oo)| {
        for tcs in [None, Some((0u8, 0u64)), Some((2, 0b10))] {
            for tail in [0usize, 1, 8, 500] {
                if tcs.is_none() && tail > 0 {
                    continue;
                }
                for extra in [0i64, 777_777] {
                    rep.case();
                    let masks = [*t, *s, *p, *oo, tcs.unwrap_or((0, 0))];
                    let old = secs(&masks);
                    let mut d = bytes(&b.head, &old);
                    if tcs.is_none() {
                        // as written before swaps existed
                        let n = d.len() - 64 - 8;
                        d.truncate(n);
                    }
                    d.extend(std::iter::repeat(0xA7).take(tail));
                    let pre = put(&b, d, extra);
                    let mut post = pre.clone();
                    let key = || format!("migrate {masks:?} swaps {} tail {tail}", tcs.is_some());
                    let r = quiet_catch(|| {
                        let r = post.tx(&[migrate(&b.fx)]);
                        (r, post)
                    });
                    let (r, post) = match r {
                        Ok(x) => x,
                        Err(e) => return rep.violation(&key(), &format!("crashed: {e}")),
                    };
                    if let Err(e) = r {
                        return rep.violation(&key(), &format!("refused: {e:?}"));
                    }
                    let k = b.fx.accts[0];
                    if tail == 0 && tcs.is_some() {
                        if post.data(&k) != pre.data(&k) || lam(&post, &k) != lam(&pre, &k) || lam(&post, &b.fx.w.payer) != lam(&pre, &b.fx.w.payer) {
                            rep.violation(&key(), "an account of the right size was changed");
                        }
                        continue;
                    }
                    let n = |sec: usize, min: u8| (old[sec].len() as u8).min((old[sec].iter().filter(|x| active(sec, x)).count() as u8).max(min));
                    let new = [n(0, 8), n(1, 4), n(2, 4), old[3].len() as u8, old[4].len() as u8];
                    let want = resized(&old, &new).unwrap();
                    let l = lam(&pre, &k).max(rent(space(&new)));
                    if let Err(e) = check_after(&b, &pre, &post, &want, l) {
                        rep.violation(&key(), &e);
                    }
                    // a second time changes nothing
                    let mut again = post.clone();
                    let r = again.tx(&[migrate(&b.fx)]);
                    if r.is_err() || again.data(&k) != post.data(&k) || lam(&again, &k) != lam(&post, &k) {
                        rep.violation(&key(), &format!("migrating twice is not the same as once: {r:?}"));
                    }
                }
            }
        }
    });
}
fn create(fx: &Fix, owner: Pubkey, num: u32, c: &[u8; 5], name: &str, v1: bool) -> Instruction {
    let (group, account, payer) = (fx.w.group, fx.w.account_key(&owner, num), fx.w.payer);
    if v1 {
        ix(
            mango_v4::accounts::AccountCreate { group, account, owner, payer, system_program: system_program::ID },
            mango_v4::instruction::AccountCreate { account_num: num, token_count: c[0], serum3_count: c[1], perp_count: c[2], perp_oo_count: c[3], name: name.into() },
        )
    } else {
        ix(
            mango_v4::accounts::AccountCreateV2 { group, account, owner, payer, system_program: system_program::ID },
            mango_v4::instruction::AccountCreateV2 { account_num: num, token_count: c[0], serum3_count: c[1], perp_count: c[2], perp_oo_count: c[3], token_conditional_swap_count: c[4], name: name.into() },
        )
    }
}
fn one_create(rep: &Report, b: &Base, num: u32, c: &[u8; 5], name: &str, v1: bool, gift: u64) {
    rep.case();
    let fx = &b.fx;
    let owner = fx.owners[0];
    let k = fx.w.account_key(&owner, num);
    let mut c = *c;
    if v1 {
        c[4] = 0;
    }
    let mut pre = b.s.clone();
    if gift > 0 && num != 0 {
        pre.set(k, Acct::new(gift, system_program::ID, vec![]));
    }
    let mut post = pre.clone();
    let key = || format!("create {num} {c:?} {name:?}{}", if v1 { " v1" } else { "" });
    let r = quiet_catch(|| {
        let r = post.tx(&[create(fx, owner, num, &c, name, v1)]);
        (r, post)
    });
    let (r, mut post) = match r {
        Ok(x) => x,
        Err(e) => return rep.violation(&key(), &format!("crashed: {e}")),
    };
    let ok = health_accounts(&c) <= 28 && c[3] <= 64 && c[4] <= 64 && name.len() <= 32 && space(&c) <= 10240 && num != 0;
    if ok != r.is_ok() {
        return rep.violation(&key(), &if ok { format!("refused: {r:?}") } else { "accepted".into() });
    }
    if !ok {
        return;
    }
    let d = post.data(&k).to_vec();
    let mut f = MangoAccountFixed::zeroed();
    f.group = fx.w.group;
    f.owner = owner;
    f.name[..name.len()].copy_from_slice(name.as_bytes());
    f.account_num = num;
    f.bump = Pubkey::find_program_address(&[b"MangoAccount", fx.w.group.as_ref(), owner.as_ref(), &num.to_le_bytes()], &mango_v4::ID).1;
    let mut head = b.head[..8].to_vec();
    head.extend(bytemuck::bytes_of(&f));
    head.extend([1u8, 0, 0, 0, 0, 0, 0, 0]);
    let want: Secs = std::array::from_fn(|n| vec![empty(n); c[n] as usize]);
    if d != bytes(&head, &want) {
        return rep.violation(&key(), "a new account is not empty or not what was asked for");
    }
    let need = rent(d.len()).max(gift);
    if lam(&post, &k) != need || lam(&pre, &fx.w.payer) - lam(&post, &fx.w.payer) != need - gift {
        rep.violation(&key(), "rent of the new account is wrong");
    }
    // never twice
    if post.tx(&[create(fx, owner, num, &c, name, v1)]).is_ok() || post.tx(&[create(fx, owner, num, &c, name, !v1)]).is_ok() || post.data(&k) != &d[..] {
        rep.violation(&key(), "an account was created over an existing one");
    }
}
pub fn create_enum(rep: &Report) {
    let b = base();
    let grid: Vec<[u8; 5]> = (0..=16u8).flat_map(|t| (0..=30u8).step_by(if rep.thorough { 1 } else { 2 }).flat_map(move |s| (0..=15u8).map(move |p| [t, s, p, 3, 1]))).collect();
    grid.par_iter().for_each(|c| one_create(rep, &b, 1, c, "name", false, 0));
    (0..=255u8).into_par_iter().for_each(|n| {
        for sec in 0..5 {
            for v1 in [false, true] {
                let mut c = [2u8, 1, 1, 2, 1];
                c[sec] = n;
                one_create(rep, &b, 1, &c, "name", v1, 0);
            }
        }
    });
    for name in ["", "x", "a name of exactly thirty two byte", "a name of exactly thirty two bytes", "ééééééééééééééééx", "éééééééééééééééé", "日本語日本語日本語日本語", "\0", "a\0b"] {
        for num in [0u32, 1, 2, 255, 256, 65536, u32::MAX] {
            for v1 in [false, true] {
                for gift in [0, 5, 10_000_000, 100_000_000] {
                    one_create(rep, &b, num, &[2, 2, 2, 2, 2], name, v1, gift);
                }
            }
        }
    }
}
/// Closing: every used slot, flag and group setting.
pub fn close_enum(rep: &Report) {
    let b = base();
    let sh = [4u8, 2, 3, 3, 2];
    let mut masks: Vec<[(u8, u64); 5]> = vec![];
    let bits: u32 = 4 + 2 + 3 + 3 + 2;
    for m in 0u64..1 << bits {
        if !rep.thorough && m.count_ones() > 4 {
            continue;
        }
        let mut x = m;
        masks.push(std::array::from_fn(|n| {
            let v = (sh[n], x & ((1 << sh[n]) - 1));
            x >>= sh[n];
            v
        }));
    }
    masks.par_iter().for_each(|m| {
        for bits in 0..32u8 {
            let mut c = secs(m);
            if bits & 16 != 0 {
                for (n, sec) in c.iter_mut().enumerate() {
                    for (i, x) in sec.iter_mut().enumerate() {
                        *x = if active(n, x) { fresh(n, i) } else { empty(n) };
                    }
                }
            }
            let (liq, frozen, testing, force) = (bits & 1 != 0, bits & 2 != 0, bits & 4 != 0, bits & 8 != 0);
            rep.case();
            let mut pre = put(&b, bytes(&b.head, &c), 4321);
            let k = b.fx.accts[0];
            let now = pre.ts as u64;
            edit_acc(&mut pre, &k, |a| a.fixed.frozen_until = if frozen { now } else { now - 1 });
            pre.edit(&k, |d| d[OFF_BEING_LIQ] = liq as u8);
            pre.edit_zc::<Group>(&b.fx.w.group, |g| g.testing = testing as u8);
            let mut i = b.fx.w.account_close(k, b.fx.owners[0], force);
            let dest = pk("rent destination");
            i.accounts[3].pubkey = dest;
            let mut post = pre.clone();
            let r = post.tx(&[i]);
            let used = (0..3).any(|n| m[n].1 != 0);
            let ok = !frozen && if force { testing } else { !liq && !used };
            let key = || format!("close {m:?} in liquidation {liq} frozen {frozen} testing {testing} force {force}");
            if r.is_ok() != ok {
                rep.violation(&key(), &if ok { format!("refused: {r:?}") } else { "accepted".into() });
            } else if ok {
                if post.has(&k) {
                    rep.violation(&key(), "the account still exists");
                }
                if lam(&post, &dest) != lam(&pre, &k) {
                    rep.violation(&key(), "rent did not reach the destination");
                }
                // the number can be used again, starting from an empty account
                let r = post.tx(&[create(&b.fx, b.fx.owners[0], 0, &[2, 1, 1, 1, 1], "again", false)]);
                if r.is_err() || post.data(&k).len() != space(&[2, 1, 1, 1, 1]) || acc(&post, &k).active_tokens().count() != 0 || acc(&post, &k).fixed.sequence_number != 0 {
                    rep.violation(&key(), &format!("account cannot be created anew: {r:?}"));
                }
            }
        }
    });
}
/// Edits change exactly what they name.
pub fn edit_enum(rep: &Report) {
    let b = base();
    let k = b.fx.accts[0];
    let week = 7 * 24 * 3600u64;
    let d1 = pk("new delegate");
    let now = b.s.ts as u64;
    for name in [None, Some(""), Some("x"), Some("a name of exactly thirty two byte"), Some("exactly thirty two bytes, truly!"), Some("a name that is far longer than thirty two bytes")] {
        for del in [None, Some(d1), Some(Pubkey::default())] {
            for tmp in [None, Some(pk("new temporary")), Some(Pubkey::default())] {
                for exp in [None, Some(0), Some(now - 1), Some(now), Some(now + week - 1), Some(now + week), Some(now + week + 1), Some(u64::MAX)] {
                    rep.case();
                    let mut post = b.s.clone();
                    let r = post.tx(&[ix(
                        mango_v4::accounts::AccountEdit { group: b.fx.w.group, account: k, owner: b.fx.owners[0] },
                        mango_v4::instruction::AccountEdit { name_opt: name.map(|x| x.to_string()), delegate_opt: del, temporary_delegate_opt: tmp, temporary_delegate_expiry_opt: exp },
                    )]);
                    let ok = (name.is_some() || del.is_some()) && name.map_or(true, |n| n.len() <= 32) && tmp.is_some() == exp.is_some() && exp.map_or(true, |e| e < now + week);
                    let key = format!("edit {name:?} {del:?} {tmp:?} {exp:?}");
                    let only_tmp = name.is_none() && del.is_none();
                    if !ok {
                        // an edit of nothing but the temporary delegate is refused today; either is fine
                        if r.is_ok() && !(only_tmp && tmp.is_some() && exp.map_or(false, |e| e < now + week)) {
                            rep.violation(&key, "accepted");
                        }
                        if r.is_err() {
                            continue;
                        }
                    } else if r.is_err() {
                        rep.violation(&key, &format!("refused: {r:?}"));
                        continue;
                    }
                    let mut want = b.s.clone();
                    edit_acc(&mut want, &k, |a| {
                        if let Some(n) = name {
                            a.fixed.name = [0; 32];
                            a.fixed.name[..n.len().min(32)].copy_from_slice(&n.as_bytes()[..n.len().min(32)]);
                        }
                        if let Some(d) = del {
                            a.fixed.delegate = d;
                        }
                        if let (Some(t), Some(e)) = (tmp, exp) {
                            a.fixed.temporary_delegate = t;
                            a.fixed.temporary_delegate_expiry = e;
                        }
                    });
                    if want.hash() != post.hash() {
                        rep.violation(&key, "something else than the named fields changed");
                    }
                }
            }
        }
    }
}
/// The sequence check passes exactly for the current number, and counts.
pub fn sequence_enum(rep: &Report) {
    let b = base();
    let k = b.fx.accts[0];
    let seq = |n: u8| ix(mango_v4::accounts::SequenceCheck { group: b.fx.w.group, account: k, owner: b.fx.owners[0] }, mango_v4::instruction::SequenceCheck { expected_sequence_number: n });
    (0..=255u8).into_par_iter().for_each(|cur| {
        let mut s = b.s.clone();
        edit_acc(&mut s, &k, |a| a.fixed.sequence_number = cur);
        let next = cur.wrapping_add(1);
        for n in 0..=255u8 {
            rep.case();
            let mut post = s.clone();
            let r = post.tx(&[seq(n)]);
            let mut want = s.clone();
            if n == cur {
                edit_acc(&mut want, &k, |a| a.fixed.sequence_number = next);
            }
            let key = format!("sequence {cur} expecting {n}");
            if r.is_ok() != (n == cur) {
                rep.violation(&key, if n == cur { "refused" } else { "accepted" });
            } else if r.is_ok() && post.hash() != want.hash() {
                rep.violation(&key, "the sequence check did not just count");
            }
            // the same transaction again, and two checks in one transaction
            if n == cur && post.tx(&[seq(n)]).is_ok() {
                rep.violation(&key, "a transaction can be repeated");
            }
            rep.case();
            let mut post = s.clone();
            let r = post.tx(&[seq(cur), seq(n)]);
            if r.is_ok() != (n == next) {
                rep.violation(&format!("sequence {cur}, then expecting {n}"), if n == next { "refused" } else { "accepted" });
            }
        }
        // a failing check takes the rest of the transaction with it
        for n in [cur, next, cur.wrapping_sub(1)] {
            for first in [false, true] {
                rep.case();
                let mut post = s.clone();
                let dep = b.fx.w.deposit(&s, k, b.fx.owners[0], 1, 1000, false);
                let r = if first { post.tx(&[seq(n), dep]) } else { post.tx(&[dep, seq(n)]) };
                if r.is_ok() != (n == cur) || (acc(&post, &k).active_tokens().count() == 1) != (n == cur) {
                    rep.violation(&format!("deposit guarded by sequence {n} at {cur}"), &format!("{r:?}"));
                }
            }
        }
    });
}
