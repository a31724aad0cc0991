//! Account substitution: every account of a valid transaction replaced by every other account, and
//! every mixture of two valid transactions.
use crate::explore::Report;
use crate::p_access::*;
use crate::refm::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use rayon::prelude::*;
use solana_program::instruction::Instruction;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

pub fn labels(mx: &Mx, s: &State) -> BTreeMap<Pubkey, String> {
    let mut m = BTreeMap::new();
    for (g, fx) in mx.fx.iter().enumerate() {
        let w = &fx.w;
        let g = ["", "other ", "second "][g];
        let mut put = |k: Pubkey, n: String| {
            m.entry(k).or_insert(format!("{g}{n}"));
        };
        put(w.group, "group".into());
        put(w.insurance_vault, "insurance vault".into());
        put(w.admin, "admin".into());
        put(w.payer, "payer".into());
        for x in ["security", "fast", "alt"] {
            put(admin_key(w, x), x.into());
        }
        for (i, t) in w.toks.iter().enumerate() {
            put(t.mint, format!("mint {i}"));
            put(t.bank, format!("bank {i}"));
            put(t.vault, format!("vault {i}"));
            put(t.mint_info, format!("mint info {i}"));
            put(t.oracle, format!("oracle {i}"));
            put(pk(&format!("{} admin token {i}", w.name)), format!("admin token {i}"));
        }
        for (i, p) in w.perps.iter().enumerate() {
            put(p.market, format!("perp {i}"));
            put(p.oracle, format!("perp oracle {i}"));
            put(p.bids, format!("perp bids {i}"));
            put(p.asks, format!("perp asks {i}"));
            put(p.event_queue, format!("perp events {i}"));
        }
        for (i, p) in w.serums.iter().enumerate() {
            put(p.market, format!("spot {i}"));
            put(w.pda(b"Serum3Index", &[&p.index.to_le_bytes()]), format!("spot index {i}"));
            put(p.ext, format!("dex market {i}"));
            put(p.bids, format!("dex bids {i}"));
            put(p.asks, format!("dex asks {i}"));
            put(p.event_q, format!("dex events {i}"));
            put(p.req_q, format!("dex requests {i}"));
            put(p.coin_vault, format!("dex base vault {i}"));
            put(p.pc_vault, format!("dex quote vault {i}"));
            put(p.signer, format!("dex signer {i}"));
            put(pk(&format!("{} ext copy {i}", w.name)), format!("dex copy {i}"));
        }
        for (i, a) in fx.accts.iter().enumerate() {
            put(*a, format!("account {i}"));
            for n in 0..2 {
                put(w.oo_key(a, n), format!("open orders {i}.{n}"));
            }
        }
        for (i, o) in fx.owners.iter().enumerate() {
            put(*o, format!("owner {i}"));
            for (t, x) in w.toks.iter().enumerate() {
                put(ata(o, &x.mint), format!("wallet {i}.{t}"));
            }
        }
        put(pk(&format!("{} fresh mint", w.name)), "fresh mint".into());
        put(pk(&format!("{} new oracle", w.name)), "new oracle".into());
        for t in ["nbids", "nasks", "neq"] {
            put(pk(&format!("{} {t}", w.name)), t.into());
        }
    }
    for (k, n) in [
        (mango_v4::ID, "mango"), (spl_token::ID, "token program"), (solana_program::system_program::ID, "system program"), (dex_program(), "dex"), (ata_program(), "ata program"), (solana_program::sysvar::rent::ID, "rent"),
        (solana_program::sysvar::instructions::ID, "instructions"), (alt_program(), "alt program"), (stranger(), "stranger"), (Pubkey::default(), "system program"),
    ] {
        m.entry(k).or_insert(n.into());
    }
    for k in s.accts.keys() {
        let n = m.len();
        m.entry(*k).or_insert(format!("unnamed {n}"));
    }
    m
}
fn stranger() -> Pubkey {
    pk("stranger")
}
fn foreign(k: &Pubkey) -> Pubkey {
    pk(&format!("foreign copy of {k}"))
}
fn twin(k: &Pubkey) -> Pubkey {
    pk(&format!("twin of {k}"))
}
/// copies of the accounts a transaction uses, that anybody could have made
fn add_copies(s: &mut State, lab: &mut BTreeMap<Pubkey, String>, t: &[Instruction]) {
    let ks: BTreeSet<Pubkey> = t.iter().flat_map(|i| &i.accounts).map(|m| m.pubkey).collect();
    for k in ks {
        let Some(a) = s.accts.get(&k).cloned() else { continue };
        if a.data.is_empty() || a.executable {
            continue;
        }
        s.set(foreign(&k), Acct::new(a.lamports, proxy_program(), a.data.clone()));
        lab.insert(foreign(&k), format!("foreign copy of {}", lab[&k]));
        if a.owner == spl_token::ID {
            s.set(twin(&k), Acct::new(a.lamports, a.owner, a.data.clone()));
            lab.insert(twin(&k), format!("twin of {}", lab[&k]));
        }
    }
}
type Accepted = BTreeMap<(String, usize, String), BTreeSet<String>>;
fn singles(rep: &Report, mx: &Mx, cats: &[Cat]) -> Accepted {
    let out: Mutex<Accepted> = Mutex::new(BTreeMap::new());
    cats.par_iter().for_each(|c| {
        // as many of the other transactions as possible are prepared too
        let mut vs = vec![0];
        for v in 1..VARIANTS.len() {
            let w: Vec<usize> = vs.iter().cloned().chain([v]).collect();
            if quiet_catch(|| mx.prepare(c, &w)).map_or(false, |(s, t)| run(&s, &t[0]).0.is_ok()) {
                vs = w;
            }
        }
        let (mut s, t) = match quiet_catch(|| mx.prepare(c, &vs)) {
            Ok(x) => x,
            Err(e) => {
                rep.violation(&format!("cannot prepare {}", c.name), &e);
                return;
            }
        };
        let mut lab = labels(mx, &s);
        add_copies(&mut s, &mut lab, &t[0]);
        let t = &t[0];
        rep.case();
        let r = run(&s, t).0;
        if r.is_err() {
            rep.violation(&format!("refused: {}", c.name), &format!("{r:?}"));
            return;
        }
        let mut keys: Vec<Pubkey> = s.accts.keys().cloned().collect();
        keys.extend([stranger(), Pubkey::default()]);
        for pos in 0..t[c.main].accounts.len() {
            let orig = t[c.main].accounts[pos].clone();
            keys.par_iter().for_each(|k| {
                if *k == orig.pubkey {
                    return;
                }
                if orig.is_signer && s.accts.get(k).map_or(false, |a| a.owner != solana_program::system_program::ID) {
                    return;
                }
                let mut t = t.clone();
                t[c.main].accounts[pos].pubkey = *k;
                rep.case();
                if run(&s, &t).0.is_ok() {
                    out.lock().unwrap().entry((c.name.to_string(), pos, lab.get(&orig.pubkey).cloned().unwrap_or_default())).or_default().insert(format!("{}", lab.get(k).cloned().unwrap_or("?".into())));
                }
            });
        }
    });
    out.into_inner().unwrap()
}
/// all subsets, or the small and the nearly complete ones
fn subsets(n: usize, all: usize, few: usize) -> Vec<u64> {
    if n <= all {
        return (1..1u64 << n).collect();
    }
    let full = (1u64 << n) - 1;
    let mut v = vec![0u64];
    let mut last = v.clone();
    for _ in 0..few {
        let mut next = vec![];
        for m in &last {
            for i in 0..n {
                if m >> i == 0 {
                    next.push(m | 1 << i);
                }
            }
        }
        v.extend(&next);
        last = next;
    }
    let mut r: BTreeSet<u64> = v.iter().cloned().collect();
    r.extend(v.iter().map(|m| full ^ m));
    r.remove(&0);
    r.into_iter().collect()
}
/// positions where two transactions differ, and the accepted minimal mixtures
pub fn mixes(rep: &Report, mx: &Mx, cats: &[Cat]) -> BTreeMap<(String, &'static str), BTreeSet<Vec<usize>>> {
    let out = Mutex::new(BTreeMap::new());
    let work: Vec<(&Cat, usize)> = cats.iter().flat_map(|c| (1..VARIANTS.len()).map(move |v| (c, v))).collect();
    work.par_iter().for_each(|(c, v)| {
        let Ok((s, t)) = quiet_catch(|| mx.prepare(c, &[0, *v])) else {
            rep.violation(&format!("cannot prepare {}", c.name), "");
            return;
        };
        let (a, b) = (&t[0][c.main].accounts, &t[1][c.main].accounts);
        if a.len() != b.len() {
            return;
        }
        let mut acc: BTreeSet<Vec<usize>> = BTreeSet::new();
        let diff: Vec<usize> = (0..a.len()).filter(|&i| a[i].pubkey != b[i].pubkey).collect();
        let n = diff.len();
        let sets = subsets(n, if rep.thorough { 17 } else { 13 }, if rep.thorough { 4 } else { 2 });
        // instruction data of either; or accounts mixed in the whole transaction
        let many = t[0].len() > 1;
        let multi = t[0].len() == t[1].len() && many;
        for mode in 0..3 {
            if (mode == 1 && t[0][c.main].data == t[1][c.main].data) || (mode == 2 && !multi) {
                continue;
            }
            let ok: Vec<u64> = sets
                .par_iter()
                .cloned()
                .filter(|m| {
                    let mut t0 = t[0].clone();
                    if mode == 1 {
                        t0[c.main].data = t[1][c.main].data.clone();
                    }
                    for (i, &d) in diff.iter().enumerate() {
                        if m >> i & 1 == 1 {
                            t0[c.main].accounts[d] = b[d].clone();
                            if mode == 2 {
                                for (x, o) in t0.iter_mut().enumerate().filter(|x| x.0 != c.main) {
                                    for (y, q) in o.accounts.iter_mut().enumerate() {
                                        if q.pubkey == a[d].pubkey && t[1][x].accounts.get(y).map_or(false, |z| z.pubkey == b[d].pubkey) {
                                            *q = t[1][x].accounts[y].clone();
                                        }
                                    }
                                }
                            }
                        }
                    }
                    rep.case();
                    run(&s, &t0).0.is_ok()
                })
                .collect();
            for m in ok {
                acc.insert((0..n).filter(|i| m >> i & 1 == 1).map(|i| diff[i]).chain(match mode { 0 => vec![], m => vec![1000 * m] }).collect());
            }
        }
        out.lock().unwrap().insert((c.name.to_string(), VARIANTS[*v].0), acc);
    });
    out.into_inner().unwrap()
}
/// "S instruction|position|account: accepted" and "M instruction|variant: positions, positions"
fn found(rep: &Report, mx: &Mx, cats: &[Cat]) -> BTreeMap<String, BTreeSet<String>> {
    let mut m: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for ((n, pos, l), v) in singles(rep, mx, cats) {
        m.insert(format!("S {n}|{pos}|{l}"), v);
    }
    for ((n, v), sets) in mixes(rep, mx, cats) {
        m.insert(format!("M {n}|{v}"), sets.iter().map(|x| x.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(" ")).collect());
    }
    m
}
pub fn subst_enum(rep: &Report) {
    let mx = Mx::new();
    let cats = catalogue();
    let mut allowed: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for l in include_str!("subst_allowed.txt").lines() {
        let (k, v) = l.split_once(": ").unwrap_or((l, ""));
        allowed.insert(k, v.split(", ").collect());
    }
    let empty = BTreeSet::new();
    for (k, v) in found(rep, &mx, &cats) {
        let a = allowed.get(k.as_str()).unwrap_or(&empty);
        if a.contains("*") {
            continue;
        }
        let more: Vec<&String> = v.iter().filter(|x| !a.contains(x.as_str())).collect();
        if !more.is_empty() {
            let w: Vec<&str> = k[2..].split('|').collect();
            let key = if k.starts_with('S') { format!("{}: account {} [{}] can be replaced", w[0], w[1], w[2]) } else { format!("{}: accounts for another {} are accepted", w[0], w[1]) };
            rep.violation(&key, &format!("{more:?}"));
        }
    }
}
pub fn dump_subst() {
    let rep = Report::new("C23", "quick");
    let mx = Mx::new();
    let only = std::env::var("ONLY").unwrap_or_default();
    let cats: Vec<Cat> = catalogue().into_iter().filter(|c| c.name.starts_with(&only)).collect();
    for (k, v) in found(&rep, &mx, &cats) {
        if v.len() > 40 && k.starts_with('S') {
            println!("{k}: *");
        } else if !v.is_empty() {
            println!("{k}: {}", v.into_iter().collect::<Vec<_>>().join(", "));
        }
    }
    rep.finish(&[]);
}
