//! C35: the margin-trade example program, alone and between the two halves of a flash loan.
use crate::explore::Report;
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::accounts_ix::FlashLoanType;
use rayon::prelude::*;
use solana_program::instruction::Instruction;

fn pda_(bump: u8) -> Option<Pubkey> {
    Pubkey::create_program_address(&[b"MarginTrade", &[bump]], &margin_trade::ID).ok()
}
fn bumps() -> Vec<u8> {
    (0..=255).filter(|b| pda_(*b).is_some()).collect()
}
fn trade_ix(from_owner: Pubkey, from: Pubkey, to: Pubkey, to_owner: Pubkey, out: u64, bump: u8, back: u64) -> Instruction {
    let mut i = ix(
        margin_trade::accounts::MarginTradeCtx { withdraw_account_owner: from_owner, withdraw_account: from, deposit_account: to, deposit_account_owner: to_owner, token_program: spl_token::ID },
        margin_trade::instruction::MarginTrade { amount_from: out, deposit_account_owner_bump_seeds: bump, amount_to: back },
    );
    i.program_id = margin_trade::ID;
    i.accounts[0].is_signer = true;
    i
}
/// balances of every token account and the rest of the state
fn same_but(a: &State, b: &State, skip: &[Pubkey]) -> bool {
    a.accts.len() == b.accts.len() && a.accts.iter().all(|(k, x)| skip.contains(k) || b.accts.get(k).map_or(false, |y| x.data == y.data && x.lamports == y.lamports && x.owner == y.owner))
}

pub fn margin_enum(rep: &Report) {
    let mut s = State::new();
    let toks = [TokCfg { loan_orig_fee: 0.0, ..TokCfg::quote() }, TokCfg { price: 2.0, loan_orig_fee: 0.0, ..TokCfg::default() }];
    let mut fx = fix("mtr", &mut s, &toks, &[]);
    fx.user(&mut s, "usr", 100_000);
    fx.user(&mut s, "oth", 100_000);
    for (a, t, n) in [(0, 0, 5_000), (0, 1, 1_000), (1, 0, 50_000), (1, 1, 50_000)] {
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let w = &fx.w;
    let bs = bumps();
    let good = pda_(bs[bs.len() - 1]).unwrap();
    let other = pda_(bs[0]).unwrap();
    let (usr, oth) = (fx.owners[0], fx.owners[1]);
    let m = [w.toks[0].mint, w.toks[1].mint];
    let acct = |o: &Pubkey, t: usize| if o == &usr || o == &oth { ata(o, &m[t]) } else { pk(&format!("mt {o} {t}")) };
    for o in [good, other] {
        for t in 0..2 {
            put_token(&mut s, acct(&o, t), m[t], o, 300);
        }
    }
    for t in 0..2 {
        put_token(&mut s, acct(&usr, t), m[t], usr, 1_000);
    }
    s.set(good, Acct::new(1_000_000, solana_program::system_program::ID, vec![]));
    s.set(other, Acct::new(1_000_000, solana_program::system_program::ID, vec![]));
    let amounts = [0u64, 1, 2, 299, 300, 301, 699, 700, 999, 1_000, 1_001, 1_299, 1_300, 1_301, u64::MAX - 999, u64::MAX];

    // alone: whose accounts, which bump, who signed, which amounts
    let mut work = vec![];
    for ft in 0..2 {
        for tt in 0..2 {
            for to in [good, other, usr, oth] {
                for from in [usr, oth, good] {
                    for signed in [true, false] {
                        for named in [None, Some(usr), Some(good)] {
                            work.push((ft, tt, to, from, signed, named));
                        }
                    }
                }
            }
        }
    }
    let mut empty = s.clone();
    for o in [good, other] {
        for t in 0..2 {
            put_token(&mut empty, acct(&o, t), m[t], o, 0);
        }
    }
    let work: Vec<_> = work.into_iter().flat_map(|x| [(&s, x), (&empty, x)]).collect();
    work.par_iter().for_each(|(s, (ft, tt, to, from, signed, named))| {
        let (fa, ta) = (acct(from, *ft), acct(to, *tt));
        // the owner that is named for the receiving account; normally the real one
        let to_owner = named.unwrap_or(*to);
        for out in amounts {
            for back in amounts {
                for bump in [bs[bs.len() - 1], bs[0], bs[1], 0, 255] {
                    rep.case();
                    let mut i = trade_ix(*from, fa, ta, to_owner, out, bump, back);
                    i.accounts[0].is_signer = *signed && from != &good;
                    let mut post = (*s).clone();
                    let r = post.tx(&[i]);
                    let (f0, t0) = (s.token_amount(&fa), s.token_amount(&ta));
                    // every leg is a token transfer of its own, even of nothing back
                    let mint_ok = ft == tt;
                    let lead = pda_(bump);
                    // sending to oneself moves nothing but needs the balance
                    let own = fa == ta;
                    let leg1 = out == 0 || (*signed && from != &good && mint_ok && out <= f0);
                    let mid = if own { t0 } else { t0.saturating_add(if out <= f0 { out } else { 0 }) };
                    // only the derived authority is signed for, unless the account's owner signed the transaction
                    let auth = to_owner == *to && (lead == Some(to_owner) || (to_owner == *from && *signed && from != &good));
                    let leg2 = lead.is_some() && auth && mint_ok && back <= mid;
                    let ok = leg1 && leg2;
                    let key = || format!("receiver has {t0}: token {ft}->{tt} from {} to {} named {named:?} signed {signed} out {out} bump {bump} back {back}", name(from, &[usr, oth, good, other]), name(to, &[usr, oth, good, other]));
                    if r.is_ok() != ok {
                        rep.violation(&key(), &if ok { format!("refused {r:?}") } else { "accepted".into() });
                    } else if ok {
                        let (f1, t1) = (post.token_amount(&fa), post.token_amount(&ta));
                        let want = if own { (f0, t0) } else { (f0 - out + back, t0 + out - back) };
                        if (f1, t1) != want || !same_but(&s, &post, &[fa, ta]) {
                            rep.violation(&key(), &format!("balances {f1} {t1}, expected {want:?}"));
                        }
                    } else if !same_but(&s, &post, &[]) {
                        rep.violation(&key(), "a refused trade changed something");
                    }
                }
            }
        }
    });

    // between the halves of a flash loan: the position moves by what came back
    let bump = bs[bs.len() - 1];
    let grid: Vec<(usize, u64, u64, u64)> = (0..2usize).flat_map(|t| [0u64, 1, 500, 1_000, 3_000].into_iter().flat_map(move |l| [0u64, 1, 499, 500, 501, 1_500, 3_000, 4_000].into_iter().flat_map(move |o| [0u64, 1, 200, 500, 800, 3_300].into_iter().map(move |b| (t, l, o, b))))).collect();
    grid.par_iter().for_each(|(t, loan, out, back)| {
        rep.case();
        let (fa, ta) = (acct(&usr, *t), acct(&good, *t));
        let l = [(*t, *loan, fa)];
        let k = fx.accts[0];
        let ixs = [w.flash_begin(k, usr, &l), trade_ix(usr, fa, ta, good, *out, bump, *back), w.flash_end(&s, k, usr, &l, FlashLoanType::Unknown)];
        let mut post = s.clone();
        let r = post.tx(&ixs);
        let key = || format!("flash loan of {loan} t{t}, trade {out} for {back}");
        let f0 = s.token_amount(&fa);
        let have = f0 + loan;
        let moves = *out <= have && *back <= 300 + out;
        // whatever is in the account beyond the balance before the loan is paid back
        let left = if moves { have - out + back } else { 0 };
        let paid = left.saturating_sub(f0);
        let (p0, p1) = (native(w, &s, &fx.acc(&s, 0), *t), native(w, &post, &fx.acc(&post, 0), *t));
        let pos = p0 - *loan as f64 + paid as f64;
        if !moves {
            if r.is_ok() {
                rep.violation(&key(), "accepted although a transfer was impossible");
            }
            return;
        }
        // staying clear of new borrows, whose limits are checked elsewhere
        if pos < 0.0 {
            return;
        }
        if let Err(e) = r {
            rep.violation(&key(), &format!("refused {e:?}"));
            return;
        }
        if (p1 - pos).abs() > 1e-6 || post.token_amount(&fa) != left - paid || post.token_amount(&ta) != 300 + out - back {
            rep.violation(&key(), &format!("position {p1} expected {pos}, balances {} {}", post.token_amount(&fa), post.token_amount(&ta)));
        }
        let v = w.toks[*t].vault;
        if post.token_amount(&v) as i128 - s.token_amount(&v) as i128 != paid as i128 - *loan as i128 {
            rep.violation(&key(), "vault");
        }
    });
}
fn name(k: &Pubkey, all: &[Pubkey; 4]) -> &'static str {
    ["user", "other user", "derived authority", "another derived authority"][all.iter().position(|x| x == k).unwrap()]
}
