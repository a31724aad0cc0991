//! Flash loans.
use crate::refm::*;
use crate::scen::*;
use crate::scens::*;
use crate::spec::*;
use crate::svm::*;
use crate::world::*;
use anchor_lang::prelude::Pubkey;
use mango_v4::accounts_ix::*;
use mango_v4::state::*;
use solana_program::instruction::Instruction;

pub fn flash_spec(cx: &Cx) -> Result<(), String> {
    if let K::Flash { a, loans, ty, skip } = &cx.op.k {
        flash(cx, *a, loans, *ty, skip)?;
    }
    idle_banks(cx)
}
/// outside of a transaction no loan is ever open
fn idle_banks(cx: &Cx) -> Result<(), String> {
    for t in &cx.fx.w.toks {
        let b: Bank = cx.post.zc(&t.bank);
        ensure(b.flash_loan_approved_amount == 0 && b.flash_loan_token_account_initial == u64::MAX, || format!("flash loan state left open after the transaction | token {}", t.index))?;
    }
    Ok(())
}

fn flash(cx: &Cx, a: usize, loans: &[(usize, u64, i64)], ty: u8, skip: &[usize]) -> Result<(), String> {
    let (fx, w, s) = (cx.fx, &cx.fx.w, cx.pre);
    let acc = fx.acc(s, a);
    let mut p = Pred::new();
    let skip: Vec<TokenIndex> = skip.iter().map(|t| w.toks[*t].index).collect();
    p.must(acc.operational(s), "account is frozen");
    p.must(ty == 0 || loans.len() == 2, "a swap has exactly two tokens");
    let free = acc.tokens.iter().filter(|t| t.token_index == TokenIndex::MAX).count();
    let need = loans.iter().filter(|l| acc.tok(w.toks[l.0].index).is_none()).count();
    p.must(need <= free, "no free token slot");
    let mut led = Led::new(fx, s);
    let rate = loans.iter().map(|l| w.bank(s, l.0).flash_loan_swap_fee_rate as f64).fold(0.0, f64::max);
    for x in &skip {
        p.must(acc.tok(*x).map(|t| t.indexed_position >= 0).unwrap_or(true), "bank of a borrowed token left out");
    }
    if acc.being_liquidated {
        p.ge(ref_health(w, s, &without(&acc, &skip), Ht::LiqEnd), -1.0, 1e-3, "account is being liquidated");
    }
    let mut wallets = vec![];
    let mut checks: Vec<(usize, f64, f64)> = vec![];
    for &(tok, amt, delta) in loans {
        let b = w.bank(s, tok);
        let n0 = native(w, s, &acc, tok);
        let v = vault(fx, s, tok);
        p.must(v >= amt as i128, "vault does not hold the loan");
        let have = wallet(fx, s, a, tok) + amt as i128;
        p.must(have + delta as i128 >= 0, "wallet cannot pay");
        let repay = (amt as i128 + delta as i128).max(0);
        let change = repay - amt as i128;
        led.vault(tok, change);
        wallets.push((tok, delta as i128 - change));
        let loan = if n0 > 0.0 { (amt as f64 - n0).max(0.0) } else { amt as f64 };
        let fee = loan * f(b.loan_origination_fee_rate);
        let sfee = if change < 0 && ty == 1 { -change as f64 * rate } else { 0.0 };
        let c = change as f64 - fee - sfee;
        led.fee(tok, fee + sfee);
        let after = n0 + c;
        if b.reduce_only == 1 {
            if (after - 1.0).abs() < 1e-6 { p.fuzz(); }
            p.must(after < 1.0 || after <= n0 + 1e-9, "deposits are reduce-only");
        }
        if b.reduce_only == 1 || b.reduce_only == 2 {
            if after.abs() < 1e-6 { p.fuzz(); }
            p.must(after >= n0 - 1e-9 || after >= 0.0, "borrows are reduce-only");
        }
        if c >= 0.0 {
            led.deposit(a, tok, c, false);
        } else {
            led.withdraw(a, tok, -c, false, false);
        }
        checks.push((tok, c, after));
    }
    if p.refuse.is_none() {
        let hs = led.hyp();
        for (tok, c, after) in checks {
            let hb = w.bank(&hs, tok);
            if c < 0.0 && after < 0.0 {
                gate_borrow(&mut p, &hb, led.nb_of(tok), price(fx, s, tok));
            } else {
                gate_no_borrow(&mut p, &hb);
            }
            if c > 0.0 && after > 0.0 {
                gate_deposit_limit(&mut p, &hb);
            }
            if c.abs() < 1e-6 || after.abs() < 1e-6 {
                p.fuzz();
            }
        }
        for x in &skip {
            p.must(fx.acc(&hs, a).tok(*x).map(|t| t.indexed_position >= 0).unwrap_or(true), "bank of a borrowed token left out");
        }
        let ha = |s: &State| without(&fx.acc(s, a), &skip);
        health_rule(&mut p, ref_health(w, s, &ha(s), Ht::Init), ref_health(w, &hs, &ha(&hs), Ht::Init));
    }
    p.judge(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    let mut keys = led.keys(&[]);
    for &(tok, d) in &wallets {
        let got = wallet(fx, cx.post, a, tok) - wallet(fx, s, a, tok);
        ensure(got == d, || format!("wallet of token {tok} changed by the wrong amount | {got} expected {d}"))?;
        keys.push(ata(&fx.owners[a], &w.toks[tok].mint));
        keys.push(ata(&sink(), &w.toks[tok].mint));
    }
    frame(cx, &keys)?;
    led.check(cx, 1e-4)?;
    rest_same(cx, a, May { liq: true, ..Default::default() })?;
    ensure(!fx.acc(cx.post, a).being_liquidated, || "account stays flagged as being liquidated".into())
}

pub fn sink() -> Pubkey {
    pk("flash sink")
}
fn fty(n: u8) -> FlashLoanType {
    [FlashLoanType::Unknown, FlashLoanType::Swap, FlashLoanType::SwapWithoutFee][n as usize]
}
fn triples(fx: &Fix, a: usize, loans: &[(usize, u64, i64)]) -> Vec<(usize, u64, Pubkey)> {
    loans.iter().map(|l| (l.0, l.1, ata(&fx.owners[a], &fx.w.toks[l.0].mint))).collect()
}
fn moves(fx: &Fix, a: usize, loans: &[(usize, u64, i64)]) -> Vec<Instruction> {
    loans
        .iter()
        .filter(|l| l.2 != 0)
        .map(|l| {
            let (mine, theirs) = (ata(&fx.owners[a], &fx.w.toks[l.0].mint), ata(&sink(), &fx.w.toks[l.0].mint));
            if l.2 < 0 {
                spl_transfer(mine, theirs, fx.owners[a], (-l.2) as u64)
            } else {
                spl_transfer(theirs, mine, sink(), l.2 as u64)
            }
        })
        .collect()
}
pub fn op_flash(sc: &mut Scen, a: usize, loans: &[(usize, u64, i64)], ty: u8) {
    op_flash_skip(sc, a, loans, ty, &[])
}
pub fn op_flash_skip(sc: &mut Scen, a: usize, loans: &[(usize, u64, i64)], ty: u8, skip: &[usize]) {
    let l = loans.to_vec();
    let sk = skip.to_vec();
    let name = format!("flash a{a} {loans:?} {:?}{}", fty(ty), if skip.is_empty() { String::new() } else { format!(" without {skip:?}") });
    sc.op(name, K::Flash { a, loans: l.clone(), ty, skip: sk.clone() }, move |fx, s| {
        let t = triples(fx, a, &l);
        let mut ixs = vec![fx.w.flash_begin(fx.accts[a], fx.owners[a], &t)];
        ixs.extend(moves(fx, a, &l));
        let mut e = fx.w.flash_end(s, fx.accts[a], fx.owners[a], &t, fty(ty));
        for x in &sk {
            let (b, o) = (fx.w.toks[*x].bank, fx.w.toks[*x].oracle);
            e.accounts.retain(|m| m.pubkey != b && m.pubkey != o);
        }
        ixs.push(e);
        Act::Tx(ixs)
    });
}

/// a0 lender, a1 user, a2 other user
pub fn flash_scen() -> (Scen, State) {
    let mut s = State::new();
    let base = TokCfg { loan_orig_fee: 0.01, fl_swap_fee: 0.002, ..TokCfg::default() };
    let toks = [
        TokCfg { fl_swap_fee: 0.001, loan_orig_fee: 0.005, ..TokCfg::quote() },
        TokCfg { price: 2.0, net_borrow_limit: 60_000, net_borrow_window: 3600, deposit_limit: 1_020_000, ..base.clone() },
        TokCfg { price: 3.0, fl_swap_fee: 0.004, ..base },
    ];
    let mut fx = fix("fls", &mut s, &toks, &[]);
    for n in ["len", "usr", "oth"] {
        fx.user(&mut s, n, 200_000);
    }
    fx.w.user(&mut s, "flash sink", 10_000_000);
    for (a, t, n) in [(0, 0, 200_000), (0, 1, 200_000), (0, 2, 200_000), (2, 0, 100_000), (1, 1, 10_000), (1, 0, 30_000)] {
        if n > wallet(&fx, &s, a, t) as u64 {
            let k = ata(&fx.owners[a], &fx.w.toks[t].mint);
            put_token(&mut s, k, fx.w.toks[t].mint, fx.owners[a], n);
        }
        let i = fx.w.deposit(&s, fx.accts[a], fx.owners[a], t, n, false);
        must(&fx, &mut s, i);
    }
    let mut sc = Scen::new("flash-loans", fx);
    // plain loans, repaid fully, over-repaid, under-repaid
    op_flash(&mut sc, 1, &[(0, 50_000, 0)], 0);
    op_flash(&mut sc, 1, &[(0, 20_000, -25_000)], 0);
    op_flash(&mut sc, 1, &[(2, 0, 0)], 0);
    op_flash(&mut sc, 1, &[(1, 5_000, 4_001)], 0);
    // swaps: sell token 0 for token 1 / 2, with and without borrowing, in both fee modes
    op_flash(&mut sc, 1, &[(0, 10_001, -10_001), (1, 0, 4_900)], 1);
    op_flash(&mut sc, 1, &[(0, 10_001, -10_001), (1, 0, 4_900)], 2);
    op_flash(&mut sc, 1, &[(0, 40_000, -40_000), (2, 0, 13_000)], 1);
    op_flash(&mut sc, 1, &[(2, 5_000, -5_000), (0, 0, 14_500)], 1);
    op_flash(&mut sc, 1, &[(1, 30_300, -30_300), (0, 0, 60_000)], 1);
    op_flash(&mut sc, 1, &[(1, 200_001, 0)], 0);
    op_flash(&mut sc, 1, &[(1, 300, -300)], 1);
    op_flash(&mut sc, 1, &[(0, 5_000, -5_000), (1, 100, 2_300), (2, 0, 10)], 0);
    op_flash(&mut sc, 1, &[(1, 10_000, -10_000)], 0);
    op_flash(&mut sc, 1, &[(1, 0, 25_000)], 0);
    op_flash(&mut sc, 1, &[(1, 9_900, -9_900), (0, 0, 18_000)], 1);
    op_flash_skip(&mut sc, 1, &[(0, 10_000, -10_000)], 0, &[1]);
    op_flash_skip(&mut sc, 1, &[(1, 5_000, -5_000)], 0, &[0]);
    // environment
    let o1 = sc.fx.w.toks[1].oracle;
    for p in [0.5, 3.0] {
        sc.price(o1, p);
    }
    let o2 = sc.fx.w.toks[2].oracle;
    sc.price(o2, 30.0);
    for r in [1u8, 2] {
        sc.env(format!("token 1 reduce-only {r}"), move |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.reduce_only = r));
    }
    sc.env("token 1 deposit limit", |fx, s| s.edit_zc::<Bank>(&fx.w.toks[1].bank, |b| b.deposit_limit = bank_native_deposits(b) as u64 + 3_000));
    sc.env("a1 in liquidation", |fx, s| {
        let acc = fx.acc(s, 1);
        if ref_health(&fx.w, s, &acc, Ht::Maint) < 0.0 {
            s.edit(&fx.accts[1], |d| d[OFF_BEING_LIQ] = 1)
        }
    });
    refusals(&mut sc);
    (sc, s)
}

type L = Vec<(usize, u64, Pubkey)>;
fn loan1(fx: &Fix, a: usize) -> L {
    triples(fx, a, &[(0, 1_000, 0)])
}
fn refusals(sc: &mut Scen) {
    let b = |fx: &Fix, l: &L| fx.w.flash_begin(fx.accts[1], fx.owners[1], l);
    let e = |fx: &Fix, s: &State, l: &L| fx.w.flash_end(s, fx.accts[1], fx.owners[1], l, FlashLoanType::Unknown);
    sc.refuse("loan without an end", move |fx, _| Act::Tx(vec![b(fx, &loan1(fx, 1))]));
    sc.refuse("end without a begin", move |fx, s| Act::Tx(vec![e(fx, s, &loan1(fx, 1))]));
    sc.refuse("end twice", move |fx, s| Act::Tx(vec![b(fx, &loan1(fx, 1)), e(fx, s, &loan1(fx, 1)), e(fx, s, &loan1(fx, 1))]));
    sc.refuse("begin after the end", move |fx, s| Act::Tx(vec![b(fx, &loan1(fx, 1)), e(fx, s, &loan1(fx, 1)), b(fx, &loan1(fx, 1))]));
    sc.refuse("two begins for one end", move |fx, s| {
        let l2 = triples(fx, 1, &[(1, 1_000, 0)]);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), b(fx, &l2), e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("another mango instruction inside the loan", move |fx, s| {
        let d = fx.w.deposit(s, fx.accts[1], fx.owners[1], 0, 1_000, false);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), d, e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("someone else's mango instruction inside the loan", move |fx, s| {
        let d = fx.w.deposit(s, fx.accts[2], fx.owners[2], 0, 1_000, false);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), d, e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("mango called through another program inside the loan", move |fx, s| {
        let d = fx.w.deposit(s, fx.accts[2], fx.owners[2], 0, 1_000, false);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), via(proxy_program(), d), e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("mango called through another program, after an innocent instruction", move |fx, s| {
        let d = fx.w.deposit(s, fx.accts[2], fx.owners[2], 0, 1_000, false);
        let x = spl_transfer(ata(&fx.owners[1], &fx.w.toks[0].mint), ata(&sink(), &fx.w.toks[0].mint), fx.owners[1], 0);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), x, via(proxy_program(), d), e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("begin through another program", move |fx, s| Act::Tx(vec![via(proxy_program(), b(fx, &loan1(fx, 1))), e(fx, s, &loan1(fx, 1))]));
    sc.refuse("end through another program", move |fx, s| Act::Tx(vec![b(fx, &loan1(fx, 1)), via(proxy_program(), e(fx, s, &loan1(fx, 1)))]));
    sc.refuse("wrong number of loans at the end", move |fx, s| {
        let l = triples(fx, 1, &[(0, 1_000, 0), (1, 1_000, 0)]);
        Act::Tx(vec![b(fx, &l), e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("more loans at the end than begun", move |fx, s| {
        let l = triples(fx, 1, &[(1, 0, 0), (0, 1_000, 0)]);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), e(fx, s, &l)])
    });
    sc.refuse("end for another account of another owner", move |fx, s| {
        let x = fx.w.flash_end(s, fx.accts[2], fx.owners[2], &loan1(fx, 1), FlashLoanType::Unknown);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), x])
    });
    sc.refuse("repayment taken from another wallet", move |fx, s| Act::Tx(vec![b(fx, &loan1(fx, 1)), e(fx, s, &loan1(fx, 2))]));
    sc.refuse("vaults swapped at the end", move |fx, s| {
        let l = triples(fx, 1, &[(0, 1_000, 0), (1, 1_000, 0)]);
        let mut r = l.clone();
        r.swap(0, 1);
        Act::Tx(vec![b(fx, &l), e(fx, s, &r)])
    });
    sc.refuse("bank read-only or missing at the end", move |fx, s| {
        let mut x = e(fx, s, &loan1(fx, 1));
        let k = fx.w.toks[0].bank;
        x.accounts.retain(|m| m.pubkey != k && m.pubkey != fx.w.toks[0].oracle);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), x])
    });
    sc.refuse("same token twice", move |fx, s| {
        let l = triples(fx, 1, &[(0, 1_000, 0), (0, 1_000, 0)]);
        Act::Tx(vec![b(fx, &l), e(fx, s, &l)])
    });
    sc.refuse("wallet of another mint", move |fx, s| {
        let l = vec![(0, 1_000, ata(&fx.owners[1], &fx.w.toks[1].mint))];
        Act::Tx(vec![b(fx, &l), e(fx, s, &l)])
    });
    sc.refuse("loan into the vault itself", move |fx, s| {
        let l = vec![(0, 1_000, fx.w.toks[0].vault)];
        Act::Tx(vec![b(fx, &l), e(fx, s, &l)])
    });
    sc.refuse("vault of another bank", move |fx, s| {
        let mut x = b(fx, &loan1(fx, 1));
        let n = x.accounts.len();
        x.accounts[n - 3].pubkey = fx.w.toks[1].vault;
        let mut y = e(fx, s, &loan1(fx, 1));
        let n = y.accounts.len();
        y.accounts[n - 3].pubkey = fx.w.toks[1].vault;
        Act::Tx(vec![x, y])
    });
    sc.refuse("no loans", move |fx, s| Act::Tx(vec![b(fx, &vec![]), e(fx, s, &vec![])]));
    sc.refuse("stranger begins", move |fx, s| {
        let x = fx.w.flash_begin(fx.accts[1], fx.owners[2], &loan1(fx, 1));
        Act::Tx(vec![x, e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("stranger ends", move |fx, s| {
        let y = fx.w.flash_end(s, fx.accts[1], fx.owners[2], &loan1(fx, 2), FlashLoanType::Unknown);
        Act::Tx(vec![b(fx, &loan1(fx, 2)), y])
    });
    sc.refuse("unsigned begin", move |fx, s| {
        let mut x = b(fx, &loan1(fx, 1));
        x.accounts[1].is_signer = false;
        Act::Tx(vec![x, e(fx, s, &loan1(fx, 1))])
    });
    sc.refuse("swap with one token", move |fx, s| {
        let y = fx.w.flash_end(s, fx.accts[1], fx.owners[1], &loan1(fx, 1), FlashLoanType::Swap);
        Act::Tx(vec![b(fx, &loan1(fx, 1)), y])
    });
    sc.refuse("swap with three tokens", move |fx, s| {
        let l = triples(fx, 1, &[(0, 100, 0), (1, 100, 0), (2, 0, 0)]);
        let y = fx.w.flash_end(s, fx.accts[1], fx.owners[1], &l, FlashLoanType::SwapWithoutFee);
        Act::Tx(vec![b(fx, &l), y])
    });
}

/// Delegates: only token-account creation, swap router, compute budget between begin and end.
pub fn flash_delegate_scen() -> (Scen, State) {
    let (sc0, mut s) = flash_scen();
    let fx = sc0.fx.clone();
    let del = fx.owners[2];
    let i = fx.w.account_edit(fx.accts[1], fx.owners[1], Some(del), None, None);
    must(&fx, &mut s, i);
    let mut sc = Scen::new("flash-loans-by-delegate", fx);
    let tx = move |fx: &Fix, s: &State, mid: Vec<Instruction>, tail: Vec<Instruction>| {
        let del = fx.owners[2];
        let l = vec![(0, 5_000, ata(&del, &fx.w.toks[0].mint))];
        let mut v = vec![fx.w.flash_begin(fx.accts[1], del, &l)];
        v.extend(mid);
        v.push(fx.w.flash_end(s, fx.accts[1], del, &l, FlashLoanType::Unknown));
        v.extend(tail);
        Act::Tx(v)
    };
    let x = |fx: &Fix| spl_transfer(ata(&fx.owners[2], &fx.w.toks[0].mint), ata(&sink(), &fx.w.toks[0].mint), fx.owners[2], 100);
    sc.op("delegate repays everything", K::Other("plain"), move |fx, s| tx(fx, s, vec![], vec![]));
    sc.op("delegate swaps through the router", K::Other("router"), move |fx, s| tx(fx, s, vec![via(jupiter(), x(fx))], vec![]));
    sc.op("delegate sets the compute budget", K::Other("plain"), move |fx, s| {
        let cb = Instruction { program_id: compute_budget(), accounts: vec![], data: vec![2, 0, 0, 0, 0] };
        tx(fx, s, vec![cb], vec![])
    });
    sc.op("delegate creates a token account", K::Other("plain"), move |fx, s| {
        let (o, m) = (fx.owners[2], fx.w.toks[0].mint);
        let c = Instruction { program_id: ata_program(), accounts: vec![rw(o), rw(ata(&o, &m)), ro(o), ro(m), ro(solana_program::system_program::ID), ro(spl_token::ID)], data: vec![1] };
        let mut c = c;
        c.accounts[0].is_signer = true;
        tx(fx, s, vec![c], vec![])
    });
    sc.refuse("delegate moves loaned tokens directly", move |fx, s| tx(fx, s, vec![x(fx)], vec![]));
    sc.refuse("delegate moves loaned tokens after a router call", move |fx, s| tx(fx, s, vec![via(jupiter(), x(fx)), x(fx)], vec![]));
    sc.refuse("delegate calls an unknown program", move |fx, s| tx(fx, s, vec![via(proxy_program(), x(fx))], vec![]));
    sc.op("owner takes the delegate away", K::Other("edit"), |fx, _| tx1(fx.w.account_edit(fx.accts[1], fx.owners[1], Some(Pubkey::default()), None, None)));
    sc.op("owner sets the delegate", K::Other("edit"), |fx, _| tx1(fx.w.account_edit(fx.accts[1], fx.owners[1], Some(fx.owners[2]), None, None)));
    (sc, s)
}
pub fn flash_delegate_spec(cx: &Cx) -> Result<(), String> {
    let K::Other(k) = cx.op.k else { return idle_banks(cx) };
    if k == "edit" {
        return Ok(());
    }
    let (fx, s) = (cx.fx, cx.pre);
    let acc = fx.acc(s, 1);
    let del = fx.owners[2];
    let mut p = Pred::new();
    p.must(acc.fixed.delegate == del, "signer is neither owner nor delegate");
    p.judge(cx)?;
    idle_banks(cx)?;
    if !cx.ok() {
        return Ok(());
    }
    let d = vault(fx, cx.post, 0) - vault(fx, s, 0);
    let exp = if k == "router" { -100 } else { 0 };
    ensure(d == exp, || format!("vault changed by {d} expected {exp}"))?;
    // the loan exceeds nothing: a deposit covers it, so no fee
    want("balance", native(&fx.w, cx.post, &fx.acc(cx.post, 1), 0), native(&fx.w, s, &acc, 0) + exp as f64, 1e-6)
}
