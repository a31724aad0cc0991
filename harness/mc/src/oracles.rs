//! Property oracles shared by the scenarios. Each is an independent statement about states or steps.
use crate::refm::*;
use crate::scen::*;
use crate::svm::*;
use crate::world::*;
use mango_v4::state::*;

/// All banks of a token
pub fn banks(w: &World, s: &State, t: &Tok) -> Vec<Bank> {
    let mi: MintInfo = s.zc(&t.mint_info);
    let _ = w;
    mi.banks.iter().filter(|k| **k != Default::default()).map(|k| s.zc::<Bank>(k)).collect()
}
/// every mango account in the state that belongs to the group
pub fn all_accounts(w: &World, s: &State) -> Vec<Acc> {
    use anchor_lang::Discriminator;
    let disc = MangoAccount::DISCRIMINATOR;
    s.accts.values().filter(|a| a.owner == mango_v4::ID && a.data.len() > 408 && a.data[..8] == disc && a.data[8..40] == *w.group.as_ref()).map(|a| parse(&a.data)).collect()
}

/// sum of positions == bank totals, exactly; vault backs deposits - borrows + fees + dust
pub fn solvency_state(w: &World, s: &State) -> Result<(), String> {
    let accs = all_accounts(w, s);
    for t in &w.toks {
        if !s.has(&t.bank) {
            continue;
        }
        let bs = banks(w, s, t);
        let dep: i128 = bs.iter().map(|b| b.indexed_deposits.to_bits()).sum();
        let bor: i128 = bs.iter().map(|b| b.indexed_borrows.to_bits()).sum();
        let (mut sd, mut sb) = (0i128, 0i128);
        for a in &accs {
            for p in a.active_tokens().filter(|p| p.token_index == t.index) {
                let x = p.indexed_position.to_bits();
                if x > 0 {
                    sd += x
                } else {
                    sb -= x
                }
            }
        }
        if dep != sd {
            return Err(format!("token {}: bank deposit total differs from sum of positions | bank {dep} positions {sd}", t.index));
        }
        if bor != sb {
            return Err(format!("token {}: bank borrow total differs from sum of positions | bank {bor} positions {sb}", t.index));
        }
        let mut vault = 0.0;
        let mut owed = 0.0;
        for b in &bs {
            vault += s.token_amount(&b.vault) as f64;
            owed += bank_native_deposits(b) - bank_native_borrows(b) + f(b.collected_fees_native) - b.fees_withdrawn as f64 + f(b.dust);
        }
        for p in &w.perps {
            if s.has(&p.market) {
                let m: PerpMarket = s.zc(&p.market);
                if m.settle_token_index == t.index {
                    // perp fees moved into the vault, until the admin takes them out
                    owed += f(m.fees_settled) - m.fees_withdrawn as f64;
                }
            }
        }
        if (vault - owed).abs() > 1e-3 {
            return Err(format!(
                "token {}: vault does not equal deposits - borrows + uncollected fees + dust | vault {vault} owed {owed}",
                t.index
            ));
        }
    }
    Ok(())
}
pub fn solvency(cx: &Cx) -> Result<(), String> {
    if cx.ok() {
        solvency_state(&cx.fx.w, cx.post)?;
    }
    Ok(())
}

/// Post-condition of every user action that must leave the account collateralized.
pub fn health_gate(cx: &Cx) -> Result<(), String> {
    let a = match cx.op.k {
        K::Withdraw { a, .. } | K::User { a } => a,
        _ => return Ok(()),
    };
    if !cx.ok() {
        return Ok(());
    }
    health_gate_for(cx, a)
}
pub fn health_gate_for(cx: &Cx, a: usize) -> Result<(), String> {
    let w = &cx.fx.w;
    let (pre, post) = (cx.fx.acc(cx.pre, a), cx.fx.acc(cx.post, a));
    let h1 = ref_health(w, cx.post, &post, Ht::Init);
    let h0 = ref_health(w, cx.pre, &pre, Ht::Init);
    // an empty no-op (nothing changed at all) is fine in any state
    if cx.pre.data(&cx.fx.accts[a]) == cx.post.data(&cx.fx.accts[a]) {
        return Ok(());
    }
    let tol = 1e-4 + 1e-9 * h0.abs().max(h1.abs());
    let grace = if h1 < -1000.0 { 1.0 } else { 0.0 };
    if h1 < -tol && h1 < h0 - tol - grace {
        return Err(format!("accepted although initial health ends negative and decreased | before {h0} after {h1}"));
    }
    if pre.being_liquidated && ref_health(w, cx.pre, &pre, Ht::LiqEnd) < -1.0 - tol {
        return Err(format!("accepted while the account is being liquidated | liq end health {}", ref_health(w, cx.pre, &pre, Ht::LiqEnd)));
    }
    Ok(())
}
