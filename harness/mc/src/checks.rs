use crate::explore::Report;
use crate::oracles::*;
use crate::p_access::*;
use crate::p_account::*;
use crate::p_subst::*;
use crate::p_config::*;
use crate::p_buyback::*;
use crate::p_fees::*;
use crate::p_health::*;
use crate::p_region::*;
use crate::p_flash::*;
use crate::p_interest::*;
use crate::p_liq::*;
use crate::p_logs::*;
use crate::p_mix::*;
use crate::p_oracle::*;
use crate::p_perp::*;
use crate::p_perp2::*;
use crate::perp_ref::*;
use crate::p_serum::*;
use crate::p_stable::*;
use crate::p_tcs::*;
use crate::p_token::*;
use crate::scen::*;
use crate::scens::*;
use crate::svm::*;

pub fn run(id: &str, tier: &str) -> i32 {
    let rep = Report::new(id, tier);
    let t = rep.thorough;
    let d = if t { 6 } else { 5 };
    let budget = if t { 3000.0 } else { 400.0 };
    match id {
        "dumps" => {
            dump_subst();
            0
        }
        "dump" => {
            dump();
            0
        }
        "C01" => {
            for ins in [0, 100_000] {
                let (sc, s) = token_scen(ins);
                sc.oracle(solvency).run(&rep, s, d, budget);
            }
            for v in 0..4 {
                let (sc, s) = mix_scen(v);
                sc.oracle(solvency).run(&rep, s, if v == 1 { d - 1 } else { d }, budget);
            }
            for (sc, s) in [flash_scen(), wind_down_scen(), collateral_scen(0), collateral_scen(1), buyback_scen(0), buyback_scen(2), liq_neg_scen(0), liq_neg_scen(1), perp_close_scen(), bankrupt_scen(1), settle_scen(0)] {
                sc.oracle(solvency).run(&rep, s, d - 1, budget);
            }
            rep.finish(&[])
        }
        "C40" => {
            let each = |(mut sc, s): (Scen, State), d: usize| {
                sc.want_events = true;
                sc.oracle(logs_spec).run(&rep, s, d, budget);
            };
            for v in 0..4 {
                each(mix_scen(v), if v < 2 { d - 1 } else { d });
            }
            each(token_scen(0), d - 1);
            each(interest_scen(), d - 1);
            each(flash_scen(), d - 1);
            each(wind_down_scen(), d);
            for v in 0..2 {
                each(collateral_scen(v), d - 1);
                each(liq_scen(v), d);
                each(tcs_scen(v), d);
                each(liq_base_scen(v), d);
                each(liq_neg_scen(v), d);
                each(settle_scen(v), d);
                each(trade_scen(v), d);
                each(serum_scen(v), d - 1);
                each(serum_force_scen(v), d - 1);
            }
            for v in 0..4 {
                each(bankrupt_scen(v), d);
            }
            for v in 0..3 {
                each(buyback_scen(v), d - 1);
            }
            each(funding_scen(), d - 1);
            each(perp_close_scen(), d);
            each(perp_wind_down_scen(0), d);
            rep.finish(&[])
        }
        "C32" => {
            for v in 0..4 {
                let (sc, s) = mix_scen(v);
                sc.oracle(slots).oracle(others_alone).run(&rep, s, if v < 2 { d } else { d + 1 }, budget);
            }
            rep.finish(&[])
        }
        "C31" => {
            expand_enum(&rep);
            limits_enum(&rep);
            migrate_enum(&rep);
            create_enum(&rep);
            close_enum(&rep);
            edit_enum(&rep);
            sequence_enum(&rep);
            rep.finish(&[])
        }
        "C02" => {
            let (sc, s) = token_scen(0);
            sc.oracle(health_gate).run(&rep, s, d, budget);
            for v in 0..4 {
                let (sc, s) = mix_scen(v);
                sc.oracle(actor_health).run(&rep, s, if v < 2 { d - 1 } else { d }, budget);
            }
            let (sc, s) = flash_scen();
            sc.oracle(actor_health).run(&rep, s, d - 2, budget);
            let (sc, s) = omit_scen();
            sc.oracle(actor_health).run(&rep, s, d - 1, budget);
            rep.finish(&[])
        }
        "C04" => {
            let (sc, s) = limits_scen();
            sc.oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            for v in 0..2 {
                let (sc, s) = exact_limits_scen(v);
                sc.oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C05" => {
            let (sc, s) = interest_scen();
            sc.oracle(index_spec).oracle(solvency).run(&rep, s, d, budget);
            curve_enum(&rep, if t { 10_000 } else { 1_000 });
            update_tx_enum(&rep, if t { 4 } else { 3 });
            rep.finish(&[])
        }
        "C03" => {
            let (sc, s) = token_scen(0);
            sc.oracle(token_spec).run(&rep, s, d + 1, budget);
            let (sc, s) = held_scen();
            sc.oracle(token_spec).run(&rep, s, d + 1, budget);
            rep.finish(&[])
        }
        "C06" => {
            for v in 0..2 {
                let (sc, s) = liq_scen(v);
                sc.oracle(liq_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            rep.finish(&[])
        }
        "C07" => {
            for v in 0..4 {
                let (sc, s) = bankrupt_scen(v);
                sc.oracle(bankruptcy_spec).oracle(liq_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            rep.finish(&[])
        }
        "C08" => {
            let (sc, s) = wind_down_scen();
            sc.oracle(liq_spec).oracle(token_spec).oracle(solvency).run(&rep, s, d + 2, budget);
            rep.finish(&[])
        }
        "C09" => {
            let (sc, s) = flash_scen();
            sc.oracle(flash_spec).oracle(solvency).run(&rep, s, d - 1, budget);
            let (sc, s) = flash_delegate_scen();
            sc.oracle(flash_delegate_spec).oracle(solvency).run(&rep, s, d, budget);
            rep.finish(&[])
        }
        "C10" => {
            for v in 0..4 {
                let (sc, s) = tcs_scen(v);
                sc.oracle(tcs_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            rep.finish(&[])
        }
        "C11" => {
            let (sc, s) = region_scen(0);
            sc.oracle(region_spec).run(&rep, s, d - 1, budget);
            let (sc, s) = region_scen(1);
            sc.oracle(region_spec).run(&rep, s, d - 3, budget);
            let (sc, s) = region_refuse_scen();
            sc.oracle(token_spec).run(&rep, s, d, budget);
            rep.finish(&[])
        }
        "C12" => {
            for v in 0..3 {
                let (sc, s) = collateral_scen(v);
                sc.oracle(collateral_spec).oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C13" => {
            for v in 0..3 {
                let (sc, s) = buyback_scen(v);
                sc.oracle(fees_spec).oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C14" => {
            for v in 0..6 {
                let (sc, s) = match_scen(v);
                sc.oracle(perp_spec).run(&rep, s, if v == 2 { d } else { d + 1 }, budget);
            }
            rep.finish(&[])
        }
        "C15" => {
            for v in 0..2 {
                let (sc, s) = trade_scen(v);
                sc.oracle(perp_spec).oracle(perp_balance).oracle(token_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            for v in 1..4 {
                let (sc, s) = mix_scen(v);
                sc.oracle(perp_balance).run(&rep, s, d - 1, budget);
            }
            rep.finish(&[])
        }
        "C16" => {
            let (sc, s) = funding_scen();
            sc.oracle(perp_spec).oracle(perp_balance).run(&rep, s, d, budget);
            rep.finish(&[])
        }
        "C17" => {
            for v in 0..3 {
                let (sc, s) = settle_scen(v);
                sc.oracle(perp_spec).oracle(perp_balance).oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C18" => {
            for v in 0..6 {
                let (sc, s) = liq_base_scen(v);
                sc.oracle(perp_spec).oracle(perp_balance).oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C19" => {
            for v in 0..4 {
                let (sc, s) = liq_neg_scen(v);
                sc.oracle(perp_spec).oracle(perp_balance).oracle(liq_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            rep.finish(&[])
        }
        "C20" => {
            for v in 0..2 {
                let (sc, s) = perp_wind_down_scen(v);
                sc.oracle(perp_spec).oracle(perp_balance).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            let (sc, s) = perp_close_scen();
            sc.oracle(perp_spec).oracle(perp_balance).oracle(token_spec).oracle(solvency).run(&rep, s, d + 1, budget);
            rep.finish(&[])
        }
        "C29" => {
            for v in 0..SERUM_SCENS {
                let d = if v == 3 { d - 1 } else { d };
                let (sc, s) = serum_scen(v);
                sc.oracle(serum_spec).oracle(move |cx| serum_invariants(cx, v == 3)).oracle(token_spec).oracle(solvency).run(&rep, s, d, budget);
            }
            rep.finish(&[])
        }
        "C30" => {
            for v in 0..2 {
                let (sc, s) = serum_force_scen(v);
                sc.oracle(serum_spec).oracle(|cx| serum_invariants(cx, false)).oracle(solvency).run(&rep, s, d + 1, budget);
            }
            rep.finish(&[])
        }
        "C28" => {
            let (sc, s) = health_scen(t);
            sc.oracle(health_spec).run(&rep, s, d - 1, budget);
            rep.finish(&[])
        }
        "C22" => {
            auth_enum(&rep);
            rep.finish(&[])
        }
        "C23" => {
            subst_enum(&rep);
            rep.finish(&[])
        }
        "C24" => {
            admin_enum(&rep);
            admin_edits(&rep);
            rep.finish(&[])
        }
        "C21" => {
            crate::p_listing::listing(&rep);
            rep.finish(&[])
        }
        "C35" => {
            crate::p_margin::margin_enum(&rep);
            rep.finish(&[])
        }
        "C38" => {
            edit_effects(&rep);
            rep.finish(&[])
        }
        "C25" => {
            gate_enum(&rep);
            rep.finish(&[])
        }
        "C26" => {
            oracle_enum(&rep, t);
            rep.finish(&[])
        }
        "C27" => {
            for v in 0..6 {
                let (sc, s) = stable_scen(v);
                sc.oracle(stable_spec).run(&rep, s, d - 2, budget);
            }
            rep.finish(&[])
        }
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    }
}
