mut("bank-overdeposit-window", "C04 C03", "state/bank.rs",
    ("self.update_net_borrows(native_position.max(-native_amount), now_ts);", "self.update_net_borrows(-native_amount, now_ts);"))
mut("liq-ignores-perp-offset", "C06", "instructions/token_liq_with_token.rs",
    ("        .min(-liqee_liab_health_balance)\n", ""))
mut("bankruptcy-uninsured-fund", "C07", "instructions/token_liq_bankruptcy.rs",
    ("let insurance_fund_exhausted = insurance_transfer == insurance_vault_amount;", "let insurance_fund_exhausted = insurance_transfer == ctx.accounts.insurance_vault.amount;"))
mut("force-withdraw-ata", "C08", "instructions/token_force_withdraw.rs",
    ("if ctx.accounts.owner_ata_token_account.owner == account.fixed.owner {", "if ctx.accounts.owner_ata_token_account.mint == bank.mint {"))
mut("liqend-recover-init", "C06 C07", "instructions/token_liq_with_token.rs",
    ("    let liqee_liq_end_health = liqee_health_cache.health(HealthType::LiquidationEnd);\n    liqee\n", "    let liqee_liq_end_health = liqee_health_cache.health(HealthType::Maint);\n    liqee\n"))
FL = "instructions/flash_loan.rs"
mut("fl-fee-from-native", "C09", FL, ("(approved_amount - native).max(I80F48::ZERO)", "(-change.amount - native).max(I80F48::ZERO)"))
mut("fl-dup-tokens", "C09", FL, ("seen_token_indexes.push(bank.token_index);", "if *amount > 0 { seen_token_indexes.push(bank.token_index); }"))
mut("fl-cpi-last-meta", "C09", FL, ("for meta in ix.accounts.iter() {", "for meta in ix.accounts.iter().filter(|m| !m.is_writable).skip(1) {"))
mut("fl-bank-not-begun", "C09", FL, ("require_neq!(bank.flash_loan_token_account_initial, u64::MAX);\n", "require!(bank.flash_loan_token_account_initial != u64::MAX || bank.flash_loan_approved_amount == 0, MangoError::SomeError);\n"))
mut("fl-depositlimit", "C09", FL, ("if change_amount > 0 && native_after_change > 0 {\n            bank.check_deposit", "if change_amount > 0 && native > 0 {\n            bank.check_deposit"))
mut("fl-netborrow", "C09", FL, ("if change_amount < 0 && native_after_change < 0 {", "if change.amount < 0 && native_after_change < -1 && approved_amount_u64 == 0 {"))
mut("fl-swapfee-max", "C09", FL, ("max_swap_fee_rate = max_swap_fee_rate.max(bank.flash_loan_swap_fee_rate);", "max_swap_fee_rate = bank.flash_loan_swap_fee_rate;"))
mut("fl-endaccounts", "C09", FL, ("&ix.accounts[ix.accounts.len() - begin_accounts.len()..];", "&ix.accounts[ix.accounts.len() - begin_accounts.len()..ix.accounts.len() - 1 - num_loans];"))
mut("fl-reduceonly", "C09", FL, ("native_after_change < 1 || native_after_change <= native,", "native_after_change < 1 || native > 0 || native_after_change <= native,"))
T = "state/token_conditional_swap.rs"
TT = "instructions/token_conditional_swap_trigger.rs"
mut("tcs-linear-end", "C10", T, ("if current < duration {", "if current <= duration / 2 {"))
mut("tcs-premium-cap", "C10", T, ("let progress = (current / duration).min(1.0);", "let progress = current / duration;"))
mut("tcs-exp", "C10", T, ("now_ts >= self.expiry_timestamp", "now_ts > self.expiry_timestamp"))
mut("tcs-liqorhealth", "C10 C02", TT, ("HealthType::Init,\n        &account_retriever", "HealthType::Maint,\n        &account_retriever"))
mut("tcs-sellchange", "C10", TT, ("post_liqee_sell_token - pre_liqee_sell_token;", "-I80F48::from(sell_token_amount_from_liqee);"))
mut("tcs-makerprice", "C10", TT, ("I80F48::from(buy_token_amount) * I80F48::from_num(premium_price)).floor();", "I80F48::from(buy_token_amount) * maker_price_i80f48).floor();"))
mut("tcs-sold", "C10", TT, ("tcs.sold += sell_token_amount_from_liqee;", "tcs.sold += sell_token_amount_u64;"))
mut("tcs-liqor-reduce", "C10 C04", TT, ("(-liqor_sell_balance).ceil().clamp_to_u64()", "liqor_sell_balance.abs().ceil().clamp_to_u64()"))
mut("tcs-feecollected", "C10", TT, ("I80F48::from(maker_fee + taker_fee);", "I80F48::from(maker_fee.max(taker_fee));"))
mut("tcs-allowdep", "C10", T, ("if self.allow_creating_deposits() && !buy_bank.are_deposits_reduce_only() {", "if self.allow_creating_deposits() {"))
BK = "state/orderbook/book.rs"
MA = "state/mango_account.rs"
PP = "state/mango_account_components.rs"
OT = "state/orderbook/ordertree.rs"
mut("bk-tie", "C14", "state/orderbook/bookside_iterator.rs", ("if is_better(f.1.key, key_for_fixed_price(o.1.key, o.2)) ^ return_worse {", "if is_better(f.1.key >> 64, key_for_fixed_price(o.1.key, o.2) >> 64) ^ return_worse {"))
mut("bk-quote-limit", "C14", BK, ("let book_base_quantity = remaining_base_lots.min(remaining_quote_lots / price_lots);", "let book_base_quantity = remaining_base_lots.min(order.max_quote_lots / price_lots);"))
mut("bk-drop-limit", "C14", BK, ("number_of_dropped_expired_orders < DROP_EXPIRED_ORDER_LIMIT {", "number_of_dropped_expired_orders <= DROP_EXPIRED_ORDER_LIMIT {"))
mut("bk-cancelprovide-limit", "C14", BK, ("                        // skip actual matching\n", "                        limit -= 1;\n"))
mut("bk-selffee", "C14 C15", BK, ("                total_quote_lots_taken - decremented_quote_lots,\n            )?;\n            emit", "                total_quote_lots_taken,\n            )?;\n            emit"))
mut("bk-worst-equal", "C14", BK, ("                    side.is_price_better(price_lots, worst_price),", "                    price_lots == worst_price || side.is_price_better(price_lots, worst_price),"))
mut("ot-insert-expiry", "C14", OT, ("if new_leaf_expiry < old_parent_expiry {\n", "if new_leaf_expiry < old_parent_expiry && stack.len() < 2 {\n"))
mut("ma-maker-out-slot", "C15 C14", MA, ("        let order_id_match = is_old_fill || oo.id == fill.maker_order_id;", "        let order_id_match = is_old_fill || oo.side_and_tree().side() == side;"))
mut("ma-out-slot", "C15 C14", MA, ("        let is_old_event = order_id == 0;\n        let order_id_match = is_old_event || oo.id == order_id;", "        let order_id_match = order_id == 0 || oo.side_and_tree().side() == side;"))
mut("ma-maker-fee-rebate", "C15", MA, ("let fees = quote.abs() * I80F48::from_num(fill.maker_fee);", "let fees = quote.abs() * perp_market.maker_fee;"))
mut("pp-oi", "C15", PP, ("perp_market.open_interest += self.base_position_lots.abs() - start.abs();", "perp_market.open_interest += (self.base_position_lots.abs() - start.abs()).max(-perp_market.open_interest / 2);"))
mut("pp-fund-taker", "C15 C16", MA, ("        let pa = self.perp_position_mut(perp_market_index)?;\n        pa.settle_funding(perp_market);\n\n        let (base_change, quote_change) = fill.base_quote_change(fill.taker_side());", "        let pa = self.perp_position_mut(perp_market_index)?;\n        if pa.base_position_lots() != 0 { pa.settle_funding(perp_market); }\n\n        let (base_change, quote_change) = fill.base_quote_change(fill.taker_side());"))
mut("pp-fund-short", "C15 C16", PP, ("(perp_market.short_funding - self.short_settled_funding)", "(perp_market.short_funding - self.long_settled_funding)"))
mut("pp-flip-avg", "C15", PP, ("reduced_lots = old_position.abs();\n            increased_lots = new_position.abs();", "reduced_lots = 0;\n            increased_lots = new_position.abs();"))
mut("pp-allow-max", "C15", PP, ("        self.recurring_settle_pnl_allowance = self.recurring_settle_pnl_allowance.max(0);\n\n        newly", "\n        newly"))
mut("mk-fund-cap", "C16", "state/perp_market.rs", ("let max_funding_timestep = 3600;", "let max_funding_timestep = 86400;"))
mut("mk-fund-impact", "C16", "state/orderbook/bookside.rs", ("            sum += order.node.quantity;\n            if sum >= quantity {\n                return Some(order.price_lots);", "            sum += order.node.quantity;\n            if sum > quantity {\n                return Some(order.price_lots);"))
mut("mk-fund-expired", "C16", "state/orderbook/bookside.rs", ("        for order in self.iter_valid(now_ts, oracle_price_lots) {\n            sum += order.node.quantity;\n            if sum >= quantity {\n                return Some(order.price_lots);", "        for order in self.iter_all_including_invalid(now_ts, oracle_price_lots) {\n            sum += order.node.quantity;\n            if sum >= quantity {\n                return Some(order.price_lots);"))
mut("pl-reduce-taker", "C14 C15", "instructions/perp_place_order.rs", ("let effective_pos = pp.effective_base_position_lots();\n    msg!(", "let effective_pos = pp.base_position_lots();\n    msg!("))
mut("sp-accum", "C16", "state/stable_price.rs", ("+= dt_limited as u32", "+= dt as u32"))
SP = "instructions/perp_settle_pnl.rs"
SF = "instructions/perp_settle_fees.rs"
LB = "instructions/perp_liq_base_or_positive_pnl.rs"
LN = "instructions/perp_liq_negative_pnl_or_bankruptcy.rs"
HC = "health/cache.rs"
PM = "state/perp_market.rs"
mut("sp-window", "C17", PP, ("let new_window = now_ts >= window_end || now_ts < window_start;", "let new_window = now_ts > window_end + window_size || now_ts < window_start;"))
mut("sp-used-order", "C17", PP, ("used_settle_limit = (used_settle_limit - recurring_allowance_change).min(0);", "used_settle_limit = (used_settle_limit - recurring_allowance_change).max(used_settle_limit);"))
mut("sp-oneshot-used", "C17", PP, ("let mut used_settle_limit = (settled_pnl - oneshot_reduction)", "let mut used_settle_limit = (settled_pnl - oneshot_reduction.min(I80F48::ZERO))"))
mut("sp-stale-funding-b", "C17", SP, ("    b_perp_position.settle_funding(&perp_market);\n    let a_pnl", "    let a_pnl"))
mut("sp-maxsettle-perp", "C17 C19", HC, ("self.effective_token_balances_internal(maint_type, true);", "self.effective_token_balances_internal(maint_type, false);"))
mut("sp-fee-position", "C17", SP, ("let a_pnl_value = a_pnl * settle_token_oracle_price;", "let a_pnl_value = settlement * settle_token_oracle_price;"))
mut("sp-lowfee-twice", "C17", PM, ("low_health_fee.min(flat_fee * I80F48::from(2))", "low_health_fee.min(flat_fee)"))
mut("sp-fee-b", "C17", SP, ("(account_a.fixed.perp_spot_transfers += settlement_i64 - fee_i64);", "(account_a.fixed.perp_spot_transfers += settlement_i64);"))
mut("sp-settle-avail", "C17", PP, ("max_pnl = max_pnl.saturating_sub(used).max(0);", "max_pnl = max_pnl.saturating_sub(used.max(0)).max(0);"))
mut("sf-settled", "C17 C20", SF, ("perp_market.fees_settled += settlement;", "perp_market.fees_settled += I80F48::from(settlement_i64);"))
mut("sf-health", "C17 C20", SF, ("HealthType::Init, &retriever", "HealthType::Maint, &retriever"))
mut("lb-maxbase", "C18", LB, (".min(max_base_transfer.abs() - base_reduction)", ".min(max_base_transfer.abs())"))
mut("lb-takerfills", "C18", LB, ("!liqee_perp_position.has_open_taker_fills(),", "!liqee_perp_position.has_open_taker_fills() || liqee_perp_position.taker_quote_lots > 0,"))
mut("lb-platform-short", "C18", LB, ("perp_market.accrued_liquidation_fees += platform_fee;", "if base_transfer < 0 { perp_market.accrued_liquidation_fees += platform_fee; }"))
mut("lb-total", "C18", LB, ("let total = liqee_pnl.max(settle);", "let total = settle;"))
mut("lb-limit-after", "C18", LB, (".min(max_transfer - limit_transfer_recurring)", ".min(max_transfer)"))
mut("lb-step3", "C18", LB, ("            max_pnl_transfer - pnl_transfer,\n            uhupnl", "            max_pnl_transfer,\n            uhupnl"))
mut("lb-liqor-funding", "C18", LB, ("    liqor_perp_position.settle_funding(&perp_market);\n    liqee_perp_position.update", "    liqee_perp_position.update"))
mut("lb-window", "C18", LB, ("    liqee_perp_position.update_settle_limit(&perp_market, now_ts);\n", ""))
mut("lb-liqor-health", "C18", LB, ("&liqor.borrow(),\n            HealthType::Init", "&liqor.borrow(),\n            HealthType::Maint"))
mut("lb-fee-liqor", "C18", LB, ("let quote_transfer_liqor = -quote_transfer_base * base_fee_factor_liqor;", "let quote_transfer_liqor = -quote_transfer_base * if pnl_transfer > 0 { base_fee_factor_all } else { base_fee_factor_liqor };"))
mut("lb-spot-gain", "C18", LB, ("let token_transfer = pnl_transfer * spot_gain_per_settled;", "let token_transfer = if base_transfer == 0 { pnl_transfer } else { pnl_transfer * spot_gain_per_settled };"))
mut("ln-inspart", "C19", LN, (".min(max_liab_transfer_to_liqor);\n\n        // Try", ".min(max_liab_transfer_from_liqee);\n\n        // Try"))
mut("ln-socialize-toliqor", "C19", LN, ("max_liab_transfer_from_liqee - insurance_liab_transfer;", "max_liab_transfer_to_liqor - insurance_liab_transfer;"))
mut("ln-full", "C19", LN, ("if settlement == max_settlement_liqee && liqee_pnl < 0 {", "if settlement > 0 && liqee_pnl < 0 {"))
mut("ln-maxliab", "C19", LN, ("I80F48::from(max_liab_transfer) - settlement;", "I80F48::from(max_liab_transfer);"))
mut("ln-uninsured", "C19", LN, ("let insurance_fund_exhausted = insurance_transfer == insurance_vault_amount;", "let insurance_fund_exhausted = insurance_transfer == insurance_vault.amount;"))
mut("ln-phase", "C19", LN, ("    liqee_health_cache.require_after_phase2_liquidation()?;\n", "    liqee_health_cache.require_after_phase1_liquidation()?;\n"))
mut("ln-recover", "C19", LN, ("    liqee_health_cache.recompute_perp_info(liqee_perp_position, &perp_market)?;\n    let liqee_liq", "    let liqee_liq"))
mut("ln-allow", "C19", PP, ("        self.change_quote_position(change);\n        self.oneshot_settle_pnl_allowance += change;", "        self.change_quote_position(change);\n        self.oneshot_settle_pnl_allowance += change.max(I80F48::ZERO);"))
mut("wd-fc-liq", "C20", "instructions/perp_liq_force_cancel_orders.rs", ("health_cache.recompute_perp_info(perp_position, &perp_market)?;", "if perp_position.has_open_orders() { health_cache.recompute_perp_info(perp_position, &perp_market)?; }"))
mut("wd-fc-frozen", "C20", "instructions/perp_liq_force_cancel_orders.rs", ("let can_force_cancel = !account.fixed.is_operational()\n        || ", "let can_force_cancel = "))
mut("wd-close-min", "C20", "instructions/perp_force_close_position.rs", (".min(account_b_perp_position.base_position_lots().abs())", ".min(account_a_perp_position.base_position_lots().max(account_b_perp_position.base_position_lots().abs()))"))
mut("wd-deact-taker", "C20", "instructions/perp_deactivate_position.rs", ("            && perp_position.taker_quote_lots == 0\n            && perp_position.taker_pending_base_lots == 0,\n", ",\n"))
mut("wd-deact-inuse", "C20", MA, ("        settle_token_position.decrement_in_use();\n\n        Ok(())\n    }\n\n    pub fn find_first_active_unused", "        if settle_token_position.in_use_count > 1 { settle_token_position.decrement_in_use(); }\n\n        Ok(())\n    }\n\n    pub fn find_first_active_unused"))
HR="instructions/health_region.rs"
mut("hr-skip-first", "C11", HR, ("let mut index = current_index + 1;", "let mut index = current_index + 2;"))
mut("hr-withdraw", "C11", HR, ("        crate::instruction::Serum3SettleFundsV2::discriminator(),\n", "        crate::instruction::Serum3SettleFundsV2::discriminator(),\n        crate::instruction::TokenWithdraw::discriminator(),\n"))
mut("hr-consume", "C11", HR, ("        crate::instruction::Serum3SettleFundsV2::discriminator(),\n", "        crate::instruction::Serum3SettleFundsV2::discriminator(),\n        crate::instruction::PerpConsumeEvents::discriminator(),\n"))
mut("hr-liq", "C11", HR, ("        crate::instruction::Serum3SettleFundsV2::discriminator(),\n", "        crate::instruction::Serum3SettleFundsV2::discriminator(),\n        crate::instruction::PerpLiqBaseOrPositivePnl::discriminator(),\n"))
mut("hr-noend", "C11", HR, ("        require_msg!(\n            found_end,", "        require_msg!(\n            found_end || index > current_index + 1,"))
mut("hr-program", "C11", HR, ("            require_keys_eq!(\n                ix.program_id,\n                crate::id(),\n                MangoError::HealthRegionBadInnerInstruction\n            );\n", "            if ix.program_id != crate::id() {\n                continue;\n            }\n"))
mut("hr-floor", "C11", HR, ("pre_init_health.ceil().to_num();", "pre_init_health.floor().to_num();"))
mut("hr-prehealth", "C11", HR, ("    let pre_init_health = account.check_health_pre(&health_cache)?;", "    let pre_init_health = health_cache.health(HealthType::Init);"))
mut("hr-keepflag", "C11", HR, ("    account.fixed.set_in_health_region(false);\n", "    account.fixed.set_in_health_region(false);\n    if account.fixed.health_region_begin_init_health < 0 {\n        account.fixed.set_in_health_region(true);\n    }\n"))
mut("hr-endmaint", "C11", HR, ("    account.check_health_post(&health_cache, pre_init_health)?;\n", "    if pre_init_health >= 0 && health_cache.health(HealthType::Maint) < 0 { account.check_health_post(&health_cache, pre_init_health)?; } else if pre_init_health < 0 { account.check_health_post(&health_cache, pre_init_health)?; }\n"))
mut("hr-cpi", "C11", HR, ("            current_ix.program_id == *ctx.program_id,", "            current_ix.program_id == *ctx.program_id || current_ix.accounts.len() > 3,"))
mut("hr-disallow-pegged", "C11", HR, ("        crate::instruction::PerpPlaceOrderPegged::discriminator(),\n", ""))
mut("hr-frozen", "C11", "accounts_ix/health_region.rs", ("        has_one = group,\n        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen\n", "        has_one = group,\n"), ("    #[account(\n        mut,\n        constraint = account.load()?.is_operational() @ MangoError::AccountIsFrozen\n", "    #[account(\n        mut,\n"))
mut("hr-gate", "C11", "accounts_ix/health_region.rs", ("IxGate::HealthRegion", "IxGate::HealthCheck"))
mut("hr-group", "C11", "accounts_ix/health_region.rs", ("        has_one = group,\n", ""))
mut("hr-sysvar", "C11", "accounts_ix/health_region.rs", ("    #[account(address = tx_instructions::ID)]\n", ""))
mut("hr-place-cancel", "C11", "instructions/perp_place_order.rs", ("    let pre_health_opt = if !account.fixed.is_in_health_region() {", "    let pre_health_opt = if !account.fixed.is_in_health_region() || order.reduce_only {"))
CF="instructions/token_charge_collateral_fees.rs"
mut("cf-interval", "C12", CF, ("if now_ts < last_charge_ts + group.collateral_fee_interval {", "if now_ts + 1 < last_charge_ts + group.collateral_fee_interval {"))
mut("cf-cap", "C12", CF, (".min(2 * group.collateral_fee_interval)", ".min(3 * group.collateral_fee_interval)"))
mut("cf-first", "C12", CF, ("        account.fixed.last_collateral_fee_charge = now_ts;\n        return Ok(());\n    }\n\n    // Is", "        account.fixed.last_collateral_fee_charge = now_ts - group.collateral_fee_interval;\n        return Ok(());\n    }\n\n    // Is"))
mut("cf-reset", "C12", CF, ("        account.fixed.last_collateral_fee_charge = 0;\n", ""))
mut("cf-serum-quote", "C12", CF, ("        token_balances[s3info.quote_info_index].spot_and_perp += s3info.reserved_quote;\n", "        token_balances[s3info.base_info_index].spot_and_perp += s3info.reserved_quote;\n"))
mut("cf-serum-skip", "C12", CF, ("        token_balances[s3info.base_info_index].spot_and_perp += s3info.reserved_base;\n", "        if s3info.reserved_quote == 0 { token_balances[s3info.base_info_index].spot_and_perp += s3info.reserved_base; }\n"))
mut("cf-usage", "C12", CF, (".min(I80F48::ONE);", ".max(I80F48::ONE);"))
mut("cf-fee-asset", "C12", CF, ("if bank.collateral_fee_per_day <= 0.0 || bank.maint_asset_weight.is_zero() {", "if bank.collateral_fee_per_day <= 0.0 {"))
mut("cf-liabs", "C12", CF, ("if liabs < 100_000_000 {", "if liabs < 10_000_000 {"))
mut("cf-unscaled", "C12", CF, ("let borrow_scaling = (health / total_liab_health).abs();", "let borrow_scaling = if token_balance < I80F48::from(-100_000_000) { I80F48::ONE } else { (health / total_liab_health).abs() };"))
mut("cf-recorded", "C12", CF, ("        bank.collected_fees_native += fee;\n", "        bank.collected_fees_native += fee.floor();\n"))
mut("cf-price", "C12", CF, ("total_collateral_fees_in_usd += fee * token_info.prices.oracle;", "total_collateral_fees_in_usd += fee * token_info.prices.stable;"))
mut("cf-early-ts", "C12", CF, ("    account.fixed.last_collateral_fee_charge = now_ts;\n\n    // Charge", "    account.fixed.last_collateral_fee_charge = last_charge_ts + group.collateral_fee_interval;\n\n    // Charge"))
mut("cf-health-init", "C12", CF, ("let health = token_info.health_contribution(HealthType::Maint, token_balance);", "let health = token_info.health_contribution(HealthType::Init, token_balance);"))
ST="state/stable_price.rs"
mut("sp-fill-wrap", "C27", ST, ("                self.delay_prices[..delay_interval_index as usize].fill(new_delay_price);\n", ""))
mut("sp-full-day", "C27", ST, ("dt > self.delay_prices.len() as u64", "dt > 2 * self.delay_prices.len() as u64"))
mut("sp-prev-first", "C27", ST, ("                    self.delay_prices[self.delay_prices.len() - 1]\n", "                    self.delay_prices[0]\n"))
mut("sp-fraction", "C27", ST, ("                delay_price / prev_stable_price\n            };", "                1.0\n            };"))
mut("sp-clamp-low", "C27", ST, ("let min = prev * (1.0 - growth_limit);", "let min = prev * (1.0 - growth_limit * if target < 0.5 * prev { 2.0 } else { 1.0 });"))
mut("sp-mindt", "C27", ST, ("if dt < min_dt {", "if dt < min_dt && oracle_price >= self.stable_price {"))
mut("sp-maxdt-acc", "C27", ST, ("self.delay_accumulator_price += oracle_price * dt_limited;", "self.delay_accumulator_price += oracle_price * (dt.min(3600)) as f64;"))
mut("sp-acc-not-reset", "C27", ST, ("            self.delay_accumulator_time = 0;\n            self.last_delay_interval_index", "            if !full_delay_passed { self.delay_accumulator_time = 0; }\n            self.last_delay_interval_index"))
mut("sp-other-bank", "C27", "instructions/token_update_index_and_rate.rs", ("            bank.stable_price_model = stable_price_model;\n", "            bank.stable_price_model.stable_price = stable_price_model.stable_price;\n"))
mut("sp-perp-ts", "C27", "state/perp_market.rs", ("        self.stable_price_model\n            .update(now_ts", "        self.stable_price_model\n            .update(now_ts.max(self.funding_last_updated + 10)"))
mut("sp-reset-delay", "C27", ST, ("        self.delay_prices = [oracle_price; 24];\n", "        self.delay_prices[..23].fill(oracle_price);\n"))

HC = "health/cache.rs"
HA = "health/account_retriever.rs"
mut("he-skip-sign", "C28", HC, ("                require_msg_typed!(\n                    position.indexed_position >= 0,\n                    MangoError::InvalidBank,", "                require_msg_typed!(\n                    position.indexed_position >= 0 || account.active_perp_positions().count() == 0,\n                    MangoError::InvalidBank,"))
mut("he-badoracle-neg", "C28", HC, ("            && bank_oracle_result.is_oracle_error()\n            && position.indexed_position >= 0", "            && bank_oracle_result.is_oracle_error()\n            && (position.indexed_position >= 0 || position.in_use_count > 0)"))
mut("he-pending-price", "C28", HC, ("        let quote_asset = quote_info.prices.asset(health_type);\n        let base_liab = base_info.prices.liab(health_type);", "        let quote_asset = quote_info.prices.asset(health_type);\n        let base_liab = base_info.prices.asset(health_type);"))
mut("he-lowest-ask", "C28", HC, ("            self.reserved_quote\n                + reserved_base_as_quote_oracle.min(self.reserved_base_as_quote_lowest_ask)", "            self.reserved_quote\n                + reserved_base_as_quote_oracle.max(self.reserved_base_as_quote_lowest_ask)"))
mut("he-scale-serum", "C28", "state/bank.rs", ("            self.native_deposits().to_num::<f64>() + self.potential_serum_tokens as f64;", "            self.native_deposits().to_num::<f64>().max(self.potential_serum_tokens as f64);"))
mut("he-scale-oracle", "C28", HC, ("        let liab_price = prices.liab(HealthType::Init);\n\n        let (maint", "        let liab_price = prices.oracle;\n\n        let (maint"))
mut("he-shift-liab", "C28", "state/bank.rs", ("            let liab = self.maint_liab_weight\n                + scale * (self.maint_weight_shift_liab_target - self.maint_liab_weight);", "            let liab = self.maint_liab_weight.max(self.maint_weight_shift_liab_target.min(self.maint_liab_weight\n                + scale * (self.maint_weight_shift_liab_target - self.maint_liab_weight).min(self.maint_liab_weight / 8)));"))
mut("he-shift-start", "C28", "state/bank.rs", ("self.maint_weight_shift_duration_inv.is_zero() || now_ts <= self.maint_weight_shift_start", "self.maint_weight_shift_duration_inv.is_zero()"))
mut("he-liqend-weights", "C28", HC, ("            HealthType::LiquidationEnd => self.init_liab_weight,", "            HealthType::LiquidationEnd => self.init_liab_weight.min(self.init_scaled_liab_weight).min(self.maint_liab_weight),"))
mut("he-serum-skip", "C28", HC, ("            (Ok(base), Ok(quote)) => (base, quote),\n            _ => {", "                (Ok(base), Ok(quote)) => (base, quote),\n                (Ok(base), Err(_)) if allow_skipping_banks => {\n                    token_infos[base].balance_spot += I80F48::from(oo.native_coin_free);\n                    continue;\n                }\n                _ => {"))
mut("he-fallback-bankidx", "C28", HA, ("            if bank.token_index == token_index {\n                require_keys_eq!(bank.group, *group);\n                return Ok((i, bank));", "            if bank.token_index == token_index {\n                require_keys_eq!(bank.group, *group);\n                return Ok((i.min(self.n_banks.saturating_sub(2)), bank));"))
mut("he-foreign-group", "C28", HA, ("                    let bank = loaded?;\n                    require_keys_eq!(bank.group, *group);\n", "                    let bank = loaded?;\n                    let _ = group;\n"))
mut("he-wd-borrow", "C28", "instructions/token_withdraw.rs", ("            require!(!is_borrow, MangoError::BorrowsRequireHealthAccountBank);\n", "            require!(!is_borrow || native_position > 0, MangoError::BorrowsRequireHealthAccountBank);\n"))
mut("he-wd-borrow-small", "C28", "instructions/token_withdraw.rs", ("            require!(!is_borrow, MangoError::BorrowsRequireHealthAccountBank);\n", "            require!(!is_borrow || native_position_after > -2, MangoError::BorrowsRequireHealthAccountBank);\n"))
mut("he-wd-strict", "C28", "instructions/token_withdraw.rs", ("            account.check_health_post_checks_strict(post_init_health_lower_bound)?;", "            account.check_health_post_checks(pre_init_health_lower_bound, post_init_health_lower_bound)?;"))
mut("he-perp-settle-tok", "C28", HC, ("                if perp_info.settle_token_index != token_info.token_index {\n                    continue;\n                }\n                let health_unsettled = perp_info.health_unsettled_pnl(health_type);\n                add(&mut asset_balance, &mut liab_balance, health_unsettled);", "                if perp_info.settle_token_index != token_info.token_index {\n                    continue;\n                }\n                let health_unsettled = perp_info.unweighted_health_unsettled_pnl(health_type);\n                add(&mut asset_balance, &mut liab_balance, health_unsettled);"))
mut("he-ratio-kind", "C28", "instructions/health_check.rs", ("            health_cache.health_ratio(HealthType::LiquidationEnd)\n", "            health_cache.health_ratio(HealthType::Maint)\n"))
mut("he-eq-rebates", "C28", "state/equity.rs", ("I80F48::from_num(oo.native_pc_total)", "I80F48::from_num(oo.native_pc_total - oo.native_pc_free)"))

OR = "state/oracle.rs"
mut("or-pyth-prev", "C26", OR, ("            account.prev_slot,\n", "            account.agg.pub_slot.max(account.prev_slot),\n"), ("                conf: account.prev_conf,", "                conf: account.agg.conf,"))
mut("or-pyth-conf-scale", "C26", OR, ("    let deviation = I80F48::from_num(price_data.conf) * decimal_adj;", "    let deviation = I80F48::from_num(price_data.conf) * decimal_adj.min(I80F48::ONE);"))
mut("or-v2-unverified", "C26", OR, ("    if price_account.verification_level != VerificationLevel::Full {", "    if !price_account.verification_level.eq(&VerificationLevel::Full) && !matches!(price_account.verification_level, VerificationLevel::Partial { num_signatures: 5.. }) {"))
mut("or-time-units", "C26", OR, ("(config.max_staleness_slots as u64) * 450;", "(config.max_staleness_slots as u64 + 10) * 450;"))
mut("or-time-only", "C26", OR, ("        if self\n            .last_update_slot\n            .saturating_add(config.max_staleness_slots as u64)\n            < now_slot\n        {", "        if self.last_update_time.is_none() && self\n            .last_update_slot\n            .saturating_add(config.max_staleness_slots as u64)\n            < now_slot\n        {"))
mut("or-zero-staleness", "C26", OR, ("        if config.max_staleness_slots < 0 {", "        if config.max_staleness_slots <= 0 {"))
mut("or-ondemand-slot", "C26", OR, ("            let last_update_slot = feed.result.min_slot;", "            let last_update_slot = feed.result.max_slot;"))
mut("or-neg", "C26", OR, ("            let deviation = ui_deviation * decimal_adj;\n            require_gte!(price, 0);", "            let deviation = ui_deviation * decimal_adj;"))
mut("or-stub-slot", "C26", OR, ("            let last_update_slot = if stub.last_update_slot == 0 {", "            let last_update_slot = if stub.last_update_slot == 0 || stub.deviation == 0 {"))
mut("or-fallback-conf", "C26", "state/bank.rs", ("                fallback_state.check_confidence_and_maybe_staleness(&self.oracle_config, now);", "                fallback_state.check_confidence(&self.oracle_config);"))
mut("or-fallback-any", "C26", "state/bank.rs", ("        if primary_ok.is_oracle_error() && oracle", "        if (primary_ok.is_oracle_error() || (primary_state.price.is_zero() && self.stable_price() > 0)) && oracle"))
mut("or-fallback-primary-price", "C26", "state/bank.rs", ("            Ok(fallback_state.price)", "            Ok(fallback_state.price.max(primary_state.price))"))
mut("or-clmm-sol", "C26", "state/amm_cpi.rs", ("            || (self.token_mint_a == sol_mint_mainnet::ID\n                && self.token_mint_b != usdc_mint_mainnet::ID)", "            || self.token_mint_a == sol_mint_mainnet::ID"))
mut("or-clmm-dec", "C26", "state/amm_cpi.rs", ("get_pyth_state(sol_feed, SOL_DECIMALS as u8)?", "get_pyth_state(sol_feed, QUOTE_DECIMALS as u8)?"))
mut("or-clmm-inv", "C26", "state/amm_cpi.rs", ("            I80F48::from_num(1.0f64 / inverted_price)", "            I80F48::from_num((1.0f64 / inverted_price).min(1e3))"))
mut("or-wd-conf", "C26", "instructions/token_withdraw.rs", ("            .check_confidence_and_maybe_staleness(&bank.oracle_config, now_opt)", "            .check_staleness(&bank.oracle_config, now_opt.unwrap().1, now_opt.unwrap().0)"))
mut("or-fixed-fallback", "C26", "health/account_retriever.rs", ("        let fallback_opt = self.ais[self.begin_fallback_oracles..]", "        let fallback_opt = self.ais[self.begin_fallback_oracles + self.usdc_oracle_index.map_or(0, |_| 1)..]"))
mut("or-fixed-sol", "C26", "health/account_retriever.rs", ("            sol_opt: self.sol_oracle_index.map(|i| &self.ais[i]),", "            sol_opt: self.sol_oracle_index.or(self.usdc_oracle_index).map(|i| &self.ais[i]),"))
mut("or-perp-unchecked", "C26", "state/perp_market.rs", ("            .check_confidence_and_maybe_staleness(&self.oracle_config, now)", "            .check_confidence_and_maybe_staleness(&self.oracle_config, now.filter(|_| state.last_update_time.is_none()))"))
mut("or-idx-unchecked", "C26", "instructions/token_update_index_and_rate.rs", ("            Some((clock.unix_timestamp as u64, clock.slot)),", "            Some((clock.unix_timestamp as u64, clock.slot)).filter(|_| some_bank.indexed_borrows > 0),"))
A = "accounts_ix/"
mut("au-delegate-unset", "C22", "state/mango_account.rs", ("        if self.delegate == ix_signer {\n            return true;\n        }\n\n        let now_ts", "        if self.delegate == ix_signer {\n            return true;\n        }\n        if self.temporary_delegate_expiry == 0 {\n            return self.temporary_delegate == ix_signer;\n        }\n\n        let now_ts"))
mut("au-delegate-expiry", "C22", "state/mango_account.rs", ("if now_ts > self.temporary_delegate_expiry {", "if now_ts >= self.temporary_delegate_expiry {"))
mut("au-withdraw-ata", "C22", "instructions/token_withdraw.rs", ("        require_keys_eq!(\n            ctx.accounts.token_account.owner,\n            account.fixed.owner,\n            MangoError::DelegateWithdrawOnlyToOwnerAta\n        );\n", ""))
mut("au-settler-frozen", "C22", A + "perp_settle_pnl.rs", ("        constraint = account_b.load()?.is_operational() @ MangoError::AccountIsFrozen\n", ""), )
mut("au-operational", "C22", "state/mango_account.rs", ("self.frozen_until < now_ts", "self.frozen_until <= now_ts"))
mut("au-tcs-liqor", "C22", A + "token_conditional_swap_trigger.rs", ("        constraint = liqor.load()?.is_owner_or_delegate(liqor_authority.key()),\n", "        constraint = liqor.load()?.is_owner_or_delegate(liqor_authority.key()) || liqee.load()?.is_owner_or_delegate(liqor_authority.key()),\n"))
mut("au-close-delegate", "C22", A + "account_close.rs", ("        has_one = owner,\n", "        constraint = account.load()?.is_owner_or_delegate(owner.key()),\n"))
mut("au-freeze-time", "C22", "instructions/account_toggle_freeze.rs", ("account.fixed.frozen_until = now_ts + 7 * 24 * 60 * 60;", "account.fixed.frozen_until = account.fixed.frozen_until.max(now_ts) + 7 * 24 * 60 * 60;"))
mut("su-updateindex-banks", "C05", "state/mint_info.rs", ("all_bank_ais.iter().map(|ai| ai.key).eq(self.banks().iter())", "!all_bank_ais.is_empty() && all_bank_ais.iter().map(|ai| ai.key).zip(self.banks().iter()).all(|(a, b)| a == b)"))
mut("su-settle-bank", "C23", "instructions/perp_settle_pnl.rs", ("        settle_bank.token_index == settle_token_index,", "        settle_bank.token_index == settle_token_index || settle_bank.mint_decimals == 6,"))
mut("su-bankruptcy-vault", "C23 C07", "instructions/token_liq_bankruptcy.rs", ("require_keys_eq!(insurance_bank.vault, ctx.accounts.quote_vault.key());", "require_keys_eq!(insurance_bank.mint, ctx.accounts.quote_vault.mint);"))
mut("su-buyback-swap", "C13", A + "account_buyback_fees_with_mngo.rs", ("        address = group.load()?.buyback_fees_swap_mango_account\n", ""))
mut("su-mintinfo-oracle", "C23", A + "token_update_index_and_rate.rs", ("        has_one = oracle,\n        has_one = group,\n", "        has_one = group,\n"))
mut("su-serum-settle-oo", "C23", "instructions/serum3_settle_funds.rs", ("                == accounts.open_orders.key(),", "                == accounts.open_orders.key() || account.fixed.sequence_number == 0,"))
mut("ad-secmin", "C24", "instructions/token_edit.rs", ("if reduce_only == 0 || (reduce_only == 2 && bank.reduce_only == 1) {", "if reduce_only < bank.reduce_only {"))
mut("ad-bank2", "C24", "instructions/token_edit.rs", ("            if init_asset_weight != 0.0 {\n                require_group_admin = true;\n            }", "            require_group_admin = init_asset_weight != 0.0;"))
mut("ad-collateralfee", "C24", "instructions/token_edit.rs", ("            if collateral_fee_per_day != 0.0 {", "            if collateral_fee_per_day > bank.collateral_fee_per_day {"))
mut("ad-gate-high", "C24", "instructions/ix_gate_set.rs", ("if group.ix_gate & (1 << i) != 0 && ix_gate & (1 << i) == 0 {", "if i < 96 && group.ix_gate & (1 << i) != 0 && ix_gate & (1 << i) == 0 {"))
mut("ad-perp-forceclose", "C24", "instructions/perp_edit_market.rs", ("        perp_market.force_close = u8::from(force_close);\n        require_group_admin = true;", "        perp_market.force_close = u8::from(force_close);\n        require_group_admin = !force_close || perp_market.base_liquidation_fee.is_positive();"))
mut("ad-fast-unset", "C24", "instructions/serum3_register_market.rs", ("} else if ctx.accounts.admin.key() == group.fast_listing_admin {", "} else if ctx.accounts.admin.key() == group.fast_listing_admin || (group.fast_listing_admin == Pubkey::default() && ctx.accounts.admin.key() == ctx.accounts.payer.key()) {"))
mut("ad-shift-abort", "C24", "instructions/token_edit.rs", ("            bank.maint_weight_shift_end = maint_weight_shift_end;\n            require_group_admin = true;", "            bank.maint_weight_shift_end = maint_weight_shift_end;\n            require_group_admin |= !maint_weight_shift_abort;"))
mut("gt-swap", "C25", A + "perp_cancel_all_orders_by_side.rs", ("IxGate::PerpCancelAllOrdersBySide", "IxGate::PerpCancelAllOrders"))
mut("gt-high", "C25", "state/group.rs", ("self.ix_gate & (1 << ix as u128) == 0", "self.ix_gate as u64 & (1 << (ix as u64 & 63)) == 0"))
mut("cg-shift-inv", "C38", "instructions/token_edit.rs", ("            if bank.maint_weight_shift_end <= bank.maint_weight_shift_start {", "            if bank.maint_weight_shift_end < bank.maint_weight_shift_start + 2 {"))
mut("cg-shift-only-end", "C38", "instructions/token_edit.rs", ("if maint_weight_shift_start_opt.is_some() || maint_weight_shift_end_opt.is_some() {", "if maint_weight_shift_start_opt.is_some() {"))
mut("cg-verify-weights", "C38 C21", "state/bank.rs", ("        require_gte!(self.init_liab_weight, self.maint_liab_weight);", "        require_gte!(self.init_liab_weight, self.maint_asset_weight);"))
mut("cg-verify-fw", "C38", "state/bank.rs", ("        if self.is_force_withdraw() {\n            require!(self.are_deposits_reduce_only(), MangoError::SomeError);", "        if self.is_force_withdraw() {\n            require!(self.are_borrows_reduce_only(), MangoError::SomeError);"))
mut("cg-mintinfo", "C38", "instructions/token_edit.rs", ("            mint_info.fallback_oracle = ctx.accounts.fallback_oracle.key();", "            if mint_info.fallback_oracle == Pubkey::default() { mint_info.fallback_oracle = ctx.accounts.fallback_oracle.key(); }"))
mut("cg-abort-liab", "C38", "instructions/token_edit.rs", ("            bank.maint_asset_weight = maint_asset_weight;\n            bank.maint_liab_weight = maint_liab_weight;\n            bank.maint_weight_shift_start", "            bank.maint_asset_weight = maint_asset_weight.max(bank.maint_asset_weight);\n            bank.maint_liab_weight = maint_liab_weight;\n            bank.maint_weight_shift_start"))
mut("cg-tempdel", "C38", "instructions/account_edit.rs", ("require_gt!(now_ts + ONE_WEEK_SECONDS, temporary_delegate_expiry);", "require_gte!(ONE_WEEK_SECONDS, temporary_delegate_expiry.saturating_sub(now_ts));"))
mut("li-week", "C21", "instructions/token_register_trustless.rs", ("group.fast_listing_interval_start = now_ts / week * week;", "group.fast_listing_interval_start = now_ts;"))
mut("li-week2", "C21", "instructions/token_register_trustless.rs", ("if now_ts >= group.fast_listing_interval_start + week {", "if now_ts > group.fast_listing_interval_start + week {"))
mut("li-stable-dec", "C21", "instructions/token_register_trustless.rs", ("        mint_decimals: ctx.accounts.mint.decimals,\n        bank_num", "        mint_decimals: ctx.accounts.mint.decimals.min(8),\n        bank_num"))
mut("li-bank-borrows", "C21", "state/bank.rs", ("            deposit_index: existing_bank.deposit_index,\n            borrow_index: existing_bank.borrow_index,", "            deposit_index: existing_bank.deposit_index,\n            borrow_index: existing_bank.deposit_index,"))
mut("li-verify", "C21", "instructions/token_register.rs", ("    bank.verify()?;\n", "    if bank.reduce_only != 2 { bank.verify()?; }\n"))
mut("li-serum-tier", "C21", "instructions/serum3_register_market.rs", ("base_bank.are_borrows_reduce_only() && base_bank.maint_asset_weight.is_zero();", "base_bank.are_borrows_reduce_only() && base_bank.init_asset_weight.is_zero();"))
mut("li-perp-settle", "C21", "instructions/perp_create_market.rs", ("        funding_last_updated: now_ts,", "        funding_last_updated: 0,"))

SP = "instructions/serum3_place_order.rs"
SS = "instructions/serum3_settle_funds.rs"
SF = "instructions/serum3_liq_force_cancel_orders.rs"
mut("se-reset-bids", "C29", SP, ("before_had_bids = (!open_orders.free_slot_bits & open_orders.is_bid_bits) != 0;", "before_had_bids = open_orders.native_pc_total != open_orders.native_pc_free || open_orders.native_pc_free > 0;"))
mut("se-low-bid", "C29", SP, ("serum.lowest_placed_bid_inv.max(limit_price_inv)", "serum.lowest_placed_bid_inv.min(limit_price_inv)"))
mut("se-newborrow", "C29", SP, (".max(native_after)\n", ".min(native_after)\n"))
mut("se-borrow-all", "C29", SP, ("    let new_borrows = native_change\n        .max(native_after)", "    let new_borrows = native_after"))
mut("se-lim-recv", "C29", SP, ("        let receiver_bank = receiver_bank_ai.load::<Bank>()?;\n        receiver_bank\n            .check_deposit_and_oo_limit()", "        let receiver_bank = receiver_bank_ai.load::<Bank>()?;\n        if oo_difference.free_base_change.is_negative() || oo_difference.free_quote_change.is_negative() || new_order_on_book { receiver_bank\n            .check_deposit_and_oo_limit()"), ("            .with_context(|| std::format!(\"on {}\", receiver_bank.name()))?;\n    }", "            .with_context(|| std::format!(\"on {}\", receiver_bank.name()))?; }\n    }"))
mut("se-lim-payer", "C29", SP, ("        payer_bank\n            .check_deposit_and_oo_limit()\n            .with_context(|| std::format!(\"on {}\", payer_bank.name()))?;\n", ""))
mut("se-nb-before", "C29", SP, ("if withdrawn_from_vault > before_position_native {", "if withdrawn_from_vault > before_position_native.max(I80F48::ONE) * 2 {"))
mut("se-band-inv", "C29", SP, ("limit_price_in_dollar * band_factor >= base_oracle_f64,", "limit_price_in_dollar >= base_oracle_f64 * (2.0 - band_factor),"))
mut("se-band-taker", "C29", SP, ("if new_order_on_book && band_threshold", "if after_oo.native_base_reserved() > 0 && new_order_on_book && band_threshold"))
mut("se-ro-potential", "C29", SP, ("balance + potential < 1,", "balance < 1 || potential < 1,"))
mut("se-health-potential", "C29", SP, ("    health_cache.adjust_token_balance(&receiver_bank, I80F48::ZERO)?;\n", ""))
mut("se-health-oo", "C29", SP, ("            self.free_base_change,\n            self.free_quote_change,", "            self.free_base_change.max(I80F48::ZERO),\n            self.free_quote_change,"))
mut("se-v1-gate", "C29 C25", SP, ("require_v2 || !v1_available || (receiver_bank_ai.is_writable && v2_available);", "require_v2 || (!v1_available && v2_available) || (receiver_bank_ai.is_writable && v2_available);"))
mut("se-pot-payeronly", "C29", SP, ("        let new_quote = oo.native_quote_total()\n            + (oo.native_base_reserved() as f64 * serum_orders.highest_placed_ask) as u64;\n        let old_quote = serum_orders.potential_quote_tokens;\n\n        payer_bank", "        let new_quote = oo.native_quote_total()\n            + (oo.native_base_reserved() as f64 * serum_orders.lowest_placed_ask) as u64;\n        let old_quote = serum_orders.potential_quote_tokens;\n\n        payer_bank"))
mut("se-pot-highbid", "C29", SP, ("    let new_base = oo.native_base_total()\n        + (oo.native_quote_reserved() as f64 * serum_orders.lowest_placed_bid_inv) as u64;\n    let new_quote", "    let new_base = oo.native_base_total()\n        + (oo.native_quote_reserved() as f64 * serum_orders.highest_placed_bid_inv) as u64;\n    let new_quote"))
mut("se-settle-order", "C29 C30", SS, ("        serum3_account.quote_borrows_without_fee = oo_quote_total;\n", ""))
mut("se-settle-loan-max", "C29 C30", SS, ("            .base_borrows_without_fee\n            .saturating_sub(oo_base_total),", "            .base_borrows_without_fee\n            .saturating_sub(before_oo.native_base_free().max(oo_base_total)),"))
mut("se-settle-loan-free", "C29", SS, ("    let oo_quote_total = before_oo.native_quote_total();", "    let oo_quote_total = before_oo.native_quote_free() + before_oo.native_quote_reserved().max(1) - 1;"))
mut("se-settle-rebate-dup", "C29", SP, ("let after_quote_vault_adjusted = after_quote_vault - received_fees;", "let after_quote_vault_adjusted = after_quote_vault - received_fees.min(after_quote_vault - before_quote_vault).min(before_oo.native_quote_free());"))
mut("se-settle-buyback-price", "C29", SP, ("let quote_asset_price = quote_oracle_price.min(quote_bank.stable_price());", "let quote_asset_price = quote_oracle_price;"))
mut("se-settle-sub", "C29", SP, ("    if needed_change > 0 {\n        *borrows_without_fee", "    if needed_change > 0 && native_before < 0 {\n        *borrows_without_fee"))
mut("se-settle-expire", "C29", SP, ("            account\n                .fixed\n                .expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval);\n            let fees_in_usd = I80F48::from(received_fees) * quote_asset_price;", "            let fees_in_usd = I80F48::from(received_fees) * quote_asset_price;\n            if received_fees > 0 { account\n                .fixed\n                .expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval); }"))
mut("se-close-count", "C29", "instructions/serum3_close_open_orders.rs", ("    quote_position.decrement_in_use();\n", "    if quote_position.indexed_position.is_zero() { quote_position.decrement_in_use(); }\n"))
mut("se-cancel-side", "C29", "serum3_cpi.rs", ("let side = if open_orders.is_bid_bits & slot_mask != 0 {", "let side = if open_orders.is_bid_bits >> j << j & slot_mask != 0 && j < 2 {"))
mut("se-cancel-limit", "C29 C30", "serum3_cpi.rs", ("                    match bids.find_by_key(order_id) {\n                        None => continue,", "                    match bids.find_by_key(order_id) {\n                        None => { limit -= 1; if limit == 0 { break; } continue },"))
mut("se-fc-gate", "C30", SF, ("            || serum_market.is_force_close();", "            || serum_market.is_reduce_only();"))
mut("se-fc-frozen", "C30", SF, ("let can_force_cancel = !account.fixed.is_operational()\n            || ", "let can_force_cancel = "))
mut("se-fc-dao", "C30", SF, ("        Some(&mut health_cache),\n        true,", "        Some(&mut health_cache),\n        serum_market.force_close == 0,"))
mut("se-fc-recover", "C30", SF, ("let liq_end_health = health_cache.health(HealthType::LiquidationEnd);", "let liq_end_health = health_cache.health(HealthType::Maint);"))
mut("se-fc-nofee", "C30", SF, ("        charge_loan_origination_fees(", "        if account.fixed.is_operational() { charge_loan_origination_fees("), ("            None,\n            None,\n        )?;\n\n        before_oo", "            None,\n            None,\n        )?; }\n\n        before_oo"))
mut("se-fc-healthy", "C30", SF, ("liquidatable == CheckLiquidatable::Liquidatable", "liquidatable != CheckLiquidatable::NotLiquidatable"))
mut("gt-v2", "C25 C29", "instructions/serum3_place_order.rs", ("require_v2 || !v1_available || (receiver_bank_ai.is_writable && v2_available);", "!v1_available || (receiver_bank_ai.is_writable && v2_available);"))
mut("gt-v2b", "C25 C29", "instructions/serum3_place_order.rs", ("            require!(v2_available, MangoError::IxIsDisabled);\n            require_msg_typed!", "            require!(v2_available || !require_v2, MangoError::IxIsDisabled);\n            require_msg_typed!"))

BB = "instructions/account_buyback_fees_with_mngo.rs"
mut("bb-price-max", "C13", BB, ("mngo_oracle_price.min(mngo_bank.stable_price())", "mngo_oracle_price.max(mngo_bank.stable_price())"))
mut("bb-fees-price", "C13", BB, ("fees_oracle_price.max(fees_bank.stable_price())", "fees_oracle_price"))
mut("bb-no-expire", "C13", BB, ("    account\n        .fixed\n        .expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval);\n", "    if max_buyback_usd > 1 {\n    account\n        .fixed\n        .expire_buyback_fees(now_ts, group.buyback_fees_expiry_interval);\n    }\n"))
mut("bb-floor", "C13", BB, ("max_buyback_usd.ceil().to_num::<u64>()", "max_buyback_usd.floor().to_num::<u64>()"))
mut("bb-dao-fees", "C13", BB, ("            .min(dao_fees * fees_liab_price)", "            .min((dao_fees * fees_liab_price).max(I80F48::ONE))"))
mut("bb-dao-debt", "C13", BB, ("        require!(!ele.indexed_position.is_negative(), MangoError::SomeError);", "        require!(!ele.indexed_position.is_negative() || ele.token_index != fees_bank.token_index, MangoError::SomeError);"))
mut("bb-dao-perp", "C13", BB, ("    require_eq!(\n        dao_account.active_perp_positions().count(),\n        0,\n        MangoError::SomeError\n    );\n", ""))
mut("bb-dao-serum", "C13", BB, ("    require_eq!(\n        dao_account.active_serum3_orders().count(),\n        0,\n        MangoError::SomeError\n    );\n", ""))
mut("bb-prev-order", "C13", "state/mango_account.rs", ("            self.buyback_fees_accrued_previous -= amount;", "            self.buyback_fees_accrued_previous -= amount.min(self.buyback_fees_accrued_previous.saturating_sub(1));"))
mut("bb-expire-two", "C13", "state/mango_account.rs", ("} else if now_ts < self.buyback_fees_expiry_timestamp + interval {", "} else if now_ts <= self.buyback_fees_expiry_timestamp + interval {"))
mut("bb-bonus", "C13", BB, ("    let mngo_buyback_price = mngo_asset_price * bonus_factor;", "    let mngo_buyback_price = mngo_asset_price * bonus_factor.max(I80F48::ONE);"))
mut("bb-mngo-usd", "C13", BB, ("    max_buyback_usd = max_buyback_usd.min(max_buyback_mngo * mngo_buyback_price);\n", ""))
mut("bb-token-fee-vault", "C13 C01", "instructions/admin_token_withdraw_fees.rs", ("    bank.fees_withdrawn += amount;", "    bank.fees_withdrawn += fees;"))
mut("bb-token-fee-round", "C13", "instructions/admin_token_withdraw_fees.rs", ("bank.collected_fees_native.floor()", "bank.collected_fees_native.ceil()"))
mut("bb-perp-fee", "C13", "instructions/admin_perp_withdraw_fees.rs", ("perp_market.fees_settled.floor()", "perp_market.fees_settled.round()"))
mut("bb-perp-fee-vault", "C13", "instructions/admin_perp_withdraw_fees.rs", ("    perp_market.fees_withdrawn += amount;", "    perp_market.fees_withdrawn = perp_market.fees_settled.floor().to_num::<u64>();"))
mut("bb-ins", "C13", "instructions/group_withdraw_insurance_fund.rs", ("        amount.min(ctx.accounts.insurance_vault.amount),", "        amount.min(ctx.accounts.insurance_vault.amount.saturating_sub(1)),"))
MA = "state/mango_account.rs"
mut("ac-oo-blocked", "C31", MA, ("                blocked_perp_oo = idx + 1;", "                blocked_perp_oo = (idx + 1).min(new_header.perp_oo_count().max(idx));"))
mut("ac-oo-count", "C31", MA, ("                blocked_perp_oo = idx + 1;\n                break;", "                blocked_perp_oo += 1;"))
mut("ac-tcs-left", "C31", MA, ("            if new_tcs_start < old_tcs_start && active_tcs > 0 {", "            if new_tcs_start < old_tcs_start && active_tcs > 0 && new_header.perp_oo_count < old_header.perp_oo_count {"))
mut("ac-perp-right", "C31", MA, ("            if new_perp_start > old_perp_start && active_perp_positions > 0 {", "            if new_perp_start > old_perp_start && active_perp_positions > 1 {"))
mut("ac-serum-default", "C31", MA, ("for i in active_serum3_orders..new_header.serum3_count() {", "for i in active_serum3_orders.max(old_header.serum3_count())..new_header.serum3_count() {"))
mut("ac-perp-default", "C31", MA, ("for i in active_perp_positions..new_header.perp_count() {", "for i in active_perp_positions + 1..new_header.perp_count() {"))
mut("ac-health-limit", "C31", MA, ("self.token_count() * 2 + self.serum3_count() + self.perp_count() * 2", "self.token_count() * 2 + self.serum3_count() + self.perp_count()"))
mut("ac-tcs-limit", "C31", MA, ("        if self.token_conditional_swap_count > prev.token_conditional_swap_count {", "        if self.token_conditional_swap_count > prev.token_conditional_swap_count && self.perp_oo_count >= prev.perp_oo_count {"))
mut("ac-fit-tcs", "C31", MA, ("        require_gte!(new_header.token_conditional_swap_count(), active_tcs);", "        require_gte!(new_header.token_conditional_swap_count().max(1), active_tcs);"))
mut("ac-expand-excess", "C31", "instructions/account_expand.rs", ("let excess = current_lamports - new_rent_minimum;", "let excess = current_lamports - new_rent_minimum.min(current_lamports / 2);"))
mut("ac-migrate-max", "C31", "instructions/account_size_migration.rs", (".active_serum3_orders()\n                .count()\n                .max(4)", ".active_serum3_orders()\n                .count()\n                .max(2)"))
mut("ac-migrate-tok", "C31", "instructions/account_size_migration.rs", ("                .active_token_positions()\n                .count()\n                .max(8)", "                .active_token_positions()\n                .count()\n                .max(9)"))
mut("ac-close-perp", "C31", "instructions/account_close.rs", ("        for ele in account.all_perp_positions() {\n            require_eq!(ele.is_active(), false);", "        for ele in account.all_perp_positions() {\n            require_eq!(ele.is_active() && ele.has_open_orders(), false);"))
mut("ac-close-force", "C31", "instructions/account_close.rs", ("        require!(!account.fixed.being_liquidated(), MangoError::SomeError);\n", ""))
mut("ac-create-limit", "C31", "instructions/account_create.rs", ("header.check_resize_from(&MangoAccountDynamicHeader::zero())?;", "header.check_resize_from(&header)?;"))
mut("ac-seq-sat", "C31", "instructions/sequence_check.rs", ("wrapping_add(1)", "saturating_add(1)"))
mut("ac-temp-expiry", "C31", "instructions/account_edit.rs", ("            account.fixed.temporary_delegate = temporary_delegate;", "            account.fixed.temporary_delegate = temporary_delegate;\n            if temporary_delegate == Pubkey::default() { account.fixed.delegate = temporary_delegate; }"))
mut("ac-defrag-serum", "C31", MA, ("                let dst = old_header.serum3_offset(active_serum3_orders);", "                let dst = old_header.serum3_offset(active_serum3_orders.max(i.saturating_sub(1)));"))
mut("ac-header", "C31", MA, ("                    > token_conditional_swap_vec_offset + BORSH_VEC_SIZE_BYTES\n", "                    >= token_conditional_swap_vec_offset + BORSH_VEC_SIZE_BYTES + DYNAMIC_RESERVED_BYTES + size_of::<TokenConditionalSwap>()\n"))

# slots (C32)
mut("ms-deact-hold", "C32", MA, ("        let settle_token_position = self.token_position_mut(settle_token_index)?.0;\n        settle_token_position.decrement_in_use();\n\n        Ok(())\n    }\n\n    pub fn find_first", "        let settle_token_position = self.token_position_mut(settle_token_index)?.0;\n        if settle_token_position.in_use_count < 3 {\n            settle_token_position.decrement_in_use();\n        }\n\n        Ok(())\n    }\n\n    pub fn find_first"))
mut("ms-ensure-perp", "C32", MA, ("                settle_token_position.increment_in_use();", "                if !settle_token_position.is_in_use() {\n                    settle_token_position.increment_in_use();\n                }"))
mut("ms-serum-base", "C32", "instructions/serum3_create_open_orders.rs", ("    base_position.increment_in_use();", "    if !base_position.is_in_use() {\n        base_position.increment_in_use();\n    }"))
mut("ms-serum-close", "C32", "instructions/serum3_close_open_orders.rs", ("    base_position.decrement_in_use();", "    if base_position.in_use_count > 1 {\n        base_position.decrement_in_use();\n    }"))
mut("ms-tcs-same", "C32", "instructions/token_conditional_swap_create.rs", ("        sell_pos.increment_in_use();", "        if sell_pos.in_use_count < 2 {\n            sell_pos.increment_in_use();\n        }"))
mut("ms-tcs-trig", "C32", "instructions/token_conditional_swap_trigger.rs", ("        liqee.token_decrement_dust_deactivate(sell_bank, now_ts, liqee_key)?;\n    }", "        if tcs.sold > 0 || tcs.bought > 0 {\n            liqee.token_decrement_dust_deactivate(sell_bank, now_ts, liqee_key)?;\n        }\n    }"))
mut("ms-tcs-id", "C32", "instructions/token_conditional_swap_create.rs", ("    let id = account.fixed.next_token_conditional_swap_id;\n", "    let id = account.fixed.next_token_conditional_swap_id.max(account.active_token_conditional_swaps().count() as u64 * 2);\n"))
mut("ms-inuse-cap", "C32", "state/mango_account_components.rs", ("        self.in_use_count += 1; // panic on overflow", "        self.in_use_count = (self.in_use_count + 1).min(3); // panic on overflow"))
mut("ms-perp-order-slot", "C15", MA, ("        if is_active && order_id_match {\n            oo.clear();", "        if is_active && (order_id_match || oo.quantity == quantity) {\n            oo.clear();"))

# checked_math (C34)
CK = "lib/checked_math/src/transform/checked.rs"
mut("cm-rem", "C34", CK, ('BinOp::Rem(_) => Some("checked_rem"),', 'BinOp::Rem(_) => Some("checked_rem_euclid"),'))
mut("cm-neg", "C34", CK, ("Some(e) => e.checked_neg(),", "Some(e) => Some(e.wrapping_neg()),"))
mut("cm-lazy", "C34", CK, ("""                    match (#left, #right) {
                        (Some(left), Some(right)) => left.#method_name(right),
                        _ => None
                    }
""", """                    match #left {
                        Some(left) => #right.and_then(|right| left.#method_name(right)),
                        None => None
                    }
"""))
mut("cm-cast", "C34", CK, ("        Expr::Cast(c) => contains_math(&c.expr),\n", "        Expr::Cast(_) => false,\n"), why="cast receivers only")
mut("cm-unary", "C34", CK, ("Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)),", "Expr::Unary(_) => false,"))
mut("cm-div", "C34", CK, ("BinOp::DivEq(t) => BinOp::Div(syn::token::Div(t.spans[0])),", "BinOp::DivEq(t) => BinOp::Rem(syn::token::Rem(t.spans[0])),"))

# margin-trade (C35)
MT = "programs/margin-trade/src/lib.rs"
mut("mt-min", "C35", MT, ("            amount_to,\n        )?;", "            amount_to.min(ctx.accounts.deposit_account.amount.saturating_add(amount_from)),\n        )?;"))
mut("mt-net", "C35", MT, ("token::transfer(ctx.accounts.transfer_from_mango_vault_ctx(), amount_from)?;", "token::transfer(ctx.accounts.transfer_from_mango_vault_ctx(), amount_from - (amount_from == amount_to) as u64)?;"))
mut("mt-auth", "C35", MT, ("            authority: self.deposit_account_owner.to_account_info(),", "            authority: if self.deposit_account.amount > 0 { self.deposit_account_owner.to_account_info() } else { self.withdraw_account_owner.to_account_info() },"))

# logs (C40)
I = "instructions/"
mut("lg-liq-index", "C40", I+"token_liq_with_token.rs", ("""        indexed_position: liqor_liab_indexed_position.to_bits(),
        deposit_index: liab_bank.deposit_index.to_bits(),
        borrow_index: liab_bank.borrow_index.to_bits(),""", """        indexed_position: liqor_liab_indexed_position.to_bits(),
        deposit_index: liab_bank.deposit_index.to_bits(),
        borrow_index: asset_bank.borrow_index.to_bits(),"""))
mut("lg-flash-amount", "C40", I+"flash_loan.rs", ("            change_amount: change.amount.to_bits(),", "            change_amount: (change_amount + swap_fee).to_bits(),"))
mut("lg-tcs-sell", "C40", I+"token_conditional_swap_trigger.rs", ("        sell_amount: sell_token_amount_from_liqee,", "        sell_amount: sell_token_amount_from_liqee - maker_fee,"))
mut("lg-deact", "C40", MA, ("        assert!(token_position.in_use_count == 0);\n        emit_stack(DeactivateTokenPositionLog {", "        assert!(token_position.in_use_count == 0);\n        if token_position.cumulative_deposit_interest != 0.0 || token_position.cumulative_borrow_interest != 0.0 || token_position.previous_index == I80F48::ONE\n        {\n        emit_stack(DeactivateTokenPositionLog {"), ("            cumulative_borrow_interest: token_position.cumulative_borrow_interest,\n        });\n        self.token_position_mut_by_raw_index(raw_index).token_index = TokenIndex::MAX;", "            cumulative_borrow_interest: token_position.cumulative_borrow_interest,\n        });\n        }\n        self.token_position_mut_by_raw_index(raw_index).token_index = TokenIndex::MAX;"))
mut("lg-fund-after", "C40", "state/perp_market.rs", ("            short_funding: self.short_funding.to_bits(),\n            price", "            short_funding: (self.short_funding - funding_delta * funding_delta).to_bits(),\n            price"))
mut("lg-borrow-interest", "C40", "state/bank.rs", ("            position.cumulative_borrow_interest -= interest;", "            position.cumulative_borrow_interest += interest.abs() * (if position.indexed_position.is_positive() { 0.0 } else { 1.0 });"))
mut("lg-prev-index", "C40", "state/bank.rs", ("        if position.indexed_position.is_positive() {\n            position.previous_index = self.deposit_index", "        if opening_indexed_position.is_positive() {\n            position.previous_index = self.deposit_index"))
mut("lg-settle-fee", "C40", I+"perp_settle_pnl.rs", ("        fee: fee.to_bits(),", "        fee: fee.min(settlement - fee).to_bits(),"))
mut("lg-selftrade", "C40", I+"perp_consume_events.rs", ("""                    emit_perp_balances(
                        group_key,
                        fill.taker,
                        taker""", """                    emit_perp_balances(
                        group_key,
                        fill.maker,
                        taker"""))
mut("lg-withdraw-loan", "C40", I+"token_withdraw.rs", ("            loan_origination_fee: withdraw_result.loan_origination_fee.to_bits(),", "            loan_origination_fee: (withdraw_result.loan_amount * bank.loan_origination_fee_rate).to_bits(),"))
mut("lg-bankr", "C40", I+"token_liq_bankruptcy.rs", ("    let starting_deposit_index = liab_deposit_index;\n    if insurance", "    let mut starting_deposit_index = liab_deposit_index;\n    if insurance"), ("        liab_deposit_index = new_deposit_index;", "        starting_deposit_index = new_deposit_index;\n        liab_deposit_index = new_deposit_index;"))
mut("lg-perpbal", "C40", "logs.rs", ("        short_settled_funding: pp.short_settled_funding.to_bits(),", "        short_settled_funding: if pp.base_position_lots() >= 0 { pp.long_settled_funding.to_bits() } else { pp.short_settled_funding.to_bits() },"))
mut("lg-oo-free", "C40", I+"serum3_cancel_order_by_client_order_id.rs", ("        quote_free: after_oo.native_quote_free(),", "        quote_free: after_oo.native_quote_total(),"))
mut("lg-idx-total", "C40", I+"token_update_index_and_rate.rs", ("            total_deposits: (deposit_index * indexed_total_deposits).to_bits(),", "            total_deposits: (some_bank.deposit_index * some_bank.indexed_deposits).to_bits(),"))
mut("lg-take-pen", "C40", "state/orderbook/book.rs", ("                fee_penalty: fee_penalty.to_bits(),", "                fee_penalty: if total_quote_lots_taken > decremented_quote_lots { I80F48::ZERO } else { fee_penalty }.to_bits(),"))

# feeds and crank
FF = "bin/service-mango-fills/src/fill_event_filter.rs"
FL = "bin/service-mango-fills/src/lib.rs"
OF = "bin/service-mango-orderbook/src/orderbook_filter.rs"
CP = "bin/service-mango-crank/src/mango_v4_perp_crank_sink.rs"
CS = "bin/service-mango-crank/src/openbook_crank_sink.rs"
LF = "lib/mango-feeds-lib/src/lib.rs"
mut("ff-window", "C41", FF, ("let start_seq_num = max(prev_seq_num, header.seq_num).sat", "let start_seq_num = prev_seq_num.min(header.seq_num).sat"))
mut("ff-window2", "C41", FF, ("let start_seq_num = max(prev_seq_num, header.seq_num).sat", "let start_seq_num = header.seq_num.sat"))
mut("ff-new", "C41", FF, ("        if seq_num >= prev_seq_num {\n            debug", "        if seq_num > prev_seq_num {\n            debug"))
mut("ff-type", "C41", FF, ("            || prev_events[idx].padding != events[idx].padding\n", ""))
mut("ff-type2", "C41", FF, ("prev_events[idx].event_type != events[idx].event_type\n            || ", ""))
mut("ff-norevoke", "C41", FF, ("for seq_num in header.seq_num..prev_seq_num {", "for seq_num in (header.seq_num + 1)..prev_seq_num {"))
mut("ff-head", "C41", FF, ("if head != prev_head {", "if head > prev_head {"))
mut("ff-version", "C41", FF, ("if evq_version.0 == last_evq_version.0 && evq_version.1 < last_evq_version.1", "if evq_version.0 == last_evq_version.0 && evq_version.1 <= last_evq_version.1 + 1"))
mut("ff-version2", "C41", FF, ("if evq_version == *last_evq_version {", "if evq_version.1 == last_evq_version.1 || evq_version.0 == last_evq_version.0 {"))
mut("ff-status", "C41", FL, ('serializer.serialize_unit_variant("FillUpdateStatus", 1, "revoke")', 'serializer.serialize_unit_variant("FillUpdateStatus", 1, "new")'))
mut("ff-side", "C41", FL, ("            Side::Ask => OrderbookSide::Ask,\n            Side::Bid => OrderbookSide::Bid,\n        };\n        let price = price_lots_to_ui_perp(", "            Side::Ask => OrderbookSide::Bid,\n            Side::Bid => OrderbookSide::Ask,\n        };\n        let price = price_lots_to_ui_perp("))
mut("ff-qty", "C41 C42", LF, ("native as f64 * (base_lot_size as f64 / (10i64.pow(decimals.into()) as f64))", "((native * base_lot_size) / 10i64.pow(decimals.into())) as f64"))
mut("ob-level", "C42", OF, ("                level_update.push([previous_level[0], 0f64]);", "                if current_bookside.len() < previous_bookside.len() {\n                    level_update.push([previous_level[0], 0f64]);\n                }"))
mut("ob-swap", "C42", OF, ("                OrderbookSide::Ask => (other_orders, current_orders),", "                OrderbookSide::Ask => (current_orders, other_orders),"))
mut("ob-levelqty", "C42", OF, ("if previous_level[1] == current_level[1] {", "if previous_level[1] >= current_level[1] {"))
mut("ob-time", "C42", OF, (".iter_valid(time_now, oracle_price_lots)", ".iter_all_including_invalid(time_now, oracle_price_lots)"))
mut("ob-time2", "C42", OF, (".iter_valid(time_now, oracle_price_lots)", ".iter_valid(0, oracle_price_lots)"))
mut("ob-oracle", "C42", OF, ("                            if !side_info\n                                .is_newer_than(last_side_write_version.0, last_side_write_version.1)\n                                && !oracle_info", "                            if !side_info\n                                .is_newer_than(last_side_write_version.0, last_side_write_version.1)\n                                || !oracle_info"))
mut("ob-cache", "C42", OF, ("                                    bookside_cache.insert(side_pk_string.clone(), bookside.clone());", "                                    if !bookside.is_empty() {\n                                        bookside_cache.insert(side_pk_string.clone(), bookside.clone());\n                                    }"))
mut("ob-serum", "C42", OF, (".iter(side == 0)", ".iter(side == 1)"))
mut("ob-serum2", "C42", OF, ("if write_version <= *last_write_version {", "if write_version.1 <= last_write_version.1 || write_version.0 <= last_write_version.0 + 1 {"))
mut("cr-take", "C39", CP, (".take(10)", ".take(5)"))
mut("cr-taker", "C39", CP, ("vec![fill.maker, fill.taker]", "vec![fill.taker]"))
mut("cr-backlog", "C39", CP, ("event_queue.iter().count() > MAX_BACKLOG", "event_queue.iter().count() > MAX_BACKLOG + 1"))
mut("cr-limit", "C39", CP, ("limit: 10,", "limit: 5,"))
mut("cr-serum", "C39", CS, ("(seq_num - count + i) % events.len() as u64", "(header.head + i) % (events.len() as u64 + 1)"))
mut("cr-serum2", "C39", CS, ("ConsumeEvents(count as u16)", "ConsumeEvents(count as u8 as u16 / 2)"))
mut("cr-serum3", "C39", CS, ("let has_backlog = events.len() > MAX_BACKLOG;", "let has_backlog = count as usize >= MAX_BACKLOG;"))
# --- C01..C08: token books, limits, interest, liquidation, bankruptcy, winding down
BN = "state/bank.rs"
mut("tk-round-up-always", "C03", BN, ("            if (indexed * index) < native {\n                indexed + I80F48::DELTA", "            if (indexed * index) <= native {\n                indexed + I80F48::DELTA"))
mut("tk-no-round-up", "C03 C01", BN, ("                indexed + I80F48::DELTA\n            } else {\n                indexed\n", "                indexed\n            } else {\n                indexed\n"))
mut("tk-dust-deposit", "C01", BN, ("                self.dust += new_native_position;\n                self.indexed_borrows += position.indexed_position;", "                self.indexed_borrows += position.indexed_position;"))
mut("tk-dust-borrows", "C01 C03", BN, ("                self.dust += new_native_position;\n                self.indexed_borrows += position.indexed_position;\n", "                self.dust += new_native_position;\n                self.indexed_borrows -= indexed_change;\n"))
mut("tk-dust-withdraw-total", "C01 C03", BN, ("                    self.dust += new_native_position;\n                    self.indexed_deposits -= position.indexed_position;", "                    self.dust += new_native_position;\n                    self.indexed_deposits -= native_amount / self.deposit_index;"))
mut("tk-dust-inuse", "C32 C01", BN, ("                position,\n                native_amount,\n                false,\n                !position.is_in_use(),\n                now_ts,\n            )?\n            .position_is_active;\n\n        Ok(position_is_active)\n    }\n\n    /// Like `withdraw_without_fee()`", "                position,\n                native_amount,\n                false,\n                true,\n                now_ts,\n            )?\n            .position_is_active;\n\n        Ok(position_is_active)\n    }\n\n    /// Like `withdraw_without_fee()`"))
mut("tk-deposit-inuse-dust", "C32 C03", BN, ("self.deposit_internal_wrapper(position, native_amount, !position.is_in_use(), now_ts)", "self.deposit_internal_wrapper(position, native_amount, true, now_ts)"))
mut("tk-fee-uncollected", "C03 C01", BN, ("            self.collected_fees_native += loan_origination_fee;\n            native_amount += loan_origination_fee;", "            native_amount += loan_origination_fee;"))
mut("tk-fee-whole", "C03", BN, ("            loan_origination_fee = self.loan_origination_fee_rate * native_amount;", "            loan_origination_fee = self.loan_origination_fee_rate * (native_amount + native_position.max(I80F48::ZERO));"))
mut("tk-withdraw-all-deposits", "C01 C03", BN, ("            // withdraw all deposits\n            self.indexed_deposits -= position.indexed_position;", "            // withdraw all deposits\n            self.indexed_deposits -= native_position / self.deposit_index;"))
mut("tk-repay-over", "C01 C03", BN, ("            native_amount = new_native_position.max(I80F48::ZERO);", "            native_amount = (native_amount - native_position.abs().ceil()).max(I80F48::ZERO);"))
mut("nb-window-gt", "C04", BN, ("            now_ts >= self.last_net_borrows_window_start_ts + self.net_borrow_limit_window_size_ts;", "            now_ts > self.last_net_borrows_window_start_ts + self.net_borrow_limit_window_size_ts;"))
mut("nb-window-now", "C04", BN, ("            self.last_net_borrows_window_start_ts = now_ts / self.net_borrow_limit_window_size_ts\n                * self.net_borrow_limit_window_size_ts;", "            self.last_net_borrows_window_start_ts = now_ts;"))
mut("nb-window-carry", "C04", BN, ("                * self.net_borrow_limit_window_size_ts;\n            amount\n", "                * self.net_borrow_limit_window_size_ts;\n            amount + self.net_borrows_in_window.min(0)\n"))
mut("nb-floor", "C04", BN, ("        let amount = native_amount.ceil().clamp_to_i64();", "        let amount = native_amount.floor().clamp_to_i64();"))
mut("nb-repay-ignored", "C04", BN, ("            self.net_borrows_in_window + amount\n", "            self.net_borrows_in_window + amount.max(0)\n"))
mut("nb-price-min", "C04", BN, ("        let price = oracle_price.max(self.stable_price());\n        let net_borrows_quote", "        let price = oracle_price.min(self.stable_price());\n        let net_borrows_quote"))
mut("nb-price-oracle", "C04", BN, ("        let price = oracle_price.max(self.stable_price());\n        let net_borrows_quote", "        let price = oracle_price;\n        let net_borrows_quote"))
mut("nb-limit-zero", "C04", BN, ("self.net_borrow_limit_per_window_quote < 0 {", "self.net_borrow_limit_per_window_quote <= 0 {"))
mut("nb-boundary", "C04", BN, ("        if remaining_quote < 0 {", "        if remaining_quote <= 0 {"))
mut("nb-nofee", "C04", BN, ("        self.update_net_borrows(native_amount, now_ts);\n\n        Ok(WithdrawResult", "        self.update_net_borrows(native_amount - loan_origination_fee, now_ts);\n\n        Ok(WithdrawResult"))
mut("dl-serum", "C04 C29", BN, ("        let deposits = self.native_deposits();\n        let serum = I80F48::from(self.potential_serum_tokens);\n        let total = deposits + serum;", "        let deposits = self.native_deposits();\n        let serum = I80F48::from(self.potential_serum_tokens);\n        let total = deposits.max(serum);"))
mut("dl-boundary", "C04", BN, ("        if remaining < 0 {", "        if remaining <= 0 {"))
mut("dl-net", "C04", BN, ("        // Intentionally does not use remaining_deposits_until_limit(): That function\n        // returns slightly less than the true limit to make sure depositing that amount\n        // will not cause a limit overrun.\n        let deposits = self.native_deposits();", "        let deposits = (self.native_deposits() - self.native_borrows()).max(I80F48::ZERO);"))
mut("ut-min-vault", "C04", BN, ("I80F48::ONE - I80F48::from_num(self.min_vault_to_deposits_ratio),", "(I80F48::ONE - I80F48::from_num(self.min_vault_to_deposits_ratio)).max(I80F48::from_num(0.9)),"))
mut("ut-boundary", "C04", BN, ("if bank_native_borrows > max_utilization * bank_native_deposits {", "if bank_native_borrows >= max_utilization * bank_native_deposits {"))
mut("ro-borrows", "C04 C38", BN, ("        self.reduce_only == 1 || self.reduce_only == 2", "        self.reduce_only == 1"))
TDP = "instructions/token_deposit.rs"
TWD = "instructions/token_withdraw.rs"
mut("td-reduce-accept", "C04 C03", TDP, ("                    reduce_only || amount_i80f48 == I80F48::from(amount),", "                    reduce_only || amount_i80f48.is_positive(),"))
mut("td-reduce-floor", "C03", TDP, ("                    .abs()\n                    .ceil()\n", "                    .abs()\n                    .floor()\n"))
mut("td-limit-ifborrow", "C04", TDP, ("        if indexed_position > 0 {\n            bank.check_deposit_and_oo_limit()?;", "        if indexed_position > 0 && !reduce_only && bank.indexed_borrows.is_zero() {\n            bank.check_deposit_and_oo_limit()?;"))
mut("td-recover", "C03 C02", TDP, ("            require!(recovered, MangoError::DepositsIntoLiquidatingMustRecover);", "            require!(recovered || health >= 0, MangoError::DepositsIntoLiquidatingMustRecover);\n            account.fixed.set_being_liquidated(!recovered && amount_i80f48 < 1);"))
mut("td-recover-any", "C03 C02", TDP, ("            require!(recovered, MangoError::DepositsIntoLiquidatingMustRecover);", "            require!(recovered || allow_token_account_closure, MangoError::DepositsIntoLiquidatingMustRecover);"))
mut("td-netdep", "C03", TDP, ("        let amount_usd = (amount_i80f48 * unsafe_oracle_price).to_num::<i64>();", "        let amount_usd = (I80F48::from(amount) * unsafe_oracle_price).to_num::<i64>();"))
mut("td-group-limit", "C04 C03", TDP, ("        if group.deposit_limit_quote > 0 {", "        if group.deposit_limit_quote > 0 && indexed_position.is_negative() {"))
mut("td-group-limit-type", "C04 C03", TDP, ("                .health_assets_and_liabs_stable_assets(HealthType::Init)", "                .health_assets_and_liabs_stable_assets(HealthType::LiquidationEnd)"))
mut("tw-isborrow", "C03 C04", TWD, ("    let is_borrow = amount > native_position;", "    let is_borrow = amount > native_position.ceil();"))
mut("tw-reduce", "C04", TWD, ("        require!(!is_borrow, MangoError::TokenInReduceOnlyMode);", "        require!(!is_borrow || native_position.is_negative(), MangoError::TokenInReduceOnlyMode);"))
mut("tw-util", "C04 C03", TWD, ("    } else {\n        bank.enforce_borrows_lte_deposits()?;\n    }", "    }"))
mut("tw-missing-bank", "C02 C03", TWD, ("            require!(!is_borrow, MangoError::BorrowsRequireHealthAccountBank);\n", ""))
mut("tw-strict", "C02 C03", TWD, ("            account.check_health_post_checks_strict(post_init_health_lower_bound)?;", "            account.check_health_post_checks(pre_init_health_lower_bound, post_init_health_lower_bound)?;"))
mut("tw-delegate-close", "C22 C03", TWD, ("            !withdraw_result.position_is_active,\n            MangoError::DelegateWithdrawMustClosePosition", "            !withdraw_result.position_is_active || native_position_after < native_position,\n            MangoError::DelegateWithdrawMustClosePosition"))
mut("tw-conf", "C26 C03 C04", TWD, ("            .check_confidence_and_maybe_staleness(&bank.oracle_config, now_opt)\n", "            .check_confidence_and_maybe_staleness(&bank.oracle_config, None)\n"))
TUI = "instructions/token_update_index_and_rate.rs"
mut("ui-first-bank", "C05", TUI, ("        indexed_total_borrows += bank.indexed_borrows;", "        indexed_total_borrows = indexed_total_borrows.max(bank.indexed_borrows);"))
mut("ui-cap", "C05", TUI, ("(now_ts - some_bank.index_last_updated).min(max_interest_timestep));", "now_ts - some_bank.index_last_updated);"))
mut("ui-hour", "C05", TUI, ("        if diff_ts > HOUR {", "        if diff_ts >= HOUR {"))
mut("ui-updated", "C05", TUI, ("            bank.index_last_updated = now_ts;", "            bank.index_last_updated = bank.index_last_updated.max(now_ts.min(bank.index_last_updated + 3600));"))
mut("ui-maint", "C05 C38 C28", TUI, ("            && now_ts >= some_bank.maint_weight_shift_end;", "            && now_ts >= some_bank.maint_weight_shift_start;"))
mut("ui-maint-first", "C05", TUI, ("            if maint_shift_done {\n", "            if maint_shift_done && bank.bank_num == 0 {\n"))
mut("ui-gate-cpi", "C05", TUI, ("                            ))) || (ix.program_id == compute_budget::id()),", "                            ))) || (ix.program_id == compute_budget::id()) || index > 1,"))
mut("ui-rate-first", "C05", TUI, ("                bank.interest_curve_scaling = scaling;", "                if bank.bank_num == 0 { bank.interest_curve_scaling = scaling; }"))
mut("ui-fees", "C05 C01", TUI, ("        some_bank.collected_fees_native += borrow_fees;", "        some_bank.collected_fees_native = some_bank.collected_fees_native.max(borrow_fees);"))
mut("ui-early", "C05 C26", TUI, ("                    msg!(\"Invalid oracle state: {}\", e);\n", "                    msg!(\"Invalid oracle state: {}\", e);\n                    some_bank.index_last_updated = now_ts;\n"))
mut("ui-disc", "C05", TUI, ("                        == crate::instruction::TokenUpdateIndexAndRate::discriminator()\n", "                        != crate::instruction::TokenWithdraw::discriminator()\n"))
mut("ci-clamp", "C05", BN, ("            (native_total_borrows / native_total_deposits)\n                .max(I80F48::ZERO)\n                .min(I80F48::ONE)", "            (native_total_borrows / native_total_deposits)\n                .max(I80F48::ZERO)"))
mut("ci-fee-depositors", "C05 C01", BN, ("        let deposit_rate = borrow_rate * instantaneous_utilization;", "        let deposit_rate = (borrow_rate + self.loan_fee_rate) * instantaneous_utilization;"))
mut("ci-avg", "C05", BN, ("        (self.avg_utilization * previous_avg_time + instantaneous_utilization * diff_ts)\n", "        (self.avg_utilization * diff_ts + instantaneous_utilization * previous_avg_time)\n"))
mut("ci-scale-min", "C05", BN, ("(self.interest_curve_scaling * adjustment).max(1.0)", "(self.interest_curve_scaling * adjustment).max(0.1)"))
mut("ci-factor", "C05", BN, ("            (avg_util - target_util) / (1.0 - target_util)\n", "            (avg_util - target_util) / target_util\n"))
mut("ci-curve-util1", "C05", BN, ("            let slope = (max_rate - rate1) / (I80F48::ONE - util1);\n", "            let slope = (max_rate - rate1) / (I80F48::ONE - util0);\n"))
mut("ci-zero-util", "C05", BN, ("            zero_util_rate + slope * utilization\n", "            slope * utilization\n"))
mut("ci-interest-neg", "C40", BN, ("            position.cumulative_borrow_interest -= interest;", "            position.cumulative_borrow_interest += interest;"))
TLT = "instructions/token_liq_with_token.rs"
mut("tl-asset-health", "C06", TLT, ("        .min(liqee_asset_health_balance)\n", ""))
mut("tl-feefactor", "C06", TLT, ("        (I80F48::ONE + liab_bank.liquidation_fee + liab_bank.platform_liquidation_fee)\n            * (I80F48::ONE + asset_bank.liquidation_fee + asset_bank.platform_liquidation_fee);", "        (I80F48::ONE + liab_bank.liquidation_fee)\n            * (I80F48::ONE + asset_bank.liquidation_fee)\n            + liab_bank.platform_liquidation_fee.max(asset_bank.platform_liquidation_fee);"))
mut("tl-needed", "C06", TLT, ("(liab_liq_end_price * init_liab_weight - liab_oracle_price_adjusted * init_asset_weight);", "(liab_liq_end_price * init_liab_weight - liab_oracle_price * fee_factor_liqor * init_asset_weight);"))
mut("tl-possible", "C06", TLT, ("max_asset_transfer * asset_oracle_price / liab_oracle_price_adjusted;", "max_asset_transfer * asset_oracle_price / (liab_oracle_price * fee_factor_liqor);"))
mut("tl-liqor-health", "C06 C02", TLT, ("            HealthType::Init,\n            &account_retriever,\n            now_ts,\n        )\n        .context(\"compute liqor health\")?;", "            HealthType::Maint,\n            &account_retriever,\n            now_ts,\n        )\n        .context(\"compute liqor health\")?;"))
mut("tl-liqor-bl", "C06", TLT, ("        !liqor.fixed.being_liquidated(),\n", "        !liqor.fixed.being_liquidated() || liqor.fixed.is_owner_or_delegate(ctx.accounts.liqor_owner.key()),\n"))
mut("tl-phase", "C06", TLT, ("    liqee_health_cache.require_after_phase1_liquidation()?;\n", ""))
mut("tl-asset-disabled", "C06 C08", TLT, ("        asset_bank.allows_asset_liquidation(),\n", "        asset_bank.allows_asset_liquidation() || liqee_asset_native > max_liab_transfer,\n"))
mut("tl-dust", "C06 C07", TLT, ("        liab_bank.deposit_with_dusting(liqee_liab_position, liab_transfer, now_ts)?;", "        liab_bank.deposit(liqee_liab_position, liab_transfer, now_ts)?;"))
mut("tl-fee-collected", "C06 C01", TLT, ("    asset_bank.collected_fees_native += asset_liquidation_fee;", "    liab_bank.collected_fees_native += asset_liquidation_fee;"))
mut("tl-origination", "C06", TLT, ("        liab_bank.withdraw_with_fee(liqor_liab_position, liab_transfer, now_ts)?;", "        liab_bank.change_with_fee(liqor_liab_position, -liab_transfer.ceil(), now_ts)?;"))
mut("tl-self", "C06", TLT, ("    require_keys_neq!(ctx.accounts.liqor.key(), ctx.accounts.liqee.key());\n", ""))
TLB = "instructions/token_liq_bankruptcy.rs"
mut("tb-phase", "C07", TLB, ("    liqee_health_cache.require_after_phase2_liquidation()?;\n", "    liqee_health_cache.require_after_phase1_liquidation()?;\n"))
mut("tb-nofee", "C07", TLB, ("            liab_oracle_price * (I80F48::ONE + liab_bank.liquidation_fee) / insurance_price", "            liab_oracle_price * (I80F48::ONE + _insurance_bank.liquidation_fee) / insurance_price"))
mut("tb-exhausted", "C07", TLB, ("    let insurance_fund_exhausted = insurance_transfer == insurance_vault_amount;", "    let insurance_fund_exhausted = insurance_transfer == insurance_vault_amount || remaining_liab_loss > max_liab_transfer;"))
mut("tb-eligible", "C07", TLB, ("    let insurance_vault_amount = if liab_mint_info.elligible_for_group_insurance_fund() {", "    let insurance_vault_amount = if liab_mint_info.elligible_for_group_insurance_fund() || liab_is_insurance_token {"))
mut("tb-health-bal", "C07", TLB, ("(-initial_liab_native).min(-liqee_liab_health_balance);", "-initial_liab_native;"))
mut("tb-total-first", "C07", TLB, ("            indexed_total_deposits += bank.indexed_deposits;", "            indexed_total_deposits = indexed_total_deposits.max(bank.indexed_deposits);"))
mut("tb-credit", "C07 C01", TLB, ("            let amount_for_bank = amount_to_credit.min(bank.native_borrows());", "            let amount_for_bank = amount_to_credit.min(bank.native_borrows().max(amount_to_credit));"))
mut("tb-liqor-fee", "C07", TLB, ("                liab_bank.withdraw_with_fee(liqor_liab, liab_transfer, now_ts)?;", "                liab_bank.change_with_fee(liqor_liab, -liab_transfer_unrounded, now_ts)?;"))
mut("tb-recover", "C07", TLB, ("    let liqee_liq_end_health = liqee_health_cache.health(HealthType::LiquidationEnd);\n    liqee\n        .fixed\n        .maybe_recover_from_being_liquidated(liqee_liq_end_health);", "    let liqee_liq_end_health = liqee_health_cache.health(HealthType::Maint);\n    liqee\n        .fixed\n        .maybe_recover_from_being_liquidated(liqee_liq_end_health);"))
mut("tb-loss-max", "C07", TLB, ("        let mut amount_to_credit = remaining_liab_loss;", "        let mut amount_to_credit = remaining_liab_loss.min(max_liab_transfer.max(liab_transfer_unrounded));"))
mut("tb-insured-remaining", "C07", TLB, ("        remaining_liab_loss -= liqee_liab.native(liab_bank) - initial_liab_native;", "        remaining_liab_loss -= insurance_transfer_i80f48.min(remaining_liab_loss);"))
TFC = "instructions/token_force_close_borrows_with_token.rs"
mut("tf-mode", "C08", TFC, ("        require!(liab_bank.is_force_close(), MangoError::TokenInForceClose);", "        require!(liab_bank.is_force_close() || liab_bank.are_deposits_reduce_only(), MangoError::TokenInForceClose);"))
mut("tf-liqor-pos", "C08", TFC, ("            .min(liqor_liab_native)\n", ""))
mut("tf-liqee-bal", "C08", TFC, ("            .min(-liqee_liab_native)\n", "            .min((-liqee_liab_native).ceil())\n"))
mut("tf-fee", "C08", TFC, ("        let asset_transfer_to_liqor = asset_transfer_base * fee_factor_liqor;", "        let asset_transfer_to_liqor = asset_transfer_base * fee_factor_total;"))
mut("tf-asset-ro", "C08", TFC, ("            !asset_bank.are_borrows_reduce_only(),\n", "            !asset_bank.are_deposits_reduce_only(),\n"))
mut("tf-weights", "C08", TFC, ("            asset_bank.init_liab_weight * fee_factor_total,\n", "            asset_bank.init_liab_weight * fee_factor_liqor,\n"))
mut("tf-recover", "C08", TFC, ("        let liqee_liq_end_health = liqee_health_cache.health(HealthType::LiquidationEnd);", "        let liqee_liq_end_health = liqee_health_cache.health(HealthType::Maint);"))
TFW = "instructions/token_force_withdraw.rs"
mut("tx-mode", "C08", TFW, ("    require!(bank.is_force_withdraw(), MangoError::SomeError);", "    require!(bank.is_force_withdraw() || bank.is_force_close(), MangoError::SomeError);"))
mut("tx-util", "C08", TFW, ("    bank.enforce_borrows_lte_deposits()?;\n", ""))
mut("tx-amount", "C08 C03", TFW, ("    let amount = native_position.floor().to_num::<u64>();", "    let amount = native_position.ceil().to_num::<u64>();"))
mut("tx-netdep", "C08", TFW, ("    account.fixed.net_deposits -= amount_usd;", "    account.fixed.net_deposits += amount_usd;"))
mut("tx-alternate", "C08 C23", TFW, ("        ctx.accounts.alternate_owner_token_account.to_account_info()\n    };", "        ctx.accounts.owner_ata_token_account.to_account_info()\n    };"))

# --- C36: the Rust client
CL = "lib/client/src/client.rs"; CX = "lib/client/src/context.rs"; CF = "lib/client/src/account_fetcher.rs"; CH = "lib/client/src/health_cache.rs"; CP = "lib/client/src/perp_pnl.rs"
mut("cl-dep-affected", "C36", CL, ("                mango_account,\n                vec![token_index],\n                vec![],\n                vec![],", "                mango_account,\n                vec![],\n                vec![],\n                vec![],"))
mut("cl-wd-owner-ata", "C36", CL, ("token_account: get_associated_token_address(\n                                    &account.fixed.owner,", "token_account: get_associated_token_address(\n                                    &self.authority(),"))
mut("cl-perp-affected", "C36", CL, ("                vec![],\n                vec![],\n                vec![market_index],", "                vec![],\n                vec![],\n                vec![],"))
mut("cl-two-perps", "C36", CX, ("            .active_perp_positions()\n            .chain(account1.active_perp_positions())", "            .active_perp_positions()"))
mut("cl-two-affected", "C36", CX, (".map(|ta| ta.token_index)\n            .chain(affected_tokens.iter().copied())\n            .unique();", ".map(|ta| ta.token_index)\n            .unique();"))
mut("cl-dyn-stale", "C36", CX, ("Some((now_ts, now_slot)),", "None::<(u64, u64)>.filter(|_| now_ts > now_slot),"))
mut("cl-dyn-conf", "C36", CX, ("if oracle_is_valid.is_err() &&", "if state.check_confidence_and_maybe_staleness(&token.oracle_config, None).is_ok() && oracle_is_valid.is_err() &&"))
mut("cl-bankr-banks", "C36", CL, ("            .banks()\n            .iter()", "            .banks()[..1]\n            .iter()"))
mut("cl-charge-writable", "C36", CL, ("account.1.active_token_positions().count()]", "account.1.active_token_positions().count() - 1]"))
mut("cl-tcs-writable", "C36", CL, ("                &affected_tokens,\n                &[tcs.buy_token_index, tcs.sell_token_index],", "                &affected_tokens,\n                &[tcs.buy_token_index],"))
mut("cl-tcs-affected", "C36", CL, ("            .chain(&[tcs.buy_token_index, tcs.sell_token_index])", "            .chain(&[tcs.sell_token_index])"))
mut("cl-s3-receiver", "C36", CL, ("vec![receiver_token.token_index],", "vec![payer_token.token_index],"))
mut("cl-s3-closable", "C36", CL, ("                && open_orders_data.native_coin_total == 0\n", ""))
mut("cl-s3-closable-pc", "C36", CL, ("                && open_orders_data.native_pc_total == 0;", ";"))
mut("cl-dust-limit", "C36", CL, ("if native_balance > I80F48::ONE {", "if native_balance > I80F48::from_num(5) {"))
mut("cl-dust-neg", "C36", CL, ("if native_balance < I80F48::ZERO {", "if native_balance < -I80F48::from_num(100) {"))
mut("cl-perp-replace", "C36", CL, ("            account = modified_account;\n            ixs.append(close_perp_ixs);", "            account = modified_account;\n            if max_base_lots > 1 {\n                ixs.append(close_perp_ixs);\n            }"))
mut("cl-perp-replace-metas", "C36", CL, ("            account = modified_account;\n", "            let _ = modified_account;\n"))
mut("cl-prog-key", "C36", CF, ("let cache_key = (*program, discriminator);", "let cache_key = (*program, [0u8; 8]);"))
mut("cl-clear", "C36", CF, ("        cache.clear();", "        cache.account_jobs = Default::default();"))
mut("cl-hc-serum", "C36", CH, ("        begin_serum3: active_token_len * 2 + active_perp_len * 2,\n        now: None,\n        begin_fallback_oracles: active", "        begin_serum3: active_token_len * 2 + active_perp_len,\n        now: None,\n        begin_fallback_oracles: active"))
mut("cl-hc-sync-serum", "C36", CH, ("        begin_serum3: active_token_len * 2 + active_perp_len * 2,\n        now: None,\n        begin_fallback_oracles: metas.len(),", "        begin_serum3: active_token_len * 2,\n        now: None,\n        begin_fallback_oracles: metas.len(),"))
mut("cl-top-stable", "C36", CP, ("if stable >= count {", "if stable + 1 >= count {"))
mut("cl-top-funding", "C36", CP, ("            perp_pos.settle_funding(&perp_market);\n", ""))
mut("cl-top-limit", "C36", CP, ("perp_pos.apply_pnl_settle_limit(&perp_market, pnl)", "pnl"))
mut("cl-top-maxsettle", "C36", CP, ("(*pnl).max(-perp_max_settle)", "*pnl"))
mut("cl-top-sort", "C36", CP, ("    accounts_pnl.sort_by(|a, b| a.2.cmp(&b.2));\n    }\n\n    // return", "    }\n\n    // return"))
mut("cl-settle-dao", "C36", CL, ("fees_to_dao: true", "fees_to_dao: false"))
mut("cl-cancel-side", "C36", CL, ("                self.serum3_cancel_order(market_name, Serum3Side::Ask, order_id)\n                    .await\n                    .ok();\n", ""))
mut("cl-seq", "C36", CL, ("expected_sequence_number: mango_account.fixed.sequence_number,", "expected_sequence_number: 0,"))
mut("cl-oo-close", "C36", CL, ("let should_close_one_open_orders_account = !has_available_slot || missing_tokens;", "let should_close_one_open_orders_account = !has_available_slot;"))
mut("cl-fixed", "C36", CX, ("&& keys.contains(&token.1.fallback_context.key)", "&& keys.contains(&token.1.oracle)"))
mut("cl-bankr-ins", "C36", CL, ("                &[insurance_info.token_index],\n                &[insurance_info.token_index, liab_token_index],", "                &[],\n                &[liab_token_index],"))
mut("cl-perp-ins", "C36", CL, ("                &[insurance_token_info.token_index],\n                &[],", "                &[],\n                &[],"))
mut("cl-signers", "C36", CL, ("            .unique_by(|s| s.pubkey())\n", "            .take(1)\n"))
mut("cl-fc-limit", "C36", CL, ("&mango_v4::instruction::PerpLiqForceCancelOrders { limit },", "&mango_v4::instruction::PerpLiqForceCancelOrders { limit: limit - 5 },"))
mut("cl-liq-assets", "C36", CL, ("                &[],\n                &[asset_token_index, liab_token_index],", "                &[],\n                &[liab_token_index],"))
HC = "health/client.rs"
mut("ca-stable", "C43", HC, (".saturating_div(net_borrow_price)", ".saturating_div(source_oracle_price)"))
mut("ca-srcpos", "C43", HC, ("            .min(available_net_borrows.saturating_add(source_pos.max(I80F48::ZERO)));", "            .min(available_net_borrows.max(source_pos.max(I80F48::ZERO)));"))
mut("ca-tgtpos", "C43", HC, ("            .min(available_deposits.saturating_add(-target_pos.min(I80F48::ZERO)));", "            .min(available_deposits);"))
mut("ca-tgtprice", "C43", HC, ("        let source = potential_source.min(potential_target.saturating_div(price));", "        let source = potential_source.min(potential_target);"))
mut("ca-slope", "C43", HC, ("            + target.init_asset_weight * target.prices.asset(health_type) * price;", "            + target.maint_asset_weight * target.prices.asset(health_type) * price;"))
mut("ca-rightmost", "C43", HC, (".max((target_balance.abs() + target_reserved) / price);", ".min((target_balance.abs() + target_reserved) / price);"))
mut("ca-rightres", "C43", HC, ("            let rightmost = (source_balance.abs() + source_reserved)", "            let rightmost = (source_balance.abs())"))
mut("ca-rightmost2", "C43", HC, ("                .max((target_balance.abs() + target_reserved) / price);", "                .max(target_balance.abs() / price);"))
mut("ca-scan", "C43", HC, ("                    right_bound,\n                    min_fn_value,\n                    I80F48::from_num(0.1),\n                    fn_value_after_swap,\n                )?\n            } else {\n                binary_search(\n                    zero_health_estimate,\n                    fn_value_after_swap(zero_health_estimate)?,", "                    right_bound,\n                    min_fn_value,\n                    I80F48::from_num(0.1),\n                    fn_value_after_swap,\n                )?\n            } else {\n                binary_search(\n                    amount_for_max_value,\n                    max_value,"))
mut("ca-err", "C43", HC, ("if error > 0 && error < target_error", "if error.abs() < target_error"))
mut("ca-bin", "C43", HC, ("            return Ok(left);\n        }\n        let new", "            return Ok(right);\n        }\n        let new"))
mut("ca-case2", "C43", HC, ("            if case1_start_ratio >= initial_ratio {", "            if case1_start_ratio > min_ratio {"))
mut("ca-perp-dir", "C43", HC, ("-perp_info.init_base_liab_weight * prices.liab(health_type) + price", "-perp_info.init_base_liab_weight * prices.asset(health_type) + price"))
mut("ca-perp-settle", "C43", HC, ("                settle_info.init_asset_weight = settle_info.init_liab_weight;\n                settle_info.init_scaled_asset_weight = settle_info.init_scaled_liab_weight;\n", ""))
mut("ca-perp-overall", "C43", HC, ("            start_cache.perp_infos[perp_info_index].init_overall_asset_weight = I80F48::ONE;\n", ""))
mut("ca-perp-start", "C43", HC, ("initial_base_lots > 0 && direction == -1 || initial_base_lots < 0 && direction == 1;", "initial_base_lots > 0 && direction == -1;"))
mut("ca-borrow-limit", "C43", HC, ("            bank.check_net_borrows(token.prices.oracle)?;\n", ""))
mut("ca-borrow-dep", "C43", HC, ("        let limit = token_balance.max(I80F48::ZERO)\n            + ", "        let limit = "))
mut("ca-borrow-scaled", "C43", HC, ("/ token.init_scaled_liab_weight;", "/ token.init_liab_weight / token.prices.oracle;"))
mut("ca-liq", "C43", HC, ("self.health(HealthType::LiquidationEnd).is_negative()", "self.health(HealthType::Init).is_negative()"))
mut("ca-adjust", "C43", "health/cache.rs", ("        entry.init_scaled_liab_weight = bank.scaled_init_liab_weight(liab_price);\n\n        // Work", "        // Work"))
mut("ca-negsrc", "C43", HC, ("        let potential_source = source_unlimited\n", "        let potential_source = source_unlimited.min(I80F48::from(1_000_000_000))\n"))
mut("ca-reach", "C43", HC, ("        if max_value <= min_fn_value {", "        if max_value <= min_fn_value + I80F48::ONE {"))
