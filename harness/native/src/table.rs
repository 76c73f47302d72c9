// Generated by tools/gen.py.
pub fn find(n: &str) -> Option<fn()> {
    match n {
        #[cfg(feature = "cross")]
        "ics_stake" => Some(h_cross::ics::ics_stake),
        #[cfg(feature = "cross")]
        "out_history" => Some(h_cross::out_history),
        #[cfg(feature = "cross")]
        "out_timeout" => Some(h_cross::out_timeout),
        #[cfg(feature = "cross")]
        "out_auth" => Some(h_cross::out_auth),
        #[cfg(feature = "cross")]
        "lst_chains" => Some(h_cross::list::lst_chains),
        #[cfg(feature = "ctl")]
        "ctl_execute" => Some(h_ctl::ctl_execute),
        #[cfg(feature = "ctl")]
        "ctl_self_only" => Some(h_ctl::ctl_self_only),
        #[cfg(feature = "ctl")]
        "ctl_actions" => Some(h_ctl::ctl_actions),
        #[cfg(feature = "ctl")]
        "lst_props" => Some(h_ctl::list::lst_props),
        #[cfg(feature = "ctl")]
        "ctl_deposit" => Some(h_ctl::more::ctl_deposit),
        #[cfg(feature = "ctl")]
        "ctl_nft_deposit" => Some(h_ctl::more::ctl_nft_deposit),
        #[cfg(feature = "ctl")]
        "ctl_wrong_deposit" => Some(h_ctl::more::ctl_wrong_deposit),
        #[cfg(feature = "ctl")]
        "ctl_vote" => Some(h_ctl::more::ctl_vote),
        #[cfg(feature = "ctl")]
        "ctl_council" => Some(h_ctl::more::ctl_council),
        #[cfg(feature = "ctl")]
        "ctl_council_execute" => Some(h_ctl::more::ctl_council_execute),
        #[cfg(feature = "ctl")]
        "ctl_limits" => Some(h_ctl::more::ctl_limits),
        #[cfg(feature = "ctl")]
        "ctl_weights" => Some(h_ctl::more::ctl_weights),
        #[cfg(feature = "ctl")]
        "ctl_inst" => Some(h_ctl::more::ctl_inst),
        #[cfg(feature = "ctl")]
        "ctl_config_change" => Some(h_ctl::more::ctl_config_change),
        #[cfg(feature = "ctl")]
        "ctl_council_change" => Some(h_ctl::more::ctl_council_change),
        #[cfg(feature = "ctl")]
        "ctl_initial_treasuries" => Some(h_ctl::more::ctl_initial_treasuries),
        #[cfg(feature = "ctl")]
        "ctl_payload" => Some(h_ctl::pay::ctl_payload),
        #[cfg(feature = "ctl")]
        "ctl_creator" => Some(h_ctl::pay::ctl_creator),
        #[cfg(feature = "ctl")]
        "val_assets" => Some(h_ctl::val::val_assets),
        #[cfg(feature = "ctl")]
        "val_nfts" => Some(h_ctl::val::val_nfts),
        #[cfg(feature = "ctl")]
        "val_upgrade" => Some(h_ctl::val::val_upgrade),
        #[cfg(feature = "ctl")]
        "val_msgs" => Some(h_ctl::val::val_msgs),
        #[cfg(feature = "ctl")]
        "val_members" => Some(h_ctl::val::val_members),
        #[cfg(feature = "ctl")]
        "val_funds" => Some(h_ctl::val::val_funds),
        #[cfg(feature = "ctl")]
        "val_council" => Some(h_ctl::val::val_council),
        #[cfg(feature = "dist")]
        "dist_history" => Some(h_dist::dist_history),
        #[cfg(feature = "dist")]
        "dist_between" => Some(h_dist::dist_between),
        #[cfg(feature = "dist")]
        "dist_claim" => Some(h_dist::dist_claim),
        #[cfg(feature = "dist")]
        "dist_auth" => Some(h_dist::dist_auth),
        #[cfg(feature = "dist")]
        "dist_whitelist" => Some(h_dist::dist_whitelist),
        #[cfg(feature = "dist")]
        "dist_inst" => Some(h_dist::dist_inst),
        #[cfg(feature = "dist")]
        "lst_assets" => Some(h_dist::list::lst_assets),
        #[cfg(feature = "dist")]
        "lst_nft_whitelist" => Some(h_dist::list::lst_nft_whitelist),
        #[cfg(feature = "dist")]
        "treas_auth" => Some(h_dist::treas::treas_auth),
        #[cfg(feature = "dist")]
        "treas_spend" => Some(h_dist::treas::treas_spend),
        #[cfg(feature = "dist")]
        "treas_msgs" => Some(h_dist::treas::treas_msgs),
        #[cfg(feature = "dist")]
        "treas_whitelist" => Some(h_dist::treas::treas_whitelist),
        #[cfg(feature = "dist")]
        "treas_nft_whitelist" => Some(h_dist::treas::treas_nft_whitelist),
        #[cfg(feature = "dist")]
        "migrate_token" => Some(h_dist::treas::migrate_token),
        #[cfg(feature = "dist")]
        "migrate_stage" => Some(h_dist::treas::migrate_stage),
        #[cfg(feature = "dist")]
        "migrate_nft" => Some(h_dist::treas::migrate_nft),
        #[cfg(feature = "ent")]
        "ent_upgrade" => Some(h_ent::ent_upgrade),
        #[cfg(feature = "ent")]
        "ent_upgrade_many" => Some(h_ent::ent_upgrade_many),
        #[cfg(feature = "ent")]
        "ent_migrate" => Some(h_ent::ent_migrate),
        #[cfg(feature = "ent")]
        "ent_auth" => Some(h_ent::ent_auth),
        #[cfg(feature = "ent")]
        "ent_metadata" => Some(h_ent::ent_metadata),
        #[cfg(feature = "ent")]
        "ent_finalize" => Some(h_ent::ent_finalize),
        #[cfg(feature = "ent")]
        "ent_attest" => Some(h_ent::ent_attest),
        #[cfg(feature = "ent")]
        "ver_catalog" => Some(h_ent::ver::ver_catalog),
        #[cfg(feature = "ent")]
        "ver_auth" => Some(h_ent::ver::ver_auth),
        #[cfg(feature = "ent")]
        "ver_history" => Some(h_ent::ver::ver_history),
        #[cfg(feature = "ent")]
        "ver_edit" => Some(h_ent::ver::ver_edit),
        #[cfg(feature = "fact")]
        "fcd_info" => Some(h_fact::facade::fcd_info),
        #[cfg(feature = "fact")]
        "fcd_version" => Some(h_fact::facade::fcd_version),
        #[cfg(feature = "fact")]
        "fcd_member" => Some(h_fact::facade::fcd_member),
        #[cfg(feature = "fact")]
        "fcd_props" => Some(h_fact::facade::fcd_props),
        #[cfg(feature = "fact")]
        "fcd_route" => Some(h_fact::facade::fcd_route),
        #[cfg(feature = "fact")]
        "fcd_chains" => Some(h_fact::facade::fcd_chains),
        #[cfg(feature = "fact")]
        "fcd_stake" => Some(h_fact::facade::fcd_stake),
        #[cfg(feature = "fact")]
        "fcd_gov" => Some(h_fact::facade::fcd_gov),
        #[cfg(feature = "fact")]
        "fcd_council" => Some(h_fact::facade::fcd_council),
        #[cfg(feature = "fact")]
        "old_setup" => Some(h_fact::facade1::old_setup),
        #[cfg(feature = "fact")]
        "old_figures" => Some(h_fact::facade1::old_figures),
        #[cfg(feature = "fact")]
        "old_status" => Some(h_fact::facade1::old_status),
        #[cfg(feature = "fact")]
        "old_propose" => Some(h_fact::facade1::old_propose),
        #[cfg(feature = "fact")]
        "old_upgrade" => Some(h_fact::facade1::old_upgrade),
        #[cfg(feature = "fact")]
        "old_operate" => Some(h_fact::facade1::old_operate),
        #[cfg(feature = "fact")]
        "fac_create" => Some(h_fact::fac_create),
        #[cfg(feature = "fact")]
        "fac_version" => Some(h_fact::fac_version),
        #[cfg(feature = "fact")]
        "fac_refuse" => Some(h_fact::fac_refuse),
        #[cfg(feature = "fact")]
        "fac_registry" => Some(h_fact::fac_registry),
        #[cfg(feature = "fact")]
        "fac_auth" => Some(h_fact::fac_auth),
        #[cfg(feature = "fact")]
        "fac_treasuries" => Some(h_fact::fac_treasuries),
        #[cfg(feature = "fact")]
        "lst_codes" => Some(h_fact::lst_codes),
        #[cfg(feature = "fact")]
        "life_fund" => Some(h_fact::life::life_fund),
        #[cfg(feature = "fact")]
        "life_rewards" => Some(h_fact::life::life_rewards),
        #[cfg(feature = "fact")]
        "life_auth" => Some(h_fact::life::life_auth),
        #[cfg(feature = "gov")]
        "gov_tally" => Some(h_gov::gov_tally),
        #[cfg(feature = "gov")]
        "gov_outcome" => Some(h_gov::gov_outcome),
        #[cfg(feature = "gov")]
        "gov_simulate" => Some(h_gov::gov_simulate),
        #[cfg(feature = "gov")]
        "gov_lifecycle" => Some(h_gov::gov_lifecycle),
        #[cfg(feature = "gov")]
        "gov_nanos" => Some(h_gov::gov_nanos),
        #[cfg(feature = "gov")]
        "gov_window" => Some(h_gov::gov_window),
        #[cfg(feature = "gov")]
        "gov_auth" => Some(h_gov::gov_auth),
        #[cfg(feature = "gov")]
        "gov_create" => Some(h_gov::gov_create),
        #[cfg(feature = "gov")]
        "gov_isolation" => Some(h_gov::gov_isolation),
        #[cfg(feature = "gov")]
        "lst_polls" => Some(h_gov::list::lst_polls),
        #[cfg(feature = "gov")]
        "lst_voters" => Some(h_gov::list::lst_voters),
        #[cfg(feature = "stake")]
        "stake_denom" => Some(h_stake::stake_denom),
        #[cfg(feature = "stake")]
        "stake_token" => Some(h_stake::stake_token),
        #[cfg(feature = "stake")]
        "stake_denom_refused" => Some(h_stake::stake_denom_refused),
        #[cfg(feature = "stake")]
        "stake_token_bulk" => Some(h_stake::stake_token_bulk),
        #[cfg(feature = "stake")]
        "stake_claim" => Some(h_stake::stake_claim),
        #[cfg(feature = "stake")]
        "stake_claim_nanos" => Some(h_stake::stake_claim_nanos),
        #[cfg(feature = "stake")]
        "stake_claim_two" => Some(h_stake::stake_claim_two),
        #[cfg(feature = "stake")]
        "stake_history" => Some(h_stake::stake_history),
        #[cfg(feature = "stake")]
        "stake_hooks" => Some(h_stake::stake_hooks),
        #[cfg(feature = "stake")]
        "stake_auth" => Some(h_stake::stake_auth),
        #[cfg(feature = "stake")]
        "stake_restricted" => Some(h_stake::stake_restricted),
        #[cfg(feature = "stake")]
        "lst_members" => Some(h_stake::list::lst_members),
        #[cfg(feature = "stake")]
        "lst_nfts" => Some(h_stake::list::lst_nfts),
        #[cfg(feature = "stake")]
        "multi_history" => Some(h_stake::multi::multi_history),
        #[cfg(feature = "stake")]
        "multi_inst" => Some(h_stake::multi::multi_inst),
        #[cfg(feature = "stake")]
        "checkpoints" => Some(h_stake::multi::checkpoints),
        #[cfg(feature = "stake")]
        "stake_nft" => Some(h_stake::nft::stake_nft),
        #[cfg(feature = "stake")]
        "stake_nft_forged" => Some(h_stake::nft::stake_nft_forged),
        #[cfg(feature = "stake")]
        "stake_nft_claim" => Some(h_stake::nft::stake_nft_claim),
        _ => None,
    }
}
