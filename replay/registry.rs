#[macro_use]
#[path = "../harness/model.rs"]
pub mod model;
#[path = "../harness/c01.rs"]
pub mod c01;
#[path = "../harness/c02.rs"]
pub mod c02;
#[path = "../harness/c03.rs"]
pub mod c03;
#[path = "../harness/c04.rs"]
pub mod c04;
#[path = "../harness/c10.rs"]
pub mod c10;
#[path = "../harness/c12.rs"]
pub mod c12;
#[path = "../harness/c13.rs"]
pub mod c13;
#[path = "../harness/c14.rs"]
pub mod c14;
#[path = "../harness/c15.rs"]
pub mod c15;
#[path = "../harness/c16.rs"]
pub mod c16;
#[path = "../harness/c17.rs"]
pub mod c17;
#[path = "../harness/c18.rs"]
pub mod c18;
#[path = "../harness/c19.rs"]
pub mod c19;
#[path = "../harness/c20.rs"]
pub mod c20;
#[path = "../harness/c21.rs"]
pub mod c21;
#[path = "../harness/c22.rs"]
pub mod c22;
#[path = "../harness/c23.rs"]
pub mod c23;
#[path = "../harness/c24.rs"]
pub mod c24;
#[path = "../harness/c25.rs"]
pub mod c25;
#[path = "../harness/c26.rs"]
pub mod c26;
#[path = "../harness/c27.rs"]
pub mod c27;
#[path = "../harness/c28.rs"]
pub mod c28;
#[path = "../harness/c29.rs"]
pub mod c29;
#[path = "../harness/c30.rs"]
pub mod c30;
#[path = "../harness/c31.rs"]
pub mod c31;
pub fn run(n: &str) {
    match n {
        "c01_sco" => c01::c01_sco(),
        "c01_sfo" => c01::c01_sfo(),
        "c01_se" => c01::c01_se(),
        "c01_idx" => c01::c01_idx(),
        "c01_ukey" => c01::c01_ukey(),
        "c01_t_uc" => c01::c01_t_uc(),
        "c01_att" => c01::c01_att(),
        "c01_fc" => c01::c01_fc(),
        "c01_sce" => c01::c01_sce(),
        "c01_sfe" => c01::c01_sfe(),
        "c01_t_fce" => c01::c01_t_fce(),
        "c01_cie" => c01::c01_cie(),
        "c01_sci" => c01::c01_sci(),
        "c01_sfi" => c01::c01_sfi(),
        "c01_t_rev" => c01::c01_t_rev(),
        "c01_t_ren" => c01::c01_t_ren(),
        "c01_sp" => c01::c01_sp(),
        "c01_res_ren" => c01::c01_res_ren(),
        "c01_res_sp" => c01::c01_res_sp(),
        "c01_t_res_exp" => c01::c01_t_res_exp(),
        "c01_sat_above" => c01::c01_sat_above(),
        "c01_sat_key" => c01::c01_sat_key(),
        "c01_sat_hash" => c01::c01_sat_hash(),
        "c01_sat_opaque" => c01::c01_sat_opaque(),
        "c01_pol_after" => c01::c01_pol_after(),
        "c01_pol_thr0" => c01::c01_pol_thr0(),
        "c01_pol_thr1" => c01::c01_pol_thr1(),
        "c01_pol_thr2" => c01::c01_pol_thr2(),
        "c01_pol_thr_nest" => c01::c01_pol_thr_nest(),
        "c01_tx_empty" => c01::c01_tx_empty(),
        "c01_tx_sci" => c01::c01_tx_sci(),
        "c01_tx_sco" => c01::c01_tx_sco(),
        "c01_tx_sfi" => c01::c01_tx_sfi(),
        "c01_tx_sfo" => c01::c01_tx_sfo(),
        "c01_tx_fc" => c01::c01_tx_fc(),
        "c01_tx_rev" => c01::c01_tx_rev(),
        "c01_tx_res" => c01::c01_tx_res(),
        "c01_tx_att" => c01::c01_tx_att(),
        "c01_tx_data" => c01::c01_tx_data(),
        "c01_tx_found" => c01::c01_tx_found(),
        "c01_tx_mix" => c01::c01_tx_mix(),
        "c01_acc0" => c01::c01_acc0(),
        "c01_t_acc1" => c01::c01_t_acc1(),
        "c01_acc2" => c01::c01_acc2(),
        "c01_state_genesis" => c01::c01_state_genesis(),
        "c01_t_state_4" => c01::c01_t_state_4(),
        "c01_state_9" => c01::c01_state_9(),
        "c01_t_state_10" => c01::c01_t_state_10(),
        "c01_state_11" => c01::c01_state_11(),
        "c01_scalar0" => c01::c01_scalar0(),
        "c01_scalar1" => c01::c01_scalar1(),
        "c01_scalar2" => c01::c01_scalar2(),
        "c01_scalar3" => c01::c01_scalar3(),
        "c01_scalar4" => c01::c01_scalar4(),
        "c01_pol_uc" => c01::c01_pol_uc(),
        "c02_sco" => c02::c02_sco(),
        "c02_sfo" => c02::c02_sfo(),
        "c02_ukey" => c02::c02_ukey(),
        "c02_uc0" => c02::c02_uc0(),
        "c02_uc" => c02::c02_uc(),
        "c02_sci" => c02::c02_sci(),
        "c02_sfi" => c02::c02_sfi(),
        "c02_t_fc" => c02::c02_t_fc(),
        "c02_t_rev" => c02::c02_t_rev(),
        "c02_sp" => c02::c02_sp(),
        "c02_cov" => c02::c02_cov(),
        "c02_cov2" => c02::c02_cov2(),
        "c02_sig" => c02::c02_sig(),
        "c02_tx_empty" => c02::c02_tx_empty(),
        "c02_tx_sci" => c02::c02_tx_sci(),
        "c02_tx_sco" => c02::c02_tx_sco(),
        "c02_tx_fc" => c02::c02_tx_fc(),
        "c02_tx_rev" => c02::c02_tx_rev(),
        "c02_tx_sp" => c02::c02_tx_sp(),
        "c02_tx_sfi" => c02::c02_tx_sfi(),
        "c02_tx_sfo" => c02::c02_tx_sfo(),
        "c02_tx_fee" => c02::c02_tx_fee(),
        "c02_tx_data" => c02::c02_tx_data(),
        "c02_tx_sig" => c02::c02_tx_sig(),
        "c02_tx_mix" => c02::c02_tx_mix(),
        "c02_block0" => c02::c02_block0(),
        "c02_block1" => c02::c02_block1(),
        "c02_scalar0" => c02::c02_scalar0(),
        "c02_scalar1" => c02::c02_scalar1(),
        "c02_scalar2" => c02::c02_scalar2(),
        "c02_scalar3" => c02::c02_scalar3(),
        "c02_currency" => c02::c02_currency(),
        "c02_sfo_any" => c02::c02_sfo_any(),
        "c03_sco" => c03::c03_sco(),
        "c03_sfo" => c03::c03_sfo(),
        "c03_se" => c03::c03_se(),
        "c03_idx" => c03::c03_idx(),
        "c03_ukey" => c03::c03_ukey(),
        "c03_t_uc" => c03::c03_t_uc(),
        "c03_att" => c03::c03_att(),
        "c03_fc" => c03::c03_fc(),
        "c03_sce" => c03::c03_sce(),
        "c03_sfe" => c03::c03_sfe(),
        "c03_t_fce" => c03::c03_t_fce(),
        "c03_cie" => c03::c03_cie(),
        "c03_sci" => c03::c03_sci(),
        "c03_sfi" => c03::c03_sfi(),
        "c03_t_rev" => c03::c03_t_rev(),
        "c03_t_ren" => c03::c03_t_ren(),
        "c03_sp" => c03::c03_sp(),
        "c03_res_ren" => c03::c03_res_ren(),
        "c03_res_sp" => c03::c03_res_sp(),
        "c03_t_res_exp" => c03::c03_t_res_exp(),
        "c03_sat_above" => c03::c03_sat_above(),
        "c03_sat_key" => c03::c03_sat_key(),
        "c03_sat_hash" => c03::c03_sat_hash(),
        "c03_sat_opaque" => c03::c03_sat_opaque(),
        "c03_pol_after" => c03::c03_pol_after(),
        "c03_pol_thr0" => c03::c03_pol_thr0(),
        "c03_pol_thr1" => c03::c03_pol_thr1(),
        "c03_pol_thr2" => c03::c03_pol_thr2(),
        "c03_pol_thr_nest" => c03::c03_pol_thr_nest(),
        "c03_tx_empty" => c03::c03_tx_empty(),
        "c03_tx_sci" => c03::c03_tx_sci(),
        "c03_tx_sco" => c03::c03_tx_sco(),
        "c03_tx_sfi" => c03::c03_tx_sfi(),
        "c03_tx_sfo" => c03::c03_tx_sfo(),
        "c03_tx_fc" => c03::c03_tx_fc(),
        "c03_tx_rev" => c03::c03_tx_rev(),
        "c03_tx_res" => c03::c03_tx_res(),
        "c03_tx_att" => c03::c03_tx_att(),
        "c03_tx_data" => c03::c03_tx_data(),
        "c03_tx_found" => c03::c03_tx_found(),
        "c03_tx_mix" => c03::c03_tx_mix(),
        "c03_acc0" => c03::c03_acc0(),
        "c03_t_acc1" => c03::c03_t_acc1(),
        "c03_acc2" => c03::c03_acc2(),
        "c03_state_genesis" => c03::c03_state_genesis(),
        "c03_t_state_4" => c03::c03_t_state_4(),
        "c03_state_9" => c03::c03_state_9(),
        "c03_t_state_10" => c03::c03_t_state_10(),
        "c03_state_11" => c03::c03_state_11(),
        "c03_unused_times" => c03::c03_unused_times(),
        "c03_scalar0" => c03::c03_scalar0(),
        "c03_scalar1" => c03::c03_scalar1(),
        "c03_scalar2" => c03::c03_scalar2(),
        "c03_scalar3" => c03::c03_scalar3(),
        "c03_scalar4" => c03::c03_scalar4(),
        "c03_pol_uc" => c03::c03_pol_uc(),
        "c04_sco" => c04::c04_sco(),
        "c04_sfo" => c04::c04_sfo(),
        "c04_ukey" => c04::c04_ukey(),
        "c04_uc0" => c04::c04_uc0(),
        "c04_uc" => c04::c04_uc(),
        "c04_sci" => c04::c04_sci(),
        "c04_sfi" => c04::c04_sfi(),
        "c04_t_fc" => c04::c04_t_fc(),
        "c04_t_rev" => c04::c04_t_rev(),
        "c04_sp" => c04::c04_sp(),
        "c04_cov" => c04::c04_cov(),
        "c04_cov2" => c04::c04_cov2(),
        "c04_sig" => c04::c04_sig(),
        "c04_tx_empty" => c04::c04_tx_empty(),
        "c04_tx_sci" => c04::c04_tx_sci(),
        "c04_tx_sco" => c04::c04_tx_sco(),
        "c04_tx_fc" => c04::c04_tx_fc(),
        "c04_tx_rev" => c04::c04_tx_rev(),
        "c04_tx_sp" => c04::c04_tx_sp(),
        "c04_tx_sfi" => c04::c04_tx_sfi(),
        "c04_tx_sfo" => c04::c04_tx_sfo(),
        "c04_tx_fee" => c04::c04_tx_fee(),
        "c04_tx_data" => c04::c04_tx_data(),
        "c04_tx_sig" => c04::c04_tx_sig(),
        "c04_tx_mix" => c04::c04_tx_mix(),
        "c04_block0" => c04::c04_block0(),
        "c04_block1" => c04::c04_block1(),
        "c04_scalar0" => c04::c04_scalar0(),
        "c04_scalar1" => c04::c04_scalar1(),
        "c04_scalar2" => c04::c04_scalar2(),
        "c04_scalar3" => c04::c04_scalar3(),
        "c04_currency" => c04::c04_currency(),
        "c04_sfo_any" => c04::c04_sfo_any(),
        "c10_add" => c10::c10_add(),
        "c10_add_wrap" => c10::c10_add_wrap(),
        "c10_add_aborts" => c10::c10_add_aborts(),
        "c10_sub" => c10::c10_sub(),
        "c10_sub_wrap" => c10::c10_sub_wrap(),
        "c10_sub_aborts" => c10::c10_sub_aborts(),
        "c10_mul" => c10::c10_mul(),
        "c10_mul_wrap" => c10::c10_mul_wrap(),
        "c10_mul_aborts" => c10::c10_mul_aborts(),
        "c10_div" => c10::c10_div(),
        "c10_div_wrap" => c10::c10_div_wrap(),
        "c10_div_aborts" => c10::c10_div_aborts(),
        "c10_rem" => c10::c10_rem(),
        "c10_rem_wrap" => c10::c10_rem_wrap(),
        "c10_rem_aborts" => c10::c10_rem_aborts(),
        "c10_siacoins" => c10::c10_siacoins(),
        "c10_siacoins_wrap" => c10::c10_siacoins_wrap(),
        "c10_siacoins_aborts" => c10::c10_siacoins_aborts(),
        "c10_sum" => c10::c10_sum(),
        "c10_sum_wrap" => c10::c10_sum_wrap(),
        "c10_sum_aborts" => c10::c10_sum_aborts(),
        "c10_order" => c10::c10_order(),
        "c12_reward" => c12::c12_reward(),
        "c12_networks" => c12::c12_networks(),
        "c13_all" => c13::c13_all(),
        "c13_t_ten_minutes" => c13::c13_t_ten_minutes(),
        "c14_rules" => c14::c14_rules(),
        "c14_mainnet" => c14::c14_mainnet(),
        "c14_zen" => c14::c14_zen(),
        "c14_anagami" => c14::c14_anagami(),
        "c15_before" => c15::c15_before(),
        "c15_after" => c15::c15_after(),
        "c16_all" => c16::c16_all(),
        "c17_empty" => c17::c17_empty(),
        "c17_sci" => c17::c17_sci(),
        "c17_sco" => c17::c17_sco(),
        "c17_fc" => c17::c17_fc(),
        "c17_rev" => c17::c17_rev(),
        "c17_sp" => c17::c17_sp(),
        "c17_sfi" => c17::c17_sfi(),
        "c17_sfo" => c17::c17_sfo(),
        "c17_fee" => c17::c17_fee(),
        "c17_data" => c17::c17_data(),
        "c17_sig" => c17::c17_sig(),
        "c17_mix" => c17::c17_mix(),
        "c17_two_in" => c17::c17_two_in(),
        "c17_two_sf" => c17::c17_two_sf(),
        "c18_empty" => c18::c18_empty(),
        "c18_sci" => c18::c18_sci(),
        "c18_sco" => c18::c18_sco(),
        "c18_fc" => c18::c18_fc(),
        "c18_rev" => c18::c18_rev(),
        "c18_sp" => c18::c18_sp(),
        "c18_sfi" => c18::c18_sfi(),
        "c18_sfo" => c18::c18_sfo(),
        "c18_fee" => c18::c18_fee(),
        "c18_data" => c18::c18_data(),
        "c18_sig" => c18::c18_sig(),
        "c18_mix" => c18::c18_mix(),
        "c18_two_in" => c18::c18_two_in(),
        "c18_two_sf" => c18::c18_two_sf(),
        "c19_sci" => c19::c19_sci(),
        "c19_sco" => c19::c19_sco(),
        "c19_fc" => c19::c19_fc(),
        "c19_rev" => c19::c19_rev(),
        "c19_sp" => c19::c19_sp(),
        "c19_sfi" => c19::c19_sfi(),
        "c19_sfo" => c19::c19_sfo(),
        "c19_fee" => c19::c19_fee(),
        "c19_data" => c19::c19_data(),
        "c19_sig" => c19::c19_sig(),
        "c19_t_all0" => c19::c19_t_all0(),
        "c19_all1" => c19::c19_all1(),
        "c19_all2" => c19::c19_all2(),
        "c19_all3" => c19::c19_all3(),
        "c20_empty" => c20::c20_empty(),
        "c20_sci" => c20::c20_sci(),
        "c20_sco" => c20::c20_sco(),
        "c20_sfi" => c20::c20_sfi(),
        "c20_sfo" => c20::c20_sfo(),
        "c20_fc" => c20::c20_fc(),
        "c20_rev" => c20::c20_rev(),
        "c20_res" => c20::c20_res(),
        "c20_att" => c20::c20_att(),
        "c20_data" => c20::c20_data(),
        "c20_found" => c20::c20_found(),
        "c20_mix" => c20::c20_mix(),
        "c20_fc2" => c20::c20_fc2(),
        "c20_res_sp" => c20::c20_res_sp(),
        "c20_res_ren" => c20::c20_res_ren(),
        "c20_sci2" => c20::c20_sci2(),
        "c20_sfi2" => c20::c20_sfi2(),
        "c21_contract0" => c21::c21_contract0(),
        "c21_renewal0" => c21::c21_renewal0(),
        "c21_attestation0" => c21::c21_attestation0(),
        "c21_contract1" => c21::c21_contract1(),
        "c21_t_renewal1" => c21::c21_t_renewal1(),
        "c21_attestation1" => c21::c21_attestation1(),
        "c21_contract2" => c21::c21_contract2(),
        "c21_t_renewal2" => c21::c21_t_renewal2(),
        "c21_attestation2" => c21::c21_attestation2(),
        "c21_contract3" => c21::c21_contract3(),
        "c21_renewal3" => c21::c21_renewal3(),
        "c21_attestation3" => c21::c21_attestation3(),
        "c22_block" => c22::c22_block(),
        "c22_v2_child" => c22::c22_v2_child(),
        "c22_contract" => c22::c22_contract(),
        "c22_v2_contract" => c22::c22_v2_contract(),
        "c22_claim" => c22::c22_claim(),
        "c22_distinct" => c22::c22_distinct(),
        "c23_keys0" => c23::c23_keys0(),
        "c23_keys1" => c23::c23_keys1(),
        "c23_keys1_short" => c23::c23_keys1_short(),
        "c23_keys2" => c23::c23_keys2(),
        "c23_keys3" => c23::c23_keys3(),
        "c23_keys4" => c23::c23_keys4(),
        "c23_t_keys5" => c23::c23_t_keys5(),
        "c23_t_keys6" => c23::c23_t_keys6(),
        "c23_t_keys9" => c23::c23_t_keys9(),
        "c23_standard" => c23::c23_standard(),
        "c24_above" => c24::c24_above(),
        "c24_after" => c24::c24_after(),
        "c24_key" => c24::c24_key(),
        "c24_hash" => c24::c24_hash(),
        "c24_opaque" => c24::c24_opaque(),
        "c24_t_uc" => c24::c24_t_uc(),
        "c24_uc0" => c24::c24_uc0(),
        "c24_thr0" => c24::c24_thr0(),
        "c24_thr1" => c24::c24_thr1(),
        "c24_thr2" => c24::c24_thr2(),
        "c24_thr3" => c24::c24_thr3(),
        "c24_thr_nest" => c24::c24_thr_nest(),
        "c24_thr_nest2" => c24::c24_thr_nest2(),
        "c24_t_thr_uc" => c24::c24_t_thr_uc(),
        "c24_thr_deep" => c24::c24_thr_deep(),
        "c24_opaque_above" => c24::c24_opaque_above(),
        "c24_opaque_after" => c24::c24_opaque_after(),
        "c24_opaque_key" => c24::c24_opaque_key(),
        "c24_opaque_hash" => c24::c24_opaque_hash(),
        "c24_opaque_opaque" => c24::c24_opaque_opaque(),
        "c24_opaque_thr" => c24::c24_opaque_thr(),
        "c24_opaque_thr2" => c24::c24_opaque_thr2(),
        "c24_opaque_uc" => c24::c24_opaque_uc(),
        "c25_root" => c25::c25_root(),
        "c26_show_hash256" => c26::c26_show_hash256(),
        "c26_show_siacoin" => c26::c26_show_siacoin(),
        "c26_t_show_siafund" => c26::c26_t_show_siafund(),
        "c26_t_show_attestation" => c26::c26_t_show_attestation(),
        "c26_t_show_block" => c26::c26_t_show_block(),
        "c26_t_show_transaction" => c26::c26_t_show_transaction(),
        "c26_t_show_contract" => c26::c26_t_show_contract(),
        "c26_id_plain" => c26::c26_id_plain(),
        "c26_tx_plain" => c26::c26_tx_plain(),
        "c26_id_prefix_0" => c26::c26_id_prefix_0(),
        "c26_id_prefix_1" => c26::c26_id_prefix_1(),
        "c26_id_prefix_5" => c26::c26_id_prefix_5(),
        "c26_id_prefix_wide" => c26::c26_id_prefix_wide(),
        "c26_id_two" => c26::c26_id_two(),
        "c26_id_len_0" => c26::c26_id_len_0(),
        "c26_id_len_1" => c26::c26_id_len_1(),
        "c26_id_len_62" => c26::c26_id_len_62(),
        "c26_id_len_63" => c26::c26_id_len_63(),
        "c26_id_len_65" => c26::c26_id_len_65(),
        "c26_id_len_66" => c26::c26_id_len_66(),
        "c26_id_len_128" => c26::c26_id_len_128(),
        "c26_id_pre_63" => c26::c26_id_pre_63(),
        "c26_id_pre_65" => c26::c26_id_pre_65(),
        "c26_id_pre_0" => c26::c26_id_pre_0(),
        "c26_id_pre_64" => c26::c26_id_pre_64(),
        "c26_addr_len_0" => c26::c26_addr_len_0(),
        "c26_addr_len_64" => c26::c26_addr_len_64(),
        "c26_addr_len_75" => c26::c26_addr_len_75(),
        "c26_addr_len_77" => c26::c26_addr_len_77(),
        "c26_addr_len_78" => c26::c26_addr_len_78(),
        "c26_leaf_len_0" => c26::c26_leaf_len_0(),
        "c26_leaf_len_64" => c26::c26_leaf_len_64(),
        "c26_leaf_len_126" => c26::c26_leaf_len_126(),
        "c26_leaf_len_127" => c26::c26_leaf_len_127(),
        "c26_leaf_len_129" => c26::c26_leaf_len_129(),
        "c26_leaf_len_130" => c26::c26_leaf_len_130(),
        "c26_sig_len_0" => c26::c26_sig_len_0(),
        "c26_sig_len_64" => c26::c26_sig_len_64(),
        "c26_sig_len_126" => c26::c26_sig_len_126(),
        "c26_sig_len_127" => c26::c26_sig_len_127(),
        "c26_sig_len_129" => c26::c26_sig_len_129(),
        "c26_sig_len_130" => c26::c26_sig_len_130(),
        "c26_id_wide_0" => c26::c26_id_wide_0(),
        "c26_id_wide_31" => c26::c26_id_wide_31(),
        "c26_id_wide_62" => c26::c26_id_wide_62(),
        "c26_id_wide_30" => c26::c26_id_wide_30(),
        "c26_id_wide_60" => c26::c26_id_wide_60(),
        "c26_addr_wide_0" => c26::c26_addr_wide_0(),
        "c26_addr_wide_63" => c26::c26_addr_wide_63(),
        "c26_addr_wide_62" => c26::c26_addr_wide_62(),
        "c26_addr_wide_74" => c26::c26_addr_wide_74(),
        "c26_addr_wide_72" => c26::c26_addr_wide_72(),
        "c26_leaf_wide_0" => c26::c26_leaf_wide_0(),
        "c26_leaf_wide_63" => c26::c26_leaf_wide_63(),
        "c26_leaf_wide_126" => c26::c26_leaf_wide_126(),
        "c26_sig_wide_0" => c26::c26_sig_wide_0(),
        "c26_sig_wide_63" => c26::c26_sig_wide_63(),
        "c26_sig_wide_126" => c26::c26_sig_wide_126(),
        "c26_addr_show" => c26::c26_addr_show(),
        "c26_addr_parse" => c26::c26_addr_parse(),
        "c26_leaf_show" => c26::c26_leaf_show(),
        "c26_leaf_parse" => c26::c26_leaf_parse(),
        "c26_sig_show" => c26::c26_sig_show(),
        "c26_sig_parse" => c26::c26_sig_parse(),
        "c26_key_show" => c26::c26_key_show(),
        "c26_key_parse" => c26::c26_key_parse(),
        "c26_key_len_0" => c26::c26_key_len_0(),
        "c26_key_len_7" => c26::c26_key_len_7(),
        "c26_key_len_8" => c26::c26_key_len_8(),
        "c26_key_len_64" => c26::c26_key_len_64(),
        "c26_key_len_70" => c26::c26_key_len_70(),
        "c26_key_len_71" => c26::c26_key_len_71(),
        "c26_key_len_73" => c26::c26_key_len_73(),
        "c26_key_len_74" => c26::c26_key_len_74(),
        "c26_key_wide_0" => c26::c26_key_wide_0(),
        "c26_key_wide_7" => c26::c26_key_wide_7(),
        "c26_key_wide_8" => c26::c26_key_wide_8(),
        "c26_key_wide_70" => c26::c26_key_wide_70(),
        "c27_value" => c27::c27_value(),
        "c27_value_76" => c27::c27_value_76(),
        "c27_invalid" => c27::c27_invalid(),
        "c27_runtime" => c27::c27_runtime(),
        "c27_literals" => c27::c27_literals(),
        "c27_bad_hash_256_63" => c27::c27_bad_hash_256_63(),
        "c27_bad_hash_256_66" => c27::c27_bad_hash_256_66(),
        "c27_bad_hash_256_g" => c27::c27_bad_hash_256_g(),
        "c27_bad_siacoin_id_63" => c27::c27_bad_siacoin_id_63(),
        "c27_bad_siacoin_id_66" => c27::c27_bad_siacoin_id_66(),
        "c27_bad_siacoin_id_g" => c27::c27_bad_siacoin_id_g(),
        "c27_bad_siafund_id_63" => c27::c27_bad_siafund_id_63(),
        "c27_bad_siafund_id_66" => c27::c27_bad_siafund_id_66(),
        "c27_bad_siafund_id_g" => c27::c27_bad_siafund_id_g(),
        "c27_bad_contract_id_63" => c27::c27_bad_contract_id_63(),
        "c27_bad_contract_id_66" => c27::c27_bad_contract_id_66(),
        "c27_bad_contract_id_g" => c27::c27_bad_contract_id_g(),
        "c27_bad_transaction_id_63" => c27::c27_bad_transaction_id_63(),
        "c27_bad_transaction_id_66" => c27::c27_bad_transaction_id_66(),
        "c27_bad_transaction_id_g" => c27::c27_bad_transaction_id_g(),
        "c27_bad_block_id_63" => c27::c27_bad_block_id_63(),
        "c27_bad_block_id_66" => c27::c27_bad_block_id_66(),
        "c27_bad_block_id_g" => c27::c27_bad_block_id_g(),
        "c27_bad_address_64" => c27::c27_bad_address_64(),
        "c27_bad_address_78" => c27::c27_bad_address_78(),
        "c27_bad_address_g" => c27::c27_bad_address_g(),
        "c27_bad_public_key_64" => c27::c27_bad_public_key_64(),
        "c27_bad_public_key_74" => c27::c27_bad_public_key_74(),
        "c27_bad_public_key_prefix" => c27::c27_bad_public_key_prefix(),
        "c27_bad_public_key_g" => c27::c27_bad_public_key_g(),
        "c28_from_0" => c28::c28_from_0(),
        "c28_from_1" => c28::c28_from_1(),
        "c28_from_2" => c28::c28_from_2(),
        "c28_from_7" => c28::c28_from_7(),
        "c28_from_8" => c28::c28_from_8(),
        "c28_from_15" => c28::c28_from_15(),
        "c28_from_16" => c28::c28_from_16(),
        "c28_from_17" => c28::c28_from_17(),
        "c28_from_20" => c28::c28_from_20(),
        "c28_from_32" => c28::c28_from_32(),
        "c28_from_wide_3" => c28::c28_from_wide_3(),
        "c28_from_wide_16" => c28::c28_from_wide_16(),
        "c28_from_wide_17" => c28::c28_from_wide_17(),
        "c28_from_wide_18" => c28::c28_from_wide_18(),
        "c28_from_wide_19" => c28::c28_from_wide_19(),
        "c28_from_wide_20" => c28::c28_from_wide_20(),
        "c28_new" => c28::c28_new(),
        "c28_show" => c28::c28_show(),
        "c28_show_wide_0" => c28::c28_show_wide_0(),
        "c28_show_wide_7" => c28::c28_show_wide_7(),
        "c28_show_wide_12" => c28::c28_show_wide_12(),
        "c28_show_wide_14" => c28::c28_show_wide_14(),
        "c28_show_any" => c28::c28_show_any(),
        "c28_key_0" => c28::c28_key_0(),
        "c28_key_1" => c28::c28_key_1(),
        "c28_key_2" => c28::c28_key_2(),
        "c28_key_3" => c28::c28_key_3(),
        "c28_key_any" => c28::c28_key_any(),
        "c28_fixed_ed25519" => c28::c28_fixed_ed25519(),
        "c28_fixed_entropy" => c28::c28_fixed_entropy(),
        "c28_fixed_long" => c28::c28_fixed_long(),
        "c28_of_public" => c28::c28_of_public(),
        "c28_parse_0_0" => c28::c28_parse_0_0(),
        "c28_parse_0_2" => c28::c28_parse_0_2(),
        "c28_parse_1_0" => c28::c28_parse_1_0(),
        "c28_parse_1_1" => c28::c28_parse_1_1(),
        "c28_parse_1_4" => c28::c28_parse_1_4(),
        "c28_parse_7_63" => c28::c28_parse_7_63(),
        "c28_parse_7_64" => c28::c28_parse_7_64(),
        "c28_parse_7_65" => c28::c28_parse_7_65(),
        "c28_parse_16_6" => c28::c28_parse_16_6(),
        "c28_parse_17_6" => c28::c28_parse_17_6(),
        "c28_parse_20_5" => c28::c28_parse_20_5(),
        "c28_parse_wide_2" => c28::c28_parse_wide_2(),
        "c28_parse_wide_18" => c28::c28_parse_wide_18(),
        "c28_parse_wide_key" => c28::c28_parse_wide_key(),
        "c28_parse_wide_key3" => c28::c28_parse_wide_key3(),
        "c28_none_2" => c28::c28_none_2(),
        "c28_none_1" => c28::c28_none_1(),
        "c28_none_7" => c28::c28_none_7(),
        "c28_none_64" => c28::c28_none_64(),
        "c28_none_71" => c28::c28_none_71(),
        "c29_verify" => c29::c29_verify(),
        "c29_twice" => c29::c29_twice(),
        "c29_sign" => c29::c29_sign(),
        "c29_halves" => c29::c29_halves(),
        "c30_derive" => c30::c30_derive(),
        "c30_phrase" => c30::c30_phrase(),
        "c30_other_20" => c30::c30_other_20(),
        "c30_other_24" => c30::c30_other_24(),
        "c30_other_28" => c30::c30_other_28(),
        "c30_other_32" => c30::c30_other_32(),
        "c30_text_0" => c30::c30_text_0(),
        "c30_text_31" => c30::c30_text_31(),
        "c30_text_32" => c30::c30_text_32(),
        "c30_text_40" => c30::c30_text_40(),
        "c31_key" => c31::c31_key(),
        "c31_key_used" => c31::c31_key_used(),
        "c31_key_derived" => c31::c31_key_derived(),
        "c31_seed" => c31::c31_seed(),
        "c31_seed_used" => c31::c31_seed_used(),
        _ => panic!("unknown harness"),
    }
}
