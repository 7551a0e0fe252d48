#![allow(clippy::all)]
#![allow(dead_code)]

macro_rules! harness {
    ($name:ident, $body:block) => {
        #[no_mangle]
        pub extern "C-unwind" fn $name() $body
    };
}

pub mod attrsh;
pub mod bigh;
pub mod cascade;
pub mod dump;
pub mod kinds;
pub mod links;
pub mod misuse;
pub mod namesh;
pub mod nodesh;
pub mod pairs;
pub mod parseh;
pub mod smoke;
pub mod sym;
pub mod tables;
pub mod texth;
pub mod treeh;
pub mod values;
pub mod words;
pub mod writeh;

macro_rules! entries {
    ($($m:ident: $($f:ident)*;)*) => {
        /// Entry points by name (used by the native replayer).
        pub fn entry(n: &str) -> Option<extern "C-unwind" fn()> {
            $($(if n == stringify!($f) { return Some($m::$f); })*)*
            None
        }
    };
}
entries! {
    bigh: c05_many c05_far c01_fart c02_fart c03_fart c01_far c02_far c03_far c04_far c06_far c08_far c09_far c21_far c11_far c11_fara c12_far c13_far c14_far c14_farp c15_far c16_far c17_far c10_far c01_big c02_big c03_big c04_big c05_big c06_big c07_big c08_big c09_big c09_bign c09_bigr c10_bign c10_biga c10_bigr c10_bigt c10_bigc c10_bigv c11_bign c11_biga c12_big c13_big c13_bigi c14_big c14_bigp c15_big c15_pad c16_bign c16_biga c16_bigr c16_bigt c17_bign c17_biga c17_bigr c17_bigt c18_bige c18_biga c21_big;
    kinds: c06_kind c06_kindt c21_kind c21_kindt c09_kind c08_word c08_elem c06_elem c05_elem c11_ns c11_nse c14_space;
    pairs: c15_ea c12_ea c16_ea c17_ea c07_ea c16_cont c17_cont c14_any c14_anyp c14_out c16_long c17_long c16_longt c04_ids c04_idst c17_typed c13_ea c12_sib c11_wide c11_spec c14_wide c13_wide c16_wide c17_wide;
    words: c05_word c07_word c10_word c11_word c12_type c14_word c16_word c17_word c17_cust c22_word c24_word;
    misuse: c25_self c25_selft c25_name c25_kind c25_link c25_linkt c25_raw c25_xml c25_pro c25_att c25_sty c25_root c25_say;
    nodesh: c23_big c23_far c23_long c22_q c22_w c22_t c22_tag c22_svg c23_val c23_name c23_tag c23_q c23_t c23_other c23_doc c24_val c24_link c24_cust;
    smoke: h_smoke h_smoke2;
    treeh: c01_q c01_w c01_t c01_t2 c02_q c02_w c02_t c03_q c03_t c03_a c03_at;
    namesh: c18_e c18_a c18_aa c18_ne c18_na c18_se c18_sa c18_te c18_ta c18_de c18_da c18_pe c19_e c19_a c19_v c20;
    values: c15_word c15_wcss c13_all c10_tab c10_decl c10_num c10_misc c10_url c10_pts c15_tab c15_host c15_elem c15_css c15_num c15_numt c15_misc c15_opac c15_col c15_url c15_ts c15_pts;
    cascade: c13_word c12_name c12_namet c12_tr2 c12_tr3 c12_trt c12_non c13_m c13_mt c13_elem c10_tree c10_lnk c10_lnk2 c10_many c10_casc c10_casd c10_mark c10_cont c10_mix c09_tree c09_lnk c09_many c09_casc c11_q c11_w c11_p c11_t c11_t2 c11_t3 c11_tag c11_pre c11_attr c11_mix c11_mixt c11_par c11_par2 c11_part c11_in c12_q c12_s c12_w c12_d c12_t c12_t2 c12_all_q c12_all_t c12_marker c13_q c13_k c13_s c13_t c13_t2 c13_t3 c13_i c13_it;
    texth: c14_two c14_twot c10_txt c10_txm c10_txe c10_txw c10_two c09_txt c09_txe c14_e c14_en c14_ep c14_em c14_et c14_u c14_ud c14_up c14_s c14_d c14_d4 c14_dn c14_dn2 c14_dw c14_p c14_pn c14_pw c14_m c14_mn c14_mn2 c14_t1 c14_t2 c14_t3 c14_t4 c14_t5 c14_t6 c14_t7;
    writeh: c17_opt c17_opt2 c17_opt3 c10_chr c10_strs c10_nest c16_ent c16_entt c16_str c16_str1 c16_strt c17_str c17_strt c16_chr c16_chrt c16_txt c16_txp c16_txm c16_txt2 c16_txp2 c16_txm2 c17_txt c17_txtt c16_nest c17_nest c16_lnk c16_lnkt c17_lnk c16_tree c16_treet c17_tree c17_treet c16_tab c17_tab c17_ord2 c17_ord c17_ordt c16_api c16_api2 c16_apit c16_apit2 c17_api c17_any c17_anyt c17_val c17_near c17_href c17_hreft c16_mb c17_mb;
    attrsh: c07_q c07_w c07_t c08_ren c08_rent c08_q c08_w c08_t c08_t2 c09_q c09_w c09_t c09_t2 c09_p;
    parseh: c10_utf c10_utft c10_ent c10_entt c10_root c10_xml c10_raw c10_pro c10_att c10_css c10_css2 c10_sty c10_mb;
    links: c05_i c05_it c04_all c04_allt c04_q c04_w c04_t c04_t2 c05_q c05_w c05_t c05_t2 c06_q c06_w c06_v c06_t c06_t2 c06_f c06_f2 c21_q c21_w c21_t c21_t2;
}
