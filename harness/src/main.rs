mod ctx;
mod flav;
mod h_flavor;
mod h_root;
mod h_macro;
mod h_cq;
mod h_attr;
mod h_bad;
mod h_targets;
mod h_meta;
mod h_names;
mod h_count;
mod h_det;
mod h_code;
mod h_crate;
mod h_excerpt;
mod h_helpers;
mod h_question;
mod h_shape;
mod h_smoke;
mod h_tail;
mod h_total;
mod model;
mod u;
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let name = args.get(1).map(|s| s.as_str()).unwrap_or("");
    for (n, f) in HARNESSES {
        if *n == name {
            f();
            println!("VSYM-PASS");
            return;
        }
    }
    for (n, _) in HARNESSES {
        println!("{n}");
    }
    std::process::exit(2);
}
macro_rules! table {
    ($($m:ident :: $f:ident),* $(,)?) => { &[$((stringify!($f), $m::$f)),*] };
}
const HARNESSES: &[(&str, extern "C" fn())] = table![h_smoke::h_std, h_crate::h_crate_history, h_crate::h_crate_history3, h_crate::h_crate_renamed, h_crate::h_crate_plain, h_crate::h_crate_package, h_crate::h_crate_macros, h_det::h_det_bindings, h_det::h_det_flavors, h_det::h_det_presets, h_det::h_det_mistakes, h_code::h_items, h_code::h_items3, h_code::h_cold, h_code::h_heads, h_total::h_total, h_total::h_total_cq, h_total::h_total3, h_total::h_total_text, h_total::h_total_text3, h_total::h_total_toml, h_total::h_total_toml3, h_total::h_total_excerpt, h_total::h_total_excerpt3, h_total::h_total_spans, h_total::h_total_spans_all, h_macro::h_macro, h_macro::h_macro_all, h_macro::h_macro_raw, h_macro::h_macro_items, h_macro::h_macro_switch, h_cq::h_cq, h_cq::h_cq_all, h_cq::h_cq_mix, h_cq::h_cq_same, h_root::h_root, h_root::h_root3, h_root::h_root_name, h_root::h_root_item, h_root::h_empty, h_root::h_empty_all, h_root::h_part, h_root::h_part_order, h_root::h_part_all, h_root::h_part_bad, h_root::h_presets, h_root::h_history, h_root::h_history3, h_root::h_history4, h_flavor::h_flavor_path, h_flavor::h_flavor_text, h_flavor::h_flavor_text_all, h_flavor::h_flavor_near, h_flavor::h_flavor_form, h_flavor::h_toml_fields, h_flavor::h_toml_two, h_flavor::h_toml_pair, h_flavor::h_toml_names, h_flavor::h_toml_names_top, h_flavor::h_toml_bad, h_flavor::h_toml_target, h_flavor::h_toml_file, h_flavor::h_toml_file3, h_excerpt::h_pretty, h_excerpt::h_pretty2, h_excerpt::h_oneline, h_excerpt::h_trunc, h_excerpt::h_trunc_all, h_excerpt::h_gutter, h_excerpt::h_gutter_all, h_excerpt::h_excerpt, h_excerpt::h_excerpt_lit, h_excerpt::h_excerpt_lit_all, h_excerpt::h_opts, h_excerpt::h_opts3, h_excerpt::h_opt_names, h_excerpt::h_opt_bad, h_excerpt::h_opt_none,
 h_helpers::h_get_binding, h_count::h_ordinal, h_count::h_ordinal_long, h_count::h_order, h_count::h_order_all, h_count::h_order_items,
 h_meta::h_meta_name, h_meta::h_meta_alias, h_meta::h_meta_odd, h_meta::h_meta_bound, h_meta::h_meta_groups, h_meta::h_meta_dollar, h_meta::h_loc, h_meta::h_loc_all, h_meta::h_file, h_meta::h_file_long, h_meta::h_file_dirs, h_meta::h_expr_source, h_meta::h_sofar, h_meta::h_sofar_all, h_meta::h_bind_names, h_meta::h_bind_scopes, h_meta::h_bind_flavor, h_attr::h_source_attrs, h_attr::h_tail_attr, h_count::h_order_slots, h_meta::h_fninfo, h_meta::h_fnchain, h_meta::h_fnchain4,
 h_targets::h_targets, h_targets::h_targets_text, h_targets::h_targets_bad, h_bad::h_bad_name, h_bad::h_bad_place, h_bad::h_bad_msg, h_bad::h_keep, h_bad::h_keep_all,
 h_smoke::h_smoke, h_shape::h_shape_q, h_shape::h_shape_ret, h_shape::h_shape_tail, h_shape::h_shape2, h_shape::h_shape_off, h_question::h_q1, h_question::h_q2, h_question::h_q2all,
 h_tail::h_ret, h_tail::h_ret_nest, h_tail::h_tail, h_tail::h_block_tail, h_tail::h_block_is_tail, h_tail::h_not_tail,
 h_names::h_names_default, h_names::h_names, h_names::h_names_forms, h_names::h_names_types, h_names::h_names_all,
 h_attr::h_scope, h_attr::h_skip, h_attr::h_scope2, h_attr::h_scope2all, h_attr::h_scope3, h_attr::h_skip2];
