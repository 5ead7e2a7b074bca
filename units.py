"""Which contract units carry which property: (specs module, unit function)."""
UNITS = {
    'P01': [('evaluations', 'unit_is_equiv'), ('evaluations', 'unit_is_latex_equiv'), ('parser', 'unit_with_simplify'), ('parser', 'unit_under_sympy'),
            ('types_', 'unit_is_equiv_type'), ('types_', 'unit_special_total'), ('types_', 'unit_normalize_total')],
    'P02': [('evaluations', 'unit_is_equiv'), ('evaluations', 'unit_is_latex_equiv'), ('types_', 'unit_is_equiv_type'), ('types_', 'unit_special_total')],
    'P03': [('evaluations', 'unit_is_equiv'), ('evaluations', 'unit_is_latex_equiv'), ('parser', 'unit_diff_equal'), ('parser', 'unit_ae_evidence'),
            ('parser', 'unit_numerical_equal'), ('parser', 'unit_guarded_steps'), ('parser', 'unit_with_simplify'), ('parser', 'unit_under_sympy'), ('parser', 'unit_sympy_parse')],
    'P04': [('evaluations', 'unit_is_equiv'), ('types_', 'unit_complex_anyof'), ('types_', 'unit_math_list')],
    'P05': [('evaluations', 'unit_is_latex_equiv'), ('evaluations', 'unit_tuple')],
    'P06': [('evaluations', 'unit_is_latex_equiv'), ('evaluations', 'unit_tuple'), ('evaluations', 'unit_matching'), ('parser', 'unit_ae_set')],
    'P07': [('evaluations', 'unit_is_latex_equiv'), ('evaluations', 'unit_matrix'), ('parser', 'unit_ae_matrix'), ('matrix', 'unit_split_matrix_latex'), ('matrix', 'unit_split_matrix_list')],
    'P08': [('evaluations', 'unit_is_latex_equiv'), ('evaluations', 'unit_intervals')] +
           [('interval', 'unit_' + x) for x in ('interval', 'union', 'intersection', 'unions', 'intersections')],
    'P09': [('evaluations', 'unit_is_latex_equiv'), ('parser', 'unit_numbers'), ('parser', 'unit_diff_equal')],
    'P10': [('evaluations', 'unit_is_latex_equiv'), ('parser', 'unit_ae_relations'), ('parser', 'unit_get_type')],
    'P11': [('evaluations', 'unit_is_latex_equiv'), ('parser', 'unit_ae_vec'), ('parser', 'unit_ae_matrix'), ('parser', 'unit_ae_kinds'), ('parser', 'unit_list_to_mat'),
            ('parser', 'unit_only_i'), ('parser', 'unit_get_type')],
    'P16': [('types_', 'unit_is_equiv_type'), ('types_', 'unit_special_total')],
    'P19': [('llm', 'unit_llm')],
    'P12': [('split', 'unit_split_tuple'), ('split', 'unit_split_tuple_list'), ('split', 'unit_split_tuple_tuple'), ('norm', 'unit_strip_commas'), ('matrix', 'unit_split_matrix_latex'), ('matrix', 'unit_split_matrix_list')],
    'P17': [('norm', 'unit_' + x) for x in ('integers', 'separators', 'currency', 'decimals', 'scientific', 'mixed', 'magnitude', 'percent', 'bases', 'to_decimal')],
    'P18': [('norm', 'unit_' + x) for x in [c + k for c in ('units_text', 'units_mbox', 'units_word') for k in ('', '_2', '_3')] + ['degrees', 'times', 'further']],
    'P13': [('latex', 'unit_relation'), ('latex', 'unit_expr'), ('latex', 'unit_add'), ('latex', 'unit_mp'), ('latex', 'unit_unary'), ('latex', 'unit_postfix_list'), ('latex', 'unit_postfix'), ('latex', 'unit_exp'), ('latex', 'unit_comp'), ('latex', 'unit_binom'), ('latex', 'unit_atom'), ('latex', 'unit_frac'), ('state', 'unit_entry'), ('state', 'unit_entry_2'), ('state', 'unit_entry_3')],
    'P14': [('latex', 'unit_func_single'), ('latex', 'unit_func_multi'), ('latex', 'unit_func_user'), ('latex', 'unit_integral'), ('latex', 'unit_sqrt'), ('latex', 'unit_sum'), ('latex', 'unit_limit'), ('latex', 'unit_exp_e'), ('latex', 'unit_frac'), ('latex', 'unit_postfix_list'), ('split', 'unit_split_args'), ('state', 'unit_entry'), ('state', 'unit_entry_2'), ('state', 'unit_entry_3')],
    'P20': [('latex', 'unit_expr'), ('latex', 'unit_add'), ('latex', 'unit_mp'), ('latex', 'unit_unary'), ('latex', 'unit_postfix_list'), ('latex', 'unit_postfix'), ('latex', 'unit_exp'), ('latex', 'unit_comp'), ('latex', 'unit_frac'),
            ('latex', 'unit_transform'), ('latex', 'unit_matrix'), ('latex', 'unit_matrix_any'), ('latex', 'unit_matrix_operators'), ('latex', 'unit_matrix_multi'), ('state', 'unit_entry'), ('state', 'unit_entry_2'), ('state', 'unit_entry_3')],
    'P21': [('latex', 'unit_atom'), ('latex', 'unit_func_multi'), ('latex', 'unit_func_user'), ('latex', 'unit_frac'), ('state', 'unit_entry'), ('state', 'unit_entry_2'), ('state', 'unit_entry_3')],
    'P15': [('state', 'unit_wrapper'), ('state', 'unit_entry'), ('state', 'unit_entry_2'), ('state', 'unit_entry_3'), ('state', 'unit_frac_state'), ('state', 'unit_frames')],
}
