"""Texts of the manifest."""
TECHNIQUE = 'contract-based deductive verification of the Python source (own VC generator, z3/cvc5), with a bounded concrete companion for replay'
_B = ' Bounded companion (not proof): concrete executions of the real code from the property statement.'
LEVEL_NOTE = {
    'P01': 'Proved: no path through is_equiv, is_latex_equiv, the typed comparisons and the sympy comparison layer lets an exception out or returns a non-bool, whatever the callees do within their contracts. Assumed: string_normalize and the splitting helpers return (checked by the companion), sympy/ANTLR calls raise only Exceptions.' + _B,
    'P02': 'Proved: None/empty/identical-text branches of is_equiv, is_latex_equiv and is_equiv_type. Assumed: string_normalize is a function of its argument (P15).' + _B,
    'P03': 'Proved: every accepting path of is_equiv, is_latex_equiv, are_equal_with_simplify, _are_equal_latex_sympy, sympy_diff_equal, _numerical_equal (any number of samples), sympy_expand_equal carries the stated evidence; failures, timeouts and None never accept. Assumed: sympy operations are functions of their arguments that return or raise.' + _B,
    'P04': 'Proved: is_equiv, is_equiv_complex and is_equiv_MATH accept iff some reading / reference matches. The readings themselves: P17, P18.' + _B,
    'P05': 'Proved for sequences of any length: element-wise equality in order, same length, same kind (loop invariants over the real loops).' + _B,
    'P06': 'Proved for any number of elements: is_equiv_possible_tuple, is_equiv over sets and _are_equal_latex_sympy accept unordered collections iff a perfect matching exists; has_perfect_matching is proved against that.' + _B,
    'P07': 'Proved: shape and entry-wise comparison of split matrices (any size) and of parsed matrices; split_matrix reads LaTeX and nested-list matrices with entries of any length into exactly their entries (bounded: up to 3 by 3, and unequal rows).' + _B,
    'P08': 'Proved: is_equiv_possible_intervals and is_latex_equiv decide by equality of the parsed intervals; _str_to_interval, for end points of any length and value (finite, infinite or symbolic), returns exactly the set of reals written, None for a reversed range or an unreadable end point; unions and intersections of up to three intervals (bounded in their number). Assumed: the converter (P13, P14), evalf keeps values, sympy interval algebra.' + _B,
    'P09': 'Proved over the reals: the tolerance rule of the numeric comparison for every pair of numbers, sign, exact integers. Machine floats are treated as reals (boundary cases).' + _B,
    'P10': 'Proved: equations, inequalities and disequalities reduce to the stated comparisons of sides for all pairs of parsed relations.' + _B,
    'P11': 'Proved: the comparison by kind (list, complex, function, matrix) for all pairs of parsed values and lists of any length.' + _B,
    'P16': 'Proved: is_equiv_type accepts iff the general comparison or a specialised one named in the type accepts; the specialised ones are total.' + _B,
    'P19': 'Proved for every bound on the tries and every behaviour of the model function: number of calls, first usable reply wins, no exception escapes, result text.' + _B,
    'P12': 'Proved for texts of any length and any brackets: _split_tuple, split_tuple (and its variants) cut exactly at the outer commas: loop invariants over the real character loops, with ghost depth/last-cut functions. Unbalanced texts are outside the property. _strip_properly_formatted_commas on numbers and words of any length (a list of forms), split_matrix on entries of any length (bounded: up to 3 by 3).' + _B,
    'P15': 'Proved: latex2sympy (entry), called from any module state, resets the variable table, the derivative/matrix flags and the value table before it parses, for every kind of text it distinguishes; the wrappers and the fraction-state functions leave the state as stated; a static frame (assigns) analysis of every function shows that no other module state, no argument and no default value is written. A frame that cannot be shown is reported as undetermined (companion decides). Outside: the global random generator, the print style.' + _B,
    'P17': 'Proved by symbolic execution of string_normalize on each written form (integers, signs, separators up to four groups, currency, LaTeX spacing, decimals, scientific notation, mixed numbers and fractions, million/billion/trillion, percentages, bases) with digit strings of any length: the text returned denotes the value written; _str_to_decimal by a loop invariant for any length and base. Assumed: float() rounds within 2^-53, str() of a parsed numeral denotes it.' + _B,
    'P18': 'Proved by symbolic execution of string_normalize for every unit of the lists in every documented form, degrees, and all times, with digit strings of any length: the text returned denotes the value, the readings are exactly the stated ones.' + _B,
    'P13': 'Proved on the conversion functions (convert_relation/expr/add/mp/unary/postfix/exp/comp/atom/frac/binom) by structural induction on parse trees: the result denotes the tree, for every production and any number of factors (other repetitions up to 2 or 3, labelled). Assumed: the generated parser follows PS.g4; precedence itself is the grammar\'s (companion).' + _B,
    'P14': 'Proved on convert_func, convert_frac, handle_integral/sum/limit/exp/gcd_lcm: the object built has the written arguments, bounds, index, variable, direction and exponent in its own role, for every production. Assumed: sympy constructors denote their functions, the parser follows PS.g4.' + _B,
    'P20': 'Proved in the algebra of non-commuting matrices: sums, differences, products, scalar multiples, powers, transposes and fractions apply to the written operands in the written order, for every mix of scalar and matrix operands.' + _B,
    'P21': 'Proved: \\variable{name} is the value given for that name or a symbol of its own; nested parses pass the values on.' + _B,
}
NOT_APPLICABLE = {}
