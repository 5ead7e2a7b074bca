"""Writes properties.jsonl (kept as a program so that the statements are easy to edit)."""
import json
P = []
CE = 'math_evaluation/core/evaluations.py'
CN = 'math_evaluation/core/latex_normalize.py'
CP = 'math_evaluation/core/latex_parser.py'
CT = 'math_evaluation/core/type_evaluations.py'
L2 = 'latex2sympy/latex2sympy2.py'
G4 = 'latex2sympy/PS.g4'
LL = 'math_evaluation/llms/llm_models.py'


def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)


add('P01', 'Every comparison ends in a true/false verdict',
    'Comparing any two answers (strings or missing), with or without an answer type, returns exactly True or False and never raises an '
    'exception, however malformed the answers are and whichever step of parsing, simplification or numeric evaluation fails.',
    ['inputs', 'fault_sequences'],
    'every pair of strings or None, every answer type string or none given, every step of the symbolic machinery failing or timing out',
    'the tests compare a few hundred well-formed pairs; they never make a parse, simplify or evaluate step fail at a chosen point',
    [CE, CT, CP, CN],
    [('is_equiv', CE), ('are_equal_under_sympy', CP), ('is_equiv_type and its four specialised comparisons', CT), ('string_normalize', CN)],
    ['is_equiv', 'is_equiv_type', 'are_equal_under_sympy'])

add('P02', 'Identical answers match; a missing answer matches only a missing one',
    'An answer is equal to itself up to surrounding whitespace, two missing answers are equal, and a missing answer is never equal to a '
    'present one; two answers that normalise to the same single reading are equal, and an answer that normalises to the empty string '
    'equals only such an answer.',
    ['inputs'], 'every string and None, in every answer-type mode',
    'the tests assert a handful of identical pairs; identity must survive every early exit of the comparison chain for every string',
    [CE, CT], [('is_equiv', CE), ('is_latex_equiv', CE), ('is_equiv_type', CT)], ['is_equiv', 'is_equiv_type'])

add('P03', 'No answer is accepted without evidence',
    'Two answers are accepted only if they are textually equal after normalisation, or equal as intervals, or equal element by element, or '
    'one of their parsed readings was shown equal: by expansion, by a difference within tolerance, or by agreement within tolerance at every '
    'sampled point with the same unknowns on both sides. A failed parse, an exception, a timeout, a missing numeric value or a single '
    'disagreeing sample never counts as agreement.',
    ['inputs', 'fault_sequences'],
    'every pair of answers and every combination of failing or timing-out symbolic steps and sample points',
    'tests never inject failures or timeouts, and cannot observe that all samples were required',
    [CP, CE], [('_are_equal_latex_sympy, _numerical_equal, _diff_equal', CP), ('sympy_simplify/expand_equal/abs/evalf', CP),
               ('are_equal_with_simplify', CP), ('is_latex_equiv', CE)],
    ['is_equiv', 'are_equal_under_sympy'])

add('P04', 'Alternative readings and alternative answers are any-of',
    'When an answer has several admissible readings (percent, angle in degrees, time of day, number with a base) two answers are equal if and '
    'only if some reading of one equals some reading of the other, and when several reference answers are annotated a prediction is '
    'correct if and only if it equals at least one of them.',
    ['inputs'], 'every set of readings on either side, every list of annotated answers (the empty list accepts nothing)',
    'tests exercise two or three readings in one order; the any-of must hold for any number and any order',
    [CE, CT, 'demo.py'], [('is_equiv (set branch)', CE), ('is_equiv_complex (set branch)', CT), ('is_equiv_MATH', 'demo.py')],
    ['is_equiv', 'is_equiv_MATH'])

add('P05', 'Tuples and lists compare element by element in order',
    'Two bracketed answers of the same bracket kind, "(..)" or "[..]", are equal as collections if and only if they have the same number of elements and each '
    'element equals the element at the same position; collections of different kind or length are never equal as collections.',
    ['inputs'], 'every pair of collections of any length, any nesting and any elements',
    'tests compare pairs and triples; nothing covers every length, the last position, or unequal lengths systematically',
    [CE], [('is_equiv_possible_tuple', CE), ('split_tuple', CN)], ['is_equiv'])

add('P06', 'Unordered answers match one to one, in any order',
    'Two unordered answers ("a, b, c" or "{a, b, c}") are equal if and only if their distinct elements can be paired off one to one with equal partners, '
    'every element on both sides being used exactly once; the verdict does not depend on the order in which elements are written or stored.',
    ['inputs', 'configurations'],
    'every pair of element collections, every relation of equal elements (including non-transitive tolerance), every string-hash seed',
    'tests run under one hash seed with clearly different elements; greedy or non-injective matching passes them',
    [CE, CP], [('is_equiv_possible_tuple (set branch)', CE), ('has_perfect_matching', CP), ('_are_equal_latex_sympy (set branch)', CP)],
    ['is_equiv', 'are_equal_under_sympy'])

add('P07', 'Matrices are equal only with the same shape and equal entries',
    'Two matrix answers are equal if and only if they have the same number of rows, the same number of columns in each row, and equal entries at every '
    'position; a single row and a single column of the same entries count as the same vector.',
    ['inputs'], 'every pair of matrices of any dimensions, written in LaTeX or as nested lists',
    'tests use 2x2 and 3x3 examples; a skipped last row or column, or a shape mismatch, is not reached',
    [CE, CN, CP], [('is_equiv_possible_matrix', CE), ('split_matrix', CN), ('_are_equal_latex_sympy (matrix branch), _list_to_mat', CP)],
    ['is_equiv', 'are_equal_under_sympy'])

add('P08', 'Intervals are equal only with equal end points and equal openness',
    'Two interval answers (a, b), [a, b), (a, b], [a, b] are equal as intervals if and only if their end points have the same values and are open on the same '
    'sides; unions and intersections denote the union and intersection of the sets written, and a reversed range is not an interval.',
    ['inputs'], 'all end point values and all combinations of brackets, unions and intersections',
    'tests list a few intervals; the four bracket combinations against each other, on both sides, are not enumerated',
    [CE, CN], [('is_equiv_possible_intervals', CE), ('_str_to_interval', CN)], ['is_equiv'])

add('P09', 'Numbers are equal exactly within the tolerance',
    'Two real numbers are equal if and only if they differ by less than 0.005 when the reference has magnitude at least 1, by less than 0.1% of the reference '
    'when its magnitude is between 0 and 1, and by less than 0.001 when the reference is 0; integers written out in full are thereby compared exactly, '
    'whatever their size.',
    ['inputs'], 'all pairs of real values (floating-point rounding at the exact boundary excluded)',
    'tests sample a few decimals; the thresholds, their strictness and the regime switch at 0 and 1 hold for a continuum',
    [CP, CN], [('_diff_equal', CP), ('_are_equal_latex_sympy (number branch)', CP), ('constants EPSILON', 'math_evaluation/core/constants.py')],
    ['is_equiv', 'are_equal_under_sympy'])

add('P10', 'Equations, inequalities and disequalities compare by meaning',
    'Two equations are equal if and only if their left-minus-right differences are equal or opposite; two inequalities are equal if and only if both are strict or both '
    'are non-strict and, brought to the form "expression < 0", their expressions are equal; two "a != b" answers are equal if and only if the pairs of sides are '
    'equal in either order.',
    ['inputs'], 'all pairs of relations over all expressions and all six relation signs',
    'tests give one or two equations; the sixteen combinations of inequality signs and sides are not enumerated, nor is "!="',
    [CP], [('_are_equal_latex_sympy (equation, inequality branches)', CP), ('_ineq_to_expr, _uneq_to_set', CP), ('_get_sympy_type', CP)],
    ['are_equal_under_sympy', 'is_equiv'])

add('P11', 'Parsed values compare according to their kind',
    'Among parsed values, an ordered list equals a list of the same length with equal elements in order and never equals a set; a complex number equals one with '
    'equal real and equal imaginary part; a function definition equals another definition or an expression when the right-hand sides are equal; a matrix equals a '
    'flat list only as a row or column vector of that length.',
    ['inputs'], 'all parsed values of every kind, to any nesting depth',
    'the tests hold one or two examples of each kind; which component was compared with which cannot be told from them',
    [CP], [('_are_equal_latex_sympy', CP), ('_get_sympy_type', CP), ('_list_to_mat', CP), ('expr_with_only_i', CP)],
    ['are_equal_under_sympy', 'is_equiv'])

add('P12', 'Splitting respects brackets and loses nothing',
    'Splitting an answer into elements cuts exactly at the commas outside all brackets (after the commas that group thousands are removed), yields the elements '
    'in order and stripped of surrounding spaces with nothing lost or added, strips one pair of outer brackets exactly when they match each other, and the kind of collection follows '
    'from those brackets: "()" a tuple, "[]" a list, otherwise a set.',
    ['inputs'], 'all strings over all characters, of any length and bracket nesting',
    'tests see the splitting only through a few comparisons',
    [CN], [('split_tuple', CN), ('split_matrix', CN), ('_strip_properly_formatted_commas', CN)], ['is_equiv'])

add('P13', 'LaTeX arithmetic parses to the value it denotes',
    'The expression obtained from a LaTeX string built with numbers, symbols, + - * / : \\div \\times \\cdot \\mod, implicit products, signs, powers, fractions, roots, '
    'factorials, absolute values, floors, ceilings, binomials, percent signs, relations and grouping has, at every value of its symbols, the value that notation '
    'denotes under the usual precedence and left associativity.',
    ['inputs'], 'all formulas of the grammar, to any depth, and all values of the symbols',
    'tests compare a few hundred fixed formulas with fixed trees; composition to any depth and operand order under every operator are not covered',
    [L2, G4], [('convert_relation, convert_add, convert_mp, convert_unary, convert_postfix, convert_exp, convert_comp, convert_atom, convert_frac', L2)],
    ['latex2sympy'])

add('P14', 'LaTeX functions and calculus parse to what they denote',
    'Applied functions (trigonometric, inverse, hyperbolic, logarithms with or without a base, exponentials, roots of any index, gcd, lcm, max, min, user functions), sums, products, '
    'limits, integrals and derivatives parse to the corresponding mathematical object with the written arguments, bounds, index, variable, direction and exponent, each in '
    'its own role.',
    ['inputs'], 'all arguments, bounds, indices and exponents that the grammar admits',
    'tests use one instance of most forms; exchanged bounds, a dropped exponent or a wrong default base only show for other instances',
    [L2, G4], [('convert_func, handle_integral, handle_sum_or_prod, handle_limit, handle_exp, handle_gcd_lcm, convert_binom, do_subs', L2)],
    ['latex2sympy'])

add('P15', 'Verdicts and parses do not depend on earlier calls',
    'The verdict of a comparison and the result of parsing a LaTeX string depend only on their arguments: earlier comparisons and parses, successful or failed, '
    'never change later ones, except for the explicitly declared symbol settings of the LaTeX parser (real symbols, declared matrix symbols).',
    ['histories'], 'all sequences of comparisons and parses before the one observed',
    'each test starts from whatever earlier tests left behind and never compares the same call after two histories',
    [L2, CN, CP, CE], [('module globals frac_type, variances, var, VARIABLE_VALUES, is_real, diff_op, partial_op', L2), ('latex2sympy wrapper', CN)],
    ['is_equiv', 'are_equal_under_sympy', 'latex2sympy'],
    [('variances, var', 'declared matrix symbols', L2), ('VARIABLE_VALUES', 'values of \\variable{..} during a parse', L2), ('diff_op, partial_op', 'derivative operator seen', L2)])

add('P16', 'The answer type only adds a specialised reading',
    'Comparison with an answer type accepts whenever the general comparison accepts, additionally accepts exactly when a specialised comparison named in the type (complex, set, vector, '
    'function; several may be named) accepts, and consults no other one; an unknown or absent type is the general comparison.',
    ['inputs'], 'all answer type strings and all pairs of answers',
    'tests use the exact type names one at a time',
    [CT], [('is_equiv_type', CT), ('is_equiv_complex, is_equiv_vector, is_equiv_set, is_equiv_function', CT)], ['is_equiv_type'])

add('P17', 'Normalisation keeps the value of numerals',
    'Normalising a numeral keeps its value: integers of any size exactly, thousands separators, currency signs and LaTeX spacing dropped, decimals and scientific notation kept to their written precision, mixed numbers '
    'added with the sign applied to the whole, "million/billion/trillion" as powers of ten; "p%" yields exactly the readings p and p/100, and "d_b" exactly the readings d and d read in base b.',
    ['inputs'], 'all numerals of any length, all group separators, all percentages, all bases',
    'tests hold two or three numerals per notation',
    [CN], [('_string_normalize, further_string_normalize', CN), ('_str_to_decimal, _inject_implicit_mixed_number, _strip_properly_formatted_commas', CN)],
    ['string_normalize', 'is_equiv'])

add('P18', 'Units, times and degrees are read as documented',
    'A known unit after a value, in \\text{..} or as a spaced word, with or without a plural or an exponent, is dropped and the value kept; "n^\\circ" yields exactly the readings n and n/180*pi; a time of day h:mm(:ss) '
    'becomes [h, m(, s)] with zero trailing parts dropped, and "pm" yields exactly the 12-hour and the 24-hour reading.',
    ['inputs'], 'all values, all units of the unit lists, all times 0:00 to 23:59:59 with and without am/pm',
    'tests hold a few units and times',
    [CN, 'math_evaluation/core/constants.py'], [('_string_normalize (unit loops, degree branch)', CN), ('_str_to_time_list', CN)], ['string_normalize', 'is_equiv'])

add('P19', 'Answer-type classification by an LLM retries, bounded, and never raises',
    'Classification calls the model at most the allowed number of times, stops at the first reply that contains a type, returns exactly the text following "Type:" in that reply (white space after it skipped) up to the end of that line, returns nothing when every try '
    'failed, and neither a failing call nor an unusable reply escapes as an exception; the prompt carries the question and the answer wrapped in one pair of dollar signs.',
    ['inputs', 'fault_sequences'], 'all numbers of tries, all sequences of replies and call failures, all questions and answers',
    'no test calls the classifier at all',
    [LL], [('get_llm_type', LL)], ['get_llm_type'])

add('P20', 'LaTeX matrices and matrix operations denote the written operation',
    'A LaTeX matrix has the written entry at each row and column; sums, differences, products, scalar multiples, signs, powers, transposes, determinants, norms and the named matrix operators apply to exactly the written '
    'operands in the written order; elementary transformations on an arrow are applied in order, those above the arrow before those below, with rows and columns numbered from 1.',
    ['inputs'], 'all dimensions, entries, operators and sequences of elementary transformations',
    'tests hold one to three instances of each operator',
    [L2, G4], [('convert_matrix, convert_elementary_transform, mat_add_flat, mat_mul_flat, convert_func', L2)], ['latex2sympy'])

add('P21', 'Named variables are replaced by exactly the given values',
    'Parsing with variable values replaces every occurrence of \\variable{name}, also inside functions, fractions, derivatives and percentages, by the value given for that name, leaves names without a value as distinct '
    'symbols of their own, and values given to one parse have no effect on another.',
    ['inputs', 'histories'], 'all names, all values (numbers, expressions, strings), all positions in the formula, all earlier parses',
    'tests substitute in a few positions and never after another parse',
    [L2], [('latex2sympy (variable_values), convert_atom (VARIABLE)', L2)], ['latex2sympy'],
    [('VARIABLE_VALUES', 'values of the current parse', L2)])

if __name__ == '__main__':
    with open('/verif/properties.jsonl', 'w') as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
    print(len(P))
