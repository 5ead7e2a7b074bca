"""What each bounded companion explores (never counted as proved), and what it and the contracts leave unchecked."""
_C = 'cases generated from the statement of the property with the seed VERIF_SEED (thorough: about ten times as many), plus fixed edge cases; '


def _i(bound, *ass):
    return dict(bound=_C + bound, assumptions=list(ass))


PARSER = 'the ANTLR parser generated from latex2sympy/PS.g4 builds the parse trees of that grammar (the companion runs the real parser)'
SYMPY = 'sympy operations are functions of their arguments that return or raise an Exception; constructors denote the mathematical object of their name'
FLOAT = 'machine floats are treated as real numbers (exact boundary of a tolerance excluded)'
REALS = 'evalf keeps the value of a closed expression'

INFO = {
    'P01': _i('pairs drawn from a pool of malformed, empty, missing and well-formed answers and random concatenations of LaTeX tokens (up to 7), with and without answer types, and with faults (exceptions, None, timeouts) injected into the parse, simplify, expand, subs and evalf steps.', SYMPY,
               'an exception that is no subclass of Exception (KeyboardInterrupt, SystemExit, MemoryError) is outside the property'),
    'P02': _i('answers of every kind against themselves with spaces around, None, texts that normalise to the empty text.'),
    'P03': _i('pairs of different answers of every kind with every single step of the evidence chain made to fail (exception, timeout, None); pairs of expressions that agree on part of the real line only.', SYMPY,
               'agreement at the sampled points is evidence by definition of the property, not a proof of equality'),
    'P04': _i('pairs of answers with several readings (percent, degrees, time, base), shared and unshared readings; lists of up to 4 reference answers in every position.'),
    'P05': _i('tuples and lists of up to 6 elements from a pool of values in several spellings; swapped, lengthened, shortened, other kind, nested.'),
    'P06': _i('collections of up to 5 elements; elements within tolerance of each other in every pairing (explicit search for a perfect matching as oracle).'),
    'P07': _i('matrices up to 4 by 4 in several environments and as nested lists, one entry or the shape changed, vectors as row, column and list.'),
    'P08': _i('end points from a pool (integers, fractions, roots, pi, infinities), all openness combinations, unions and intersections of up to three intervals.', REALS, PARSER,
               'sympy interval algebra (Union, Intersection, Interval equality) is the algebra of sets of reals'),
    'P09': _i('pairs of decimals at chosen distances (exact rational oracle), integers up to 40 digits, closed forms.', FLOAT, REALS),
    'P10': _i('relations over one to three unknowns, sides swapped, moved, scaled, negated, other sign, other strictness.', SYMPY),
    'P11': _i('parsed lists, complex numbers, function definitions, matrices, sets compared across and within their kinds.', SYMPY),
    'P12': _i('random texts over brackets, commas, blanks and entries, split by an independent splitter; matrices up to 4 by 4.'),
    'P13': _i('random expression trees (depth up to 4) rendered to LaTeX in many spellings, evaluated at random points with exact/complex arithmetic.', PARSER, SYMPY,
               'precedence and associativity inside one grammar rule follow from the grammar, which is data read by ANTLR (companion)'),
    'P14': _i('every function of the grammar with and without brackets, exponents, subscripts and bases; sums, products, limits, integrals, derivatives with random arguments in every role.', PARSER, SYMPY),
    'P15': _i('histories of up to 10 earlier parses and comparisons (successful, failing, with settings) before a probe, verdict and result compared with a fresh process.',
               "the random module's generator, used for sampling, is outside the state meant by the property", "frac_type (the style in which latex() prints fractions) is printing state and no verdict or parse reads it"),
    'P16': _i('every named type alone and combined with pairs that match generally, specially, or not at all.'),
    'P17': _i('numerals in every documented form with up to 40 digits, exact rational oracle.', 'float() of a decimal text rounds to within 2^-53 (a percentage goes through float)'),
    'P18': _i('every unit of the lists in every documented form after numbers of several forms; every time of day; degrees.'),
    'P19': _i('scripts of replies (usable, unusable, exceptions) of length up to 8 against bounds up to 7; reply texts with odd spacing.'),
    'P20': _i('random matrices up to 4 by 4, random trees of matrix operations, every named operator, chains of up to 4 elementary transformations.', PARSER,
               'sympy matrix operations are those of matrices over a commutative ring (exact arithmetic)'),
    'P21': _i('variables with values and without in every syntactic position, two parses with different values one after the other.', PARSER),
}
