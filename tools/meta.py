#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the texts below and spec.PROPS"""
import sys, os, json, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import spec

T = {}


def p(id, title, statement, text, tests, files, mech, over=('inputs',)):
    T[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))


AT, AL, RA, PO = 'src/atom.rs', 'src/algos.rs', 'src/rational.rs', 'src/polynomial.rs'
EV = 'every expression tree (any nesting, any rationals, variables, functions; including unreduced and one- or zero-argument sums and products) and every real value of its variables at which the input has a value'
p('C01', 'Rational arithmetic is exact', 'Adding, subtracting, multiplying, dividing and comparing rational numbers, and asking whether one is an integer, even, odd, zero, one or of which sign, gives exactly the mathematical result, and every rational produced is in lowest terms with a positive denominator. Equality of two rationals is equality of the numbers they stand for.',
  'all pairs of rationals whose exact result fits the integer type', 'the tests use a handful of small rationals; a wrong sign, an unreduced result or a swapped operand for other pairs is not visible to them',
  [RA, 'macros/src/lib.rs'], [('Rational::new / From<(i128,i128)>', RA), ('arith_ops derive (Add, Sub, Mul, Div and assigning forms)', 'macros/src/lib.rs'), ('is_int, is_pos, numer, denom', RA)])
p('C02', 'Powers, division with remainder, inverse and rounding of rationals are right', 'Raising a rational to a rational gives the requested power when no exponent is left over. Otherwise it gives the base (inverted for a negative exponent) raised to the whole part of the exponent, with the fraction left over, or leaves base and exponent as they are. Division with remainder splits a number exactly into an integer and a proper fraction, rounding down gives the greatest integer below, the inverse multiplies to one, and the common divisor of two rationals divides both.',
  'all rationals, all rational exponents for which the power exists and fits', 'no test calls these functions with more than one or two literal values', [RA], [('Rational::pow, pow_basic', RA), ('div_rem, floor, inverse, abs, to_int, int_gcd', RA)])
p('C03', 'Sum, difference, product, quotient and power have the right value', 'Combining two expressions with +, -, *, / or ^ (in the simplifying and in the raw form) yields an expression whose value is the sum, difference, product, quotient or power of the values of the operands, wherever these exist. Nothing is lost, merged wrongly or counted twice when like terms and equal bases are collected.',
  EV, 'the tests compare a few dozen literal expressions with expected trees; the merging rules are applied to any pair of subterms', [AL, AT],
  [('Expr::add/sub/mul/div/pow and *_raw', AL), ('Sum::add_rhs, Prod::mul_rhs and the raw forms', AL), ('rational_coeff, non_rational_term, base, exponent, flatten', AT)])
p('C04', 'Undefined operands give an undefined result', 'Combining an undefined expression with any other by +, -, *, / or ^ gives the undefined expression, as do dividing by zero and raising zero to zero or to a negative number. No operation of this kind on operands that all exist, outside those cases, gives undefined.',
  'every pair of expressions of which one is undefined, and every base and exponent', 'the tests contain one or two undefined expressions', [AL, AT], [('Expr::add/sub/mul/div/pow', AL), ('Sum::add_rhs, Prod::mul_rhs', AL)])
p('C05', 'Reducing an expression keeps its value', 'The basic simplification of an expression (the reduced form) has the same value as the expression for all values of the variables at which the expression has one. It never turns such an expression into the undefined one.',
  EV, 'the reduce tests compare about thirty literal inputs with their expected forms; sorting, merging and the power rules act on arbitrary subterms', [AT, AL], [('SymbolicExpr::reduce for Expr, Sum, Prod, Pow, Func', AT), ('reduce_rec, merge_args, flat_merge, add_sorted, mul_sorted', AL), ('Rational::pow', RA)])
p('C06', 'Expanding products and powers keeps the value', 'Expanding an expression, fully, at its top operation only, or by distributing one sum, gives an expression of the same value wherever the input has one.',
  EV + '; exponents that are not numbers only on bases that are not products or powers themselves', 'tests expand a dozen literal polynomials; binomial sums run over every exponent and number of summands', [AL], [('Expr::expand, expand_main_op, distribute', AL), ('Prod::distribute, expand_mul, distribute_first', AL), ('Pow::expand_pow_rec', AL), ('Sum::as_binary_sum, binomial_coeff', 'src/atom.rs, src/rational.rs')])
p('C07', 'Expanding and substituting trigonometric functions keeps the value', 'Rewriting tangent, cotangent, secant and cosecant by sine and cosine, and expanding sines and cosines of sums and integer multiples, gives an expression with the same value wherever the input has one.',
  EV, 'multiple-angle formulas hold for every multiple and sign; the tests use a few small ones', [AL], [('substitute_trig, expand_trig', AL), ('expand_trig_arg, _expand_sin_cos_n_times_phi', AL)])
p('C08', 'Contracting trigonometric products and powers keeps the value', 'Rewriting products and positive integer powers of sines and cosines into sums of sines and cosines, and the trigonometric simplification built on it, gives an expression with the same value wherever the input has one.',
  EV, 'power reduction formulas depend on parity and size of the exponent and on where in a product the factors stand; the tests have no contraction at all', [AL], [('contract_trig, contract_trig_arg/_pow/_prod, separate_sin_cos', AL), ('simplify_trig', AL)])
p('C09', 'Expanding exponentials and logarithms keeps the value', 'Rewriting the exponential of a sum or integer multiple, and the natural logarithm of a product or power, gives an expression with the same value wherever the input has one; for logarithms the factors and bases of the argument are positive.',
  EV + '; factors and bases inside a logarithm positive', 'the tests expand five literal exponentials and logarithms', [AL], [('expand_exponential, expand_exponential_arg', AL), ('expand_ln, expand_ln_arg', AL)])
p('C10', 'Numerator and denominator give back the fraction', 'The numerator of an expression divided by its denominator has the value of the expression, splitting it as a quotient likewise, and bringing a sum over a common denominator keeps its value.',
  EV, 'four literal fractions in the tests', [AT, AL], [('numerator, denominator, try_as_div', AT), ('rationalize, rationalize_add', AL)])
p('C11', 'Factoring out and cancelling keep the value', 'The common factor of two expressions times each of the two returned quotients gives back the two expressions, and factoring out, cancelling and separating the factors free of a symbol give results that have (or multiply to) the value of the input.',
  EV, 'ten literal polynomials in the tests; the recursion splits arbitrary products and sums', [AL], [('factorize_common_terms, common_factors', AL), ('factor_out, cancel, separate_factors', AL)])
p('C12', 'The derivative is the derivative', 'The expression returned as derivative with respect to a variable has, wherever the input is differentiable, the value of the derivative of the input in that variable.',
  EV + ' and is differentiable', 'eleven literal derivatives in the tests; product, chain and power rule apply to any nesting', [AL, AT], [('Expr::derivative', AL), ('Func::derivative', AT), ('Prod::as_binary_mul', AT)])
p('C13', 'Substitution replaces exactly the matching parts', 'Substituting a term for another gives the expression in which every part equal to it is replaced and nothing else, for simultaneous pairs at once and for sequences of pairs one after the other; an expression is reported free of a term exactly if no part of it equals the term.',
  'every expression, every term to look for and to put in, every list of pairs', 'two literal substitutions in the tests', [AL, AT], [('substitude, seq_substitude, concurr_substitude, try_for_each_compl_sub_expr', AL), ('free_of, ExprIterator', AT)])
p('C14', 'Polynomial coefficients and degrees describe the expression', 'When an expression is accepted as monomial or polynomial in given variables, the coefficients reported, each times its power of the variables, add up to the value of the expression, collecting terms keeps the value, and the degree reported is the largest total degree of its terms as written. In a single variable, coefficients and degree are those of the polynomial.',
  'every expression and set of variables accepted as polynomial', 'the tests look at a dozen literal polynomials', [PO], [('MonomialView::coeff, degree', PO), ('PolynomialView::coeffs, degree, coeffs_of, leading_coeff_of, collect_terms', PO), ('VarPow, GPE', PO)])
p('C15', 'Equal expressions stand for the same thing and hash alike', 'Two expressions that compare equal have the same value at every point, equality is reflexive and symmetric, sums and products of the same numbers and variables are equal in whatever order these are written, and equal expressions have equal hashes.',
  'all pairs of expressions', 'tests compare single literal pairs; equality drives all merging of like terms', [AT], [('PartialEq and Hash for Sum, Prod, Pow, Expr, Atom', AT), ('Ord used for sorting the arguments', AT)])
p('C16', 'The ordering of expressions is antisymmetric and total', 'Comparing two expressions always gives an answer, swapping them reverses it, and an expression compares equal to itself.',
  'all pairs of expressions', 'no test looks at the ordering itself', [AT], [('Ord for Atom, cmp_slice, cmp_slice_rev', AT), ('Ord for Real', AT)])
p('C17', 'Every alternative offered by simplification has the value of the input', 'The list of alternatives returned by the general simplification contains only expressions whose value is the value of the input wherever that exists, cheapest first.',
  EV + '; arguments of logarithms made of positive factors', 'the test suite does not call it', [AL], [('Expr::simplify', AL), ('ExprCost', AL)])
p('C18', 'Splitting an expression into parts loses nothing', 'The rational coefficient times the rest, the base raised to the exponent, the first argument combined with the remaining ones, and the flattened form each have the value of the expression they were taken from; sorting arguments keeps the value.',
  EV, 'five literal expressions in the tests', [AT, AL], [('rational_coeff, non_rational_term, base, exponent, flatten', AT), ('as_binary_sum, as_binary_mul', AT), ('sort_args', AL)])
p('C20', 'The expression macro builds the expression that is written', 'Reading an expression with the macro gives the expression the usual precedence and associativity rules assign to it.',
  'every expression the macro accepts', 'the tests use the macro everywhere but only with simple nestings', ['macros/src/lib.rs'], [('expr! parser', 'macros/src/lib.rs')], over=('programs',))
p('C21', 'Serialized expressions read back equal', 'Writing an expression to any serialization format and reading it back yields an equal expression.',
  'every expression', 'no test serializes', [AT], [('derived Serialize/Deserialize', AT)])
p('C22', 'Simplification and expansion terminate', 'Reducing, expanding, rationalizing and factoring end for every finite expression.',
  'every expression', 'tests run on literals only', [AL], [('recursive descent in reduce_rec, expand_pow_rec, rationalize_add, factorize_common_terms', AL)])
p('C23', 'Printing is unambiguous', 'Two expressions of different value print differently.',
  'all pairs of expressions', 'one literal is printed in the tests', ['src/sym_fmt.rs'], [('FmtAtom', 'src/sym_fmt.rs')])

NA = {
    'C20': 'the macro runs inside the compiler on token streams (syn, quote, proc_macro types); a contract on it would be about syn and TokenStream, which the verifier has no theory of, and its output is code, not a value',
    'C21': 'the code is generated by serde derives and calls only serde; nothing of it is in this repository, and a contract would be an assumption about serde and the format',
    'C22': 'partial correctness only: the contracts say what a returned value satisfies. Termination measures do not exist for several of the recursions (factorization of an empty product against a sum, expanding contracted powers) without restricting the inputs',
    'C23': 'the formatter writes through core::fmt into an opaque sink (and prints 2*3^x and 23^x alike today); there is no contract on text layout short of a parser for it',
}

if __name__ == '__main__':
    ids = [i for i in sorted(T) if i in spec.PROPS or i in NA]
    open(H + '/properties.jsonl', 'w').write(''.join(json.dumps(T[i], ensure_ascii=False) + '\n' for i in ids))
    m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i not in spec.PROPS],
             notes='No hooks in /repo: the verifier reads the MIR of the unmodified crate; the fix: commits are listed in known-findings.txt.')
    for i in ids:
        if i not in spec.PROPS:
            continue
        P = spec.PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i,
                                technique='contracts on the functions in /repo, discharged function by function on their MIR by a deductive verifier (symbolic execution with loop invariants, z3); random search only to find a failing input and for what is labelled bounded',
                                level=P['level'], level_note=P['note']))
    json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    sc = '/root/.vp/'
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open(sc + 'MANIFEST.schema.json')))
        for i in ids:
            jsonschema.validate(T[i], json.load(open(sc + 'PROPERTIES.schema.json')))
    except ImportError:
        print('not validated (use python3-vt)')
    print(len(m['checks']), 'claimed', len(m['not_applicable']), 'not applicable')
