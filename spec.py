"""What each property rests on: contract clauses (function, clauses, rough cost in seconds) and search topics."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))

TRUSTED_BASE = [
    'rustc 1.101 nightly: the MIR it hands out is the program that runs; mirdump writes it down unchanged',
    'mirvc: the verification condition generator (mirvc/*.py) and z3',
    'laws of the reals: each is a theorem of laws/Laws.lean (Lean, Mathlib); that the instances mirvc makes are instances of these theorems is not checked',
    'i128 arithmetic treated as mathematical integers: overflow panics, it does not give a wrong value',
    'partial correctness: termination and absence of panics are not proved',
    'reference counting and clone-on-write of Rc<Atom> treated as value semantics',
]


def F(fn, *clauses, cost=1, tier='quick', **kw):
    return dict(fn=fn, clauses=list(clauses) or ['value'], cost=cost, tier=tier, **kw)


PROPS = {}
VALUE_NOTE = ('Every listed contract clause is discharged for all inputs on the MIR of the current tree; partial correctness over mathematical integers and the laws of real powers and functions. '
              'Trusted: rustc MIR, the generator mirvc and z3, the models of the library code used, contracts of callees not proved here (each run lists them in the evidence). '
              'A bounded random search with exact / interval arithmetic oracles runs next to it to find a failing input; it is not counted as proved.')

ARITH = [F('Expr::add', cost=2), F('Expr::sub'), F('Expr::mul', cost=25), F('Expr::div', cost=4), F('Expr::pow', cost=6), F('Expr::pow_raw'), F('Expr::add_raw'), F('Expr::mul_raw'),
         F('Expr::div_raw'), F('Sum::add_rhs', cost=45), F('Sum::add_rhs_raw', cost=10), F('Prod::mul_rhs', cost=140), F('Prod::mul_rhs_raw', cost=12), F('Expr::flatten'),
         F('Expr::flatten', 'leaf'), F('Expr::base'), F('Expr::exponent'), F('Expr::rational_coeff'), F('Expr::non_rational_term')]
OPS = [F('<%s as %s>::%s' % (t, o, o.lower()), instance=i) for t, n in (('Expr', 2), ('&Expr', 2)) for o in ('Add', 'Sub', 'Mul', 'Div') for i in range(n)]
OPS += [F('<Expr as %sAssign>::%s_assign' % (o, o.lower()), instance=i) for o in ('Add', 'Sub', 'Mul', 'Div') for i in range(2)]
ARITH += OPS
UNDEF = [F('Expr::%s' % o, 'undef') for o in ('add', 'sub', 'mul', 'div', 'pow')] + [F('Expr::mul', 'zero'), F('Expr::div', 'zero'), F('Expr::pow', 'zero base'), F('Expr::pow', 'zero')]
UNDEF += [dict(t, clauses=['undef']) for t in OPS if 'Assign' not in t['fn']]
UNDEF += [F('Expr::add', cost=2), F('Expr::sub'), F('Expr::mul', cost=25), F('Expr::div', cost=4), F('Expr::pow', cost=6)]
PROPS['C04'] = dict(fns=UNDEF, topics=['undef'], level='proof', note=VALUE_NOTE)
PROPS['C03'] = dict(fns=ARITH, topics=['arith', 'parts'], level='proof', note=VALUE_NOTE)

RAT = [F('<Rational as %s>::%s' % (o, o.lower()), instance=i) for o in ('Add', 'Sub', 'Mul', 'Div') for i in range(2)]
RAT += [F('<Rational as %sAssign>::%s_assign' % (o, o.lower()), instance=i) for o in ('Add', 'Sub', 'Mul', 'Div') for i in range(2)]
RAT += [F('<Rational as From>::from', instance=i) for i in range(8)] + [F('Rational::new', instance=i) for i in range(2)]
RAT += [F('<Rational as %s>::%s' % x) for x in (('PartialEq', 'eq'), ('PartialEq', 'ne'), ('Ord', 'cmp'), ('PartialOrd', 'partial_cmp'), ('PartialOrd', 'lt'), ('PartialOrd', 'gt'), ('PartialOrd', 'ge'), ('Default', 'default'))]
RAT += [F('Rational::' + x) for x in ('new_int', 'numer', 'denom', 'is_zero', 'is_one', 'is_two', 'is_min_one', 'is_min_two', 'is_pos', 'is_neg', 'is_int', 'is_fraction', 'is_even', 'is_odd')]
PROPS['C01'] = dict(fns=RAT, topics=['rational'], level='proof', note=VALUE_NOTE + ' The number crate (Ratio) is under assumed contracts: its operators are exact and give lowest terms.')
RATPOW = [F('Rational::pow', cost=12)] + [F('Rational::' + x) for x in ('pow_basic', 'div_rem', 'inverse', 'floor', 'abs', 'to_int', 'int_gcd')]
PROPS['C02'] = dict(fns=RATPOW, topics=['ratpow', 'rational'], level='proof', note=VALUE_NOTE + ' The number crate (Ratio, checked_pow, gcd) is under assumed contracts.')

REDUCE = [F('<%s as SymbolicExpr>::reduce' % t, cost=6) for t in ('Expr', 'Sum', 'Prod', 'Pow', 'Func')]
for _t, _o in (('Sum', 'add'), ('Prod', 'mul')):
    REDUCE += [F('%s::%s' % (_t, f), cost=c) for f, c in (('reduce_rec', 13), ('merge_args', 6), ('flat_merge', 4), (_o + '_sorted', 3))]
PROPS['C05'] = dict(fns=REDUCE, topics=['reduce'], level='proof', note=VALUE_NOTE)

PROPS['C17'] = dict(fns=[F('Expr::simplify', cost=45)], topics=['simplify'], level='proof', note=VALUE_NOTE + ' The eight rewritings and reduce come in by their contracts, which C05 to C11 prove. Hash sets are modelled as sequences without equal elements in any order. That the cheaper alternatives come first: bounded search only.')

PARTS = [F('Expr::flatten'), F('Expr::flatten', 'leaf'), F('Expr::base'), F('Expr::exponent'), F('Expr::rational_coeff'), F('Expr::non_rational_term'),
         F('Sum::as_binary_sum'), F('Prod::as_binary_mul'), F('Expr::sort_args', cost=3)]
CLONES = [F('<%s as Clone>::clone' % t, 'copy') for t in ('Atom', 'Sum', 'Prod', 'Pow', 'Func', 'Real', 'Irrational', 'Rational')]
PROPS['C18'] = dict(fns=PARTS + CLONES, topics=['parts', 'sortargs'], level='proof', note=VALUE_NOTE)

FRAC = [F('Expr::numerator', cost=5), F('Expr::denominator', cost=5), F('Expr::try_as_div', cost=11), F('Expr::rationalize', cost=5), F('Expr::rationalize_add', cost=5)]
PROPS['C10'] = dict(fns=FRAC, topics=['fraction'], level='proof', note=VALUE_NOTE)

FACTOR = [F('Expr::pow', 'zero', cost=4), F('Expr::factorize_common_terms', cost=130, shards=5, depth=6), F('Expr::factor_out', cost=3), F('Expr::cancel', cost=3), F('Expr::separate_factors', cost=3)]
PROPS['C11'] = dict(fns=FACTOR, topics=['factor'], level='proof', note=VALUE_NOTE)

EXPAND = [F('Prod::expand_mul', cost=14), F('Prod::distribute'), F('Prod::distribute_first', cost=31), F('Pow::expand_pow_rec', cost=40), F('Pow::expand'), F('Expr::expand', cost=5),
          F('Expr::expand_main_op'), F('Expr::distribute'), F('binomial_coeff'), F('Sum::as_binary_sum')]
PROPS['C06'] = dict(fns=EXPAND, topics=['expand'], level='proof', note=VALUE_NOTE)

EXPLN = [F('Expr::expand_exponential', cost=18), F('expand_exponential_arg', cost=5), F('Expr::expand_ln', cost=6), F('expand_ln_arg'), F('Prod::as_binary_mul'), F('Prod::as_binary_mul', 'positive')]
PROPS['C09'] = dict(fns=EXPLN, topics=['expln'], level='proof', note=VALUE_NOTE)

TRIG = [F('Expr::substitute_trig', cost=6), F('Expr::expand_trig', cost=5), F('expand_trig_arg', cost=2), F('expand_sin_n_times_phi'), F('expand_cos_n_times_phi'),
        F('_expand_sin_cos_n_times_phi', cost=11), F('Sum::as_binary_sum'), F('Prod::as_binary_mul'), F('Prod::as_binary_mul', 'first')]
PROPS['C07'] = dict(fns=TRIG, topics=['trig'], level='proof', note=VALUE_NOTE)
CONTRACT = [F('Expr::contract_trig', cost=5), F('contract_trig_arg', cost=2), F('contract_trig_pow', cost=32), F('contract_trig_prod', cost=5), F('separate_sin_cos', cost=4), F('Expr::simplify_trig'), F('is_pos_sin_cos_int_pow', 'none')]
PROPS['C08'] = dict(fns=CONTRACT, topics=['contract'], level='proof', note=VALUE_NOTE)
DERIV = [F('Expr::derivative', cost=5), F('Expr::derivative', 'const'), F('Func::derivative', cost=3), F('Prod::as_binary_mul', 'deriv'), F('Expr::mul', 'zero'), F('Expr::pow', 'value', cost=6), F('Sum::as_binary_sum')]
PROPS['C12'] = dict(fns=DERIV, topics=['derivative'], level='proof', note=VALUE_NOTE)

SUBST = [F('Expr::substitude'), F('Expr::seq_substitude'), F('Expr::free_of', cost=12)]
SUBST += [F('Expr::try_for_each_compl_sub_expr', c, instance=i, cost=15) for i in range(3) for c in ('value', 'value both')]
SUBST += [F('Expr::concurr_substitude', c, instance=i) for i in range(2) for c in ('value', 'value both')]
PROPS['C13'] = dict(fns=SUBST, topics=['subst'], level='proof', note=VALUE_NOTE)

POLY = [F('VarPow::' + f, c) for f in ('mul', 'merge', 'pow') for c in ('value', 'degree')] + [F('VarPow::as_expr'), F('VarPow::total_deg'), F('GPE::add'), F('GPE::into_expr')]
POLY += [F('VarSet::has'), F('MonomialView::check'), F('MonomialView::coeff', cost=12), F('MonomialView::coeff', 'degree', cost=8), F('MonomialView::degree', 'degree', cost=4), F('PolynomialView::coeffs', cost=8),
         F('PolynomialView::coeffs', 'degree', cost=8), F('PolynomialView::degree', 'degree', cost=4), F('PolynomialView::collect_terms', cost=8)]
POLY += [F(f, 'single', cost=3) for f in ('VarPow::mul', 'VarPow::merge', 'VarPow::pow', 'VarPow::degree_of', 'MonomialView::coeff', 'PolynomialView::coeffs', 'PolynomialView::coeffs_of')]
POLY += [F('VarPow::degree_of', 'single degree'), F('PolynomialView::degree_of', 'single degree', cost=3), F('PolynomialView::leading_coeff_of')]
PROPS['C14'] = dict(fns=POLY, topics=['poly'], level='proof', note=VALUE_NOTE + ' Hash maps are modelled as sequences of pairs with distinct keys. For a set with one variable (a name) the clauses single show that coeffs_of times the powers add up to the value and degree_of is the largest degree; that a coefficient is free of the variable is searched only.')

EQ = [F('<%s as PartialEq>::eq' % t, c, cost=9 if t == 'Atom' else 2) for t in ('Atom', 'Sum', 'Prod', 'Pow', 'Func', 'Real', 'Irrational', 'Var') for c in ('sound', 'refl', 'sym')]
PROPS['C15'] = dict(fns=EQ, topics=['equality'], level='proof', note=VALUE_NOTE + ' Insensitivity to the order of the arguments and agreement of hashes: bounded search only.')

ORD = [F('<Atom as Ord>::cmp', 'refl', cost=2), F('<Atom as Ord>::cmp', 'anti', cost=75, shards=5, depth=9), F('<Atom as Ord>::cmp', 'ends', cost=135, shards=7, depth=9)]
ORD += [F(f, c) for f in ('cmp_slice', 'cmp_slice_rev') for c in ('refl', 'anti', 'ends')] + [F('<%s as Ord>::cmp' % t, c) for t in ('Expr', 'Real') for c in ('refl', 'anti')]
ORD += [F('<%s as PartialOrd>::partial_cmp' % t, 'some') for t in ('Atom', 'Expr')]
PROPS['C16'] = dict(fns=ORD, topics=['order'], level='proof', note=VALUE_NOTE + ' For this property termination is proved too: every comparison made on the way is of smaller expressions, or swaps the arguments once.')


def tasks(prop, tier, reg):
    return [dict(t) for t in PROPS[prop]['fns'] if tier == 'thorough' or t['tier'] == 'quick']


def proved_elsewhere(prop):
    out = {}
    for p, d in PROPS.items():
        if p != prop:
            for t in d['fns']:
                out.setdefault(t['fn'], p)
    return out


def known(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for l in open(f):
            if l.startswith('known: property=%s ' % prop):
                out.append(l.split(' ', 2)[2].strip())
    return out
