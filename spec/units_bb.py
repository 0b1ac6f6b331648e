from pyv.unit import *

NATIVE = {}


def lens(kind, a):
    """(measurement, joint randomness, output, [(arity, degree, calls)])"""
    up = lambda x, y: (x + y - 1) // y
    if kind == 'count':
        return 1, 0, 1, [(2, 2, 1)]
    if kind == 'sum':
        b = a[0].bit_length()
        return b, 0, b, [(1, 2, b)]
    if kind == 'two':
        return 2, 1, 2, [(2, 2, 1), (1, 3, 2)]
    if kind == 'hist':
        n, ch, o = a[0], a[1], 2
    elif kind == 'sumvec':
        n, ch, o = a[0] * a[1].bit_length(), a[2], 1
    else:
        n, ch, o = a[0] + a[1].bit_length(), a[2], 2
    return n, up(n, ch), o, [(2 * ch, 2, up(n, ch))]


def all_lens(kind, a):
    """meas, prove rand, query rand, joint rand, proof, verifier"""
    n, j, o, gs = lens(kind, a)
    p2 = lambda x: 2 ** (x - 1).bit_length()
    return (n, sum(g[0] for g in gs), len(gs) + (o if o > 1 else 0), j,
            sum(g[0] + g[1] * (p2(g[2] + 1) - 1) + 1 for g in gs), 1 + sum(g[0] + 1 for g in gs))


SMALL = [('Field64', 'count', ()), ('Field128', 'count', ()), ('Field64', 'sum', (1,)), ('Field96', 'sum', (2,)), ('Field128', 'sum', (5,)), ('Field64', 'hist', (2, 1)),
         ('Field128', 'hist', (3, 2)), ('Field64', 'hist', (4, 3)), ('Field128', 'sumvec', (2, 1, 1)), ('Field64', 'sumvec', (1, 3, 3)), ('Field128', 'sumvec', (2, 2, 2)),
         ('Field128', 'multihot', (2, 1, 2)), ('Field64', 'multihot', (3, 2, 2)), ('Field64', 'two', ()), ('Field128', 'two', ())]

for f, kind, a in SMALL:
    nm, npr, nqr, njr, npf, nv = all_lens(kind, a)
    F = FieldP(concrete=f)
    T = '.'.join([f, kind] + [str(x) for x in a])
    B = {'F': F, 'kind': Const(kind), 'args': Const(a)}
    bd = 'the circuit is %s%s over %s (all measurements, proofs and randomness)' % (kind, a, f)
    V = lambda n: ListOf(FEl(), n=n)
    unit('bb.complete.' + T, ['C12'], 's_bb:complete', {**B, 'bits': ListOf(Bool(), n=nm), 'pr': V(npr), 'jr': V(njr), 'qr': V(nqr)}, bounded=bd, budget=100)
    unit('bb.prove.' + T, ['C12'], 's_bb:prove', {**B, 'meas': V(nm), 'pr': V(npr), 'jr': V(njr)}, target='s_bb:t_prove', bounded=bd, budget=100)
    for ns in (1, 3):
        unit('bb.query.%s.%d' % (T, ns), ['C12', 'C13'], 's_bb:query', {**B, 'meas': V(nm), 'proof': V(npf), 'qr': V(nqr), 'jr': V(njr), 'ns': Const(ns)}, target='s_bb:t_query', bounded=bd, budget=100)
    for n in (2, 3):
        unit('bb.linear.%s.%d' % (T, n), ['C12'], 's_bb:linear', {**B, 'n': Const(n), 'meas': V(nm), 'proof': V(npf), 'meas_sh': ListOf(V(nm), n=n - 1), 'proof_sh': ListOf(V(npf), n=n - 1), 'qr': V(nqr), 'jr': V(njr)}, bounded=bd, budget=100)
    unit('bb.decide.' + T, ['C13'], 's_bb:decide', {**B, 'verifier': V(nv)}, target='s_bb:t_decide', bounded=bd, budget=100)
    unit('bb.verdict.' + T, ['C13'], 's_bb:verdict_is_output', {**B, 'meas': V(nm), 'pr': V(npr), 'jr': V(njr), 'qr': V(nqr)}, bounded=bd, budget=100)
    if npf <= 16:
        unit('bb.tamper.' + T, ['C13'], 's_bb:tamper', {**B, 'meas': V(nm), 'pr': V(npr), 'jr': V(njr), 'qr': V(nqr), 'd': FEl()}, bounded=bd, budget=100)
    unit('bb.tamper_rejected.' + T, ['C13'], 's_bb:tamper_rejected', {**B, 'meas': V(nm), 'pr': V(npr), 'jr': V(njr), 'qr': V(nqr), 'd': FEl(), 'at': Const(npf - 2)}, bounded=bd, budget=100)
    W = lambda n: ListOf(FEl(), gen=lambda rng, env, n=n: [gen_fe(rng, env['F']) for _ in range(max(0, n + rng.choice([0, 0, 0, 0, 1, -1])))])
    unit('bb.lengths.' + T, ['C13', 'C12'], 's_bb:refuse_lengths', {**B, 'meas': W(nm), 'pr': W(npr), 'jr': W(njr), 'qr': W(nqr), 'proof': W(npf), 'ver': W(nv)}, bounded=bd, budget=100)
    for g in range(1 + (kind == 'two')):
        unit('bb.domain.%s.%d' % (T, g), ['C13', 'C12'], 's_bb:domain_refused', {**B, 'meas': V(nm), 'proof': V(npf), 'qr': V(nqr), 'jr': V(njr), 'k': Int(gen=lambda rng, env: rng.randrange(16)), 'g': Const(g)}, symbolic=False, bounded='sampled points of the domain', budget=100)


def some(rng, env=None):
    kind = rng.choice(['count', 'sum', 'hist', 'sumvec', 'multihot', 'hist', 'sumvec', 'multihot'])
    n = rng.choice([1, 2, 3, 4, 5, 7, 8, 9])
    m = rng.choice([1, 2, 3, 4, 5, 7, 8])
    c = rng.choice([1, 2, 3, 4, 5, 10])
    a = {'count': (), 'sum': (rng.choice([1, 2, 3, 4, 5, 7, 8, 100, 255]),), 'hist': (n, c), 'sumvec': (n, m, c), 'multihot': (n, rng.randint(1, n), c)}[kind]
    F = native_field(rng.choice(['Field96', 'Field128', 'Field128']))
    k = lens(kind, a)[0]
    r = rng.random()
    v = [0] * k
    if kind == 'hist' and r < 0.6:
        v[rng.randrange(k)] = 1
    elif kind == 'multihot' and r < 0.6:
        from vdaf_poc.flp_bbcggi19 import MultihotCountVec
        w = rng.randint(0, a[1])
        bits = [False] * n
        for i in rng.sample(range(n), w):
            bits[i] = True
        v = [x.val for x in MultihotCountVec(F, *a).encode(bits)]
    else:
        v = [rng.randrange(2) for _ in range(k)]
    if r > 0.7:
        v[rng.randrange(k)] = rng.choice([2, F.MODULUS - 1, rng.randrange(F.MODULUS), 1, 0])
    return [F, kind, a, [F(x) for x in v], rng.choice([1, 2, 2, 3, 5]), str(rng.randrange(10 ** 9))]


N0 = Const(0)
unit('bb.run', ['C12', 'C13'], 's_bb:run_verdict', {'F': N0, 'kind': N0, 'args': N0, 'meas': N0, 'n': N0, 'salt': N0}, symbolic=False,
     bounded='sampled circuits, measurements, sharings and coins over Field96 and Field128', gen=some, nbudget=4)

# -- every size of the circuits, every NTT field
FN = FieldP('NttField')
PA = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 9, 2 ** 16, 2 ** 53 + 1]))
PB = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 8, 2 ** 40, env['F'].MODULUS]) if env['kind'] != 'multihot' else rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 10]))
PC = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 256, 2 ** 40 + 1]))
QA = Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3, 4, 5, 7, 9]))
QB = Int(lo=1, gen=lambda rng, env: rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 100]) if env['kind'] != 'multihot' else rng.randint(1, env['a']))
QC = Int(lo=1, gen=lambda rng, env: rng.choice([1, 1, 2, 3, 4, 5, 7]))


def shp(env):
    import s_bb
    return s_bb.shape(env['kind'], env['a'], env['b'], env['c'])


def off(f):
    return ListOf(FEl(), gen=lambda rng, env: [gen_fe(rng, env['F']) for _ in range(max(0, f(shp(env)) + rng.choice([0, 0, 0, 0, 1, -1])))])


def gver(rng, env):
    import s_bb
    F = env['F']
    ar = shp(env)[4]
    w = [gen_fe(rng, F) for _ in range(ar)]
    v = [F(0)] + w + [s_bb.gadget_any(F, env['kind'], w)]
    r = rng.random()
    if r < 0.3:
        v[rng.randrange(len(v))] = gen_fe(rng, F)
    elif r < 0.4:
        v = v[:-1] if rng.random() < 0.5 else v + [F(0)]
    return v


for kind in ('count', 'sum', 'hist', 'sumvec', 'multihot'):
    K = Const(kind)
    unit('bb.sizes.' + kind, ['C12', 'C13', 'C29'], 's_bb:sizes', {'F': FN, 'kind': K, 'a': PA, 'b': PB, 'c': PC}, target='s_bb:t_sizes')
    unit('bb.circ.' + kind, ['C12', 'C13', 'C29', 'C11'], 's_bb:circ', {'F': FN, 'kind': K, 'a': PA, 'b': PB, 'c': PC}, target='s_bb:t_circ')
    Q = {'F': FN, 'kind': K, 'a': QA, 'b': QB, 'c': QC}
    unit('bb.decide_any.' + kind, ['C13', 'C12', 'C27'], 's_bb:decide_any', {**Q, 'ver': ListOf(FEl(), gen=gver)}, target='s_bb:t_decide_any')
    unit('bb.lengths_any.' + kind, ['C13', 'C12'], 's_bb:lengths_any',
         {**Q, 'meas': off(lambda s: s[0]), 'pr': off(lambda s: s[4]), 'jr': off(lambda s: s[1]), 'qr': off(lambda s: 1 + s[3] if s[3] > 1 else 1),
          'proof': off(lambda s: s[4] + 2 * (2 ** s[5].bit_length() - 1) + 1), 'ns': Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3]))})
unit('bb.gadget_lens', ['C12', 'C13', 'C29'], 's_bb:gadget_lens', {'d': Int(lo=0, small=8), 'calls': Int(lo=0, small=40)}, target='s_bb:t_gadget_lens')
for kind in ('mul', 'poly', 'psum'):
    unit('bb.gadget.' + kind, ['C12', 'C13', 'C11'], 's_bb:gadget_eval', {'F': FN, 'kind': Const(kind), 'count': Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3, 5])),
         'w': ListOf(FEl(), gen=lambda rng, env: [gen_fe(rng, env['F']) for _ in range(max(0, {'mul': 2, 'poly': 1, 'psum': 2 * env['count']}[env['kind']] + rng.choice([0, 0, 0, 0, 1, -1])))])}, target='s_bb:t_gadget_eval')


def unknown_poly_ops(it):
    from pyv.unit import spec_func
    for m, s in (('extend_values_to_power_of_2', 'a_extend'), ('double_evaluations', 'a_double'), ('poly_eval', 'a_eval'), ('poly_eval_batched', 'a_eval_batched'), ('poly_mul', 'a_mul')):
        it.contracts['field:Lagrange.' + m] = spec_func(it.loader, 's_bb:' + s)
    for m in ('ntt', 'inv_ntt'):
        it.contracts['field:NttField.' + m] = spec_func(it.loader, 's_bb:a_' + m)


def ex(f):
    return ListOf(FEl(), gen=lambda rng, env: [gen_fe(rng, env['F']) for _ in range(f(shp(env)))])


for kind in ('count', 'sum', 'hist', 'sumvec', 'multihot'):
    Q = {'F': FN, 'kind': Const(kind), 'a': QA, 'b': QB, 'c': QC}
    unit('bb.prove_any.' + kind, ['C12', 'C27'], 's_bb:prove_any', {**Q, 'meas': ex(lambda s: s[0]), 'pr': ex(lambda s: s[4]), 'jr': ex(lambda s: s[1])}, target='s_bb:t_prove_any', setup=unknown_poly_ops, budget=200, cost=60)
    unit('bb.query_any.' + kind, ['C12', 'C13', 'C27'], 's_bb:query_any', {**Q, 'meas': ex(lambda s: s[0]), 'proof': ex(lambda s: s[4] + 2 * 2 ** s[5].bit_length() - 1),
         'qr': ex(lambda s: 1 + s[3] if s[3] > 1 else 1), 'jr': ex(lambda s: s[1]), 'ns': Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3]))}, target='s_bb:t_query_any', setup=unknown_poly_ops, budget=200, cost=60)


def gen_custom(rng, env=None):
    F = native_field(rng.choice(['Field96', 'Field128', 'Field128']))
    m = rng.choice([1, 1, 2, 3])

    def what(deep=True):
        k = rng.choice(['mul', 'poly', 'poly', 'psum'] if deep else ['mul', 'poly'])
        if k == 'mul':
            return ('mul',)
        if k == 'poly':
            return ('poly', [rng.choice([0, 1, -1, 2, rng.randrange(100)]) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 8]))] + [rng.choice([1, 3, -1])])
        return ('psum', what(False), rng.choice([1, 2, 3]))

    def arity(w):
        return {'mul': lambda: 2, 'poly': lambda: 1, 'psum': lambda: arity(w[1]) * w[2]}[w[0]]()

    def plan():
        w = what()
        return (w, [[[rng.choice([0, 1, 1, 2, -1]) for _ in range(m)] + [rng.choice([0, 0, 1])] for _ in range(arity(w))] for _ in range(rng.choice([1, 1, 2, 3, 4, 7, 8]))])

    meas = [gen_fe(rng, F) for _ in range(m)]
    other = list(meas)
    other[rng.randrange(m)] = gen_fe(rng, F)
    return [F, [plan() for _ in range(rng.choice([1, 1, 2, 3]))], meas, other, rng.choice([0, 1, 1]), rng.choice([1, 2, 3]), str(rng.randrange(10 ** 9))]


unit('bb.custom', ['C12', 'C13'], 's_bb:custom', {k: N0 for k in ('F', 'plan', 'meas', 'other', 'jr_len', 'n', 'salt')}, symbolic=False,
     bounded='sampled circuits of up to three gadgets of degree up to 8 over Field96 and Field128', gen=gen_custom, nbudget=5)

AR = Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3]))
CL = Int(lo=1, gen=lambda rng, env: rng.choice([1, 1, 2, 3, 4, 7, 8]))
GA = Obj('s_bb:AnyGadget', {'ARITY': Via(lambda it, env: env['arity'], lambda rng, env: env['arity']), 'DEGREE': Via(lambda it, env: env['deg'], lambda rng, env: env['deg']), 'n': Int(lo=0, hi=9)})
DG = Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3, 4, 5, 7, 9]))


def gplen(e):
    if isinstance(e['calls'], int):
        return e['deg'] * (2 ** e['calls'].bit_length() - 1) + 1
    return iadd(mul_i(e['deg'], isub(canon_i(pow2(blen(zint(e['calls'])))), 1)), 1)


CALLS = ListOf(ListOf(FEl(), n=lambda e: e['arity']), n=lambda e: e['calls'])
QG = {'F': FN, 'arity': AR, 'deg': DG, 'g': GA, 'calls': CL, 'seeds': ListOf(FEl(), n=lambda e: e['arity'])}
unit('bb.query_gadget', ['C12', 'C13'], 's_bb:query_gadget', {**QG, 'poly': ListOf(FEl(), n=gplen), 'inputs': CALLS},
     hidden=['arity', 'deg'], target='s_bb:t_query_gadget', setup=unknown_poly_ops)
unit('bb.prove_gadget', ['C12', 'C13'], 's_bb:prove_gadget', {**QG, 'inputs': CALLS}, hidden=['arity', 'deg'], target='s_bb:t_prove_gadget')
