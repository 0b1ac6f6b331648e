from pyv.unit import *

FIELDS = ['Field64', 'Field96', 'Field128']


def BIG(n):
    return 'the size is fixed to %s (every vector)' % n


def vec(n):
    return lambda rng, env: [gen_fe(rng, env['F']) for _ in range(n(rng, env) if callable(n) else n)]


NOT2 = Int(gen=lambda rng, env: rng.choice([-4, -1, 0, 3, 5, 6, 7, 9, 12, 15]))
ANY = FieldP('Field')
ANYN = FieldP('NttField')

for f in FIELDS:
    F = FieldP(concrete=f)
    for n in [1, 2, 4, 8, 16, 32]:
        P = 'poly.%s.' % f
        V = ListOf(FEl(), n=n)
        unit(P + 'roots.%d' % n, ['C04'], 's_poly:nth_root_powers', {'F': F, 'n': Const(n)}, target='s_poly:t_roots', bounded=BIG(n))
        unit(P + 'ntt.%d' % n, ['C04'], 's_poly:ntt', {'F': F, 'n': Const(n), 'set_s': Bool(), 'p': V}, target='s_poly:t_ntt', bounded=BIG(n))
        if n > 1:
            unit(P + 'ntt_short.%d' % n, ['C04'], 's_poly:ntt', {'F': F, 'n': Const(n), 'set_s': Bool(), 'p': ListOf(FEl(), n=n // 2 - (n > 4))}, target='s_poly:t_ntt', bounded=BIG(n))
            unit(P + 'inv_ntt_short.%d' % n, ['C04'], 's_poly:inv_ntt', {'F': F, 'n': Const(n), 'v': ListOf(FEl(), n=n - 1)}, target='s_poly:t_inv_ntt', bounded=BIG(n))
        unit(P + 'inv_ntt.%d' % n, ['C04'], 's_poly:inv_ntt', {'F': F, 'n': Const(n), 'v': V}, target='s_poly:t_inv_ntt', bounded=BIG(n))
        unit(P + 'ntt_inverse.%d' % n, ['C04'], 's_poly:ntt_inverse', {'F': F, 'n': Const(n), 'p': V}, bounded=BIG(n))
    unit(P + 'ntt_large', ['C04'], 's_poly:ntt_samples', {'F': F, 'n': Const(0), 'set_s': Bool(), 'p': Const(0), 'at': Const(0)}, symbolic=False,
         bounded='sizes 64 to 1024, sampled vectors and output positions', gen=lambda rng, env, f=f: large(rng, f))
    unit(P + 'refuse', ['C04'], 's_poly:refuse_ntt', {'F': F, 'n': NOT2, 'set_s': Bool(), 'p': ListOf(FEl(), max=3)}, budget=40)


def large(rng, f):
    F = native_field(f)
    n = 2 ** rng.choice([6, 6, 7, 8, 9, 10])
    k = rng.choice([n, n, n - 1, n // 2 + 1, 3, 1, 0])
    return [F, n, rng.random() < 0.5, [gen_fe(rng, F) for _ in range(k)], [0, 1, n - 1, n // 2, rng.randrange(n), rng.randrange(n)]]


LS = lambda rng, env: rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 9, 17])


def vz(rng, env):
    """Vectors with zeros at either end."""
    v = vec(LS)(rng, env)
    if v and rng.random() < 0.6:
        for i in range(rng.randrange(len(v) + 1)):
            v[-1 - i] = env['F'](0)
    return v


VZ = ListOf(FEl(), gen=vz)
unit('poly.strip', ['C05'], 's_poly:strip_any', {'F': ANY, 'p': VZ}, target='field:poly_strip', use=False)
unit('poly.strip_ok', ['C05'], 's_poly:strip_ok', {'F': ANY, 'p': VZ})
unit('poly.add', ['C05'], 's_poly:add_any', {'F': ANY, 'p': VZ, 'q': VZ}, target='field:poly_add', use=False)
unit('poly.mul', ['C05'], 's_poly:poly_mul', {'F': ANY, 'p': VZ, 'q': VZ}, target='field:poly_mul', use=False, symbolic=False, bounded='sampled, up to 17 coefficients')
unit('poly.eval', ['C05'], 's_poly:poly_eval', {'F': ANY, 'p': VZ, 'eval_at': FEl()}, target='field:poly_eval', use=False, symbolic=False, bounded='sampled, up to 17 coefficients')
unit('poly.eval_hom', ['C05'], 's_poly:eval_homomorphic', {'F': ANY, 'p': VZ, 'q': VZ, 'x': FEl()}, symbolic=False, bounded='sampled')
for a in range(4):
    for b in range(4):
        PQ = {'F': ANY, 'p': ListOf(FEl(), n=a), 'q': ListOf(FEl(), n=b)}
        bd = 'lengths %d and %d (every coefficient)' % (a, b)
        if a + b > 0:
            unit('poly.mul.%d.%d' % (a, b), ['C05'], 's_poly:poly_mul', PQ, target='field:poly_mul', bounded=bd, use=False)
        unit('poly.add.%d.%d' % (a, b), ['C05'], 's_poly:poly_add', PQ, target='field:poly_add', bounded=bd, use=False)
        if min(a, b) == 1:
            unit('poly.eval_hom.%d.%d' % (a, b), ['C05'], 's_poly:eval_homomorphic', {**PQ, 'x': FEl()}, bounded=bd)
for n in range(6):
    unit('poly.eval.%d' % n, ['C05'], 's_poly:poly_eval', {'F': ANY, 'p': ListOf(FEl(), n=n), 'eval_at': FEl()}, target='field:poly_eval', use=False, bounded='%d coefficients (all values)' % n)
for n in [1, 2]:
    unit('poly.interp.%d' % n, ['C05'], 's_poly:interp_ok', {'F': ANY, 'xs': ListOf(FEl(), n=n), 'ys': ListOf(FEl(), n=n)}, bounded='%d points (all points and values)' % n)
for f in ['Field64', 'Field128', 'Field255']:
    for at in [(0, 1, 2), (5, 0, 3, 1), (7, 1, 0, 2, 4)]:
        unit('poly.interp_at.%s.%d' % (f, len(at)), ['C05'], 's_poly:interp_at', {'F': FieldP(concrete=f), 'at': Const(at), 'ys': ListOf(FEl(), n=len(at))}, bounded='the points %s (all values)' % (at,))
PTS = ListOf(FEl(), gen=lambda rng, env: dist(rng, env['F']))


def dist(rng, F):
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 9])):
        x = gen_fe(rng, F)
        if x not in out:
            out.append(x)
    return out


unit('poly.interp', ['C05'], 's_poly:interp_ok', {'F': ANY, 'xs': PTS, 'ys': ListOf(FEl(), gen=lambda rng, env: [gen_fe(rng, env['F']) if rng.random() < 0.7 else env['F'](0) for _ in env['xs']])}, symbolic=False, bounded='at most 9 points, sampled')
unit('poly.interp_recovers', ['C05'], 's_poly:interp_recovers', {'F': ANY, 'xs': PTS, 'p': ListOf(FEl(), gen=lambda rng, env: vec(rng.randrange(len(env['xs']) + 1))(rng, env))}, symbolic=False, bounded='at most 9 points, sampled')
unit('poly.interp_lengths', ['C05'], 's_poly:interp_lengths', {'F': ANY, 'xs': ListOf(FEl(), max=4), 'ys': ListOf(FEl(), max=4)})

for f in FIELDS:
    F = FieldP(concrete=f)
    P = 'lag.%s.' % f
    for n in [1, 2, 4, 8, 16]:
        V = ListOf(FEl(), n=n)
        unit(P + 'eval.%d' % n, ['C05'], 's_poly:lag_eval', {'F': F, 'p': V, 'x': FEl()}, bounded=BIG(n))
        if n <= 8:
            unit(P + 'eval_batched.%d' % n, ['C05'], 's_poly:lag_eval_batched', {'F': F, 'p': V, 'q': V, 'x': FEl()}, bounded=BIG(n))
            unit(P + 'mul.%d' % n, ['C05'], 's_poly:lag_mul', {'F': F, 'p': V, 'q': V}, bounded=BIG(n))
        for i in range(n):
            unit(P + 'on_root.%d.%d' % (n, i), ['C05'], 's_poly:lag_eval_on_root', {'F': F, 'n': Const(n), 'i': Const(i), 'v': V}, bounded=BIG(n))
        unit(P + 'double.%d' % n, ['C05'], 's_poly:lag_double', {'F': F, 'p': V}, bounded=BIG(n))
        for k in range(n + 1):
            unit(P + 'extend.%d.%d' % (n, k), ['C05'], 's_poly:lag_extend', {'F': F, 'n': Const(n), 'p': ListOf(FEl(), n=k)}, bounded='%d values extended to %d (every value)' % (k, n))
    G = lambda rng, env: rng.choice([1, 2, 4, 8, 16, 32, 64])
    GV = ListOf(FEl(), gen=vec(G))
    SAME = ListOf(FEl(), gen=lambda rng, env: vec(len(env['p']))(rng, env))
    unit(P + 'eval', ['C05'], 's_poly:lag_eval', {'F': F, 'p': GV, 'x': FEl()}, symbolic=False, bounded='sampled, up to 64 values')
    unit(P + 'eval_batched', ['C05'], 's_poly:lag_eval_batched', {'F': F, 'p': GV, 'q': SAME, 'x': FEl()}, symbolic=False, bounded='sampled, up to 64 values')
    unit(P + 'mul', ['C05'], 's_poly:lag_mul', {'F': F, 'p': GV, 'q': SAME}, symbolic=False, bounded='sampled, up to 64 values')
    unit(P + 'double', ['C05'], 's_poly:lag_double', {'F': F, 'p': GV}, symbolic=False, bounded='sampled, up to 64 values')
    unit(P + 'extend', ['C05'], 's_poly:lag_extend', {'F': F, 'n': Int(gen=G), 'p': ListOf(FEl(), gen=lambda rng, env: vec(rng.randrange(env['n'] + 1))(rng, env))}, symbolic=False, bounded='sampled, up to 64 values')
    R = ListOf(FEl(), max=9)
    RN = Int(gen=lambda rng, env: rng.choice([-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 16]))
    unit(P + 'refuse_eval', ['C05'], 's_poly:refuse_eval', {'F': F, 'p': R, 'x': FEl()})
    unit(P + 'refuse_double', ['C05'], 's_poly:refuse_double', {'F': F, 'p': R})
    unit(P + 'refuse_mul', ['C05'], 's_poly:refuse_mul', {'F': F, 'p': R, 'q': R})
    unit(P + 'refuse_extend', ['C05'], 's_poly:refuse_extend', {'F': F, 'p': R, 'n': RN})
    unit(P + 'refuse_batched', ['C05'], 's_poly:refuse_batched', {'F': F, 'p': R, 'q': R, 'x': FEl()})
