from pyv.unit import *
import s_flp as SL

F = FieldP('NttField')
F4 = FieldP('Field')


def gmax(rng, env):
    p = env['F'].MODULUS
    return rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 100, 255, 256, 1000, 2 ** 20 - 1, 2 ** 20, 2 ** 31, 2 ** 62 + 5, rng.randrange(1, 2000), rng.randrange(1, p)])


def gval(rng, env):
    m = env['m']
    return rng.choice([0, 1, m, m - 1, m + 1, -1, m // 2, 2 ** (m.bit_length() - 1) - 1, 2 ** (m.bit_length() - 1), rng.randrange(m + 1)])


M = Int(lo=1, hi=lambda e: e['F'].MODULUS if hasattr(e['F'], 'MODULUS') else e['F'].p, gen=gmax)


def mod(e):
    f = e['F']
    return f.MODULUS if hasattr(f, 'MODULUS') else f.modulus


M = Int(lo=1, hi=mod, gen=gmax)
MS = Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 16, 17, 100, 255, 256, rng.randrange(1, 600)]))


def bits_of(rng, env):
    k = env['m'].bit_length()
    return [rng.random() < 0.5 for _ in range(k)] if rng.random() < 0.8 else [True] * k


def vec_m(rng, env):
    k = env['m'].bit_length() + rng.choice([0, 0, 0, 0, 0, 1, -1, 3])
    return [gen_fe(rng, env['F']) for _ in range(max(0, k))]


unit('flp.encode_rc', ['C09'], 's_flp:encode_rc', {'F': F4, 'value': Int(gen=lambda rng, env: rng.choice([rng.randrange(-2, 40), rng.randrange(1, 2000)])), 'm': M},
     target='flp_bbcggi19:encode_range_checked_int', use=True,
     gen=lambda rng, env: [env['F'], gval(rng, env), env['m']])
unit('flp.decode_rc', ['C09'], 's_flp:decode_rc', {'F': F4, 'm': M, 'encoded': ListOf(FEl(), gen=vec_m)},
     target='s_flp:t_decode_rc')
unit('flp.rc_roundtrip', ['C09', 'C10'], 's_flp:rc_roundtrip', {'F': F4, 'm': M, 'value': Int(lo=0, gen=gval)})
unit('flp.rc_sound', ['C09'], 's_flp:rc_sound', {'F': F4, 'm': M, 'bits01': ListOf(Bool(), gen=bits_of)}, budget=90, cost=18)
unit('flp.rc_linear', ['C09', 'C10'], 's_flp:rc_linear', {'F': F4, 'm': M, 'a': ListOf(FEl(), gen=lambda r, e: [gen_fe(r, e['F']) for _ in range(e['m'].bit_length())]),
                                                  'b': ListOf(FEl(), gen=lambda r, e: [gen_fe(r, e['F']) for _ in range(e['m'].bit_length())])})


def pow_of_two(rng, env):
    return rng.choice([1, 2, 3, 4, 5, 6, 8, 9, 11, 16, 17])


LEN = Int(lo=1, gen=pow_of_two, small=True)
CH = Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3, 4, 5, 7, 8, 20]), small=True)
MW = Int(lo=1, gen=lambda rng, env: rng.randrange(1, env['length'] + 1))
NM = Int(lo=1, small=True)


def near(n):
    """A vector of n elements, sometimes of a wrong length."""
    def g(rng, env):
        k = n(env)
        if rng.random() < 0.15:
            k = max(0, k + rng.choice([-1, 1, 2]))
        return [gen_fe(rng, env['F']) for _ in range(k)]
    return g


def exact(n):
    return lambda rng, env: [gen_fe(rng, env['F']) for _ in range(n(env))]


def bools(rng, env):
    n = env['length'] + (rng.choice([-1, 1]) if rng.random() < 0.1 else 0)
    p = rng.choice([0.1, 0.3, 0.5, 1])
    return [rng.random() < p for _ in range(max(0, n))]


def ints(rng, env):
    n = env['length'] + (rng.choice([-1, 1]) if rng.random() < 0.1 else 0)
    bad = rng.random() < 0.2
    return [gval(rng, env) if bad else max(0, min(env['m'], gval(rng, env))) for _ in range(max(0, n))]


L = lambda e: e['length']
LB = lambda e: e['length'] * nb(e['m'])
LW = lambda e: e['length'] + nb(e['mw'])
B = lambda e: nb(e['m'])


def nb(m):
    return m.bit_length() if isinstance(m, int) else ireify(patom(blen(zint(canon_i(m)))))


HP = {'F': F, 'length': LEN, 'chunk': CH}
MP = {'F': F, 'length': LEN, 'mw': MW, 'chunk': CH}
VP = {'F': F, 'length': LEN, 'm': MS, 'chunk': CH}
SP = {'F': F, 'm': M}
X = Int(gen=lambda rng, env: rng.randrange(-2, env.get('length', 3) + 2))

unit('flp.count.encode', ['C10', 'C27'], 's_flp:count_encode', {'F': F, 'x': X}, target='s_flp:t_count_encode')
unit('flp.hist.encode', ['C10', 'C27'], 's_flp:hist_encode', {**HP, 'x': X}, target='s_flp:t_hist_encode')
unit('flp.multihot.encode', ['C10', 'C27'], 's_flp:multihot_encode', {**MP, 'x': ListOf(Bool(), gen=bools)}, target='s_flp:t_multihot_encode')
unit('flp.sumvec.encode', ['C10', 'C27'], 's_flp:sumvec_encode', {**VP, 'x': ListOf(Int(), gen=ints)}, target='s_flp:t_sumvec_encode', budget=150)
unit('flp.sum.encode', ['C10', 'C27'], 's_flp:sum_encode', {**SP, 'x': Int(gen=gval)}, target='s_flp:t_sum_encode')

unit('flp.count.truncate', ['C10', 'C27'], 's_flp:count_truncate', {'F': F, 'meas': ListOf(FEl(), max=3)}, target='s_flp:t_count_truncate')
unit('flp.hist.truncate', ['C10', 'C27'], 's_flp:hist_truncate', {**HP, 'meas': ListOf(FEl(), n=L)}, target='s_flp:t_hist_truncate')
unit('flp.multihot.truncate', ['C10', 'C27'], 's_flp:multihot_truncate', {**MP, 'meas': ListOf(FEl(), n=LW)}, target='s_flp:t_multihot_truncate')
unit('flp.sumvec.truncate', ['C10', 'C27'], 's_flp:sumvec_truncate', {**VP, 'meas': ListOf(FEl(), n=LB)}, target='s_flp:t_sumvec_truncate')
unit('flp.sum.truncate', ['C10', 'C27'], 's_flp:sum_truncate', {**SP, 'meas': ListOf(FEl(), n=B)}, target='s_flp:t_sum_truncate')

unit('flp.count.decode', ['C10', 'C27'], 's_flp:scalar_decode', {'F': F, 'out': ListOf(FEl(), n=1), 'n': NM}, target='s_flp:t_count_decode')
unit('flp.sum.decode', ['C10', 'C27'], 's_flp:sum_decode', {**SP, 'out': ListOf(FEl(), n=1), 'n': NM}, target='s_flp:t_sum_decode')
unit('flp.hist.decode', ['C10', 'C27'], 's_flp:hist_decode', {**HP, 'out': ListOf(FEl(), n=L), 'n': NM}, target='s_flp:t_hist_decode')
unit('flp.multihot.decode', ['C10', 'C27'], 's_flp:multihot_decode', {**MP, 'out': ListOf(FEl(), n=L), 'n': NM}, target='s_flp:t_multihot_decode')
unit('flp.sumvec.decode', ['C10', 'C27'], 's_flp:sumvec_decode', {**VP, 'out': ListOf(FEl(), n=L), 'n': NM}, target='s_flp:t_sumvec_decode')

NS = Int(lo=1, hi=mod, gen=lambda rng, env: rng.choice([1, 1, 2, 3, 5, 255]))


def jlen(n):
    return lambda e: (n(e) + e['chunk'] - 1) // e['chunk']


def valid_or_random(n):
    def g(rng, env):
        k = n(env)
        r = rng.random()
        if r < 0.5:
            return [env['F'](rng.randrange(2)) for _ in range(k)]
        return near(n)(rng, env)
    return g


unit('flp.count.eval', ['C11', 'C27'], 's_flp:count_eval', {'F': F, 'meas': ListOf(FEl(), max=3), 'jr': ListOf(FEl(), max=1), 'ns': NS}, target='s_flp:t_count_eval')
unit('flp.hist.eval', ['C11', 'C27'], 's_flp:hist_eval', {**HP, 'meas': ListOf(FEl(), gen=valid_or_random(L)), 'jr': ListOf(FEl(), gen=near(jlen(L))), 'ns': NS}, target='s_flp:t_hist_eval')
unit('flp.multihot.eval', ['C11', 'C27'], 's_flp:multihot_eval', {**MP, 'meas': ListOf(FEl(), gen=valid_or_random(LW)), 'jr': ListOf(FEl(), gen=near(jlen(LW))), 'ns': NS}, target='s_flp:t_multihot_eval')
unit('flp.sumvec.eval', ['C11', 'C27'], 's_flp:sumvec_eval', {**VP, 'meas': ListOf(FEl(), gen=valid_or_random(LB)), 'jr': ListOf(FEl(), gen=near(jlen(LB))), 'ns': NS}, target='s_flp:t_sumvec_eval')
unit('flp.sum.eval', ['C11', 'C27'], 's_flp:sum_eval', {**SP, 'meas': ListOf(FEl(), gen=valid_or_random(B)), 'jr': ListOf(FEl(), max=1), 'ns': NS}, target='s_flp:t_sum_eval')

JH, JM, JV = jlen(L), jlen(LW), jlen(LB)
X0 = Int(lo=0, gen=lambda rng, env: rng.randrange(env.get('length', env.get('m', 1) + 1)))
BITS = ListOf(Bool(), max=12)
CMP = dict(symbolic=False, bounded='random search over sizes and measurements; the closed form of eval is proved')
SALT = Via(lambda it, env: None, lambda rng, env: str(rng.randrange(10 ** 9)))
unit('flp.range_check_zero', ['C11'], 's_flp:range_check_zero', {'F': F, 'chunk': CH, 'bits': BITS, 'jr': ListOf(FEl(), gen=lambda rng, env: exact(lambda e: (len(e['bits']) + e['chunk'] - 1) // e['chunk'])(rng, env))}, **CMP)
unit('flp.hist.complete', ['C11'], 's_flp:hist_complete', {**HP, 'x': X0, 'jr': ListOf(FEl(), gen=exact(JH))}, **CMP)
unit('flp.multihot.complete', ['C11'], 's_flp:multihot_complete', {**MP, 'x': ListOf(Bool(), gen=bools), 'jr': ListOf(FEl(), gen=exact(JM))}, **CMP)
unit('flp.sumvec.complete', ['C11'], 's_flp:sumvec_complete', {**VP, 'x': ListOf(Int(), gen=ints), 'jr': ListOf(FEl(), gen=exact(JV))}, **CMP)
unit('flp.sum.complete', ['C11'], 's_flp:sum_complete', {**SP, 'x': X0}, **CMP)
unit('flp.count.complete', ['C11'], 's_flp:count_complete', {'F': F, 'x': Int(lo=0, hi=2)}, **CMP)


def nearly_valid(n):
    def g(rng, env):
        v = [env['F'](0)] * n(env)
        r = rng.random()
        if r < 0.4:
            v[rng.randrange(len(v))] = env['F'](1)
        elif r < 0.7:
            v = [env['F'](rng.randrange(2)) for _ in v]
        if rng.random() < 0.4:
            v[rng.randrange(len(v))] = gen_fe(rng, env['F'])
        return v
    return g


FB = FieldP('NttField', names=['Field96', 'Field128'])
SND = dict(symbolic=False, bounded='random search: three draws of joint randomness per vector, 64-bit-or-larger fields')
unit('flp.hist.sound', ['C11'], 's_flp:hist_sound', {**HP, 'F': FB, 'meas': ListOf(FEl(), gen=nearly_valid(L)), 'salt': SALT}, **SND)
unit('flp.multihot.sound', ['C11'], 's_flp:multihot_sound', {**MP, 'F': FB, 'meas': ListOf(FEl(), gen=nearly_valid(LW)), 'salt': SALT}, **SND)
unit('flp.sumvec.sound', ['C11'], 's_flp:sumvec_sound', {**VP, 'F': FB, 'meas': ListOf(FEl(), gen=nearly_valid(LB)), 'salt': SALT}, **SND)
unit('flp.sum.sound', ['C11'], 's_flp:sum_sound', {'F': FB, 'm': MS, 'meas': ListOf(FEl(), gen=nearly_valid(B)), 'salt': SALT}, **SND)
unit('flp.count.sound', ['C11'], 's_flp:count_sound', {'F': FB, 'meas': ListOf(FEl(), gen=nearly_valid(lambda e: 1)), 'salt': SALT}, **SND)

unit('flp.hist.record', ['C11'], 's_flp:hist_record', {**HP, 'meas': ListOf(FEl(), gen=exact(L)), 'jr': ListOf(FEl(), gen=exact(JH)), 'ns': NS}, target='s_flp:t_hist_record')
unit('flp.multihot.record', ['C11'], 's_flp:multihot_record', {**MP, 'meas': ListOf(FEl(), gen=exact(LW)), 'jr': ListOf(FEl(), gen=exact(JM)), 'ns': NS}, target='s_flp:t_multihot_record')
unit('flp.sumvec.record', ['C11'], 's_flp:sumvec_record', {**VP, 'meas': ListOf(FEl(), gen=exact(LB)), 'jr': ListOf(FEl(), gen=exact(JV)), 'ns': NS}, target='s_flp:t_sumvec_record')
unit('flp.sum.record', ['C11'], 's_flp:sum_record', {'F': F, 'm': MS, 'meas': ListOf(FEl(), gen=exact(B)), 'ns': NS}, target='s_flp:t_sum_record')
unit('flp.count.record', ['C11'], 's_flp:count_record', {'F': F, 'meas': ListOf(FEl(), n=1), 'ns': NS}, target='s_flp:t_count_record')


def many(one):
    return lambda rng, env: [one(rng, env) for _ in range(rng.randrange(0, 5))]


BAT = dict(symbolic=False, bounded='random search over batches of at most four measurements; encode, truncate and decode are proved separately')
unit('flp.count.batch', ['C10'], 's_flp:batch_count', {'F': FB, 'xs': ListOf(Int(), gen=many(lambda r, e: r.randrange(2)))}, **BAT)
unit('flp.sum.batch', ['C10'], 's_flp:batch_sum', {'F': FB, 'm': MS, 'xs': ListOf(Int(), gen=many(lambda r, e: r.randint(0, e['m'])))}, **BAT)
unit('flp.hist.batch', ['C10'], 's_flp:batch_hist', {**HP, 'F': FB, 'xs': ListOf(Int(), gen=many(lambda r, e: r.randrange(e['length'])))}, **BAT)
unit('flp.multihot.batch', ['C10'], 's_flp:batch_multihot', {**MP, 'F': FB, 'xs': ListOf(Int(), gen=many(lambda r, e: hot(r, e)))}, **BAT)
unit('flp.sumvec.batch', ['C10'], 's_flp:batch_sumvec', {**VP, 'F': FB, 'xs': ListOf(Int(), gen=many(lambda r, e: [r.randint(0, e['m']) for _ in range(e['length'])]))}, **BAT)


def hot(rng, env):
    on = set(rng.sample(range(env['length']), rng.randint(0, env['mw'])))
    return [i in on for i in range(env['length'])]
