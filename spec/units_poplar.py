from pyv.unit import *


def poplar(bits=None):
    return Obj('vdaf_poplar1:Poplar1', {'idpf': Obj('idpf_bbcggi21:IdpfBBCGGI21', {'VALUE_LEN': Const(2), 'BITS': bits or Int(lo=1, hi=40)}),
                                        'xof': Via(lambda it, env: it.loader.cls('xof:XofTurboShake128'), lambda rng, env: __import__('vdaf_poc.xof').xof.XofTurboShake128)})


POP = poplar()


def gen_bits(rng, n):
    return tuple(rng.random() < 0.5 for _ in range(n))


def gen_ap(rng, env, level=None, base=None):
    if level is None:
        level = rng.choice([0, 1, 2, 3, 6, 7, 8, 9, 14, 15, 16, 17])
    ps = []
    for _ in range(rng.randrange(0, 5)):
        if base and rng.random() < 0.85:
            b = rng.choice(base)
            p = (b + gen_bits(rng, level + 1))[:level + 1]
        else:
            p = gen_bits(rng, level + 1)
        ps.append(p)
    if rng.random() < 0.8:
        ps = sorted(set(ps))
    if rng.random() < 0.1 and ps:
        ps[0], ps[-1] = ps[-1], ps[0]
    return (level, rng.choice([tuple, tuple, list])(ps) if True else None)


def gen_prev(rng, env):
    out = []
    lvl, ps = env['agg_param']
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        l2 = max(0, lvl - rng.choice([0, 1, 1, 2, 3, -1])) if rng.random() < 0.9 else rng.randrange(10)
        anc = [(p + (False,) * 20)[:l2 + 1] for p in ps]
        if rng.random() < 0.3 and anc:
            anc.pop(rng.randrange(len(anc)))
        out.append((l2, tuple(anc + [gen_bits(rng, l2 + 1) for _ in range(rng.randrange(3))])))
    return out


PREFIX = ListOf(Bool(), n=None, kind='tuple')
AP = Tup(Int(), ListOf(PREFIX))
AP.gen = gen_ap
unit('poplar.get_ancestor', ['C21'], 's_poplar:get_ancestor', {'index': ListOf(Bool(), kind='tuple', max=20), 'level': Int(lo=0, hi=20)}, target='vdaf_poplar1:get_ancestor', use=True)
unit('poplar.is_valid', ['C21', 'C27'], 's_poplar:is_valid', {'v': POP, 'agg_param': AP, 'previous': ListOf(Tup(Int(lo=0), ListOf(PREFIX)), gen=gen_prev)},
     target='vdaf_poplar1:Poplar1.is_valid')


def gen_level(rng, env):
    return rng.choice([0, 1, 2, 5, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 100, -1, 2 ** 16, 2 ** 16 + 8])


def ap_of(kind):
    return Tup(Via(lambda it, env: env['level'], lambda rng, env: env['level']),
               ListOf(ListOf(Bool(), n=lambda env: max(env['level'] + 1, 0) if isinstance(env['level'], int) else iadd(env['level'], 1), kind='tuple'), kind=kind, max=4))


def gen_enc_ap(rng, env):
    level = rng.choice([0, 1, 2, 5, 6, 7, 8, 9, 14, 15, 16, 17, 23, 24, 100, 65535 if rng.random() < 0.1 else 31])
    m = rng.choice([0, 0, 1, 1, 2, 3, 4])
    n = (level + 8) // 8
    out = level.to_bytes(2, 'big') + m.to_bytes(4, 'big')
    for _ in range(m):
        p = bytearray(rng.randrange(256) for _ in range(n))
        if rng.random() < 0.85:
            k = 8 * n - (level + 1)
            p[-1] = p[-1] >> k << k
        elif rng.random() < 0.5 and level % 8 != 7:
            k = 8 * n - (level + 1)
            p[-1] = p[-1] >> k << k | 1 << rng.randrange(k)
        out += bytes(p)
    r = rng.random()
    if r < 0.1:
        out += bytes(rng.randrange(1, 3))
    elif r < 0.2:
        out = out[:rng.randrange(len(out))]
    return out


LV = Int(lo=0, hi=2 ** 16, gen=lambda rng, env: max(0, min(gen_level(rng, env), 200)))


def sym_level(r, top=None):
    """level = 8 * q + r: the number of bits modulo 8 is a case split."""
    def f(it, env):
        q = app('q', [], IntS)
        it.assume(cmp_i('>=', q, 0))
        return iadd(mul_i(8, q), r)
    return Via(f, None)


def sym_enc(r):
    """An encoding whose level is 8 * q + r."""
    def f(it, env):
        hi, t = app('hi', [], IntS), app('lo8', [], IntS)
        it.assume(b_and(cmp_i('>=', hi, 0), cmp_i('<', hi, 256), cmp_i('>=', t, 0), cmp_i('<', t, 32)))
        rest = Bytes().sym(it, 'rest', [], env)
        return mkcat([Lit([hi, iadd(mul_i(8, t), r)], 'bytes'), rest], 'bytes')
    return Via(f, None)


unit('poplar.encode_agg_param.neg', ['C22'], 's_poplar:encode_agg_param', {'v': POP, 'agg_param': Tup(Int(hi=0), ListOf(Const(()), kind='tuple'))},
     target='vdaf_poplar1:Poplar1.encode_agg_param', refuses=True)
unit('poplar.decode_agg_param.short', ['C22'], 's_poplar:decode_agg_param', {'v': POP, 'n': Int(lo=0, hi=2), 'encoded': Bytes(n=lambda env: env['n'])}, hidden=['n'],
     target='vdaf_poplar1:Poplar1.decode_agg_param', refuses=True)
for r in range(8):
    nat = r == 0
    slow = dict(budget=100, cost=30)
    unit('poplar.encode_agg_param.%d' % r, ['C22', 'C27'], 's_poplar:encode_agg_param', {'level': Int(lo=0, gen=gen_level), 'v': POP, 'agg_param': ap_of('tuple')}, hidden=['level'],
         sym_params={'level': sym_level(r), 'v': POP, 'agg_param': ap_of('tuple')}, native=nat, target='vdaf_poplar1:Poplar1.encode_agg_param', note='level = %d mod 8' % r, **slow)
    unit('poplar.decode_agg_param.%d' % r, ['C22'], 's_poplar:decode_agg_param', {'v': POP, 'encoded': Bytes(gen=gen_enc_ap)}, sym_params={'v': POP, 'encoded': sym_enc(r)},
         native=nat, target='vdaf_poplar1:Poplar1.decode_agg_param', note='level = %d mod 8' % r, **slow)

B = 'random search only; the two contracts above pin the wire format exactly in both directions'
unit('poplar.agg_param_roundtrip', ['C22'], 's_poplar:agg_param_roundtrip', {'level': LV, 'v': POP, 'agg_param': ap_of('tuple')}, hidden=['level'], pre='s_poplar:wellformed', symbolic=False, bounded=B)
unit('poplar.agg_param_canonical', ['C22'], 's_poplar:agg_param_canonical', {'v': POP, 'encoded': Bytes(gen=gen_enc_ap)}, symbolic=False, bounded=B)
