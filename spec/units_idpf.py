from pyv.unit import *

CTX, N16, R32 = Bytes(max=6, gen=lambda rng, env: rng.randbytes(rng.randrange(7) if rng.random() < 0.95 else rng.choice([247, 248, 300]))), Bytes(n=16), Bytes(n=32)
BIT = Bool()


def anyp(bits):
    return Built('s_idpf:any_idpf', {'value_len': Int(lo=1, gen=lambda r, e: r.choice([1, 1, 2, 3])), 'bits': bits})


def realp(bits=None):
    return Built('s_idpf:idpf', {'value_len': Int(lo=1, gen=lambda r, e: r.choice([1, 1, 2, 3])), 'bits': bits or Int(lo=1, gen=lambda r, e: r.choice([1, 2, 3, 4, 5, 9]))})


def off(r, n, q=0.04):
    return max(0, n + r.choice([-1, 1])) if r.random() < q else n


def bits_of(r, n):
    return tuple(r.random() < 0.5 for _ in range(n))


def fvec(r, n, f='Field64'):
    return [gen_fe(r, native_field(f)) for _ in range(n)]


def near(r, env, level):
    """A prefix of alpha, or one that leaves it somewhere."""
    a = list(env['alpha'][:level + 1]) + [False] * (level + 1 - len(env['alpha'][:level + 1]))
    if r.random() < 0.6 and a:
        a[r.choice([-1, r.randrange(len(a))])] ^= True
    if r.random() < 0.2:
        a = list(bits_of(r, level + 1))
    return tuple(a)


def prefixes(r, env, level):
    out = []
    for _ in range(r.randrange(0, 5)):
        x = near(r, env, level)
        if x not in out:
            out.append(x)
    return out


def same(k):
    return Via(lambda it, e: e[k], lambda r, e: e[k])


def cased(name, n):
    """A bit string given case by case."""
    import z3
    return Via(lambda it, env: tuple(bool(it.branch(z3.Bool('%s_%d' % (name, i)))) for i in range(n)), lambda rng, env: bits_of(rng, n))


G = {'p': realp(), 'alpha': ListOf(BIT, kind='tuple', gen=lambda r, e: bits_of(r, off(r, e['p'].BITS))),
     'beta_inner': ListOf(None, gen=lambda r, e: [fvec(r, off(r, e['p'].VALUE_LEN, 0.02)) for _ in range(off(r, e['p'].BITS - 1))]),
     'beta_leaf': ListOf(None, gen=lambda r, e: fvec(r, off(r, e['p'].VALUE_LEN), 'Field255')), 'ctx': CTX,
     'nonce': Bytes(gen=lambda r, e: r.randbytes(off(r, 16))), 'rand': Bytes(gen=lambda r, e: r.randbytes(off(r, 32)))}
LV = Int(gen=lambda r, e: r.randrange(e['p'].BITS))
NOTE = 'random inputs, trees of depth up to 9'
unit('idpf.point', ['C18'], 's_idpf:point', {**G, 'level': LV, 'prefix': ListOf(BIT, kind='tuple', gen=lambda r, e: near(r, e, e['level']))}, symbolic=False, bounded=NOTE)
unit('idpf.points', ['C18', 'C27'], 's_idpf:points', {**G, 'level': LV, 'prefixes': ListOf(None, gen=lambda r, e: prefixes(r, e, e['level']))}, symbolic=False, bounded=NOTE)
unit('idpf.gen_accepts', ['C18'], 's_idpf:gen_accepts', G, symbolic=False, bounded=NOTE)
unit('idpf.construct', ['C18', 'C29'], 's_idpf:construct', {'value_len': Int(), 'bits': Int()}, target='s_idpf:t_construct')

for B in (1, 2):
    for A in range(2 ** B):
        alpha = tuple(bool(A >> k & 1) for k in range(B))
        H = {'p': anyp(Const(B)), 'alpha': Const(alpha), 'beta_inner': ListOf(ListOf(FEl('Field64')), n=B - 1), 'beta_leaf': ListOf(FEl('Field255')),
             'ctx': CTX, 'nonce': N16, 'rand': R32}
        D = 'trees of depth %d; value length, values, context, nonce, randomness and seed expansion arbitrary' % B
        unit('idpf.shape.%d.%d' % (B, A), ['C18'], 's_idpf:gen_shape', H, native=False, bounded=D)
        for L in range(B):
            unit('idpf.point.%d.%d.%d' % (B, A, L), ['C18'], 's_idpf:point', {**H, 'level': Const(L), 'prefix': cased('prefix', L + 1)}, native=False, bounded=D,
                 maxpaths=2000, budget=200, cost=20 * B)

CW = Tup(N16, Tup(BIT, BIT), ListOf(FEl('Field64'), gen=lambda r, e: fvec(r, e['p'].VALUE_LEN, 'Field64' if e['level'] < e['p'].BITS - 1 else 'Field255')))
ANYB = Int(lo=1, gen=lambda r, e: r.choice([1, 2, 3, 4]))
for T, f in (('inner', 'Field64'), ('leaf', 'Field255')):
    unit('idpf.eval_next.' + T, ['C18', 'C27'], 's_idpf:eval_next', {
        'p': anyp(ANYB), 'seed': N16, 'ctrl': BIT, 'cw': Tup(N16, Tup(BIT, BIT), ListOf(FEl(f), gen=lambda r, e, f=f: fvec(r, e['p'].VALUE_LEN, f))),
        'level': Int(lo=0, gen=lambda r, e: r.randrange(e['p'].BITS)), 'bit': Int(lo=0, hi=2), 'ctx': CTX, 'nonce': N16},
        pre='s_idpf:at_' + T, target='idpf_bbcggi21:IdpfBBCGGI21.eval_next', nbudget=None)
LEV = Int(lo=0, gen=lambda r, e: r.randrange(e['p'].BITS))
for T in ('inner', 'leaf'):
    unit('idpf.extend.' + T, ['C18', 'C08', 'C27'], 's_idpf:extend', {'p': realp(), 'level': LEV, 'seed': N16, 'ctx': CTX, 'nonce': N16}, pre='s_idpf:lv_' + T, target='idpf_bbcggi21:IdpfBBCGGI21.extend')
    unit('idpf.convert.' + T, ['C18', 'C08', 'C27'], 's_idpf:convert', {'p': realp(), 'level': LEV, 'seed': N16, 'ctx': CTX, 'nonce': N16}, pre='s_idpf:lv_' + T, target='idpf_bbcggi21:IdpfBBCGGI21.convert',
         symbolic=False, bounded='random inputs on the real XOFs; proved over an arbitrary XOF below')
    unit('idpf.convert_any.' + T, ['C18', 'C08', 'C27'], 's_idpf:convert_any', {
        'p': Built('s_idpf:over_xof', {'value_len': Int(lo=1, gen=lambda r, e: r.choice([1, 1, 2, 3])), 'bits': Int(lo=1, gen=lambda r, e: r.choice([1, 2, 3]))}),
        'level': LEV, 'seed': N16, 'ctx': CTX, 'nonce': N16}, pre='s_idpf:lv_' + T, target='idpf_bbcggi21:IdpfBBCGGI21.convert')
    unit('idpf.current_xof.' + T, ['C18', 'C08'], 's_idpf:current_xof', {'p': realp(), 'level': LEV, 'seed': N16, 'dst': Bytes(max=12), 'nonce': N16}, pre='s_idpf:lv_' + T,
         target='idpf_bbcggi21:IdpfBBCGGI21.current_xof', native=False)
unit('idpf.current_field', ['C18'], 's_idpf:current_field', {'p': realp(), 'level': LEV}, target='idpf:Idpf.current_field')
unit('idpf.is_prefix', ['C18'], 's_idpf:is_prefix', {'p': realp(), 'x': ListOf(BIT, kind='tuple', max=4), 'y': ListOf(BIT, kind='tuple', max=5), 'level': Int(lo=0, hi=5)}, target='idpf:Idpf.is_prefix')

# -- evaluation
EV = {'p': realp(), 'agg_id': Int(gen=lambda r, e: r.choice([0, 0, 1, 1, 1, 2, -1]) if r.random() < 0.2 else r.randrange(2)),
      'ps': ListOf(None, gen=lambda r, e: [(r.randbytes(16), bits_of(r, 2), fvec(r, e['p'].VALUE_LEN, 'Field64' if k < e['p'].BITS - 1 else 'Field255')) for k in range(e['p'].BITS)]),
      'key': N16, 'level': Int(gen=lambda r, e: r.choice([-1, e['p'].BITS, 70]) if r.random() < 0.05 else r.randrange(e['p'].BITS)),
      'prefixes': ListOf(None, gen=lambda r, e: [bits_of(r, off(r, max(0, e['level'] + 1), 0.03) % 50) for _ in range(r.randrange(6))]), 'ctx': CTX, 'nonce': N16}
unit('idpf.eval_accepts', ['C18', 'C27'], 's_idpf:eval_accepts', EV, symbolic=False, bounded=NOTE)
EV2 = {**EV, 'agg_id': Int(lo=0, hi=2), 'level': LEV}
unit('idpf.eval_alone', ['C18', 'C27'], 's_idpf:eval_alone', EV2, symbolic=False, bounded=NOTE)

# -- codecs
BITS = ListOf(BIT, max=40)
NB = Int(lo=1, gen=lambda r, e: r.choice([1, 2, 7, 8, 9, 15, 16, 17, r.randrange(1, 40)]))
DATA = lambda n: Bytes(gen=lambda r, e: bytes(r.choice([0, 0, 1, 2, 3, 128, 255, r.randrange(256)]) for _ in range(off(r, n(r, e), 0.1))))
unit('idpf.pack_bits', ['C24', 'C27'], 's_idpf:pack_bits', {'bits': BITS}, target='idpf_bbcggi21:pack_bits', use=True)
UNP = {'n': NB, 'data': DATA(lambda r, e: (e['n'] + 7) // 8)}
UNP = {'data': DATA(lambda r, e: r.randrange(1, 6)), 'n': Int(lo=1, gen=lambda r, e: max(1, 8 * len(e['data']) - r.randrange(-1, 9)))}
unit('idpf.unpack_bits', ['C24', 'C27'], 's_idpf:unpack_bits', UNP, target='idpf_bbcggi21:unpack_bits', use=True)
Q = Int(lo=0, gen=lambda r, e: r.randrange(5))
for R in range(1, 9):
    # every length is 8 * q + R for one of these
    unit('idpf.rt_bits.%d' % R, ['C24'], 's_idpf:rt_bits', {'q_': Q, 'bits': ListOf(BIT, n=lambda e, R=R: iadd(mul_i(8, e['q_']), R)), 'q': same('q_'), 'r': Const(R)}, hidden=['q_'])
    unit('idpf.canon_bits.%d' % R, ['C24'], 's_idpf:canon_bits', {'q_': Q, 'data': DATA(lambda r, e: e['q_'] + 1), 'q': same('q_'), 'r': Const(R)}, hidden=['q_'])


def gen_ps(r, e):
    p = e['p']
    return [(r.randbytes(16), bits_of(r, 2), fvec(r, p.VALUE_LEN, 'Field64' if k < p.BITS - 1 else 'Field255')) for k in range(p.BITS)]


def gen_enc(r, e):
    p = e['p']
    d = bytearray(p.encode_public_share(gen_ps(r, e)))
    if r.random() < 0.5:
        x = r.random()
        if x < 0.3:
            d = d[:-r.randrange(1, 3)] if r.random() < 0.5 else d + r.randbytes(r.randrange(1, 3))
        elif x < 0.6:
            d[(2 * p.BITS + 7) // 8 - 1] ^= 1 << r.randrange(8)
        elif x < 0.8:
            k = len(d) - 32 * p.VALUE_LEN - (8 * r.randrange(1, p.VALUE_LEN + 1) if p.BITS > 1 else 0)
            d[k:k + 8] = b'\xff' * 8 if r.random() < 0.5 else (2 ** 64 - 2 ** 32 + 1).to_bytes(8, 'little')
        else:
            d[-32:] = b'\xff' * 32 if r.random() < 0.5 else (2 ** 255 - 19).to_bytes(32, 'little')
    return bytes(d)


unit('idpf.encode_public_share', ['C24', 'C27'], 's_idpf:encode_public_share', {'p': realp(), 'ps': ListOf(None, gen=gen_ps)}, target='idpf_bbcggi21:IdpfBBCGGI21.encode_public_share',
     symbolic=False, bounded=NOTE)
unit('idpf.decode_public_share', ['C24', 'C27'], 's_idpf:decode_public_share', {'p': realp(), 'data': Bytes(gen=gen_enc)}, target='idpf_bbcggi21:IdpfBBCGGI21.decode_public_share',
     symbolic=False, bounded=NOTE)
unit('idpf.rt_public_share', ['C24'], 's_idpf:rt_public_share', {'p': realp(), 'ps': ListOf(None, gen=gen_ps)}, symbolic=False, bounded=NOTE)
unit('idpf.canon_public_share', ['C24'], 's_idpf:canon_public_share', {'p': realp(), 'data': Bytes(gen=gen_enc)}, symbolic=False, bounded=NOTE)
for B in (1, 2, 3, 5):
    P = {'p': realp(Const(B))}
    D = 'trees of depth %d, any value length and contents' % B

    def shares(n=None, B=B):
        ty = Tup(*[Tup(N16, Tup(BIT, BIT), ListOf(FEl('Field64' if k < B - 1 else 'Field255'), n=n)) for k in range(B)])
        return Via(lambda it, env: it.new_list(Lit(list(ty.sym(it, 'ps', [], env)), 'list')), None)
    unit('idpf.encode_public_share.%d' % B, ['C24'], 's_idpf:encode_public_share', {**P, 'ps': shares()}, target='idpf_bbcggi21:IdpfBBCGGI21.encode_public_share', native=False, bounded=D)
    if B < 5:
        unit('idpf.decode_public_share.%d' % B, ['C24'], 's_idpf:decode_public_share', {**P, 'data': Bytes()}, target='idpf_bbcggi21:IdpfBBCGGI21.decode_public_share', native=False, bounded=D)
    unit('idpf.rt_public_share.%d' % B, ['C24'], 's_idpf:rt_public_share', {**P, 'ps': shares(lambda e: ireify(patom(z3.Int('p_value_len'))))}, native=False, bounded=D)
    unit('idpf.canon_public_share.%d' % B, ['C24'], 's_idpf:canon_public_share', {**P, 'data': Bytes()}, native=False, bounded=D)
