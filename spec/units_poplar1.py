from pyv.unit import *
from units_idpf import bits_of, fvec, off, same

CTX, N16, R32, BIT = Bytes(max=6, gen=lambda rng, env: rng.randbytes(rng.randrange(7) if rng.random() < 0.95 else rng.choice([247, 248, 300]))), Bytes(n=16), Bytes(n=32), Bool()
BITS = Int(lo=1, gen=lambda r, e: r.choice([1, 2, 3, 4, 5, 9]))
FLD = {'inner': 'Field64', 'leaf': 'Field255'}


def at_level(W):
    """The level, in the inner part of the tree or at the leaves."""
    def sym(it, e):
        if W == 'leaf':
            return isub(e['bits'], 1)
        x = app('level', [], IntS)
        it.assume(b_and(cmp_i('>=', x, 0), cmp_i('<', x, isub(e['bits'], 1))))
        return ireify(patom(x))
    return Via(sym, lambda r, e: r.randrange(e['bits'] - 1) if W == 'inner' else e['bits'] - 1)


def pop(kind, bits=same('bits')):
    return Built('s_poplar1:' + kind, {'bits': bits})


def meas(n=None):
    return ListOf(BIT, n=n, kind='tuple', gen=lambda r, e: bits_of(r, e['p'].idpf.BITS))


def gen_prefixes(r, e):
    n, m = e['level'] + 1, e.get('measurement')
    out = []
    for _ in range(r.randrange(6)):
        x = list(bits_of(r, n))
        if m is not None and r.random() < 0.5:
            x = list(m[:n])
            if r.random() < 0.5:
                x[r.choice([-1, r.randrange(n)])] ^= True
        if tuple(x) not in out:
            out.append(tuple(x))
    return r.choice([tuple, list])(out)


LEVEL = Int(lo=0, gen=lambda r, e: r.randrange(e['p'].idpf.BITS))
PREFIXES = ListOf(ListOf(BIT, kind='tuple'), kind='tuple', gen=gen_prefixes)
AP = Tup(Via(lambda it, e: e['level'], lambda r, e: e['level']), PREFIXES)
NONCE = Bytes(gen=lambda r, e: r.randbytes(off(r, 16)))
RAND = Bytes(gen=lambda r, e: r.randbytes(off(r, 128)))
T = 'vdaf_poplar1:Poplar1.'
NAT = 'random inputs, bit lengths up to 9'

# -- sharding
unit('poplar1.construct', ['C29'], 's_poplar1:construct', {'bits': Int()}, target='s_poplar1:t_construct')
SH = {'ctx': CTX, 'measurement': meas(), 'nonce': NONCE, 'rand': RAND}
unit('poplar1.shard', ['C19', 'C27', 'C08'], 's_poplar1:shard', {'p': pop('opaque', Int(lo=2, gen=BITS.g)), **SH}, target=T + 'shard')
unit('poplar1.shard.one', ['C19', 'C27', 'C08'], 's_poplar1:shard', {'p': pop('opaque', Const(1)), **SH}, target=T + 'shard')

# -- verification
for W, f in FLD.items():
    VF = lambda n, f=f: ListOf(FEl(f), gen=lambda r, e: fvec(r, n(r, e), f))
    HB = {'bits': Int(lo=2, gen=lambda r, e: r.choice([2, 3, 4, 5, 9])) if W == 'inner' else BITS, 'level': at_level(W)}
    H = dict(hidden=['bits', 'level'])
    INIT = {**HB, 'p': pop('opaque'), 'key': R32, 'ctx': CTX, 'agg_id': Int(lo=0, hi=2), 'agg_param': AP, 'nonce': N16, 'ps': Opq(),
            'share': Tup(N16, R32, ListOf(FEl('Field64'), gen=lambda r, e: fvec(r, 2 * (e['p'].idpf.BITS - 1))), ListOf(FEl('Field255'), gen=lambda r, e: fvec(r, 2, 'Field255')))}
    unit('poplar1.verify_init.' + W, ['C19', 'C20', 'C27', 'C08'], 's_poplar1:verify_init', INIT, target=T + 'verify_init', **H)
    STEP = Bytes(gen=lambda r, e: r.choice([b'evaluate sketch', b'reveal sketch', b'evaluate sketch', b'reveal sketch', b'']))
    MSG = OneOf(Const(None), VF(lambda r, e: r.choice([3, 3, 3, 1, 2, 4, 0])))
    for S, step in (('1', Const(b'evaluate sketch')), ('2', Const(b'reveal sketch')), ('x', STEP)):
        unit('poplar1.verify_next.%s.%s' % (S, W), ['C20', 'C19', 'C27'], 's_poplar1:verify_next', {
            'p': pop('real', BITS), 'ctx': CTX, 'state': Tup(step, Int(lo=0), VF(lambda r, e: r.randrange(3, 7))), 'message': MSG}, target=T + 'verify_next')
    SHARE = lambda: VF(lambda r, e: r.choice([1, 1, 3, 3, 2, 0, 4]))

    def gen_shares(r, e, f=f):
        n = r.choice([1, 1, 3, 3, 2, 0, 4])
        out = [fvec(r, off(r, n), f) for _ in range(off(r, 2))]
        if len(out) == 2 and len(out[0]) == 1 == len(out[1]) and r.random() < 0.6:
            out[1] = [-out[0][0]]
        return out
    for N in (0, 1, 2, 3):
        unit('poplar1.shares_to_message.%d.%s' % (N, W), ['C20', 'C19', 'C27'], 's_poplar1:shares_to_message', {
            **HB, 'p': pop('real'), 'ctx': CTX, 'agg_param': AP, 'shares': ListOf(ListOf(FEl(f)), gen=gen_shares)}, 
            sym_params={**HB, 'p': pop('real'), 'ctx': CTX, 'agg_param': AP, 'shares': ListOf(ListOf(FEl(f)), n=N)},
            target=T + 'verifier_shares_to_message' , **H, native=N == 2, refuses=N != 2)
    unit('poplar1.shares_to_message.many.' + W, ['C20'], 's_poplar1:shares_to_message', {
        **HB, 'p': pop('real'), 'ctx': CTX, 'agg_param': AP, 'shares': ListOf(ListOf(FEl(f)), gen=gen_shares)}, 
        target=T + 'verifier_shares_to_message' , **H, native=False)

    # -- aggregation
    nap = lambda r, e: len(e['agg_param'][1])
    V = VF(nap)
    A0 = {**HB, 'p': pop('real'), 'agg_param': AP}
    unit('poplar1.agg_init.' + W, ['C17'], 's_poplar1:agg_init', A0, target=T + 'agg_init', **H)
    unit('poplar1.agg_update.' + W, ['C17', 'C27'], 's_poplar1:agg_update', {**A0, 'agg': V, 'out': VF(lambda r, e: off(r, nap(r, e)))}, target=T + 'agg_update', **H)
    SS = lambda q: ListOf(ListOf(FEl(f)), gen=lambda r, e, f=f: [fvec(r, off(r, nap(r, e), q), f) for _ in range(r.randrange(4))])
    unit('poplar1.merge.' + W, ['C17', 'C27'], 's_poplar1:merge', {**A0, 'shares': SS(0.05)}, target=T + 'merge', **H)
    unit('poplar1.unshard.' + W, ['C17', 'C27'], 's_poplar1:unshard', {**A0, 'shares': SS(0.05), 'num': Int(lo=0)}, target=T + 'unshard', **H)
    unit('poplar1.update_commutes.' + W, ['C17'], 's_poplar1:update_commutes', {**A0, 'agg': V, 'x': V, 'y': V}, **H)
    unit('poplar1.update_is_merge.' + W, ['C17'], 's_poplar1:update_is_merge', {**A0, 'x': V, 'y': V}, **H)
    unit('poplar1.merge_splits.' + W, ['C17'], 's_poplar1:merge_splits', {**A0, 'xs': SS(0), 'ys': SS(0)}, **H)

    # -- codecs
    VEC = VF(lambda r, e: r.randrange(5))
    ST = Tup(Bytes(max=3), same('level'), VF(lambda r, e: 0))

    def gen_data(r, e, f=f):
        F = native_field(f)
        d = bytearray(b''.join(x.int().to_bytes(F.ENCODED_SIZE, 'little') for x in fvec(r, r.randrange(4), f)))
        x = r.random()
        if x < 0.2:
            d = d[:-1] if x < 0.1 else d + b'\0'
        elif x < 0.4 and d:
            d[:F.ENCODED_SIZE] = (F.MODULUS + r.randrange(2)).to_bytes(F.ENCODED_SIZE, 'little') if x < 0.3 else b'\xff' * F.ENCODED_SIZE
        return bytes(d)
    D = Bytes(gen=gen_data)
    unit('poplar1.encode_vec.' + W, ['C24'], 's_poplar1:enc_vec', {'vec': VEC}, target='vdaf_poplar1:encode_idpf_field_vec')
    for m in ('agg_share', 'out_share', 'verifier_share'):
        unit('poplar1.encode_%s.%s' % (m, W), ['C24', 'C27'], 's_poplar1:encode_vec', {'p': pop('real', BITS), 'vec': VEC}, target=T + 'encode_' + m)
    for m in ('agg_share', 'out_share'):
        unit('poplar1.decode_%s.%s' % (m, W), ['C24'], 's_poplar1:decode_at_param', {**A0, 'data': D}, target=T + 'decode_' + m, **H)
    unit('poplar1.encode_verifier_message.' + W, ['C24'], 's_poplar1:encode_verifier_message', {'p': pop('real', BITS), 'message': OneOf(Const(None), VEC)}, target=T + 'encode_verifier_message')
    S0 = {**HB, 'p': pop('real'), 'state': ST}
    unit('poplar1.decode_verifier_share.' + W, ['C24'], 's_poplar1:decode_at_state', {**S0, 'data': D}, target=T + 'decode_verifier_share', **H)
    unit('poplar1.decode_verifier_message.' + W, ['C24'], 's_poplar1:decode_verifier_message', {**S0, 'data': D}, target=T + 'decode_verifier_message', **H)
    unit('poplar1.rt_agg_share.' + W, ['C24'], 's_poplar1:rt_agg_share', {**A0, 'vec': VEC}, **H)
    unit('poplar1.rt_verifier_share.' + W, ['C24'], 's_poplar1:rt_verifier_share', {**S0, 'vec': VEC}, **H)
    unit('poplar1.rt_verifier_message.' + W, ['C24'], 's_poplar1:rt_verifier_message', {**S0, 'vec': ListOf(FEl(f), n=3)}, **H)
    unit('poplar1.rt_none.' + W, ['C24'], 's_poplar1:rt_none', S0, **H)


def gen_share(r, e):
    n = e['p'].idpf.BITS
    return (r.randbytes(16), r.randbytes(32), fvec(r, 2 * (n - 1)), fvec(r, 2, 'Field255'))


def gen_share_enc(r, e):
    d = bytearray(e['p'].encode_input_share(gen_share(r, e)))
    x = r.random()
    if x < 0.1:
        d = d[:-r.randrange(1, 33)]
    elif x < 0.2:
        d += r.randbytes(r.choice([1, 8, 16, 32, 64]))
    elif x < 0.3:
        d[-32:] = (2 ** 255 - 19).to_bytes(32, 'little')
    elif x < 0.4:
        d[48:56] = b'\xff' * 8
    return bytes(d)


AG = Int(lo=0, hi=2)
SHR = Tup(N16, R32, ListOf(FEl('Field64')), ListOf(FEl('Field255')))
SHR.gen = gen_share
unit('poplar1.encode_input_share', ['C24', 'C27'], 's_poplar1:encode_input_share', {'p': pop('real', BITS), 'share': SHR}, target=T + 'encode_input_share')
unit('poplar1.decode_input_share', ['C24', 'C27'], 's_poplar1:decode_input_share', {'p': pop('real', BITS), 'agg_id': AG, 'data': Bytes(gen=gen_share_enc)}, target=T + 'decode_input_share')
SHL = Tup(N16, R32, ListOf(FEl('Field64'), n=lambda e: mul_i(2, isub(e['bits'], 1))), ListOf(FEl('Field255'), n=2))
SHL.gen = gen_share
unit('poplar1.rt_input_share', ['C24'], 's_poplar1:rt_input_share', {'bits': BITS, 'p': pop('real'), 'agg_id': AG, 'share': SHL}, hidden=['bits'])
unit('poplar1.canon_input_share', ['C24'], 's_poplar1:canon_input_share', {'p': pop('real', BITS), 'agg_id': AG, 'data': Bytes(gen=gen_share_enc)})

# -- both aggregators together
RUN = {'ctx': CTX, 'measurement': meas(), 'nonce': N16, 'rand': Bytes(n=128), 'key': R32, 'level': LEVEL, 'prefixes': PREFIXES}
unit('poplar1.honest', ['C19', 'C27'], 's_poplar1:honest', {'p': pop('real', BITS), **RUN}, symbolic=False, bounded=NAT)
unit('poplar1.sketch', ['C20'], 's_poplar1:sketch', {'p': pop('ideal', BITS), **RUN}, symbolic=False, bounded=NAT)
unit('poplar1.tampered', ['C20'], 's_poplar1:tampered', {'p': pop('real', BITS), **RUN, 'who': Int(lo=0, hi=2), 'what': Via(None, lambda r, e: r.choice(['key', 'seed', 'corr', 'corr', 'payload', 'seedcw'])),
                                                         'pos': Int(lo=0, hi=64), 'delta': Int(lo=1, hi=256)}, symbolic=False, bounded=NAT + '; one change to an honest report')
for W in ('inner', 'leaf', 'one'):
    HB = {'bits': Const(1) if W == 'one' else Int(lo=2), 'level': Const(0) if W == 'one' else at_level(W)}
    pre = ListOf(ListOf(BIT, n=lambda e: iadd(e['level'], 1), kind='tuple'), kind='tuple')
    R = {'ctx': CTX, 'measurement': ListOf(BIT, n=lambda e: e['bits'], kind='tuple'), 'nonce': N16, 'rand': Bytes(n=128), 'key': R32, 'lv': same('level'), 'prefixes': pre}
    H = dict(hidden=['bits', 'level'], native=False)
    unit('poplar1.sketch.' + W, ['C19', 'C20'], 's_poplar1:sketch', {**HB, 'p': pop('opaque'), **R}, **H)
    unit('poplar1.honest_match.' + W, ['C19'], 's_poplar1:honest_match', {**HB, 'p': pop('ideal'), **R, 'j': Int()}, budget=240, cost=60, **H)
    unit('poplar1.honest_none.' + W, ['C19'], 's_poplar1:honest_none', {**HB, 'p': pop('ideal'), **R}, **H)
