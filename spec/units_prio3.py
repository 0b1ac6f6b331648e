from pyv.unit import *

F = FieldP('NttField', names=['Field64', 'Field96', 'Field128'])
PF = Via(lambda it, env: env['F'], lambda rng, env: env['F'])
N1 = Int(lo=1, gen=lambda rng, env: rng.randrange(1, 4))


def flp(joint):
    return Obj('s_prio3:AnyFlp', {
        'field': PF, 'salt': Int(lo=0, hi=2 ** 30), 'MEAS_LEN': N1, 'PROOF_LEN': N1, 'PROVE_RAND_LEN': N1, 'QUERY_RAND_LEN': N1,
        'VERIFIER_LEN': N1, 'OUTPUT_LEN': N1, 'JOINT_RAND_LEN': N1 if joint else Const(0)})


def prio3(joint):
    return Built('s_prio3:instance', {
        'flp': flp(joint), 'ID': Int(lo=0, hi=2 ** 32), 'SHARES': Int(lo=2, hi=256, gen=lambda rng, env: rng.choice([2, 2, 3, 4])),
        'PROOFS': Int(lo=1, hi=256, gen=lambda rng, env: rng.choice([1, 1, 2, 3]))})



def gen_ctx(rng, env):
    if rng.random() < 0.04:
        return rng.randbytes(rng.choice([246, 247, 248, 249, 300, 65527, 65528, 65530]))
    return rng.randbytes(rng.randrange(12))


CTX = Bytes(max=12, gen=gen_ctx)
SEED = Bytes(n=32)
AGG = Int(lo=0, hi=256, gen=lambda rng, env: rng.randrange(env['p'].SHARES))
NONE = Const(None)


def attr(it, env, k, flp=False):
    """Attribute of the instance under test (symbolic or native)."""
    p = env['p']
    if it is not None:
        a = it.heap[p.id].attrs
        return it.heap[a['flp'].id].attrs[k] if flp else a[k]
    return getattr(p.flp if flp else p, k)


def fvec(n):
    return lambda rng, env: [gen_fe(rng, env['F']) for _ in range(n(rng, env))]


def off(rng, n):
    return max(0, n + rng.choice([-1, 1, 2])) if rng.random() < 0.12 else n


MEAS = ListOf(FEl(), gen=fvec(lambda r, e: e['p'].flp.MEAS_LEN))
PRFS = ListOf(FEl(), gen=fvec(lambda r, e: off(r, e['p'].flp.PROOF_LEN * e['p'].PROOFS)))
VERS = ListOf(FEl(), gen=fvec(lambda r, e: off(r, e['p'].flp.VERIFIER_LEN * e['p'].PROOFS)))
VEC = ListOf(FEl(), max=6)

for J in (True, False):
    T = '.jr' if J else '.nojr'
    P = {'F': F, 'p': prio3(J)}

    def u(name, props, params, target=None, T=T, P=P, **k):
        props = props + ['C27']
        unit('prio3.' + name + T, props, 's_prio3:' + (k.pop('spec', None) or name), {**P, **params}, hidden=['F'],
             target='vdaf_prio3:Prio3.' + (target or name), **k)

    BL = SEED if J else NONE
    u('helper_meas_share', ['C08', 'C14', 'C15'], {'ctx': CTX, 'agg_id': AGG, 'share': SEED})
    u('helper_proofs_share', ['C08', 'C14', 'C15'], {'ctx': CTX, 'agg_id': AGG, 'share': SEED})
    u('joint_rands', ['C08', 'C14', 'C15'], {'ctx': CTX, 'seed': SEED})
    u('prove_rands', ['C08', 'C14'], {'ctx': CTX, 'seed': SEED})
    u('query_rands', ['C08', 'C15'], {'key': SEED, 'ctx': CTX, 'nonce': Bytes(n=16)})
    u('joint_rand_seed', ['C08', 'C14', 'C15'], {'ctx': CTX, 'parts': ListOf(SEED, max=5)})
    u('joint_rand_part', ['C08', 'C14'], {'ctx': CTX, 'agg_id': AGG, 'blind': SEED, 'meas_share': MEAS, 'nonce': Bytes(n=16)})
    u('expand_input_share', ['C14', 'C15'], {'ctx': CTX, 'agg_id': Const(0), 'share': Tup(MEAS, PRFS, BL)})
    u('shard', ['C14', 'C15'], {'ctx': CTX, 'measurement': Opq(), 'nonce': Bytes(gen=lambda r, e: bytes(off(r, 16))),
                         'rand': Bytes(gen=lambda r, e: r.randbytes(off(r, e['p'].RAND_SIZE)))})
    u('agg_init', ['C17'], {'agg_param': NONE})
    u('agg_update', ['C17'], {'agg_param': NONE, 'agg': VEC, 'out': ListOf(FEl(), gen=fvec(lambda r, e: off(r, len(e['agg']))))})
    u('merge', ['C17'], {'agg_param': NONE, 'shares': ListOf(ListOf(FEl(), gen=fvec(lambda r, e: off(r, e['p'].flp.OUTPUT_LEN))), max=4)})
    u('unshard', ['C17'], {'agg_param': NONE, 'shares': ListOf(ListOf(FEl(), gen=fvec(lambda r, e: e['p'].flp.OUTPUT_LEN)), max=4), 'num': Int(lo=0)})
    u('is_valid', ['C21'], {'agg_param': NONE, 'previous': ListOf(NONE, max=3)})
    u('verify_next', ['C16', 'C15'], {'ctx': CTX, 'state': Tup(VEC, BL), 'message': OneOf(Bytes(max=40), NONE)})
    u('shares_to_message', ['C16', 'C15'], {'ctx': CTX, 'agg_param': NONE, 'shares': ListOf(Tup(VERS, BL), gen=lambda r, e: [
        ([gen_fe(r, e['F']) for _ in range(off(r, e['p'].flp.VERIFIER_LEN * e['p'].PROOFS))], r.randbytes(32) if e['p'].flp.JOINT_RAND_LEN else None)
        for _ in range(off(r, e['p'].SHARES))])}, target='verifier_shares_to_message')
    for who in (0, 1):
        SH = Tup(MEAS, PRFS, BL) if who == 0 else Tup(SEED, BL)
        AG = Const(0) if who == 0 else Int(lo=1, hi=256, gen=lambda rng, env: rng.randrange(1, env['p'].SHARES))
        u('verify_init', ['C15', 'C16'], {'key': SEED, 'ctx': CTX, 'agg_id': AG, 'agg_param': NONE, 'nonce': Bytes(n=16),
                                          'ps': ListOf(SEED, gen=lambda r, e: [r.randbytes(32) for _ in range(e['p'].SHARES)]) if J else NONE, 'share': SH},
          T='.%d%s' % (who, T))
        u('encode_input_share%d' % who, ['C23'], {'share': SH}, target='encode_input_share')
        u('expand_input_share', ['C14', 'C15'], {'ctx': CTX, 'agg_id': AG, 'share': SH}, T='.%d%s' % (who, T))

    def gen_bytes(n, canon=True):
        def g(r, e):
            F = e['F']
            f = e['p'].flp
            m = n(e, f)
            data = b''
            for _ in range(m):
                x = r.choice([0, 1, F.MODULUS - 1, r.randrange(F.MODULUS)])
                if r.random() < 0.05:
                    x = min(F.MODULUS + r.randrange(3), 256 ** F.ENCODED_SIZE - 1)
                data += x.to_bytes(F.ENCODED_SIZE, 'little')
            if f.JOINT_RAND_LEN > 0:
                data += r.randbytes(32)
            if r.random() < 0.2:
                data = data + bytes(r.randrange(1, 3)) if r.random() < 0.5 else data[:-1]
            return data
        return g

    u('decode_input_share', ['C23'], {'agg_id': Const(0), 'data': Bytes(gen=gen_bytes(lambda e, f: f.MEAS_LEN + f.PROOF_LEN * e['p'].PROOFS))}, T='.0' + T, budget=60)
    u('decode_input_share', ['C23'], {'agg_id': Int(lo=1, hi=256), 'data': Bytes(gen=lambda r, e: r.randbytes(r.choice([32, 64, 32, 64, 31, 33, 63, 65, 96])))}, T='.1' + T)
    if J:
        u('encode_public_share', ['C23'], {'parts': ListOf(SEED, max=4)})
    else:
        unit('prio3.encode_public_none', ['C23'], 's_prio3:encode_public_none', P, hidden=['F'], target='s_prio3:t_encode_public_none')
    u('decode_public_share', ['C23'], {'data': Bytes(gen=lambda r, e: r.randbytes(off(r, 32 * e['p'].SHARES if e['p'].flp.JOINT_RAND_LEN else 0)))})
    u('encode_verifier_share', ['C23'], {'share': Tup(VERS, BL)})
    u('decode_verifier_share', ['C23'], {'state': NONE, 'data': Bytes(gen=gen_bytes(lambda e, f: f.VERIFIER_LEN * e['p'].PROOFS))})
    u('encode_verifier_message', ['C23'], {'msg': BL})
    u('decode_verifier_message', ['C23'], {'state': NONE, 'data': Bytes(max=40)})
    u('encode_out_share', ['C23'], {'vec': VEC}, spec='encode_vec')
    u('encode_agg_share', ['C23'], {'vec': VEC}, spec='encode_vec')
    u('decode_out_share', ['C23'], {'agg_param': NONE, 'data': Bytes(max=60)}, spec='decode_vec')
    u('decode_agg_share', ['C23'], {'agg_param': NONE, 'data': Bytes(max=60)}, spec='decode_vec')
    u('encode_agg_param', ['C23'], {'agg_param': NONE})
    u('decode_agg_param', ['C23'], {'data': Bytes(max=2)})

    def lem(name, props, params, T=T, P=P, **k):
        unit('prio3.' + name + T, props, 's_prio3:' + name, {**P, **params}, hidden=['F'], **k)

    SHARDED = {'ctx': CTX, 'measurement': Opq(), 'nonce': Bytes(n=16), 'rand': Bytes(gen=lambda r, e: r.randbytes(e['p'].RAND_SIZE))}
    lem('shares_add_up', ['C14', 'C15'], SHARDED)
    lem('parts_match', ['C14', 'C15'], SHARDED)
    lem('aggregators_agree', ['C15'], {'key': SEED, **SHARDED, 'j': AGG}, symbolic=not J, bounded='random search; follows from parts_match and the contract of verify_init' if J else None)
    lem('update_commutes', ['C17'], {'agg': VEC, 'x': ListOf(FEl(), gen=fvec(lambda r, e: len(e['agg']))), 'y': ListOf(FEl(), gen=fvec(lambda r, e: len(e['agg'])))})
    OV = ListOf(FEl(), gen=fvec(lambda r, e: e['p'].flp.OUTPUT_LEN))
    lem('update_is_merge', ['C17'], {'agg': OV, 'x': OV})
    lem('merge_groups', ['C17'], {'xs': ListOf(OV, max=4), 'ys': ListOf(OV, max=4)})
    lem('update_all', ['C17'], {'xs': ListOf(OV, max=5)})
    PR2 = ListOf(FEl(), gen=fvec(lambda r, e: e['p'].flp.PROOF_LEN * e['p'].PROOFS))
    VE2 = ListOf(FEl(), gen=fvec(lambda r, e: e['p'].flp.VERIFIER_LEN * e['p'].PROOFS))
    lem('rt_input0', ['C23'], {'meas': MEAS, 'proofs': PR2, 'blind': BL})
    lem('rt_input1', ['C23'], {'agg_id': Int(lo=1, hi=256), 'seed': SEED, 'blind': BL})
    if J:
        lem('rt_public', ['C23'], {'parts': ListOf(SEED, gen=lambda r, e: [r.randbytes(32) for _ in range(e['p'].SHARES)])})
    else:
        lem('rt_public_none', ['C23'], {})
    lem('rt_verifier', ['C23'], {'v': VE2, 'part': BL})
    lem('rt_message', ['C23'], {'msg': BL})
    lem('rt_out', ['C23'], {'vec': VEC})
    lem('rt_agg', ['C23'], {'vec': VEC})
    lem('canon_input', ['C23'], {'agg_id': Const(0), 'data': Bytes(gen=gen_bytes(lambda e, f: f.MEAS_LEN + f.PROOF_LEN * e['p'].PROOFS))}, T='.0' + T)
    lem('canon_input', ['C23'], {'agg_id': Int(lo=1, hi=256), 'data': Bytes(gen=lambda r, e: r.randbytes(r.choice([32, 64, 33])))}, T='.1' + T)
    lem('canon_public', ['C23'], {'data': Bytes(gen=lambda r, e: r.randbytes(off(r, 32 * e['p'].SHARES if e['p'].flp.JOINT_RAND_LEN else 0)))})
    lem('canon_verifier', ['C23'], {'data': Bytes(gen=gen_bytes(lambda e, f: f.VERIFIER_LEN * e['p'].PROOFS))})
    if J:
        lem('tag_parses', ['C08'], {'usage': Int(lo=0, hi=2 ** 16), 'ctx': CTX})
