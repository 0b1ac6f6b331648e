from pyv.unit import *
import pyv.xofmodel  # noqa


def gen_seed(rng, env):
    n = rng.choice([16, 16, 16, 32, 32, 0, 1, 15, 17, 255, 256, 300])
    return bytes(rng.randrange(256) for _ in range(n))


def gen_seed16(rng, env):
    n = rng.choice([16] * 12 + [15, 17, 32, 0])
    return bytes(rng.randrange(256) for _ in range(n))


def gen_dst(rng, env):
    n = rng.choice([0, 1, 8, 8, 9, 40, 255, 256, 300, 65535, 65536, 65540]) if rng.random() < 0.3 else rng.randrange(20)
    return bytes(rng.randrange(256) for _ in range(n)) if n < 1000 else bytes(n)


def gen_len(rng, env):
    if rng.random() < 0.01:
        return rng.choice([4080, 4096, 4100, 4112, 5000, 66000])
    return rng.choice([0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 40, 48, 64, 100, rng.randrange(200)])


TSP = {'seed': Bytes(gen=gen_seed), 'dst': Bytes(gen=gen_dst), 'binder': Bytes()}
AESP = {'seed': Bytes(gen=gen_seed16), 'dst': Bytes(gen=gen_dst), 'binder': Bytes()}
A16 = {'seed': Bytes(n=16), 'dst': Bytes(), 'binder': Bytes()}
A16X = {'seed': Bytes(), 'dst': Bytes(), 'binder': Bytes()}
L2 = {'a': Int(lo=0, gen=gen_len), 'b': Int(lo=0, gen=gen_len)}
unit('xof.ts.reads', ['C06', 'C27', 'C08'], 's_xof:two_ts', {**TSP, **L2}, target='s_xof:run_ts')
unit('xof.ts.split', ['C06'], 's_xof:split_ts', {**TSP, **L2})
unit('xof.aes.reads', ['C06', 'C27', 'C08'], 's_xof:two_aes', {**AESP, **L2}, sym_params={**A16, **L2}, target='s_xof:run_aes', budget=120, cost=20)
unit('xof.aes.seedsize', ['C06'], 's_xof:two_aes', {**AESP, **L2}, pre='s_xof:wrong_size', target='s_xof:run_aes', refuses=True)
unit('xof.aes.split', ['C06'], 's_xof:split_aes', {**AESP, **L2}, sym_params={**A16, **L2})


unit('xof.ts.framing', ['C08'], 's_xof:ts_framing', TSP)
unit('xof.aes.framing', ['C08'], 's_xof:aes_framing', {'dst': Bytes(gen=gen_dst), 'binder': Bytes()})


def cls_of(name):
    return Via(lambda it, env: it.loader.cls('xof:' + name), lambda rng, env: __import__('vdaf_poc.xof').xof.__dict__[name])


unit('xof.ts.derive_seed', ['C06', 'C08'], 's_xof:derive_ts', {'cls': cls_of('XofTurboShake128'), **TSP}, target='xof:XofTurboShake128.derive_seed')
unit('xof.aes.derive_seed', ['C06', 'C08'], 's_xof:derive_aes', {'cls': cls_of('XofFixedKeyAes128'), **AESP}, sym_params={'cls': cls_of('XofFixedKeyAes128'), **A16}, target='xof:XofFixedKeyAes128.derive_seed')


def gen_tape(rng, env):
    F = env['F']
    e, p = F.ENCODED_SIZE, F.MODULUS
    out = b''
    for _ in range(rng.randrange(12)):
        r = rng.random()
        if r < 0.3:
            v = p + rng.randrange(-3, 4)
        elif r < 0.4:
            v = 2 ** p.bit_length() + rng.randrange(-3, 4)
        elif r < 0.6:
            v = 2 ** (8 * e) - 1 - rng.randrange(3)
        else:
            v = rng.randrange(2 ** (8 * e))
        out += (v % 2 ** (8 * e)).to_bytes(e, 'little')
    if rng.random() < 0.3:
        out = out[rng.randrange(e):]
    return out


def tape_xof(pos=True):
    return Obj('s_xof:TapeXof', {'salt': Via(lambda it, env: Bytes().sym(it, 'salt', [], env), gen_tape), 'pos': Int(lo=0, gen=lambda rng, env: rng.choice([0, 0, 1, 8, 16, 5]))})


def gen_n(rng, env):
    return rng.choice([0, 1, 1, 2, 3, 4, 5, 8])


for fname in ('Field64', 'Field96', 'Field128', 'Field255'):
    F = FieldP(concrete=fname)
    unit('xof.next_vec.' + fname, ['C07', 'C27'], 's_xof:next_vec', {'F': F, 'x': tape_xof(), 'F_': Via(lambda it, env: env['F'], lambda rng, env: env['F']), 'length': Int(gen=gen_n)},
         hidden=['F'], target='xof:Xof.next_vec')
    unit('xof.split_vec.' + fname, ['C07'], 's_xof:split_vec', {'F': F, 'x': tape_xof(), 'y': Via(lambda it, env: __import__('pyv.builtins_').builtins_.deepcopy(it, env['x']), lambda rng, env: copy.copy(env['x'])),
         'F_': Via(lambda it, env: env['F'], lambda rng, env: env['F']), 'm': Int(lo=0, gen=gen_n), 'n': Int(lo=0, gen=gen_n)}, hidden=['F'],
         symbolic=False, bounded='random streams with many rejected candidates; lengths up to 8')
    unit('xof.expand_into_vec.' + fname, ['C07'], 's_xof:expand_tape', {'F': F, 'cls': Via(lambda it, env: it.loader.cls('s_xof:TapeXof'), lambda rng, env: __import__('s_xof').TapeXof),
         'F_': Via(lambda it, env: env['F'], lambda rng, env: env['F']), 'seed': Bytes(gen=gen_tape), 'dst': Bytes(), 'binder': Bytes(), 'length': Int(gen=gen_n)},
         hidden=['F'], target='s_xof:TapeXof.expand_into_vec')
