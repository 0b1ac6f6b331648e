import random
from pyv.unit import *
from units_e2e import C, CTX, KEY, M, NB, NONCE, R, RAND

OPT = dict(symbolic=False, nbudget=6)
RND = R(lambda rng, env: random.Random(rng.random()))
unit('pure.prio3', ['C27'], 's_pure:prio3', {'c': C, 'key': KEY, 'ctx': CTX, 'm': M, 'nonce': NONCE, 'rand': RAND, 'rnd': RND}, bounded=NB, **OPT)
unit('pure.polys', ['C27'], 's_pure:polys', {'F': R(lambda rng, env: native_field(rng.choice(['Field64', 'Field96', 'Field128', 'Field255']))), 'rnd': RND}, bounded='random search, up to 8 values', **OPT)


def prefixes(rng, env):
    out = []
    for _ in range(rng.randrange(1, 4)):
        x = list(env['alpha'][:env['level'] + 1])
        if rng.random() < 0.5:
            x[rng.randrange(len(x))] ^= True
        if tuple(x) not in out:
            out.append(tuple(x))
    return tuple(sorted(out))


unit('pure.poplar', ['C27'], 's_pure:poplar', {
    'bits': R(lambda rng, env: rng.choice([1, 2, 3, 5, 8, 9])), 'ctx': CTX, 'alpha': R(lambda rng, env: tuple(rng.random() < 0.5 for _ in range(env['bits']))),
    'nonce': NONCE, 'rand': Bytes(n=128), 'key': KEY, 'level': R(lambda rng, env: rng.randrange(env['bits'])), 'prefixes': R(prefixes), 'rnd': RND},
    bounded='random search, up to 9 bits', **OPT)
unit('pure.xofs', ['C27'], 's_pure:xofs', {'seed': KEY, 'dst': Bytes(max=20), 'binder': Bytes(max=20), 'n': Int(lo=0, hi=5), 'rnd': RND}, bounded='random search', **OPT)
