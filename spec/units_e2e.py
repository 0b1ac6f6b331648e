import random
from pyv.unit import *

NB = 'random search over the real instances, 2 to 4 aggregators, small lengths'


def mk(rng, env):
    import s_e2e
    kind = rng.choice(['count', 'sum', 'hist', 'sumvec', 'multihot', 'multiproof'])
    length = rng.choice([1, 2, 3, 5])
    if rng.random() < 0.03:
        return s_e2e.Case(rng.choice(['count', 'hist', 'sum']), rng.choice([17, 129, 200, 255]), 1, 1, 1, 1, True)
    return s_e2e.Case(kind, rng.choice([2, 2, 3, 4]), length, rng.choice([1, 1, 2, 3, 5, 8, 15]), rng.choice([1, 2, 3, length, length + 1]),
                      rng.choice([1, 2, 3]), rng.random() < 0.5)


def R(f):
    return Via(lambda it, env: None, f)


C = R(mk)
KEY = Bytes(n=32)
CTX = Bytes(max=10, gen=lambda rng, env: rng.randbytes(rng.choice([0, 1, 2, 5, 9, 10, 247, 248, 300])))
M = R(lambda rng, env: env['c'].draw(rng))
NONCE = Bytes(n=16)
RAND = R(lambda rng, env: rng.randbytes(env['c'].p.RAND_SIZE))
OPT = dict(symbolic=False, bounded=NB, nbudget=8)
unit('e2e.prio3.honest', ['C15', 'C23', 'C14'], 's_e2e:honest', {'c': C, 'key': KEY, 'ctx': CTX, 'm': M, 'nonce': NONCE, 'rand': RAND}, **OPT)
unit('e2e.prio3.sizes', ['C29'], 's_e2e:sizes', {'c': C, 'ctx': CTX, 'm': M, 'nonce': NONCE, 'rand': RAND}, **OPT)
BAD = {'who': Int(lo=0, hi=4), 'where': Int(lo=0, hi=1000), 'delta': R(lambda rng, env: rng.choice([0, 1, 2 ** 32, rng.randrange(2 ** 63)]))}
unit('e2e.prio3.tamper', ['C16'], 's_e2e:tamper', {'c': C, 'key': KEY, 'ctx': CTX, 'm': M, 'nonce': NONCE, 'rand': RAND,
     'what': R(lambda rng, env: rng.choice(['public', 'blind', 'seed', 'meas', 'proof', 'nonce', 'ctx', 'swap'])), **BAD}, **OPT)
unit('e2e.prio3.bad_verifier', ['C16'], 's_e2e:bad_verifier', {'c': C, 'key': KEY, 'ctx': CTX, 'm': M, 'nonce': NONCE, 'rand': RAND,
     'what': R(lambda rng, env: rng.choice(['missing', 'extra', 'short', 'long', 'nopart', 'message', 'value'])), **BAD}, **OPT)
unit('e2e.prio3.batch', ['C17'], 's_e2e:batch', {'c': C, 'key': KEY, 'ctx': CTX,
     'ms': R(lambda rng, env: [env['c'].draw(rng) for _ in range(rng.randrange(4))]), 'rnd': R(lambda rng, env: random.Random(rng.random()))}, **OPT)
unit('e2e.prio3.ident', ['C29'], 's_e2e:ident', {'c': C}, symbolic=False, bounded=NB)
