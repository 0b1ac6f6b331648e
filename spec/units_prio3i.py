from pyv.unit import *
from units_prio3 import F, flp

CNT = Int(gen=lambda rng, env: rng.choice([0, 1, 2, 2, 3, 4, 254, 255, 256, 257, -1, rng.randrange(300)]))
for J in (True, False):
    unit('prio3.construct' + ('.jr' if J else '.nojr'), ['C29'], 's_prio3i:construct',
         {'F': F, 'flp': flp(J), 'ident': Int(lo=0, hi=2 ** 32), 'shares': CNT, 'proofs': CNT}, target='s_prio3i:t_construct', hidden=['F'])

PA = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 9, 100, 2 ** 53 + 1]))
PB = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 8, 2 ** 40, env['F'].MODULUS, env['F'].MODULUS - 1, env['F'].MODULUS // 2, 2 ** 63, 2 ** 62, 2 ** 127]))
PC = Int(gen=lambda rng, env: rng.choice([0, -1, 1, 1, 2, 3, 4, 5, 7, 100, 2 ** 40 + 1]))
SH = Int(gen=lambda rng, env: rng.choice([2, 2, 3, 4, 255, 2, 3, rng.choice([0, 1, 256, 300, -2])]))
for kind, f in (('count', 'Field64'), ('sum', 'Field64'), ('hist', 'Field128'), ('sumvec', 'Field128'), ('multihot', 'Field128'),
                ('multiproof', 'Field64'), ('multiproof', 'Field128')):
    unit('prio3.instance.%s%s' % (kind, '.' + f if kind == 'multiproof' else ''), ['C29'], 's_prio3i:instance',
         {'F': FieldP(concrete=f), 'kind': Const(kind), 'shares': SH, 'proofs': SH, 'a': PA, 'b': PB, 'c': PC}, target='s_prio3i:t_instance')
