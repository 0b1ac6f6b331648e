from pyv.unit import *

MS = ListOf(Int(gen=lambda rng, env: rng.choice([0, 1, 5, 100]) if rng.random() < 0.93 else -1), max=4)
KEY = Bytes(gen=lambda rng, env: rng.randbytes(8 if rng.random() < 0.9 else 7))
RS = Int(lo=0, hi=40)
A, CTX = Int(lo=0, hi=5), Bytes(max=5)
F = FieldP(names=['Field64', 'Field128', 'Field255'])
SH = Int(lo=2, gen=lambda rng, env: rng.choice([2, 3, 4]))
NOTE = 'random runs with up to 4 aggregators, 3 rounds and 4 measurements, on an abstract scheme that refuses misrouted messages'
unit('orch.run_vdaf', ['C28'], 's_orch:run_vdaf', {'shares': SH, 'rounds': Int(lo=1, gen=lambda rng, env: rng.choice([1, 2, 3])),
     'rand_size': RS, 'key': KEY, 'agg_param': A, 'ctx': CTX, 'ms': MS}, target='s_orch:t_run_vdaf', symbolic=False, bounded=NOTE)
for S, R, N in ((2, 1, 0), (2, 1, 1), (2, 1, 2), (2, 2, 1), (2, 3, 1), (3, 1, 1), (3, 2, 1), (2, 2, 2)):
    unit('orch.run_vdaf.%d.%d.%d' % (S, R, N), ['C28'], 's_orch:run_vdaf', {'shares': Const(S), 'rounds': Const(R),
         'rand_size': RS, 'key': KEY, 'agg_param': A, 'ctx': CTX, 'ms': ListOf(Int(), n=N)}, target='s_orch:t_run_vdaf', native=False,
         bounded='%d aggregators, %d rounds, %d measurements; their contents, the randomness and the key are arbitrary' % (S, R, N))
unit('orch.run_daf', ['C28'], 's_orch:run_daf', {'shares': SH, 'rand_size': RS, 'agg_param': A, 'ctx': CTX, 'ms': MS}, target='s_orch:t_run_daf', symbolic=False, bounded=NOTE)
for S, N in ((2, 0), (2, 1), (2, 2), (3, 1), (3, 2)):
    unit('orch.run_daf.%d.%d' % (S, N), ['C28'], 's_orch:run_daf', {'shares': Const(S), 'rand_size': RS, 'agg_param': A, 'ctx': CTX, 'ms': ListOf(Int(), n=N)},
         target='s_orch:t_run_daf', native=False, bounded='%d aggregators, %d measurements; their contents and the randomness are arbitrary' % (S, N))
unit('orch.run_flp', ['C28'], 's_orch:run_flp', {'F': F, 'jr': Int(lo=0, hi=4), 'pr': Int(lo=0, hi=4), 'qr': Int(lo=0, hi=4),
     'meas': ListOf(FEl(), gen=lambda rng, env: [env['F'](1) if i == 0 and rng.random() < 0.6 else gen_fe(rng, env['F']) for i in range(rng.randrange(1, 4))]),
     'num_shares': Int(lo=1, hi=9, small=True)}, target='s_orch:t_run_flp', symbolic=False, bounded='random inputs for an abstract proof system, up to 8 shares')
for S in (1, 2, 3):
    unit('orch.run_flp.%d' % S, ['C28'], 's_orch:run_flp', {'F': F, 'jr': Int(lo=0), 'pr': Int(lo=0), 'qr': Int(lo=0), 'meas': ListOf(FEl()), 'num_shares': Const(S)},
         target='s_orch:t_run_flp', native=False, bounded='%d shares; measurement, randomness and lengths arbitrary' % S)
unit('orch.additive_share', ['C28'], 's_orch:share_adds_up', {'F': F, 'vec': ListOf(FEl()), 'n': Int(lo=1, gen=lambda rng, env: rng.randrange(1, 6))})
