from pyv.unit import *


def gen_msg(rng, env):
    def item(n):
        return n.to_bytes(4, 'big') + bytes(rng.randrange(256) for _ in range(n))
    t = rng.choice([0, 1, 1, 1, 2, 2, 3, 4, 255, rng.randrange(256)])
    m = bytes([t])
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 2, 3])):
        n = rng.choice([0, 1, 2, 5, 31, 255, 256, 300])
        x = item(n)
        if rng.random() < 0.1:
            x = (n + rng.choice([-1, 1, 256, 2 ** 31]) & 0xffffffff).to_bytes(4, 'big') + x[4:]
        m += x
    r = rng.random()
    if r < 0.1:
        m += bytes(rng.randrange(1, 4))
    elif r < 0.25 and m:
        m = m[:rng.randrange(len(m))]
    elif r < 0.3 and m:
        k = rng.randrange(len(m))
        m = m[:k] + bytes([m[k] ^ (1 << rng.randrange(8))]) + m[k + 1:]
    return m


unit('pp.encode1', ['C25'], 's_pp:encode1', {'t': Int(), 'a': Bytes(max=600)}, target='s_pp:run_encode1')
unit('pp.encode2', ['C25'], 's_pp:encode2', {'t': Int(), 'a': Bytes(max=600), 'b': Bytes(max=300)}, target='s_pp:run_encode2')
unit('pp.decode', ['C25', 'C27'], 's_pp:decode', {'m': Bytes(gen=gen_msg)}, target='vdaf_ping_pong:decode', use=True)
unit('pp.roundtrip1', ['C25'], 's_pp:roundtrip1', {'t': OneOf(Const(0), Const(2)), 'a': Bytes(max=600)}, pre='s_pp:fits1')
unit('pp.roundtrip2', ['C25'], 's_pp:roundtrip2', {'a': Bytes(max=600), 'b': Bytes(max=600)}, pre='s_pp:fits2')
unit('pp.canonical', ['C25'], 's_pp:canonical', {'m': Bytes(gen=gen_msg)})


def any_vdaf(cls='AnyVdaf', rounds=None):
    return Obj('s_pp2:' + cls, {'salt': Int(lo=0, hi=2 ** 30), 'ROUNDS': rounds or Int(lo=1, gen=lambda rng, env: rng.choice([1, 1, 2, 2, 3, 4, 5])),
                                'big': Via(lambda it, env: True, lambda rng, env: False)})


V = any_vdaf()
B = Bytes(max=8)
ARGS = {'key': B, 'ctx': B, 'agg_param': B, 'nonce': B, 'ps': B}


def gen_state(rng, env):
    from vdaf_poc.vdaf_ping_pong import Continued
    import vlib
    R = env['v'].ROUNDS
    r = rng.choice([R - 1, R - 1, R - 2, R - 2, R - 3, R, 0, 1])
    q = r if rng.random() < 0.8 else rng.randrange(R + 1)
    return Continued((q, vlib.Op('s%d' % rng.randrange(1000))), r, b'')


CONT = Obj('vdaf_ping_pong:Continued', {'verify_state': Tup(Int(), Opq()), 'verify_round': Int(), 'outbound': B})
CONT.gen = gen_state

unit('pp.leader_init', ['C26'], 's_pp2:leader_init', {'v': V, **ARGS, 'share': B}, target='vdaf_ping_pong:PingPong.ping_pong_leader_init')
unit('pp.helper_init', ['C26'], 's_pp2:helper_init', {'v': V, **ARGS, 'share': B, 'inbound': Bytes(gen=gen_msg)}, target='vdaf_ping_pong:PingPong.ping_pong_helper_init')
unit('pp.leader_continued', ['C26'], 's_pp2:leader_continued', {'v': V, 'ctx': B, 'agg_param': B, 'state': CONT, 'inbound': Bytes(gen=gen_msg)},
     target='vdaf_ping_pong:PingPong.ping_pong_leader_continued')
unit('pp.helper_continued', ['C26'], 's_pp2:helper_continued', {'v': V, 'ctx': B, 'agg_param': B, 'state': CONT, 'inbound': Bytes(gen=gen_msg)},
     target='vdaf_ping_pong:PingPong.ping_pong_helper_continued')
for R in range(1, 6):
    unit('pp.honest_run.%d' % R, ['C26'], 's_pp2:honest_run', {'v': any_vdaf('HonestVdaf', Const(R)), **ARGS, 'share0': B, 'share1': B},
         bounded='%d rounds; all messages symbolic' % R)
HV = any_vdaf('HonestVdaf')
B32 = Bytes(max=8)
unit('pp.base_step', ['C26'], 's_pp2:base_step', {'v': HV, **ARGS, 'share0': B, 'share1': B})
unit('pp.inv_step', ['C26'], 's_pp2:inv_step', {'v': HV, 'leader': Bool(), 'ctx': B, 'agg_param': B,
                                                'r': Int(lo=0, gen=lambda rng, env: rng.randrange(env['v'].ROUNDS)),
                                                's0': Opq(), 's1': Opq(), 'v0': B, 'v1': B, 'old': B}, pre='s_pp2:round_ok')
