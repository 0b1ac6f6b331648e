"""Contracts of the ping-pong state machine over an arbitrary VDAF."""
from vdaf_poc.vdaf_ping_pong import (Continued, Finished, FinishedWithOutbound,
                                     PingPong, Rejected)
from vdaf_poc.vdaf_ping_pong import decode as r_decode
from vdaf_poc.vdaf_ping_pong import encode as r_encode
from vlib import uf_bytes, uf_int, uf_obj, uf_rare


def flaky(name, *args):
    """Any operation of the VDAF may refuse its input."""
    if uf_rare(name, *args):
        raise ValueError('refused')


class AnyVdaf(PingPong):
    """A VDAF with unknown operations.  A state is (round, value)."""

    def decode_agg_param(self, encoded):
        flaky('dap?', self.salt, encoded)
        return uf_obj('dap', self.salt, encoded)

    def decode_public_share(self, encoded):
        flaky('dps?', self.salt, encoded)
        return uf_obj('dps', self.salt, encoded)

    def decode_input_share(self, agg_id, encoded):
        flaky('dis?', self.salt, agg_id, encoded)
        return uf_obj('dis', self.salt, agg_id, encoded)

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        flaky('vi?', self.salt, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)
        return ((0, uf_obj('vis', self.salt, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)),
                uf_obj('viv', self.salt, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share))

    def verify_next(self, ctx, state, message):
        flaky('vn?', self.salt, ctx, state, message)
        if state[0] + 1 == self.ROUNDS:
            return uf_obj('out', self.salt, ctx, state, message)
        return ((state[0] + 1, uf_obj('vns', self.salt, ctx, state, message)),
                uf_obj('vnv', self.salt, ctx, state, message))

    def verifier_shares_to_message(self, ctx, agg_param, shares):
        flaky('sm?', self.salt, ctx, agg_param, shares)
        return uf_obj('sm', self.salt, ctx, agg_param, shares)

    def enc(self, name, value):
        return uf_bytes(uf_int(0, 2 ** 32 if self.big else 20, name + 'len', self.salt, value), name, self.salt, value)

    def encode_verifier_share(self, share):
        return self.enc('evs', share)

    def encode_verifier_message(self, message):
        return self.enc('evm', message)

    def decode_verifier_share(self, state, encoded):
        flaky('dvs?', self.salt, state, encoded)
        return uf_obj('dvs', self.salt, state, encoded)

    def decode_verifier_message(self, state, encoded):
        flaky('dvm?', self.salt, state, encoded)
        return uf_obj('dvm', self.salt, state, encoded)

    def shard(self): pass
    def is_valid(self): pass
    def agg_init(self): pass
    def agg_update(self): pass
    def merge(self): pass
    def unshard(self): pass
    def encode_agg_param(self): pass
    def encode_input_share(self): pass
    def encode_public_share(self): pass
    def encode_agg_share(self): pass
    def decode_agg_share(self): pass
    def encode_out_share(self): pass
    def decode_out_share(self): pass


# -- each step, stated directly

def init(v, key, ctx, agg_id, agg_param, nonce, ps, share):
    return v.verify_init(key, ctx, agg_id, v.decode_agg_param(agg_param), nonce, v.decode_public_share(ps),
                         v.decode_input_share(agg_id, share))


def leader_init(v, key, ctx, agg_param, nonce, ps, share):
    try:
        (st, vs) = init(v, key, ctx, 0, agg_param, nonce, ps, share)
        return Continued(st, 0, r_encode(0, v.encode_verifier_share(vs)))
    except Exception:
        return Rejected()


def combine(v, ctx, ap, leader_share, helper_share, st, rnd):
    """Combine both verifier shares of round rnd and move on."""
    m = v.verifier_shares_to_message(ctx, ap, [leader_share, helper_share])
    out = v.verify_next(ctx, st, m)
    if rnd + 1 == v.ROUNDS:
        return FinishedWithOutbound(out, r_encode(2, v.encode_verifier_message(m)))
    return Continued(out[0], rnd + 1, r_encode(1, v.encode_verifier_message(m), v.encode_verifier_share(out[1])))


def helper_init(v, key, ctx, agg_param, nonce, ps, share, inbound):
    try:
        (st, vs) = init(v, key, ctx, 1, agg_param, nonce, ps, share)
        (t, items) = r_decode(inbound)
        if t != 0:
            return Rejected()
        return combine(v, ctx, v.decode_agg_param(agg_param), v.decode_verifier_share(st, items[0]), vs, st, 0)
    except Exception:
        return Rejected()


def continued(leader, v, ctx, agg_param, state, inbound):
    try:
        (t, items) = r_decode(inbound)
        last = state.verify_round + 1 == v.ROUNDS
        if t == 0 or (t == 2 and not last) or (t == 1 and state.verify_round + 1 >= v.ROUNDS):
            return Rejected()
        st = state.verify_state
        out = v.verify_next(ctx, st, v.decode_verifier_message(st, items[0]))
        if t == 2:
            return Finished(out)
        (st, mine) = out
        theirs = v.decode_verifier_share(st, items[1])
        ap = v.decode_agg_param(agg_param)
        if leader:
            return combine(v, ctx, ap, mine, theirs, st, state.verify_round + 1)
        return combine(v, ctx, ap, theirs, mine, st, state.verify_round + 1)
    except Exception:
        return Rejected()


def leader_continued(v, ctx, agg_param, state, inbound):
    return continued(True, v, ctx, agg_param, state, inbound)


def helper_continued(v, ctx, agg_param, state, inbound):
    return continued(False, v, ctx, agg_param, state, inbound)


# -- a whole honest run against broadcast verification

class HonestVdaf(AnyVdaf):
    """Nothing refuses and codecs round-trip (values are their encodings)."""

    def decode_agg_param(self, encoded):
        return uf_obj('dap', self.salt, encoded)

    def decode_public_share(self, encoded):
        return uf_obj('dps', self.salt, encoded)

    def decode_input_share(self, agg_id, encoded):
        return uf_obj('dis', self.salt, agg_id, encoded)

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        return ((0, uf_obj('vis', self.salt, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)),
                self.enc('viv', (verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share)))

    def verify_next(self, ctx, state, message):
        if state[0] + 1 == self.ROUNDS:
            return uf_obj('out', self.salt, ctx, state, message)
        return ((state[0] + 1, uf_obj('vns', self.salt, ctx, state, message)),
                self.enc('vnv', (ctx, state, message)))

    def verifier_shares_to_message(self, ctx, agg_param, shares):
        return self.enc('sm', (ctx, agg_param, shares[0], shares[1]))

    def encode_verifier_share(self, share):
        return share

    def encode_verifier_message(self, message):
        return message

    def decode_verifier_share(self, state, encoded):
        return encoded

    def decode_verifier_message(self, state, encoded):
        return encoded


def broadcast(v, key, ctx, agg_param, nonce, ps, share0, share1):
    ap = v.decode_agg_param(agg_param)
    (s0, v0) = init(v, key, ctx, 0, agg_param, nonce, ps, share0)
    (s1, v1) = init(v, key, ctx, 1, agg_param, nonce, ps, share1)
    for _ in range(v.ROUNDS - 1):
        m = v.verifier_shares_to_message(ctx, ap, [v0, v1])
        (s0, v0) = v.verify_next(ctx, s0, m)
        (s1, v1) = v.verify_next(ctx, s1, m)
    m = v.verifier_shares_to_message(ctx, ap, [v0, v1])
    return (v.verify_next(ctx, s0, m), v.verify_next(ctx, s1, m))


def honest_run(v, key, ctx, agg_param, nonce, ps, share0, share1):
    """Alternating steps finish after ROUNDS exchanges with the broadcast result."""
    (o0, o1) = broadcast(v, key, ctx, agg_param, nonce, ps, share0, share1)
    leader = v.ping_pong_leader_init(key, ctx, agg_param, nonce, ps, share0)
    helper = v.ping_pong_helper_init(key, ctx, agg_param, nonce, ps, share1, leader.outbound)
    for r in range(1, v.ROUNDS + 1):
        if r % 2 == 1:
            if r == v.ROUNDS and not isinstance(helper, FinishedWithOutbound):
                return False
            leader = v.ping_pong_leader_continued(ctx, agg_param, leader, helper.outbound)
        else:
            if r == v.ROUNDS and not isinstance(leader, FinishedWithOutbound):
                return False
            helper = v.ping_pong_helper_continued(ctx, agg_param, helper, leader.outbound)
    if v.ROUNDS % 2 == 1:
        if not isinstance(leader, Finished):
            return False
    else:
        if not isinstance(helper, Finished):
            return False
    return leader.out_share == o0 and helper.out_share == o1


# -- induction over the rounds: the invariant after the party `leader` is next
# to move in round r: it holds its broadcast state of round r, the wire holds
# the message of round r and (unless that is the last one) the peer's verifier
# share of round r + 1.

def base_step(v, key, ctx, agg_param, nonce, ps, share0, share1):
    """After both initial steps the invariant holds for the leader in round 0."""
    ap = v.decode_agg_param(agg_param)
    (s0, v0) = init(v, key, ctx, 0, agg_param, nonce, ps, share0)
    (s1, v1) = init(v, key, ctx, 1, agg_param, nonce, ps, share1)
    m = v.verifier_shares_to_message(ctx, ap, [v0, v1])
    leader = v.ping_pong_leader_init(key, ctx, agg_param, nonce, ps, share0)
    if not (isinstance(leader, Continued) and leader.verify_state == s0 and leader.verify_round == 0):
        return False
    helper = v.ping_pong_helper_init(key, ctx, agg_param, nonce, ps, share1, leader.outbound)
    out = v.verify_next(ctx, s1, m)
    if v.ROUNDS == 1:
        return isinstance(helper, FinishedWithOutbound) and helper.out_share == out and helper.outbound == r_encode(2, m)
    return isinstance(helper, Continued) and helper.verify_state == out[0] and helper.verify_round == 1 and \
        helper.outbound == r_encode(1, m, out[1])


def inv_step(v, leader, ctx, agg_param, r, s0, s1, v0, v1, old):
    """The invariant is preserved, and in the last round the party finishes."""
    ap = v.decode_agg_param(agg_param)
    m = v.verifier_shares_to_message(ctx, ap, [v0, v1])
    mine = v.verify_next(ctx, (r, s0) if leader else (r, s1), m)
    theirs = v.verify_next(ctx, (r, s1) if leader else (r, s0), m)
    state = Continued((r, s0) if leader else (r, s1), r, old)
    if r + 1 == v.ROUNDS:
        wire = r_encode(2, m)
    else:
        wire = r_encode(1, m, theirs[1])
    if leader:
        new = v.ping_pong_leader_continued(ctx, agg_param, state, wire)
    else:
        new = v.ping_pong_helper_continued(ctx, agg_param, state, wire)
    if r + 1 == v.ROUNDS:
        return isinstance(new, Finished) and new.out_share == mine
    m2 = v.verifier_shares_to_message(ctx, ap, [mine[1], theirs[1]] if leader else [theirs[1], mine[1]])
    out = v.verify_next(ctx, mine[0], m2)
    if r + 2 == v.ROUNDS:
        return isinstance(new, FinishedWithOutbound) and new.out_share == out and new.outbound == r_encode(2, m2)
    return isinstance(new, Continued) and new.verify_state == out[0] and new.verify_round == r + 2 and \
        new.outbound == r_encode(1, m2, out[1])


def round_ok(v, leader, ctx, agg_param, r, s0, s1, v0, v1, old):
    return r < v.ROUNDS
