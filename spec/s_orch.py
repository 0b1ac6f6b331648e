"""Contracts of the orchestration functions: run_vdaf, run_daf, run_flp, additive sharing."""
from vdaf_poc.daf import Daf
from vdaf_poc.daf import run_daf as r_run_daf
from vdaf_poc.flp import Flp
from vdaf_poc.flp import additive_secret_share as r_share
from vdaf_poc.flp import run_flp as r_run_flp
from vdaf_poc.vdaf import Vdaf
from vdaf_poc.vdaf import run_vdaf as r_run_vdaf
from vlib import reject, requires


def ensure(c):
    if not c:
        raise ValueError('wrong message')


class ToyVdaf(Vdaf):
    """A VDAF that adds integers and refuses anything routed or ordered wrongly.
    Reports of negative measurements fail verification."""

    NONCE_SIZE = 16
    VERIFY_KEY_SIZE = 8
    ID = 7

    def __init__(self, shares, rounds, rand_size):
        self.SHARES = shares
        self.ROUNDS = rounds
        self.RAND_SIZE = rand_size

    def shard(self, ctx, measurement, nonce, rand):
        ensure(len(nonce) == 16 and len(rand) == self.RAND_SIZE)
        return ((ctx, nonce), [(j, measurement - self.SHARES + 1 if j == 0 else 1, measurement >= 0, nonce) for j in range(self.SHARES)])

    def is_valid(self, agg_param, previous): pass

    def verify_init(self, verify_key, ctx, agg_id, agg_param, nonce, public_share, input_share):
        (j, value, good, n) = input_share
        ensure(public_share == (ctx, nonce) and n == nonce and j == agg_id)
        return ((0, j, value, nonce, verify_key, agg_param), (0, j, good, nonce, verify_key, agg_param))

    def verifier_shares_to_message(self, ctx, agg_param, verifier_shares):
        ensure(len(verifier_shares) == self.SHARES)
        (r, j0, good0, n, k, a) = verifier_shares[0]
        ensure(a == agg_param)
        for j in range(self.SHARES):
            (r1, j1, good, n1, k1, a1) = verifier_shares[j]
            ensure(r1 == r and j1 == j and good and n1 == n and k1 == k and a1 == a)
        return (r, n, k)

    def verify_next(self, ctx, verify_state, verifier_message):
        (r, j, value, nonce, key, agg_param) = verify_state
        ensure(verifier_message == (r, nonce, key))
        if r + 1 == self.ROUNDS:
            return [j, value]
        ensure(r + 1 < self.ROUNDS)
        return ((r + 1, j, value, nonce, key, agg_param), (r + 1, j, True, nonce, key, agg_param))

    def agg_init(self, agg_param):
        return (agg_param, 0, 0, 0)

    def agg_update(self, agg_param, agg_share, out_share):
        (a, n, ids, total) = agg_share
        ensure(a == agg_param)
        return (a, n + 1, ids + out_share[0], total + out_share[1])

    def merge(self, agg_param, agg_shares): pass

    def unshard(self, agg_param, agg_shares, num_measurements):
        ensure(len(agg_shares) == self.SHARES)
        out = 0
        for j in range(self.SHARES):
            (a, n, ids, total) = agg_shares[j]
            ensure(a == agg_param and n == num_measurements and ids == j * n)
            out += total
        return out

    def prep(self, ctx, agg_id, agg_param, nonce, public_share, input_share):
        """As a DAF."""
        (j, value, good, n) = input_share
        ensure(public_share == (ctx, nonce) and n == nonce and j == agg_id)
        return [j, value]

    def encode_input_share(self, x): pass
    def encode_public_share(self, x): pass
    def encode_agg_share(self, x): pass
    def decode_agg_share(self, x): pass
    def encode_agg_param(self, x): pass
    def decode_agg_param(self, x): pass
    def encode_out_share(self, x): pass
    def decode_out_share(self, x): pass
    def encode_verifier_share(self, x): pass
    def decode_verifier_share(self, x): pass
    def encode_verifier_message(self, x): pass
    def decode_verifier_message(self, x): pass
    def decode_public_share(self, x): pass
    def decode_input_share(self, x): pass


def t_run_vdaf(shares, rounds, rand_size, key, agg_param, ctx, ms):
    return r_run_vdaf(ToyVdaf(shares, rounds, rand_size), key, agg_param, ctx, ms)


def run_vdaf(shares, rounds, rand_size, key, agg_param, ctx, ms):
    if len(key) != 8 or not all([m >= 0 for m in ms]):
        reject()
    return sum(ms)


def t_run_daf(shares, rand_size, agg_param, ctx, ms):
    return r_run_daf(ToyVdaf(shares, 1, rand_size), ctx, agg_param, ms)


def run_daf(shares, rand_size, agg_param, ctx, ms):
    return sum(ms)


# -- FLP

class ToyFlp(Flp):
    """Accepts exactly the vectors whose first element is one; refuses wrong lengths,
    mismatched randomness and wrong numbers of shares."""

    def __init__(self, field, num_shares, meas_len, jr_len, pr_len, qr_len):
        self.field = field
        self.MEAS_LEN = meas_len
        self.PROOF_LEN = 2
        self.num_shares = num_shares
        self.JOINT_RAND_LEN = jr_len
        self.PROVE_RAND_LEN = pr_len
        self.QUERY_RAND_LEN = qr_len
        self.VERIFIER_LEN = 4
        self.OUTPUT_LEN = meas_len

    def prove(self, meas, prove_rand, joint_rand):
        ensure(len(meas) == self.MEAS_LEN and len(prove_rand) == self.PROVE_RAND_LEN and len(joint_rand) == self.JOINT_RAND_LEN)
        return [sum(meas, self.field(0)), sum(joint_rand, self.field(0))]

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        ensure(len(meas) == self.MEAS_LEN and len(proof) == 2 and len(query_rand) == self.QUERY_RAND_LEN and num_shares == self.num_shares and len(joint_rand) == self.JOINT_RAND_LEN)
        F = self.field
        return [sum(meas, F(0)) - proof[0], F(num_shares) * proof[1] - sum(joint_rand, F(0)), meas[0], F(1)]

    def decide(self, verifier):
        F = self.field
        ensure(len(verifier) == 4)
        return verifier[0] == F(0) and verifier[1] == F(0) and verifier[2] == F(1) and verifier[3] == F(self.num_shares)

    def encode(self, measurement): pass
    def truncate(self, meas): pass
    def decode(self, output, num_measurements): pass


def t_run_flp(F, jr, pr, qr, meas, num_shares):
    return r_run_flp(ToyFlp(F, num_shares, len(meas), jr, pr, qr), meas, num_shares)


def run_flp(F, jr, pr, qr, meas, num_shares):
    """Accepts iff the measurement is valid, whatever the sharing."""
    requires(len(meas) >= 1)
    return meas[0] == F(1)


def share_adds_up(F, vec, n):
    shares = r_share(vec, n, F)
    return len(shares) == n and all([len(s) == len(vec) for s in shares]) and \
        [sum([s[i] for s in shares], F(0)) for i in range(len(vec))] == vec
