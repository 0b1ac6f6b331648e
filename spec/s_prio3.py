"""Contracts of vdaf_poc.vdaf_prio3, over an arbitrary FLP and an arbitrary XOF."""
from vdaf_poc.flp import Flp
from vdaf_poc.vdaf_prio3 import Prio3
from vdaf_poc.xof import Xof
from vlib import reject, requires, uf_bool, uf_bytes, uf_obj, uf_vec


class AnyXof(Xof):
    """A XOF whose output depends on seed, tag and binder only (see C06, C07)."""

    SEED_SIZE = 32

    def __init__(self, seed, dst, binder):
        if len(dst) >= 2 ** 16 or len(seed) >= 256:
            raise ValueError('does not fit')
        self.seed = seed
        self.dst = dst
        self.binder = binder
        self.bytes_read = 0
        self.vec_read = 0

    def next(self, length):
        a = self.bytes_read
        self.bytes_read = a + length
        return uf_bytes(a + length, 'xof', self.vec_read, self.seed, self.dst, self.binder)[a:]

    def next_vec(self, field, length):
        a = self.vec_read
        self.vec_read = a + length
        return uf_vec(field, a + length, 'xofvec', self.bytes_read, self.seed, self.dst, self.binder)[a:]


class AnyFlp(Flp):
    """An FLP with unknown operations that check the lengths they document."""

    def __init__(self): pass

    def encode(self, measurement):
        return uf_vec(self.field, self.MEAS_LEN, 'encode', self.salt, measurement)

    def prove(self, meas, prove_rand, joint_rand):
        if len(meas) != self.MEAS_LEN or len(prove_rand) != self.PROVE_RAND_LEN or len(joint_rand) != self.JOINT_RAND_LEN:
            raise ValueError('lengths')
        return uf_vec(self.field, self.PROOF_LEN, 'prove', self.salt, meas, prove_rand, joint_rand)

    def query(self, meas, proof, query_rand, joint_rand, num_shares):
        if len(meas) != self.MEAS_LEN or len(proof) != self.PROOF_LEN or len(query_rand) != self.QUERY_RAND_LEN or len(joint_rand) != self.JOINT_RAND_LEN:
            raise ValueError('lengths')
        return uf_vec(self.field, self.VERIFIER_LEN, 'query', self.salt, meas, proof, query_rand, joint_rand, num_shares)

    def decide(self, verifier):
        return uf_bool('decide', self.salt, verifier)

    def truncate(self, meas):
        if len(meas) != self.MEAS_LEN:
            raise ValueError('lengths')
        return uf_vec(self.field, self.OUTPUT_LEN, 'truncate', self.salt, meas)

    def decode(self, output, num_measurements):
        return uf_obj('decode', self.salt, output, num_measurements)


class AnyPrio3(Prio3):
    xof = AnyXof
    VERIFY_KEY_SIZE = 32

    def __init__(self, ident, shares, flp, proofs):
        self.ID = ident
        super().__init__(shares, flp, proofs)


def instance(flp, ident, shares, proofs):
    return AnyPrio3(ident, shares, flp, proofs)


# -- the derivations: which seed, tag and binder give which value

def tag(p, usage, ctx):
    return bytes([18, 0]) + p.ID.to_bytes(4, 'big') + usage.to_bytes(2, 'big') + ctx


def expand(p, seed, usage, ctx, binder, n):
    if len(ctx) + 8 >= 2 ** 16:
        reject()
    return uf_vec(p.flp.field, n, 'xofvec', 0, seed, tag(p, usage, ctx), binder)


def derive(p, seed, usage, ctx, binder):
    if len(ctx) + 8 >= 2 ** 16:
        reject()
    return uf_bytes(32, 'xof', 0, seed, tag(p, usage, ctx), binder)


def helper_meas_share(p, ctx, agg_id, share):
    return expand(p, share, 1, ctx, bytes([agg_id]), p.flp.MEAS_LEN)


def helper_proofs_share(p, ctx, agg_id, share):
    return expand(p, share, 2, ctx, bytes([p.PROOFS, agg_id]), p.flp.PROOF_LEN * p.PROOFS)


def joint_rands(p, ctx, seed):
    return expand(p, seed, 3, ctx, bytes([p.PROOFS]), p.flp.JOINT_RAND_LEN * p.PROOFS)


def prove_rands(p, ctx, seed):
    return expand(p, seed, 4, ctx, bytes([p.PROOFS]), p.flp.PROVE_RAND_LEN * p.PROOFS)


def query_rands(p, key, ctx, nonce):
    return expand(p, key, 5, ctx, bytes([p.PROOFS]) + nonce, p.flp.QUERY_RAND_LEN * p.PROOFS)


def joint_rand_seed(p, ctx, parts):
    return derive(p, bytes(32), 6, ctx, b''.join(parts))


def joint_rand_part(p, ctx, agg_id, blind, meas_share, nonce):
    return derive(p, blind, 7, ctx, bytes([agg_id]) + nonce + enc_vec(p.flp.field, meas_share))


def enc_vec(F, vec):
    return b''.join([x.int().to_bytes(F.ENCODED_SIZE, 'little') for x in vec])


def expand_input_share(p, ctx, agg_id, share):
    if agg_id > 0:
        (seed, blind) = share
        return (helper_meas_share(p, ctx, agg_id, seed), helper_proofs_share(p, ctx, agg_id, seed), blind)
    (meas, proofs, blind) = share
    return (meas, proofs, blind)


# -- sharding

def seed_at(rand, i):
    return rand[32 * i:32 * (i + 1)]


def proofs_of(p, meas, prs, jrs):
    n = p.flp.PROVE_RAND_LEN
    m = p.flp.JOINT_RAND_LEN
    return [x for k in range(p.PROOFS) for x in p.flp.prove(meas, prs[n * k:n * (k + 1)], jrs[m * k:m * (k + 1)])]


def minus_all(F, n, vec, others):
    """vec minus all the others, element by element."""
    return [vec[i] - sum([o[i] for o in others], F(0)) for i in range(n)]


def shard(p, ctx, measurement, nonce, rand):
    F = p.flp.field
    S = p.SHARES
    joint = p.flp.JOINT_RAND_LEN > 0
    if len(nonce) != 16 or len(rand) != 32 * (2 * S if joint else S):
        reject()
    meas = p.flp.encode(measurement)
    if joint:
        seeds = [seed_at(rand, 2 * j) for j in range(S - 1)]
        blinds = [seed_at(rand, 2 * j + 1) for j in range(S - 1)]
        leader_blind = seed_at(rand, 2 * S - 2)
        prove_seed = seed_at(rand, 2 * S - 1)
    else:
        seeds = [seed_at(rand, j) for j in range(S - 1)]
        prove_seed = seed_at(rand, S - 1)
    helpers = [helper_meas_share(p, ctx, j + 1, seeds[j]) for j in range(S - 1)]
    leader = minus_all(F, p.flp.MEAS_LEN, meas, helpers)
    prs = prove_rands(p, ctx, prove_seed)
    if joint:
        parts = [joint_rand_part(p, ctx, 0, leader_blind, leader, nonce)] + \
            [joint_rand_part(p, ctx, j + 1, blinds[j], helpers[j], nonce) for j in range(S - 1)]
        jrs = joint_rands(p, ctx, joint_rand_seed(p, ctx, parts))
    else:
        jrs = []
    proofs = proofs_of(p, meas, prs, jrs)
    leader_proofs = minus_all(F, p.flp.PROOF_LEN * p.PROOFS, proofs,
                              [helper_proofs_share(p, ctx, j + 1, seeds[j]) for j in range(S - 1)])
    if joint:
        return (parts, [(leader, leader_proofs, leader_blind)] + [(seeds[j], blinds[j]) for j in range(S - 1)])
    return (None, [(leader, leader_proofs, None)] + [(seeds[j], None) for j in range(S - 1)])


# -- verification

def verify_init(p, key, ctx, agg_id, agg_param, nonce, public_share, share):
    (meas, proofs, blind) = expand_input_share(p, ctx, agg_id, share)
    qrs = query_rands(p, key, ctx, nonce)
    if p.flp.JOINT_RAND_LEN > 0:
        part = joint_rand_part(p, ctx, agg_id, blind, meas, nonce)
        if agg_id >= len(public_share):
            reject()
        seed = joint_rand_seed(p, ctx, [part if k == agg_id else public_share[k] for k in range(len(public_share))])
        jrs = joint_rands(p, ctx, seed)
    else:
        part = None
        seed = None
        jrs = []
    f = p.flp
    v = [x for k in range(p.PROOFS)
         for x in f.query(meas, proofs[f.PROOF_LEN * k:f.PROOF_LEN * (k + 1)], qrs[f.QUERY_RAND_LEN * k:f.QUERY_RAND_LEN * (k + 1)],
                          jrs[f.JOINT_RAND_LEN * k:f.JOINT_RAND_LEN * (k + 1)], p.SHARES)]
    return ((f.truncate(meas), seed), (v, part))


def shares_to_message(p, ctx, agg_param, shares):
    f = p.flp
    n = f.VERIFIER_LEN
    if len(shares) != p.SHARES or not all([len(s[0]) == n * p.PROOFS for s in shares]):
        reject()
    total = [sum([s[0][i] for s in shares], f.field(0)) for i in range(n * p.PROOFS)]
    if not all([f.decide(total[n * k:n * (k + 1)]) for k in range(p.PROOFS)]):
        reject()
    if f.JOINT_RAND_LEN > 0:
        return joint_rand_seed(p, ctx, [s[1] for s in shares])
    return None


def verify_next(p, ctx, state, message):
    if message != state[1]:
        reject()
    return state[0]


# -- aggregation

def agg_init(p, agg_param):
    return [p.flp.field(0)] * p.flp.OUTPUT_LEN


def agg_update(p, agg_param, agg, out):
    if len(agg) != len(out):
        reject()
    return [agg[i] + out[i] for i in range(len(agg))]


def merge(p, agg_param, shares):
    n = p.flp.OUTPUT_LEN
    if not all([len(s) == n for s in shares]):
        reject()
    return [sum([s[i] for s in shares], p.flp.field(0)) for i in range(n)]


def unshard(p, agg_param, shares, num):
    return p.flp.decode(merge(p, agg_param, shares), num)


def is_valid(p, agg_param, previous):
    return len(previous) == 0


# -- codecs

def encode_input_share0(p, share):
    (meas, proofs, blind) = share
    F = p.flp.field
    if len(proofs) != p.flp.PROOF_LEN * p.PROOFS:
        reject()
    return enc_vec(F, meas) + enc_vec(F, proofs) + blind_bytes(blind)


def blind_bytes(blind):
    return b'' if blind is None else blind


def encode_input_share1(p, share):
    (seed, blind) = share
    return seed + blind_bytes(blind)


def dec_vec(F, data, n):
    """Exactly n canonical elements."""
    e = F.ENCODED_SIZE
    ints = [int.from_bytes(data[e * i:e * (i + 1)], 'little') for i in range(n)]
    if not all([v < F.MODULUS for v in ints]):
        reject()
    return [F(v) for v in ints]


def decode_input_share(p, agg_id, data):
    f = p.flp
    e = f.field.ENCODED_SIZE
    m = e * f.MEAS_LEN
    q = e * (f.PROOF_LEN * p.PROOFS)
    k = 32 if f.JOINT_RAND_LEN > 0 else 0
    if agg_id == 0:
        if len(data) != m + q + k:
            reject()
        blind = data[m + q:] if k > 0 else None
        return (dec_vec(f.field, data[:m], f.MEAS_LEN), dec_vec(f.field, data[m:m + q], f.PROOF_LEN * p.PROOFS), blind)
    if len(data) != 32 + k:
        reject()
    return (data[:32], data[32:] if k > 0 else None)


def encode_public_share(p, parts):
    return b''.join(parts)


def encode_public_none(p):
    return b''


def t_encode_public_none(p):
    return p.encode_public_share(None)


def decode_public_share(p, data):
    if p.flp.JOINT_RAND_LEN > 0:
        if len(data) != 32 * p.SHARES:
            reject()
        return [data[32 * i:32 * (i + 1)] for i in range(p.SHARES)]
    if len(data) != 0:
        reject()
    return None


def encode_verifier_share(p, share):
    (v, part) = share
    if len(v) != p.flp.VERIFIER_LEN * p.PROOFS:
        reject()
    return enc_vec(p.flp.field, v) + blind_bytes(part)


def decode_verifier_share(p, state, data):
    f = p.flp
    n = f.VERIFIER_LEN * p.PROOFS
    m = f.field.ENCODED_SIZE * n
    k = 32 if f.JOINT_RAND_LEN > 0 else 0
    if len(data) != m + k:
        reject()
    return (dec_vec(f.field, data[:m], n), data[m:] if k > 0 else None)


def encode_verifier_message(p, msg):
    return blind_bytes(msg)


def decode_verifier_message(p, state, data):
    return None if len(data) == 0 else data


def encode_vec(p, vec):
    return enc_vec(p.flp.field, vec)


def decode_vec(p, agg_param, data):
    e = p.flp.field.ENCODED_SIZE
    if len(data) % e != 0:
        reject()
    return dec_vec(p.flp.field, data, len(data) // e)


def encode_agg_param(p, agg_param):
    return b''


def decode_agg_param(p, data):
    if len(data) != 0:
        reject()
    return None


# -- lemmas about the methods together

def shares_add_up(p, ctx, measurement, nonce, rand):
    """The expanded input shares add up to the encoding and to the proofs."""
    f = p.flp
    requires(len(rand) == p.RAND_SIZE and len(ctx) < 60000)
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    lead = p.expand_input_share(ctx, 0, shares[0])
    rest = [p.expand_input_share(ctx, j + 1, shares[j + 1]) for j in range(p.SHARES - 1)]
    meas = f.encode(measurement)
    return len(shares) == p.SHARES and \
        [lead[0][i] + sum([h[0][i] for h in rest], f.field(0)) for i in range(f.MEAS_LEN)] == meas


def parts_match(p, ctx, measurement, nonce, rand):
    """The public share lists the part each aggregator computes itself."""
    f = p.flp
    requires(len(rand) == p.RAND_SIZE and len(ctx) < 60000)
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    lead = p.expand_input_share(ctx, 0, shares[0])
    rest = [p.expand_input_share(ctx, j + 1, shares[j + 1]) for j in range(p.SHARES - 1)]
    if f.JOINT_RAND_LEN == 0:
        return ps is None
    return ps == [p.joint_rand_part(ctx, 0, lead[2], lead[0], nonce)] + \
        [p.joint_rand_part(ctx, j + 1, rest[j][2], rest[j][0], nonce) for j in range(p.SHARES - 1)]


def aggregators_agree(p, key, ctx, measurement, nonce, rand, j):
    """Aggregator j of an honest report derives the client's joint randomness seed."""
    requires(len(rand) == p.RAND_SIZE and len(ctx) < 60000 and j < p.SHARES)
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    if j == 0:
        ((out, seed), (v, part)) = p.verify_init(key, ctx, 0, None, nonce, ps, shares[0])
    else:
        ((out, seed), (v, part)) = p.verify_init(key, ctx, j, None, nonce, ps, shares[j])
    if p.flp.JOINT_RAND_LEN == 0:
        return seed is None and part is None
    return seed == p.joint_rand_seed(ctx, ps) and part == ps[j]


def update_commutes(p, agg, x, y):
    requires(len(agg) == len(x) and len(x) == len(y))
    return p.agg_update(None, p.agg_update(None, agg, x), y) == p.agg_update(None, p.agg_update(None, agg, y), x)


def update_is_merge(p, agg, x):
    requires(len(agg) == p.flp.OUTPUT_LEN and len(x) == p.flp.OUTPUT_LEN)
    return p.agg_update(None, agg, x) == p.merge(None, [agg, x]) and p.agg_update(None, p.agg_init(None), x) == x


def merge_groups(p, xs, ys):
    n = p.flp.OUTPUT_LEN
    requires(all([len(s) == n for s in xs]) and all([len(s) == n for s in ys]))
    return p.merge(None, [p.merge(None, xs), p.merge(None, ys)]) == p.merge(None, xs + ys)


def update_all(p, xs):
    """Absorbing output shares one by one gives their sum."""
    n = p.flp.OUTPUT_LEN
    requires(all([len(s) == n for s in xs]))
    agg = p.agg_init(None)
    for x in xs:
        agg = p.agg_update(None, agg, x)
    return agg == p.merge(None, xs)


def rt_input0(p, meas, proofs, blind):
    f = p.flp
    requires(len(meas) >= f.MEAS_LEN and len(proofs) >= f.PROOF_LEN * p.PROOFS)
    meas = meas[:f.MEAS_LEN]
    proofs = proofs[:f.PROOF_LEN * p.PROOFS]
    share = (meas, proofs, blind)
    return p.decode_input_share(0, p.encode_input_share(share)) == share


def rt_input1(p, agg_id, seed, blind):
    share = (seed, blind)
    return p.decode_input_share(agg_id, p.encode_input_share(share)) == share


def rt_public(p, parts):
    requires(len(parts) == p.SHARES)
    return p.decode_public_share(p.encode_public_share(parts)) == parts


def rt_public_none(p):
    return p.decode_public_share(p.encode_public_share(None)) is None


def rt_verifier(p, v, part):
    requires(len(v) >= p.flp.VERIFIER_LEN * p.PROOFS)
    v = v[:p.flp.VERIFIER_LEN * p.PROOFS]
    return p.decode_verifier_share(None, p.encode_verifier_share((v, part))) == (v, part)


def rt_message(p, msg):
    return p.decode_verifier_message(None, p.encode_verifier_message(msg)) == msg


def rt_out(p, vec):
    return p.decode_out_share(None, p.encode_out_share(vec)) == vec


def rt_agg(p, vec):
    return p.decode_agg_share(None, p.encode_agg_share(vec)) == vec


def canon_input(p, agg_id, data):
    """What decodes re-encodes to the same bytes."""
    return p.encode_input_share(accepted(lambda: p.decode_input_share(agg_id, data))) == data


def canon_public(p, data):
    return p.encode_public_share(accepted(lambda: p.decode_public_share(data))) == data


def canon_verifier(p, data):
    return p.encode_verifier_share(accepted(lambda: p.decode_verifier_share(None, data))) == data


def accepted(fn):
    try:
        return fn()
    except Exception:
        requires(False)


def tag_parses(p, usage, ctx):
    """The tag determines version, class, algorithm, usage and context."""
    requires(usage >= 0 and usage < 2 ** 16)
    t = p.domain_separation_tag(usage, ctx)
    return t[0] == 18 and t[1] == 0 and int.from_bytes(t[2:6], 'big') == p.ID and int.from_bytes(t[6:8], 'big') == usage and t[8:] == ctx
