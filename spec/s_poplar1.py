"""Contracts of vdaf_poc.vdaf_poplar1, over an arbitrary IDPF and an arbitrary XOF."""
from s_idpf import distinct
from s_prio3 import AnyXof
from vdaf_poc.field import Field64, Field255
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.vdaf_poplar1 import Poplar1
from vlib import induct_eq, reject, rejects, requires, uf_bytes, uf_obj, uf_vec


class OpaqueIdpf(IdpfBBCGGI21):
    """An IDPF with unknown key generation and evaluation."""

    def gen(self, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
        return (uf_obj('idpf_gen', alpha, beta_inner, beta_leaf, ctx, nonce, rand), [rand[:16], rand[16:]])

    def eval(self, agg_id, public_share, key, level, prefixes, ctx, nonce):
        F = Field64 if level < self.BITS - 1 else Field255
        return [uf_vec(F, 2, 'idpf_eval', agg_id, public_share, key, level, x, ctx, nonce) for x in prefixes]


class IdealIdpf(IdpfBBCGGI21):
    """An IDPF whose shares of every node add up to the programmed value (property C18)."""

    def gen(self, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
        return ((alpha, beta_inner, beta_leaf), [rand[:16], rand[16:]])

    def eval(self, agg_id, public_share, key, level, prefixes, ctx, nonce):
        (alpha, beta_inner, beta_leaf) = public_share
        if level < self.BITS - 1:
            F = Field64
            beta = beta_inner[level]
        else:
            F = Field255
            beta = beta_leaf
        out = []
        for x in prefixes:
            share = uf_vec(F, 2, 'idpf_share', level, x, ctx, nonce)
            if agg_id == 1:
                out.append(share)
            else:
                d = F(int(x == alpha[:level + 1]))
                out.append([d * beta[0] - share[0], d * beta[1] - share[1]])
        return out


class AnyPoplar1(Poplar1):
    def __init__(self, bits, idpf):
        super().__init__(bits)
        self.idpf = idpf
        self.xof = AnyXof


def opaque(bits):
    return AnyPoplar1(bits, OpaqueIdpf(2, bits))


def ideal(bits):
    return AnyPoplar1(bits, IdealIdpf(2, bits))


def real(bits):
    return Poplar1(bits)


def fld(p, level):
    return Field64 if level < p.idpf.BITS - 1 else Field255


def tag(usage, ctx):
    if len(ctx) + 8 >= 2 ** 16:
        reject()
    return bytes([18, 0, 0, 0, 0, 6, 0, usage]) + ctx


def rnd(F, a, n, seed, usage, ctx, binder):
    """Elements a to a + n of the stream of field elements."""
    return uf_vec(F, a + n, 'xofvec', 0, seed, tag(usage, ctx), binder)[a:]


# -- sharding

def corr(F, a, seeds, usage, ctx, nonce):
    """The correlated randomness: three elements from position a of each party's stream, summed."""
    x = rnd(F, a, 3, seeds[0], usage, ctx, bytes([0]) + nonce)
    y = rnd(F, a, 3, seeds[1], usage, ctx, bytes([1]) + nonce)
    return [x[i] + y[i] for i in range(3)]


def shard(p, ctx, measurement, nonce, rand):
    n = p.idpf.BITS
    if len(nonce) != 16 or len(rand) != 128:
        reject()
    seeds = [rand[32:64], rand[64:96]]
    seed = rand[96:]
    ks = rnd(Field64, 0, n - 1, seed, 1, ctx, nonce)
    kl = rnd(Field255, n - 1, 1, seed, 1, ctx, nonce)
    beta_inner = [[Field64(1), k] for k in ks]
    beta_leaf = [Field255(1), kl[0]]
    (ps, keys) = p.idpf.gen(measurement, beta_inner, beta_leaf, ctx, nonce, rand[:32])
    inner0 = []
    inner1 = []
    for i in range(n - 1):
        (a, b, c) = corr(Field64, 3 * i, seeds, 2, ctx, nonce)
        s = rnd(Field64, n + 2 * i, 2, seed, 1, ctx, nonce)
        inner1 = inner1 + s
        inner0 = inner0 + [ks[i] - (a + a) - s[0], a * a + b - a * ks[i] + c - s[1]]
    (a, b, c) = corr(Field255, 0, seeds, 3, ctx, nonce)
    s = rnd(Field255, n + 2 * (n - 1), 2, seed, 1, ctx, nonce)
    leaf = [[kl[0] - (a + a) - s[0], a * a + b - a * kl[0] + c - s[1]], s]
    return (ps, [(keys[0], seeds[0], inner0, leaf[0]), (keys[1], seeds[1], inner1, leaf[1])])


# -- verification

def verify_init(p, key, ctx, agg_id, agg_param, nonce, ps, share):
    (level, prefixes) = agg_param
    (idpf_key, seed, inner, leaf) = share
    requires(len(inner) == 2 * (p.idpf.BITS - 1) and len(leaf) == 2)
    if level >= 2 ** 16:
        reject()
    F = fld(p, level)
    n = len(prefixes)
    v = p.idpf.eval(agg_id, ps, idpf_key, level, prefixes, ctx, nonce)
    r = rnd(F, 0, n, key, 4, ctx, nonce + level.to_bytes(2, 'big'))
    if level < p.idpf.BITS - 1:
        (a, b, c) = rnd(F, 3 * level, 3, seed, 2, ctx, bytes([agg_id]) + nonce)
        (A, B) = (inner[2 * level], inner[2 * level + 1])
    else:
        (a, b, c) = rnd(F, 0, 3, seed, 3, ctx, bytes([agg_id]) + nonce)
        (A, B) = (leaf[0], leaf[1])
    d = [v[i][0] for i in range(n)]
    sketch = [a + sum([d[i] * r[i] for i in range(n)], F(0)), b + sum([d[i] * r[i] * r[i] for i in range(n)], F(0)),
              c + sum([v[i][1] * r[i] for i in range(n)], F(0))]
    return ((b'evaluate sketch', level, [A, B, F(agg_id)] + d), sketch)


def verify_next(p, ctx, state, message):
    (step, level, mem) = state
    if step == b'evaluate sketch':
        requires(len(mem) >= 3)
        if message is None or len(message) != 3:
            reject()
        (x, y, z) = message
        return ((b'reveal sketch', level, mem[3:]), [mem[2] * (x * x - y - z) + mem[0] * x + mem[1]])
    if step == b'reveal sketch':
        if message is not None:
            reject()
        return mem
    reject()


def shares_to_message(p, ctx, agg_param, shares):
    if len(shares) != 2 or len(shares[0]) != len(shares[1]):
        reject()
    s = [shares[0][i] + shares[1][i] for i in range(len(shares[0]))]
    if len(s) == 3:
        return s
    if len(s) == 1 and s[0] == fld(p, agg_param[0])(0):
        return None
    reject()


# -- what the two aggregators compute together

def sketched(p, key, ctx, agg_param, nonce, ps, shares):
    """Both aggregators' states and the shares of the second round."""
    (s0, x0) = p.verify_init(key, ctx, 0, agg_param, nonce, ps, shares[0])
    (s1, x1) = p.verify_init(key, ctx, 1, agg_param, nonce, ps, shares[1])
    m = p.verifier_shares_to_message(ctx, agg_param, [x0, x1])
    (s0, y0) = p.verify_next(ctx, s0, m)
    (s1, y1) = p.verify_next(ctx, s1, m)
    return ([s0, s1], [y0, y1])


def values(p, agg_param, ctx, nonce, ps, shares):
    (level, prefixes) = agg_param
    x = p.idpf.eval(0, ps, shares[0][0], level, prefixes, ctx, nonce)
    y = p.idpf.eval(1, ps, shares[1][0], level, prefixes, ctx, nonce)
    return [[x[i][0] + y[i][0], x[i][1] + y[i][1]] for i in range(len(prefixes))]


def sketch(p, ctx, measurement, nonce, rand, key, level, prefixes):
    """Whatever the shared vectors are, the combined sketch is S^2 - T + k S - U; the output shares add up to the data vector."""
    requires(len(nonce) == 16 and len(rand) == 128 and len(ctx) < 60000 and len(measurement) == p.idpf.BITS and level < 2 ** 16)
    F = fld(p, level)
    n = len(prefixes)
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    (st, y) = sketched(p, key, ctx, (level, prefixes), nonce, ps, shares)
    v = values(p, (level, prefixes), ctx, nonce, ps, shares)
    r = rnd(F, 0, n, key, 4, ctx, nonce + level.to_bytes(2, 'big'))
    k = rnd(F, level, 1, rand[96:], 1, ctx, nonce)[0]
    S = sum([v[i][0] * r[i] for i in range(n)], F(0))
    T = sum([v[i][0] * r[i] * r[i] for i in range(n)], F(0))
    U = sum([v[i][1] * r[i] for i in range(n)], F(0))
    return len(y[0]) == 1 and len(y[1]) == 1 and y[0][0] + y[1][0] == S * S - T + k * S - U and \
        st[0][0] == b'reveal sketch' and st[1][0] == b'reveal sketch' and \
        [st[0][2][i] + st[1][2][i] for i in range(n)] == [v[i][0] for i in range(n)]


def honest(p, ctx, measurement, nonce, rand, key, level, prefixes):
    """Honest reports are accepted and give shares of the indicator of the measurement's prefix."""
    requires(len(nonce) == 16 and len(rand) == 128 and len(ctx) < 60000 and len(measurement) == p.idpf.BITS and level < 2 ** 16)
    requires(distinct(prefixes) and all([len(x) == level + 1 for x in prefixes]))
    return honest_run(p, ctx, measurement, nonce, rand, key, level, prefixes)


def honest_run(p, ctx, measurement, nonce, rand, key, level, prefixes):
    ap = (level, prefixes)
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    (st, y) = sketched(p, key, ctx, ap, nonce, ps, shares)
    m = p.verifier_shares_to_message(ctx, ap, y)
    x0 = p.verify_next(ctx, st[0], m)
    x1 = p.verify_next(ctx, st[1], m)
    F = fld(p, level)
    return m is None and len(x0) == len(prefixes) and len(x1) == len(prefixes) and \
        [x0[i] + x1[i] for i in range(len(prefixes))] == [F(int(x == measurement[:level + 1])) for x in prefixes]


def honest_match(p, ctx, measurement, nonce, rand, key, level, prefixes, j):
    """As above for any number of prefixes, of which the j-th and no other is a prefix of the measurement."""
    requires(len(nonce) == 16 and len(rand) == 128 and len(ctx) < 60000 and len(measurement) == p.idpf.BITS and level < 2 ** 16)
    n = len(prefixes)
    alpha = measurement[:level + 1]
    requires(0 <= j and j < n and all([(prefixes[i] == alpha) == (i == j) for i in range(n)]))
    F = fld(p, level)
    r = rnd(F, 0, n, key, 4, ctx, nonce + level.to_bytes(2, 'big'))
    d = [F(int(x == alpha)) for x in prefixes]
    # both sums have only the j-th term
    if not induct_eq(lambda m: sum([d[i] * r[i] for i in range(m)], F(0)), lambda m: r[j] if j < m else F(0), n):
        return False
    if not induct_eq(lambda m: sum([d[i] * r[i] * r[i] for i in range(m)], F(0)), lambda m: r[j] * r[j] if j < m else F(0), n):
        return False
    return honest_run(p, ctx, measurement, nonce, rand, key, level, prefixes)


def honest_none(p, ctx, measurement, nonce, rand, key, level, prefixes):
    """As above if no candidate is a prefix of the measurement."""
    requires(len(nonce) == 16 and len(rand) == 128 and len(ctx) < 60000 and len(measurement) == p.idpf.BITS and level < 2 ** 16)
    n = len(prefixes)
    alpha = measurement[:level + 1]
    requires(all([prefixes[i] != alpha for i in range(n)]))
    F = fld(p, level)
    r = rnd(F, 0, n, key, 4, ctx, nonce + level.to_bytes(2, 'big'))
    d = [F(int(x == alpha)) for x in prefixes]
    if not induct_eq(lambda m: sum([d[i] * r[i] for i in range(m)], F(0)), lambda m: F(0), n):
        return False
    if not induct_eq(lambda m: sum([d[i] * r[i] * r[i] for i in range(m)], F(0)), lambda m: F(0), n):
        return False
    return honest_run(p, ctx, measurement, nonce, rand, key, level, prefixes)


def tampered(p, ctx, measurement, nonce, rand, key, level, prefixes, who, what, pos, delta):
    """A report changed anywhere that matters at this level is refused (up to chance)."""
    requires(len(measurement) == p.idpf.BITS and len(prefixes) > 0 and distinct(prefixes) and all([len(x) == level + 1 for x in prefixes]))
    alpha = measurement[:level + 1]
    (ps, shares) = p.shard(ctx, measurement, nonce, rand)
    (idpf_key, seed, inner, leaf) = shares[who]
    F = fld(p, level)
    at = (2 * level + pos % 2) if level < p.idpf.BITS - 1 else pos % 2
    if what == 'key':
        idpf_key = flip(idpf_key, pos % 16, delta)
    if what == 'seed':
        seed = flip(seed, pos % 32, delta)
    if what == 'corr' and level < p.idpf.BITS - 1:
        inner = [inner[i] + F(delta) if i == at else inner[i] for i in range(len(inner))]
    if what == 'corr' and level == p.idpf.BITS - 1:
        leaf = [leaf[i] + F(delta) if i == at else leaf[i] for i in range(2)]
    if what == 'payload':
        requires(alpha in prefixes)
        ps = [(ps[k][0], ps[k][1], [x + F(delta) if j == pos % 2 else x for (j, x) in enumerate(ps[k][2])]) if k == level else ps[k] for k in range(len(ps))]
    if what == 'seedcw':
        requires(alpha in prefixes)
        k = pos % (level + 1)
        ps = [(flip(ps[i][0], pos % 16, delta), ps[i][1], ps[i][2]) if i == k else ps[i] for i in range(len(ps))]
    shares = [(idpf_key, seed, inner, leaf) if j == who else shares[j] for j in range(2)]
    return rejects(lambda: finish(p, key, ctx, (level, prefixes), nonce, ps, shares))


def flip(b, i, d):
    return b[:i] + bytes([b[i] ^ d]) + b[i + 1:]


def finish(p, key, ctx, ap, nonce, ps, shares):
    (st, y) = sketched(p, key, ctx, ap, nonce, ps, shares)
    m = p.verifier_shares_to_message(ctx, ap, y)
    return [p.verify_next(ctx, st[0], m), p.verify_next(ctx, st[1], m)]


# -- aggregation

def agg_init(p, agg_param):
    (level, prefixes) = agg_param
    return [fld(p, level)(0) for x in prefixes]


def add(x, y):
    if len(x) != len(y):
        reject()
    return [x[i] + y[i] for i in range(len(x))]


def agg_update(p, agg_param, agg, out):
    return add(agg, out)


def merge(p, agg_param, shares):
    r = agg_init(p, agg_param)
    for x in shares:
        r = add(r, x)
    return r


def unshard(p, agg_param, shares, num):
    return [x.int() for x in merge(p, agg_param, shares)]


def update_commutes(p, agg_param, agg, x, y):
    requires(len(x) == len(agg) and len(y) == len(agg))
    return p.agg_update(agg_param, p.agg_update(agg_param, agg, x), y) == p.agg_update(agg_param, p.agg_update(agg_param, agg, y), x)


def update_is_merge(p, agg_param, x, y):
    requires(len(x) == len(agg_param[1]) and len(y) == len(agg_param[1]))
    return p.merge(agg_param, [x, y]) == p.agg_update(agg_param, x, y) and \
        p.agg_update(agg_param, p.agg_init(agg_param), x) == x


def merge_splits(p, agg_param, xs, ys):
    """Merging two partial aggregates is aggregating everything."""
    n = len(agg_param[1])
    requires(all([len(x) == n for x in xs]) and all([len(y) == n for y in ys]))
    return p.merge(agg_param, [p.merge(agg_param, xs), p.merge(agg_param, ys)]) == p.merge(agg_param, xs + ys)


# -- codecs

def enc_vec(vec):
    return b''.join([x.int().to_bytes(x.ENCODED_SIZE, 'little') for x in vec])


def dec_vec(F, data):
    e = F.ENCODED_SIZE
    if len(data) % e != 0:
        reject()
    ints = [int.from_bytes(data[e * i:e * (i + 1)], 'little') for i in range(len(data) // e)]
    if not all([v < F.MODULUS for v in ints]):
        reject()
    return [F(v) for v in ints]


def encode_vec(p, vec):
    return enc_vec(vec)


def encode_verifier_message(p, message):
    return b'' if message is None else enc_vec(message)


def decode_at_param(p, agg_param, data):
    return dec_vec(fld(p, agg_param[0]), data)


def decode_at_state(p, state, data):
    return dec_vec(fld(p, state[1]), data)


def decode_verifier_message(p, state, data):
    if len(data) == 0:
        return None
    return dec_vec(fld(p, state[1]), data)


def encode_input_share(p, share):
    (key, seed, inner, leaf) = share
    return key + seed + enc_vec(inner) + enc_vec(leaf)


def decode_input_share(p, agg_id, data):
    k = 16 * (p.idpf.BITS - 1)
    if len(data) != 48 + k + 64:
        reject()
    return (data[:16], data[16:48], dec_vec(Field64, data[48:48 + k]), dec_vec(Field255, data[48 + k:48 + k + 64]))


def rt_input_share(p, agg_id, share):
    requires(len(share[0]) == 16 and len(share[1]) == 32 and len(share[2]) == 2 * (p.idpf.BITS - 1) and len(share[3]) == 2)
    return p.decode_input_share(agg_id, p.encode_input_share(share)) == share


def canon_input_share(p, agg_id, data):
    if rejects(lambda: p.decode_input_share(agg_id, data)):
        return True
    return p.encode_input_share(p.decode_input_share(agg_id, data)) == data


def rt_agg_share(p, agg_param, vec):
    return p.decode_agg_share(agg_param, p.encode_agg_share(vec)) == vec and p.decode_out_share(agg_param, p.encode_out_share(vec)) == vec


def rt_verifier_share(p, state, vec):
    return p.decode_verifier_share(state, p.encode_verifier_share(vec)) == vec


def rt_verifier_message(p, state, vec):
    """The messages of the protocol: three field elements, or none."""
    return p.decode_verifier_message(state, p.encode_verifier_message(vec)) == vec


def rt_none(p, state):
    return p.decode_verifier_message(state, p.encode_verifier_message(None)) is None


def construct(bits):
    if bits <= 0:
        reject()
    return (6, 16, 2, 2, 32, 128, bits, 2)


def t_construct(bits):
    p = Poplar1(bits)
    return (p.ID, p.NONCE_SIZE, p.SHARES, p.ROUNDS, p.VERIFY_KEY_SIZE, p.RAND_SIZE, p.idpf.BITS, p.idpf.VALUE_LEN)

