"""Contracts of vdaf_poc.idpf_bbcggi21."""
from s_prio3 import AnyXof
from s_xof import aes_stream, ts_stream
from vdaf_poc.field import Field64, Field255
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.idpf_bbcggi21 import pack_bits as r_pack
from vdaf_poc.idpf_bbcggi21 import unpack_bits as r_unpack
from vdaf_poc.xof import XofFixedKeyAes128, XofTurboShake128
from vlib import reject, rejects, requires, uf_bool, uf_bytes, uf_vec


class AnyIdpf(IdpfBBCGGI21):
    """The IDPF over an arbitrary seed expansion and conversion (see extend and convert below)."""

    def extend(self, level, seed, ctx, nonce):
        s = [uf_bytes(16, 'left', level, seed, ctx, nonce), uf_bytes(16, 'right', level, seed, ctx, nonce)]
        t = [uf_bool('leftbit', level, seed, ctx, nonce), uf_bool('rightbit', level, seed, ctx, nonce)]
        return (s, t)

    def convert(self, level, seed, ctx, nonce):
        f = Field64 if level < self.BITS - 1 else Field255
        return (uf_bytes(16, 'next', level, seed, ctx, nonce), uf_vec(f, self.VALUE_LEN, 'value', level, seed, ctx, nonce))


def any_idpf(value_len, bits):
    return AnyIdpf(value_len, bits)


def idpf(value_len, bits):
    return IdpfBBCGGI21(value_len, bits)


# -- the derivations

def tag(usage, ctx):
    return bytes([18, 1, 0, 0, 0, 0, 0, usage]) + ctx


def clear_low(b):
    return bytes([b[0] - b[0] % 2]) + b[1:]


def stream(p, level, seed, dst, nonce, a, b):
    return aes_stream(seed, dst, nonce, a, b) if level < p.BITS - 1 else ts_stream(seed, dst, nonce, a, b)


def extend(p, level, seed, ctx, nonce):
    out = stream(p, level, seed, tag(0, ctx), nonce, 0, 32)
    return ([clear_low(out[:16]), clear_low(out[16:])], [out[0] % 2 == 1, out[16] % 2 == 1])


class OverXof(IdpfBBCGGI21):
    """The IDPF over an arbitrary stream; which stream is used is the contract of current_xof."""

    def current_xof(self, level, seed, dst, nonce):
        return AnyXof(seed, dst, bytes([1 if level < self.BITS - 1 else 2]) + nonce)


def over_xof(value_len, bits):
    return OverXof(value_len, bits)


def convert_any(p, level, seed, ctx, nonce):
    x = AnyXof(seed, tag(1, ctx), bytes([1 if level < p.BITS - 1 else 2]) + nonce)
    s = x.next(16)
    return (s, x.next_vec(Field64 if level < p.BITS - 1 else Field255, p.VALUE_LEN))


def current_xof(p, level, seed, dst, nonce):
    return XofFixedKeyAes128(seed, dst, nonce) if level < p.BITS - 1 else XofTurboShake128(seed, dst, nonce)


def convert(p, level, seed, ctx, nonce):
    x = XofFixedKeyAes128(seed, tag(1, ctx), nonce) if level < p.BITS - 1 else XofTurboShake128(seed, tag(1, ctx), nonce)
    s = x.next(16)
    return (s, x.next_vec(Field64 if level < p.BITS - 1 else Field255, p.VALUE_LEN))


# -- the point function

def well_formed(p, alpha, beta_inner, beta_leaf, nonce, rand):
    return len(alpha) == p.BITS and len(beta_inner) == p.BITS - 1 and len(beta_leaf) == p.VALUE_LEN and \
        all([len(b) == p.VALUE_LEN for b in beta_inner]) and len(nonce) == 16 and len(rand) == 32


def gen_accepts(p, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
    """Key generation refuses exactly the malformed arguments."""
    return rejects(lambda: p.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)) == (not well_formed(p, alpha, beta_inner, beta_leaf, nonce, rand))


def gen_shape(p, alpha, beta_inner, beta_leaf, ctx, nonce, rand):
    requires(well_formed(p, alpha, beta_inner, beta_leaf, nonce, rand))
    (ps, keys) = p.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)
    return keys == [rand[:16], rand[16:]] and len(ps) == p.BITS and \
        all([len(cw[0]) == 16 and len(cw[1]) == 2 and len(cw[2]) == p.VALUE_LEN for cw in ps])


def programmed(p, alpha, beta_inner, beta_leaf, level, prefix):
    """What the shares of this node add up to."""
    F = Field64 if level < p.BITS - 1 else Field255
    b = beta_inner[level] if level < p.BITS - 1 else beta_leaf
    return b if prefix == alpha[:level + 1] else [F(0)] * p.VALUE_LEN


def point(p, alpha, beta_inner, beta_leaf, ctx, nonce, rand, level, prefix):
    requires(well_formed(p, alpha, beta_inner, beta_leaf, nonce, rand) and len(prefix) == level + 1)
    (ps, keys) = p.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)
    x = p.eval(0, ps, keys[0], level, [prefix], ctx, nonce)
    y = p.eval(1, ps, keys[1], level, [prefix], ctx, nonce)
    return len(x) == 1 and len(y) == 1 and len(x[0]) == p.VALUE_LEN and len(y[0]) == p.VALUE_LEN and \
        [x[0][i] + y[0][i] for i in range(p.VALUE_LEN)] == programmed(p, alpha, beta_inner, beta_leaf, level, prefix)


def distinct(prefixes):
    return all([prefixes[i] != prefixes[j] for i in range(len(prefixes)) for j in range(i)])


def points(p, alpha, beta_inner, beta_leaf, ctx, nonce, rand, level, prefixes):
    requires(well_formed(p, alpha, beta_inner, beta_leaf, nonce, rand) and all([len(x) == level + 1 for x in prefixes]) and distinct(prefixes))
    (ps, keys) = p.gen(alpha, beta_inner, beta_leaf, ctx, nonce, rand)
    x = p.eval(0, ps, keys[0], level, prefixes, ctx, nonce)
    y = p.eval(1, ps, keys[1], level, prefixes, ctx, nonce)
    return len(x) == len(prefixes) and len(y) == len(prefixes) and \
        all([[x[k][i] + y[k][i] for i in range(p.VALUE_LEN)] == programmed(p, alpha, beta_inner, beta_leaf, level, prefixes[k]) for k in range(len(prefixes))])


def eval_alone(p, agg_id, ps, key, level, prefixes, ctx, nonce):
    """Each output depends on its own prefix only and is in its place."""
    requires(distinct(prefixes) and all([len(x) == level + 1 for x in prefixes]))
    out = p.eval(agg_id, ps, key, level, prefixes, ctx, nonce)
    return out == [p.eval(agg_id, ps, key, level, [x], ctx, nonce)[0] for x in prefixes]


def eval_accepts(p, agg_id, ps, key, level, prefixes, ctx, nonce):
    return rejects(lambda: p.eval(agg_id, ps, key, level, prefixes, ctx, nonce)) == (not (
        0 <= agg_id and agg_id < 2 and 0 <= level and level < p.BITS and distinct(prefixes) and all([len(x) == level + 1 for x in prefixes])))


# -- one step of the evaluation, for any level of a tree of any depth

def xor16(a, b):
    return bytes([a[i] ^ b[i] for i in range(16)])


def step(p, seed, ctrl, cw, level, bit, ctx, nonce):
    """The node below (seed, ctrl) on the side of the bit."""
    (s, t) = p.extend(level, seed, ctx, nonce)
    s1 = xor16(s[bit], cw[0]) if ctrl else s[bit]
    t1 = (t[bit] != cw[1][bit]) if ctrl else t[bit]
    (n, w) = p.convert(level, s1, ctx, nonce)
    return (n, t1, [w[i] + cw[2][i] for i in range(p.VALUE_LEN)] if t1 else w)


def eval_next(p, seed, ctrl, cw, level, bit, ctx, nonce):
    requires(len(cw[2]) == p.VALUE_LEN)
    return step(p, seed, ctrl, cw, level, bit, ctx, nonce)


def current_field(p, level):
    return Field64 if level < p.BITS - 1 else Field255


def is_prefix(p, x, y, level):
    return x == tuple([y[i] for i in range(min(level + 1, len(y)))])


def construct(value_len, bits):
    if value_len <= 0 or bits <= 0:
        reject()
    return (value_len, bits, 2, 16, 32, 16)


def t_construct(value_len, bits):
    p = IdpfBBCGGI21(value_len, bits)
    return (p.VALUE_LEN, p.BITS, p.SHARES, p.KEY_SIZE, p.RAND_SIZE, p.NONCE_SIZE)


def at_inner(p, seed, ctrl, cw, level, bit, ctx, nonce):
    return level < p.BITS - 1


def at_leaf(p, seed, ctrl, cw, level, bit, ctx, nonce):
    return level == p.BITS - 1


def lv_inner(p, level, seed, ctx, nonce):
    return level < p.BITS - 1


def lv_leaf(p, level, seed, ctx, nonce):
    return level >= p.BITS - 1


# -- codecs

def pack_bits(bits):
    """Bit i is bit i % 8 of byte i // 8."""
    n = (len(bits) + 7) // 8
    padded = [int(b) for b in bits] + [0] * (8 * n - len(bits))
    return bytes([sum([padded[8 * k + j] * 2 ** j for j in range(8)]) for k in range(n)])


def unpack_bits(data, n):
    requires(n >= 1)
    if len(data) != (n + 7) // 8:
        reject()
    if data[len(data) - 1] >= 2 ** ((n - 1) % 8 + 1):
        reject()
    return [data[i // 8] // 2 ** (i % 8) % 2 == 1 for i in range(n)]


def rt_bits(bits, q, r):
    """For 8 * q + r bits."""
    out = r_unpack(r_pack(bits), len(bits))
    return len(out) == len(bits) and all([out[8 * k + j] == bits[8 * k + j] for k in range(q) for j in range(8)]) and \
        all([out[8 * q + j] == bits[8 * q + j] for j in range(r)])


def canon_bits(data, q, r):
    n = 8 * q + r
    if rejects(lambda: r_unpack(data, n)):
        return True
    return r_pack(r_unpack(data, n)) == data


def enc_vec(F, vec):
    return b''.join([x.int().to_bytes(F.ENCODED_SIZE, 'little') for x in vec])


def encode_public_share(p, ps):
    requires(len(ps) == p.BITS)
    return pack_bits([c for cw in ps for c in cw[1]]) + b''.join([cw[0] for cw in ps]) + \
        b''.join([enc_vec(Field64, cw[2]) for cw in ps[:-1]]) + enc_vec(Field255, ps[-1][2])


def dec_vec(F, data, n):
    e = F.ENCODED_SIZE
    ints = [int.from_bytes(data[e * i:e * (i + 1)], 'little') for i in range(n)]
    if not all([v < F.MODULUS for v in ints]):
        reject()
    return [F(v) for v in ints]


def decode_public_share(p, data):
    n = p.BITS
    v = p.VALUE_LEN
    c = (2 * n + 7) // 8
    if len(data) != c + 16 * n + 8 * v * (n - 1) + 32 * v:
        reject()
    bits = unpack_bits(data[:c], 2 * n)
    s = data[c + 16 * n:]
    leaf = dec_vec(Field255, s[8 * v * (n - 1):], v)
    return [(data[c + 16 * k:c + 16 * (k + 1)], (bits[2 * k], bits[2 * k + 1]), dec_vec(Field64, s[8 * v * k:8 * v * (k + 1)], v)) for k in range(n - 1)] + \
        [(data[c + 16 * (n - 1):c + 16 * n], (bits[2 * n - 2], bits[2 * n - 1]), leaf)]


def rt_public_share(p, ps):
    requires(len(ps) == p.BITS and all([len(cw[0]) == 16 and len(cw[1]) == 2 and len(cw[2]) == p.VALUE_LEN for cw in ps]))
    return p.decode_public_share(p.encode_public_share(ps)) == ps


def canon_public_share(p, data):
    if rejects(lambda: p.decode_public_share(data)):
        return True
    return p.encode_public_share(p.decode_public_share(data)) == data
