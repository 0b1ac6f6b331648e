"""Contracts of vdaf_poc.xof."""
from vdaf_poc.xof import Xof, XofFixedKeyAes128, XofTurboShake128
from vlib import aes128, reject, requires, same_state, tape, turboshake128


# -- the streams

def ts_stream(seed, dst, binder, a, b):
    """Bytes a..b of the TurboSHAKE128-based XOF."""
    if len(dst) >= 2 ** 16 or len(seed) >= 256:
        reject()
    return turboshake128(1, ts_frame(seed, dst, binder), b)[a:]


def ts_frame(seed, dst, binder):
    return len(dst).to_bytes(2, 'little') + dst + len(seed).to_bytes(1, 'little') + seed + binder


def aes_frame(dst, binder):
    return len(dst).to_bytes(2, 'little') + dst + binder


def ts_framing(seed, dst, binder):
    """What is absorbed determines seed, tag and binder."""
    requires(len(dst) < 2 ** 16 and len(seed) < 256)
    m = ts_frame(seed, dst, binder)
    n = int.from_bytes(m[:2], 'little')
    k = m[2 + n]
    return m[2:2 + n] == dst and m[3 + n:3 + n + k] == seed and m[3 + n + k:] == binder


def aes_framing(dst, binder):
    requires(len(dst) < 2 ** 16)
    m = aes_frame(dst, binder)
    n = int.from_bytes(m[:2], 'little')
    return m[2:2 + n] == dst and m[2 + n:] == binder


def aes_block(key, seed, i):
    """The i-th 16-byte block of the fixed-key stream."""
    x = bytes([seed[j] ^ i.to_bytes(16, 'little')[j] for j in range(16)])
    sigma = x[8:] + bytes([x[8 + j] ^ x[j] for j in range(8)])
    y = aes128(key, sigma)
    return bytes([y[j] ^ sigma[j] for j in range(16)])


def aes_stream(seed, dst, binder, a, b):
    if len(seed) != 16 or len(dst) >= 2 ** 16:
        reject()
    key = turboshake128(2, aes_frame(dst, binder), 16)
    requires(b < 16 * 2 ** 128)
    return b''.join([aes_block(key, seed, i) for i in range((b + 15) // 16)])[a:b]


def run_ts(seed, dst, binder, a, b):
    """Two consecutive reads."""
    x = XofTurboShake128(seed, dst, binder)
    return (x.next(a), x.next(b))


def two_ts(seed, dst, binder, a, b):
    return (ts_stream(seed, dst, binder, 0, a), ts_stream(seed, dst, binder, a, a + b))


def run_aes(seed, dst, binder, a, b):
    x = XofFixedKeyAes128(seed, dst, binder)
    return (x.next(a), x.next(b))


def two_aes(seed, dst, binder, a, b):
    return (aes_stream(seed, dst, binder, 0, a), aes_stream(seed, dst, binder, a, a + b))


def split_ts(seed, dst, binder, a, b):
    """Reading a then b bytes leaves the object as reading a + b bytes does."""
    requires(len(dst) < 2 ** 16 and len(seed) < 256)
    x = XofTurboShake128(seed, dst, binder)
    y = XofTurboShake128(seed, dst, binder)
    x.next(a)
    x.next(b)
    y.next(a + b)
    return same_state(x, y)


def split_aes(seed, dst, binder, a, b):
    requires(len(dst) < 2 ** 16 and len(seed) == 16 and a + b < 2 ** 132)
    x = XofFixedKeyAes128(seed, dst, binder)
    y = XofFixedKeyAes128(seed, dst, binder)
    x.next(a)
    x.next(b)
    y.next(a + b)
    return same_state(x, y)


def derive_ts(cls, seed, dst, binder):
    return ts_stream(seed, dst, binder, 0, 32)


def derive_aes(cls, seed, dst, binder):
    return aes_stream(seed, dst, binder, 0, 16)


# -- sampling field elements from an arbitrary stream

class TapeXof(Xof):
    """An XOF whose stream is arbitrary."""
    SEED_SIZE = 16

    def __init__(self, seed, dst, binder):
        self.salt = seed
        self.pos = 0

    def next(self, length):
        r = tape(self.salt, self.pos, self.pos + length)
        self.pos = self.pos + length
        return r


def mask_bits(F):
    """Number of bits of the modulus (no field modulus is a power of two)."""
    return F.MODULUS.bit_length()


def next_vec(x, F, length):
    e = F.ENCODED_SIZE
    out = []
    k = 0
    while len(out) < length:
        v = int.from_bytes(tape(x.salt, x.pos + e * k, x.pos + e * k + e), 'little') % 2 ** mask_bits(F)
        k = k + 1
        if v < F.MODULUS:
            out.append(F(v))
    x.pos = x.pos + e * k
    return out


def split_vec(x, y, F, m, n):
    """Sampling m then n elements is sampling m + n elements."""
    u = x.next_vec(F, m)
    u = u + x.next_vec(F, n)
    v = y.next_vec(F, m + n)
    return u == v and x.pos == y.pos


def expand_tape(cls, F, seed, dst, binder, length):
    x = TapeXof(seed, dst, binder)
    return next_vec(x, F, length)


def wrong_size(seed, dst, binder, a, b):
    return len(seed) != 16
