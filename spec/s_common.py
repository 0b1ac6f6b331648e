"""Contracts of vdaf_poc.common."""
from vdaf_poc.common import concat as real_concat
from vdaf_poc.common import front as real_front
from vdaf_poc.common import gen_rand
from vdaf_poc.common import from_be_bytes as r_from_be
from vdaf_poc.common import from_le_bytes as r_from_le
from vdaf_poc.common import to_be_bytes as r_to_be
from vdaf_poc.common import to_le_bytes as r_to_le
from vlib import reject, rejects


def byte(number):
    if number < 0 or number >= 256:
        reject()
    return bytes([number])


def zeros(length):
    if length < 0:
        reject()
    return bytes([0] * length)


def gen_rand_len(length):
    return len(gen_rand(length)) == length


def xor(left, right):
    return bytes([left[i] ^ right[i] for i in range(min(len(left), len(right)))])


def vec_add(left, right):
    if len(left) != len(right):
        reject()
    return [left[i] + right[i] for i in range(len(left))]


def vec_sub(left, right):
    if len(left) != len(right):
        reject()
    return [left[i] - right[i] for i in range(len(left))]


def vec_neg(vec):
    return [-vec[i] for i in range(len(vec))]


def to_le_bytes(val, length):
    if val < 0 or val >= 2 ** (8 * length):
        reject()
    return val.to_bytes(length, 'little')


def to_be_bytes(val, length):
    if val < 0 or val >= 2 ** (8 * length):
        reject()
    return val.to_bytes(length, 'little')[::-1]


def from_le_bytes(encoded):
    return int.from_bytes(encoded, 'little')


def from_be_bytes(encoded):
    return int.from_bytes(encoded[::-1], 'little')


def concat(parts):
    out = b''
    for p in parts:
        out = out + p
    return out


def front(length, vec):
    if length > len(vec):
        reject()
    return (vec[:length], vec[length:])


def next_power_of_2(n):
    if n <= 0:
        reject()
    return 2 ** (n - 1).bit_length()


def assert_power_of_2(n):
    if n <= 0:
        reject()
    k = (n - 1).bit_length()
    if n != 2 ** k:
        reject()
    return k


def bitrev(k, n):
    if n < 0 or n >= 2 ** k:
        reject()
    r = 0
    for j in range(k):
        if (n >> j) % 2 == 1:
            r += 2 ** (k - 1 - j)
    return r


def concat_front(left, right):
    """Splitting a concatenation gives the parts back."""
    (a, b) = real_front(len(left), real_concat([left, right]))
    return a == left and b == right


def le_inverse(val, length):
    if val < 0 or val >= 2 ** (8 * length):
        return rejects(lambda: r_to_le(val, length))
    enc = r_to_le(val, length)
    return len(enc) == length and r_from_le(enc) == val


def be_inverse(val, length):
    if val < 0 or val >= 2 ** (8 * length):
        return rejects(lambda: r_to_be(val, length))
    enc = r_to_be(val, length)
    return len(enc) == length and r_from_be(enc) == val


def le_surjective(encoded):
    return r_to_le(r_from_le(encoded), len(encoded)) == encoded


def be_surjective(encoded):
    return r_to_be(r_from_be(encoded), len(encoded)) == encoded


def format_dst(algo_class, algo, usage):
    if algo_class < 0 or algo_class >= 2 ** 8 or algo < 0 or algo >= 2 ** 32 or usage < 0 or usage >= 2 ** 16:
        reject()
    return bytes([18, algo_class]) + algo.to_bytes(4, 'big') + usage.to_bytes(2, 'big')
