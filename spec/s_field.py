"""Contracts of vdaf_poc.field: elements and vectors."""
from vlib import reject, requires

PRIME = {
    'Field64': 2 ** 64 - 2 ** 32 + 1,
    'Field96': 2 ** 64 * 4294966555 + 1,
    'Field128': 2 ** 66 * 4611686018427387897 + 1,
    'Field255': 2 ** 255 - 19,
}


# -- single elements (run on the real operators; a, b are canonical integers)

def el_add(F, p, a, b):
    return (F(a) + F(b)).int() == (a + b) % p


def el_sub(F, p, a, b):
    return (F(a) - F(b)).int() == (a - b) % p


def el_neg(F, p, a):
    return (-F(a)).int() == (-a) % p


def el_mul(F, p, a, b):
    return (F(a) * F(b)).int() == (a * b) % p


def el_pow(F, p, a, n):
    return (F(a) ** n).int() == pow(a, n, p)


def el_inv(F, p, a):
    requires(a != 0)
    return (F(a) * F(a).inv()).int() == 1


def el_eq(F, p, a, b):
    return (F(a) == F(b)) == (a == b) and (F(a) != F(b)) == (a != b)


def el_new(F, p, v):
    if v <= -p or v >= p:
        reject()
    return v % p


def make(F, p, v):
    """What the code does when an element is made from an integer."""
    return F(v).int()


def el_consts(F, p, e):
    return F.MODULUS == p and F.ENCODED_SIZE == e and p < 256 ** e


def el_gen(F, p, k):
    """The generator has order exactly 2**k."""
    g = F.gen()
    if F.GEN_ORDER != 2 ** k:
        return False
    return (g ** (2 ** k)).int() == 1 and (g ** (2 ** (k - 1))).int() == p - 1


def el_root(F, p, n):
    """nth_root(n) has order exactly 2**n and roots are compatible."""
    w = F.nth_root(n)
    ok = (w ** (2 ** n)).int() == 1
    if n > 0:
        ok = ok and (w ** (2 ** (n - 1))).int() == p - 1 and (w * w).int() == F.nth_root(n - 1).int()
    return ok


def zeros(F, length):
    return [F(0) for _ in range(length)]


# -- vectors

def encode_vec(F, vec):
    out = b''
    for x in vec:
        out = out + x.int().to_bytes(F.ENCODED_SIZE, 'little')
    return out


def decode_vec(F, encoded):
    e = F.ENCODED_SIZE
    if len(encoded) % e != 0:
        reject()
    out = []
    for i in range(len(encoded) // e):
        x = int.from_bytes(encoded[i * e:i * e + e], 'little')
        if x >= F.MODULUS:
            reject()
        out.append(F(x))
    return out


def roundtrip_vec(F, vec):
    return F.decode_vec(F.encode_vec(vec)) == vec


def rand_vec_len(F, length):
    v = F.rand_vec(length)
    return len(v) == length


def canonical_bytes(F, encoded):
    """If decoding accepts, re-encoding gives the input bytes."""
    try:
        v = F.decode_vec(encoded)
    except Exception:
        return True
    return F.encode_vec(v) == encoded
