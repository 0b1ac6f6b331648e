"""Primitives available in specifications (native meaning)."""


class Skip(Exception):
    """Input outside the precondition."""


def requires(c):
    """Precondition of the contract: the rest only matters when c holds."""
    if not c:
        raise Skip()


def reject():
    """The operation must refuse (raise)."""
    raise ValueError('reject')


def rejects(fn):
    """True iff calling fn raises."""
    try:
        fn()
    except Skip:
        raise
    except Exception:
        return True
    return False


# Unknown functions.  Proofs hold for every function; natively an arbitrary
# (hash-based) one is used.

def _key(v):
    if hasattr(v, 'MODULUS') and not isinstance(v, type):
        return '%s(%d)' % (type(v).__name__, v.val)
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, (list, tuple)):
        return '[' + ','.join(_key(x) for x in v) + ']'
    if isinstance(v, (bytes, bytearray)):
        return 'b' + bytes(v).hex()
    if isinstance(v, Op):
        return v.key
    if hasattr(v, 'uf_key'):
        return v.uf_key()
    return repr(v)


def _hash(name, args):
    import hashlib
    return hashlib.sha256((name + '|' + '|'.join(_key(a) for a in args)).encode()).digest()


class Op:
    """Opaque value."""

    def __init__(self, key):
        self.key = key

    def __eq__(self, o):
        return isinstance(o, Op) and o.key == self.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return '<%s>' % self.key[:12]


def uf_obj(name, *args):
    return Op(name + _hash(name, args).hex()[:24])


def uf_bool(name, *args):
    return _hash(name, args)[0] % 2 == 0


def uf_rare(name, *args):
    """An unknown truth value that is natively true one time in 16."""
    return _hash(name, args)[0] % 16 == 0


def uf_int(lo, hi, name, *args):
    return lo + int.from_bytes(_hash(name, args), 'big') % (hi - lo)


def uf_bytes(n, name, *args):
    import hashlib
    return hashlib.shake_128(_hash(name, args)).digest(n)


def uf_vec(F, n, name, *args):
    import random
    r = random.Random(_hash(name, args))
    return [F(r.randrange(F.MODULUS)) for _ in range(n)]


# Trusted dependencies: unknown functions in proofs, the real ones natively.

def turboshake128(domain, msg, n):
    from Cryptodome.Hash import TurboSHAKE128
    return TurboSHAKE128.new(domain=domain, data=msg).read(n)


def aes128(key, block):
    from Cryptodome.Cipher import AES
    return AES.new(key, AES.MODE_ECB).encrypt(block)


def tape(salt, a, b):
    """Bytes a..b of an arbitrary infinite stream (natively: salt, then zeros)."""
    return (salt[a:b] + bytes(max(0, b - a)))[:max(0, b - a)]


def same_state(x, y):
    """The two XOF objects are in the same state (natively: agree on what follows)."""
    return x.next(77) == y.next(77)


# Induction.

def induct_eq(lhs, rhs, n):
    return all([lhs(k) == rhs(k) for k in range(n + 1)])


def by_induction(P, n):
    return all([P(k) for k in range(n + 1)])
