"""Contracts of vdaf_poc.vdaf_poplar1: aggregation parameters."""
from vlib import reject, requires


def is_valid(v, agg_param, previous):
    (level, prefixes) = agg_param
    for i in range(len(prefixes) - 1):
        if not (prefixes[i] < prefixes[i + 1]):
            return False
    if len(previous) == 0:
        return True
    (last_level, last_prefixes) = previous[len(previous) - 1]
    if not (last_level < level):
        return False
    for p in prefixes:
        if p[:last_level + 1] not in last_prefixes:
            return False
    return True


def prio3_is_valid(v, agg_param, previous):
    return len(previous) == 0


def get_ancestor(index, level):
    return index[:level + 1]


# -- the wire format of aggregation parameters

def pack(prefix, n):
    """n bytes holding the bits of the prefix, most significant first, zero padded."""
    bits = [int(b) for b in prefix] + [0] * (8 * n - len(prefix))
    return bytes([sum([bits[8 * j + k] * 2 ** (7 - k) for k in range(8)]) for j in range(n)])


def encode_agg_param(v, agg_param):
    (level, prefixes) = agg_param
    if level < 0 or level >= 2 ** 16 or len(prefixes) >= 2 ** 32:
        reject()
    out = level.to_bytes(2, 'big') + len(prefixes).to_bytes(4, 'big')
    n = (level + 8) // 8
    for p in prefixes:
        requires(len(p) == level + 1)
        out = out + pack(p, n)
    return out


def decode_agg_param(v, encoded):
    if len(encoded) < 6:
        reject()
    level = int.from_bytes(encoded[:2], 'big')
    m = int.from_bytes(encoded[2:6], 'big')
    n = (level + 8) // 8
    if len(encoded) != 6 + n * m:
        reject()
    body = encoded[6:]
    prefixes = []
    for i in range(m):
        # the low 8 * n - (level + 1) bits of the last byte are unused
        if body[i * n + n - 1] % 2 ** (8 * n - (level + 1)) != 0:
            reject()
        prefixes.append(tuple([(body[i * n + k // 8] >> (7 - k % 8)) & 1 == 1 for k in range(level + 1)]))
    return (level, tuple(prefixes))


def agg_param_roundtrip(v, agg_param):
    (level, prefixes) = agg_param
    return v.decode_agg_param(v.encode_agg_param(agg_param)) == agg_param


def agg_param_canonical(v, encoded):
    try:
        p = v.decode_agg_param(encoded)
    except Exception:
        return True
    return v.encode_agg_param(p) == encoded


def wellformed(v, agg_param):
    (level, prefixes) = agg_param
    return level >= 0 and level < 2 ** 16 and len(prefixes) < 2 ** 32 and all(len(p) == level + 1 for p in prefixes)
