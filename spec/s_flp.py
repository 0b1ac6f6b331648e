"""Contracts of the measurement types and validity circuits of flp_bbcggi19."""
from vdaf_poc.flp_bbcggi19 import Count as RCount
from vdaf_poc.flp_bbcggi19 import Histogram as RHistogram
from vdaf_poc.flp_bbcggi19 import MultihotCountVec as RMultihot
from vdaf_poc.flp_bbcggi19 import Sum as RSum
from vdaf_poc.flp_bbcggi19 import SumVec as RSumVec
from vdaf_poc.flp_bbcggi19 import decode_range_checked_int as r_decode_rc
from vdaf_poc.flp_bbcggi19 import encode_range_checked_int as r_encode_rc
from vlib import by_induction, induct_eq, reject, requires, uf_vec


# -- range-checked integers

def nbits(m):
    return m.bit_length()


def last_weight(m):
    return m - (2 ** (m.bit_length() - 1) - 1)


def encode_rc(F, value, m):
    requires(m > 0 and m < F.MODULUS)
    if value < 0 or value > m:
        reject()
    bits = m.bit_length()
    if value < 2 ** (bits - 1):
        return [F((value // 2 ** l) % 2) for l in range(bits - 1)] + [F(0)]
    rest = value - last_weight(m)
    return [F((rest // 2 ** l) % 2) for l in range(bits - 1)] + [F(1)]


def t_decode_rc(F, m, encoded):
    return r_decode_rc(F, encoded, m)


def c_decode_rc(F, encoded, m):
    return decode_rc(F, m, encoded)


def decode_rc(F, m, encoded):
    requires(m > 0 and m < F.MODULUS)
    bits = m.bit_length()
    if len(encoded) < bits:
        reject()
    return sum([F(2 ** l) * encoded[l] for l in range(bits - 1)], F(0)) + F(last_weight(m)) * encoded[bits - 1]


def bits_sum(F, v, n):
    """The bits of v weighted by powers of two add up to v mod 2**n."""
    return induct_eq(lambda k: sum([F(2 ** l) * F((v // 2 ** l) % 2) for l in range(k)], F(0)), lambda k: F(v % 2 ** k), n)


def rc_roundtrip(F, m, value):
    """Every value in range encodes to 0/1 elements that decode to it."""
    requires(m > 0 and m < F.MODULUS)
    requires(0 <= value and value <= m)
    rest = value if value < 2 ** (m.bit_length() - 1) else value - last_weight(m)
    enc = r_encode_rc(F, value, m)
    return (bits_sum(F, rest, m.bit_length() - 1) and len(enc) == m.bit_length() and all([x == F(0) or x == F(1) for x in enc])
            and r_decode_rc(F, enc, m) == F(value))


def rc_sound(F, m, bits01):
    """Every 0/1 vector decodes into 0..m."""
    requires(m > 0 and m < F.MODULUS)
    requires(len(bits01) == m.bit_length())
    n = m.bit_length() - 1
    enc = [F(1) if b else F(0) for b in bits01]

    def part(k):
        return sum([2 ** l if bits01[l] else 0 for l in range(k)])

    def fpart(k):
        return sum([F(2 ** l) * enc[l] for l in range(k)], F(0))
    if not by_induction(lambda k: 0 <= part(k) and part(k) < 2 ** k and fpart(k) == F(part(k)), n):
        return False
    d = r_decode_rc(F, enc, m)
    x = part(n) + (last_weight(m) if bits01[n] else 0)
    return 0 <= x and x <= m and d == F(x) and F(x).int() == x


def rc_linear(F, m, a, b):
    """Decoding is linear."""
    requires(m > 0 and m < F.MODULUS)
    requires(len(a) == m.bit_length() and len(b) == len(a))
    s = [a[i] + b[i] for i in range(len(a))]
    return r_decode_rc(F, s, m) == r_decode_rc(F, a, m) + r_decode_rc(F, b, m)


# -- measurement types: encode

def t_count_encode(F, x):
    return RCount(F).encode(x)


def count_encode(F, x):
    if x != 0 and x != 1:
        reject()
    return [F(x)]


def t_hist_encode(F, length, chunk, x):
    return RHistogram(F, length, chunk).encode(x)


def hist_encode(F, length, chunk, x):
    requires(length > 0 and chunk > 0)
    if x < 0 or x >= length:
        reject()
    return [F(1) if i == x else F(0) for i in range(length)]


def t_multihot_encode(F, length, mw, chunk, x):
    return RMultihot(F, length, mw, chunk).encode(x)


def multihot_encode(F, length, mw, chunk, x):
    requires(length > 0 and chunk > 0 and 0 < mw and mw <= length and length < F.MODULUS)
    if len(x) != length:
        reject()
    w = sum([1 if b else 0 for b in x])
    return [F(1) if b else F(0) for b in x] + encode_rc(F, w, mw)


def t_sumvec_encode(F, length, m, chunk, x):
    return RSumVec(F, length, m, chunk).encode(x)


def sumvec_encode(F, length, m, chunk, x):
    requires(length > 0 and chunk > 0 and 0 < m and 2 ** m.bit_length() < F.MODULUS)
    if len(x) != length:
        reject()
    out = []
    for v in x:
        out = out + encode_rc(F, v, m)
    return out


def t_sum_encode(F, m, x):
    return RSum(F, m).encode(x)


def sum_encode(F, m, x):
    requires(0 < m and 2 ** m.bit_length() < F.MODULUS)
    return encode_rc(F, x, m)


# -- truncate

def t_count_truncate(F, meas):
    return RCount(F).truncate(meas)


def count_truncate(F, meas):
    if len(meas) != 1:
        reject()
    return [meas[0]]


def t_hist_truncate(F, length, chunk, meas):
    return RHistogram(F, length, chunk).truncate(meas)


def hist_truncate(F, length, chunk, meas):
    requires(length > 0 and chunk > 0)
    return [meas[i] for i in range(length)]


def t_multihot_truncate(F, length, mw, chunk, meas):
    return RMultihot(F, length, mw, chunk).truncate(meas)


def multihot_truncate(F, length, mw, chunk, meas):
    requires(length > 0 and chunk > 0 and 0 < mw and mw <= length and length < F.MODULUS)
    return [meas[i] for i in range(length)]


def t_sumvec_truncate(F, length, m, chunk, meas):
    return RSumVec(F, length, m, chunk).truncate(meas)


def sumvec_truncate(F, length, m, chunk, meas):
    requires(length > 0 and chunk > 0 and 0 < m and 2 ** m.bit_length() < F.MODULUS)
    b = m.bit_length()
    return [decode_rc(F, m, meas[i * b:i * b + b]) for i in range(length)]


def t_sum_truncate(F, m, meas):
    return RSum(F, m).truncate(meas)


def sum_truncate(F, m, meas):
    requires(0 < m and 2 ** m.bit_length() < F.MODULUS)
    return [decode_rc(F, m, meas)]


# -- decode

def t_count_decode(F, out, n):
    return RCount(F).decode(out, n)


def t_sum_decode(F, m, out, n):
    return RSum(F, m).decode(out, n)


def scalar_decode(F, out, n):
    return out[0].int()


def sum_decode(F, m, out, n):
    requires(2 ** m.bit_length() < F.MODULUS)
    return out[0].int()


def t_hist_decode(F, length, chunk, out, n):
    return RHistogram(F, length, chunk).decode(out, n)


def t_multihot_decode(F, length, mw, chunk, out, n):
    return RMultihot(F, length, mw, chunk).decode(out, n)


def t_sumvec_decode(F, length, m, chunk, out, n):
    return RSumVec(F, length, m, chunk).decode(out, n)


def hist_decode(F, length, chunk, out, n):
    return [out[i].int() for i in range(length)]


def multihot_decode(F, length, mw, chunk, out, n):
    requires(mw <= length and length < F.MODULUS)
    return [out[i].int() for i in range(length)]


def sumvec_decode(F, length, m, chunk, out, n):
    requires(2 ** m.bit_length() < F.MODULUS)
    return [out[i].int() for i in range(length)]


# -- a batch: decode(sum of truncate(encode(x))) is the aggregate

def total(F, n, vecs):
    acc = [F(0)] * n
    for v in vecs:
        acc = [acc[i] + v[i] for i in range(n)]
    return acc


def batch_count(F, xs):
    c = RCount(F)
    return c.decode(total(F, c.OUTPUT_LEN, [c.truncate(c.encode(x)) for x in xs]), len(xs)) == sum(xs)


def batch_sum(F, m, xs):
    c = RSum(F, m)
    requires(sum(xs) < F.MODULUS)
    return c.decode(total(F, c.OUTPUT_LEN, [c.truncate(c.encode(x)) for x in xs]), len(xs)) == sum(xs)


def batch_hist(F, length, chunk, xs):
    c = RHistogram(F, length, chunk)
    got = c.decode(total(F, c.OUTPUT_LEN, [c.truncate(c.encode(x)) for x in xs]), len(xs))
    return got == [sum([1 for x in xs if x == i]) for i in range(length)]


def batch_multihot(F, length, mw, chunk, xs):
    c = RMultihot(F, length, mw, chunk)
    got = c.decode(total(F, c.OUTPUT_LEN, [c.truncate(c.encode(x)) for x in xs]), len(xs))
    return got == [sum([1 for x in xs if x[i]]) for i in range(length)]


def batch_sumvec(F, length, m, chunk, xs):
    c = RSumVec(F, length, m, chunk)
    requires(all([sum([x[i] for x in xs]) < F.MODULUS for i in range(length)]))
    got = c.decode(total(F, c.OUTPUT_LEN, [c.truncate(c.encode(x)) for x in xs]), len(xs))
    return got == [sum([x[i] for x in xs]) for i in range(length)]


# -- validity circuits (genuine gadgets)

def chunked_range_check(F, chunk, meas, jr, ns):
    """Sum over all entries x at (chunk i, place j) of r_i**(j+1) * x * (x - 1/ns)."""
    calls = (len(meas) + chunk - 1) // chunk
    inv = F(ns).inv()
    return sum([sum([jr[i] ** (j + 1) * padded(F, meas, i * chunk + j) * (padded(F, meas, i * chunk + j) - inv)
                     for j in range(chunk)], F(0)) for i in range(calls)], F(0))


def padded(F, meas, k):
    return meas[k] if k < len(meas) else F(0)


def t_count_eval(F, meas, jr, ns):
    return RCount(F).eval(meas, jr, ns)


def count_eval(F, meas, jr, ns):
    if len(meas) != 1 or len(jr) != 0:
        reject()
    return [meas[0] * meas[0] - meas[0]]


def t_hist_eval(F, length, chunk, meas, jr, ns):
    return RHistogram(F, length, chunk).eval(meas, jr, ns)


def hist_eval(F, length, chunk, meas, jr, ns):
    requires(ns >= 1 and ns < F.MODULUS)
    if length <= 0 or chunk <= 0 or len(meas) != length or len(jr) != (length + chunk - 1) // chunk:
        reject()
    return [chunked_range_check(F, chunk, meas, jr, ns), sum(meas, F(0)) - F(ns).inv()]


def t_multihot_eval(F, length, mw, chunk, meas, jr, ns):
    return RMultihot(F, length, mw, chunk).eval(meas, jr, ns)


def multihot_eval(F, length, mw, chunk, meas, jr, ns):
    requires(ns >= 1 and ns < F.MODULUS)
    if length <= 0 or mw <= 0 or mw > length or chunk <= 0 or length >= F.MODULUS:
        reject()
    n = length + mw.bit_length()
    if len(meas) != n or len(jr) != (n + chunk - 1) // chunk:
        reject()
    return [chunked_range_check(F, chunk, meas, jr, ns),
            sum(meas[:length], F(0)) - decode_rc(F, mw, meas[length:])]


def t_sumvec_eval(F, length, m, chunk, meas, jr, ns):
    return RSumVec(F, length, m, chunk).eval(meas, jr, ns)


def sumvec_eval(F, length, m, chunk, meas, jr, ns):
    requires(ns >= 1 and ns < F.MODULUS)
    if length <= 0 or m <= 0 or chunk <= 0 or 2 ** m.bit_length() >= F.MODULUS:
        reject()
    n = length * m.bit_length()
    if len(meas) != n or len(jr) != (n + chunk - 1) // chunk:
        reject()
    return [chunked_range_check(F, chunk, meas, jr, ns)]


def t_sum_eval(F, m, meas, jr, ns):
    return RSum(F, m).eval(meas, jr, ns)


def sum_eval(F, m, meas, jr, ns):
    if m <= 0 or 2 ** m.bit_length() >= F.MODULUS:
        reject()
    if len(meas) != m.bit_length() or len(jr) != 0:
        reject()
    return [x * x - x for x in meas]


# -- completeness, soundness and gadget calls of the circuits

def range_check_zero(F, chunk, bits, jr):
    """The chunked range check vanishes on every 0/1 vector."""
    meas = [F(1) if b else F(0) for b in bits]
    requires(len(jr) == (len(meas) + chunk - 1) // chunk)
    return chunked_range_check(F, chunk, meas, jr, 1) == F(0)


def hist_complete(F, length, chunk, x, jr):
    c = RHistogram(F, length, chunk)
    requires(0 <= x and x < length and len(jr) == c.JOINT_RAND_LEN)
    return c.eval(c.encode(x), jr, 1) == [F(0), F(0)]


def multihot_complete(F, length, mw, chunk, x, jr):
    c = RMultihot(F, length, mw, chunk)
    requires(len(x) == length and sum([1 if b else 0 for b in x]) <= mw and len(jr) == c.JOINT_RAND_LEN)
    return c.eval(c.encode(x), jr, 1) == [F(0), F(0)]


def sumvec_complete(F, length, m, chunk, x, jr):
    c = RSumVec(F, length, m, chunk)
    requires(len(x) == length and all([0 <= v and v <= m for v in x]) and len(jr) == c.JOINT_RAND_LEN)
    return c.eval(c.encode(x), jr, 1) == [F(0)]


def sum_complete(F, m, x):
    requires(2 ** m.bit_length() < F.MODULUS)
    c = RSum(F, m)
    requires(0 <= x and x <= m)
    out = c.eval(c.encode(x), [], 1)
    return len(out) == c.EVAL_OUTPUT_LEN and all([y == F(0) for y in out])


def count_complete(F, x):
    c = RCount(F)
    requires(x == 0 or x == 1)
    return c.eval(c.encode(x), [], 1) == [F(0)]


def draw(F, n, salt):
    import random
    r = random.Random(salt)
    return [F(r.randrange(F.MODULUS)) for _ in range(n)]


def sound(c, meas, salt, is_valid):
    """Zero for all joint randomness iff valid (three independent draws)."""
    F = c.field
    zero = all([all([y == F(0) for y in c.eval(meas, draw(F, c.JOINT_RAND_LEN, salt + str(k)), 1)]) for k in range(3)])
    return zero == is_valid


def all01(F, meas):
    return all([x == F(0) or x == F(1) for x in meas])


def hist_sound(F, length, chunk, meas, salt):
    return sound(RHistogram(F, length, chunk), meas, salt, all01(F, meas) and sum([x.int() for x in meas]) == 1)


def multihot_sound(F, length, mw, chunk, meas, salt):
    ok = all01(F, meas)
    if ok:
        k = mw.bit_length()
        w = sum([(2 ** l if l < k - 1 else last_weight(mw)) * meas[length + l].int() for l in range(k)])
        ok = w == sum([x.int() for x in meas[:length]])
    return sound(RMultihot(F, length, mw, chunk), meas, salt, ok)


def sumvec_sound(F, length, m, chunk, meas, salt):
    return sound(RSumVec(F, length, m, chunk), meas, salt, all01(F, meas))


def sum_sound(F, m, meas, salt):
    return sound(RSum(F, m), meas, salt, all01(F, meas))


def count_sound(F, meas, salt):
    return sound(RCount(F), meas, salt, all01(F, meas))


class Rec:
    """A gadget that records its inputs and answers from an unknown function."""

    def __init__(self, arity, degree):
        self.ARITY = arity
        self.DEGREE = degree
        self.seen = []

    def eval(self, field, inp):
        self.seen.append(inp)
        return uf_vec(field, 1, 'gadget', inp)[0]


def record(c, meas, jr, ns):
    g = Rec(c.GADGETS[0].ARITY, c.GADGETS[0].DEGREE)
    calls = c.GADGET_CALLS[0]
    c.GADGETS = [g]
    out = c.eval(meas, jr, ns)
    return (out, g.seen, calls, g.ARITY)


def chunk_inputs(F, chunk, meas, jr, ns, i):
    out = []
    for j in range(chunk):
        x = padded(F, meas, i * chunk + j)
        out = out + [jr[i] ** (j + 1) * x, x - F(ns).inv()]
    return out


def chunk_record(F, chunk, meas, jr, ns):
    n = (len(meas) + chunk - 1) // chunk
    return [chunk_inputs(F, chunk, meas, jr, ns, i) for i in range(n)]


def g(F, inp):
    return uf_vec(F, 1, 'gadget', inp)[0]


def t_hist_record(F, length, chunk, meas, jr, ns):
    return record(RHistogram(F, length, chunk), meas, jr, ns)


def hist_record(F, length, chunk, meas, jr, ns):
    requires(length > 0 and chunk > 0 and len(meas) == length and len(jr) == (length + chunk - 1) // chunk)
    seen = chunk_record(F, chunk, meas, jr, ns)
    return ([sum([g(F, x) for x in seen], F(0)), sum(meas, F(0)) - F(ns).inv()], seen, len(seen), 2 * chunk)


def t_multihot_record(F, length, mw, chunk, meas, jr, ns):
    return record(RMultihot(F, length, mw, chunk), meas, jr, ns)


def multihot_record(F, length, mw, chunk, meas, jr, ns):
    requires(length > 0 and chunk > 0 and mw <= length and length < F.MODULUS)
    requires(len(meas) == length + mw.bit_length() and len(jr) == (len(meas) + chunk - 1) // chunk)
    seen = chunk_record(F, chunk, meas, jr, ns)
    return ([sum([g(F, x) for x in seen], F(0)), sum(meas[:length], F(0)) - decode_rc(F, mw, meas[length:])], seen, len(seen), 2 * chunk)


def t_sumvec_record(F, length, m, chunk, meas, jr, ns):
    return record(RSumVec(F, length, m, chunk), meas, jr, ns)


def sumvec_record(F, length, m, chunk, meas, jr, ns):
    requires(length > 0 and chunk > 0 and 2 ** m.bit_length() < F.MODULUS)
    requires(len(meas) == length * m.bit_length() and len(jr) == (len(meas) + chunk - 1) // chunk)
    seen = chunk_record(F, chunk, meas, jr, ns)
    return ([sum([g(F, x) for x in seen], F(0))], seen, len(seen), 2 * chunk)


def t_sum_record(F, m, meas, ns):
    return record(RSum(F, m), meas, [], ns)


def sum_record(F, m, meas, ns):
    requires(2 ** m.bit_length() < F.MODULUS and len(meas) == m.bit_length())
    seen = [[x] for x in meas]
    return ([g(F, x) for x in seen], seen, len(seen), 1)


def t_count_record(F, meas, ns):
    return record(RCount(F), meas, [], ns)


def count_record(F, meas, ns):
    requires(len(meas) == 1)
    seen = [[meas[0], meas[0]]]
    return ([g(F, seen[0]) - meas[0]], seen, 1, 2)
