"""Contracts of the proof system of flp_bbcggi19 (prove, query, decide)."""
from vdaf_poc.common import vec_add as r_vec_add
from vdaf_poc.field import Lagrange as RLagrange
from vdaf_poc.flp import run_flp as r_run_flp
from vdaf_poc.flp_bbcggi19 import Count as RCount
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19 as RFlp
from vdaf_poc.flp_bbcggi19 import Histogram as RHistogram
from vdaf_poc.flp_bbcggi19 import Mul as RMul
from vdaf_poc.flp_bbcggi19 import MultihotCountVec as RMultihot
from vdaf_poc.flp_bbcggi19 import ParallelSum as RParallelSum
from vdaf_poc.flp_bbcggi19 import PolyEval as RPolyEval
from vdaf_poc.flp_bbcggi19 import ProveGadget as RProveGadget
from vdaf_poc.flp_bbcggi19 import QueryGadget as RQueryGadget
from vdaf_poc.flp_bbcggi19 import Sum as RSum
from vdaf_poc.flp_bbcggi19 import SumVec as RSumVec
from vdaf_poc.flp_bbcggi19 import Valid as RValid
from vdaf_poc.flp_bbcggi19 import gadget_poly_len as r_gadget_poly_len
from vdaf_poc.flp_bbcggi19 import wire_poly_len as r_wire_poly_len
from s_poly import at_roots, coeff, roots, value_at
from vlib import reject, rejects, requires, uf_vec


class TwoGadgets(RValid):
    """A test circuit with two gadgets of different arity, degree and call count."""
    MEAS_LEN = 2
    JOINT_RAND_LEN = 1
    OUTPUT_LEN = 2
    EVAL_OUTPUT_LEN = 2

    def __init__(self, field):
        self.field = field
        self.GADGETS = [RMul(), RPolyEval([0, 2, 0, 1], 2)]
        self.GADGET_CALLS = [1, 2]

    def encode(self, measurement):
        return measurement

    def truncate(self, meas):
        return meas

    def decode(self, output, num_measurements):
        return output

    def eval(self, meas, joint_rand, num_shares):
        x = self.GADGETS[0].eval(self.field, [meas[0], meas[0]])
        y = self.GADGETS[1].eval(self.field, [meas[0]])
        z = self.GADGETS[1].eval(self.field, [meas[1]])
        inv = self.field(num_shares).inv()
        return [joint_rand[0] * (x - meas[0]), y + z - self.field(6) * inv]


def circuit(F, kind, args):
    if kind == 'count':
        return RCount(F)
    if kind == 'sum':
        return RSum(F, args[0])
    if kind == 'hist':
        return RHistogram(F, args[0], args[1])
    if kind == 'sumvec':
        return RSumVec(F, args[0], args[1], args[2])
    if kind == 'multihot':
        return RMultihot(F, args[0], args[1], args[2])
    return TwoGadgets(F)


def flp_of(F, kind, args):
    return RFlp(circuit(F, kind, args))


def pow2_above(n):
    return 2 ** (n - 1).bit_length()


def wire_len(calls):
    return pow2_above(calls + 1)


def points(flp, query_rand):
    """The query points, one per gadget."""
    n = len(flp.valid.GADGETS)
    return query_rand[len(query_rand) - n:]


def on_domain(flp, query_rand):
    """Is some query point one of the evaluation points of its gadget?"""
    F = flp.field
    pts = points(flp, query_rand)
    return any([pts[i] ** wire_len(flp.valid.GADGET_CALLS[i]) == F(1) for i in range(len(pts))])


def lens_ok(flp, proof, verifier):
    return len(proof) == flp.PROOF_LEN and len(verifier) == flp.VERIFIER_LEN


def meas_complete(flp, meas, pr, jr, qr):
    proof = flp.prove(meas, pr, jr)
    if len(proof) != flp.PROOF_LEN:
        return False
    if on_domain(flp, qr):
        return rejects(lambda: flp.query(meas, proof, qr, jr, 1))
    v = flp.query(meas, proof, qr, jr, 1)
    return len(v) == flp.VERIFIER_LEN and flp.decide(v)


def complete(F, kind, args, bits, pr, jr, qr):
    """Every vector of zeros and ones that is a valid encoding is accepted."""
    flp = flp_of(F, kind, args)
    meas = [F(1) if b else F(0) for b in bits]
    if kind == 'hist':
        requires(sum([1 if b else 0 for b in bits]) == 1)
    if kind == 'multihot':
        n, mw = args[0], args[1]
        k = mw.bit_length()
        w = sum([(2 ** l if l < k - 1 else mw - (2 ** (k - 1) - 1)) if bits[n + l] else 0 for l in range(k)])
        requires(sum([1 if b else 0 for b in bits[:n]]) == w)
    if kind == 'two':
        requires(bits[0] and bits[1])
    return meas_complete(flp, meas, pr, jr, qr)


def shares_of(whole, others):
    """Additive shares: the given ones, and the last makes the sum right."""
    last = whole
    for o in others:
        last = [last[i] - o[i] for i in range(len(whole))]
    return others + [last]


def linear(F, kind, args, n, meas, proof, meas_sh, proof_sh, qr, jr):
    """Querying shares gives shares of the verifier message of the whole."""
    flp = flp_of(F, kind, args)
    requires(not on_domain(flp, qr))
    whole = flp.query(meas, proof, qr, jr, 1)
    ms, ps = shares_of(meas, meas_sh), shares_of(proof, proof_sh)
    acc = [F(0) for _ in range(len(whole))]
    for i in range(n):
        acc = r_vec_add(acc, flp.query(ms[i], ps[i], qr, jr, n))
    return acc == whole and len(whole) == flp.VERIFIER_LEN


def domain_refused(F, kind, args, meas, proof, qr, jr, k, g):
    """A query point on the evaluation domain of any gadget is refused."""
    flp = flp_of(F, kind, args)
    n = len(flp.valid.GADGETS)
    p = wire_len(flp.valid.GADGET_CALLS[g])
    qr = list(qr)
    qr[len(qr) - n + g] = roots(F, p)[k % p]
    return rejects(lambda: flp.query(meas, proof, qr, jr, 1))


def gadget_apply(F, g, inp):
    return g.eval(F, inp)


def layout(flp):
    """Offsets of each gadget's values in the verifier message."""
    out, at = [], 1
    for g in flp.valid.GADGETS:
        out.append(at)
        at += g.ARITY + 1
    return out


def decide(F, kind, args, verifier):
    """Accepted iff the reduced output is zero and every gadget value fits."""
    flp = flp_of(F, kind, args)
    if len(verifier) != flp.VERIFIER_LEN:
        reject()
    if verifier[0] != F(0):
        return False
    offs = layout(flp)
    for i in range(len(offs)):
        a = offs[i]
        n = flp.valid.GADGETS[i].ARITY
        if gadget_value(F, kind, args, i, verifier[a:a + n]) != verifier[a + n]:
            return False
    return True


def gadget_value(F, kind, args, i, w):
    """What the gadgets of the circuits compute, written out."""
    if kind == 'count':
        return w[0] * w[1]
    if kind == 'sum':
        return w[0] * w[0] - w[0]
    if kind == 'two':
        return w[0] * w[1] if i == 0 else F(2) * w[0] + w[0] * w[0] * w[0]
    return sum([w[2 * j] * w[2 * j + 1] for j in range(len(w) // 2)], F(0))


def t_decide(F, kind, args, verifier):
    return flp_of(F, kind, args).decide(verifier)


# -- what prove and query compute, written out

class Tape:
    """A gadget that records its calls."""

    def __init__(self, g, answers):
        self.ARITY = g.ARITY
        self.DEGREE = g.DEGREE
        self.inner = g
        self.answers = answers
        self.calls = []

    def eval(self, field, inp):
        self.calls.append(inp)
        if self.answers is None:
            return self.inner.eval(field, inp)
        return self.answers[len(self.calls) - 1]


def coeffs_from_values(F, v):
    """Coefficients of the polynomial with values v at the len(v)-th roots of unity."""
    n = len(v)
    r = roots(F, n)
    inv = F(n).inv()
    return [inv * sum([v[j] * r[(n - i * j % n) % n] for j in range(n)], F(0)) for i in range(n)]


def poly_times(F, p, q):
    return [sum([coeff(F, p, j) * coeff(F, q, i - j) for j in range(len(p))], F(0)) for i in range(len(p) + len(q) - 1)]


def gadget_on_polys(F, kind, args, i, polys):
    """The gadget applied to polynomials (coefficients)."""
    n = len(polys[0])
    if kind == 'count' or kind == 'two' and i == 0:
        return poly_times(F, polys[0], polys[1])
    if kind == 'sum':
        sq = poly_times(F, polys[0], polys[0])
        return [sq[j] - coeff(F, polys[0], j) for j in range(len(sq))]
    if kind == 'two':
        cu = poly_times(F, polys[0], poly_times(F, polys[0], polys[0]))
        return [cu[j] + F(2) * coeff(F, polys[0], j) for j in range(len(cu))]
    acc = [F(0) for _ in range(2 * n - 1)]
    for j in range(len(polys) // 2):
        pr = poly_times(F, polys[2 * j], polys[2 * j + 1])
        acc = [acc[k] + pr[k] for k in range(len(acc))]
    return acc


def tapes(circ, answers):
    circ.GADGETS = [Tape(circ.GADGETS[i], None if answers is None else answers[i]) for i in range(len(circ.GADGETS))]
    return circ


def wires_of(F, tape, seeds, calls):
    p = wire_len(calls)
    return [[seeds[j]] + [c[j] for c in tape.calls] + [F(0) for _ in range(p - 1 - len(tape.calls))] for j in range(tape.ARITY)]


def prove(F, kind, args, meas, pr, jr):
    """Wire seeds, then the first values of the gadget polynomial, per gadget."""
    c = tapes(circuit(F, kind, args), None)
    c.eval(meas, jr, 1)
    out, at = [], 0
    for i in range(len(c.GADGETS)):
        t = c.GADGETS[i]
        seeds = pr[at:at + t.ARITY]
        at += t.ARITY
        polys = [coeffs_from_values(F, w) for w in wires_of(F, t, seeds, c.GADGET_CALLS[i])]
        g = gadget_on_polys(F, kind, args, i, polys)
        r = roots(F, pow2_above(len(g)))
        out = out + seeds + [value_at(F, g, r[k]) for k in range(len(g))]
    return out


def t_prove(F, kind, args, meas, pr, jr):
    return flp_of(F, kind, args).prove(meas, pr, jr)


def interp_at_roots(F, v, n):
    """Coefficients of the polynomial of degree < len(v) whose values at the
    first len(v) of the n-th roots of unity are v (Lagrange's formula)."""
    r = roots(F, n)
    k = len(v)
    acc = [F(0) for _ in range(k)]
    for i in range(k):
        b = [F(1)]
        den = F(1)
        for j in range(k):
            if j != i:
                b = poly_times(F, b, [-r[j], F(1)])
                den = den * (r[i] - r[j])
        s = v[i] * den.inv()
        acc = [acc[m] + s * coeff(F, b, m) for m in range(k)]
    return acc


def query(F, kind, args, meas, proof, qr, jr, ns):
    """Reduced output, then per gadget the wire polynomials and the claimed
    gadget polynomial at the query point."""
    c = circuit(F, kind, args)
    flp = RFlp(c)
    if on_domain(flp, qr):
        reject()
    ng = len(c.GADGETS)
    seeds, gps, answers, at = [], [], [], 0
    for i in range(ng):
        g = c.GADGETS[i]
        p = wire_len(c.GADGET_CALLS[i])
        n = g.DEGREE * (p - 1) + 1
        seeds.append(proof[at:at + g.ARITY])
        gp = interp_at_roots(F, proof[at + g.ARITY:at + g.ARITY + n], pow2_above(n))
        at += g.ARITY + n
        gps.append(gp)
        r = roots(F, p)
        answers.append([value_at(F, gp, r[k + 1]) for k in range(c.GADGET_CALLS[i])])
    c = tapes(c, answers)
    out = c.eval(meas, jr, ns)
    if len(out) == 1:
        v = out[0]
    else:
        v = sum([qr[i] * out[i] for i in range(len(out))], F(0))
    ver = [v]
    for i in range(ng):
        t = qr[len(qr) - ng + i]
        tape = c.GADGETS[i]
        ver = ver + [value_at(F, coeffs_from_values(F, w), t) for w in wires_of(F, tape, seeds[i], c.GADGET_CALLS[i])] + [value_at(F, gps[i], t)]
    return ver


def t_query(F, kind, args, meas, proof, qr, jr, ns):
    return flp_of(F, kind, args).query(meas, proof, qr, jr, ns)


def refuse_lengths(F, kind, args, meas, pr, jr, qr, proof, ver):
    """Inputs of a wrong length are refused by every operation."""
    flp = flp_of(F, kind, args)
    ok = True
    if len(meas) != flp.MEAS_LEN or len(pr) != flp.PROVE_RAND_LEN or len(jr) != flp.JOINT_RAND_LEN:
        ok = ok and rejects(lambda: flp.prove(meas, pr, jr))
    if len(meas) != flp.MEAS_LEN or len(proof) != flp.PROOF_LEN or len(qr) != flp.QUERY_RAND_LEN or len(jr) != flp.JOINT_RAND_LEN:
        ok = ok and rejects(lambda: flp.query(meas, proof, qr, jr, 1))
    if len(ver) != flp.VERIFIER_LEN:
        ok = ok and rejects(lambda: flp.decide(ver))
    return ok


# -- what a wrong proof or measurement changes

def reduced(F, out, qr):
    if len(out) == 1:
        return out[0]
    return sum([qr[i] * out[i] for i in range(len(out))], F(0))


def verdict_is_output(F, kind, args, meas, pr, jr, qr):
    """With an honest proof, any measurement is accepted iff its reduced circuit
    output is zero."""
    flp = flp_of(F, kind, args)
    requires(not on_domain(flp, qr))
    out = circuit(F, kind, args).eval(meas, jr, 1)
    ver = flp.query(meas, flp.prove(meas, pr, jr), qr, jr, 1)
    return ver[0] == reduced(F, out, qr) and flp.decide(ver) == (ver[0] == F(0))


def positions(flp):
    """(gadget, kind of entry, index) of each entry of a proof."""
    out = []
    for i in range(len(flp.valid.GADGETS)):
        g = flp.valid.GADGETS[i]
        n = g.DEGREE * (wire_len(flp.valid.GADGET_CALLS[i]) - 1) + 1
        out = out + [(i, 0, j) for j in range(g.ARITY)] + [(i, 1, j) for j in range(n)]
    return out


def unit_vec(F, n, i):
    return [F(1) if k == i else F(0) for k in range(n)]


def tamper_at(F, flp, meas, pr, jr, qr, d, at):
    (gi, which, j) = positions(flp)[at]
    proof = flp.prove(meas, pr, jr)
    good = flp.query(meas, proof, qr, jr, 1)
    bad_proof = [proof[k] + d if k == at else proof[k] for k in range(len(proof))]
    bad = flp.query(meas, bad_proof, qr, jr, 1)
    g = flp.valid.GADGETS[gi]
    p = wire_len(flp.valid.GADGET_CALLS[gi])
    t = points(flp, qr)[gi]
    base = layout(flp)[gi]
    if which == 0:
        # a wire seed: that wire moves by d times a nonzero polynomial of degree < p
        b = coeffs_from_values(F, unit_vec(F, p, 0))
        moved = base + j
    else:
        n = g.DEGREE * (p - 1) + 1
        b = interp_at_roots(F, unit_vec(F, n, j), pow2_above(n))
        moved = base + g.ARITY
    want = [good[k] + d * value_at(F, b, t) if k == moved else good[k] for k in range(len(good))]
    nonzero = any([x != F(0) for x in b])
    return nonzero and [bad[k] for k in range(1, len(bad))] == [want[k] for k in range(1, len(want))]


def tamper(F, kind, args, meas, pr, jr, qr, d):
    """Changing one entry of an honest proof changes exactly one wire or gadget
    value, by the change times a fixed nonzero polynomial of bounded degree in
    the query point."""
    flp = flp_of(F, kind, args)
    requires(not on_domain(flp, qr))
    return all([tamper_at(F, flp, meas, pr, jr, qr, d, at) for at in range(flp.PROOF_LEN)])


def tamper_rejected(F, kind, args, meas, pr, jr, qr, d, at):
    """If the changed gadget value differs, the verdict is rejection."""
    flp = flp_of(F, kind, args)
    requires(not on_domain(flp, qr))
    (gi, which, j) = positions(flp)[at]
    requires(which == 1)
    p = wire_len(flp.valid.GADGET_CALLS[gi])
    n = flp.valid.GADGETS[gi].DEGREE * (p - 1) + 1
    b = interp_at_roots(F, unit_vec(F, n, j), pow2_above(n))
    requires(d * value_at(F, b, points(flp, qr)[gi]) != F(0))
    proof = flp.prove(meas, pr, jr)
    bad = [proof[k] + d if k == at else proof[k] for k in range(len(proof))]
    return not flp.decide(flp.query(meas, bad, qr, jr, 1))


def valid01(F, kind, args, meas):
    """Is the vector a valid encoding?"""
    if kind == 'two':
        return False
    if not all([x == F(0) or x == F(1) for x in meas]):
        return False
    v = [x.int() for x in meas]
    if kind == 'hist':
        return sum(v) == 1
    if kind == 'multihot':
        n, mw = args[0], args[1]
        k = mw.bit_length()
        return sum([(2 ** l if l < k - 1 else mw - (2 ** (k - 1) - 1)) * v[n + l] for l in range(k)]) == sum(v[:n])
    return True


def run_verdict(F, kind, args, meas, n, salt):
    """run_flp on n shares accepts exactly the valid vectors (random coins)."""
    import random
    r = random.Random(salt)
    flp = flp_of(F, kind, args)
    draw = lambda k: [F(r.randrange(F.MODULUS)) for _ in range(k)]
    ok = valid01(F, kind, args, meas)
    if r_run_flp(flp, meas, n) != ok:
        return False
    # the same by hand, with explicit shares and coins
    pr, jr, qr = draw(flp.PROVE_RAND_LEN), draw(flp.JOINT_RAND_LEN), draw(flp.QUERY_RAND_LEN)
    proof = flp.prove(meas, pr, jr)
    ms = shares_of(meas, [draw(flp.MEAS_LEN) for _ in range(n - 1)])
    ps = shares_of(proof, [draw(flp.PROOF_LEN) for _ in range(n - 1)])
    ver = [F(0)] * flp.VERIFIER_LEN
    for i in range(n):
        ver = [a + b for a, b in zip(ver, flp.query(ms[i], ps[i], qr, jr, n))]
    if ver != flp.query(meas, proof, qr, jr, 1) or flp.decide(ver) != ok:
        return False
    # one changed entry of the proof, at a random place
    k = r.randrange(flp.PROOF_LEN)
    bad = list(proof)
    bad[k] += F(r.randrange(1, F.MODULUS))
    if flp.decide(flp.query(meas, bad, qr, jr, 1)):
        return False
    # one changed entry of the verifier message
    k = r.randrange(flp.VERIFIER_LEN)
    bad = list(ver)
    bad[k] += F(r.randrange(1, F.MODULUS))
    return not flp.decide(bad)


# -- any size of the circuits

def up(a, b):
    return (a + b - 1) // b


def mk(F, kind, a, b, c):
    """A circuit of any size; a, b, c are its parameters (unused ones ignored)."""
    if kind == 'count':
        return RCount(F)
    if kind == 'sum':
        return RSum(F, b)
    if kind == 'hist':
        return RHistogram(F, a, c)
    if kind == 'sumvec':
        return RSumVec(F, a, b, c)
    return RMultihot(F, a, b, c)


def params_ok(F, kind, a, b, c):
    if kind == 'count':
        return True
    if kind == 'sum':
        return b > 0 and 2 ** b.bit_length() < F.MODULUS
    if kind == 'hist':
        return a > 0 and c > 0
    if kind == 'sumvec':
        return a > 0 and b > 0 and c > 0 and 2 ** b.bit_length() < F.MODULUS
    return a > 0 and b > 0 and b <= a and c > 0 and a < F.MODULUS


def shape(kind, a, b, c):
    """Measurement, joint randomness, output, circuit output, gadget arity, calls."""
    if kind == 'count':
        return (1, 0, 1, 1, 2, 1)
    if kind == 'sum':
        n = b.bit_length()
        return (n, 0, 1, n, 1, n)
    if kind == 'hist':
        k = up(a, c)
        return (a, k, a, 2, 2 * c, k)
    if kind == 'sumvec':
        n = a * b.bit_length()
        k = up(n, c)
        return (n, k, a, 1, 2 * c, k)
    n = a + b.bit_length()
    k = up(n, c)
    return (n, k, a, 2, 2 * c, k)


def sizes(F, kind, a, b, c):
    """Advertised lengths: measurement, output, joint, prove and query
    randomness, proof, verifier message."""
    if not params_ok(F, kind, a, b, c):
        reject()
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    q = 1 + eo if eo > 1 else 1
    return (n, o, j, ar, q, ar + 2 * (2 ** k.bit_length() - 1) + 1, 1 + ar + 1)


def t_sizes(F, kind, a, b, c):
    f = RFlp(mk(F, kind, a, b, c))
    return (f.MEAS_LEN, f.OUTPUT_LEN, f.JOINT_RAND_LEN, f.PROVE_RAND_LEN, f.QUERY_RAND_LEN, f.PROOF_LEN, f.VERIFIER_LEN)


def circ(F, kind, a, b, c):
    if not params_ok(F, kind, a, b, c):
        reject()
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    return (n, j, o, eo, 1, ar, 2, 1, k)


def t_circ(F, kind, a, b, c):
    v = mk(F, kind, a, b, c)
    return (v.MEAS_LEN, v.JOINT_RAND_LEN, v.OUTPUT_LEN, v.EVAL_OUTPUT_LEN, len(v.GADGETS), v.GADGETS[0].ARITY, v.GADGETS[0].DEGREE,
            len(v.GADGET_CALLS), v.GADGET_CALLS[0])


def gadget_any(F, kind, w):
    if kind == 'count':
        return w[0] * w[1]
    if kind == 'sum':
        return w[0] * w[0] - w[0]
    return sum([w[2 * j] * w[2 * j + 1] for j in range(len(w) // 2)], F(0))


def decide_any(F, kind, a, b, c, ver):
    """Whatever the size: accepted iff the reduced output is zero and the gadget
    applied to the wire values gives the gadget value."""
    requires(params_ok(F, kind, a, b, c))
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    if len(ver) != ar + 2:
        reject()
    return ver[0] == F(0) and gadget_any(F, kind, ver[1:1 + ar]) == ver[1 + ar]


def t_decide_any(F, kind, a, b, c, ver):
    return RFlp(mk(F, kind, a, b, c)).decide(ver)


def lengths_any(F, kind, a, b, c, meas, pr, jr, qr, proof, ns):
    """A vector of a wrong length is refused by prove and by query."""
    requires(params_ok(F, kind, a, b, c))
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    f = RFlp(mk(F, kind, a, b, c))
    ok = True
    if len(meas) != n or len(pr) != ar or len(jr) != j:
        ok = ok and rejects(lambda: f.prove(meas, pr, jr))
    if len(meas) != n or len(proof) != ar + 2 * (2 ** k.bit_length() - 1) + 1 or len(qr) != (1 + eo if eo > 1 else 1) or len(jr) != j:
        ok = ok and rejects(lambda: f.query(meas, proof, qr, jr, ns))
    return ok


def gadget_lens(d, calls):
    return (2 ** calls.bit_length(), d * (2 ** calls.bit_length() - 1) + 1)


def t_gadget_lens(d, calls):
    p = r_wire_poly_len(calls)
    return (p, r_gadget_poly_len(d, p))


def gadget_eval(F, kind, count, w):
    """Gadgets on field elements; inputs of a wrong length are refused."""
    if len(w) != (2 if kind == 'mul' else 1 if kind == 'poly' else 2 * count):
        reject()
    if kind == 'mul':
        return w[0] * w[1]
    if kind == 'poly':
        return w[0] * w[0] - w[0]
    return sum([w[2 * j] * w[2 * j + 1] for j in range(count)], F(0))


def t_gadget_eval(F, kind, count, w):
    g = RMul() if kind == 'mul' else RPolyEval([0, -1, 1], count) if kind == 'poly' else RParallelSum(RMul(), count)
    return g.eval(F, w)


# -- prove and query for every size, over unknown polynomial operations

def a_extend(self, p, n):
    requires(len(p) <= n)
    p += uf_vec(self.field, n - len(p), 'extend', n, p)


def a_double(self, p):
    return uf_vec(self.field, 2 * len(p), 'double', p)


def a_eval(self, p, x):
    return uf_vec(self.field, 1, 'eval', p, x)[0]


def a_eval_batched(self, polys, x):
    return [uf_vec(self.field, 1, 'eval', p, x)[0] for p in polys]


def a_mul(self, p, q):
    return uf_vec(self.field, 2 * len(p), 'mul', p, q)


def a_ntt(cls, p, n, set_s=False):
    return uf_vec(cls, n, 'ntt', set_s, p)


def a_inv_ntt(cls, p, n):
    return uf_vec(cls, n, 'inv_ntt', p)


def rec_circuit(F, kind, a, b, c, answers):
    v = mk(F, kind, a, b, c)
    v.GADGETS = [Tape(v.GADGETS[0], answers)]
    return v


def prove_any(F, kind, a, b, c, meas, pr, jr):
    """Seeds, then the leading values of the gadget applied to the wires; each
    wire is its seed, the inputs of the calls in order, and zeros."""
    requires(params_ok(F, kind, a, b, c))
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    requires(len(meas) == n and len(pr) == ar and len(jr) == j)
    requires(F.GEN_ORDER % 2 ** k.bit_length() == 0)
    v = rec_circuit(F, kind, a, b, c, None)
    v.eval(meas, jr, 1)
    t = v.GADGETS[0]
    p = 2 ** k.bit_length()
    wires = [[pr[i] if l == 0 else t.calls[l - 1][i] if l <= k else F(0) for l in range(p)] for i in range(ar)]
    return (pr + mk(F, kind, a, b, c).GADGETS[0].eval_poly(F, wires)[:2 * (p - 1) + 1], True)


def t_prove_any(F, kind, a, b, c, meas, pr, jr):
    f = RFlp(mk(F, kind, a, b, c))
    (v, g, before) = (f.valid, f.valid.GADGETS[0], parts(f))
    out = f.prove(meas, pr, jr)
    return (out, f.valid is v and (kind in ('count', 'sum') or v.GADGETS[0] is g) and parts(f) == before)


def parts(f):
    v = f.valid
    return (len(v.GADGETS), v.GADGET_CALLS[0], len(v.GADGET_CALLS), v.MEAS_LEN, v.JOINT_RAND_LEN, v.OUTPUT_LEN, v.EVAL_OUTPUT_LEN,
            f.MEAS_LEN, f.PROVE_RAND_LEN, f.QUERY_RAND_LEN, f.JOINT_RAND_LEN, f.OUTPUT_LEN, f.PROOF_LEN, f.VERIFIER_LEN)


def query_any(F, kind, a, b, c, meas, proof, qr, jr, ns):
    requires(params_ok(F, kind, a, b, c))
    (n, j, o, eo, ar, k) = shape(kind, a, b, c)
    p = 2 ** k.bit_length()
    requires(len(meas) == n and len(proof) == ar + 2 * p - 1 and len(jr) == j and len(qr) == (1 + eo if eo > 1 else 1))
    requires(F.GEN_ORDER % p == 0)
    t = qr[len(qr) - 1]
    if t ** p == F(1):
        reject()
    gp = proof[ar:]
    lag = RLagrange(F)
    lag.extend_values_to_power_of_2(gp, 2 * p)
    v = rec_circuit(F, kind, a, b, c, [gp[2 * (i + 1)] for i in range(k)])
    out = v.eval(meas, jr, ns)
    x = v.GADGETS[0]
    wires = [[proof[i] if l == 0 else x.calls[l - 1][i] if l <= k else F(0) for l in range(p)] for i in range(ar)]
    red = out[0] if eo == 1 else sum([qr[i] * out[i] for i in range(eo)], F(0))
    return ([red] + [lag.poly_eval(w, t) for w in wires] + [lag.poly_eval(gp, t)], True)


def t_query_any(F, kind, a, b, c, meas, proof, qr, jr, ns):
    f = RFlp(mk(F, kind, a, b, c))
    (v, g, before) = (f.valid, f.valid.GADGETS[0], parts(f))
    out = f.query(meas, proof, qr, jr, ns)
    return (out, f.valid is v and (kind in ('count', 'sum') or v.GADGETS[0] is g) and parts(f) == before)


# -- circuits of other shapes

class Custom(RValid):
    """Calls of given gadgets on given combinations of the inputs; every result
    must be the wanted constant."""

    def __init__(self, field, plan, meas_len, jr_len):
        self.field = field
        self.plan = plan            # per gadget: (what, [rows of coefficients per call])
        self.MEAS_LEN = meas_len
        self.OUTPUT_LEN = meas_len
        self.JOINT_RAND_LEN = jr_len
        self.GADGETS = [make_gadget(w, len(calls)) for (w, calls) in plan]
        self.GADGET_CALLS = [len(calls) for (w, calls) in plan]
        self.EVAL_OUTPUT_LEN = sum(self.GADGET_CALLS)
        self.want = None

    def encode(self, measurement):
        return measurement

    def truncate(self, meas):
        return meas

    def decode(self, output, num_measurements):
        return output

    def values(self, gadgets, meas, joint_rand, num_shares):
        F = self.field
        inv = F(num_shares).inv()
        out = []
        for g, (w, calls) in zip(gadgets, self.plan):
            for rows in calls:
                out.append(g.eval(F, [sum([F(a) * x for a, x in zip(row, meas)], F(row[-1]) * inv) for row in rows]))
        return out

    def eval(self, meas, joint_rand, num_shares):
        F = self.field
        inv = F(num_shares).inv()
        r = joint_rand[0] if joint_rand else F(1)
        out = self.values(self.GADGETS, meas, joint_rand, num_shares)
        return [r * (x - c * inv) for x, c in zip(out, self.want)]


def make_gadget(what, calls):
    if what[0] == 'mul':
        return RMul()
    if what[0] == 'poly':
        return RPolyEval(list(what[1]), calls)
    return RParallelSum(make_gadget(what[1], calls), what[2])


def gadget_plain(F, what, w):
    """The gadgets written out."""
    if what[0] == 'mul':
        return w[0] * w[1]
    if what[0] == 'poly':
        return sum([F(c) * w[0] ** i for i, c in enumerate(what[1])], F(0))
    k = len(w) // what[2]
    return sum([gadget_plain(F, what[1], w[i * k:(i + 1) * k]) for i in range(what[2])], F(0))


class Plain:
    def __init__(self, what):
        self.what = what

    def eval(self, F, w):
        return gadget_plain(F, self.what, w)


def custom(F, plan, meas, other, jr_len, n, salt):
    """Completeness, soundness and linearity for gadgets of any degree, arity and number."""
    import random
    r = random.Random(salt)
    draw = lambda k: [F(r.randrange(F.MODULUS)) for _ in range(k)]
    c = Custom(F, plan, len(meas), jr_len)
    plain = [Plain(w) for (w, calls) in plan]
    c.want = c.values(plain, meas, [], 1)
    flp = RFlp(c)
    if flp.MEAS_LEN != len(meas) or flp.JOINT_RAND_LEN != jr_len:
        return False
    for m in (meas, other):
        ok = c.values(plain, m, [], 1) == c.want
        pr, jr, qr = draw(flp.PROVE_RAND_LEN), draw(jr_len), draw(flp.QUERY_RAND_LEN)
        proof = flp.prove(m, pr, jr)
        ver = flp.query(m, proof, qr, jr, 1)
        if len(proof) != flp.PROOF_LEN or len(ver) != flp.VERIFIER_LEN or flp.decide(ver) != ok:
            return False
        ms = shares_of(m, [draw(flp.MEAS_LEN) for _ in range(n - 1)])
        ps = shares_of(proof, [draw(flp.PROOF_LEN) for _ in range(n - 1)])
        acc = [F(0)] * flp.VERIFIER_LEN
        for i in range(n):
            acc = [a + b for a, b in zip(acc, flp.query(ms[i], ps[i], qr, jr, n))]
        if acc != ver:
            return False
        bad = list(proof)
        bad[r.randrange(len(bad))] += F(r.randrange(1, F.MODULUS))
        if flp.decide(flp.query(m, bad, qr, jr, 1)):
            return False
    return True


# -- the wrapped gadgets, for gadgets of any arity, degree and number of calls

class AnyGadget:
    def eval(self, field, inp):
        return uf_vec(field, 1, 'gadget', inp)[0]

    def eval_poly(self, field, inp_poly):
        return uf_vec(field, self.n, 'gadget_poly', inp_poly)


def wires_any(F, seeds, inputs, p):
    k = len(inputs)
    return [[seeds[j] if l == 0 else inputs[l - 1][j] if l <= k else F(0) for l in range(p)] for j in range(len(seeds))]


def query_gadget(F, g, calls, seeds, poly, inputs):
    """The claimed values are read off at the points of the calls."""
    requires(g.DEGREE >= 1 and calls >= 1)
    p = 2 ** calls.bit_length()
    d = g.DEGREE * (p - 1)
    requires(len(poly) == d + 1 and F.GEN_ORDER % p == 0)
    n = 2 ** d.bit_length()
    gp = list(poly)
    RLagrange(F).extend_values_to_power_of_2(gp, n)
    return (g.ARITY, g.DEGREE, [gp[(i + 1) * 2 ** (d.bit_length() - calls.bit_length())] for i in range(calls)], wires_any(F, seeds, inputs, p), gp)


def t_query_gadget(F, g, calls, seeds, poly, inputs):
    q = RQueryGadget(F, seeds, poly, g, calls)
    out = [q.eval(F, x) for x in inputs]
    return (q.ARITY, q.DEGREE, out, q.wires, q.poly)


def prove_gadget(F, g, calls, seeds, inputs):
    requires(calls >= 1)
    p = 2 ** calls.bit_length()
    return (g.ARITY, g.DEGREE, [g.eval(F, x) for x in inputs], wires_any(F, seeds, inputs, p))


def t_prove_gadget(F, g, calls, seeds, inputs):
    q = RProveGadget(F, seeds, g, calls)
    out = [q.eval(F, x) for x in inputs]
    return (q.ARITY, q.DEGREE, out, q.wires)
