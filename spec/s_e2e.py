"""Statements about the real instances, checked on concrete inputs."""
from vdaf_poc.field import Field64, Field128
from vdaf_poc.vdaf_prio3 import (Prio3Count, Prio3Histogram, Prio3MultihotCountVec, Prio3Sum, Prio3SumVec,
                                 Prio3SumVecWithMultiproof)
from vlib import rejects, requires


class Case:
    """A Prio3 instance, how to draw a measurement, and the aggregation function."""

    def __init__(self, kind, shares, length, bound, chunk, proofs, f64):
        self.kind = kind
        self.length = length
        self.bound = bound
        F = Field64 if f64 else Field128
        if kind == 'count':
            self.p = Prio3Count(shares)
        elif kind == 'sum':
            self.p = Prio3Sum(shares, bound)
        elif kind == 'hist':
            self.p = Prio3Histogram(shares, length, chunk)
        elif kind == 'sumvec':
            self.p = Prio3SumVec(shares, length, bound, chunk)
        elif kind == 'multiproof':
            self.p = Prio3SumVecWithMultiproof(shares, F, proofs, length, bound, chunk)
        else:
            self.p = Prio3MultihotCountVec(shares, length, min(bound, length), chunk)
        self.mw = min(bound, length)

    def __repr__(self):
        return 'Case(%s, shares=%d, length=%d, bound=%d)' % (self.kind, self.p.SHARES, self.length, self.bound)

    def draw(self, rng):
        if self.kind == 'count':
            return rng.randrange(2)
        if self.kind == 'sum':
            return rng.choice([0, self.bound, rng.randint(0, self.bound)])
        if self.kind == 'hist':
            return rng.randrange(self.length)
        if self.kind == 'multihot':
            on = rng.sample(range(self.length), rng.randint(0, self.mw))
            return [i in on for i in range(self.length)]
        return [rng.choice([0, self.bound, rng.randint(0, self.bound)]) for _ in range(self.length)]

    def aggregate(self, ms):
        if self.kind in ('count', 'sum'):
            return sum(ms)
        if self.kind == 'hist':
            return [len([m for m in ms if m == i]) for i in range(self.length)]
        return [sum([int(m[i]) for m in ms]) for i in range(self.length)]


def over_wire(p, ps, shares):
    """The report as received."""
    return (p.decode_public_share(p.encode_public_share(ps)),
            [p.decode_input_share(j, p.encode_input_share(s)) for j, s in enumerate(shares)])


def run(p, key, ctx, nonce, ps, shares):
    """Verification by all aggregators, messages over the wire."""
    states, vs = [], []
    for j in range(p.SHARES):
        (st, v) = p.verify_init(key, ctx, j, None, nonce, ps, shares[j])
        states.append(st)
        vs.append(p.decode_verifier_share(st, p.encode_verifier_share(v)))
    m = p.verifier_shares_to_message(ctx, None, vs)
    m2 = p.decode_verifier_message(states[0], p.encode_verifier_message(m))
    return [p.verify_next(ctx, st, m2) for st in states]


def add_up(F, n, vecs):
    return [sum([v[i] for v in vecs], F(0)) for i in range(n)]


def honest(c, key, ctx, m, nonce, rand):
    p = c.p
    (ps, shares) = over_wire(p, *p.shard(ctx, m, nonce, rand))
    outs = run(p, key, ctx, nonce, ps, shares)
    outs = [p.decode_out_share(None, p.encode_out_share(o)) for o in outs]
    return add_up(p.flp.field, p.flp.OUTPUT_LEN, outs) == p.flp.truncate(p.flp.encode(m))


def sizes(c, ctx, m, nonce, rand):
    """Advertised sizes are the actual sizes."""
    p, f = c.p, c.p.flp
    F = f.field
    meas = f.encode(m)
    jr, pr, qr = [F(3)] * f.JOINT_RAND_LEN, [F(5)] * f.PROVE_RAND_LEN, [F(7)] * f.QUERY_RAND_LEN
    proof = f.prove(meas, pr, jr)
    v = f.query(meas, proof, qr, jr, 1)
    (ps, shares) = p.shard(ctx, m, nonce, rand)
    return len(meas) == f.MEAS_LEN and len(proof) == f.PROOF_LEN and len(v) == f.VERIFIER_LEN and \
        len(f.truncate(meas)) == f.OUTPUT_LEN and len(shares) == p.SHARES and len(p.agg_init(None)) == f.OUTPUT_LEN and \
        rejects(lambda: f.prove(meas, pr + [F(0)], jr)) and rejects(lambda: f.prove(meas, pr, jr + [F(0)])) and \
        rejects(lambda: f.query(meas, proof, qr + [F(0)], jr, 1)) and rejects(lambda: f.query(meas, proof + [F(0)], qr, jr, 1)) and \
        rejects(lambda: f.decide(v + [F(0)])) and rejects(lambda: p.shard(ctx, m, nonce, rand + b'x')) and \
        rejects(lambda: p.shard(ctx, m, nonce + b'x', rand)) and p.NONCE_SIZE == 16 and p.VERIFY_KEY_SIZE == 32 and \
        p.RAND_SIZE == 32 * p.SHARES * (2 if f.JOINT_RAND_LEN > 0 else 1) and p.ROUNDS == 1


def tamper(c, key, ctx, m, nonce, rand, what, who, where, delta):
    """Changing anything in the report of any aggregator makes verification fail."""
    p = c.p
    F = p.flp.field
    (ps, shares) = p.shard(ctx, m, nonce, rand)
    who = who % p.SHARES

    def flip(b):
        i = where % len(b)
        return b[:i] + bytes([b[i] ^ (1 + delta % 255)]) + b[i + 1:]

    def bump(v):
        i = where % len(v)
        return v[:i] + [v[i] + F(1 + delta % (F.MODULUS - 1))] + v[i + 1:]

    shares = list(shares)
    if what == 'public':
        requires(ps is not None)
        ps = [flip(x) if k == who else x for k, x in enumerate(ps)]
    elif what == 'blind':
        requires(ps is not None)
        shares[who] = shares[who][:-1] + (flip(shares[who][-1]),)
    elif what == 'seed':
        requires(who > 0)
        shares[who] = (flip(shares[who][0]),) + shares[who][1:]
    elif what == 'meas':
        shares[0] = (bump(shares[0][0]),) + shares[0][1:]
    elif what == 'proof':
        shares[0] = (shares[0][0], bump(shares[0][1])) + shares[0][2:]
    elif what == 'nonce':
        requires(ps is not None)
        # another nonce than the client's
        return rejects(lambda: run(p, key, ctx, flip(nonce), ps, shares))
    elif what == 'ctx':
        return rejects(lambda: run(p, key, ctx + b'x', nonce, ps, shares))
    elif what == 'swap':
        requires(p.SHARES > 2)
        shares[1], shares[2] = shares[2], shares[1]
    return rejects(lambda: run(p, key, ctx, nonce, ps, shares))


def bad_verifier(c, key, ctx, m, nonce, rand, what, who, where, delta):
    """Any changed, missing, extra or mismatched verifier share or message is refused."""
    p = c.p
    F = p.flp.field
    (ps, shares) = p.shard(ctx, m, nonce, rand)
    st = [p.verify_init(key, ctx, j, None, nonce, ps, shares[j]) for j in range(p.SHARES)]
    vs = [v for (_, v) in st]
    good = p.verifier_shares_to_message(ctx, None, vs)
    who = who % p.SHARES
    if what == 'missing':
        return rejects(lambda: p.verifier_shares_to_message(ctx, None, vs[:who] + vs[who + 1:]))
    if what == 'extra':
        return rejects(lambda: p.verifier_shares_to_message(ctx, None, vs + [vs[who]]))
    if what == 'short':
        bad = vs[:who] + [(vs[who][0][:-1], vs[who][1])] + vs[who + 1:]
        return rejects(lambda: p.verifier_shares_to_message(ctx, None, bad))
    if what == 'long':
        bad = vs[:who] + [(vs[who][0] + [F(0)], vs[who][1])] + vs[who + 1:]
        return rejects(lambda: p.verifier_shares_to_message(ctx, None, bad))
    if what == 'nopart':
        requires(good is not None)
        bad = vs[:who] + [(vs[who][0], None)] + vs[who + 1:]
        return rejects(lambda: p.verifier_shares_to_message(ctx, None, bad))
    if what == 'message':
        if good is None:
            return rejects(lambda: p.verify_next(ctx, st[who][0], bytes(32)))
        i = where % 32
        bad = good[:i] + bytes([good[i] ^ (1 + delta % 255)]) + good[i + 1:]
        return rejects(lambda: p.verify_next(ctx, st[who][0], bad)) and rejects(lambda: p.verify_next(ctx, st[who][0], None))
    # a changed element: the value of the circuit (first of each proof) must not be moved
    v = vs[who][0]
    k = (where % p.PROOFS) * p.flp.VERIFIER_LEN
    v = v[:k] + [v[k] + F(1 + delta % (F.MODULUS - 1))] + v[k + 1:]
    bad = vs[:who] + [(v, vs[who][1])] + vs[who + 1:]
    return rejects(lambda: p.verifier_shares_to_message(ctx, None, bad))


def batch(c, key, ctx, ms, rnd):
    """Aggregation in any order and grouping, and the aggregate result."""
    p = c.p
    outs = []
    for m in ms:
        nonce = rnd.randbytes(16)
        (ps, shares) = p.shard(ctx, m, nonce, rnd.randbytes(p.RAND_SIZE))
        outs.append(run(p, key, ctx, nonce, ps, shares))
    straight, mixed = [], []
    for j in range(p.SHARES):
        mine = [o[j] for o in outs]
        a = p.agg_init(None)
        for o in mine:
            a = p.agg_update(None, a, o)
        straight.append(a)
        order = list(mine)
        rnd.shuffle(order)
        cut = rnd.randint(0, len(order))
        groups = []
        for g in (order[:cut], order[cut:]):
            b = p.agg_init(None)
            for o in g:
                b = p.agg_update(None, b, o)
            groups.append(b)
        mixed.append(p.decode_agg_share(None, p.encode_agg_share(p.merge(None, groups))))
    return straight == mixed and p.unshard(None, straight, len(ms)) == c.aggregate(ms)


IDS = {'count': 1, 'sum': 2, 'sumvec': 3, 'hist': 4, 'multihot': 5, 'multiproof': 0xFFFFFFFF}


def ident(c):
    return c.p.ID == IDS[c.kind]
