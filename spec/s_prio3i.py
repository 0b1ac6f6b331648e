"""Contracts of the constructors of the Prio3 instances."""
from vdaf_poc.vdaf_prio3 import Prio3Count as RCount
from vdaf_poc.vdaf_prio3 import Prio3Histogram as RHistogram
from vdaf_poc.vdaf_prio3 import Prio3MultihotCountVec as RMultihot
from vdaf_poc.vdaf_prio3 import Prio3Sum as RSum
from vdaf_poc.vdaf_prio3 import Prio3SumVec as RSumVec
from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof as RMultiproof
from s_bb import params_ok, shape
from s_prio3 import AnyPrio3
from vlib import reject

def registered(kind):
    if kind == 'count':
        return 1
    if kind == 'sum':
        return 2
    if kind == 'sumvec':
        return 3
    return 4 if kind == 'hist' else 5


def counts_ok(shares, proofs):
    return 2 <= shares and shares < 256 and 1 <= proofs and proofs < 256


def construct(flp, ident, shares, proofs):
    """Any FLP: the number of aggregators and of proofs fit a byte."""
    if not counts_ok(shares, proofs):
        reject()
    return (shares, proofs, 32 * shares * (2 if flp.JOINT_RAND_LEN > 0 else 1), 16, 1, ident)


def t_construct(flp, ident, shares, proofs):
    p = AnyPrio3(ident, shares, flp, proofs)
    return (p.SHARES, p.PROOFS, p.RAND_SIZE, p.NONCE_SIZE, p.ROUNDS, p.ID)


def instance(F, kind, shares, proofs, a, b, c):
    """The registered instances; F is the field the instance uses."""
    if kind == 'multiproof':
        k = 'sumvec'
        ident = 0xffffffff
    else:
        k = kind
        proofs = 1
        ident = registered(kind)
    if not params_ok(F, k, a, b, c) or not counts_ok(shares, proofs):
        reject()
    (n, j, o, eo, ar, calls) = shape(k, a, b, c)
    return (ident, shares, proofs, 32 * shares * (2 if j > 0 else 1), 16, 1, 32, 32, True,
            n, j, o, ar, ar + 2 * (2 ** calls.bit_length() - 1) + 1, 2 + ar)


def t_instance(F, kind, shares, proofs, a, b, c):
    if kind == 'count':
        p = RCount(shares)
    elif kind == 'sum':
        p = RSum(shares, b)
    elif kind == 'hist':
        p = RHistogram(shares, a, c)
    elif kind == 'sumvec':
        p = RSumVec(shares, a, b, c)
    elif kind == 'multiproof':
        p = RMultiproof(shares, F, proofs, a, b, c)
    else:
        p = RMultihot(shares, a, b, c)
    f = p.flp
    return (p.ID, p.SHARES, p.PROOFS, p.RAND_SIZE, p.NONCE_SIZE, p.ROUNDS, p.VERIFY_KEY_SIZE, p.xof.SEED_SIZE, f.field is F,
            f.MEAS_LEN, f.JOINT_RAND_LEN, f.OUTPUT_LEN, f.PROVE_RAND_LEN, f.PROOF_LEN, f.VERIFIER_LEN)
