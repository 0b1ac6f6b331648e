"""Operations change neither their arguments nor the instance they are called on,
and give the same result whatever was called before (on concrete inputs)."""
from copy import deepcopy

from vdaf_poc.common import concat, front, vec_add, vec_neg, vec_sub, xor
from vdaf_poc.field import Field64, Field96, Field128, Field255, Lagrange, poly_add, poly_eval, poly_interp, poly_mul
from vdaf_poc.flp_bbcggi19 import encode_range_checked_int, decode_range_checked_int
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21, pack_bits, unpack_bits
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.xof import XofFixedKeyAes128, XofTurboShake128


def frozen(x, depth=0):
    """A value independent of later changes."""
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple([frozen(y, depth + 1) for y in x]))
    if isinstance(x, dict):
        return ('dict', tuple([(k, frozen(v, depth + 1)) for k, v in sorted(x.items(), key=lambda kv: str(kv[0]))]))
    if hasattr(x, 'MODULUS') and hasattr(x, 'val'):
        return (type(x).__name__, int(x.val))
    if isinstance(x, bytearray):
        return ('bytearray', bytes(x))
    if isinstance(x, (int, bytes, str, bool, type(None), type)):
        return x
    if hasattr(x, '__dict__') and depth < 8:
        return (type(x).__name__, frozen(vars(x), depth + 1))
    return repr(type(x))


def scramble(x):
    """Overwrite everything that can be overwritten in a returned value."""
    if isinstance(x, (list, tuple)):
        for y in x:
            scramble(y)
    if isinstance(x, list):
        x.reverse()
        x.append(None)
    elif hasattr(x, 'MODULUS') and hasattr(x, 'val') and not isinstance(x, type):
        x.val = (x.val + 1) % x.MODULUS


def call(f, args):
    try:
        return ('returns', f(*args))
    except Exception as e:
        return ('raises', type(e).__name__)


def all_pure(instances, tasks, rnd):
    """Every task, twice more in a random order, with its results overwritten
    in between, gives what it gave at first."""
    state = [frozen(i) for i in instances]
    args0 = [frozen(list(a)) for _, a in tasks]
    first = []
    for f, a in tasks:
        (how, r) = call(f, deepcopy(a))
        first.append((how, frozen(r)))
        if how == 'returns':
            scramble(r)
    order = list(range(len(tasks))) * 2
    rnd.shuffle(order)
    for k in order:
        f, a = tasks[k]
        (how, r) = call(f, a)
        if (how, frozen(r)) != first[k] or frozen(list(a)) != args0[k] or [frozen(i) for i in instances] != state:
            return False
    return True


def prio3(c, key, ctx, m, nonce, rand, rnd):
    p, f = c.p, c.p.flp
    F = f.field
    draw = lambda n: [F(rnd.randrange(F.MODULUS)) for _ in range(n)]
    (ps, shares) = p.shard(ctx, m, nonce, rand)
    init = [p.verify_init(key, ctx, j, None, nonce, ps, shares[j]) for j in range(p.SHARES)]
    sts, vs = [x[0] for x in init], [x[1] for x in init]
    msg = p.verifier_shares_to_message(ctx, None, vs)
    outs = [p.verify_next(ctx, st, msg) for st in sts]
    j = rnd.randrange(p.SHARES)
    lie = None if ps is None else [bytes(32) if i == j else x for i, x in enumerate(ps)]
    meas = f.encode(m)
    pr, jr, qr = draw(f.PROVE_RAND_LEN), draw(f.JOINT_RAND_LEN), draw(f.QUERY_RAND_LEN)
    proof = f.prove(meas, pr, jr)
    ver = f.query(meas, proof, qr, jr, 1)
    tasks = [
        (p.shard, (ctx, m, nonce, rand)), (p.shard, (ctx + b'x', m, nonce[::-1], rand[::-1])),
        (p.verify_init, (key, ctx, j, None, nonce, ps, shares[j])), (p.verify_init, (key, ctx, j, None, nonce, lie, shares[j])),
        (p.verifier_shares_to_message, (ctx, None, vs)), (p.verify_next, (ctx, sts[j], msg)), (p.agg_init, (None,)),
        (p.agg_update, (None, outs[0], outs[1])), (p.merge, (None, outs)), (p.unshard, (None, outs, 1)), (p.is_valid, (None, [])),
        (p.encode_input_share, (shares[j],)), (p.decode_input_share, (j, p.encode_input_share(shares[j]))),
        (p.encode_public_share, (ps,)), (p.decode_public_share, (p.encode_public_share(ps),)),
        (p.encode_verifier_share, (vs[j],)), (p.decode_verifier_share, (sts[j], p.encode_verifier_share(vs[j]))),
        (p.encode_verifier_message, (msg,)), (p.encode_out_share, (outs[j],)), (p.encode_agg_share, (outs[j],)),
        (p.decode_out_share, (None, p.encode_out_share(outs[j]))), (p.decode_agg_share, (None, p.encode_agg_share(outs[j]))),
        (f.encode, (m,)), (f.truncate, (meas,)), (f.decode, (f.truncate(meas), 1)), (f.prove, (meas, pr, jr)), (f.prove, (draw(f.MEAS_LEN), pr, jr)),
        (f.query, (meas, proof, qr, jr, 1)), (f.query, (draw(f.MEAS_LEN), draw(f.PROOF_LEN), qr, jr, 2)), (f.decide, (ver,)),
        (f.decide, (draw(f.VERIFIER_LEN),)), (f.valid.eval, (meas, jr, 1)), (f.valid.eval, (draw(f.MEAS_LEN), jr, 3)),
        (f.valid.truncate, (meas,)), (f.valid.encode, (m,))]
    return all_pure([p], tasks, rnd)


def polys(F, rnd):
    draw = lambda n: [F(rnd.randrange(F.MODULUS)) for _ in range(n)]
    n = rnd.choice([1, 2, 4, 8])
    k = rnd.randint(1, n)
    a, b, x = draw(n), draw(n), draw(1)[0]
    xs = [F(3 * i + 1) for i in range(n)]
    tasks = [
        (vec_add, (a, b)), (vec_sub, (a, b)), (vec_neg, (a,)), (front, (k, a)), (F.encode_vec, (a,)), (F.decode_vec, (F.encode_vec(a),)),
        (poly_mul, (F, a, b)), (poly_add, (F, a, b[:k])), (poly_add, (F, a + [F(0)], b)), (poly_eval, (F, a + [F(0)], x)), (poly_interp, (F, xs, a)),
        (F.zeros, (n,)), (lambda u, v: [u + v, u - v, u * v, -u, u ** 5, u.int()], (x, b[0])),
        (xor, (bytes([1, 2, 3]), bytes([4, 5, 6]))), (concat, ([b'ab', b'c'],))]
    inst = []
    if F is not Field255:
        lag = Lagrange(F)
        inst = [lag]
        tasks += [(F.ntt, (a, n)), (F.ntt, (a, n, True)), (F.inv_ntt, (a, n)), (F.nth_root_powers, (n,)), (F.nth_root, (n,)), (F.gen, ()), (lag.poly_mul, (a, b)),
                  (lag.poly_eval, (a, x)), (lag.poly_eval_batched, ([a, b], x)), (lag.double_evaluations, (a,)),
                  (encode_range_checked_int, (F, rnd.randint(0, 5), 5)), (decode_range_checked_int, (F, [F(1), F(0), F(1)], 5))]
    return all_pure(inst, tasks, rnd)


def poplar(bits, ctx, alpha, nonce, rand, key, level, prefixes, rnd):
    p = Poplar1(bits)
    d = IdpfBBCGGI21(rnd.choice([1, 2, 3]), bits)
    ap = (level, prefixes)
    (ps, shares) = p.shard(ctx, alpha, nonce, rand)
    init = [p.verify_init(key, ctx, j, ap, nonce, ps, shares[j]) for j in range(2)]
    v = [x[1] for x in init]
    m = p.verifier_shares_to_message(ctx, ap, v)
    s2 = [p.verify_next(ctx, init[j][0], m) for j in range(2)]
    v2 = [x[1] for x in s2]
    m2 = p.verifier_shares_to_message(ctx, ap, v2)
    outs = [p.verify_next(ctx, s2[j][0], m2) for j in range(2)]
    draw = lambda F, n: [F(rnd.randrange(F.MODULUS)) for _ in range(n)]
    bi, bl = [draw(Field64, d.VALUE_LEN) for _ in range(bits - 1)], draw(Field255, d.VALUE_LEN)
    (dp, keys) = d.gen(alpha, bi, bl, ctx, nonce, rand[:32])
    j = rnd.randrange(2)
    tasks = [
        (p.shard, (ctx, alpha, nonce, rand)), (p.shard, (ctx, alpha, nonce[::-1], rand[::-1])),
        (p.verify_init, (key, ctx, j, ap, nonce, ps, shares[j])), (p.verify_init, (key, ctx, 1 - j, ap, nonce, ps, shares[1 - j])),
        (p.verifier_shares_to_message, (ctx, ap, v)), (p.verifier_shares_to_message, (ctx, ap, v2)),
        (p.verify_next, (ctx, init[j][0], m)), (p.verify_next, (ctx, s2[j][0], m2)), (p.agg_init, (ap,)),
        (p.agg_update, (ap, outs[0], outs[1])), (p.merge, (ap, outs)), (p.unshard, (ap, outs, 1)),
        (p.is_valid, (ap, [])), (p.is_valid, (ap, [(0, ((False,),))])), (p.encode_agg_param, (ap,)), (p.decode_agg_param, (p.encode_agg_param(ap),)),
        (p.encode_input_share, (shares[j],)), (p.decode_input_share, (j, p.encode_input_share(shares[j]))),
        (p.encode_public_share, (ps,)), (p.decode_public_share, (p.encode_public_share(ps),)),
        (p.encode_verifier_share, (v[j],)), (p.decode_verifier_share, (init[j][0], p.encode_verifier_share(v[j]))),
        (p.encode_verifier_message, (m,)), (p.decode_verifier_message, (init[j][0], p.encode_verifier_message(m))),
        (p.encode_out_share, (outs[j],)), (p.encode_agg_share, (outs[j],)),
        (d.gen, (alpha, bi, bl, ctx, nonce, rand[:32])), (d.gen, (alpha, bi, bl, ctx, nonce, rand[32:64])),
        (d.eval, (0, dp, keys[0], level, prefixes, ctx, nonce)), (d.eval, (1, dp, keys[1], level, prefixes[::-1], ctx, nonce)),
        (d.encode_public_share, (dp,)), (d.decode_public_share, (d.encode_public_share(dp),)), (pack_bits, (list(alpha),)),
        (unpack_bits, (pack_bits(list(alpha)), len(alpha)))]
    return all_pure([p, d], tasks, rnd)


def xofs(seed, dst, binder, n, rnd):
    tasks = [(f, a) for X in (XofTurboShake128, XofFixedKeyAes128) for s in [seed[:X.SEED_SIZE]] for (f, a) in [
        (X.derive_seed, (s, dst, binder)), (X.expand_into_vec, (Field64, s, dst, binder, n)), (X.expand_into_vec, (Field255, s, dst, binder, n)),
        (X.expand_into_vec, (Field96, s, dst, binder + b'x', n)), (X.expand_into_vec, (Field128, s, dst, binder, n + 1))]]
    return all_pure([], tasks, rnd)
