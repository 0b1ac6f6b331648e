"""Contracts of the transforms and of polynomial arithmetic in both bases."""
from vdaf_poc.field import Lagrange
from vdaf_poc.field import poly_add as r_poly_add
from vdaf_poc.field import poly_eval as r_poly_eval
from vdaf_poc.field import poly_interp as r_poly_interp
from vdaf_poc.field import poly_mul as r_poly_mul
from vdaf_poc.field import poly_strip as r_poly_strip
from vlib import by_induction, reject, rejects, requires


def log2(n):
    return n.bit_length() - 1


def is_pow2(n):
    return n > 0 and n == 2 ** (n - 1).bit_length()


def roots(F, n):
    """1, w, w**2, ... for the n-th root of unity w of the generator's group."""
    w = F.gen() ** (F.GEN_ORDER // n)
    out = [F(1)]
    for _ in range(n - 1):
        out.append(out[-1] * w)
    return out


def value_at(F, p, x):
    """Value at x of the polynomial with coefficients p."""
    acc = F(0)
    for i in range(len(p)):
        acc = acc * x + p[len(p) - 1 - i]
    return acc


# -- transforms

def nth_root_powers(F, n):
    if not is_pow2(n):
        reject()
    return roots(F, n)


def t_ntt(F, n, set_s, p):
    return F.ntt(p, n, set_s)


def ntt(F, n, set_s, p):
    if not is_pow2(n):
        reject()
    requires(len(p) <= n)
    r = roots(F, 2 * n)
    s = r[1] if set_s else F(1)
    return [value_at(F, p, s * r[2 * i]) for i in range(n)]


def ntt_linear(F, n, set_s, p, q, c):
    """The transform is linear."""
    a = F.ntt(p, n, set_s)
    b = F.ntt(q, n, set_s)
    return F.ntt([p[i] + c * q[i] for i in range(n)], n, set_s) == [a[i] + c * b[i] for i in range(n)]


def t_inv_ntt(F, n, v):
    return F.inv_ntt(v, n)


def inv_ntt(F, n, v):
    if not is_pow2(n):
        reject()
    requires(len(v) <= n)
    inv_n = F(n).inv()
    r = roots(F, n)
    return [inv_n * value_at(F, v, r[(n - i) % n]) for i in range(n)]


def ntt_inverse(F, n, p):
    """Each transform undoes the other, and neither touches its input."""
    keep = list(p)
    return F.inv_ntt(F.ntt(p, n), n) == keep and F.ntt(F.inv_ntt(p, n), n) == keep and p == keep


def ntt_samples(F, n, set_s, p, at):
    """Selected values of a large transform, and that the inverse undoes it."""
    out = F.ntt(p, n, set_s)
    w = F.gen() ** (F.GEN_ORDER // n)
    s = F.gen() ** (F.GEN_ORDER // (2 * n)) if set_s else F(1)
    ok = len(out) == n and all([out[i] == value_at(F, p, s * w ** i) for i in at])
    if not set_s:
        back = F.inv_ntt(out, n)
        ok = ok and back == p + [F(0)] * (n - len(p))
    return ok


# -- coefficient basis

def poly_strip(F, p):
    for i in range(len(p)):
        if p[len(p) - 1 - i] != F(0):
            return p[:len(p) - i]
    return []


def strip_any(F, p):
    k = len(p)
    while k > 0 and p[k - 1] == F(0):
        k -= 1
    return p[:k]


def strip_ok(F, p):
    """Only zero leading coefficients go, and all of them go."""
    r = r_poly_strip(F, p)
    n = len(r)
    if n > 0 and r[n - 1] == F(0):
        return False
    return n <= len(p) and r == p[:n] and all([p[i] == F(0) for i in range(n, len(p))])


def coeff(F, p, i):
    return p[i] if 0 <= i and i < len(p) else F(0)


def poly_add(F, p, q):
    return poly_strip(F, [coeff(F, p, i) + coeff(F, q, i) for i in range(max(len(p), len(q)))])


def add_any(F, p, q):
    return strip_any(F, [(p[i] if i < len(p) else F(0)) + (q[i] if i < len(q) else F(0)) for i in range(max(len(p), len(q)))])


def poly_mul(F, p, q):
    requires(len(p) + len(q) > 0)
    return poly_strip(F, [sum([coeff(F, p, j) * coeff(F, q, i - j) for j in range(len(p))], F(0)) for i in range(len(p) + len(q) - 1)])


def poly_eval(F, p, eval_at):
    return value_at(F, p, eval_at)


def eval_homomorphic(F, p, q, x):
    """Evaluation commutes with sums and products."""
    a = r_poly_eval(F, p, x)
    b = r_poly_eval(F, q, x)
    return r_poly_eval(F, r_poly_add(F, p, q), x) == a + b and r_poly_eval(F, r_poly_mul(F, p, q), x) == a * b


def interp_ok(F, xs, ys):
    """The interpolation goes through every point and has degree below n."""
    n = len(xs)
    requires(n > 0 and len(ys) == n)
    requires(all([xs[i] != xs[j] for i in range(n) for j in range(i)]))
    p = r_poly_interp(F, xs, ys)
    return len(p) <= n and all([r_poly_eval(F, p, xs[i]) == ys[i] for i in range(n)])


def interp_recovers(F, xs, p):
    """Interpolating the values of a polynomial gives the polynomial."""
    n = len(xs)
    requires(n > 0 and len(p) <= n)
    requires(all([xs[i] != xs[j] for i in range(n) for j in range(i)]))
    return poly_strip(F, r_poly_interp(F, xs, [value_at(F, p, x) for x in xs])) == poly_strip(F, p)


def interp_lengths(F, xs, ys):
    requires(len(xs) != len(ys))
    return rejects(lambda: r_poly_interp(F, xs, ys))


# -- values at roots of unity

def at_roots(F, p, n):
    """The values of the polynomial with coefficients p at the n-th roots of unity."""
    return [value_at(F, p, w) for w in roots(F, n)]


def lag_eval(F, p, x):
    """Evaluation in the value basis is evaluation of the polynomial."""
    v = at_roots(F, p, len(p))
    return Lagrange(F).poly_eval(v, x) == value_at(F, p, x) and v == at_roots(F, p, len(p))


def lag_eval_batched(F, p, q, x):
    n = len(p)
    v = [at_roots(F, p, n), at_roots(F, q, n), at_roots(F, p, n)]
    return Lagrange(F).poly_eval_batched(v, x) == [value_at(F, p, x), value_at(F, q, x), value_at(F, p, x)]


def lag_eval_on_root(F, n, i, v):
    """At a root of unity of the domain the value is the stored one."""
    return Lagrange(F).poly_eval(v, roots(F, n)[i]) == v[i]


def lag_mul(F, p, q):
    n = len(p)
    r = Lagrange(F).poly_mul(at_roots(F, p, n), at_roots(F, q, n))
    c = [sum([coeff(F, p, j) * coeff(F, q, i - j) for j in range(n)], F(0)) for i in range(2 * n - 1)]
    return r == at_roots(F, c, 2 * n)


def lag_double(F, p):
    n = len(p)
    v = at_roots(F, p, n)
    return Lagrange(F).double_evaluations(v) == at_roots(F, p, 2 * n) and v == at_roots(F, p, n)


def lag_extend(F, n, p):
    """The first len(p) values of a polynomial of that length, extended to n values."""
    w = roots(F, n)
    v = [value_at(F, p, w[i]) for i in range(len(p))]
    r = Lagrange(F).extend_values_to_power_of_2(v, n)
    return r is None and v == at_roots(F, p, n)


def refuse_ntt(F, n, set_s, p):
    requires(not is_pow2(n))
    return rejects(lambda: F.ntt(p, n, set_s)) and rejects(lambda: F.inv_ntt(p, n)) and rejects(lambda: F.nth_root_powers(n))


def refuse_eval(F, p, x):
    requires(not is_pow2(len(p)))
    return rejects(lambda: Lagrange(F).poly_eval(p, x))


def refuse_double(F, p):
    requires(not is_pow2(len(p)))
    return rejects(lambda: Lagrange(F).double_evaluations(p))


def refuse_mul(F, p, q):
    requires(not is_pow2(len(p)) or len(p) != len(q))
    return rejects(lambda: Lagrange(F).poly_mul(p, q))


def refuse_extend(F, p, n):
    requires(not is_pow2(n) or n < len(p))
    return rejects(lambda: Lagrange(F).extend_values_to_power_of_2(p, n))


def refuse_batched(F, p, q, x):
    requires(len(p) != len(q) or not is_pow2(len(p)))
    return rejects(lambda: Lagrange(F).poly_eval_batched([p, q], x))


def interp_at(F, at, ys):
    return interp_ok(F, [F(a) for a in at], ys)


def lag_refusals(F, p, q, n, x):
    """Lengths that are not powers of two, or differ, are refused."""
    lag = Lagrange(F)
    ok = True
    if not is_pow2(len(p)):
        ok = ok and rejects(lambda: lag.poly_eval(p, x)) and rejects(lambda: lag.double_evaluations(p)) and rejects(lambda: lag.poly_eval_batched([p, p], x))
        ok = ok and rejects(lambda: lag.poly_mul(p, p))
    if len(p) != len(q):
        ok = ok and rejects(lambda: lag.poly_mul(p, q)) and rejects(lambda: lag.poly_eval_batched([p, q], x))
    if not is_pow2(n) or n < len(p):
        ok = ok and rejects(lambda: lag.extend_values_to_power_of_2(p, n))
    return ok


def t_roots(F, n):
    return F.nth_root_powers(n)
