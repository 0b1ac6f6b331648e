"""Terms: canonical integer / field polynomials over z3 atoms.

Integers are Python ints or z3 Int terms; field elements are `FE` objects.
Every arithmetic operation goes through a polynomial normal form, so that two
expressions equal by commutative-ring reasoning are the *same* z3 term.
Products of two symbolic integers and of two field atoms are reified with the
uninterpreted functions imul / fmul: z3 itself only sees linear arithmetic.
Field terms live in an uninterpreted sort: z3 only sees congruence, all ring
reasoning is done by the normal form (integer coefficients, reduced modulo the
characteristic when it is known), so nothing is assumed about characteristic 0.
"""
import math

import z3

IntS, BoolS = z3.IntSort(), z3.BoolSort()
FldS = z3.DeclareSort('Fld')
RealS = FldS
TokS = z3.DeclareSort('Tok')

imul = z3.Function('imul', IntS, IntS, IntS)
fmul = z3.Function('fmul', RealS, RealS, RealS)
fpow = z3.Function('fpow', RealS, IntS, RealS)
fadd = z3.Function('fadd', FldS, FldS, FldS)
fsc = z3.Function('fsc', IntS, FldS, FldS)
ipow = z3.Function('ipow', IntS, IntS, IntS)
pow2 = z3.Function('pow2', IntS, IntS)
blen = z3.Function('bitlen', IntS, IntS)
idiv = z3.Function('idiv', IntS, IntS, IntS)     # symbolic divisor, floor
imod = z3.Function('imod', IntS, IntS, IntS)
bit = z3.Function('bit', IntS, IntS, IntS)       # bit(x, l) in {0,1}
shr = z3.Function('shr', IntS, IntS, IntS)       # x >> l
bxor = z3.Function('bxor', IntS, IntS, IntS)
band = z3.Function('band', IntS, IntS, IntS)
bor = z3.Function('bor', IntS, IntS, IntS)


# The z3 Python bindings check for errors after every call and recompute ids;
# cache the id and skip the check for these read-only accessors.
_ctxref = z3.main_ctx().ref()
_getid = z3.z3core.Z3_get_ast_id.__defaults__[0].f
_getna = z3.z3core.Z3_get_app_num_args.__defaults__[0].f


def _get_id(self):
    try:
        return self._pid
    except AttributeError:
        i = self._pid = _getid(_ctxref, self.as_ast())
        return i


def _num_args(self):
    try:
        return self._pna
    except AttributeError:
        if not z3.is_app(self):
            raise z3.Z3Exception('not an application')
        n = self._pna = _getna(_ctxref, self.as_ast())
        return n


z3.AstRef.get_id = _get_id
z3.ExprRef.get_id = _get_id
z3.AstRef.eq = lambda self, o: _get_id(self) == _get_id(o)
z3.ExprRef.num_args = _num_args


class Unsupported(Exception):
    """The engine cannot handle a construct (never a verdict)."""


_keep = {}


def aid(t):
    i = t.get_id()
    if i not in _keep:
        _keep[i] = t
    return i


def atom(i):
    return _keep[i]


_fresh = [0]


def fresh_name(base):
    _fresh[0] += 1
    return '%s!%d' % (base, _fresh[0])


def fresh_int(base='n'):
    return z3.Int(fresh_name(base))


IVARS = {}          # ids of "index" variables (bound / skolem indices)


def fresh_index(base='i'):
    v = z3.Int(fresh_name('ix_' + base))
    IVARS[aid(v)] = v
    return v


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or \
        (is_z3(v) and v.sort() == IntS)


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort() == BoolS)


# ---------------------------------------------------------------- polynomials

class P:
    """Polynomial with integer coefficients: {mono: coeff}; a mono is a sorted
    tuple of (atom id, exponent) where the exponent is an int or an int P."""
    __slots__ = ('t', '_h')

    def __init__(self, t):
        self.t = t
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def const(self):
        """Integer value if constant else None."""
        if not self.t:
            return 0
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


def pconst(c):
    return P({(): c} if c else {})


def patom(t):
    return P({((aid(t), 1),): 1})


def padd(a, b, m=None):
    r = dict(a.t)
    for k, c in b.t.items():
        c2 = r.get(k, 0) + c
        if m:
            c2 = symm(c2, m)
        if c2:
            r[k] = c2
        else:
            r.pop(k, None)
    return P(r)


def symm(c, m):
    c %= m
    return c - m if c > m // 2 else c


def pscale(a, s, m=None):
    r = {}
    for k, c in a.t.items():
        c2 = c * s
        if m:
            c2 = symm(c2, m)
        if c2:
            r[k] = c2
    return P(r)


def psub(a, b, m=None):
    return padd(a, pscale(b, -1), m)


def exp_add(x, y):
    if isinstance(x, int) and isinstance(y, int):
        return x + y
    px = pconst(x) if isinstance(x, int) else x
    py = pconst(y) if isinstance(y, int) else y
    s = padd(px, py)
    c = s.const()
    return c if c is not None else s


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        if k in d:
            e2 = exp_add(d[k], e)
            if e2 == 0:
                del d[k]
            else:
                d[k] = e2
        else:
            d[k] = e
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def pmul(a, b, m=None):
    r = {}
    for k1, c1 in a.t.items():
        for k2, c2 in b.t.items():
            k = mono_mul(k1, k2)
            c = r.get(k, 0) + c1 * c2
            if m:
                c = symm(c, m)
            if c:
                r[k] = c
            else:
                r.pop(k, None)
    return P(r)


def ppow(a, n, m=None):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, a, m)
    return r


# ---- integers <-> polynomials

_ip_cache = {}


def ipoly(v):
    """int or z3 Int term -> P."""
    if isinstance(v, bool):
        return pconst(int(v))
    if isinstance(v, int):
        return pconst(v)
    i = aid(v)
    p = _ip_cache.get(i)
    if p is None:
        p = _ipoly(v)
        _ip_cache[i] = p
    return p


def _ipoly(v):
    if z3.is_int_value(v):
        return pconst(v.as_long())
    if z3.is_add(v):
        r = pconst(0)
        for c in v.children():
            r = padd(r, ipoly(c))
        return r
    if z3.is_sub(v):
        ch = v.children()
        r = ipoly(ch[0])
        for c in ch[1:]:
            r = psub(r, ipoly(c))
        return r
    if v.decl().kind() == z3.Z3_OP_UMINUS:
        return pscale(ipoly(v.arg(0)), -1)
    if z3.is_mul(v) or v.decl().eq(imul):
        r = pconst(1)
        for c in v.children():
            r = pmul(r, ipoly(c))
        return r
    if v.decl().eq(ipow):
        return P({((aid(v.arg(0)), _expo(ipoly(v.arg(1)))),): 1})
    # canonicalise atoms: rebuild the arguments
    r = recanon(v)
    return patom(r) if r.eq(v) or r.decl().kind() == z3.Z3_OP_ITE else ipoly(r)


def _expo(p):
    c = p.const()
    return c if c is not None else p


_canon_cache = {}


def recanon(v):
    """Rebuild an atom so that its integer arguments are in normal form."""
    i = aid(v)
    r = _canon_cache.get(i)
    if r is not None:
        return r
    ch = v.children()
    if not ch or z3.is_quantifier(v):
        r = v
    else:
        new = []
        for c in ch:
            if c.sort() == IntS:
                new.append(zint(ireify(ipoly(c))))
            elif c.sort() == RealS:
                new.append(freify(fpoly(c)))
            else:
                new.append(recanon(c) if c.children() else c)
        if all(a.eq(b) for a, b in zip(new, ch)):
            r = v
        else:
            r = v.decl()(*new)
        r = simp_atom(r)
    _canon_cache[i] = r
    _canon_cache[aid(r)] = r
    return r


def is01(a):
    """An atom that is syntactically 0 or 1."""
    if z3.is_int_value(a):
        return a.as_long() in (0, 1)
    if a.decl().kind() == z3.Z3_OP_ITE:
        return is01(a.arg(1)) and is01(a.arg(2))
    return a.decl().eq(bit)


def tighten(d):
    """Divide a linear form by the common factor of its non-constant coefficients: d < 0 iff result < 0."""
    c = d.t.get((), 0)
    g = math.gcd(*[v for k, v in d.t.items() if k != ()])
    if g <= 1:
        return None
    t = {k: v // g for k, v in d.t.items() if k != ()}
    if c:
        c = -((-c + g - 1) // g)
    if c:
        t[()] = c
    return P(t)


def bit_mask(p):
    """Bits that can be set in a sum of distinct single bits; None if it is not of that form."""
    m = 0
    for k, c in p.t.items():
        if c < 0:
            return None
        if k != ():
            if len(k) != 1 or k[0][1] != 1 or c & (c - 1):
                return None
            if not is01(atom(k[0][0])):
                return None
        if m & c:
            return None
        m |= c
    return m


def simp_atom(r):
    """Local simplifications of rebuilt atoms."""
    k = r.decl().kind()
    if k == z3.Z3_OP_UNINTERPRETED and r.num_args() == 2:
        if r.decl().eq(bxor):
            from .interp import xor_norm
            return zint(xor_norm(r.arg(0), r.arg(1)))
        if r.decl().eq(bor):
            a, b = bit_mask(ipoly(r.arg(0))), bit_mask(ipoly(r.arg(1)))
            if a is not None and b is not None and a & b == 0:
                return zint(iadd(r.arg(0), r.arg(1)))
        if r.decl().eq(bit) and z3.is_int_value(r.arg(1)) and r.arg(1).as_long() >= 0:
            p, w = ipoly(r.arg(0)), 1 << r.arg(1).as_long()
            if bit_mask(p) is not None:
                for k, c in p.t.items():
                    if k == () and c & w:
                        return z3.IntVal(1)
                    if k != () and c == w:
                        return atom(k[0][0])
                return z3.IntVal(0)
        if (r.decl().eq(band) or r.decl().eq(bor)) and aid(r.arg(0)) > aid(r.arg(1)):
            return r.decl()(r.arg(1), r.arg(0))
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(r.arg(1)) and r.arg(1).as_long() > 1:
        c = r.arg(1).as_long()
        if any(v % c == 0 or (not m and not 0 <= v < c) for m, v in ipoly(r.arg(0)).t.items()) or len(ipoly(r.arg(0)).t) == 0:
            return zint((floordiv if k == z3.Z3_OP_IDIV else mod_i)(r.arg(0), c))
    if k == z3.Z3_OP_ITE:
        c = r.arg(0)
        if z3.is_true(c):
            return r.arg(1)
        if z3.is_false(c):
            return r.arg(2)
        if r.arg(1).eq(r.arg(2)):
            return r.arg(1)
        if c.decl().kind() == z3.Z3_OP_EQ and z3.is_int(r) and z3.is_int_value(r.arg(1)) and z3.is_int_value(r.arg(2)):
            x, y = c.children()
            if z3.is_int_value(y):
                x, y = y, x
            if z3.is_int_value(x) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.decl().eq(bit) \
                    and {x.as_long(), r.arg(1).as_long(), r.arg(2).as_long()} == {0, 1} and x.as_long() == r.arg(1).as_long():
                return y
    if k == z3.Z3_OP_EQ and z3.is_int(r.arg(0)):
        x, y = r.children()
        if z3.is_int_value(y):
            x, y = y, x
        if z3.is_int_value(x) and y.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(y.arg(1)) and z3.is_int_value(y.arg(2)):
            h, l = y.arg(1).as_long() == x.as_long(), y.arg(2).as_long() == x.as_long()
            return z3.BoolVal(h) if h == l else y.arg(0) if h else zbool(b_not(y.arg(0)))
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) \
            and r.num_args() == 2 and z3.is_int(r.arg(0)):
        d = psub(ipoly(r.arg(0)), ipoly(r.arg(1))).const()
        if d is not None:
            v = {z3.Z3_OP_LE: d <= 0, z3.Z3_OP_LT: d < 0, z3.Z3_OP_GE: d >= 0,
                 z3.Z3_OP_GT: d > 0, z3.Z3_OP_EQ: d == 0}[k]
            return z3.BoolVal(v)
        if k in (z3.Z3_OP_LT, z3.Z3_OP_GE) and tighten(psub(ipoly(r.arg(0)), ipoly(r.arg(1)))) is not None:
            return zbool(cmp_i('<' if k == z3.Z3_OP_LT else '>=', r.arg(0), r.arg(1)))
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT):
        if k == z3.Z3_OP_NOT:
            c = r.arg(0)
            return z3.BoolVal(z3.is_false(c)) if z3.is_true(c) or z3.is_false(c) else r
        if any(z3.is_true(c) or z3.is_false(c) for c in r.children()):
            return zbool((b_and if k == z3.Z3_OP_AND else b_or)(*r.children()))
    return r


def zint(v):
    return z3.IntVal(v) if isinstance(v, int) else v


_reify_cache = {}


def ireify(p):
    """P -> python int or canonical z3 Int term."""
    c = p.const()
    if c is not None:
        return c
    r = _reify_cache.get(('i', p))
    if r is None:
        r = _reify(p, IntS, imul, ipow)
        _reify_cache[('i', p)] = r
        _ip_cache[aid(r)] = p
    return r


def _mono(k, sort, mulf, powf):
    r = None
    for (i, e) in k:
        a = atom(i)
        if isinstance(e, int):
            if e < 0:
                if sort == IntS:
                    raise Unsupported('negative exponent')
                a, e = fninv(a), -e
            if e <= 16:
                for _ in range(e):
                    r = a if r is None else mulf(r, a)
            else:
                x = powf(a, z3.IntVal(e))
                r = x if r is None else mulf(r, x)
        else:
            x = powf(a, zint(ireify(e)))
            r = x if r is None else mulf(r, x)
    return r


_head = {}


def head(i):
    h = _head.get(i)
    if h is None:
        t = _keep[i]
        h = t.decl().name() if z3.is_app(t) else ''
        for c in t.children()[:2]:
            h += ' ' + (c.decl().name() if z3.is_app(c) else '')
        _head[i] = h
    return h


def mono_key(k):
    """Order of monomials: by the shape of their atoms first, so that the order
    mostly survives the renaming of an index."""
    return [(head(i), i, str(ireify(e)) if not isinstance(e, int) else '%09d' % e) for i, e in k]


def _reify(p, sort, mulf, powf):
    parts = []
    for k in sorted(p.t, key=mono_key):
        c = p.t[k]
        cv = z3.IntVal(c)
        if k == ():
            parts.append(cv if sort == IntS else emb(cv))
        else:
            m = _mono(k, sort, mulf, powf)
            parts.append(m if c == 1 else cv * m if sort == IntS else fsc(cv, m))
    if not parts:
        return z3.IntVal(0) if sort == IntS else emb(z3.IntVal(0))
    if len(parts) == 1:
        return parts[0]
    if sort == IntS:
        return z3.Sum(parts)
    r = parts[-1]
    for q in reversed(parts[:-1]):
        r = fadd(q, r)
    return r


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    return ireify(padd(ipoly(a), ipoly(b)))


def isub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    return ireify(psub(ipoly(a), ipoly(b)))


def ineg(a):
    return -a if isinstance(a, int) else ireify(pscale(ipoly(a), -1))


def mul_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    return ireify(pmul(ipoly(a), ipoly(b)))


def canon_i(a):
    return a if isinstance(a, int) else ireify(ipoly(a))


def same_int(a, b):
    """Syntactic (polynomial) equality."""
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return psub(ipoly(a), ipoly(b)).const() == 0


def split_mult(p, c):
    """p = c*q + r with r having no monomial coefficient divisible by c."""
    q, r = {}, {}
    for k, v in p.t.items():
        qq, rr = divmod(v, c)
        if k == ():
            if qq:
                q[k] = qq
            if rr:
                r[k] = rr
        elif rr == 0:
            q[k] = qq
        else:
            if qq:
                q[k] = qq
            r[k] = rr
    return P(q), P(r)


def open_mods(p, c):
    """Replace z % m (c divides m) by z - m * (z / m), if other terms occur too."""
    if len(p.t) < 2:
        return p
    for k, v in p.t.items():
        if len(k) == 1 and k[0][1] == 1:
            t = atom(k[0][0])
            if t.decl().kind() == z3.Z3_OP_MOD and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0 and t.arg(1).as_long() % c == 0:
                m = t.arg(1).as_long()
                rest = P({x: y for x, y in p.t.items() if x != k})
                z = psub(ipoly(t.arg(0)), pscale(ipoly(floordiv(ireify(ipoly(t.arg(0))), m)), m))
                return open_mods(padd(rest, pscale(z, v)), c)
    return p


def floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        if b == 1:
            return a
        if b <= 0:
            raise Unsupported('division by non-positive constant')
        q, r = split_mult(open_mods(ipoly(a), b), b)
        rc = r.const()
        if rc is not None:
            return ireify(padd(q, pconst(rc // b)))
        if (bit_mask(r) or b) < b:
            return ireify(q)
        t = zint(ireify(r)) / z3.IntVal(b)
        return ireify(padd(q, patom(t)))
    # symbolic divisor: exact monomial division when every mono contains it
    pb = ipoly(b)
    if len(pb.t) == 1:
        (mk, mc), = pb.t.items()
        if mc == 1:
            q, r = {}, {}
            for k, v in ipoly(a).t.items():
                kk = mono_div(k, mk)
                if kk is None:
                    r[k] = v
                else:
                    q[kk] = v
            if not r:
                return ireify(P(q))
            if q:
                return ireify(padd(P(q), ipoly(zint(floordiv(ireify(P(r)), b)))))
    e = log2_of(pb)
    if e is not None:
        return ireify(patom(shr(zint(canon_i(a)), zint(e))))
    return idiv(zint(canon_i(a)), zint(canon_i(b)))


def log2_of(pb):
    """e if the polynomial is 2**e with symbolic e, else None."""
    if len(pb.t) != 1:
        return None
    (k, c), = pb.t.items()
    if c > 0 and c & (c - 1) == 0 and len(k) == 1 and k[0][1] == 1 and atom(k[0][0]).decl().eq(pow2):
        return iadd(ireify(ipoly(atom(k[0][0]).arg(0))), c.bit_length() - 1)
    return None


def mono_div(k, mk):
    d = dict(k)
    for i, e in mk:
        if i not in d:
            return None
        e2 = exp_add(d[i], -e if isinstance(e, int) else pscale(e, -1))
        if e2 == 0:
            del d[i]
        elif isinstance(e2, int) and e2 < 0:
            return None
        else:
            d[i] = e2
    return tuple(sorted(d.items(), key=lambda kv: kv[0]))


def mod_i(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        if b <= 0:
            raise Unsupported('mod by non-positive constant')
        if b == 1:
            return 0
        q, r = split_mult(open_mods(ipoly(a), b), b)
        rc = r.const()
        if rc is not None:
            return rc % b
        if (bit_mask(r) or b) < b:
            return ireify(r)
        t = zint(ireify(r))
        if b == 2:
            if t.decl().eq(shr):
                return ireify(patom(bit(t.arg(0), t.arg(1))))
            if t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
                dv = t.arg(1).as_long()
                if dv & (dv - 1) == 0:
                    return ireify(patom(bit(t.arg(0), z3.IntVal(dv.bit_length() - 1))))
        return ireify(patom(t % z3.IntVal(b)))
    pb = ipoly(b)
    if len(pb.t) == 1:
        (mk, mc), = pb.t.items()
        if mc == 2 and len(mk) == 1 and mk[0][1] == 1 and atom(mk[0][0]).decl().eq(pow2):
            # x mod 2^(k+1) = x mod 2^k + 2^k * bit k
            y = atom(mk[0][0])
            t = zint(canon_i(a))
            return iadd(mod_i(a, ireify(patom(y))), mul_i(ireify(patom(y)), ireify(patom(bit(t, y.arg(0))))))
    if len(pb.t) == 1:
        (mk, mc), = pb.t.items()
        if mc == 1:
            r = {k: v for k, v in ipoly(a).t.items() if mono_div(k, mk) is None}
            if not r:
                return 0
            return ireify(ipoly(imod(zint(ireify(P(r))), zint(canon_i(b)))))
    return imod(zint(canon_i(a)), zint(canon_i(b)))


POSITIVE = set()      # atoms assumed to be at least 1 wherever they occur


def cmp_i(op, a, b):
    """Comparison of ints -> python bool or z3 Bool."""
    d = psub(ipoly(a), ipoly(b))
    c = d.const()
    if c is not None:
        return {'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                '==': c == 0, '!=': c != 0}[op]
    if op in ('<', '>='):
        t = tighten(d)
        if t is not None:
            return cmp_i(op, ireify(P({k: v for k, v in t.t.items() if v > 0})), ireify(P({k: -v for k, v in t.t.items() if v < 0})))
    x, y = zint(canon_i(a)), zint(canon_i(b))
    if POSITIVE and len(d.t) > 1:
        for i in POSITIVE:
            q = {}
            for k, v in d.t.items():
                kk = mono_div(k, ((i, 1),))
                if kk is None:
                    break
                q[kk] = v
            else:
                # a common positive factor
                x = ireify(P({k: v for k, v in q.items() if v > 0}))
                y = ireify(P({k: -v for k, v in q.items() if v < 0}))
                return cmp_i(op, x, y)
    return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y,
            '==': x == y, '!=': x != y}[op]


# ---- booleans

def zbool(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def b_not(a):
    if isinstance(a, bool):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def b_and(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        elif z3.is_false(x):
            return False
        elif not z3.is_true(x):
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def b_or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        elif z3.is_true(x):
            return True
        elif not z3.is_false(x):
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def b_implies(a, b):
    return b_or(b_not(a), b)


def b_eq(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else b_not(b)
    if isinstance(b, bool):
        return a if b else b_not(a)
    if a.eq(b):
        return True
    return a == b


def b_xor(a, b):
    return b_not(b_eq(a, b))


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return ireify(patom(z3.If(b, z3.IntVal(1), z3.IntVal(0))))


# ---- field elements

emb = z3.Function('emb', IntS, RealS)      # image of an integer in the field
finv = z3.Function('finv', RealS, RealS)     # total inverse (0 -> 0)
fninv = z3.Function('fninv', RealS, RealS)   # inverse of a known nonzero atom

_fp_cache = {}


def fpoly(t):
    """z3 Real term -> P (inverse of freify)."""
    i = aid(t)
    p = _fp_cache.get(i)
    if p is None:
        p = _fpoly(t)
        _fp_cache[i] = p
    return p


def _fpoly(t):
    if t.decl().eq(fadd):
        return padd(fpoly(t.arg(0)), fpoly(t.arg(1)))
    if t.decl().eq(fsc):
        c = ipoly(t.arg(0)).const()
        if c is None:
            raise Unsupported('symbolic scale')
        return pscale(fpoly(t.arg(1)), c)
    if t.decl().eq(fmul):
        r = pconst(1)
        for c in t.children():
            r = pmul(r, fpoly(c))
        return r
    if t.decl().eq(fpow):
        base, e = fpoly(t.arg(0)), _expo(ipoly(t.arg(1)))
        return fpow_p(base, e)
    if t.decl().eq(fninv):
        return pinv(fpoly(t.arg(0)))
    if t.decl().name().startswith('emb'):
        return emb_p(t.arg(0), t.decl())
    r = recanon(t)
    return patom(r) if r.eq(t) or r.decl().kind() == z3.Z3_OP_ITE else fpoly(r)


def pinv(p):
    """Inverse of a polynomial known to be nonzero."""
    if len(p.t) == 1:
        (k, c), = p.t.items()
        if c in (1, -1):
            return P({tuple((i, emul(x, -1)) for i, x in k): c})
    return P({((aid(freify(p)), -1),): 1})


def fpow_p(base, e):
    """base ** e for an exponent int or int P."""
    if isinstance(e, int) and 0 <= e <= 64:
        c = base.const()
        if c is not None:
            return pconst(c ** e)
        if len(base.t) == 1 or e <= 4:
            return ppow(base, e)
    if len(base.t) == 1:
        (k, c), = base.t.items()
        if c == 1:
            return P({tuple((i, emul(x, e)) for i, x in k): 1})
    t = freify(base)
    if not isinstance(e, int):
        # split a constant part of the exponent off for canonicity
        pass
    return P({((aid(t), e),): 1})


def emul(x, e):
    if isinstance(x, int) and isinstance(e, int):
        return x * e
    px = pconst(x) if isinstance(x, int) else x
    pe = pconst(e) if isinstance(e, int) else e
    r = pmul(px, pe)
    c = r.const()
    return c if c is not None else r


def freify(p):
    r = _reify_cache.get(('f', p))
    if r is None:
        r = _reify(p, RealS, fmul, fpow)
        _reify_cache[('f', p)] = r
        _fp_cache[aid(r)] = p
    return r


def emb_p(t, decl=None):
    """Field image (ring homomorphism) of an integer term as a polynomial."""
    decl = emb if decl is None else decl
    q = ipoly(t)
    r = {}
    for k, c in q.t.items():
        kk = ()
        for (i, e) in k:
            kk = mono_mul(kk, ((aid(decl(atom(i))), e),))
        r[kk] = r.get(kk, 0) + c
    return P({k: c for k, c in r.items() if c})


FIELDS = {}


class FieldCls:
    """A field class as a value: concrete (modulus known) or abstract."""

    def __init__(self, name, modulus, enc, info=None, extra=None):
        self.name = name
        self.modulus = modulus       # int or z3
        self.enc = enc               # int or z3
        self.info = info             # ClassInfo in the source tree
        self.extra = extra or {}
        self.fval = z3.Function('fval_' + name, FldS, IntS)   # representative
        self.emb = z3.Function('emb_' + name, IntS, FldS)
        FIELDS[name] = self

    @property
    def m(self):
        return self.modulus if isinstance(self.modulus, int) else None

    def __repr__(self):
        return '<field %s>' % self.name


class FE:
    """Symbolic field element."""
    __slots__ = ('f', 'p')

    def __init__(self, f, p):
        self.f = f
        self.p = p

    def term(self):
        return freify(self.p)

    def __repr__(self):
        return 'FE(%s)' % self.term()


def fe_red(f, p):
    if f.m:
        return P({k: v for k, v in ((k, symm(c, f.m)) for k, c in p.t.items()) if v})
    return p


def fe_int(f, v):
    return FE(f, fe_red(f, emb_p(v, f.emb)))


def fe_add(a, b):
    return FE(a.f, padd(a.p, b.p, a.f.m))


def fe_sub(a, b):
    return FE(a.f, psub(a.p, b.p, a.f.m))


def fe_neg(a):
    return FE(a.f, pscale(a.p, -1, a.f.m))


def fe_mul(a, b):
    return FE(a.f, pmul(a.p, b.p, a.f.m))


def fe_pow(a, n):
    if isinstance(n, int):
        if n < 0:
            raise Unsupported('negative field exponent')
        c = a.p.const()
        if c is not None and a.f.m:
            return FE(a.f, pconst(symm(pow(c, n, a.f.m), a.f.m)))
    return FE(a.f, fe_red(a.f, fpow_p(a.p, n if isinstance(n, int) else _expo(ipoly(n)))))


def fe_inv(a, nonzero=False):
    c = a.p.const()
    if c is not None and a.f.m and c % a.f.m:
        return FE(a.f, pconst(symm(pow(c, -1, a.f.m), a.f.m)))
    if nonzero:
        return FE(a.f, pinv(a.p))
    return FE(a.f, patom(finv(a.term())))


def fe_eq(a, b):
    d = psub(a.p, b.p, a.f.m)
    c = d.const()
    if c is not None:
        if c == 0:
            return True
        if a.f.m or abs(c) < 2 ** 60:
            return False
    return eq_atom(d)


def eq_atom(d):
    """The atom `d == 0` as an equation positive part == negative part."""
    lead = min(d.t, key=mono_key)
    if d.t[lead] < 0:
        d = pscale(d, -1)
    pos = P({k: c for k, c in d.t.items() if c > 0})
    neg = P({k: -c for k, c in d.t.items() if c < 0})
    return freify(pos) == freify(neg)


def fe_val(a):
    """Canonical integer representative."""
    c = a.p.const()
    if c is not None:
        if a.f.m:
            return c % a.f.m
        if 0 <= c < 2 ** 60:
            return c
    return a.f.fval(a.term())


def fe_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a.p == b.p:
        return a
    com = {k: v for k, v in a.p.t.items() if b.p.t.get(k) == v}
    if com:
        # keep what both sides share outside the condition
        x = FE(a.f, P({k: v for k, v in a.p.t.items() if k not in com}))
        y = FE(a.f, P({k: v for k, v in b.p.t.items() if k not in com}))
        return FE(a.f, padd(P(com), patom(z3.If(c, x.term(), y.term()))))
    return FE(a.f, patom(z3.If(c, a.term(), b.term())))


def i_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if same_int(a, b):
        return a
    return ireify(patom(z3.If(c, zint(canon_i(a)), zint(canon_i(b)))))


def b_ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) and isinstance(b, bool):
        if a == b:
            return a
        return c if a else b_not(c)
    return z3.If(c, zbool(a), zbool(b))


# ---- substitution

def zsubst(t, pairs):
    if not pairs:
        return t
    return z3.substitute(t, *pairs)


def isubst(v, pairs):
    if isinstance(v, int):
        return v
    r = zsubst(v, pairs)
    if r is v or r.eq(v):
        return v
    return ireify(ipoly(r))


def bsubst(v, pairs):
    if isinstance(v, bool):
        return v
    r = zsubst(v, pairs)
    if r.eq(v):
        return v
    r2 = bcanon(r)
    if z3.is_true(r2):
        return True
    if z3.is_false(r2):
        return False
    return r2


def bcanon(r):
    """Canonicalise a boolean term (comparisons with constant difference)."""
    if z3.is_quantifier(r):
        return r
    k = r.decl().kind()
    if k == z3.Z3_OP_AND:
        return zbool(b_and(*[bcanon(c) for c in r.children()]))
    if k == z3.Z3_OP_OR:
        return zbool(b_or(*[bcanon(c) for c in r.children()]))
    if k == z3.Z3_OP_NOT:
        x = bcanon(r.arg(0))
        return z3.BoolVal(True) if z3.is_false(x) else z3.BoolVal(False) if z3.is_true(x) else z3.Not(x)
    if r.num_args() == 2 and r.arg(0).sort() == IntS and k in _CMP:
        return zbool(cmp_i(_CMP[k], r.arg(0), r.arg(1)))
    return recanon(r) if r.children() else r


_CMP = {z3.Z3_OP_LE: '<=', z3.Z3_OP_LT: '<', z3.Z3_OP_GE: '>=',
        z3.Z3_OP_GT: '>', z3.Z3_OP_EQ: '=='}


def fsubst(e, pairs):
    t = e.term()
    r = zsubst(t, pairs)
    if r.eq(t):
        return e
    return FE(e.f, fe_red(e.f, fpoly(r)))


_consts = {}


def consts_of(t):
    """Ids of 0-ary uninterpreted constants occurring in t."""
    k = t.get_id()
    if k not in _consts:
        _consts[k] = (t, consts_of0(t))     # keeps t alive, so its id stays its own
    return _consts[k][1]


def consts_of0(t):
    acc = {}
    seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            stack.append(x.body())
            continue
        if z3.is_var(x):
            continue
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc[aid(x)] = x
        else:
            stack.extend(x.children())
    return acc
