"""Discharging obligations with z3: theory instances for the reified functions."""
import time
import z3
from .terms import *
from .values import *
from .primes import PRIMES
from . import terms as T
from . import values as V

lebyte = z3.Function('lebyte', IntS, IntS, IntS)      # i-th LE byte of an int
fromle = z3.Function('fromle', TokS, IntS)            # LE bytes -> int
powmod = z3.Function('powmod', IntS, IntS, IntS, IntS)
tlen = z3.Function('tlen', TokS, IntS)

RANGE = {'lebyte': (0, 256), 'bit': (0, 2)}
EXTRA = []          # extra fact generators: fn(term) -> list of facts

STATS = {'queries': 0, 'time': 0.0, 'by': {}}


class QFact:
    """guard => forall var in [lo, hi): body(var).

    body: python callable returning a Bool, a QFact or a list of those."""

    def __init__(self, lo, hi, body, guard=True):
        self.lo, self.hi, self.body, self.guard = lo, hi, body, guard
        self.cache = {}

    def inst(self, t):
        """List of facts (Bool / QFact) for the instance t."""
        key = ('c', t) if isinstance(t, int) else aid(t)
        if key not in self.cache:
            try:
                b = self.body(t)
            except (Unsupported, MergeFail):
                b = True
            g = b_and(self.guard, cmp_i('<=', self.lo, t), cmp_i('<', t, self.hi))
            out = []
            if g is not False:
                for x in (b if isinstance(b, list) else [b]):
                    if isinstance(x, QFact):
                        out.append(QFact(x.lo, x.hi, x.body, b_and(g, x.guard)))
                    else:
                        y = b_implies(g, x)
                        if y is not True:
                            out.append(zbool(y))
            self.cache[key] = out
        return self.cache[key]

    def subst(self, pairs):
        pairs = list(pairs)

        def body(t):
            v = fresh_index('s')
            b = self.body(v)
            out = []
            for x in (b if isinstance(b, list) else [b]):
                if isinstance(x, QFact):
                    out.append(x.subst(pairs).subst([(v, zint(t))]))
                else:
                    out.append(bsubst(bsubst(x, pairs), [(v, zint(t))]))
            return out
        return QFact(isubst(self.lo, pairs), isubst(self.hi, pairs), body, bsubst(self.guard, pairs))

    def __repr__(self):
        return 'forall %s<=q<%s: ..' % (self.lo, self.hi)


_sub_cache = {}


def allsubs(t):
    """Tuple of all subterms of t (cached by term)."""
    i = aid(t)
    r = _sub_cache.get(i)
    if r is not None:
        return r
    seen = {}
    stack = [t]
    out = []
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen[k] = x
        aid(x)
        if z3.is_quantifier(x) or z3.is_var(x):
            continue
        c = _sub_cache.get(k) if x is not t else None
        if c is not None:
            for y in c:
                if y[0] not in seen or y[0] == k:
                    seen[y[0]] = y[1]
                    out.append(y)
            continue
        out.append((k, x))
        stack.extend(x.children())
    _sub_cache[i] = out = list(dict(out).items())
    return out


def subterms(ts, seen=None):
    seen = {} if seen is None else seen
    out = []
    for t in ts:
        for k, x in allsubs(t):
            if k not in seen:
                seen[k] = x
                out.append(x)
    return out


_uname = {}


def uname(t):
    """Name of an uninterpreted application with arguments, else None."""
    i = aid(t)
    r = _uname.get(i, 0)
    if r == 0:
        r = None
        if t.num_args():
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                r = d.name()
        _uname[i] = r
    return r


_pair_cache = {}


def pairs_of(a, b, fn):
    k = (aid(a), aid(b))
    r = _pair_cache.get(k)
    if r is None:
        r = _pair_cache[k] = fn(a, b)
    return r


_facts_cache = {}


def term_facts(t):
    i = aid(t)
    r = _facts_cache.get(i)
    if r is None:
        r = [f for f in _term_facts(t) if f is not True]
        _facts_cache[i] = r
    return r


def int_preimage(p, f):
    """Integer term whose image in f is p, if p is built from embeddings."""
    r = {}
    for k, c in p.t.items():
        kk = ()
        for (i, e) in k:
            a = atom(i)
            if a.decl().eq(f.emb):
                kk = mono_mul(kk, ((aid(a.arg(0)), e),))
            elif a.decl().kind() == z3.Z3_OP_ITE and e == 1:
                x, y = int_preimage(fpoly(a.arg(1)), f), int_preimage(fpoly(a.arg(2)), f)
                if x is None or y is None:
                    return None
                t = z3.If(a.arg(0), zint(x), zint(y))
                kk = mono_mul(kk, ((aid(t), 1),))
            else:
                return None
            if not isinstance(e, int) or e < 0:
                return None
        r[kk] = r.get(kk, 0) + c
    return ireify(P({k: v for k, v in r.items() if v}))


def _term_facts(t):
    if t.num_args() == 0:
        return []
    d = t.decl()
    if d.kind() != z3.Z3_OP_UNINTERPRETED:
        return []
    name = d.name()
    out = []
    rg = RANGE.get(name)
    if rg:
        if rg[0] is not None:
            out.append(t >= rg[0])
        if rg[1] is not None:
            out.append(t < rg[1])
    if name.startswith('fval_'):
        f = FIELDS[name[5:]]
        m = zint(f.modulus)
        out += [t >= 0, t < m]
        x = t.arg(0)
        out.append(f.emb(t) == x)
        pre = int_preimage(fpoly(x), f)
        if pre is not None:
            z = zint(pre)
            out.append(z3.Implies(z3.And(z >= 0, z < m), t == z))
            out.append(z3.Implies(z3.And(z < 0, z > -m), t == z + m))
    elif name == 'lebyte':
        v = t.arg(0)
        if z3.is_int_value(t.arg(1)) and 0 <= t.arg(1).as_long() < 4:
            out.append(z3.Implies(v >= 0, t == (v / 256 ** t.arg(1).as_long()) % 256))
        if v.decl().name() == 'fromle':
            s = seq_of_tok(v.arg(0))
            if s is not None:
                i = t.arg(1)
                try:
                    e = s.get(canon_i(i))
                    out.append(z3.Implies(z3.And(i >= 0, i < zint(s.n)), t == zint(e)))
                except (Unsupported, MergeFail, IndexError):
                    pass
    elif name == 'fromle':
        s = seq_of_tok(t.arg(0))
        out.append(t >= 0)
        if s is not None:
            if isinstance(s.n, int):
                out.append(t < 2 ** (8 * s.n))
                if s.n <= 4:
                    try:
                        out.append(t == zint(sum_int(lambda i: mul_i(256 ** i, s.get(i)), 0, s.n)))
                    except (Unsupported, MergeFail):
                        pass
            else:
                out.append(t < pow2(zint(mul_i(8, s.n))))
    elif name == 'pow2':
        x = t.arg(0)
        out.append(z3.Implies(x >= 0, z3.And(t >= 1, t > x)))
        out.append(z3.Implies(x == 0, t == 1))
        out.append(z3.Implies(x >= 1, t >= 2))
    elif name == 'bitlen':
        x = t.arg(0)
        out += [t >= 0, z3.Implies(x == 0, t == 0)]
        tm1 = zint(isub(t, 1))
        out.append(z3.Implies(x >= 1, z3.And(t >= 1, pow2(tm1) <= x, x < pow2(t), pow2(t) == 2 * pow2(tm1), t <= x)))
    elif name == 'idiv' or name == 'imod':
        a, b = t.args() if hasattr(t, 'args') else t.children()
        q, r = idiv(a, b), imod(a, b)
        out.append(z3.Implies(b > 0, z3.And(r >= 0, r < b, zint(mul_i(q, b)) + r == a)))
        out.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(q >= 0, q <= a)))
        out.append(z3.Implies(z3.And(a >= 0, a < b), z3.And(q == 0, r == a)))
    elif name == 'imul':
        a, b = t.children()
        out.append(z3.Implies(z3.And(a >= 0, b >= 0), t >= 0))
        out.append(z3.Implies(z3.And(a >= 1, b >= 1), z3.And(t >= a, t >= b)))
        out.append(z3.Implies(z3.Or(a == 0, b == 0), t == 0))
        out.append(z3.Implies(a == 1, t == b))
        out.append(z3.Implies(b == 1, t == a))
    elif name == 'bit':
        x, l = t.children()
        out.append(z3.Implies(l == 0, t == x % 2))
        if z3.is_int_value(l) and 0 <= l.as_long() < 8:
            out.append(z3.Implies(z3.And(0 <= x, x < 256), x == z3.Sum([2**j * bit(x, z3.IntVal(j)) for j in range(8)])))
    elif name.startswith('emb_') and t.arg(0).decl().eq(bit):
        out += [z3.Implies(t.arg(0) == 0, t == emb(z3.IntVal(0))), z3.Implies(t.arg(0) == 1, t == emb(z3.IntVal(1)))]
    elif name == 'shr':
        x, l = t.children()
        b = pow2(l)
        r = imod(x, b)
        out.append(z3.Implies(l >= 0, z3.And(r >= 0, r < b, zint(mul_i(t, b)) + r == x)))
        out.append(z3.Implies(z3.And(l >= 0, x >= 0), z3.And(t >= 0, t <= x)))
        out.append(z3.Implies(z3.And(l >= 0, x >= 0, x < b), z3.And(t == 0, r == x)))
    elif name.startswith('fcnt!'):
        out.append(t >= 0)
        out.append(z3.Implies(t.arg(1) <= t.arg(0), t == 0))
        out.append(z3.Implies(t.arg(1) >= t.arg(0), t <= t.arg(1) - t.arg(0)))
    elif name in ('bxor', 'band', 'bor'):
        out.append(t == t.decl()(t.arg(1), t.arg(0)))
        x, y = t.children()
        out.append(z3.Implies(z3.And(x >= 0, y >= 0), t >= 0))
        for b in (2, 256):
            out.append(z3.Implies(z3.And(x >= 0, y >= 0, x < b, y < b), t < b))
        if name == 'band':
            out.append(z3.Implies(z3.And(x >= 0, y >= 0), z3.And(t <= x, t <= y)))
    elif name == 'powmod':
        m = t.arg(2)
        out.append(z3.Implies(m > 0, z3.And(t >= 0, t < m)))
        mc, ec = ipoly(m).const(), ipoly(t.arg(1)).const()
        a = t.arg(0)
        if mc in PRIMES and ec in (mc - 2, -1):
            # Fermat: a * a^(p-2) = 1 (mod p) for a not divisible by the prime p
            prod = zint(mod_i(mul_i(a, t), mc))
            out.append(z3.Implies(z3.And(a > 0, a < mc), prod == 1))
        if ec is not None and ec > 0 and mc is not None:
            out.append(z3.Implies(a == 0, t == 0))
        if ec == 0 and mc is not None and mc > 1:
            out.append(t == 1)
        if mc is not None and mc > 1:
            out.append(z3.Implies(t.arg(1) == 0, t == 1))
    elif name in V.SUMS:
        tpl = V.SUMS[name]
        if tpl.sort == IntS:
            out.append(z3.Implies(t.arg(0) <= 0, t == 0))
        else:
            out.append(z3.Implies(t.arg(0) <= 0, t == emb(z3.IntVal(0))))
    for g in EXTRA:
        out += g(t)
    return [f for f in out if not (isinstance(f, bool) and f)]


def pow2_pair(x, y, first=True):
    a, b = x.arg(0), y.arg(0)
    dc = psub(ipoly(b), ipoly(a)).const()
    if dc is not None and 0 < dc <= 4096:
        return [z3.Implies(a >= 0, y == 2 ** dc * x)]
    if dc is None:
        return [z3.Implies(z3.And(a >= 0, a < b), 2 * x <= y), z3.Implies(a == b, x == y)]
    return []


def imul_pair(m, n):
    out = []
    for x in (0, 1):
        for y in (0, 1):
            if m.arg(x).eq(n.arg(y)):
                c, a, b = m.arg(x), m.arg(1 - x), n.arg(1 - y)
                out.append(z3.Implies(z3.And(c >= 0, a + 1 <= b), m + c <= n))
                out.append(z3.Implies(a == b, m == n))
    return out


def imul_one(m, _):
    out = []
    for x in (0, 1):
        c, a = m.arg(x), m.arg(1 - x)
        out.append(z3.Implies(z3.And(c >= 0, a >= 2), m >= 2 * c))
        out.append(z3.Implies(z3.And(c >= 0, a <= 0), m <= 0))
    return out


def sum_pair(a, b):
    tpl = V.SUMS[uname(a)]
    if all(x.eq(y) for x, y in zip(a.children()[1:], b.children()[1:])):
        dc = psub(ipoly(a.arg(0)), ipoly(b.arg(0))).const()
        if dc == 1:
            return [z3.Implies(b.arg(0) >= 0, a == b + tpl.term_at(b.children()[1:], b.arg(0)))]
    return []


def fcnt_pair(a, b):
    """Counts of one filter over two ranges with the same start."""
    if not a.arg(0).eq(b.arg(0)) or not all(x.eq(y) for x, y in zip(a.children()[2:], b.children()[2:])):
        return []
    out = [z3.Implies(a.arg(1) <= b.arg(1), a <= b), z3.Implies(a.arg(1) == b.arg(1), a == b)]
    if psub(ipoly(a.arg(1)), ipoly(b.arg(1))).const() == 1:
        from .interp import fcond_at
        c = fcond_at(b, b.arg(1))
        out.append(z3.Implies(b.arg(1) >= b.arg(0), a == b + z3.If(c, 1, 0)))
    return out


def pair_facts(terms):
    """Facts relating pairs of applications (monotonicity etc.)."""
    out = []
    by = {}
    for t in terms:
        nm = uname(t)
        if nm is not None and (nm == 'pow2' or nm == 'imul' or nm.startswith('sum!') or nm.startswith('fcnt!')):
            by.setdefault(nm, []).append(t)
    ps = by.get('pow2', [])[:12]
    for x in ps:
        for y in ps:
            if x is not y:
                out += pairs_of(x, y, pow2_pair)
    ms = by.get('imul', [])[:14]
    for x in ms:
        for y in ms:
            if x is not y:
                out += pairs_of(x, y, imul_pair)
        # products against single factors: k*c vs imul(a, c)
        out += pairs_of(x, x, imul_one)
    for name, ts in by.items():
        if name.startswith('fcnt!'):
            for a in ts:
                for b in ts:
                    if a is not b:
                        out += pairs_of(a, b, fcnt_pair)
        if name in V.SUMS and V.SUMS[name].sort == IntS:
            for a in ts:
                for b in ts:
                    if a is not b:
                        out += pairs_of(a, b, sum_pair)
    return out


def tok_pairs(facts, terms):
    """Elementwise consequences of token equalities asserted by the facts."""
    return []


_idx_cache = {}


def index_of(t):
    i = aid(t)
    r = _idx_cache.get(i)
    if r is None:
        r = []
        if t.num_args() == 0:
            if t.sort() == IntS and i in IVARS:
                r = [t]
        else:
            nm = uname(t)
            if nm is not None and not (nm in ('imul', 'pow2', 'bitlen', 'idiv', 'imod') or nm.startswith('fval_') or nm.startswith('emb')):
                r = [c for c in t.children() if c.sort() == IntS]
        _idx_cache[i] = r
    return r


def index_terms(terms, limit=40):
    """Candidate index terms for instantiating quantified facts."""
    cand = {}
    for t in terms:
        for c in index_of(t):
            cand[aid(c)] = c
    return list(cand.values())[:limit]


class Prover:
    def __init__(self, timeout=4000):
        self.timeout = timeout
        self.cache = {}
        self.last_model = None

    def gather(self, facts, goal, rounds=4, qinst=True):
        base = [f for f in facts if not isinstance(f, QFact)]
        qs = [f for f in facts if isinstance(f, QFact)]
        seen = {}
        ts = subterms([zbool(b) for b in base if not isinstance(b, bool)] + ([goal] if goal is not None else []), seen)
        allterms = list(ts)
        extra = []
        have = set()
        qseen = set()
        new = ts
        for r in range(rounds):
            add = []
            for t in new:
                for f in term_facts(t):
                    if aid(f) not in have:
                        have.add(aid(f))
                        add.append(f)
            if qs and qinst and r < 3:
                idx = index_terms(allterms)
                newq = []
                for q in qs:
                    cands = list(idx)
                    for b in (q.lo, isub(q.hi, 1)):
                        cands.append(b)
                    for t in cands:
                        for f in q.inst(canon_i(t)):
                            if isinstance(f, QFact):
                                if id(f) not in qseen:
                                    qseen.add(id(f))
                                    newq.append(f)
                            elif aid(f) not in have:
                                have.add(aid(f))
                                add.append(f)
                qs = qs + newq[:12]
            if not add:
                break
            extra += add
            new = subterms(add, seen)
            allterms += new
        for f in pair_facts(allterms):
            extra.append(f)
        return base + extra

    def light(self, facts, goal):
        """Quick attempt with the facts that share symbols with the goal only."""
        if z3.is_false(goal):
            return False
        syms = set(consts_of(goal))
        fs = [f for f in facts if not isinstance(f, (QFact, bool)) and (set(consts_of(f)) & syms)]
        if len(fs) > 24:
            fs = [f for f in fs if set(consts_of(f)) <= syms][:40]
        s = z3.Solver()
        s.set('timeout', 150)
        for a in fs:
            s.add(a)
        for t in subterms(fs + [goal]):
            for f in term_facts(t):
                s.add(f)
        s.add(z3.Not(goal))
        STATS['queries'] += 1
        return s.check() == z3.unsat

    def check(self, facts, goal, timeout=None):
        """Return 'valid' / 'invalid' / 'unknown' for facts |= goal."""
        if isinstance(goal, bool):
            if goal:
                return 'valid'
            gz = z3.BoolVal(False)
        else:
            gz = goal
        key = (tuple(id(f) if isinstance(f, QFact) else (f if isinstance(f, bool) else aid(f)) for f in facts), aid(gz))
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        if self.light(facts, gz):
            self.cache[key] = 'valid'
            STATS['time'] += time.time() - t0
            self._keep = getattr(self, '_keep', [])
            self._keep.append(facts)
            return 'valid'
        asserts = self.gather(facts, gz)
        s = z3.Solver()
        s.set('timeout', timeout or self.timeout)
        have = set()
        for a in asserts:
            if isinstance(a, bool):
                s.add(a)
            elif aid(a) not in have:
                have.add(aid(a))
                z3.Z3_solver_assert(s.ctx.ref(), s.solver, a.as_ast())
        s.add(z3.Not(gz))
        r = s.check()
        STATS['queries'] += 1
        STATS['time'] += time.time() - t0
        res = 'valid' if r == z3.unsat else 'invalid' if r == z3.sat else 'unknown'
        if res == 'invalid':
            self.last_model = s.model()
        self.cache[key] = res
        self._keep = getattr(self, '_keep', [])
        self._keep.append(facts)
        return res
