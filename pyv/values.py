"""Symbolic values: sequences as (length, getter), tokens, sums."""
import itertools
import z3
from .terms import *
from . import terms as T


class MergeFail(Exception):
    """Two values cannot be merged under a condition; carries the condition."""

    def __init__(self, cond):
        self.cond = cond


class CTX:
    """Hook set by the interpreter: decide a condition under the current path."""
    decide = staticmethod(lambda c: None)


def known(c):
    if isinstance(c, bool):
        return c
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return CTX.decide(c)


# ------------------------------------------------------------------ sequences

class Seq:
    kind = 'list'

    def with_kind(self, kind):
        if kind == self.kind:
            return self
        import copy
        r = copy.copy(self)
        r.kind = kind
        return r

    def items(self):
        """List of items if the length is a concrete int."""
        if not isinstance(self.n, int):
            raise Unsupported('symbolic length')
        return [self.get(i) for i in range(self.n)]


class Lit(Seq):
    def __init__(self, items, kind='list'):
        self._items = list(items)
        self.n = len(self._items)
        self.kind = kind

    def get(self, i):
        if isinstance(i, int):
            return self._items[i]
        if not self._items:
            raise Unsupported('get from empty literal')
        r = self._items[-1]
        for k in range(len(self._items) - 2, -1, -1):
            c = cmp_i('==', i, k)
            kn = known(c)
            if kn is True:
                return self._items[k]
            if kn is False:
                continue
            r = ite(c, self._items[k], r)
        return r

    def items(self):
        return list(self._items)

    def subst(self, pairs):
        return Lit([subst(x, pairs) for x in self._items], self.kind)


class Fun(Seq):
    def __init__(self, n, fn, kind='list', tag=None):
        self.n = canon_i(n)
        self.fn = fn
        self.kind = kind
        self.tag = tag

    def get(self, i):
        return self.fn(i)

    def subst(self, pairs):
        return Fun(isubst(self.n, pairs), _subst_fn(self.fn, pairs), self.kind, None)


def _subst_fn(fn, pairs):
    pairs = list(pairs)

    def g(i):
        # avoid capture: evaluate at a fresh index, substitute, then plug i in
        v = fresh_index('s')
        r = subst(fn(v), pairs)
        return subst(r, [(v, zint(i))])
    return g


class Cat(Seq):
    def __init__(self, parts, kind='list'):
        self.parts = parts
        n = 0
        for p in parts:
            n = iadd(n, p.n)
        self.n = n
        self.kind = kind

    def get(self, i):
        off = 0
        conds = []
        for p in self.parts[:-1]:
            end = iadd(off, p.n)
            c = cmp_i('<', i, end)
            k = known(c)
            if k is True:
                conds.append((True, p, off))
                break
            if k is None:
                conds.append((c, p, off))
            off = end
        else:
            conds.append((True, self.parts[-1], off))
        r = None
        for c, p, o in reversed(conds):
            try:
                v = p.get(isub(i, o))
            except (IndexError, Unsupported):
                if isinstance(p, Lit) and p.n == 0:
                    continue
                if isinstance(p, Lit) and isinstance(isub(i, o), int):
                    continue
                raise
            r = v if r is None else ite(c, v, r)
        return r

    def subst(self, pairs):
        return mkcat([p.subst(pairs) for p in self.parts], self.kind)


def mkcat(parts, kind='list'):
    flat = []
    for p in parts:
        if isinstance(p, Cat):
            flat.extend(p.parts)
        elif isinstance(p.n, int) and p.n == 0:
            continue
        else:
            flat.append(p)
    out = []
    for p in flat:
        if isinstance(p, Lit) and out and isinstance(out[-1], Lit):
            out[-1] = Lit(out[-1]._items + p._items, kind)
        else:
            out.append(p)
    if not out:
        return Lit([], kind)
    if len(out) == 1:
        return out[0].with_kind(kind)
    return Cat(out, kind)


class Slice(Seq):
    def __init__(self, base, off, n, kind=None):
        self.base, self.off, self.n = base, canon_i(off), canon_i(n)
        self.kind = kind or base.kind

    def get(self, i):
        return self.base.get(iadd(self.off, i))

    def subst(self, pairs):
        return mkslice(self.base.subst(pairs), isubst(self.off, pairs), isubst(self.n, pairs), self.kind)


def mkslice(base, off, n, kind=None):
    """base[off:off+n]; caller guarantees 0 <= off, off+n <= len(base)."""
    kind = kind or base.kind
    off, n = canon_i(off), canon_i(n)
    if isinstance(n, int) and n == 0:
        return Lit([], kind)
    if isinstance(off, int) and off == 0 and same_int(n, base.n):
        return base.with_kind(kind)
    if isinstance(base, Lit) and isinstance(off, int) and isinstance(n, int):
        return Lit(base._items[off:off + n], kind)
    if isinstance(base, Slice):
        return mkslice(base.base, iadd(base.off, off), n, kind)
    if isinstance(base, Cat):
        # drop leading parts entirely before off
        parts = list(base.parts)
        start = off
        changed = False
        while parts and known(cmp_i('>=', start, parts[0].n)):
            start = isub(start, parts[0].n)
            parts.pop(0)
            changed = True
        if not parts:
            return Lit([], kind)
        # take whole parts while possible
        out = []
        rem = n
        s = start
        ok = True
        while True:
            if isinstance(rem, int) and rem == 0:
                break
            if not parts:
                ok = False
                break
            avail = isub(parts[0].n, s)
            if known(cmp_i('<=', rem, avail)):
                out.append(mkslice(parts[0], s, rem, kind))
                rem = 0
                break
            if known(cmp_i('>=', rem, avail)):
                out.append(mkslice(parts[0], s, avail, kind))
                rem = isub(rem, avail)
                s = 0
                parts.pop(0)
                continue
            ok = False
            break
        if ok:
            return mkcat(out, kind)
        if changed:
            parts = list(base.parts)
            start = off
            while parts and known(cmp_i('>=', start, parts[0].n)):
                start = isub(start, parts[0].n)
                parts.pop(0)
            return Slice(mkcat(parts, kind), start, n, kind)
    if isinstance(base, Flat):
        # whole inner block?
        q = exact_div(off, base.inner)
        if q is not None:
            if same_int(n, base.inner):
                return base.blk(q).with_kind(kind)
            m = exact_div(n, base.inner)
            if m is not None:
                return mkflat(m, base.inner, lambda i, q=q: base.blk(iadd(q, i)), kind)
    return Slice(base, off, n, kind)


def exact_div(a, b):
    """a / b when b divides a as polynomials, else None."""
    if isinstance(b, int):
        if b == 0:
            return None
        q, r = split_mult(ipoly(a), b)
        return ireify(q) if not r.t else None
    if isinstance(a, int) and a == 0:
        return 0
    pb = ipoly(b)
    if len(pb.t) == 1:
        (mk, mc), = pb.t.items()
        q = {}
        for k, v in ipoly(a).t.items():
            kk = mono_div(k, mk)
            if kk is None or v % mc:
                return None
            q[kk] = v // mc
        return ireify(P(q))
    # multivariate long division by a polynomial with leading coefficient 1
    lead = max(pb.t, key=lambda k: (len(k) and sum(e if isinstance(e, int) else 99 for _, e in k), mono_key(k)))
    if pb.t[lead] not in (1, -1) or lead == ():
        return None
    rem, quo = ipoly(a), P({})
    for _ in range(40):
        if not rem.t:
            return ireify(quo)
        for k, v in rem.t.items():
            kk = mono_div(k, lead)
            if kk is not None:
                break
        else:
            return None
        t = P({kk: v * pb.t[lead]})
        quo = padd(quo, t)
        rem = psub(rem, pmul(t, pb))
    return None


class Flat(Seq):
    """Concatenation of m blocks blk(0..m-1), each of length inner (symbolic)."""

    def __init__(self, m, inner, blk, kind='list'):
        self.m, self.inner, self.blk, self.kind = canon_i(m), canon_i(inner), blk, kind
        self.n = mul_i(self.m, self.inner)

    def get(self, i):
        q, r = divmod_idx(i, self.inner)
        return self.blk(q).get(r)

    def subst(self, pairs):
        pairs = list(pairs)

        def g(i):
            v = fresh_index('s')
            return subst(subst(self.blk(v), pairs), [(v, zint(i))])
        return mkflat(isubst(self.m, pairs), isubst(self.inner, pairs), g, self.kind)


def mkflat(m, inner, blk, kind='list'):
    if isinstance(m, int):
        return mkcat([blk(i) for i in range(m)], kind)
    if isinstance(inner, int) and inner == 1:
        return Fun(m, lambda i: blk(i).get(0), kind)
    return Flat(m, inner, blk, kind)


def divmod_idx(i, n):
    """(i div n, i mod n), simplified when i = n*q + r with r known in range."""
    p = ipoly(i)
    if isinstance(n, int):
        q, r = split_mult(p, n)
        rv = ireify(r)
        if known(b_and(cmp_i('>=', rv, 0), cmp_i('<', rv, n))):
            return ireify(q), rv
    else:
        pb = ipoly(n)
        if len(pb.t) == 1:
            (mk, mc), = pb.t.items()
            if mc == 1:
                q, r = {}, {}
                for k, v in p.t.items():
                    kk = mono_div(k, mk)
                    if kk is None:
                        r[k] = v
                    else:
                        q[kk] = v
                rv = ireify(P(r))
                if known(b_and(cmp_i('>=', rv, 0), cmp_i('<', rv, n))):
                    return ireify(P(q)), rv
    return floordiv(i, n), mod_i(i, n)


class Store(Seq):
    def __init__(self, base, idx, val, kind=None):
        self.base, self.idx, self.val = base, canon_i(idx), val
        self.n = base.n
        self.kind = kind or base.kind

    def get(self, i):
        c = cmp_i('==', i, self.idx)
        k = known(c)
        if k is True:
            return self.val
        if k is False:
            return self.base.get(i)
        return ite(c, self.val, self.base.get(i))

    def subst(self, pairs):
        return mkstore(self.base.subst(pairs), isubst(self.idx, pairs), subst(self.val, pairs))


def mkstore(base, idx, val):
    idx = canon_i(idx)
    if isinstance(base, Lit) and isinstance(idx, int):
        it = list(base._items)
        it[idx] = val
        return Lit(it, base.kind)
    if isinstance(base, Store) and same_int(base.idx, idx):
        return mkstore(base.base, idx, val)
    if isinstance(base, Cat):
        off = 0
        for q, p in enumerate(base.parts):
            r = isub(idx, off)
            if isinstance(r, int) and r >= 0 and known(cmp_i('<', r, p.n)) is True:
                new = mkcat([mkslice(p, 0, r), Lit([val], p.kind), mkslice(p, r + 1, isub(p.n, r + 1))], p.kind)
                return mkcat(list(base.parts[:q]) + [new] + list(base.parts[q + 1:]), base.kind)
            off = iadd(off, p.n)
    return Store(base, idx, val)


class IteSeq(Seq):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.n = i_ite(c, a.n, b.n)
        self.kind = a.kind

    def get(self, i):
        k = known(self.c)
        if k is True:
            return self.a.get(i)
        if k is False:
            return self.b.get(i)
        return ite(self.c, self.a.get(i), self.b.get(i))

    def subst(self, pairs):
        return ite(bsubst(self.c, pairs), self.a.subst(pairs), self.b.subst(pairs))


def seq_of_bytes(b):
    return Lit(list(b), 'bytes')


def repeat(v, n, kind='list'):
    if isinstance(n, int):
        return Lit([v] * max(n, 0), kind)
    return Fun(n, lambda i: v, kind)


# ------------------------------------------------------------- other values

class Ref:
    """Reference to a heap cell (list or object)."""
    __slots__ = ('id',)

    def __init__(self, i):
        self.id = i

    def __repr__(self):
        return 'Ref(%d)' % self.id

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))


class SymObj:
    """Abstract object: identity term + class; attributes given by `attrs`."""

    def __init__(self, cls, ident, attrs):
        self.cls, self.ident, self.attrs = cls, ident, attrs

    def __repr__(self):
        return '<SymObj %s>' % getattr(self.cls, 'name', self.cls)


class Opaque:
    """An opaque value known only by a token term (plus a type name)."""

    def __init__(self, ty, tok):
        self.ty, self.tok = ty, tok

    def __repr__(self):
        return '<%s %s>' % (self.ty, self.tok)


class SetVal:
    def __init__(self, seq):
        self.seq = seq


class SetLen:
    """len(set(seq))"""

    def __init__(self, seq):
        self.seq = seq


class RangeVal:
    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step

    def length(self):
        d = isub(self.stop, self.start)
        if self.step == 1:
            n = d
        elif isinstance(self.step, int) and self.step > 0:
            n = floordiv(iadd(d, self.step - 1), self.step)
        elif self.step == -1:
            n = ineg(d)
        else:
            q = exact_div(d, self.step)
            if q is None:
                raise Unsupported('range step')
            n = q
        if isinstance(n, int):
            return max(n, 0)
        if known(cmp_i('>=', n, 0)):
            return n
        return i_ite(cmp_i('>=', n, 0), n, 0)

    def seq(self):
        n = self.length()
        f = lambda i: iadd(self.start, mul_i(self.step, i))
        if isinstance(n, int) and n <= 4096:
            return Lit([f(i) for i in range(n)], 'range')
        return Fun(n, f, 'range')


class Unbound:
    pass


UNBOUND = Unbound()


class LastVal:
    """Value a loop temporary has after the loop (if the loop ran)."""

    def __init__(self, val, n):
        self.val, self.n = val, n


# ------------------------------------------------------------ generic ops

def subst(v, pairs):
    if v is None or isinstance(v, (bool, int, str, bytes, Ref)):
        return v
    if is_z3(v):
        if v.sort() == IntS:
            return isubst(v, pairs)
        if v.sort() == BoolS:
            return bsubst(v, pairs)
        return zsubst(v, pairs)
    if isinstance(v, FE):
        return fsubst(v, pairs)
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, Seq):
        return v.subst(pairs)
    if isinstance(v, SymObj):
        return SymObj(v.cls, zsubst(v.ident, pairs), {k: subst(a, pairs) for k, a in v.attrs.items()})
    if isinstance(v, Opaque):
        return Opaque(v.ty, zsubst(v.tok, pairs))
    if isinstance(v, RangeVal):
        return RangeVal(subst(v.start, pairs), subst(v.stop, pairs), v.step)
    if isinstance(v, SetVal):
        return SetVal(subst(v.seq, pairs))
    if hasattr(v, 'subst_'):
        return v.subst_(pairs)
    return v


def as_seq(v):
    """Coerce python bytes / tuples / Seq to Seq (no heap access)."""
    if isinstance(v, Seq):
        return v
    if isinstance(v, (bytes, bytearray)):
        return seq_of_bytes(v)
    if isinstance(v, tuple):
        return Lit(v, 'tuple')
    if isinstance(v, RangeVal):
        return v.seq()
    return None


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, z3.BoolRef)) and isinstance(b, (bool, z3.BoolRef)):
        return b_ite(c, a, b)
    if is_int(a) and is_int(b):
        return i_ite(c, a, b)
    if isinstance(a, FE) and isinstance(b, FE):
        if a.f is not b.f:
            raise MergeFail(c)
        return fe_ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    sa, sb = as_seq(a), as_seq(b)
    if sa is not None and sb is not None:
        if (sa.kind == 'tuple') != (sb.kind == 'tuple'):
            raise MergeFail(c)
        if sa.kind == 'tuple' and isinstance(a, tuple) != isinstance(b, tuple) and False:
            raise MergeFail(c)
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise MergeFail(c)
        if isinstance(sa, Lit) and isinstance(sb, Lit) and sa.n == sb.n:
            return Lit([ite(c, x, y) for x, y in zip(sa._items, sb._items)], sa.kind)
        return IteSeq(c, sa, sb)
    if a is None and b is None:
        return None
    if isinstance(a, (str, bytes)) and a == b:
        return a
    if isinstance(a, Ref) and a == b:
        return a
    if isinstance(a, FieldCls) and a is b:
        return a
    if isinstance(a, Opaque) and isinstance(b, Opaque) and a.ty == b.ty:
        return Opaque(a.ty, z3.If(c, a.tok, b.tok))
    raise MergeFail(c)


# ---------------------------------------------------------------- tokens

TOKS = {}         # decl name -> TokTpl
_tok_key = {}


class TokTpl:
    """Template of a reified sequence: decl(params) stands for the sequence."""

    def __init__(self, decl, params, seq):
        self.decl, self.params, self.seq = decl, params, seq

    def instantiate(self, args):
        return self.seq.subst(list(zip(self.params, args))) if self.params else self.seq


def flat_terms(v):
    """Flatten a value into a list of z3 terms / python constants."""
    if v is None:
        return ['None']
    if isinstance(v, bool):
        return [z3.BoolVal(v)]
    if isinstance(v, int):
        return [z3.IntVal(v)]
    if is_z3(v):
        return [v]
    if isinstance(v, FE):
        return [v.term()]
    if isinstance(v, tuple):
        r = ['(']
        for x in v:
            r += flat_terms(x)
        return r + [')']
    if isinstance(v, (bytes, bytearray)):
        return [tok(seq_of_bytes(v))]
    if isinstance(v, str):
        return ['s:' + v]
    if isinstance(v, Seq):
        return [tok(v)]
    if isinstance(v, FieldCls):
        return ['F:' + v.name]
    if isinstance(v, Opaque):
        return [v.tok]
    if isinstance(v, SymObj):
        return [v.ident]
    raise Unsupported('cannot flatten %r' % (v,))


def lift(terms, avoid=()):
    """Abstract index variables of terms by canonical parameters.
    Returns (key, params(list of ivars in order))."""
    ivs = []
    seen = set()
    for t in terms:
        if isinstance(t, str):
            continue
        for i, c in ordered_consts(t):
            if i in IVARS and i not in seen and i not in avoid:
                seen.add(i)
                ivs.append(c)
    def keyof(vs):
        pairs = [(c, canon_param(k)) for k, c in enumerate(vs)]
        return tuple(t if isinstance(t, str) else aid(canon_term(zsubst(t, pairs))) for t in terms)

    # the order of the parameters must not depend on how the variables were
    # numbered: take the least key over all orders
    if 2 <= len(ivs) <= 4:
        best = None
        for vs in itertools.permutations(ivs):
            k = keyof(vs)
            o = tuple(x if isinstance(x, int) else -1 for x in k)
            if best is None or o < best[0]:
                best = (o, k, list(vs))
        return best[1], best[2]
    return keyof(ivs), ivs


def canon_term(t):
    """Normal form of a z3 term (argument order independent of variable ids)."""
    if t.sort() == IntS:
        return zint(ireify(ipoly(t)))
    if t.sort() == FldS:
        return freify(fpoly(t))
    if t.sort() == BoolS:
        return zbool(bcanon(t))
    return recanon(t) if t.children() else t


_params = {}


def canon_param(k):
    if k not in _params:
        _params[k] = z3.Int('cp!%d' % k)
        aid(_params[k])
    return _params[k]


def ordered_consts(t):
    out = []
    seen = set()

    def go(x):
        i = x.get_id()
        if i in seen:
            return
        seen.add(i)
        if z3.is_quantifier(x):
            go(x.body())
            return
        if z3.is_var(x):
            return
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.append((aid(x), x))
        else:
            for c in x.children():
                go(c)
    go(t)
    return out


BETA = z3.Int('beta!')
aid(BETA)


def tok(seq):
    """Reify a sequence to a Tok term (equal tokens <=> equal sequences)."""
    if isinstance(seq, Fun) and seq.tag is not None and seq.tag[0] == 'tok':
        return seq.tag[1]
    kind = 'bytes' if seq.kind in ('bytes', 'bytearray') else seq.kind
    if isinstance(seq.n, int) and seq.n <= 64:
        # one form for short sequences, however they were built
        terms = ['lit', kind]
        for x in ([seq.get(j) for j in range(seq.n)] if not isinstance(seq, Lit) else seq._items):
            terms += flat_terms(x)
            terms.append(',')
    else:
        v = fresh_index('b')
        n = zint(seq.n)
        body = flat_terms(seq.get(v))
        body = [t if isinstance(t, str) else zsubst(t, [(v, BETA)]) for t in body]
        terms = ['fun', kind, n] + body
    key, ivs = lift(terms)
    tpl = _tok_key.get(key)
    if tpl is None:
        name = 'tok!%d' % len(TOKS)
        decl = z3.Function(name, *([IntS] * len(ivs)), TokS) if ivs else None
        const = None if ivs else z3.Const(name, TokS)
        tpl = TokTpl(decl if ivs else const, ivs, seq)
        TOKS[name] = tpl
        _tok_key[key] = tpl
    r = tpl.decl(*ivs) if ivs else tpl.decl
    aid(r)
    return r


def seq_of_tok(t):
    """The sequence registered for a token application, or None."""
    if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return None
    tpl = TOKS.get(t.decl().name())
    if tpl is None:
        return None
    return tpl.instantiate(t.children())


# token-sorted variables (unknown sequences with known accessors)

toklen = z3.Function('toklen', TokS, IntS)
tokint = z3.Function('tokint', TokS, IntS, IntS)
tokfe = z3.Function('tokfe', TokS, IntS, RealS)
tokbool = z3.Function('tokbool', TokS, IntS, BoolS)


# ------------------------------------------------------------------- sums

SUMS = {}
_sum_key = {}


class SumTpl:
    def __init__(self, decl, params, body, sort, lo_var):
        self.decl, self.params, self.body, self.sort = decl, params, body, sort
        self.var = lo_var       # bound variable in body

    def term_at(self, args, j):
        pairs = [(self.var, zint(j))] + list(zip(self.params, args))
        return zsubst(self.body, pairs)


def sum_mono(body, var, hi, sort):
    """Sum over var in [0, hi) of an atomic z3 term (already scaled)."""
    b = zsubst(body, [(var, BETA)])
    key, ivs = lift([str(sort), b])
    tpl = _sum_key.get(key)
    if tpl is None:
        name = 'sum!%d' % len(SUMS)
        decl = z3.Function(name, IntS, *([IntS] * len(ivs)), sort)
        tpl = SumTpl(decl, ivs, b, sort, BETA)
        SUMS[name] = tpl
        _sum_key[key] = tpl
    r = tpl.decl(zint(hi), *ivs)
    aid(r)
    return r


def depends(t, var):
    return aid(var) in consts_of(t)


def find_split(t, var):
    """Find an ITE subterm of t whose condition depends on var."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if x.decl().kind() == z3.Z3_OP_ITE and depends(x.arg(0), var):
            return x
        stack.extend(x.children())
    return None


def cond_cut(c, var):
    """Write c as (var < cut) -> (cut, True) or (var >= cut) -> (cut, False),
    or (var == k) -> ('eq', k)."""
    neg = False
    while z3.is_not(c):
        neg = not neg
        c = c.arg(0)
    if c.num_args() != 2 or c.arg(0).sort() != IntS:
        return None
    k = c.decl().kind()
    op = T._CMP.get(k)
    if op is None:
        return None
    d = psub(ipoly(c.arg(0)), ipoly(c.arg(1)))     # d op 0
    key = ((aid(var), 1),)
    co = d.t.get(key)
    if co not in (1, -1):
        return None
    rest = {kk: v for kk, v in d.t.items() if kk != key}
    for kk in rest:
        for i, e in kk:
            if depends(atom(i), var):
                return None
    r = P(rest)
    # co*var + r op 0
    if op == '==':
        v = ireify(pscale(r, -co))
        return ('ne' if neg else 'eq', v)
    if neg:
        op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[op]
    if co == 1:
        bound = pscale(r, -1)     # var op bound
    else:
        bound = r                 # -var + r op 0  -> var (flip op) r
        op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
    b = ireify(bound)
    if op == '<':
        return ('lt', b)
    if op == '<=':
        return ('lt', iadd(b, 1))
    if op == '>=':
        return ('ge', b)
    return ('ge', iadd(b, 1))


def sum_fe(f, fn, lo, hi):
    """Sum of field values fn(j), lo <= j < hi (requires lo <= hi)."""
    n = isub(hi, lo)
    if isinstance(n, int) and n <= 64:
        r = fe_int(f, 0)
        for j in range(n):
            r = fe_add(r, fn(iadd(lo, j)))
        return r
    v = fresh_index('j')
    body = fn(iadd(lo, v))
    return FE(f, fe_red(f, sum_poly(body.p, v, n, RealS, f.emb)))


def sum_int(fn, lo, hi):
    n = isub(hi, lo)
    if isinstance(n, int) and n <= 64:
        r = 0
        for j in range(n):
            r = iadd(r, fn(iadd(lo, j)))
        return r
    v = fresh_index('j')
    body = fn(iadd(lo, v))
    return ireify(sum_poly(ipoly(body), v, n, IntS))


def sum_poly(p, v, n, sort, femb=None):
    """Sum over v in [0,n) of the polynomial p, as a polynomial."""
    reify = freify if sort == RealS else (lambda q: zint(ireify(q)))
    unreify = fpoly if sort == RealS else ipoly
    t = reify(p)
    x = find_split(t, v)
    if x is not None:
        cut = cond_cut(x.arg(0), v)
        if cut is not None:
            tt = unreify(zsubst(t, [(x, x.arg(1))]))
            te = unreify(zsubst(t, [(x, x.arg(2))]))
            how, b = cut
            if how in ('eq', 'ne'):
                if how == 'ne':
                    tt, te = te, tt
                # value at b differs
                inr = b_and(cmp_i('>=', b, 0), cmp_i('<', b, n))
                k = known(inr)
                full = sum_poly(te, v, n, sort, femb)
                if k is False:
                    return full
                at = lambda q: unreify(zsubst(reify(q), [(v, zint(b))]))
                diff = psub(at(tt), at(te))
                if k is True:
                    return padd(full, diff)
                d = reify(diff)
                zero = emb(z3.IntVal(0)) if sort == RealS else z3.IntVal(0)
                return padd(full, patom(z3.If(inr, d, zero)))
            if how == 'ge':
                tt, te = te, tt       # now tt for v < b, te for v >= b
            b0 = known(cmp_i('<=', b, 0))
            bn = known(cmp_i('>=', b, n))
            if b0 is True:
                return sum_poly(te, v, n, sort, femb)
            if bn is True:
                return sum_poly(tt, v, n, sort, femb)
            if known(b_and(cmp_i('>=', b, 0), cmp_i('<=', b, n))) is True:
                s1 = sum_range(tt, v, 0, b, sort, femb)
                s2 = sum_range(te, v, b, n, sort, femb)
                return padd(s1, s2)
    if isinstance(n, int) and n <= 64:
        r = pconst(0)
        for j in range(n):
            r = padd(r, unreify(zsubst(t, [(v, z3.IntVal(j))])))
        return r
    if x is not None and sort == RealS and z3.is_bool(x.arg(0)):
        # sum of B + [c](A - B), with c written as v < b where possible
        c = x.arg(0)
        tt = unreify(resolve_cond(t, c, 1))
        te = unreify(resolve_cond(t, c, 2))
        while z3.is_not(c):
            c, tt, te = c.arg(0), te, tt
        cut = cond_cut(c, v)
        if cut is not None and cut[0] in ('lt', 'ge'):
            if cut[0] == 'ge':
                tt, te = te, tt
            c = cmp_i('<', v, cut[1])
        if find_split(reify(tt), v) is None and find_split(reify(te), v) is None and is_z3(c):
            return padd(sum_poly(te, v, n, sort, femb), sum_monos(psub(tt, te), v, n, sort, femb, c))
    return sum_monos(p, v, n, sort, femb)


def resolve_cond(t, c, k):
    """Every `If(c, a, b)` in t replaced by its k-th argument."""
    while True:
        stack, seen, hit = [t], set(), None
        while stack and hit is None:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(c):
                hit = x
            stack.extend(x.children())
        if hit is None:
            return t
        t = zsubst(t, [(hit, hit.arg(k))])


def sum_monos(p, v, n, sort, femb, cond=None):
    """Sum of the monomials of p (those v with cond)."""
    reify = freify if sort == RealS else (lambda q: zint(ireify(q)))
    out = pconst(0)
    for k, c in p.t.items():
        dep, ind = [], []
        for (i, e) in k:
            d = depends(atom(i), v) or (not isinstance(e, int) and depends(zint(ireify(e)), v))
            if d and not isinstance(e, int):
                # split exponent e = e1(v) + e0 : keep v-part inside
                e1, e0 = split_exp(e, v)
                if depends(atom(i), v):
                    dep.append((i, e))
                else:
                    dep.append((i, e1))
                    if e0 != 0:
                        ind.append((i, e0))
            elif d:
                dep.append((i, e))
            else:
                ind.append((i, e))
        indp = P({tuple(ind): c})
        if not dep and cond is None:
            out = padd(out, pmul(indp, _as_poly(n, sort, femb)))
        else:
            depp = P({tuple(sorted(dep)): 1}) if all(isinstance(e, int) for _, e in dep) else P({tuple(sorted(dep, key=lambda q: q[0])): 1})
            body = reify(depp)
            if cond is not None:
                body = z3.If(cond, body, emb(z3.IntVal(0)))
            s = sum_mono(body, v, n, sort)
            out = padd(out, pmul(indp, patom(s)))
    return out


def split_exp(e, v):
    dep, ind = {}, {}
    for k, c in e.t.items():
        if any(depends(atom(i), v) for i, _ in k):
            dep[k] = c
        else:
            ind[k] = c
    i = P(ind)
    c = i.const()
    if c is not None and c < 0:
        return e, 0
    d = P(dep)
    return d, (c if c is not None else i)


def _as_poly(n, sort, femb):
    return emb_p(n, femb) if sort == RealS else ipoly(n)


def sum_range(p, v, lo, hi, sort, femb):
    reify = freify if sort == RealS else (lambda q: zint(ireify(q)))
    unreify = fpoly if sort == RealS else ipoly
    if isinstance(lo, int) and lo == 0:
        return sum_poly(p, v, hi, sort, femb)
    q = unreify(zsubst(reify(p), [(v, zint(iadd(lo, v)))]))
    return sum_poly(q, v, isub(hi, lo), sort, femb)


# products of field elements

PRODS = {}


def prod_fe(f, fn, lo, hi):
    n = isub(hi, lo)
    if isinstance(n, int) and n <= 64:
        r = fe_int(f, 1)
        for j in range(n):
            r = fe_mul(r, fn(iadd(lo, j)))
        return r
    v = fresh_index('j')
    body = fn(iadd(lo, v))
    if not depends(body.term(), v):
        return fe_pow(body, n)
    b = zsubst(body.term(), [(v, BETA)])
    key, ivs = lift(['prod', b])
    tpl = _sum_key.get(key)
    if tpl is None:
        name = 'prod!%d' % len(PRODS)
        decl = z3.Function(name, IntS, *([IntS] * len(ivs)), RealS)
        tpl = SumTpl(decl, ivs, b, RealS, BETA)
        PRODS[name] = tpl
        _sum_key[key] = tpl
    return FE(f, patom(tpl.decl(zint(n), *ivs)))
