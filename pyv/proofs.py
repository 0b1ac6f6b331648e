"""Equality of symbolic values."""
import z3
from .terms import *
from .values import *
from .solve import QFact, allsubs, subterms, int_preimage, lebyte, fromle
from . import interp as I
from . import values as V

MAXDEPTH = 24


def prove_eq(it, a, b, depth=0):
    it.tick()
    if depth > MAXDEPTH:
        return False
    if a is b:
        return True
    if isinstance(a, Ref) or isinstance(b, Ref):
        if isinstance(a, Ref) and isinstance(b, Ref) and a == b:
            return True
        if isinstance(a, Ref) and isinstance(it.heap[a.id], I.ListCell) or isinstance(b, Ref) and isinstance(it.heap[b.id], I.ListCell):
            if isinstance(a, Ref) and not isinstance(it.heap[a.id], I.ListCell):
                return False
            if isinstance(b, Ref) and not isinstance(it.heap[b.id], I.ListCell):
                return False
            return prove_eq(it, it.peek(a), it.peek(b), depth)
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = it.heap[a.id], it.heap[b.id]
            if ca.cls is not cb.cls:
                return False
            if set(ca.attrs) != set(cb.attrs):
                return False
            return all(prove_eq(it, ca.attrs[k], cb.attrs[k], depth + 1) for k in sorted(ca.attrs))
        return False
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(prove_eq(it, x, y, depth) for x, y in zip(a, b))
    if is_bool(a) and is_bool(b):
        e = b_eq(a, b)
        return e if isinstance(e, bool) else it.prove(e)
    if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
        if is_bool(a) != is_bool(b):
            return False
        return eq_int(it, a, b, depth)
    if isinstance(a, FE) and isinstance(b, FE):
        return a.f is b.f and eq_fe(it, a, b, depth)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        if a.tok.eq(b.tok) or it.prove(a.tok == b.tok):
            return True
        r = unify_toks(it, a, b, depth)
        return (r is not None and prove_eq(it, r[0], r[1], depth + 1)) or split_ite(it, a, b, depth)
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        return a.ident.eq(b.ident) or it.prove(a.ident == b.ident)
    sa, sb = as_seq(a), as_seq(b)
    if sa is not None and sb is not None:
        return eq_seq(it, sa, sb, depth)
    if isinstance(a, (str, FieldCls)) and isinstance(b, (str, FieldCls)):
        return a == b
    if type(a) is type(b) and isinstance(a, (I.ClassInfo, I.FuncInfo)):
        return a is b
    if isinstance(a, SetVal) and isinstance(b, SetVal):
        return prove_eq(it, a.seq, b.seq, depth + 1)
    return False


def with_facts(it, facts, fn):
    n = len(it.pc)
    saved = list(it.pc)
    try:
        for f in facts:
            it.assume(f)
        return fn()
    except I.Infeasible:
        return True
    finally:
        it.pc = saved


def first_ite(ts, it):
    for t in ts:
        if isinstance(t, str):
            continue
        stack = [t]
        seen = set()
        best = None
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x) or z3.is_var(x):
                continue
            seen.add(x.get_id())
            if x.decl().kind() == z3.Z3_OP_ITE:
                inner = False
                best = x
            stack.extend(x.children())
        if best is not None:
            return best
    return None


def resolve_ites(it, v):
    """Simplify ITEs whose condition is decided by the path."""
    for _ in range(40):
        ts = flat_terms(v)
        changed = False
        for t in ts:
            if isinstance(t, str):
                continue
            for x in ites(t):
                k = it.decide(x.arg(0))
                if k is not None:
                    v = replace(v, x, x.arg(1) if k else x.arg(2))
                    changed = True
                    break
            if changed:
                break
        if not changed:
            return v
    return v


def ites(t):
    stack, seen, out = [t], set(), []
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x) or z3.is_var(x):
            continue
        seen.add(x.get_id())
        if x.decl().kind() == z3.Z3_OP_ITE:
            out.append(x)
        stack.extend(x.children())
    return out


def replace(v, x, y):
    return subst(v, [(x, y)])


def split_ite(it, a, b, depth):
    """Case split on the condition of an if-then-else inside a or b."""
    xs = []
    for v in (a, b):
        for t in flat_terms(v):
            if not isinstance(t, str):
                xs += ites(t)
    if not xs or depth > 14:
        return False
    x = next((y for y in xs if var_eq(y.arg(0))), xs[-1])
    c = x.arg(0)
    k = it.decide(c)
    for val in (True, False):
        if k is not None and k != val:
            continue
        y = x.arg(1) if val else x.arg(2)
        a2, b2 = replace(a, x, y), replace(b, x, y)
        if val and z3.is_eq(c) and c.arg(0).sort() == IntS:
            # under an equation with a variable, use one name for both
            r = var_eq(c)
            if r:
                a2, b2 = replace(a2, *r), replace(b2, *r)
        ok = with_facts(it, [c if val else b_not(c)] if k is None else [],
                        lambda: prove_eq(it, a2, b2, depth + 1))
        if not ok:
            return False
    return True


def var_eq(c):
    """(variable, term) when the condition equates an integer variable with a term."""
    if z3.is_eq(c) and c.arg(0).sort() == IntS:
        for u, w in ((c.arg(0), c.arg(1)), (c.arg(1), c.arg(0))):
            if u.num_args() == 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and not depends(w, u):
                return u, w
    return None


def toks_in(v):
    out = {}
    for t in flat_terms(v):
        if not isinstance(t, str):
            for x in subterms([t]):
                if x.sort() == TokS and x.decl().name() in V.TOKS:
                    out[aid(x)] = x
    return out


def unify_toks(it, a, b, depth):
    """Replace tokens of sequences that are equal (element by element)."""
    if depth > 8:
        return None
    ta, tb = toks_in(a), toks_in(b)
    xs = [x for k, x in ta.items() if k not in tb]
    ys = [y for k, y in tb.items() if k not in ta]
    if not xs or not ys or len(xs) > 4 or len(ys) > 4:
        return None
    ch = False
    for x in xs:
        for y in ys:
            sx, sy = seq_of_tok(x), seq_of_tok(y)
            if sx is None or sy is None:
                continue
            try:
                if eq_seq(it, sx, sy, depth + 4):
                    b = replace(b, y, x)
                    ys = [z for z in ys if not z.eq(y)]
                    ch = True
                    break
            except (Unsupported, I.HoleRead, MergeFail):
                pass
    return (a, b) if ch else None


def unify_sums(it, a, b, depth):
    """Replace sums and products that are equal term by term."""
    if depth > 8:
        return None
    sa, sb = ({aid(x): x for x in sums_in(v)} for v in (a, b))
    xs = [x for k, x in sa.items() if k not in sb]
    ys = [y for k, y in sb.items() if k not in sa]
    if not xs or not ys or len(xs) > 3 or len(ys) > 3:
        return None
    ch = False
    for x in xs:
        for y in ys:
            for T in (V.SUMS, V.PRODS):
                tx, ty = T.get(x.decl().name()), T.get(y.decl().name())
                if tx is None or ty is None or tx.sort != ty.sort or not same_int(canon_i(x.arg(0)), canon_i(y.arg(0))):
                    continue
                j = fresh_index('j')
                u, w = (val_of_term(t.term_at(z.children()[1:], j), a) for t, z in ((tx, x), (ty, y)))
                if u is None or w is None:
                    continue
                try:
                    ok = with_facts(it, [b_and(cmp_i('>=', j, 0), cmp_i('<', j, canon_i(x.arg(0))))],
                                    lambda: prove_eq(it, u, w, depth + 3))
                except (Unsupported, I.HoleRead, MergeFail):
                    ok = False
                if ok:
                    b = replace(b, y, x)
                    ys = [z for z in ys if not z.eq(y)]
                    ch = True
                    break
            else:
                continue
            break
    return (a, b) if ch else None


def val_of_term(t, like):
    if t.sort() == IntS:
        return canon_i(t)
    if isinstance(like, FE):
        return FE(like.f, fpoly(t))
    return None


def eq_int(it, a, b, depth):
    a, b = it.as_int(a), it.as_int(b)
    if same_int(a, b):
        return True
    e = cmp_i('==', a, b)
    if isinstance(e, bool):
        return e
    if it.prove(e):
        return True
    for tr in (simp_vals, unfold_sums):
        r = tr(it, a, b)
        if r is not None and prove_eq(it, r[0], r[1], depth + 1):
            return True
    for uni in (unify_toks, unify_sums):
        r = uni(it, a, b, depth)
        if r is not None and prove_eq(it, r[0], r[1], depth + 1):
            return True
    return split_ite(it, a, b, depth)


def simp_vals(it, a, b):
    """Replace fval(emb(z)) by z where 0 <= z < p is known."""
    for v in (a, b):
        for t in flat_terms(v):
            if isinstance(t, str):
                continue
            for x in subterms([t]):
                if x.num_args() == 1 and x.decl().name().startswith('fval_'):
                    f = FIELDS[x.decl().name()[5:]]
                    z = int_preimage(fpoly(x.arg(0)), f)
                    if z is not None and it.decide(b_and(cmp_i('>=', z, 0), cmp_i('<', z, f.modulus))) is True:
                        return replace(a, x, zint(z)), replace(b, x, zint(z))
                if x.num_args() == 2 and x.decl().eq(lebyte) and not x.arg(0).decl().eq(fromle):
                    # a byte of an integer known to equal a decoded byte string
                    for y in subterms([c for c in it.pc if not isinstance(c, QFact)]):
                        if y.num_args() == 1 and y.decl().eq(fromle) and it.prove(x.arg(0) == y):
                            s = seq_of_tok(y.arg(0))
                            j = ireify(ipoly(x.arg(1)))
                            if s is not None and it.decide(b_and(cmp_i('>=', j, 0), cmp_i('<', j, s.n))) is True:
                                z = zint(it.as_int(s.get(j)))
                                return replace(a, x, z), replace(b, x, z)
    return None


def eq_fe(it, a, b, depth):
    d = psub(a.p, b.p, a.f.m)
    if not d.t:
        return True
    e = fe_eq(a, b)
    if isinstance(e, bool):
        return e
    if it.prove(e):
        return True
    r = unfold_sums(it, a, b)
    if r is not None and prove_eq(it, r[0], r[1], depth + 1):
        return True
    for uni in (unify_toks, unify_sums):
        r = uni(it, a, b, depth)
        if r is not None and prove_eq(it, r[0], r[1], depth + 1):
            return True
    if split_ite(it, a, b, depth):
        return True
    d2 = rewrite_eqs(it, d, a.f)
    if d2 is not None and prove_eq(it, FE(a.f, d2), FE(a.f, pconst(0)), depth + 1):
        return True
    return split_product(it, a, b, depth)


def split_product(it, a, b, depth):
    """No zero divisors: use a vanishing product on the path one factor at a time."""
    if depth > 8:
        return False
    m = it_modulus(it)
    subs, nz = fld_system(it, m)
    if any(not z.t for z in nz):
        return True
    for c in fld_eqs(it)[0]:
        e = fld_reduce(pnorm(psub(fpoly(c.arg(0)), fpoly(c.arg(1))), m), subs, m)
        v = e.const()
        if v is not None and v != 0 and (m or abs(v) < 2 ** 60):
            return True
        k = common(e)
        if k and (len(k) > 1 or len(e.t) > 1) and all(m or abs(w) < 2 ** 60 for w in e.t.values()):
            cases = [z_eq0(fpoly(atom(q))) for q in k]
            if len(e.t) > 1:
                cases.append(z_eq0(P({strip_mono(m, k): w for m, w in e.t.items()})))
            return all(with_facts(it, [f], lambda: prove_eq(it, a, b, depth + 1)) for f in cases)
    return False


def z_eq0(p):
    return eq_atom(p)


def common(e):
    """Atoms that divide every monomial."""
    ms = list(e.t)
    if not ms:
        return []
    return [q for q, x in ms[0] if isinstance(x, int) and x >= 1 and all(any(q == q2 and isinstance(y, int) and y >= 1 for q2, y in m) for m in ms)]


def strip_mono(m, k):
    out = []
    for q, x in m:
        if q in k:
            x -= 1
        if x != 0:
            out.append((q, x))
    return tuple(out)


def fld_eqs(it):
    """Equations and disequations between field terms on the path."""
    eqs, nes = [], []
    for c in it.pc:
        if isinstance(c, QFact):
            continue
        if z3.is_eq(c) and c.arg(0).sort() == FldS:
            eqs.append(c)
        elif z3.is_not(c) and z3.is_eq(c.arg(0)) and c.arg(0).arg(0).sort() == FldS:
            nes.append(c.arg(0))
    return eqs, nes


def occurs(i, m):
    """Does atom i occur in monomial m (possibly inside another atom)?"""
    for q, e in m:
        if q == i or not isinstance(e, int) or any(x[0] == i for x in allsubs(atom(q))):
            return True
    return False


def fld_system(it, m):
    """Triangular system from the known equations between field terms:
    ([(atom, replacement)], nonzero polynomials)."""
    eqs, nes = fld_eqs(it)
    if not eqs and not nes:
        return [], []
    key = (tuple(aid(c) for c in eqs), tuple(aid(c) for c in nes), m)
    r = _sys_cache.get(key)
    if r is None:
        r = _fld_system(eqs, nes, m)
        if len(_sys_cache) > 2000:
            _sys_cache.clear()
        _sys_cache[key] = r
    return r


_sys_cache = {}


def _fld_system(eqs, nes, m):
    subs = []

    def red(p):
        return fld_reduce(p, subs, m)
    done = set()
    for rnd in range(2):
        nz = []
        for c in nes:
            nz.append(red(pnorm(psub(fpoly(c.arg(0)), fpoly(c.arg(1))), m)))
        for n, c in enumerate(eqs):
            if n in done:
                continue
            e = red(pnorm(psub(fpoly(c.arg(0)), fpoly(c.arg(1))), m))
            # a product that vanishes: drop the factors known not to
            e = clear_denoms(e, m)
            g = [q for q in common(e) if any(is_atom(z, q) for z in nz)]
            while g:
                e = P({strip_mono(m_, g): w for m_, w in e.t.items()})
                g = [q for q in common(e) if q in g]
            if e.const() not in (None, 0) and abs(e.const()) < 2 ** 60:
                return subs, [P({})]
            if len(e.t) == 1:
                (k, v), = e.t.items()
                k2 = k
                if len(k2) == 1 and isinstance(k2[0][1], int) and k2[0][1] >= 1 and (m or abs(v) < 2 ** 60):
                    e = P({((k2[0][0], 1),): 1})
            for k, v in sorted(e.t.items(), key=lambda kv: not pivot_first(kv[0])):
                if len(k) == 1 and k[0][1] == 1 and (v in (1, -1) or m):
                    i = k[0][0]
                    if any(occurs(i, q) for q in e.t if q != k):
                        continue
                    rest = pnorm(pscale(P({q: w for q, w in e.t.items() if q != k}), -v if v in (1, -1) else -pow(v, -1, m)), m)
                    subs.append((atom(i), freify(rest)))
                    done.add(n)
                    break
    nz = [red(pnorm(psub(fpoly(c.arg(0)), fpoly(c.arg(1))), m)) for c in nes]
    return subs, nz


def pnorm(p, m):
    if not m:
        return p
    t = {k: symm(c, m) for k, c in p.t.items()}
    return P({k: c for k, c in t.items() if c})


def clear_denoms(e, m):
    """A polynomial that vanishes iff e does, without negative powers."""
    for _ in range(8):
        low = {}
        for k in e.t:
            for q, x in k:
                if isinstance(x, int) and x < low.get(q, 0):
                    low[q] = x
        if not low:
            return e
        f = P({tuple(sorted((q, -x) for q, x in low.items())): 1})
        e = pmul(e, f)
        # denominators are sums of atoms: expand them again
        r = P({})
        for k, c in e.t.items():
            t = pconst(c)
            for q, x in k:
                b = fpoly(atom(q))
                if len(b.t) > 1 and isinstance(x, int) and 0 < x <= 8:
                    t = pmul(t, ppow(b, x, m), m)
                else:
                    t = pmul(t, P({((q, x),): 1}), m)
            r = padd(r, t, m)
        e = r
    return e


def pivot_first(k):
    if len(k) != 1:
        return False
    nm = atom(k[0][0]).decl().name()
    return nm in V.SUMS or nm.startswith('fold!')


def is_atom(p, q):
    """p is a constant times a power of atom q."""
    if len(p.t) != 1:
        return False
    (k, v), = p.t.items()
    return any(a == q for a, _ in k)


def fld_reduce(d, subs, m):
    for a, r in subs:
        i = aid(a)
        if any(occurs(i, k) for k in d.t):
            d = pnorm(fpoly(z3.substitute(freify(d), (a, r))), m)
    return d


def rewrite_eqs(it, d, f):
    """Eliminate atoms of d by the equations between field terms that are known."""
    subs, _ = fld_system(it, it_modulus(it))
    d2 = clear_denoms(fld_reduce(d, subs, f.m), f.m)
    return None if d2.t == d.t else d2


def fld_decide(it, c):
    """Truth of an equation between field terms from the known (dis)equations."""
    m = it_modulus(it)
    subs, nz = fld_system(it, m)
    if not subs and not nz:
        return None
    if any(not z.t for z in nz):
        return True
    d = clear_denoms(fld_reduce(pnorm(psub(fpoly(c.arg(0)), fpoly(c.arg(1))), m), subs, m), m)
    v = d.const()
    if v is not None:
        if v == 0:
            return True
        return False if (m or abs(v) < 2 ** 60) else None
    neg = pscale(d, -1)
    for z in nz:
        if z.t == d.t or z.t == neg.t:
            return False
    if len(d.t) == 1:
        (k, v), = d.t.items()
        if (m or abs(v) < 2 ** 60) and all(any(is_atom(z, q) for z in nz) for q, _ in k):
            return False
    return None


def it_modulus(it):
    """The modulus when the unit works in one concrete field."""
    if len(it.fieldcls) != 1 or getattr(it, 'has_abs', False):
        return None
    return list(it.fieldcls.values())[0].m


def sums_in(v):
    out = {}
    for t in flat_terms(v):
        if isinstance(t, str):
            continue
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen or z3.is_quantifier(x) or z3.is_var(x):
                continue
            seen.add(x.get_id())
            nm = x.decl().name()
            if nm in V.SUMS or nm in V.PRODS or nm.startswith('fold!'):
                out[aid(x)] = x
            stack.extend(x.children())
    return list(out.values())


def unfold_sums(it, a, b):
    """Unfold sums S(m+1) -> S(m) + term(m) when S(m) also occurs."""
    from .loops import FOLDS
    ss = sums_in(a) + sums_in(b)
    for x in ss:
        for y in ss:
            if x.decl().eq(y.decl()) and not x.eq(y):
                dc = psub(ipoly(x.arg(0)), ipoly(y.arg(0))).const()
                if dc is not None and 0 < dc <= 4:
                    m = y.arg(0)
                    if it.decide(cmp_i('>=', m, 0)) is not True:
                        continue
                    prev = x.decl()(zint(isub(x.arg(0), 1)), *x.children()[1:])
                    nm = x.decl().name()
                    if nm in V.SUMS:
                        tpl = V.SUMS[nm]
                        last = tpl.term_at(x.children()[1:], isub(x.arg(0), 1))
                        if tpl.sort == IntS:
                            new = zint(iadd(prev, ireify(ipoly(last))))
                        else:
                            new = freify(padd(patom(prev), fpoly(last)))
                    elif nm in V.PRODS:
                        tpl = V.PRODS[nm]
                        last = tpl.term_at(x.children()[1:], isub(x.arg(0), 1))
                        new = freify(pmul(patom(prev), fpoly(last)))
                    else:
                        body, a0, lo, ivs, sort = FOLDS[nm].tpl
                        if it.decide(cmp_i('>=', m, lo)) is not True:
                            continue
                        args = x.children()[1:]
                        t = z3.substitute(body, *[(p, q) for p, q in zip(ivs, args)]) if ivs else body
                        new = z3.substitute(t, (BETA, zint(isub(x.arg(0), 1))),
                                            (z3.Const('foldhole!' + str(sort), sort), prev))
                    return replace(a, x, new), replace(b, x, new)
    return None


def unfold_filters(it, a, b):
    """Filter up to h+1 -> filter up to h, then the element at h if selected,
    when the other side has the filter up to h."""
    def parts(s):
        return list(s.parts) if isinstance(s, Cat) else [s]

    def one(s, o):
        out, ch = [], False
        for p in parts(s):
            if isinstance(p, I.Filter):
                for q in parts(o):
                    if isinstance(q, I.Filter) and q.key == p.key and same_int(q.lo, p.lo) and isub(p.hi, q.hi) == 1 and \
                            all(x.eq(y) for x, y in zip(p.ivs, q.ivs)) and it.decide(cmp_i('>=', q.hi, q.lo)) is True:
                        k = it.decide(p.cond(q.hi))
                        if k is not None:
                            ch = True
                            p = mkcat([q, Lit([p.val(q.hi)], p.kind)], p.kind) if k else q
                            break
            out.append(p)
        return mkcat(out, s.kind) if ch else None
    x = one(a, b)
    if x is not None:
        return x, b
    y = one(b, a)
    if y is not None:
        return a, y
    return None


def eq_seq(it, a, b, depth):
    if a is b or isinstance(a, I.HoleSeq) and isinstance(b, I.HoleSeq) and a.hid == b.hid:
        return True
    r = unfold_filters(it, a, b)
    if r is not None:
        return eq_seq(it, r[0], r[1], depth + 1)
    ka = 'bytes' if a.kind in ('bytes', 'bytearray') else a.kind
    kb = 'bytes' if b.kind in ('bytes', 'bytearray') else b.kind
    if ka != kb:
        return False
    if isinstance(a.n, int) and isinstance(b.n, int) and a.n != b.n:
        return False
    if not same_int(a.n, b.n) and not eq_int(it, a.n, b.n, depth + 1):
        return False
    if isinstance(a.n, int) and a.n <= 4096 and (isinstance(a, Lit) or isinstance(b, Lit)):
        return all(prove_eq(it, a.get(k), b.get(k), depth + 1) for k in range(a.n))
    try:
        if not isinstance(a, I.HoleSeq) and tok(a).eq(tok(b)):
            return True
    except (Unsupported, I.HoleRead, MergeFail):
        pass
    r = align(it, a, b, depth)
    if r is not None:
        return r
    if isinstance(a, I.Rev) and isinstance(b, I.Rev):
        if eq_seq(it, a.base, b.base, depth + 1):
            return True
    n = a.n
    if isinstance(n, int) and n <= 16:
        return all(prove_eq(it, a.get(k), b.get(k), depth + 1) for k in range(n))
    k = fresh_index('k')

    def point():
        return prove_eq(it, it.peek(a.get(k)), it.peek(b.get(k)), depth + 1)
    try:
        return with_facts(it, [b_and(cmp_i('>=', k, 0), cmp_i('<', k, n))], point)
    except (I.HoleRead, MergeFail):
        return False


def align(it, a, b, depth):
    """Match the parts of two concatenations."""
    if not isinstance(a, Cat) and not isinstance(b, Cat):
        if isinstance(a, Flat) and isinstance(b, Flat) and same_int(a.inner, b.inner) and same_int(a.m, b.m):
            k = fresh_index('k')
            return with_facts(it, [b_and(cmp_i('>=', k, 0), cmp_i('<', k, a.m))],
                              lambda: eq_seq(it, a.blk(k), b.blk(k), depth + 1)) or None
        return None
    pa = list(a.parts) if isinstance(a, Cat) else [a]
    pb = list(b.parts) if isinstance(b, Cat) else [b]
    while pa and pb:
        x, y = pa[0], pb[0]
        if same_int(x.n, y.n) or it.decide(cmp_i('==', x.n, y.n)) is True:
            if not eq_seq(it, x, y, depth + 1):
                return False
            pa.pop(0)
            pb.pop(0)
            continue
        if it.decide(cmp_i('<=', x.n, y.n)) is True:
            if not eq_seq(it, x, mkslice(y, 0, x.n), depth + 1):
                return False
            pa.pop(0)
            pb[0] = mkslice(y, x.n, isub(y.n, x.n))
        elif it.decide(cmp_i('>=', x.n, y.n)) is True:
            if not eq_seq(it, mkslice(x, 0, y.n), y, depth + 1):
                return False
            pb.pop(0)
            pa[0] = mkslice(x, y.n, isub(x.n, y.n))
        else:
            return None
    for x in pa + pb:
        if it.decide(cmp_i('==', x.n, 0)) is not True:
            return None
    return True
