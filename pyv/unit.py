"""Units of verification: contracts and lemmas, symbolically and natively."""
import ast
import copy
import os
import random
import sys
import time
import traceback
import z3
from .terms import *
from .values import *
from .src import Loader, FuncInfo, ClassInfo, POC, REPO
from .solve import RANGE, QFact, STATS
from . import interp as I
from . import solve as S

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')


def loader():
    return Loader([POC, SPEC])


# ---------------------------------------------------------------- types

class Ty:
    def sym(self, it, name, idx, env):
        raise NotImplementedError

    def gen(self, rng, env):
        raise NotImplementedError


def app(name, idx, sort):
    idx = [zint(canon_i(x)) for x in idx]
    if not idx:
        t = z3.Const(name, sort)
    else:
        t = z3.Function(name, *([IntS] * len(idx)), sort)(*idx)
    aid(t)
    return t


def resolve(x, env):
    return x(env) if callable(x) else x


BOUNDARY = [0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 511, 512, 1000,
            65535, 65536, 2 ** 16 + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 128 - 1]


class Int(Ty):
    def __init__(self, lo=None, hi=None, gen=None, small=False):
        self.lo, self.hi, self.g, self.small = lo, hi, gen, small     # lo <= v < hi

    def sym(self, it, name, idx, env):
        t = app(name, idx, IntS)
        lo, hi = resolve(self.lo, env), resolve(self.hi, env)
        if idx:
            RANGE[name] = (zint(lo) if lo is not None else None, zint(hi) if hi is not None else None)
        else:
            if lo is not None:
                it.assume(cmp_i('>=', t, lo))
            if hi is not None:
                it.assume(cmp_i('<', t, hi))
        return ireify(patom(t))

    def gen(self, rng, env):
        if self.g:
            return self.g(rng, env)
        lo, hi = resolve(self.lo, env), resolve(self.hi, env)
        lo = -70000 if lo is None else lo
        for _ in range(20):
            r = rng.random()
            if r < 0.35:
                v = rng.randrange(-3, 20)
            elif r < 0.7:
                v = rng.choice(BOUNDARY) + rng.randrange(-1, 2)
                if self.small:
                    v = v % 600
            elif hi is not None and hi > lo:
                v = rng.choice([hi - 1, hi - 2, lo, lo + 1, rng.randrange(lo, hi)])
            else:
                v = rng.randrange(-300, 2 ** (12 if self.small else 66))
            if v >= lo and (hi is None or v < hi):
                return v
        return lo

    def conc(self, model, name, idx, env):
        v = model.eval(app(name, idx, IntS), model_completion=True)
        return v.as_long()


class Bool(Ty):
    def sym(self, it, name, idx, env):
        return app(name, idx, BoolS)

    def gen(self, rng, env):
        return rng.random() < 0.5

    def conc(self, model, name, idx, env):
        return z3.is_true(model.eval(app(name, idx, BoolS), model_completion=True))


class Bytes(Ty):
    def __init__(self, n=None, max=40, gen=None):
        self.n, self.max, self.g = n, max, gen

    def length(self, it, name, idx, env):
        n = resolve(self.n, env)
        if n is None:
            n = app(name + '_len', idx, IntS)
            if idx:
                RANGE[name + '_len'] = (0, None)
            else:
                it.assume(n >= 0)
            n = ireify(patom(n))
        return n

    def sym(self, it, name, idx, env):
        n = self.length(it, name, idx, env)
        RANGE[name + '_b'] = (0, 256)

        def g(i):
            return ireify(patom(app(name + '_b', list(idx) + [i], IntS)))
        if isinstance(n, int) and n <= 2:
            return Lit([g(i) for i in range(n)], 'bytes')
        return Fun(n, g, 'bytes')

    def gen(self, rng, env):
        if self.g:
            return self.g(rng, env)
        n = resolve(self.n, env)
        if n is None:
            n = rng.randrange(0, 6) if rng.random() < 0.6 else rng.randrange(0, self.max + 1)
        r = rng.random()
        if r < 0.15:
            return bytes(n)
        if r < 0.3:
            return b'\xff' * n
        return bytes(rng.choice([0, 1, 255, 128, rng.randrange(256), rng.randrange(256), rng.randrange(256)]) for _ in range(n))

    def conc(self, model, name, idx, env):
        n = resolve(self.n, env)
        if n is None:
            n = model.eval(app(name + '_len', idx, IntS), model_completion=True).as_long()
        if not isinstance(n, int) or n > 5000:
            raise ValueError('size')
        return bytes(model.eval(app(name + '_b', list(idx) + [i], IntS), model_completion=True).as_long() % 256 for i in range(n))


class FEl(Ty):
    """Element of the field given by env[field] or a FieldP constant name."""

    def __init__(self, field='F'):
        self.field = field

    def fcls(self, it, env):
        f = env[self.field] if self.field in env else self.field(env) if callable(self.field) else it.field_named(self.field)
        return f

    def sym(self, it, name, idx, env):
        f = self.fcls(it, env)
        return FE(f, patom(app(name, idx, FldS)))

    def gen(self, rng, env):
        f = env[self.field] if self.field in env else self.field(env) if callable(self.field) else native_field(self.field)
        return gen_fe(rng, f)

    def conc(self, model, name, idx, env):
        f = env[self.field] if self.field in env else self.field(env) if callable(self.field) else native_field(self.field)
        return f(random.Random(str(model.eval(app(name, idx, FldS), model_completion=True))).randrange(f.MODULUS))


def gen_fe(rng, f):
    r = rng.random()
    if r < 0.5:
        v = rng.choice([0, 0, 1, 1, 2, 3, -1, -2, 255, 256, 65537])
    elif r < 0.6:
        v = (f.MODULUS // 2) + rng.randrange(2)
    else:
        v = rng.randrange(f.MODULUS)
    return f(v % f.MODULUS)


def native_field(name):
    import vdaf_poc.field as vf
    return getattr(vf, name)


class FieldP(Ty):
    """A field class parameter: abstract symbolically, each real class natively."""

    def __init__(self, base='Field', names=None, concrete=None):
        self.base = base
        self.names = names or (['Field64', 'Field96', 'Field128', 'Field255'] if base == 'Field' else ['Field64', 'Field96', 'Field128'])
        self.concrete = concrete

    def sym(self, it, name, idx, env):
        if self.concrete:
            return it.field_named(self.concrete)
        ci = it.loader.cls('field:' + self.base)
        p, e = z3.Int(name + '_p'), z3.Int(name + '_e')
        it.assume(p > 2 ** 60)
        it.assume(e >= 1)
        POSITIVE.add(aid(e))
        it.assume(p < it.pow2_term(mul_i(8, e)))
        it.has_abs = True
        f = FIELDS.get(name + '_abs')
        if f is None or f.info is not ci:
            f = FieldCls(name + '_abs', p, e, ci)
        if self.base == 'NttField':
            g = z3.Int(name + '_go')
            it.assume(g >= 1)
            f.extra['GEN_ORDER'] = ireify(patom(g))
        return f

    def gen(self, rng, env):
        return native_field(rng.choice([self.concrete] if self.concrete else self.names))

    def conc(self, model, name, idx, env):
        return native_field(self.concrete or self.names[0])


class ListOf(Ty):
    def __init__(self, elem, n=None, max=6, kind='list', gen=None):
        self.elem, self.n, self.max, self.kind, self.g = elem, n, max, kind, gen

    def sym(self, it, name, idx, env):
        n = resolve(self.n, env)
        if n is None:
            n = app(name + '_len', idx, IntS)
            if idx:
                RANGE[name + '_len'] = (0, None)
            else:
                it.assume(n >= 0)
            n = ireify(patom(n))
        if isinstance(n, int):
            s = Lit([self.elem.sym(it, name + '_e', list(idx) + [i], env) for i in range(n)], self.kind)
        else:
            s = Fun(n, lambda i: it.pure(self.elem.sym(it, name + '_e', list(idx) + [i], env)), self.kind)
        if self.kind == 'tuple':
            return tuple(s.items()) if isinstance(n, int) else s
        if idx:
            return s
        return it.new_list(s)

    def gen(self, rng, env):
        if self.g:
            return self.g(rng, env)
        n = resolve(self.n, env)
        if n is None:
            n = rng.randrange(0, self.max + 1)
        r = [self.elem.gen(rng, env) for _ in range(n)]
        return tuple(r) if self.kind == 'tuple' else r

    def conc(self, model, name, idx, env):
        n = resolve(self.n, env)
        if n is None:
            n = model.eval(app(name + '_len', idx, IntS), model_completion=True).as_long()
        if not isinstance(n, int) or n > 500:
            raise ValueError('size')
        r = [self.elem.conc(model, name + '_e', list(idx) + [i], env) for i in range(n)]
        return tuple(r) if self.kind == 'tuple' else r


class Tup(Ty):
    def __init__(self, *elems):
        self.elems = elems

    def sym(self, it, name, idx, env):
        return tuple(e.sym(it, '%s_%d' % (name, k), idx, env) for k, e in enumerate(self.elems))

    def gen(self, rng, env):
        return tuple(e.gen(rng, env) for e in self.elems)

    def conc(self, model, name, idx, env):
        return tuple(e.conc(model, '%s_%d' % (name, k), idx, env) for k, e in enumerate(self.elems))


class Const(Ty):
    def __init__(self, v):
        self.v = v

    def sym(self, it, name, idx, env):
        if isinstance(self.v, list):
            return it.new_list(Lit([Const(x).sym(it, name, idx, env) for x in self.v]))
        if isinstance(self.v, bytes):
            return seq_of_bytes(self.v)
        return self.v

    def gen(self, rng, env):
        return copy.deepcopy(self.v)

    conc = lambda self, model, name, idx, env: copy.deepcopy(self.v)


class Via(Ty):
    """Custom: symbolic builder s(it, env) and native builder g(rng, env)."""

    def __init__(self, s, g):
        self.s, self.g = s, g

    def sym(self, it, name, idx, env):
        return self.s(it, env)

    def gen(self, rng, env):
        return self.g(rng, env)

    def conc(self, model, name, idx, env):
        return self.g(random.Random(1), env)


class Obj(Ty):
    """An instance of a class (of /repo or of the specification) with the given attributes."""

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs

    def sym(self, it, name, idx, env):
        ci = it.loader.cls(self.cls)
        env = dict(env)
        a = {}
        for k, ty in self.attrs.items():
            a[k] = ty.sym(it, '%s_%s' % (name, k), idx, env)
            env[k] = a[k]
        return it.alloc(I.ObjCell(ci, a))

    def native(self, env, f):
        c = native_func(self.cls, self.cls.startswith('s_'))
        o = object.__new__(c)
        env = dict(env)
        for k, ty in self.attrs.items():
            v = f(k, ty, env)
            env[k] = v
            setattr(o, k, v)
        return o

    def gen(self, rng, env):
        return self.native(env, lambda k, ty, e: ty.gen(rng, e))

    def conc(self, model, name, idx, env):
        return self.native(env, lambda k, ty, e: ty.conc(model, '%s_%s' % (name, k), idx, e))


class Built(Obj):
    """What a function of the specification makes of the given arguments."""

    def sym(self, it, name, idx, env):
        env = dict(env)
        a = []
        for k, ty in self.attrs.items():
            env[k] = ty.sym(it, '%s_%s' % (name, k), idx, env)
            a.append(env[k])
        return it.inline(spec_func(it.loader, self.cls), a, {}, None)

    def native(self, env, f):
        env = dict(env)
        a = []
        for k, ty in self.attrs.items():
            env[k] = f(k, ty, env)
            a.append(env[k])
        return native_func(self.cls, True)(*a)


class Opq(Ty):
    """An opaque value."""

    def sym(self, it, name, idx, env):
        return Opaque('obj', app(name, idx, TokS))

    def gen(self, rng, env):
        import vlib
        return vlib.Op('v%d' % rng.randrange(10 ** 9))

    def conc(self, model, name, idx, env):
        import vlib
        return vlib.Op(str(model.eval(app(name, idx, TokS), model_completion=True)))


class OneOf(Ty):
    """Case split over several types (e.g. None or a list)."""

    def __init__(self, *alts):
        self.alts = alts

    def sym(self, it, name, idx, env):
        k = it.choose([[] for _ in self.alts]) if len(self.alts) > 1 else 0
        return self.alts[k].sym(it, name + '_a%d' % k, idx, env)

    def gen(self, rng, env):
        return rng.choice(self.alts).gen(rng, env)

    def conc(self, model, name, idx, env):
        return self.alts[0].conc(model, name + '_a0', idx, env)


# ---------------------------------------------------------------- units

class Unit:
    """One contract (target vs executable specification) or lemma.

    target: 'common:vec_add' (None for a lemma: the spec returns a truth value)
    spec:   'module:function' in /verif/spec
    params: ordered {name: Ty}; env entries of earlier params are visible
    """

    def __init__(self, name, props, spec, params, target=None, pre=None, use=False, bounded=None,
                 native=True, symbolic=True, gen=None, budget=75, setup=None, rawfield=False,
                 inline=(), note=None, nbudget=None, call=None, hidden=(), thorough=False, frame=True,
                 maxpaths=400, cost=None, refuses=False, sym_params=None):
        self.name, self.props, self.spec, self.params = name, list(props), spec, params
        self.target, self.pre, self.use, self.bounded = target, pre, use, bounded
        self.native, self.symbolic, self.gen, self.budget = native, symbolic, gen, budget
        self.setup, self.rawfield, self.inline_quals, self.note = setup, rawfield, inline, note
        self.nbudget, self.call, self.hidden, self.thorough = nbudget, call, set(hidden), thorough
        self.frame = frame
        self.maxpaths = maxpaths
        self.cost = cost
        self.refuses = refuses      # the contract refuses every input
        self.sym_params = sym_params

    def __repr__(self):
        return '<unit %s>' % self.name


UNITS = []
BYNAME = {}


def unit(*a, **k):
    u = Unit(*a, **k)
    if u.name in BYNAME:
        raise ValueError('duplicate unit ' + u.name)
    UNITS.append(u)
    BYNAME[u.name] = u
    u.order = len(UNITS)
    return u


class Result:
    def __init__(self, unit):
        self.unit = unit
        self.obligations = []      # (label, status, detail)
        self.status = None         # 'proved' | 'failed' | 'unsupported'
        self.detail = ''
        self.wall = 0
        self.paths = 0
        self.used = set()
        self.inlined = set()
        self.loops = 0
        self.models = []
        self.queries = 0
        self.solver_s = 0


def p_requires(it, args, kw):
    c = it.truth(args[0])
    if it.in_contract:
        if c is True or not isinstance(c, bool) and it.prove(c):
            return None
        raise I.PreFail(it.in_contract[-1])
    if isinstance(c, bool):
        if not c:
            raise I.Infeasible()
        return None
    it.assume(c)
    if not it.feasible():
        raise I.Infeasible()
    return None


def p_rejects(it, args, kw):
    try:
        it.call(args[0], [])
    except I.PyRaise:
        return True
    return False


def uf_terms(it, name, args):
    shape, ts = ['uf', name], []
    for a in args:
        a = it.peek(a) if not isinstance(a, (Ref,)) or isinstance(it.heap[a.id], I.ListCell) else a
        if isinstance(a, Ref):
            c = it.heap[a.id]
            a = tuple(it.peek(c.attrs[k]) for k in sorted(c.attrs))
        for t in flat_terms(a):
            if isinstance(t, str):
                shape.append(t)
            else:
                shape.append(t.sort().name())
                ts.append(t)
    return '|'.join(shape), ts


def uf_app(nm, ts, sort):
    t = z3.Function(nm, *[x.sort() for x in ts], sort)(*ts) if ts else z3.Const(nm, sort)
    aid(t)
    return t


def p_uf_obj(it, args, kw):
    nm, ts = uf_terms(it, args[0], args[1:])
    return Opaque('obj', uf_app(nm, ts, TokS))


def p_uf_bool(it, args, kw):
    nm, ts = uf_terms(it, args[0], args[1:])
    return uf_app(nm, ts, BoolS)


def p_uf_int(it, args, kw):
    nm, ts = uf_terms(it, args[2], args[3:])
    t = uf_app(nm, ts, IntS)
    it.assume(cmp_i('>=', t, args[0]))
    it.assume(cmp_i('<', t, args[1]))
    return ireify(patom(t))


def p_uf_bytes(it, args, kw):
    nm, ts = uf_terms(it, args[1], args[2:])
    RANGE[nm + '|b'] = (0, 256)
    return Fun(it.as_int(args[0]), lambda i: ireify(patom(uf_app(nm + '|b', ts + [zint(canon_i(i))], IntS))), 'bytes')


def p_uf_vec(it, args, kw):
    nm, ts = uf_terms(it, args[2], args[3:])
    f = args[0]
    return it.new_list(Fun(it.as_int(args[1]), lambda i: FE(f, patom(uf_app(nm + '|f', ts + [zint(canon_i(i))], FldS)))))


def p_induct_eq(it, args, kw):
    """lhs(n) == rhs(n) from lhs(0) == rhs(0) and equal increments."""
    from .proofs import with_facts
    lhs, rhs, n = args
    if not it.prove_eq(it.call(lhs, [0]), it.call(rhs, [0])):
        return False
    k = ireify(patom(fresh_int('ind')))

    def step():
        a0, a1, b0, b1 = it.call(lhs, [k]), it.call(lhs, [iadd(k, 1)]), it.call(rhs, [k]), it.call(rhs, [iadd(k, 1)])
        return it.prove_eq(it.binop('Sub', a1, a0), it.binop('Sub', b1, b0))
    if not with_facts(it, [cmp_i('>=', k, 0), cmp_i('<', k, n)], step):
        return False
    it.assume(it.truth(it.eq(it.call(lhs, [n]), it.call(rhs, [n]))))
    return True


def p_by_induction(it, args, kw):
    """P(n) from P(0) and P(k) => P(k + 1)."""
    from .proofs import with_facts, unfold_sums
    P, n = args
    if not it.prove_eq(it.truth(it.call(P, [0])), True):
        return False
    k = ireify(patom(fresh_int('ind')))

    def step():
        c0 = it.truth(it.call(P, [k]))
        it.assume(c0)
        c1 = it.truth(it.call(P, [iadd(k, 1)]))
        if isinstance(c1, bool):
            return c1
        for _ in range(12):
            r = unfold_sums(it, c1, c0)
            if r is None:
                break
            c1 = r[0]
        return prove_conj(it, c1)
    if not with_facts(it, [cmp_i('>=', k, 0), cmp_i('<', k, n)], step):
        return False
    it.assume(it.truth(it.call(P, [n])))
    return True


def prove_conj(it, c):
    """Prove a formula conjunct by conjunct, field equations by rewriting."""
    if isinstance(c, bool):
        return c
    if z3.is_and(c):
        return all(prove_conj(it, x) for x in c.children())
    if it.prove(c):
        return True
    if z3.is_eq(c) and c.arg(0).sort() == FldS:
        for x in S.subterms([c]):
            nm = x.decl().name()
            if nm.startswith('emb_') and nm[4:] in FIELDS:
                f = FIELDS[nm[4:]]
                return it.prove_eq(FE(f, fpoly(c.arg(0))), FE(f, fpoly(c.arg(1))))
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_ITE:
        from .proofs import with_facts
        return with_facts(it, [c.arg(0)], lambda: prove_conj(it, c.arg(1))) and \
            with_facts(it, [z3.Not(c.arg(0))], lambda: prove_conj(it, c.arg(2)))
    return False


PRIMS = {'vlib.induct_eq': p_induct_eq, 'vlib.by_induction': p_by_induction, 'vlib.requires': p_requires, 'vlib.rejects': p_rejects, 'vlib.uf_obj': p_uf_obj, 'vlib.uf_bool': p_uf_bool,
         'vlib.uf_rare': p_uf_bool, 'vlib.uf_int': p_uf_int, 'vlib.uf_bytes': p_uf_bytes, 'vlib.uf_vec': p_uf_vec}
SETUPS = []


def new_interp(ld, u, deadline):
    it = I.Interp(ld, timeout_ms=6000, deadline=deadline)
    it.prims = dict(PRIMS)
    it.raw_field = u.rawfield
    it.max_paths = u.maxpaths
    it.field_named = lambda nm: it.wrap_static(ld.module('vdaf_poc.field').lookup(nm))
    for s in SETUPS:
        s(it, u)
    if u.setup:
        u.setup(it)
    return it


def spec_func(ld, q):
    mod, fn = q.split(':')
    m = ld.module(mod)
    if m is None:
        raise KeyError(mod)
    d = m.defs[fn]
    return d


def outcome(it, fn):
    try:
        return ('ok', fn())
    except I.PyRaise as e:
        return ('raise', e.exc)


# not refusals: a contract raising one of these is wrong
BUGS = ('AttributeError', 'NameError', 'TypeError', 'UnboundLocalError', 'KeyError')


def verify(u, disabled=(), deadline_s=None, ld=None, extra=()):
    """Symbolic verification of one unit."""
    t0 = time.time()
    q0, s0 = STATS['queries'], STATS['time']
    R = Result(u)
    if not u.symbolic:
        R.status = 'native'
        return R
    ld = ld or loader()
    dl = deadline_s or u.budget
    it = new_interp(ld, u, time.time() + dl)
    for v in UNITS:
        if v.use and v.order < u.order and v.name not in disabled and v.target:
            q = v.target
            if q in u.inline_quals or q in extra:
                continue
            it.contracts[q] = spec_func(ld, v.spec)
            it.contract_units = getattr(it, 'contract_units', {})
            it.contract_units[q] = v.name
    try:
        from .builtins_ import deepcopy, rnd_init
        target = None
        if u.target:
            target = ld.func(u.target) or ld.cls(u.target)
            if target is None:
                raise Unsupported('target %s not found' % u.target)
            if isinstance(target, FuncInfo):
                it.disabled.add(target.qual)
        it.disabled.add(u.target)
        sf = spec_func(ld, u.spec)
        pre = spec_func(ld, u.pre) if u.pre else None

        def thunk():
            env = {}
            args = []
            rnd_init(it)
            for nm, ty in (u.sym_params or u.params).items():
                v = ty.sym(it, nm, [], env)
                env[nm] = v
                if nm not in u.hidden:
                    args.append(v)
            if pre is not None:
                c = it.truth(it.inline(pre, list(args), {}, None))
                if not it.branch(c):
                    raise I.Infeasible()
            if target is not None:
                args_b = [deepcopy(it, a) for a in args]
                it.phase = 'real'
                ra = outcome(it, lambda: real_call(it, u, target, args))
                it.phase = 'spec'
                it.heap[it.ext['rng'].id] = I.ObjCell('rng', {'pos': 0})
                rb = outcome(it, lambda: it.inline(sf, args_b, {}, None))
            else:
                args_b = args
                it.phase = 'lemma'
                ra = outcome(it, lambda: it.truth(it.inline(sf, args, {}, None)))
                rb = ('ok', True)
            if rb[0] == 'raise' and target is not None and rb[1] in BUGS:
                raise Unsupported('the contract itself raised %s' % rb[1])
            # compare
            if ra[0] != rb[0]:
                if it.feasible():
                    R.obligations.append(('outcome', 'failed', 'code %s, contract %s' % (show(ra), show(rb))))
                    grab_model(it, R)
                else:
                    R.obligations.append(('outcome', 'ok', ''))
                return ('normal', None)
            if ra[0] == 'ok':
                ok = it.prove_eq(ra[1], rb[1])
                R.obligations.append(('result' if target is not None else 'lemma', 'ok' if ok else 'failed',
                                      '' if ok else 'cannot prove equality'))
                if not ok and it.prover.check(it.pc, False) == 'valid':
                    R.obligations[-1] = ('result', 'ok', 'infeasible')
                    ok = True
                if not ok:
                    R.fail_vals = (ra[1], rb[1], list(it.pc))
                    grab_model(it, R)
            else:
                R.obligations.append(('rejects', 'ok', ''))
            if target is not None and u.frame:
                for nm, a, b in zip([n for n in u.params if n not in u.hidden], args, args_b):
                    if isinstance(a, Ref):
                        ok = it.prove_eq(a, b)
                        R.obligations.append(('frame:' + nm, 'ok' if ok else 'failed', '' if ok else 'argument %s changed' % nm))
                        if not ok:
                            grab_model(it, R)
            return ('normal', None)
        paths = it.explore(thunk)
        R.paths = len(paths)
        if any(s == 'failed' for _, s, _ in R.obligations):
            R.status = 'failed'
            R.detail = '; '.join('%s: %s' % (l, d) for l, s, d in R.obligations if s == 'failed')[:400]
        elif not R.obligations:
            R.status = 'unsupported'
            R.detail = 'no obligations (vacuous)'
        elif u.target and not u.refuses and not any(l in ('result', 'outcome') for l, _, _ in R.obligations):
            R.status = 'unsupported'
            R.detail = 'the contract never returns (vacuous)'
        else:
            for p in paths:
                if p.out[0] == 'raise':
                    R.status = 'failed'
                    R.detail = 'escaped exception'
            R.status = R.status or 'proved'
    except Unsupported as e:
        R.status, R.detail = 'unsupported', str(e)[:300]
        R.tb = traceback.format_exc()
    except I.PreFail as e:
        q = str(e)
        if q in getattr(it, 'contract_units', {}) and q not in extra:
            return verify(u, disabled, deadline_s, ld, extra + (q,))
        R.status, R.detail = 'unsupported', 'precondition of %s not established' % q
        R.tb = traceback.format_exc()
    except I.HoleRead:
        R.status, R.detail = 'unsupported', 'loop-carried value of unknown shape read'
        R.tb = traceback.format_exc()
    except MergeFail:
        R.status, R.detail = 'unsupported', 'cannot merge values'
        R.tb = traceback.format_exc()
    except I.Budget as e:
        R.status, R.detail = 'unsupported', str(e)
        R.tb = traceback.format_exc()
    except I.PyRaise as e:
        R.status, R.detail = 'unsupported', 'setup raised %s' % e.exc
        R.tb = traceback.format_exc()
    except Exception as e:
        R.status, R.detail = 'unsupported', 'internal: %r' % (e,)
        R.tb = traceback.format_exc()
    R.wall = time.time() - t0
    R.used = {getattr(it, 'contract_units', {}).get(q, q) for q in it.used_contracts}
    R.inlined = set(it.inlined)
    R.loops = it.loops
    R.queries = STATS['queries'] - q0
    R.solver_s = STATS['time'] - s0
    return R


def show(r):
    return 'raises %s' % r[1] if r[0] == 'raise' else 'returns'


def grab_model(it, R):
    if it.prover.last_model is not None and len(R.models) < 4:
        r = it.prover.check(it.pc, False)
        if r == 'invalid' and it.prover.last_model is not None:
            R.models.append(it.prover.last_model)


def real_call(it, u, target, args):
    if u.call:
        return u.call(it, target, args)
    if isinstance(target, ClassInfo):
        return it.instantiate(target, list(args), {})
    if target.cls is not None:
        return it.call(it.getattr(args[0], target.name), list(args[1:]))
        return it.call_func(target, list(args), {}, args[0])
    return it.call_func(target, list(args), {}, None)


# ---------------------------------------------------------------- native

def native_setup():
    for p in ('/opt/venv/lib/python3.12/site-packages', SPEC, POC):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)


def native_func(q, spec=False):
    import importlib
    mod, fn = q.split(':')
    m = importlib.import_module(mod if spec else 'vdaf_poc.' + mod)
    o = m
    for p in fn.split('.'):
        o = getattr(o, p)
    return o


def nat_target(u):
    """Callable taking the same positional arguments as the spec."""
    mod, fn = u.target.split(':')
    import importlib
    m = importlib.import_module(mod if mod.startswith('s_') else 'vdaf_poc.' + mod)
    parts = fn.split('.')
    if len(parts) == 1:
        return getattr(m, parts[0])
    meth = parts[1]

    def call(self_, *a, **k):
        return getattr(self_, meth)(*a, **k)
    return call


def same(a, b):
    """Deep equality with types (field elements compared with their class)."""
    if a is b:
        return True
    if hasattr(a, 'MODULUS') and hasattr(b, 'MODULUS') and not isinstance(a, type):
        return type(a) is type(b) and a.val == b.val
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return isinstance(a, list) == isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (bytes, bytearray)) and isinstance(b, (bytes, bytearray)):
        return bytes(a) == bytes(b)
    if isinstance(a, set) and isinstance(b, set):
        return a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if type(a) is not type(b):
        return False
    if hasattr(a, '__dict__') and not isinstance(a, type):
        return same(a.__dict__, b.__dict__)
    return a == b


def describe(v, depth=0):
    if hasattr(v, 'MODULUS') and not isinstance(v, type):
        return '%s(%d)' % (type(v).__name__, v.val)
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, list):
        return '[' + ', '.join(describe(x, depth + 1) for x in v) + ']'
    if isinstance(v, tuple):
        return '(' + ', '.join(describe(x, depth + 1) for x in v) + ',)'
    if hasattr(v, '__dict__') and depth < 4:
        return '%s{%s}' % (type(v).__name__, ', '.join('%s=%s' % (k, describe(x, depth + 1)) for k, x in v.__dict__.items()))
    r = repr(v)
    return r if len(r) < 600 else r[:600] + '...'


def run_native(u, args):
    """Run one concrete case.  Returns None if fine, 'skip', or a message."""
    import vlib
    spec = native_func(u.spec, True)
    if u.pre:
        if not native_func(u.pre, True)(*copy.deepcopy(args)):
            return 'skip'
    if u.target is None:
        try:
            ok = spec(*args)
        except vlib.Skip:
            return 'skip'
        except Exception as e:
            return 'lemma raised %r' % (e,)
        return None if ok else 'lemma is false'
    a1, a2 = copy.deepcopy(args), copy.deepcopy(args)
    try:
        rb = ('ok', spec(*a2))
    except vlib.Skip:
        return 'skip'
    except Exception as e:
        rb = ('raise', e)
        if type(e).__name__ in BUGS:
            return 'the contract itself raised %r' % (e,)
    try:
        ra = ('ok', nat_target(u)(*a1))
    except RecursionError:
        raise
    except Exception as e:
        ra = ('raise', e)
    if ra[0] != rb[0]:
        return 'code %s but contract %s' % (
            'returns ' + describe(ra[1]) if ra[0] == 'ok' else 'raises %r' % ra[1],
            'returns ' + describe(rb[1]) if rb[0] == 'ok' else 'refuses (%r)' % rb[1])
    if ra[0] == 'ok' and not same(ra[1], rb[1]):
        return 'code returns %s but contract gives %s' % (describe(ra[1]), describe(rb[1]))
    if u.frame and not same(list(a1), list(a2)):
        return 'arguments after the call: %s, expected %s' % (describe(list(a1)), describe(list(a2)))
    return None


def gen_case(u, rng):
    env = {}
    args = []
    for nm, ty in u.params.items():
        v = ty.gen(rng, env)
        env[nm] = v
        if nm not in u.hidden:
            args.append(v)
    if u.gen:
        r = u.gen(rng, env)
        if r is not None:
            args = r
    return args


class TimeLimit(Exception):
    pass


def with_alarm(sec, fn):
    import signal

    def h(*a):
        raise TimeLimit()
    old = signal.signal(signal.SIGALRM, h)
    signal.setitimer(signal.ITIMER_REAL, sec)
    try:
        return fn()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def search(u, seed, seconds, maxcases=4000):
    """Random search for a violating input.  Returns (case, message, ncases, nontrivial)."""
    rng = random.Random('%s-%s' % (u.name, seed))
    t0 = time.time()
    n = nt = 0
    while time.time() - t0 < seconds and n < maxcases:
        n += 1
        args = None
        try:
            args = gen_case(u, rng)
            msg = with_alarm(max(2.0, min(20.0, seconds * 2)), lambda: run_native(u, args))
        except TimeLimit:
            # a call that does not come back: report only if it repeats with a generous limit
            try:
                msg = with_alarm(60, lambda: run_native(u, args))
            except TimeLimit:
                msg = 'call does not terminate within the limit'
        if msg == 'skip':
            continue
        nt += 1
        if msg:
            return args, msg, n, nt
    return None, None, n, nt


def replay_models(u, R):
    """Try the verifier's counter-models on the real code."""
    for m in R.models:
        try:
            env, args = {}, []
            for nm, ty in u.params.items():
                v = ty.conc(m, nm, [], env)
                env[nm] = v
                if nm not in u.hidden:
                    args.append(v)
            msg = with_alarm(10, lambda: run_native(u, args))
            if msg and msg != 'skip':
                return args, msg
        except Exception:
            continue
        except TimeLimit:
            continue
    return None
