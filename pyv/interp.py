"""Symbolic execution of Python source: all paths, loops by verified closed forms."""
import ast
import time
import z3
from .terms import *
from .values import *
from .src import FuncInfo, ClassInfo, Module
from .solve import Prover, QFact, lebyte, fromle, powmod, tlen, RANGE, subterms
from . import terms as T
from . import values as V
from . import solve as S


class PyRaise(Exception):
    """A Python exception raised by the interpreted program."""

    def __init__(self, exc):
        self.exc = exc


class PreFail(Exception):
    """A contract was used where its precondition is not established."""


class Infeasible(Exception):
    pass


class HoleRead(Exception):
    pass


class Budget(Exception):
    """Time or path budget exhausted (never a verdict)."""


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Closure:
    def __init__(self, node, fid):
        self.node, self.fid = node, fid


class Builtin:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<builtin %s>' % self.name


class Method:
    """Built-in method of a value (list.append, bytes.join, ...)."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class PyFn:
    """A function given directly in Python: fn(interp, args, kwargs)."""

    def __init__(self, fn, name='pyfn'):
        self.fn, self.name = fn, name


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Ext:
    """External library name (dotted)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<ext %s>' % self.name


class TypeThing:
    """A typing construct that plays no role at run time."""


class StrVal:
    """An unmodelled string (messages)."""


class ListCell:
    __slots__ = ('seq', 'frozen', 'owner', 'kind')

    def __init__(self, seq, owner=None, frozen=False, kind='list'):
        self.seq, self.owner, self.frozen, self.kind = seq, owner, frozen, kind


class ObjCell:
    __slots__ = ('cls', 'attrs', 'owner')

    def __init__(self, cls, attrs, owner=None):
        self.cls, self.attrs, self.owner = cls, attrs, owner


class HoleSeq(Seq):
    def __init__(self, hid, n, getter, kind):
        self.hid, self.n, self.getter, self.kind = hid, n, getter, kind

    def get(self, i):
        if self.getter is None:
            raise HoleRead()
        return self.getter(i)

    def subst(self, pairs):
        return self


class HoleRow(HoleSeq):
    """Row of an unknown list of lists of field elements."""

    def __init__(self, hid, row, f, n_of, fn):
        self.hid, self.row, self.f, self.n_of, self.fn, self.kind = hid, canon_i(row), f, n_of, fn, 'list'
        self.n = n_of(row)

    def get(self, i):
        return FE(self.f, patom(self.fn(zint(self.row), zint(canon_i(i)))))

    def subst(self, pairs):
        return HoleRow(self.hid, isubst(self.row, pairs), self.f, self.n_of, self.fn)


class Hole:
    """Unknown value of unknown type carried by a loop."""

    def __init__(self, name):
        self.name = name


class Rev(Seq):
    def __init__(self, base, kind=None):
        self.base, self.n, self.kind = base, base.n, kind or base.kind

    def get(self, i):
        return self.base.get(isub(isub(self.n, 1), i))

    def subst(self, pairs):
        return mkrev(self.base.subst(pairs))


def mkrev(s):
    if isinstance(s, Rev):
        return s.base
    if isinstance(s, Lit):
        return Lit(list(reversed(s._items)), s.kind)
    return Rev(s)


class Zip(Seq):
    """Sequence of tuples from several sequences of the same length."""

    def __init__(self, parts, n):
        self.parts, self.n, self.kind = parts, n, 'list'

    def get(self, i):
        return tuple(p.get(i) for p in self.parts)

    def subst(self, pairs):
        return Zip([p.subst(pairs) for p in self.parts], isubst(self.n, pairs))


class Filter(Seq):
    """Elements val(j), lo<=j<hi, satisfying cond(j), in order."""

    def __init__(self, lo, hi, cond, val, kind='list'):
        self.lo, self.hi, self.cond, self.val, self.kind = lo, hi, cond, val, kind
        v = fresh_index('f')
        body = flat_terms(val(v)) + [zbool(cond(v))]
        body = [t if isinstance(t, str) else zsubst(t, [(v, BETA)]) for t in body]
        key, ivs = lift(['filter'] + body)
        self.key = key
        t = FILTERS.get(key)
        if t is None:
            k = len(FILTERS)
            t = (z3.Function('fcnt!%d' % k, IntS, IntS, *([IntS] * len(ivs)), IntS),
                 z3.Function('fsel!%d' % k, IntS, IntS, *([IntS] * len(ivs)), IntS))
            FILTERS[key] = t
            FCOND['fcnt!%d' % k] = (ivs, body[-1])
        self.fcnt, self.fsel = t
        self.ivs = ivs
        self.n = ireify(ipoly(self.fcnt(zint(lo), zint(hi), *ivs)))

    def get(self, i):
        j = self.fsel(zint(self.lo), zint(i), *self.ivs)
        return self.val(ireify(ipoly(j)))

    def subst(self, pairs):
        def c(i):
            v = fresh_index('s')
            return subst(subst(self.cond(v), pairs), [(v, zint(i))])

        def w(i):
            v = fresh_index('s')
            return subst(subst(self.val(v), pairs), [(v, zint(i))])
        return Filter(isubst(self.lo, pairs), isubst(self.hi, pairs), c, w, self.kind)


FILTERS = {}
FCOND = {}      # name of the counting function -> (parameters, condition at BETA)


def fcond_at(t, j):
    """Condition of the filter counted by the term t, at index j."""
    ivs, body = FCOND[t.decl().name()]
    return zsubst(body, [(BETA, zint(j))] + [(p, q) for p, q in zip(ivs, t.children()[2:])])


class Path:
    def __init__(self, out, st, delta, decs):
        self.out, self.st, self.delta, self.decs = out, st, delta, decs


class Dec:
    def __init__(self, script):
        self.script = script
        self.pos = 0
        self.taken = []
        self.alts = []


MAX_UNROLL = 600
EXC_NAMES = {'ValueError', 'AssertionError', 'IndexError', 'Exception', 'NotImplementedError',
             'TypeError', 'KeyError', 'ZeroDivisionError', 'OverflowError'}
BUILTINS = {'len', 'range', 'list', 'tuple', 'bytes', 'bytearray', 'int', 'bool', 'zip', 'map',
            'enumerate', 'reversed', 'sum', 'all', 'any', 'max', 'min', 'set', 'pow', 'isinstance',
            'super', 'abs', 'sorted', 'str', 'print', 'type', 'object', 'filter', 'divmod', 'repr', 'iter',
            'next', 'bin', 'staticmethod', 'classmethod', 'property', 'frozenset', 'dict', 'float'}


class Interp:
    def __init__(self, loader, timeout_ms=3000, deadline=None):
        self.loader = loader
        self.prover = Prover(timeout_ms)
        self.heap = {}
        self.frames = {}
        self.fmeta = {}
        self.pc = []
        self.decs = []
        self.nref = 0
        self.nfid = 0
        self.contracts = {}        # qual -> spec FuncInfo
        self.disabled = set()
        self.used_contracts = set()
        self.in_contract = []      # contracts being applied (their preconditions are obligations)
        self.inlined = set()
        self.prims = {}            # name -> python callable for spec primitives
        self.raw_field = False
        self.depth = 0
        self.deadline = deadline
        self.fieldcls = {}
        self.clsattr = {}
        self.obligations = []      # (name, status, info)
        self.loops = 0
        self.ext = {}
        self.max_paths = 400
        self.fresh_mark = 0
        self.broke = False
        V.CTX.decide = self.decide

    # ------------------------------------------------------------ state

    def snapshot(self):
        return (dict(self.heap), {k: dict(v) for k, v in self.frames.items()}, list(self.pc))

    def restore(self, s):
        self.heap = dict(s[0])
        self.frames = {k: dict(v) for k, v in s[1].items()}
        self.pc = list(s[2])

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def alloc(self, cell):
        self.nref += 1
        self.heap[self.nref] = cell
        return Ref(self.nref)

    def new_list(self, seq, kind='list', owner=None):
        return self.alloc(ListCell(seq.with_kind(kind), owner, False, kind))

    def new_frame(self, parent, module, cls=None, self_=None):
        self.nfid += 1
        self.frames[self.nfid] = {}
        self.fmeta[self.nfid] = (parent, module, cls, self_)
        return self.nfid

    # ------------------------------------------------- facts and decisions

    def assume(self, c):
        if isinstance(c, QFact):
            self.pc.append(c)
            return
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        for f in self.pc:
            if not isinstance(f, QFact) and f.eq(c):
                return
        self.pc.append(c)

    def decide(self, c):
        """True / False / None: truth of c under the path condition."""
        if isinstance(c, bool):
            return c
        self.tick()
        for f in self.pc:
            if isinstance(f, QFact):
                continue
            if f.eq(c):
                return True
        n = b_not(c)
        if not isinstance(n, bool):
            for f in self.pc:
                if not isinstance(f, QFact) and f.eq(n):
                    return False
        if z3.is_eq(c) and c.arg(0).sort() == FldS:
            from .proofs import fld_decide
            r = fld_decide(self, c)
            if r is not None:
                return r
        if self.prover.check(self.pc, c, 1500) == 'valid':
            return True
        if self.prover.check(self.pc, n, 1500) == 'valid':
            return False
        return None

    def feasible(self):
        return self.prover.check(self.pc, False, 1500) != 'valid'

    def branch(self, c):
        if isinstance(c, bool):
            return c
        k = self.decide(c)
        if k is not None:
            return k
        return self.choose([[c], [b_not(c)]]) == 0

    def choose(self, opts, check=False):
        """Nondeterministic choice; opts: list of lists of facts."""
        if not self.decs:
            raise Unsupported('choice outside exploration')
        d = self.decs[-1]
        if d.pos < len(d.script):
            k = d.script[d.pos]
        else:
            k = 0
            for a in range(1, len(opts)):
                d.alts.append(d.taken + [a])
        d.pos += 1
        d.taken.append(k)
        for f in opts[k]:
            self.assume(f)
        if check and not self.feasible():
            raise Infeasible()
        return k

    def sget(self, s, i):
        """Element i; by cases where the possible elements have no common form."""
        for _ in range(6):
            try:
                return s.get(i)
            except MergeFail as e:
                c = e.cond
                if not is_z3(c) or not self.decs:
                    raise
                self.branch(c)
        return s.get(i)

    def explore(self, thunk):
        base = self.snapshot()
        n0 = len(base[2])
        out = []
        work = [[]]
        count = 0
        while work:
            script = work.pop()
            self.restore(base)
            d = Dec(script)
            self.decs.append(d)
            count += 1
            if count > self.max_paths:
                self.decs.pop()
                raise Budget('too many paths')
            self.tick()
            dep = self.depth
            try:
                sig = thunk()
                res = sig if sig is not None else ('normal', None)
            except PyRaise as e:
                res = ('raise', e.exc)
            except Infeasible:
                res = None
            finally:
                self.decs.pop()
                self.depth = dep
            work.extend(d.alts)
            if res is not None:
                out.append(Path(res, self.snapshot(), self.pc[n0:], list(d.taken)))
        self.restore(base)
        return out

    # ---------------------------------------------------------- name lookup

    def lookup(self, name, fid):
        f = fid
        while f is not None:
            v = self.frames[f]
            if name in v:
                x = v[name]
                if x is UNBOUND:
                    raise PyRaise('UnboundLocalError')
                if isinstance(x, LastVal):
                    return self.force_last(f, name, x)
                return x
            f = self.fmeta[f][0]
        mod = self.fmeta[fid][1]
        return self.global_name(name, mod)

    def force_last(self, fid, name, x):
        if self.branch(cmp_i('>', x.n, 0)):
            self.frames[fid][name] = x.val
            return x.val
        raise PyRaise('UnboundLocalError')

    def global_name(self, name, mod):
        d = mod.lookup(name)
        if d is not None:
            return self.wrap_static(d)
        if name in BUILTINS:
            return Builtin(name)
        if name in EXC_NAMES:
            return Builtin('exc:' + name)
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        if name in ('NotImplemented', 'Ellipsis'):
            return Opaque(name, z3.Const(name, TokS))
        raise PyRaise('NameError')

    def wrap_static(self, d):
        if isinstance(d, tuple) and d[0] == 'ext':
            nm = d[1]
            if nm in self.prims:
                return PyFn(self.prims[nm], nm)
            base = nm.split('.')[-1]
            if nm.startswith('typing.') or nm.startswith('abc.') or nm.startswith('__future__'):
                if base == 'cast':
                    return Builtin('cast')
                return TypeThing()
            return Ext(nm)
        if isinstance(d, tuple) and d[0] == 'expr':
            key = (d[2].name, id(d[1]))
            if key not in self.clsattr:
                fid = self.new_frame(None, d[2])
                v = self.eval(d[1], fid)
                self.clsattr[key] = ('frozen', self.purify_deep(v)) if isinstance(v, Ref) else v
            v = self.clsattr[key]
            if isinstance(v, tuple) and len(v) == 2 and v[0] == 'frozen':
                return self.thaw(v[1], 'module:' + d[2].name)
            return v
        if isinstance(d, ClassInfo) and d.subclass_of('Field') and not self.raw_field:
            return self.field_of(d)
        if isinstance(d, FuncInfo):
            nm = d.module.name + '.' + d.name
            if nm in self.prims:
                return PyFn(self.prims[nm], nm)
        return d

    def field_of(self, ci):
        if ci.name not in self.fieldcls:
            m = self.class_attr(ci, 'MODULUS')
            e = self.class_attr(ci, 'ENCODED_SIZE')
            self.fieldcls[ci.name] = FieldCls(ci.name, m, e, ci)
        return self.fieldcls[ci.name]

    def class_attr(self, ci, name):
        c, node = ci.find_attr(name)
        if node is None:
            return UNBOUND
        key = (c.module.name, c.name, name)
        if key not in self.clsattr:
            fid = self.new_frame(None, c.module)
            # class bodies may refer to sibling attributes
            for a in c.attrs:
                if a != name and any(isinstance(x, ast.Name) and x.id == a for x in ast.walk(node)):
                    self.frames[fid][a] = self.class_attr(c, a)
            v = self.eval(node, fid)
            self.clsattr[key] = v
            if isinstance(v, Ref):
                self.clsattr[key] = ('frozen', self.purify_deep(v))
        v = self.clsattr[key]
        if isinstance(v, tuple) and len(v) == 2 and v[0] == 'frozen':
            return self.thaw(v[1], 'class:%s.%s' % (c.name, name))
        return v

    # class-level mutable values are kept as pure descriptions
    def purify_deep(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ListCell):
                return ('L', [self.purify_deep(x) for x in c.seq.items()])
            return ('O', c.cls, {k: self.purify_deep(x) for k, x in c.attrs.items()})
        return ('V', v)

    def thaw(self, d, owner):
        if d[0] == 'L':
            return self.new_list(Lit([self.thaw(x, owner) for x in d[1]]), owner=owner)
        if d[0] == 'O':
            return self.alloc(ObjCell(d[1], {k: self.thaw(x, owner) for k, x in d[2].items()}, owner))
        return d[1]

    # --------------------------------------------------------------- eval

    def eval(self, n, fid):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(n).__name__)
        return m(n, fid)

    def e_Constant(self, n, fid):
        v = n.value
        if isinstance(v, bytes):
            return seq_of_bytes(v)
        if v is Ellipsis:
            return None
        return v

    def e_Name(self, n, fid):
        return self.lookup(n.id, fid)

    def e_Tuple(self, n, fid):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                s = self.toseq(self.eval(e.value, fid))
                out.extend(s.items())
            else:
                out.append(self.eval(e, fid))
        return tuple(out)

    def e_List(self, n, fid):
        return self.new_list(Lit(list(self.e_Tuple(n, fid))))

    def e_Set(self, n, fid):
        return SetVal(Lit(list(self.e_Tuple(n, fid))))

    def e_Dict(self, n, fid):
        raise Unsupported('dict')

    def e_JoinedStr(self, n, fid):
        return StrVal()

    def e_Lambda(self, n, fid):
        return Closure(n, fid)

    def e_IfExp(self, n, fid):
        if self.branch(self.truth(self.eval(n.test, fid))):
            return self.eval(n.body, fid)
        return self.eval(n.orelse, fid)

    def e_NamedExpr(self, n, fid):
        v = self.eval(n.value, fid)
        self.assign(n.target, v, fid)
        return v

    def e_BoolOp(self, n, fid):
        isand = isinstance(n.op, ast.And)
        for e in n.values[:-1]:
            v = self.eval(e, fid)
            t = self.truth(v)
            if self.branch(t):
                if not isand:
                    return v if not is_z3(v) else True
            else:
                if isand:
                    return v if not is_z3(v) else False
        return self.eval(n.values[-1], fid)

    def e_UnaryOp(self, n, fid):
        v = self.eval(n.operand, fid)
        if isinstance(n.op, ast.Not):
            return b_not(self.truth(v))
        if isinstance(n.op, ast.USub):
            if isinstance(v, FE):
                return fe_neg(v)
            if isinstance(v, Ref):
                return self.call_method(v, '__neg__', [])
            return ineg(self.as_int(v))
        if isinstance(n.op, ast.Invert):
            return isub(ineg(self.as_int(v)), 1)
        return v

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if is_z3(v) and v.sort() == BoolS:
            return v
        if is_int(v):
            return cmp_i('!=', v, 0)
        if isinstance(v, str):
            return bool(v)
        if isinstance(v, (Ref, Seq, tuple, bytes)):
            if isinstance(v, Ref) and isinstance(self.heap[v.id], ObjCell):
                return True
            return cmp_i('!=', self.toseq(v).n, 0)
        if isinstance(v, (ClassInfo, FieldCls, FuncInfo, Bound, FE, SymObj)):
            return True
        if isinstance(v, Hole):
            raise HoleRead()
        raise Unsupported('truth value of %r' % (v,))

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_z3(v) and v.sort() == BoolS:
            return b2i(v)
        if is_int(v):
            return v
        if isinstance(v, Hole):
            raise HoleRead()
        if v is None or isinstance(v, (FE, Seq, tuple, Ref, str, StrVal, FieldCls)):
            raise PyRaise('TypeError')
        raise Unsupported('int expected: %r' % (v,))

    def e_BinOp(self, n, fid):
        a = self.eval(n.left, fid)
        b = self.eval(n.right, fid)
        return self.binop(type(n.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise HoleRead()
        if isinstance(a, FE) or isinstance(b, FE):
            return self.fe_binop(op, a, b)
        if isinstance(a, (str, StrVal)) and op in ('Mod', 'Add', 'Mult'):
            if isinstance(a, str) and op == 'Add' and isinstance(b, str):
                return a + b
            if isinstance(a, str) and op == 'Mult' and isinstance(b, int):
                return a * b
            return StrVal()
        if isinstance(a, Ref) and isinstance(self.heap[a.id], ObjCell):
            d = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__', 'Pow': '__pow__'}.get(op)
            if d is None:
                raise Unsupported('operator on object')
            return self.call_method(a, d, [b])
        sa, sb = self.try_seq(a), self.try_seq(b)
        if op == 'Add' and sa is not None:
            if sb is None:
                raise PyRaise('TypeError')
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if (sa.kind in ('bytes', 'bytearray')) != (sb.kind in ('bytes', 'bytearray')):
                raise PyRaise('TypeError')
            r = mkcat([sa, sb], sa.kind)
            if self.is_list(a):
                return self.new_list(r)
            return r
        if op == 'Mult' and (sa is not None or sb is not None):
            s, k = (sa, b) if sa is not None else (sb, a)
            islist = self.is_list(a if sa is not None else b)
            k = self.as_int(k)
            r = self.seq_repeat(s, k)
            return self.new_list(r) if islist else r
        if op == 'BitOr' and (isinstance(a, (TypeThing, ClassInfo, Builtin, FieldCls)) or
                              isinstance(b, (TypeThing, ClassInfo, Builtin, FieldCls))):
            return TypeThing()
        isb = is_bool(a) and is_bool(b)
        if isb and op == 'BitXor':
            return b_xor(a, b)
        if isb and op == 'BitAnd':
            return b_and(a, b)
        if isb and op == 'BitOr':
            return b_or(a, b)
        a, b = self.as_int(a), self.as_int(b)
        return self.int_binop(op, a, b)

    def seq_repeat(self, s, k):
        if isinstance(k, int):
            if isinstance(s, Lit):
                return Lit(s.items() * max(k, 0), s.kind)
            return mkcat([s] * max(k, 0), s.kind)
        if not self.branch(cmp_i('>=', k, 0)):
            return Lit([], s.kind)
        if isinstance(s.n, int) and s.n == 1:
            v = self.pure(s.get(0))
            return Fun(k, lambda i: v, s.kind)
        return mkflat(k, s.n, lambda i: s, s.kind)

    def int_binop(self, op, a, b):
        if op == 'Add':
            return iadd(a, b)
        if op == 'Sub':
            return isub(a, b)
        if op == 'Mult':
            return mul_i(a, b)
        if op in ('FloorDiv', 'Mod'):
            if not isinstance(b, int):
                if not self.branch(cmp_i('>', b, 0)):
                    if self.branch(cmp_i('==', b, 0)):
                        raise PyRaise('ZeroDivisionError')
                    raise Unsupported('negative divisor')
            elif b == 0:
                raise PyRaise('ZeroDivisionError')
            if op == 'Mod' and not (isinstance(a, int) and isinstance(b, int)):
                if self.decide(b_and(cmp_i('>=', a, 0), cmp_i('<', a, b))):
                    return a
            if op == 'FloorDiv':
                return floordiv(a, b)
            return mod_i(a, b)
        if op == 'Pow':
            if isinstance(a, int) and isinstance(b, int) and b >= 0:
                return a ** b
            if isinstance(a, int) and a == 2:
                return self.mkpow2(b)
            if isinstance(b, int) and b >= 0:
                r = 1
                for _ in range(b):
                    r = mul_i(r, a)
                return r
            raise Unsupported('pow')
        if op == 'LShift':
            if isinstance(b, int) and b < 0:
                raise PyRaise('ValueError')
            return mul_i(a, self.mkpow2(b))
        if op == 'RShift':
            if isinstance(b, int):
                if b < 0:
                    raise PyRaise('ValueError')
                if b == 0:
                    return a
                return floordiv(a, 2 ** b)
            if isinstance(a, int) and a == 0:
                return 0
            return self.rshift(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            return self.bitop(op, a, b)
        if op == 'Div':
            raise Unsupported('true division')
        raise Unsupported('int op %s' % op)

    def rshift(self, a, b):
        if not self.branch(cmp_i('>=', b, 0)):
            raise PyRaise('ValueError')
        return floordiv(a, self.pow2_term(b))

    def mkpow2(self, e):
        if isinstance(e, int):
            if e < 0:
                raise Unsupported('negative power of two')
            return 2 ** e
        if self.decide(cmp_i('>=', e, 0)) is not True:
            if not self.branch(cmp_i('>=', e, 0)):
                raise PyRaise('ValueError')
        return self.pow2_term(e)

    def pow2_term(self, e):
        p = ipoly(e)
        c = p.t.get((), 0)
        rest = ireify(P({k: v for k, v in p.t.items() if k != ()}))
        if c > 0 and self.decide(cmp_i('>=', rest, 0)) is True:
            return mul_i(2 ** c, pow2(zint(rest)))
        return ireify(patom(pow2(zint(canon_i(e)))))

    def bitop(self, op, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a & b if op == 'BitAnd' else a | b if op == 'BitOr' else a ^ b
        if isinstance(a, int):
            a, b = b, a
        if op == 'BitAnd' and isinstance(b, int):
            if b == 0:
                return 0
            if b == 1:
                # parity; (x >> l) & 1 is bit l of x
                t = zint(a)
                if t.decl().eq(shr):
                    return ireify(patom(bit(t.arg(0), t.arg(1))))
                if t.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(t.arg(1)):
                    dv = t.arg(1).as_long()
                    if dv & (dv - 1) == 0:
                        return ireify(patom(bit(t.arg(0), z3.IntVal(dv.bit_length() - 1))))
                return ireify(patom(bit(zint(canon_i(a)), z3.IntVal(0))))
            if b > 0 and b & (b + 1) == 0:
                return self.int_binop('Mod', a, b + 1)
            if b == 0xFE:
                if self.decide(b_and(cmp_i('>=', a, 0), cmp_i('<', a, 256))):
                    return isub(a, bit(zint(canon_i(a)), z3.IntVal(0)))
        if op == 'BitAnd' and not isinstance(b, int):
            # mask 2^k - 1
            for x, y in ((a, b), (b, a)):
                p = padd(ipoly(y), pconst(1))
                if len(p.t) == 1:
                    (k, c), = p.t.items()
                    if len(k) == 1 and k[0][1] == 1 and atom(k[0][0]).decl().eq(pow2) and c > 0 and c & (c - 1) == 0:
                        return self.int_binop('Mod', x, iadd(y, 1))
            return ireify(patom(band(*sorted((zint(canon_i(a)), zint(canon_i(b))), key=aid))))
        if op == 'BitXor':
            return xor_norm(a, b)
        if op == 'BitOr':
            if isinstance(b, int) and b == 0:
                return a
            if isinstance(b, int) or isinstance(a, int) or True:
                r = self.or_disjoint(a, b)
                if r is not None:
                    return r
            return ireify(patom(bor(*sorted((zint(canon_i(a)), zint(canon_i(b))), key=aid))))
        return ireify(patom(band(*sorted((zint(canon_i(a)), zint(canon_i(b))), key=aid))))

    def or_disjoint(self, a, b):
        """a | b == a + b when one is below 2^k and the other a multiple of 2^k."""
        for x, y in ((a, b), (b, a)):
            g = 0
            from math import gcd
            for k, c in ipoly(y).t.items():
                g = gcd(g, c)
            if g == 0:
                return x
            k = (g & -g)
            if k > 1 and self.decide(b_and(cmp_i('>=', x, 0), cmp_i('<', x, k))):
                return iadd(x, y)
        # sums of distinct powers of two times 0/1 atoms
        pa, pb = ipoly(a), ipoly(b)

        def bits(p):
            m = {}
            for k, c in p.t.items():
                if c <= 0 or c & (c - 1):
                    return None
                if k == () or (len(k) == 1 and k[0][1] == 1 and self.decide(
                        b_and(cmp_i('>=', atom(k[0][0]), 0), cmp_i('<=', atom(k[0][0]), 1)))):
                    if c in m:
                        return None
                    m[c] = k
                else:
                    return None
            return m
        ma, mb = bits(pa), bits(pb)
        if ma is not None and mb is not None and not set(ma) & set(mb):
            return iadd(a, b)
        return None

    def fe_binop(self, op, a, b):
        if op == 'Pow':
            if not isinstance(a, FE):
                raise PyRaise('TypeError')
            e = self.as_int(b)
            if isinstance(e, int):
                if e < 0:
                    raise Unsupported('negative field power')
            elif not self.branch(cmp_i('>=', e, 0)):
                raise Unsupported('negative field power')
            return fe_pow(a, e)
        if not (isinstance(a, FE) and isinstance(b, FE)):
            if op in ('Add', 'Sub', 'Mult') and (is_int(a) or is_int(b) or a is None or b is None):
                raise PyRaise('AttributeError')
            if isinstance(a, Hole) or isinstance(b, Hole):
                raise HoleRead()
            raise PyRaise('TypeError')
        if a.f is not b.f:
            raise Unsupported('mixed fields %s %s' % (a.f, b.f))
        if op == 'Add':
            return fe_add(a, b)
        if op == 'Sub':
            return fe_sub(a, b)
        if op == 'Mult':
            return fe_mul(a, b)
        raise PyRaise('TypeError')

    # --------------------------------------------------------- comparisons

    def e_Compare(self, n, fid):
        left = self.eval(n.left, fid)
        res = True
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, fid)
            c = self.compare(type(op).__name__, left, right)
            if len(n.ops) == 1:
                return c
            res = b_and(res, c)
            if res is False:
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise HoleRead()
        if op in ('Is', 'IsNot'):
            r = (a is b) if not isinstance(a, Ref) else a == b
            if isinstance(a, bool) or isinstance(b, bool) or is_z3(a) and a.sort() == BoolS:
                r = b_eq(a, b) if is_bool(a) and is_bool(b) else False
            return r if op == 'Is' else b_not(r)
        if op in ('Eq', 'NotEq'):
            r = self.eq(a, b)
            return r if op == 'Eq' else b_not(r)
        if op in ('In', 'NotIn'):
            r = self.contains(b, a)
            return r if op == 'In' else b_not(r)
        o = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>='}[op]
        if (is_int(a) or is_bool(a)) and (is_int(b) or is_bool(b)):
            return cmp_i(o, self.as_int(a), self.as_int(b))
        sa, sb = self.try_seq(a), self.try_seq(b)
        if sa is not None and sb is not None:
            return self.lex(o, sa, sb)
        if isinstance(a, SetLen) or isinstance(b, SetLen):
            raise Unsupported('ordering on set sizes')
        raise PyRaise('TypeError')

    def lex(self, o, a, b):
        lt = lambda x, y: lexlt(tok(self.pureseq(x)), tok(self.pureseq(y)))
        if isinstance(a, Lit) and isinstance(b, Lit) and all(isinstance(x, (int, bool)) for x in a._items + b._items):
            x, y = a._items, b._items
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
        if o == '<':
            return lt(a, b)
        if o == '>':
            return lt(b, a)
        if o == '>=':
            return b_not(lt(a, b))
        return b_not(lt(b, a))

    def lemma_eq(self, a, b):
        try:
            return self.prove_eq(a, b)
        except (HoleRead, MergeFail, Unsupported):
            return False

    def eq(self, a, b):
        if isinstance(a, Hole) or isinstance(b, Hole):
            raise HoleRead()
        if a is b:
            return True
        if isinstance(a, SetLen) or isinstance(b, SetLen):
            return self.setlen_eq(a, b)
        if a is None or b is None:
            return False
        if (is_bool(a) or is_int(a)) and (is_bool(b) or is_int(b)):
            if is_bool(a) and is_bool(b):
                return b_eq(a, b)
            return cmp_i('==', self.as_int(a), self.as_int(b))
        if isinstance(a, FE) and isinstance(b, FE):
            if a.f is not b.f:
                return cmp_i('==', fe_val(a), fe_val(b))
            r = fe_eq(a, b)
            if not isinstance(r, bool) and getattr(self, 'phase', None) == 'lemma' and self.prove_eq(a, b):
                return True
            return r
        if isinstance(a, (FieldCls, ClassInfo, str)) or isinstance(b, (FieldCls, ClassInfo, str)):
            return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
        if isinstance(a, Ref) and isinstance(self.heap[a.id], ObjCell):
            if isinstance(b, Ref) and a == b:
                return True
            ca = self.heap[a.id]
            f = ca.cls.find('__eq__') if isinstance(ca.cls, ClassInfo) else None
            if f is not None:
                return self.truth(self.call(Bound(f, a), [b]))
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return b_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return True if a.tok.eq(b.tok) else a.tok == b.tok
        if isinstance(a, SymObj) and isinstance(b, SymObj):
            return True if a.ident.eq(b.ident) else a.ident == b.ident
        sa, sb = self.try_seq(a), self.try_seq(b)
        if sa is not None and sb is not None:
            if getattr(self, 'phase', None) == 'lemma' and self.lemma_eq(sa, sb):
                return True
            return self.seq_eq(sa, sb)
        if (sa is None) != (sb is None):
            return False
        if isinstance(a, FE) != isinstance(b, FE):
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def seq_eq(self, a, b):
        ka = 'bytes' if a.kind in ('bytes', 'bytearray') else a.kind
        kb = 'bytes' if b.kind in ('bytes', 'bytearray') else b.kind
        if ka != kb and not ({ka, kb} <= {'list', 'zip'}):
            return False
        if isinstance(a.n, int) and isinstance(b.n, int):
            if a.n != b.n:
                return False
            if a.n <= 64:
                return b_and(*[self.eq(a.get(i), b.get(i)) for i in range(a.n)])
        ln = self.decide(cmp_i('==', a.n, b.n))
        if ln is False:
            return False
        if isinstance(b.n, int) and b.n == 0:
            return cmp_i('==', a.n, 0)
        if isinstance(a.n, int) and a.n == 0:
            return cmp_i('==', b.n, 0)
        n = a.n if isinstance(a.n, int) else b.n
        if ln is True and isinstance(n, int) and n <= 64:
            return b_and(*[self.eq(a.get(i), b.get(i)) for i in range(n)])
        ta, tb = tok(self.pureseq(a)), tok(self.pureseq(b))
        if ta.eq(tb):
            return True
        if ln is True and self.prove_eq(a, b):
            return True
        return ta == tb

    def setlen_eq(self, a, b):
        if isinstance(b, SetLen):
            a, b = b, a
        s = a.seq
        if isinstance(s, Lit):
            # concrete number of elements: decide distinctness
            it = s._items
            reps = []
            for x in it:
                if not any(self.branch(self.eq(x, y)) for y in reps):
                    reps.append(x)
            return cmp_i('==', len(reps), b)
        if same_int(self.as_int(b), s.n):
            return distinct(tok(self.pureseq(s)))
        if isinstance(b, int) and b == 1:
            first = s.get(0)
            if not self.branch(cmp_i('>=', s.n, 1)):
                return False
            return self.quantify_all(s.n, lambda i: self.eq(s.get(i), first))
        raise Unsupported('size of a set')

    def quantify_all(self, n, fn):
        """Truth of (forall i<n: fn(i)) as a path decision."""
        v = fresh_index('a')
        self.pc.append(zbool(b_and(cmp_i('>=', v, 0), cmp_i('<', v, n))))
        mark = len(self.pc)
        c = fn(v)
        self.pc.pop(mark - 1)
        if isinstance(c, bool):
            if c:
                return True
            return cmp_i('<=', n, 0)
        if self.prove(c, [zbool(b_and(cmp_i('>=', v, 0), cmp_i('<', v, n)))], 1500):
            return True
        body = lambda t: bsubst(c, [(v, zint(t))])
        k = self.choose([[QFact(0, n, body)], []])
        if k == 0:
            return True
        sk = fresh_index('w')
        self.assume(b_and(cmp_i('>=', sk, 0), cmp_i('<', sk, n)))
        self.assume(b_not(body(sk)))
        if not self.feasible():
            raise Infeasible()
        return False

    def contains(self, c, x):
        if isinstance(c, RangeVal):
            if c.step != 1:
                raise Unsupported('membership in stepped range')
            if not (is_int(x) or is_bool(x)):
                return False
            x = self.as_int(x)
            return b_and(cmp_i('>=', x, c.start), cmp_i('<', x, c.stop))
        s = c.seq if isinstance(c, SetVal) else self.toseq(c)
        if isinstance(s, Lit):
            return b_or(*[self.eq(x, y) for y in s._items])
        x = self.pure(x)
        sx = self.try_seq(x)
        if sx is not None:
            return member(tok(self.pureseq(sx)), tok(self.pureseq(s)))
        raise Unsupported('membership')

    # ------------------------------------------------------------ sequences

    def is_list(self, v):
        return isinstance(v, Ref) and isinstance(self.heap[v.id], ListCell) or \
            isinstance(v, Seq) and v.kind in ('list', 'bytearray')

    def try_seq(self, v):
        if isinstance(v, Ref):
            c = self.heap[v.id]
            return c.seq if isinstance(c, ListCell) else None
        return as_seq(v)

    def toseq(self, v):
        if isinstance(v, Hole):
            raise HoleRead()
        s = self.try_seq(v)
        if s is None:
            if isinstance(v, SetVal):
                return v.seq
            if v is None or is_int(v) or is_bool(v) or isinstance(v, (FE, FieldCls)) or \
                    (isinstance(v, Opaque) and v.ty == 'obj'):
                raise PyRaise('TypeError')
            raise Unsupported('not a sequence: %r' % (v,))
        return s

    def pure(self, v):
        """Replace references by immutable contents (freezing the cells)."""
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ListCell):
                if not c.frozen:
                    self.heap[v.id] = ListCell(c.seq, c.owner, True, c.kind)
                return self.pureseq(c.seq)
            return v
        if isinstance(v, tuple):
            return tuple(self.pure(x) for x in v)
        if isinstance(v, Seq):
            return self.pureseq(v)
        if isinstance(v, (bytes, bytearray)):
            return seq_of_bytes(v)
        return v

    def pureseq(self, s):
        if isinstance(s, Lit) and any(isinstance(x, (Ref, tuple)) for x in s._items):
            return Lit([self.pure(x) for x in s._items], s.kind)
        if isinstance(s, Cat):
            return mkcat([self.pureseq(p) for p in s.parts], s.kind)
        if isinstance(s, Zip):
            return Zip([self.pureseq(p) for p in s.parts], s.n)
        return s

    def peek(self, v):
        """Contents of a value without freezing (for specs/comparison)."""
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ListCell):
                return self.peekseq(c.seq)
            return v
        if isinstance(v, tuple):
            return tuple(self.peek(x) for x in v)
        if isinstance(v, Seq):
            return self.peekseq(v)
        return v

    def peekseq(self, s):
        if isinstance(s, Lit) and any(isinstance(x, (Ref, tuple)) for x in s._items):
            return Lit([self.peek(x) for x in s._items], s.kind)
        if isinstance(s, Cat):
            return mkcat([self.peekseq(p) for p in s.parts], s.kind)
        return s

    def e_Subscript(self, n, fid):
        v = self.eval(n.value, fid)
        if isinstance(v, (ClassInfo, TypeThing, Builtin, FieldCls)):
            return v
        if isinstance(n.slice, ast.Slice):
            return self.do_slice(v, n.slice, fid)
        i = self.eval(n.slice, fid)
        return self.getitem(v, i)

    def getitem(self, v, i):
        if isinstance(v, Hole) or isinstance(i, Hole):
            raise HoleRead()
        s = self.toseq(v)
        i = self.norm_index(s, self.as_int(i))
        return self.sget(s, i)

    def norm_index(self, s, i):
        if isinstance(i, int) and isinstance(s.n, int):
            if not -s.n <= i < s.n:
                raise PyRaise('IndexError')
            return i % s.n if i < 0 else i
        if isinstance(i, int) and i < 0:
            if not self.branch(cmp_i('>=', s.n, -i)):
                raise PyRaise('IndexError')
            return iadd(s.n, i)
        if self.branch(cmp_i('>=', i, 0)):
            if not self.branch(cmp_i('<', i, s.n)):
                raise PyRaise('IndexError')
            return i
        if not self.branch(cmp_i('>=', i, ineg(s.n))):
            raise PyRaise('IndexError')
        return iadd(i, s.n)

    def clamp(self, i, n, default):
        """Slice bound normalisation."""
        if i is None:
            return default
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i = max(i + n, 0)
            return min(i, n)
        if self.branch(cmp_i('<', i, 0)):
            i = iadd(i, n)
            if self.branch(cmp_i('<', i, 0)):
                return 0
            return i
        if self.branch(cmp_i('<=', i, n)):
            return i
        return n

    def do_slice(self, v, sl, fid):
        lo = self.eval(sl.lower, fid) if sl.lower else None
        hi = self.eval(sl.upper, fid) if sl.upper else None
        step = self.eval(sl.step, fid) if sl.step else None
        return self.slice(v, lo, hi, step)

    def slice(self, v, lo, hi, step):
        if isinstance(v, str) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return v[lo:hi:step]
        s = self.toseq(v)
        islist = self.is_list(v)
        kind = s.kind
        if step is not None and step != 1:
            if isinstance(s, Lit) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
                r = Lit(s._items[lo:hi:step], kind)
            elif step == -1 and lo is None and hi is None:
                r = mkrev(s)
            elif isinstance(step, int) and step > 0:
                a = self.clamp(self.opt_int(lo), s.n, 0)
                b = self.clamp(self.opt_int(hi), s.n, s.n)
                rv = RangeVal(a, b, step)
                m = rv.length()
                r = Fun(m, lambda i: s.get(iadd(a, mul_i(step, i))), kind)
            else:
                raise Unsupported('slice step')
        else:
            a = self.clamp(self.opt_int(lo), s.n, 0)
            b = self.clamp(self.opt_int(hi), s.n, s.n)
            n = isub(b, a)
            if isinstance(n, int):
                n = max(n, 0)
            elif not self.branch(cmp_i('>=', n, 0)):
                n = 0
            r = mkslice(s, a, n, kind)
        if isinstance(v, tuple):
            if isinstance(r, Lit):
                return tuple(r._items)
            return r
        if islist:
            k = 'list'
            if isinstance(v, Ref):
                k = self.heap[v.id].kind
            if self.has_refs(s):
                return self.new_list(r, k)
            return self.new_list(r, k)
        return r

    def has_refs(self, s):
        return isinstance(s, Lit) and any(isinstance(x, Ref) for x in s._items)

    def opt_int(self, v):
        return None if v is None else self.as_int(v)

    def e_Slice(self, n, fid):
        raise Unsupported('slice object')

    def e_Starred(self, n, fid):
        raise Unsupported('starred')

    # ---------------------------------------------------------- attributes

    def e_Attribute(self, n, fid):
        v = self.eval(n.value, fid)
        return self.getattr(v, n.attr)

    def getattr(self, v, name):
        if isinstance(v, Hole):
            raise HoleRead()
        if isinstance(v, Module):
            d = v.lookup(name)
            if d is None:
                raise PyRaise('AttributeError')
            return self.wrap_static(d)
        if isinstance(v, Ext):
            return Ext(v.name + '.' + name)
        if isinstance(v, FieldCls):
            return self.field_attr(v, name)
        if isinstance(v, FE):
            if name == 'val':
                return self.fe_val(v)
            if name == '__class__':
                return v.f
            if name in ('int', 'inv'):
                return Method(v, name)
            if v.f.info is not None:
                f = v.f.info.find(name)
                if f is not None:
                    if f.is_classmethod:
                        return Bound(f, v.f)
                    return Bound(f, v)
            r = self.field_attr(v.f, name)
            return r
        if isinstance(v, ClassInfo):
            if name == '__name__':
                return v.name
            f = v.find(name)
            if f is not None:
                if f.is_classmethod:
                    return Bound(f, v)
                return f
            r = self.class_attr(v, name)
            if r is UNBOUND:
                raise PyRaise('AttributeError')
            return r
        if isinstance(v, Super):
            mro = self.cls_of(v.self_).mro()
            k = mro.index(v.cls)
            for c in mro[k + 1:]:
                if name in c.funcs:
                    return Bound(c.funcs[name], v.self_)
            if name == '__init__':
                return PyFn(lambda it, a, k: None)
            raise PyRaise('AttributeError')
        if isinstance(v, Ref):
            c = self.heap[v.id]
            if isinstance(c, ListCell):
                return Method(v, name)
            if name == '__class__':
                return c.cls
            if name in c.attrs:
                return c.attrs[name]
            if isinstance(c.cls, ClassInfo):
                return self.cls_member(c.cls, v, name)
            m = getattr(c.cls, 'm_' + name, None)
            if m is not None:
                return PyFn(lambda it, a, k: m(it, v, *a, **k), name)
            raise PyRaise('AttributeError')
        if isinstance(v, SymObj):
            if name in v.attrs:
                return v.attrs[name]
            if isinstance(v.cls, ClassInfo):
                return self.cls_member(v.cls, v, name)
            raise Unsupported('attribute %s of %r' % (name, v))
        if isinstance(v, (Seq, bytes, tuple, str, StrVal)) or is_int(v) or isinstance(v, bool) or \
                is_bool(v) or isinstance(v, (SetVal, Builtin)):
            return Method(v, name)
        if v is None:
            raise PyRaise('AttributeError')
        if isinstance(v, TypeThing):
            return TypeThing()
        if hasattr(v, 'py_getattr'):
            return v.py_getattr(self, name)
        raise Unsupported('attribute %s of %r' % (name, v))

    def cls_of(self, v):
        if isinstance(v, Ref):
            return self.heap[v.id].cls
        if isinstance(v, SymObj):
            return v.cls
        if isinstance(v, ClassInfo):
            return v
        raise Unsupported('class of %r' % (v,))

    def cls_member(self, cls, obj, name):
        f = cls.find(name)
        if f is not None:
            if f.is_property:
                return self.call(Bound(f, obj), [])
            if f.is_classmethod:
                return Bound(f, cls)
            if f.is_staticmethod:
                return f
            return Bound(f, obj)
        r = self.class_attr(cls, name)
        if r is UNBOUND:
            raise PyRaise('AttributeError')
        return r

    def field_attr(self, f, name):
        if name in f.extra:
            return f.extra[name]
        if name == 'MODULUS':
            return f.modulus
        if name == 'ENCODED_SIZE':
            return f.enc
        if name == '__name__':
            return f.name
        if f.info is not None:
            g = f.info.find(name)
            if g is not None:
                if g.is_classmethod:
                    return Bound(g, f)
                return g
            r = self.class_attr(f.info, name)
            if r is not UNBOUND:
                return r
            if not isinstance(f.modulus, int):
                raise Unsupported('attribute %s of an unknown field' % name)
        raise PyRaise('AttributeError')

    def setattr(self, obj, name, v):
        if isinstance(obj, Ref) and isinstance(self.heap[obj.id], ObjCell):
            c = self.heap[obj.id]
            if c.owner is not None:
                raise Unsupported('change of a value kept in ' + c.owner)
            a = dict(c.attrs)
            a[name] = v
            self.heap[obj.id] = ObjCell(c.cls, a, c.owner)
            return
        if isinstance(obj, SymObj):
            raise Unsupported('assignment to attribute %s of an abstract object' % name)
        raise Unsupported('attribute assignment')

    # --------------------------------------------------------------- calls

    def e_Call(self, n, fid):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            f = fid
            while f is not None:
                parent, mod, cls, self_ = self.fmeta[f]
                if cls is not None:
                    return Super(cls, self_)
                f = parent
            raise Unsupported('super')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('format',) and isinstance(n.func.value, ast.Constant):
            return StrVal()
        fn = self.eval(n.func, fid)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                s = self.toseq(self.eval(a.value, fid))
                if isinstance(s.n, int):
                    args.extend(s.items())
                else:
                    args.append(StarArg(s))
            else:
                args.append(self.eval(a, fid))
        kw = {k.arg: self.eval(k.value, fid) for k in n.keywords}
        return self.call(fn, args, kw)

    def call_method(self, obj, name, args):
        return self.call(self.getattr(obj, name), args)

    def call(self, fn, args, kw=None):
        kw = kw or {}
        self.tick()
        if isinstance(fn, PyFn):
            return fn.fn(self, args, kw)
        if isinstance(fn, Bound):
            return self.call_func(fn.func, [fn.self_] + args, kw, fn.self_)
        if isinstance(fn, FuncInfo):
            return self.call_func(fn, args, kw, None)
        if isinstance(fn, Closure):
            return self.call_closure(fn, args, kw)
        if isinstance(fn, FieldCls):
            return self.make_fe(fn, args)
        if isinstance(fn, ClassInfo):
            return self.instantiate(fn, args, kw)
        if isinstance(fn, Builtin):
            from .builtins_ import call_builtin
            return call_builtin(self, fn.name, args, kw)
        if isinstance(fn, Method):
            from .builtins_ import call_method
            return call_method(self, fn.obj, fn.name, args, kw)
        if isinstance(fn, Ext):
            from .builtins_ import call_ext
            return call_ext(self, fn.name, args, kw)
        if isinstance(fn, TypeThing):
            return TypeThing()
        if hasattr(fn, 'py_call'):
            return fn.py_call(self, args, kw)
        if fn is None:
            raise PyRaise('TypeError')
        raise Unsupported('call of %r' % (fn,))

    def make_fe(self, f, args):
        v = args[0]
        if isinstance(v, FE):
            raise PyRaise('TypeError')
        v = self.as_int(v)
        if self.decide(b_and(cmp_i('<', v, f.modulus), cmp_i('>', v, ineg(f.modulus)))) is not True:
            if not self.branch(cmp_i('<', v, f.modulus)):
                raise PyRaise('AssertionError')
            if not self.branch(cmp_i('>', v, ineg(f.modulus))):
                raise PyRaise('AssertionError')
        return fe_from_int(f, v)

    def instantiate(self, ci, args, kw):
        q = '%s:%s' % (ci.module.short, ci.name)
        h = self.contracts.get(q + '()')
        if h is not None and q + '()' not in self.disabled:
            self.used_contracts.add(q + '()')
            return h(self, ci, args, kw)
        r = self.alloc(ObjCell(ci, {}))
        init = ci.find('__init__')
        if init is not None:
            self.call_func(init, [r] + args, kw, r)
        return r

    def call_func(self, fi, args, kw, self_):
        q = fi.qual
        c = self.contracts.get(q)
        if c is not None and q not in self.disabled:
            self.used_contracts.add(q)
            return self.call_contract(c, args, kw, q)
        return self.inline(fi, args, kw, self_)

    def call_contract(self, c, args, kw, q):
        if callable(c) and not isinstance(c, FuncInfo):
            return c(self, args, kw)
        self.in_contract.append(q)
        try:
            return self.inline(c, args, kw, None)
        finally:
            self.in_contract.pop()

    def inline(self, fi, args, kw, self_):
        self.inlined.add(fi.qual)
        fid = self.new_frame(None, fi.module, fi.cls, args[0] if (fi.cls is not None and args) else None)
        self.bind_params(fi.node.args, args, kw, fid, fi.module)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported('recursion')
        try:
            sig = self.exec_block(fi.node.body, fid)
        finally:
            self.depth -= 1
        if sig is not None and sig[0] == 'ret':
            return sig[1]
        return None

    def call_closure(self, c, args, kw):
        parent, module, cls, self_ = self.fmeta[c.fid]
        fid = self.new_frame(c.fid, module)
        self.bind_params(c.node.args, args, kw, fid, module)
        if isinstance(c.node, ast.Lambda):
            return self.eval(c.node.body, fid)
        sig = self.exec_block(c.node.body, fid)
        return sig[1] if sig is not None and sig[0] == 'ret' else None

    def bind_params(self, a, args, kw, fid, module):
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        fr = self.frames[fid]
        nd = len(a.defaults)
        if args and isinstance(args[-1], StarArg):
            if a.vararg is None:
                raise Unsupported('star call')
            star = args[-1].seq
            args = args[:-1]
            if len(args) < len(names):
                raise Unsupported('star call')
            fr[a.vararg.arg] = mkcat([Lit(args[len(names):]), star], 'tuple')
            args = args[:len(names)]
        elif a.vararg is not None:
            fr[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        if len(args) > len(names):
            raise PyRaise('TypeError')
        for i, nm in enumerate(names):
            if i < len(args):
                fr[nm] = args[i]
            elif nm in kw:
                fr[nm] = kw.pop(nm)
            else:
                k = i - (len(names) - nd)
                if k < 0:
                    raise PyRaise('TypeError')
                f2 = self.new_frame(None, module)
                fr[nm] = self.eval(a.defaults[k], f2)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                fr[x.arg] = kw.pop(x.arg)
            else:
                f2 = self.new_frame(None, module)
                fr[x.arg] = self.eval(d, f2)
        if kw:
            raise PyRaise('TypeError')

    # --------------------------------------------------- comprehensions

    def e_ListComp(self, n, fid):
        s = self.comp(n, fid)
        return self.new_list(s)

    def e_GeneratorExp(self, n, fid):
        return self.comp(n, fid)

    def e_SetComp(self, n, fid):
        return SetVal(self.pureseq(self.comp(n, fid)))

    def comp(self, n, fid):
        """Comprehension, desugared to a loop appending to a fresh list."""
        f2 = self.new_frame(fid, self.fmeta[fid][1])
        acc = self.new_list(Lit([]))
        self.frames[f2]['$acc'] = acc
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('$acc', ast.Load()), 'append', ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        self.exec_block(body, f2)
        c = self.heap[acc.id]
        return c.seq

    # ---------------------------------------------------------- statements

    def exec_block(self, stmts, fid):
        for s in stmts:
            r = self.exec(s, fid)
            if r is not None:
                return r
        return None

    def exec(self, s, fid):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fid)

    def s_Expr(self, s, fid):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fid)

    def s_Pass(self, s, fid):
        return

    def s_Import(self, s, fid):
        raise Unsupported('local import')

    s_ImportFrom = s_Import

    def s_Return(self, s, fid):
        return ('ret', self.eval(s.value, fid) if s.value is not None else None)

    def s_Raise(self, s, fid):
        raise PyRaise('raise')

    def s_Assert(self, s, fid):
        if not self.branch(self.truth(self.eval(s.test, fid))):
            raise PyRaise('AssertionError')

    def s_If(self, s, fid):
        if self.branch(self.truth(self.eval(s.test, fid))):
            return self.exec_block(s.body, fid)
        return self.exec_block(s.orelse, fid)

    def s_Break(self, s, fid):
        return ('brk', None)

    def s_Continue(self, s, fid):
        return ('cont', None)

    def s_FunctionDef(self, s, fid):
        self.frames[fid][s.name] = Closure(s, fid)

    def s_Delete(self, s, fid):
        raise Unsupported('del')

    def s_Global(self, s, fid):
        raise Unsupported('global')

    def s_Nonlocal(self, s, fid):
        raise Unsupported('nonlocal')

    def s_Assign(self, s, fid):
        v = self.eval(s.value, fid)
        for t in s.targets:
            self.assign(t, v, fid)

    def s_AnnAssign(self, s, fid):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fid), fid)

    def s_AugAssign(self, s, fid):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fid)
            v = self.eval(s.value, fid)
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], ListCell) and op == 'Add':
                self.list_extend(cur, v)
                return
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], ListCell) and op == 'Mult':
                raise Unsupported('list *=')
            self.frames[fid][t.id] = self.binop(op, cur, v)
            return
        if isinstance(t, ast.Attribute):
            obj = self.eval(t.value, fid)
            cur = self.getattr(obj, t.attr)
            v = self.eval(s.value, fid)
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], ListCell) and op == 'Add':
                self.list_extend(cur, v)
                return
            self.setattr(obj, t.attr, self.binop(op, cur, v))
            return
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice augassign')
            base = self.eval(t.value, fid)
            i = self.eval(t.slice, fid)
            cur = self.getitem(base, i)
            v = self.eval(s.value, fid)
            if isinstance(cur, Ref) and isinstance(self.heap[cur.id], ListCell) and op == 'Add':
                self.list_extend(cur, v)
                return
            if isinstance(cur, Seq) and cur.kind == 'list' and op == 'Add':
                self.setitem_path(t, mkcat([cur, self.toseq(v)]), fid, base, i)
                return
            self.setitem_path(t, self.binop(op, cur, v), fid, base, i)
            return
        raise Unsupported('augmented assignment')

    def list_extend(self, ref, v):
        c = self.heap[ref.id]
        if c.frozen or c.owner is not None:
            raise Unsupported('mutation of a shared list')
        s = self.toseq(v)
        if c.kind == 'list' and s.kind == 'list' and not isinstance(s, Lit):
            s = self.pureseq(s)
        self.heap[ref.id] = ListCell(mkcat([c.seq, s], c.seq.kind), c.owner, False, c.kind)

    def set_list(self, ref, seq):
        c = self.heap[ref.id]
        if c.frozen or c.owner is not None:
            raise Unsupported('mutation of a shared list')
        self.heap[ref.id] = ListCell(seq, c.owner, False, c.kind)

    def assign(self, t, v, fid):
        if isinstance(t, ast.Name):
            self.frames[fid][t.id] = v
            return
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Hole):
                raise HoleRead()
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported('starred target')
            s = self.toseq(v)
            k = len(t.elts)
            if isinstance(s.n, int):
                if s.n != k:
                    raise PyRaise('ValueError')
            elif not self.branch(cmp_i('==', s.n, k)):
                raise PyRaise('ValueError')
            for j, e in enumerate(t.elts):
                self.assign(e, self.sget(s, j), fid)
            return
        if isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fid), t.attr, v)
            return
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                raise Unsupported('slice assignment')
            base = self.eval(t.value, fid)
            i = self.eval(t.slice, fid)
            self.setitem_path(t, v, fid, base, i)
            return
        raise Unsupported('assignment target')

    def setitem_path(self, t, v, fid, base, i):
        if isinstance(base, Hole):
            raise HoleRead()
        s = self.toseq(base)
        if isinstance(base, Ref):
            c = self.heap[base.id]
            if c.kind == 'bytearray':
                v = self.as_int(v)
                if not self.branch(b_and(cmp_i('>=', v, 0), cmp_i('<', v, 256))):
                    raise PyRaise('ValueError')
            idx = self.norm_index(s, self.as_int(i))
            if not (isinstance(s, Lit) and isinstance(idx, int)):
                v = self.pure(v)
            self.set_list(base, mkstore(self.refseq(s, idx), idx, v))
            return
        if isinstance(base, Seq) and base.kind == 'list' and isinstance(t.value, ast.Subscript):
            # a[i][j] = v where a[i] is held by value in a
            idx = self.norm_index(s, self.as_int(i))
            new = mkstore(s, idx, self.pure(v))
            b2 = self.eval(t.value.value, fid)
            i2 = self.eval(t.value.slice, fid)
            self.setitem_path(t.value, new, fid, b2, i2)
            return
        if isinstance(base, (tuple, Seq)) and s.kind in ('tuple', 'bytes'):
            raise PyRaise('TypeError')
        raise Unsupported('item assignment')

    def refseq(self, s, idx):
        if isinstance(idx, int):
            return s
        return self.pureseq(s)

    def s_Try(self, s, fid):
        if s.finalbody or s.orelse:
            raise Unsupported('try/finally')
        try:
            return self.exec_block(s.body, fid)
        except PyRaise as e:
            for h in s.handlers:
                t = ast.unparse(h.type) if h.type is not None else 'Exception'
                if t in ('Exception', 'BaseException') or e.exc == t:
                    if h.name:
                        self.frames[fid][h.name] = StrVal()
                    return self.exec_block(h.body, fid)
                if e.exc == 'raise' or t in EXC_NAMES:
                    raise Unsupported('specific except clause')
            raise

    def s_With(self, s, fid):
        raise Unsupported('with')

    # --------------------------------------------------------------- loops

    def iter_seq(self, v):
        if isinstance(v, RangeVal):
            return v.seq()
        return self.toseq(v)

    def s_For(self, s, fid):
        if s.orelse:
            raise Unsupported('for/else')
        it = self.eval(s.iter, fid)
        seq = self.iter_seq(it)
        if isinstance(seq, Cat) and len(seq.parts) <= 8 and not isinstance(seq.n, int):
            for p in seq.parts:
                self.broke = False
                r = self.for_seq(s, p, fid)
                if r is not None or self.broke:
                    self.broke = False
                    return r
            return None
        r = self.for_seq(s, seq, fid)
        self.broke = False
        return r

    def for_seq(self, s, seq, fid):
        n = seq.n
        if not isinstance(n, int):
            k = self.concrete_value(n)
            if k is not None:
                n = k
        if isinstance(n, int) and n <= MAX_UNROLL:
            for k in range(n):
                self.tick()
                self.assign(s.target, self.sget(seq, k), fid)
                r = self.exec_block(s.body, fid)
                if r is not None:
                    if r[0] == 'brk':
                        self.broke = True
                        break
                    if r[0] == 'cont':
                        continue
                    return r
            return None

        def step(i):
            self.assign(s.target, self.sget(seq, i), fid)
            return self.exec_block(s.body, fid)
        from .loops import summarise
        return summarise(self, 0, n, step, fid, assigned_names(s.body, s.target), s)

    def concrete_value(self, n):
        return None

    def s_While(self, s, fid):
        if s.orelse:
            raise Unsupported('while/else')
        # try concrete execution first
        count = 0
        while True:
            self.tick()
            c = self.truth(self.eval(s.test, fid))
            k = c if isinstance(c, bool) else self.decide(c)
            if k is False:
                return None
            if k is None:
                break
            if count > MAX_UNROLL:
                break
            if count == 0 and not isinstance(c, bool):
                break           # symbolic condition: summarise from the start
            count += 1
            r = self.exec_block(s.body, fid)
            if r is not None:
                if r[0] == 'brk':
                    return None
                if r[0] == 'cont':
                    continue
                return r
        from .loops import summarise_while
        return summarise_while(self, s, fid, assigned_names(s.body, None))

    # ------------------------------------------------------ proving equality

    def fe_val(self, v):
        r = fe_val(v)
        if isinstance(r, int):
            return r
        z = S.int_preimage(v.p, v.f)
        if z is not None and self.decide(b_and(cmp_i('>=', z, 0), cmp_i('<', z, v.f.modulus))) is True:
            return z
        return r

    def prove(self, goal, facts=None, timeout=None):
        return self.prover.check(self.pc + (facts or []), goal, timeout) == 'valid'

    def prove_eq(self, a, b, depth=0):
        from .proofs import prove_eq
        return prove_eq(self, a, b)


class StarArg:
    def __init__(self, seq):
        self.seq = seq


lexlt = z3.Function('lexlt', TokS, TokS, BoolS)
distinct = z3.Function('distinct', TokS, BoolS)
member = z3.Function('member', TokS, TokS, BoolS)


def fe_from_int(f, v):
    """Field element with integer value v (-p < v < p)."""
    if not isinstance(v, int):
        t = zint(v)
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().eq(f.fval):
            return FE(f, fpoly(t.arg(0)))
        if t.decl().kind() == z3.Z3_OP_ITE:
            return fe_ite(t.arg(0), fe_from_int(f, canon_i(t.arg(1))), fe_from_int(f, canon_i(t.arg(2))))
        if z3.is_int_value(t):
            return fe_int(f, t.as_long())
    return fe_int(f, v)


def xor_flat(v):
    if isinstance(v, int):
        return v, {}
    if v.decl().eq(bxor):
        c1, s1 = xor_flat(canon_i(v.arg(0)))
        c2, s2 = xor_flat(canon_i(v.arg(1)))
        s = dict(s1)
        for k in s2:
            if k in s:
                del s[k]
            else:
                s[k] = s2[k]
        return c1 ^ c2, s
    return 0, {aid(v): v}


def xor_norm(a, b):
    c1, s1 = xor_flat(canon_i(a))
    c2, s2 = xor_flat(canon_i(b))
    s = dict(s1)
    for k in s2:
        if k in s:
            del s[k]
        else:
            s[k] = s2[k]
    c = c1 ^ c2
    ts = [s[k] for k in sorted(s)]
    if not ts:
        return c
    r = ts[0]
    for t in ts[1:]:
        r = bxor(r, t)
    if c:
        r = bxor(r, z3.IntVal(c))
    aid(r)
    return r


def assigned_names(stmts, target):
    out = set()

    def tg(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tg(e)
        elif isinstance(t, ast.Starred):
            tg(t.value)
    if target is not None:
        tg(target)

    def visit(n):
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.Lambda)):
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tg(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tg(n.target)
        elif isinstance(n, ast.For):
            tg(n.target)
        elif isinstance(n, ast.FunctionDef):
            out.add(n.name)
            return
        elif isinstance(n, ast.NamedExpr):
            tg(n.target)
        for c in ast.iter_child_nodes(n):
            visit(c)
    for s in stmts:
        visit(s)
    return out
