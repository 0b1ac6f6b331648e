"""Built-in functions, methods of built-in types, and trusted externals."""
import math
import z3
from .terms import *
from .values import *
from .solve import lebyte, fromle, powmod, QFact, RANGE
from . import interp as I

RANGE['rnd'] = (None, None)


def le_bytes(it, v, n):
    """Little-endian encoding of v (known 0 <= v < 256**n) as a sequence."""
    if isinstance(v, int) and isinstance(n, int):
        return seq_of_bytes(v.to_bytes(n, 'little'))
    if isinstance(n, int) and n == 1:
        return Lit([v], 'bytes')
    if isinstance(v, int) and v == 0:
        return repeat(0, n, 'bytes')
    t = zint(canon_i(v))
    if z3.is_app(t) and t.decl().eq(fromle):
        s = seq_of_tok(t.arg(0))
        if s is not None and same_int(s.n, n):
            return s.with_kind('bytes')
    return Fun(n, lambda i: ireify(patom(lebyte(t, zint(i)))), 'bytes', ('le', t, n))


def pow256(it, n):
    if isinstance(n, int):
        return 256 ** n
    return it.mkpow2(mul_i(8, n))


def to_bytes(it, v, n, order):
    v, n = it.as_int(v), it.as_int(n)
    if not it.branch(cmp_i('>=', n, 0)):
        raise I.PyRaise('ValueError')
    if not it.branch(cmp_i('>=', v, 0)):
        raise I.PyRaise('OverflowError')
    if not it.branch(cmp_i('<', v, pow256(it, n))):
        raise I.PyRaise('OverflowError')
    s = le_bytes(it, v, n)
    return s if order == 'little' else I.mkrev(s)


def check_bytes(it, s):
    """All elements are ints in [0, 256)."""
    if s.kind in ('bytes', 'bytearray'):
        return
    if isinstance(s, Lit):
        for x in s._items:
            x = it.as_int(x)
            if not it.branch(b_and(cmp_i('>=', x, 0), cmp_i('<', x, 256))):
                raise I.PyRaise('ValueError')
        return
    if not it.branch(it.quantify_all(s.n, lambda i: b_and(cmp_i('>=', it.as_int(s.get(i)), 0), cmp_i('<', it.as_int(s.get(i)), 256)))):
        raise I.PyRaise('ValueError')


def from_bytes(it, s, order):
    check_bytes(it, s)
    if order == 'big':
        s = I.mkrev(s)
    if isinstance(s.n, int) and s.n == 0:
        return 0
    if isinstance(s.n, int) and s.n == 1:
        return s.get(0)
    if isinstance(s, Lit) and all(isinstance(x, int) for x in s._items):
        return int.from_bytes(bytes(s._items), 'little')
    if isinstance(s, Lit) and s.n <= 2:
        return sum_int(lambda i: mul_i(256 ** i, it.as_int(s.get(i))), 0, s.n)
    if isinstance(s, Fun) and s.tag is not None and s.tag[0] == 'le' and same_int(s.tag[2], s.n):
        return canon_i(s.tag[1])
    if isinstance(s.n, int) and s.n > 1:
        # trailing zero / lebyte recognition
        x0 = s.get(0)
        if is_z3(x0) and x0.decl().eq(lebyte):
            v = x0.arg(0)
            if all(is_z3(y) and y.decl().eq(lebyte) and y.arg(0).eq(v) and same_int(y.arg(1), k)
                   for k, y in enumerate(s.items())):
                if it.decide(b_and(cmp_i('>=', v, 0), cmp_i('<', v, 256 ** s.n))):
                    return canon_i(v)
    if not isinstance(s.n, int):
        k = fresh_index('b')
        try:
            x = s.get(k)
        except (Unsupported, MergeFail, I.HoleRead):
            x = None
        if is_z3(x) and x.decl().eq(lebyte) and x.arg(1).eq(zint(k)) and not mentions(x.arg(0), k):
            v = canon_i(x.arg(0))
            if it.decide(cmp_i('>=', v, 0)) and it.decide(cmp_i('<', v, pow256(it, s.n))):
                return v
    return ireify(patom(fromle(tok(s.with_kind('bytes')))))


def mentions(t, k):
    from .solve import subterms
    return any(x.eq(k) for x in subterms([t]))


def collect(it, n, elem):
    """[elem(i) for i in range(n)] as a sequence."""
    if isinstance(n, int):
        return Lit([elem(i) for i in range(n)])
    from .loops import summarise
    acc = it.new_list(Lit([]))

    def step(i):
        it.list_extend(acc, Lit([elem(i)]))
    fid = it.new_frame(None, None)
    summarise(it, 0, n, step, fid, set(), None)
    return it.heap[acc.id].seq


def min_len(it, seqs):
    n = seqs[0].n
    for s in seqs[1:]:
        if same_int(n, s.n):
            continue
        if it.branch(cmp_i('<=', n, s.n)):
            continue
        n = s.n
    return n


def do_zip(it, args, kw):
    if len(args) == 1 and isinstance(args[0], I.StarArg):
        s = args[0].seq
        if not it.branch(cmp_i('>', s.n, 0)):
            return Lit([])
        v = fresh_index('z')
        inner = it.toseq(s.get(v)).n
        if not isinstance(inner, int) and depends(inner, v):
            raise Unsupported('transposing ragged sequences')
        return Fun(inner, lambda j: Fun(s.n, lambda i: it.toseq(s.get(i)).get(j), 'tuple'))
    seqs = [it.iter_seq(a) for a in args]
    if not seqs:
        return Lit([])
    if kw.get('strict'):
        for s in seqs[1:]:
            if not it.branch(cmp_i('==', s.n, seqs[0].n)):
                raise I.PyRaise('ValueError')
        n = seqs[0].n
    else:
        n = min_len(it, seqs)
    if isinstance(n, int):
        return Lit([tuple(s.get(i) for s in seqs) for i in range(n)])
    return I.Zip(seqs, n)


def py_sum(it, s, start):
    if isinstance(s.n, int):
        r = start
        for x in s.items():
            r = it.binop('Add', r, x)
        return r
    v = fresh_index('s')
    x = s.get(v)
    if isinstance(x, FE):
        if not isinstance(start, FE):
            if not it.branch(cmp_i('>', s.n, 0)):
                return start
            raise I.PyRaise('AttributeError')
        return fe_add(start, sum_fe(x.f, lambda j: s.get(j), 0, s.n))
    if is_int(x) or is_bool(x):
        return iadd(it.as_int(start), sum_int(lambda j: it.as_int(s.get(j)), 0, s.n))
    raise Unsupported('sum')


def minmax(it, name, args, kw):
    items = args
    if len(args) == 1:
        s = it.iter_seq(args[0])
        if isinstance(s.n, int):
            items = s.items()
        else:
            raise Unsupported(name + ' of a symbolic sequence')
    if not items:
        if 'default' in kw:
            return kw['default']
        raise I.PyRaise('ValueError')
    r = items[0]
    for x in items[1:]:
        c = it.compare('Lt' if name == 'min' else 'Gt', x, r)
        if it.branch(it.truth(c)):
            r = x
    return r


def inst_of(it, v, t):
    if isinstance(t, tuple):
        return b_or(*[inst_of(it, v, x) for x in t])
    if isinstance(v, I.Hole):
        raise I.HoleRead()
    if isinstance(t, I.Builtin):
        n = t.name
        if n == 'int':
            return is_int(v) or is_bool(v)
        if n == 'bool':
            return is_bool(v)
        if n == 'tuple':
            return isinstance(v, tuple) or (isinstance(v, Seq) and v.kind == 'tuple') or getattr(v, 'ty', None) == 'tuple'
        if n == 'list':
            return it.is_list(v) and not (isinstance(v, Seq) and v.kind != 'list')
        if n == 'bytes':
            return isinstance(v, bytes) or (isinstance(v, Seq) and v.kind == 'bytes')
        if n == 'object':
            return True
    if isinstance(t, ClassInfoT):
        if isinstance(v, Ref):
            c = it.heap[v.id]
            return isinstance(c, I.ObjCell) and isinstance(c.cls, ClassInfoT) and t in c.cls.mro()
        if isinstance(v, SymObj):
            return isinstance(v.cls, ClassInfoT) and t in v.cls.mro()
        if isinstance(v, FE):
            return v.f.info is not None and t in v.f.info.mro()
        if v is None or isinstance(v, (Seq, tuple, str)) or is_int(v) or is_bool(v):
            return False
    if isinstance(t, FieldCls):
        return isinstance(v, FE) and v.f is t
    if t is None:
        return v is None
    raise Unsupported('isinstance')


from .src import ClassInfo as ClassInfoT   # noqa: E402


def call_builtin(it, name, args, kw):
    if name.startswith('exc:'):
        return I.StrVal()
    if name == 'len':
        v = args[0]
        if isinstance(v, RangeVal):
            return v.length()
        if isinstance(v, SetVal):
            return SetLen(v.seq)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Ref) and isinstance(it.heap[v.id], I.ObjCell):
            return it.call_method(v, '__len__', [])
        return it.toseq(v).n
    if name == 'range':
        a = [it.as_int(x) for x in args]
        if len(a) == 1:
            return RangeVal(0, a[0], 1)
        if len(a) == 2:
            return RangeVal(a[0], a[1], 1)
        st = a[2]
        if not isinstance(st, int):
            if it.branch(cmp_i('==', st, 0)):
                raise I.PyRaise('ValueError')
            if not it.branch(cmp_i('>', st, 0)):
                raise Unsupported('range step')
            d = isub(a[1], a[0])
            if exact_div(d, st) is None:
                # length = ceil(d / st)
                n = floordiv(iadd(d, isub(st, 1)), st)
                return Fun(n, lambda i: iadd(a[0], mul_i(st, i)), 'range')
        elif st == 0:
            raise I.PyRaise('ValueError')
        return RangeVal(a[0], a[1], st)
    if name in ('list', 'tuple'):
        if not args:
            return it.new_list(Lit([])) if name == 'list' else ()
        s = it.iter_seq(args[0])
        if name == 'list':
            return it.new_list(s)
        if isinstance(s.n, int):
            return tuple(s.items())
        return it.pureseq(s).with_kind('tuple')
    if name in ('bytes', 'bytearray'):
        if not args:
            s = Lit([], 'bytes')
        elif is_int(args[0]):
            if not it.branch(cmp_i('>=', args[0], 0)):
                raise I.PyRaise('ValueError')
            s = repeat(0, args[0], 'bytes')
        else:
            s = it.iter_seq(args[0])
            check_bytes(it, s)
            s = s.with_kind('bytes')
        if name == 'bytearray':
            return it.new_list(s, 'bytearray')
        return s.with_kind('bytes')
    if name == 'int':
        if not args:
            return 0
        if is_int(args[0]) or is_bool(args[0]):
            return it.as_int(args[0])
        if isinstance(args[0], FE):
            raise I.PyRaise('TypeError')
        if isinstance(args[0], str) and all(isinstance(a, int) for a in args[1:]):
            try:
                return int(*args)
            except ValueError:
                raise I.PyRaise('ValueError')
        raise Unsupported('int()')
    if name == 'bool':
        return it.truth(args[0])
    if name == 'zip':
        return do_zip(it, args, kw)
    if name == 'map':
        seqs = [it.iter_seq(a) for a in args[1:]]
        n = min_len(it, seqs)
        return collect(it, n, lambda i: it.call(args[0], [s.get(i) for s in seqs]))
    if name == 'enumerate':
        s = it.iter_seq(args[0])
        st = args[1] if len(args) > 1 else kw.get('start', 0)
        if isinstance(s.n, int):
            return Lit([(iadd(st, i), x) for i, x in enumerate(s.items())])
        return I.Zip([Fun(s.n, lambda i: iadd(st, i)), s], s.n)
    if name == 'reversed':
        return I.mkrev(it.iter_seq(args[0]))
    if name == 'sum':
        return py_sum(it, it.iter_seq(args[0]), args[1] if len(args) > 1 else kw.get('start', 0))
    if name in ('all', 'any'):
        s = it.iter_seq(args[0])
        if isinstance(s.n, int):
            cs = [it.truth(x) for x in s.items()]
            return b_and(*cs) if name == 'all' else b_or(*cs)
        if name == 'all':
            return it.quantify_all(s.n, lambda i: it.truth(s.get(i)))
        return b_not(it.quantify_all(s.n, lambda i: b_not(it.truth(s.get(i)))))
    if name in ('max', 'min'):
        return minmax(it, name, args, kw)
    if name in ('set', 'frozenset'):
        return SetVal(it.pureseq(it.iter_seq(args[0])) if args else Lit([]))
    if name == 'pow':
        if len(args) == 2:
            return it.binop('Pow', args[0], args[1])
        a, b, m = [it.as_int(x) for x in args]
        if all(isinstance(x, int) for x in (a, b, m)):
            return pow(a, b, m)
        return ireify(patom(powmod(zint(canon_i(a)), zint(canon_i(b)), zint(canon_i(m)))))
    if name == 'isinstance':
        return inst_of(it, args[0], args[1])
    if name == 'cast':
        return args[1]
    if name == 'abs':
        a = it.as_int(args[0])
        return a if it.branch(cmp_i('>=', a, 0)) else ineg(a)
    if name == 'divmod':
        return (it.binop('FloorDiv', *args), it.binop('Mod', *args))
    if name in ('str', 'repr', 'bin'):
        if name == 'bin' and type(args[0]) is int:
            return bin(args[0])
        return I.StrVal()
    if name == 'print':
        return None
    if name == 'sorted':
        s = it.iter_seq(args[0])
        if isinstance(s, Lit) and all(isinstance(x, int) for x in s._items) and not kw:
            return it.new_list(Lit(sorted(s._items)))
    if name == 'iter':
        return it.iter_seq(args[0])
    if name == 'type':
        v = args[0]
        if isinstance(v, FE):
            return v.f
        if isinstance(v, Ref) and isinstance(it.heap[v.id], I.ObjCell):
            return it.heap[v.id].cls
    raise Unsupported('builtin %s' % name)


def near_pow2_bits(it, v):
    """Bit length of 2**e + d for a small constant d, else None."""
    p = ipoly(v)
    d = p.t.get((), 0)
    e = log2_of(P({k: c for k, c in p.t.items() if k != ()}))
    if e is None:
        return None
    lo = (-d - 1).bit_length() + 1 if d < -1 else d.bit_length() if d > 0 else 0
    if it.decide(cmp_i('>=', e, lo)) is not True:
        return None
    return e if d < 0 else iadd(e, 1)


def call_method(it, obj, name, args, kw):
    if isinstance(obj, FE):
        if name == 'int':
            return it.fe_val(obj)
        if name == 'inv':
            z = fe_eq(obj, fe_int(obj.f, 0))
            return fe_inv(obj, it.decide(b_not(z)) is True)
    if isinstance(obj, I.Builtin):
        if name == 'from_bytes':
            order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
            return from_bytes(it, it.toseq(args[0]), order)
        if name == 'to_bytes':
            return call_method(it, args[0], name, args[1:], kw)
        raise Unsupported('%s.%s' % (obj.name, name))
    if is_int(obj) or is_bool(obj):
        obj = it.as_int(obj)
        if name == 'to_bytes':
            n = args[0] if args else kw.get('length', 1)
            order = args[1] if len(args) > 1 else kw.get('byteorder', 'big')
            return to_bytes(it, obj, n, order)
        if name == 'bit_length':
            if isinstance(obj, int):
                return obj.bit_length()
            if it.branch(cmp_i('>=', obj, 0)):
                e = near_pow2_bits(it, obj)
                return e if e is not None else ireify(patom(blen(zint(canon_i(obj)))))
        raise Unsupported('int.%s' % name)
    if isinstance(obj, (str, I.StrVal)):
        if name == 'encode' and isinstance(obj, str):
            return seq_of_bytes(obj.encode())
        return I.StrVal()
    if isinstance(obj, Ref):
        return list_method(it, obj, name, args, kw)
    if isinstance(obj, (Seq, tuple, bytes)):
        s = it.toseq(obj)
        if name == 'join':
            return join(it, s, it.iter_seq(args[0]))
        if name == 'hex':
            return I.StrVal()
        if name == 'copy':
            return it.new_list(s)
        if name == 'startswith':
            p = it.toseq(args[0])
            if not it.branch(cmp_i('<=', p.n, s.n)):
                return False
            return it.seq_eq(mkslice(s, 0, p.n), p)
    raise Unsupported('method %s of %r' % (name, obj))


def join(it, sep, s):
    if not (isinstance(sep.n, int) and sep.n == 0):
        if isinstance(s.n, int) and s.n <= 1:
            pass
        elif isinstance(s.n, int):
            parts = []
            for k, x in enumerate(s.items()):
                if k:
                    parts.append(sep)
                parts.append(it.toseq(x))
            return mkcat(parts, 'bytes')
        else:
            raise Unsupported('join with separator')
    if isinstance(s.n, int):
        return mkcat([it.toseq(x) for x in s.items()], 'bytes')
    return flatten(it, s, 'bytes')


def flatten(it, s, kind):
    if isinstance(s.n, int):
        return mkcat([it.pureseq(it.iter_seq(x)) for x in s.items()], kind)
    if isinstance(s, Cat):
        return mkcat([flatten(it, p, kind) for p in s.parts], kind)
    v = fresh_index('z')
    with_range(it, v, s.n)
    try:
        e = it.toseq(s.get(v))
        inner = e.n
    finally:
        it.pc.pop()
    if not isinstance(inner, int) and depends(inner, v):
        raise Unsupported('flattening ragged sequences')
    return mkflat(s.n, inner, lambda i: it.toseq(s.get(i)), kind)


def with_range(it, v, n):
    it.pc.append(zbool(b_and(cmp_i('>=', v, 0), cmp_i('<', v, n))))


def list_method(it, ref, name, args, kw):
    c = it.heap[ref.id]
    if not isinstance(c, I.ListCell):
        raise Unsupported('method')
    s = c.seq
    if name == 'append':
        v = args[0]
        if c.kind == 'bytearray':
            check_bytes(it, Lit([v]))
        if not isinstance(s, Lit):
            v = it.pure(v)
        it.set_list(ref, mkcat([s, Lit([v], s.kind)], s.kind))
        return None
    if name == 'extend':
        it.list_extend(ref, it.iter_seq(args[0]))
        return None
    if name == 'copy':
        return it.new_list(s, c.kind)
    if name == 'reverse':
        it.set_list(ref, I.mkrev(s))
        return None
    if name == 'clear':
        it.set_list(ref, Lit([], s.kind))
        return None
    if name == 'pop':
        if not args:
            if isinstance(s.n, int) and s.n == 0:
                raise I.PyRaise('IndexError')
            if not it.branch(cmp_i('>', s.n, 0)):
                raise I.PyRaise('IndexError')
            k = isub(s.n, 1)
            v = s.get(k)
            it.set_list(ref, mkslice(s, 0, k))
            return v
        k = it.norm_index(s, it.as_int(args[0]))
        v = s.get(k)
        it.set_list(ref, mkcat([mkslice(s, 0, k), mkslice(s, iadd(k, 1), isub(isub(s.n, k), 1))], s.kind))
        return v
    if name == 'insert':
        k = it.clamp(it.as_int(args[0]), s.n, 0)
        it.set_list(ref, mkcat([mkslice(s, 0, k), Lit([args[1]]), mkslice(s, k, isub(s.n, k))], s.kind))
        return None
    if name == 'hex':
        return I.StrVal()
    if name == 'join':
        return join(it, s, it.iter_seq(args[0]))
    raise Unsupported('list.%s' % name)


def deepcopy(it, v):
    if isinstance(v, Ref):
        c = it.heap[v.id]
        if isinstance(c, I.ListCell):
            s = c.seq
            if isinstance(s, Lit):
                s = Lit([deepcopy(it, x) for x in s._items], s.kind)
            return it.new_list(s, c.kind)
        return it.alloc(I.ObjCell(c.cls, {k: deepcopy(it, x) for k, x in c.attrs.items()}))
    if isinstance(v, tuple):
        return tuple(deepcopy(it, x) for x in v)
    return v


logt = z3.Function('log2', IntS, TokS)
clog2 = z3.Function('clog2', IntS, IntS)
rnd = z3.Function('rnd', IntS, IntS, IntS)        # rnd(position, bound)
rndbyte = z3.Function('rndbyte', IntS, IntS, IntS)
RANGE['rndbyte'] = (0, 256)


def rnd_init(it):
    """Allocate the ghost position of the random source, before any loop could draw from it."""
    it.ext['rng'] = it.alloc(I.ObjCell('rng', {'pos': 0}))


def rnd_pos(it):
    """The ghost position of the random source (a heap cell)."""
    r = it.ext['rng']
    p = it.heap[r.id].attrs['pos']
    it.setattr(r, 'pos', iadd(p, 1))
    return p


def batch(s, off, n):
    r = mkslice(s, off, n, 'tuple')
    return tuple(r.get(j) for j in range(n)) if isinstance(n, int) and n <= 64 else r


def call_ext(it, name, args, kw):
    h = it.ext.get(name)
    if h is not None:
        return h(it, args, kw)
    if name in ('itertools.chain.from_iterable',):
        return flatten(it, it.iter_seq(args[0]), 'list')
    if name == 'itertools.chain':
        return mkcat([it.iter_seq(a) for a in args], 'list')
    if name == 'itertools.batched':
        s = it.iter_seq(args[0])
        k = it.as_int(args[1])
        if isinstance(k, int) and k < 1:
            raise I.PyRaise('ValueError')
        if not it.branch(cmp_i('>=', k, 1)):
            raise I.PyRaise('ValueError')
        if isinstance(s.n, int) and isinstance(k, int):
            return Lit([tuple(s.get(j) for j in range(a, min(a + k, s.n))) for a in range(0, s.n, k)])
        m = exact_div(s.n, k)
        if m is None:
            if isinstance(k, int):
                q, r = split_mult(ipoly(s.n), k)
                r = r.const()
                if r is not None and 0 < r < k:
                    q = ireify(q)
                    return mkcat([Fun(q, lambda i: batch(s, mul_i(k, i), k)), Lit([batch(s, mul_i(k, q), r)])])
            raise Unsupported('batched %s by %s' % (s.n, k))
        return Fun(m, lambda i: batch(s, mul_i(k, i), k))
    if name == 'itertools.repeat':
        return repeat(args[0], args[1])
    if name == 'math.prod':
        s = it.iter_seq(args[0])
        st = kw.get('start', args[1] if len(args) > 1 else 1)
        if isinstance(s.n, int):
            r = st
            for x in s.items():
                r = it.binop('Mult', r, x)
            return r
        x = s.get(fresh_index('p'))
        if isinstance(x, FE) and isinstance(st, FE):
            return fe_mul(st, prod_fe(x.f, lambda j: s.get(j), 0, s.n))
    if name == 'functools.reduce':
        s = it.iter_seq(args[1])
        if isinstance(s.n, int):
            xs = s.items()
            r = args[2] if len(args) > 2 else xs.pop(0)
            for x in xs:
                r = it.call(args[0], [r, x])
            return r
    if name == 'math.log2' and is_int(args[0]):
        if isinstance(args[0], int):
            if args[0] <= 0:
                raise I.PyRaise('ValueError')
            return math.log2(args[0])
        if not it.branch(cmp_i('>', args[0], 0)):
            raise I.PyRaise('ValueError')
        return Opaque('log2', logt(zint(canon_i(args[0]))))
    if name == 'math.ceil' and isinstance(args[0], Opaque) and args[0].ty == 'log2':
        # trusted: the float round trip is exact enough to give ceil(log2(n)) or,
        # for n close below a large power of two, the same power of two
        n = args[0].tok.arg(0)
        c = ireify(patom(clog2(n)))
        it.assume(b_and(cmp_i('>=', c, 0), cmp_i('<=', n, it.pow2_term(c))))
        it.assume(b_implies(cmp_i('>', c, 0), cmp_i('<', it.pow2_term(isub(c, 1)), n)))
        return c
    if name == 'math.ceil' and isinstance(args[0], (int, float)):
        return math.ceil(args[0])
    if name == 'copy.deepcopy':
        return deepcopy(it, args[0])
    if name == 'copy.copy':
        v = args[0]
        if isinstance(v, Ref):
            c = it.heap[v.id]
            return it.new_list(c.seq, c.kind) if isinstance(c, I.ListCell) else it.alloc(I.ObjCell(c.cls, dict(c.attrs)))
        return v
    if name == 'os.urandom':
        p = rnd_pos(it)
        n = it.as_int(args[0])
        if not it.branch(cmp_i('>=', n, 0)):
            raise I.PyRaise('ValueError')
        return Fun(n, lambda i: ireify(patom(rndbyte(zint(p), zint(i)))), 'bytes')
    if name == 'random.randrange':
        p = rnd_pos(it)
        if len(args) == 1:
            lo, hi = 0, args[0]
        else:
            lo, hi = args
        t = rnd(zint(p), zint(hi))
        it.assume(b_and(cmp_i('>=', t, lo), cmp_i('<', t, hi)))
        return ireify(patom(t))
    if name.startswith('functools.') or name.startswith('dataclasses.'):
        raise Unsupported(name)
    raise Unsupported('external %s' % name)
