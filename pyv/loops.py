"""Loops: closed forms are guessed from one symbolic iteration and then proved
inductive (base + preservation) by re-executing the body on the closed form."""
import z3
from .terms import *
from .values import *
from .solve import QFact, subterms, RANGE
from . import terms as T
from . import values as V
from . import interp as I

_tplholes = {}


def term_holes(t, seen=None):
    """Ids of loop holes occurring in a z3 term (looking inside templates)."""
    seen = set() if seen is None else seen
    out = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_var(x):
            continue
        nm = x.decl().name()
        if nm.startswith('hole!'):
            out.add(int(nm.split('!')[1]))
        elif nm.startswith('tok!') and nm in V.TOKS:
            if nm not in _tplholes:
                _tplholes[nm] = holes_in(V.TOKS[nm].seq)
            out |= _tplholes[nm]
        elif nm.startswith('sum!') or nm.startswith('prod!'):
            tpl = V.SUMS.get(nm) or V.PRODS.get(nm)
            if tpl is not None:
                if nm not in _tplholes:
                    _tplholes[nm] = term_holes(tpl.body)
                out |= _tplholes[nm]
        elif nm.startswith('fcnt!') or nm.startswith('fsel!'):
            k = FKEYS.get(int(nm.split('!')[1]))
            if k is not None:
                out |= k
        elif nm.startswith('fold!'):
            if nm in FOLDS:
                out |= FOLDS[nm].holes
        stack.extend(x.children())
    return out


FKEYS = {}


def holes_in(v):
    if isinstance(v, I.Hole):
        return {v.name}
    if v is None or isinstance(v, (bool, int, str, bytes, Ref, FieldCls)):
        return set()
    if is_z3(v):
        return term_holes(v)
    if isinstance(v, FE):
        return term_holes(v.term())
    if isinstance(v, tuple):
        r = set()
        for x in v:
            r |= holes_in(x)
        return r
    if isinstance(v, I.HoleSeq):
        return {v.hid}
    if isinstance(v, Lit):
        return holes_in(tuple(v._items))
    if isinstance(v, Cat):
        return holes_in(tuple(v.parts))
    if isinstance(v, Slice):
        return holes_in(v.base) | holes_in(v.off) | holes_in(v.n)
    if isinstance(v, Store):
        return holes_in(v.base) | holes_in(v.idx) | holes_in(v.val)
    if isinstance(v, IteSeq):
        return holes_in(v.c) | holes_in(v.a) | holes_in(v.b)
    if isinstance(v, I.Rev):
        return holes_in(v.base)
    if isinstance(v, I.Zip):
        return holes_in(tuple(v.parts)) | holes_in(v.n)
    if isinstance(v, I.Filter):
        x = fresh_index('h')
        return holes_in(v.lo) | holes_in(v.hi) | holes_in(v.cond(x)) | holes_in(v.val(x))
    if isinstance(v, CondCat):
        return holes_in(v.c) | holes_in(v.head) | holes_in(v.a) | holes_in(v.b)
    if isinstance(v, Flat):
        return holes_in(v.m) | holes_in(v.inner) | holes_in(v.blk(fresh_index('h')))
    if isinstance(v, Seq):
        try:
            return holes_in(v.n) | holes_in(v.get(fresh_index('h')))
        except I.HoleRead:
            return {'?'}
    if isinstance(v, Opaque):
        return term_holes(v.tok)
    if isinstance(v, SymObj):
        return term_holes(v.ident)
    if isinstance(v, RangeVal):
        return holes_in(v.start) | holes_in(v.stop)
    if isinstance(v, SetVal):
        return holes_in(v.seq)
    if isinstance(v, LastVal):
        return holes_in(v.val) | holes_in(v.n)
    return set()


def same_val(a, b):
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if is_int(a) and is_int(b):
        return same_int(a, b)
    if is_z3(a) and is_z3(b):
        return a.eq(b)
    if isinstance(a, FE) and isinstance(b, FE):
        return a.f is b.f and a.p == b.p
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a == b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_val(x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b
    if isinstance(a, Lit) and isinstance(b, Lit):
        return a.n == b.n and a.kind == b.kind and all(same_val(x, y) for x, y in zip(a._items, b._items))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.tok.eq(b.tok)
    if isinstance(a, I.HoleRow) and isinstance(b, I.HoleRow):
        return same_row(a, b)
    return False


class Fold:
    def __init__(self, decl, holes):
        self.decl, self.holes = decl, holes


FOLDS = {}
_foldkey = {}

HOLECOUNT = [0]


def new_hid():
    HOLECOUNT[0] += 1
    return HOLECOUNT[0]


def make_hole(it, init, facts):
    """Typed unknown with the shape of `init`; returns (value, ids)."""
    h = new_hid()
    if isinstance(init, bool) or (is_z3(init) and init.sort() == BoolS):
        return z3.Const('hole!%d' % h, BoolS), {h}
    if is_int(init):
        t = z3.Const('hole!%d' % h, IntS)
        aid(t)
        return t, {h}
    if isinstance(init, FE):
        return FE(init.f, patom(z3.Const('hole!%d' % h, FldS))), {h}
    if isinstance(init, tuple):
        vs, ids = [], set()
        for x in init:
            v, i = make_hole(it, x, facts)
            vs.append(v)
            ids |= i
        return tuple(vs), ids
    if isinstance(init, Opaque):
        return Opaque(init.ty, z3.Const('hole!%d' % h, TokS)), {h}
    if isinstance(init, Seq):
        n = z3.Const('hole!%d!n' % h, IntS)
        aid(n)
        facts.append(n >= 0)
        g = None
        if init.kind in ('bytes', 'bytearray'):
            RANGE['hole!%d!g' % h] = (0, 256)
            g = hole_getter(h, 0)
        elif not (isinstance(init.n, int) and init.n == 0):
            try:
                try:
                    x = init.get(0 if isinstance(init.n, int) else fresh_index('e'))
                except MergeFail:
                    x = init.get(0)      # only while solving: the closed forms are checked on the real values
                if isinstance(x, Seq) and x.kind == 'list' and init.kind == 'list' and not isinstance(init.n, int):
                    return hole_rows(h, init), {h}
                g = hole_getter(h, x)
            except (Unsupported, I.HoleRead, MergeFail):
                g = None
        return I.HoleSeq(h, n, g, init.kind), {h}
    return I.Hole(h), {h}


def hole_rows(h, init):
    """Unknown list of lists, as many and as long as in init (what is found with
    it is checked on the real values)."""
    e = init.get(fresh_index('e')).get(fresh_index('e'))
    if not isinstance(e, FE):
        raise Unsupported('list of lists')
    fn = z3.Function('hole!%d!g' % h, IntS, IntS, FldS)
    return I.HoleSeq(h, init.n, lambda i: I.HoleRow(h, i, e.f, lambda r: init.get(r).n, fn), 'list')


def hole_getter(h, x):
    if is_int(x):
        f = z3.Function('hole!%d!g' % h, IntS, IntS)
        return lambda i: ireify(patom(f(zint(canon_i(i)))))
    if is_bool(x):
        f = z3.Function('hole!%d!g' % h, IntS, BoolS)
        return lambda i: f(zint(canon_i(i)))
    if isinstance(x, FE):
        f = z3.Function('hole!%d!g' % h, IntS, FldS)
        return lambda i: FE(x.f, patom(f(zint(canon_i(i)))))
    if isinstance(x, Opaque):
        f = z3.Function('hole!%d!g' % h, IntS, TokS)
        return lambda i: Opaque(x.ty, f(zint(canon_i(i))))
    return None


class Loc:
    __slots__ = ('key', 'init', 'cf', 'hole', 'ids', 'rebound', 'over', 'kind')

    def __init__(self, key, init):
        self.key, self.init = key, init
        self.cf = None
        self.hole = None
        self.ids = set()
        self.rebound = False
        self.over = None
        self.kind = 'list'


def get_loc(it, key):
    if key[0] == 'v':
        return it.frames[key[1]].get(key[2], UNBOUND)
    if key[0] == 'l':
        return it.heap[key[1]].seq
    return it.heap[key[1]].attrs.get(key[2], UNBOUND)


def set_loc(it, key, v):
    if key[0] == 'v':
        if v is UNBOUND:
            it.frames[key[1]].pop(key[2], None)
        else:
            it.frames[key[1]][key[2]] = v
    elif key[0] == 'l':
        c = it.heap[key[1]]
        it.heap[key[1]] = I.ListCell(v, c.owner, False, c.kind)
    else:
        c = it.heap[key[1]]
        a = dict(c.attrs)
        if v is UNBOUND:
            a.pop(key[2], None)
        else:
            a[key[2]] = v
        it.heap[key[1]] = I.ObjCell(c.cls, a, c.owner)


def state_of(st, key):
    heap, frames, pc = st
    if key[0] == 'v':
        return frames[key[1]].get(key[2], UNBOUND)
    if key[0] == 'l':
        return heap[key[1]].seq
    return heap[key[1]].attrs.get(key[2], UNBOUND)


def changed_locs(before, after):
    """Locations existing before whose value differs after."""
    out = []
    bh, bf, _ = before
    ah, af, _ = after
    for fid, vs in bf.items():
        va = af.get(fid)
        if va is None:
            continue
        for k in set(vs) | set(va):
            x, y = vs.get(k, UNBOUND), va.get(k, UNBOUND)
            if x is not y and not same_val(x, y):
                out.append(('v', fid, k))
    for rid, c in bh.items():
        d = ah.get(rid)
        if d is c or d is None:
            continue
        if isinstance(c, I.ListCell):
            if c.seq is not d.seq and not same_val(c.seq, d.seq):
                out.append(('l', rid))
        else:
            for k in set(c.attrs) | set(d.attrs):
                x, y = c.attrs.get(k, UNBOUND), d.attrs.get(k, UNBOUND)
                if x is not y and not same_val(x, y):
                    out.append(('a', rid, k))
    return out


def summarise_while(it, node, fid, names):
    def step(i):
        if not it.branch(it.truth(it.eval(node.test, fid))):
            return ('brk', None)
        return it.exec_block(node.body, fid)
    return summarise(it, 0, None, step, fid, names, node)


def inr(lo, hi, i):
    return b_and(cmp_i('>=', i, lo), True if hi is None else cmp_i('<', i, hi))


def block_size(node):
    """Constant c such that the body divides by c (i // c, i % c), if any."""
    import ast
    if node is None:
        return None
    for x in ast.walk(ast.Module(node.body, [])):
        if isinstance(x, ast.BinOp) and isinstance(x.right, ast.Constant):
            c = x.right.value
            if isinstance(x.op, (ast.FloorDiv, ast.Mod)) and c == 8 or isinstance(x.op, ast.RShift) and c == 3 or \
                    isinstance(x.op, ast.BitAnd) and c == 7:
                return 8
    return None


def summarise(it, lo, hi, step, fid, names, node):
    c = block_size(node)
    if c is None or hi is None or isinstance(isub(hi, lo), int) or not same_int(lo, 0):
        return summarise0(it, lo, hi, step, fid, names, node)
    base = it.snapshot()
    try:
        return summarise0(it, lo, hi, step, fid, names, node)
    except Unsupported:
        it.restore(base)
    # the same iterations in blocks of c, then the rest one by one
    q = floordiv(hi, c)

    def block(k):
        for j in range(c):
            r = step(iadd(mul_i(c, k), j))
            if r is not None and r[0] != 'cont':
                return r
        return None
    r = summarise0(it, 0, q, block, fid, names, node)
    if r is not None or it.broke:
        return r
    for j in range(c - 1):
        i = iadd(mul_i(c, q), j)
        if not it.branch(cmp_i('<', i, hi)):
            return None
        r = step(i)
        if r is not None and r[0] != 'cont':
            if r[0] == 'brk':
                it.broke = True
                return None
            return r
    it.assume(cmp_i('==', iadd(mul_i(c, q), c - 1), hi))
    return None


def fixed_shape(init, vals, normal):
    """A short list that the body updates in place without changing its length."""
    if not (isinstance(init, Lit) and init.kind == 'list' and 1 <= init.n <= 8 and all(is_int(x) or isinstance(x, FE) for x in init.items())):
        return False
    for v, p in zip(vals, normal):
        if isinstance(v, Ref):
            v = p.st[0][v.id].seq
        if not (isinstance(v, Seq) and isinstance(v.n, int) and v.n == init.n):
            return False
    return True


def summarise0(it, lo, hi, step, fid, names, node):
    if hi is not None:
        if it.decide(cmp_i('<=', hi, lo)) is True:
            return None
        if it.decide(cmp_i('>=', hi, lo)) is not True:
            if not it.branch(cmp_i('>', hi, lo)):
                return None
    if hi is not None:
        span = isub(hi, lo)
        if isinstance(span, int) and span <= I.MAX_UNROLL:
            for k in range(span):
                r = step(iadd(lo, k))
                if r is not None:
                    if r[0] == 'brk':
                        it.broke = True
                        return None
                    if r[0] == 'cont':
                        continue
                    return r
            return None
    it.loops += 1
    base = it.snapshot()
    mark = T._fresh[0]
    i = fresh_index('l')
    locs = {}
    order = []

    def add_loc(key):
        if key in locs:
            return
        v = get_loc(it, key)
        L = Loc(key, v)
        locs[key] = L
        order.append(key)

    for nm in sorted(names):
        if fid in it.frames:
            add_loc(('v', fid, nm))

    def setup(final):
        it.restore(base)
        it.assume(inr(lo, hi, i))
        for key in order:
            L = locs[key]
            if L.cf is not None:
                v = L.cf(i)
            else:
                if L.hole is None:
                    continue
                v = L.hole
            if L.rebound and isinstance(v, Seq):
                v = it.alloc(I.ListCell(v, None, False, L.kind))
            set_loc(it, key, v)
        for f in hfacts:
            it.assume(f)

    hfacts = []
    pend = None
    paths = None
    for rnd in range(14):
        it.tick()
        setup(False)
        start = it.snapshot()
        try:
            paths = it.explore(lambda: step(i))
        except (Unsupported, I.HoleRead):
            # a case of the index that does not go with the state of the first iterations
            cut = None
            for c in it.pc[len(start[2]):]:
                cut = cut or (cond_cut(c, i) if is_z3(c) else None)
            if cut is None or hi is None:
                raise
            it.restore(base)
            return split_loop(it, lo, hi, cut, step, fid, names, node)
        it.restore(base)
        # discover changed locations
        newloc = False
        for p in paths:
            if p.out[0] in ('normal', 'cont'):
                for key in changed_locs(start, p.st):
                    if key not in locs:
                        if key[0] == 'l' and key[1] not in base[0]:
                            continue
                        if key[0] == 'a' and key[1] not in base[0]:
                            continue
                        if key[0] == 'v' and key[1] not in base[1]:
                            continue
                        add_loc(key)
                        newloc = True
        normal = [p for p in paths if p.out[0] in ('normal', 'cont')]
        if rnd == 0 or newloc:
            # classify and create holes
            changed_any = False
            for key in order:
                L = locs[key]
                if L.cf is not None or L.hole is not None:
                    continue
                vals = [state_of(p.st, key) for p in normal]
                init = L.init
                if all(same_val(v, init) for v in vals) and rnd > 0 and not newloc:
                    continue
                if isinstance(init, Ref) and key[0] != 'l':
                    if all(isinstance(v, Ref) and v == init for v in vals):
                        L.cf = const_cf(init)
                        continue
                    c = it.heap[init.id]
                    if isinstance(c, I.ListCell):
                        if any(('l', init.id) in changed_locs(start, p.st) for p in normal):
                            raise Unsupported('loop variable aliasing a mutated list')
                        L.rebound = True
                        L.kind = c.kind
                        L.init = it.peekseq(c.seq)
                    else:
                        L.hole, L.ids = I.Hole(new_hid()), set()
                        L.ids = {L.hole.name}
                        continue
                if isinstance(L.init, (FieldCls, str, I.Closure)) or callable(L.init):
                    L.hole = I.Hole(new_hid())
                    L.ids = {L.hole.name}
                    continue
                if L.init is UNBOUND or L.init is None or isinstance(L.init, (LastVal, I.Hole)):
                    L.hole = I.Hole(new_hid())
                    L.ids = {L.hole.name}
                    continue
                if key[0] == 'l':
                    L.init = it.peekseq(L.init)
                if fixed_shape(L.init, vals, normal):
                    v, L.ids = make_hole(it, tuple(L.init.items()), hfacts)
                    L.hole = Lit(list(v), L.init.kind)
                else:
                    L.hole, L.ids = make_hole(it, L.init, hfacts)
                changed_any = True
            continue
        if not normal:
            # every iteration leaves the loop: nothing is carried
            for key in order:
                L = locs[key]
                if L.cf is None:
                    L.cf = const_cf(L.init) if not L.rebound else const_cf(L.init)
            break
        unsolved = [locs[k] for k in order if locs[k].cf is None]
        if not unsolved:
            break
        allids = set()
        for L in unsolved:
            allids |= L.ids
        progress = False
        try:
            for L in unsolved:
                nv = merge_paths(it, base, normal, L, i, lo, hi)
                try:
                    cf = solve_rec(it, L, nv, i, lo, allids)
                except I.HoleRead:
                    cf = None
                if cf is not None:
                    L.cf = cf
                    progress = True
        except MergeFail as e:
            cut = cond_cut(e.cond, i) if is_z3(e.cond) else None
            if cut is None:
                raise Unsupported('cannot merge loop values')
            b = cut[1]
            it.restore(base)
            return split_loop(it, lo, hi, cut, step, fid, names, node)
        if not progress:
            raise Unsupported('loop: no closed form for %s' % [str(L.key[-1]) for L in unsolved])
    else:
        raise Unsupported('loop: too many rounds')
    # inductive check on the closed forms
    if normal:
        for p in normal:
            it.restore(p.st)
            for key in order:
                L = locs[key]
                v = state_of(p.st, key)
                if L.over is not None:
                    continue          # checked below: value is what the body produced
                if isinstance(v, Ref) and isinstance(L.init, Ref):
                    if v == L.init:
                        continue
                    raise Unsupported('loop: rebinding')
                if v is UNBOUND and L.init is UNBOUND:
                    continue
                target = L.cf(iadd(i, 1))
                if L.rebound and isinstance(v, Ref):
                    v = it.peek(v)
                if isinstance(v, Seq):
                    v = it.peekseq(v)
                if isinstance(v, tuple):
                    v = it.peek(v)
                if same_val(v, target):
                    continue
                if not it.prove_eq(v, target):
                    it.restore(base)
                    raise Unsupported('loop: closed form of %s not inductive' % (key[-1],))
            for key in changed_locs(start, p.st):
                if key not in locs and ((key[0] in 'la' and key[1] in base[0]) or (key[0] == 'v' and key[1] in base[1])):
                    raise Unsupported('loop: unexpected effect')
    it.restore(base)
    exits = [p for p in paths if p.out[0] not in ('normal', 'cont')]

    def apply(t, final):
        for key in order:
            L = locs[key]
            if L.over is not None and final:
                v = last_value(it, L, t, lo)
            else:
                v = L.cf(t)
            if L.rebound and isinstance(v, Seq):
                v = it.alloc(I.ListCell(v, None, False, L.kind))
            elif L.over is not None and isinstance(v, Seq) and v.kind in ('list', 'bytearray') and key[0] == 'v':
                v = it.alloc(I.ListCell(v, None, False, v.kind))
            set_loc(it, key, v)
    if not exits:
        if hi is None:
            raise Unsupported('loop without exit')
        apply(hi, True)
        return None
    cond = normal_cond(normal, i, mark)
    if hi is None:
        opt = 1
    else:
        opt = it.choose([[QFact(lo, hi, cond)], []])
    if opt == 0:
        apply(hi, True)
        return None
    k = fresh_index('x')
    it.assume(inr(lo, hi, k))
    it.pc.append(QFact(lo, k, cond))
    for key in order:
        L = locs[key]
        if L.over is not None:
            v = L.cf(k)
        else:
            v = L.cf(k)
        if L.rebound and isinstance(v, Seq):
            v = it.alloc(I.ListCell(v, None, False, L.kind))
        set_loc(it, key, v)
    # temporaries overwritten by earlier iterations: restore their last value
    for key in order:
        L = locs[key]
        if L.over is not None and isinstance(get_loc(it, key), I.Hole) and L.init is not UNBOUND:
            try:
                set_loc(it, key, last_value(it, L, k, lo))
            except MergeFail:
                pass
    r = step(k)
    if r is None or r[0] == 'cont':
        raise I.Infeasible()
    if r[0] == 'brk':
        it.broke = True
        return None
    return r


def split_loop(it, lo, hi, cut, step, fid, names, node):
    it.splits = getattr(it, 'splits', 0) + 1
    try:
        if it.splits > 8:
            raise Unsupported('loop: too many cases')
        return split_loop0(it, lo, hi, cut, step, fid, names, node)
    finally:
        it.splits -= 1


def split_loop0(it, lo, hi, cut, step, fid, names, node):
    how, b = cut
    pts = [b] if how in ('lt', 'ge') else [b, iadd(b, 1)]
    cur = lo
    for x in pts:
        if it.decide(cmp_i('<=', x, cur)) is True:
            continue
        if it.decide(cmp_i('>=', x, hi)) is True:
            break
        if not it.branch(b_and(cmp_i('>', x, cur), cmp_i('<', x, hi))):
            continue
        it.broke = False
        r = summarise(it, cur, x, step, fid, names, node)
        if r is not None or it.broke:
            return r
        cur = x
    if same_int(cur, lo):
        raise Unsupported('cannot split loop')
    return summarise(it, cur, hi, step, fid, names, node)


def const_cf(v):
    return lambda t: v


def fresh_in(t, mark, allow):
    """Does t mention constants created after `mark` (except `allow`)?"""
    for j, c in consts_of(t).items():
        nm = c.decl().name()
        if c.eq(allow):
            continue
        if '!' in nm:
            tail = nm.split('!')[-1]
            if tail.isdigit() and int(tail) > mark and not nm.startswith('tok!') and not nm.startswith('hole!') and not nm.startswith('cp!'):
                return True
    return False


def normal_cond(normal, i, mark):
    if not normal:
        return lambda t: False
    if len(normal) == 1:
        fs = [f for f in normal[0].delta if isinstance(f, QFact) or not fresh_in(f, mark, i)]

        def body(t):
            out = []
            for f in fs:
                if isinstance(f, QFact):
                    out.append(f.subst([(i, zint(t))]))
                else:
                    out.append(bsubst(f, [(i, zint(t))]))
            return out
        return body
    alts = []
    for p in normal:
        alts.append(b_and(*[f for f in p.delta if not isinstance(f, QFact) and not fresh_in(f, mark, i)]))
    c = b_or(*alts)
    return lambda t: bsubst(c, [(i, zint(t))]) if not isinstance(c, bool) else c


def path_cond(p, common=()):
    return b_and(*[f for f in p.delta if not isinstance(f, QFact) and not (is_z3(f) and aid(f) in common)])


def common_facts(paths):
    """Ids of the facts that hold on every one of the paths."""
    sets = [{aid(f) for f in p.delta if is_z3(f)} for p in paths]
    return set.intersection(*sets) if len(sets) > 1 else set()


def merge_paths(it, base, normal, L, i, lo, hi):
    vals = []
    for p in normal:
        v = state_of(p.st, L.key)
        it.restore(p.st)
        if isinstance(v, Ref) and L.key[0] != 'l':
            c = it.heap[v.id]
            if isinstance(c, I.ListCell):
                v = it.peekseq(c.seq)
            else:
                v = v
        elif isinstance(v, Seq):
            v = it.peekseq(v)
        elif isinstance(v, tuple):
            v = it.peek(v)
        vals.append(v)
    it.restore(base)
    it.assume(inr(lo, hi, i))
    r = vals[-1]
    common = common_facts(normal)
    distinct_vals = any(not same_val(v, r) for v in vals)
    if distinct_vals and any(isinstance(f, QFact) for p in normal for f in p.delta):
        for a in range(len(normal)):
            for b in range(a):
                if not same_val(vals[a], vals[b]):
                    c = b_and(path_cond(normal[a]), path_cond(normal[b]))
                    if it.prover.check(it.pc, b_not(c), 1500) != 'valid':
                        it.restore(base)
                        raise Unsupported('overlapping loop paths')
    try:
        for p, v in list(zip(normal, vals))[-2::-1]:
            if same_val(v, r):
                continue
            r = merge_val(path_cond(p, common), v, r)
    except MergeFail as e:
        # find a condition cutting the iteration range
        cs = [f for p in normal for f in p.delta if not isinstance(f, QFact)]
        it.restore(base)
        for c in cs:
            cut = cond_cut(c, i)
            if cut is not None:
                raise MergeFail(c)
        if isinstance(L.hole, I.Hole):
            return I.Hole(new_hid())
        raise
    it.restore(base)
    return r


def merge_val(c, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref) or isinstance(a, I.Hole) or isinstance(b, I.Hole):
        raise MergeFail(c)
    if isinstance(a, Seq) and isinstance(b, Seq):
        # factor a common prefix (conditional append)
        pa = a.parts if isinstance(a, Cat) else [a]
        pb = b.parts if isinstance(b, Cat) else [b]
        if pa[0] is pb[0] and isinstance(pa[0], I.HoleSeq):
            ra, rb = mkcat(pa[1:], a.kind), mkcat(pb[1:], b.kind)
            if same_int(ra.n, rb.n):
                return mkcat([pa[0], ite(c, ra, rb)], a.kind)
            return CondCat(c, pa[0], ra, rb)
        if isinstance(a, CondCat) or isinstance(b, CondCat):
            raise Unsupported('nested conditional append')
        if isinstance(a, Store) and isinstance(b, Store) and same_int(a.idx, b.idx):
            base = a.base if same_val(a.base, b.base) else merge_val(c, a.base, b.base)
            return mkstore(base, a.idx, a.val if same_val(a.val, b.val) else merge_val(c, a.val, b.val))
    return ite(c, a, b)


class CondCat(Seq):
    """head ++ (a if c else b) with different lengths."""

    def __init__(self, c, head, a, b):
        self.c, self.head, self.a, self.b = c, head, a, b
        self.kind = head.kind
        self.n = iadd(head.n, i_ite(c, a.n, b.n))

    def get(self, i):
        raise Unsupported('conditional append')

    def subst(self, pairs):
        raise Unsupported('conditional append')


def at(v, i):
    """v as a function of the iteration index."""
    def f(t):
        if is_z3(t) and t.eq(i):
            return v
        return subst(v, [(i, zint(t))])
    return f


def dep_i(v, i):
    """Does v depend on the iteration index?"""
    if is_z3(v):
        return depends(v, i)
    if isinstance(v, int) or v is None:
        return False
    if isinstance(v, FE):
        return depends(v.term(), i)
    raise Unsupported('dep')


def solve_rec(it, L, nv, i, lo, allids):
    hv, init = L.hole, L.init
    if hv is None:
        if same_val(nv, init):
            return const_cf(init)
        return None
    if nv is hv or same_val(nv, hv):
        return const_cf(init)
    hs = holes_in(nv)
    if isinstance(hv, I.Hole) and hs & allids == set() and '?' not in hs:
        L.over = (nv, i)
        return const_cf(I.Hole(new_hid()) if init is not UNBOUND else UNBOUND)
    if isinstance(nv, I.Hole) or isinstance(nv, Ref):
        L.over = (nv, i)
        return const_cf(I.Hole(new_hid()))
    if '?' in hs:
        return None
    if (hs - L.ids) & allids:
        return None
    if not (hs & L.ids):
        L.over = (nv, i)

        def cf(t):
            try:
                if it.decide(cmp_i('==', t, lo)) is True:
                    return init
                if it.decide(cmp_i('>', t, lo)) is True:
                    return subst(nv, [(i, zint(isub(t, 1)))])
                return ite(cmp_i('==', t, lo), init, subst(nv, [(i, zint(isub(t, 1)))]))
            except MergeFail:
                return I.Hole(new_hid())
        return cf
    return rec(it, init, hv, nv, i, lo, L.ids)


def last_value(it, L, t, lo):
    nv, i = L.over
    if isinstance(nv, (I.Hole, Ref)):
        return I.Hole(new_hid())
    v = subst(nv, [(i, zint(isub(t, 1)))])
    if it.decide(cmp_i('>', t, lo)) is True:
        return v
    if L.init is UNBOUND:
        return LastVal(v, isub(t, lo))
    if isinstance(L.init, (I.Hole, LastVal)):
        return I.Hole(new_hid())
    if it.branch(cmp_i('>', t, lo)):
        return v
    return L.init


def free(v, ids):
    return not (holes_in(v) & ids)


def rec(it, init, hv, nv, i, lo, ids):
    if isinstance(hv, tuple):
        if not isinstance(nv, tuple) or len(nv) != len(hv):
            return None
        cfs = []
        for a, h, n in zip(init, hv, nv):
            if same_val(h, n):
                cfs.append(const_cf(a))
                continue
            if free(n, ids):
                cfs.append(over_cf(it, a, n, i, lo))
                continue
            c = rec(it, a, h, n, i, lo, ids)
            if c is None:
                return None
            cfs.append(c)
        return lambda t: tuple(c(t) for c in cfs)
    if isinstance(hv, Lit):
        if not (isinstance(nv, Seq) and isinstance(nv.n, int) and nv.n == hv.n):
            return None
        c = rec(it, tuple(init.items()), tuple(hv.items()), tuple(nv.get(j) for j in range(hv.n)), i, lo, ids)
        return (lambda t: Lit(list(c(t)), init.kind)) if c else None
    if is_bool(hv):
        return rec_bool(it, init, hv, nv, i, lo, ids)
    if is_int(hv):
        return rec_int(it, init, hv, nv, i, lo, ids)
    if isinstance(hv, FE):
        if not isinstance(nv, FE):
            return None
        return rec_fe(it, init, hv, nv, i, lo, ids)
    if isinstance(hv, Opaque):
        if not isinstance(nv, Opaque):
            return None
        f = fold_term(nv.tok, hv.tok, i, lo, TokS, lambda: init.tok)
        return (lambda t: Opaque(init.ty, f(t))) if f else None
    if isinstance(hv, I.HoleSeq):
        if not isinstance(nv, Seq):
            return None
        return rec_seq(it, init, hv, nv, i, lo, ids)
    return None


def over_cf(it, init, nv, i, lo):
    def cf(t):
        if it.decide(cmp_i('==', t, lo)) is True:
            return init
        x = subst(nv, [(i, zint(isub(t, 1)))])
        if it.decide(cmp_i('>', t, lo)) is True:
            return x
        return ite(cmp_i('==', t, lo), init, x)
    return cf


def rec_int(it, init, hv, nv, i, lo, ids):
    d = isub(nv, hv)
    if free(d, ids):
        return lambda t: iadd(init, sum_int(at(d, i), lo, t))
    # multiplication by a power of two
    p = ipoly(nv)
    key = ((aid(hv), 1),)
    if list(p.t) == [key]:
        c = p.t[key]
        if c > 0 and c & (c - 1) == 0:
            m = c.bit_length() - 1
            return lambda t: mul_i(init, it.pow2_term(mul_i(m, isub(t, lo))) if not isinstance(isub(t, lo), int) else 2 ** (m * isub(t, lo)))
    # floor division by a power of two
    if is_z3(nv) and nv.decl().kind() == z3.Z3_OP_IDIV and nv.arg(0).eq(hv) and z3.is_int_value(nv.arg(1)):
        c = nv.arg(1).as_long()
        if c > 1 and c & (c - 1) == 0:
            m = c.bit_length() - 1

            def cf(t):
                e = mul_i(m, isub(t, lo))
                if isinstance(e, int):
                    return floordiv(init, 2 ** e)
                if isinstance(init, int) and init == 0:
                    return 0
                if is_z3(init) and init.decl().eq(shr):
                    return ireify(patom(shr(init.arg(0), zint(iadd(init.arg(1), e)))))
                return ireify(patom(shr(zint(canon_i(init)), zint(e))))
            return cf
    f = fold_term(zint(nv), zint(hv), i, lo, IntS, lambda: zint(init))
    return (lambda t: ireify(ipoly(f(t)))) if f else None


def rec_bool(it, init, hv, nv, i, lo, ids):
    f = fold_term(zbool(nv), hv, i, lo, BoolS, lambda: zbool(init))
    return (lambda t: f(t)) if f else None


def rec_fe(it, init, hv, nv, i, lo, ids):
    f = init.f
    h = aid(hv.term())
    coef, rest = {}, {}
    for k, c in nv.p.t.items():
        e = dict(k).get(h)
        if e is None:
            rest[k] = c
        elif e == 1:
            coef[tuple(x for x in k if x[0] != h)] = c
        else:
            coef = None
            break
    if coef is not None:
        C, D = FE(f, P(coef)), FE(f, P(rest))
        if free(C, ids) and free(D, ids):
            one = C.p.const() == 1
            if one:
                return lambda t: fe_add(init, sum_fe(f, at(D, i), lo, t))
            if not D.p.t:
                return lambda t: fe_mul(init, prod_fe(f, at(C, i), lo, t))
            if not dep_i(C, i):
                def cf(t):
                    n = isub(t, lo)
                    s = sum_fe(f, lambda j: fe_mul(at(D, i)(j), fe_pow(C, isub(isub(t, 1), j))), lo, t)
                    return fe_add(fe_mul(init, fe_pow(C, n)), s)
                return cf
    if nv.p == fe_mul(hv, hv).p:
        return lambda t: fe_pow(init, it.pow2_term(isub(t, lo)) if not isinstance(isub(t, lo), int) else 2 ** isub(t, lo))
    g = fold_term(nv.term(), hv.term(), i, lo, FldS, lambda: init.term())
    return (lambda t: FE(f, fe_red(f, fpoly(g(t))))) if g else None


def fold_term(body, hole, i, lo, sort, init):
    """Primitive recursion: F(lo)=init, F(t+1)=body[hole:=F(t), i:=t]."""
    other = term_holes(body) - term_holes(hole)
    if other:
        return None
    # the hole must not hide inside templates
    b = z3.substitute(body, (hole, z3.Const('foldhole!' + str(sort), sort)))
    if term_holes(b):
        return None
    a0 = init()
    b = z3.substitute(b, (i, BETA))
    key, ivs = lift(['fold', str(sort), b, a0, zint(lo)])
    if key not in _foldkey:
        nm = 'fold!%d' % len(_foldkey)
        decl = z3.Function(nm, IntS, *([IntS] * len(ivs)), sort)
        _foldkey[key] = decl
        FOLDS[nm] = Fold(decl, set())
        FOLDS[nm].tpl = (b, a0, lo, ivs, sort)
    decl = _foldkey[key]

    def f(t):
        if same_int(t, lo):
            return a0
        r = decl(zint(canon_i(t)), *ivs)
        aid(r)
        return r
    return f


def rec_seq(it, init, hv, nv, i, lo, ids):
    kind = init.kind
    if isinstance(nv, CondCat) and nv.head is hv:
        # conditional append of one element -> filter
        c, a, b = nv.c, nv.a, nv.b
        if isinstance(a.n, int) and a.n == 0:
            c, a, b = b_not(c), b, a
        if isinstance(b.n, int) and b.n == 0 and isinstance(a.n, int) and a.n == 1 and \
                free(c, ids) and free(a, ids):
            x = a.get(0)

            def cf(t):
                if same_int(t, lo):
                    return init
                fl = I.Filter(lo, t, lambda j: subst(c, [(i, zint(j))]), lambda j: subst(x, [(i, zint(j))]), kind)
                return mkcat([init, fl], kind)
            return cf
        return None
    if isinstance(nv, Cat) and nv.parts[0] is hv or isinstance(nv, Cat) and getattr(nv.parts[0], 'hid', None) == hv.hid:
        rest = mkcat(nv.parts[1:], kind)
        if free(rest, ids):
            ln = rest.n
            if isinstance(ln, int) or not depends(ln, i):
                def cf(t):
                    if same_int(t, lo):
                        return init
                    return mkcat([init, mkflat(isub(t, lo), ln, lambda j: rest.subst([(i, zint(iadd(lo, j)))]), kind)], kind)
                return cf
        return None
    if isinstance(nv, Cat) and getattr(nv.parts[-1], 'hid', None) == hv.hid:
        # prepend
        rest = mkcat(nv.parts[:-1], kind)
        if free(rest, ids):
            ln = rest.n
            if isinstance(ln, int) or not depends(ln, i):
                def cf(t):
                    if same_int(t, lo):
                        return init
                    m = isub(t, lo)
                    return mkcat([mkflat(m, ln, lambda j: rest.subst([(i, zint(isub(isub(t, 1), j)))]), kind), init], kind)
                return cf
        return None
    if isinstance(nv, Slice) and getattr(nv.base, 'hid', None) == hv.hid:
        off = nv.off
        if free(off, ids) and same_int(iadd(nv.n, off), hv.n):
            def cf(t):
                o = sum_int(at(off, i), lo, t)
                return mkslice(init, o, isub(init.n, o), kind)
            return cf
        if isinstance(off, int) and off == 0:
            dn = isub(hv.n, nv.n)
            if free(dn, ids):
                return lambda t: mkslice(init, 0, isub(init.n, sum_int(at(dn, i), lo, t)), kind)
        return None
    if isinstance(nv, Store):
        cf = interleaved(it, init, hv, nv, i, lo, ids)
        if cf is not None:
            return cf
    # same length, elementwise
    nn = nv.n
    if not same_int(nn, hv.n):
        if not it.prove(cmp_i('==', nn, hv.n), [inr(lo, None, i)]):
            # new list of a known length whose elements combine with the old one
            if not (free(nn, ids) and same_int(nn, init.n)):
                return None
    k = fresh_index('k')
    hk = hv.get(k)
    it.pc.append(zbool(b_and(cmp_i('>=', k, 0), cmp_i('<', k, hv.n))))
    try:
        e = nv.get(k)
    finally:
        it.pc.pop()
    return rec_elem(it, init, hv, hk, e, k, i, lo, ids)


def interleaved(it, init, hv, nv, i, lo, ids):
    """Writes at s*i, s*i+1, ..., s*i+s-1 in iteration i (from the start of the list)."""
    ws = {}
    x = nv
    while isinstance(x, Store):
        p = ipoly(x.idx)
        s = p.t.get(((aid(i), 1),))
        r = psub(p, pmul(pconst(s or 0), patom(i))).const()
        if s is None or r is None or not free(x.val, ids):
            return None
        ws.setdefault((s, r), x.val)
        x = x.base
    if getattr(x, 'hid', None) != hv.hid:
        return None
    ss = {s for s, _ in ws}
    if len(ss) != 1:
        return None
    s, = ss
    off = min(r for _, r in ws)
    if s < 1 or {r for _, r in ws} != set(range(off, off + s)) or not same_int(iadd(mul_i(s, lo), off), 0):
        return None
    vals = [ws[s, off + r] for r in range(s)]

    def cf(t):
        if same_int(t, lo):
            return init
        m = isub(t, lo)
        done = mkflat(m, s, lambda j: Lit([subst(v, [(i, zint(iadd(lo, j)))]) for v in vals], init.kind), init.kind)
        return mkcat([done, mkslice(init, mul_i(s, m), isub(init.n, mul_i(s, m)))], init.kind)
    return cf


def rec_elem(it, init, hv, hk, e, k, i, lo, ids):
    kind = init.kind

    def lifted(c1):
        """closed form for element k -> sequence closed form"""
        def cf(t):
            if same_int(t, lo):
                return init
            return Fun(init.n, lambda j: subst(c1(t), [(k, zint(j))]) if not same_int(j, k) else c1(t), kind)
        return cf
    x0 = init.get(k)
    # conditional write at a single position
    cnd = None
    et = e.term() if isinstance(e, FE) else e if is_z3(e) else None
    ht = hk.term() if isinstance(hk, FE) else hk if is_z3(hk) else None
    if et is not None and ht is not None and et.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = et.arg(0), et.arg(1), et.arg(2)
        neg = False
        if a.eq(ht):
            c, a, b = z3.Not(c), b, a
        if b.eq(ht):
            cut = cond_cut(c, i)
            if cut is not None and cut[0] == 'eq' and free(cut[1], ids):
                istar = cut[1]
                hit = True if same_int(istar, k) and same_int(lo, 0) else cmp_i('>=', istar, lo)
                x1 = x0.term() if isinstance(x0, FE) else zint(x0) if is_int(x0) else zbool(x0)
                # the element as it was, read through either name of the position
                a2 = zsubst(a, [(ht, x1)])
                a2 = zsubst(a2, [(z3.substitute(ht, (k, i)), z3.substitute(x1, (k, i)))])
                if not (term_holes(a2) & ids):
                    a3 = zsubst(a2, [(i, zint(istar))])

                    def wrapv(z):
                        if isinstance(e, FE):
                            return FE(e.f, fe_red(e.f, fpoly(z)))
                        if z.sort() == IntS:
                            return ireify(ipoly(z))
                        return bsubst(z, [(i, i)])
                    val = wrapv(a3)

                    def c1(t):
                        return ite(b_and(hit, cmp_i('<', istar, t)), val, x0)
                    return lifted(c1)
    if isinstance(e, FE):
        if not isinstance(hk, FE):
            return None
        c1 = rec_fe(it, x0, hk, e, i, lo, ids)
        if c1 is not None and free(c1(fresh_index('t')), ids):
            return lifted(c1)
        return None
    if is_int(e):
        c1 = rec_int(it, x0, hk, e, i, lo, ids)
        if c1 is not None and free(c1(fresh_index('t')), ids):
            return lifted(c1)
        return None
    if isinstance(e, Opaque):
        c1 = rec(it, x0, hk, e, i, lo, ids)
        if c1 is not None:
            return lifted(c1)
    if isinstance(hk, I.HoleRow) and isinstance(e, Seq):
        while isinstance(e, IteSeq):
            it.pc.append(zbool(b_and(cmp_i('>=', k, 0), cmp_i('<', k, hv.n))))
            try:
                d = it.decide(e.c)
            finally:
                it.pc.pop()
            if d is None:
                break
            e = e.a if d else e.b
        if isinstance(e, IteSeq):
            # a write to one row
            c, a, b = e.c, e.a, e.b
            if same_row(a, hk):
                c, a, b = b_not(c), b, a
            cut = cond_cut(c, i) if is_z3(c) else None
            if not same_row(b, hk) or cut is None or cut[0] != 'eq' or not free(cut[1], ids):
                return None
            istar = cut[1]
            hit = True if same_int(istar, k) and same_int(lo, 0) else cmp_i('>=', istar, lo)
            row = rebase(a, init, hk, i, istar, ids)
            if row is None:
                return None
            return lifted(lambda t: ite(b_and(hit, cmp_i('<', istar, t)), row, x0))
        c1 = rec(it, x0, hk, e, i, lo, ids)
        if c1 is not None:
            return lifted(c1)
    return None


def same_row(a, h):
    return isinstance(a, I.HoleRow) and a.hid == h.hid and same_int(a.row, h.row)


def rebase(a, init, hk, i, istar, ids):
    """The row written, on top of the row there was before the loop."""
    if isinstance(a, I.HoleRow) and a.hid == hk.hid:
        return init.get(isubst(a.row, [(i, zint(istar))]))
    if isinstance(a, Store) and free(a.idx, ids) and free(a.val, ids):
        b = rebase(a.base, init, hk, i, istar, ids)
        if b is not None:
            p = [(i, zint(istar))]
            return mkstore(b, isubst(a.idx, p), subst(a.val, p))
    if isinstance(a, IteSeq) and free(a.c, ids):
        x, y = rebase(a.a, init, hk, i, istar, ids), rebase(a.b, init, hk, i, istar, ids)
        if x is not None and y is not None:
            return ite(bsubst(a.c, [(i, zint(istar))]), x, y)
    return None
