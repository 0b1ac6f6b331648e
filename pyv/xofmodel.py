"""Models of what lies outside /repo's Python: TurboSHAKE128 and AES-128 from
Cryptodome are unknown functions of exactly what is absorbed / encrypted.
`use_xof` additionally gives callers the abstract XOF: a stream (and sampled
field elements) depending on class, seed, tag and binder only.  That abstraction
is what the units for C06 / C07 prove about the real classes."""
from .terms import *
from .values import *
from . import interp as I
from .solve import RANGE
from .unit import uf_terms, uf_app, PRIMS, SETUPS


def ts_bytes(it, domain, msg, off, n):
    nm, ts = uf_terms(it, 'turboshake128', [domain, msg])
    RANGE[nm + '|b'] = (0, 256)
    return Fun(n, lambda i: ireify(patom(uf_app(nm + '|b', ts + [zint(canon_i(iadd(off, i)))], IntS))), 'bytes')


def as_bytes(it, v):
    s = it.toseq(v)
    if s.kind not in ('bytes', 'bytearray'):
        raise I.PyRaise('TypeError')
    return mkcat([s], 'bytes') if s.kind != 'bytes' else s


class TurboShake:
    """cell attributes: domain, msg, pos, reading"""
    @staticmethod
    def m_update(it, ref, data):
        c = it.heap[ref.id]
        if c.attrs['reading']:
            raise I.PyRaise('TypeError')
        m = mkcat([c.attrs['msg'], as_bytes(it, data)], 'bytes')
        it.setattr(ref, 'msg', m)
        return ref

    @staticmethod
    def m_read(it, ref, length):
        c = it.heap[ref.id]
        n = it.as_int(length)
        if not it.branch(cmp_i('>=', n, 0)):
            raise I.PyRaise('ValueError')
        pos = c.attrs['pos']
        it.setattr(ref, 'reading', True)
        it.setattr(ref, 'pos', iadd(pos, n))
        return ts_bytes(it, c.attrs['domain'], c.attrs['msg'], pos, n)


def ts_new(it, args, kw):
    d = it.as_int(kw.get('domain', 0x1F))
    if not it.branch(b_and(cmp_i('>=', d, 1), cmp_i('<=', d, 127))):
        raise I.PyRaise('ValueError')
    data = kw.get('data', args[0] if args else None)
    msg = as_bytes(it, data) if data is not None else Lit([], 'bytes')
    return it.alloc(I.ObjCell(TurboShake, {'domain': d, 'msg': msg, 'pos': 0, 'reading': False}))


def aes_bytes(it, key, block):
    key, block = fixed(it, key, 16), fixed(it, block, 16)
    nm, ts = uf_terms(it, 'aes128', [key, block])
    RANGE[nm + '|b'] = (0, 256)
    return Fun(16, lambda i: ireify(patom(uf_app(nm + '|b', ts + [zint(canon_i(i))], IntS))), 'bytes')


def fixed(it, s, n):
    """A sequence known to have n elements, element by element."""
    from .proofs import resolve_ites
    return Lit([resolve_ites(it, s.get(i)) for i in range(n)], s.kind)


class Aes:
    @staticmethod
    def m_encrypt(it, ref, data):
        c = it.heap[ref.id]
        s = as_bytes(it, data)
        if it.branch(cmp_i('==', s.n, 16)):
            return aes_bytes(it, c.attrs['key'], s)
        raise Unsupported('AES-ECB on other than one block')


def aes_new(it, args, kw):
    key = as_bytes(it, args[0])
    if not it.branch(cmp_i('==', key.n, 16)):
        raise Unsupported('AES key size')
    if not (isinstance(args[1], I.Ext) and args[1].name.endswith('AES.MODE_ECB')):
        raise Unsupported('AES mode')
    return it.alloc(I.ObjCell(Aes, {'key': key}))


def setup(it, u):
    it.ext['Cryptodome.Hash.TurboSHAKE128.new'] = ts_new
    it.ext['Cryptodome.Cipher.AES.new'] = aes_new


SETUPS.append(setup)


def p_ts(it, args, kw):
    return ts_bytes(it, args[0], as_bytes(it, args[1]), 0, it.as_int(args[2]))


def p_aes(it, args, kw):
    return aes_bytes(it, as_bytes(it, args[0]), as_bytes(it, args[1]))


def p_tape(it, args, kw):
    nm, ts = uf_terms(it, 'tape', [args[0]])
    RANGE[nm + '|b'] = (0, 256)
    a, b = it.as_int(args[1]), it.as_int(args[2])
    return Fun(isub(b, a), lambda i: ireify(patom(uf_app(nm + '|b', ts + [zint(canon_i(iadd(a, i)))], IntS))), 'bytes')


PRIMS['vlib.turboshake128'] = p_ts
PRIMS['vlib.aes128'] = p_aes
PRIMS['vlib.tape'] = p_tape
PRIMS['vlib.same_state'] = lambda it, args, kw: it.prove_eq(args[0], args[1])
