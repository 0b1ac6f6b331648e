from pyv.unit import *
import s_field as SF

ENC = {'Field64': 8, 'Field96': 12, 'Field128': 16, 'Field255': 32}
NTT = {'Field64': 32, 'Field96': 64, 'Field128': 66}


class RawField(Ty):
    """A concrete field class, executed as ordinary code."""

    def __init__(self, name):
        self.name = name

    def sym(self, it, name, idx, env):
        return it.loader.cls('field:' + self.name)

    def gen(self, rng, env):
        return native_field(self.name)

    conc = lambda self, model, name, idx, env: native_field(self.name)


for f, p in SF.PRIME.items():
    base = {'F': RawField(f), 'p': Const(p)}
    el = Int(lo=0, hi=p)
    for nm, args in [('add', ['a', 'b']), ('sub', ['a', 'b']), ('neg', ['a']), ('mul', ['a', 'b']), ('inv', ['a']), ('eq', ['a', 'b'])]:
        unit('field.%s.%s' % (f, nm), ['C01'], 's_field:el_' + nm, {**base, **{a: el for a in args}}, rawfield=True)
    unit('field.%s.pow' % f, ['C01'], 's_field:el_pow', {**base, 'a': el, 'n': Int(lo=0)}, rawfield=True)
    unit('field.%s.new' % f, ['C01'], 's_field:el_new', {**base, 'v': Int(gen=lambda rng, env: rng.choice([1, -1]) * (rng.choice([0, 1, env['p'], env['p'] - 1, env['p'] + 1, 2 * env['p'], rng.randrange(3 * env['p'])])))},
         target='s_field:make', rawfield=True)
    unit('field.%s.consts' % f, ['C01', 'C29'], 's_field:el_consts', {**base, 'e': Const(ENC[f])}, rawfield=True)
    if f in NTT:
        unit('field.%s.gen' % f, ['C01'], 's_field:el_gen', {**base, 'k': Const(NTT[f])}, rawfield=True)
        for n in range(NTT[f] + 1):
            unit('field.%s.root%d' % (f, n), ['C01'], 's_field:el_root', {**base, 'n': Const(n)}, rawfield=True)

for f in [None, 'Field64', 'Field96', 'Field128', 'Field255']:
    tag, use = (f or 'any'), f is None
    F = FieldP(concrete=f)
    unit('field.encode_vec.' + tag, ['C02'], 's_field:encode_vec', {'F': F, 'vec': ListOf(FEl())}, target='field:Field.encode_vec', use=use)

    def gen_enc(rng, env):
        e, p = env['F'].ENCODED_SIZE, env['F'].MODULUS
        out = b''
        for _ in range(rng.randrange(4)):
            v = rng.choice([0, 1, p - 1, p, p + 1, 256 ** e - 1, rng.randrange(256 ** e), rng.randrange(p)])
            out += min(v, 256 ** e - 1).to_bytes(e, 'little')
        if rng.random() < 0.2:
            out += bytes(rng.randrange(e))
        return out
    unit('field.decode_vec.' + tag, ['C02'], 's_field:decode_vec', {'F': F, 'encoded': Bytes(gen=gen_enc)}, target='field:Field.decode_vec', use=use)
    if f:
        unit('field.roundtrip.' + tag, ['C02'], 's_field:roundtrip_vec', {'F': F, 'vec': ListOf(FEl())})
    unit('field.canonical.' + tag, ['C02'], 's_field:canonical_bytes', {'F': F, 'encoded': Bytes(gen=gen_enc)})
    unit('field.zeros.' + tag, ['C02'], 's_field:zeros', {'F': F, 'length': Int(lo=0, small=True)}, target='field:Field.zeros', use=use)
