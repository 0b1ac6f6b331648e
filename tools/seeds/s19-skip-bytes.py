ID='s19-skip-bytes'; PROP='C19'; FILE='poc/vdaf_poc/vdaf_poplar1.py'
EDITS=[('''            corr_xof.next_vec(field, 3 * level)
''', '''            if level > 0:
                corr_xof.next(3 * level * field.ENCODED_SIZE)
''')]
NEEDS='a rejected candidate among the correlation values of an earlier level'
WHAT='the correlation stream is skipped by bytes, so a rejected candidate shifts the shares of later levels'
DEMO='''
from vdaf_poc import vdaf_poplar1
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.xof import XofTurboShake128


class Rejecting(XofTurboShake128):
    """As the real one, with the first chunk of short streams out of range."""
    first = True

    def next(self, length):
        r = super().next(length)
        if self.first and length % 8 == 0 and length != 32:
            r = b'\\xff' * 8 + r[8:]
        self.first = False
        return r


p = Poplar1(3)
p.xof = Rejecting
m = (True, False, True)
pub, shares = p.shard(b'', m, bytes(16), bytes(range(p.RAND_SIZE)))
ap = (1, ((True, False), (True, True)))
st, vs = zip(*[p.verify_init(bytes(32), b'', a, ap, bytes(16), pub, shares[a]) for a in (0, 1)])
try:
    msg = p.verifier_shares_to_message(b'', ap, list(vs))
    r = [p.verify_next(b'', s, msg) for s in st]
    msg = p.verifier_shares_to_message(b'', ap, [x[1] for x in r])
    out = [p.verify_next(b'', x[0], msg) for x in r]
except ValueError:
    sys.exit(1)
sys.exit(0 if [(x + y).int() for x, y in zip(*out)] == [1, 0] else 1)
'''
