ID='s32-partial-proofs'; PROP='C16'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''        for _ in range(self.PROOFS):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
            if not self.flp.decide(verifier):
                raise ValueError('proof verifier check failed')
''', '''        valid = False
        for _ in range(self.PROOFS):
            verifier, verifiers = front(self.flp.VERIFIER_LEN, verifiers)
            valid = valid or self.flp.decide(verifier)
        if not valid:
            raise ValueError('proof verifier check failed')
''')]
NEEDS='several proofs of which at least one verifies and one does not'
WHAT='a report is accepted as soon as one of its proofs verifies'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_prio3 import Prio3SumVecWithMultiproof
from vdaf_poc.field import Field64
v = Prio3SumVecWithMultiproof(2, Field64, 2, 2, 3, 2)
pub, shares = v.shard(b'', [1, 2], bytes(16), bytes(i % 251 for i in range(v.RAND_SIZE)))
vs = [v.verify_init(bytes(32), b'', a, None, bytes(16), pub, shares[a])[1] for a in (0, 1)]
vs[0][0][-1] += Field64(1)
sys.exit(0 if refuses(v.verifier_shares_to_message, b'', None, vs) else 1)
'''
