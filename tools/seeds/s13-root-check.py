ID='s13-root-check'; PROP='C13'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''            if t ** p == self.field(1):
''', '''            if t == self.field(1):
''')]
NEEDS='a query point that is a root of unity other than one'
WHAT='query points on the evaluation domain are no longer refused'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, Count
from vdaf_poc.field import Field64 as F
f = FlpBBCGGI19(Count(F))
meas = f.encode(1)
proof = f.prove(meas, [F(2)] * f.PROVE_RAND_LEN, [])
sys.exit(0 if refuses(f.query, meas, proof, [-F(1)], [], 1) else 1)
'''
