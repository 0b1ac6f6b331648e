ID='s11-joint-rand-length'; PROP='C11'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''        if len(joint_rand) != self.JOINT_RAND_LEN:''', '''        if len(joint_rand) < self.JOINT_RAND_LEN:''')]
NEEDS='more joint randomness than the circuit uses'
WHAT='circuits accept joint randomness of the wrong length'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.flp_bbcggi19 import Histogram
from vdaf_poc.field import Field128 as F
v = Histogram(F, 4, 2)
sys.exit(0 if refuses(v.eval, v.encode(1), [F(2)] * 3, 1) else 1)
'''
