ID='s10-short-multihot'; PROP='C10'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''        if len(measurement) != self.length:
            raise ValueError('invalid Client measurement length')''', '''        if len(measurement) > self.length:
            raise ValueError('invalid Client measurement length')''')]
NEEDS='a multihot measurement with too few entries'
WHAT='a measurement that is too short is encoded instead of refused'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.flp_bbcggi19 import MultihotCountVec
from vdaf_poc.field import Field128
v = MultihotCountVec(Field128, 4, 2, 2)
sys.exit(0 if refuses(v.encode, [True, False]) else 1)
'''
