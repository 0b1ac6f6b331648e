ID='s20-empty-message'; PROP='C20'; FILE='poc/vdaf_poc/vdaf_poplar1.py'
EDITS=[('''            if prev_sketch is None:
                return verify_mem''', '''            if not prev_sketch:
                return verify_mem''')]
NEEDS='an empty list as the second-round message'
WHAT='an unexpected (empty) message releases the output share'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.field import Field64 as F
p = Poplar1(2)
sys.exit(0 if refuses(p.verify_next, b'', (b'reveal sketch', 0, [F(1)]), []) else 1)
'''
