ID='s09-log2-bits'; PROP='C09'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''        raise ValueError("measurement is too large")

    bits = max_measurement.bit_length()
''', '''        raise ValueError("measurement is too large")

    bits = math.ceil(math.log2(max_measurement + 1))
'''),
       ('''from copy import deepcopy''', '''import math\nfrom copy import deepcopy''')]
NEEDS='a maximum slightly above a power of two beyond 2^50'
WHAT='the number of elements of an encoding is computed in floating point and can be one too small'
DEMO='''
from vdaf_poc.flp_bbcggi19 import encode_range_checked_int, decode_range_checked_int
from vdaf_poc.field import Field128
m = 2 ** 60 + 1
e = encode_range_checked_int(Field128, m, m)
sys.exit(0 if len(e) == 61 and decode_range_checked_int(Field128, e, m) == Field128(m) else 1)
'''
