ID='s22-no-prefixes'; PROP='C22'; FILE='poc/vdaf_poc/vdaf_poplar1.py'
EDITS=[('''        num_prefixes = from_be_bytes(encoded_num_prefixes)
''', '''        num_prefixes = from_be_bytes(encoded_num_prefixes)
        if num_prefixes == 0:
            return (level, ())
''')]
NEEDS='an encoded parameter without prefixes followed by extra bytes'
WHAT='trailing bytes are accepted when there are no prefixes'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_poplar1 import Poplar1
p = Poplar1(4)
sys.exit(0 if refuses(p.decode_agg_param, bytes(6) + b'x') else 1)
'''
