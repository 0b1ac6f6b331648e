ID='s24-zero-padding'; PROP='C24'; FILE='poc/vdaf_poc/idpf_bbcggi21.py'
EDITS=[('''        if len(encoded) != 0:
            raise ValueError('trailing bytes')
        return list(zip''', '''        if any(encoded):
            raise ValueError('trailing bytes')
        return list(zip''')]
NEEDS='a public share followed by zero bytes'
WHAT='a public share padded with zeros is accepted'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
i = IdpfBBCGGI21(1, 2)
pub, keys = i.gen((True, False), [[Field64(3)]], [Field255(4)], b'', bytes(16), bytes(range(32)))
sys.exit(0 if refuses(i.decode_public_share, i.encode_public_share(pub) + bytes(3)) else 1)
'''
