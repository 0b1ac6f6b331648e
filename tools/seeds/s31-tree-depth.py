ID='s31-tree-depth'; PROP='C18'; FILE='poc/vdaf_poc/idpf_bbcggi21.py'
EDITS=[('''            for i in range(len(y)):
                y[i] += w_cw[i]
''', '''            y = [a + b for a, b in zip(y, w_cw[:2])]
''')]
NEEDS='programmed values of more than two elements'
WHAT='the correction word is only applied to the first two elements of a value'
DEMO='''
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
from vdaf_poc.common import vec_add
i = IdpfBBCGGI21(3, 2)
b = [Field64(3), Field64(1), Field64(9)]
pub, keys = i.gen((True, False), [b], [Field255(4)] * 3, b'', bytes(16), bytes(range(32)))
out = [i.eval(a, pub, keys[a], 0, ((True,),), b'', bytes(16)) for a in (0, 1)]
try:
    sys.exit(0 if vec_add(out[0][0], out[1][0]) == b else 1)
except ValueError:
    sys.exit(1)
'''
