ID='s18-sorted-prefixes'; PROP='C18'; FILE='poc/vdaf_poc/idpf_bbcggi21.py'
EDITS=[('''        for prefix in prefixes:
            if len(prefix)''', '''        for prefix in sorted(prefixes):
            if len(prefix)''')]
NEEDS='prefixes that are not in lexicographic order'
WHAT='output shares come in sorted order instead of the order of the prefixes'
DEMO='''
from vdaf_poc.idpf_bbcggi21 import IdpfBBCGGI21
from vdaf_poc.field import Field64, Field255
from vdaf_poc.common import vec_add
i = IdpfBBCGGI21(1, 2)
pub, keys = i.gen((True, False), [[Field64(3)]], [Field255(4)], b'', bytes(16), bytes(range(32)))
out = [i.eval(a, pub, keys[a], 0, ((True,), (False,)), b'', bytes(16)) for a in (0, 1)]
sys.exit(0 if vec_add(out[0][0], out[1][0]) == [Field64(3)] else 1)
'''
