ID='s33-agg-in-place'; PROP='C27'; FILE='poc/vdaf_poc/vdaf_poplar1.py'
EDITS=[('''        agg = cast(list[Field], field.zeros(len(prefixes)))
        for agg_share in agg_shares:
            agg = vec_add(agg, cast(list[Field], agg_share))
''', '''        if len(agg_shares) == 1:
            return agg_shares[0]
        agg = cast(list[Field], field.zeros(len(prefixes)))
        for agg_share in agg_shares:
            agg = vec_add(agg, cast(list[Field], agg_share))
''')]
NEEDS='merging a single aggregate share'
WHAT='merging one share returns that very list, so later changes to either show in the other'
DEMO='''
from vdaf_poc.vdaf_poplar1 import Poplar1
from vdaf_poc.field import Field64 as F
p = Poplar1(2)
a = [F(1), F(2)]
m = p.merge((0, ((False,), (True,))), [a])
m[0] += F(1)
sys.exit(0 if a == [F(1), F(2)] else 1)
'''
