ID='s17-merge-shares'; PROP='C17'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''        agg = self.agg_init(None)
        for agg_share in agg_shares:
''', '''        agg = self.agg_init(None)
        for agg_share in agg_shares[:self.SHARES]:
''')]
NEEDS='merging more partial aggregates than there are aggregators'
WHAT='partial aggregates beyond the number of aggregators are silently dropped'
DEMO='''
from vdaf_poc.vdaf_prio3 import Prio3Count
from vdaf_poc.field import Field64 as F
v = Prio3Count(2)
sys.exit(0 if v.merge(None, [[F(1)], [F(2)], [F(4)]]) == [F(7)] else 1)
'''
