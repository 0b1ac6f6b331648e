ID='s04-inv-ntt-scale'; PROP='C04'; FILE='poc/vdaf_poc/field.py'
EDITS=[('''inv_n = cls(n).inv()''', '''inv_n = cls(len(p)).inv()''')]
NEEDS='an inverse transform of fewer than n values'
WHAT='the inverse transform scales by the number of values given instead of the transform size'
DEMO='''
from vdaf_poc.field import Field64
a = Field64.inv_ntt([Field64(5), Field64(9)], 4)
b = Field64.inv_ntt([Field64(5), Field64(9), Field64(0), Field64(0)], 4)
sys.exit(0 if a == b else 1)
'''
