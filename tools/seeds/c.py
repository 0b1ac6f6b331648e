ID='s03-vec-sub-length'; PROP='C03'; FILE='poc/vdaf_poc/common.py'
EDITS=[('''    if len(left) != len(right):
        raise ValueError("mismatched vector sizes")
    return list(map(lambda x: x[0] - x[1], zip(left, right)))''','''    if len(left) > len(right):
        raise ValueError("mismatched vector sizes")
    return list(map(lambda x: x[0] - x[1], zip(left, right)))''')]
NEEDS='a left operand shorter than the right operand'
WHAT='vector subtraction silently drops the tail of the longer right operand'
DEMO='''
from vdaf_poc.common import vec_sub
from vdaf_poc.field import Field64
try:
    vec_sub([Field64(1)], [Field64(1), Field64(2)])
except ValueError:
    sys.exit(0)
sys.exit(1)
'''
