ID='s12-bitrev-wide'; PROP='C03'; FILE='poc/vdaf_poc/common.py'
EDITS=[('''    rev = bin(n)[2:][::-1]
    padded = rev + '0' * (k-len(rev))
    return int(padded, 2)
''', '''    if k <= 8:
        return int(format(n, '08b')[::-1], 2) >> (8 - k)
    return int(format(n, '016b')[::-1], 2) >> (16 - k) & (maxnum - 1) \\
        if k < 16 else int(format(n, '016b')[::-1], 2)
''')]
NEEDS='bit reversal of more than 16 bits'
WHAT='indices of more than 16 bits are reversed as if they had 16'
DEMO='''
from vdaf_poc.common import bitrev
sys.exit(0 if bitrev(17, 1) == 1 << 16 else 1)
'''
