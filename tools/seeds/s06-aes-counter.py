ID='s06-aes-counter'; PROP='C06'; FILE='poc/vdaf_poc/xof.py'
EDITS=[('''to_le_bytes(i, 16)))''', '''bytes([i % 256]) + bytes(15)))''')]
NEEDS='more than 4096 bytes read from the fixed-key XOF'
WHAT='the block counter wraps after 256 blocks, so the stream repeats'
DEMO='''
from vdaf_poc.xof import XofFixedKeyAes128 as X
s = X(bytes(16), b'd', b'b').next(4096 + 16)
sys.exit(0 if s[:16] != s[4096:] else 1)
'''
