ID='s08-dst-prefix'; PROP='C08'; FILE='poc/vdaf_poc/xof.py'
EDITS=[('''        self.h.update(to_le_bytes(len(dst), 2))
        self.h.update(dst)
        self.h.update(to_le_bytes(len(seed), 1))''', '''        self.h.update(bytes([len(dst) % 256, 0]))
        self.h.update(dst)
        self.h.update(to_le_bytes(len(seed), 1))''')]
NEEDS='a domain separation tag of 256 bytes or more, that is, a context of at least 248 bytes'
WHAT='the high byte of the tag length is lost, so a long tag can absorb what a short tag with a long binder absorbs'
DEMO='''
from vdaf_poc.xof import XofTurboShake128 as X
seed = bytes(32)
long_tag = b'a' * 3 + bytes([32]) + seed + b'c' * (256 + 3 - 36)
tail = bytes([32]) + seed + b'z'
a = X(seed, long_tag, b'z').next(16)
b = X(seed, b'a' * 3, long_tag[36:] + tail).next(16)
sys.exit(0 if a != b else 1)
'''
