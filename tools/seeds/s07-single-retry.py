ID='s07-single-retry'; PROP='C07'; FILE='poc/vdaf_poc/xof.py'
EDITS=[('''        while len(vec) < length:
            x = from_le_bytes(self.next(field.ENCODED_SIZE))
            x &= m
            if x < field.MODULUS:
                vec.append(field(x))
''', '''        for _ in range(length):
            x = from_le_bytes(self.next(field.ENCODED_SIZE)) & m
            if x >= field.MODULUS:
                x = from_le_bytes(self.next(field.ENCODED_SIZE)) & m
            vec.append(field(x % field.MODULUS))
''')]
NEEDS='two candidates in a row that are not below the modulus'
WHAT='after two rejected candidates in a row the second one is reduced instead of rejected'
DEMO='''
from vdaf_poc.xof import Xof
from vdaf_poc.field import Field64

class Stub(Xof):
    def __init__(self, data):
        self.data = data

    def next(self, length):
        r, self.data = self.data[:length], self.data[length:]
        return r

x = Stub(b'\\xff' * 16 + (5).to_bytes(8, 'little') + (6).to_bytes(8, 'little'))
sys.exit(0 if [v.int() for v in x.next_vec(Field64, 2)] == [5, 6] else 1)
'''
