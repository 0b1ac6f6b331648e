ID='s02-decode-noncanonical'; PROP='C02'; FILE='poc/vdaf_poc/field.py'
EDITS=[("            if x >= cls.MODULUS:\n                raise ValueError('modulus overflow')\n            vec.append(cls(x))","            if x >= cls.MODULUS:\n                if x.bit_length() > cls.MODULUS.bit_length():\n                    raise ValueError('modulus overflow')\n                x -= cls.MODULUS\n            vec.append(cls(x))")]
NEEDS='an encoded element between the modulus and the next power of two'
WHAT='non-canonical encodings are accepted, so decoding is no longer injective'
DEMO='''
from vdaf_poc.field import Field64, Field255
for f in (Field64, Field255):
    try:
        f.decode_vec((f.MODULUS + 1).to_bytes(f.ENCODED_SIZE, 'little'))
    except ValueError:
        continue
    sys.exit(1)
'''
