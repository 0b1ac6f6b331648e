ID='s01-field-neg-bound'; PROP='C01'; FILE='poc/vdaf_poc/field.py'
EDITS=[("        assert val > -self.MODULUS\n","        assert val >= -self.MODULUS\n")]
NEEDS='constructing an element from exactly minus the modulus'
WHAT='the integer -p lies outside the open interval (-p, p) but is no longer refused'
DEMO='''
from vdaf_poc.field import Field64, Field255
for f in (Field64, Field255):
    try:
        f(-f.MODULUS)
    except AssertionError:
        continue
    sys.exit(1)
'''
