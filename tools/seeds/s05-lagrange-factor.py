ID='s05-lagrange-factor'; PROP='C05'; FILE='poc/vdaf_poc/field.py'
EDITS=[('''factor = self.field(-1)**(n-1) * self.field(n).inv()''', '''factor = -self.field(n).inv()''')]
NEEDS='a polynomial given by a single value (n = 1)'
WHAT='evaluation in the Lagrange basis returns the negated constant for constant polynomials'
DEMO='''
from vdaf_poc.field import Field64, Lagrange
r = Lagrange(Field64).poly_eval([Field64(7)], Field64(3))
sys.exit(0 if r == Field64(7) else 1)
'''
