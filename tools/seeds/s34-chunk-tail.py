ID='s34-chunk-tail'; PROP='C12'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''        while len(gadget_poly) < size:
            gadget_poly = lag.double_evaluations(gadget_poly)
''', '''        if len(gadget_poly) < size:
            gadget_poly = lag.double_evaluations(gadget_poly)
'''),
       ('''        n = next_power_of_2(len(gadget_poly))
        gadget_poly = list(gadget_poly)
''', '''        n = min(next_power_of_2(len(gadget_poly)), 4 * p)
        gadget_poly = list(gadget_poly)
''')]
NEEDS='a gadget of degree above four'
WHAT='the gadget polynomial is extended to too few values for gadgets of high degree'
DEMO='''
from vdaf_poc.flp_bbcggi19 import FlpBBCGGI19, PolyEval, Valid
from vdaf_poc.field import Field64 as F


class Fifth(Valid):
    field = F
    GADGETS = [PolyEval([0, -1, 0, 0, 0, 1], 7)]
    GADGET_CALLS = [7]
    MEAS_LEN = 7
    JOINT_RAND_LEN = 0
    OUTPUT_LEN = 7
    EVAL_OUTPUT_LEN = 7

    def encode(self, m):
        return [F(x) for x in m]

    def eval(self, meas, joint_rand, num_shares):
        return [self.GADGETS[0].eval(F, [x]) for x in meas]

    def truncate(self, meas):
        return meas

    def decode(self, out, n):
        return [x.int() for x in out]


f = FlpBBCGGI19(Fifth())
meas = f.encode([1, 0, 1, 1, 0, 0, 1])
proof = f.prove(meas, [F(17)], [])
try:
    ver = f.query(meas, proof, [F(3)] * 7 + [F(6)], [], 1)
except Exception:
    sys.exit(1)
sys.exit(0 if f.decide(ver) else 1)
'''
