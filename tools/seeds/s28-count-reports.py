ID='s28-count-reports'; PROP='C28'; FILE='poc/vdaf_poc/vdaf.py'
EDITS=[('''    agg_shares = [vdaf.agg_init(agg_param)
                  for _ in range(vdaf.SHARES)]
    for measurement in measurements:''', '''    agg_shares = [vdaf.agg_init(agg_param)
                  for _ in range(vdaf.SHARES)]
    num_measurements = 0
    for num_measurements, measurement in enumerate(measurements):'''),
       ('''    num_measurements = len(measurements)
    agg_result = vdaf.unshard''', '''    agg_result = vdaf.unshard''')]
NEEDS='a VDAF whose unsharding uses the number of measurements'
WHAT='unsharding is told one report too few'
DEMO='''
from vdaf_poc.vdaf import run_vdaf
from vdaf_poc.vdaf_prio3 import Prio3Count


class Mean(Prio3Count):
    def unshard(self, agg_param, agg_shares, num_measurements):
        return super().unshard(agg_param, agg_shares, num_measurements), num_measurements


sys.exit(0 if run_vdaf(Mean(2), bytes(32), None, b'', [1, 0, 1]) == (2, 3) else 1)
'''
