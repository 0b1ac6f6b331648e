ID='s30-ceil-calls'; PROP='C29'; FILE='poc/vdaf_poc/flp_bbcggi19.py'
EDITS=[('''        self.GADGET_CALLS = [
            (length + chunk_length - 1) // chunk_length]
''', '''        self.GADGET_CALLS = [int(length / chunk_length + 0.5)
                             if length % chunk_length == 0
                             else int(length / chunk_length) + 1]
''')]
NEEDS='a histogram length above 2^53'
WHAT='the number of gadget calls is computed in floating point'
DEMO='''
from vdaf_poc.flp_bbcggi19 import Histogram
from vdaf_poc.field import Field128
sys.exit(0 if Histogram(Field128, 2 ** 53 + 1, 1).GADGET_CALLS == [2 ** 53 + 1] else 1)
'''
