ID='s27-public-share'; PROP='C27'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''            joint_rand_parts = list(joint_rand_parts)
''', '''''')]
NEEDS='a public share whose own part differs from the recomputed one'
WHAT='verify_init overwrites the public share of the caller'
DEMO='''
from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
pub, shares = v.shard(b'', 1, bytes(16), bytes(range(v.RAND_SIZE)))
pub[0] = bytes(32)
keep = list(pub)
v.verify_init(bytes(32), b'', 0, None, bytes(16), pub, shares[0])
sys.exit(0 if pub == keep else 1)
'''
