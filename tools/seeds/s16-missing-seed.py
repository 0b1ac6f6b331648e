ID='s16-missing-seed'; PROP='C16'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''        if joint_rand_seed != corrected_joint_rand_seed:
''', '''        if joint_rand_seed is not None and \\
                joint_rand_seed != corrected_joint_rand_seed:
''')]
NEEDS='a missing verifier message where joint randomness is used'
WHAT='the output share is released although the joint randomness seed was never compared'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
pub, shares = v.shard(b'', 1, bytes(16), bytes(range(v.RAND_SIZE)))
st, _ = v.verify_init(bytes(32), b'', 0, None, bytes(16), pub, shares[0])
sys.exit(0 if refuses(v.verify_next, b'', st, None) else 1)
'''
