ID='s14-nonce-length'; PROP='C14'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''        if len(nonce) != self.NONCE_SIZE:
            raise ValueError("incorrect nonce size")
        if len(rand) != self.RAND_SIZE:''', '''        if len(nonce) < self.NONCE_SIZE:
            raise ValueError("incorrect nonce size")
        if len(rand) != self.RAND_SIZE:''')]
NEEDS='a nonce longer than 16 bytes'
WHAT='an overlong nonce is accepted by sharding'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(2, 4, 2)
sys.exit(0 if refuses(v.shard, b'', 1, bytes(17), bytes(v.RAND_SIZE)) else 1)
'''
