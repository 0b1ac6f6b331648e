ID='s23-helper-trailing'; PROP='C23'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''            input_share = (meas, proofs, blind)
        else:''', '''            input_share = (meas, proofs, blind)
            if len(encoded) != 0:
                raise ValueError("input share is too long")
        else:'''),
       ('''            input_share = (share, blind)
        if len(encoded) != 0:
            raise ValueError("input share is too long")
''', '''            input_share = (share, blind)
''')]
NEEDS='a helper input share followed by extra bytes'
WHAT='trailing bytes after a helper share are ignored'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_prio3 import Prio3Count
v = Prio3Count(2)
sys.exit(0 if refuses(v.decode_input_share, 1, bytes(33)) else 1)
'''
