ID='s29-shares-256'; PROP='C29'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''        if shares not in range(2, 256):
''', '''        if shares < 2 or shares > 256:
''')]
NEEDS='exactly 256 aggregators'
WHAT='an instance with 256 aggregators is accepted although identifiers are single bytes'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_prio3 import Prio3Count
sys.exit(0 if refuses(Prio3Count, 256) else 1)
'''
