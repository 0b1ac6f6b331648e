ID='s21-duplicates'; PROP='C21'; FILE='poc/vdaf_poc/vdaf_poplar1.py'
EDITS=[('''        for i in range(1, len(prefixes)):
            if prefixes[i - 1] >= prefixes[i]:
                return False
''','''        if list(prefixes) != sorted(prefixes):
            return False
''')]
NEEDS='a candidate prefix that occurs twice'
WHAT='duplicate candidate prefixes are accepted'
DEMO='''
from vdaf_poc.vdaf_poplar1 import Poplar1
p = Poplar1(4)
sys.exit(0 if not p.is_valid((0, ((True,), (True,))), []) else 1)
'''
