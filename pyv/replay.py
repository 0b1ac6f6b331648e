"""Re-run the input recorded in a replay file: python3-vt -m pyv.replay FILE"""
import base64
import json
import os
import pickle
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyv import unit as U   # noqa: E402

if __name__ == '__main__':
    U.native_setup()
    import all_units   # noqa
    d = json.load(open(sys.argv[1]))
    v = d['first']
    print('unit:', v['unit'], '| recorded:', v['msg'])
    if not v.get('pick'):
        print('no input recorded')
        sys.exit(2)
    args = pickle.loads(base64.b64decode(v['pick']))
    print('input:', U.describe(args))
    r = U.run_native(U.BYNAME[v['unit']], args)
    print('now:', r or 'holds')
    sys.exit(1 if r and r != 'skip' else 0)
