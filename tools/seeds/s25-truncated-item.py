ID='s25-truncated-item'; PROP='C25'; FILE='poc/vdaf_poc/vdaf_ping_pong.py'
EDITS=[('''        (item, encoded) = front(item_len, encoded)
''', '''        (item, encoded) = encoded[:item_len], encoded[item_len:]
''')]
NEEDS='a message whose last item is shorter than announced'
WHAT='a truncated message decodes'
DEMO='''
def refuses(f, *a):
    try:
        f(*a)
    except Exception:
        return True
    return False

from vdaf_poc.vdaf_ping_pong import decode
sys.exit(0 if refuses(decode, bytes([0, 0, 0, 0, 5]) + b'abc') else 1)
'''
