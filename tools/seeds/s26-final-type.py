ID='s26-final-type'; PROP='C26'; FILE='poc/vdaf_poc/vdaf_ping_pong.py'
EDITS=[('''            elif verify_round+1 == self.ROUNDS and \\
                    inbound_type == 2:  # finish
''', '''            elif verify_round+1 == self.ROUNDS:  # finish
''')]
NEEDS='a continue message in the last round'
WHAT='an output share is released upon a message of the wrong type'
DEMO='''
from vdaf_poc.vdaf_ping_pong import PingPong, Rejected, encode, decode
from vdaf_poc.vdaf_prio3 import Prio3Count


class P(Prio3Count, PingPong):
    pass


v = P(2)
n, k = bytes(16), bytes(32)
pub, shares = v.shard(b'', 1, n, bytes(range(v.RAND_SIZE)))
pub = v.encode_public_share(pub)
enc = [v.encode_input_share(s) for s in shares]
st = v.ping_pong_leader_init(k, b'', b'', n, pub, enc[0])
h = v.ping_pong_helper_init(k, b'', b'', n, pub, enc[1], st.outbound)
bad = encode(1, decode(h.outbound)[1][0], b'extra')
sys.exit(0 if isinstance(v.ping_pong_leader_continued(b'', b'', st, bad), Rejected) else 1)
'''
