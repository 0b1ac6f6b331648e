ID='s15-helper-id'; PROP='C15'; FILE='poc/vdaf_poc/vdaf_prio3.py'
EDITS=[('''                self.helper_proofs_share(
                    ctx,
                    j + 1,
                    helper_shares[j],
                ),
            )

        # Each Aggregator's input share contains its measurement share,
        # share of proof(s), and blind. The public''', '''                self.helper_proofs_share(
                    ctx,
                    j % 127 + 1,
                    helper_shares[j],
                ),
            )

        # Each Aggregator's input share contains its measurement share,
        # share of proof(s), and blind. The public''')]
NEEDS='an instance with joint randomness and more than 128 aggregators'
WHAT='proof shares of the helpers from number 128 on are derived with another identifier than at verification, so honest reports are refused'
DEMO='''
from vdaf_poc.vdaf_prio3 import Prio3Histogram
v = Prio3Histogram(130, 1, 1)
nonce = bytes(16)
pub, shares = v.shard(b'', 0, nonce, bytes(i % 251 for i in range(v.RAND_SIZE)))
st = [v.verify_init(bytes(32), b'', j, None, nonce, pub, shares[j]) for j in range(130)]
try:
    v.verifier_shares_to_message(b'', None, [x[1] for x in st])
except ValueError:
    sys.exit(1)
'''
