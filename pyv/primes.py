"""Pratt certificates: primality of the field moduli, checked at import."""
CERT = {103: (5, [2, 3, 17]),
 107: (2, [2, 53]),
 127: (3, [2, 3, 7]),
 131: (2, [2, 5, 13]),
 151: (6, [2, 3, 5]),
 173: (2, [2, 43]),
 223: (3, [2, 3, 37]),
 239: (7, [2, 7, 17]),
 257: (3, [2]),
 349: (2, [2, 3, 29]),
 353: (3, [2, 11]),
 419: (2, [2, 11, 19]),
 479: (13, [2, 239]),
 487: (3, [2, 3]),
 991: (6, [2, 3, 5, 11]),
 1013: (3, [2, 11, 23]),
 1723: (3, [2, 3, 7, 41]),
 2027: (2, [2, 1013]),
 2437: (2, [2, 3, 7, 29]),
 3491: (2, [2, 5, 349]),
 3727: (3, [2, 3, 23]),
 4153: (5, [2, 3, 173]),
 5407: (3, [2, 3, 17, 53]),
 9463: (3, [2, 3, 19, 83]),
 32443: (2, [2, 3, 5407]),
 32573: (2, [2, 17, 479]),
 37853: (2, [2, 9463]),
 57467: (2, [2, 59, 487]),
 65147: (2, [2, 32573]),
 65537: (3, [2]),
 72973: (2, [2, 3, 2027]),
 75707: (2, [2, 37853]),
 132049: (26, [2, 3, 7, 131]),
 430751: (17, [2, 5, 1723]),
 569003: (2, [2, 7, 97, 419]),
 1923133: (2, [2, 3, 43, 3727]),
 8574133: (2, [2, 3, 7, 103, 991]),
 125714447: (5, [2, 11, 13, 41, 71, 151]),
 2773320623: (5, [2, 2437, 569003]),
 72106336199: (7, [2, 13, 2773320623]),
 440340496364689: (11, [2, 3, 72973, 125714447]),
 1919519569386763: (2, [2, 3, 7, 19, 47, 127, 8574133]),
 31757755568855353: (10, [2, 3, 31, 107, 223, 4153, 430751]),
 18446744069414584321: (7, [2, 3, 5, 17, 257, 65537]),
 79228148845226978974766202881: (3, [2, 5, 11, 29, 83, 32443]),
 75445702479781427272750846543864801: (7, [2, 3, 5, 75707, 72106336199, 1919519569386763]),
 340282366920938462946865773367900766209: (7, [2, 3, 3491, 440340496364689]),
 74058212732561358302231226437062788676166966415465897661863160754340907: (2,
                                                                           [2,
                                                                            3,
                                                                            353,
                                                                            57467,
                                                                            132049,
                                                                            1923133,
                                                                            31757755568855353,
                                                                            75445702479781427272750846543864801]),
 57896044618658097711785492504343953926634992332820282019728792003956564819949: (2,
                                                                                 [2,
                                                                                  3,
                                                                                  65147,
                                                                                  74058212732561358302231226437062788676166966415465897661863160754340907])}


def is_prime(p):
    """Primality by trial division (small) or by checking the certificate."""
    if p < 100:
        return p > 1 and all(p % q for q in range(2, p))
    if p not in CERT:
        return False
    g, fs = CERT[p]
    n = p - 1
    for q in fs:
        if not is_prime(q) or n % q:
            return False
        while n % q == 0:
            n //= q
    return n == 1 and pow(g, p - 1, p) == 1 and all(pow(g, (p - 1) // q, p) != 1 for q in fs)


PRIMES = {p for p in CERT if is_prime(p)}
