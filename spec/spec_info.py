"""Assumptions left unchecked, reported in the evidence."""
ASSUME = {
    '*': [
        'Python ints are mathematical integers (they are in CPython); no machine arithmetic is idealised',
    ],
    'C01': ["Fermat's little theorem for the field primes; primality itself is checked from Pratt certificates in pyv/primes.py"],
}

NOTES = {}
NOT_APPLICABLE = {}
