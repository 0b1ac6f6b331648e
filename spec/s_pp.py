"""Contracts of vdaf_poc.vdaf_ping_pong: framing."""
from vdaf_poc.vdaf_ping_pong import decode as r_decode
from vdaf_poc.vdaf_ping_pong import encode as r_encode
from vlib import reject


def run_encode1(t, a):
    return r_encode(t, a)


def run_encode2(t, a, b):
    return r_encode(t, a, b)


def frame(item):
    n = len(item)
    if n >= 2 ** 32:
        reject()
    return n.to_bytes(4, 'big') + item


def encode1(t, a):
    if t < 0 or t >= 256:
        reject()
    return bytes([t]) + frame(a)


def encode2(t, a, b):
    if t < 0 or t >= 256:
        reject()
    return bytes([t]) + frame(a) + frame(b)


def decode(m):
    n = len(m)
    if n < 5 or m[0] > 2:
        reject()
    t = m[0]
    l1 = int.from_bytes(m[1:5], 'big')
    if n < 5 + l1:
        reject()
    a = m[5:5 + l1]
    if t != 1:
        if n != 5 + l1:
            reject()
        return (t, [a])
    if n < 9 + l1:
        reject()
    l2 = int.from_bytes(m[5 + l1:9 + l1], 'big')
    if n != 9 + l1 + l2:
        reject()
    return (t, [a, m[9 + l1:]])


def roundtrip1(t, a):
    return r_decode(r_encode(t, a)) == (t, [a])


def roundtrip2(a, b):
    return r_decode(r_encode(1, a, b)) == (1, [a, b])


def canonical(m):
    try:
        (t, items) = r_decode(m)
    except Exception:
        return True
    if t == 1:
        return len(items) == 2 and r_encode(t, items[0], items[1]) == m
    return (t == 0 or t == 2) and len(items) == 1 and r_encode(t, items[0]) == m


def fits1(t, a):
    return len(a) < 2 ** 32


def fits2(a, b):
    return len(a) < 2 ** 32 and len(b) < 2 ** 32
