"""Independent reference for the EN 13757-2 link layer: frame builders, verdicts, generators."""

SHORT_CTRL = (0x40, 0x5A, 0x5B, 0x7A, 0x7B)
LONG_CTRL = (0x53, 0x73, 0x08, 0x18, 0x28, 0x38)
M2S, S2M = 0x40, 0x00          # direction bit of the control field


def cs(b):
    return sum(b) & 0xFF


def ack():
    return bytes([0xE5])


def short(c, a):
    return bytes([0x10, c, a, cs([c, a]), 0x16])


def long_(c, a, ci, data=b""):
    b = bytes([c, a, ci]) + bytes(data)
    return bytes([0x68, len(b), len(b), 0x68]) + b + bytes([cs(b), 0x16])


def verdict(m):
    """('ok', fields) | ('more', minimal_possible_missing, wanted) | ('bad',) for a non-empty message.
    'more' only says that m is a proper prefix of at least one valid frame."""
    if not m:
        return ("empty",)
    if m[0] == 0xE5:
        return ("ok", dict(type=1, data=b"")) if len(m) == 1 else ("skip",)
    if m[0] == 0x10:
        full = 5
        ok_so_far = len(m) < 2 or m[1] in SHORT_CTRL
        if len(m) >= 4:
            ok_so_far = ok_so_far and m[3] == cs(m[1:3])
        if len(m) >= 5:
            ok_so_far = ok_so_far and m[4] == 0x16
        if len(m) > full:
            return ("bad",)
        if not ok_so_far:
            return ("bad",) if len(m) >= full else ("dead",)
        if len(m) < full:
            return ("more", full - len(m), full)
        return ("ok", dict(type=2, c=m[1], a=m[2], data=b""))
    if m[0] == 0x68:
        if len(m) < 3:
            if len(m) == 2 and m[1] < 3:
                return ("dead",)
            low = 9
            if len(m) == 2:
                low = m[1] + 6
            return ("more", low - len(m), None)
        if m[1] != m[2] or m[1] < 3:
            return ("bad",) if m[1] < 3 or m[1] != m[2] else ("dead",)
        full = m[1] + 6
        if len(m) > full:
            return ("bad",)
        ok = True
        if len(m) >= 4:
            ok = m[3] == 0x68
        if len(m) >= 5:
            ok = ok and m[4] in LONG_CTRL
        if len(m) >= full - 1:
            ok = ok and m[full - 2] == cs(m[4:full - 2])
        if len(m) < full:
            return ("more", full - len(m), full) if ok else ("dead",)
        ok = ok and m[full - 1] == 0x16
        if not ok:
            return ("bad",)
        data = m[7:full - 2]
        return ("ok", dict(type=4 if data else 3, c=m[4], a=m[5], ci=m[6], data=bytes(data)))
    return ("bad",)


def rand_frame(rng, data=None):
    """A random valid frame with arbitrary payload."""
    k = rng.random()
    if data is None and k < 0.05:
        return ack()
    if data is None and k < 0.2:
        return short(rng.choice(SHORT_CTRL), rng.randrange(256))
    c = rng.choice(LONG_CTRL)
    ci = rng.choice([0x72, 0x73, 0x76, 0x77, 0x51, 0x52, 0x50, 0x70, 0x71, 0x00, 0x7A, 0xB8, rng.randrange(256)])
    if data is None:
        if k < 0.3:
            data = b""
        else:
            n = rng.choice([1, 2, 3, rng.randrange(1, 253), rng.randrange(1, 60), 251, 252])
            data = bytes(rng.getrandbits(8) for _ in range(n))
    return long_(c, rng.randrange(256), ci, data)


def mutate(rng, m):
    """Small corruptions of a valid frame."""
    m = bytearray(m)
    k = rng.randrange(9)
    if k == 0 and m:
        i = rng.randrange(len(m)); m[i] ^= 1 << rng.randrange(8)
    elif k == 1 and m:
        m[rng.randrange(len(m))] = rng.randrange(256)
    elif k == 2 and m:
        del m[rng.randrange(len(m)):]
    elif k == 3:
        m += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 5)))
    elif k == 4 and len(m) > 6:
        i, j = rng.randrange(4, len(m)), rng.randrange(4, len(m)); m[i], m[j] = m[j], m[i]
    elif k == 5 and len(m) > 6 and m[0] == 0x68:
        m[rng.choice([1, 2])] = rng.randrange(256)
    elif k == 6 and len(m) > 6 and m[0] == 0x68:
        m[1] = m[2] = rng.choice([0, 1, 2, 3, m[1] - 1 & 255, m[1] + 1 & 255, 255])
    elif k == 7 and (len(m) > 6 or len(m) > 4 and m[0] == 0x10):              # compensating change: the checksum still fits
        i = rng.randrange(1 if m[0] == 0x10 else 4, len(m) - 2)
        d = rng.randrange(1, 256)
        m[i] = (m[i] + d) & 255
        m[-2] = (m[-2] + d) & 255
    elif k == 8 and len(m) > 1:
        m[rng.choice([0, -1, -2, min(3, len(m) - 1)])] = rng.choice([0x68, 0x16, 0x10, 0xE5, 0, 0xFF])
    return bytes(m)
