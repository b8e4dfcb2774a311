"""Independent reference for EN 13757-3 variable data: segmentation, values, generators."""
import struct

LEN = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 4, 6: 6, 7: 8, 8: 0, 9: 1, 0xA: 2, 0xB: 3, 0xC: 4, 0xE: 6}
FUNC = {0: "Instantaneous value", 1: "Maximum value", 2: "Minimum value", 3: "Value during error state"}


class Rec:
    __slots__ = ("dif", "dife", "vif", "vife", "cust", "data")

    def __init__(s, dif, dife=b"", vif=0, vife=b"", cust=b"", data=b""):
        s.dif, s.dife, s.vif, s.vife, s.cust, s.data = dif, bytes(dife), vif, bytes(vife), bytes(cust), bytes(data)

    @property
    def special(s):
        return s.dif in (0x0F, 0x1F)

    def encode(s):
        o = bytes([s.dif]) + s.dife
        if s.special:
            return bytes([s.dif]) + s.data
        o += bytes([s.vif])
        if s.vif & 0x7F == 0x7C:
            o += bytes([len(s.cust)]) + s.cust[::-1]
        return o + s.vife + s.data

    def custom_text(s):
        return s.cust.split(b"\0")[0]


class Unjudged(Exception):
    pass


def lvar_len(n):
    if n <= 0xBF:
        return n
    if 0xC0 <= n <= 0xC9:
        return n - 0xC0
    if 0xD0 <= n <= 0xD9:
        return n - 0xD0
    if 0xE0 <= n <= 0xEF:
        return n - 0xE0
    if 0xF0 <= n <= 0xF4:
        return (n - 0xEC) * 4
    if n == 0xF5:
        return 48
    if n == 0xF6:
        return 64
    raise Unjudged("reserved LVAR")


def split(p):
    """p: the frame's user data (with its 12 byte header).  -> (records, more) or None if it must be refused."""
    if len(p) < 12:
        return None
    i, recs, more = 12, [], False
    n = len(p)
    while i < n:
        if p[i] == 0x2F:
            i += 1
            continue
        dif = p[i]
        if dif in (0x0F, 0x1F):
            more = more or dif == 0x1F
            recs.append(Rec(dif, data=p[i + 1:]))
            return recs, more
        if dif & 0x0F == 0x0F:
            raise Unjudged("special DIF")
        dife = bytearray()
        while p[i] & 0x80:
            if len(dife) == 10:
                return None
            if i + 1 >= n:
                return None
            i += 1
            dife.append(p[i])
        i += 1
        if i >= n:
            return None
        vif = p[i]
        i += 1
        cust = b""
        if vif & 0x7F == 0x7C:
            if i >= n:
                return None
            l = p[i]
            i += 1
            if l > 128:               # documented limit of the custom unit text
                return None
            if i + l > n:
                return None
            cust = bytes(p[i:i + l][::-1])
            i += l
        vife = bytearray()
        if vif & 0x80:
            while True:
                if len(vife) == 10:
                    return None
                if i >= n:
                    return None
                vife.append(p[i])
                i += 1
                if not vife[-1] & 0x80:
                    break
        if dif & 0x0F == 0x0D:
            if i >= n:
                return None
            dl = 1 + lvar_len(p[i])
        else:
            dl = LEN[dif & 0x0F]
        if i + dl > n:
            return None
        recs.append(Rec(dif, dife, vif, vife, cust, p[i:i + dl]))
        i += dl
    return recs, more


# ---------------------------------------------------------------- record attributes
def storage(r):
    v, s = r.dif >> 6 & 1, 1
    for d in r.dife:
        v |= (d & 0x0F) << s
        s += 4
    return v


def tariff(r):
    if not r.dife:
        return -1
    v = 0
    for k, d in enumerate(r.dife):
        v |= (d >> 4 & 3) << (2 * k)
    return v


def device(r):
    if not r.dife:
        return -1
    v = 0
    for k, d in enumerate(r.dife):
        v |= (d >> 6 & 1) << k
    return v


def function(r):
    return FUNC[r.dif >> 4 & 3]


def le_signed(b):
    return int.from_bytes(b, "little", signed=True)


def bcd(b):
    """Decimal value of a BCD field or None when a digit is not decimal (other than the sign nibble)."""
    digs = []
    for x in reversed(b):
        digs += [x >> 4, x & 15]
    neg = digs and digs[0] == 15
    if neg:
        digs = digs[1:]
    if any(d > 9 for d in digs):
        return None
    v = int("".join(map(str, digs)) or "0")
    return -v if neg else v


def is_date(r):
    """None, 'G' (2 byte), 'F' (4 byte) or 'I' (6 byte)."""
    n = r.dif & 15
    if n == 2 and r.vif & 0x7F == 0x6C:
        return "G"
    dt = r.vif & 0x7F == 0x6D or (r.vif == 0xFD and r.vife[:1] and r.vife[0] & 0x7F in (0x30, 0x70))
    if dt and n == 4:
        return "F"
    if dt and n == 6:
        return "I"
    return None


def date_text(kind, b):
    """The encoded instant as text, or None when the fields are not a valid instant (not judged)."""
    if kind == "G":
        d, m, y = b[0] & 31, b[1] & 15, (b[0] >> 5) | (b[1] >> 4 << 3)
        if not (1 <= d <= 31 and 1 <= m <= 12 and y <= 99):
            return None
        return "%04d-%02d-%02d" % (2000 + y, m, d)
    if kind == "F":
        mi, h, d, m = b[0] & 63, b[1] & 31, b[2] & 31, b[3] & 15
        y = (b[2] >> 5) | (b[3] >> 4 << 3)
        hy = b[1] >> 5 & 3
        if b[0] & 0x80 or mi > 59 or h > 23 or not 1 <= d <= 31 or not 1 <= m <= 12 or y > 99:
            return None
        if hy == 0 and y <= 80:
            hy = 1
        return "%04d-%02d-%02dT%02d:%02d:%02d" % (1900 + 100 * hy + y, m, d, h, mi, 0)
    s, mi, h, d, m = b[0] & 63, b[1] & 63, b[2] & 31, b[3] & 31, b[4] & 15
    y = (b[3] >> 5) | (b[4] >> 4 << 3)
    if b[1] & 0x80 or s > 59 or mi > 59 or h > 23 or not 1 <= d <= 31 or not 1 <= m <= 12 or y > 99:
        return None
    return "%04d-%02d-%02dT%02d:%02d:%02d" % (2000 + y, m, d, h, mi, s)


def dump(b):
    return " ".join("%02X" % x for x in b)


def cstr(b):
    return bytes(b).split(b"\0")[0]


def value(r):
    """('int', n) | ('hexbcd', text) | ('real', float) | ('date', text) | ('text', bytes) | ('bin', text) | ('none',) | None"""
    n = r.dif & 15
    if r.special:                        # no number: in the order of transmission
        return ("bin", dump(r.data))
    if n == 0:
        return ("none",)
    k = is_date(r)
    if k:
        t = date_text(k, r.data)
        return ("date", t) if t else None
    if n in (1, 2, 3, 4, 6, 7):
        return ("int", le_signed(r.data))
    if n == 5:
        return ("real", struct.unpack("<f", r.data)[0])
    if n in (9, 0xA, 0xB, 0xC, 0xE):
        v = bcd(r.data)
        if r.dif & 0x30 == 0x30:
            return ("hexbcd", "%X" % int.from_bytes(r.data, "little"), v)
        return ("int", v) if v is not None else None
    if n == 0xD:
        if r.data[0] <= 0xBF:
            return ("text", cstr(r.data[:0:-1]))
        return ("bin", dump(r.data[:0:-1]))
    return None


# ---------------------------------------------------------------- generators
GOOD_VIF = list(range(0x00, 0x7B)) + [0x7E, 0x7F]
ASCII = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .,:;-_/()"


def rand_bytes(rng, n):
    return bytes(rng.getrandbits(8) for _ in range(n))


def rand_text(rng, n, nasty=0.3):
    if rng.random() < nasty:
        return bytes(rng.choice(b"<>&\"'%\\\x01\x09\x0a\x1f\x7f\x80\xe4\xff az]!-") for _ in range(n))
    return bytes(rng.choice(ASCII) for _ in range(n))


def rand_bcd(rng, n):
    b = bytearray(rng.randrange(10) | rng.randrange(10) << 4 for _ in range(n))
    if n and rng.random() < 0.2:
        b[-1] |= 0xF0
    if rng.random() < 0.1:
        b = bytearray(rng.choice([0x00, 0x99]) for _ in range(n))
    return bytes(b)


def rand_date(rng, kind):
    y, m, d = rng.randrange(100), rng.randrange(1, 13), rng.randrange(1, 32)
    h, mi, s = rng.randrange(24), rng.randrange(60), rng.randrange(60)
    if kind == "G":
        return bytes([d | (y & 7) << 5, m | (y >> 3) << 4])
    if kind == "F":
        return bytes([mi, h | rng.randrange(4) << 5, d | (y & 7) << 5, m | (y >> 3) << 4])
    return bytes([s, mi, h, d | (y & 7) << 5, m | (y >> 3) << 4, 0])


def rand_int(rng, n):
    k = rng.random()
    if k < 0.3:
        v = rng.choice([0, 1, -1, (1 << (8 * n - 1)) - 1, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 2, 1 - (1 << (8 * n - 1))])
        return v.to_bytes(n, "little", signed=True)
    if k < 0.5:
        b = bytearray(n)
        b[rng.randrange(n)] = rng.choice([1, 0x7F, 0x80, 0xFF])
        return bytes(b)
    return rand_bytes(rng, n)


def rand_rec(rng, low=None, vif=None, maxlen=200, ndife=None, nvife=None, text_nasty=0.3):
    """A random well-formed ordinary record."""
    if low is None:
        low = rng.choice([0, 1, 2, 3, 4, 4, 5, 6, 7, 9, 0xA, 0xB, 0xC, 0xC, 0xD, 0xD, 0xE, 8])
    if ndife is None:
        ndife = rng.choice([0, 0, 0, 0, 1, 1, 2, 3, rng.randrange(0, 11)])
    dif = low | rng.choice([0, 0x10, 0x20, 0x30, 0]) | rng.choice([0, 0x40]) | (0x80 if ndife else 0)
    dife = bytearray(rng.choice([rng.getrandbits(8), 0, 0x7F]) & 0x7F for _ in range(ndife))
    for k in range(ndife - 1):
        dife[k] |= 0x80
    cust = b""
    if vif is None:
        k = rng.random()
        if low == 2 and k < 0.4:
            vif = 0x6C
        elif low in (4, 6) and k < 0.4:
            vif = rng.choice([0x6D, 0x6D, 0xFD])
        elif k < 0.12:
            vif = 0x7C
        else:
            vif = rng.choice(GOOD_VIF)
        if nvife is None and vif not in (0xFD,):
            nvife = rng.choice([0, 0, 0, 1, 1, 2, rng.randrange(0, 11)])
            if rng.random() < 0.2:
                vif = rng.choice([0x7B, 0x7D])
                nvife = max(1, nvife)
        if vif == 0xFD:
            nvife = max(1, nvife or 1)
    if nvife is None:
        nvife = 1 if vif & 0x80 else 0
    vif = (vif & 0x7F) | (0x80 if nvife else 0)
    vife = bytearray(rng.choice([rng.getrandbits(8), rng.randrange(0x70, 0x7F), rng.randrange(0, 0x80)]) & 0x7F for _ in range(nvife))
    if vif == 0xFD and low in (4, 6) and rng.random() < 0.7:
        vife[0] = rng.choice([0x30, 0x70])
    for k in range(nvife - 1):
        vife[k] |= 0x80
    if vif & 0x7F == 0x7C:
        cust = rand_text(rng, rng.choice([0, 1, 3, 10, rng.randrange(0, 128), 127, 128]) if maxlen > 140 else rng.randrange(0, 10), text_nasty)
    r = Rec(dif, dife, vif, vife, cust)
    if low == 0xD:
        room = max(1, min(maxlen - len(r.encode()) - 1, 191))
        k = rng.random()
        if k < 0.6:
            n = min(room, rng.choice([0, 1, 2, 5, 16, rng.randrange(0, 192), 191]))
            r.data = bytes([n]) + rand_text(rng, n, text_nasty)
        else:
            for _ in range(20):
                lv = rng.choice([rng.randrange(0xC0, 0xCA), rng.randrange(0xD0, 0xDA), rng.randrange(0xE0, 0xF0), rng.randrange(0xF0, 0xF7)])
                if lvar_len(lv) <= room:
                    break
            else:
                lv = 0xE0
            r.data = bytes([lv]) + rand_bytes(rng, lvar_len(lv))
    elif low == 5:
        k = rng.random()
        f = rng.choice([0.0, -0.0, 1.0, -1.5, 3.4028234e38, 1e-38, 1e-45, 123456.789, rng.uniform(-1e6, 1e6), rng.uniform(-1, 1)])
        r.data = struct.pack("<f", f) if k < 0.7 else struct.pack("<I", rng.getrandbits(32) & 0xBFFFFFFF)
    elif low in (9, 0xA, 0xB, 0xC, 0xE):
        r.data = rand_bcd(rng, LEN[low]) if rng.random() < 0.9 else rand_bytes(rng, LEN[low])
    else:
        n = LEN[low]
        kd = is_date(r)
        r.data = rand_date(rng, kd) if kd and rng.random() < 0.9 else (rand_int(rng, n) if n else b"")
    return r


def rand_header(rng):
    k = rng.random()
    ident = bytes(rng.randrange(10) | rng.randrange(10) << 4 for _ in range(4)) if k < 0.8 else rand_bytes(rng, 4)
    man = rng.randrange(26 ** 3)
    a, b, c = man // 676 + 1, man // 26 % 26 + 1, man % 26 + 1
    m = (a << 10) | (b << 5) | c if k < 0.9 else rng.getrandbits(16)
    return ident + bytes([m & 255, m >> 8, rng.choice([rng.getrandbits(8), rng.getrandbits(5)]), rng.choice([rng.getrandbits(8), rng.randrange(0x26)]),
                          rng.getrandbits(8), rng.getrandbits(8), rng.choice([0, rng.getrandbits(8)]), rng.choice([0, rng.getrandbits(8)])])


def rand_payload(rng, maxlen=252, nrec=None, tail=None, hdr=None, **kw):
    """Header + records + optional special tail, as (payload, records)."""
    p = bytearray(hdr if hdr is not None else rand_header(rng))
    recs = []
    want = nrec if nrec is not None else rng.choice([0, 1, 2, 3, 4, 6, 10, 100])
    for _ in range(want):
        while rng.random() < 0.08 and len(p) < maxlen:
            p.append(0x2F)
        room = maxlen - len(p)
        if room < 3:
            break
        r = None
        for _ in range(8):
            r = rand_rec(rng, maxlen=room - 2, **kw)
            if len(r.encode()) <= room:
                break
        else:
            break
        p += r.encode()
        recs.append(r)
    if tail is None:
        tail = rng.choice([None, None, None, 0x0F, 0x1F])
    if tail and len(p) < maxlen:
        room = maxlen - len(p) - 1
        n = rng.choice([0, 1, 2, rng.randrange(0, room + 1), room])
        n = min(n, room)
        r = Rec(tail, data=rand_bytes(rng, n))
        p += r.encode()
        recs.append(r)
    while rng.random() < 0.1 and len(p) < maxlen and not (recs and recs[-1].special):
        p.append(0x2F)
    return bytes(p), recs
