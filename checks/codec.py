"""E01, E02, A01, A02, R01: value codecs, hex text, secondary addresses, re-encoding."""
import struct
from model import wire, record, texts
from model.record import Rec, Unjudged
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame, unhex

WS = b" \t\n\r\x0b\x0c"
HEXD = b"0123456789abcdefABCDEF"


def hs(b):
    return b.hex() if b else "-"


# ------------------------------------------------------------------------------------------ E01
def bcd_enc(v, n):
    s = str(abs(v)).rjust(2 * n, "0")
    b = bytearray(int(s[2 * i:2 * i + 2], 16) for i in range(n))[::-1]
    if v < 0:
        b[-1] |= 0xF0
    return bytes(b)


def rand_range(rng, lo, hi):
    k = rng.random()
    if k < 0.25:
        return max(lo, min(hi, rng.choice([lo, hi, lo + 1, hi - 1, 0, -1, 1])))
    if k < 0.6:
        v = rng.getrandbits(rng.randrange(1, 64))
        v = v if rng.random() < 0.5 else -v
        return max(lo, min(hi, v))
    if k < 0.75:
        v = 10 ** rng.randrange(0, 19) + rng.choice([-1, 0, 1])
        v = v if rng.random() < 0.5 else -v
        return max(lo, min(hi, v))
    return rng.randint(lo, hi)


class E01(Check):
    pid = "E01"
    batch = 400
    quick_n = 4000
    thorough_n = 120000
    rule = ("a conversion counts by (codec, size, digit count, sign); judged: exact bytes of the encoders, exact values of the decoders, all 17576 "
            "manufacturer codes, all 1- and 2-byte integers and 1- and 2-byte BCD values")
    CODE = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"

    def gen(self, rng, n, shard, nsh, tier):
        # exhaustive parts
        for a in range(26):
            if a % nsh == shard:
                for b in range(26):
                    cs = [self.CODE[a] + self.CODE[b] + x for x in self.CODE]
                    yield Case("manid " + " ".join(x.encode().hex() for x in cs), {"k": "manid", "c": cs})
                    ids = [((ord(x[0]) - 64) << 10) | ((ord(x[1]) - 64) << 5) | (ord(x[2]) - 64) for x in cs]
                    yield Case("mand " + " ".join(struct.pack("<H", i).hex() for i in ids), {"k": "mand", "c": cs})
                    low = [x.lower() if b % 2 else x[0].lower() + x[1:] for x in cs]
                    yield Case("manid " + " ".join((x + rng.choice(["", "", "X", "12"])).encode().hex() for x in low), {"k": "manid", "c": [x.upper() for x in low], "low": 1})
        bad = [b"", b"A", b"AB", b"A1C", b"1BC", b"AB1", b"A C", b" AB", b"AB@", b"[BC", b"A`C", b"@@@", b"AB{", b"\xc4BC", b"A\xe4C", b"AB\xff", b"\x80\x80\x80", b"A-C", b"AB_"]
        yield Case("manid " + " ".join(hs(x) for x in bad), {"k": "manbad", "n": len(bad), "c": [x.hex() for x in bad]})
        for hi in range(256):
            if hi % nsh == shard:
                yield self.dec("id", [bytes([lo, hi]) for lo in range(256)])
                yield self.dec("id", [bytes([hi])])
                yield self.dec("bd", [bytes([lo, hi]) for lo in range(256) if lo >> 4 < 10 and lo & 15 < 10 and (hi >> 4 < 10 or hi >> 4 == 15) and hi & 15 < 10] or [b"\0"])
                yield self.enc("ie", 2, [struct.unpack("<h", bytes([lo, hi]))[0] for lo in range(256)])
        for a in range(-999, 10000, 250):
            if a // 250 % nsh == shard:
                yield self.enc("be", 2, [v for v in range(a, min(a + 250, 10000))])
        if shard == 0:
            yield self.enc("be", 1, list(range(-9, 100)))
            yield self.enc("ie", 1, list(range(-128, 128)))
        for _ in range(n):
            k = rng.randrange(6)
            m = rng.randrange(1, 20)
            if k == 0:
                size = rng.randrange(1, 9)
                lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if size < 4 else (-(1 << 31), (1 << 31) - 1)
                yield self.enc("ie", size, [rand_range(rng, lo, hi) for _ in range(m)])
            elif k == 1:
                size = rng.randrange(1, 9)
                lo, hi = max(-(1 << 31), -(10 ** (2 * size - 1) - 1)), min((1 << 31) - 1, 10 ** (2 * size) - 1)
                yield self.enc("be", size, [rand_range(rng, lo, hi) for _ in range(m)])
            elif k == 2:
                yield self.dec("id", [record.rand_int(rng, rng.randrange(1, 9)) for _ in range(m)])
            elif k == 3:
                yield self.dec("bd", [record.rand_bcd(rng, rng.randrange(1, 9)) for _ in range(m)])
            elif k == 4:
                b = record.rand_bytes(rng, rng.choice([0, 1, 2, 5, rng.randrange(0, 100)]))
                mx = rng.choice([rng.randrange(0, 40), 3 * len(b), 3 * len(b) + 1, 3 * len(b) - 1 if b else 0, 800])
                yield Case(f"bi {mx} {hs(b)}", {"k": "bi", "m": mx, "b": b.hex()})
            else:
                b = record.rand_text(rng, rng.choice([0, 1, 2, rng.randrange(0, 192)]))
                yield Case(f"sd {hs(b)}", {"k": "sd", "b": b.hex()})

    def enc(self, c, size, vals):
        return Case(f"{c} " + " ".join(f"{size} {v}" for v in vals), {"k": c, "n": size, "v": vals})

    def dec(self, c, bs):
        return Case(f"{c} " + " ".join(b.hex() for b in bs), {"k": c, "b": [b.hex() for b in bs]})

    def judge(self, c, o, st):
        o, x = o["o"], c.ctx
        k = x["k"]
        vs = []
        if k == "manid":
            for s, (i, r, e) in zip(x["c"], o):
                want = ((ord(s[0]) - 64) << 10) | ((ord(s[1]) - 64) << 5) | (ord(s[2]) - 64)
                st.inc("manufacturers")
                if i != want:
                    vs.append(Viol("manufacturer-id", f"mbus_manufacturer_id({s!r}) = {i:#x}, expected {want:#x}"))
                if r != 0 or bytes.fromhex(e or "") != struct.pack("<H", want):
                    vs.append(Viol("manufacturer-encode", f"manufacturer {s!r} encoded as {e}, expected {struct.pack('<H', want).hex()}"))
            return vs[:3]
        if k == "mand":
            for s, t in zip(x["c"], o):
                if unhex(t) != s.encode():
                    vs.append(Viol("manufacturer-decode", f"id of {s!r} decoded as {unhex(t)!r}"))
            return vs[:3]
        if k == "manbad":
            for b, (i, r, e) in zip(x["c"], o):
                if i != 0:
                    vs.append(Viol("manufacturer-bad", f"mbus_manufacturer_id({bytes.fromhex(b)!r}) = {i:#x}, expected 0"))
            return vs
        if k == "ie":
            for v, (r, e) in zip(x["v"], o):
                want = v.to_bytes(max(x["n"], 8), "little", signed=True)[:x["n"]]
                st.sig("ie", x["n"], v.bit_length(), v < 0)
                st.inc("encodings")
                if r != 0 or bytes.fromhex(e) != want:
                    vs.append(Viol(f"int-encode-{x['n']}", f"{v} in {x['n']} bytes encoded as {e}, expected {want.hex()}"))
            return vs[:3]
        if k == "be":
            for v, (r, e, d) in zip(x["v"], o):
                want = bcd_enc(v, x["n"])
                st.sig("be", x["n"], len(str(v)), v < 0)
                st.inc("encodings")
                if r != 0 or bytes.fromhex(e) != want:
                    vs.append(Viol(f"bcd-encode-{x['n']}", f"{v} in {x['n']} bytes encoded as {e}, expected {want.hex()}"))
                if d != v:
                    vs.append(Viol(f"bcd-roundtrip-{x['n']}", f"{v} in {x['n']} bytes decodes to {d}"))
            return vs[:3]
        if k == "id":
            for b, (r1, i, r2, l, r3, ll) in zip(x["b"], o):
                b = bytes.fromhex(b)
                v = int.from_bytes(b, "little", signed=True)
                st.sig("id", len(b), v.bit_length(), v < 0)
                st.inc("decodings")
                got = [("long", r2, l), ("long-long", r3, ll)] + ([("int", r1, i)] if len(b) <= 4 else [])
                for nm, r, g in got:
                    if r != 0 or g != v:
                        vs.append(Viol(f"{nm}-decode-{len(b)}", f"{b.hex()} decoded by the {nm} decoder as {g} (result {r}), expected {v}"))
            return vs[:3]
        if k == "bd":
            for b, (d, hx) in zip(x["b"], o):
                b = bytes.fromhex(b)
                v = record.bcd(b)
                st.sig("bd", len(b), len(str(v)), v is not None and v < 0)
                st.inc("decodings")
                if v is not None and d != v:
                    vs.append(Viol(f"bcd-decode-{len(b)}", f"BCD {b.hex()} decoded as {d}, expected {v}"))
                if hx != int.from_bytes(b, "little", signed=len(b) == 8):
                    vs.append(Viol(f"bcd-hex-{len(b)}", f"{b.hex()} decoded in hex as {hx}"))
            return vs[:3]
        if k == "bi":
            b, out = bytes.fromhex(x["b"]), unhex(o)
            full = b" ".join(b"%02X" % y for y in b[::-1])      # dumped from the most significant byte
            st.sig("bi", len(b), min(x["m"], 3 * len(b) + 2))
            st.inc("dumps")
            got = (out or b"").split(b"\0")[0].rstrip()
            if x["m"] > 3 * len(b) and got != full:
                return [Viol("bin-dump", f"dump of {b.hex()} with {x['m']} bytes of room is {got!r}")]
            if not full.startswith(got):
                return [Viol("bin-dump-prefix", f"dump of {b.hex()} with {x['m']} bytes of room is {got!r}")]
            return []
        b, out = bytes.fromhex(x["b"]), unhex(o)
        st.sig("sd", len(b))
        st.inc("texts")
        if out is None or out.split(b"\0")[0] != b[::-1].split(b"\0")[0]:
            return [Viol("str-decode", f"text {b.hex()} decoded as {o}")]
        return []


# ------------------------------------------------------------------------------------------ E02
def hex2bin(src, room):
    out, i = bytearray(), 0
    while i + 1 < len(src):
        if src[i] in WS:
            i += 1
            continue
        if src[i] not in HEXD or src[i + 1] not in HEXD or len(out) >= room:
            break
        out.append(int(src[i:i + 2], 16))
        i += 2
    return bytes(out)


class E02(Check):
    pid = "E02"
    batch = 3000
    quick_n = 20000
    thorough_n = 400000
    rule = ("a conversion counts by (room class, stop cause, byte count); judged: count and bytes against an independent converter in exactly sized "
            "heap buffers; all 65536 two-character texts are enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        for a in range(256):
            if a % nsh != shard:
                continue
            for b in range(256):
                yield self.case(bytes([a, b]), 4)
            for pre in (b"12", b"12 "):
                yield self.case(pre + bytes([a]), 4)
                yield self.case(pre + bytes([a]) + b"A", 4)
                yield self.case(pre + b"A" + bytes([a]) + b"34", 4)
        for _ in range(n):
            out = bytearray()
            for _ in range(rng.choice([0, 1, 2, 5, 20, rng.randrange(0, 300)])):
                k = rng.random()
                if k < 0.75:
                    out += rng.choice([b"%02x", b"%02X"]) % rng.getrandbits(8)
                elif k < 0.97:
                    out += bytes(rng.choice(WS) for _ in range(rng.randrange(1, 3)))
                elif k < 0.99:
                    out.append(rng.choice(b"0123abcDEFgxX+-,;:\0\xff\x85\xa0 "))
                else:
                    out += rng.choice([b"0x", b"-1", b"+1", b"1 ", b" 1", b"0X1", b"g0", b"0g"])
            full = hex2bin(out, 10 ** 6)
            yield self.case(bytes(out), rng.choice([0, 1, len(full), max(0, len(full) - 1), len(full) + 1, rng.randrange(0, 300)]))

    def case(self, s, room):
        return Case(f"h2b {room} {hs(s)}", {"s": s.hex(), "room": room})

    def judge(self, c, o, st):
        o = o["o"]
        s, room = bytes.fromhex(c.ctx["s"]), c.ctx["room"]
        want = hex2bin(s, room)
        st.inc("bytes_converted", len(want))
        st.sig(min(room, len(want) + 1), len(want), s[:2] if len(s) == 2 else len(s))
        if o["r"] != len(want) or bytes.fromhex(o["b"] or "") != want:
            return [Viol("hex2bin-room" if len(want) == room else "hex2bin", f"{s!r} into {room} bytes gives {o['r']} bytes {o['b']}, expected {len(want)} bytes {want.hex()}")]
        return []


# ------------------------------------------------------------------------------------------ A01
def is_sec(s):
    return len(s) == 16 and all(c in HEXD for c in s)


def select_frame(s):
    ident = bytes.fromhex(s[:8].decode())[::-1]
    return wire.long_(0x73, 0xFD, 0x52, ident + bytes.fromhex(s[8:].decode()))


def rand_sec(rng, hexid=0.2):
    k = rng.random()
    if k < hexid:
        ident = "%08X" % rng.getrandbits(32)
    else:
        ident = "".join(rng.choice("0123456789") for _ in range(8))
        if rng.random() < 0.6:
            j = rng.randrange(0, 9)
            ident = ident[:j] + "F" * (8 - j)
        if rng.random() < 0.3:
            l = list(ident)
            for _ in range(rng.randrange(1, 4)):
                l[rng.randrange(8)] = "F"
            ident = "".join(l)
    rest = "".join(rng.choice(["FF", "%02X" % rng.getrandbits(8)]) for _ in range(4))
    s = ident + rest
    k = rng.random()
    if k < 0.25:
        s = s.lower()
    elif k < 0.5:
        s = "".join(rng.choice([x.lower(), x]) for x in s)
    return s.encode()


class A01(Check):
    pid = "A01"
    batch = 400
    quick_n = 1500
    thorough_n = 30000
    rule = ("an address counts by (validity, wildcard positions, letter case); judged: verdict of the validator, and every byte of the packed select "
            "telegram; every single-character substitution at every position is enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        def cases(ss):
            ss = [s for s in ss if b"\0" not in s]
            yield Case("isec " + " ".join(map(hs, ss)), {"k": "is", "s": [s.hex() for s in ss]})
            yield Case("selp " + " ".join(map(hs, ss)), {"k": "sel", "s": [s.hex() for s in ss]})
        for pos in range(16):
            if pos % nsh == shard % 8:
                for base in (b"12345678A5110106", b"FFFFFFFFFFFFFFFF", rand_sec(rng)):
                    yield from cases([base[:pos] + bytes([c]) + base[pos + 1:] for c in range(1, 256)])
        yield from cases([rand_sec(rng)[:l] for l in range(0, 17)] + [rand_sec(rng) + b"0" * k for k in range(1, 6)] + [b"12345678A511010 ", b" 2345678A5110106", b"0x345678A5110106", b"+2345678A5110106"])
        for _ in range(n):
            ss = []
            for _ in range(12):
                s = rand_sec(rng)
                k = rng.random()
                if k < 0.1:
                    j = rng.randrange(16)
                    s = s[:j] + bytes([rng.randrange(1, 256)]) + s[j + 1:]
                elif k < 0.15:
                    s = s[:rng.randrange(17)]
                elif k < 0.2:
                    s = s + record.rand_text(rng, rng.randrange(1, 5), 0)
                ss.append(s)
            yield from cases(ss)
        yield Case(f"null", {"k": "null"})

    def judge(self, c, o, st):
        o = o["o"]
        if c.ctx["k"] == "null":
            return []
        vs = []
        for s, g in zip(c.ctx["s"], o):
            s = bytes.fromhex(s)
            ok = is_sec(s)
            st.inc("valid" if ok else "invalid")
            if c.ctx["k"] == "is":
                if bool(g) != ok:
                    vs.append(Viol("validity", f"mbus_is_secondary_address({s!r}) = {g}"))
                continue
            r, n, b = g
            st.sig(ok, [i for i, ch in enumerate(s[:8].upper()) if ch == 0x46] if ok else len(s), s.isupper())
            if not ok:
                if r == 0:
                    vs.append(Viol("select-accepts", f"select telegram built for invalid address {s!r}"))
                continue
            want = select_frame(s)
            if r != 0 or bytes.fromhex(b) != want:
                vs.append(Viol("select-bytes", f"select telegram for {s!r} is {b} (result {r}), expected {want.hex()}"))
        return vs[:3]


class A01Send(Check):
    """The send function puts that telegram, or nothing, on the wire."""
    pid = "A01"
    name = "on_the_wire"
    order = 1
    batch = 400
    quick_n = 600
    thorough_n = 15000
    rule = "as above through mbus_send_select_frame on a virtual TCP or serial handle"

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            s = rand_sec(rng)
            k = rng.random()
            if k < 0.15:
                j = rng.randrange(16)
                s = s[:j] + bytes([rng.randrange(1, 256)]) + s[j + 1:]
            elif k < 0.25:
                s = s[:rng.randrange(17)]
            elif k < 0.3:
                s = s + b"0"
            if b"\0" in s:
                continue
            yield Case(f"ses ctx {rng.choice(['tcp', 'ser'])} 10001 conn selsend {hs(s)} disc free", {"s": s.hex()})

    def judge(self, c, o, st):
        s = bytes.fromhex(c.ctx["s"])
        w = b"".join(bytes.fromhex(e[1]) for e in o["ev"] if e[0] == "w")
        r = next((e[2] for e in o["ev"] if e[0] == "ret" and e[1] == "selsend"), None)
        ok = is_sec(s)
        st.sig(ok, len(s), s[:8])
        st.inc("sends")
        if ok and (w != select_frame(s) or r != 0):
            return [Viol("send-bytes", f"select of {s!r} put {w.hex()} on the wire (result {r}), expected {select_frame(s).hex()}")]
        if not ok and (w or r == 0):
            return [Viol("send-accepts", f"select of invalid {s!r} put {w.hex()!r} on the wire, result {r}")]
        return []


# ------------------------------------------------------------------------------------------ A02
class A02(Check):
    pid = "A02"
    batch = 1500
    quick_n = 6000
    thorough_n = 100000
    rule = ("a reply counts by its identity bytes' class; judged: the reported address, and that a select telegram built from it carries exactly the "
            "identity bytes of the reply; non-variable or undecodable replies must give no address")

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(256):
            if i % nsh == shard:
                for j in range(8):
                    hd = bytearray(record.rand_header(rng))
                    hd[j] = i
                    yield self.case(rng, bytes(hd), "ok")
        for _ in range(n):
            k = rng.random()
            if k < 0.8:
                yield self.case(rng, record.rand_payload(rng, rng.choice([14, 40, 252]))[0], "ok")
            elif k < 0.85:
                yield self.case(rng, record.rand_bytes(rng, 16), "none", 0x73)
            elif k < 0.9:
                yield self.case(rng, record.rand_bytes(rng, rng.randrange(0, 12)), "none")
            elif k < 0.95:
                yield self.case(rng, record.rand_header(rng) + b"\x04\x13\x01\x02", "none")
            else:
                yield self.case(rng, record.rand_bytes(rng, rng.randrange(0, 30)), "none", rng.choice([0x70, 0x76, 0x51, 0x00, 0xFF]))

    def case(self, rng, p, kind, ci=0x72):
        f = frame(rng, p, ci)
        want = p[3::-1].hex().upper() + p[4:8].hex().upper()
        cmd = f"seq msg s {h(f)}"
        if kind == "ok":
            cmd += f" ;; selp {hs(want.encode())}"
        return Case(cmd, {"k": kind, "want": want, "p": p.hex()})

    def judge(self, c, o, st):
        o = o["o"]
        m = o[0]["o"]
        if m["r"] != 0:
            return [Viol("frame-refused", f"valid frame refused: {m['r']}")]
        sa = unhex(m["sa"])
        st.sig(c.ctx["k"], c.ctx["want"][:6])
        if c.ctx["k"] == "none":
            st.inc("no_address_expected")
            return [Viol("address-from-nothing", f"{sa!r} reported for a reply without a usable header")] if sa is not None else []
        st.inc("addresses")
        want = c.ctx["want"].encode()
        if sa is None or sa.upper() != want:
            return [Viol("address", f"header {c.ctx['p'][:16]} reported as {sa!r}, expected {want!r}")]
        r, n, b = o[1]["o"][0]
        b = bytes.fromhex(b)
        if r != 0 or b[7:15] != bytes.fromhex(c.ctx["p"])[:8]:
            return [Viol("select-mismatch", f"select built from {sa!r} carries {b.hex()}, the slave is {c.ctx['p'][:16]}")]
        return []


# ------------------------------------------------------------------------------------------ R01
class R01(Check):
    pid = "R01"
    batch = 800
    quick_n = 5000
    thorough_n = 100000
    rule = ("a telegram counts by the classes of its records; judged: re-packed payload segments into the same header and records; hand-built decoded "
            "data of every size around the frame's capacity must be packed exactly or refused")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            k = rng.random()
            if k < 0.7:
                p = record.rand_payload(rng, rng.choice([20, 60, 252, 252]))[0]
                yield Case(f"msg di {h(frame(rng, p))}", {"k": "var", "p": p.hex()})
            elif k < 0.8:
                p = record.rand_bytes(rng, 16)
                yield Case(f"msg di {h(frame(rng, p, 0x73))}", {"k": "fix", "p": p.hex()})
            elif k < 0.83:
                p = record.rand_bytes(rng, rng.randrange(0, 3))
                yield Case(f"msg di {h(frame(rng, p, 0x70))}", {"k": "err", "p": p.hex()})
            else:
                yield self.big(rng)

    def big(self, rng):
        hdr = record.rand_header(rng)
        specs, total = [], 12
        while total < 300:
            sp = rng.random() < 0.08
            cust = not sp and rng.random() < 0.3
            nd, nv = (0, 0) if sp else (rng.choice([0, 0, 1, 10]), rng.choice([0, 0, 1, 10]))
            cl = rng.choice([0, 1, 20, 127, 128]) if cust else 0
            dl = rng.choice([0, 1, 4, 8, rng.randrange(0, 100)]) if rng.random() < .9 else rng.randrange(0, 235)
            dif = rng.choice([0x0F, 0x1F]) if sp else 0x04 | (0x80 if nd else 0)
            vif = (0x7C if cust else 0x13) | (0x80 if nv else 0)
            size = 1 + dl + (0 if sp else 1 + nd + nv + (1 + cl if cust else 0))
            if rng.random() < 0.3:      # aim at the boundary
                want = 252 - total - (size - dl) + rng.choice([-1, 0, 1])
                if 0 <= want < 235:
                    size, dl = size - dl + want, want
            specs.append((dif, vif, nd, nv, cl, dl))
            total += size
            if rng.random() < 0.1:
                break
        return Case(f"ipk {h(hdr)} " + " ".join(":".join(map(str, s)) for s in specs), {"k": "big", "h": hdr.hex(), "s": specs, "t": total})

    def judge(self, c, o, st):
        o, x = o["o"], c.ctx
        if x["k"] == "big":
            out = bytearray(bytes.fromhex(x["h"]))
            for dif, vif, nd, nv, cl, dl in x["s"]:
                out.append(dif)
                if dif not in (0x0F, 0x1F):
                    out += bytes((0x80 if k + 1 < nd else 0) | (k & 15) for k in range(nd))
                    out.append(vif)
                    if vif & 0x7F == 0x7C:
                        out.append(cl)
                        out += bytes(97 + k % 26 for k in range(cl))[::-1]
                    out += bytes((0x80 if k + 1 < nv else 0) | (k & 15) for k in range(nv))
                out += bytes((k + 1) & 255 for k in range(dl))
            st.inc("hand_built_fits" if len(out) <= 252 else "hand_built_too_big")
            st.sig("big", min(len(out), 260), len(x["s"]))
            if len(out) > 252:
                return [Viol("overflow-accepted", f"{len(out)} bytes of records packed with result {o['r']}")] if o["r"] >= 0 else []
            if o["r"] != 0:
                return []        # refusing is allowed
            return [Viol("pack-bytes", f"packed {o['b']}, expected {out.hex()}")] if bytes.fromhex(o["b"]) != bytes(out) else []
        p = bytes.fromhex(x["p"])
        if o["r"] != 0:
            return [Viol("frame-refused", f"valid frame refused: {o['r']}")]
        d = o["dec"]
        if d["r"] != 0:
            st.inc("undecodable")
            return []
        ip = d["ip"]
        if ip["r"] != 0:
            st.inc("refused")
            return [Viol("pack-refused-" + x["k"], f"decoded telegram cannot be packed: {ip['r']}")] if x["k"] != "var" and ip["r"] > 0 else []
        q = unhex(ip["data"])
        if q is None:
            return [Viol("pack-size", f"packed size {ip['ds']} exceeds the frame")]
        st.inc("repacked_" + x["k"])
        if x["k"] == "fix":
            st.sig("fix", p[:2])
            return [Viol("fixed", f"fixed telegram {p.hex()} re-packed as {q.hex()}")] if q != p else []
        if x["k"] == "err":
            w = p[:1] or b"\0"
            return [Viol("error", f"error telegram {p.hex()} re-packed as {q.hex()}")] if q[:1] != w or len(q) != 1 else []
        a = record.split(p)
        try:
            b = record.split(q)
        except Unjudged:
            b = None
        if b is None:
            return [Viol("segments", f"re-packed payload does not decode: {q.hex()} from {p.hex()}")]

        def norm(recs):
            return [(r.dif, r.dife, r.vif, r.vife, r.custom_text(), r.data) for r in recs]
        st.sig("var", tuple((r.dif & 15, len(r.dife), len(r.vife), bool(r.cust)) for r in a[0][:3]), len(a[0]))
        if p[:12] != q[:12]:
            return [Viol("header", f"header {p[:12].hex()} re-packed as {q[:12].hex()}")]
        na, nb = norm(a[0]), norm(b[0])
        if na != nb or a[1] != b[1]:
            i = next((i for i, (u, v) in enumerate(zip(na, nb)) if u != v), min(len(na), len(nb)))
            return [Viol("records", f"record {i} of {p.hex()} re-packed differently: {q.hex()}")]
        return []

    def finish(self, s, tier):
        return [] if s.count.get("repacked_var", 0) > 1000 else ["too few telegrams re-packed"]
