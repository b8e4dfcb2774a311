"""V01-V06: decoding of variable data, header and error telegrams."""
import math
import struct
from model import wire, record, texts
from model.record import Rec, Unjudged, cstr
from vlib.core import Check, Case, Viol
from checks.link import h

S2M_CTRL = (0x08, 0x18, 0x28, 0x38)


def frame(rng, payload, ci=0x72, c=None):
    return wire.long_(rng.choice(S2M_CTRL) if c is None else c, rng.randrange(256), ci, payload)


def unhex(s):
    return None if s is None else bytes.fromhex(s)


def val_class(v):
    if v is None:
        return "unjudged"
    return v[0]


class _Var(Check):
    batch = 300
    flags = "dan"

    def payload(self, rng):
        return record.rand_payload(rng, rng.choice([30, 80, 252, 252]))[0]

    def gen(self, rng, n, shard, nsh, tier):
        for p in self.systematic(rng, shard, nsh, tier):
            yield self.case(rng, p)
        for _ in range(n):
            yield self.case(rng, self.payload(rng))

    def systematic(self, rng, shard, nsh, tier):
        return []

    def case(self, rng, p):
        return Case(f"msg {self.flags} {h(frame(rng, p))}", {"p": bytes(p).hex()})

    def decoded(self, c, o):
        """(payload, model records, observed records, problem)"""
        p = bytes.fromhex(c.ctx["p"])
        o = o["o"]
        if o["r"] != 0:
            return p, None, None, Viol("frame-refused", f"valid frame refused: {o['r']}")
        return p, None, o["dec"], None


# ------------------------------------------------------------------------------------------ V01
class V01(_Var):
    pid = "V01"
    flags = "d"
    quick_n = 6000
    thorough_n = 150000
    rule = ("a payload counts by the tuple of (DIF, DIFE count, VIF class, VIFE count, data length) of its records and by the verdict; "
            "judged: verdict, record count and every byte of every record against an independent splitter")

    def systematic(self, rng, shard, nsh, tier):
        out, k = [], 0

        def put(b, tail=b""):
            nonlocal k
            k += 1
            if k % nsh == shard:
                out.append(record.rand_header(rng) + bytes(b) + bytes(tail))
        good = Rec(0x04, vif=0x13, data=b"\1\2\3\4").encode()
        for dif in range(256):
            if dif & 15 == 15 and dif not in (0x0F, 0x1F, 0x2F):
                for n in (0, 3, 8, 9, 14):
                    b = bytes([dif]) + (b"\x01" if dif & 0x80 else b"") + b"\x13" + record.rand_bytes(rng, n)
                    put(b)
                    put(good + b, good)
                continue
            for cut in range(0, 8):
                b = bytes([dif]) + (b"\x01" if dif & 0x80 else b"") + b"\x13" + record.rand_bytes(rng, 12)
                put(b[:cut])
                put(good + b[:cut + 2], b"" if cut % 2 else good)
        for nd in range(0, 13):
            for nv in range(0, 13):
                b = bytes([0x81 if nd else 1]) + bytes([0x80 | rng.getrandbits(4)] * (nd - 1) + [1] if nd else [])
                b += bytes([0x93 if nv else 0x13]) + bytes([0x80 | rng.getrandbits(6)] * (nv - 1) + [2] if nv else []) + b"\x55"
                put(b, good)
                for cut in range(1, len(b)):
                    put(b[:cut])
        for lv in range(256):
            for vif in (0x13, 0x78, 0xFD, 0x7C, 0xFC):
                b = bytes([0x0D, vif])
                if vif & 0x7F == 0x7C:
                    b += b"\x02ab"
                if vif & 0x80:
                    b += b"\x10"
                try:
                    n = record.lvar_len(lv)
                except Unjudged:
                    continue
                b += bytes([lv]) + record.rand_bytes(rng, n)
                if len(b) <= 240:
                    put(b, good if len(b) < 230 else b"")
                    put(b[:-1])
        for l in list(range(0, 140)) + [191, 192, 200, 255]:
            for vif in (0x7C, 0xFC):
                b = bytes([0x01, vif, l]) + record.rand_text(rng, l) + (b"\x70" if vif & 0x80 else b"") + b"\x07"
                if len(b) <= 240:
                    put(b)
                    put(b[:-1])
                    put(b[:rng.randrange(2, len(b))])
                    put(b, good if len(b) < 230 else b"")
        for n in range(0, 240):
            for d in (0x0F, 0x1F):
                put(bytes([d]) + record.rand_bytes(rng, n))
        for dif in range(0x80, 256):          # every extended DIF and VIF at the limits of the chains
            for nd in (1, 2, 9, 10, 11):
                b = bytes([dif]) + bytes(0x80 | rng.getrandbits(7) for _ in range(nd - 1)) + bytes([rng.getrandbits(7)])
                for v in (b"\x13", b"\x93" + bytes([0x80 | rng.getrandbits(7) for _ in range(9)]) + b"\x12"):
                    put(b + v + self.body(rng, dif), good)
        for vif in range(256):
            for nv in ((0,) if vif < 0x80 else (1, 2, 9, 10, 11)):
                b = bytes([0x02, vif]) + (b"\x03kWh" if vif & 0x7F == 0x7C else b"")
                if nv:
                    b += bytes(0x80 | rng.getrandbits(7) for _ in range(nv - 1)) + bytes([rng.getrandbits(7)])
                put(b + b"\x34\x12", good)
        for d in (0x0F, 0x1F, 0x04, 0x0D):     # contents that look like structure
            for x in ((0x2F,), (0x2F, 0x00), (0x0F,), (0x1F,), (0x0F, 0x1F, 0x2F), (0x00,), (0xFF,), (0x20, 0x2F), (0x68, 0x16, 0xE5)):
                for n in (1, 2, 3, 4, 5, 9, 40, 191):
                    t = bytes(rng.choice(x) for _ in range(n))
                    if d == 0x04:
                        b = good + bytes([d, 0x13]) + (t * 4)[:4]
                    elif d == 0x0D:
                        b = bytes([d, 0x13, n]) + t
                    else:
                        b = good + bytes([d]) + t
                    put(b)
                    put(b, good if len(b) < 200 else b"")
        for n in range(1, 6):
            put(b"\x2f" * n)
            put(b"\x2f" * n + good + b"\x2f" * n + good)
        return out

    def body(self, rng, dif):
        """Data bytes of the length that the DIF announces."""
        return b"\x03abc" if dif & 15 == 13 else record.rand_bytes(rng, record.LEN.get(dif & 15, 8))

    def payload(self, rng):
        p = record.rand_payload(rng, rng.choice([30, 80, 252, 252]))[0]
        k = rng.random()
        if k < 0.15:
            return p[:rng.randrange(1, len(p) + 1)]
        if k < 0.25:
            q = bytearray(p)
            q[rng.randrange(len(q))] = rng.getrandbits(8)
            return bytes(q)
        if k < 0.35:
            return p[:12] + record.rand_bytes(rng, rng.choice([rng.randrange(1, 20), 240]))
        if k < 0.45 and len(p) < 252:
            return p + record.rand_bytes(rng, 252 - len(p))
        if k < 0.55:
            # fill up to the very end of the frame so that a record is cut at the last byte
            q = bytearray(p[:12])
            while len(q) < 252:
                q += record.rand_rec(rng, maxlen=60).encode()
            return bytes(q[:252])
        return p

    def judge(self, c, o, st):
        p, _, d, bad = self.decoded(c, o)
        if bad:
            return [bad]
        try:
            m = record.split(p)
        except Unjudged:
            return self.tiles(p, d, st)
        if m is None:
            st.inc("must_refuse")
            st.sig("refuse", len(p), p[12:13])
            if d["r"] == 0:
                return [Viol("accepted-broken", f"payload with a broken record accepted, {len(d.get('recs', []))} records: {p.hex()}")]
            return []
        recs, more = m
        st.inc("must_accept")
        st.inc("records", len(recs))
        st.sig(tuple((r.dif, len(r.dife), r.vif, len(r.vife), len(r.data)) for r in recs[:6]))
        if d["r"] != 0:
            return [Viol("refused-good", f"well-formed payload refused ({d['r']}): {p.hex()}")]
        if len(d["recs"]) != len(recs) or d["nrec"] != len(recs):
            return [Viol("record-count", f"{len(d['recs'])} records (nrecords {d['nrec']}), the payload has {len(recs)}: {p.hex()}")]
        vs = []
        if bool(d["more"]) != more:
            vs.append(Viol("more-flag", f"more_records_follow {d['more']}, expected {more}: {p.hex()}"))
        for i, (r, g) in enumerate(zip(recs, d["recs"])):
            exp = [("dif", r.dif, g["dif"]), ("data", r.data.hex(), g["data"]), ("data_len", len(r.data), g["dl"])]
            if not r.special:
                exp += [("dife", r.dife.hex(), g["dife"]), ("ndife", len(r.dife), g["nd"]), ("vif", r.vif, g["vif"]),
                        ("vife", r.vife.hex(), g["vife"]), ("nvife", len(r.vife), g["nv"]),
                        ("custom", r.custom_text().hex() if r.vif & 0x7F == 0x7C else "", g["cust"])]
            for n, e, a in exp:
                if e != a:
                    vs.append(Viol("record-" + n, f"record {i}: {n} is {a}, payload says {e}: {p.hex()}"))
        return vs[:4]

    def tiles(self, p, d, st):
        """reserved codes: how much data they carry is open, but the records make up the payload, with nothing but fillers between them"""
        if d["r"] != 0:
            st.inc("unjudged")
            return []
        st.inc("reserved_codes")
        i = 12
        bad = Viol("reserved-tiling", f"the records do not make up the payload: {p.hex()}")
        for r in d["recs"]:
            while i < len(p) and p[i] == 0x2F:
                i += 1
            if i >= len(p) or p[i] != r["dif"]:
                return [bad]
            special = r["dif"] in (0x0F, 0x1F)
            dife, vife = bytes.fromhex(r["dife"]), bytes.fromhex(r["vife"])
            b = bytes([r["dif"]])
            if not special:
                b += dife + bytes([r["vif"]])
                if r["vif"] & 0x7F == 0x7C:
                    l = p[i + len(b)] if i + len(b) < len(p) else 0
                    t = p[i + len(b) + 1:i + len(b) + 1 + l]
                    if cstr(t[::-1]).hex() != r["cust"]:
                        return [bad]
                    b += bytes([l]) + t
                b += vife
            b += bytes.fromhex(r["data"])
            if p[i:i + len(b)] != b or len(r["data"]) != 2 * r["dl"]:
                return [bad]
            # extension bits end the chains where the record says
            if not special and ((len(dife) > 0) != bool(r["dif"] & 0x80) or (len(vife) > 0) != bool(r["vif"] & 0x80)
                                or any((x & 0x80 > 0) != (k < len(c) - 1) for c in (dife, vife) for k, x in enumerate(c))):
                return [bad]
            i += len(b)
        if p[i:].strip(b"\x2f") or d["nrec"] != len(d["recs"]):
            return [bad]
        return []

    def finish(self, st, tier):
        return [] if st.count.get("must_refuse") and st.count.get("must_accept") else ["only one kind of verdict seen"]


def special_fn(r):
    return b"Manufacturer specific" if r.dif == 0x0F else b"More records follow"


class _Rec(_Var):
    """Judges record by record."""
    flags = "danxN"

    def judge(self, c, o, st):
        p, _, d, bad = self.decoded(c, o)
        if bad:
            return [bad]
        try:
            m = record.split(p)
        except Unjudged:
            return []
        if m is None or d["r"] != 0 or len(d["recs"]) != len(m[0]):
            st.inc("not_decodable_not_judged_here")
            return []
        vs = []
        xml = texts.parse_doc(d.get("xml")) if "x" in self.flags else None
        nx = texts.parse_doc(d.get("nxml")) if "N" in self.flags else None
        for i, (r, g) in enumerate(zip(m[0], d["recs"])):
            xr = xml["recs"][i] if xml and len(xml["recs"]) == len(m[0]) else None
            nr = nx["recs"][i] if nx and len(nx["recs"]) == len(m[0]) else None
            for v in self.rec(r, g, xr, nr, st):
                v.msg = f"record {i} ({r.encode().hex()}): {v.msg}; payload {p.hex()}"
                vs.append(v)
        return vs[:4]


# ------------------------------------------------------------------------------------------ V02
class V02(_Rec):
    pid = "V02"
    quick_n = 3500
    thorough_n = 80000
    rule = ("a record counts by (DIF, DIFE bytes); judged: storage number, tariff, subunit and function of the accessors, the plain XML, the "
            "normalised record and the normalised XML against the bits of the telegram")

    def systematic(self, rng, shard, nsh, tier):
        out = []
        k = 0
        for dif in range(256):
            if dif & 15 in (8, 0xF, 0xD) or (dif & 15) == 5:
                continue
            for variant in range(3 if dif & 0x80 else 1):
                k += 1
                if k % nsh != shard:
                    continue
                dife = b""
                if dif & 0x80:
                    n = rng.choice([1, 2, 10, rng.randrange(1, 11)])
                    dife = bytes([0x80 | rng.getrandbits(7) for _ in range(n - 1)] + [rng.getrandbits(7)])
                low = dif & 15
                d = record.rand_bcd(rng, record.LEN[low]) if low >= 9 else record.rand_bytes(rng, record.LEN[low])
                out.append(record.rand_header(rng) + Rec(dif, dife, 0x13, data=d).encode())
        # single bits of long DIFE chains: each bit of each position on its own
        for n in range(1, 11):
            for pos in range(n):
                for bit in range(7):
                    k += 1
                    if k % nsh == shard:
                        dife = bytearray([0x80] * (n - 1) + [0])
                        dife[pos] |= 1 << bit
                        out.append(record.rand_header(rng) + Rec(0x84, dife, 0x13, data=b"\1\2\3\4").encode())
        return out

    def payload(self, rng):
        p = bytearray(record.rand_header(rng))
        for _ in range(rng.randrange(1, 12)):
            r = record.rand_rec(rng, ndife=rng.choice([0, 1, 2, 3, rng.randrange(0, 11), 10]), maxlen=40)
            if len(p) + len(r.encode()) <= 252:
                p += r.encode()
        if rng.random() < 0.2 and len(p) < 250:
            p += bytes([rng.choice([0x0F, 0x1F]), 1])
        return bytes(p)

    def rec(self, r, g, xr, nr, st):
        vs = []
        st.sig(r.dif, r.dife)
        st.inc("records")
        if r.special:
            e = special_fn(r)
            got = {"XML": xr and xr.get("Function"), "normalised record": unhex(g["nr"]["fn"]) if g["nr"] else e,
                   "normalised XML": nr and nr.get("Function")}
            for k, v in got.items():
                if v is not None and v != e:
                    vs.append(Viol("function-special", f"{k} names the function {v!r}, not {e!r}"))
            return vs
        exp = {"StorageNumber": record.storage(r), "Tariff": record.tariff(r), "Device": record.device(r), "Function": record.function(r).encode()}
        acc = {"StorageNumber": g["st"], "Tariff": g["ta"], "Device": g["dev"], "Function": unhex(g["fn"])}
        srcs = [("accessor", acc)]
        if g["nr"]:
            srcs.append(("normalised record", {"StorageNumber": g["nr"]["st"], "Tariff": g["nr"]["ta"], "Device": g["nr"]["dev"], "Function": unhex(g["nr"]["fn"])}))
        for nm, x in (("XML", xr), ("normalised XML", nr if g["nr"] else None)):
            if x is not None:
                srcs.append((nm, {k: (x.get(k, b"-1" if k in ("Tariff", "Device") else None)) for k in exp}))
        for nm, s in srcs:
            for k, e in exp.items():
                a = s[k]
                if isinstance(a, bytes) and not isinstance(e, bytes):
                    e = str(e).encode()
                if a != e:
                    vs.append(Viol(f"{k}-{nm.replace(' ', '-')}", f"{nm} {k} is {a!r}, telegram says {e!r}"))
        st.inc("views_compared", len(srcs))
        return vs


# ------------------------------------------------------------------------------------------ V03
class V03(_Rec):
    pid = "V03"
    flags = "dam"
    quick_n = 3500
    thorough_n = 80000
    rule = ("a record counts by (data field code, sign, bit pattern class of the value); judged: the printed number and the decoded "
            "double against exact integer/BCD/IEEE decoding")

    def systematic(self, rng, shard, nsh, tier):
        vals = []
        for low in (1, 2, 3, 4, 6, 7):
            n = record.LEN[low]
            for bit in range(8 * n):
                vals.append((low, (1 << bit).to_bytes(n, "little")))
                vals.append((low, ((1 << (8 * n)) - 1 ^ (1 << bit)).to_bytes(n, "little")))
                vals.append((low, ((1 << bit) - 1).to_bytes(n, "little")))
        for v in range(256):
            vals.append((1, bytes([v])))
        for low in (9, 0xA, 0xB, 0xC, 0xE):
            n = record.LEN[low]
            for pos in range(2 * n):
                for dg in range(1, 10):
                    b = bytearray(n)
                    b[pos // 2] |= dg << (4 * (pos % 2))
                    vals.append((low, bytes(b)))
                    b[-1] |= 0xF0 if pos < 2 * n - 1 else 0
                    vals.append((low, bytes(b)))
        for e in range(0, 255):
            for s in (0, 1):
                vals.append((5, struct.pack("<I", s << 31 | e << 23 | rng.getrandbits(23))))
        rng2 = __import__("random").Random(7)
        rng2.shuffle(vals)
        vals = vals[shard::nsh]
        while vals:
            p = bytearray(record.rand_header(rng))
            while vals:
                low, b = vals[-1]
                r = Rec(low | rng.choice([0, 0x10, 0x20, 0x40]), vif=rng.choice([0x13, 0x05, 0x3B]), data=b).encode()
                if len(p) + len(r) > 252:
                    break
                p += r
                vals.pop()
            yield bytes(p)

    def payload(self, rng):
        p = bytearray(record.rand_header(rng))
        for _ in range(rng.randrange(1, 30)):
            r = record.rand_rec(rng, low=rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 0xA, 0xB, 0xC, 0xE]), maxlen=30, ndife=rng.choice([0, 0, 1]))
            if len(p) + len(r.encode()) <= 252:
                p += r.encode()
        return bytes(p)

    def rec(self, r, g, xr, nr, st):
        v = record.value(r)
        if not v or v[0] not in ("int", "real", "hexbcd"):
            return []
        st.inc("values_" + v[0])
        txt = unhex(g["val"])
        vs = []
        num = None
        if v[0] == "int":
            st.sig(r.dif & 15, v[1] < 0, v[1].bit_length(), v[1] % 7)
            num = v[1]
            if txt != str(v[1]).encode():
                vs.append(Viol(f"value-text-{r.dif & 15:X}", f"value printed as {txt!r}, encoded number is {v[1]}"))
        elif v[0] == "hexbcd":
            st.sig("hexbcd", v[1])
            num = v[2]
            if txt != v[1].encode():
                vs.append(Viol("value-text-errorbcd", f"error-state BCD printed as {txt!r}, digits are {v[1]}"))
        else:
            st.sig("real", struct.pack("<f", v[1]))
            num = v[1]
            if num != num or num in (float("inf"), float("-inf")):
                return []
            try:
                ok = txt.decode() == "%f" % num
            except Exception:
                ok = False
            if not ok:
                vs.append(Viol("value-text-real", f"value printed as {txt!r}, encoded number is {num!r}"))
        if num is not None:
            rc, dv, sv, sz = g["vd"]
            if rc != 0 or sv is not None or dv != float(num):
                vs.append(Viol(f"value-decode-{r.dif & 15:X}", f"decoded as {g['vd']}, encoded number is {num}"))
        return vs



class V03Portable(Check):
    """The float decoder compiled for hosts whose floats are not IEEE 754 (and the library's other build options)."""
    pid = "V03"
    name = "portable"
    order = 1
    flavour = "alt"
    optional_build = True
    batch = 60
    quick_n = 40
    thorough_n = 2000
    rule = ("a value counts by (sign, exponent, class of the fraction); judged: the portable float decoder (built with _HAS_NON_IEEE754_FLOAT) against exact IEEE decoding, "
            "every exponent but the one of infinities")

    def gen(self, rng, n, shard, nsh, tier):
        vals = [s << 31 | e << 23 | f for s in (0, 1) for e in range(255) for f in (0, 1, 0x400000, 0x7FFFFF, 0x3FFFFF, rng.getrandbits(23))][shard::nsh]
        for _ in range(n):
            vals += [v for v in (rng.getrandbits(32) for _ in range(64)) if v >> 23 & 255 != 255]
        for i in range(0, len(vals), 64):
            b = [struct.pack("<I", v) for v in vals[i:i + 64]]
            yield Case("fl " + " ".join(x.hex() for x in b), {"b": [x.hex() for x in b]})

    def judge(self, c, o, st):
        for x, v in zip(c.ctx["b"], o["o"]):
            u = struct.unpack("<I", bytes.fromhex(x))[0]
            want = struct.unpack("<f", bytes.fromhex(x))[0]
            st.inc("values")
            st.sig(u >> 31, u >> 23 & 255, (u & 0x7FFFFF) in (0, 1, 0x7FFFFF), u >> 22 & 1)
            if v != want or math.copysign(1, v) != math.copysign(1, want):
                return [Viol("portable-float", f"bytes {x} decoded as {v!r} instead of {want!r}")]
        if len(o["o"]) != len(c.ctx["b"]):
            return [Viol("count", f"{len(o['o'])} values for {len(c.ctx['b'])}")]
        return []


# ------------------------------------------------------------------------------------------ V04
class V04(_Rec):
    pid = "V04"
    flags = "damn"
    quick_n = 2500
    thorough_n = 60000
    rule = ("a date counts by (type, VIF, full instant); judged: the text of mbus_data_record_value, mbus_variable_value_decode and the "
            "normalised record against the calendar fields of the standard's encoding")

    VIFS = {"G": [(0x6C, b""), (0xEC, b"\x7e"), (0xEC, b"\x00")],
            "F": [(0x6D, b""), (0xED, b"\x7e"), (0xFD, b"\x30"), (0xFD, b"\x70"), (0xFD, b"\xF0\x01"), (0xED, b"\x12")],
            "I": [(0x6D, b""), (0xED, b"\x7e"), (0xFD, b"\x30"), (0xFD, b"\x70"), (0xFD, b"\xB0\x01")]}
    LOW = {"G": 2, "F": 4, "I": 6}

    def one(self, rng, kind, data):
        vif, vife = rng.choice(self.VIFS[kind])
        nd = rng.choice([0, 0, 1, 2])
        dife = bytes([0x80 | rng.getrandbits(6)] * (nd - 1) + [rng.getrandbits(6)]) if nd else b""
        return Rec(self.LOW[kind] | rng.choice([0, 0x10, 0x20, 0x30, 0x40]) | (0x80 if nd else 0), dife, vif, vife, data=data)

    def systematic(self, rng, shard, nsh, tier):
        ds = []
        for y in range(100):
            for m in range(1, 13):
                d = rng.randrange(1, 32)
                ds.append(("G", bytes([d | (y & 7) << 5, m | (y >> 3) << 4])))
                ds.append(("F", bytes([rng.randrange(60), rng.randrange(24) | (m & 3) << 5, d | (y & 7) << 5, m | (y >> 3) << 4])))
                ds.append(("I", bytes([rng.randrange(60), rng.randrange(60), rng.randrange(24), d | (y & 7) << 5, m | (y >> 3) << 4, rng.randrange(64)])))
        for hcent in range(4):
            for y in range(100):
                ds.append(("F", bytes([rng.randrange(60), rng.randrange(24) | hcent << 5, 17 | (y & 7) << 5, 9 | (y >> 3) << 4])))
        for d in range(1, 32):
            ds += [(k, b) for k, b in (("G", bytes([d, 1 | 0x20])), ("F", bytes([0, 0, d, 1 | 0x20])), ("I", bytes([0, 0, 0, d, 1 | 0x20, 0])))]
        for v in range(60):
            ds.append(("F", bytes([v, 12, 1, 1 | 0x20])))
            ds.append(("I", bytes([v, 59 - v, v % 24, 1, 1 | 0x20, 0])))
            ds.append(("F", bytes([v | 0x40, v % 24 | 0x80, 1, 1 | 0x20])))       # spare/summer-time bits do not change the fields
        ds = ds[shard::nsh]
        while ds:
            p = bytearray(record.rand_header(rng))
            while ds:
                r = self.one(rng, *ds[-1]).encode()
                if len(p) + len(r) > 252:
                    break
                p += r
                ds.pop()
            yield bytes(p)

    def payload(self, rng):
        p = bytearray(record.rand_header(rng))
        for _ in range(rng.randrange(1, 25)):
            k = rng.choice("GFI")
            r = self.one(rng, k, record.rand_date(rng, k)).encode()
            if len(p) + len(r) <= 252:
                p += r
        return bytes(p)

    def rec(self, r, g, xr, nr, st):
        kind = record.is_date(r)
        if not kind:
            return []
        t = record.date_text(kind, r.data)
        if t is None:
            st.inc("invalid_instants_not_judged")
            return []
        if kind == "F" and (r.data[0] & 0x40 or r.data[1] & 0x80):
            st.inc("with_flag_bits")
        st.inc("dates_" + kind)
        st.sig(kind, r.vif, t)
        vs = []
        if unhex(g["val"]) != t.encode():
            vs.append(Viol(f"date-{kind}", f"date printed as {unhex(g['val'])!r}, encoded is {t}"))
        rc, dv, sv, sz = g["vd"]
        tz = t.encode() + (b"Z" if kind != "G" else b"")
        if rc != 0 or unhex(sv) not in (tz, t.encode()) or sz != len(unhex(sv)):
            vs.append(Viol(f"date-decode-{kind}", f"decoded as {rc} {unhex(sv or '')!r} size {sz}, encoded is {t}"))
        if g["nr"] and (g["nr"]["num"] or unhex(g["nr"]["v"]) not in (tz, t.encode())):
            vs.append(Viol(f"date-normalised-{kind}", f"normalised as {g['nr']}, encoded is {t}"))
        return vs


# ------------------------------------------------------------------------------------------ V05
class V05(_Rec):
    pid = "V05"
    flags = "damnxN"
    quick_n = 2500
    thorough_n = 60000
    rule = ("a record counts by (kind of data, length, character class); judged: accessor text, decoded value, normalised record and both XML "
            "values against the transmitted bytes")

    def systematic(self, rng, shard, nsh, tier):
        k = 0
        for n in range(0, 192):
            for nasty in (0, 1):
                k += 1
                if k % nsh == shard:
                    yield record.rand_header(rng) + Rec(0x0D, vif=0x79, data=bytes([n]) + record.rand_text(rng, n, nasty)).encode()
            k += 1
            if k % nsh == shard:
                c = rng.choice(b"&<>\"")
                yield record.rand_header(rng) + Rec(0x0D, vif=0x79, data=bytes([n]) + bytes([c]) * n).encode()
        for lv in range(0xC0, 0xF7):
            try:
                n = record.lvar_len(lv)
            except Unjudged:
                continue
            k += 1
            if k % nsh == shard:
                yield record.rand_header(rng) + Rec(0x0D, vif=0x79, data=bytes([lv]) + record.rand_bytes(rng, n)).encode()
        for n in range(0, 240):
            for d in (0x0F, 0x1F):
                k += 1
                if k % nsh == shard:
                    yield record.rand_header(rng) + bytes([d]) + record.rand_bytes(rng, n)

    def payload(self, rng):
        p = bytearray(record.rand_header(rng))
        for _ in range(rng.randrange(1, 10)):
            r = record.rand_rec(rng, low=0xD, maxlen=rng.choice([10, 40, 230]), nvife=0 if rng.random() < 0.7 else None,
                                ndife=rng.choice([0, 0, 0, 1, 4]))
            if len(p) + len(r.encode()) <= 252:
                p += r.encode()
        if rng.random() < 0.5 and len(p) < 251:
            p += bytes([rng.choice([0x0F, 0x1F])]) + record.rand_bytes(rng, rng.randrange(0, 252 - len(p)))
        return bytes(p)

    def rec(self, r, g, xr, nr, st):
        v = record.value(r)
        if not v or v[0] not in ("text", "bin"):
            return []
        raw = v[1] if v[0] == "text" else v[1].encode()
        st.inc("values_" + v[0])
        st.sig(v[0], len(r.data), r.data[:1] if v[0] == "bin" else any(x in b"&<>\"" for x in raw), r.special)

        def same(t):
            return t is not None and (t == raw or (v[0] == "bin" and t.split() == raw.split()))
        vs = []
        tag = v[0] + ("-special" if r.special else "")
        if not same(unhex(g["val"])):
            vs.append(Viol("value-" + tag, f"value is {unhex(g['val'])!r}, transmitted {raw!r}"))
        rc, dv, sv, sz = g["vd"]
        if rc != 0 or not same(unhex(sv)):
            vs.append(Viol("value-decode-" + tag, f"decoded as {rc} {unhex(sv or '')!r}, transmitted {raw!r}"))
        elif sz < len(unhex(sv)) or v[0] == "text" and sz != len(r.data) - 1:
            vs.append(Viol("value-size-" + tag, f"size {sz} reported for a text of {len(unhex(sv))}"))
        if g["nr"] and (g["nr"]["num"] or not same(unhex(g["nr"]["v"]))):
            vs.append(Viol("value-normalised-" + tag, f"normalised as {str(g['nr'])[:300]}, transmitted {raw!r}"))
        for nm, x in (("XML", xr), ("normalised-XML", nr if g["nr"] else None)):
            if x is not None:
                e = texts.neutral(raw)
                t = x.get("Value")
                if t != e and not (v[0] == "bin" and t is not None and t.split() == e.split()):
                    vs.append(Viol(f"value-{nm}-{tag}", f"{nm} value is {t!r}, transmitted {e!r}"))
        return vs


# ------------------------------------------------------------------------------------------ V06
class V06(Check):
    pid = "V06"
    batch = 400
    quick_n = 3000
    thorough_n = 60000
    rule = ("a telegram counts by (CI, payload length class, medium, status); judged: decode verdict, header fields in struct, plain and "
            "normalised XML, manufacturer letters, medium and error text against the telegram's bytes and the standard's medium table")

    def gen(self, rng, n, shard, nsh, tier):
        jobs = []
        k = 0
        for med in range(256):
            p = bytearray(record.rand_header(rng)); p[7] = med
            jobs.append((8, 0x72, bytes(p)))
        for i in range(12):
            for v in range(256):
                p = bytearray(record.rand_header(rng)); p[i] = v
                jobs.append((8, 0x72, bytes(p)))
        for l in range(0, 253):
            for ci in (0x72, 0x73, 0x70, 0x76, 0x77, 0x71, 0x74, 0x75, 0x78, 0x00):
                jobs.append((8, ci, record.rand_bytes(rng, l) if ci != 0x72 else record.rand_header(rng)[:l] + b"\x2f" * max(0, l - 12)))
        for ci in range(256):
            jobs.append((8, ci, record.rand_header(rng)))
            jobs.append((0x18, ci, record.rand_bytes(rng, 16)))
            jobs.append((0x53, ci, record.rand_header(rng)))
        for e in range(256):
            jobs.append((8, 0x70, bytes([e])))
            jobs.append((8, 0x70, bytes([e]) + record.rand_bytes(rng, 3)))
        jobs.append((8, 0x70, b""))
        jobs = jobs[shard::nsh]
        for _ in range(n):
            k = rng.random()
            c = rng.choice(S2M_CTRL) if k < 0.9 else rng.choice((0x53, 0x73))
            k = rng.random()
            if k < 0.6:
                jobs.append((c, 0x72, record.rand_payload(rng, rng.choice([12, 40, 100]))[0]))
            elif k < 0.8:
                jobs.append((c, 0x73, record.rand_bytes(rng, rng.choice([16, 16, 16, 15, 17, rng.randrange(30)]))))
            else:
                jobs.append((c, rng.choice([0x70, rng.randrange(256)]), record.rand_bytes(rng, rng.choice([0, 1, 2, 12, 16]))))
        for c, ci, p in jobs:
            yield Case(f"msg daxN {h(wire.long_(c, rng.randrange(256), ci, p))}", dict(c=c, ci=ci, p=p.hex()))

    def judge(self, cs, o, st):
        c, ci, p = cs.ctx["c"], cs.ctx["ci"], bytes.fromhex(cs.ctx["p"])
        o = o["o"]
        if o["r"] != 0:
            return [Viol("frame-refused", f"valid frame refused: {o['r']}")]
        d = o["dec"]
        kind = None
        if c & 0x40 == 0:
            if ci == 0x70:
                kind = "error"
            elif ci == 0x73 and len(p) == 16:
                kind = "fixed"
            elif ci == 0x72 and len(p) >= 12:
                try:
                    kind = "variable" if record.split(p) is not None else None
                except Unjudged:
                    return []
        st.inc("telegrams_" + str(kind))
        st.sig(kind, c, ci, len(p) if not kind else p[7:8], p[9:10])
        if kind is None:
            if d["r"] == 0:
                return [Viol("accepted-undecodable", f"CI {ci:02x} control {c:02x} with {len(p)} bytes decoded: {p.hex()}")]
            return []
        if d["r"] != 0:
            return [Viol("refused-" + kind, f"{kind} telegram refused ({d['r']}): {p.hex()}")]
        vs = []

        def eq(n, e, a):
            if e != a:
                vs.append(Viol(n, f"{n} is {a!r}, telegram says {e!r}: CI {ci:02x} {p.hex()}"))
        if d["type"] != {"error": 3, "fixed": 1, "variable": 2}[kind] and not texts.TYPE_OK(d["type"], kind):
            vs.append(Viol("type", f"reported type {d['type']} for a {kind} telegram"))
        x = texts.parse_doc(d["xml"])
        nx = texts.parse_doc(d["nxml"])
        if kind == "error":
            code = p[0] if p else 0
            eq("error-code", code, d["err"])
            e = texts.error_text(code)
            t = unhex(d["etext"])
            if not texts.error_match(code, t):
                vs.append(Viol("error-text", f"error {code} is reported as {t!r}, not {e!r}"))
            if x is None or x["slave"].get("Error") != texts.neutral(t):
                vs.append(Viol("error-xml", f"XML of error {code}: {d['xml'] and unhex(d['xml'])!r}"))
            return vs
        if x is None:
            return [Viol("no-xml", f"no well-formed XML for {kind} telegram {p.hex()}")]
        docs = [("xml", x)]
        if nx is not None:
            docs.append(("nxml", nx))
        else:
            vs.append(Viol("no-nxml", f"no well-formed normalised XML for {kind} telegram {p.hex()}"))
        ident = "%X" % int.from_bytes(p[:4], "little")
        if kind == "fixed":
            eq("fixed-struct", p.hex(), d["fix"])
            for nm, y in docs:
                s = y["slave"]
                eq(nm + "-Id", ident, s.get("Id", b"").decode())
                eq(nm + "-AccessNumber", str(p[4]), s.get("AccessNumber", b"").decode())
                eq(nm + "-Status", "%02X" % p[5], s.get("Status", b"").decode())
            return vs
        eq("header-struct", p[:12].hex(), d["hdr"])
        man = texts.manufacturer(p[4], p[5])
        eq("manufacturer", man, unhex(d["man"]))
        if not texts.medium_match(p[7], unhex(d["med"])):
            vs.append(Viol("medium", f"medium {p[7]:02x} is reported as {unhex(d['med'])!r}"))
        for nm, y in docs:
            s = y["slave"]
            eq(nm + "-Id", ident, s.get("Id", b"").decode())
            eq(nm + "-Manufacturer", texts.neutral(man), s.get("Manufacturer", b""))
            eq(nm + "-Version", str(p[6]), s.get("Version", b"").decode())
            eq(nm + "-Medium", unhex(d["med"]), s.get("Medium", b""))
            eq(nm + "-AccessNumber", str(p[8]), s.get("AccessNumber", b"").decode())
            eq(nm + "-Status", "%02X" % p[9], s.get("Status", b"").decode())
            eq(nm + "-Signature", "%02X%02X" % (p[11], p[10]), s.get("Signature", b"").decode())
        return vs[:5]
