"""N01, N02: VIF normalisation; D01, D02: fixed-format data."""
import re, struct
from model import wire, record, texts, tables
from model.record import Rec
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame, unhex
from checks.xmlout import strict


def u8(s):
    """A unit text as characters: UTF-8 when it is, else Latin-1."""
    b = unhex(s) or b""
    try:
        return b.decode("utf-8")
    except UnicodeDecodeError:
        return b.decode("latin-1")


def close(a, b, rel=1e-9):
    return a == b or abs(a - b) <= rel * max(abs(a), abs(b))


def norm_mag(unit):
    """Magnitude named by a normalised unit text ('' and '-' are dimensionless)."""
    return ("none", 1.0) if unit in ("", "-") else tables.unit_of(unit)


def is_date_vif(vif, vife):
    return vif & 0x7F in (0x6C, 0x6D) or (vif == 0xFD and vife and vife[0] & 0x7F in (0x30, 0x70))


def scale_of(vif, vife):
    """Factor of the first VIFE, or None when it is not judged."""
    if not vif & 0x80 or vif in (0xFD, 0xFB):
        return 1.0
    c = vife[0] & 0x7F
    if 0x70 <= c <= 0x77:
        return 10.0 ** ((c & 7) - 6)
    if c == 0x7D:
        return 1000.0
    if c >= 0x70:
        return None
    return 1.0


VALUES = [0, 1, -1, 7, 123456, -99, 2147483647, -2147483648, 1e12, 0.5, -1.25, 3.14159]


class N01(Check):
    pid = "N01"
    batch = 1500
    quick_n = 5000
    thorough_n = 150000
    rule = ("a conversion counts by (VIF, first VIFE, value kind); judged: dimension and magnitude value*unit and quantity against the standard's tables; "
            "every VIF, FD and FB code and every first VIFE is enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        i = 0
        for vif in range(256):
            if vif in (0x7C, 0xFC):
                continue
            for e in range(256) if vif & 0x80 else [None]:
                i += 1
                if i % nsh != shard:
                    continue
                ve = bytes([e]) if e is not None else b""
                if ve and e & 0x80:
                    ve += bytes([rng.randrange(128)])
                for v in (rng.choice(VALUES), rng.choice(VALUES)) if e is None or e >= 0x70 or vif in (0xFD, 0xFB) else (rng.choice(VALUES),):
                    yield Case(f"vib {vif} {h(ve)} - {v!r}", {"k": "vib", "vif": vif, "ve": ve.hex(), "v": v})
        for e in range(256):
            if e % nsh == shard:
                t = record.rand_text(rng, rng.randrange(1, 20), 0).replace(b" ", b"x")
                yield Case(f"vib 252 {h(bytes([e]) + (bytes([0]) if e & 128 else b''))} {h(t)} 8", {"k": "vib", "vif": 0xFC, "ve": "%02x" % e, "v": 8, "cust": t.hex()})
        for _ in range(n):
            hdr = record.rand_header(rng)
            low = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 0xA, 0xB, 0xC, 0xE])
            k = rng.random()
            kw = {}
            if k < 0.4:
                kw["vif"] = rng.randrange(0x7B)
                kw["nvife"] = rng.choice([0, 0, 1, 1, 2])
            elif k < 0.9:
                kw["vif"] = rng.choice([0xFD, 0xFB])
                kw["nvife"] = rng.choice([1, 1, 1, 2, 3])
            r = record.rand_rec(rng, low=low, maxlen=180, **kw)
            p = hdr + r.encode()
            yield Case(f"msg dn {h(frame(rng, p))}", {"k": "msg", "p": p.hex()})

    def expect(self, vif, ve, v, got, how, st, cust=None):
        """got = (unit, value, quantity)"""
        e = tables.lookup(vif, ve)
        s = scale_of(vif, ve)
        if e is None and not is_date_vif(vif, ve) and cust is None:
            st.inc("codes_not_judged")
            return []
        if s is None:
            st.inc("vife_not_judged")
            return []
        key = "%02X%s" % (vif & 0x7F if vif not in (0xFD, 0xFB) else vif, "%02X" % (ve[0] & 0x7F) if vif in (0xFD, 0xFB) else "")
        if got is None:
            return [Viol(f"refused-{how}-{key}", f"VIF {vif:02X} {ve.hex()} has no normalised value ({how})")]
        unit, val, q = got
        st.inc("judged_" + how)
        st.sig(vif, ve[:1], how, s)
        if e is None:
            e = ("none", 1.0, cust if cust is not None else "date|time|start of tariff|tariff|battery|reserved")
            if cust is None:
                return []
        mag = norm_mag(unit)
        if mag is None:
            return [Viol(f"unit-{how}-{key}", f"VIF {vif:02X} {ve.hex()}: normalised unit {unit!r} not understood")]
        if mag[0] != e[0] and not ({mag[0], e[0]} == {"degC", "kelvin"} and "difference" in e[2]):
            return [Viol(f"unit-{how}-{key}", f"VIF {vif:02X} {ve.hex()}: normalised unit {unit!r}, the standard says {e[0]}")]
        want = v * e[1] * s
        if val is None or not close(val * mag[1], want):
            return [Viol(f"value-{how}-{key}", f"VIF {vif:02X} {ve.hex()}: {v!r} normalised to {val!r} {unit!r}, expected {want / mag[1]!r}")]
        if cust is not None:
            if cust.encode("latin-1") not in q.encode("latin-1", "replace"):
                return [Viol(f"quantity-{how}-custom", f"custom text {cust!r} normalised as {q!r}")]
        elif not tables.alt_match(e[2], q):
            return [Viol(f"quantity-{how}-{key}", f"VIF {vif:02X} {ve.hex()}: quantity {q!r}, the standard says {e[2]!r}")]
        return []

    def judge(self, c, o, st):
        o = o["o"]
        x = c.ctx
        if x["k"] == "vib":
            got = None if o["r"] != 0 or o["u"] is None else (u8(o["u"]), num(o["v"]), u8(o["q"]))
            cust = bytes.fromhex(x["cust"]).decode("latin-1") if "cust" in x else None
            return self.expect(x["vif"], bytes.fromhex(x["ve"]), x["v"], got, "vib", st, cust)
        if o["r"] != 0 or o["dec"]["r"] != 0:
            return [Viol("frame-refused", f"valid telegram refused: {o['r']}")]
        recs = record.split(bytes.fromhex(x["p"]))[0]
        g = o["dec"]["recs"][0]
        r = recs[0]
        mv = record.value(r)
        if mv is None or r.special:
            st.inc("value_not_judged")
            return []
        if mv[0] == "hexbcd":
            mv = ("int", mv[2]) if mv[2] is not None else None
        if mv is None or mv[0] not in ("int", "real"):
            st.inc("value_not_judged")
            return []
        v = mv[1]
        if v != v or abs(v) == float("inf"):
            return []
        if is_date_vif(r.vif, r.vife):
            return []
        nr = g["nr"]
        if nr is not None and not nr["num"]:
            return [Viol("not-numeric", f"numeric record normalised as text: {nr}")]
        if (nr is None) and tables.lookup(r.vif, r.vife) is None:
            st.inc("codes_not_judged")
            return []
        cust = r.custom_text().decode("latin-1") if r.vif & 0x7F == 0x7C else None
        if cust is not None and not r.cust:
            return []
        got = None if nr is None else (u8(nr["unit"]), num(nr["v"]), unhex(nr["q"]).decode("latin-1") if cust is not None else u8(nr["q"]))
        return self.expect(r.vif, bytes(r.vife), v, got, "record", st, cust)


def num(v):
    return None if v is None else float(v)


# ------------------------------------------------------------------------------------------ N02
def plain_mag(text):
    """-> (quantity words, magnitude or None) spelled in a plain unit text."""
    t = text.strip()
    m = re.match(r"(.*?)\s*\(([^()]*)\)$", t)
    if m and not m.group(2) == "s":
        mag = tables.unit_of(m.group(2))
        return m.group(1), mag
    m = re.match(r"(Credit|Debit) of\s+(.*?)\s*of the (nominal local legal currency units)", t, re.I)
    if m:
        f = tables.unit_of((m.group(2) + " currency units").strip())
        return m.group(1), f
    mag = tables.unit_of(t)
    if mag:
        return "", mag
    m = re.match(r"(.*?)\s+(\w+)\(s\)$", t.replace("months(s)", "month(s)"))
    if m:
        return m.group(1), tables.unit_of(m.group(2))
    return t, None


def words(t):
    return set(re.findall(r"[a-z]{2,}", t.lower())) - {"of", "the", "no", "number", "no."}


class N02(Check):
    pid = "N02"
    batch = 1500
    quick_n = 3000
    thorough_n = 60000
    rule = ("a code counts by (VIF, extension); judged when both the plain text and the normalised unit name a magnitude: dimension and power of ten "
            "must agree, and the quantity words must overlap; custom texts must appear with their prefix in the plain text")

    def gen(self, rng, n, shard, nsh, tier):
        i = 0
        for vif in range(256):
            for e in range(256) if vif in (0xFD, 0xFB) else [rng.randrange(0x70)] if vif & 0x80 else [None]:
                i += 1
                if i % nsh == shard and vif not in (0x7C, 0xFC):
                    ve = bytes([e]) if e is not None else b""
                    if ve and e & 0x80:
                        ve += bytes([rng.randrange(128)])
                    yield Case(f"vib {vif} {h(ve)} - 1", {"k": "vib", "vif": vif, "ve": ve.hex()})
        for e in [None] + list(range(0x70, 0x78)) + list(range(0xF0, 0xF8)):
            for _ in range(3):
                t = record.rand_text(rng, rng.choice([1, 2, 5, 127, 128, rng.randrange(1, 60)]), 0.2).replace(b"\0", b"x")
                ve = b"" if e is None else bytes([e]) + (b"\x01" if e & 128 else b"")
                yield Case(f"vib {0x7C if e is None else 0xFC} {h(ve)} {h(t)} 1", {"k": "cust", "e": e, "t": t.hex()})
        for _ in range(n):      # through whole telegrams: XML unit and normalised XML unit of the same record
            k = rng.random()
            low = rng.choice([1, 2, 4, 0xC])
            if k < 0.3:
                e = rng.choice([None] + list(range(0x70, 0x78)))
                t = record.rand_text(rng, rng.randrange(1, 60), 0).replace(b"\0", b"x")
                r = record.rand_rec(rng, low=low, vif=0x7C, nvife=0 if e is None else 1, maxlen=120)
                r.cust = t
                if e is not None:
                    r.vife = bytes([e])
            else:
                vif = rng.choice([rng.randrange(0x7B), rng.randrange(0x7B), 0xFD, 0xFB])
                r = record.rand_rec(rng, low=low, vif=vif, nvife=1 if vif & 0x80 else 0, maxlen=120)
            p = record.rand_header(rng) + r.encode()
            yield Case(f"msg dan {h(frame(rng, p))}", {"k": "msg", "p": p.hex()})

    def agree(self, plain, unit, q, factor, key, st):
        pq, pm = plain_mag(plain)
        nm = norm_mag(unit)
        st.inc("pairs_seen")
        if "unknown" in plain.lower() or "reserved" in plain.lower() or "reserved" in q.lower() or unit in ("Reserved", "None", "Unknown"):
            st.inc("unknown_to_one_side")
            return []
        vs = []
        if pm is None and nm is None:
            return [Viol("unreadable-" + key, f"neither unit text is understood: {plain!r} / {unit!r}")] if unit not in ("",) else []
        if pm is None:
            pm = ("none", 1.0)
        if nm is None:
            return [Viol("unreadable-" + key, f"normalised unit {unit!r} (plain {plain!r}) not understood")]
        st.sig(key)
        st.inc("pairs_judged")
        if pm[0] == "none" and nm[0] in ("hca", "baud", "bittimes"):
            nm = ("none", nm[1])
        a, b = (pm[0], pm[1]), (nm[0], nm[1] * factor)
        if not tables.same(a, b):
            vs.append(Viol("magnitude-" + key, f"plain text {plain!r} means {a}, normalised {factor!r} {unit!r} means {b}"))
        wq, wn = words(pq), words(q)
        if pq and wn and not wq & wn:
            vs.append(Viol("quantity-" + key, f"plain text {plain!r} against normalised quantity {q!r}"))
        return vs

    def custom(self, t, e, plain, st):
        st.inc("custom_judged")
        st.sig("custom", e)
        if not plain.rstrip().endswith(t.rstrip()) and t not in plain:
            return [Viol("custom-text", f"custom unit {t!r} shown as {plain!r}")]
        if e is not None:
            f = 10.0 ** ((e & 7) - 6)
            pre = plain[:plain.rindex(t)].decode("latin-1").strip()
            got = tables.PREFIX.get(pre)
            if got is None:
                try:
                    got = float(pre)
                except ValueError:
                    got = None
            if got is None or not close(got, f):
                return [Viol("custom-prefix", f"VIFE {e:02X}: {plain!r} does not spell factor {f}")]
        return []

    def judge(self, c, o, st):
        o = o["o"]
        x = c.ctx
        if x["k"] == "vib":
            if o["r"] != 0 or o["u"] is None or o["t"] is None:
                st.inc("unknown_to_one_side")
                return []
            vif, ve = x["vif"], bytes.fromhex(x["ve"])
            return self.agree(u8(o["t"]), u8(o["u"]), u8(o["q"]), num(o["v"]), "%02X%s" % (vif if vif in (0xFD, 0xFB) else vif & 0x7F, "%02X" % (ve[0] & 0x7F) if vif in (0xFD, 0xFB) else ""), st) \
                if scale_of(vif, ve) == 1.0 else []
        if x["k"] == "cust":
            return self.custom(bytes.fromhex(x["t"]), x["e"], unhex(o["t"]), st) if x["e"] is None or len(x["t"]) // 2 <= 100 else []
        if o["r"] != 0 or o["dec"]["r"] != 0:
            return [Viol("frame-refused", f"valid telegram refused: {o['r']}")]
        r = record.split(bytes.fromhex(x["p"]))[0][0]
        g = o["dec"]["recs"][0]
        if r.vif & 0x7F == 0x7C:
            return self.custom(r.custom_text(), r.vife[0] if r.vif & 0x80 else None, unhex(g["unit"]), st) if r.custom_text() else []
        mv = record.value(r)
        nr = g["nr"]
        if nr is None or not nr["num"] or mv is None or mv[0] not in ("int",) or not mv[1] or scale_of(r.vif, bytes(r.vife)) != 1.0 or is_date_vif(r.vif, r.vife):
            return []
        key = "%02X%s" % (r.vif & 0x7F, "%02X" % (r.vife[0] & 0x7F) if r.vif in (0xFD, 0xFB) else "")
        return self.agree(u8(g["unit"]), u8(nr["unit"]), u8(nr["q"]), num(nr["v"]) / mv[1], key, st)

    def finish(self, s, tier):
        return [] if s.count.get("pairs_judged", 0) > 300 else ["too few pairs judged"]


# ------------------------------------------------------------------------------------------ D01 / D02
def bcd4(b):
    return "%X" % int.from_bytes(b, "little")


class _Fixed(Check):
    def tel(self, rng, t1=None, t2=None, status=None):
        ident = record.rand_bcd(rng, 4) if rng.random() < .8 else record.rand_bytes(rng, 4)
        status = rng.getrandbits(8) if status is None else status
        t1 = rng.getrandbits(8) if t1 is None else t1
        t2 = rng.getrandbits(8) if t2 is None else t2
        cs = []
        for _ in range(2):
            if status & 0x80:
                cs.append(record.rand_int(rng, 4))
            else:
                cs.append(record.rand_bcd(rng, 4) if rng.random() < .95 else record.rand_bytes(rng, 4))
        return ident + bytes([rng.getrandbits(8), status, t1, t2]) + cs[0] + cs[1]


class D01(_Fixed):
    pid = "D01"
    batch = 1500
    quick_n = 6000
    thorough_n = 120000
    rule = ("a telegram counts by (type byte pair, status bits, value class); judged: header, both counters, function, unit and medium of accessors and XML; "
            "all 65536 type byte pairs of the medium accessor and all 64 unit codes and 256 status bytes are swept")

    def gen(self, rng, n, shard, nsh, tier):
        for t1 in range(256):
            if t1 % nsh != shard:
                continue
            for t2 in range(256):
                yield Case(f"fmed {t1} {t2}", {"k": "med", "t": [t1, t2]})
            for _ in range(3):
                yield self.case(self.tel(rng, t1=t1), rng)
                yield self.case(self.tel(rng, t2=t1), rng)
                yield self.case(self.tel(rng, status=t1), rng)
        for _ in range(n):
            yield self.case(self.tel(rng), rng)

    def case(self, p, rng):
        return Case(f"msg dax {h(frame(rng, p, 0x73))}", {"k": "msg", "p": p.hex()})

    def judge(self, c, o, st):
        o = o["o"]
        if c.ctx["k"] == "med":
            t1, t2 = c.ctx["t"]
            code = t1 >> 6 | t2 >> 6 << 2
            st.inc("medium_pairs")
            t = unhex(o[0] if isinstance(o, list) else o).decode("latin-1")
            return [] if tables.fixed_medium_match(code, t) else [Viol(f"medium-{code:X}", f"type bytes {t1:02X} {t2:02X} (medium {code:X}) reported as {t!r}")]
        p = bytes.fromhex(c.ctx["p"])
        if o["r"] != 0 or o["dec"]["r"] != 0:
            return [Viol("refused", f"valid fixed telegram refused: {o['r']} {o['dec'] and o['dec']['r']}")]
        d = o["dec"]
        vs = []
        if d["type"] != 1:
            return [Viol("type", f"fixed telegram decoded as type {d['type']}")]
        if bytes.fromhex(d["fix"]) != p:
            vs.append(Viol("struct", f"decoded structure {d['fix']} differs from the telegram {p.hex()}"))
        status, t = p[5], (p[6], p[7])
        doc, err = strict(d["xml"])
        if err:
            return vs + [Viol("xml", err)]
        sl = doc["slave"]
        want = {"Id": bcd4(p[:4]), "AccessNumber": str(p[4]), "Status": "%02X" % status}
        for k, v in want.items():
            if sl.get(k, b"").decode() != v:
                vs.append(Viol("xml-" + k, f"{k} is {sl.get(k)!r}, the telegram says {v}"))
        code = t[0] >> 6 | t[1] >> 6 << 2
        if not tables.fixed_medium_match(code, sl.get("Medium", b"").decode("latin-1")):
            vs.append(Viol("xml-medium", f"medium {code:X} shown as {sl.get('Medium')!r}"))
        if len(doc["recs"]) != 2:
            return vs + [Viol("xml-records", f"{len(doc['recs'])} records")]
        fn = "stored" if status & 0x40 else "actual"
        for i in (0, 1):
            cnt = p[8 + 4 * i:12 + 4 * i]
            r = doc["recs"][i]
            binary = bool(status & 0x80)
            v = str(int.from_bytes(cnt, "little", signed=True)) if binary else bcd4(cnt)
            st.sig(t[i] & 63, status >> 6, len(v), v[:1] == "-")
            st.inc("counters")
            if r.get("Value", b"").decode() not in (v, v.lstrip("0") or "0"):
                vs.append(Viol("value-" + ("bin" if binary else "bcd"), f"counter {cnt.hex()} (status {status:02X}) shown as {r.get('Value')!r}, expected {v}"))
            if fn not in r.get("Function", b"").decode("latin-1").lower():
                vs.append(Viol("function", f"status {status:02X}: function {r.get('Function')!r}"))
            if fn not in unhex(d["fn"]).decode("latin-1").lower():
                vs.append(Viol("function-accessor", f"status {status:02X}: function {unhex(d['fn'])!r}"))
            for where, u in (("xml", r.get("Unit", b"")), ("accessor", unhex(d["u%d" % (i + 1)]))):
                vs += self.unit(t[i] & 63, u, where)
            if r.get("@id") != str(i):
                vs.append(Viol("xml-id", f"record {i} has id {r.get('@id')}"))
        return vs

    def unit(self, code, raw, where):
        try:
            s = raw.decode("utf-8")
        except UnicodeDecodeError:
            s = raw.decode("latin-1")
        e = tables.FIXED.get(code)
        low = s.lower()
        if e is None:
            ok = {0: "h,m,s", 1: "d,m,y", 0x3A: "reserved", 0x3B: "reserved", 0x3C: "reserved", 0x3D: "reserved", 0x3E: "historic", 0x3F: "without"}[code] in low
        else:
            m = tables.unit_of(s)
            ok = m is not None and tables.same(m, e[:2])
        return [] if ok else [Viol(f"unit-{code:02X}-{where}", f"unit code {code:02X} shown as {s!r} in {where}")]


class D02(_Fixed):
    pid = "D02"
    batch = 1000
    quick_n = 5000
    thorough_n = 120000
    rule = ("a conversion counts by (unit code, coding, sign); judged: dimension and magnitude of mbus_parse_fixed_record against the EN 1434-3 table, "
            "the function text, and agreement with the plain unit text")

    def gen(self, rng, n, shard, nsh, tier):
        for u in range(256):
            if u % nsh == shard:
                for s in (0x00, 0x80, 0x40, 0xC0, rng.getrandbits(8)):
                    v = record.rand_int(rng, 4) if s & 0x80 else record.rand_bcd(rng, 4)
                    yield Case(f"fix {s} {u} {h(v)}", {"k": "fix", "s": s, "u": u, "v": v.hex()})
        for _ in range(n):
            p = self.tel(rng)
            if rng.random() < 0.5:
                yield Case(f"fix {p[5]} {p[6]} {h(p[8:12])}", {"k": "fix", "s": p[5], "u": p[6], "v": p[8:12].hex()})
            else:
                yield Case(f"msg danx {h(frame(rng, p, 0x73))}", {"k": "msg", "p": p.hex()})

    def one(self, s, u, v, nr, st, plain=None):
        code = u & 0x3F
        e = tables.FIXED.get(code)
        val = int.from_bytes(v, "little", signed=True) if s & 0x80 else record.bcd(v)
        if val is None:
            st.inc("bcd_not_judged")
            return []
        if nr is None:
            return [Viol(f"refused-{code:02X}", f"unit code {code:02X} has no normalised record")] if e or code == 0x3F else []
        unit, got, q = u8(nr["unit"]), num(nr["v"]), u8(nr["q"])
        st.sig(code, s >> 7, val < 0, len(str(val)))
        st.inc("judged")
        vs = []
        fn = "stored" if s & 0x40 else "actual"
        if fn not in unhex(nr["fn"]).decode("latin-1").lower():
            vs.append(Viol("function", f"status {s:02X}: function {unhex(nr['fn'])!r}"))
        if not nr["num"]:
            return vs + [Viol(f"text-{code:02X}", f"unit code {code:02X} normalised as text")] if e else vs
        if e is None:
            if code in (0x3E, 0x3F):
                if unit not in ("", "-") and (norm_mag(unit) or "historic" not in unit.lower()):
                    vs.append(Viol(f"unit-{code:02X}", f"unit code {code:02X} (no own unit) normalised with unit {unit!r}"))
                if not close(got, float(val)):
                    vs.append(Viol(f"value-{code:02X}", f"{val} normalised to {got}"))
            elif norm_mag(unit) and unit:
                vs.append(Viol(f"unit-{code:02X}", f"unit code {code:02X} normalised with unit {unit!r}"))
            return vs
        m = norm_mag(unit)
        if m is None or (m[0] != e[0]):
            return vs + [Viol(f"unit-{code:02X}", f"unit code {code:02X} ({e[0]}) normalised with unit {unit!r}")]
        if not close(got * m[1], val * e[1]):
            vs.append(Viol(f"value-{code:02X}", f"code {code:02X}: {val} normalised to {got!r} {unit}, expected {val * e[1] / m[1]!r}"))
        if not tables.alt_match(e[2], q):
            vs.append(Viol(f"quantity-{code:02X}", f"code {code:02X}: quantity {q!r}, expected {e[2]}"))
        if plain is not None:
            pm = tables.unit_of(plain)
            if pm is None or (val and not close(got * m[1], val * pm[1])) or pm[0] != m[0]:
                vs.append(Viol(f"plain-{code:02X}", f"code {code:02X}: plain unit {plain!r} against normalised {got!r} {unit} for counter {val}"))
        return vs

    def judge(self, c, o, st):
        o = o["o"]
        x = c.ctx
        if x["k"] == "fix":
            r = o[0]
            return self.one(x["s"], x["u"], bytes.fromhex(x["v"]), r["n"], st, u8(r["u"]) if r.get("u") else None)
        p = bytes.fromhex(x["p"])
        if o["r"] != 0 or o["dec"]["r"] != 0:
            return [Viol("refused", f"valid fixed telegram refused: {o['r']}")]
        d = o["dec"]
        vs = []
        for i in (0, 1):
            vs += self.one(p[5], p[6 + i], p[8 + 4 * i:12 + 4 * i], d["n%d" % (i + 1)], st, u8(d["u%d" % (i + 1)]))
        # the document shows the counters as they are coded
        for key in ("xml",):
            doc = texts.parse_doc(d[key])
            if doc is None or len(doc["recs"]) != 2:
                vs.append(Viol("document-" + key, f"fixed telegram {p.hex()}: document {str(doc)[:120]}"))
                continue
            for i, r in enumerate(doc["recs"]):
                v = p[8 + 4 * i:12 + 4 * i]
                val = int.from_bytes(v, "little", signed=True) if p[5] & 0x80 else record.bcd(v)
                if val is None or (val < 0 and not p[5] & 0x80):
                    continue        # digits shown as they are
                st.inc("document_values")
                try:
                    got = float(r.get("Value"))
                except (TypeError, ValueError):
                    got = None
                if got != val:
                    vs.append(Viol("document-value", f"fixed telegram {p.hex()}: counter {i + 1} is {val}, the document says {r.get('Value')}"))
        return vs
