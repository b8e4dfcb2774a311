"""X01, X02, N03: the XML documents."""
from model import wire, record, texts
from model.record import Rec, Unjudged
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame, unhex, special_fn, S2M_CTRL

NASTY = b"&<>\"'\x01\x09\x0d\x7f\x80\xff;]a "


def strict(hexs):
    """(doc, None) or (None, message)"""
    try:
        return texts.parse_strict(bytes.fromhex(hexs)), None
    except texts.Bad as e:
        return None, str(e)


def edge_payload(rng):
    """Many short records, then one whose texts grow sixfold: the document is nearly at the end of a block when the long one comes."""
    p = bytearray(record.rand_header(rng))
    vif = rng.choice([0x13, 0x6C, 0x6D, 0x20, 0x7A, 0x79, 0x3B, rng.randrange(0x7B)])
    for _ in range(rng.choice([rng.randrange(12, 34), rng.randrange(14, 30), rng.randrange(0, 90)])):
        p += bytes([rng.choice([0, 0x30, 0x40])]) + bytes([vif])
    p += bytes([0x01, 0x13, 0x01])[:rng.choice([0, 3])]
    room = 252 - len(p)
    if room > 8:
        if rng.random() < 0.6:
            n = min(191, room - 3)
            p += Rec(0x3D, vif=vif, data=bytes([n]) + bytes([rng.choice(b'\"\"&')]) * n).encode()
        else:
            l = min(128, room - 4)
            p += Rec(0x00 if l < 100 else 0x3D, vif=0x7C, cust=b'"' * l, data=b"" if l < 100 else bytes([max(0, room - 4 - l)]) + b'"' * max(0, room - 4 - l)).encode()
    return bytes(p[:252])


def nasty_payload(rng, maxlen=252):
    """Records whose texts need escaping, dense enough to stretch the document."""
    p = bytearray(record.rand_header(rng))
    style = rng.randrange(4)
    while len(p) < maxlen - 6:
        room = maxlen - len(p)
        k = rng.random()
        if style == 0:
            n = min(room - 3, rng.choice([room, 191, 120, 50]))
            n = max(0, min(n, 191))
            r = Rec(0x0D, vif=0x79, data=bytes([n]) + bytes([rng.choice(b"&\"<>")]) * n)
        elif style == 1:
            l = max(0, min(128, room - 5, rng.choice([128, 127, 60, 5])))
            r = Rec(0x01, vif=0x7C, cust=bytes([rng.choice(NASTY)]) * l if k < 0.5 else bytes(rng.choice(NASTY) for _ in range(l)), data=b"\x07")
        elif style == 2:
            n = max(0, min(room - 3, rng.randrange(0, 40)))
            r = Rec(0x0D, vif=0x79, data=bytes([n]) + bytes(rng.choice(NASTY) for _ in range(n)))
        else:
            r = record.rand_rec(rng, maxlen=room - 2, text_nasty=0.9)
        e = r.encode()
        if len(e) > room:
            break
        p += e
        if rng.random() < 0.05:
            break
    if rng.random() < 0.3 and len(p) < maxlen:
        p += bytes([rng.choice([0x0F, 0x1F])]) + record.rand_bytes(rng, rng.randrange(0, maxlen - len(p)))
    return bytes(p)


def small_payload(rng, maxlen=252):
    """As many small records as fit."""
    p = bytearray(record.rand_header(rng))
    r = rng.choice([Rec(0x00, vif=0x13), Rec(0x08, vif=0x13), Rec(0x01, vif=0x7B, data=b"\1"), Rec(0x00, vif=0x78), Rec(0xC0, b"\xff\x7f", 0x13), Rec(0x01, vif=0x2F, data=b"\xff")])
    n = rng.randrange(1, 121)
    for _ in range(n):
        if len(p) + len(r.encode()) > maxlen:
            break
        p += r.encode()
    return bytes(p)


def rand_tel(rng):
    k = rng.random()
    if k < 0.3:
        return frame(rng, nasty_payload(rng))
    if k < 0.45:
        return frame(rng, small_payload(rng))
    if k < 0.5:
        return frame(rng, record.rand_bytes(rng, 16), 0x73)
    if k < 0.52:
        return frame(rng, record.rand_bytes(rng, rng.randrange(1, 3)), 0x70)
    return frame(rng, record.rand_payload(rng, rng.choice([40, 252]))[0])


# ------------------------------------------------------------------------------------------ X01
class X01(Check):
    pid = "X01"
    batch = 250
    quick_n = 3000
    thorough_n = 60000
    rule = ("a document counts by (interface, record count, length class, which characters needed escaping); an encode counts by (buffer size, "
            "characters); judged: strict XML parse, text equality with the accessors after neutralising control characters, red zones, entities")

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n):
            k = rng.random()
            if k < 0.6:
                yield Case(f"msg daxnNz {h(rand_tel(rng))}", {"k": "msg"})
            elif k < 0.8:
                ms = [rand_tel(rng) for _ in range(rng.randrange(2, 7))]
                yield Case("chain " + " ".join(map(h, ms)), {"k": "chain"})
            else:
                l = rng.choice([0, 1, 2, 5, 10, rng.randrange(0, 60)])
                s = bytes(rng.choice(NASTY) if rng.random() < 0.6 else rng.randrange(1, 256) for _ in range(l))
                m = rng.choice([rng.randrange(0, 20), rng.randrange(1, 400), 6 * l + 7, 6 * l + 6, len(s) + 6])
                yield Case(f"xenc {m} {h(s)}", {"k": "xenc", "m": m, "s": s.hex()})
        for m in range(0, 40):
            if m % nsh == shard:
                for c in range(1, 256):
                    for l in (1, 7, 40):
                        yield Case(f"xenc {m} {h(bytes([c]) * l)}", {"k": "xenc", "m": m, "s": (bytes([c]) * l).hex()})
        for e in range(256):
            if e % nsh == shard:
                yield Case(f"lut errxml {e}", {"k": "err"})

    def judge(self, c, o, st):
        o = o["o"]
        k = c.ctx["k"]
        vs = []
        if k == "xenc":
            s, m = bytes.fromhex(c.ctx["s"]), c.ctx["m"]
            st.inc("encodes")
            st.sig("xenc", m, len(s), s[:1])
            if m == 0:
                return [Viol("xenc-zero", "success reported for a zero-length buffer")] if o["r"] == 0 else []
            out = bytes.fromhex(o["s"])
            if not o["t"]:
                return [Viol("xenc-unterminated", f"no terminator within {m} bytes for {s!r}")]
            # the output must be the encoding of a prefix of s, and of all of s when the room is ample
            enc, ok = b"", out == b""
            for i, x in enumerate(s):
                enc += {0x26: b"&amp;", 0x3C: b"&lt;", 0x3E: b"&gt;", 0x22: b"&quot;"}.get(x, b" " if x < 32 or x == 127 else bytes([x]))
                ok = ok or enc == out
            if not ok:
                return [Viol("xenc-text", f"{s!r} with {m} bytes gives {out!r}")]
            if m > len(enc) + 6 and out != enc:
                return [Viol("xenc-cut", f"{s!r} with {m} bytes gives only {out!r}")]
            return []
        if k == "err":
            d, e = strict(o[0])
            st.inc("documents")
            return [Viol("malformed-error", e)] if e else []
        if k == "chain":
            if o["xml"] is None:
                st.inc("no_document")
                return []
            d, e = strict(o["xml"])
            st.inc("documents")
            if e:
                return [Viol("malformed-chain", f"{e}: {unhex(o['xml'])[-300:]!r}")]
            st.sig("chain", len(d["recs"]), len(o["xml"]) // 1000)
            return []
        dec = o["dec"]
        if dec["r"] != 0:
            if o.get("fxml") is not None:
                vs.append(Viol("document-of-undecodable", "mbus_frame_xml gives a document for an undecodable telegram"))
            return vs
        for nm, x in (("xml", dec["xml"]), ("frame-xml", o["fxml"]), ("normalised", dec["nxml"])):
            if x is None:
                if nm == "normalised" and dec["type"] == 3:
                    continue
                vs.append(Viol("no-" + nm, "no document for a decoded telegram"))
                continue
            d, e = strict(x)
            st.inc("documents")
            if e:
                vs.append(Viol("malformed-" + nm, f"{e}: ...{unhex(x)[-200:]!r}"))
                continue
            st.sig(nm, len(d["recs"]), len(x) // 500)
            if dec["type"] != 2 or len(d["recs"]) != len(dec["recs"]):
                continue
            for i, (g, r) in enumerate(zip(dec["recs"], d["recs"])):
                if nm != "normalised":
                    pairs = [("Value", g["val"])] + ([] if g["dif"] in (0x0F, 0x1F) else [("Unit", g["unit"])])
                else:
                    nr = g["nr"]
                    if not nr:
                        continue
                    pairs = [("Unit", nr["unit"]), ("Quantity", nr["q"])] + ([] if nr["num"] else [("Value", nr["v"])])
                for t, e in pairs:
                    e = texts.neutral(unhex(e or ""))
                    a = r.get(t, b"" if e == b"" else None)
                    st.inc("texts_compared")
                    if any(ch in e for ch in b"&<>\""):
                        st.inc("texts_with_markup")
                    if a != e:
                        vs.append(Viol(f"text-{nm}-{t}", f"record {i}: {t} is {a!r}, the record's text is {e!r}"))
        return vs[:4]


# ------------------------------------------------------------------------------------------ X02
class X02(Check):
    pid = "X02"
    batch = 200
    quick_n = 2500
    thorough_n = 50000
    rule = ("a document counts by (telegram kinds, records per telegram); judged: one DataRecord per decoded record, ids, frame numbers, "
            "attributes and values as the accessors report them for the separately decoded telegrams; no document when one is undecodable")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n // 8):
            ms = [frame(rng, edge_payload(rng)) for _ in range(rng.choice([1, 1, 2, 3]))]
            yield Case("seq chain " + " ".join(map(h, ms)) + " ;; " + " ;; ".join(f"msg dax {h(m)}" for m in ms), {})
        for _ in range(n):
            k = rng.random()
            ms = []
            long = rng.random() < 0.03      # many telegrams, nearly always all decodable
            nt = rng.choice([9, 10, 13, 17, 20, 33, 66, 130, 260]) if long else 1 if k < 0.3 else rng.choice([2, 2, 3, 5, 8])
            if long:
                st = rng.random() < 0.95
            for _ in range(nt):
                q = rng.random()
                if long and st:
                    ms.append(frame(rng, small_payload(rng, rng.choice([20, 40, 80])) if q < 0.5 else record.rand_payload(rng, rng.choice([30, 60]))[0] if q < 0.98 else small_payload(rng)))
                    continue
                if q < 0.85:
                    m = frame(rng, record.rand_payload(rng, rng.choice([40, 252]))[0] if q < 0.5 else nasty_payload(rng, rng.choice([60, 252])) if q < 0.7 else small_payload(rng))
                elif q < 0.9:
                    p = bytearray(record.rand_payload(rng, 200, nrec=5, tail=0)[0])
                    m = frame(rng, bytes(p[:rng.randrange(12, len(p) + 1)]))
                elif q < 0.93:
                    m = frame(rng, record.rand_bytes(rng, 16), 0x73)
                elif q < 0.96:
                    m = frame(rng, record.rand_bytes(rng, rng.randrange(0, 3)), 0x70)
                elif q < 0.98:
                    m = frame(rng, record.rand_bytes(rng, rng.randrange(0, 12)))
                else:
                    m = rng.choice([wire.ack(), wire.short(0x5B, 1), frame(rng, record.rand_bytes(rng, 20), 0x75)])
                ms.append(m)
            cmd = "seq chain " + " ".join(map(h, ms)) + " ;; " + " ;; ".join(f"msg dax {h(m)}" for m in ms)
            yield Case(cmd, {})

    def rec_eq(self, g, r, vs, where):
        def eq(t, e):
            a = r.get(t)
            if a != e:
                vs.append(Viol("element-" + t, f"{where}: {t} is {a!r}, the record has {e!r}"))
        if g["dif"] in (0x0F, 0x1F):
            eq("Function", b"Manufacturer specific" if g["dif"] == 0x0F else b"More records follow")
        else:
            eq("Function", texts.neutral(unhex(g["fn"])))
            eq("StorageNumber", str(g["st"]).encode())
            if g["ta"] >= 0:
                eq("Tariff", str(g["ta"]).encode())
                eq("Device", str(g["dev"]).encode())
            elif "Tariff" in r or "Device" in r:
                vs.append(Viol("element-Tariff-extra", f"{where}: tariff or device without DIFE"))
            eq("Unit", texts.neutral(unhex(g["unit"] or "")))
        eq("Value", texts.neutral(unhex(g["val"])))

    def judge(self, c, o, st):
        ch, singles = o["o"][0]["o"], [x["o"] for x in o["o"][1:]]
        vs = []
        # every single telegram
        for s in singles:
            if s["r"] != 0 or s["dec"]["r"] != 0 or s["dec"].get("type") != 2:
                continue
            d = texts.parse_doc(s["dec"]["xml"])
            st.inc("single_documents")
            if d is None:
                vs.append(Viol("no-document", "decoded telegram without a well-formed document"))
                continue
            if len(d["recs"]) != len(s["dec"]["recs"]):
                vs.append(Viol("record-count", f"{len(d['recs'])} DataRecords for {len(s['dec']['recs'])} records"))
                continue
            for i, (g, r) in enumerate(zip(s["dec"]["recs"], d["recs"])):
                if r.get("@id") != str(i) or "@frame" in r:
                    vs.append(Viol("id", f"record {i} has id {r.get('@id')} frame {r.get('@frame')}"))
                self.rec_eq(g, r, vs, f"record {i}")
        # the chain
        if any(s["r"] != 0 for s in singles):
            return vs[:4]
        kinds = [(s["dec"]["type"] if s["dec"]["r"] == 0 else None) for s in singles]
        st.sig(tuple(kinds), tuple(len(s["dec"].get("recs", [])) for s in singles))
        if None in kinds or kinds[0] is None:
            st.inc("chains_undecodable")
            if kinds[0] in (1, 3):
                return vs[:4]
            if ch["xml"] is not None:
                vs.append(Viol("partial-document", f"a chain with an undecodable telegram yields a document: kinds {kinds}"))
            return vs[:4]
        if kinds[0] != 2:
            if len(kinds) == 1 and ch["xml"] is None:
                vs.append(Viol("no-document", "no document for a single fixed or error telegram"))
            return vs[:4]
        if any(k != 2 for k in kinds):
            st.inc("chains_of_mixed_kinds")
            if ch["xml"] is not None:
                d = texts.parse_doc(ch["xml"])
                if d is None or len({r.get("@frame") for r in d["recs"]}) != len(kinds):
                    vs.append(Viol("partial-document", f"a chain with a non-variable telegram yields a document without it: kinds {kinds}"))
            return vs[:4]
        st.inc("chains_decodable")
        d = texts.parse_doc(ch["xml"])
        if d is None:
            return vs + [Viol("no-chain-document", "no well-formed document for a decodable chain")]
        want = [(fi, g) for fi, s in enumerate(singles) for g in s["dec"]["recs"]]
        if len(want) != len(d["recs"]):
            return vs + [Viol("chain-record-count", f"{len(d['recs'])} DataRecords for {len(want)} records")]
        st.inc("chain_records", len(want))
        for i, ((fi, g), r) in enumerate(zip(want, d["recs"])):
            if r.get("@id") != str(i):
                vs.append(Viol("chain-id", f"record {i} has id {r.get('@id')}"))
            if len(singles) > 1 and r.get("@frame") != str(fi):
                vs.append(Viol("chain-frame", f"record {i} of telegram {fi} says frame {r.get('@frame')}"))
            if len(singles) == 1 and "@frame" in r:
                vs.append(Viol("chain-frame", "frame attribute on a single telegram"))
            import time
            ts = time.strftime("%Y-%m-%dT%H:%M:%SZ", time.gmtime(1700000001 + fi)).encode()
            if r.get("Timestamp") != ts:
                vs.append(Viol("chain-timestamp", f"record {i}: timestamp {r.get('Timestamp')}, telegram received {ts}"))
            self.rec_eq(g, r, vs, f"telegram {fi} record {i}")
        hs = {k: v for k, v in texts.parse_doc(singles[0]["dec"]["xml"])["slave"].items()}
        if d["slave"] != hs:
            vs.append(Viol("chain-header", f"slave information {d['slave']} differs from the first telegram's {hs}"))
        return vs[:4]

    def finish(self, st, tier):
        return [f"no {k}" for k in ("chains_decodable", "chains_undecodable", "single_documents") if not st.count.get(k)]


# ------------------------------------------------------------------------------------------ N03
class N03(Check):
    pid = "N03"
    batch = 250
    quick_n = 3000
    thorough_n = 60000
    rule = ("a record counts by (DIF, VIF, VIFE) whose normalised XML and normalised record were compared; judged: all elements equal")

    def gen(self, rng, n, shard, nsh, tier):
        for vif in range(256):
            for low in (1, 4, 0xC, 0xD, 5):
                if (vif * 5 + low) % nsh != shard:
                    continue
                r = record.rand_rec(rng, low=low, vif=vif & 0x7F, nvife=1 if vif & 0x80 else 0, maxlen=60)
                yield Case(f"msg danN {h(frame(rng, record.rand_header(rng) + r.encode()))}", {})
        for _ in range(n):
            k = rng.random()
            p = record.rand_payload(rng, rng.choice([40, 252]))[0] if k < 0.6 else nasty_payload(rng) if k < 0.75 else edge_payload(rng) if k < 0.85 else small_payload(rng)
            if rng.random() < 0.2:
                p = p[:12] + record.rand_bytes(rng, rng.randrange(1, 60))
            yield Case(f"msg danN {h(frame(rng, p))}", {})

    def judge(self, c, o, st):
        o = o["o"]
        dec = o["dec"]
        if dec["r"] != 0:
            return []
        d = texts.parse_doc(dec["nxml"])
        if d is None:
            return [Viol("no-document", "no well-formed normalised document for a decoded telegram")]
        st.inc("documents")
        if len(d["recs"]) != len(dec["recs"]):
            return [Viol("record-count", f"{len(d['recs'])} normalised DataRecords for {len(dec['recs'])} records")]
        vs = []
        for i, (g, r) in enumerate(zip(dec["recs"], d["recs"])):
            nr = g["nr"]
            st.sig(g["dif"], g["vif"], g["vife"][:2])
            if r.get("@id") != str(i):
                vs.append(Viol("id", f"record {i} has id {r.get('@id')}"))
            if nr is None:
                st.inc("records_without_normalisation")
                if any(k in r for k in ("Value", "Unit", "Quantity")):
                    vs.append(Viol("invented", f"record {i} cannot be normalised but the document gives {r}"))
                continue
            st.inc("records")
            exp = {"Function": texts.neutral(unhex(nr["fn"] or "")), "StorageNumber": str(nr["st"]).encode(),
                   "Unit": texts.neutral(unhex(nr["unit"] or "")), "Quantity": texts.neutral(unhex(nr["q"] or "")),
                   "Value": (b"%f" % nr["v"] if isinstance(nr["v"], (int, float)) else None) if nr["num"] else texts.neutral(unhex(nr["v"] or ""))}
            if nr["ta"] >= 0:
                exp["Tariff"] = str(nr["ta"]).encode()
                exp["Device"] = str(nr["dev"]).encode()
            for t, e in exp.items():
                if e is None:
                    continue
                a = r.get(t, b"" if e == b"" else None)
                if t == "StorageNumber" and g["dif"] in (0x0F, 0x1F):
                    continue
                if a != e:
                    vs.append(Viol("element-" + t, f"record {i}: {t} is {a!r} in the document, {e!r} in the record"))
            if nr["ta"] < 0 and "Tariff" in r:
                vs.append(Viol("element-Tariff-extra", f"record {i}: tariff invented"))
        return vs[:4]
