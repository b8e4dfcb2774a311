"""L01: the printed listing; X02 (second part): the sample documents shipped with the library; V06 (second part): product names."""
import glob, json, os, re
from model import wire, record, texts, tables
from model.record import Unjudged
from vlib import build
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame, unhex
from checks.xmlout import rand_tel, small_payload, nasty_payload, strict
from checks.normal import bcd4


# ------------------------------------------------------------------------------------------ L01
def lines_of(b):
    """The listing as (name, value) pairs; a line may start with the function's name and a colon."""
    out = []
    for l in b.split(b"\n"):
        if not l.strip():
            continue
        m = re.match(rb"(?:[A-Za-z_][\w ]*(?:\([^)]*\))?: )?(.*?) *= (.*)$", l, re.S)
        out.append((m.group(1).decode("latin-1"), m.group(2)) if m else (None, l))
    return out


class L01(Check):
    """The listing of a decoded telegram on standard output."""
    pid = "L01"
    batch = 300
    quick_n = 2500
    thorough_n = 60000
    rule = ("a telegram counts by (kind, records, DIF, VIF, chain lengths); judged: every line of the listing against the telegram's own bytes, the number "
            "and order of the records, and that header, data and whole listing agree")

    def gen(self, rng, n, shard, nsh, tier):
        jobs = []
        for b in range(256):
            hdr = record.rand_header(rng)
            if b & 0x0F != 0x0F:
                r = record.rand_rec(rng, low=b & 0x0F, ndife=b >> 7)
                r.dif = b
                jobs.append(frame(rng, hdr + r.encode()))
            else:
                jobs.append(frame(rng, hdr + bytes([b & 0x1F, 1, 2, 3])))
            jobs.append(frame(rng, bytes([0x70 + b % 10, 0x56, 0x34, b]) + record.rand_bytes(rng, 12), 0x73))
            jobs.append(frame(rng, bytes([b]), 0x70))
            for i in (5, 6, 7):
                p = bytearray(record.rand_bytes(rng, 16)); p[i] = b
                jobs.append(frame(rng, bytes(p), 0x73))
            for i in range(12):
                p = bytearray(record.rand_header(rng)); p[i] = b
                jobs.append(frame(rng, bytes(p)))
        for m in jobs[shard::nsh]:
            yield Case(f"msg dL {h(m)}", {"m": m.hex()})
        for _ in range(n):
            k = rng.random()
            if k < 0.5:
                m = frame(rng, record.rand_payload(rng, rng.choice([30, 100, 252]))[0])
            elif k < 0.7:
                m = frame(rng, nasty_payload(rng, rng.choice([60, 252])))
            elif k < 0.85:
                m = frame(rng, small_payload(rng))
            else:
                m = rand_tel(rng)
            yield Case(f"msg dL {h(m)}", {"m": m.hex()})

    def judge(self, c, o, st):
        o = o["o"]
        m = bytes.fromhex(c.ctx["m"])
        if o["r"] != 0 or o["dec"]["r"] != 0:
            st.inc("undecodable")
            return []
        p, d = m[7:-2], o["dec"]
        whole, own, head = (bytes.fromhex(d[k]) for k in ("ltxt", "lown", "lhead"))
        vs = []
        if whole != own:
            vs.append(Viol("listings-differ", f"the listing of the data {whole[:300]!r} is not that of its kind {own[:300]!r}"))
        got = lines_of(whole)
        st.inc("listings")
        st.inc("lines", len(got))
        if d["type"] == 3:
            st.sig("error", p[:1])
            want = [("Error", b"%d" % (p[0] if p else 0))]
            return vs + self.compare(got, want, m)
        if d["type"] == 1:
            st.sig("fixed", p[5:8])
            return vs + self.compare(got, self.fixed(p), m)
        try:
            recs, more = record.split(p)
        except (Unjudged, TypeError):
            return vs
        want = self.header(p)
        vs += self.compare(lines_of(head), want, m, "header ")
        for i, r in enumerate(recs):
            st.sig(r.dif, len(r.dife), r.vif, len(r.vife), len(r.data))
            st.inc("records")
            want += self.rec(i, r)
        return vs + self.compare(got, want, m)

    def header(self, p):
        return [("ID", bcd4(p[:4]).encode()), ("Manufacturer", b"0x%02X%02X" % (p[5], p[4])), ("Manufacturer", texts.manufacturer(p[4], p[5])),
                ("Version", b"0x%02X" % p[6]), ("Medium", lambda v: v.endswith(b" (0x%02X)" % p[7]) and texts.medium_match(p[7], v[:-7])),
                ("Access #", b"0x%02X" % p[8]), ("Status", b"0x%02X" % p[9]), ("Signature", b"0x%02X%02X" % (p[11], p[10]))]

    def rec(self, i, r):
        yn = lambda b: b"Yes" if b & 0x80 else b"No"
        special = r.dif in (0x0F, 0x1F)
        w = [("Record ID", b"%d" % i), ("DIF", b"%02X" % r.dif), ("DIF.Extension", yn(r.dif)), ("DIF.StorageNumber", b"%d" % (r.dif >> 6 & 1)),
             ("DIF.Function", None if special else record.function(r).encode()), ("DIF.Data", b"%02X" % (r.dif & 0x0F))]
        if special:
            w.append(("VENDOR DATA [size=%d]" % len(r.data), lambda v: bytes.fromhex(v.decode("latin-1")) == bytes(r.data)))
            if r.dif == 0x1F:
                w.append((None, lambda v: b"More records follow" in v))
            return w
        w.append(("DATA LENGTH", b"%d" % len(r.data)))
        for j, b in enumerate(r.dife):
            n = "DIFE[%d]" % j
            w += [(n, b"%02X" % b), (n + ".Extension", yn(b)), (n + ".Device", b"%d" % (b >> 6 & 1)), (n + ".Tariff", b"%d" % (b >> 4 & 3)),
                  (n + ".StorageNumber", b"%02X" % (b & 0x0F))]
        w += [("VIF", b"%02X" % r.vif), ("VIF.Extension", yn(r.vif)), ("VIF.Value", b"%02X" % (r.vif & 0x7F))]
        for j, b in enumerate(r.vife):
            n = "VIFE[%d]" % j
            w += [(n, b"%02X" % b), (n + ".Extension", yn(b)), (n + ".Value", b"%02X" % (b & 0x7F))]
        return w

    def fixed(self, p):
        code = p[6] >> 6 | p[7] >> 6 << 2
        med = lambda v: tables.fixed_medium_match(code, v.decode("latin-1"))
        cnt = lambda b: b"%d" % int.from_bytes(b, "little", signed=True) if p[5] & 0x80 else bcd4(b).encode()
        return [("ID", bcd4(p[:4]).encode()), ("Access #", b"0x%02X" % p[4]), ("Status", b"0x%02X" % p[5]),
                ("Function", b"Stored value" if p[5] & 0x40 else b"Actual value"),
                ("Medium1", med), ("Unit1", None), ("Counter1", cnt(p[8:12])), ("Medium2", med), ("Unit2", None), ("Counter2", cnt(p[12:16]))]

    def compare(self, got, want, m, what=""):
        for i, (n, e) in enumerate(want):
            if i >= len(got):
                return [Viol("line-missing", f"{what}listing of {m.hex()} ends before {n}")]
            gn, gv = got[i]
            if gn != n:
                return [Viol("line-order", f"{what}listing of {m.hex()}: line {i} is {gn} = {gv!r} where {n} belongs")]
            try:
                ok = True if e is None else e(gv) if callable(e) else e == gv
            except ValueError:
                ok = False
            if not ok:
                return [Viol("line-" + re.sub(r"\d+", "", str(n)), f"{what}listing of {m.hex()}: {n} is {gv!r}" + ("" if callable(e) else f", the telegram says {e!r}"))]
        if len(got) > len(want):
            return [Viol("line-extra", f"{what}listing of {m.hex()} goes on with {got[len(want)]}")]
        return []

    def finish(self, s, tier):
        return [] if s.count.get("records", 0) > 500 else ["too few records listed"]


# ------------------------------------------------------------------------------------------ X02, second part
class X02Samples(Check):
    """The telegrams of real meters that come with the library, against the documents that come with them."""
    pid = "X02"
    name = "samples"
    order = 1
    batch = 40
    quick_n = 0
    thorough_n = 0
    rule = "sample telegrams: slave information and every record of the plain and the normalised document equal those of the document shipped with it"

    def gen(self, rng, n, shard, nsh, tier):
        for i, f in enumerate(sorted(glob.glob(os.path.join(build.REPO, "test", "*-frames", "*.hex")))):
            if i % nsh != shard:
                continue
            try:
                b = bytes.fromhex("".join(open(f, encoding="latin-1").read().split()))
            except ValueError:
                continue
            docs = {}
            for k, e in (("xml", ".xml"), ("nxml", ".norm.xml")):
                if os.path.exists(f[:-4] + e):
                    docs[k] = f[:-4] + e
            if docs and b:
                yield Case(f"msg dxN {h(b)}", {"f": os.path.basename(f), "docs": docs})

    def judge(self, c, o, st):
        o = o["o"]
        if o["r"] != 0 or o["dec"]["r"] != 0:
            return [Viol("sample-refused", f"the sample telegram {c.ctx['f']} is refused")]
        vs = []
        for k, f in c.ctx["docs"].items():
            want = texts.parse_strict(open(f, "rb").read().strip())
            got, err = strict(o["dec"][k])
            st.inc("sample_documents")
            st.sig(c.ctx["f"], k)
            if err:
                vs.append(Viol("sample-malformed", f"{c.ctx['f']}: {err}"))
                continue
            if got["slave"] != want["slave"]:
                vs.append(Viol("sample-header", f"{c.ctx['f']}: slave information {got['slave']}, shipped document {want['slave']}"))
            if len(got["recs"]) != len(want["recs"]):
                vs.append(Viol("sample-records", f"{c.ctx['f']}: {len(got['recs'])} records, shipped document {len(want['recs'])}"))
                continue
            for i, (g, w) in enumerate(zip(got["recs"], want["recs"])):
                if g != w:
                    t = [x for x in set(g) | set(w) if g.get(x) != w.get(x)]
                    vs.append(Viol("sample-record", f"{c.ctx['f']} {k} record {i}: " + ", ".join(f"{x} is {g.get(x)!r}, shipped document {w.get(x)!r}" for x in t)))
                    break
        return vs

    def finish(self, s, tier):
        return [] if s.count.get("sample_documents", 0) > 100 else ["sample documents missing"]


# ------------------------------------------------------------------------------------------ V06, second part
class V06Products(Check):
    pid = "V06"
    name = "products"
    order = 1
    batch = 4
    quick_n = 0
    thorough_n = 0
    rule = ("product names: every manufacturer code (quick: those of three letters) with every version byte and the media that tell products apart, and every "
            "highest identification byte for manufacturers in the table, against the table of known devices (model/products.json)")

    def gen(self, rng, n, shard, nsh, tier):
        top = 65536 if tier == "thorough" else 0x6B5B       # beyond "ZZZ"
        jobs = [(lo, min(lo + 64, top), med, None) for lo in range(0, top, 64) for med in (0x02, 0x06, 0x0F, None)]
        jobs += [(m, m + 1, None, i) for m in sorted({man(r[0]) for r in self.rules()}) for i in range(256)]
        if tier == "thorough":
            jobs += [(m, m + 1, i, None) for m in sorted({man(r[0]) for r in self.rules()}) for i in range(256)]
        for lo, hi, med, i3 in jobs[shard::nsh]:
            med = rng.randrange(256) if med is None else med
            i3 = rng.randrange(256) if i3 is None else i3
            yield Case(f"prods {lo} {hi} {med} {i3} {rng.randrange(1 << 30)}", {"r": [lo, hi, med, i3]})

    def rules(self):
        if not hasattr(self, "table"):
            self.table = json.load(open(os.path.join(os.path.dirname(__file__), "..", "model", "products.json")))
        return self.table

    def judge(self, c, o, st):
        lo, hi, med, i3 = c.ctx["r"]
        got = {(m, v): unhex(s) for m, v, s in o["o"]}
        want = {}
        for m, vs_, md, i, name in self.rules():
            if lo <= man(m) < hi and fits(md, med) and fits(i, i3):
                for v in range(256):
                    if fits(vs_, v):
                        want[man(m), v] = name
        st.inc("headers", (hi - lo) * 256)
        st.inc("known", len(want))
        if want:
            st.sig(lo, med, i3)
        vs = []
        for k in set(got) | set(want):
            a, e = got.get(k), want.get(k)
            if (a is None and k in got) or (a.decode("latin-1") if a else None) != e:
                vs.append(Viol("product", f"manufacturer {k[0]:04X} version {k[1]:02X} medium {med:02X} id {i3:02X}......: product {a!r}, known as {e!r}"))
        return vs[:3]

    def finish(self, s, tier):
        return [] if s.count.get("known", 0) > 50 else ["product table not reached"]


def man(m):
    return (ord(m[0]) - 64) << 10 | (ord(m[1]) - 64) << 5 | (ord(m[2]) - 64)


def fits(pat, v):
    if pat == "*":
        return True
    if pat[0] == "!":
        return v != int(pat[1:], 16)
    a, _, b = pat.partition("-")
    return int(a, 16) <= v <= int(b or a, 16)
