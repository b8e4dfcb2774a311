"""F01-F05: the link layer."""
import re
from model import wire, record
from vlib.core import Check, Case, Viol

WHATS = {1: "ACK", 2: "short", 3: "control", 4: "long"}


def h(b):
    return bytes(b).hex() or "-"


def norm_hex(s):
    return bytes.fromhex(s)


# ------------------------------------------------------------------------------------------ F01
class F01(Check):
    pid = "F01"
    batch = 600
    quick_n = 12000
    thorough_n = 250000
    rule = ("a message counts by (verdict the standard demands, kind of frame, control, length class, which rule it breaks); "
            "judged: the return code, all fields, direction, data and mbus_frame_verify against an independent link-layer model")

    def systematic(self, rng, shard, nsh, tier):
        full = tier == "thorough"
        k = 0
        out = []

        def put(m):
            nonlocal k
            k += 1
            if k % nsh == shard:
                out.append(bytes(m))
        put(b"\xe5")
        for c in range(256):
            for a in (range(256) if full else [rng.randrange(256)]):
                put(wire.short(c, a))
        for c in range(256):
            for ci in (range(256) if full else [0x72, rng.randrange(256)]):
                put(wire.long_(c, rng.randrange(256), ci, b""))
                put(wire.long_(c, rng.randrange(256), ci, record.rand_bytes(rng, rng.randrange(1, 30))))
        for n in range(0, 253):
            for c in wire.LONG_CTRL:
                m = wire.long_(c, rng.randrange(256), rng.randrange(256), record.rand_bytes(rng, n))
                put(m)
                put(m[:-1])
                put(m + b"\x00")
                for i in range(0, len(m)) if full and n % 16 == 0 else (0, 1, 2, 3, len(m) - 2, len(m) - 1):
                    for v in (range(256) if full else [rng.randrange(256), m[i] ^ 1, m[i] ^ 0x80]):
                        q = bytearray(m)
                        q[i] = v
                        put(q)
        for l1 in range(256):
            for l2 in (range(256) if full else [l1, l1 ^ 1, rng.randrange(256), (l1 + 1) & 255]):
                for body in ({l1, l2} if l1 != l2 else {l1}):
                    b = bytes([rng.choice(wire.LONG_CTRL)]) + record.rand_bytes(rng, max(0, body - 1))
                    b = b[:body]
                    put(bytes([0x68, l1, l2, 0x68]) + b + bytes([wire.cs(b), 0x16]))
        m = wire.short(0x5B, 7)
        for i in range(5):
            for v in range(256):
                q = bytearray(m)
                q[i] = v
                put(q)
        for v in range(256):
            put([v])
            q = bytearray(wire.long_(8, 1, 0x72, record.rand_bytes(rng, 20)))
            for pos in (0, 3, len(q) - 1, len(q) - 2):
                w = bytearray(q)
                w[pos] = v
                put(w)
        return out

    def gen(self, rng, n, shard, nsh, tier):
        ms = self.systematic(rng, shard, nsh, tier)
        for _ in range(n):
            k = rng.random()
            m = wire.rand_frame(rng)
            if k < 0.5:
                m = wire.mutate(rng, m)
            elif k < 0.6:
                m = record.rand_bytes(rng, rng.randrange(1, 40))
                if rng.random() < 0.7:
                    m = bytes([rng.choice([0x68, 0x10, 0xE5])]) + m
            if m:
                ms.append(m)
        for i in range(0, len(ms), 12):
            part = ms[i:i + 12]
            yield Case("par " + " ".join(map(h, part)), {"m": [p.hex() for p in part]})

    def judge(self, c, o, st):
        vs = []
        for mh, r in zip(c.ctx["m"], o["o"]):
            m = bytes.fromhex(mh)
            v = wire.verdict(m)
            if v[0] == "skip" or r is None:
                continue
            st.inc("judged_" + v[0])
            st.sig(v[0], m[0] if m[0] in (0xE5, 0x10, 0x68) else "x", len(m) // 16, m[4] if len(m) > 4 and m[0] == 0x68 else m[1:2], r[0])
            if v[0] == "ok":
                f = v[1]
                if r[0] != 0:
                    vs.append(Viol("reject-valid-" + WHATS[f["type"]], f"valid {WHATS[f['type']]} frame refused with {r[0]}: {mh}"))
                    continue
                if r[1] != 0:
                    vs.append(Viol("verify-valid-" + WHATS[f["type"]], f"mbus_frame_verify gives {r[1]} for the accepted frame {mh}"))
                exp = [f["type"], f.get("c"), f.get("a"), f.get("ci")]
                for name, e, g in zip(("type", "control", "address", "CI"), exp, r[2:6]):
                    if e is not None and e != g:
                        vs.append(Viol("field-" + name, f"{name} is {g}, not {e}, for {mh}"))
                d = 0 if f["type"] == 1 else f["c"] & 0x40
                if r[6] != d:
                    vs.append(Viol("direction", f"direction {r[6]}, not {d}, for {mh}"))
                if bytes.fromhex(r[7]) != f["data"]:
                    vs.append(Viol("data", f"data {r[7]} of {mh}"))
            elif r[0] == 0:
                vs.append(Viol("accept-invalid", f"accepted although not a well-formed frame: {mh}"))
            elif v[0] == "bad" and r[0] > 0:
                vs.append(Viol("asks-more-of-invalid", f"asks for {r[0]} more bytes of a message that is complete and wrong: {mh}"))
        return vs

    def finish(self, st, tier):
        return [f"no {k} messages" for k in ("ok", "bad", "more", "dead") if not st.count.get("judged_" + k)]


# ------------------------------------------------------------------------------------------ F02
class F02(Check):
    pid = "F02"
    batch = 300
    quick_n = 400
    thorough_n = 8000
    rule = ("a frame counts by (kind, length); judged: the need-more count of every prefix, and a reader loop that fetches exactly "
            "the requested counts from a stream in which further frames follow")

    def gen(self, rng, n, shard, nsh, tier):
        ms = [wire.ack()] + [wire.short(c, rng.randrange(256)) for c in wire.SHORT_CTRL]
        for l in range(0, 253):
            if l % nsh == shard:
                ms.append(wire.long_(rng.choice(wire.LONG_CTRL), rng.randrange(256), rng.randrange(256), record.rand_bytes(rng, l)))
        ms += [wire.rand_frame(rng) for _ in range(n)]
        for m in ms:
            nxt = wire.rand_frame(rng) + record.rand_bytes(rng, 8)
            yield Case(f"seq pre {h(m)} ;; feed {h(m + nxt)}", {"m": m.hex(), "k": "ok"})
            if rng.random() < 0.5:
                # broken but length-consistent frames: the same exact reads, and a refusal at the end
                q = bytearray(m)
                if len(q) > 5:
                    q[rng.choice([-1, -2, rng.randrange(4, len(q) - 2)])] ^= 1 << rng.randrange(8)
                    yield Case(f"seq pre {h(q)} ;; feed {h(bytes(q) + nxt)}", {"m": bytes(q).hex(), "k": "broken"})

    def judge(self, c, o, st):
        m = bytes.fromhex(c.ctx["m"])
        pre, feed = o["o"][0]["o"], o["o"][1]["o"]
        vs = []
        st.sig(c.ctx["k"], m[0], len(m))
        if len(pre) != len(m):
            return [Viol("prefix-count", "not every prefix was answered")]
        for l in range(1, len(m)):
            v = wire.verdict(m[:l])
            r = pre[l - 1]
            st.inc("prefixes")
            if v[0] == "more":
                if r <= 0:
                    vs.append(Viol("prefix-refused", f"prefix of {l} bytes of a valid frame answered {r}: {m.hex()}"))
                elif r > len(m) - l:
                    vs.append(Viol("asks-too-much", f"prefix of {l} of {len(m)} bytes asks for {r}: {m.hex()}"))
                elif r > v[1]:
                    vs.append(Viol("asks-too-much", f"prefix of {l} bytes asks for {r} although {v[1]} can complete a frame: {m.hex()}"))
            elif r == 0:
                vs.append(Viol("incomplete-accepted", f"prefix of {l} bytes accepted: {m.hex()}"))
        if not feed:
            return vs + [Viol("feed-empty", "reader loop did nothing")]
        ln, r = feed[-1]
        st.inc("reader_loops")
        st.inc("reader_steps", len(feed))
        if c.ctx["k"] == "ok":
            if ln != len(m) or r != 0:
                vs.append(Viol("feed-end", f"reader loop ended after {ln} bytes with {r}, frame has {len(m)}: {feed} {m.hex()}"))
        else:
            if wire.verdict(m)[0] == "bad":
                if r >= 0:
                    vs.append(Viol("feed-broken-accepted", f"broken frame ended with {r} after {ln}: {m.hex()}"))
                if ln > len(m):
                    vs.append(Viol("feed-overread", f"broken frame: {ln} bytes consumed of {len(m)}: {m.hex()}"))
        return vs[:6]


# ------------------------------------------------------------------------------------------ F03
class F03(Check):
    pid = "F03"
    batch = 120
    quick_n = 500
    thorough_n = 9000
    rule = ("a history counts by the sequence of message kinds put through one frame object; judged: every observation made of the "
            "re-used object (verdict, fields, verify, decoded records, XML, address) equals the one a fresh object gives")

    def msgs(self, rng):
        k = rng.random()
        if k < 0.35:
            p, _ = record.rand_payload(rng, rng.choice([20, 60, 252]))
            return wire.long_(rng.choice([8, 0x18, 0x28, 0x38]), rng.randrange(256), 0x72, p)
        if k < 0.45:
            return wire.long_(8, rng.randrange(256), 0x73, record.rand_bytes(rng, 16))
        if k < 0.5:
            return wire.long_(8, rng.randrange(256), 0x70, record.rand_bytes(rng, rng.randrange(0, 2)))
        if k < 0.6:
            return wire.ack()
        if k < 0.7:
            return wire.short(rng.choice(wire.SHORT_CTRL), rng.randrange(256))
        if k < 0.8:
            return wire.long_(rng.choice(wire.LONG_CTRL), rng.randrange(256), rng.choice([0x72, 0x73, 0x70, 0x51]), b"")
        m = wire.rand_frame(rng)
        return wire.mutate(rng, m)

    def gen(self, rng, n, shard, nsh, tier):
        fl = "vdanxzNs"
        for _ in range(n):
            ms = []
            for _ in range(rng.randrange(2, 6)):
                m = self.msgs(rng)
                k = rng.random()
                if k < 0.2 and len(m) > 1:
                    m = m[:rng.randrange(1, len(m))]
                elif k < 0.35:
                    m = wire.mutate(rng, m) or m
                ms.append(m)
            ms = [m for m in ms if m]
            cmd = "seq " + " ;; ".join([f"hist{rng.choice(['', 'n'])} {fl} " + " ".join(map(h, ms))] + [f"msg {fl} {h(m)}" for m in ms])
            yield Case(cmd, {"m": [m.hex() for m in ms]})

    def judge(self, c, o, st):
        vs = []
        hist = o["o"][0]["o"]
        fresh = [x["o"] for x in o["o"][1:]]
        kinds = []
        for mh, a, b in zip(c.ctx["m"], hist, fresh):
            kinds.append((mh[:2], b["r"] if b else None))
            st.inc("comparisons")
            if (a or {}).get("r") == 0:
                st.inc("accepted_on_reused_object")
            if mh[:2] == "e5" and len(mh) > 2:
                continue
            if a != b:
                diff = "verdict"
                if a["r"] == b["r"]:
                    diff = ",".join(k for k in b if a.get(k) != b.get(k))
                    if "f" in diff:
                        diff += ":" + ",".join(k for k in b["f"] if a["f"][k] != b["f"][k])
                vs.append(Viol("history-" + diff[:60], f"re-used frame differs from fresh one in {diff} for message {mh[:80]} (return {a['r']} / {b['r']})"))
        st.sig(tuple(kinds))
        return vs


# ------------------------------------------------------------------------------------------ F04
class F04(Check):
    pid = "F04"
    batch = 400
    quick_n = 2500
    thorough_n = 60000
    rule = ("a pack counts by (type, data length, relation of buffer to need); judged: the bytes, the result code, AddressSanitizer "
            "red zones right behind the caller's exact-size buffer, and re-parsing")

    def need(self, ty, n):
        return {1: 1, 2: 5, 3: 9, 4: 9 + n}.get(ty)

    def gen(self, rng, n, shard, nsh, tier):
        jobs = []
        for l in range(1, 253):
            if l % nsh == shard:
                jobs.append((4, record.rand_bytes(rng, l)))
        for _ in range(n):
            ty = rng.choice([1, 2, 3, 3, 4, 4, 4])
            jobs.append((ty, record.rand_bytes(rng, rng.choice([1, 251, 252, rng.randrange(1, 253)])) if ty == 4 else b""))
        for ty, d in jobs:
            need = self.need(ty, len(d))
            for size in {need, rng.choice([need - 1, 0, rng.randrange(0, need), need + 1, 300])}:
                ctl = rng.choice(wire.SHORT_CTRL if ty == 2 else wire.LONG_CTRL)
                if rng.random() < 0.1:
                    ctl = rng.randrange(256)
                a, ci = rng.randrange(256), rng.randrange(256)
                yield Case(f"pack {ty} {ctl} {a} {ci} {size} {h(d)}", dict(ty=ty, c=ctl, a=a, ci=ci, size=size, d=d.hex()))
        for ty in (0, 5, 6, 99, 255):
            yield Case(f"pack {ty} 8 1 114 300 -", dict(ty=ty, c=8, a=1, ci=114, size=300, d=""))
        # a frame parsed from the wire packs back to the same bytes
        for _ in range(n // 4):
            m = wire.rand_frame(rng)
            yield Case(f"msg k {h(m)}", dict(m=m.hex()))

    def expect(self, x):
        d = bytes.fromhex(x["d"])
        if x["ty"] == 1:
            return wire.ack()
        if x["ty"] == 2:
            return wire.short(x["c"], x["a"])
        if x["ty"] in (3, 4):
            return wire.long_(x["c"], x["a"], x["ci"], d if x["ty"] == 4 else b"")
        return None

    def judge(self, c, o, st):
        x, o = c.ctx, o["o"]
        if "m" in x:
            st.inc("round_trips")
            if o["r"] == 0 and (o["pk"] != len(x["m"]) // 2 or o["pkb"] != x["m"]):
                return [Viol("round-trip", f"{x['m']} packs back to {o['pk']}: {o['pkb']}")]
            return []
        e = self.expect(x)
        rel = "unknown" if e is None else ("small" if x["size"] < len(e) else "exact" if x["size"] == len(e) else "large")
        st.sig(x["ty"], len(x["d"]) // 2, rel)
        st.inc("packs_" + rel)
        if rel in ("unknown", "small"):
            if o["r"] >= 0:
                return [Viol("pack-should-fail-" + rel, f"returned {o['r']} for {x}")]
            return []
        if o["r"] != len(e) or bytes.fromhex(o["b"]) != e:
            return [Viol("pack-bytes", f"returned {o['r']} {o['b']}, expected {e.hex()} for {x}")]
        return []


# ------------------------------------------------------------------------------------------ F05
HEXRUN = re.compile(rb"((?:[0-9A-Fa-f]{2}[ ]?)*)$")


def hex_tail(line):
    """The hex byte pairs printed at the end of a line, after the last colon."""
    t = line.rsplit(b":", 1)[-1].split()
    try:
        return bytes(int(x, 16) for x in t) if all(len(x) == 2 for x in t) else None
    except ValueError:
        return None


class F05(Check):
    pid = "F05"
    batch = 300
    quick_n = 700
    thorough_n = 20000
    rule = ("a print counts by (kind of print, length); judged: the captured text's byte list against the message, and the result for frames "
            "that cannot be printed")

    def gen(self, rng, n, shard, nsh, tier):
        for l in range(0, 253):
            if l % nsh == shard:
                m = wire.long_(rng.choice(wire.LONG_CTRL), rng.randrange(256), rng.randrange(256), record.rand_bytes(rng, l))
                yield Case(f"msg P {h(m)}", dict(k="print", m=m.hex()))
                yield Case(f"dump {l % 3} {h(m)}", dict(k="dump", m=m.hex()))
        for _ in range(n):
            m = wire.rand_frame(rng)
            yield Case(f"msg P {h(m)}", dict(k="print", m=m.hex()))
            b = record.rand_bytes(rng, rng.choice([0, 1, 5, 261, 262, 1000, rng.randrange(300)]))
            yield Case(f"dump {rng.randrange(3)} {h(b)}", dict(k="dump", m=b.hex()))
            ms = [m] + [wire.rand_frame(rng, b"" if rng.random() < .3 else None) for _ in range(rng.randrange(1, 5))]
            rng.shuffle(ms)
            yield Case("pchain " + " ".join(map(h, ms)), dict(k="chain", m="", ms=[z.hex() for z in ms]))
        for ty in (0, 5, 99):
            yield Case(f"pack {ty} 8 1 114 300 -", dict(k="bad", m=""))
        for ds in (253, 254, 300):
            yield Case(f"pack 4 8 1 114 600 - {ds}", dict(k="toolong", m=""))

    def judge(self, c, o, st):
        x, o = c.ctx, o["o"]
        m = bytes.fromhex(x["m"])
        st.inc("prints_" + x["k"])
        st.sig(x["k"], len(m), m[:1])
        if x["k"] == "dump":
            lines = bytes.fromhex(o).strip(b"\n").split(b"\n")
            if len(lines) != 1 or hex_tail(lines[0]) != m:
                return [Viol("dump", f"dump of {m.hex()} is {bytes.fromhex(o)[:900]!r}")]
            return []
        txt = bytes.fromhex(o["ptxt"])
        if x["k"] == "chain":
            if o["bad"]:
                return []
            lines = [hex_tail(l) for l in txt.split(b"\n") if l.strip()]
            want = [bytes.fromhex(z) for z in x["ms"]]
            if o["pr"] != 0 or lines != want:
                return [Viol("print-chain", f"mbus_frame_print of {x['ms']} returns {o['pr']} and prints {txt[:900]!r}")]
            return []
        if x["k"] == "print":
            if o["r"] != 0:
                return []
            lines = [l for l in txt.split(b"\n") if l.strip()]
            if o["pr"] != 0:
                return [Viol("print-fails", f"mbus_frame_print returns {o['pr']} for {m.hex()}")]
            if len(lines) != 1 or hex_tail(lines[0]) != m:
                return [Viol("print-bytes", f"mbus_frame_print of {m.hex()} prints {txt[:900]!r}")]
            return []
        if o["pr"] == 0:
            return [Viol("print-should-fail", f"mbus_frame_print reports success for an unprintable frame: {txt!r}")]
        for l in txt.split(b"\n"):
            if b":" in l and hex_tail(l):
                return [Viol("print-garbage", f"prints bytes for an unprintable frame: {txt!r}")]
        return []
