"""M05, T01-T02, S01-S06, C01-C09: the master on a virtual bus.

The real library is linked with --wrap'ed system calls: a scripted or simulated peer answers, time is
virtual, and every system call, callback and result is recorded.  The checks below judge that log."""
import itertools, random, re
from model import wire, record
from model.record import Rec
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame
from checks.xmlout import rand_tel, nasty_payload
from checks.codec import is_sec, select_frame, rand_sec
from checks.memory import session_case, raw_bytes, rand_any

CTX = {True: "ctx tcp 10001", False: "ctx ser /dev/ttyV"}
NONE, M2S, S2M = 0, 1, 2
OK, ERROR, INVALID, TIMEOUT, RESET = 0, -1, -2, -3, -4
NOTHING, SINGLE, COLL, PERR = 0, 1, 2, -1
STDBAUD = (300, 600, 1200, 2400, 4800, 9600, 19200, 38400)


def hx(s):
    return s.encode().hex() if isinstance(s, str) else bytes(s).hex() or "-"


class Op:
    __slots__ = ("op", "rv", "chain", "ev")

    def __init__(self, op, ev):
        self.op, self.ev, self.rv, self.chain = op, ev, None, None

    def get(self, kind):
        return [e for e in self.ev if e[0] == kind]

    def written(self):
        return b"".join(bytes.fromhex(e[1]) for e in self.ev if e[0] == "w")

    def tgs(self):
        return [bytes.fromhex(e[1]) for e in self.ev if e[0] == "tg"]

    def read(self):
        return b"".join(bytes.fromhex(e[1]) for e in self.ev if e[0] == "r")


def ops(o):
    """The recorded operations in order, each with the events between its call and its result."""
    out, cur = [], None
    for e in o["ev"]:
        if e[0] == "call":
            cur = Op(e[1], [])
            out.append(cur)
        elif e[0] == "ret":
            if cur is not None and cur.op == e[1] and cur.rv is None:
                cur.rv = e[2]
                cur.chain = e[3] if len(e) > 3 else None
            else:
                q = Op(e[1], [])
                q.rv = e[2]
                q.chain = e[3] if len(e) > 3 else None
                out.append(q)
        else:
            if cur is None:
                cur = Op("", [])
                out.append(cur)
            cur.ev.append(e)
            if e[0] == "rxleft":
                q = Op("rxleft", [])
                q.rv = e[1]
                out.append(q)
    return out


def stuck(o):
    """Runaway, hang, SIGPIPE: reported by M05; the other checks do not judge such a session further."""
    for e in o["ev"]:
        if e[0] == "runaway":
            return f"operation did not come to an end (kind {e[1]})"
        if e[0] == "hang":
            return f"blocks forever: {e[1]}"
        if e[0] == "sigpipe":
            return "the process is killed by SIGPIPE"
    return None


def same(c, m):
    """Does the delivered frame object c hold the message m?"""
    v = wire.verdict(m)
    if v[0] != "ok":
        return False
    f = v[1]
    if c["type"] != f["type"]:
        return False
    for k in ("c", "a", "ci"):
        if k in f and c[k] != f[k]:
            return False
    return f["type"] < 3 or bytes.fromhex(c["data"]) == f["data"]


def full_len(m):
    """Length of the message that starts with m as its own bytes announce it, or None while unknown."""
    if not m:
        return None
    if m[0] == 0xE5:
        return 1
    if m[0] == 0x10:
        return 5
    if m[0] == 0x68:
        if len(m) < 3:
            return None
        return m[1] + 6 if m[1] == m[2] and m[1] >= 3 else 3
    return 1


def chunks(rng, s, style=None):
    """Cut a byte string into reads; returns the d items."""
    style = style if style is not None else rng.randrange(5)
    out = []
    i = 0
    while i < len(s):
        n = {0: 1, 1: len(s), 2: rng.randrange(1, 4), 3: rng.randrange(1, 40), 4: rng.choice([1, 2, 3, 255, 300])}[style]
        out.append("d" + s[i:i + n].hex())
        i += n
    return out


def rx(items):
    """Script tokens (one rx token per at most 200 items)."""
    t = []
    for i in range(0, len(items), 200):
        t += ["rx", ",".join(items[i:i + 200])]
    return t


def _no_tail(rng, maxlen):
    p = record.rand_header(rng)
    for _ in range(rng.randrange(0, 4)):
        r = record.rand_rec(rng, maxlen=20)
        if r.special or len(p) + len(r.encode()) > maxlen:
            continue
        p += r.encode()
    return p


def telegram(rng, more=False, hdr=None, maxlen=80, addr=None):
    """A valid RSP_UD with variable data, announcing more records or not."""
    p = _no_tail(rng, maxlen)
    if hdr is not None:
        p = hdr + p[12:]
    k = rng.random()
    if more:
        p += b"\x1f" + (record.rand_bytes(rng, rng.randrange(0, 12)) if k < .6 else b"")
    elif k < 0.3:
        p += b"\x0f" + record.rand_bytes(rng, rng.randrange(0, 12))
    return wire.long_(rng.choice([0x08, 0x08, 0x18, 0x28, 0x38]), rng.randrange(0, 251) if addr is None else addr, 0x72, p)


def garble(rng, m):
    """A corrupted version that a receiver which stops at the announced length must call invalid."""
    for _ in range(50):
        g = wire.mutate(rng, m)
        if not g:
            continue
        n = full_len(g)
        if n is None or n > len(g):
            continue
        if wire.verdict(g[:n])[0] == "bad":
            return g
    g = bytearray(m)
    g[-1] ^= 0xFF
    return bytes(g) if len(m) > 1 else b"\x00"


def lib_calls(o):
    return [q for q in ops(o) if q.op not in ("", "rxleft", "ctx", "conn", "disc", "opt", "cleanup")]


class _Ses(Check):
    batch = 400

    def judge(self, c, o, st):
        s = stuck(o)
        if s:
            st.inc("stuck_sessions")
            return [Viol("stuck", s + ": " + c.cmd[:200])]
        return self.check(c, o, st)


# ------------------------------------------------------------------------------------------ T01
class T01(_Ses):
    pid = "T01"
    quick_n = 500
    thorough_n = 20000
    rule = ("an operation counts by (operation, transport, telegram written); judged: the bytes put on the wire are exactly the expected telegram, once, and the result "
            "is success; primary addresses, sub-codes and baud rates are enumerated completely")

    def gen(self, rng, n, shard, nsh, tier):
        for a in range(shard, 256, nsh):
            for tcp in (False, True):
                t = []
                want = []

                def add(tok, m):
                    t.append(tok)
                    want.append(m.hex())
                add(f"reqf {a}", wire.short(0x5B, a))
                add(f"ping {a} 0", wire.short(0x40, a))
                add(f"appreset {a} -1", wire.long_(0x53, a, 0x50))
                for sc in ({a, 0, 255, rng.randrange(256)}):
                    add(f"appreset {a} {sc}", wire.long_(0x53, a, 0x50, bytes([sc])))
                for i, b in enumerate(STDBAUD):
                    add(f"baud {a} {b}", wire.long_(0x53, a, 0xB8 + i))
                for _ in range(3):
                    new = rng.choice([0, 1, 250, 251, 252, rng.randrange(0, 251)])
                    add(f"setaddr {a} {new}", wire.long_(0x53, a, 0x51, bytes([0x01, 0x7A, new])))
                yield self.case(tcp, t, want)
        for new in range(shard, 253, nsh):
            yield self.case(rng.random() < .5, [f"setaddr 5 {new}"], [wire.long_(0x53, 5, 0x51, bytes([1, 0x7A, new])).hex()])
        for n_ in range(1 + shard, 253, nsh):
            d = record.rand_bytes(rng, n_)
            a = rng.randrange(256)
            yield self.case(rng.random() < .5, [f"sud {a} {h(d)} 0"], [wire.long_(0x53, a, 0x51, d).hex()])
        for _ in range(n):
            t, want = [], []
            for _ in range(rng.randrange(1, 12)):
                k = rng.randrange(6)
                a = rng.randrange(256)
                if k == 0:
                    s = rand_sec(rng)
                    t.append(f"selsend {s.hex()}")
                    want.append(select_frame(s).hex())
                elif k == 1:
                    d = record.rand_bytes(rng, rng.choice([1, 2, 3, 8, rng.randrange(1, 253), 252, 251]))
                    t.append(f"sud {a} {h(d)} 0")
                    want.append(wire.long_(0x53, a, 0x51, d).hex())
                elif k == 2:
                    t.append(f"req {a} 0 1")
                    want.append(wire.short(0x7B, a).hex())
                elif k == 3:
                    s = rand_sec(rng)
                    t.append(f"sel {s.hex()}")
                    want.append(select_frame(s).hex())
                elif k == 4:
                    t.append(f"ping {a} 1")
                    want.append(wire.short(0x40, a).hex())
                else:
                    t.append(f"rsp {a} 1")
                    want.append(wire.short(0x5B, a).hex())
            yield self.case(rng.random() < .5, t, want, True)

    def case(self, tcp, t, want, once=False):
        pre = " opt 0 0 opt 1 0" if once else ""
        return Case(f"ses {CTX[tcp]} conn{pre} " + " ".join(t) + " disc free", {"w": want, "tcp": tcp})

    def check(self, c, o, st):
        vs = []
        qs = lib_calls(o)
        if len(qs) != len(c.ctx["w"]):
            return [Viol("harness", f"{len(qs)} operations for {len(c.ctx['w'])}")]
        for q, w in zip(qs, c.ctx["w"]):
            w = bytes.fromhex(w)
            got = q.written()
            st.inc("op_" + q.op)
            st.sig(q.op, c.ctx["tcp"], got)
            if got != w:
                vs.append(Viol("wire-" + q.op, f"{q.op} wrote {got.hex()}, expected {w.hex()}"))
            elif q.op in ("reqf", "ping", "appreset", "baud", "setaddr", "sud", "selsend") and q.rv != 0:
                vs.append(Viol("result-" + q.op, f"{q.op} wrote its telegram but returned {q.rv}"))
        return vs


# ------------------------------------------------------------------------------------------ T02
class T02(_Ses):
    pid = "T02"
    quick_n = 700
    thorough_n = 20000
    rule = ("a refused call counts by (operation, argument class); judged: a failure result and not one byte on the wire; option effects are observed "
            "through the number of retries and the echo cancellation that follow")

    BADA = (-1, -2, 256, 257, 511, 65536, 1000, -256, 2147483647, -2147483648)

    def gen(self, rng, n, shard, nsh, tier):
        for tcp in (False, True):
            t = []
            for a in self.BADA:
                t += [f"reqf {a}", f"ping {a} {rng.randrange(2)}", f"sud {a} 0102 0", f"appreset {a} -1", f"appreset {a} 1", f"baud {a} 2400",
                      f"setaddr {a} 5", f"setaddr 5 {a}", f"req {a} 0 1", f"rsp {a} 0"]
            for a in (253, 254, 255):
                t += [f"setaddr {x} {a}" for x in (0, 1, 253, 254)]
            for b in (0, 1, -1, 299, 301, 115200, 57600, 14400, 1, 2401, 2147483648 + 2400, 4294967296 + 2400, -2400, 38401, 9600 * 65536):
                t += [f"baud 5 {b}"]
            for sc in (256, 257, 65535, 2147483647):
                t += [f"appreset 5 {sc}"]
            for sz in (0, 253, 254, 255, 256, 300, 65535, 65536, 70000):
                t += [f"sudn 5 {sz}"]
            t += ["sud 5 0102 2", "selnull", "nullsend"]
            for i, x in enumerate(t):
                if i % nsh == shard:
                    yield self.case(tcp, [x])
        for _ in range(n):
            k = rng.random()
            if k < 0.35:
                bad = self.bad_sec(rng)
                yield self.case(rng.random() < .5, [f"{rng.choice(['selsend', 'sel', 'probe'])} {hx(bad)}"])
            elif k < 0.5:
                a = rng.choice([rng.randrange(-10000, 0), rng.randrange(256, 100000)])
                x = rng.choice([f"reqf {a}", f"ping {a} 0", f"sud {a} 01 0", f"appreset {a} 0", f"baud {a} 300", f"setaddr {a} 1", f"setaddr 1 {a}", f"req {a} 0 1"])
                yield self.case(rng.random() < .5, [x])
            elif k < 0.6:
                b = rng.randrange(-100, 100000)
                if b in STDBAUD:
                    continue
                yield self.case(rng.random() < .5, [f"baud {rng.randrange(256)} {b}"])
            else:
                yield self.option_case(rng)

    def bad_sec(self, rng):
        while True:
            s = bytearray(rand_sec(rng))
            k = rng.randrange(5)
            if k == 0:
                del s[rng.randrange(16):]
            elif k == 1:
                s += record.rand_text(rng, rng.randrange(1, 4), 0)
            elif k == 2:
                s[rng.randrange(16)] = rng.choice(b"GgZz xX+-.:/@`\x80\xff")
            elif k == 3:
                s[rng.randrange(8)] = rng.choice(b"ABCDEabcde")       # id digits are decimal or wildcards
            else:
                s = s[:rng.randrange(17)] + b" " + s[rng.randrange(17):]
            if 0 in s or is_sec(bytes(s)):
                continue
            return bytes(s)

    def case(self, tcp, t):
        return Case(f"ses {CTX[tcp]} conn " + " ".join(t) + " disc free", {"k": "bad", "t": t})

    def option_case(self, rng):
        """Random option calls, then the effective settings are measured."""
        tcp = rng.random() < .5
        st = {0: 3, 1: 1, 2: 1}
        t, want = [], []
        for _ in range(rng.randrange(1, 8)):
            o = rng.choice([0, 1, 2, 2, rng.choice([3, 4, -1, 100])])
            v = rng.choice([0, 1, 2, 3, 5, 9, 10, 11, -1, 255, 256, 1000, 1 << 32, (1 << 32) + 1, -(1 << 32), 1 << 16])
            ok = (o in (0, 1) and 0 <= v <= 9) or (o == 2 and v in (0, 1, 2))
            if ok:
                st[o] = v
            t.append(f"opt {o} {v}")
            want.append(0 if ok else -1)
        m2s, s2m = wire.short(0x5B, 7), telegram(rng)
        sec = rand_sec(rng).hex()
        probe = "fparse 2 e5 fparse 3 e5"
        meas = (f"req 1 0 1 probe {sec} {probe} rx d{m2s.hex()},d{m2s.hex()} recv 2 drop rx d{s2m.hex()},d{s2m.hex()} recv 3 peek drop")
        cmd = f"ses {CTX[tcp]} conn {' '.join(t)} {meas} disc free"
        return Case(cmd, {"k": "opt", "want": want, "st": [st[0], st[1], st[2]], "l": [len(m2s), len(s2m)]})

    def check(self, c, o, st):
        if c.ctx["k"] == "bad":
            vs = []
            for q, x in zip(lib_calls(o), c.ctx["t"]):
                st.inc("refusals")
                st.sig(x if len(x) < 40 else x[:40])
                if q.get("w") or q.get("we"):
                    vs.append(Viol("sent-" + q.op, f"{x} wrote {q.written().hex()}"))
                ok = q.rv in (0,) if q.op not in ("sel", "probe") else q.rv in (0, 1, 2)
                if ok:
                    vs.append(Viol("accepted-" + q.op, f"{x} returned {q.rv}"))
            return vs
        qs = ops(o)
        rets = [q.rv for q in qs if q.op == "opt"]
        st.inc("option_histories")
        st.sig("opt", tuple(c.ctx["st"]), tuple(rets))
        vs = []
        for r, w in zip(rets, c.ctx["want"]):
            if (r == 0) != (w == 0):
                vs.append(Viol("option-result", f"options {c.cmd[:150]}: results {rets}, expected {c.ctx['want']}"))
                break
        d, s, p = c.ctx["st"]
        req = next(q for q in qs if q.op == "req")
        pr = next(q for q in qs if q.op == "probe")
        rec = [q for q in qs if q.op == "recv"]
        if len(req.tgs()) != d + 1:
            vs.append(Viol("option-data-retry", f"{len(req.tgs())} requests on a silent bus with MAX_DATA_RETRY {d}"))
        if len(pr.tgs()) != s + 1:
            vs.append(Viol("option-search-retry", f"{len(pr.tgs())} selects on a silent bus with MAX_SEARCH_RETRY {s}"))
        lm, ls = c.ctx["l"]
        for q, direc, l in ((rec[0], M2S, lm), (rec[1], S2M, ls)):
            want = 2 * l if p == direc else l
            if len(q.read()) != want:
                vs.append(Viol("option-purge", f"purge option {p}: a receive took {len(q.read())} bytes instead of {want}"))
        return vs


# ------------------------------------------------------------------------------------------ S01/S03
def stream_case(rng, tcp, nf=None):
    fs = [wire.rand_frame(rng) if rng.random() < .6 else (rand_tel(rng) if rng.random() < .8 else wire.ack()) for _ in range(nf or rng.randrange(1, 7))]
    style = rng.randrange(7)
    items = []
    ends = list(itertools.accumulate(len(f) for f in fs))
    whole = b"".join(fs)
    if style < 5:
        items = chunks(rng, whole, style)
    else:                    # cut exactly around the frame borders
        cuts = sorted({x for e in ends for x in (e - 1, e, e + 1, e - 2, e + 3) if 0 < x < len(whole) and rng.random() < .5})
        items = ["d" + whole[i:j].hex() for i, j in zip([0] + cuts, cuts + [len(whole)])]
    expect = [("f", i) for i in range(len(fs))]
    out = []
    if tcp:
        storm = rng.choice([0, 0, 0.05, 0.4])
        for it in items:
            while rng.random() < storm:
                out.append("i")
            out.append(it)
        # silence only between frames: put it where a read ends exactly at a border
        if style == 5 or style == 6 or style == 0:
            pos, res, exp = 0, [], []
            k = 0
            for it in out:
                if it[0] == "d":
                    while k < len(ends) and ends[k] <= pos:
                        k += 1
                    if pos in [0] + ends and rng.random() < .25:
                        res.append("a")
                        exp.append(("t", None))
                    pos += (len(it) - 1) // 2
                    res.append(it)
                    for j, e in enumerate(ends):
                        if pos - (len(it) - 1) // 2 < e <= pos:
                            exp.append(("f", j))
                else:
                    res.append(it)
            # the order of exp is right only when no item spans a border after a silence
            return fs, res, exp
        return fs, out, expect
    # serial: up to two empty reads inside one frame, possibly in one place
    gap = rng.choice([0.05, 0.15, 0.5, 0.9])
    pos, res = 0, []
    budget = {}
    for it in items:
        b = bytes.fromhex(it[1:])
        # split at frame borders so that the position of an empty read is known
        inside = next(i for i, e in enumerate(ends) if pos < e)
        start = ends[inside - 1] if inside else 0
        while pos > start and budget.get(inside, 0) < 2 and rng.random() < gap:
            budget[inside] = budget.get(inside, 0) + 1
            res.append("a")
        res.append(it)
        pos += len(b)
    return fs, res, expect


class _Stream(_Ses):
    tcp = True
    rule = ("a stream counts by (frame kinds and lengths, read sizes, interruptions); judged: frame k is delivered k-th with exactly its content, nothing "
            "else is delivered, and after each delivery exactly the bytes of the following frames are left")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            fs, items, exp = stream_case(rng, self.tcp)
            slots = rng.choice([0, 1])
            t = [f"ses {CTX[self.tcp]} conn opt 2 0"]
            if rng.random() < .4:
                t.append(f"fparse 4 {h(rand_tel(rng))}")
            t += rx(items)
            for i, _ in enumerate(exp):
                t.append(f"recv {4 + (i % 3) * slots} peek")
            t.append("recv 4 disc free")
            yield Case(" ".join(t), {"f": [x.hex() for x in fs], "e": exp})

    def check(self, c, o, st):
        fs = [bytes.fromhex(x) for x in c.ctx["f"]]
        total = sum(map(len, fs))
        seq = [q for q in ops(o) if q.op in ("recv", "rxleft")]
        left, i = total, 0
        st.sig([(len(f), f[0]) for f in fs], len(c.cmd))
        for kind, k in c.ctx["e"]:
            r, l = seq[i], seq[i + 1]
            i += 2
            st.inc("receives")
            if kind == "t":
                if r.rv != TIMEOUT:
                    return [Viol("silence", f"receive on a silent line between frames returned {r.rv}")]
            else:
                left -= len(fs[k])
                if r.rv != OK:
                    return [Viol("lost", f"frame {k} ({fs[k][:8].hex()}.., {len(fs[k])} bytes) was not delivered: result {r.rv}")]
                if not same(r.chain[0], fs[k]):
                    return [Viol("content", f"frame {k} delivered as {str(r.chain[0])[:200]}, sent {fs[k].hex()[:200]}")]
            if l.rv != left:
                return [Viol("overread", f"after frame {k}: {l.rv} bytes left instead of {left}")]
        if seq[i].rv == OK:
            return [Viol("extra", f"a frame more than was sent was delivered: {str(seq[i].chain)[:200]}")]
        return []


class S01(_Stream):
    pid = "S01"
    quick_n = 1500
    thorough_n = 60000
    tcp = True


# ------------------------------------------------------------------------------------------ S02
FAULTS_TCP = {"a": TIMEOUT, "e11": TIMEOUT, "z": RESET, "e104": ERROR, "e5": ERROR, "e32": ERROR, "e110": ERROR, "e9": ERROR}


class _Outcome(_Ses):
    tcp = True

    def frames(self, rng):
        return [wire.ack(), wire.short(0x5B, 3), wire.long_(0x53, 1, 0xB8), telegram(rng, maxlen=30), rand_tel(rng)]

    def gen(self, rng, n, shard, nsh, tier):
        # every cut position of frames of all kinds x every fault
        k = 0
        for f in self.frames(rng):
            for cut in range(len(f)):
                for fault in self.faults:
                    k += 1
                    if k % nsh == shard:
                        yield self.cut_case(rng, f, cut, fault)
        for _ in range(n):
            q = rng.random()
            if q < 0.25:
                f = wire.rand_frame(rng)
                yield self.cut_case(rng, f, rng.randrange(len(f)), rng.choice(list(self.faults)))
            elif q < 0.65:
                m = wire.mutate(rng, rand_tel(rng) if rng.random() < .5 else wire.rand_frame(rng)) or b"\0"
                yield self.raw_case(rng, m)
            elif q < 0.8:
                yield self.raw_case(rng, raw_bytes(rng))
            else:
                m = wire.rand_frame(rng)
                yield self.raw_case(rng, m + (record.rand_bytes(rng, 3) if rng.random() < .3 else b""))

    def cut_case(self, rng, f, cut, fault):
        items = chunks(rng, f[:cut]) + self.fault_items(fault)
        t = [f"ses {CTX[self.tcp]} conn opt 2 {rng.randrange(3)}"]
        if rng.random() < .5:
            t.append(f"fparse 4 {h(rand_tel(rng) if rng.random() < .6 else wire.rand_frame(rng))}")
        t += rx(items) + ["recv 4 peek disc free"]
        return Case(" ".join(t), {"k": "cut", "f": f.hex(), "cut": cut, "fault": fault})

    def fault_items(self, fault):
        return [fault]

    def raw_case(self, rng, m):
        t = [f"ses {CTX[self.tcp]} conn opt 2 0"] + rx(chunks(rng, m)) + ["recv 4 peek disc free"]
        return Case(" ".join(t), {"k": "raw", "m": m.hex()})

    def check(self, c, o, st):
        q = next(q for q in ops(o) if q.op == "recv")
        got = q.read()
        if q.rv not in (OK, ERROR, INVALID, TIMEOUT, RESET):
            return [Viol("undocumented", f"mbus_recv_frame returned {q.rv}")]
        if c.ctx["k"] == "cut":
            f, cut, fault = bytes.fromhex(c.ctx["f"]), c.ctx["cut"], c.ctx["fault"]
            st.inc("fault_" + fault)
            st.sig(f[0], len(f), cut, fault)
            want = self.want_cut(f[:cut], fault)
            if q.rv != want:
                return [Viol(f"classified-{fault}", f"{cut} of {len(f)} bytes ({f[:cut].hex()[:60]}) and then '{fault}': result {q.rv}, expected {want}")]
            return []
        m = bytes.fromhex(c.ctx["m"])
        n = full_len(m)
        if n is not None and len(m) >= n:
            v = wire.verdict(m[:n])
            want = {OK} if v[0] == "ok" else {INVALID}
        else:
            v = wire.verdict(m)
            want = {self.partial} if v[0] == "more" else {self.partial, INVALID}
        st.inc("raw_" + "_".join(map(str, sorted(want))))
        st.sig(m[:6], len(m))
        if q.rv not in want:
            return [Viol("classified-bytes", f"line holds {m.hex()[:120]} ({len(m)} bytes) and then silence: result {q.rv}, expected {sorted(want)}")]
        if q.rv == OK and not same(q.chain[0], m[:n]):
            return [Viol("content", f"{m[:n].hex()[:120]} delivered as {str(q.chain[0])[:150]}")]
        if q.rv == OK and got != m[:n]:
            return [Viol("consumed", f"frame of {n} bytes delivered after consuming {len(got)} bytes")]
        return []


class S02(_Outcome):
    pid = "S02"
    quick_n = 1500
    thorough_n = 60000
    tcp = True
    faults = FAULTS_TCP
    partial = TIMEOUT
    rule = ("a receive counts by (message, cut position, fault); judged: the result class is the one the scripted cause demands (timeout, reset, error, invalid, ok) "
            "and ok comes with exactly the sent frame; all cut positions of five frames x eight faults are enumerated")

    def want_cut(self, pre, fault):
        return self.faults[fault]


class S03(_Stream):
    pid = "S03"
    quick_n = 1200
    thorough_n = 60000
    tcp = False

    def gen(self, rng, n, shard, nsh, tier):
        # every placement of one or two empty reads in a short, a control and a small long frame, read byte by byte up to there
        k = 0
        for f in (wire.short(0x5B, 3), wire.long_(0x53, 1, 0xB8), wire.long_(0x08, 1, 0x72, rng.randbytes(15))):
            nxt = wire.short(0x7B, 9)
            for a in range(1, len(f)):
                for b in range(a, len(f)):
                    k += 1
                    if k % nsh != shard:
                        continue
                    items = []
                    for i in range(len(f)):
                        items += ["a"] * ((i == a) + (i == b)) + ["d" + f[i:i + 1].hex()]
                    t = [f"ses {CTX[False]} conn opt 2 0"] + rx(items + ["d" + nxt.hex()]) + ["recv 4 peek recv 5 peek recv 4 disc free"]
                    yield Case(" ".join(t), {"f": [f.hex(), nxt.hex()], "e": [("f", 0), ("f", 1)]})
        yield from super().gen(rng, n, shard, nsh, tier)


class S03Outcome(_Outcome):
    pid = "S03"
    name = "outcomes"
    order = 1
    quick_n = 900
    thorough_n = 60000
    tcp = False
    faults = {"a": None, "z": None, "e5": ERROR, "e6": ERROR, "e110": ERROR}
    partial = INVALID
    rule = ("as above with faults: silence after every cut position, read errors, noise; judged: total silence is timeout, anything incomplete or malformed "
            "invalid, a read error error")

    def fault_items(self, fault):
        return [fault] * 3 if fault == "a" else [fault]

    def want_cut(self, pre, fault):
        if self.faults[fault] is not None:
            return self.faults[fault]
        return INVALID if pre else TIMEOUT


# ------------------------------------------------------------------------------------------ S04
import termios as _t
SPEED = {300: _t.B300, 600: _t.B600, 1200: _t.B1200, 2400: _t.B2400, 4800: _t.B4800, 9600: _t.B9600, 19200: _t.B19200, 38400: _t.B38400}


def port_fault(tc, baud):
    """What is wrong with this termios state for M-Bus at this rate (None: nothing)."""
    how, isp, osp, ifl, ofl, cfl, lfl, vmin, vtime = tc
    if isp not in (SPEED[baud], 0) or osp != SPEED[baud]:
        return f"speed codes {isp}/{osp} instead of {SPEED[baud]}"
    if cfl & _t.CSIZE != _t.CS8:
        return "not eight data bits"
    if not cfl & _t.PARENB or cfl & _t.PARODD:
        return "not even parity"
    if cfl & _t.CSTOPB:
        return "two stop bits"
    if not cfl & _t.CREAD:
        return "receiver disabled"
    if not cfl & _t.CLOCAL:
        return "modem control lines obeyed"
    if cfl & getattr(_t, "CRTSCTS", 0):
        return "hardware flow control"
    if lfl & (_t.ICANON | _t.ECHO | _t.ISIG | _t.IEXTEN):
        return "line discipline not raw (lflag)"
    if ifl & (_t.IXON | _t.IXOFF | _t.ICRNL | _t.INLCR | _t.IGNCR | _t.ISTRIP | _t.PARMRK | _t.BRKINT):
        return "input processing not raw (iflag)"
    if ofl & _t.OPOST:
        return "output processing on"
    if vmin != 0:
        return f"VMIN {vmin}: a silent slave would block"
    if vtime * 0.1 < 330.0 / baud + 0.05:
        return f"VTIME {vtime} is shorter than the response time at {baud} baud"
    return None


class S04(_Ses):
    pid = "S04"
    quick_n = 1200
    thorough_n = 30000
    rule = ("a history counts by its sequence of (rate, result); judged: the termios state at the port after every call against the M-Bus parameters, results, "
            "and that refused rates and failed opens change nothing")

    def gen(self, rng, n, shard, nsh, tier):
        for f in (["fault open 1 2"], ["fault open 1 13"], ["fault tcsetattr 1 5"], ["fault tcsetattr 1 25"], []):
            for r in STDBAUD:
                t = ["ses"] + f + ["ctx ser /dev/ttyV conn", f"sbaud {r} disc free"]
                yield Case(" ".join(t), {"f": f[0].split()[1:3] if f else None, "r": [r]})
        for _ in range(n):
            rates = []
            for _ in range(rng.randrange(1, 8)):
                rates.append(rng.choice(STDBAUD) if rng.random() < .6 else rng.choice([0, 1, -1, 110, 1201, 2399, 57600, 115200, 299, 4294967296 + 2400, 65536 + 300, rng.randrange(100000)]))
            f = None
            pre = ""
            if rng.random() < .3:
                f = ["tcsetattr", str(rng.randrange(2, 5))]
                pre = f"fault {f[0]} {f[1]} 5 "
            if rng.random() < .4:
                for _ in range(rng.randrange(1, 3)):
                    rates.insert(rng.randrange(len(rates) + 1), "R")
            yield Case(f"ses {pre}ctx ser /dev/ttyV conn " + " ".join(f"sbaud {r}" if r != "R" else "disc conn" for r in rates) + " disc free", {"f": f, "r": rates})

    def check(self, c, o, st):
        qs = [q for q in ops(o) if q.op in ("conn", "sbaud")]
        st.sig(tuple(c.ctx["r"]), str(c.ctx["f"]))
        cur = None
        for q, r in zip(qs, ["R"] + c.ctx["r"]):
            if r == "R":
                # (re)connecting: the port is configured from scratch, whatever was set before
                failed = q.get("fault")
                if failed:
                    st.inc("failed_connects")
                    if q.rv == 0:
                        return [Viol("connect-hides-failure", f"mbus_connect succeeded although {failed[0][1]} failed")]
                    return []
                st.inc("connects" if cur is None else "reconnects")
                if q.rv != 0:
                    return [Viol("connect", f"mbus_connect of an available port returned {q.rv}")]
                op = q.get("open")
                if not op or (op[0][2] & 3) != 2:
                    return [Viol("open-mode", f"port opened with flags {op[0][2] if op else '-'}")]
                cur = None
                for e in q.get("tc"):
                    cur = e[1:]
                if cur is None:
                    return [Viol("unconfigured", "no terminal settings were made")]
                w = port_fault(cur, 2400)
                if w:
                    return [Viol("settings", f"after connect: {w}")]
                continue
            new = cur
            for e in q.get("tc"):
                new = e[1:]
            st.inc("rate_changes")
            if r not in SPEED:
                if q.rv == 0:
                    return [Viol("unsupported-accepted", f"unsupported rate {r} accepted")]
                if list(new[1:]) != list(cur[1:]):
                    return [Viol("unsupported-changes", f"refused rate {r} changed the port")]
            elif q.get("fault"):
                st.inc("failed_rate_changes")
                if q.rv == 0:
                    return [Viol("rate-hides-failure", f"rate {r} reported set although tcsetattr failed")]
            else:
                if q.rv != 0:
                    return [Viol("rate-refused", f"supported rate {r} refused: {q.rv}")]
                w = port_fault(new, r)
                if w:
                    return [Viol("settings", f"after setting {r}: {w}")]
            cur = new
        return []


# ------------------------------------------------------------------------------------------ S05
class S05(_Ses):
    pid = "S05"
    quick_n = 1500
    thorough_n = 60000
    rule = ("a send counts by (transport, frame type, length, write outcome); judged: success exactly if the device accepted all bytes of the packed frame and nothing "
            "else; short writes at every position of small frames and eight errors are enumerated")

    ERRS = ("e5", "e32", "e11", "e104", "e9", "e28", "e110", "e4")

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for spec, m in ((("2 91 5 0 -", wire.short(0x5B, 5))), ("4 83 5 81 017a05", wire.long_(0x53, 5, 0x51, b"\x01\x7a\x05")), ("1 0 0 0 -", wire.ack()),
                            ("3 83 5 184 -", wire.long_(0x53, 5, 0xB8))):
                for w in [f"s{i}" for i in range(len(m))] + list(self.ERRS) + ["f"]:
                    k += 1
                    if k % nsh == shard:
                        yield self.case(tcp, spec, m, w)
        for tcp in (False, True):
            for spec in ("0 83 1 81 0102 -1", "9 83 1 81 0102 -1", "-1 83 1 81 0102 -1", "4 83 1 81 0102 253", "4 83 1 81 0102 300", "4 83 1 81 0102 100000"):
                yield Case(f"ses {CTX[tcp]} conn send {spec} nullsend nohandle disc free", {"k": "none"})
        yield Case(f"ses {CTX[False]} conn tty 0 send 2 91 5 0 - -1 nullsend disc free", {"k": "none"})
        for _ in range(n):
            tcp = rng.random() < .5
            q = rng.randrange(10)
            if q < 2:
                c, a = rng.getrandbits(8), rng.getrandbits(8)
                spec, m = f"2 {c} {a} 0 -", wire.short(c, a)
            elif q < 3:
                spec, m = "1 0 0 0 -", wire.ack()
            elif q < 4:
                c, a, ci = (rng.getrandbits(8) for _ in range(3))
                spec, m = f"3 {c} {a} {ci} -", wire.long_(c, a, ci)
            else:
                c, a, ci = (rng.getrandbits(8) for _ in range(3))
                d = record.rand_bytes(rng, rng.choice([0, 1, 252, rng.randrange(1, 253)]))
                spec, m = f"4 {c} {a} {ci} {h(d)}", wire.long_(c, a, ci, d)
            w = rng.choice(["f", "f", "f", "s" + str(rng.randrange(len(m))), rng.choice(self.ERRS)])
            yield self.case(tcp, spec, m, w, rng.random() < .3)

    def case(self, tcp, spec, m, w, cb=False):
        wr = "" if w == "f" else f"wr {w} "
        return Case(f"ses {CTX[tcp]} {'cb 1 ' if cb else ''}conn {wr}send {spec} -1 disc free", {"k": "one", "m": m.hex(), "w": w, "tcp": tcp})

    def check(self, c, o, st):
        if c.ctx["k"] == "none":
            vs = []
            for q in lib_calls(o):
                st.inc("refused_sends")
                st.sig(q.op, c.cmd)
                if q.written() or q.rv == 0 or q.get("badlen"):
                    vs.append(Viol("unsendable", f"{q.op} in '{c.cmd[:120]}' returned {q.rv} and wrote {q.written().hex()!r}"))
            return vs
        q = next(q for q in ops(o) if q.op == "send")
        m = bytes.fromhex(c.ctx["m"])
        w = q.written()
        st.inc("write_" + re.sub(r"\d+$", "", c.ctx["w"]))
        st.sig(c.ctx["tcp"], m[0], len(m), c.ctx["w"])
        if q.rv == 0 and w != m:
            return [Viol("false-success", f"send of {m.hex()[:60]} reported success; the device got {w.hex()[:60]} of it (write outcome {c.ctx['w']})")]
        if q.rv != 0 and c.ctx["w"] == "f":
            return [Viol("false-failure", f"send of {m.hex()[:60]} returned {q.rv} although the device accepts everything")]
        if q.rv != 0 and w == m:
            return [Viol("false-failure", f"all of {m.hex()[:60]} was accepted, but the result is {q.rv}")]
        if not m.startswith(w):
            return [Viol("foreign-bytes", f"the device got {w.hex()[:80]} instead of {m.hex()[:80]}")]
        return []


# ------------------------------------------------------------------------------------------ S06
class S06(_Ses):
    pid = "S06"
    quick_n = 500
    thorough_n = 20000
    rule = ("a history counts by its sequence of (requested time-out, result); judged: the receive and send time-outs put on the socket at connect are the last accepted "
            "value, negative values are refused and change nothing, and the configured host, port and stream type are used")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            vals = []
            for _ in range(rng.randrange(1, 5)):
                k = rng.random()
                vals.append(rng.choice(["-1", "-0.001", "-100", "-1e9", "-inf", "nan", "-1e300"]) if k < .3 else rng.choice(["inf", "1e10", "2147483648", "4294967297.5", "1e300"]) if k < .4 else rng.choice(["1", "2", "10", "3600", "0.5", "0.25", "2.75", "1.000001", "0.1", "%.6f" % rng.uniform(0.001, 100), str(rng.randrange(1, 100000))]))
            port = rng.choice([1, 80, 10001, 65535, rng.randrange(1, 65536)])
            g = rng.choice([1, 1, 1, 2, 3, 4])
            j = rng.randrange(0, g + 1) if rng.random() < .5 else 0       # the first j attempts fail
            f = "".join(f"fault {rng.choice(['connect', 'connect', 'connect', 'socket']) if i == 0 else 'connect'} {i + 1} {rng.choice([111, 113, 110, 97])} " for i in range(j))
            six = rng.choice([0, 0, rng.randrange(1 << g), (1 << g) - 1])       # which of the addresses are of the IPv6 family
            yield Case("ses %sgai %d ctx tcp %d tmo 4.0 %s conn disc tmo 4.0 free" % (f, six * 100 + g, port, " ".join("tmo " + v for v in vals)), {"v": vals, "p": port, "g": g, "six": six})

    def check(self, c, o, st):
        want = 4.0
        vs = []
        qs = ops(o)
        rets = [q.rv for q in qs if q.op == "tmo"][1:-1]
        for v, r in zip(c.ctx["v"], rets):
            v = float(v)
            if not v >= 0:
                if r == 0:
                    vs.append(Viol("negative-accepted", f"time-out {v} accepted"))
            elif v > 2147483647:      # may be refused; if it is accepted it must be the one that counts
                st.inc("huge")
                if r == 0:
                    want = v
            else:
                if r != 0:
                    vs.append(Viol("refused", f"time-out {v} refused: {r}"))
                want = v
        conn = next(q for q in qs if q.op == "conn")
        st.sig(tuple(c.ctx["v"]), c.ctx["g"], c.ctx["six"], len(conn.get("fault")))
        tried = [e[3] for e in conn.get("connect")]
        failed = len(conn.get("fault"))
        if len(set(tried)) != len(tried):
            vs.append(Viol("address-repeated", f"host with {c.ctx['g']} addresses, {failed} attempts fail: addresses {tried} were tried"))
        if conn.rv != 0:
            st.inc("unreachable")
            if failed < c.ctx["g"]:
                vs.append(Viol("address-skipped", f"host with {c.ctx['g']} addresses: given up after {failed} failed attempts, addresses {tried} were tried"))
            return vs
        if failed >= c.ctx["g"]:
            vs.append(Viol("unreachable-connected", f"connected although all {failed} attempts failed"))
        if failed:
            st.inc("connected_after_failed_addresses")
        st.inc("connects")
        for opt, nm in ((20, "receive"), (21, "send")):
            so = [e for e in conn.get("so") if e[2] == opt]
            if not so:
                vs.append(Viol("no-" + nm, f"no {nm} time-out set on the socket"))
                continue
            got = so[-1][3] + so[-1][4] * 1e-6
            if not abs(got - want) <= 2e-6 or not 0 <= so[-1][4] < 1000000:
                vs.append(Viol("value-" + nm, f"{nm} time-out {so[-1][3]}s {so[-1][4]}us, configured {want}"))
        g = conn.get("gai")
        if g and (bytes.fromhex(g[0][1]) != b"vhost" or bytes.fromhex(g[0][2]) != str(c.ctx["p"]).encode() or g[0][3] != 1):
            vs.append(Viol("peer", f"resolved {g[0]}, configured vhost port {c.ctx['p']}"))
        if any(e[2] != c.ctx["p"] for e in conn.get("connect")):
            vs.append(Viol("peer", f"connected to {conn.get('connect')}, configured port {c.ctx['p']}"))
        return vs


# ------------------------------------------------------------------------------------------ C01
def direction(f):
    """Direction bit of a valid message: 0x40 in the C field is master to slave; an acknowledgement comes from a slave."""
    if f[0] == 0xE5:
        return S2M
    return M2S if (f[1] if f[0] == 0x10 else f[4]) & 0x40 else S2M


def bad_message(rng):
    """A message of determinable length that does not verify."""
    m = bytearray(wire.rand_frame(rng) if rng.random() < .7 else telegram(rng, maxlen=30))
    if len(m) == 1 or rng.random() < .15:
        return bytes([rng.choice([0x00, 0xC1, 0xFF, 0x16, 0xE4, 0x69])])
    i = rng.choice([len(m) - 1, len(m) - 2, len(m) - 2])
    m[i] ^= rng.choice([1, 0x80, 0xFF, 0x10])
    return bytes(m)


class C01(_Ses):
    pid = "C01"
    quick_n = 1500
    thorough_n = 60000
    rule = ("a stream counts by (purge option, transport, kinds and directions of its messages, number of receives); judged: result and content of every receive "
            "against a model that drops exactly one leading frame of the selected direction, and the time stamp of every delivered frame; all streams of up to "
            "four messages over five kinds are enumerated for every option")

    KINDS = "msagt"      # master frame, slave frame, acknowledgement, garbled, silence

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for opt in (0, 1, 2):
                for l in range(1, 5):
                    for ks in itertools.product(self.KINDS, repeat=l):
                        k += 1
                        if k % nsh == shard:
                            yield self.case(rng, tcp, opt, ks)
        for _ in range(n):
            yield self.case(rng, rng.random() < .5, rng.randrange(3), [rng.choice("mmmsssagt") for _ in range(rng.randrange(2, 10))])

    def msg(self, rng, k):
        if k == "a":
            return wire.ack()
        if k == "g":
            return bad_message(rng)
        for _ in range(100):
            f = wire.rand_frame(rng) if rng.random() < .7 else telegram(rng, maxlen=30)
            if f[0] != 0xE5 and direction(f) == (M2S if k == "m" else S2M):
                return f
        return wire.short(0x40, 1) if k == "m" else telegram(rng)

    def case(self, rng, tcp, opt, ks):
        el = [(k, None if k == "t" else self.msg(rng, k)) for k in ks]
        items = []
        for k, m in el:
            if k == "t":
                items.append("p")
            else:
                items += chunks(rng, m, rng.choice([1, 1, 2, 3]))
        t = [f"ses {CTX[tcp]} conn opt 2 {opt}"]
        for s in (4, 5):
            if rng.random() < .5:      # the frame object held another message before
                t.append(f"fparse {s} {h(self.msg(rng, rng.choice('msa')))}")
        t += rx(items)
        for i in range(len(el) + 2):
            t.append(f"recv {rng.choice([4, 5])} peek")
        return Case(" ".join(t) + " disc free", {"tcp": tcp, "o": opt, "e": [[k, m.hex() if m else ""] for k, m in el]})

    def check(self, c, o, st):
        el = [(k, bytes.fromhex(m)) for k, m in c.ctx["e"]]
        tcp, opt = c.ctx["tcp"], c.ctx["o"]
        st.sig(tcp, opt, "".join(k for k, _ in el))
        i = 0
        rest = sum(len(m) for _, m in el)

        def one():
            nonlocal i, rest
            if i >= len(el):
                return TIMEOUT, None
            k, m = el[i]
            i += 1
            rest -= len(m)
            return (TIMEOUT, None) if k == "t" else (INVALID, None) if k == "g" else (OK, m)
        vt = 1700000000000
        seq = [q for q in ops(o) if q.op in ("recv", "rxleft", "conn")]
        j = 0
        rt = 4000
        for q in seq:
            if q.op == "conn":
                for e in q.get("tc"):
                    rt = e[9] * 100
                continue
            if q.op == "rxleft":
                if q.rv != rest:
                    return [Viol("consumed", f"receive {j} left {q.rv} bytes on the line instead of {rest} (purge option {opt}, {self.show(el)})")]
                continue
            j += 1
            r, m = one()
            dropped = None
            if r == OK and direction(m) == opt:
                dropped = m
                r, m = one()
                st.inc("echoes_dropped")
            t0 = vt
            for e in q.ev:
                if e[0] == "r":
                    vt += 1
                elif e[0] == "rt":
                    vt += rt
            if q.rv != r:
                what = f"after dropping {dropped[:6].hex()}" if dropped else "nothing to drop"
                return [Viol("result", f"receive {j} with purge option {opt} on {self.show(el)}: result {q.rv}, expected {r} ({what})")]
            if r == OK:
                st.inc("delivered")
                if not same(q.chain[0], m):
                    return [Viol("content", f"receive {j} with purge option {opt} on {self.show(el)} delivered {str(q.chain[0])[:150]}, expected {m.hex()[:80]}")]
                ts = q.chain[0]["ts"]
                if not t0 // 1000 <= ts <= vt // 1000:
                    return [Viol("timestamp", f"frame received between {t0} and {vt} ms carries time stamp {ts}")]
        return []

    def show(self, el):
        return ",".join(k + ":" + m[:6].hex() for k, m in el)


# ------------------------------------------------------------------------------------------ K01
class K01(_Ses):
    """The options of a connection: what a new one starts with, what is taken and refused, and what each option governs."""
    pid = "K01"
    quick_n = 500
    thorough_n = 20000
    rule = ("a session counts by (transport, options in force at each measurement, what happened in between); judged: the result of every mbus_context_set_option, and after it the requests sent "
            "to a silent slave, the selections sent by a probe and the frame delivered behind an echo, against a model of the options that starts with 3 and 1 repetitions and master frames dropped")
    VALS = [-1, -2, 10, 11, 99, 255, 256, 257, 65536, 2 ** 31 - 1, -2 ** 31, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 9, -2 ** 63, 2 ** 63 - 1, -2 ** 32 + 2]

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for opt in (0, 1, 2):
                for v in list(range(-1, 12)) + self.VALS:
                    k += 1
                    if k % nsh == shard:
                        yield self.case(rng, tcp, [["opt", opt, v]] + [[m] for m in rng.sample(["req", "probe", "recv", "recv"], 4)])
            for m in ("req", "probe", "recv"):
                for pre in ([], [["disc"], ["conn"]], [["opt", 3, 1]], [["opt", -1, 0]]):
                    k += 1
                    if k % nsh == shard:
                        yield self.case(rng, tcp, pre + [[m]])
        for _ in range(n):
            st = []
            for _ in range(rng.randrange(1, 9)):
                q = rng.random()
                if q < .45:
                    o = rng.choice([0, 1, 2, 0, 1, 2, rng.choice([3, 4, -1, 255])])
                    st.append(["opt", o, rng.randrange(0, 10 if o < 2 else 3) if rng.random() < .65 else rng.choice(self.VALS + [3, 4, 8, 9])])
                elif q < .58:
                    st += [["disc"], ["conn"]]
                elif q < .65:
                    st.append(["ping"])
                else:
                    st.append([rng.choice(["req", "probe", "recv"])])
            yield self.case(rng, rng.random() < .5, st + [[m] for m in rng.sample(["req", "probe", "recv"], 3)])

    def case(self, rng, tcp, steps):
        t = [f"ses {CTX[tcp]} conn"]
        for s in steps:
            if s[0] == "opt":
                t.append(f"opt {s[1]} {s[2]}")
            elif s[0] == "req":
                t.append(f"req {rng.randrange(251)} 0 0 ffree 0")
            elif s[0] == "probe":
                t.append(f"probe {hx(rand_sec(rng))}")
            elif s[0] == "ping":
                t.append(f"ping {rng.randrange(251)} {rng.randrange(2)}")
            elif s[0] == "recv":
                m, d = wire.short(rng.choice([0x40, 0x5B, 0x7B]), rng.randrange(251)), telegram(rng, maxlen=20)
                two = [m, d] if rng.random() < .6 else [d, m] if rng.random() < .7 else [m, m] if rng.random() < .5 else [d, d]
                s.append([x.hex() for x in two])
                t += rx(["d" + x.hex() for x in two])
                t.append("recv 4 peek drop")
            else:
                t.append(s[0])
        return Case(" ".join(t) + " disc free", {"tcp": tcp, "s": steps})

    def check(self, c, o, st):
        v = {0: 3, 1: 1, 2: 1}
        qs = [q for q in ops(o) if q.op in ("opt", "req", "probe", "ping", "recv", "conn", "disc")][1:]
        hist = []
        for s, q in zip(c.ctx["s"], qs):
            if q.op != s[0]:
                return [Viol("order", f"step {s} recorded as {q.op}")]
            what = f"after {' '.join(hist) or 'nothing'}"
            if s[0] == "opt":
                ok = s[1] in (0, 1) and 0 <= s[2] <= 9 or s[1] == 2 and s[2] in (0, 1, 2)
                st.inc("options_taken" if ok else "options_refused")
                if q.rv != (0 if ok else -1):
                    return [Viol("verdict", f"setting option {s[1]} to {s[2]} returned {q.rv}")]
                if ok:
                    v[s[1]] = s[2]
                hist.append(f"option {s[1]}={s[2]}" + ("" if ok else " (refused)"))
                continue
            hist.append(s[0])
            st.sig(c.ctx["tcp"], s[0], v[0] if s[0] == "req" else v[1] if s[0] == "probe" else v[2], tuple(h.split()[0] for h in hist[-3:]))
            if s[0] == "req":
                st.inc("readouts_of_silence")
                n = len(q.tgs())
                if n != v[0] + 1 or q.rv == 0:
                    return [Viol("data-retry", f"{what}: a silent slave was asked {n} times (result {q.rv}), {v[0]} repetitions are set")]
            elif s[0] == "probe":
                st.inc("probes_of_silence")
                n = len(q.tgs())
                if n != v[1] + 1 or q.rv != 0:
                    return [Viol("search-retry", f"{what}: a silent mask was tried {n} times (result {q.rv}), {v[1]} repetitions are set")]
            elif s[0] == "recv":
                st.inc("receives")
                two = [bytes.fromhex(x) for x in s[1]]
                m = two[1] if direction(two[0]) == v[2] else two[0]
                if q.rv != OK or not same(q.chain[0], m):
                    return [Viol("purge", f"{what}: of {[x[:6].hex() for x in two]} the receive gave {q.rv} {str(q.chain)[:120]} with purge option {v[2]}")]
        return []


# ------------------------------------------------------------------------------------------ C02
def end_telegram(rng, hdr, addr=None):
    """A telegram that ends a readout: no variable data, no records, or bytes 1F that announce nothing."""
    a = rng.randrange(251) if addr is None else addr
    k = rng.randrange(6)
    if k == 0:
        return wire.long_(8, a, 0x70, bytes([rng.randrange(0, 10)]))
    if k == 1:
        return wire.long_(8, a, 0x73, record.rand_bytes(rng, 16))
    p = [hdr, hdr + b"\x0f" + record.rand_bytes(rng, rng.randrange(0, 20)) + b"\x1f", hdr + b"\x02\x13\x1f\x1f",
         hdr[:11] + b"\x1f" + b"\x2f" * rng.randrange(0, 4)][k - 2]
    return wire.long_(8, a, 0x72, p)


def seq_telegrams(rng, n, hdr=None, addr=None, unending=False):
    """n telegrams of one readout: all but the last announce more."""
    hdr = hdr if hdr is not None else record.rand_header(rng)
    out = []
    for i in range(n):
        hdr = hdr[:8] + bytes([(hdr[8] + 1) & 255]) + hdr[9:]
        if i == n - 1 and not unending and rng.random() < .3:
            out.append(end_telegram(rng, hdr, addr))
        else:
            out.append(telegram(rng, more=unending or i < n - 1, hdr=hdr, maxlen=rng.choice([20, 40, 80]), addr=addr))
    return out


class C02(_Ses):
    pid = "C02"
    quick_n = 900
    thorough_n = 40000
    rule = ("a readout counts by (transport, telegrams of the slave, limit, addressing, lost replies); judged: requests on the wire (number, address, frame-count bit), "
            "result, and that the chain is exactly the slave's telegrams in order; all (telegrams <= 16, limit <= 18) pairs are enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for nt in range(1, 17):
            for mx in range(0, nt + 3):
                k += 1
                if k % nsh == shard:
                    yield self.slave_case(rng, rng.random() < .5, nt, mx)
        for _ in range(n):
            if rng.random() < .6:
                nt = rng.choice([1, 2, 3, rng.randrange(1, 17)])
                yield self.slave_case(rng, rng.random() < .5, nt, rng.choice([0, 1, 2, nt, nt + 1, 16, rng.randrange(0, 20)]))
            else:
                yield self.long_case(rng, rng.random() < .5)

    def slave_case(self, rng, tcp, nt, mx):
        idb = bytes([int("%d%d" % (rng.randrange(10), rng.randrange(10)), 16) for _ in range(4)]) + record.rand_bytes(rng, 4)
        hdr = idb + record.rand_header(rng)[8:]
        prim = rng.randrange(0, 251)
        unend = rng.random() < .15 and mx > 0 and mx <= nt
        ts = seq_telegrams(rng, nt, hdr, prim, unend)
        echo = rng.random() < .25
        sec = rng.random() < .4
        t = [f"ses {CTX[tcp]} conn opt 2 {1 if echo else rng.randrange(2)} slave {prim} {idb.hex()} {nt} " + " ".join(map(h, ts))]
        if rng.random() < .5:        # a neighbour that must not be disturbed
            t.append(f"slave {(prim + 1) % 251} {record.rand_bytes(rng, 4).hex()}01020304 1 {h(telegram(rng))}")
        if echo:
            t.append("echo 1")
        reads = rng.randrange(1, 4)
        want = []
        for i in range(reads):
            a = prim
            if sec:
                i4 = "".join("%02X" % x for x in reversed(idb[:4]))
                t.append("sel " + hx(i4 + "".join("%02X" % x for x in idb[4:])))
                a = 253
            elif i:
                t.append(f"ping {prim} 1")
            slot = rng.randrange(0, 4)
            t.append(f"req {a} {slot} {mx} ffree {slot}")
            k = nt if mx <= 0 else min(nt, mx)
            want.append([a, [x.hex() for x in ts[:k]]])
        return Case(" ".join(t) + " disc free", {"w": want, "tcp": tcp, "lost": []})

    def long_case(self, rng, tcp):
        """Scripted replies: longer sequences and lost replies in between."""
        nt = rng.choice([1, 2, 3, 5, 17, rng.randrange(1, 40)]) if rng.random() > .01 else rng.randrange(250, 560)
        mx = rng.choice([0, 0, nt, nt + 1, rng.randrange(1, nt + 1)])
        ts = seq_telegrams(rng, nt)
        k = nt if mx <= 0 else min(nt, mx)
        a = rng.randrange(251)
        t = [f"ses {CTX[tcp]} conn opt 0 3"]
        lost = []
        for i in range(k):
            n = rng.choice([0, 0, 0, 1, 2, 3])
            for _ in range(n):
                t.append("rep " + rng.choice(["-", "d" + bad_message(rng).hex()]))
            lost.append(n)
            # now and then the slave says it twice, or a message nobody asked for follows
            x = rng.random()
            t.append("rep d" + ts[i].hex() + ("" if x < .75 else ",d" + (ts[i] if x < .88 else telegram(rng, more=x < .95)).hex()))
        t.append(f"rep - req {a} 0 {mx} ffree 0")
        return Case(" ".join(t) + " disc free", {"w": [[a, [x.hex() for x in ts[:k]]]], "tcp": tcp, "lost": lost})

    def check(self, c, o, st):
        qs = [q for q in ops(o) if q.op == "req"]
        for q, (a, fs) in zip(qs, c.ctx["w"]):
            fs = [bytes.fromhex(x) for x in fs]
            st.inc("readouts")
            st.inc("telegrams", len(fs))
            st.sig(c.ctx["tcp"], len(fs), a == 253, tuple(c.ctx["lost"]))
            lost = c.ctx["lost"] or [0] * len(fs)
            want = []
            fcb = 0x7B
            for n in lost:
                want += [wire.short(fcb, a)] * (n + 1)
                fcb ^= 0x20
            got = q.tgs()
            if got != want:
                return [Viol("requests", f"requests {[g.hex() for g in got][:12]} ({len(got)}), expected {[w.hex() for w in want][:12]} ({len(want)}) for {len(fs)} telegrams")]
            if q.rv != 0:
                return [Viol("failed", f"readout of {len(fs)} telegrams returned {q.rv}")]
            if len(q.chain) != len(fs):
                return [Viol("chain", f"{len(q.chain)} telegrams linked, {len(fs)} were sent")]
            for i, (g, f) in enumerate(zip(q.chain, fs)):
                if not same(g, f):
                    return [Viol("chain", f"telegram {i} of the chain is {str(g)[:120]}, sent was {f.hex()[:120]}")]
        return []


# ------------------------------------------------------------------------------------------ C03
class C03(_Ses):
    pid = "C03"
    quick_n = 1200
    thorough_n = 60000
    rule = ("a readout counts by (script of reply kinds, retry option, frame limit, transport); judged: every request on the wire against a reference model of the "
            "retry rules, the result, and that a success carries exactly the accepted telegrams; all scripts of up to three retried or continued replies and a final "
            "one are enumerated for retry 0, 1, 3")
    # 0 data last, 1 data more, F fixed, E error report, A ack, P undecodable, S silence, G garbled, H cut short, N noise, X read error, Z closed, D data twice,
    # T more data announced, followed by a message nobody asked for
    MID = "1TSGHN"
    END = "0FEAPXZDKS"

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for retry in (0, 1, 3):
                for l in range(0, 4):
                    for mid in itertools.product(self.MID, repeat=l):
                        for e in self.END:
                            if e == "Z" and not tcp:
                                continue
                            k += 1
                            if k % nsh == shard:
                                yield self.case(rng, tcp, retry, mid + (e,), rng.choice([0, 0, 1, 2, 3]))
        for _ in range(n):
            tcp = rng.random() < .5
            ks = [rng.choice("11TSGHNSGHN" + ("0FEAPXDK" if rng.random() < .1 else "")) for _ in range(rng.randrange(0, 12))]
            w = None
            if rng.random() < .2:
                w = [rng.randrange(0, len(ks) + 1), rng.choice(["e5", "s2", "s0", "e32", "e11"])]
            yield self.case(rng, tcp, rng.choice([0, 1, 2, 3, 5, 9]), ks + [rng.choice("0000FEAPXDKS")], rng.choice([0, 0, 1, 2, 3, 16]), w)

    def reply(self, rng, tcp, k):
        if k == "0":
            m = telegram(rng)
        elif k == "1":
            m = telegram(rng, more=True)
        elif k == "D":
            m = telegram(rng)
            return m, "d" + m.hex() + ",d" + (m if rng.random() < .5 else telegram(rng)).hex()
        elif k == "T":
            m = telegram(rng, more=True)
            return m, "d" + m.hex() + ",d" + rng.choice([m, telegram(rng), telegram(rng, more=True), wire.ack(), bad_message(rng)]).hex()
        elif k == "F":
            m = wire.long_(8, rng.randrange(251), 0x73, record.rand_bytes(rng, 16))
        elif k == "E":
            m = wire.long_(8, rng.randrange(251), 0x70, bytes([rng.randrange(0, 10)]))
        elif k == "A":
            m = wire.ack()
        elif k == "K":             # valid frames that are no data reply
            m = rng.choice([wire.long_(8, 1, rng.choice([0x51, 0x71, 0x00, 0x78]), record.rand_bytes(rng, 20)), wire.long_(8, 1, 0x72)])
        elif k == "P":             # payload that ends inside a record or in the header
            p = record.rand_header(rng)
            p = rng.choice([p[:rng.randrange(1, 12)], p + b"\x04\x13\x01\x02", p + b"\x0d\x78\x10abc", p + b"\x01\x13\x05\x84", p + b"\x02\xff\x93"])
            m = wire.long_(8, rng.randrange(251), 0x72, p)
        elif k == "S":
            return None, "-"
        elif k == "G":
            return None, "d" + bad_message(rng).hex()
        elif k == "H":
            m = telegram(rng, maxlen=20)
            return None, "d" + m[:rng.randrange(1, len(m))].hex()
        elif k == "N":
            return None, "d" + (bad_message(rng) + record.rand_bytes(rng, rng.randrange(0, 60))).hex()
        elif k == "X":
            return None, "e" + str(rng.choice([5, 104, 9]))
        elif k == "Z":
            return None, "z"
        return m, "d" + m.hex()

    def case(self, rng, tcp, retry, ks, mx, w=None):
        a = rng.randrange(251)
        t = [f"ses {CTX[tcp]} conn opt 0 {retry} opt 2 {rng.choice([0, 1])}"]
        ms = []
        for k in ks:
            m, it = self.reply(rng, tcp, k)
            ms.append(m.hex() if m else "")
            t.append("rep " + it)
        x = {"tcp": tcp, "a": a, "r": retry, "mx": mx, "k": "".join(ks), "m": ms, "w": w}
        if not w and rng.random() < .5:
            # another slave is read next, with the same handle: nothing of this readout may be left over
            n = len(self.model(x)[0])
            t = t[:1 + n]
            while len(t) < 1 + n:
                t.append("rep -")
            if not set("XZ") & set(x["k"][:n]):
                m, it = self.reply(rng, tcp, "0")
                x["next"] = [(a + 1) % 251, m.hex()]
                t.append(f"req {a} 0 {mx} peek ffree 0 rep {it} req {x['next'][0]} 0 0 ffree 0 disc free")
                return Case(" ".join(t), x)
        for _ in range(12):
            t.append("rep -")
        if w:
            t += ["wr f"] * w[0] + ["wr " + w[1]]
        t.append(f"req {a} 0 {mx} peek ffree 0 disc free")
        return Case(" ".join(t), x)

    def model(self, x):
        fcb, att, reqs, got = 0x7B, 0, [], []
        i = 0
        while True:
            if x["w"] and len(reqs) == x["w"][0]:
                return reqs, -1, got
            reqs.append(wire.short(fcb, x["a"]))
            k = x["k"][i] if i < len(x["k"]) else "S"
            m = bytes.fromhex(x["m"][i]) if i < len(x["k"]) else b""
            i += 1
            if k in "SGHN":
                att += 1
                if att > x["r"]:
                    return reqs, 1, got
                continue
            if k in "XZAPK":
                return reqs, 1, got
            att = 0
            got.append(m)
            if k in "1T" and (x["mx"] <= 0 or len(got) < x["mx"]):
                fcb ^= 0x20
                continue
            return reqs, 0, got

    def check(self, c, o, st):
        x = c.ctx
        reqs, rv, got = self.model(x)
        q = next(q for q in ops(o) if q.op == "req")
        st.inc("result_%d" % rv)
        st.inc("requests", len(reqs))
        st.sig(x["tcp"], x["r"], x["mx"], x["k"], str(x["w"]))
        what = f"replies {x['k']}, {x['r']} retries, limit {x['mx']}" + (f", write {x['w'][0]} fails" if x["w"] else "")
        tg = q.tgs()
        if x["w"] and rv == -1:
            tg = tg[:len(reqs)]
        if tg != reqs:
            return [Viol("requests", f"{what}: requests {[t.hex() for t in tg]}, expected {[t.hex() for t in reqs]}")]
        if q.rv == 0 and rv == 0:
            if len(q.chain) != len(got) or any(not same(g, m) for g, m in zip(q.chain, got)):
                return [Viol("data", f"{what}: success with {str(q.chain)[:200]}, the accepted replies were {[m.hex() for m in got]}")]
        elif q.rv == 0:
            return [Viol("accepted", f"{what}: success reported, expected failure (chain {str(q.chain)[:200]})")]
        elif rv == 0 and not (got and got[-1][6] == 0x70):
            return [Viol("refused", f"{what}: result {q.rv} although valid data came")]
        if "next" in x:
            a, m = x["next"]
            m = bytes.fromhex(m)
            q = [q for q in ops(o) if q.op == "req"][1]
            st.inc("second_readouts")
            if q.tgs() != [wire.short(0x7B, a)] or q.rv != 0 or len(q.chain) != 1 or not same(q.chain[0], m):
                return [Viol("left-over", f"{what}: the next readout (slave {a}) sent {[t.hex() for t in q.tgs()]} and gave {q.rv} {str(q.chain)[:200]}, its reply was {m.hex()}")]
        return []


# ------------------------------------------------------------------------------------------ C04
class C04(_Ses):
    pid = "C04"
    quick_n = 1500
    thorough_n = 60000
    rule = ("a selection counts by (transport, script of answers, retry option); judged: result, the telegrams sent, the returned address and the found event, against the "
            "scripted answers; all scripts of up to three select answers x one request answer are enumerated")
    SEL = "ASGBCLXZH"
    DAT = "DESGXZAUFHV"

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for a in self.SEL:
                k += 1
                if k % nsh == shard and not (a == "Z" and not tcp):
                    yield self.sel_case(rng, tcp, a)
            for retry in (0, 1, 2):
                for l in range(0, retry + 1):
                    for a in self.SEL:
                        for d in (self.DAT if a == "A" else "-"):
                            if (a == "Z" or d == "Z") and not tcp:
                                continue
                            k += 1
                            if k % nsh == shard:
                                yield self.probe_case(rng, tcp, retry, "S" * l + a, d)
        for _ in range(n):
            tcp = rng.random() < .5
            q = rng.random()
            a = rng.choice(self.SEL if tcp else self.SEL.replace("Z", ""))
            if q < .2:
                yield self.sel_case(rng, tcp, a)
            elif q < .25:
                w = rng.choice(["e5", "s3", "e32", "s0"])
                s = hx(rand_sec(rng))
                op = rng.choice(["sel", "probe"])
                yield Case(f"ses {CTX[tcp]} cb {rng.choice([0, 4])} conn rep de5 wr {w} {op} {s} disc free", {"k": "wr", "op": op})
            elif q < .3:
                w = rng.choice(["e5", "s3", "e32", "s0"])
                yield Case(f"ses {CTX[tcp]} cb {rng.choice([0, 4])} conn rep de5 wr f wr {w} probe {hx(rand_sec(rng))} disc free", {"k": "wr", "op": "probe"})
            else:
                retry = rng.choice([0, 1, 2, 3, 9])
                l = rng.randrange(0, retry + 2)
                d = rng.choice(self.DAT if tcp else self.DAT.replace("Z", "")) if rng.random() < .6 else "D"
                yield self.probe_case(rng, tcp, retry, "S" * l + rng.choice([a, "A"]), d)

    def sel_items(self, rng, a):
        if a == "A":
            return "de5"
        if a == "S":
            return "-"
        if a == "G":
            return "d" + bad_message(rng).hex()
        if a == "B":
            return rng.choice(["de5e5", "de5,de5", "de5e5e5", "de5,i,de5" if False else "de5e5e5e5e5e5"])
        if a == "C":
            return "de5,d" + bad_message(rng).hex()
        if a == "L":
            return "d" + (telegram(rng) if rng.random() < .7 else wire.short(0x5B, 1)).hex()
        if a == "H":
            m = telegram(rng, maxlen=20)
            return "d" + m[:rng.randrange(1, len(m))].hex()
        return "z" if a == "Z" else "e" + str(rng.choice([5, 104, 9]))

    def sel_want(self, tcp, a):
        return {"A": [SINGLE], "S": [NOTHING], "G": [COLL], "B": [COLL], "C": [COLL], "L": [NOTHING], "X": [PERR], "Z": [PERR],
                "H": [NOTHING, COLL] if tcp else [COLL]}[a]

    def sel_case(self, rng, tcp, a):
        s = rand_sec(rng)
        return Case(f"ses {CTX[tcp]} cb {rng.choice([0, 4])} conn opt 2 {rng.choice([0, 1])} rep {self.sel_items(rng, a)} sel {hx(s)} peek disc free",
                    {"k": "sel", "tcp": tcp, "a": a, "s": s.hex()})

    def probe_case(self, rng, tcp, retry, a, d):
        s = rand_sec(rng)
        t = [f"ses {CTX[tcp]} cb {rng.choice([0, 4, 4])} conn opt 1 {retry} opt 2 {rng.choice([0, 1])}"]
        for x in a:
            t.append("rep " + self.sel_items(rng, x))
        m = b""
        if a[-1] == "A" and d != "-":
            m = telegram(rng, more=rng.random() < .1)
            it = {"D": "d" + m.hex(), "E": "d" + m.hex() + ",d" + m.hex(), "S": "-", "G": "d" + bad_message(rng).hex(), "X": "e5", "Z": "z", "A": "de5",
                  "U": "d" + wire.short(0x5B, 3).hex(), "F": "d" + wire.long_(8, 3, 0x73, record.rand_bytes(rng, 16)).hex(), "H": "d" + m[:rng.randrange(1, len(m))].hex(),
                  "V": "d" + wire.long_(8, 3, 0x72, record.rand_header(rng) + b"\x04\x13\x01").hex()}[d]
            t.append("rep " + it)
        for _ in range(11):
            t.append("rep -")
        t.append(f"probe {hx(s)} disc free")
        return Case(" ".join(t), {"k": "probe", "tcp": tcp, "r": retry, "a": a, "d": d, "s": s.hex(), "m": m.hex()})

    def check(self, c, o, st):
        x = c.ctx
        qs = ops(o)
        if x["k"] == "wr":
            st.inc("failed_writes")
            q = next(q for q in qs if q.op == x["op"])
            return [] if q.rv == PERR else [Viol("write-failure", f"{x['op']} returned {q.rv} although a telegram could not be sent")]
        s = bytes.fromhex(x["s"])
        tcp = x["tcp"]
        sf = select_frame(s)
        if x["k"] == "sel":
            q = next(q for q in qs if q.op == "sel")
            st.inc("select_" + x["a"])
            st.sig("sel", tcp, x["a"], q.rv)
            w = self.sel_want(tcp, x["a"])
            if q.rv not in w:
                return [Viol("select-" + x["a"], f"select answered with {self.name_(x['a'])}: result {q.rv}, expected {w}")]
            if q.tgs() != [sf]:
                return [Viol("select-telegrams", f"select wrote {[t.hex() for t in q.tgs()]}, expected {sf.hex()}")]
            return []
        q = next(q for q in qs if q.op == "probe")
        st.inc("probe_%s%s" % (x["a"][-1], x["d"]))
        st.sig("probe", tcp, x["r"], x["a"], x["d"], q.rv)
        tg = q.tgs()
        req = wire.short(0x5B, 0xFD)
        nsel = sum(1 for t in tg if t == sf)
        other = [t for t in tg if t not in (sf, req)]
        what = f"probe ({x['r']} retries) answered {x['a']}/{x['d']}"
        if other:
            return [Viol("probe-telegram", f"{what}: sent {other[0].hex()}")]
        if nsel > x["r"] + 1:
            return [Viol("probe-bound", f"{what}: {nsel} selects")]
        if tg.count(req) > nsel:
            return [Viol("probe-requests", f"{what}: {tg.count(req)} requests after {nsel} selects")]
        lead = len(x["a"]) - 1
        if lead > x["r"]:
            want, sel = [NOTHING], x["r"] + 1
        elif x["a"][-1] == "A":
            want = {"D": [SINGLE], "E": [COLL], "S": [NOTHING], "G": [COLL], "X": [PERR], "Z": [PERR], "A": [NOTHING], "U": [NOTHING],
                    "F": [NOTHING], "V": [NOTHING, SINGLE, COLL, PERR], "H": [NOTHING, COLL] if tcp else [COLL]}[x["d"]]
            sel = lead + 1
        else:
            want = self.sel_want(tcp, x["a"][-1])
            sel = None if x["a"][-1] in "LHS" else lead + 1
        if q.rv not in want:
            return [Viol("probe-" + x["a"][-1] + x["d"], f"{what}: result {q.rv}, expected {want}")]
        if sel is not None and x["d"] in "-D" and nsel != sel:
            return [Viol("probe-selects", f"{what}: {nsel} selects instead of {sel}")]
        found = q.get("found")
        if q.rv == SINGLE:
            m = bytes.fromhex(x["m"])
            p = m[7:-2]
            addr = ("".join("%02X" % b for b in reversed(p[0:4])) + "".join("%02X" % b for b in p[4:8])) if x["d"] == "D" else None
            got = [bytes.fromhex(e[1]).decode("latin-1") for e in q.get("match")]
            if addr and got != [addr]:
                return [Viol("probe-address", f"{what}: address {got}, the slave is {addr}")]
            if tg.count(req) == 0:
                return [Viol("probe-request", f"{what}: a device was reported without asking it")]
            if "cb 4" in c.cmd and len(found) != 1:
                return [Viol("found-event", f"{what}: {len(found)} found events")]
            if found and x["d"] == "D" and bytes.fromhex(found[0][2]) != p:
                return [Viol("found-frame", f"{what}: found event shows {found[0][2]}")]
        elif found:
            return [Viol("found-event", f"{what}: found event although the result is {q.rv}")]
        return []

    def name_(self, a):
        return {"A": "one ACK", "S": "silence", "G": "a garbled message", "B": "several ACKs", "C": "ACK and garbage", "L": "a valid frame of another kind", "X": "a read error",
                "Z": "a closed connection", "H": "a cut-short message"}[a]


# ------------------------------------------------------------------------------------------ C05
def sec_match(mask, idb):
    """Does the slave with these 8 header bytes answer to this mask?  Id digits match nibble by nibble, the other fields byte by byte."""
    m = mask.upper()
    dig = "".join("%02X" % b for b in reversed(idb[:4]))
    if any(a != "F" and a != b for a, b in zip(m[:8], dig)):
        return False
    return all(m[8 + 2 * i:10 + 2 * i] in ("FF", "%02X" % idb[4 + i]) for i in range(4))


class C05(_Ses):
    pid = "C05"
    batch = 40
    quick_n = 240
    thorough_n = 4000
    rule = ("a scan counts by (population size, digits shared, mask, collision mode, transport); judged: the multiset of reported addresses is exactly that of the matching "
            "slaves, reported by event or on standard output, each mask is announced to a registered progress callback before it is tried, and the number of telegrams stays within 10 probes per shared prefix")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            tcp = rng.random() < .5
            cm = rng.randrange(4)
            size = rng.choice([0, 1, 2, 3, 4, rng.randrange(5, 12), rng.randrange(5, 30) if tier != "quick" or rng.random() < .2 else 5])
            base = "%08d" % rng.randrange(10 ** 8)
            ids = set()
            while len(ids) < size:
                k = rng.random()
                if k < .5 and ids:
                    b = rng.choice(sorted(ids))
                    keep = rng.randrange(0, 8)
                    d = b[:keep] + "%08d" % rng.randrange(10 ** 8)
                elif k < .7:
                    d = base[:rng.randrange(8)] + "%08d" % rng.randrange(10 ** 8)
                else:
                    d = "%08d" % rng.randrange(10 ** 8)
                ids.add(d[:8])
            ids = sorted(ids)
            rng.shuffle(ids)
            fam = record.rand_bytes(rng, 4)
            pop = []
            for d in ids:
                idb = bytes(int(d[i:i + 2], 16) for i in (6, 4, 2, 0)) + (fam if rng.random() < .6 else record.rand_bytes(rng, 4))
                if 0xFF in idb[4:]:
                    idb = idb[:4] + bytes(b & 0x7F for b in idb[4:])
                pop.append(idb)
            mask = bytearray(b"F" * 16)
            q = rng.random()
            if q < .5:
                src = rng.choice(ids) if ids and rng.random() < .8 else base
                for i in range(8):
                    if rng.random() < .35:
                        mask[i] = ord(src[i])
                if rng.random() < .15:
                    mask[:8] = src.encode()
            if q < .35 and pop:
                one = rng.choice(pop)
                for lo, hi in ((8, 12), (12, 14), (14, 16)):
                    if rng.random() < .3:
                        mask[lo:hi] = one[4:].hex().upper().encode()[lo - 8:hi - 8]
            mask = mask.decode()
            start = 0
            u = rng.random()
            if u < .12:
                # a hexadecimal last digit is not among the ten a scan tries by itself: only a fixed one finds such a slave
                dg = rng.choice("ABCDE")
                mask = mask[:7] + dg + mask[8:]
                for i in range(len(pop)):
                    if rng.random() < .6:
                        pop[i] = bytes([pop[i][0] & 0xF0 | int(dg, 16)]) + pop[i][1:]
                pop = list({p[:4]: p for p in pop}.values())
            elif u < .22 and pop:
                # nothing left to enumerate from the starting position on: a single probe
                start = rng.randrange(8, 16)
                one = rng.choice(pop)
                one = one[:7] + bytes([rng.choice([0x0A, 0x0B, 0x0C, 0x0D, 0x0E, 0x1B, 0x1C, 0x04, 0x07, one[7]])])
                one = one[:4] + bytes(b & (0xEE if b & 15 == 15 else 0xFF) & (0x7F if b > 0xEF else 0xFF) for b in one[4:])     # an F would be enumerated
                pop[[p[:4] for p in pop].index(one[:4])] = one
                dig = one[3::-1].hex().upper()
                mask = "".join(d if rng.random() < .7 else "F" for d in dig) + one[4:].hex().upper()
                pop = [p for p in pop if p == one or not sec_match(mask, p)]
                if rng.random() < .2:
                    mask = mask[:15] + rng.choice("0123456789ABCDE")
            elif u < .3 and pop:
                # the caller names the digits before the starting position itself
                start = rng.randrange(1, 8)
                mask = rng.choice(pop)[3::-1].hex().upper()[:start] + mask[start:]
            if rng.random() < .2:
                mask = mask.lower()
            ev = rng.random() < .5
            retry = rng.choice([0, 1, 1, 2])
            prog = rng.random() < .5
            t = [f"ses {CTX[tcp]} cb {(4 if ev else 0) | (2 if prog else 0)} conn opt 1 {retry} coll {cm}"]
            if rng.random() < .15:
                t.append("echo 1")
            else:
                t.append(f"opt 2 {rng.choice([0, 1])}")
            for i, idb in enumerate(pop):
                nt = 1
                tel = wire.long_(8, i % 251, 0x72, idb + record.rand_bytes(rng, 4) + b"\x01\x13\x05" + (b"\x0f" + record.rand_bytes(rng, 3) if rng.random() < .3 else b""))
                t.append(f"slave {i % 251} {idb.hex()} 1 {h(tel)}")
            if rng.random() < .12:
                t += ["wr f"] * rng.choice([0, 1, 2, 3, rng.randrange(30), rng.randrange(30), rng.randrange(100)]) + [f"wr e{rng.choice([5, 32, 104])}"]
            t.append(f"scan {start} {hx(mask)} disc free")
            yield Case(" ".join(t), {"p": [b.hex() for b in pop], "m": mask, "s": start, "ev": ev, "r": retry, "cm": cm, "prog": prog})

    def progress(self, q, retry):
        """The scan tells each mask before it is tried, and tries no other."""
        last, tried, told = None, 0, 0
        for e in q.ev:
            if e[0] == "prog":
                if last is not None and not tried:
                    return f"{last} announced but never tried"
                last, tried = bytes.fromhex(e[1]).decode("latin-1"), 0
            elif e[0] == "tg":
                b = bytes.fromhex(e[1])
                if len(b) > 14 and b[6] == 0x52:
                    m = "".join("%02X" % x for x in (b[10], b[9], b[8], b[7], b[11], b[12], b[13], b[14]))
                    if last is None or m != last.upper():
                        return f"{m} tried, the last mask announced was {last}"
                    tried += 1
                    if tried > retry + 1:
                        return f"{m} announced once and tried {tried} times"
        return f"{last} announced but never tried" if last is not None and not tried else None

    def check(self, c, o, st):
        x = c.ctx
        pop = [bytes.fromhex(b) for b in x["p"]]
        want = sorted("".join("%02X" % b for b in reversed(p[:4])) + "".join("%02X" % b for b in p[4:]) for p in pop if sec_match(x["m"], p))
        q = next(q for q in ops(o) if q.op == "scan")
        out = b"".join(bytes.fromhex(e[1]) for e in q.get("out")).decode("latin-1")
        lines = re.findall(r"Found a device on secondary address (\S+) \[using address mask (\S+)\]", out)
        st.inc("slaves_on_bus", len(pop))
        st.inc("slaves_expected", len(want))
        st.inc("telegrams", len(q.tgs()))
        st.inc("scans_from_the_%s" % ("start" if not x["s"] else "identification" if x["s"] < 8 else "last_fields"))
        st.sig(len(pop), len(want), x["m"], x["cm"], x["s"])
        what = f"scan of {len(pop)} slaves with mask {x['m']}, collision mode {x['cm']}"
        if q.get("we"):
            st.inc("scans_on_a_failing_line")
            if q.rv != -1:
                return [Viol("failure-hidden", f"{what}: a telegram could not be sent ({len(q.tgs())} were before), result {q.rv}")]
            return []
        if q.rv != 0:
            return [Viol("failed", f"{what}: result {q.rv}")]
        if x["ev"]:
            got = sorted("".join("%02X" % b for b in reversed(d[:4])) + "".join("%02X" % b for b in d[4:8]) for d in (bytes.fromhex(e[2]) for e in q.get("found")))
        else:
            got = sorted(a for a, _ in lines)
            for a, m in lines:
                if len(m) != 16 or not sec_match(m, bytes.fromhex(a[6:8] + a[4:6] + a[2:4] + a[0:2] + a[8:])):
                    return [Viol("mask-printed", f"{what}: {a} reported with mask {m}")]
        if got != want:
            miss = [w for w in want if w not in got][:4]
            more = [g for g in got if g not in want or got.count(g) > 1][:4]
            return [Viol("found-set", f"{what}: missing {miss}, wrong or repeated {more} (found {len(got)} of {len(want)})")]
        if x["prog"]:
            st.inc("masks_announced", sum(1 for e in q.ev if e[0] == "prog"))
            bad = self.progress(q, x["r"])
            if bad:
                return [Viol("progress", f"{what}: {bad}")]
        elif any(e[0] == "prog" for e in q.ev):
            return [Viol("progress", f"{what}: progress reported although nobody asked")]
        # bound: ten probes per position where two or more slaves still share the mask, plus the first level
        match = [w for w in want]
        nodes = {""}
        for i in range(1, 9):
            for w in match:
                if sum(1 for v in match if v[:i] == w[:i]) > 1:
                    nodes.add(w[:i])
        bound = 10 * (len(nodes) + 1) * (x["r"] + 2) + 20
        if len(q.tgs()) > bound:
            return [Viol("bound", f"{what}: {len(q.tgs())} telegrams, at most {bound} are needed")]
        return []


# ------------------------------------------------------------------------------------------ C06
class C06(_Ses):
    pid = "C06"
    quick_n = 1500
    thorough_n = 60000
    rule = ("a history counts by its sequence of operations, injected faults and results; judged: a ledger of descriptors and address lists (each released once, by its owner, none "
            "left, no foreign one used), the result of every connect, and the allocation balance; every fault at every call of a connect is enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp, faults in ((True, ["socket", "connect", "getaddrinfo"]), (False, ["open", "tcsetattr"])):
            for f in faults + ["setsockopt", "tcgetattr", "close", "tcdrain"]:
                for at in (1, 2, 3):
                    for g in ((1, 2, 3) if tcp else (1,)):
                        k += 1
                        if k % nsh == shard:
                            yield self.case(rng, tcp, [(f, at)], g, ["conn", "reqf", "disc", "disc", "conn", "reqf", "recv", "disc", "conn", "disc"])
        for _ in range(n):
            tcp = rng.random() < .5
            fs = [(rng.choice(["socket", "connect", "getaddrinfo", "setsockopt"] if tcp else ["open", "tcsetattr", "tcgetattr", "tcdrain"]), rng.randrange(1, 6))
                  for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
            seq = []
            up = False
            for _ in range(rng.randrange(1, 14)):
                op = rng.choice(["conn", "disc", "disc", "reqf", "recv", "ping", "purge", "sel", "probe", "req", "sbaud" if not tcp else "reqf"])
                if op == "conn":
                    if up:
                        continue
                    up = True
                if op == "disc":
                    up = False
                seq.append(op)
            yield self.case(rng, tcp, fs, rng.choice([1, 1, 2, 3]) if tcp else 1, seq)

    def case(self, rng, tcp, faults, g, seq):
        t = ["ses"] + [f"fault {f} {k} {rng.choice([5, 12, 111, 24])}" for f, k in faults] + [f"gai {g}", CTX[tcp]]
        if rng.random() < .3:
            t.append("cb 7")
        for op in seq:
            s = hx(rand_sec(rng))
            t.append({"conn": "conn", "disc": "disc", "reqf": "reqf 5", "recv": "recv 4", "ping": "ping 3 1", "purge": "purge", "sel": "sel " + s, "probe": "probe " + s,
                      "req": "req 4 0 2 ffree 0", "sbaud": f"sbaud {rng.choice(STDBAUD)}"}[op])
        if rng.random() < .4:
            t.append("disc")
        if rng.random() < .6:
            t.append("free")
        return Case(" ".join(t), {"tcp": tcp, "g": g, "f": [list(f) for f in faults]})

    def check(self, c, o, st):
        open_ = set()
        up = False
        st.sig([(q.op, q.rv) for q in ops(o)], str(c.ctx["f"]), c.ctx["tcp"])
        for q in ops(o):
            before = set(open_)
            for e in q.ev:
                if e[0] == "open":
                    open_.add(e[3])
                elif e[0] == "socket":
                    open_.add(e[2])
                elif e[0] == "close":
                    st.inc("closes")
                    if e[1] not in open_:
                        return [Viol("double-close", f"{q.op} closed descriptor {e[1]} which is not open: {c.cmd[:200]}")]
                    open_.discard(e[1])
                elif e[0] == "badfd" and (e[2] != -1 or e[1] == "close"):
                    return [Viol("foreign-descriptor", f"{q.op} calls {e[1]} on descriptor {e[2]} which the handle does not own: {c.cmd[:200]}")]
                elif e[0] == "badfd" and e[1] == "freeaddrinfo":
                    return [Viol("address-list", f"address list released twice: {c.cmd[:200]}")]
            if q.op == "conn":
                st.inc("connects")
                fl = [e[1] for e in q.get("fault")]
                if q.rv == 0:
                    up = True
                    if len(open_) != 1:
                        return [Viol("connect-success", f"connect succeeded with {len(open_)} open descriptors: {c.cmd[:200]}")]
                    if any(f in ("open", "tcsetattr", "getaddrinfo") for f in fl):
                        return [Viol("connect-hides", f"connect succeeded although {fl} failed: {c.cmd[:200]}")]
                else:
                    st.inc("failed_connects")
                    up = False
                    if open_:
                        return [Viol("connect-leak", f"failed connect leaves {len(open_)} descriptors open: {c.cmd[:200]}")]
                    if not fl:
                        return [Viol("connect-fails", f"connect failed ({q.rv}) without a reason: {c.cmd[:200]}")]
                    if set(fl) <= {"socket", "connect"} and len(fl) < c.ctx["g"]:
                        return [Viol("connect-gives-up", f"{len(fl)} of {c.ctx['g']} addresses failed and connect gave up: {c.cmd[:200]}")]
                    if set(fl) <= {"setsockopt", "tcgetattr"}:
                        st.inc("connect_refused_on_" + fl[0])
            elif q.op == "disc":
                st.inc("disconnects")
                if open_:
                    return [Viol("disconnect", f"descriptor still open after disconnect: {c.cmd[:200]}")]
                if not up and q.get("close"):
                    return [Viol("disconnect-closed", f"disconnect of a closed handle closes something: {c.cmd[:200]}")]
                if up and q.rv != 0:
                    return [Viol("disconnect-result", f"disconnect returned {q.rv}: {c.cmd[:200]}")]
                up = False
            elif q.op in ("reqf", "recv", "ping", "req", "sel", "probe", "sbaud", "purge"):
                if open_ != before:
                    return [Viol("descriptor-change", f"{q.op} changed the open descriptors: {c.cmd[:200]}")]
                if not up:
                    st.inc("uses_while_closed")
                    if q.get("w") or (q.rv == 0 and q.op != "purge") or (q.op in ("sel", "probe") and q.rv != PERR):
                        return [Viol("use-closed", f"{q.op} on a handle that is not connected returned {q.rv}: {c.cmd[:200]}")]
        vs = []
        if o["fds"] and " free" in c.cmd.split(" ctx")[1] and not up:
            vs.append(Viol("descriptor-leak", f"{o['fds']} descriptors left open: {c.cmd[:200]}"))
        if o.get("gai"):
            vs.append(Viol("address-list", f"{o['gai']} address lists not released: {c.cmd[:200]}"))
        if o["bal"]:
            vs.append(Viol("memory", f"{o['bal']} allocations left: {c.cmd[:200]}"))
        return vs


# ------------------------------------------------------------------------------------------ C07
class C07(_Ses):
    pid = "C07"
    batch = 200
    quick_n = 1000
    thorough_n = 40000
    rule = ("a session counts by (transport, operations, bytes exchanged); judged: send callbacks against the telegrams accepted by the device, receive callbacks against the bytes read per "
            "message, in order, and the same session without callbacks gives the same log otherwise")

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            k = rng.random()
            if k < .6:
                s = session_case(rng, faults=rng.random() < .3)
            else:
                tcp = rng.random() < .5
                fs, items, exp = stream_case(rng, tcp)
                ms = []
                t = [f"ses {CTX[tcp]} conn opt 2 {rng.randrange(3)}"]
                if rng.random() < .5:
                    items = []
                    for f in fs:
                        items += chunks(rng, f if rng.random() < .5 else bad_message(rng))
                        if rng.random() < .2:
                            items += ["a"] * 3
                t += rx(items) + ["recv 4"] * (len(fs) + 2)
                s = " ".join(t) + " disc free"
            s = re.sub(r" cb \d+", "", s)
            a, b = s.split(" conn ", 1)
            mask = rng.choice([1, 1, 3])
            yield Case(f"seq {a} cb {mask} conn {b} ;; {a} conn {b}", {"tcp": " ctx tcp" in a})

    def judge(self, c, o, st):
        a, b = o["o"]
        for x in (a, b):
            s = stuck(x)
            if s:
                st.inc("stuck_sessions")
                return [Viol("stuck", s + ": " + c.cmd[:200])]
        tcp = c.ctx["tcp"]
        strip = [e for e in a["ev"] if e[0] not in ("cs", "cr", "prog")]
        # (messages about errors may mention an earlier error; of the output only the devices found are compared)
        for e in strip + b["ev"]:
            if e[0] == "out":
                e[1] = [l for l in bytes.fromhex(e[1]).decode("latin-1").split("\n") if l.startswith("Found")]
        if any(e[0] in ("cs", "cr", "prog") for e in b["ev"]):
            return [Viol("unregistered", "a callback was called that is not registered")]
        ts = lambda ev: str(ev)
        if ts(strip) != ts(b["ev"]) or (a["left"], a["bal"]) != (b["left"], b["bal"]):
            for i, (p, q) in enumerate(zip(strip, b["ev"])):
                if p != q:
                    break
            return [Viol("differs", f"with callbacks event {i} is {str(strip[i:i + 1])[:150]}, without {str(b['ev'][i:i + 1])[:150]}")]
        st.sig(tcp, [e[0] + (e[2][:12] if e[0] == "cs" else "") for e in a["ev"]][:60])
        acc, old, idle = b"", [], False      # old: what the message may have started with before an empty read (serial)
        lastw = None
        for e in a["ev"]:
            k = e[0]
            if k == "w":
                if lastw is not None:
                    return [Viol("send-missing", f"{lastw.hex()} went out without a send callback")]
                if len(e[1]) // 2 == e[2]:
                    lastw = bytes.fromhex(e[1])
            elif k == "cs":
                st.inc("send_events")
                d = bytes.fromhex(e[2])
                if e[1] != (0 if tcp else 1):
                    return [Viol("source", f"send callback names source {e[1]}")]
                if lastw is None:
                    return [Viol("send-invented", f"send callback shows {d.hex()[:80]}, nothing was sent")]
                if d != lastw:
                    return [Viol("send-bytes", f"send callback shows {d.hex()[:100]}, sent was {lastw.hex()[:100]}")]
                lastw = None
            elif k == "r":
                if idle and acc:
                    if all(full_len(x) == len(x) for x in [acc] + [y + acc for y in old]):
                        return [Viol("receive-missing", f"message {acc.hex()[:80]} was taken without a receive callback")]
                    old = [] if tcp else [x + acc for x in old] + [acc]
                    acc = b""
                idle = False
                acc += bytes.fromhex(e[1])
            elif k in ("rt", "re", "rz") or (k == "ri" and not tcp):
                idle = True
            elif k == "cr":
                st.inc("receive_events")
                d = bytes.fromhex(e[2])
                if e[1] != (0 if tcp else 1):
                    return [Viol("source", f"receive callback names source {e[1]}")]
                if d != acc and d not in [x + acc for x in old]:
                    return [Viol("receive-bytes", f"receive callback shows {d.hex()[:100]}, taken from the line was {acc.hex()[:100]}")]
                acc, old, idle = b"", [], False
            elif k == "ret":
                if lastw is not None:
                    return [Viol("send-missing", f"{lastw.hex()} went out without a send callback")]
                if acc and not idle:
                    return [Viol("receive-missing", f"message {acc.hex()[:80]} was taken without a receive callback")]
                if acc and all(full_len(x) == len(x) for x in [acc] + [y + acc for y in old]):
                    return [Viol("receive-missing", f"message {acc.hex()[:80]} was taken without a receive callback")]
                acc, old, idle = b"", [], False
        return []

    def finish(self, st, tier):
        return [] if st.count.get("send_events", 0) > 1000 and st.count.get("receive_events", 0) > 1000 else ["too few callbacks observed"]


# ------------------------------------------------------------------------------------------ C08
class C08(_Ses):
    pid = "C08"
    quick_n = 1500
    thorough_n = 60000
    rule = ("a purge counts by (transport, purge option, kinds of waiting messages, end); judged: everything up to the first silence or error is gone, the result says whether a message was "
            "there, and the next reply is the one sent after the purge; all sequences of up to four messages x four ends are enumerated")

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for l in range(0, 5):
                for ks in itertools.product("msag", repeat=l):
                    for end in ("-", "e5", "t", "h") + (("z",) if tcp else ()):
                        if l == 4 and end not in ("-", "e5"):
                            continue
                        k += 1
                        if k % nsh == shard:
                            yield self.case(rng, tcp, rng.randrange(3), ks, end)
        for _ in range(n):
            tcp = rng.random() < .5
            yield self.case(rng, tcp, rng.randrange(3), [rng.choice("mssag") for _ in range(rng.choice([0, 1, 2, 3, 5, 10, 30, 60]))],
                            rng.choice(["-", "e5", "t", "h", "e104"] + (["z"] if tcp else [])))

    def case(self, rng, tcp, opt, ks, end):
        c1 = C01()
        ms = [c1.msg(rng, k) for k in ks]
        items = []
        for m in ms:
            items += chunks(rng, m, rng.choice([1, 1, 2, 3]))
        tail = b""
        if end == "t":            # silence, then more
            tail = telegram(rng, maxlen=20)
            items += ["p", "d" + tail.hex()]
        elif end == "h":
            m = telegram(rng, maxlen=20)
            items.append("d" + m[:rng.randrange(1, len(m))].hex())
        elif end != "-":
            items.append(end)
            if end != "z":
                tail = telegram(rng, maxlen=20)
                items.append("d" + tail.hex())
        fresh = telegram(rng)
        t = [f"ses {CTX[tcp]} conn opt 2 {opt}"] + rx(items)
        use_ping = rng.random() < .2 and not (end == "-" and opt == S2M)
        t += ["purge peek drop"]
        if end != "z":
            t += [f"opt 2 0 rep d{fresh.hex()} reqf 7 recv 4"]
        return Case(" ".join(t) + " disc free", {"tcp": tcp, "o": opt, "m": [m.hex() for m in ms], "e": end, "k": "".join(ks), "tail": len(tail), "f": fresh.hex()})

    def check(self, c, o, st):
        x = c.ctx
        st.sig(x["tcp"], x["o"], x["k"] if len(x["k"]) < 12 else len(x["k"]), x["e"])
        any_, i = 0, 0
        ks = x["k"]
        ms = [bytes.fromhex(m) for m in x["m"]]
        end_partial = x["e"] == "h"

        def one():
            nonlocal i
            if i < len(ks):
                i += 1
                return (INVALID, None) if ks[i - 1] == "g" else (OK, ms[i - 1])
            i += 1
            if i == len(ks) + 1 and end_partial and not x["tcp"]:
                return INVALID, None
            return TIMEOUT, None
        while True:
            r, m = one()
            if r == OK and direction(m) == x["o"]:
                r, m = one()
            if r not in (OK, INVALID):
                break
            any_ = 1
        q = next(q for q in ops(o) if q.op == "purge")
        left = next(q for q in ops(o) if q.op == "rxleft").rv
        st.inc("purges")
        st.inc("messages_drained", len(ks))
        what = f"purge (option {x['o']}) of messages {ks[:20]} ending with '{x['e']}'"
        if left != x["tail"]:
            return [Viol("left", f"{what}: {left} bytes left, expected {x['tail']}")]
        if q.rv != any_:
            return [Viol("result", f"{what}: result {q.rv}, expected {any_}")]
        if x["e"] == "z":
            return []
        r = next(q for q in ops(o) if q.op == "recv")
        f = bytes.fromhex(x["f"])
        if r.rv != OK or not same(r.chain[0], f):
            return [Viol("next-reply", f"{what}: the reply sent after the purge is not the next one received (result {r.rv})")]
        return []


# ------------------------------------------------------------------------------------------ C09
class C09(_Ses):
    pid = "C09"
    quick_n = 1500
    thorough_n = 40000
    rule = ("a read counts by (addressing, transport, selection answer, reply); judged: telegrams sent, success only with the frame received after the request, failure otherwise; all combinations "
            "of nine selection answers and ten replies are enumerated")
    REP = "DMSGHXZAUF"

    def gen(self, rng, n, shard, nsh, tier):
        k = 0
        for tcp in (False, True):
            for d in self.REP:
                for a in ["-"] + list(C04.SEL):
                    if not tcp and "Z" in (a, d):
                        continue
                    k += 1
                    if k % nsh == shard:
                        yield self.case(rng, tcp, a, d)
        for _ in range(n):
            tcp = rng.random() < .5
            z = "" if tcp else "Z"
            yield self.case(rng, tcp, rng.choice([x for x in "----AAAA" + C04.SEL if x != z]), rng.choice([x for x in "DDD" + self.REP if x != z]))

    def case(self, rng, tcp, a, d):
        t = [f"ses {CTX[tcp]} conn opt 2 {rng.choice([0, 1])}"]
        if rng.random() < .5:
            t.append(f"fparse 2 {h(telegram(rng))}")
        bad = False
        if a == "-":
            adr = rng.randrange(256)
            bad = rng.random() < .05
            if bad:
                adr = rng.choice([-1, 256, 300, 65536])
            op = f"rsp {adr} 2"
            want = [wire.short(0x5B, adr & 255)]
        else:
            s = rand_sec(rng)
            t.append("rep " + C04().sel_items(rng, a))
            op = f"rss {hx(s)} 2"
            want = [select_frame(s), wire.short(0x5B, 0xFD)]
        m = telegram(rng) if d in "DM" else rand_tel(rng) if d == "H" else b""
        if d == "A":
            m = wire.ack()
        elif d == "U":
            m = wire.short(0x5B, 4)
            t.append("opt 2 0")
        elif d == "F":
            m = wire.long_(8, 3, 0x73, record.rand_bytes(rng, 16))
        if d == "M":
            m = telegram(rng, more=True)
        it = {"S": "-", "G": "d" + bad_message(rng).hex(), "H": "d" + m[:rng.randrange(1, len(m))].hex() if len(m) > 1 else "-", "X": "e5", "Z": "z"}.get(d, "d" + m.hex())
        if bad:
            t.append("rx d" + m.hex() if m else "rx a")
        t.append("rep " + it)
        t.append(f"{op} disc free")
        return Case(" ".join(t), {"tcp": tcp, "a": a, "d": d, "w": [w.hex() for w in want], "m": m.hex(), "bad": bad})

    def check(self, c, o, st):
        x = c.ctx
        q = next(q for q in ops(o) if q.op in ("rsp", "rss"))
        st.sig(x["tcp"], x["a"], x["d"], x["bad"], q.rv)
        st.inc("read_%s%s" % (x["a"], x["d"]))
        tg = q.tgs()
        want = [bytes.fromhex(w) for w in x["w"]]
        what = f"read of a slave, selection {x['a']}, reply {x['d']}"
        if x["bad"]:
            return [Viol("invalid-address", f"read with an invalid address: result {q.rv}, sent {len(tg)}")] if q.rv == 0 or tg else []
        sel_ok = x["a"] in "-A"
        if not sel_ok:
            want = want[:1]
        if tg != want:
            return [Viol("telegrams", f"{what}: sent {[t.hex() for t in tg]}, expected {[t.hex() for t in want]}")]
        if sel_ok and x["d"] in "DMAUF":
            m = bytes.fromhex(x["m"])
            if q.rv != 0:
                return [Viol("refused", f"{what}: result {q.rv}")]
            if not same(q.chain[0], m):
                return [Viol("content", f"{what}: delivered {str(q.chain[0])[:150]}")]
        elif q.rv != -1:
            return [Viol("accepted", f"{what}: result {q.rv}, expected -1")]
        return []


# ------------------------------------------------------------------------------------------ M05
class M05(Check):
    pid = "M05"
    batch = 200
    quick_n = 1500
    thorough_n = 80000
    rule = ("a session counts by its sequence of (operation, result) and number of telegrams; judged: every operation ends with one of its documented results within the telegram bound, nothing "
            "blocks on a silent peer, no SIGPIPE, no sanitizer report")
    RES = {"req": {0, 1, -1}, "ping": {0, 1, -1}, "reqf": {0, -1, 1}, "sel": {-1, 0, 1, 2}, "probe": {-1, 0, 1, 2}, "scan": {0, -1}, "purge": {0, 1}, "recv": {0, -1, -2, -3, -4},
           "rsp": {0, -1}, "rss": {0, -1}, "sud": {0, 1, -1}, "setaddr": {0, 1, -1}, "conn": {0, -1}, "disc": {0, -1}, "opt": {0, -1}, "baud": {0, 1, -1}, "appreset": {0, 1, -1}}

    FOREVER = ("noise", "cut", "garbled", "garbled+noise", "cut+garbled", "ack+noise", "acks", "wrongsum+frame", "more", "more+noise", "short+noise", "silence+noise", "eintr")
    OPS = ("req 1 0 {m} ffree 0", "ping 5 1", "ping 5 0", "reqf 7", "sel {s}", "probe {s}", "purge", "recv 4 ffree 4", "rsp 3 2 ffree 2", "rss {s} 2 ffree 2", "setaddr 1 2",
           "sud 1 01 0", "appreset 1 -1", "baud 1 2400", "scan 7 {k}", "scan 8 {k}", "scan 14 {k}", "scan 15 {k}")

    def gen(self, rng, n, shard, nsh, tier):
        j = 0
        for tcp in (False, True):
            for kind in self.FOREVER:
                for op in self.OPS:
                    for retry in (0, 3) if tier == "quick" else (0, 1, 3, 9):
                        for purge in (0, 1):
                            j += 1
                            if j % nsh == shard:
                                yield self.forever(rng, tcp, kind, op, retry, purge)
        for _ in range(n):
            k = rng.random()
            if k < .6:
                yield Case(session_case(rng), {})
            else:
                yield Case(self.storm(rng), {})

    def forever(self, rng, tcp, kind, op, retry, purge):
        """The peer answers every telegram of one operation in the same way, without end: only the retry options may decide how often it is asked."""
        noise = "d" + bytes(rng.choice([0x00, 0x16, 0x55, 0xFF, 0x73]) for _ in range(rng.randrange(1, 20))).hex()
        bad = "d" + bad_message(rng).hex()
        tel = telegram(rng, more=kind.startswith("more"))
        cut = "d" + tel[:rng.randrange(1, len(tel) - 1)].hex()
        wrong = "d" + (tel[:-2] + bytes([tel[-2] ^ 0x21]) + tel[-1:]).hex()
        it = {"noise": noise, "cut": cut, "garbled": bad, "garbled+noise": bad + "," + noise, "cut+garbled": cut + ",a," + bad, "ack+noise": "de5," + noise, "acks": "d" + "e5" * rng.randrange(2, 300),
              "wrongsum+frame": wrong + ",d" + tel.hex(), "more": "d" + tel.hex(), "more+noise": "d" + tel.hex() + "," + noise, "short+noise": "d10", "silence+noise": "a," + noise,
              "eintr": ("i,i," if tcp else "") + noise}[kind]
        m = rng.choice([1, 2, 5])
        s = hx(rand_sec(rng))
        t = [f"ses {CTX[tcp]} cb {rng.choice([0, 7])} conn opt 0 {retry} opt 1 {retry} opt 2 {purge}", f"repall {it}"]
        if op.startswith(("purge", "recv")):
            t.append("rx " + it)
        k = bytearray("%016d" % rng.randrange(10 ** 16), "ascii")
        for _ in range(rng.randrange(3)):
            k[rng.randrange(7, 16)] = 70
        t.append(op.format(m=m, s=s, k=hx(k.decode())))
        return Case(" ".join(t) + " disc free", {"f": kind, "m": m, "r": retry})

    def storm(self, rng):
        """Every operation against a peer that answers everything with noise, for a long time."""
        tcp = rng.random() < .5
        t = [f"ses {CTX[tcp]} cb {rng.choice([0, 7])} conn"]
        for o, v in ((0, rng.randrange(10)), (1, rng.randrange(10)), (2, rng.randrange(3))):
            t.append(f"opt {o} {v}")
        style = rng.randrange(6)
        for _ in range(rng.randrange(5, 60)):
            if style == 0:
                it = "d" + record.rand_bytes(rng, rng.randrange(1, 200)).hex()
            elif style == 1:
                it = "d" + telegram(rng, more=True).hex()
            elif style == 2:
                it = rng.choice(["de5", "de5e5", "-", "d" + telegram(rng).hex(), "d" + bad_message(rng).hex()])
            elif style == 3:
                m = rand_any(rng)
                it = ",".join(x for c_ in chunks(rng, m[:80]) for x in ([c_, "i"] if rng.random() < .2 else [c_])) if m else "-"
            elif style == 4:
                it = rng.choice(["z" if tcp else "a", "e5", "e104", "e11", "e4", "i,i,i", "a,a", "-"])
            else:
                m = bytearray(telegram(rng))
                m[rng.randrange(len(m))] = rng.getrandbits(8)
                it = "d" + bytes(m).hex()
            t.append("rep " + it)
        s = hx(rand_sec(rng))
        for op in rng.sample(["req 1 0 16 ffree 0", "req 1 1 0 ffree 1", "ping 5 1", f"sel {s}", f"probe {s}", "purge", "recv 4", "rsp 3 2 ffree 2", f"rss {s} 2 ffree 2",
                              "setaddr 1 2", "sud 1 01 0", "appreset 1 -1", "baud 1 2400", "scan 0 " + hx("".join(rng.choice("0123456789") if rng.random() < .8 else "F" for _ in range(8)) + "FFFFFFFF")],
                             rng.randrange(1, 5)):
            t.append(op)
        return " ".join(t) + " disc free"

    def judge(self, c, o, st):
        s = stuck(o)
        if s:
            return [Viol("stuck", s + ": " + c.cmd[:300])]
        qs = ops(o)
        st.sig([(q.op, q.rv) for q in qs], len(c.cmd) // 50)
        nrep = c.cmd.count(" rep ")
        for q in qs:
            if q.op in self.RES:
                st.inc("op_" + q.op)
                if q.rv is None:
                    return [Viol("no-result", f"{q.op} gave no result: {c.cmd[:200]}")]
                if q.rv not in self.RES[q.op]:
                    return [Viol("undocumented-" + q.op, f"{q.op} returned {q.rv}: {c.cmd[:200]}")]
                st.inc("telegrams", len(q.tgs()))
                # each telegram of the peer may cause at most one retry series (10 attempts) of a request
                lim = {"req": 10 * (nrep + 2), "sel": 1, "probe": 20, "rsp": 1, "rss": 2, "ping": 1, "purge": 0, "recv": 0, "sud": 1, "setaddr": 1, "reqf": 1, "baud": 1, "appreset": 1}.get(q.op)
                nw = len(q.get("w")) + len(q.get("we"))
                if "f" in c.ctx:
                    r, m, sure = c.ctx["r"], c.ctx["m"], c.ctx["f"] in ("noise", "eintr")
                    lim = {"req": (r + 1) * (1 if sure else 2 * m + 2), "probe": 2 * r + 2, "scan": 250 * (2 * r + 2)}.get(q.op, lim)
                    st.inc("answered_the_same_forever")
                if lim is not None and nw > lim:
                    return [Viol("unbounded-" + q.op, f"{q.op} sent {nw} telegrams (bound {lim}): {c.cmd[:200]}")]
        return []
