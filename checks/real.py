"""S07: the master over the kernel's own sockets and terminals, in real time, against simulated meters."""
import json, os, pty, random, select, socket, subprocess, termios, threading, time, tty
from concurrent.futures import ThreadPoolExecutor
from model import wire, record
from vlib import build
from vlib.core import Check, Stats

SPEEDS = {300: termios.B300, 600: termios.B600, 1200: termios.B1200, 2400: termios.B2400, 4800: termios.B4800, 9600: termios.B9600, 19200: termios.B19200, 38400: termios.B38400}
ATTEMPTS = 4


class Peer(threading.Thread):
    """One end of the line with the plan's slaves behind it."""

    def __init__(self, plan):
        super().__init__(daemon=True)
        self.plan, self.rng = plan, random.Random(plan["seed"])
        self.tcp, self.stop, self.log, self.conns, self.speed, self.n = plan["tcp"], False, [], 0, None, 0
        self.slaves = [{"addr": s["addr"], "id": bytes.fromhex(s["id"]), "tel": [bytes.fromhex(t) for t in s["tel"]], "cur": -1, "fcb": None, "sel": False} for s in plan["slaves"]]
        self.fd = self.cfd = self.sfd = None
        self.buf = b""
        if self.tcp:
            self.srv = socket.socket()
            self.srv.bind(("127.0.0.1", 0))
            self.args = ["tcp", "127.0.0.1", str(self.srv.getsockname()[1]), str(plan["timeout"])]
            if not plan.get("refuse"):
                self.srv.listen(4)
        else:
            self.fd, self.sfd = pty.openpty()
            tty.setraw(self.sfd)
            self.args = ["ser", os.ttyname(self.sfd)]

    def run(self):
        try:
            while not self.stop:
                r = [x for x in ((self.srv if self.tcp and not self.plan.get("refuse") else None), self.fd if not self.tcp else self.cfd) if x is not None]
                if not r:
                    time.sleep(0.01)
                    continue
                for x in select.select(r, [], [], 0.02)[0]:
                    if self.tcp and x is self.srv:
                        s, _ = self.srv.accept()
                        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                        if self.cfd:
                            self.cfd.close()
                        self.cfd, self.buf = s, b""
                        self.conns += 1
                        continue
                    d = self.cfd.recv(4096) if self.tcp else os.read(self.fd, 4096)
                    if not d:
                        self.cfd.close()
                        self.cfd = None
                        continue
                    self.buf += d
                    self.telegrams()
        except OSError as e:
            self.log.append((time.monotonic(), b"", "oserror %s" % e))
        finally:
            for f in (self.cfd, getattr(self, "srv", None)):
                if f:
                    f.close()
            for f in (self.fd, self.sfd):
                if f is not None:
                    os.close(f)

    def telegrams(self):
        while self.buf:
            n = {0x10: 5, 0xE5: 1, 0x68: (self.buf[1] + 6) if len(self.buf) > 1 else 99}.get(self.buf[0], len(self.buf))
            if len(self.buf) < n:
                return
            t, self.buf = self.buf[:n], self.buf[n:]
            if not self.tcp:
                a = termios.tcgetattr(self.sfd)
                self.speed = (a[4], a[5])
            self.log.append((time.monotonic(), t, self.speed))
            self.answer(t)

    def put(self, b, chunks=True):
        cuts = sorted(self.rng.randrange(1, len(b)) for _ in range(self.rng.randrange(3))) if chunks and len(b) > 1 else []
        for a, z in zip([0] + cuts, cuts + [len(b)]):
            if a == z:
                continue
            if a:
                time.sleep(self.plan["gap"] * self.rng.random())
            (self.cfd.sendall if self.tcp else lambda x: os.write(self.fd, x))(b[a:z])

    def answer(self, t):
        self.n += 1
        f = self.plan.get("fault", {}).get(str(self.n))
        if self.plan.get("echo"):
            self.put(t, False)
        if f == "silent":
            return
        if f == "garble":
            return self.put(bytes.fromhex("680303687801027a16"))
        if f == "close":
            self.cfd.shutdown(socket.SHUT_RDWR)
            self.cfd.close()
            self.cfd = None
            return
        if f == "half":
            self.put(bytes.fromhex("681f1f6808"))
            self.cfd.shutdown(socket.SHUT_RDWR)
            self.cfd.close()
            self.cfd = None
            return
        c, a = (t[1], t[2]) if t[0] == 0x10 else (t[4], t[5])
        out = []
        for s in self.slaves:
            mine = a in (s["addr"], 254) or (a == 253 and s["sel"])
            if t[0] == 0x68 and t[6] == 0x52 and a == 253:
                m = t[7:15]
                ok = all((m[i // 2] >> (4 * (i % 2)) & 15) in (15, s["id"][i // 2] >> (4 * (i % 2)) & 15) for i in range(8)) and all(x in (255, y) for x, y in zip(m[4:], s["id"][4:]))
                s["sel"] = ok
                if ok:
                    s["cur"], s["fcb"] = -1, None
                    out.append(b"\xe5")
            elif not mine:
                continue
            elif c == 0x40:
                s["cur"], s["fcb"] = -1, None
                out.append(b"\xe5")
            elif c in (0x5B, 0x7B):
                if s["fcb"] != c & 0x20 or s["cur"] < 0:
                    s["cur"], s["fcb"] = (s["cur"] + 1) % len(s["tel"]), c & 0x20
                out.append(s["tel"][s["cur"]])
            elif t[0] == 0x68:
                if t[6] == 0x51 and t[7:9] == b"\x01\x7a":
                    s["addr"] = t[9]
                out.append(b"\xe5")
        if len(out) > 1 and set(out) == {b"\xe5"}:
            out = [b"\xe5\xe5"]
        elif len(out) > 1:
            out = [bytes.fromhex("000055")]
        for o in out:
            self.put(o)


def execute(exe, plan):
    p = Peer(plan)
    p.start()
    try:
        r = subprocess.run([exe] + p.args + plan["ops"], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=90,
                           env={**os.environ, "ASAN_OPTIONS": "detect_leaks=1:abort_on_error=0:exitcode=77", "UBSAN_OPTIONS": "halt_on_error=1:exitcode=78"})
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired as e:
        rc, out, err = "timeout", e.stdout or b"", e.stderr or b""
    finally:
        time.sleep(0.03)
        p.stop = True
        p.join(5)
    q = []
    for l in out.decode("latin-1").splitlines():
        try:
            q.append(json.loads(l))
        except ValueError:
            pass
    return {"rc": rc, "q": q, "err": err.decode("latin-1", "replace")[-1500:], "log": [(t.hex(), s) for _, t, s in p.log], "conns": p.conns}


def want_frames(tels):
    return [[4, t[4], t[5], t[6], t[7:-2].hex()] for t in tels]


def judge(plan, o, st):
    """First thing that is wrong as (key, text), or None."""
    q = o["q"]
    k = plan["kind"]
    if o["rc"] == "timeout":
        return "hang", "no end within 90 s"
    if o["rc"] != 0:
        return ("sigpipe" if o["rc"] == -13 else "crash"), f"ended with {o['rc']}: {o['err'][-400:]}"
    if not q or q[-1].get("op") != "end":
        return "no-end", f"output {q[-2:]}"
    if q[-1]["fds"] != 0:
        return "descriptors", f"{q[-1]['fds']} descriptors more than at the start"
    tx = [bytes.fromhex(t) for t, _ in o["log"] if t]
    st.inc("operations", len(q) - 1)
    st.inc("telegrams", len(tx))
    tm = (plan["timeout"] if plan["tcp"] else 0.3) * 1000
    for x, e in zip(q, plan["want"]):
        if e is None:
            continue
        if x["op"] != e["op"]:
            return "order", f"{x['op']} instead of {e['op']}"
        if "rv" in e and x["rv"] not in e["rv"]:
            return "result-" + x["op"], f"{x['op']} returned {x['rv']}, expected {e['rv']}"
        if "fr" in e and x["rv"] == 0 and x.get("fr") != e["fr"]:
            return "content-" + x["op"], f"{x['op']} delivered {str(x.get('fr'))[:200]}, sent was {str(e['fr'])[:200]}"
        if "found" in e and sorted(x["found"]) != sorted(e["found"]):
            return "found", f"{x['op']} found {x['found']}, on the bus are {e['found']}"
        if "match" in e and x.get("match") != e["match"]:
            return "match", f"{x['op']} gave {x.get('match')}, selected was {e['match']}"
        if "waits" in e:
            st.inc("silences_timed")
            lo, hi = 0.6 * tm * e["waits"], 2000 + 2 * tm * e["waits"]
            if not lo <= x["ms"] <= hi:
                return "time-" + x["op"], f"{x['op']} took {x['ms']:.0f} ms on a silent line, {e['waits']} time-outs of {tm:.0f} ms are due"
        if "quick" in e and x["ms"] > e["quick"]:
            return "slow-" + x["op"], f"{x['op']} took {x['ms']:.0f} ms"
    if "tx" in plan and [t.hex() for t in tx] != plan["tx"]:
        return "telegrams", f"telegrams {[t.hex() for t in tx]}, expected {plan['tx']}"
    if "speeds" in plan:
        got = [s for t, s in o["log"] if t]
        w = [[SPEEDS[x]] * 2 for x in plan["speeds"]]
        if [list(g or ()) for g in got] != w:
            return "speed", f"line speeds {got}, expected {w}"
    if "conns" in plan and o["conns"] != plan["conns"]:
        return "connections", f"{o['conns']} connections, expected {plan['conns']}"
    return None


def tel(rng, more, idb):
    recs = b"".join(bytes([rng.choice([1, 2, 3, 4]), 0x13]) for _ in range(0))
    for _ in range(rng.randrange(1, 8)):
        n = rng.choice([1, 2, 3, 4])
        recs += bytes([n, 0x13]) + record.rand_bytes(rng, n)
    if rng.random() < .3:
        recs += b"\x0d\x13\xb0" + record.rand_bytes(rng, 0xB0)
    return idb + record.rand_bytes(rng, 4) + recs + (b"\x1f" if more else b"")


def make(rng, kind, tcp):
    """A plan: slaves, faults, operations and what is expected of them."""
    p = {"kind": kind, "tcp": tcp, "seed": rng.randrange(1 << 30), "timeout": 0.4, "gap": 0.08, "slaves": [], "fault": {}}
    base = "%06d" % rng.randrange(10 ** 6)
    ids = rng.sample(range(100), 3)
    for i in range(3):
        d = base + "%02d" % ids[i]
        idb = bytes(int(d[j:j + 2], 16) for j in (6, 4, 2, 0)) + bytes([0x2D, 0x2C, rng.randrange(1, 9), rng.choice([2, 4, 7])])
        n = rng.choice([1, 1, 2, 4])
        a = 10 * i + rng.randrange(1, 9)
        p["slaves"].append({"addr": a, "id": idb.hex(), "tel": [wire.long_(8, a, 0x72, tel(rng, j < n - 1, idb)).hex() for j in range(n)]})
    s = rng.choice(p["slaves"])
    tels = [bytes.fromhex(t) for t in s["tel"]]
    addr = s["addr"]
    name = bytes.fromhex(s["id"])[3::-1].hex().upper() + s["id"][8:].upper()
    req = lambda i: wire.short(0x7B if i % 2 == 0 else 0x5B, addr).hex()
    all_rq = [req(i) for i in range(len(tels))]
    ops, want = ["conn"], [{"op": "conn", "rv": [0]}]

    def add(o, w):
        ops.extend(o.split())
        want.append(w)
    if kind == "read":
        n = rng.randrange(1, 3)
        tx = []
        for _ in range(n):
            m = rng.choice([0, 0, 1, 2])
            k = len(tels) if m == 0 else min(m, len(tels))
            add(f"ping {addr} 0", {"op": "ping", "rv": [0]})
            add("recv", {"op": "recv", "rv": [0], "fr": [[1, 0, 0, 0, ""]]})
            add(f"req {addr} {m}", {"op": "req", "rv": [0], "fr": want_frames(tels[:k])})
            tx += [wire.short(0x40, addr).hex()] + all_rq[:k]
        p["tx"] = tx
    elif kind == "silent":
        r = rng.randrange(0, 3)
        add(f"opt 0 {r}", {"op": "opt", "rv": [0]})
        add("req 77 0", {"op": "req", "rv": [1], "waits": r + 1})
        add("recv", {"op": "recv", "rv": [-3], "waits": 1})
        add(f"req {addr} 1", {"op": "req", "rv": [0], "fr": want_frames(tels[:1])})
        p["tx"] = [wire.short(0x7B, 77).hex()] * (r + 1) + all_rq[:1]
    elif kind == "retry":
        f = [rng.choice(["silent", "garble"]) for _ in range(rng.randrange(1, 4))]
        p["fault"] = {str(i + 1): x for i, x in enumerate(f)}
        add(f"req {addr} 0", {"op": "req", "rv": [0], "fr": want_frames(tels)})
        p["tx"] = [req(0)] * len(f) + all_rq
    elif kind == "echo":
        p["echo"] = True
        add(f"req {addr} 0", {"op": "req", "rv": [0], "fr": want_frames(tels)})
        add(f"req {addr} 1", {"op": "req", "rv": [0]})
    elif kind == "secondary":
        add(f"probe {name}", {"op": "probe", "rv": [1], "match": name, "found": [name]})
        add(f"sel {name}", {"op": "sel", "rv": [1]})
        add("req 253 0", {"op": "req", "rv": [0], "fr": want_frames(tels)})
        add("sel " + "99999999" + name[8:], {"op": "sel", "rv": [0]}) if base != "999999" else None
    elif kind == "scan":
        if tcp:
            p["timeout"] = 0.15
            p["gap"] = 0.02
        j = rng.choice(ids)
        mask = base + ("F%d" if tcp else "%d" % (j // 10) + "%d") % (j % 10) + "FFFFFFFF" if rng.random() < .5 else base + "%d" % (j // 10) + "FFFFFFFFF"
        from checks.session import sec_match
        exp = [bytes.fromhex(x["id"])[3::-1].hex().upper() + x["id"][8:].upper() for x in p["slaves"] if sec_match(mask, bytes.fromhex(x["id"]))]
        add("opt 1 0", {"op": "opt", "rv": [0]})
        add(f"scan {mask}", {"op": "scan", "rv": [0], "found": exp})
    elif kind == "address":
        new = 200 + rng.randrange(40)
        add(f"setaddr {addr} {new}", {"op": "setaddr", "rv": [0]})
        add("recv", {"op": "recv", "rv": [0], "fr": [[1, 0, 0, 0, ""]]})
        add(f"req {new} 0", {"op": "req", "rv": [0], "fr": want_frames(tels)})
    elif kind == "speed":
        p["speeds"] = [2400]
        add(f"ping {addr} 1", {"op": "ping", "rv": [0]})
        for r in rng.sample(sorted(SPEEDS), 2):
            add(f"sbaud {r}", {"op": "sbaud", "rv": [0]})
            add(f"ping {addr} 0", {"op": "ping", "rv": [0]})
            add("recv", {"op": "recv", "rv": [0], "fr": [[1, 0, 0, 0, ""]]})
            p["speeds"].append(r)
        add("sbaud 1201", {"op": "sbaud", "rv": [-1]})
        add("disc", {"op": "disc", "rv": [0]})
        add("conn", {"op": "conn", "rv": [0]})
        add(f"ping {addr} 0", {"op": "ping", "rv": [0]})
        add("recv", {"op": "recv", "rv": [0]})
        p["speeds"].append(2400)
    elif kind == "reconnect":
        for _ in range(rng.randrange(1, 4)):
            add(f"req {addr} 1", {"op": "req", "rv": [0], "fr": want_frames(tels[:1])})
            add("disc", {"op": "disc", "rv": [0]})
            if rng.random() < .5:
                add(f"ping {addr} 0", {"op": "ping", "rv": [-1]})
                add("recv", {"op": "recv", "rv": [-1], "quick": 1000})
            add("conn", {"op": "conn", "rv": [0]})
            add(f"ping {addr} 0", {"op": "ping", "rv": [0]})
            add("recv", {"op": "recv", "rv": [0], "fr": [[1, 0, 0, 0, ""]]})
    elif kind == "closed":
        p["fault"] = {"1": rng.choice(["close", "half"])}
        add(f"req {addr} 0", {"op": "req", "rv": [1], "quick": 3000})
        for _ in range(3):
            add("sleep 40", None)
            add(f"ping {addr} 0", None)
        want[-1] = {"op": "ping", "rv": [-1]}
        add("disc", {"op": "disc", "rv": [0]})
        add("conn", {"op": "conn", "rv": [0]})
        add(f"req {addr} 0", {"op": "req", "rv": [0], "fr": want_frames(tels)})
        p["conns"] = 2
    elif kind == "refused":
        p["refuse"] = True
        want[0] = {"op": "conn", "rv": [-1], "quick": 5000}
        add(f"ping {addr} 0", {"op": "ping", "rv": [-1]})
        add("conn", {"op": "conn", "rv": [-1]})
    if kind != "refused":
        add("disc", {"op": "disc", "rv": [0]})
    p["ops"], p["want"] = ops, want
    return p


KINDS = [("read", True), ("read", False), ("silent", True), ("silent", False), ("retry", True), ("retry", False), ("echo", True), ("echo", False), ("secondary", True), ("secondary", False),
         ("scan", True), ("scan", False), ("address", True), ("address", False), ("speed", False), ("reconnect", True), ("reconnect", False), ("closed", True), ("refused", True)]


class S07(Check):
    pid = "S07"
    rule = ("a session counts by (kind, transport, operations); judged: results, delivered telegrams, found devices, telegrams and line speed at the peer, duration on a "
            "silent line, descriptors, and that no signal ends the process; a deviation counts when it shows in four runs of the same plan")

    def run(self, tier, seed):
        exe = os.path.join(build.ensure("real"), "worker")
        n = 14 if tier == "quick" else 200
        rng = random.Random(f"S07/{seed}")
        plans = [make(rng, k, t) for _ in range(n) for k, t in KINDS]
        st = Stats()
        lock = threading.Lock()

        def job(p):
            bad = None
            for i in range(ATTEMPTS):
                with lock:
                    if len(st.viols) > 20:
                        return
                o = execute(exe, p)
                s2 = Stats()
                bad = judge(p, o, s2)
                if not bad:
                    break
                time.sleep(0.2 * i)
            with lock:
                st.eval += 1
                st.sig(p["kind"], p["tcp"], p["ops"])
                st.inc(p["kind"] + ("_tcp" if p["tcp"] else "_terminal"))
                for k, v in s2.count.items():
                    st.inc(k, v)
                if bad:
                    st.viols.append((f"{bad[0]}-{'tcp' if p['tcp'] else 'serial'}", f"{p['kind']} over a real {'socket' if p['tcp'] else 'terminal'}: {bad[1]}", json.dumps(p), {}))
                elif i:
                    st.inc("needed_another_run")
                if len(st.samples) < 4:
                    st.samples.append({"case": f"{p['kind']} {'tcp' if p['tcp'] else 'terminal'}: {' '.join(p['ops'])}", "observed": str(o["q"])[:300]})
        with ThreadPoolExecutor(32) as ex:
            list(ex.map(job, plans))
        probs = [] if st.viols else [f"no {k}" for k in {k + ("_tcp" if t else "_terminal") for k, t in KINDS} if not st.count.get(k)]
        return ({"evaluations": st.eval, "distinct_nontrivial": len(st.sigs), "rule": self.rule, "samples": st.samples, "counts": st.count}, st.viols, probs)

    def do_replay(self, path):
        rec = json.load(open(path))
        p = json.loads(rec["cmd"])
        exe = os.path.join(build.ensure("real"), "worker")
        for _ in range(ATTEMPTS):
            o = execute(exe, p)
            bad = judge(p, o, Stats())
            print(" ".join(p["ops"]), json.dumps(o)[:3000])
            if not bad:
                print("not reproduced")
                return 0
        print("REPRODUCED", bad)
        return 1
