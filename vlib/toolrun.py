"""Runs one real command line tool against a bus model.

The tool is linked with harness/toolshim.c: every operation on its serial line or socket is a request on a
control socket, answered here by Bus.  Time is virtual, nothing leaves the process pair, every operation is logged."""
import errno, os, signal, socket, struct, subprocess, tempfile
from collections import deque
from model import wire
from .core import SAN_ENV, _limits

SPEEDS = {7: 300, 8: 600, 9: 1200, 11: 2400, 12: 4800, 13: 9600, 14: 19200, 15: 38400, 4097: 57600, 4098: 115200, 0: 0}
MAXOPS = 400000


def announced(m):
    """Length of the message starting with m, None while unknown, 0 if it cannot be one."""
    if not m:
        return None
    if m[0] == 0xE5:
        return 1
    if m[0] == 0x10:
        return 5
    if m[0] == 0x68:
        if len(m) < 3:
            return None
        return m[1] + 6 if m[1] == m[2] and m[1] >= 3 else 0
    return 0


class Slave:
    def __init__(self, d):
        self.addr = d["addr"]
        self.idb = bytes.fromhex(d["id"])
        self.tels = [bytes.fromhex(t) for t in d["tels"]]
        self.deaf = d.get("deaf", 0)          # leading telegrams to it that it does not hear
        self.mute = set(d.get("mute", []))    # kinds of telegrams it never answers
        self.sel = False
        self.last = None
        self.pos = 0
        self.speed = None

    def match(self, m):
        def nib(a, b):
            return a == 0xF or a == b
        for a, b in zip(m[:4], self.idb[:4]):
            if not (nib(a >> 4, b >> 4) and nib(a & 15, b & 15)):
                return False
        if m[4:6] != b"\xff\xff":
            for a, b in zip(m[4:6], self.idb[4:6]):
                if a != 0xFF and a != b:
                    return False
        return all(a in (0xFF, b) for a, b in zip(m[6:8], self.idb[6:8]))

    def hear(self, t):
        """Answer to the telegram t, or None."""
        kind = None
        ans = b"\xe5"
        if len(t) == 5:
            c, a = t[1], t[2]
            if not (a == self.addr or (a == 0xFD and self.sel) or a in (0xFE, 0xFF)):
                return None
            if self.deaf > 0:
                self.deaf -= 1
                return None
            if c == 0x40:
                kind = "nke"
                self.last, self.pos = None, 0
                if a == 0xFD:
                    self.sel = False
            elif c in (0x5B, 0x7B):
                kind = "req"
                fcb = c & 0x20
                if self.last is not None and fcb != self.last:
                    self.pos += 1
                self.last = fcb
                if self.pos >= len(self.tels):
                    return None
                ans = self.tels[self.pos]
            else:
                return None
        elif len(t) >= 9:
            c, a, ci, data = t[4], t[5], t[6], t[7:-2]
            if c not in (0x53, 0x73):
                return None
            if ci == 0x52 and a == 0xFD:
                kind = "sel"
                if not self.match(data):
                    self.sel = False
                    return None
                if self.deaf > 0:
                    self.deaf -= 1
                    return None
                self.sel, self.last, self.pos = True, None, 0
            else:
                if not (a == self.addr or (a == 0xFD and self.sel) or a in (0xFE, 0xFF)):
                    return None
                if self.deaf > 0:
                    self.deaf -= 1
                    return None
                kind = "ud"
                if ci == 0x51 and data[:2] == b"\x01\x7a" and len(data) == 3:
                    self.addr = data[2]
                elif 0xB8 <= ci <= 0xBF:
                    self.speed = ci
            if a == 0xFF:
                return None
        else:
            return None
        return None if kind in self.mute else ans


class Bus:
    def __init__(self, spec):
        self.spec = spec
        self.tcp = spec["tcp"]
        self.slaves = [Slave(d) for d in spec.get("slaves", [])]
        self.fault = spec.get("fault", {})
        self.log = []
        self.tels = []            # telegrams of the master
        self.ans = []             # per telegram: list of items put on the line as its answer
        self.rx = deque()
        for b in bytes.fromhex(spec.get("stale", "")):
            self.rx.append(b)
        self.wbuf = b""
        self.nw = 0
        self.speed = None
        self.vtime = 0
        self.rcvto = None
        self.host = None
        self.opened = self.closed = 0
        self.hang = False

    # -------------------------------------------------- the line
    def combine(self, answers, tel):
        if not answers:
            return b""
        if len(answers) == 1:
            return answers[0]
        mode = self.spec.get("coll", 0)
        if mode == 1:
            return b"".join(answers)
        if mode == 2:
            n = max(map(len, answers))
            out = bytearray(b"\xff" * n)
            for a in answers:
                for i, b in enumerate(a):
                    out[i] &= b
            if len(set(answers)) > 1:
                k = announced(bytes(out))
                if k and wire.verdict(bytes(out[:k]))[0] == "ok":
                    out[k - 2] ^= 0x55
            return bytes(out)
        return bytes([0x00, 0x21, 0x94, 0xff, 0x01][:1 + len(answers) % 4])

    def telegram(self, t):
        i = len(self.tels)
        self.tels.append(t)
        self.log.append(("tel", i, t))
        answers = [a for a in (s.hear(t) for s in self.slaves) if a is not None]
        line = self.combine(answers, t)
        pr = self.spec.get("pings")
        if pr is not None and len(t) == 5 and t[1] == 0x40:
            p = pr.get(str(t[2]))
            if p is not None:
                if p[0] > 0:
                    p[0] -= 1
                else:
                    line = bytes.fromhex(p[1])
        items = list(line)
        f = self.fault.get(str(i))
        if f is not None:
            items = self.faulty(f, items)
        self.ans.append(items)
        self.rx.extend(items)

    def faulty(self, f, items):
        if f == "drop":
            return []
        if f == "garble":
            if not items:
                return [0x33]
            g = items[:]
            g[-1 if len(g) == 1 else -2] ^= 0x5A
            return g
        if f == "eof":
            return ["eof"]
        if f == "err":
            return ["err"]
        if f == "ack":
            return [0xE5]
        if f.startswith("hex:"):
            return list(bytes.fromhex(f[4:]))
        raise ValueError(f)

    # -------------------------------------------------- operations of the tool
    def op(self, op, a, p):
        """returns (ret, errno, microseconds, data)"""
        if op == "O":
            self.log.append(("open", p.decode("latin-1")))
            if self.spec.get("noconn"):
                return -1, errno.ENOENT, 0, b""
            self.opened += 1
            self.host = p.decode("latin-1")
        elif op == "G":
            self.host = p.decode("latin-1")
            self.log.append(("gai", self.host))
            if self.spec.get("noconn") == "gai":
                return -1, 0, 0, b""
        elif op == "K":
            self.opened += 1
        elif op == "C":
            self.log.append(("connect", a))
            if self.spec.get("noconn"):
                return -1, errno.ECONNREFUSED, 0, b""
        elif op == "X":
            self.closed += 1
            self.log.append(("close",))
        elif op == "A":
            v = struct.unpack("6i", p)
            self.speed = SPEEDS.get(v[0], -1)
            self.vtime = v[2]
            self.log.append(("speed", self.speed))
            if self.spec.get("notty"):
                return -1, errno.EIO, 0, b""
        elif op == "T":
            v = struct.unpack("3i", p)
            if v[0] == 1:
                self.rcvto = v[1] * 1000000 + v[2]
        elif op == "W":
            k = self.nw
            self.nw += 1
            f = self.spec.get("wfault", {}).get(str(k))
            self.log.append(("write", p, f, self.speed))
            if f == "fail":
                return -1, errno.EIO, 0, b""
            if f == "short":
                return max(0, len(p) - 1), 0, 0, b""
            self.wbuf += p
            while self.wbuf:
                n = announced(self.wbuf)
                if n == 0:
                    self.telegram(self.wbuf)
                    self.wbuf = b""
                elif n is None or n > len(self.wbuf):
                    break
                else:
                    t, self.wbuf = self.wbuf[:n], self.wbuf[n:]
                    self.telegram(t)
            return len(p), 0, len(p) * 1000, b""
        elif op == "R":
            n, peek, nb = a & 0xFFFF, a >> 29 & 1, a >> 30 & 1
            if not self.rx:
                if self.tcp:
                    if nb:
                        return -1, errno.EAGAIN, 0, b""
                    if not self.rcvto:
                        self.hang = True
                    return -1, errno.EAGAIN, self.rcvto or 1000000, b""
                if nb:
                    return -1, errno.EAGAIN, 0, b""
                return 0, 0, self.vtime * 100000, b""
            if self.rx[0] == "eof":
                return (0, 0, 0, b"") if self.tcp else (-1, errno.EIO, 0, b"")
            if self.rx[0] == "err":
                return -1, errno.ECONNRESET if self.tcp else errno.EIO, 0, b""
            out = []
            while self.rx and len(out) < n and not isinstance(self.rx[0], str):
                out.append(self.rx.popleft())
            if peek:
                self.rx.extendleft(reversed(out))
            return len(out), 0, len(out) * 1000, bytes(out)
        elif op == "P":
            if self.rx:
                return 1, 0, 0, b""
            return 0, 0, max(a, 0) * 1000 or 1000, b""
        elif op == "N":
            return sum(1 for x in self.rx if not isinstance(x, str)), 0, 0, b""
        elif op == "F":
            if a in (0, 2):
                self.rx = deque(x for x in self.rx if isinstance(x, str))
        return 0, 0, 0, b""


class Result:
    pass


def run_tool(bindir, spec, tmp):
    """spec: tool, args, tcp, slaves, ... -> Result(rc, out, err, san, bus, runaway)"""
    bus = Bus(spec)
    a, b = socket.socketpair()
    env = {"PATH": "/usr/bin:/bin", "TZ": "XST-5:45", "LC_ALL": "C", "TOOLSHIM_FD": str(b.fileno())}
    san = os.path.join(tmp, "san")
    for k, v in SAN_ENV.items():
        env[k] = v + f":log_path={san}"
    args = [x.replace("@TMP@", tmp) for x in spec["args"]]
    if "file" in spec:
        with open(os.path.join(tmp, "in.hex"), "wb") as f:
            f.write(bytes.fromhex(spec["file"]))
    fin = None
    if "stdin" in spec:
        with open(os.path.join(tmp, "stdin"), "wb") as f:
            f.write(bytes.fromhex(spec["stdin"]))
        fin = open(os.path.join(tmp, "stdin"), "rb")
    fo, fe = (open(os.path.join(tmp, n), "w+b") for n in ("out", "err"))
    r = Result()
    r.runaway = None
    p = subprocess.Popen([os.path.join(bindir, spec["tool"])] + args, stdin=fin or subprocess.DEVNULL, stdout=fo, stderr=fe,
                         env=env, pass_fds=[b.fileno()], preexec_fn=_limits, cwd=tmp)
    b.close()
    a.settimeout(20)
    f = a.makefile("rb")
    n = 0
    try:
        while True:
            h = f.read(9)
            if len(h) < 9:
                break
            op, arg, ln = struct.unpack("<cii", h)
            pl = f.read(ln) if ln else b""
            ret, er, dt, data = bus.op(op.decode(), arg, pl)
            a.sendall(struct.pack("<iiii", ret, er, dt, len(data)) + data)
            n += 1
            if n > MAXOPS:
                r.runaway = f"more than {MAXOPS} operations"
                break
        if r.runaway is None:
            p.wait(20)
    except (socket.timeout, TimeoutError, subprocess.TimeoutExpired):
        r.runaway = "no operation and no end within 20 s"
    except (BrokenPipeError, ConnectionResetError):
        p.wait(20)
    finally:
        f.close()
        a.close()
        if p.poll() is None:
            p.kill()
            p.wait()
    r.rc = p.returncode
    r.ops = n
    fo.seek(0); fe.seek(0)
    r.out, r.err = fo.read(), fe.read()
    fo.close(); fe.close()
    if fin:
        fin.close()
    r.san = ""
    for x in os.listdir(tmp):
        if x.startswith("san"):
            r.san += open(os.path.join(tmp, x), errors="replace").read()
            os.unlink(os.path.join(tmp, x))
    r.bus = bus
    return r
