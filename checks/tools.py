"""B01-B04: the command line tools, run as real processes against a simulated bus (vlib/toolrun.py)."""
import json, os, random, re, shutil, tempfile, traceback
import multiprocessing as mp
from model import wire, record
from vlib import build, core
from vlib.core import Stats, Viol, Crash, run_worker
from vlib.toolrun import run_tool, announced
from checks.session import telegram, garble, sec_match
from checks.codec import select_frame, is_sec
from checks.vardata import frame

BAUDS = [300, 600, 1200, 2400, 4800, 9600, 19200, 38400]
DOC = b"<MBusData"


def received(items, tcp):
    """What a receiver sees of an answer: 'timeout' | 'invalid' | 'error' | ('ok', telegram, more)."""
    b = bytes(x for x in items if not isinstance(x, str))
    dead = any(isinstance(x, str) for x in items)
    if not b:
        return "error" if dead else "timeout"
    k = announced(b)
    if k == 0:
        return "invalid"
    if k is None or k > len(b):
        return "error" if dead else ("timeout" if tcp else "invalid")
    if wire.verdict(b[:k])[0] != "ok":
        return "invalid"
    return ("ok", b[:k], len(b) > k)


def sec_of(idb):
    return "".join("%02X" % b for b in reversed(idb[:4])) + "".join("%02X" % b for b in idb[4:])


def rand_idb(rng, digits=None):
    d = digits or "%08d" % rng.randrange(10 ** 8)
    x = bytes(int(d[i:i + 2], 16) for i in (6, 4, 2, 0)) + record.rand_bytes(rng, 4)
    return x[:4] + bytes(b & 0x7F if b == 0xFF else b for b in x[4:])


def some_mask(rng, idb):
    """A mask that matches this slave."""
    s = list(sec_of(idb))
    k = rng.random()
    if k < .4:
        pass
    else:
        for i in range(8):
            if rng.random() < rng.choice([.1, .6]):
                s[i] = "F"
        for j in (8, 10, 12, 14):
            if rng.random() < .5:
                s[j] = s[j + 1] = "F"
        if s[8:12] != list(sec_of(idb)[8:12]):
            s[8:12] = "FFFF"
    s = "".join(s)
    return s.lower() if rng.random() < .2 else s


def population(rng, size, ntel=1, kinds=False, primary=True):
    out, seen, used = [], set(), set()
    base = "%08d" % rng.randrange(10 ** 8)
    while len(out) < size:
        d = (base[:rng.randrange(8)] + "%08d" % rng.randrange(10 ** 8))[:8] if rng.random() < .5 else "%08d" % rng.randrange(10 ** 8)
        a = rng.choice([0, 1, 2, 5, 249, 250, rng.randrange(0, 251)])
        if d in seen or a in used:
            continue
        seen.add(d)
        used.add(a)
        idb = rand_idb(rng, d)
        n = ntel if isinstance(ntel, int) else rng.choice(ntel)
        tels = []
        for i in range(n):
            more = i + 1 < n
            if not kinds or more or rng.random() < .85:
                tels.append(telegram(rng, more=more, hdr=idb + record.rand_bytes(rng, 4), maxlen=60 if rng.random() < .8 else 200, addr=a))
            else:
                k = rng.random()
                tels.append(frame(rng, record.rand_bytes(rng, 16), 0x73) if k < .4 else
                            frame(rng, record.rand_bytes(rng, rng.randrange(0, 3)), 0x70) if k < .6 else
                            frame(rng, idb + record.rand_bytes(rng, rng.randrange(0, 12))) if k < .8 else
                            frame(rng, record.rand_bytes(rng, 20), 0x75))
        out.append({"addr": a, "id": idb.hex(), "tels": [t.hex() for t in tels]})
    return out


def opts(rng, spec, retries=None, frames=None):
    """The optional arguments and the connection arguments of a tool."""
    a = []
    tool = spec["tool"]
    spec["dbg"] = False
    if rng.random() < .2 and tool not in ("mbus-tcp-select-secondary", "mbus-serial-select-secondary", "mbus-serial-switch-baudrate", "mbus-tcp-scan-secondary"):
        a.append("-d")
        spec["dbg"] = True
    spec["baud"] = None
    if not spec["tcp"]:
        spec["baud"] = 2400 if tool == "mbus-serial-scan-x" else 9600
        k = rng.random()
        # mbus-serial-scan-secondary takes -b only with -d or alone, all combinations are documented
        if k < .4:
            spec["baud"] = rng.choice(BAUDS)
            a += ["-b", str(spec["baud"])]
        elif k < .43:
            spec["baud"] = 0
            a += ["-b", rng.choice(["0", "1", "9601", "57600", "115200", "-1"])]
    if frames is not None:
        a += ["-f", str(frames)]
    if retries is not None:
        a += ["-r", str(retries)]
    if spec["tcp"]:
        host = rng.choice(["127.0.0.1", "localhost", "gw%d.example" % rng.randrange(10)])
        port = rng.choice([1, 10001, 65535, rng.randrange(1, 65536)])
        spec["dev"] = f"{host} {port}"
        if rng.random() < .02:
            port = rng.choice([-1, 65536, 70000, 1 << 31])
            spec["dev"] = None
        a += [host, str(port)]
    else:
        spec["dev"] = "/dev/ttyV%d" % rng.randrange(10)
        a.append(spec["dev"])
    k = rng.random()
    if k < .015:
        spec["noconn"] = True
    elif k < .02 and spec["tcp"]:
        spec["noconn"] = "gai"
    elif k < .025 and not spec["tcp"]:
        spec["notty"] = True
    return a


def refused(spec):
    """The tool cannot get as far as talking to the bus."""
    return spec["dev"] is None or spec["baud"] == 0 or spec.get("noconn") or spec.get("notty")


def stale(rng, s):
    """Bytes on the line before the tool starts; only for tools that begin with a reset and discard what is there."""
    if rng.random() < .15 and not s["tool"].endswith("tcp-request-data"):
        s["stale"] = b"".join(rng.choice([telegram(rng), b"\xe5", record.rand_bytes(rng, rng.randrange(1, 8)), bytes(garble(rng, telegram(rng)))]) for _ in range(rng.randrange(1, 4))).hex()


class _Tool:
    pid = None
    quick_n = 60            # runs per shard
    thorough_n = 2500
    assumptions = ["The tools' serial and socket operations are answered by a model through wrapped libc calls; real line timing, parity and flow control are outside.",
                   "Overlapping answers reach the master as garbage, as a concatenation or as the bitwise AND of the answers."]
    rule = ""

    # subclasses: spec(rng) and judge(spec, r, st, later)
    def common(self, spec, r):
        vs = []
        if r.san:
            c = Crash("sanitizer", r.san)
            return [Viol("crash:" + c.key(), f"{spec['tool']} {' '.join(spec['args'])}: {c.key()}: {c.short()}")]
        if r.runaway:
            return [Viol("runaway", f"{spec['tool']} {' '.join(spec['args'])} does not come to an end: {r.runaway}")]
        if r.rc < 0 or r.rc in (77, 134, 139):
            return [Viol("died", f"{spec['tool']} {' '.join(spec['args'])} ended with {r.rc}")]
        if r.rc in (96, 97, 98, 99):
            raise core.HarnessError(f"shim exit {r.rc} of {spec['tool']}")
        if r.bus.hang:
            vs.append(Viol("hang", f"{spec['tool']} waits for an answer without a time-out"))
        if refused(spec):
            if r.bus.tels:
                vs.append(Viol("talks", f"{spec['tool']} {' '.join(spec['args'])} talks to the bus although the connection could not be set up as asked"))
            if r.rc == 0:
                vs.append(Viol("exit-refused", f"{spec['tool']} {' '.join(spec['args'])} succeeds although the connection could not be set up as asked"))
            return vs
        if r.bus.tels:
            if r.bus.host != spec["dev"]:
                vs.append(Viol("device", f"{spec['tool']} {' '.join(spec['args'])} talks to {r.bus.host}"))
            if spec["baud"]:
                bad = {e[3] for e in r.bus.log if e[0] == "write"} - {spec["baud"]}
                if bad:
                    vs.append(Viol("baud", f"{spec['tool']} {' '.join(spec['args'])} sends at {bad} Bd"))
        return vs

    def finish(self, st):
        return []

    def run(self, tier, seed):
        n = self.quick_n * core.QUICK_SCALE if tier == "quick" else self.thorough_n
        dirs = (build.ensure("bin"), build.ensure("binm"), os.path.join(build.ensure("asan"), "worker"))
        with mp.Pool(core.NPROC) as pool:
            rs = pool.map(_tool_shard, [(self, dirs, seed, i, n) for i in range(core.NPROC)], chunksize=1)
        tot = Stats()
        for kind, r in rs:
            if kind == "err":
                raise core.HarnessError(r)
            tot.eval += r.eval
            tot.sigs |= r.sigs
            for k, v in r.count.items():
                tot.count[k] = tot.count.get(k, 0) + v
            tot.samples += r.samples
            tot.viols += r.viols
        cov = {"evaluations": tot.eval, "distinct_nontrivial": len(tot.sigs), "rule": self.rule, "samples": tot.samples[:4],
               "counts": dict(sorted(tot.count.items())), "shards": core.NPROC}
        pr = self.finish(tot)
        if not tot.eval:
            pr.append("nothing was executed")
        return cov, tot.viols, pr

    def do_replay(self, path):
        rec = json.load(open(path))
        st = Stats()
        dirs = (build.ensure("bin"), build.ensure("binm"), os.path.join(build.ensure("asan"), "worker"))
        _some(self, dirs, [rec["ctx"]], st)
        for k, m, _, _ in st.viols:
            print("REPRODUCED", k, m)
        return 1 if st.viols else 0


def _some(chk, dirs, specs, st):
    tmp = tempfile.mkdtemp(prefix="vt")
    try:
        later = []
        for s in specs:
            for flavour in (("bin", "binm") if s.get("both") else ("bin",)):
                r = run_tool(dirs[0] if flavour == "bin" else dirs[1], json.loads(json.dumps(s)), tmp)
                st.eval += 1
                st.inc("tool " + s["tool"])
                st.inc("telegrams", len(r.bus.tels))
                st.inc("bus_operations", r.ops)
                vs = chk.common(s, r)
                mine = []
                if not vs and not refused(s):
                    vs = chk.judge(s, r, st, mine)
                for cmd, cb in mine:
                    later.append((s, cmd, cb))
                note(st, s, vs)
                if not vs and len(st.samples) < 2:
                    st.samples.append({"case": s["tool"] + " " + " ".join(s["args"]), "observed": f"exit {r.rc}; {len(r.bus.tels)} telegrams; {r.out[:200]!r}"})
        if later:
            outs = run_worker(dirs[2], [c for _, c, _ in later])
            for (s, c, cb), o in zip(later, outs):
                if o is None or isinstance(o, Crash):
                    st.inc("reference_crashed")
                    continue
                note(st, s, cb(o))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def note(st, s, vs):
    for v in vs:
        if len(st.viols) < 40:
            st.viols.append((v.key, v.msg, s["tool"] + " " + " ".join(s["args"]), s))
        st.inc("violating_observations")


def _tool_shard(a):
    chk, dirs, seed, shard, n = a
    st = Stats()
    try:
        rng = random.Random(f"{seed}/{chk.pid}/{shard}")
        buf = []
        for i in range(n):
            s = chk.spec(rng)
            s["both"] = rng.random() < .3
            buf.append(s)
            if len(buf) >= 40:
                _some(chk, dirs, buf, st)
                buf = []
        if buf:
            _some(chk, dirs, buf, st)
        return ("ok", st)
    except Exception:
        return ("err", traceback.format_exc())


# ------------------------------------------------------------------------------------------ B01
class B01(_Tool):
    pid = "B01"
    quick_n = 30
    thorough_n = 1500
    rule = ("a run counts by (transport, retries, numbers of acknowledging, late, garbling and doubly answering addresses); judged: device and collision lines per address, "
            "pings on the wire, exit status, line speed and device")

    def spec(self, rng):
        tcp = rng.random() < .5
        s = {"tool": "mbus-tcp-scan" if tcp else "mbus-serial-scan", "tcp": tcp}
        ret = rng.choice([None, 0, 1, 2, 3, 9]) if rng.random() < .97 else rng.choice([10, 100])
        s["ret"] = ret
        s["args"] = opts(rng, s, retries=ret)
        R = ret or 0
        pings = {}
        pool = [0, 1, 2, 10, 127, 128, 249, 250] + [rng.randrange(251) for _ in range(rng.choice([0, 2, 10, 60]))]
        if rng.random() < .05:
            pool = list(range(251))
        for a in pool:
            if rng.random() < .4 and len(pool) < 251:
                continue
            k = rng.random()
            n = 0 if k < .5 else rng.choice([R, R, R + 1, rng.randrange(0, R + 2)])
            k = rng.random()
            if k < .6:
                line = "e5"
            elif k < .8:
                line = bytes([rng.choice([0, 1, 0x15, 0x22, 0x94, 0xF5, 0xE4, 0xFF])] + [rng.randrange(256) for _ in range(rng.randrange(0, 6))]).hex()
            elif k < .93:
                line = "e5" + bytes(rng.choice([[0xE5], [0xE5, 0xE5], [0], [0x77, 3], [0xE5, 0x11]])).hex()
            else:
                line = bytes(garble(rng, telegram(rng))).hex()
                if received(list(bytes.fromhex(line)), tcp) != "invalid":
                    line = "00"
            pings[str(a)] = [n, line]
        for a in (251, 252, 253, 254, 255):
            if rng.random() < .3:
                pings[str(a)] = [0, "e5"]
        s["pings"] = pings
        if rng.random() < .1:
            s["fault"] = {str(rng.randrange(0, 251)): rng.choice(["eof", "err"])}
        elif rng.random() < .06:
            s["wfault"] = {str(rng.randrange(0, 251)): rng.choice(["fail", "short"])}
        return s

    def judge(self, s, r, st, later):
        vs = []
        what = f"{s['tool']} {' '.join(s['args'])}"
        b = r.bus
        R = s["ret"] or 0
        found = [int(x) for x in re.findall(rb"Found a M-Bus device at address (-?\d+)", r.out)]
        coll = [int(x) for x in re.findall(rb"Collision at address (-?\d+)", r.out)]
        if R > 9:
            if r.rc == 0 or b.tels or found:
                vs.append(Viol("retries-accepted", f"{what}: a retry count that the library refuses is not an error"))
            return vs
        n = {}
        for t in b.tels:
            if len(t) != 5 or t[1] != 0x40 or t != wire.short(0x40, t[2]) or t[2] > 250:
                vs.append(Viol("not-a-ping", f"{what}: sends {t.hex()}"))
                return vs
            n[t[2]] = n.get(t[2], 0) + 1
        broken = any(any(isinstance(x, str) for x in a) for a in b.ans) or any(e[0] == "write" and e[2] for e in b.log)
        wf, wc, silent = set(), set(), 0
        for a in range(251):
            p = s["pings"].get(str(a))
            if p is None or p[0] > R:
                continue
            x = received(list(bytes.fromhex(p[1])), s["tcp"])
            if x == "invalid" or x[2]:
                wc.add(a)
            else:
                wf.add(a)
        if broken:
            # only what was really seen may be reported
            st.inc("scans_with_broken_transport")
            if r.rc == 0:
                vs.append(Viol("exit-broken", f"{what}: a scan over a connection that broke down succeeds"))
            if not set(found) <= wf or not set(coll) <= wc or len(set(found + coll)) != len(found + coll):
                vs.append(Viol("reported-broken", f"{what}: found {sorted(set(found) - wf)[:5]}, collisions {sorted(set(coll) - wc)[:5]} are not on the bus (connection broke down)"))
            lost = [a for a in found + coll if n.get(a, 0) == 0]
            if lost:
                vs.append(Viol("reported-unasked", f"{what}: {lost[:5]} reported without a ping on the wire"))
            return vs
        st.sig(s["tcp"], R, len(wf), len(wc), sum(1 for a in wf if s["pings"][str(a)][0]))
        st.inc("devices_expected", len(wf))
        st.inc("late_devices_expected", sum(1 for a in wf if s["pings"][str(a)][0]))
        st.inc("collisions_expected", len(wc))
        if sorted(found) != sorted(wf):
            vs.append(Viol("found-set", f"{what}: devices missing {sorted(wf - set(found))[:6]}, wrong {sorted(set(found) - wf)[:6]}, repeated {[a for a in set(found) if found.count(a) > 1][:3]}"))
        if sorted(coll) != sorted(wc):
            vs.append(Viol("collision-set", f"{what}: collisions missing {sorted(wc - set(coll))[:6]}, wrong {sorted(set(coll) - wc)[:6]}"))
        if r.rc != 0:
            vs.append(Viol("exit", f"{what}: exit status {r.rc} for a complete scan: {r.err[:120]!r}"))
        for a in range(251):
            p = s["pings"].get(str(a))
            hi = R + 1 if p is None or p[0] > R else p[0] + 1
            if not 1 <= n.get(a, 0) <= hi:
                vs.append(Viol("pings", f"{what}: address {a} pinged {n.get(a, 0)} times, at most {hi} (retries {R}) and at least once"))
                break
        return vs

    def finish(self, st):
        return [f"no {k}" for k in ("late_devices_expected", "collisions_expected", "scans_with_broken_transport") if not st.count.get(k)]


# ------------------------------------------------------------------------------------------ B02
STAMP = re.compile(rb"\s*<Timestamp>[^<]*</Timestamp>")


class B02(_Tool):
    pid = "B02"
    quick_n = 220
    thorough_n = 12000
    rule = ("a run counts by (tool, address kind, population, telegrams, fault, outcome); judged: standard output is the document of exactly the telegrams the slave answered, "
            "or the exit status is non-zero and no document is printed; requests on the wire")

    def spec(self, rng):
        tcp = rng.random() < .5
        multi = rng.random() < .6
        s = {"tool": ("mbus-tcp-" if tcp else "mbus-serial-") + "request-data" + ("-multi-reply" if multi else ""), "tcp": tcp, "multi": multi}
        fr = None
        if multi and rng.random() < .5:
            fr = rng.choice([1, 2, 3, 5, 16, 0, -1, 20])
        s["frames"] = 16 if fr is None else fr
        s["args"] = opts(rng, s, frames=fr)
        s["slaves"] = population(rng, rng.choice([0, 1, 1, 2, 3]), [1, 1, 2, 3, 5, 17] if multi else [1, 1, 2], kinds=True)
        s["coll"] = rng.randrange(3)
        k = rng.random()
        if s["slaves"] and k < .75:
            x = rng.choice(s["slaves"])
            q = rng.random()
            addr = str(x["addr"]) if q < .45 else some_mask(rng, bytes.fromhex(x["id"])) if q < .95 else "FFFFFFFFFFFFFFFF"
            if q < .03:
                addr = "254"
        elif k < .87:
            addr = str(rng.choice([0, 1, 250, 251, 253, 254, rng.randrange(251)]))
        elif k < .92:
            addr = rng.choice(["256", "300", "-1", "1000"])
        else:
            addr = some_mask(rng, rand_idb(rng))
        s["args"].append(addr)
        s["addr"] = addr
        stale(rng, s)
        if rng.random() < .4:
            n = rng.choice([1, 1, 1, 2, 4, 6])
            i0 = (2 if multi or not tcp else 0) + rng.choice([0, 0, 1, 1, 2, 3])
            kind = rng.choice(["drop", "garble", "drop", "garble", "eof", "err", "ack", "hex:" + telegram(rng).hex(), "hex:e5e5", "hex:68", "hex:0033"])
            s["fault"] = {str(i0 + j): kind for j in range(n)}
        if rng.random() < .04:
            s["wfault"] = {str(rng.randrange(0, 5)): rng.choice(["fail", "short"])}
        return s

    def judge(self, s, r, st, later):
        vs = []
        b = r.bus
        what = f"{s['tool']} {' '.join(s['args'])}"
        sec = is_sec(s["addr"].encode())
        doc = DOC in r.out
        if any(e[0] == "write" and e[2] for e in b.log):
            st.inc("send_failures")
            if r.rc == 0 or doc:
                vs.append(Viol("send-failed", f"{what}: a telegram could not be sent, exit status {r.rc}, document {doc}"))
            return vs
        if not sec and not 0 <= int(s["addr"]) <= 255:
            st.inc("bad_addresses")
            if r.rc == 0 or doc or any(t[1:2] != b"\x40" for t in b.tels):
                vs.append(Viol("bad-address", f"{what}: exit status {r.rc}, telegrams {[t.hex() for t in b.tels][:4]}"))
            return vs
        # what is on the wire
        seq = [(t, a) for t, a in zip(b.tels, b.ans) if not (len(t) == 5 and t[1] == 0x40 and t[2] in (0xFD, 0xFF))]
        ok = True
        if sec:
            if not seq or seq[0][0][:4] != select_frame(s["addr"].encode())[:4] or seq[0][0][5:7] + seq[0][0][7:-2] != select_frame(s["addr"].encode())[5:-2] or seq[0][0][4] not in (0x53, 0x73):
                return [Viol("no-select", f"{what}: first telegram is {seq[0][0].hex() if seq else None}")]
            x = received(seq[0][1], s["tcp"])
            ok = x == ("ok", b"\xe5", False)
            seq = seq[1:]
        dest = 0xFD if sec else int(s["addr"])
        if not ok:
            st.inc("selection_failed")
            st.sig(s["tool"], sec, "noselect", str(x)[:8], s["coll"], len(s["slaves"]))
            if seq:
                vs.append(Viol("after-failed-select", f"{what}: {seq[0][0].hex()} sent although the selection did not succeed"))
            if r.rc == 0 or doc:
                vs.append(Viol("failed-select-exit", f"{what}: exit status {r.rc}, document {doc} although the selection did not succeed"))
            return vs
        got, fails, i, good = [], 0, 0, None
        more = True
        while more:
            if i >= len(seq):
                return [Viol("stopped-early", f"{what}: {len(got)} telegrams read, {fails} failed requests since, then no further request (exit status {r.rc})")]
            t, a = seq[i]
            i += 1
            if t not in (wire.short(0x5B, dest), wire.short(0x7B, dest)):
                return [Viol("not-a-request", f"{what}: sends {t.hex()}")]
            x = received(a, s["tcp"])
            if isinstance(x, tuple):
                fails = 0
                got.append(x[1])
                try:
                    d = _decode(x[1])
                except record.Unjudged:
                    st.inc("unjudged_telegrams")
                    return vs
                if d is None:
                    good = False
                    break
                good = True
                if not (s["multi"] and d and (s["frames"] <= 0 or len(got) < s["frames"])):
                    break
            elif x == "error" or not s["multi"]:
                good = False
                break
            else:
                fails += 1
                if fails > 3:
                    good = False
                    break
        if i < len(seq):
            return [Viol("extra-request", f"{what}: {len(seq) - i} more telegrams after the readout was over: {seq[i][0].hex()}")]
        st.sig(s["tool"], sec, good, len(got), bool(s.get("fault")), len(s["slaves"]))
        if not good:
            st.inc("readouts_failed")
            if r.rc == 0 or doc:
                vs.append(Viol("failed-exit", f"{what}: exit status {r.rc}, document {doc} although the slave gave no usable answer ({x if not isinstance(x, tuple) else x[1].hex()[:60]})"))
            return vs
        # exactly the slave's telegrams, each once
        if not s.get("fault"):
            m = [d for d in s["slaves"] if (sec_match(s["addr"], bytes.fromhex(d["id"])) if sec else dest in (d["addr"], 0xFE))]
            if len(m) == 1:
                want = [bytes.fromhex(t) for t in m[0]["tels"]][:len(got)]
                if got != want:
                    vs.append(Viol("telegrams", f"{what}: reads {[g.hex()[:40] for g in got]}, the slave has {[g.hex()[:40] for g in want]}"))
        st.inc("readouts")
        st.inc("telegrams_read", len(got))

        def cb(o):
            if s["multi"]:
                ref = o["o"].get("xml")
            else:
                ref = o["o"]["dec"].get("xml") if o["o"]["r"] == 0 and o["o"]["dec"]["r"] == 0 else None
            if ref is None:
                st.inc("readouts_undecodable")
                if r.rc == 0 or doc:
                    return [Viol("undecodable-exit", f"{what}: exit status {r.rc}, document {doc} for telegrams without a document")]
                return []
            ref = STAMP.sub(b"", bytes.fromhex(ref))
            out = STAMP.sub(b"", r.out)
            st.inc("documents_compared")
            if r.rc != 0:
                return [Viol("exit", f"{what}: exit status {r.rc} although the slave answered with {len(got)} good telegrams: {r.err[:100]!r}")]
            if not (out.endswith(ref) if s["dbg"] else out == ref):
                return [Viol("document", f"{what}: prints {out[:160]!r}..., the telegrams say {ref[:160]!r}...")]
            return []
        later.append((("chain " if s["multi"] else "msg dax ") + " ".join(g.hex() for g in got), cb))
        return vs

    def finish(self, st):
        return [f"no {k}" for k in ("documents_compared", "readouts_failed", "selection_failed", "readouts_undecodable", "bad_addresses") if not st.count.get(k)]


def _decode(t):
    """None: certainly not decodable; else whether the telegram announces more records."""
    v = wire.verdict(t)[1]
    if v["type"] != 4 and v["type"] != 3:
        return None
    if v["ci"] != 0x72:
        return False if v["ci"] in (0x70, 0x73) else None
    if len(v["data"]) < 12:
        return None
    q = record.split(v["data"])
    return None if q is None else q[1]


# ------------------------------------------------------------------------------------------ B03
class B03(_Tool):
    pid = "B03"
    quick_n = 220
    thorough_n = 12000
    rule = ("a run counts by (address kind, state of the new address, selection result, acknowledgement, fault, outcome); judged: every assignment telegram on the wire, "
            "what was seen before it, the addresses of all slaves afterwards, exit status and message")

    def spec(self, rng):
        s = {"tool": "mbus-serial-set-address", "tcp": False}
        s["args"] = opts(rng, s)
        s["slaves"] = population(rng, rng.choice([1, 1, 2, 3, 5]))
        s["coll"] = rng.randrange(2)
        x = rng.choice(s["slaves"])
        k = rng.random()
        old = str(x["addr"]) if k < .4 else some_mask(rng, bytes.fromhex(x["id"])) if k < .8 else rng.choice(["253", "254", "FFFFFFFFFFFFFFFF", str(rng.randrange(251)), "300", "-5", some_mask(rng, rand_idb(rng))])
        k = rng.random()
        new = str(rng.randrange(251)) if k < .55 else str(rng.choice(s["slaves"])["addr"]) if k < .75 else rng.choice(["253", "254", "255", "256", "-1", "1000", "0", "1", "250", "65536"])
        s["old"], s["new"] = old, new
        s["args"] += [old, new]
        stale(rng, s)
        k = rng.random()
        if k < .25:
            s["pings"] = {new: [0, rng.choice(["00", "e5e5", "e5", "f5", telegram(rng).hex(), "68", "10", "6805"])]}
        for d in s["slaves"]:
            q = rng.random()
            if q < .06:
                d["mute"] = ["ud"]
            elif q < .1:
                d["mute"] = ["sel"]
        if rng.random() < .3:
            s["fault"] = {str(rng.randrange(0, 5)): rng.choice(["drop", "garble", "eof", "ack", "err", "hex:e5e5", "hex:00", "hex:" + telegram(rng).hex()])}
        if rng.random() < .05:
            s["wfault"] = {str(rng.randrange(0, 5)): rng.choice(["fail", "short"])}
        return s

    def judge(self, s, r, st, later):
        vs = []
        b = r.bus
        what = f"{s['tool']} {' '.join(s['args'])}"
        new, sec = int(s["new"]), is_sec(s["old"].encode())
        said = re.findall(rb"Set primary address of device to (-?\d+)", r.out)
        wf = any(e[0] == "write" and e[2] for e in b.log)
        sets = [i for i, t in enumerate(b.tels) if len(t) > 7 and t[6] == 0x51]
        for i in sets:
            t = b.tels[i]
            dest = 0xFD if sec else int(s["old"])
            if not 0 <= new <= 250 and new not in (251, 252):
                vs.append(Viol("forbidden", f"{what}: {t.hex()} assigns a forbidden address"))
                continue
            if t not in (wire.long_(0x53, dest & 0xFF, 0x51, bytes([1, 0x7A, new])), wire.long_(0x73, dest & 0xFF, 0x51, bytes([1, 0x7A, new]))) or not 0 <= dest <= 255:
                vs.append(Viol("assignment", f"{what}: {t.hex()} does not assign {new} to {s['old']}"))
                continue
            pi = [j for j in range(i) if b.tels[j] == wire.short(0x40, new)]
            if not pi:
                vs.append(Viol("unchecked", f"{what}: the new address is assigned without asking whether it is in use"))
            elif any(b.ans[j] for j in pi):
                vs.append(Viol("occupied", f"{what}: the new address is assigned although something answers there: {b.ans[pi[-1]][:8]}"))
            if sec:
                si = [j for j in range(i) if len(b.tels[j]) > 7 and b.tels[j][6] == 0x52]
                if not si or b.tels[si[-1]][5:-2] != select_frame(s["old"].encode())[5:-2]:
                    vs.append(Viol("unselected", f"{what}: assignment to FD without the selection of {s['old']}"))
                elif received(b.ans[si[-1]], False) != ("ok", b"\xe5", False):
                    vs.append(Viol("ambiguous", f"{what}: assignment to FD although the selection was answered with {b.ans[si[-1]][:8]}"))
                elif any(b.tels[j][2] == 0xFD and b.tels[j][1] == 0x40 for j in range(si[-1] + 1, i) if len(b.tels[j]) == 5):
                    vs.append(Viol("deselected", f"{what}: the selection is undone before the assignment"))
        if len(sets) > 1:
            vs.append(Viol("repeated", f"{what}: {len(sets)} assignments"))
        other = [t for i, t in enumerate(b.tels) if i not in sets and not (len(t) == 5 and t[1] in (0x40, 0x5B, 0x7B)) and not (len(t) > 7 and t[6] == 0x52)]
        if other:
            vs.append(Viol("other-telegram", f"{what}: sends {other[0].hex()}"))
        acked = bool(sets) and received(b.ans[sets[-1]], False)[:2] == ("ok", b"\xe5")
        st.sig(sec, bool(sets), acked, new > 250, tuple(sorted(set(s.get("fault", {}).values())))[:1] and list(s["fault"].values())[0][:5], len(s["slaves"]), "pings" in s)
        st.inc("assignments", len(sets))
        if wf:
            st.inc("send_failures")
            if r.rc == 0 or said:
                vs.append(Viol("send-failed", f"{what}: succeeds although a telegram could not be sent"))
            return vs
        if acked:
            st.inc("acknowledged")
            if r.rc != 0 or said != [str(new).encode()]:
                vs.append(Viol("denied", f"{what}: acknowledged, but exit status {r.rc} and {r.out[-80:]!r}"))
        else:
            st.inc("not_assigned")
            if r.rc == 0 or said:
                vs.append(Viol("claimed", f"{what}: exit status {r.rc}, {r.out[-80:]!r} although no slave acknowledged an assignment"))
        if not s.get("fault") and "pings" not in s and not any("mute" in d for d in s["slaves"]):
            before = [d["addr"] for d in s["slaves"]]
            after = [x.addr for x in b.slaves]
            if sec:
                m = [i for i, d in enumerate(s["slaves"]) if sec_match(s["old"], bytes.fromhex(d["id"]))]
            else:
                m = [i for i, a in enumerate(before) if str(a) == s["old"]]
            if 0 <= new <= 250 and new not in before and len(m) == 1:
                want = before[:]
                want[m[0]] = new
                st.inc("clean_changes")
                if after != want:
                    vs.append(Viol("addresses", f"{what}: the addresses {before} became {after}"))
            elif s["old"] not in ("254", "255", "253") and after != before:
                vs.append(Viol("addresses", f"{what}: the addresses {before} became {after}"))
        return vs

    def finish(self, st):
        return [f"no {k}" for k in ("clean_changes", "acknowledged", "not_assigned", "send_failures") if not st.count.get(k)]


# ------------------------------------------------------------------------------------------ B04
class B04(_Tool):
    pid = "B04"
    quick_n = 220
    thorough_n = 12000
    rule = ("a run counts by (tool, address kind, population, matching slaves, collision mode, fault, outcome); judged: reported slaves, telegrams on the wire, exit status and message")

    def spec(self, rng):
        k = rng.random()
        tcp = rng.random() < .5
        kind = "scan" if k < .3 else "select" if k < .55 else "reset" if k < .7 else "baud" if k < .85 else "raw"
        if kind in ("reset", "raw"):
            tcp = True
        if kind == "baud":
            tcp = False
        T = "mbus-tcp-" if tcp else "mbus-serial-"
        s = {"kind": kind, "tcp": tcp, "tool": T + {"scan": "scan-secondary", "select": "select-secondary", "reset": "application-reset", "baud": "switch-baudrate", "raw": "raw-send"}[kind]}
        s["args"] = opts(rng, s)
        s["slaves"] = population(rng, rng.choice([0, 1, 1, 2, 2, 3, 4] if kind != "scan" else [0, 1, 2, 3, 4, 6, 10]))
        s["coll"] = rng.randrange(3 if kind in ("scan", "select") else 2)
        pop = s["slaves"]
        fi = rng.choice([0, 0, 1, 1, 2, 3, 4])
        if kind == "scan":
            mask = None
            if rng.random() < .7:
                mask = some_mask(rng, bytes.fromhex(rng.choice(pop)["id"])) if pop else "F" * 16
                if rng.random() < .6:
                    mask = mask[:8] + "F" * 8
                if rng.random() < .3:
                    mask = mask[:rng.randrange(8)] + "F" * 16
                    mask = mask[:16]
                if rng.random() < .05:
                    mask = rng.choice(["", "1234", "FFFFFFFFFFFFFFF", "FFFFFFFFFFFFFFFFF", "GGGGGGGGGGGGGGGG", "FFFF FFFFFFFFFFF"])
                s["args"].append(mask)
            stale(rng, s)
            s["addr"] = "F" * 16 if mask is None else mask
            fi = 2 + rng.randrange(0, 12)
        else:
            k = rng.random()
            if kind == "select" or (k < .5 and kind != "baud"):
                a = some_mask(rng, bytes.fromhex(rng.choice(pop)["id"])) if pop and rng.random() < .8 else rng.choice(["FFFFFFFFFFFFFFFF", some_mask(rng, rand_idb(rng))])
                if kind == "select" and rng.random() < .05:
                    a = rng.choice(["1", "12345678", "xyz", "FFFFFFFFFFFFFFFG", "FFFFFFFFFFFFFFFFF"])
            else:
                a = str(rng.choice(pop)["addr"]) if pop and rng.random() < .75 else rng.choice(["0", "250", "253", str(rng.randrange(251)), "256", "-1", "999"])
            s["addr"] = a
            s["args"].append(a)
        if kind == "reset":
            s["sub"] = None
            if rng.random() < .6:
                s["sub"] = rng.choice([0, 1, 0x10, 0x7F, 0x80, 0xE0, 0xFF, rng.randrange(256)])
                s["args"].append(str(s["sub"]))
        elif kind == "baud":
            s["target"] = rng.choice(BAUDS) if rng.random() < .9 else rng.choice([0, 1, 2401, 57600, -300, 115200])
            s["args"].append(str(s["target"]))
        elif kind == "raw":
            k = rng.random()
            m = wire.rand_frame(rng) if k < .3 else rng.choice([wire.short(0x5B, rng.choice(pop)["addr"] if pop else 3), wire.short(0x40, rng.randrange(251)), wire.short(0x7B, 0xFD),
                                                               wire.long_(0x53, rng.choice(pop)["addr"] if pop else 1, rng.choice([0x50, 0x51, 0xB8, 0xBD]), record.rand_bytes(rng, rng.randrange(0, 20)))])
            if k > .9:
                m = bytes(garble(rng, m)) if m[0] != 0xE5 else b"\x17"
            elif k > .85:
                m = m[:rng.randrange(0, len(m))]
            s["raw"] = m.hex()
            sep = rng.choice(["", " ", "\n", " ", "  "])
            txt = sep.join("%02X" % c if rng.random() < .5 else "%02x" % c for c in m) + rng.choice(["", "\n", " \n"])
            if rng.random() < .5:
                s["file"] = txt.encode().hex()
                s["args"].append("@TMP@/in.hex")
            else:
                s["stdin"] = txt.encode().hex()
        if rng.random() < .35:
            s["fault"] = {str(fi): rng.choice(["drop", "garble", "garble", "eof", "err", "ack", "hex:e5e5", "hex:00", "hex:" + telegram(rng).hex(), "hex:68"])}
        if rng.random() < .04:
            s["wfault"] = {str(fi): rng.choice(["fail", "short"])}
        return s

    def judge(self, s, r, st, later):
        b = r.bus
        self.what = f"{s['tool']} {' '.join(s['args'])}"
        wf = any(e[0] == "write" and e[2] for e in b.log)
        if wf:
            st.inc("send_failures")
            if r.rc == 0:
                return [Viol("send-failed", f"{self.what}: succeeds although a telegram could not be sent")]
        return getattr(self, "j_" + s["kind"])(s, r, st, b, wf)

    def j_scan(self, s, r, st, b, wf):
        what = self.what
        lines = [(x.decode("latin-1"), y.decode("latin-1")) for x, y in re.findall(rb"Found a device on secondary address (\S+) \[using address mask (\S+)\]", r.out)]
        if not is_sec(s["addr"].encode()):
            st.inc("bad_masks")
            return [Viol("bad-mask", f"{what}: exit status {r.rc}, {len(b.tels)} telegrams")] if r.rc == 0 or b.tels else []
        want = {sec_of(bytes.fromhex(d["id"])): d for d in s["slaves"] if sec_match(s["addr"], bytes.fromhex(d["id"]))}
        got = [a for a, _ in lines]
        broken = wf or any(any(isinstance(x, str) for x in a) for a in b.ans)
        st.sig("scan", s["tcp"], s["addr"], len(want), s["coll"], broken)
        if not broken and not s.get("fault"):
            st.inc("scans")
            st.inc("slaves_expected", len(want))
            if sorted(got) != sorted(want):
                return [Viol("scan-found", f"{what}: missing {sorted(set(want) - set(got))[:4]}, wrong or repeated {[g for g in got if g not in want or got.count(g) > 1][:4]}")]
            for a, m in lines:
                if len(m) != 16 or not sec_match(m, bytes.fromhex(a[6:8] + a[4:6] + a[2:4] + a[0:2] + a[8:])):
                    return [Viol("scan-mask", f"{what}: {a} reported with mask {m}")]
            if r.rc != 0:
                return [Viol("scan-exit", f"{what}: exit status {r.rc} for a complete scan")]
        if broken and r.rc == 0:
            return [Viol("scan-broken", f"{what}: the connection broke down during the scan, exit status 0")]
        st.inc("scans_broken" if broken else "scans_with_lost_answers" if s.get("fault") else "scans_undisturbed")
        if not any(f[:3] in ("ack", "hex") for f in s.get("fault", {}).values()):
            wrong = [g for g in got if g not in want]
            if wrong:
                return [Viol("scan-phantom", f"{what}: reports {wrong[:4]}")]
        return []

    def j_select(self, s, r, st, b, wf):
        what = self.what
        lines = [(x.decode("latin-1"), y.decode("latin-1")) for x, y in re.findall(rb"Searched for \[(.*?)\] and found \[(.*?)\]", r.out)]
        if not is_sec(s["addr"].encode()):
            st.inc("bad_addresses")
            if r.rc == 0 or b.tels:
                return [Viol("bad-address", f"{what}: exit status {r.rc}, telegrams {[t.hex() for t in b.tels[:3]]}")]
            return []
        if wf:
            return [Viol("select-claimed", f"{what}: {lines}")] if lines else []
        f = select_frame(s["addr"].encode())
        if not b.tels or b.tels[0][:4] + b.tels[0][5:-2] != f[:4] + f[5:-2] or b.tels[0][4] not in (0x53, 0x73):
            return [Viol("select-telegram", f"{what}: sends {b.tels[0].hex() if b.tels else None}")]
        a0 = received(b.ans[0], s["tcp"])
        good = False
        if a0 == ("ok", b"\xe5", False):
            if len(b.tels) != 2 or b.tels[1] not in (wire.short(0x5B, 0xFD), wire.short(0x7B, 0xFD)):
                return [Viol("select-request", f"{what}: after the acknowledgement sends {[t.hex() for t in b.tels[1:3]]}")]
            a1 = received(b.ans[1], s["tcp"])
            if isinstance(a1, tuple):
                v = wire.verdict(a1[1])[1]
                good = v["type"] == 4 and v["ci"] == 0x72 and len(v["data"]) >= 12
                # frames with other data are not judged
                if not good and v["type"] == 4:
                    return []
        elif len(b.tels) > 1:
            return [Viol("select-goes-on", f"{what}: {b.tels[1].hex()} sent although the selection was answered with {b.ans[0][:8]}")]
        st.sig("select", s["tcp"], str(a0)[:12], good, len(s["slaves"]), s["coll"], str(list(s.get("fault", {}).values()))[:6])
        if good:
            st.inc("selected")
            want = sec_of(v["data"][:8])
            if r.rc != 0 or lines != [(s["addr"], want)]:
                return [Viol("select-report", f"{what}: exit status {r.rc}, reports {lines}, the slave is {want}")]
        else:
            st.inc("not_selected")
            if r.rc == 0 or lines:
                return [Viol("select-claimed", f"{what}: exit status {r.rc}, reports {lines}; answers {[x[:8] for x in b.ans]}")]
        return []

    def selected(self, s, b):
        """(violation or None, index of the first telegram after a successful selection or None)"""
        if not is_sec(s["addr"].encode()):
            return None, 0
        f = select_frame(s["addr"].encode())
        if not b.tels or b.tels[0][:4] + b.tels[0][5:-2] != f[:4] + f[5:-2]:
            return Viol("no-select", f"{self.what}: first telegram is {b.tels[0].hex() if b.tels else None}"), None
        if received(b.ans[0], s["tcp"]) != ("ok", b"\xe5", False):
            return None, None
        return None, 1

    def command(self, s, r, st, b, wf, want, msg, valid):
        """A tool that sends one telegram and expects an ACK."""
        what = self.what
        said = msg in r.out
        if wf:
            return [Viol("claimed", f"{what}: {r.out[-80:]!r}")] if said else []
        if not valid:
            st.inc("invalid_arguments")
            if r.rc == 0 or said or b.tels[1:] or (b.tels and not is_sec(s["addr"].encode())):
                return [Viol("invalid-argument", f"{what}: exit status {r.rc}, telegrams {[t.hex() for t in b.tels[:3]]}")]
            return []
        v, i = self.selected(s, b)
        if v:
            return [v]
        if i is None:
            st.inc("selection_failed")
            if r.rc == 0 or said or len(b.tels) > 1:
                return [Viol("failed-select", f"{what}: exit status {r.rc}, telegrams {[t.hex() for t in b.tels[:3]]}, selection answered with {b.ans[0][:8]}")]
            return []
        if len(b.tels) != i + 1 or b.tels[i] not in want:
            return [Viol("telegram", f"{what}: sends {[t.hex() for t in b.tels[i:i + 3]]}, asked for {want[0].hex()}")]
        x = received(b.ans[i], s["tcp"])
        good = isinstance(x, tuple) and x[1] == b"\xe5"
        st.sig(s["kind"], is_sec(s["addr"].encode()), str(x)[:10], s.get("sub") is None, s.get("target"))
        st.inc(s["kind"] + ("_acknowledged" if good else "_failed"))
        if good and x[2]:
            return []              # an ACK and more: not judged
        if good and (r.rc != 0 or not said):
            return [Viol("denied", f"{what}: acknowledged, exit status {r.rc}, {r.out[-80:]!r}")]
        if not good and (r.rc == 0 or said):
            return [Viol("claimed", f"{what}: exit status {r.rc}, {r.out[-80:]!r}, answer {b.ans[i][:8]}")]
        return []

    def j_reset(self, s, r, st, b, wf):
        sec = is_sec(s["addr"].encode())
        d = 0xFD if sec else int(s["addr"])
        ok = 0 <= d <= 255
        data = b"" if s["sub"] is None else bytes([s["sub"]])
        want = [wire.long_(c, d & 0xFF, 0x50, data) for c in (0x53, 0x73)]
        msg = b"Successful reset device" + (b"" if s["sub"] is None else b" (Subcode: %d)" % s["sub"])
        return self.command(s, r, st, b, wf, want, msg, ok)

    def j_baud(self, s, r, st, b, wf):
        d = int(s["addr"])
        ci = dict(zip(BAUDS, range(0xB8, 0xC0))).get(s["target"])
        want = [wire.long_(c, d & 0xFF, ci or 0) for c in (0x53, 0x73)]
        return self.command(s, r, st, b, wf, want, b"Switched baud rate of device to %d" % s["target"], ci is not None and 0 <= d <= 255)

    def j_raw(self, s, r, st, b, wf):
        what = self.what
        if wf:
            return []
        m = bytes.fromhex(s["raw"])
        v, i = self.selected(s, b)
        if v:
            return [v]
        if i is None:
            st.inc("selection_failed")
            if r.rc == 0 or len(b.tels) > 1:
                return [Viol("failed-select", f"{what}: exit status {r.rc}, telegrams {[t.hex() for t in b.tels[:3]]}")]
            return []
        if not m or wire.verdict(m)[0] != "ok":
            st.inc("raw_refused")
            if r.rc == 0 or len(b.tels) > i:
                return [Viol("raw-invalid", f"{what}: {m.hex()} is no telegram; exit status {r.rc}, sends {[t.hex() for t in b.tels[i:]]}")]
            return []
        sent = b"".join(e[1] for e in b.log if e[0] == "write")
        if i:
            sent = sent[len(b.tels[0]):]
        if sent != m:
            return [Viol("raw-telegram", f"{what}: sends {sent.hex()}, asked for {m.hex()}")]
        x = received(b.ans[i], s["tcp"]) if len(b.ans) > i else "timeout"
        st.inc("raw_sent")
        st.sig("raw", m[0], len(m), str(x)[:8], "file" in s)
        if isinstance(x, tuple) != (r.rc == 0):
            return [Viol("raw-exit", f"{what}: exit status {r.rc}, answer {x}")]
        return []

    def finish(self, st):
        return [f"no {k}" for k in ("scans", "scans_broken", "selected", "not_selected", "reset_acknowledged", "reset_failed", "baud_acknowledged", "baud_failed",
                                    "raw_sent", "raw_refused", "invalid_arguments", "send_failures") if not st.count.get(k)]
