"""M01-M04: memory safety, initialisedness, conservation of allocations, allocation failure."""
import json, os, random, re, shutil, subprocess, tempfile, time
import multiprocessing as mp
from model import wire, record, texts
from model.record import Rec
from vlib import build, core
from vlib.core import Check, Case, Viol, Crash, Stats
from checks.link import h
from checks.vardata import frame
from checks.xmlout import nasty_payload, small_payload, rand_tel, edge_payload

ALL = "vdanmxzNspPki"


def soup_payload(rng):
    """Payload bytes that look like records but are not required to be valid."""
    k = rng.random()
    n = rng.choice([0, 1, 5, 12, 13, 20, rng.randrange(0, 253), 252])
    if k < 0.2:
        return record.rand_bytes(rng, n)
    if k < 0.35:
        return record.rand_header(rng) + bytes(rng.choice(b"\x0d\x8d\x7c\xfc\xfd\xfb\xff\x0f\x1f\x2f\x80\x84\xc0\xbf\xf6\xf7") for _ in range(min(n, 240)))
    if k < 0.6:
        p = bytearray(record.rand_payload(rng, rng.choice([40, 120, 252]))[0])
        for _ in range(rng.choice([1, 1, 2, 5])):
            if len(p) > 12:
                p[rng.randrange(12, len(p))] = rng.choice([rng.getrandbits(8), 0xFF, 0x80, 0x7F, 0x0D, 0x7C, 0xFC])
        return bytes(p)
    if k < 0.75:
        p = record.rand_payload(rng, 252)[0]
        return p[:rng.randrange(len(p) + 1)]
    if k < 0.85:
        # reserved LVAR codes, long LVAR values, special DIFs
        p = record.rand_header(rng)
        while len(p) < rng.randrange(13, 200):
            lv = rng.getrandbits(8)
            dif = rng.choice([0x0D, 0x0D, 0x8D, 0x3D, 0x3F, 0x4F, 0x5F, 0x6F, 0x7F, 0xEF])
            p += bytes([dif]) + (b"\x01" if dif & 0x80 else b"") + bytes([rng.choice([0x13, 0x79, 0x7C, 0xFD, 0x6D, 0x6C])]) + bytes([lv]) + record.rand_bytes(rng, rng.randrange(0, 30))
        return p[:252]
    return nasty_payload(rng) if rng.random() < 0.7 else edge_payload(rng)


def rand_any(rng):
    """Any telegram a hostile line could hold."""
    k = rng.random()
    if k < 0.45:
        return frame(rng, soup_payload(rng)[:252], rng.choice([0x72] * 8 + [0x73, 0x70, 0x76, rng.getrandbits(8)]))
    if k < 0.7:
        return rand_tel(rng)
    m = wire.rand_frame(rng)
    return m if k < 0.8 else (wire.mutate(rng, m) or b"\xe5")


def raw_bytes(rng):
    k = rng.random()
    if k < 0.5:
        return wire.mutate(rng, rand_any(rng)) or b"\0"
    if k < 0.8:
        return bytes([rng.choice([0x68, 0x10, 0xE5])]) + record.rand_bytes(rng, rng.randrange(0, 270))
    m = bytearray(rand_any(rng))
    m = m[:rng.randrange(1, len(m) + 1)]
    return bytes(m) + (record.rand_bytes(rng, rng.randrange(0, 20)) if rng.random() < 0.3 else b"")


def decode_case(rng):
    k = rng.random()
    if k < 0.5:
        return f"msg {ALL if rng.random() < 0.8 else ALL + 'D'} {h(rand_any(rng))}"
    if k < 0.6:
        return f"msg {ALL} {h(raw_bytes(rng))}"
    if k < 0.7:
        return f"hist {ALL.replace('P', '')} " + " ".join(h(raw_bytes(rng) if rng.random() < .4 else rand_any(rng)) for _ in range(rng.randrange(2, 6)))
    if k < 0.78:
        return f"inter {ALL.replace('P', '')} " + " ".join(h(rand_any(rng)) for _ in range(rng.randrange(2, 5)))
    if k < 0.9:
        return "chain " + " ".join(h(rand_tel(rng) if rng.random() < .85 else rand_any(rng)) for _ in range(rng.randrange(2, 8)))
    j = rng.randrange(8)
    if j == 0:
        return f"vib {rng.getrandbits(8)} {h(record.rand_bytes(rng, rng.randrange(0, 11)))} {h(record.rand_text(rng, rng.choice([0, 5, 127, 128])).replace(bytes(1), b'x'))} {rng.uniform(-1e9, 1e9)!r}"
    if j == 1:
        return f"fix {rng.getrandbits(8)} {rng.getrandbits(8)} {h(record.rand_bytes(rng, 4))}"
    if j == 2:
        return f"xenc {rng.randrange(0, 60)} {h(bytes(rng.choice(b'&<>abc') for _ in range(rng.randrange(0, 60))))}"
    if j == 3:
        b = record.rand_bytes(rng, rng.randrange(0, 120))
        return f"h2b {rng.randrange(0, 60)} {h(bytes(rng.choice(b'0123456789abcDEF xg') for _ in range(rng.randrange(0, 160))))}"
    if j == 4:
        b = record.rand_bytes(rng, rng.randrange(0, 270))
        return f"bi {rng.randrange(0, 900)} {h(b)}"
    if j == 5:
        return f"tm {h(record.rand_bytes(rng, rng.choice([2, 4, 6, 6])))}"
    if j == 6:
        return f"dump {rng.choice([1, 2])} {h(record.rand_bytes(rng, rng.randrange(0, 262)))}"
    return f"pack {rng.randrange(0, 6)} {rng.getrandbits(8)} {rng.getrandbits(8)} {rng.getrandbits(8)} {rng.randrange(0, 270)} {h(record.rand_bytes(rng, rng.randrange(0, 253)))}"


class M01(Check):
    pid = "M01"
    reuse = False
    batch = 250
    quick_n = 2500
    thorough_n = 150000
    rule = ("a case counts by (operation, verdict, decode result class, record count); judged: no ASan/UBSan report, no signal, an answer in bounded time, "
            "for every public decoder, printer, XML and normalisation call on exactly sized heap inputs")

    def gen(self, rng, n, shard, nsh, tier):
        # every truncation of dense telegrams
        for i in range(6):
            p = nasty_payload(rng) if i % 2 else record.rand_payload(rng, 252)[0]
            for cut in range(shard, len(p) + 1, nsh):
                yield Case(f"msg {ALL} {h(frame(rng, p[:cut]))}", {})
        # empty values
        for c in ("bd -", "bd 00 -", "id -", "id 00 -", "ie 0 5", "be 0 5 0 -7", "tm -", "sd -", "bi 9 -", "dump 0 -", "dump 1 -", "dump 2 -"):
            yield Case(c, {})
        for vif in range(256):
            for e in range(shard, 256, nsh):
                if vif in (0xFD, 0xFB, 0xFC, 0xFF, 0x7C, 0xEC, 0xED) or e % 16 == shard:
                    yield Case(f"vib {vif} {h(bytes([e]))} - 1.5", {})
        for _ in range(n):
            yield Case(decode_case(rng), {})

    def judge(self, c, o, st):
        op = c.cmd.split(" ", 1)[0]
        st.inc("op_" + op)
        x = o.get("o")
        if op == "msg":
            d = x.get("dec") or {}
            st.sig("msg", x["r"] if x["r"] < 0 else min(x["r"], 3), d.get("r"), d.get("type"), d.get("nrec"), len(c.cmd) // 40)
        elif op == "chain":
            st.sig("chain", x["xml"] is None, len(x["p"]), len(c.cmd) // 100)
        else:
            st.sig(op, c.cmd[:24])
        return []


def _fuzz_job(args):
    exe, corpus, art, seed, secs, runs = args
    env = {"PATH": "/usr/bin:/bin", "TZ": "UTC", "ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"] + ":symbolize=1", "UBSAN_OPTIONS": "print_stacktrace=1"}
    cmd = [exe, corpus, f"-artifact_prefix={art}/", f"-seed={seed}", f"-max_total_time={secs}", "-timeout=25", "-max_len=620", "-rss_limit_mb=3000", "-print_final_stats=1",
           "-len_control=0", "-reload=0", "-verbosity=1"]
    if runs:
        cmd.append(f"-runs={runs}")
    try:
        p = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=secs + 120)
    except subprocess.TimeoutExpired:
        return (-1, "fuzzer did not stop", [])
    err = p.stderr.decode("latin-1")
    arts = []
    for f in sorted(os.listdir(art)):
        arts.append((f, open(os.path.join(art, f), "rb").read()))
    return (p.returncode, err, arts)


class M01Fuzz(Check):
    pid = "M01"
    reuse = False
    name = "coverage_guided"
    order = 1
    rule = "libFuzzer on the same library code: every execution of the structure-aware driver under ASan+UBSan; distinct = corpus units with distinct coverage"
    quick_s, thorough_s = 40, 900

    def run(self, tier, seed):
        exe = os.path.join(build.ensure("fuzz"), "worker")
        secs = self.quick_s if tier == "quick" else self.thorough_s
        top = tempfile.mkdtemp(prefix="vfuzz")
        try:
            jobs = []
            for j in range(core.NPROC):
                rng = random.Random(f"fuzz/{seed}/{j}")
                cd, ad = os.path.join(top, f"c{j}"), os.path.join(top, f"a{j}")
                os.mkdir(cd)
                os.mkdir(ad)
                for i in range(220):
                    k = rng.random()
                    fl = rng.choice([0, 0x20, 0x60])
                    if k < 0.3:
                        b = bytes([0x00 | fl]) + raw_bytes(rng)
                    elif k < 0.4:
                        b = bytes([0x08 | fl])
                        for _ in range(3):
                            m = rand_any(rng)[:200]
                            b += bytes([len(m)]) + m
                    elif k < 0.8:
                        b = bytes([rng.choice([3, 4, 5]) | fl]) + soup_payload(rng)
                    elif k < 0.9:
                        b = bytes([6 | fl]) + soup_payload(rng)[12:]
                    else:
                        b = bytes([11 | fl])
                        for _ in range(3):
                            m = record.rand_payload(rng, 180)[0]
                            b += bytes([len(m)]) + m
                    open(os.path.join(cd, "s%03d" % i), "wb").write(b)
                jobs.append((exe, cd, ad, (seed * 100 + j) % (1 << 31) or 1, secs, 0))
            with mp.Pool(core.NPROC) as pool:
                rs = pool.map(_fuzz_job, jobs, chunksize=1)
        finally:
            shutil.rmtree(top, ignore_errors=True)
        viols, probs = [], []
        execs = cov = units = 0
        for rc, err, arts in rs:
            m = re.findall(r"number_of_executed_units:\s*(\d+)", err)
            execs += int(m[-1]) if m else 0
            m = re.findall(r"cov: (\d+) ft: (\d+) corp: (\d+)", err)
            if m:
                cov = max(cov, int(m[-1][0]))
                units += int(m[-1][2])
            for name, data in arts:
                if name.startswith("slow-unit"):
                    continue
                c = Crash("timeout" if name.startswith("timeout") else "sanitizer", err[err.find("ERROR") - 20 if "ERROR" in err else 0:][:6000] if "runtime error" not in err else err[max(0, err.find("runtime error") - 100):][:6000])
                viols.append(("fuzz:" + c.key(), f"{name}: {c.short()}", "fuzz " + data.hex(), {}))
            if rc != 0 and not arts:
                probs.append("fuzzer failed: " + err[-300:])
        return {"evaluations": execs, "distinct_nontrivial": units, "rule": self.rule, "samples": [], "edges_covered": cov, "seconds_per_job": secs}, viols, probs

    def do_replay(self, path):
        rec = json.load(open(path))
        if not rec["cmd"].startswith("fuzz "):
            return core.replay(M01(), path)
        exe = os.path.join(build.ensure("fuzz"), "worker")
        with tempfile.NamedTemporaryFile() as f:
            f.write(bytes.fromhex(rec["cmd"][5:]))
            f.flush()
            p = subprocess.run([exe, f.name], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL)
            print(p.stderr.decode("latin-1")[:3000])
            return 1 if p.returncode else 0


# keep the structured check's own replay apart from the fuzzer's
M01.do_replay = lambda self, path: 0 if json.load(open(path))["cmd"].startswith("fuzz ") else core.replay(self, path)


# ------------------------------------------------------------------------------------------ M02
class M02(M01):
    pid = "M02"
    flavour = "msan"
    quick_n = 1500
    thorough_n = 80000
    do_replay = None
    rule = ("a case counts by (operation, verdict, decode result class, record count); judged: no MemorySanitizer report at any branch of the library or at "
            "the observation of any result byte")

    def judge(self, c, o, st):
        return M01.judge(self, c, o, st)


del M02.do_replay


class M02Fill(Check):
    """The same workload with freshly allocated memory filled with three different patterns."""
    pid = "M02"
    name = "fill_patterns"
    order = 1
    rule = "each case is executed three times with malloc memory pre-filled with 00, A5 and FF; the complete observations must be identical"
    quick_n, thorough_n = 900, 40000

    def run(self, tier, seed):
        exe = os.path.join(build.ensure("asan"), "worker")
        n = self.quick_n * core.QUICK_SCALE if tier == "quick" else self.thorough_n
        with mp.Pool(core.NPROC) as pool:
            rs = pool.map(_fill_job, [(exe, seed, j, n) for j in range(core.NPROC)], chunksize=1)
        ev = sum(r[0] for r in rs)
        sigs = set().union(*[r[1] for r in rs])
        viols = [v for r in rs for v in r[2]]
        return {"evaluations": ev * 3, "distinct_nontrivial": len(sigs), "rule": self.rule, "samples": []}, viols, []

    def do_replay(self, path):
        rec = json.load(open(path))
        exe = os.path.join(build.ensure("asan"), "worker")
        outs = [core.run_worker(exe, [rec["cmd"]], env_extra={"ASAN_OPTIONS": FILL % b})[0] for b in (0, 0xA5, 0xFF)]
        for o in outs:
            print(o.text if isinstance(o, Crash) else json.dumps(o)[:2000])
        return 1 if len({o.key() if isinstance(o, Crash) else json.dumps(o) for o in outs}) > 1 else 0


class M02Soak(Check):
    """The same call again and again in one process: past every 8 and 16 bit count of calls the answer is still the same."""
    pid = "M02"
    name = "soak"
    order = 2
    batch = 2
    reuse = False
    quick_n = 3
    thorough_n = 40
    rule = "a case counts by (operation, verdict); judged: 66 000 repetitions of a parse, 2 500 of a full decoding or session give one and the same observation"

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n * 4):
            k = rng.random()
            m = rand_tel(rng)
            while len(m) > 100:
                m = rand_tel(rng)
            if i % 3 == 0:
                m = rng.choice([m, wire.ack(), wire.short(0x5B, 1), wire.mutate(rng, m) or b"\0"])
                yield Case(f"rep 66000 msg v {h(m)}", {"k": "parse"})
            elif i % 3 == 1:
                yield Case(f"rep {2500 if k < 0.7 else 300} msg {'das' if k < 0.7 else 'daxnNskip'} {h(m)}", {"k": "decode"})
            else:
                yield Case(f"rep 600 {session_case(rng)}", {"k": "session"})

    def judge(self, c, o, st):
        st.inc("repetitions", o["n"])
        st.sig(c.ctx["k"], len(c.cmd))
        if "dev" in o:
            a, b = strip(o["x"]), strip(o["dev"])
            i = next((i for i, (p, q) in enumerate(zip(a, b)) if p != q), 0)
            return [Viol("repetition-" + c.ctx["k"], f"repetition {o['n']} answers differently: ...{a[max(0, i - 60):i + 60]} / ...{b[max(0, i - 60):i + 60]}")]
        return []


FILL = ":max_malloc_fill_size=65536:malloc_fill_byte=%d:max_free_fill_size=65536:free_fill_byte=119"


def strip(o):
    return json.dumps(o, sort_keys=True)


def _fill_job(a):
    exe, seed, j, n = a
    rng = random.Random(f"fill/{seed}/{j}")
    viols, sigs, ev = [], set(), 0
    while ev < n:
        cmds = []
        while len(cmds) < 300:
            k = rng.random()
            cmds.append(decode_case(rng) if k < 0.85 else session_case(rng))
        outs = [core.run_worker(exe, cmds, env_extra={"ASAN_OPTIONS": FILL % b}) for b in (0, 0xA5, 0xFF)]
        for c, x, y, z in zip(cmds, *outs):
            ev += 1
            if any(isinstance(q, Crash) or q is None for q in (x, y, z)):
                continue        # crashes are M01's
            sx = strip(x)
            sigs.add(hash(sx[:200]))
            if not sx == strip(y) == strip(z):
                d = next(q for q in (y, z) if strip(q) != sx)
                sy = strip(d)
                i = next((i for i, (p, q) in enumerate(zip(sx, sy)) if p != q), 0)
                viols.append(("uninitialised-result:" + c.split()[0], f"results differ with the fill pattern of fresh memory: ...{sx[max(0, i - 60):i + 60]} / ...{sy[max(0, i - 60):i + 60]}", c, {}))
    return ev, sigs, viols[:20]


# ------------------------------------------------------------------------------------------ sessions for M02-M04
def sec(rng):
    return ("%08d" % rng.randrange(10 ** 8) + "%08X" % rng.getrandbits(32)).encode()


def reply_items(rng):
    """One scripted answer."""
    k = rng.random()
    if k < 0.25:
        return "de5"
    if k < 0.55:
        return "d" + h(rand_tel(rng))
    if k < 0.65:
        return "a"
    if k < 0.75:
        m = wire.mutate(rng, rand_tel(rng)) or b"\0"
        return "d" + h(m) + ",a"
    if k < 0.8:
        m = rand_tel(rng)
        return "d" + h(m[:rng.randrange(1, len(m))]) + rng.choice([",a", ",z", ",e104", ",e5"])
    if k < 0.85:
        return rng.choice(["z", "e104", "e5", "i,a", "e11"])
    if k < 0.95:
        m = rand_tel(rng)
        c = rng.randrange(1, len(m))
        return f"d{h(m[:c])},d{h(m[c:])}"
    return "de5,d" + h(rand_tel(rng))


def any_sec(rng):
    """A secondary address, now and then one that must be refused."""
    s = bytearray(sec(rng))
    if rng.random() < .12:
        k = rng.randrange(3)
        if k == 0:
            s = s[:rng.randrange(1, 16)]
        elif k == 1:
            s += b"0" * rng.randrange(1, 9)
        else:
            s[rng.randrange(16)] = rng.choice(b"GgxX -/:@`\x80\xff")
    return bytes(s)


def any_addr(rng):
    return str(rng.choice([256, -1, 511, 65536, -2147483648, 2147483647]) if rng.random() < .12 else rng.randrange(256))


def session_case(rng, faults=True):
    tcp = rng.random() < 0.5
    t = ["ses"]
    if faults and rng.random() < 0.1:
        t += ["fault", rng.choice(["socket", "connect", "setsockopt", "open", "tcsetattr", "tcgetattr", "getaddrinfo"]), str(rng.randrange(1, 3)), rng.choice(["5", "111", "12"])]
    if rng.random() < 0.05:
        t += ["gai", "2"]
    t += ["ctx", "tcp" if tcp else "ser", "10001" if tcp else "/dev/ttyV"]
    if rng.random() < 0.3:
        t += ["cb", str(rng.randrange(8))]
    t += ["conn"]
    for o in (0, 1, 2):
        if rng.random() < 0.3:
            t += ["opt", str(o), str(rng.randrange(0, 4))]
    for _ in range(rng.randrange(1, 4)):
        n = rng.randrange(0, 5)
        for _ in range(n):
            t += ["rep", reply_items(rng)]
        if rng.random() < 0.1:
            t += ["wr", rng.choice(["s1", "s0", "e32", "e5", "e11"])]
        op = rng.randrange(16)
        if op == 0:
            t += ["req", any_addr(rng), "0", str(rng.randrange(0, 5))]
        elif op == 1:
            t += ["req", "1", "1", "16"]
        elif op == 2:
            t += ["ping", any_addr(rng), str(rng.randrange(2))]
        elif op == 3:
            t += ["sel", h(any_sec(rng))]
        elif op == 4:
            t += ["probe", h(any_sec(rng))]
        elif op == 5:
            t += ["rsp", any_addr(rng), "2"]
        elif op == 6:
            t += ["rss", h(any_sec(rng)), "3"]
        elif op == 7:
            t += ["rx", reply_items(rng), "recv", "4", "ffree", "4"]
        elif op == 8:
            t += ["rx", reply_items(rng), "purge"]
        elif op == 9:
            s = bytearray(b"F" * 16)
            for i in range(8):
                if rng.random() < 0.9:
                    s[i] = 48 + rng.randrange(10)
            t += ["scan", "0", h(bytes(s))]
        elif op == 10:
            t += ["sud", any_addr(rng), h(record.rand_bytes(rng, rng.randrange(1, 40))), rng.choice("00012")]
        elif op == 11:
            t += ["appreset", any_addr(rng), str(rng.randrange(-2, 20))]
        elif op == 12:
            t += ["baud", any_addr(rng), str(rng.choice([300, 600, 1200, 2400, 4800, 9600, 19200, 38400, 0, 57600, -1]))]
        elif op == 13:
            t += ["selsend", h(any_sec(rng))]
        elif op == 14:
            t += ["reqf", any_addr(rng)]
        else:
            t += ["setaddr", any_addr(rng), str(rng.randrange(-2, 260))]
        for i in (0, 1, 2, 3):
            if str(i) in t[-8:]:
                t += ["ffree", str(i)]      # a chained readout is released before the object is used again
    t += ["ffree", "0", "ffree", "1", "ffree", "2", "ffree", "3", "disc", "free"]
    return " ".join(t)


class M02Ses(Check):
    pid = "M02"
    reuse = False
    name = "sessions"
    order = 2
    flavour = "msan"
    batch = 250
    quick_n = 800
    thorough_n = 40000
    rule = "a virtual bus session counts by its sequence of results; judged: no MemorySanitizer report"

    def gen(self, rng, n, shard, nsh, tier):
        for _ in range(n):
            yield Case(session_case(rng), {})

    def judge(self, c, o, st):
        st.sig([e[1:] for e in o["ev"] if e[0] == "ret"])
        return []


# ------------------------------------------------------------------------------------------ M03
class M03(Check):
    pid = "M03"
    reuse = False
    batch = 250
    quick_n = 2500
    thorough_n = 120000
    rule = ("an operation counts by (operation, result class); judged: number of live library allocations, descriptors and address lists is the same "
            "after the documented releases as before, and nothing is freed twice (ASan)")

    def gen(self, rng, n, shard, nsh, tier):
        if shard == 0:                  # a readout without a limit from a slave that does not stop
            for k in (1, 2, 1000, 400000):
                yield Case(f"longchain 68101068080072345678904f1a0102000000001f9716 {k}", {"k": "dec"})
        for i in range(n):
            k = rng.random()
            if k < 0.45:
                yield Case(decode_case(rng), {"k": "dec"})
            else:
                yield Case(session_case(rng), {"k": "ses"})

    def judge(self, c, o, st):
        op = c.cmd.split(" ", 1)[0]
        st.inc("op_" + op)
        if op == "ses":
            rets = [e[1:3] for e in o["ev"] if e[0] == "ret"]
            st.sig("ses", [(a, b if isinstance(b, int) else None) for a, b in rets])
            st.inc("sessions_with_data" if any(a in ("req", "rsp", "rss") and b == 0 for a, b in rets) else "sessions_without_data")
            last = next((a for a, b in rets[::-1] if a not in ("disc", "ffree", "free")), "?")
            if any(e[0] == "runaway" for e in o["ev"]):
                st.inc("not_judged_runaway")        # M05's
                return []
            ops = sorted({a for a, b in rets} - {"conn", "disc", "ctx", "opt", "ffree", "free", "recv"})
            if o["bal"] != 0:
                return [Viol("leak-session", f"{o['bal']} allocations left after a session of {ops}: {rets}")]
            return []
        if o["bal"] != 0:
            x = o.get("o")
            return [Viol("leak-" + op, f"{o['bal']} allocations left after {c.cmd[:200]}")]
        x = o["o"]
        st.sig(op, str(x)[:60])
        return []


# ------------------------------------------------------------------------------------------ M04
def oom_cases(rng):
    """Representative operations, small enough to fail each of their allocations in turn."""
    T = lambda recs, tail=None, **kw: frame(rng, record.rand_header(rng) + b"".join(r.encode() for r in recs))
    out = []
    texts_ = [Rec(0x0D, vif=0x79, data=b"\x05hello"), Rec(0x04, vif=0x13, data=b"\1\2\3\4"), Rec(0x02, vif=0x6C, data=b"\x81\x11"),
              Rec(0x04, vif=0x6D, data=b"\x01\x02\x81\x11"), Rec(0x05, vif=0x2B, data=b"\0\0\x80\x3f"), Rec(0x01, vif=0x7C, cust=b"unit", data=b"\x05"),
              Rec(0x0C, vif=0xFD, vife=b"\x48", data=b"\x12\x34\x56\x78"), Rec(0x1F, data=b"\1\2\3"), Rec(0x0F, data=b"\1\2\3"), Rec(0x00, vif=0x13)]
    for r in texts_:
        out.append(f"msg vdanmxzNski {h(T([r]))}")
    out.append(f"msg vdanmxzNski {h(T([r for r in texts_ if not r.special][:rng.randrange(2, 9)]))}")
    out.append(f"msg daxnNz {h(frame(rng, small_payload(rng)))}")
    out.append(f"msg daxnNz {h(frame(rng, nasty_payload(rng)))}")
    out.append(f"msg vdaxnNzi {h(frame(rng, record.rand_bytes(rng, 16), 0x73))}")
    out.append(f"msg vdaxnNzi {h(frame(rng, b'x', 0x70))}")
    out.append(f"msg vdaxnNz {h(frame(rng, record.rand_payload(rng, 200)[0]))}")
    out.append(f"msg vdaxnNz {h(frame(rng, record.rand_payload(rng, 200)[0][:-1]))}")
    out.append("chain " + " ".join(h(rand_tel(rng)) for _ in range(3)))
    out.append(f"vib {rng.getrandbits(8)} 10 6162 5")
    out.append("vib 252 74 6162 5")
    out.append(f"fix {rng.getrandbits(8)} {rng.getrandbits(8)} 12345678")
    for _ in range(12):
        out.append(session_case(rng, faults=False))
    v = h(frame(rng, record.rand_payload(rng, 60, tail=0x1F)[0]))
    v2 = h(frame(rng, record.rand_header(rng) + b"\x01\x13\x05"))
    for cx in ("ctx tcp 10001", "ctx ser /dev/ttyV"):
        out.append(f"ses {cx} conn rep de5 rep d{v} rep d{v2} req 1 0 16 ffree 0 disc free")
        out.append(f"ses {cx} cb 7 conn rep de5 rep d{v} rep d{v2} rss {h(sec(rng))} 0 ffree 0 disc free")
        out.append(f"ses {cx} cb 7 conn rep de5 rep d{v2} probe {h(sec(rng))} disc free")
        out.append(f"ses {cx} conn sud 1 0102 0 ping 1 1 appreset 1 -1 baud 1 2400 setaddr 1 2 selsend {h(sec(rng))} disc free")
        out.append(f"ses {cx} conn rep de5 rep d{v2} scan 6 {h(b'123456FFFFFFFFFF')} disc free")
    return out


REC = re.compile(r"<DataRecord[^>]*>.*?</DataRecord>", re.S)
EMPTY = re.compile(r"<DataRecord[^>]*>\s*</DataRecord>")


def same_but_empty_records(a, b):
    """Two hex documents: equal, except that b may lack the content of records it could not normalise."""
    a, b = bytes.fromhex(a).decode("latin-1"), bytes.fromhex(b).decode("latin-1")
    ra, rb = REC.findall(a), REC.findall(b)
    return len(ra) == len(rb) and REC.sub("", a) == REC.sub("", b) and all(x == y or EMPTY.fullmatch(y) for x, y in zip(ra, rb))


def complete_or_failed(base, got, path=""):
    """None when every part of got is the fault-free value, an explicit failure or an explicit absence; else a description."""
    if base == got or got is None:
        return None
    if got == "nomem" or (isinstance(got, int) and got == -99):
        return None             # the worker could not build the object it needed
    if path.endswith("/ok") and got == 0:
        return None
    if path.endswith("/nxml") and isinstance(base, str) and isinstance(got, str) and same_but_empty_records(base, got):
        return None
    if path.endswith(("/vd", "/xml", "/p")) and isinstance(got, list) and got and isinstance(got[0], int) and got[0] < 0:
        return None             # return value of a decoder: failure
    if isinstance(base, dict) and isinstance(got, dict):
        r = got.get("r")
        if isinstance(r, int) and r < 0 and base.get("r") != r:
            return None
        chain_short = path == "" and isinstance(got.get("p"), list) and got["p"] != base.get("p")
        for k in base:
            if k not in got or (chain_short and k in ("xml", "ok")):
                continue        # (a chain that was not fed the same telegrams is another document)
            e = complete_or_failed(base[k], got[k], path + "/" + str(k))
            if e:
                return e
        return None
    if isinstance(base, list) and isinstance(got, list):
        if len(base) == len(got):
            for i, (a, b) in enumerate(zip(base, got)):
                e = complete_or_failed(a, b, f"{path}[{i}]")
                if e:
                    return e
            return None
    if isinstance(got, int) and (got < 0) and path.endswith(("/r", "/hdr")):
        return None
    return f"{path}: {str(base)[:120]} became {str(got)[:120]}"


def _oom_job(a):
    exe, seed, j, rounds = a
    rng = random.Random(f"oom/{seed}/{j}")
    st = Stats()
    for _ in range(rounds):
        base = oom_cases(rng)
        outs = core.run_worker(exe, [f"oom 0 0 {c}" for c in base])
        cmds, refs = [], []
        for c, o in zip(base, outs):
            if o is None or isinstance(o, Crash):
                continue
            n = o["n"]
            st.inc("allocations_in_base_runs", n)
            ks = list(range(1, n + 1)) if n <= 60 else sorted(set(list(range(1, 31)) + rng.sample(range(1, n + 1), 30)))
            for k in ks:
                for sticky in (0, 1):
                    cmds.append(f"oom {k} {sticky} {c}")
                    refs.append(o["x"])
        outs = core.run_worker(exe, cmds)
        for c, b, o in zip(cmds, refs, outs):
            if o is None:
                continue
            st.eval += 1
            op = c.split()[3]
            if isinstance(o, Crash):
                st.viols.append(("crash:" + o.key(), f"crash when an allocation fails: {o.key()}: {o.short()}", c, {}))
                continue
            x = o["x"]
            st.inc("faults_injected", 1 if o["hit"] else 0)
            st.sig(op, c.split()[1:3], str(x)[:80])
            if x.get("bal"):
                st.viols.append(("leak-" + op, f"{x['bal']} allocations left after a failed allocation in {c[:160]}", c, {}))
            if op != "ses":
                e = complete_or_failed(b.get("o"), x.get("o"))
                if e:
                    st.viols.append(("partial-result-" + op + re.sub(r"\[\d+\]", "[]", e.split(":")[0]), f"incomplete result presented as a result: {e}", c, {}))
            else:
                if x.get("fds"):
                    st.viols.append(("fd-leak", f"descriptor left open after a failed allocation: {c[:160]}", c, {}))
    return st


class M04(Check):
    pid = "M04"
    reuse = False
    rule = ("a fault counts by (operation, index of the failing allocation, single or permanent, result); judged: no crash, no leak, and every result is "
            "the fault-free one or an explicit failure; every allocation index of each operation is enumerated (60 indices for large ones)")

    def run(self, tier, seed):
        exe = os.path.join(build.ensure("asan"), "worker")
        rounds = 12 if tier == "quick" else 400
        with mp.Pool(core.NPROC) as pool:
            rs = pool.map(_oom_job, [(exe, seed, j, rounds) for j in range(core.NPROC)], chunksize=1)
        tot = Stats()
        for r in rs:
            tot.eval += r.eval
            tot.sigs |= r.sigs
            tot.viols += r.viols
            for k, v in r.count.items():
                tot.inc(k, v)
        return ({"evaluations": tot.eval, "distinct_nontrivial": len(tot.sigs), "rule": self.rule, "samples": [], "counts": tot.count}, tot.viols,
                [] if tot.count.get("faults_injected", 0) > 500 or tot.viols else ["too few faults injected"])

    def do_replay(self, path):
        rec = json.load(open(path))
        exe = os.path.join(build.ensure("asan"), "worker")
        c = rec["cmd"]
        base, o = core.run_worker(exe, [re.sub(r"^oom \d+ \d+", "oom 0 0", c)])[0], core.run_worker(exe, [c])[0]
        print("without fault:", str(base)[:1500])
        print("with fault:", o.text[:3000] if isinstance(o, Crash) else str(o)[:1500])
        op = c.split()[3]
        bad = isinstance(o, Crash) or o["x"].get("bal") or (op == "ses" and o["x"].get("fds")) or (op != "ses" and complete_or_failed(base["x"].get("o"), o["x"].get("o")))
        print("REPRODUCED" if bad else "not reproduced", bad if isinstance(bad, str) else "")
        return 1 if bad else 0
