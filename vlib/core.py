"""Check engine: generators produce cases, workers execute them against the real library,
oracles judge the observations; evidence, replay files and known findings are handled here."""
import argparse, hashlib, json, multiprocessing as mp, os, random, re, resource, subprocess, sys, tempfile, time, traceback

from . import build

ROOT = build.ROOT
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
NPROC = 8
QUICK_SCALE = 4      # the per-class quick_n are sized for about one second on 8 cores


class HarnessError(Exception):
    """Something is wrong with the machinery (never reported as a violation)."""


class Crash:
    """The worker died while executing a command."""

    def __init__(self, kind, text):
        self.kind = kind          # 'sanitizer', 'signal', 'timeout', 'exit'
        self.text = text

    def key(self):
        """A stable short identification: error kind + innermost library function."""
        t = self.text
        m = re.search(r"(AddressSanitizer|MemorySanitizer|LeakSanitizer): ([A-Za-z-]+)", t) or \
            re.search(r"runtime error: ([a-z ]+)", t)
        what = m.group(m.lastindex) if m else self.kind
        fn = ""
        for m in re.finditer(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", t):
            if "/mbus/" in m.group(2) or "/bin/" in m.group(2):
                fn = m.group(1)
                break
        return f"{what.strip()} in {fn}" if fn else f"{self.kind}:{what.strip()}"

    def short(self):
        lines = [l for l in self.text.splitlines() if l.strip()]
        return " | ".join(lines[:6])[:900]


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1:"
                    "handle_abort=1:strict_string_checks=1:detect_odr_violation=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77",
    "MSAN_OPTIONS": "exitcode=77",
}


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run_worker(exe, cmds, timeout=None, env_extra=None):
    """Run commands; returns a list with one parsed observation or Crash per command.
    After a crash the worker is restarted behind the crashing command (at most 25 times)."""
    res = []
    tmp = tempfile.mkdtemp(prefix="vw")
    crashes = 0
    timeout = timeout or 60 + len(cmds) * 0.05
    try:
        while len(res) < len(cmds):
            rest = cmds[len(res):]
            fi, fo, fl = (os.path.join(tmp, n) for n in ("in", "out", "san"))
            with open(fi, "w") as f:
                f.write("\n".join(rest) + "\n")
            for n in os.listdir(tmp):
                if n.startswith("san") or n == "out":
                    os.unlink(os.path.join(tmp, n))
            env = {"PATH": "/usr/bin:/bin", "TZ": "XST-5:45", "LC_ALL": "C"}
            for k, v in SAN_ENV.items():
                env[k] = v + f":log_path={fl}"
            if env_extra:
                for k, v in env_extra.items():
                    env[k] = env.get(k, "") + v
            to = False
            try:
                p = subprocess.run([exe, fi, fo], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                   stderr=subprocess.DEVNULL, timeout=timeout, preexec_fn=_limits)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                to, rc = True, None
            lines = []
            if os.path.exists(fo):
                with open(fo, "rb") as f:
                    raw = f.read().split(b"\n")
                lines = raw[:-1]            # an incomplete last line is dropped
            for l in lines:
                res.append(json.loads(l))
            if rc == 0 and len(lines) == len(rest):
                break
            text = ""
            for n in sorted(os.listdir(tmp)):
                if n.startswith("san"):
                    text += open(os.path.join(tmp, n), errors="replace").read()
            if to:
                if len(rest) == 1 or timeout <= 30:
                    res.append(Crash("timeout", f"no answer within {timeout:.0f} s"))
                    crashes += 1
                else:
                    timeout = 30           # isolate the command that does not return
                    if lines:
                        continue
                    one = run_worker(exe, rest[:1], 30, env_extra)
                    res.extend(one)
                    crashes += isinstance(one[0], Crash)
                    timeout = 60 + len(cmds) * 0.05
            elif rc in (96, 97, 98, 99):
                raise HarnessError(f"worker exit {rc} at {rest[len(lines)][:200] if len(lines) < len(rest) else '?'}")
            elif len(lines) >= len(rest):
                raise HarnessError(f"worker ended with {rc} after the last command: {text[:500]}")
            else:
                kind = "sanitizer" if text else ("signal" if rc < 0 else "exit")
                res.append(Crash(kind, text or f"exit status {rc}"))
                crashes += 1
            if crashes >= 25:
                res.extend([None] * (len(cmds) - len(res)))
                break
        return res
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)


class Case:
    __slots__ = ("cmd", "ctx")

    def __init__(self, cmd, ctx=None):
        self.cmd = cmd
        self.ctx = ctx or {}


class Viol:
    def __init__(self, key, msg):
        self.key, self.msg = key, msg


class Check:
    """Base class.  Subclasses define pid, flavour, sizes and gen()/judge()."""
    pid = None
    flavour = "asan"
    optional_build = False     # True: the check is skipped when its flavour does not compile
    batch = 2000
    quick_n = 4000        # cases per shard
    thorough_n = 60000
    shards = NPROC
    rule = ""
    assumptions = []
    crash_is_violation = True
    env_extra = None
    reuse = True            # every second batch: freed memory is handed out again at once

    def gen(self, rng, n, shard, nshards, tier):
        """Yield n-ish cases of this shard."""
        raise NotImplementedError

    def judge(self, case, out, st):
        """Return a list of Viol; st is this shard's Stats."""
        raise NotImplementedError

    def extra(self, st, tier):
        return {}

    def finish(self, stats, tier):
        """Coverage sanity: return a list of strings if the run did not observe enough."""
        return []


class Stats:
    def __init__(self):
        self.eval = 0
        self.sigs = set()
        self.count = {}
        self.samples = []
        self.viols = []

    def sig(self, *a):
        self.sigs.add(hashlib.blake2b(repr(a).encode(), digest_size=8).digest())

    def inc(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n


def _shard(args):
    chk, exe, seed, shard, nshards, tier, n = args
    st = Stats()
    try:
        rng = random.Random(f"{seed}/{chk.pid}/{shard}")
        buf = []
        nb = shard

        def flush():
            nonlocal nb
            if not buf:
                return
            env = dict(chk.env_extra or {})
            nb += 1
            if chk.reuse and nb % 2:
                env["ASAN_OPTIONS"] = env.get("ASAN_OPTIONS", "") + ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
            outs = run_worker(exe, [c.cmd for c in buf], env_extra=env)
            for c, o in zip(buf, outs):
                if o is None:
                    st.inc("skipped_after_crashes")
                    continue
                st.eval += 1
                vs = judge_one(chk, c, o, st)
                for v in vs:
                    if len(st.viols) < 60:
                        st.viols.append((v.key, v.msg, c.cmd, c.ctx))
                    st.inc("violating_observations")
                if len(st.samples) < 2 and not vs and not isinstance(o, Crash):
                    st.samples.append({"case": c.cmd[:400], "observed": json.dumps(o)[:400]})
            buf.clear()

        for c in chk.gen(rng, n, shard, nshards, tier):
            buf.append(c)
            if len(buf) >= chk.batch:
                flush()
        flush()
        return ("ok", st)
    except Exception:
        return ("err", traceback.format_exc())


def judge_one(chk, c, o, st):
    if isinstance(o, Crash):
        st.inc("crashes")
        if o.kind == "exit" and not o.text.strip().startswith("exit status"):
            pass
        if chk.crash_is_violation:
            return [Viol("crash:" + o.key(), f"library crashed: {o.key()}: {o.short()}")]
        st.inc("crashed_cases_not_judged_here")
        return []
    try:
        return chk.judge(c, o, st)
    except Exception as e:      # what came back does not even have the shape of an answer
        st.inc("unreadable")
        return [Viol("unreadable:" + type(e).__name__, "the observation cannot be interpreted: " + traceback.format_exc()[-400:])]


# ------------------------------------------------------------------ known findings
def load_known():
    """Lines: '<property> <key-regex> # text'; lines starting with 'fixed:' or '#' suppress nothing."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.rstrip("\n")
            if not l.strip() or l.startswith("#") or l.startswith("fixed:"):
                continue
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if not m:
                raise HarnessError("bad line in KNOWN_FINDINGS.txt: " + l)
            out.append((m.group(1), m.group(2), m.group(3)))
    return out


def write_replay(pid, i, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    p = os.path.join(REPLAYS, f"{pid}-{i}.json")
    with open(p, "w") as f:
        json.dump(rec, f, indent=1)
    return p


def report(pid, tier, seed, level, coverage, viols, t0, assumptions, harness_problems):
    """viols: list of (key,msg,cmd,ctx). Prints the outcome lines, writes evidence, returns the exit code."""
    known = [(k, t) for p, k, t in load_known() if p == pid]
    seen_known, fresh = {}, {}
    for key, msg, cmd, ctx in viols:
        for k, t in known:
            if key == k:
                seen_known[k] = t
                break
        else:
            fresh.setdefault(key, (msg, cmd, ctx))
    for k, t in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={pid} {t}")
    out = []
    for i, (key, (msg, cmd, ctx)) in enumerate(sorted(fresh.items())[:10]):
        p = write_replay(pid, i, {"property": pid, "key": key, "message": msg, "cmd": cmd, "ctx": ctx, "seed": seed, "tier": tier})
        print(f"VIOLATION property={pid} replay={p}")
        print(f"  {key}: {msg[:600]}")
        out.append({"key": key, "message": msg[:600], "replay": p})
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
          "wall_s": round(time.time() - t0, 2), "assumptions": assumptions, "violations": out,
          "known_findings_seen": sorted(seen_known)}
    tmp = os.path.join(EVID, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{pid}.json"))
    if fresh:
        return 1
    if harness_problems:
        for h in harness_problems:
            print("INCONCLUSIVE:", h)
        return 3
    print(f"OK property={pid} evaluations={coverage.get('evaluations')} distinct={coverage.get('distinct_nontrivial')} wall={ev['wall_s']}s")
    return 0


def run_check(chk, tier, seed, level, t0=None):
    t0 = t0 or time.time()
    try:
        exe = os.path.join(build.ensure(chk.flavour), "worker")
    except build.BuildError as e:
        if not chk.optional_build:
            raise
        # code this host never compiles: without it there is nothing to observe
        print("NOTE: build option not available:", str(e).split("\n")[0][:120])
        return {"evaluations": 0, "distinct_nontrivial": 0, "rule": chk.rule, "samples": [], "counts": {"build_unavailable": 1}, "shards": 0}, [], []
    n = chk.quick_n * QUICK_SCALE if tier == "quick" else chk.thorough_n
    jobs = [(chk, exe, seed, i, chk.shards, tier, n) for i in range(chk.shards)]
    with mp.Pool(NPROC) as pool:
        rs = pool.map(_shard, jobs, chunksize=1)
    tot = Stats()
    for kind, r in rs:
        if kind == "err":
            raise HarnessError(r)
        tot.eval += r.eval
        tot.sigs |= r.sigs
        for k, v in r.count.items():
            tot.count[k] = tot.count.get(k, 0) + v
        tot.samples += r.samples
        tot.viols += r.viols
    cov = {"evaluations": tot.eval, "distinct_nontrivial": len(tot.sigs), "rule": chk.rule,
           "samples": tot.samples[:4], "counts": dict(sorted(tot.count.items())), "shards": chk.shards}
    cov.update(chk.extra(tot, tier))
    probs = chk.finish(tot, tier)
    if tot.eval == 0:
        probs = probs + ["nothing was executed"]
    return cov, tot.viols, probs


def replay(chk, path):
    rec = json.load(open(path))
    exe = os.path.join(build.ensure(chk.flavour), "worker")
    c = Case(rec["cmd"], rec["ctx"])
    o = run_worker(exe, [c.cmd], env_extra=chk.env_extra)[0]
    vs = judge_one(chk, c, o, Stats())
    for v in vs:
        print("REPRODUCED", v.key, v.msg)
    if isinstance(o, Crash):
        print(o.text[:3000])
    else:
        print(json.dumps(o)[:3000])
    return 1 if vs else 0
