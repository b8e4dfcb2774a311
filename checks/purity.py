"""P01, O01, H01: what must not influence what - views and data, diagnostics and results, handle and handle."""
import json
from model import wire, record
from vlib.core import Check, Case, Viol
from checks.link import h
from checks.vardata import frame
from checks.xmlout import rand_tel
from checks.memory import rand_any, raw_bytes, session_case, decode_case, ALL

VIEWS = "VTZSPKXNDHYAnmI"
NAMES = {"V": "mbus_frame_verify", "T": "mbus_frame_type/direction", "Z": "mbus_frame_xml", "S": "mbus_frame_get_secondary_address", "P": "mbus_frame_print",
         "K": "mbus_frame_pack", "X": "mbus_frame_data_xml", "N": "mbus_frame_data_xml_normalized", "D": "mbus_frame_data_print",
         "H": "mbus_data_variable_header_print", "Y": "mbus_frame_data_parse", "A": "record accessors", "n": "mbus_parse_variable_record",
         "m": "mbus_variable_value_decode", "I": "mbus_frame_internal_pack"}


# ------------------------------------------------------------------------------------------ P01
class P01(Check):
    pid = "P01"
    batch = 120
    quick_n = 500
    thorough_n = 30000
    rule = ("a telegram counts by (order of the views, kind of telegram); judged: each view leaves every field of the frame and of its decoded data "
            "unchanged and shows the same thing each time it is asked, whatever was viewed before")

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n):
            t = rand_tel(rng) if rng.random() < 0.7 else rand_any(rng)
            a = list(VIEWS)
            rng.shuffle(a)
            b = [rng.choice(VIEWS) for _ in range(rng.randrange(4, 16))]
            if rng.random() < 0.3:
                v = rng.choice(VIEWS)
                b += [v] * 3
            c = list(VIEWS)
            rng.shuffle(c)
            ops = "".join(a + b + c)
            # the reference: each view asked for on an object of its own
            yield Case(f"seq views {ops} {h(t)} ;; " + " ;; ".join(f"views {v} {h(t)}" for v in VIEWS), {"ops": ops})

    def judge(self, c, o, st):
        vs = []
        o = [x["o"] for x in o["o"]]
        if o[0]["r"] != 0:
            st.inc("rejected")
            return vs
        st.inc("viewed")
        alone = {v: x["v"][0][1] for v, x in zip(VIEWS, o[1:]) if x["v"]}
        st.sig(c.ctx["ops"][:6], str(alone.get("T")), alone.get("Y"), str(alone.get("A"))[:30])
        prev = ""
        for op, out, fu, du in o[0]["v"]:
            st.inc("views")
            if not fu:
                vs.append(Viol("frame-changed-" + op, f"{NAMES[op]} changed the frame it was given"))
            if not du:
                vs.append(Viol("data-changed-" + op, f"{NAMES[op]} changed the decoded data"))
            if op in alone and out != alone[op]:
                vs.append(Viol("view-differs-" + op, f"after {[NAMES[x] for x in prev[-4:]]} {NAMES[op]} shows {str(out)[:160]}, on its own {str(alone[op])[:160]}"))
            prev += op
        return vs[:4]

    def finish(self, s, tier):
        return [] if s.count.get("viewed", 0) > 100 else ["too few telegrams were viewed"]


# ------------------------------------------------------------------------------------------ O01
class O01(Check):
    """Debug output and results."""
    pid = "O01"
    batch = 200
    quick_n = 900
    thorough_n = 40000
    rule = ("a message counts by (verdict, result classes); judged: every result is the same with and without debug output; every failure of parse, decode, "
            "XML, verify and address leaves an error text of its own, of bounded length, and a reset clears it")

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n):
            k = rng.random()
            if k < 0.4:
                m = raw_bytes(rng) if rng.random() < 0.3 else rand_any(rng)
                yield Case(f"seq msg {ALL} {h(m)} ;; msg D{ALL} {h(m)} ;; msg {ALL} {h(m)}", {"k": "msg"})
            elif k < 0.7:
                s = session_case(rng)
                body = s.split(" ", 1)[1]
                yield Case(f"seq ses {body} ;; ses deb 1 {body} deb 0 ;; ses {body}", {"k": "ses"})
            else:
                m = raw_bytes(rng) if rng.random() < 0.5 else rand_any(rng)
                yield Case(f"errs {h(m)} {rng.randrange(0, 300)}", {"k": "err"})

    def judge(self, c, o, st):
        vs = []
        k = c.ctx["k"]
        if k == "err":
            o = o["o"]
            st.sig([(a, b) for a, b, t in o])
            for what, r, t in o:
                text = bytes.fromhex(t).decode("latin-1") if t else ""
                if what in ("set", "set2", "reset"):
                    if what == "set" and r or what == "set2" and text != "a message" or what == "reset" and text != "no errors":
                        vs.append(Viol("error-text-" + what, f"mbus_error_str_set/reset: {what} leaves {text!r}, {r}"))
                    continue
                # pack reports by its result alone; a positive parse result asks for more
                if r < 0 and what != "pack":
                    st.inc("failures_" + what)
                    if text in ("", "no errors"):
                        vs.append(Viol("no-error-text-" + what, f"{what} failed with {r} but the error text is {text!r}"))
            return vs
        a, b, d = ([x["o"] for x in o["o"]] if k == "msg" else [{q: v for q, v in x.items()} for x in o["o"]])
        if k == "ses":
            if any(e[0] == "runaway" for x in (a, b, d) for e in x["ev"]):
                st.inc("not_judged_runaway")
                return vs
            a, b, d = [{**x, "ev": [e for e in x["ev"] if e[0] != "out"]} for x in (a, b, d)]   # scan prints between the debug lines
        st.inc("compared_" + k)
        sa, sb, sd = (json.dumps(x, sort_keys=True) for x in (a, b, d))
        if k == "msg" and isinstance(a, dict):
            st.sig("msg", a.get("r"), (a.get("dec") or {}).get("r"), (a.get("dec") or {}).get("type"))
        else:
            st.sig(k, [e[1:3] for e in a["ev"] if e[0] == "ret"] if k == "ses" else sa[:40])
        for x, how in ((sb, "with debug output"), (sd, "after debug output was switched off again")):
            if x != sa:
                i = next((i for i, (p, q) in enumerate(zip(sa, x)) if p != q), 0)
                vs.append(Viol("debug-changes-" + k, f"{how} the result differs: ...{x[max(0, i - 80):i + 80]} / without ...{sa[max(0, i - 80):i + 80]}"))
        return vs

    def finish(self, s, tier):
        return [f"no {k}" for k in ("compared_msg", "compared_ses", "failures_parse", "failures_data") if not s.count.get(k)]


# ------------------------------------------------------------------------------------------ H01
ARITY = {"fault": 4, "gai": 2, "ctx": 3, "cb": 2, "conn": 1, "opt": 3, "rep": 2, "wr": 2, "req": 4, "ping": 3, "sel": 2, "probe": 2, "rsp": 3, "rss": 3, "rx": 2, "recv": 2,
         "ffree": 2, "purge": 1, "scan": 3, "sud": 4, "setaddr": 3, "disc": 1, "free": 1, "sbaud": 2, "appreset": 3, "baud": 3, "reqf": 2, "selsend": 2, "peek": 1, "coll": 2}
QUIET = {"fault", "gai", "rep", "wr", "rx", "coll"}       # script only, nothing happens


def split_ops(cmd):
    t = cmd.split()[1:]
    out, i = [], 0
    while i < len(t):
        n = ARITY[t[i]]
        out.append(" ".join(t[i:i + n]))
        i += n
    return out


def by_line(ev):
    out, k = {0: [], 1: []}, 0
    for e in ev:
        if e[0] == "line":
            k = e[1]
        else:
            out[k].append(norm(e))
    return out


def norm(e):
    if isinstance(e, list) and e and e[0] == "out":     # diagnostics share the stream: keep the results
        return ["out"] + [x for x in bytes.fromhex(e[1]).decode("latin-1").split("\n") if x.startswith("Found")]
    if isinstance(e, list):
        return [norm(x) for x in e]
    if isinstance(e, int) and (700 <= e < 764 or 800 <= e < 864):
        return 700 + e % 100
    return e


class H01(Check):
    pid = "H01"
    batch = 60
    quick_n = 900
    thorough_n = 20000
    rule = ("a pair of sessions counts by (transports, operations in their interleaving); judged: with the operations of two handles interleaved, or those of the second done within the callbacks of the first, each handle's "
            "system calls, bytes, callbacks and results are those of the same session run alone, and callbacks get the handle they belong to")

    def session(self, rng):
        x = split_ops(session_case(rng, faults=rng.random() < 0.5))
        # options and speed of the handle matter: set them often, and between operations
        out = []
        for op in x:
            out.append(op)
            w = op.split()[0]
            if w == "conn" or (w in ("req", "ping", "sel", "probe") and rng.random() < 0.4):
                for _ in range(rng.randrange(0, 3)):
                    k = rng.random()
                    if k < 0.7:
                        out.append(f"opt {rng.randrange(3)} {rng.randrange(0, 5) if k < 0.6 else rng.choice([-1, 11, 99])}")
                    elif x[1 if x[0].startswith("fault") else 0].find("ser") > 0:
                        out.append(f"sbaud {rng.choice([300, 2400, 9600, 38400, 1234])}")
                    else:
                        out.append(f"reqf {rng.randrange(0, 254)}")
        return out

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n):
            a, b = self.session(rng), self.session(rng)
            if rng.random() < 0.35:
                yield self.nested(rng, a, b)
                continue
            mix, cur, ia, ib = [], 0, 0, 0
            run = rng.choice([1, 1, 2, 4])
            while ia < len(a) or ib < len(b):
                k = rng.randrange(2)
                for _ in range(rng.randrange(1, run + 1)):
                    s, j = (a, ia) if k == 0 else (b, ib)
                    if j >= len(s):
                        break
                    if cur != k:
                        mix.append(f"line {k}")
                        cur = k
                    # the script tokens stay with the operation they prepare
                    while True:
                        mix.append(s[j])
                        j += 1
                        if mix[-1].split()[0] not in QUIET or j >= len(s):
                            break
                    if k == 0:
                        ia = j
                    else:
                        ib = j
            yield Case("seq ses " + " ".join(a) + " ;; ses " + " ".join(b) + " ;; ses " + " ".join(mix),
                       {"k": [x.split()[0] for x in mix if x.split()[0] in ("line", "req", "sel", "probe", "scan", "recv", "ping", "purge")][:12]})

    def nested(self, rng, a, b):
        """the operations of the second session are done from within the callbacks of the first"""
        if "scan" in [x.split()[0] for x in a]:
            b = [x for x in b if x.split()[0] != "scan"]      # both would print into one stream
        b = [x for x in b]
        i = next(k for k, x in enumerate(a) if x.split()[0] == "ctx")
        a = a[:i + 1] + ["cb 7"] + [x for x in a[i + 1:] if x.split()[0] != "cb"]
        parts, cur = [], []
        for x in b:
            cur.append(x)
            if x.split()[0] not in QUIET and rng.random() < 0.7:
                parts.append(cur)
                cur = []
        if cur:
            parts.append(cur)
        pre = []
        for q in parts:
            t = " ".join(q)
            pre.append(f"nest {len(t.split())} {t}")
        mix = pre + a + ["nested"]
        return Case("seq ses " + " ".join(a) + " ;; ses " + " ".join(b) + " ;; ses " + " ".join(mix),
                    {"k": ["nested"] + [x.split()[0] for x in a + b if x.split()[0] in ("req", "sel", "probe", "scan", "recv", "ping", "purge")][:12]})

    def judge(self, c, o, st):
        vs = []
        a, b, m = o["o"]
        if c.ctx["k"][:1] == ["nested"]:
            st.inc("nested_pairs")
            st.inc("nested_switches", sum(e[0] == "line" for e in m["ev"]))
        if any(e[0] == "runaway" for x in (a, b, m) for e in x["ev"]):
            st.inc("not_judged_runaway")
            return vs
        st.inc("pairs")
        st.sig(c.ctx["k"])
        lines = by_line(m["ev"])
        for k, solo in ((0, a), (1, b)):
            want = [norm(e) for e in solo["ev"]]
            got = lines[k]
            if any(e[0] == "otherhandle" for e in got):
                vs.append(Viol("foreign-handle", "a callback was given a handle it does not belong to"))
            if got != want:
                i = next((i for i, (p, q) in enumerate(zip(got, want)) if p != q), min(len(got), len(want)))
                what = next((e[1] for e in reversed(want[:i + 1]) if e[0] == "call"), "?")
                vs.append(Viol("interference-" + what, f"handle {k}, during {what}: event {got[i] if i < len(got) else None} next to another handle, "
                                                       f"{want[i] if i < len(want) else None} alone"))
            st.inc("operations", sum(e[0] == "call" for e in want))
        if not vs and (m["bal"], m["fds"]) != (a["bal"] + b["bal"], b["fds"]) and m["bal"] != 0:
            vs.append(Viol("interference-leak", f"{m['bal']} allocations left after both sessions, {a['bal']} and {b['bal']} alone"))
        return vs[:3]

    def finish(self, s, tier):
        return [] if s.count.get("pairs", 0) > 100 else ["too few pairs"]


# ------------------------------------------------------------------------------------------ M06
class M06(Check):
    pid = "M06"
    batch = 60
    quick_n = 10
    thorough_n = 400
    rule = ("a call counts by (function and the argument that is missing, kind of telegram around it); judged: no crash and no sanitizer report, the failure "
            "value of that function, nothing sent, no descriptor opened or closed, nothing left allocated, the frame handed over as it was")
    CALLS = 200          # upper bound of the calls in harness/args.h; numbers without a call answer -99
    ZERO = {"mbus_manufacturer_id": 0, "mbus_is_secondary_address": 0, "mbus_hex2bin": 0}
    FREE = {"mbus_frame_calc_checksum", "mbus_frame_calc_length", "mbus_purge_frames", "mbus_data_variable_header_xml", "mbus_data_product_name", "mbus_vib_unit_lookup"}
    POINTER = {"mbus_frame_get_secondary_address", "mbus_frame_xml", "mbus_frame_data_xml", "mbus_frame_data_xml_normalized", "mbus_data_variable_xml",
               "mbus_data_variable_xml_normalized", "mbus_data_fixed_xml", "mbus_data_record_function", "mbus_data_record_unit", "mbus_data_record_value",
               "mbus_data_fixed_medium", "mbus_slave_data_get", "mbus_parse_variable_record", "mbus_parse_fixed_record", "mbus_context_serial", "mbus_context_tcp"}
    VOID = {"mbus_frame_data_free", "mbus_data_record_free", "mbus_data_record_append", "mbus_data_tm_decode", "mbus_data_str_decode", "mbus_data_bin_decode",
            "mbus_data_raw_decode", "mbus_hex_dump", "mbus_error_str_set", "mbus_record_free", "mbus_context_free", "mbus_tcp_data_free", "mbus_serial_data_free"}

    def gen(self, rng, n, shard, nsh, tier):
        for i in range(n):
            while True:
                p, recs = record.rand_payload(rng, rng.choice([20, 60, 252]))
                if recs:
                    break
            m = frame(rng, p)
            for k in range(self.CALLS):
                yield Case(f"arg {k} {h(m)} {rng.randrange(1 << 13)}", {"k": k, "m": m.hex()})

    def judge(self, c, o, st):
        fds0 = o.get("bal")
        o = o["o"]
        r = o["r"]
        if r == -99:
            return []                       # no such call
        if r == -98:
            st.inc("no_record")
            return []
        name = bytes.fromhex(o["name"] or "").decode()
        f = name.split("(")[0].split(": ")[-1]
        r = int(r)
        st.inc("calls")
        st.sig(name, len(c.ctx["m"]) // 100)
        vs = []
        if "unconnected" in name:
            st.inc("unconnected")
        if f in self.FREE or f in self.VOID:
            pass
        elif f in self.ZERO or f in self.POINTER:
            if r != 0:
                vs.append(Viol("accepted-" + name, f"{name} returned {r}"))
        elif r == 0 or (r > 0 and f not in ("mbus_sendrecv_request", "mbus_read_slave")):
            vs.append(Viol("accepted-" + name, f"{name} returned {r}"))
        sent = [e for e in o["during"][1:] if e and e[0] == "wr"]
        if sent and "mbus_probe" not in name and "unconnected" not in name and f not in ("mbus_sendrecv_request", "mbus_read_slave"):
            vs.append(Viol("sent-" + name, f"{name}: {sent[:2]} was sent"))
        if o["fds"] != 0:
            vs.append(Viol("descriptor-" + name, f"{name}: {o['fds']} descriptors left open"))
        if fds0:
            vs.append(Viol("leak-" + name, f"{name}: {fds0} allocations left"))
        if not f.startswith(("mbus_parse", "mbus_recv", "mbus_tcp_recv", "mbus_serial_recv", "mbus_sendrecv", "mbus_read_slave")):
            x = o["f"]
            got = bytes([x["s1"], x["l1"], x["l2"], x["s2"], x["c"], x["a"], x["ci"]]) + bytes.fromhex(x["data"]) + bytes([x["cs"], x["stop"]])
            if got.hex() != c.ctx["m"] and "pack" not in f and "calc" not in f and "unconnected" not in name:
                vs.append(Viol("frame-" + name, f"{name} changed the frame: {got.hex()}, was {c.ctx['m']}"))
        return vs

    def finish(self, st, tier):
        n = len({x for x in st.count if x in ("calls", "unconnected")})
        return [] if n == 2 else ["not all kinds of calls were made"]
