"""EN 13757-3 / EN 1434-3 unit tables, written from the standard, and a semantic reader of unit texts.

A magnitude is (dimension, factor): factor converts the number to the dimension's base unit."""
import re

H, MIN, DAY = 3600.0, 60.0, 86400.0
MONTH, YEAR = 2629743.83, 31556926.0      # the library's documented mean lengths
GAL, FT3 = 3.785411784e-3, 0.028316846592

# unit word -> (dimension, factor).  degrees keep their own dimension (an offset scale); K and deg C differences coincide.
UNITS = {
    "wh": ("energy", 3600.0), "j": ("energy", 1.0), "cal": ("energy", 4.1868), "w": ("power", 1.0), "j/h": ("power", 1 / H), "j/s": ("power", 1.0), "j/d": ("power", 1 / DAY),
    "m^3": ("volume", 1.0), "m3": ("volume", 1.0), "l": ("volume", 1e-3), "feet^3": ("volume", FT3), "american gallon": ("volume", GAL),
    "gallon": ("volume", GAL), "m^3/h": ("flow", 1 / H), "m3/h": ("flow", 1 / H), "m^3/min": ("flow", 1 / MIN), "m^3/s": ("flow", 1.0), "l/h": ("flow", 1e-3 / H),
    "american gallon/min": ("flow", GAL / MIN), "american gallon/h": ("flow", GAL / H), "kg": ("mass", 1.0), "g": ("mass", 1e-3), "t": ("mass", 1e3),
    "kg/h": ("massflow", 1 / H), "kg/s": ("massflow", 1.0), "s": ("time", 1.0), "second": ("time", 1.0), "minute": ("time", MIN), "min": ("time", MIN), "hour": ("time", H), "h": ("time", H),
    "day": ("time", DAY), "d": ("time", DAY), "month": ("time", MONTH), "year": ("time", YEAR),
    "degc": ("degC", 1.0), "degreec": ("degC", 1.0), "\xb0c": ("degC", 1.0), "k": ("kelvin", 1.0), "degf": ("degF", 1.0), "degreef": ("degF", 1.0), "\xb0f": ("degF", 1.0),
    "bar": ("pressure", 1e5), "pa": ("pressure", 1.0), "v": ("voltage", 1.0), "a": ("current", 1.0), "currency units": ("currency", 1.0),
    "nominal local legal currency units": ("currency", 1.0),
    "units for h.c.a.": ("hca", 1.0), "units for hca": ("hca", 1.0), "baud": ("baud", 1.0), "bittimes": ("bittimes", 1.0), "bit times": ("bittimes", 1.0),
}
PREFIX = {"": 1.0, "n": 1e-9, "my": 1e-6, "u": 1e-6, "\xb5": 1e-6, "m": 1e-3, "k": 1e3, "M": 1e6, "G": 1e9, "T": 1e12}


def unit_of(text):
    """'10 kWh', 'my m^3', '1e-2  deg C' ... -> (dimension, factor) or None when the text names no unit."""
    t = text.strip()
    f = 1.0
    m = re.match(r"(\d+(?:\.\d+)?(?:e[+-]?\d+)?)(?=\s|$)\s*(.*)$", t)
    if m:
        f, t = float(m.group(1)), m.group(2)
    t = re.sub(r"\(s\)$", "", t.strip())
    t = re.sub(r"(degree|deg)\s*([CF])$", r"deg\2", t)
    t = t.replace("\xc2\xb0", "\xb0")

    def look(u):
        l = u.strip().lower()
        if l == "k" and u.strip() != "K":
            return None
        for c in (l, l[:-1] if l.endswith("s") and len(l) > 3 else l):
            if c in UNITS:
                return UNITS[c]
        return None
    r = look(t)
    # "m^3" read as metre cubed, "m m^3" as milli: exact names win, then prefixes
    if r and not t.strip().startswith("m ") :
        return r[0], r[1] * f
    for p in sorted(PREFIX, key=len, reverse=True):
        if not p:
            continue
        if t.startswith(p + " ") or t.startswith(p):
            rest = t[len(p):].strip()
            r2 = look(rest)
            if r2:
                pf = PREFIX[p]
                if p == "k" and rest in ("m3",):
                    pf = 1e3
                return r2[0], r2[1] * f * pf
    if r:
        return r[0], r[1] * f
    if t in PREFIX and t:
        return ("none", f * PREFIX[t])
    return None


def same(a, b, rel=1e-9):
    """Same magnitude?  A temperature difference may be called K or deg C."""
    da, db = a[0], b[0]
    tem = {"degC", "kelvin"}
    if da != db and not (da in tem and db in tem):
        return False
    return abs(a[1] - b[1]) <= rel * max(abs(a[1]), abs(b[1]))


def _r(base, n, off, dim, f, q):
    return {base + k: (dim, f * 10.0 ** (k + off), q) for k in range(n)}


PRIMARY = {}
for d in (_r(0x00, 8, -3, "energy", 3600.0, "energy"), _r(0x08, 8, 0, "energy", 1.0, "energy"), _r(0x10, 8, -6, "volume", 1.0, "volume"),
          _r(0x18, 8, -3, "mass", 1.0, "mass"), _r(0x28, 8, -3, "power", 1.0, "power"), _r(0x30, 8, 0, "power", 1 / H, "power"),
          _r(0x38, 8, -6, "flow", 1 / H, "volume flow"), _r(0x40, 8, -7, "flow", 1 / MIN, "volume flow"), _r(0x48, 8, -9, "flow", 1.0, "volume flow"),
          _r(0x50, 8, -3, "massflow", 1 / H, "mass flow"), _r(0x58, 4, -3, "degC", 1.0, "flow temperature"), _r(0x5C, 4, -3, "degC", 1.0, "return temperature"),
          _r(0x60, 4, -3, "kelvin", 1.0, "temperature difference"), _r(0x64, 4, -3, "degC", 1.0, "external temperature"), _r(0x68, 4, -3, "pressure", 1e5, "pressure")):
    PRIMARY.update(d)
for b, q in ((0x20, "on time"), (0x24, "operating time"), (0x70, "averaging"), (0x74, "actuality")):
    for k, f in enumerate((1.0, MIN, H, DAY)):
        PRIMARY[b + k] = ("time", f, q)
PRIMARY[0x6E] = ("hca", 1.0, "h.c.a|heat cost")
PRIMARY[0x78] = ("none", 1.0, "fabrication")
PRIMARY[0x79] = ("none", 1.0, "identification")
PRIMARY[0x7A] = ("none", 1.0, "address")

FB = {}
for d in (_r(0x00, 2, 5, "energy", 3600.0, "energy"), _r(0x08, 2, 8, "energy", 1.0, "energy"), _r(0x10, 2, 2, "volume", 1.0, "volume"),
          _r(0x18, 2, 5, "mass", 1.0, "mass"), _r(0x28, 2, 5, "power", 1.0, "power"), _r(0x30, 2, 8, "power", 1 / H, "power"),
          _r(0x58, 4, -3, "degF", 1.0, "flow temperature"), _r(0x5C, 4, -3, "degF", 1.0, "return temperature"),
          _r(0x60, 4, -3, "degF", 1.0, "temperature difference"), _r(0x64, 4, -3, "degF", 1.0, "external temperature"),
          _r(0x70, 4, -3, "degF", 1.0, "temperature limit"), _r(0x74, 4, -3, "degC", 1.0, "temperature limit"), _r(0x78, 8, -3, "power", 1.0, "max power")):
    FB.update(d)
FB[0x21] = ("volume", 0.1 * FT3, "volume")
FB[0x22] = ("volume", 0.1 * GAL, "volume")
FB[0x23] = ("volume", GAL, "volume")
FB[0x24] = ("flow", 1e-3 * GAL / MIN, "volume flow")
FB[0x25] = ("flow", GAL / MIN, "volume flow")
FB[0x26] = ("flow", GAL / H, "volume flow")

FD = {}
for d in (_r(0x00, 4, -3, "currency", 1.0, "credit"), _r(0x04, 4, -3, "currency", 1.0, "debit"),
          _r(0x40, 16, -9, "voltage", 1.0, "volt"), _r(0x50, 16, -12, "current", 1.0, "current")):
    FD.update(d)
for c, q in {0x08: "access number", 0x09: "medium", 0x0A: "manufacturer", 0x0B: "parameter set", 0x0C: "model", 0x0D: "hardware", 0x0E: "firmware",
             0x0F: "software", 0x10: "customer location", 0x11: "customer", 0x12: "access code user", 0x13: "access code operator", 0x14: "access code system operator",
             0x15: "access code developer", 0x16: "password", 0x17: "error flags", 0x18: "error mask", 0x1A: "digital output", 0x1B: "digital input",
             0x1E: "retry", 0x20: "first storage", 0x21: "last storage", 0x22: "size of storage", 0x3A: "dimensionless", 0x60: "reset counter", 0x61: "cumulation counter",
             0x62: "control signal", 0x63: "day of week", 0x64: "week number", 0x65: "day change", 0x66: "parameter activation", 0x67: "supplier", 0x70: "battery change"}.items():
    FD[c] = ("none", 1.0, q)
FD[0x1C] = ("baud", 1.0, "baud")
FD[0x1D] = ("bittimes", 1.0, "response delay")
for b, fs, q in ((0x24, (1.0, MIN, H, DAY, MONTH, YEAR), "storage interval"), (0x2C, (1.0, MIN, H, DAY), "last readout"), (0x31, (MIN, H, DAY), "duration of tariff"),
                 (0x34, (1.0, MIN, H, DAY, MONTH, YEAR), "period of tariff"), (0x68, (H, DAY, MONTH, YEAR), "last cumulation"), (0x6C, (H, DAY, MONTH, YEAR), "battery")):
    for k, f in enumerate(fs):
        FD[b + k] = ("time", f, q)


def lookup(vif, vife):
    """(dim, factor, quantity) of a VIF (FD/FB tables included), or None when not in the tables."""
    if vif == 0xFD:
        return FD.get(vife[0] & 0x7F) if vife else None
    if vif == 0xFB:
        return FB.get(vife[0] & 0x7F) if vife else None
    return PRIMARY.get(vif & 0x7F)


FIXED = {}
for b, n, off, dim, f, q in ((0x02, 9, 0, "energy", 3600.0, "energy"), (0x0B, 9, 3, "energy", 1.0, "energy"), (0x14, 9, 0, "power", 1.0, "power"),
                             (0x1D, 9, 3, "power", 1 / H, "power"), (0x26, 9, -6, "volume", 1.0, "volume"), (0x2F, 9, -6, "flow", 1 / H, "volume flow")):
    FIXED.update(_r(b, n, off, dim, f, q))
FIXED[0x38] = ("degC", 1e-3, "temperature")
FIXED[0x39] = ("hca", 1.0, "h.c.a|heat cost")

FIXED_MEDIUM = {0: "other", 1: "oil", 2: "electricity", 3: "gas", 4: "heat", 5: "steam", 6: "hot water|warm water", 7: "water", 8: "h.c.a|heat cost", 9: "reserved",
                10: "gas&2", 11: "heat&2", 12: "hot water&2|warm water&2", 13: "water&2", 14: "h.c.a&2|heat cost&2", 15: "reserved"}
FIXED_NOT = {3: ["2"], 4: ["2", "cost"], 6: ["2"], 7: ["hot", "2"], 8: ["2"], 11: ["cost"], 13: ["hot"]}


def fixed_medium_match(code, t):
    t = t.lower()
    return any(all(k in t for k in alt.split("&")) for alt in FIXED_MEDIUM[code].split("|")) and not any(k in t for k in FIXED_NOT.get(code, []))


def alt_match(q, text):
    t = text.lower()
    return any(a in t for a in q.split("|"))
