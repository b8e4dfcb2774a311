"""XML documents (strict parse into bytes), and the EN 13757-3 texts for media and errors."""
import re
from xml.parsers import expat


class Bad(Exception):
    pass


def neutral(b):
    """What the text of a value becomes inside XML: control characters as spaces."""
    return bytes(0x20 if x < 0x20 or x == 0x7F else x for x in b)


def parse_strict(raw):
    """-> {'slave':{tag:bytes}, 'recs':[{tag:bytes,'@id':..,'@frame':..}]}; raises Bad."""
    if not raw.startswith(b'<?xml version="1.0" encoding="ISO-8859-1"?>'):
        raise Bad("no XML declaration")
    p = expat.ParserCreate()
    stack, doc = [], {"slave": None, "recs": []}
    cur = {"text": ""}

    def start(name, attrs):
        stack.append(name)
        path = "/".join(stack)
        if path == "MBusData":
            pass
        elif path == "MBusData/SlaveInformation":
            if doc["slave"] is not None or doc["recs"]:
                raise Bad("SlaveInformation repeated or late")
            doc["slave"] = {}
        elif path == "MBusData/DataRecord":
            doc["recs"].append({"@" + k: v for k, v in attrs.items()})
            if set(attrs) - {"id", "frame"}:
                raise Bad("unexpected attributes")
        elif len(stack) == 3 and stack[1] in ("SlaveInformation", "DataRecord"):
            if attrs:
                raise Bad("attributes in " + path)
        else:
            raise Bad("unexpected element " + path)
        cur["text"] = ""

    def end(name):
        if len(stack) == 3:
            tgt = doc["slave"] if stack[1] == "SlaveInformation" else doc["recs"][-1]
            if name in tgt:
                raise Bad("element repeated: " + name)
            tgt[name] = cur["text"].encode("latin-1")
        elif cur["text"].strip():
            raise Bad("text between elements: " + repr(cur["text"][:50]))
        stack.pop()
        cur["text"] = ""

    def text(s):
        cur["text"] += s

    def bad(*a):
        raise Bad("unexpected markup")
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    p.StartCdataSectionHandler = p.CommentHandler = p.ProcessingInstructionHandler = p.StartDoctypeDeclHandler = bad
    p.buffer_text = True
    try:
        p.Parse(raw, True)
    except expat.ExpatError as e:
        raise Bad(str(e))
    except UnicodeError as e:
        raise Bad(str(e))
    if doc["slave"] is None:
        raise Bad("no SlaveInformation")
    return doc


def parse_doc(hexs):
    if hexs is None:
        return None
    try:
        return parse_strict(bytes.fromhex(hexs))
    except Bad:
        return None


def manufacturer(b1, b2):
    v = b1 | b2 << 8
    return bytes([(v >> 10 & 31) + 64, (v >> 5 & 31) + 64, (v & 31) + 64])


ERRORS = {0: ["unspecified"], 1: ["unimplemented", "ci"], 2: ["too long"], 3: ["too many records"], 4: ["premature"],
          5: ["10", "dife"], 6: ["10", "vife"], 7: ["reserved"], 8: ["busy"], 9: ["too many readouts"]}


def error_text(code):
    return " ".join(ERRORS.get(code, ["unknown", "%02X" % code]))


def error_match(code, t):
    t = (t or b"").decode("latin-1").lower()
    return all(k.lower() in t for k in ERRORS.get(code, ["unknown", "%02x" % code]))


# keywords (any one of the alternatives) that the device type text must contain / must not contain
MEDIUM = {
    0x00: "other", 0x01: "oil", 0x02: "electricity", 0x03: "gas", 0x04: "heat&outlet", 0x05: "steam", 0x06: "warm water|hot water (30",
    0x07: "water", 0x08: "heat cost", 0x09: "compressed", 0x0A: "cooling&outlet", 0x0B: "cooling&inlet", 0x0C: "heat&inlet",
    0x0D: "heat&cooling", 0x0E: "bus", 0x0F: "unknown", 0x10: "irrigation", 0x11: "water logger", 0x12: "gas logger",
    0x13: "gas converter", 0x14: "calorific", 0x15: "hot water", 0x16: "cold water", 0x17: "dual", 0x18: "pressure",
    0x19: "a/d", 0x1A: "smoke", 0x1B: "ambient|room", 0x1C: "gas detector", 0x20: "breaker", 0x21: "valve", 0x25: "customer|display",
    0x28: "waste", 0x29: "garbage", 0x30: "service", 0x36: "radio&system", 0x37: "radio&meter"}


def medium_match(code, t):
    t = (t or b"").decode("latin-1").lower()
    e = MEDIUM.get(code)
    if e is None:
        return "reserved" in t or "unknown" in t
    if not any(all(k in t for k in alt.split("&")) for alt in e.split("|")):
        return False
    if code == 0x07 and t != "water":
        return False
    if code == 0x03 and t != "gas":
        return False
    if code in (0x04, 0x0C) and "cool" in t:
        return False
    return True


def TYPE_OK(t, kind):
    return False
