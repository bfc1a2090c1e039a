"""Schedules for the message receiver (family R)."""
import random

from wire import *

LKS = ["inv", "res", "v4", "v6"]


class Sched:
    def __init__(self, lk, family="R"):
        self.words = [family, lk]

    def feed(self, b):
        if b:
            self.words.append("f" + b.hex())
        return self

    def cmd(self, c):
        self.words.append(c)
        return self

    def line(self):
        return " ".join(self.words)


def parts(rng, n, k):
    """n cut into k non-empty parts at most"""
    cuts = sorted({rng.randrange(1, n) for _ in range(k - 1)}) if n > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def pick(rng, profile):
    """A well-formed submessage kind, entity / context / skip weights"""
    e, c, s = profile
    x = rng.random() * (e + c + s)
    if x < e:
        return rng.choice(ENTITIES)
    if x < e + c:
        return rng.choice(CONTEXTS)
    return rng.choice([PAD, PAD, rng.choice(UNKNOWN), rng.choice(UNKNOWN), rng.choice([DATA, DATA_FRAG])])


def message(rng, n, profile, last=0.0):
    """Header and n well-formed submessages; the last one may be open-ended"""
    units = [header(rng)]
    for i in range(n):
        open_ended = i == n - 1 and rng.random() < last
        units.append(well_formed(rng, pick(rng, profile), last=open_ended))
    return units


def deliver(rng, s, units, mode=None):
    """Feeds one message. Open-ended submessages are fed whole."""
    mode = mode or rng.choice(["whole", "units", "units", "units", "mixed"])
    if mode == "whole":
        s.feed(b"".join(units)).cmd("D")
    elif mode == "units":
        for u in units:
            s.feed(u).cmd("D")
    else:
        b = b"".join(units)
        open_at = len(b) - len(units[-1])
        cut = rng.randrange(0, open_at + 1)
        s.feed(b[:cut]).cmd("D").feed(b[cut:]).cmd("D")


def is_open(u):
    return len(u) >= 4 and u[2] == 0 and u[3] == 0 and u[0] not in (PAD, INFO_TS)


def end_message(rng):
    """A submessage that ends the message without changing what counts"""
    return rng.choice([
        lambda: well_formed(rng, rng.choice(UNKNOWN), last=True),
        lambda: well_formed(rng, rng.choice(ENTITIES), last=True),
        lambda: well_formed(rng, rng.choice([DATA, DATA_FRAG]), last=True),
        lambda: well_formed(rng, rng.choice([INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4]), last=True),
        lambda: malformed(rng),
    ])()


def history(rng, profile, messages, length, with_fresh=False, junk=False):
    s = Sched(rng.choice(LKS))
    for m in range(messages):
        units = message(rng, rng.randrange(1, length + 1), profile)
        if m < messages - 1:
            units.append(end_message(rng))
            if not is_open(units[-1]) and rng.random() < 0.5:
                units.append(raw(rng, rng.randrange(1, 40)))
        if with_fresh:
            s.cmd("F" + units[0].hex())
            s.feed(units[0]).cmd("D")
            units = units[1:]
        if m < messages - 1 and rng.random() < 0.08 and not with_fresh:
            # a rejected message in between
            bad = rejected(rng)
            s.feed(bad + raw(rng, rng.randrange(20))).cmd("D")
        deliver(rng, s, units)
    return s.line()


def datagram(rng, profile):
    """One datagram: well formed, cut off, damaged, rejected or arbitrary"""
    units = message(rng, rng.randrange(0, 7), profile)
    c = rng.random()
    if c < 0.3:
        pass
    elif c < 0.4:
        units.append(well_formed(rng, pick(rng, profile), last=True))
    elif c < 0.65:
        # cut within the last unit, or anywhere
        b = b"".join(units)
        at = len(b) - len(units[-1]) if rng.random() < 0.6 else 0
        return b[:rng.randrange(at, len(b))]
    elif c < 0.7:
        units.append(raw(rng, rng.randrange(1, 4)))
    elif c < 0.85:
        units.insert(rng.randrange(1, len(units) + 1), malformed(rng))
    elif c < 0.92:
        units[0] = rejected(rng)
    elif c < 0.96:
        return raw(rng, rng.choice([0, 1, 3, 4, 19, 20, 21, rng.randrange(60)]))
    else:
        i = rng.randrange(1, len(units) + 1)
        units.insert(i, submessage(rng.choice([rng.randrange(256), rng.choice(sorted(KNOWN))]), rng.randrange(256),
                                   raw(rng, rng.randrange(40)), rng.choice([None, 0, 65535, rng.randrange(100)])))
    return b"".join(units)


def datagrams(rng, profile, n, refs=0.0):
    s = Sched(rng.choice(LKS))
    for _ in range(n):
        b = datagram(rng, profile)
        if rng.random() < refs:
            s.cmd("v" + b.hex()).cmd("u" + b.hex()).cmd("e")
        else:
            s.cmd("u" + b.hex())
    return s.line()


def at_hand(rng, profile):
    """Bytes that have arrived must be decoded: many units that give nothing"""
    s = Sched(rng.choice(LKS))
    for m in range(rng.randrange(1, 3)):
        units = message(rng, rng.randrange(1, 9), profile) + [end_message(rng)]
        deliver(rng, s, units, rng.choice(["whole", "mixed", "units"]))
    return s.line()


def rejected(rng):
    h = bytearray(header(rng))
    c = rng.random()
    if c < 0.5:
        i = rng.randrange(4)
        old = h[i]
        while h[i] == old:
            h[i] = rng.choice([old ^ (1 << rng.randrange(8)), rng.randrange(256), 0, old ^ 0x20])
    else:
        h[4] = rng.choice([3, 3, 4, 127, 128, 129, 130, 255, rng.randrange(3, 256)])
    return bytes(h)


def numbers(rng, base, width, signed):
    """What to insert into a set: mostly near the base"""
    low, high = (-(1 << (8 * width - 1)), (1 << (8 * width - 1)) - 1) if signed else (0, (1 << (8 * width)) - 1)
    out = []
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9, 20])):
        c = rng.random()
        if c < 0.75:
            x = base + rng.choice([0, 1, 7, 8, 31, 32, 33, 63, 64, 127, 128, 254, 255, rng.randrange(256), rng.randrange(40)])
        elif c < 0.85:
            x = base + rng.choice([-1, -2, -256, 256, 257, 1 << 31, 1 << 32, -(1 << 32)])
        elif c < 0.92 and out:
            x = out[-1]
        else:
            x = rng.choice([low, high, 0, 1])
        if low <= x <= high:
            out.append(x)
    return out


def hexed(x, width):
    return (x % (1 << (8 * width))).to_bytes(width, "big").hex()


def set_fields(rng, signed):
    width = 8 if signed else 4
    base = any_i64(rng) if signed else u32(rng)
    base = max(-(1 << 63), min(base, (1 << 63) - 1)) if signed else base
    ns = numbers(rng, base, width, signed)
    return [hexed(base, width), ",".join(hexed(n, width) for n in ns) or "-"]


def locator_fields(rng, n=None):
    return ",".join(locator(rng, False).hex() for _ in range(rng.randrange(4) if n is None else n)) or "-"


def unit_word(name, flags, fields):
    return "k%s:%02x:%s" % (name, flags, ":".join(fields))


MADE = ["AckNack", "Gap", "Heartbeat", "HeartbeatFrag", "NackFrag", "InfoSource", "InfoDestination", "InfoReply",
        "InfoReplyIp4", "InfoTs", "Pad"]


def made_unit(rng, name=None):
    """A submessage for the crate to make"""
    name = name or rng.choice(MADE)
    f = rng.choice([0, 1]) | (rng.choice([0, 0, 2, 4, 6, 254]) if rng.random() < 0.6 else rng.randrange(128) * 2)
    ids = [raw(rng, 4).hex(), raw(rng, 4).hex()]
    if rng.random() < 0.06:
        ids = ids[:1] * 2
    first = i64(rng)
    sq = lambda: hexed(first, 8)  # noqa: E731
    after = lambda: hexed(i64_after(rng, first), 8)  # noqa: E731
    count = hexed(u32(rng), 4)
    if name == "AckNack":
        fields = ids + set_fields(rng, True) + [count]
    elif name == "Gap":
        fields = ids + [sq()] + set_fields(rng, True)
    elif name == "Heartbeat":
        fields = ids + [sq(), after(), count]
    elif name == "HeartbeatFrag":
        fields = ids + [sq(), hexed(u32(rng), 4), count]
    elif name == "NackFrag":
        fields = ids + [sq()] + set_fields(rng, False) + [count]
    elif name == "InfoSource":
        fields = [version(rng).hex(), vendor(rng).hex(), guid_prefix(rng).hex()]
    elif name == "InfoDestination":
        fields = [guid_prefix(rng).hex()]
    elif name == "InfoReply":
        n = rng.choice([None, None, None, 11, 300]) if rng.random() < 0.2 else None
        if rng.random() < 0.006:
            n = rng.choice([1364, 1365, 1366, 2000])  # about 32 KB, and more
        fields = [locator_fields(rng, n)] + ([locator_fields(rng)] if f & 2 else [])
    elif name == "InfoReplyIp4":
        fields = [raw(rng, 4).hex(), hexed(rng.choice([0, 7400, 65535, rng.randrange(65536)]), 4)]
        if f & 2:
            fields += [raw(rng, 4).hex(), hexed(rng.randrange(65536), 4)]
    elif name == "InfoTs":
        t = timestamp(rng, False).hex()
        fields = [] if f & 2 else [t[:8], t[8:]]
    else:
        fields = [raw(rng, rng.choice([1, 4, 300])).hex()] if rng.random() < 0.5 else []
        if rng.random() < 0.02:
            fields = [(raw(rng, 1) * (long_length(rng) if rng.random() < 0.6 else rng.choice([255, 256, 1024, 32512]))).hex()]
    return unit_word(name, f, fields)


def made_header(rng):
    if rng.random() < 0.5:
        return "h" + guid_prefix(rng).hex()
    return "H" + bytes([rng.randrange(3), rng.randrange(256)]).hex() + vendor(rng).hex() + guid_prefix(rng).hex()


def made_case(rng):
    """Messages the crate makes, in datagrams, or one in a stream"""
    s = Sched(rng.choice(LKS), "M")
    focus = rng.choice([None, None] + MADE)
    stream = rng.random() < 0.3
    for _ in range(1 if stream else rng.randrange(1, 4)):
        s.cmd(made_header(rng))
        for _ in range(rng.randrange(0, 7)):
            if stream and rng.random() < 0.5:
                s.cmd("g").cmd("D")
            s.cmd(made_unit(rng, focus if rng.random() < 0.6 else None))
        if stream:
            s.cmd("g").cmd("D")
        else:
            s.cmd("U")
    return s.line()


def made_from(schedule):
    """The messages of a behaviour of MC_Receiver, made by the crate as far as it can"""
    entity = {ACKNACK: "AckNack", GAP: "Gap", HEARTBEAT: "Heartbeat", HEARTBEAT_FRAG: "HeartbeatFrag", NACK_FRAG: "NackFrag"}
    s = Sched(schedule["lk"], "M")
    for m in schedule["what"]:
        if bytes(m[0]["magic"]) != b"RTPS" or m[0]["ver"][0] > 2:
            continue
        h = lambda b: bytes(b).hex()  # noqa: E731
        s.cmd("H" + h(m[0]["ver"]) + h(m[0]["ven"]) + h(m[0]["pfx"]))
        for d in m[1:]:
            le = 1 if d.get("le") else 0
            if d["a"] == "ent":
                fields, val = [], d["val"]
                at = {ACKNACK: 3, GAP: 4, NACK_FRAG: 4}.get(d["kind"])
                for i, v in enumerate(val):
                    if i == at:
                        base = int.from_bytes(bytes(val[i - 1]), "big")
                        fields.append(",".join(hexed(base + o, len(val[i - 1])) for o in sorted(v)) or "-")
                    else:
                        fields.append(h(v))
                s.cmd(unit_word(entity[d["kind"]], le + d["fl"], fields))
            elif d["a"] == "src":
                s.cmd(unit_word("InfoSource", le, [h(d["ver"]), h(d["ven"]), h(d["pfx"])]))
            elif d["a"] == "dst":
                s.cmd(unit_word("InfoDestination", le, [h(d["pfx"])]))
            elif d["a"] == "reply":
                lists = [d["us"]] + ([d["ms"]] if d["hasm"] else [])
                s.cmd(unit_word("InfoReply", le + (2 if d["hasm"] else 0),
                                [",".join(h(x) for x in ls) or "-" for ls in lists]))
            elif d["a"] == "ip4" and not (d["hasm"] and any(d["mpo"][:2])):
                s.cmd(unit_word("InfoReplyIp4", le + (2 if d["hasm"] else 0),
                                [h(d["ad"]), h(d["po"])] + ([h(d["mad"]), h(d["mpo"])] if d["hasm"] else [])))
            elif d["a"] == "ts":
                s.cmd(unit_word("InfoTs", le, [h(d["sec"]), h(d["frac"])]))
            elif d["a"] == "tsinv":
                s.cmd(unit_word("InfoTs", le + 2, []))
            elif d["a"] == "skip" and d["kind"] == PAD:
                s.cmd(unit_word("Pad", le, ["a5" * d["n"]] if d["n"] else []))
        s.cmd("U")
    return s.line()


def claim(rng, le):
    """A submessage that claims to hold more than it does"""
    kind = rng.choice([INFO_REPLY, INFO_REPLY, INFO_REPLY, ACKNACK, GAP, NACK_FRAG])
    huge = rng.choice([256, 257, 8192, 65535, 65536, 1 << 20, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 0x0AAAAAAA, 0x0AAAAAAB, (1 << 27), (1 << 31) - 1, 1 << 31,
                       (1 << 32) - 1, rng.randrange(1 << 32)])
    f = (1 if le else 0) | (2 if rng.random() < 0.5 else 0)
    if kind == INFO_REPLY:
        some = b"".join(locator(rng, le) for _ in range(rng.randrange(4)))
        body = num(huge, 4, le) + some
        if f & 2 and rng.random() < 0.6:
            body = locators(rng, le) + body
    else:
        body = raw(rng, 8) + (sn(any_i64(rng), le) if kind != ACKNACK else b"")
        body += (num(u32(rng), 4, le) if kind == NACK_FRAG else sn(any_i64(rng), le)) + num(huge, 4, le) + raw(rng, rng.choice([0, 4, 32, 64]))
    c = rng.random()
    n = None if c < 0.7 else 0 if c < 0.85 else rng.choice([65535, 40000])
    return submessage(kind, f, body, n)


def claims(rng):
    s = Sched(rng.choice(LKS))
    for _ in range(rng.randrange(1, 4)):
        units = message(rng, rng.randrange(0, 3), (2, 2, 2))
        units.append(claim(rng, rng.random() < 0.5))
        b = b"".join(units)
        if rng.random() < 0.6:
            s.cmd("u" + b.hex())
        else:
            # a stream: the claim is an error, the rest of the bytes at hand goes
            s.cmd("u" + b"".hex()).feed(b).cmd("D")
            break
    return s.line()


def varied_at(u):
    """Where a number can be put into a submessage without changing its form"""
    if u[0] in (GAP, INFO_REPLY):
        return 16       # the low half of a number, an address
    return len(u) - 4


def kept_case(rng, rounds=12000):
    """Many datagrams, no two of them equal, for one receiver"""
    forms = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        units, at, end = [header(rng)], [16], 20
        for kind in rng.sample(list(ENTITIES) + list(CONTEXTS), rng.randrange(3, 8)):
            u = None
            while u is None or len(u) > 120 or is_open(u):
                u = well_formed(rng, kind)
            if len(u) >= varied_at(u) + 4 >= 12:
                at.append(end + varied_at(u))
            units.append(u)
            end += len(u)
        if rng.random() < 0.3:
            units.append(units[-1][:-1])      # the datagram ends too early
        forms.append(".".join(map(str, at)) + "=" + b"".join(units).hex())
    return "R %s K%d:%s" % (rng.choice(LKS), rounds, ",".join(forms))


def from_model(rng, schedule, prop):
    """A behaviour of MC_Receiver, MC_Datagram or MC_Chunks as a schedule"""
    if prop == "C31":
        return made_from(schedule)
    if "chunks" in schedule:
        chunks = [bytes(c) for c in schedule["chunks"]]
        s = Sched(rng.choice(LKS)).cmd("r" + b"".join(chunks).hex())
        for c in chunks:
            s.feed(c).cmd("D")
        return s.cmd("e").line()
    s = Sched(schedule["lk"])
    if "datagrams" in schedule:
        for b in schedule["datagrams"]:
            b = bytes(b).hex()
            s.cmd("v" + b).cmd("u" + b).cmd("e") if prop == "C29" and rng.random() < 0.5 else s.cmd("u" + b)
        return s.line()
    msgs = [[bytes(u) for u in m] for m in schedule["msgs"]]
    if prop == "C03":
        whole = b"".join(b"".join(m) for m in msgs)
        if len(msgs) > 1:
            whole = b"".join(msgs[0])
        return chunked(rng, s, whole)
    for i, m in enumerate(msgs):
        if prop == "C09":
            s.cmd("F" + m[0].hex()).feed(m[0]).cmd("D")
            m = m[1:]
            if not m:
                continue
        if prop == "C29":
            s.cmd("u" + b"".join(m).hex())
            continue
        if prop == "C11" and i > 0:
            s.cmd("r" + b"".join(m).hex())
            s.feed(b"".join(m)).cmd("D").cmd("e")
            continue
        if prop == "C11" and rng.random() < 0.6:
            s.feed(b"".join(m) + raw(rng, rng.randrange(0, 50))).cmd("D")
            continue
        if prop == "C10":
            s.feed(m[0]).cmd("D").feed(b"\x01\x00\x00\x00").cmd("D")
            m = m[1:]
            if not m:
                continue
        deliver(rng, s, m)
    return s.line()


def chunked(rng, s, whole, k=None, units=None):
    s.cmd("r" + whole.hex())
    style = rng.random()
    if units and rng.random() < 0.35:
        # a chunk ends with each unit, and another one or two somewhere within it
        for u in units:
            at = 0
            for cut in sorted({rng.randrange(1, len(u)) for _ in range(rng.choice([0, 1, 1, 2]))} | {len(u)}):
                s.feed(u[at:cut]).cmd("D")
                at = cut
        return s.cmd("e").line()
    if style < 0.2 and len(whole) < 400:
        sizes = [1] * len(whole)
    elif style < 0.4:
        sizes = []
        left = len(whole)
        while left:
            n = min(left, rng.choice([1, 2, 3, 4, 5, 7, 16, 20]))
            sizes.append(n)
            left -= n
    else:
        sizes = parts(rng, len(whole), k or rng.randrange(2, 8))
    at = 0
    for n in sizes:
        s.feed(whole[at:at + n]).cmd("D")
        at += n
    s.cmd("e")
    return s.line()


def long_length(rng):
    return rng.choice([32767, 32768, 32769, 40000, 65531, 65532, 65533, 65534, 65535, 65535, 65535])


def chunk_case(rng):
    """One message, well formed, no open end"""
    s = Sched(rng.choice(LKS))
    units = message(rng, rng.randrange(0, 6), rng.choice([(3, 3, 2), (1, 6, 1)]))
    whole = b"".join(units)
    c = rng.random()
    if c < 0.04:
        # a header that will be rejected, once it has arrived
        bad = rejected(rng)
        for n in parts(rng, len(bad), rng.randrange(2, 6)):
            s.feed(bad[:n]).cmd("D")
            bad = bad[n:]
        return s.line()
    if c < 0.3:
        # cut inside one submessage at each place in turn
        i = rng.randrange(len(units))
        start = len(b"".join(units[:i]))
        cut = start + rng.randrange(0, len(units[i]))
        s.cmd("r" + whole.hex())
        s.feed(whole[:cut]).cmd("D").feed(whole[cut:]).cmd("D").cmd("e")
        return s.line()
    return chunked(rng, s, whole, units=units)


def long_case(rng, prop):
    """Submessages whose declared length does not fit 15 bits, or needs both bytes"""
    s = Sched(rng.choice(LKS))
    le = rng.random() < 0.5
    n = long_length(rng) if rng.random() < 0.7 else rng.choice([255, 256, 257, 511, 512, 1024, 4096])
    # the end is missing of the longest there can be
    longest = prop in ("C01", "C02", "C03") and rng.random() < 0.3
    if longest:
        n = 65535
    kind = rng.choice([rng.choice(UNKNOWN), PAD, HEARTBEAT, INFO_DST, INFO_TS, INFO_SRC, DATA])
    f = 1 if le else 0
    if kind == INFO_TS and rng.random() < 0.5:
        f |= 2
    body = content(rng, kind, le, False, f & 2 == 2) if kind in KNOWN - {PAD, DATA} else b""
    body += bytes([rng.randrange(256)]) * (n - len(body))
    units = [header(rng), submessage(kind, f, body), well_formed(rng, HEARTBEAT), well_formed(rng, INFO_DST)]
    # a cut near the end of the long one
    whole = b"".join(units)
    cut = len(units[0] + units[1]) + rng.choice(
        [-4, -3, -2, -1] if longest else [-9, -8, -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4])
    if prop == "C03":
        if longest or rng.random() < 0.5:
            return s.cmd("r" + whole.hex()).feed(whole[:cut]).cmd("D").feed(whole[cut:]).cmd("D").cmd("e").line()
        return chunked(rng, s, whole, 4)
    if prop in ("C01", "C02") and (longest or rng.random() < 0.5):
        if prop == "C02":
            s.cmd("r" + whole.hex())
        s.feed(whole[:cut]).cmd("D").feed(whole[cut:]).cmd("D")
        return (s.cmd("e") if prop == "C02" else s).line()
    if prop == "C29":
        return s.cmd("u" + b"".join(units).hex()).line()
    if prop == "C09":
        s.cmd("F" + units[0].hex()).feed(units[0]).cmd("D")
        units = units[1:]
    deliver(rng, s, units)
    return s.line()


def many_case(rng, profile, n):
    """A message of many submessages"""
    s = Sched(rng.choice(LKS))
    units = message(rng, n, profile)
    deliver(rng, s, units, rng.choice(["whole", "mixed"]))
    return s.line()


def crowd(rng, profile, prop=None):
    """More small messages to one receiver than a byte counts"""
    s = Sched(rng.choice(LKS))
    whole = rng.random() < 0.5
    bad = {"C10": 0.4, "C11": 0.4, "C01": 0.2}.get(prop, 0)
    for m in range(rng.randrange(257, 300)):
        units = message(rng, rng.randrange(0, 3), profile)
        if rng.random() < bad:
            # most of them are discarded
            if rng.random() < 0.3 or prop == "C10":
                s.feed(rejected(rng) + raw(rng, rng.randrange(6))).cmd("D")
            else:
                s.feed(b"".join(units) + malformed(rng)).cmd("D")
        elif prop == "C09" or prop == "C11" and rng.random() < 0.3:
            b = b"".join(units)
            s.cmd("v" + b.hex()).cmd("u" + b.hex()).cmd("e")
        elif whole:
            s.cmd("u" + b"".join(units).hex())
        else:
            deliver(rng, s, units + [end_message(rng)], "whole")
    return s.line()


def flood(rng):
    """Thousands of submessages that give nothing, all at hand at once"""
    s = Sched(rng.choice(LKS))
    le = rng.randrange(2)
    unit = rng.choice([submessage(PAD, le, b""), submessage(rng.choice(UNKNOWN), le, bytes(4)), submessage(INFO_TS, 2 | le, b""),
                       well_formed(rng, INFO_DST)])
    whole = header(rng) + unit * 4000 + well_formed(rng, HEARTBEAT)
    if rng.random() < 0.5:
        return s.cmd("u" + whole.hex()).line()
    return s.feed(whole).cmd("D").line()


def mutated(rng):
    """Damaged or arbitrary bytes, arbitrary chunks"""
    s = Sched(rng.choice(LKS))
    b = b""
    for _ in range(rng.randrange(1, 4)):
        units = message(rng, rng.randrange(0, 6), (3, 3, 2), last=0.3)
        if rng.random() < 0.4:
            units.append(malformed(rng, last=rng.random() < 0.3))
        c = rng.random()
        if c < 0.2:
            units.append(raw(rng, rng.randrange(0, 80)))
        b += b"".join(units)
    b = bytearray(b)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 5])):
        i = rng.randrange(len(b))
        c = rng.random()
        if c < 0.4:
            b[i] ^= 1 << rng.randrange(8)
        elif c < 0.6:
            b[i] = rng.choice([0, 1, 2, 127, 128, 255])
        elif c < 0.8:
            del b[i:i + rng.randrange(1, 9)]
            if not b:
                b = bytearray(b"\0")
        else:
            b[i:i] = raw(rng, rng.randrange(1, 9))
    b = bytes(b)
    at = 0
    for n in parts(rng, len(b), rng.randrange(1, 8)):
        s.feed(b[at:at + n])
        at += n
        s.cmd(rng.choice(["D", "D", "d"]))
    s.cmd("D")
    return s.line()


def wild(rng):
    """After a valid header: any kind, flags, declared length and content"""
    s = Sched(rng.choice(LKS))
    b = header(rng)
    for _ in range(rng.randrange(1, 6)):
        kind = rng.choice([rng.choice(sorted(KNOWN)), rng.randrange(256)])
        f = rng.randrange(256)
        body = raw(rng, rng.choice([0, 1, 4, 8, 12, 16, 24, 28, 32, 40, 60, 64, 100]))
        if rng.random() < 0.5:
            body = content(rng, kind, f & 1 == 1, f & 2 == 2, f & 2 == 2)
        n = rng.choice([None, None, 0, 1, 4, len(body) + 1, max(0, len(body) - 1), 65535, 32768])
        b += submessage(kind, f, body, n)
    if rng.random() < 0.5:
        b += bytes(rng.randrange(256) for _ in range(rng.randrange(100)))
    cut = rng.randrange(len(b))
    s.feed(b[:cut]).cmd("D").feed(b[cut:]).cmd("D")
    s.feed(header(rng) + well_formed(rng, HEARTBEAT)).cmd("D")
    return s.line()


def framing_case(rng):
    """Lengths, trailing bytes, unknown kinds; followed by witnesses"""
    s = Sched(rng.choice(LKS))
    units = [header(rng)]
    for _ in range(rng.randrange(1, 5)):
        c = rng.random()
        if c < 0.3:
            kind = rng.choice(UNKNOWN + [PAD, DATA, DATA_FRAG])
            f = rng.randrange(256)
            n = rng.choice([1, 2, 3, 4, 5, 20, 24, 255, 256, 257, 300, rng.randrange(1, 700)])
            if kind == PAD and rng.random() < 0.4:
                n = 0
            units.append(submessage(kind, f, raw(rng, n)))
        elif c < 0.75:
            units.append(well_formed(rng, rng.choice(ENTITIES + CONTEXTS), trailing=rng.choice([0, 1, 2, 3, 4, 8, 12, 24, 255, 256])))
        else:
            units.append(well_formed(rng, INFO_TS))
        if rng.random() < 0.5:
            units.append(well_formed(rng, HEARTBEAT, trailing=0))
    c = rng.random()
    if c < 0.05:
        # no timestamp where one is announced
        units += [submessage(INFO_TS, rng.randrange(256) & ~2, b"")] + [well_formed(rng, rng.choice([HEARTBEAT, INFO_DST])) for _ in range(2)]
        deliver(rng, s, units, "whole")
    elif c < 0.5:
        units.append(well_formed(rng, rng.choice(ENTITIES + [INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4, DATA, DATA_FRAG] + UNKNOWN[:40:3]),
                                 last=True, trailing=rng.choice([0, 1, 4, 7, 300])))
        deliver(rng, s, units)
        deliver(rng, s, message(rng, 2, (1, 1, 0)))
    else:
        deliver(rng, s, units)
    return s.line()


def admission_cases(rng, tier):
    """Headers with each byte changed"""
    out = []
    base = header(rng, version=b"\x02\x01", prefix=bytes(range(1, 13)))

    def case(h, junk, before):
        s = Sched(rng.choice(LKS))
        if before:
            deliver(rng, s, message(rng, 1, (1, 1, 1)) + [end_message(rng)], "whole")
        s.feed(h + junk).cmd("D").feed(b"\x01" + bytes([rng.randrange(2)]) + b"\0\0").cmd("D")
        h2 = header(rng)
        s.feed(h2 + well_formed(rng, INFO_DST)).cmd("D")
        out.append(s.line())

    for i in range(20):
        values = range(256) if i == 4 or tier == "thorough" else sorted(
            {base[i] ^ (1 << k) for k in range(8)} | {0, 1, 2, 3, 127, 128, 255, rng.randrange(256)})
        for v in values:
            h = bytearray(base)
            h[i] = v
            case(bytes(h), b"", rng.random() < 0.2)
            if rng.random() < 0.3:
                case(bytes(h), raw(rng, rng.randrange(1, 60)), False)
    for _ in range(60 if tier == "quick" else 600):
        h = bytearray(header(rng))
        for _ in range(rng.randrange(0, 3)):
            h[rng.randrange(6)] = rng.randrange(256)
        case(bytes(h), raw(rng, rng.randrange(0, 40)), rng.random() < 0.5)
    perm = [b"RTSP", b"SPTR", b"rtps", b"RTPX", b"STPR", b"PTRS", b"RTPS"[::-1], b"RRRR", b"\0\0\0\0"]
    for m in perm:
        case(header(rng, magic=m), b"", False)
    return out


def malformed_case(rng):
    s = Sched(rng.choice(LKS))
    units = message(rng, rng.randrange(0, 4), (2, 3, 1))
    m = malformed(rng, last=rng.random() < 0.15)
    open_ended = is_open(m)
    after = b"" if open_ended else rng.choice([
        lambda: b"", lambda: raw(rng, rng.randrange(1, 30)),
        lambda: well_formed(rng, HEARTBEAT) + well_formed(rng, INFO_DST),
        lambda: b"".join(message(rng, 2, (1, 1, 1))),
        lambda: b"".join(message(rng, 1, (0, 3, 0)))[:25]])()
    if rng.random() < 0.01 and not open_ended:
        after = rng.choice([well_formed(rng, HEARTBEAT), header(rng) + well_formed(rng, HEARTBEAT), bytes(32)]) * 2000
    how = rng.random()
    if how < 0.6 or open_ended:
        s.feed(b"".join(units) + m + after).cmd("D")
    else:
        deliver(rng, s, units)
        s.feed(m + after).cmd("D")
    units = message(rng, rng.randrange(0, 5), (2, 3, 1))
    whole = b"".join(units)
    s.cmd("r" + whole.hex()).feed(whole).cmd("D").cmd("e")
    return s.line()


PROFILES = {
    "C01": (3, 3, 2), "C02": (2, 2, 4), "C04": (8, 2, 1), "C05": (1, 8, 1), "C06": (1, 8, 1),
    "C07": (1, 8, 1), "C08": (1, 8, 1), "C09": (1, 8, 1), "C10": (1, 1, 1), "C11": (2, 2, 1),
    "C29": (3, 3, 3), "C31": (3, 3, 1), "C32": (2, 2, 2),
}

FOCUS = {"C05": [INFO_SRC], "C06": [INFO_DST], "C07": [INFO_REPLY, INFO_REPLY_IP4], "C08": [INFO_TS], "C09": CONTEXTS,
         "C04": ENTITIES}


def focus_case(rng, prop):
    """Messages with many submessages of the kinds in focus, each value different"""
    s = Sched(rng.choice(LKS))
    for m in range(rng.randrange(1, 4)):
        units = [header(rng)]
        if prop == "C09":
            s.cmd("F" + units[0].hex()).feed(units[0]).cmd("D")
            units = []
        for _ in range(rng.randrange(1, 7)):
            kind = rng.choice(FOCUS[prop]) if rng.random() < 0.6 else pick(rng, PROFILES[prop])
            units.append(well_formed(rng, kind))
        units.append(end_message(rng))
        deliver(rng, s, units)
    return s.line()


def generate(prop, rng, tier):
    k = 2 if tier == "quick" else 24
    out = [crowd(rng, PROFILES.get(prop, (3, 3, 2)), prop) for _ in range(k)]
    out += [many_case(rng, PROFILES.get(prop, (3, 3, 2)), 300) for _ in range(k)]
    if prop == "C01":
        out += [flood(rng) for _ in range(k)]
        out += [mutated(rng) for _ in range(900 * k)]
        out += [datagrams(rng, (3, 3, 2), 4) for _ in range(150 * k)]
        out += [wild(rng) for _ in range(500 * k)]
        out += [malformed_case(rng) for _ in range(200 * k)]
        out += [history(rng, (3, 3, 2), 3, 5) for _ in range(100 * k)]
        out += [long_case(rng, prop) for _ in range(6 * k)]
    elif prop == "C02":
        out += [framing_case(rng) for _ in range(700 * k)]
        out += [datagrams(rng, (2, 2, 4), 3) for _ in range(80 * k)]
        out += [history(rng, (2, 2, 4), 2, 6) for _ in range(150 * k)]
        out += [long_case(rng, prop) for _ in range(24 * k)]
        out += [many_case(rng, (2, 2, 4), 80) for _ in range(3 * k)]
    elif prop == "C03":
        out += [chunk_case(rng) for _ in range(700 * k)]
        out += [long_case(rng, prop) for _ in range(8 * k)]
    elif prop == "C10":
        out += admission_cases(rng, tier)
        out += [datagrams(rng, PROFILES[prop], 4) for _ in range(50 * k)]
    elif prop == "C31":
        out += [made_case(rng) for _ in range(1500 * k)]
    elif prop == "C32":
        out += [claims(rng) for _ in range(900 * k)]
        out += [kept_case(rng) for _ in range(16 * k)]
        out += [mutated(rng) for _ in range(150 * k)]
        out += [wild(rng) for _ in range(150 * k)]
        out += [long_case(rng, prop) for _ in range(6 * k)]
    elif prop == "C29":
        out += [datagrams(rng, PROFILES[prop], rng.randrange(1, 6), 0.5) for _ in range(700 * k)]
        out += [at_hand(rng, rng.choice([(1, 3, 3), (1, 0, 4), (1, 4, 0), (3, 1, 1)])) for _ in range(250 * k)]
        out += [long_case(rng, prop) for _ in range(6 * k)]
    elif prop == "C11":
        out += [malformed_case(rng) for _ in range(800 * k)]
        out += [datagrams(rng, (2, 2, 1), 3, 0.5) for _ in range(60 * k)]
    else:
        out += [focus_case(rng, prop) for _ in range(600 * k)]
        out += [history(rng, PROFILES[prop], 3, 6, prop == "C09") for _ in range(200 * k)]
        out += [datagrams(rng, PROFILES[prop], 3, 0.6 if prop == "C09" else 0.0) for _ in range(100 * k)]
        out += [many_case(rng, PROFILES[prop], 120) for _ in range(3 * k)]
        out += [long_case(rng, prop) for _ in range(4 * k)]
    return out
