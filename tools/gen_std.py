"""Schedules of standard-conforming messages (C28). The encoder is that of the
specification (MC_Receiver_std, MC_Wire_std); the random ones use wire.py, whose
only differences to the standard are in INFO_SRC (put right here) and in what the
bits of a bitmap mean (arbitrary here)."""
import gen_recv
import wire
from gen_recv import Sched, LKS, deliver
from wire import num, raw, submessage, order

KINDS = {"AckNack": wire.ACKNACK, "Gap": wire.GAP, "Heartbeat": wire.HEARTBEAT, "HeartbeatFrag": wire.HEARTBEAT_FRAG,
         "NackFrag": wire.NACK_FRAG, "InfoSource": wire.INFO_SRC, "InfoDestination": wire.INFO_DST, "Time_t": wire.INFO_TS,
         "LocatorList_t": wire.INFO_REPLY, "LocatorUDPv4_t": wire.INFO_REPLY_IP4}


def info_src(rng, le):
    unused = rng.choice([bytes(4), bytes(4), raw(rng, 4)])
    return submessage(wire.INFO_SRC, int(le), unused + bytes([2, rng.randrange(6)]) + wire.vendor(rng) + wire.guid_prefix(rng))


def one(rng, kind):
    le = rng.random() < 0.5
    if kind == wire.INFO_SRC:
        return info_src(rng, le)
    if kind in (wire.PAD, wire.DATA, wire.DATA_FRAG):
        return submessage(kind, int(le), raw(rng, 4 * rng.randrange(0 if kind == wire.PAD else 1, 6)))
    while True:
        f = int(le) | (2 if rng.random() < 0.5 else 0) | (4 if kind == wire.HEARTBEAT and rng.random() < 0.3 else 0)
        return submessage(kind, f, wire.content(rng, kind, le, f & 2 == 2, f & 2 == 2))


def message(rng, n):
    return [wire.header(rng, version=bytes([2, rng.randrange(6)]))] + [
        one(rng, rng.choice(wire.ENTITIES * 2 + wire.CONTEXTS * 2 + [wire.PAD, wire.DATA, wire.DATA_FRAG])) for _ in range(n)]


def bitmaps(rng):
    """Each single bit, and simple patterns, in each kind"""
    out = []
    for le in (False, True):
        units = [wire.header(rng)]
        for bit in range(256):
            body = bytearray(32)
            w = 1 << (31 - bit % 32)
            body[4 * (bit // 32):4 * (bit // 32) + 4] = num(w, 4, le)
            bm = num(256, 4, le) + bytes(body)
            kind = [wire.ACKNACK, wire.GAP, wire.NACK_FRAG][bit % 3]
            head = raw(rng, 8) + wire.sn(bit, le)
            head += {wire.ACKNACK: b"", wire.GAP: wire.sn(1000 * bit + 7, le), wire.NACK_FRAG: num(3 * bit, 4, le)}[kind]
            units.append(submessage(kind, int(le), head + bm + (b"" if kind == wire.GAP else num(bit, 4, le))))
            if len(units) == 33:
                s = Sched(rng.choice(LKS))
                deliver(rng, s, units, "whole")
                out.append(s.line())
                units = [wire.header(rng)]
    return out


def from_wire(rng, emitted):
    """Values encoded by MC_Wire_std as submessages of one message each"""
    out, units, n = [], [], 0
    for e in emitted:
        ty, le, b = e["ty"], e["le"], bytes(e["b"])
        if ty == "Header":
            if b[:4] != b"RTPS":
                b = b"RTPS\x02\x04" + b[6:]
            units.append(b)
            n += 1
        elif ty in KINDS:
            kind = KINDS[ty]
            units.append((kind, int(le), b))
        else:
            continue
    heads = [u for u in units if isinstance(u, bytes)]
    subs = [u for u in units if not isinstance(u, bytes)]
    rng.shuffle(subs)
    for i in range(0, len(subs), 6):
        s = Sched(rng.choice(LKS))
        h = rng.choice(heads) if heads else wire.header(rng)
        msg = [h]
        for kind, f, b in subs[i:i + 6]:
            if kind in (wire.INFO_REPLY, wire.INFO_REPLY_IP4) and rng.random() < 0.5:
                b, f = b + b, f | 2
            msg.append(submessage(kind, f, b))
        deliver(rng, s, msg)
        out.append(s.line())
    return out


def from_model(rng, s):
    return gen_recv.from_model(rng, s, "C28")


def generate(rng, tier):
    k = 1 if tier == "quick" else 12
    out = bitmaps(rng)
    for _ in range(700 * k):
        s = Sched(rng.choice(LKS))
        for m in range(rng.randrange(1, 4)):
            units = message(rng, rng.randrange(1, 8))
            # the last submessage may extend to the end of the message
            last = units[-1]
            if m < 2 and last[0] not in (wire.PAD, wire.INFO_TS):
                units[-1] = last[:2] + b"\0\0" + last[4:]
                deliver(rng, s, units)
            else:
                deliver(rng, s, units)
                break
        out.append(s.line())
    for _ in range(150 * k):
        # one message per datagram
        s = Sched(rng.choice(LKS))
        for m in range(rng.randrange(1, 4)):
            s.cmd("u" + b"".join(message(rng, rng.randrange(0, 8))).hex())
        out.append(s.line())
    return out
