"""An encoder for RTPS messages and random values, independent of the code under test."""
import random

PAD, ACKNACK, HEARTBEAT, GAP, INFO_TS = 1, 6, 7, 8, 9
INFO_SRC, INFO_REPLY_IP4, INFO_DST, INFO_REPLY = 12, 13, 14, 15
NACK_FRAG, HEARTBEAT_FRAG, DATA, DATA_FRAG = 18, 19, 21, 22
ENTITIES = [ACKNACK, GAP, HEARTBEAT, HEARTBEAT_FRAG, NACK_FRAG]
CONTEXTS = [INFO_SRC, INFO_DST, INFO_REPLY, INFO_REPLY_IP4, INFO_TS]
KNOWN = set(ENTITIES + CONTEXTS + [PAD, DATA, DATA_FRAG])
UNKNOWN = [k for k in range(256) if k not in KNOWN]


def order(b, le):
    return bytes(reversed(b)) if le else bytes(b)


def num(x, n, le):
    return (x % (1 << (8 * n))).to_bytes(n, "little" if le else "big")


def sn(x, le):
    x %= 1 << 64
    return num(x >> 32, 4, le) + num(x & 0xFFFFFFFF, 4, le)


def recent(rng, key, fresh, p=0.12):
    """A fresh value, or (with probability p) one that was drawn before: behaviour may depend on values being equal"""
    pool = rng.__dict__.setdefault("pool", {}).setdefault(key, [])
    if pool and rng.random() < p:
        return rng.choice(pool)
    value = fresh(rng)
    if len(pool) < 6:
        pool.append(value)
    else:
        pool[rng.randrange(6)] = value
    return value


# identifiers the protocol knows
ENTITY_IDS = [bytes.fromhex(x) for x in (
    "00000000 000001c1 000002c2 000002c7 000003c2 000003c7 000004c2 000004c7 000100c2 000100c7 000200c2 000200c7").split()]


def raw(rng, n):
    if n > 16:
        return raw_bytes(rng, n)
    if n == 4 and rng.random() < 0.12:
        return rng.choice(ENTITY_IDS)
    return recent(rng, n, lambda r: raw_bytes(r, n))


def raw_bytes(rng, n):
    c = rng.random()
    if c < 0.08:
        return bytes(n)
    if c < 0.12:
        return b"\xff" * n
    if c < 0.2:
        return bytes(rng.choice([0, 0, 0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n))
    b = bytes(rng.randrange(256) for _ in range(n))
    if c < 0.34 and n:
        # zeros (or ones) at an end
        k, end = rng.randrange(n + 1), rng.choice([0, 0, 255])
        b = rng.choice([lambda: bytes([end]) * k + b[k:], lambda: b[:k] + bytes([end]) * (n - k)])()
        if c < 0.24:
            b = bytes([end]) * (k // 2) + b[k // 2:]
    elif c < 0.38 and n:
        b = b[:1] * n
    return b


# the unknown number, and neighbours of extremes
SPECIAL64 = [-(1 << 32), 0, 1, -1, 2, (1 << 32) - 1, 1 << 32, (1 << 31) - 1, 1 << 31, -(1 << 32) - 1, -(1 << 32) + 1]


def any_i64(rng):
    if rng.random() < 0.1:
        return rng.choice(SPECIAL64)
    if rng.random() < 0.15:
        return recent(rng, "i64", new_i64, 0.9) + rng.choice([0, 0, 0, 1, -1, 1 << 32])
    return recent(rng, "i64", new_i64, 0)


def new_i64(rng):
    c = rng.random()
    if c < 0.2:
        return rng.randrange(-3, 400)
    if c < 0.5:
        k = rng.choice([7, 8, 15, 16, 23, 24, 31, 32, 33, 40, 48, 62])
        return rng.choice([1, 1, -1]) * (1 << k) + rng.randrange(-300, 300)
    if c < 0.65:
        return rng.choice([(1 << 63) - 1, -(1 << 63)])  # fixed up by the caller
    return rng.randrange(-(1 << 63), 1 << 63)


def i64(rng):
    x = max(-(1 << 63), min(any_i64(rng), (1 << 63) - 1))
    if rng.random() < 0.3:
        return x
    if x == (1 << 63) - 1:
        x -= rng.randrange(0, 300)
    elif x == -(1 << 63):
        x += rng.randrange(0, 300)
    return x


def i64_after(rng, x):
    """A number that may have to do with x"""
    if rng.random() < 0.6:
        return i64(rng)
    y = x + rng.choice([0, 0, 1, -1, 2, 255, 256, 257, -256, 31, 32, rng.randrange(300), 1 << 32, 1 << 31])
    return y if -(1 << 63) + 300 <= y <= (1 << 63) - 300 else x


def version(rng):
    return bytes(rng.choice([(1, 0), (1, 1), (2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5)])) if rng.random() < 0.4 else raw(rng, 2)


def vendor(rng):
    return bytes([1, rng.randrange(1, 19)]) if rng.random() < 0.3 else raw(rng, 2)


def guid_prefix(rng):
    return recent(rng, "prefix", lambda r: raw(r, 12), 0.25)


def timestamp(rng, le):
    """Times that are special, or were there before, or nearly"""
    c = rng.random()
    if c < 0.2:
        sec, frac = rng.choice([(0, 0), (0xFFFFFFFF, 0xFFFFFFFF), (0x7FFFFFFF, 0xFFFFFFFF), (0, 1), (0xFFFFFFFF, 0), (0x7FFFFFFF, 0)])
    else:
        sec, frac = recent(rng, "timestamp", lambda r: (u32(r), u32(r)), 0.3)
        if c < 0.35:
            sec, frac = rng.choice([(sec, frac ^ 1), (sec ^ 1, frac), (sec, u32(rng)), (u32(rng), frac), (sec ^ (1 << 31), frac)])
    return num(sec, 4, le) + num(frac, 4, le)


def u32(rng):
    return recent(rng, "u32", new_u32)


def new_u32(rng):
    c = rng.random()
    if c < 0.25:
        return rng.randrange(0, 400)
    if c < 0.5:
        return max(0, (1 << rng.choice([7, 8, 15, 16, 23, 24, 31])) + rng.randrange(-300, 300)) % (1 << 32)
    if c < 0.65:
        return (1 << 32) - 1 - rng.randrange(0, 300)
    return rng.randrange(1 << 32)


def bitmap(rng, le, bits=None):
    """A declared number of bits and its words, arbitrary content"""
    if bits is None:
        bits = rng.choice([0, 1, 2, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, rng.randrange(257)])
    words = (bits + 31) // 32
    c = rng.random()
    if c < 0.4:
        body = bytes(rng.randrange(256) for _ in range(4 * words))
    elif c < 0.7:
        body = bytearray(4 * words)
        for _ in range(rng.randrange(1, 5)):
            if body:
                body[rng.randrange(len(body))] |= 1 << rng.randrange(8)
    elif c < 0.85:
        body = b"\xff" * (4 * words)
    else:
        body = bytes(4 * words)
    return num(bits, 4, le) + bytes(body)


def locator(rng, le, bad=False):
    if not bad:
        # a locator that was there before, the invalid one, or an invalid one with something in it
        c = rng.random()
        if c < 0.12:
            k, p, a = recent(rng, "locator", lambda r: (rng.choice([0xFFFFFFFF, 0, 1, 2]), port(r), raw(r, 16)), 0.8)
            return num(k, 4, le) + num(p, 4, le) + a
        if c < 0.2:
            k, p, a = rng.choice([(0xFFFFFFFF, 0, bytes(16)), (0xFFFFFFFF, 7400, bytes(16)), (0xFFFFFFFF, 0, bytes(15) + b"\1"),
                                  (0, 0, bytes(16)), (1, 0, bytes(16)), (2, 0, bytes(16)), (1, 7400, bytes(16)), (2, 7400, bytes(16))])
            return num(k, 4, le) + num(p, 4, le) + a
    kind = rng.choice([0xFFFFFFFF, 0, 1, 2])
    if bad:
        kind = rng.choice([3, 4, 0x01000000, 0x02000000, 0xFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFF, rng.randrange(5, 1 << 31)])
    return num(kind, 4, le) + num(u32(rng) if rng.random() < 0.5 else port(rng), 4, le) + raw(rng, 16)


def locators(rng, le, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 5, rng.randrange(12)])
        if rng.random() < 0.02:
            n = rng.choice([15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 255, 256, 257])
    items = [locator(rng, le) for _ in range(n)]
    if n > 1 and rng.random() < 0.15:
        items[rng.randrange(n)] = rng.choice(items)
    return num(n, 4, le) + b"".join(items)


def address(rng):
    return rng.choice([bytes([10, 0, 0, rng.randrange(1, 256)]), bytes([239, 255, 0, 1]), raw(rng, 4), raw(rng, 4), bytes(4),
                       bytes([0, 0, 0, 1]), bytes([1, 0, 0, 0]), b"\xff\xff\xff\xff"])


def port(rng):
    return rng.choice([7400, 0, 1, 255, 256, 65535, 65536, 70000, rng.randrange(65536), rng.randrange(65536), u32(rng)])


def ip4(rng, le):
    return order(address(rng), le) + num(port(rng), 4, le)


def content(rng, kind, le, multicast=False, invalidate=False):
    """A well-formed content"""
    if kind in ENTITIES:
        ids = raw(rng, 4) + raw(rng, 4)
        if rng.random() < 0.06:
            ids = ids[:4] * 2
    if kind == ACKNACK:
        return ids + sn(i64(rng), le) + bitmap(rng, le) + num(u32(rng), 4, le)
    if kind == GAP:
        x = i64(rng)
        return ids + sn(x, le) + sn(i64_after(rng, x), le) + bitmap(rng, le)
    if kind == HEARTBEAT:
        x = i64(rng)
        return ids + sn(x, le) + sn(i64_after(rng, x), le) + num(u32(rng), 4, le)
    if kind == HEARTBEAT_FRAG:
        return ids + sn(i64(rng), le) + num(u32(rng), 4, le) + num(u32(rng), 4, le)
    if kind == NACK_FRAG:
        return ids + sn(i64(rng), le) + num(u32(rng), 4, le) + bitmap(rng, le) + num(u32(rng), 4, le)
    if kind == INFO_SRC:
        return version(rng) + vendor(rng) + guid_prefix(rng)
    if kind == INFO_DST:
        return bytes(12) if rng.random() < 0.3 else guid_prefix(rng)
    if kind == INFO_REPLY:
        return locators(rng, le) + (locators(rng, le) if multicast else b"")
    if kind == INFO_REPLY_IP4:
        return ip4(rng, le) + (ip4(rng, le) if multicast else b"")
    if kind == INFO_TS:
        return b"" if invalidate else timestamp(rng, le)
    return raw(rng, rng.choice([0, 1, 2, 3, 4, 8, 20, 24, rng.randrange(64)]))


def submessage(kind, flags, body, length=None):
    n = len(body) if length is None else length
    return bytes([kind, flags]) + num(n, 2, flags & 1 == 1) + body


def header(rng, magic=b"RTPS", version=None, prefix=None):
    if version is None:
        version = bytes([rng.choice([0, 1, 2, 2, 2]), rng.choice([0, 1, 2, 4, 5, 255, rng.randrange(256)])])
    b = version + vendor(rng) + (guid_prefix(rng) if prefix is None else prefix)
    return magic + (recent(rng, "header", lambda _: b, 0.1) if prefix is None else b)


def flags_for(rng, kind, le):
    f = 1 if le else 0
    if rng.random() < 0.4:
        f |= rng.randrange(128) * 2
    elif rng.random() < 0.5:
        f |= 2
    return f


def well_formed(rng, kind, le=None, last=False, trailing=None, flags=None):
    """A well-formed submessage of this kind, now and then the same as an earlier one"""
    if le is None and trailing is None and flags is None:
        return recent(rng, (kind, last), lambda r: new_well_formed(r, kind, None, last), 0.08)
    return new_well_formed(rng, kind, le, last, trailing, flags)


def new_well_formed(rng, kind, le=None, last=False, trailing=None, flags=None):
    le = rng.random() < 0.5 if le is None else le
    f = flags_for(rng, kind, le) if flags is None else flags
    le = f & 1 == 1
    body = content(rng, kind, le, f & 2 == 2, f & 2 == 2)
    if trailing is None:
        trailing = 0
        if rng.random() < 0.25:
            trailing = rng.choice([1, 2, 3, 4, 5, 8, 24, rng.randrange(64), 300])
    body += raw(rng, trailing)
    if last and kind not in (PAD, INFO_TS):
        return submessage(kind, f, body, 0)
    if not body and kind not in (PAD, INFO_TS):
        # a declared length of zero would make it the last one
        body = raw(rng, rng.randrange(1, 9))
        if kind in KNOWN - {DATA, DATA_FRAG}:
            raise AssertionError(kind)
    return submessage(kind, f, body)


def malformed(rng, kind=None, last=False):
    """A complete submessage of a supported kind with an undecodable content"""
    kind = kind or rng.choice(ENTITIES + CONTEXTS)
    le = rng.random() < 0.5
    f = flags_for(rng, kind, le)
    if kind == INFO_TS:
        f &= ~2
    multicast = f & 2 == 2
    cases = ["short"]
    if kind in (ACKNACK, GAP, NACK_FRAG):
        cases += ["bits", "hugebits", "words"]
    if kind == INFO_REPLY:
        cases += ["kind", "kind", "count", "hugecount"]
    how = rng.choice(cases)
    if how == "short":
        if kind in (ACKNACK, GAP, NACK_FRAG):
            ids = raw(rng, 8) + sn(i64(rng), le)
            ids += {GAP: sn(i64(rng), le), NACK_FRAG: num(u32(rng), 4, le), ACKNACK: b""}[kind]
            body = ids + bitmap(rng, le) + (b"" if kind == GAP else num(u32(rng), 4, le))
        elif kind == INFO_REPLY:
            body = locators(rng, le, rng.randrange(1, 4)) + (locators(rng, le, rng.randrange(3)) if multicast else b"")
        else:
            body = content(rng, kind, le, multicast)
        cut = rng.choice([1, 1, 2, 4, rng.randrange(1, len(body) + 1)])
        body = body[:max(0, len(body) - cut)]
    elif how in ("bits", "hugebits", "words"):
        body = raw(rng, 8) + sn(i64(rng), le)
        body += {GAP: sn(i64(rng), le), NACK_FRAG: num(u32(rng), 4, le), ACKNACK: b""}[kind]
        if how == "bits":
            n = rng.choice([257, 258, 287, 288, 289, 300, 512, 1000])
            body += bitmap(rng, le, n) + raw(rng, 8)
        elif how == "hugebits":
            n = rng.choice([0xFFFFFFFF, 0xFFFFFFE0, 0xFFFFFFE1, 0x80000000, 0x7FFFFFFF, 1 << 24, 65536, 0x01000000, 0x00010000])
            body += num(n, 4, le) + raw(rng, 80)
        else:
            n = rng.choice([64, 100, 256, 33])
            body += num(n, 4, le) + raw(rng, rng.randrange(0, 4 * ((n + 31) // 32)))
    else:
        n = rng.randrange(1, 5)
        if how == "kind":
            k = rng.randrange(n)
            body = num(n, 4, le) + b"".join(locator(rng, le, i == k) for i in range(n))
            if multicast:
                body += locators(rng, le)
            if multicast and rng.random() < 0.3:
                body = locators(rng, le) + num(1, 4, le) + locator(rng, le, True)
        else:
            body = locators(rng, le) if multicast and rng.random() < 0.5 else b""
            if how == "count":
                body += num(n + rng.randrange(1, 4), 4, le) + b"".join(locator(rng, le) for _ in range(n))
            else:
                body += num(rng.choice([0xFFFFFFFF, 0x80000000, 0x0AAAAAAB, 0x15555556, 178956971]), 4, le) + raw(rng, 48)
    return submessage(kind, f, body, 0 if last or not body else None)
