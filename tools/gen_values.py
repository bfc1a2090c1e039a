"""Schedules for single values (families V and P)."""
import wire
from wire import bitmap, i64, ip4, locator, locators, num, raw, sn, u32

TYPES = ["EntityId_t", "GuidPrefix_t", "GUID_t", "InstanceHandle_t", "ProtocolId_t", "ProtocolVersion_t", "VendorId_t",
         "SubmessageFlag", "SubmessageKind", "SubmessageHeader", "Header", "SequenceNumber_t", "FragmentNumber_t", "Count_t",
         "Time_t", "Duration_t", "ReliabilityKind_t", "TopicKind_t", "LocatorKind_t", "Locator_t", "LocatorList_t",
         "LocatorUDPv4_t", "ParameterId", "Parameter", "BitSetRef", "SequenceNumberSet_t", "FragmentNumberSet_t", "AckNack",
         "Gap", "Heartbeat", "HeartbeatFrag", "NackFrag", "InfoSource", "InfoDestination"]
RAW = {"EntityId_t": 4, "GuidPrefix_t": 12, "GUID_t": 16, "InstanceHandle_t": 16, "ProtocolId_t": 4, "ProtocolVersion_t": 2,
       "VendorId_t": 2, "SubmessageFlag": 1, "SubmessageKind": 1, "Header": 20, "InfoSource": 16, "InfoDestination": 12}
ENTITY = {"AckNack": wire.ACKNACK, "Gap": wire.GAP, "Heartbeat": wire.HEARTBEAT, "HeartbeatFrag": wire.HEARTBEAT_FRAG,
          "NackFrag": wire.NACK_FRAG}


def wild64(rng):
    return rng.choice([i64(rng), rng.randrange(-(1 << 63), 1 << 63), (1 << 63) - 1, -(1 << 63), -1, 0])


def value(rng, ty, le):
    """The bytes of a value"""
    if ty == "VendorId_t":
        return wire.vendor(rng)
    if ty == "ProtocolVersion_t":
        return wire.version(rng)
    if ty == "InfoSource":
        return wire.version(rng) + wire.vendor(rng) + wire.guid_prefix(rng)
    if ty in RAW:
        return raw(rng, RAW[ty])
    if ty in ENTITY:
        return wire.content(rng, ENTITY[ty], le)
    if ty == "SubmessageHeader":
        return raw(rng, 4)
    if ty == "SequenceNumber_t":
        return sn(wild64(rng), le)
    if ty in ("FragmentNumber_t", "Count_t", "ReliabilityKind_t"):
        return num(u32(rng), 4, le)
    if ty in ("Time_t", "Duration_t"):
        return wire.timestamp(rng, le)
    if ty == "LocatorUDPv4_t":
        return num(u32(rng), 4, le) + num(u32(rng), 4, le)
    if ty == "TopicKind_t":
        return num(rng.choice([1, 2]), 4, le)
    if ty == "LocatorKind_t":
        return num(rng.choice([-1, 0, 1, 2]), 4, le)
    if ty == "Locator_t":
        return locator(rng, le)
    if ty == "LocatorList_t":
        return locators(rng, le)
    if ty == "ParameterId":
        return num(u32(rng), 2, le)
    if ty == "Parameter":
        n = 4 * rng.choice([0, 1, 2, 3, 5, 63, 64, 65])
        return num(u32(rng), 2, le) + num(n, 2, le) + raw(rng, n)
    if ty == "BitSetRef":
        return bitmap(rng, le)
    if ty == "SequenceNumberSet_t":
        return sn(wild64(rng), le) + bitmap(rng, le)
    if ty == "FragmentNumberSet_t":
        return num(u32(rng), 4, le) + bitmap(rng, le)
    raise AssertionError(ty)


HUGE = [0xFFFFFFFF, 0xFFFFFFE0, 0xFFFFFFE1, 0x80000000, 0x7FFFFFFF, 0x01000000, 0x00010000, 0x0AAAAAAB, 0x15555556, 0xAAAAAAAB]


def undecodable(rng, ty, le):
    """Bytes of which no value of the type can be read, not just cut off"""
    def bits():
        c = rng.randrange(3)
        if c == 0:
            n = rng.choice([257, 258, 287, 288, 289, 512, 1000])
            return bitmap(rng, le, n) + raw(rng, 8)
        if c == 1:
            return num(rng.choice(HUGE), 4, le) + raw(rng, rng.choice([0, 32, 80]))
        n = rng.randrange(1, 257)
        return num(n, 4, le) + raw(rng, rng.randrange(0, 4 * ((n + 31) // 32)))
    if ty == "TopicKind_t":
        return num(rng.choice([0, 3, -1, 0x01000000, 0x02000000, 0x101, 0x10002, rng.randrange(3, 1 << 32)]), 4, le)
    if ty in ("LocatorKind_t", "Locator_t"):
        b = locator(rng, le, True)
        return b[:4] if ty == "LocatorKind_t" else b
    if ty == "LocatorList_t":
        n = rng.randrange(1, 6)
        c = rng.randrange(3)
        if c == 0:
            k = rng.randrange(n)
            return num(n, 4, le) + b"".join(locator(rng, le, i == k) for i in range(n))
        if c == 1:
            return num(n + rng.randrange(1, 4), 4, le) + b"".join(locator(rng, le) for _ in range(n))
        return num(rng.choice(HUGE), 4, le) + raw(rng, rng.choice([0, 24, 48, 72]))
    if ty == "Parameter":
        n = rng.randrange(1, 65536)
        return num(u32(rng), 2, le) + num(n, 2, le) + raw(rng, rng.randrange(0, min(n, 60)))
    if ty == "BitSetRef":
        return bits()
    if ty == "SequenceNumberSet_t":
        return sn(wild64(rng), le) + bits()
    if ty == "FragmentNumberSet_t":
        return num(u32(rng), 4, le) + bits()
    if ty in ("AckNack", "Gap", "NackFrag"):
        head = raw(rng, 8) + sn(i64(rng), le)
        head += {"Gap": sn(i64(rng), le), "NackFrag": num(u32(rng), 4, le), "AckNack": b""}[ty]
        n = rng.choice([257, 258, 287, 288, 300, 512])
        return head + (bitmap(rng, le, n) if rng.random() < 0.5 else num(rng.choice(HUGE), 4, le) + raw(rng, 80)) + raw(rng, 4)
    return None


SPECIAL = ["TopicKind_t", "LocatorKind_t", "Locator_t", "LocatorList_t", "Parameter", "BitSetRef", "SequenceNumberSet_t",
           "FragmentNumberSet_t", "AckNack", "Gap", "NackFrag"]


def rt(ty, le, b):
    return "rt:%s:%d:%s" % (ty, le, bytes(b).hex())


def lines(words, n=12, family="V"):
    return [" ".join([family] + words[i:i + n]) for i in range(0, len(words), n)]


def round_trips(rng, k, emitted):
    words = [rt(s["ty"], s["le"], s["b"]) for s in emitted]
    for ty in TYPES:
        for _ in range(24 * k):
            le = rng.random() < 0.5
            words.append(rt(ty, le, value(rng, ty, le)))
    for b in range(256):
        words.append(rt("SubmessageHeader", b & 1, bytes([rng.randrange(256), b]) + raw(rng, 2)))
    return lines(words) + all_values(rng, k)


def sequences(rng, k, emitted):
    """Values one after another in one buffer, each in its own byte order"""
    out = []

    def line(values):
        text = bytearray()
        names = []
        for ty, le, b in values:
            text += bytes(b)
            names.append("%s%d" % (ty, le))
        c = rng.random()
        if c < 0.25 and text:
            del text[rng.randrange(max(0, len(text) - 40), len(text)):]
        elif c < 0.8:
            text += raw(rng, rng.randrange(1, 40))
        out.append("V seq:%s:%s" % (text.hex() or "00", ",".join(names)))

    emitted = list(emitted)
    rng.shuffle(emitted)
    for i in range(0, len(emitted), 3):
        line([(s["ty"], 1 if s["le"] else 0, s["b"]) for s in emitted[i:i + 3]])
    for ty in TYPES:
        for _ in range(6 * k):
            values = []
            for t in [ty, rng.choice(TYPES), rng.choice(TYPES + [ty])]:
                le = rng.random() < 0.5
                values.append((t, 1 if le else 0, value(rng, t, le)))
            rng.shuffle(values)
            line(values)
        # every end that is too early, for the buffer and for the stream
        le = rng.random() < 0.5
        b = value(rng, ty, le)
        for cut in cuts_of(rng, b):
            first, e = rng.choice(TYPES), rng.random() < 0.5
            a = value(rng, first, e) if rng.random() < 0.5 else None
            text, names = bytes(b[:cut]), "%s%d" % (ty, le)
            if a is not None:
                text, names = bytes(a) + text, "%s%d,%s" % (first, e, names)
            out.append("V seq:%s:%s" % (text.hex() or "00", names))
    return out


def cuts_of(rng, b):
    """Where a value is cut off: anywhere, or at some of the places of a long one"""
    if len(b) <= 60:
        return range(len(b))
    return sorted(set(list(range(0, 28)) + rng.sample(range(28, len(b)), 16) + [len(b) - 1, len(b) - 4]))


def truncations(rng, k, emitted):
    words = []
    for ty in TYPES:
        for j in range(2 * k):
            le = (j + k) % 2 == 0 if j < 2 else rng.random() < 0.5
            b = value(rng, ty, le)
            words += [rt(ty, le, b[:c]) for c in cuts_of(rng, b)]
    for s in emitted:
        n = len(s["b"])
        for c in {n - 1, max(0, n - 4), rng.randrange(n)} if n else ():
            words.append(rt(s["ty"], s["le"], s["b"][:c]))
    for ty in SPECIAL:
        for _ in range(40 * k):
            le = rng.random() < 0.5
            words.append(rt(ty, le, undecodable(rng, ty, le)))
    for ty, size in (("TopicKind_t", 0), ("LocatorKind_t", 0), ("Locator_t", 20)):
        for byte in range(4):
            for v in range(0, 256):
                b = bytearray(4)
                b[byte] = v
                if k == 1 and ty == "Locator_t" and v > 8:
                    continue
                for le in (False, True):
                    words.append(rt(ty, le, bytes(b) + raw(rng, size)))
    for n in range(250, 300):
        words.append(rt("BitSetRef", n % 2, bitmap(rng, n % 2 == 1, n)))
    return lines(words) + all_claims(rng, k)


def near(rng, ty, b):
    """A value next to this one: other in one place, or with parts exchanged"""
    b = bytearray(b)
    c = rng.random()
    if not b:
        return bytes(b)
    if c < 0.4:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    elif c < 0.6:
        i = rng.randrange(len(b))
        b[i] = (b[i] + rng.choice([1, -1, 127, 128])) % 256
    elif c < 0.8:
        i, j = rng.randrange(len(b)), rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    elif c < 0.9:
        b.reverse()
    else:
        i = rng.randrange(len(b))
        b[i:] = bytes(len(b) - i)
    return bytes(b)


def swapped(ty, b):
    """The bytes of the same value in the other byte order, for types of simple layout"""
    if ty in RAW:
        return b
    if ty == "SequenceNumber_t":
        return b[3::-1] + b[:3:-1]
    if ty in ("FragmentNumber_t", "Count_t", "ReliabilityKind_t", "TopicKind_t", "LocatorKind_t", "ParameterId"):
        return b[::-1]
    if ty in ("Time_t", "Duration_t", "LocatorUDPv4_t"):
        return b[3::-1] + b[:3:-1]
    if ty == "Locator_t":
        return b[3::-1] + b[7:3:-1] + b[8:]
    return None


FIXED = [t for t in TYPES if t in RAW or t in ("SubmessageHeader", "SequenceNumber_t", "FragmentNumber_t", "Count_t", "Time_t",
                                               "Duration_t", "ReliabilityKind_t", "LocatorUDPv4_t", "ParameterId", "Heartbeat",
                                               "HeartbeatFrag")]


def respread(rng, ty, le):
    """Two encodings of values with number sets: the same members, or almost"""
    bits = rng.choice([0, 1, 5, 31, 32, 33, 64, 100, 200, 255, 256])
    words = (bits + 31) // 32
    body = bytearray(4 * words)
    members = [rng.randrange(bits) for _ in range(rng.randrange(0, 5))] if bits else []

    def put(ms, w):
        body = bytearray(4 * w)
        for m in ms:
            # bit m % 32 of the long, counted from the lowest
            k = (m % 32) // 8
            body[4 * (m // 32) + (k if le else 3 - k)] |= 1 << (m % 8)
        return bytes(body)
    more = min(256, bits + rng.choice([0, 1, 31, 32, 64]))
    other = list(members)
    c = rng.random()
    if c < 0.4 and more:
        m = rng.randrange(more)
        other = [x for x in other if x != m] if m in other else other + [m]
    a = num(bits, 4, le) + put(members, words)
    b = num(more, 4, le) + put([m for m in other if m < more], (more + 31) // 32)
    if ty == "BitSetRef":
        return a, b
    base = sn(rng.choice([0, 1, 5, 1 << 32, -1, (1 << 63) - 3, rng.randrange(1 << 40)]), le)
    if ty in ("FragmentNumberSet_t", "NackFrag"):
        base = num(rng.choice([0, 1, 5, 65536, (1 << 32) - 3]), 4, le)
    head, tail = b"", b""
    if ty in ENTITY:
        head = raw(rng, 8)
        tail = num(u32(rng), 4, le) if ty != "Gap" else b""
        if ty in ("Gap", "NackFrag"):
            head += sn(rng.randrange(1 << 20), le)
    return head + base + a + tail, head + base + b + tail


def comparisons(rng, k, emitted):
    def word(ty, le, a, le2, b):
        return "cmp:%s:%d:%s:%d:%s" % (ty, le, bytes(a).hex(), le2, bytes(b).hex())
    words = [word(s["ty"], 1, s["a"], 0, s["b"]) for s in emitted]
    for ty in TYPES:
        for _ in range(20 * k):
            le = rng.random() < 0.5
            a = value(rng, ty, le)
            words.append(word(ty, le, a, le, a))
            b = swapped(ty, a)
            if b is not None:
                words.append(word(ty, le, a, not le, b))
            words.append(word(ty, le, a, le, value(rng, ty, le)))
        if ty in FIXED:
            for _ in range(40 * k):
                le = rng.random() < 0.5
                a = value(rng, ty, le)
                words.append(word(ty, le, a, le, near(rng, ty, a)))
                # few different bytes: fields agree in part
                a = bytes(rng.choice([0, 0, 1, 127, 128, 255]) for _ in a)
                words.append(word(ty, le, a, le, near(rng, ty, a)))
    for ty in ("BitSetRef", "SequenceNumberSet_t", "FragmentNumberSet_t", "AckNack", "Gap", "NackFrag"):
        for _ in range(60 * k):
            le = rng.random() < 0.5
            a, b = respread(rng, ty, le)
            words.append(word(ty, le, a, le, b))
    for _ in range(60 * k):
        le = rng.random() < 0.5
        n = rng.randrange(0, 4)
        a = [locator(rng, le) for _ in range(n)]
        b = list(a)
        c = rng.randrange(4)
        if c == 0 and b:
            b.pop(rng.randrange(n))
        elif c == 1:
            b.append(rng.choice(a) if a else locator(rng, le))
        elif c == 2:
            rng.shuffle(b)
        elif b:
            i = rng.randrange(n)
            x = bytearray(b[i])
            x[rng.randrange(4, 24)] ^= 1 << rng.randrange(8)
            b[i] = bytes(x)
        words.append(word("LocatorList_t", le, num(len(a), 4, le) + b"".join(a), le, num(len(b), 4, le) + b"".join(b)))
    for ty in ("CacheChange", "ItemAckNack", "ItemHeartbeat"):
        for _ in range(80 * k):
            le, le2 = rng.random() < 0.5, rng.random() < 0.5
            fields = lambda: [bytes([rng.randrange(3)]), raw(rng, 16), raw(rng, 16), i64(rng)]  # noqa: E731
            if ty != "CacheChange":
                fields = lambda: [bytes([rng.choice([0, 1, 2, 3, 128, rng.randrange(256)])]),  # noqa: E731
                                  wire.content(rng, ENTITY[ty[4:]], le)]
            a, b = fields(), fields()
            # all fields but some are the same
            b = [y if rng.random() < 0.4 else x for x, y in zip(a, b)]
            if ty == "CacheChange":
                if rng.random() < 0.2:
                    i = rng.randrange(1, 3)
                    b[i] = near(rng, ty, a[i])
                put = lambda fs, o: b"".join(fs[:3]) + sn(fs[3], o)  # noqa: E731
                words.append(word(ty, le, put(a, le), le2, put(b, le2)))
            else:
                if rng.random() < 0.3:
                    b[1] = near(rng, ty, a[1])
                words.append(word(ty, le, b"".join(a), le, b"".join(b)))
    for ty in ("Locator_t",):
        for _ in range(60 * k):
            le = rng.random() < 0.5
            a = bytearray(locator(rng, le))
            b = bytearray(a)
            b[rng.randrange(4, 24)] ^= 1 << rng.randrange(8)
            if rng.random() < 0.3:
                b[:4] = num(rng.choice([-1, 0, 1, 2]), 4, le)
            words.append(word(ty, le, a, le, b))
    rng.shuffle(words)
    return lines(words)


def parameters(rng, k, emitted):
    words = ["p:%d:%d:%s:%s" % (s["le"], s["id"][0] * 256 + s["id"][1], bytes(s["v"]).hex(), "" if s["le"] else "00ff0102")
             for s in emitted]
    sizes = list(range(0, 70)) + [127, 128, 129, 252, 253, 254, 255, 256, 257, 258, 260, 511, 512, 1021, 1023, 1024, 1025]
    for n in sizes:
        for le in (0, 1):
            for _ in range(k):
                words.append("p:%d:%d:%s:%s" % (le, rng.choice([0, 1, 0x1D, 0x70, 0x1D00, 0x8000, 65535, rng.randrange(65536)]),
                                               raw(rng, n).hex(), raw(rng, rng.choice([0, 0, 1, 4, 9])).hex()))
    for n in list(range(0, 24)) + [255, 256, 257, 1023, 65533, 65535]:
        for le in (0, 1):
            for have in {0, 1, n - 1, n, n + 1, n + 3, n + 4, n + 9}:
                if 0 <= have <= 1100:
                    words.append("r:%d:%s" % (le, (num(rng.randrange(65536), 2, le) + num(n, 2, le) + raw(rng, have)).hex()))
    for cut in range(4):
        words.append("r:1:%s" % raw(rng, cut).hex())
    out = lines(words, 6, "P")
    for n in [4095, 4097, 32765, 32767, 32768, 32769, 65529, 65530, 65531, 65532, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131072]:
        for le in (0, 1):
            out.append("P p:%d:%d:%s:%s" % (le, rng.randrange(65536), raw(rng, n).hex(), "0102"))
    return out


ADDRESSES4 = [bytes(4), bytes([0, 0, 0, 1]), bytes([1, 0, 0, 0]), bytes([0, 1, 0, 0]), bytes([127, 0, 0, 1]), bytes([239, 255, 0, 1]),
              b"\xff" * 4, bytes([10, 0, 0, 0])]
ADDRESSES6 = [bytes(16), bytes(15) + b"\x01", b"\x01" + bytes(15), b"\xff" * 16, bytes(10) + b"\xff\xff\x0a\x00\x00\x01",
              bytes(12) + b"\x7f\x00\x00\x01", bytes(10) + b"\xff\xff" + bytes(4), b"\xff\x02" + bytes(13) + b"\x01", bytes(7) + b"\x01" + bytes(8),
              b"\x20\x01\x0d\xb8" + bytes(11) + b"\x01"]
PORTS = [0, 1, 2, 255, 256, 257, 7400, 7411, 32767, 32768, 65279, 65280, 65534, 65535]
LONG_PORTS = PORTS + [65536, 65537, 65536 + 7400, 131072, 1 << 24, (1 << 24) + 7400, 1 << 31, (1 << 32) - 1, 0xFFFF0000, 0xFFFF1CE8, 0x1CE80000]


def marked(rng, b, i, j):
    """Hex of the bytes b, the i-th and j-th of which take every value"""
    text = [("%02x" % x) for x in b]
    text[i], text[j] = "^", "~"
    return "".join(text)


def every(words):
    """Each of these is executed for every value of two bytes"""
    return lines(["all;" + w for w in words], 1)


def background(rng, n):
    c = rng.randrange(4)
    if c == 0:
        return bytes(n - 1) + b"\x01"
    if c == 1:
        return bytes([255] * n)
    return raw(rng, n)


def all_addresses(rng, k):
    words = ["sa4:%s:#" % raw(rng, 4).hex(), "sa6:%s:#" % raw(rng, 16).hex(),
             "loc:%s" % marked(rng, num(1, 4, False) + bytes(4) + bytes(12) + raw(rng, 4), 6, 7),
             "loc:%s" % marked(rng, num(2, 4, False) + bytes(4) + raw(rng, 16), 6, 7),
             "loc:%s" % marked(rng, num(rng.choice([1, 2]), 4, False) + num(rng.randrange(1 << 32), 4, False) + raw(rng, 16), 4, 5),
             "cloc:%s" % marked(rng, raw(rng, 4) + bytes(4), 6, 7),
             "cloc:%s" % marked(rng, raw(rng, 4) + raw(rng, 4), 4, 5)]
    for i, j in [(0, 1), (2, 3)] + [rng.sample(range(4), 2) for _ in range(k - 2)]:
        words.append("sa4:%s:%d" % (marked(rng, background(rng, 4), i, j), rng.choice(PORTS)))
        words.append("cloc:%s" % marked(rng, background(rng, 4) + num(rng.choice(PORTS), 4, False), i, j))
        words.append("loc:%s" % marked(rng, num(1, 4, False) + num(rng.choice(PORTS), 4, False) + bytes(12) + background(rng, 4), 20 + i, 20 + j))
    for i, j in [(0, 1), (0, 1), (14, 15)] + [(2 * i, 2 * i + 1) for i in rng.sample(range(1, 7), min(k, 6))] + [rng.sample(range(16), 2) for _ in range(k - 2)]:
        words.append("sa6:%s:%d" % (marked(rng, background(rng, 16), i, j), rng.choice(PORTS)))
        words.append("loc:%s" % marked(rng, num(2, 4, False) + num(rng.choice(PORTS), 4, False) + background(rng, 16), 8 + i, 8 + j))
    return every(words)


def all_conversions(rng, k):
    words = []
    for ty in ("sn", "fn", "count"):
        for i, j in [(6, 7), (4, 5)] + [rng.sample(range(8), 2) for _ in range(k - 1)]:
            words.append("conv:%s:%s" % (ty, marked(rng, rng.choice([bytes(8), bytes([255] * 8), raw(rng, 8)]), i, j)))
    return every(words)


def all_protocol_durations(rng, k):
    return every(["pdur:" + marked(rng, num(rng.choice([0, 1, (1 << 31) - 1, 1 << 31, rng.randrange(1 << 32)]), 4, False)
                                   + num(rng.randrange(10 ** 9), 4, False), i, j)
                  for i, j in [(0, 1), (2, 3), (6, 7), (0, 3)] + [rng.sample([0, 1, 2, 3, 6, 7], 2) for _ in range(k)]])


def all_values(rng, k):
    """Some two bytes of a value of each type"""
    words = []
    for ty in TYPES:
        for _ in range(max(1, k - 2)):
            le = rng.random() < 0.5
            b = value(rng, ty, le)
            for _ in range(5):
                if 2 <= len(b) <= 48:
                    break
                b = value(rng, ty, le)
            if not 2 <= len(b) <= 120:
                continue
            i, j = rng.choice([rng.sample(range(len(b)), 2), [2 * rng.randrange(len(b) // 2) + d for d in (0, 1)]])
            words.append("rt:%s:%d:%s" % (ty, le, marked(rng, b, i, j)))
    return every(words)


def all_claims(rng, k):
    """Every half of a tag, a count or a length"""
    words = []
    for ty, at, size in [("TopicKind_t", 0, 4), ("LocatorKind_t", 0, 4), ("Locator_t", 0, 4), ("LocatorList_t", 0, 4), ("BitSetRef", 0, 4),
                         ("SequenceNumberSet_t", 8, 4), ("FragmentNumberSet_t", 4, 4), ("Parameter", 2, 2), ("AckNack", 16, 4), ("Gap", 24, 4)]:
        for le in (False, True):
            for half in range(size // 2) if k > 3 or size == 2 else [rng.randrange(2), 0 if le else 1]:
                b = value(rng, ty, le)
                while len(b) < at + size or len(b) > 400:
                    b = value(rng, ty, le)
                i = at + 2 * half + (1 if le else 0)
                words.append("rt:%s:%d:%s" % (ty, le, marked(rng, b, i, at + 2 * half + (0 if le else 1))))
    return every(words)


def addresses(rng, k):
    words = []
    for a in ADDRESSES4 + [raw(rng, 4) for _ in range(20 * k)]:
        for p in rng.sample(PORTS, 6) + [rng.randrange(65536) for _ in range(2 * k)]:
            words.append("sa4:%s:%d" % (a.hex(), p))
    for a in ADDRESSES6 + [raw(rng, 16) for _ in range(12 * k)] + [bytes(rng.choice([0, 0, 0, 1, 255]) for _ in range(16)) for _ in range(12 * k)]:
        for p in rng.sample(PORTS, 5) + [rng.randrange(65536) for _ in range(2 * k)]:
            words.append("sa6:%s:%d" % (a.hex(), p))
    for kind in (0, 1, 2, 0xFFFFFFFF):
        for p in LONG_PORTS + [rng.randrange(1 << 32) for _ in range(4 * k)] + [rng.randrange(1 << 16) for _ in range(4 * k)]:
            for a in [bytes(12) + rng.choice(ADDRESSES4), rng.choice(ADDRESSES6), raw(rng, 16), bytes(12) + raw(rng, 4)]:
                words.append("loc:%s" % (num(kind, 4, False) + num(p, 4, False) + a).hex())
    for p in LONG_PORTS + [rng.randrange(1 << 32) for _ in range(4 * k)] + [rng.randrange(1 << 16) for _ in range(8 * k)]:
        for a in [rng.choice(ADDRESSES4), raw(rng, 4), bytes(4)]:
            words.append("cloc:%s" % (a + num(p, 4, False)).hex())
    rng.shuffle(words)
    return lines(words) + all_addresses(rng, k)


NANOS = [0, 1, 2, 3, 4, 5, 232, 233, 465, 999, 1000, 500000000, 499999999, 500000001, 250000000, 999999998, 999999999, 999999000, 123456789]
FRACTIONS = [0, 1, 2, 3, 4, 5, 6, 8, 9, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFC, 0xFFFFFFFB, 0xFFFFFFFA,
             0x40000000, 0x55555555, 429496729, 429496730, 429496729 * 2]
SECONDS = [0, 1, 2, 1000000000, (1 << 31) - 2, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + (1 << 31),
           1 << 33, (1 << 40) + 5, 1 << 62]


def exact_fraction(rng):
    """Fractions next to a whole number of nanoseconds"""
    n = rng.randrange(10 ** 9)
    return max(0, min((1 << 32) - 1, (n << 32) // 10 ** 9 + rng.choice([-1, 0, 0, 1, 2])))


def times(rng, k):
    words = []
    for s in SECONDS:
        for n in rng.sample(NANOS, 8) + [999999999, 0]:
            words.append("sys:+:%d:%d" % (s, n))
            words.append("sys:-:%d:%d" % (s, n))
    for n in NANOS:
        words.append("sys:+:%d:%d" % (rng.randrange(1 << 31), n))
    for _ in range(300 * k):
        s = rng.choice([rng.randrange(1 << 31), rng.randrange(1 << 31), rng.randrange(1 << 34), rng.choice(SECONDS)])
        words.append("sys:%s:%d:%d" % (rng.choice("+++-"), s, rng.choice([rng.randrange(10 ** 9), rng.choice(NANOS)])))
    for s in [0, 1, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2]:
        for f in FRACTIONS:
            words.append("time:%s" % (num(s, 4, False) + num(f, 4, False)).hex())
    for _ in range(500 * k):
        s = rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 31), 0, (1 << 31) - 1])
        f = rng.choice([rng.randrange(1 << 32), exact_fraction(rng), exact_fraction(rng)])
        words.append("time:%s" % (num(s, 4, False) + num(f, 4, False)).hex())
    rng.shuffle(words)
    return lines(words)


def durations(rng, k):
    words = []
    for s in SECONDS + [(1 << 64) - 1, 1 << 63]:
        for n in NANOS:
            words.append("dur:%d:%d" % (s, n))
    for _ in range(400 * k):
        s = rng.choice([rng.randrange(1 << 31), rng.randrange(1 << 31), rng.randrange(1 << 33), rng.randrange(1 << 64)])
        words.append("dur:%d:%d" % (s, rng.choice([rng.randrange(10 ** 9), rng.choice(NANOS)])))
    for s in [0, 1, 2, (1 << 31) - 1, (1 << 31) - 2, 1 << 31, (1 << 31) + 1, (1 << 32) - 1]:
        for f in FRACTIONS + NANOS + [10 ** 9, 10 ** 9 + 1, 2 * 10 ** 9 - 1, 2 * 10 ** 9, 3 * 10 ** 9, 4 * 10 ** 9, 4 * 10 ** 9 + 1, 4 * 10 ** 9 - 1]:
            words.append("pdur:%s" % (num(s, 4, False) + num(f, 4, False)).hex())
    for _ in range(500 * k):
        s = rng.choice([rng.randrange(1 << 32), rng.randrange(1 << 31), (1 << 31) - 1, 0])
        words.append("pdur:%s" % (num(s, 4, False) + num(rng.choice([rng.randrange(1 << 32), rng.randrange(10 ** 9)]), 4, False)).hex())
    rng.shuffle(words)
    return lines(words) + all_protocol_durations(rng, min(k, 6))


def flags(rng, k):
    out = lines(["fa:%02x" % m for m in range(256)], 16)
    for start in range(256):
        words = ["V", "fl:%02x" % start, "fe"]
        for _ in range(6 * k):
            for op in ("fs", "fc", "ft", "ft"):
                m = rng.choice([rng.randrange(256), 1 << rng.randrange(8), 1 << rng.randrange(8), 0, 255, (1 << rng.randrange(8)) | (1 << rng.randrange(8))])
                words.append("%s:%02x" % (op, m))
            words.append("fe")
        out.append(" ".join(words))
    for m in range(0, 256, 1 if k > 1 else 3):
        words = ["V"]
        for start in range(0, 256, 1 if k > 1 else 5):
            words += ["fl:%02x" % start, "ft:%02x" % m, "fs:%02x" % m, "fe", "fl:%02x" % start, "fc:%02x" % m, "fe"]
        out.append(" ".join(words))
    return out


EDGES64 = [0, 1, 2, 3, -1, -2, 255, 256, 257, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, -(1 << 31), -(1 << 31) - 1,
           -(1 << 32), 3037000499, 3037000500, -3037000500, -3037000499, (1 << 62), -(1 << 62), (1 << 63) - 1, (1 << 63) - 2, -(1 << 63),
           -(1 << 63) + 1, 1 << 63 >> 1]
EDGES32 = [0, 1, 2, 3, 255, 256, 65535, 65536, 65537, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, (1 << 32) - 1, (1 << 32) - 2, 46340, 46341]


def number64(rng):
    c = rng.random()
    if c < 0.3:
        return rng.choice(EDGES64)
    if c < 0.6:
        return rng.choice([1, -1]) * rng.randrange(1 << rng.randrange(1, 64))
    return wild64(rng)


def number32(rng):
    c = rng.random()
    if c < 0.3:
        return rng.choice(EDGES32)
    if c < 0.6:
        return rng.randrange(1 << rng.randrange(1, 33))
    return u32(rng)


def arithmetic(rng, k):
    words = []
    for a in EDGES64:
        for b in EDGES64:
            words.append("ar:sn:%s:%s" % (num(a, 8, False).hex(), num(b, 8, False).hex()))
    for a in EDGES32:
        for b in EDGES32:
            words.append("ar:fn:%s:%s" % (num(a, 4, False).hex(), num(b, 4, False).hex()))
    for _ in range(500 * k):
        a, b = number64(rng), number64(rng)
        if rng.random() < 0.2:
            b = a + rng.choice([-1, 0, 1])
        words.append("ar:sn:%s:%s" % (num(a, 8, False).hex(), num(b, 8, False).hex()))
        a, b = number32(rng), number32(rng)
        if rng.random() < 0.2:
            b = a + rng.choice([-1, 0, 1])
        words.append("ar:fn:%s:%s" % (num(a, 4, False).hex(), num(b, 4, False).hex()))
    for x in EDGES64 + [127, 128, -128, -129] + [number64(rng) for _ in range(80 * k)]:
        for ty in ("sn", "fn", "count"):
            words.append("conv:%s:%s" % (ty, num(x, 8, False).hex()))
    rng.shuffle(words)
    return lines(words) + all_conversions(rng, k)


def generate(prop, rng, tier, emitted):
    k = 3 if tier == "quick" else 12
    if prop == "C20":
        return round_trips(rng, k, emitted)
    if prop == "C21":
        return truncations(rng, k, emitted)
    if prop == "C30":
        return comparisons(rng, k, emitted)
    if prop == "C33":
        return sequences(rng, k, emitted)
    if prop == "C22":
        return parameters(rng, k, emitted)
    if prop in ("C24", "C25"):
        k *= 4
    return {"C23": addresses, "C24": times, "C25": durations, "C26": flags, "C27": arithmetic}[prop](rng, k)
