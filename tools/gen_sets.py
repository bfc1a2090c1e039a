"""Schedules for number sets (family N)."""
import random

from wire import bitmap, num, sn, raw

SIZE = {"sn": 8, "fn": 4}
LOW = {"sn": -(1 << 63), "fn": 0}
HIGH = {"sn": (1 << 63) - 1, "fn": (1 << 32) - 1}


def canonical(ty, x):
    return (x % (1 << (8 * SIZE[ty]))).to_bytes(SIZE[ty], "big").hex()


def base(rng, ty):
    lo, hi = LOW[ty], HIGH[ty]
    c = rng.random()
    if c < 0.1:
        # the unknown number and its like, and neighbours of zero
        return max(lo, min(hi, rng.choice([-(1 << 32), -(1 << 32), 0, 1, -1, 1 << 32, (1 << 32) - 1, (1 << 31) - 1, 1 << 31, -(1 << 31)])))
    if c < 0.2:
        return lo + rng.choice([0, 1, 2, 100, 255, 256, 257])
    if c < 0.45:
        return hi - rng.choice([0, 1, 2, 30, 31, 32, 100, 254, 255, 256, 257])
    if c < 0.6:
        return rng.randrange(0, 300)
    if c < 0.8:
        k = rng.choice([7, 8, 15, 16, 23, 24, 31, 32, 33, 40, 62] if ty == "sn" else [7, 8, 15, 16, 24, 31])
        b = (1 << k) + rng.randrange(-260, 10)
        if ty == "sn" and rng.random() < 0.4:
            b = -b
        return max(lo, min(hi, b))
    return rng.randrange(lo, hi + 1)


def value(rng, ty, b):
    lo, hi = LOW[ty], HIGH[ty]
    for _ in range(20):
        c = rng.random()
        if c < 0.45:
            v = b + rng.choice([0, 1, 2, 30, 31, 32, 33, 63, 64, 65, 127, 128, 254, 255])
        elif c < 0.7:
            v = b + rng.randrange(256)
        elif c < 0.85:
            v = b + rng.choice([-1, -2, 256, 257, 258, 511, 512, 65536, 65537, 1 << 32, (1 << 32) + 5, -256, -255, 1 << 31, -(1 << 32)])
        elif c < 0.95:
            v = rng.choice([lo, hi, 0, 1, lo + 1, hi - 1, -1])
        else:
            v = rng.randrange(lo, hi + 1)
        if lo <= v <= hi:
            return v
    return b


def wire_bytes(rng, ty, le):
    b = base(rng, ty)
    head = sn(b, le) if ty == "sn" else num(b, 4, le)
    c = rng.random()
    if c < 0.65:
        return head + bitmap(rng, le)
    if c < 0.8:
        n = rng.choice([257, 258, 288, 289, 300, 512, 1024])
        return head + bitmap(rng, le, n)
    if c < 0.9:
        n = rng.choice([0xFFFFFFFF, 0xFFFFFFE1, 0xFFFFFFE0, 1 << 31, 1 << 24, 0x01000000, 0x00010000, 1 << 16, 0x000000FF << 24])
        return head + num(n, 4, le) + raw(rng, 64)
    n = rng.randrange(1, 257)
    return head + num(n, 4, le) + raw(rng, rng.randrange(0, 4 * ((n + 31) // 32)))


def session(rng, prop):
    ty = rng.choice(["sn", "fn"])
    b = base(rng, ty)
    words = ["N", ty, canonical(ty, b)]
    n = rng.choice([1, 3, 6, 10])
    last = b
    for _ in range(n):
        c = rng.random()
        if prop == "C12":
            for _ in range(rng.choice([1, 2, 5, 20])):
                words.append("i" + canonical(ty, value(rng, ty, last)))
            if rng.random() < 0.1:
                v = value(rng, ty, last)
                words += ["i" + canonical(ty, v)] * 2
        elif c < 0.5:
            words.append("i" + canonical(ty, value(rng, ty, last)))
        elif c < 0.75:
            words.append("w" + rng.choice("01"))
        else:
            le = rng.random() < 0.5
            data = wire_bytes(rng, ty, le)
            words.append("r" + str(int(le)) + data.hex())
            # later insertions aim at this base
            m = SIZE[ty]
            if ty == "sn":
                x = int.from_bytes(data[:4], "little" if le else "big") << 32 | int.from_bytes(data[4:8], "little" if le else "big")
                last = x - (1 << 64) if x >> 63 else x
            else:
                last = int.from_bytes(data[:4], "little" if le else "big")
        words.append("m")
    return " ".join(words)


def all_offsets(ty, b):
    """Every number around the window"""
    words = ["N", ty, canonical(ty, b)]
    for d in list(range(-3, 260)) + list(range(259, -4, -1)):
        if LOW[ty] <= b + d <= HIGH[ty]:
            words.append("i" + canonical(ty, b + d))
    return " ".join(words + ["m"])


def from_model(rng, s, prop):
    words = ["N", s["ty"], bytes(s["base"]).hex()]
    for op in s["ops"]:
        if op["op"] == "i":
            words.append("i" + bytes(op["v"]).hex())
        else:
            words.append(op["op"])
        words.append("m")
    return " ".join(words)


def generate(prop, rng, tier):
    k = 1 if tier == "quick" else 20
    out = [session(rng, prop) for _ in range(900 * k)]
    if prop == "C12":
        for ty in ("sn", "fn"):
            for b in (LOW[ty], LOW[ty] + 2, 0, 1, 100, (1 << 31) - 100, HIGH[ty] - 300, HIGH[ty] - 255, HIGH[ty] - 10, HIGH[ty],
                      -(1 << 32), (1 << 32) - 130, -1, -130, -(1 << 31)):
                if LOW[ty] <= b <= HIGH[ty]:
                    out.append(all_offsets(ty, b))
    else:
        # each single bit of each word, both orders
        for ty in ("sn", "fn"):
            for le in (False, True):
                words = ["N", ty, canonical(ty, 5)]
                for bit in range(0, 256, 1 if tier == "thorough" else 3):
                    body = bytearray(32)
                    w = (1 << (bit % 32)).to_bytes(4, "little" if le else "big")
                    body[4 * (bit // 32):4 * (bit // 32) + 4] = w
                    head = sn(bit, le) if ty == "sn" else num(bit, 4, le)
                    words.append("r%d%s" % (le, (head + num(256, 4, le) + bytes(body)).hex()))
                    words += ["m", "w0", "m"]
                out.append(" ".join(words))
            for n in range(0, 257, 1 if tier == "thorough" else 8):
                le = n % 2 == 0
                head = sn(7, le) if ty == "sn" else num(7, 4, le)
                # all bits set: those beyond the declared number are no members
                out.append("N %s %s r%d%s m i%s m w1 m" % (
                    ty, canonical(ty, 5), le, (head + num(n, 4, le) + b"\xff" * (4 * ((n + 31) // 32))).hex(),
                    canonical(ty, 7 + min(n, 255))))
    return out
