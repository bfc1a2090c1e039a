"""Schedules for the history cache, the proxies, the writers and all of them together (families H, X, W, S, Y)."""

LOW, HIGH = -(1 << 63), (1 << 63) - 1
LOCATORS = 31
GUIDS = 21
MAXTAG = 39


def h64(x):
    return (x % (1 << 64)).to_bytes(8, "big").hex()


def hexbytes(rng, n):
    if rng.random() < 0.15:
        # all alike, or all but one: unknown ids, default handles and their neighbours
        b = [rng.choice([0, 0, 0, 255, 1])] * n
        if rng.random() < 0.5:
            b[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice([1, 128, 255, rng.randrange(256)])
        return bytes(b).hex()
    return bytes(rng.choice([0, 1, 2, 127, 128, 255, rng.randrange(256)]) for _ in range(n)).hex()


class Changes:
    """Changes that differ from each other"""

    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def __call__(self, number):
        self.n += 1
        r = self.rng
        # 0 .. 2 are GUIDs of proxies, too
        g = hexbytes(r, 16) if r.random() < 0.2 else "%02x" % (r.randrange(4) if r.random() < 0.3 else r.randrange(256))
        handle = self.n.to_bytes(16, "big").hex() if r.random() < 0.5 else "%02x" % (self.n % 256)
        return "%s.%d.%s.%s" % (h64(number), r.randrange(3), g, handle)


def pool(rng, size, low=LOW):
    """Numbers whose order tells apart ways of comparing them"""
    c = rng.random()
    if c < 0.3:
        base = rng.choice([0, 1, -5, 100])
        return [base + rng.randrange(0, 3 * size) for _ in range(size)]
    if c < 0.6:
        edges = [low, low + 1, low + 2, -(1 << 32) - 1, -(1 << 32), -(1 << 31), -(1 << 31) - 1, -65536, -257, -256, -255, -129, -128,
                 -127, -2, -1, 0, 1, 2, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1,
                 (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 33) - 5, 1 << 40, (1 << 53) + 1, 1 << 53, (1 << 62), HIGH - 1, HIGH]
        return [rng.choice(edges) for _ in range(size)]
    if c < 0.8:
        # equal low words, and equal high words
        hi = [rng.randrange(-3, 4) for _ in range(2)] + [rng.choice([-(1 << 31), (1 << 31) - 1])]
        lo = [0, 1, (1 << 31), (1 << 32) - 1, rng.randrange(1 << 32)]
        return [max(low, (rng.choice(hi) << 32) + rng.choice(lo)) for _ in range(size)]
    return [rng.randrange(low, HIGH + 1) for _ in range(size)]


# -- history cache ------------------------------------------------------------

def history_from_model(rng, s):
    c = Changes(rng)
    # the order of the one-byte numbers is kept
    widen = rng.choice([lambda x: x, lambda x: x << 56, lambda x: x * 0x0101010101, lambda x: x << 32, lambda x: (x << 24) + x])
    words = ["H"]
    for op in s["ops"]:
        b = op["n"][0]
        n = widen(b - 256 if b >= 128 else b)
        if op["op"] == "a":
            words.append("a" + c(n))
        else:
            words.append("r" + h64(n))
        words += ["g" + h64(n), "b"]
    for b in {op["n"][0] for op in s["ops"]} | {0}:
        words.append("g" + h64(widen(b - 256 if b >= 128 else b)))
    return " ".join(words)


def history(rng, long=False):
    size = rng.choice([1, 2, 4, 8, 20]) if not long else rng.choice([60, 300])
    numbers = pool(rng, size)
    c = Changes(rng)
    words = ["H"]
    adding = rng.choice([0.3, 0.5, 0.8])
    for _ in range(rng.choice([5, 15, 40]) if not long else rng.choice([150, 700])):
        x = rng.random()
        n = rng.choice(numbers)
        if x < adding * 0.7:
            words.append("a" + c(n))
        elif x < 0.7:
            words.append("r" + h64(n))
        elif x < 0.8:
            words.append("g" + h64(n))
        elif x < 0.83:
            words.append("g" + h64(rng.choice([n + 1, n - 1, -n, n ^ (1 << 32), n ^ (1 << 63)])))
        else:
            words.append("b")
        if not long and rng.random() < 0.15:
            words += ["g" + h64(m) for m in numbers]
    if rng.random() < 0.3:
        # empty it, in some order
        rest = sorted(set(numbers), key=lambda _: rng.random())
        for n in rest:
            words += ["r" + h64(n)] + (["b"] if not long or rng.random() < 0.1 else [])
    words += ["g" + h64(m) for m in set(numbers)] + ["b"]
    return " ".join(words)


def ordered_history(rng, n=None):
    """Additions in order, in reverse, as a heap or alternately; removal of ends and of the middle"""
    few = n is None
    n = n or rng.choice([2, 3, 7, 16, 33, 64, 100])
    base = rng.choice([0, 1, -n // 2, LOW, HIGH - n - 1, (1 << 32) - n // 2, (1 << 31) - n // 2])
    numbers = [base + i for i in range(n)]
    how = rng.randrange(4)
    if how == 1:
        numbers.reverse()
    elif how == 2:
        rng.shuffle(numbers)
    elif how == 3:
        numbers = [x for p in zip(numbers[:n // 2], reversed(numbers[n // 2:])) for x in p]
    c = Changes(rng)
    words = ["H"] + ["a" + c(x) for x in numbers] + ["b"]
    left = sorted(numbers)
    while left if few else len(left) > n - 60:
        x = left.pop(rng.choice([0, -1, len(left) // 2]))
        words += ["r" + h64(x), "g" + h64(x), "b"]
        if rng.random() < 0.2:
            words.append("a" + c(x))
            words += ["r" + h64(x)] if rng.random() < 0.5 else ["b"]
    words += ["g" + h64(x) for x in numbers] + ["b"]
    return " ".join(words)


def history_schedules(rng, tier, picked):
    k = 1 if tier == "quick" else 12
    out = [history_from_model(rng, s) for s in picked]
    out += [history(rng) for _ in range(1500 * k)]
    out += [ordered_history(rng) for _ in range(120 * k)]
    out += [ordered_history(rng, n) for n in [257, 300, 520] * k]
    out += [history(rng, long=True) for _ in range(6 * k)]
    return out


# -- proxies ------------------------------------------------------------------

def proxy_from_model(rng, s):
    c = Changes(rng)
    widen = rng.choice([lambda x: x, lambda x: x << 56 if x != -128 else LOW + 1, lambda x: x << 32, lambda x: x * 0x0101010101])
    words = ["X", str(s["n"])]
    for call in s["calls"]:
        words.append("c")
        for n in call["list"]:
            words.append("+" + c(widen(n[0] - 256 if n[0] >= 128 else n[0])))
        p = call["p"] - 1
        words += ["u%d" % p, "n%d" % p] + ["u%d" % q for q in range(s["n"])]
    return " ".join(words)


def proxy(rng, long=False):
    n = rng.choice([1, 2, 3, 6])
    numbers = pool(rng, rng.choice([2, 5, 12]) if not long else 200, LOW + 1)
    c = Changes(rng)
    words = ["X", str(n)]
    mode = rng.choice(["mix", "growing", "drain"])
    length = 0
    if mode == "growing":
        numbers.sort()
    for i in range(rng.choice([8, 25, 60]) if not long else 1000):
        x = rng.random()
        if x < 0.35:
            v = numbers[(i // 3) % len(numbers)] if mode == "growing" else rng.choice(numbers)
            words.append(rng.choice("+^") + c(v))
            length += 1
        elif x < 0.45 and mode != "growing":
            words.append("-%d" % rng.randrange(max(1, length)))
            length = max(0, length - 1)
        elif x < 0.47 and mode == "mix":
            words.append("c")
            length = 0
        elif x < 0.6:
            words.append("u%d" % rng.randrange(n))
        else:
            p = rng.randrange(n)
            words.append("n%d" % p)
            if rng.random() < 0.3:
                words.append("u%d" % p)
    if mode == "drain":
        for p in range(n):
            words += ["n%d" % p] * (min(length, 12) + 1)
    words += ["u%d" % p for p in range(n)]
    return " ".join(words)


def drained(rng, n=None):
    """A list of one length, in one order; the changes go one by one, others are appended meanwhile"""
    n = n or rng.choice([1, 2, 3, 4, 8, 16, 31, 32, 33, 40, 64, 65])
    base = rng.choice([0, 1, -n // 2, LOW + 1, HIGH - 4 * n - 10, (1 << 32) - n // 2, (1 << 31) - n // 2, -(1 << 32) - n // 2, rng.randrange(LOW + 1, HIGH - 400)])
    step = rng.choice([1, 1, 1, 2, 3])
    numbers = [base + i * step for i in range(n)]
    how = rng.randrange(4)
    if how == 1:
        numbers.reverse()
    elif how == 2:
        rng.shuffle(numbers)
    c = Changes(rng)
    readers = rng.choice([1, 1, 2])
    words = ["X", str(readers)] + ["+" + c(x) for x in numbers]
    after = base + n * step
    for i in range(n + 2):
        for p in range(readers):
            words.append("n%d" % p)
            if rng.random() < 0.2:
                words.append("u%d" % p)
        if rng.random() < 0.05 and after < HIGH - step:
            words.append("+" + c(after))
            after += step
    return " ".join(words)


def proxy_schedules(rng, tier, picked):
    k = 1 if tier == "quick" else 15
    out = [proxy_from_model(rng, s) for s in picked]
    out += [proxy(rng) for _ in range(1800 * k)]
    out += [proxy(rng, long=True) for _ in range(6 * k)]
    out += [drained(rng) for _ in range(60 * k)]
    out += [drained(rng, n) for n in [130, 257, 300] * k]
    return out


# -- writers ------------------------------------------------------------------

STARTS = [0, -1, -2, 1, 5, LOW, LOW + 1, HIGH - 40, -(1 << 31) - 2, (1 << 31) - 3, (1 << 32) - 3, -(1 << 32) - 3, (1 << 33) - 2,
          (1 << 8) - 3, (1 << 16) - 3, (1 << 24) - 3, (1 << 40) - 3, (1 << 48) - 2, (1 << 56) - 2, -257, -65537, (1 << 53) - 2]


def writer_from_model(rng, s):
    b = s["start"][0]
    start = b - 256 if b >= 128 else b
    if start == -128:
        start = LOW
    words = ["W", own_guid(rng), h64(start)]
    for op in s["ops"]:
        if op["op"] == "c":
            words.append("c%d.%s" % (op["x"], hexbytes(rng, 16)))
        else:
            words.append(op["op"] + str(op["x"] * 5))
    return " ".join(words + ["s"])


def own_guid(rng):
    """Of a writer; a proxy's, too, now and then"""
    return "%02x" % rng.randrange(4) * 16 if rng.random() < 0.2 else hexbytes(rng, 16)


def writer(rng, long=False):
    words = ["W", own_guid(rng), h64(rng.choice(STARTS) if rng.random() < 0.8 else rng.randrange(LOW, HIGH - 1000))]
    if long:
        words[2] = h64(rng.choice([0, (1 << 16) - 100, -300, (1 << 32) - 100, (1 << 31) - 300]))
    handles = [hexbytes(rng, 16) for _ in range(3)] + [words[1], "00" * 16]
    i = rng.choice([0, 0, 3, rng.randrange(LOCATORS)])
    for _ in range(rng.choice([3, 10, 30]) if not long else 1500):
        x = rng.random()
        if x < 0.6 or long and x < 0.97:
            words.append("c%d.%s" % (rng.randrange(3), rng.choice(handles) if rng.random() < 0.7 else hexbytes(rng, 16)))
        elif x < 0.9:
            words.append(rng.choice("lllx") + str(i if rng.random() < 0.5 else rng.randrange(LOCATORS)))
        else:
            words.append("s")
    return " ".join(words + ["s"])


def last_number(rng):
    """Up to the highest number"""
    n = rng.choice([1, 2, 5])
    words = ["W", own_guid(rng), h64(HIGH - n)]
    words += ["c%d.%s" % (rng.randrange(3), hexbytes(rng, 16)) for _ in range(n)]
    return " ".join(words + ["s"])


def writer_schedules(rng, tier, picked):
    k = 1 if tier == "quick" else 20
    out = [writer_from_model(rng, s) for s in picked]
    out += [writer(rng) for _ in range(1500 * k)]
    out += [writer(rng, long=True) for _ in range(3 * k)]
    out += [last_number(rng) for _ in range(20)]
    return out


# -- registries ---------------------------------------------------------------

def readers_from_model(rng, s):
    base = rng.choice([[0, 1, 2, 3], [0, 16, 13, 12], [0, 8, 17, 18], rng.sample(range(GUIDS), 4)])
    words = ["S"]
    for i, g in enumerate(s["guids"]):
        words.append("a%d.%d" % (base[g], i * 3 + rng.randrange(3)))
    words += ["g%d" % g for g in base] + ["g%d" % rng.randrange(GUIDS)]
    return " ".join(words)


def locators_from_model(rng, s):
    base = rng.choice([[0, 4, 5, 6], [0, 12, 14, 15], [0, 19, 23, 24], rng.sample(range(LOCATORS), 4)])
    words = ["S"]
    for op in s["ops"]:
        if op["op"] == "c":
            continue
        words += [op["op"] + str(base[op["x"] % 4]), "s"]
    return " ".join(words) if len(words) > 1 else None


def registries(rng, long=False):
    words = ["S"]
    guids = rng.sample(range(GUIDS), rng.choice([1, 2, 4])) if rng.random() < 0.7 else list(range(GUIDS))
    locs = rng.sample(range(LOCATORS), rng.choice([1, 2, 4])) if rng.random() < 0.7 else list(range(LOCATORS))
    for _ in range(rng.choice([6, 20, 60]) if not long else 400):
        x = rng.random()
        if x < 0.25:
            words.append("a%d.%d" % (rng.choice(guids), rng.randrange(MAXTAG + 1)))
        elif x < 0.45:
            words.append("g%d" % (rng.choice(guids) if rng.random() < 0.8 else rng.randrange(GUIDS)))
        elif x < 0.65:
            words.append("l%d" % rng.choice(locs))
        elif x < 0.8:
            words.append("x%d" % (rng.choice(locs) if rng.random() < 0.7 else rng.randrange(LOCATORS)))
        else:
            words.append("s")
    return " ".join(words + ["g%d" % g for g in range(GUIDS)] + ["s"])


def crowded(rng):
    """More entries than a byte counts, and what is left of them"""
    words = ["S"]
    n = rng.choice([32, 33, 64, 65, 100, 128, 129, 256, 257, 300])
    locs = rng.sample(range(n + 20), n)
    guids = rng.sample(range(n + 20), n)
    step = max(1, n // 9)
    for i in range(n):
        words.append("l%d" % locs[i])
        words.append("a%d.%d" % (guids[i], rng.randrange(MAXTAG + 1)))
        if i % step == 0:
            words += ["s", "g%d" % rng.choice(guids)]
    words += ["g%d" % g for g in rng.sample(range(n + 20), min(n, 60))] + ["g%d" % guids[0], "g%d" % guids[-1], "s"]
    for i in range(n):
        if rng.random() < 0.7:
            words.append("x%d" % rng.randrange(n + 20))
        else:
            words.append("l%d" % rng.choice(locs))
        if i % step == 0:
            words.append("s")
    words += ["a%d.%d" % (g, rng.randrange(MAXTAG + 1)) for g in rng.sample(guids, 20)] + ["g%d" % g for g in rng.sample(guids, 20)]
    return " ".join(words + ["s"])


def one_against_all(rng):
    """All entries are there, one goes: all others stay"""
    out = []
    for i in range(LOCATORS):
        order = list(range(LOCATORS))
        rng.shuffle(order)
        out.append(" ".join(["S"] + ["l%d" % j for j in order] + ["s", "x%d" % i, "s", "l%d" % i, "s", "x%d" % i, "x%d" % i, "s"]))
        out.append(" ".join(["S", "l%d" % i, "l%d" % i, "l%d" % ((i + 1) % LOCATORS), "l%d" % i, "x%d" % i, "s"]))
    order = list(range(GUIDS)) * 2
    rng.shuffle(order)
    out.append(" ".join(["S"] + ["a%d.%d" % (g, k % (MAXTAG + 1)) for k, g in enumerate(order)] + ["g%d" % g for g in range(GUIDS)]))
    return out


def registry_schedules(rng, tier, readers, writers):
    k = 1 if tier == "quick" else 20
    out = [readers_from_model(rng, s) for s in readers]
    out += [w for w in (locators_from_model(rng, s) for s in writers) if w]
    out += one_against_all(rng)
    out += [registries(rng) for _ in range(900 * k)]
    out += [registries(rng, long=True) for _ in range(4 * k)]
    out += [crowded(rng) for _ in range(12 * k)]
    return out


# -- all together -------------------------------------------------------------

def made(rng, n):
    return "%d.%s" % (rng.randrange(3), n.to_bytes(16, rng.choice(["big", "little"])).hex())


def order(rng):
    return rng.choice(["a", "a", "d", str(rng.randrange(1000))])


def system_from_model(rng, s):
    # the model's numbers pass zero
    start = rng.choice([-3, -1, 0, 1, (1 << 32) - 3, (1 << 31) - 3, -(1 << 32) - 2, LOW, HIGH - 20, 252])
    words = ["Y", own_guid(rng), h64(start), str(s["n"])]
    n = 0
    proxies = s["n"]
    for op in s["ops"]:
        if op["op"] in "wW":
            n += 1
            words.append(op["op"] + made(rng, n))
        elif op["op"] == "r":
            words.append("r%d" % op["x"])
        elif op["op"] == "n":
            words.append("n%d.%s" % (op["x"], order(rng)))
        else:
            proxies += 1
            words.append("p")
    return " ".join(words + ["n%d.%s" % (p, order(rng)) for p in range(proxies) for _ in range(n + 1)])


def system(rng, long=False):
    n = rng.choice([1, 2, 3, 5])
    start = rng.choice(STARTS) if rng.random() < 0.8 else rng.randrange(LOW, HIGH - 2000)
    if long:
        start = rng.choice([0, -100, (1 << 32) - 50, 65500])
    words = ["Y", own_guid(rng), h64(start), str(n)]
    count = 0
    writing = rng.choice([0.15, 0.3, 0.5])
    removing = rng.choice([0, 0.05, 0.2])
    slow = rng.randrange(n)
    fast = rng.random() < 0.5
    limit = 38 if start == HIGH - 40 else 10000
    for _ in range(rng.choice([10, 30, 60]) if not long else 400):
        x = rng.random()
        if x < writing and count < limit:
            count += 1
            words.append(("w" if rng.random() < 0.9 else "W") + made(rng, count))
        elif x < writing + removing and count:
            words.append("r%d" % (rng.randrange(count) if rng.random() < 0.5 else rng.choice([0, count - 1, max(0, count - 3)])))
        elif x > 0.98 and n < 8:
            words.append("p")
            n += 1
        else:
            p = rng.randrange(n)
            if fast and p == slow and rng.random() < 0.8:
                continue
            words.append("n%d.%s" % (p, order(rng)))
    for p in range(n):
        words += ["n%d.%s" % (p, order(rng)) for _ in range(min(count, 25) + 1)]
    return " ".join(words)


def system_schedules(rng, tier, picked):
    k = 1 if tier == "quick" else 12
    out = [system_from_model(rng, s) for s in picked]
    out += [system(rng) for _ in range(900 * k)]
    out += [system(rng, long=True) for _ in range(3 * k)]
    return out
