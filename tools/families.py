"""What the checks of each group of properties consist of."""
import copy
import random

import gen_behavior
import gen_recv
import gen_sets
import gen_std
import gen_values


def leaf(rng, value):
    """Another value of the same shape"""
    if isinstance(value, bool):
        return not value
    if isinstance(value, int):
        return (value + rng.choice([1, 2, 128])) % 256
    if isinstance(value, str):
        return value + "x"
    if isinstance(value, list):
        value = copy.deepcopy(value)
        if not value:
            return [1]
        k = rng.randrange(len(value))
        value[k] = leaf(rng, value[k])
        return value
    return value


PROOFS = {"C03": ["ChunkProof"], "C17": ["DeliveryProof"], "C19": ["DeliveryProof"], "C24": ["ConvertProof"]}


class Family:
    def hooks(self, prop):
        return []

    def models(self, prop, tier):
        return []

    def proofs(self, prop):
        """Modules of spec/proofs that prove, without bounds, what the models check"""
        return PROOFS.get(prop, [])

    def model_limit(self, tier):
        return 0

    def required(self, prop):
        return []

    def corrupt(self, prop, trace, rng):
        return None

    def assumptions(self, prop):
        return []

    def technique(self, prop):
        modules = sorted({m["module"] for m in self.models(prop, "quick")})
        return ("TLA+ specification, model-checked with TLC (%s); TLC validates traces recorded from the real code (%s)"
                % (", ".join(modules), self.trace_spec(prop)[0]))

    def note(self, prop):
        proved = " The thorough tier also proves the design without bounds (TLAPS: %s)." % ", ".join(self.proofs(prop))
        return self.level_note + (proved if self.proofs(prop) else "")


class Recv(Family):
    level_note = (
        "The receiver machine of spec/Receiver.tla is checked exhaustively against the declarative property for all "
        "messages of up to Depth catalogue submessages and a following message; the real code is held to that machine on "
        "every recorded execution (schedules from the model and seeded ones), each decode call judged by TLC. "
        "Trusts the harness's projection of the receiver context and the transcription of the layouts in spec/Wire.tla.")

    def models(self, prop, tier):
        deep = "" if tier == "quick" else "_deep"
        out = [{"module": "MC_Receiver", "cfg": "MC_Receiver.cfg", "env": {"EMIT": "1"}}]
        if prop in ("C01", "C11", "C29", "C32"):
            out.append({"module": "MC_Datagram", "cfg": "MC_Datagram%s.cfg" % deep, "env": {"EMIT": "1"}})
        elif deep:
            out.append({"module": "MC_Receiver", "cfg": "MC_Receiver_deep.cfg"})
        if prop == "C03":
            out.append({"module": "MC_Chunks", "cfg": "MC_Chunks.cfg", "env": {"EMIT": "1"}})
            if deep:
                out.append({"module": "MC_Chunks", "cfg": "MC_Chunks_deep.cfg"})
        return out

    def model_limit(self, tier):
        return 500 if tier == "quick" else 6000

    def trace_spec(self, prop):
        return "ReceiverTrace", "ReceiverTrace.cfg"

    def schedules(self, prop, rng, tier, emitted):
        n = self.model_limit(tier)
        out = []
        for key in ("msgs", "datagrams", "chunks"):
            some = [s for s in emitted if key in s]
            picked = rng.sample(some, n) if len(some) > n else some
            out += [gen_recv.from_model(rng, s, prop) for s in picked]
        self.picked = len(out)
        return out + gen_recv.generate(prop, rng, tier)

    def required(self, prop):
        entities = ["AckNack", "Gap", "Heartbeat", "HeartbeatFrag", "NackFrag"]
        contexts = ["InfoSrc", "InfoDst", "InfoReply", "InfoReplyIp4", "InfoTs"]
        skips = ["Pad", "SkipData", "SkipUnknown"]
        heads = ["AcceptHeader"]
        if prop == "C10":
            return heads + ["RejectHeader", "Pad"]
        if prop == "C31":
            return ["Make"] + heads + entities + contexts + ["Pad", "EndClean"]
        if prop == "C32":
            return heads + ["InfoReply", "Malformed", "EndTruncated", "Kept"]
        out = heads + entities + contexts + skips
        if prop in ("C01", "C09", "C29"):
            out += ["RejectHeader", "Malformed", "EndClean", "EndTruncated"]
        if prop in ("C01", "C03"):
            out += ["AwaitHeader", "AwaitSubmessage"]
        if prop == "C11":
            out += ["Malformed", "Reference"]
        return out

    def corrupt(self, prop, trace, rng):
        decs = [e for e in trace["ev"] if e["e"] in (("dec", "eof", "kept") if prop == "C32" else ("dec", "eof"))]
        if not decs:
            return None
        if prop == "C32":
            rng.choice(decs)["mem"] += 10 ** 7
            return trace
        if prop == "C31":
            makes = [e for e in trace["ev"] if e["e"] == "make" and e["b"] and e["k"] not in ("NewHeader", "Pad")]
            if makes and rng.random() < 0.5:
                e = rng.choice(makes)
                e["b"] = leaf(rng, e["b"])
                return trace
            prop = rng.choice(["C02", "C04", "C05", "C06", "C08"])
        if prop == "C01":
            rng.choice(decs)["r"] = rng.choice(["panic", "abort", "hang"])
            return trace
        if prop in ("C02", "C10"):
            e = rng.choice(decs)
            if rng.random() < 0.5:
                e["left"] += 1
            else:
                e["r"] = "err" if e["r"] != "err" else "none"
            return trace
        if prop == "C03":
            e = rng.choice(decs)
            if e["r"] == "item":
                e["is"] += "x"
            elif e["ch"]:
                e["rcv"]["dst"] = leaf(rng, e["rcv"]["dst"])
            else:
                e["left"] += 1
            return trace
        if prop == "C04":
            items = [e for e in decs if e["r"] == "item"]
            if not items:
                return None
            e = rng.choice(items)
            k = rng.randrange(len(e["it"]["f"]))
            e["it"]["f"][k] = leaf(rng, e["it"]["f"][k])
            return trace
        if prop == "C11":
            errs = [e for e in decs if e["r"] == "err"]
            if not errs:
                return None
            e = rng.choice(errs)
            if rng.random() < 0.5:
                e["r"] = "none"
            else:
                e["left"] += 1
            return trace
        if prop == "C29":
            eofs = [e for e in trace["ev"] if e["e"] == "eof"]
            if not eofs:
                return None
            e = rng.choice(eofs)
            if e["r"] == "item" and rng.random() < 0.3:
                e["it"]["k"] += "x"
            else:
                e["r"] = {"none": "err", "err": "none", "item": "none"}[e["r"]]
            return trace
        shown = [e for e in decs if e["ch"]]
        if not shown:
            return None
        e = rng.choice(shown)
        keys = {"C05": ["ver", "ven", "src"], "C06": ["dst"], "C07": ["uni", "mul"], "C08": ["ht", "ts"],
                "C09": ["ver", "src", "dst", "uni", "mul", "ht"]}[prop]
        k = rng.choice(keys)
        e["rcv"][k] = leaf(rng, e["rcv"][k])
        return trace

    def assumptions(self, prop):
        return ["the bytes of a message are drawn from the generators of tools/gen_recv.py and the catalogue of "
                "spec/MC_Receiver.tla, not all byte strings",
                "one receiver, called from one thread (decode takes it exclusively)"]


class Sets(Family):
    level_note = (
        "The set machine of spec/NumberSet.tla (window arithmetic and wire form over bytes) is checked exhaustively against "
        "the property stated over integer distances, for bases at the extremes and short histories; every recorded "
        "operation of the real sets is judged by TLC against that machine.")

    def models(self, prop, tier):
        cfg = "MC_NumberSet.cfg" if tier == "quick" else "MC_NumberSet_deep.cfg"
        return [{"module": "MC_NumberSet", "cfg": cfg, "env": {"EMIT": "1"}}]

    def model_limit(self, tier):
        return 800 if tier == "quick" else 10000

    def trace_spec(self, prop):
        return "NumberSetTrace", "NumberSetTrace.cfg"

    def schedules(self, prop, rng, tier, emitted):
        if prop == "C12":
            emitted = [s for s in emitted if all(o["op"] == "i" for o in s["ops"])]
        n = self.model_limit(tier)
        picked = rng.sample(emitted, n) if len(emitted) > n else emitted
        return [gen_sets.from_model(rng, s, prop) for s in picked] + gen_sets.generate(prop, rng, tier)

    def required(self, prop):
        return ["Accept", "Refuse", "Iterate"] + (["Wire", "Read", "Reject"] if prop == "C13" else [])

    def corrupt(self, prop, trace, rng):
        e = rng.choice(trace["ev"])
        if e["e"] == "ins":
            e["acc"] = not e["acc"]
        elif e["e"] == "iter":
            if e["ms"] and rng.random() < 0.7:
                k = rng.randrange(len(e["ms"]))
                e["ms"][k] = leaf(rng, e["ms"][k])
            else:
                e["ms"].append([0] * len(e["base"]))
        else:
            e["r"] = "err" if e["r"] == "ok" else "ok"
        return trace

    def assumptions(self, prop):
        return ["bases, numbers and bitmaps are drawn by tools/gen_sets.py: all extremes, all window edges, random others",
                "the members are read by iterating a set rebuilt by the same operations, as iteration consumes the set"]


class Std(Recv):
    level_note = (
        "The receiver machine with the standard's layouts (Std = TRUE) is model-checked; messages encoded by the "
        "specification and random standard-conforming ones are decoded by the real code and every decode call is judged by "
        "TLC. Two known deviations, recognised by the exact value they lead to, are reported as findings.")

    def models(self, prop, tier):
        deep = "" if tier == "quick" else "_deep"
        return [{"module": "MC_Receiver", "cfg": "MC_Receiver_std.cfg", "env": {"EMIT": "1"}},
                {"module": "MC_Wire", "cfg": "MC_Wire_std%s.cfg" % deep, "env": {"EMIT": "1"}}]

    def trace_spec(self, prop):
        return "StdTrace", "StdTrace.cfg"

    def schedules(self, prop, rng, tier, emitted):
        n = self.model_limit(tier)
        wires = [s for s in emitted if "ty" in s]
        msgs = [s for s in emitted if "msgs" in s]
        msgs = rng.sample(msgs, n) if len(msgs) > n else msgs
        return gen_std.from_wire(rng, wires) + [gen_std.from_model(rng, s) for s in msgs] + gen_std.generate(rng, tier)

    def required(self, prop):
        return [a for a in super().required(prop) if a != "SkipUnknown"] + ["EndClean"]

    def corrupt(self, prop, trace, rng):
        return super().corrupt(rng.choice(["C02", "C04", "C05", "C06", "C07", "C08"]), trace, rng)

    def assumptions(self, prop):
        return ["the wire format of the standard is the one transcribed in spec/Wire.tla with Std = TRUE",
                "the bytes of a message are drawn from the generators, not all conforming messages"]


VALUE_MODELS = {
    "C20": ("MC_Wire", "MC_Wire%s.cfg"), "C21": ("MC_Wire", "MC_Wire%s.cfg"), "C22": ("MC_Parameter", "MC_Parameter%s.cfg"),
    "C23": ("MC_Locator", "MC_Locator.cfg"), "C24": ("MC_Convert", "MC_Convert%s.cfg"), "C25": ("MC_Convert", "MC_Convert%s.cfg"),
    "C30": ("MC_Compare", "MC_Compare%s.cfg"), "C33": ("MC_Wire", "MC_Wire%s.cfg"),
    "C26": ("MC_Flags", "MC_Flags.cfg"), "C27": ("MC_Bytes", "MC_Bytes.cfg"),
}
VALUE_ACTIONS = {
    "C30": ["Compare"], "C33": ["TakeValue", "TakeNothing"],
    "C20": ["RoundTrip", "All"], "C21": ["Undecodable", "All"], "C22": ["Parameter", "ReceivedParameter"], "C23": ["Socket4", "Socket6", "Locator", "Compact", "All"],
    "C24": ["SystemTime", "Time"], "C25": ["Duration", "ProtocolDuration", "All"],
    "C26": ["Flags", "SetFlags", "ClearFlags", "TestFlags", "ByteOrder", "AllFlags"], "C27": ["Arithmetic", "Conversion", "All"],
}


class Values(Family):
    level_note = (
        "The relations of spec/Values.tla and the layouts of spec/Wire.tla are model-checked on their own (small widths or "
        "boundary field values, exhaustively); every recorded conversion of the real code is judged by TLC against them, on "
        "boundary values and seeded random ones, and on all values of some two bytes of an input. Not all values are visited.")

    def hooks(self, prop):
        return ["parameter"] if prop == "C22" else []

    def models(self, prop, tier):
        module, cfg = VALUE_MODELS[prop]
        if "%" in cfg:
            cfg = cfg % ("" if tier == "quick" else "_deep")
        return [{"module": module, "cfg": cfg, "env": {"EMIT": "1"}}]

    def model_limit(self, tier):
        return 1500 if tier == "quick" else 20000

    def trace_spec(self, prop):
        return "ValuesTrace", "ValuesTrace.cfg"

    def schedules(self, prop, rng, tier, emitted):
        n = self.model_limit(tier)
        picked = rng.sample(emitted, n) if len(emitted) > n else emitted
        return gen_values.generate(prop, rng, tier, picked)

    def required(self, prop):
        return VALUE_ACTIONS[prop]

    def corrupt(self, prop, trace, rng):
        keys = {"take": ["r", "n", "w", "same", "sr", "sn", "sw"], "cmp": ["eq", "qe", "ne", "cmp", "rev", "ops"], "rt": ["r", "w", "o"], "param": ["b", "rv", "rid", "used"], "sa4": ["loc", "back", "c", "cback", "cl"],
                "sa6": ["loc", "back"], "loc": ["back"], "cloc": ["loc", "back"], "sys": ["t", "back"], "time": ["sys"],
                "dur": ["t", "back"], "pdur": ["s", "n"], "fs": ["f"], "fc": ["f"], "ft": ["set", "f"], "fe": ["le"],
                "ar": ["add", "sub", "mul", "div", "cmp", "ops"], "conv": ["id", "toi"]}
        if trace["ev"] and trace["ev"][0]["e"] == "fa":
            e = rng.choice(trace["ev"])
            e[rng.choice(["set", "clear", "test", "kept"])][rng.randrange(256)] ^= 1
            return trace
        events = [e for e in trace["ev"] + [r["t"] for e in trace["ev"] if e["e"] == "all" for r in e["runs"]] if e["e"] in keys]
        if not events:
            return None
        e = rng.choice(events)
        if prop == "C21":
            errs = [e for e in events if e["r"] == "err"]
            if not errs:
                return None
            e = rng.choice(errs)
            e["r"] = "panic"
            return trace
        if prop == "C22" and e["r"] == "err":
            e["r"] = "panic"
            return trace
        present = [k for k in keys[e["e"]] if k in e]
        if not present:
            return None
        k = rng.choice(present)
        v = e[k]
        if isinstance(v, dict):
            j = rng.choice(sorted(x for x in v if isinstance(v[x], list)) or [None])
            if j is None:
                v["r"] = "ok2"
            else:
                v[j] = leaf(rng, v[j])
        elif isinstance(v, list) and not v:
            e[k] = [0] * 8
        else:
            e[k] = leaf(rng, v)
        return trace

    def assumptions(self, prop):
        return ["the values are boundary values and seeded random ones of tools/gen_values.py, not all values"]


BEHAVIOR = {
    # models, trace specification, hooks, actions that must occur
    "C14": (["MC_History"], "HistoryTrace", ["history"], ["Add", "Remove", "Find", "FindNothing"]),
    "C15": (["MC_History"], "HistoryTrace", ["history"], ["Bounds", "NoBounds"]),
    "C16": (["MC_Writer"], "WriterTrace", ["stateless", "locators"], ["Make", "State", "AddLocator", "RemoveLocator"]),
    "C17": (["MC_Proxy"], "ProxyTrace", [], ["HandOut", "NothingUnsent", "List", "Append", "Prepend", "Drop", "Clear"]),
    "C18": (["MC_Readers", "MC_Writer"], "ReadersTrace", ["stateful", "stateless", "locators"],
            ["AddReader", "LookUp", "LookUpNone", "AddLocator", "RemoveLocator", "Show"]),
    "C19": (["MC_Delivery", "MC_Delivery_live"], "DeliveryTrace", ["history", "stateless"],
            ["Write", "SkipWrite", "Remove", "Join", "HandOutNext", "HandOutNothing"]),
}


class Behavior(Family):
    level_note = (
        "The machine is model-checked exhaustively against the property stated over the whole history (all histories up to a "
        "length, few small numbers; C19: also every schedule of bounded size, and liveness under fairness); every recorded "
        "operation of the real code is judged by TLC against the machine, on the model's behaviours and seeded longer ones "
        "with full-width numbers.")

    def hooks(self, prop):
        return BEHAVIOR[prop][2]

    def models(self, prop, tier):
        deep = "" if tier == "quick" else "_deep"
        return [{"module": m.replace("_live", ""), "cfg": "%s%s.cfg" % (m, deep), "env": {"EMIT": "1"}} for m in BEHAVIOR[prop][0]]

    def model_limit(self, tier):
        return 1500 if tier == "quick" else 12000

    def trace_spec(self, prop):
        module = BEHAVIOR[prop][1]
        return module, module + ".cfg"

    def schedules(self, prop, rng, tier, emitted):
        n = self.model_limit(tier)

        def some(items):
            return rng.sample(items, n) if len(items) > n else items
        if prop in ("C14", "C15"):
            return gen_behavior.history_schedules(rng, tier, some(emitted))
        if prop == "C16":
            return gen_behavior.writer_schedules(rng, tier, some(emitted))
        if prop == "C17":
            return gen_behavior.proxy_schedules(rng, tier, some(emitted))
        if prop == "C18":
            return gen_behavior.registry_schedules(rng, tier, some([s for s in emitted if "guids" in s]),
                                                   some([s for s in emitted if "ops" in s]))
        return gen_behavior.system_schedules(rng, tier, some(emitted))

    def required(self, prop):
        return BEHAVIOR[prop][3]

    def corrupt(self, prop, trace, rng):
        keys = {"C14": {"get": ["got"], "bounds": ["found"]}, "C15": {"bounds": ["min", "max"]}, "C16": {"make": ["c", "last"], "state": ["last", "g"]},
                "C17": {"next": ["i"], "unsent": ["is"]}, "C18": {"lookup": ["ts"], "show": ["is"]}, "C19": {"next": ["got"]}}[prop]
        events = [e for e in trace["ev"] if e["e"] in keys]
        if not events:
            return None
        e = rng.choice(events)
        if rng.random() < 0.1:
            e["r"] = "panic"
            return trace
        k = rng.choice(keys[e["e"]])
        v = e[k]
        if isinstance(v, int):
            e[k] = v + 1
        elif isinstance(v, dict):
            j = rng.choice(sorted(v))
            v[j] = leaf(rng, v[j])
        elif v and isinstance(v[0], dict):
            if rng.random() < 0.5:
                e[k] = []
            else:
                j = rng.choice(sorted(v[0]))
                v[0][j] = leaf(rng, v[0][j])
        elif k in ("min", "max"):
            e[k] = leaf(rng, v) if v else [0] * 8
        elif v:
            v.pop(rng.randrange(len(v)))
        elif k in ("found",):
            e[k] = [[0, 0, 0, 0, 0, 0, 0, 9]]
        elif k == "got":
            e[k] = [{"sn": [0] * 8, "k": 0, "g": [0] * 16, "h": [0] * 16}]
        else:
            e[k] = [1]
        return trace

    def assumptions(self, prop):
        out = ["the operations and numbers are drawn by tools/gen_behavior.py and from the model, not all histories"]
        if prop in ("C17", "C19"):
            out.append("a change with the lowest 64-bit sequence number is excluded: proxies use it for nothing sent yet")
        if prop in ("C16", "C19"):
            out.append("nothing is specified for a writer that has used the highest sequence number")
        if prop == "C19":
            out.append("proxies read the cache between other operations: the code has no concurrent access to it (&mut self)")
        return out


FAMILIES = [
    (range(14, 20), Behavior()),
    ((*range(20, 28), 30, 33), Values()),
    (range(28, 29), Std()),
    ((*range(1, 12), 29, 31, 32), Recv()),
    (range(12, 14), Sets()),
]


def family_of(prop):
    n = int(prop[1:])
    for ids, fam in FAMILIES:
        if n in ids:
            return fam
    raise SystemExit("no check for " + prop)
