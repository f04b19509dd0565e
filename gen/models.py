"""The models TLC explores for each property, and the sessions made of their transitions."""
import json
import random

import walks

# Invariants of the modules.
INV = {
    "MCDecoder": "Agree IdleOK RequiredOK NoOverRead Delivered Clean",
    "MCEncoder": "Agree NeedExact Whole LengthRight",
    "MCItem": "Agree ReadyOK RequiredOK Exact Emitted Clean",
    "MCSet": "Agree Ready Emitted Clean",
    "MCCopies": "Views Emitted Owned",
    "MCValue": "Valid Inverted Length Text OneToOne Mask",
    "MCLanes": "Own Done",
    "MCMessage": "RoundTrip Lossless Verdicts Protected Masked",
}


def decoder(depth, chunks, sets=("all",), any_=False):
    return "MCDecoder", {"Defects": "{}", "Depth": depth, "AnyChunk": str(any_).upper(),
                         "Chunks": "{%s}" % ", ".join(map(str, chunks)),
                         "Sets": "{%s}" % ", ".join('"%s"' % s for s in sets)}


def encoder(set_, starts, buffers):
    return "MCEncoder", {"EncDefects": "{}", "ESet": '"%s"' % set_, "Starts": starts,
                         "Buffers": "{%s}" % ", ".join(map(str, buffers)), "MaxBody": "<- SmallMaxBody"}


def message(set_, max_, alter):
    return "MCMessage", {"MSet": '"%s"' % set_, "MaxAttrs": max_, "Alter": alter}


def item(depth, chunks, any_=False):
    return "MCItem", {"AddrDefects": "{}", "Depth": depth, "AnyChunk": str(any_).upper(),
                      "Chunks": "{%s}" % ", ".join(map(str, chunks))}


def values_of(set_, ones, depth, chunks, starts, any_=False):
    return "MCSet", {"AddrDefects": "{}", "ValueDefects": "{}", "VSet": '"%s"' % set_,
                     "Ones": "{%s}" % ", ".join(map(str, ones)), "Depth": depth, "AnyChunk": str(any_).upper(),
                     "Chunks": "{%s}" % ", ".join(map(str, chunks)), "Starts": starts}


def copies(set_, max_):
    return "MCCopies", {"CopyDefects": "{}", "CSet": '"%s"' % set_, "MaxAttrs": max_}


def lanes(count, pool):
    return "MCLanes", {"Defects": "{}", "EncDefects": "{}", "LaneDefects": "{}", "Set1": '"all"', "Count": count,
                       "Pool": "{%s}" % ", ".join(map(str, pool))}


SOME = (0, 1, 2, 3, 4, 5, 6, 7, 8, 63, 64, 79, 80, 99, 100, 127, 128, 255)
SIGMA = (0, 65, 128, 159, 191, 194, 224, 237, 240, 244)
SIGMA2 = SIGMA + (127, 143, 144, 160, 192, 193, 223, 239, 243, 245)


def value(what, bytes_=SOME, sigma=SIGMA):
    return "MCValue", {"What": '"%s"' % what, "Bytes1": "{%s}" % ", ".join(map(str, bytes_)),
                       "Sigma": "{%s}" % ", ".join(map(str, sigma))}


BIG = 10000000
# The codec of a set, and those of a type of each kind.
KINDS = (0, 0x01, 0x06, 0x14, 0x09, 0x0A, 0x03, 0x0C, 0x0D, 0x13, 0x18, 0x19, 0x1A, 0x22, 0x17, 0x27, 0x08, 0x8028, 0x8023, 0x8000, 0x20)
B1 = (0, 1, 2, 3, 19, 20, 21, 1000)

# property: [(model, calls to replay)], per tier
QUICK = {
    "C01": [(value("types"), 8000)],
    "C02": [(decoder(1, (1, 5, 1000)), 8000)],
    "C03": [(message("all", 2, 13), 9000), (message("rfc5389", 2, 13), 6000)],
    "C04": [(message("all", 2, 13), 9000), (message("turn", 2, 13), 6000)],
    "C05": [(decoder(1, (), any_=True), 20000)],
    "C06": [(encoder("all", 3, B1), 20000)],
    "C07": [(decoder(2, (5, 1000)), 20000)],
    "C08": [(decoder(1, (1, 6, 1000), ("all", "probe", "raw")), 15000)],
    "C09": [(decoder(1, (1, 1000), ("all", "probe")), 8000), (encoder("all", 2, B1), 5000)],
    "C10": [(message("all", 2, 7), 12000)],
    "C11": [(message("rfc5389", 2, 1), 15000)],
    "C12": [(message("rfc5389", 2, 5), 10000), (message("all", 2, 9), 6000)],
    "C13": [(message("all", 2, 13), 6000), (value("values"), 30000)],
    "C14": [(value("text"), 25000), (value("values"), 15000)],
    "C18": [(value("values"), 10000)],
    "C20": [(item(1, (), True), 20000), (item(2, (1, 7, 1000)), 15000)],
    "C15": [(message("all", 3, 50), 8000), (message("probe", 2, 50), 4000)],
    "C16": [(encoder("all", 3, (0, 1, 20, 1000)), 9000), (encoder("probe", 3, (0, 5, 1000)), 6000)],
    "C17": [(message("all", 2, 1), 12000)],
    "C19": [(decoder(2, (3, 1000)), 15000)],
    "C21": [(message("probe", 3, 50), 12000), (encoder("probe", 3, (0, 7, 1000)), 8000)],
    "C22": [(values_of("all", KINDS, 1, (), 2, True), 25000), (values_of("all", KINDS[1:], 2, (1, 1000), 2), 8000),
            (values_of("turn", (0,), 2, (1000,), 2), 10000), (values_of("raw", (0,), 2, (1, 1000), 2), 6000),
            (values_of("probe", (0,), 2, (1, 1000), 3), 6000)],
    "C23": [(copies("all", 3), 25000), (copies("rfc5389", 2), 8000)],
    "C24": [(lanes(2, range(1, 15)), 9000)],
}
THOROUGH = {
    "C01": [(value("types"), BIG)],
    "C02": [(decoder(2, (1, 5, 1000)), 60000)],
    "C03": [(message("all", 3, 40), 80000), (message("rfc5389", 3, 40), 60000)],
    "C04": [(message("all", 3, 40), 80000), (message("turn", 3, 40), 60000), (message("rfc5389", 2, 1), 20000)],
    "C05": [(decoder(2, (), any_=True), 0), (decoder(1, (), ("all", "probe", "raw"), any_=True), BIG),
            (decoder(2, (1, 3, 1000)), 150000)],
    "C06": [(encoder("all", 4, B1), 120000), (encoder("probe", 4, B1), 60000)],
    "C07": [(decoder(3, (1000,)), 150000), (decoder(2, (1, 3, 1000), ("all", "probe")), 150000)],
    "C08": [(decoder(2, (), any_=True), 0), (decoder(1, (), ("all", "probe", "raw"), any_=True), BIG),
            (decoder(2, (6, 1000), ("all", "probe", "raw")), 100000)],
    "C09": [(decoder(2, (1, 1000), ("all", "probe")), 80000), (encoder("all", 4, B1), 40000)],
    "C10": [(message("all", 3, 7), 120000)],
    "C11": [(message("rfc5389", 3, 1), 150000)],
    "C12": [(message("rfc5389", 3, 5), 100000), (message("all", 3, 9), 60000)],
    "C13": [(message("all", 3, 13), 60000), (value("values", range(256)), BIG)],
    "C14": [(value("text", SOME, SIGMA2), BIG), (value("values", range(256)), 200000)],
    "C18": [(value("values"), BIG)],
    "C20": [(item(1, (), True), BIG), (item(2, (), True), 200000), (item(3, (1, 4, 1000)), 60000)],
    "C15": [(message("all", 3, 50), 100000), (message("probe", 3, 50), 40000)],
    "C16": [(encoder("all", 4, (0, 1, 20, 1000)), 60000), (encoder("probe", 4, (0, 5, 1000)), 60000)],
    "C17": [(message("all", 3, 1), 120000), (message("rfc5389", 3, 1), 60000)],
    "C19": [(decoder(2, (1, 3, 1000)), 150000), (decoder(3, (1000,)), 60000)],
    "C21": [(message("probe", 4, 50), 80000), (encoder("probe", 4, B1), 60000)],
    "C22": [(values_of("all", KINDS, 1, (), 3, True), BIG), (values_of("all", KINDS[1:], 3, (1, 3, 1000), 3), 150000),
            (values_of("all", (0,), 2, (1, 1000), 2), 150000), (values_of("probe", (0,), 3, (0, 1, 1000), 3), 60000),
            (values_of("rfc5389", (0,), 2, (1, 5, 1000), 3), 60000), (values_of("raw", (0,), 2, (1, 2, 1000), 3), 60000)],
    "C23": [(copies("all", 4), 500000), (copies("rfc5389", 3), 60000)],
    "C24": [(lanes(2, range(1, 15)), BIG), (lanes(3, (3, 4, 7, 9, 11)), 40000)],
}


def of(prop, tier):
    return (QUICK if tier == "quick" else THOROUGH).get(prop, [])


def cfg(module, consts, emit):
    lines = ["SPECIFICATION Spec", "CONSTANTS"]
    for k, v in dict(consts, Emit=str(emit).upper()).items():
        lines.append(" %s %s" % (k, v) if str(v).startswith("<-") else " %s = %s" % (k, v))
    return "\n".join(lines + ["INVARIANTS " + INV[module], "CHECK_DEADLOCK FALSE", ""])


def sessions(prop, name, module, consts, output, seed, budget, tier):
    """Sessions of the transitions printed in output: (sessions, transitions, transitions taken)."""
    if module == "MCLanes":
        return together(prop, name, consts, output, seed, budget)
    edges, refs = walks.parse(output)

    def large(calls):
        # Messages of 64 KiB are costly: some of them.
        return sum(o.get("fill", 0) > 1 for o in calls)

    out, cur, seen, taken = [], [], set(), 0
    limit = {"MCDecoder": 300, "MCEncoder": 200, "MCMessage": 150, "MCItem": 200, "MCSet": 200, "MCValue": 150, "MCCopies": 200}[module]

    def flush():
        if cur:
            out.append({"id": "%s-%s-%d" % (prop, name, len(out)), "set": where, "only": 0, "ops": list(cur)})
            cur.clear()
            seen.clear()

    where = {"MCMessage": "MSet", "MCEncoder": "ESet", "MCSet": "VSet", "MCCopies": "CSet"}.get(module)
    where = consts[where].strip('"') if where else {"MCItem": "raw", "MCValue": "all"}.get(module)
    for first, calls, new in walks.walks(edges, seed, budget, large, 60 if tier == "quick" else 400):
        taken += new
        if module == "MCDecoder" and where != first[0]:
            flush()
            where = first[0]
        if len(cur) > limit:
            flush()
        if first in refs and first not in seen:
            seen.add(first)
            cur += refs[first]
        if module == "MCMessage":
            cur.append({"op": "fd"})
        cur += [real(o, j, calls) for j, o in enumerate(calls)]
    flush()
    return out, len(edges), taken


def together(prop, name, consts, output, seed, budget):
    """Sessions of the interleavings printed in output."""
    lines = sorted(line for line in output.splitlines() if line.startswith('"{'))
    rng = random.Random("%s/%s" % (seed, name))
    some = lines if len(lines) <= budget else sorted(rng.sample(lines, budget))
    out = []
    for line in some:
        x = json.loads(json.loads(line))
        s = {"id": "%s-%s-%d" % (prop, name, len(out)), "set": consts["Set1"].strip('"'), "only": 0, "ops": [],
             "lanes": [{"set": consts["Set1"].strip('"'), "only": 0, "ops": o} for o in x["lanes"]],
             "sched": x["sched"], "mode": rng.choice(["one"] * 8 + ["moves", "turns"])}
        if s["mode"] == "moves":
            s["on"] = [rng.randrange(3) for _ in s["sched"]]
        out.append(s)
    return out, len(lines), len(some)


def real(o, j, calls):
    """The values the models abbreviate."""
    if "fill" not in o:
        return o
    second = j > 0 and calls[j - 1]["op"] == "add"
    if o["fill"] == 1:
        return {"op": "add", "c": o["c"], "v": [97] * (188 if second else 201)}
    if o["fill"] == 2:
        return {"op": "add", "c": o["c"], "v": [97] * (25532 if second else 39997)}
    # DATA does not take a value that is too large; a list of attribute types does.
    if o["c"] == 0x13:
        return {"op": "add", "c": 0x0A, "v": [0x8022] * 32768}
    return {"op": "add", "c": o["c"], "v": [1] * 65536}
