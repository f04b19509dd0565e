"""Scripts of API calls, per property.  gen(prop, rng, tier, behaviours) yields sessions."""
import itertools
import random
import struct
from wire import *

ALL_SETS = ["rfc5389", "rfc5245", "rfc5766", "rfc5780", "all", "turn", "raw"]


# ---- calls
def new(cl, me, tx):
    return {"op": "new", "cl": cl, "me": me, "tx": list(tx)}


def add(c, v):
    return {"op": "add", "c": c, "v": list(v)}


def op(name, **k):
    return dict({"op": name}, **k)


def enc(**k):
    return op("enc", **k)


def dec(b, **k):
    return op("dec", b=list(b), **k)


def dec_out(**k):
    return op("dec", src="out", **k)


def feed(b, eos=-1, **k):
    return op("feed", b=list(b), eos=eos, **k)


def fin(**k):
    return op("fin", **k)


def pull(n, eos=-1, **k):
    return op("pull", n=n, eos=eos, **k)


LOOK, FD, FE = op("look"), op("fd"), op("fe")


class Out:
    def __init__(self, prop):
        self.prop, self.n, self.list = prop, 0, []

    def add(self, group, set_, ops, only=0):
        self.n += 1
        self.list.append({"id": "%s-%s-%d" % (self.prop, group, self.n), "set": set_,
                          "only": only, "ops": ops})


def is_text(v):
    try:
        return bytes(v).decode() is not None
    except UnicodeDecodeError:
        return False


def rand_new(rng):
    return new(rng.randrange(4), rmethod(rng), rtx(rng))


def build(rng, set_, n, mi=False, fp=False, size=40):
    """Calls that make a message of n attributes."""
    ops = [rand_new(rng)]
    at = rand_attrs(rng, set_, n, size)
    mi_at = rng.randrange(n + 1) if mi else -1
    for i, (c, v) in enumerate(at + [None]) if False else enumerate(at):
        if i == mi_at:
            ops += sign(rng)
        ops.append(add(c, v))
    if mi_at == n:
        ops += sign(rng)
    if fp:
        ops += [enc(), op("addfp")]
    return ops


def rand_pw(rng):
    return rng.choice([[], list(b"p"), list(b"VOkJxbRl1RmTxUk/WvJxBt"), [65] * 64, [66] * 65, [67] * 100,
                       rtext(rng, 5), rtext(rng, 20), rtext(rng, rng.randrange(70)),
                       [97 + rng.randrange(26)] * rng.choice([16, 20, 21, 55, 56, 63, 64, 65, 127, 128, 129]),
                       list(b" lead"), list(b"trail "), list(b"tab\t"), list(b"Mixed"), list(b"nul\0")])


def cred(rng, long_term=None):
    long_term = rng.random() < 0.5 if long_term is None else long_term
    c = {"pw": rand_pw(rng)}
    if long_term:
        c["u"] = rng.choice([[], list(b"user"), rtext(rng, 6), list(b"a:b"), [97] * 512])
        c["re"] = rng.choice([[], list(b"example.org"), rtext(rng, 6), list(b"b:c"), list(U3 * 127)])
    return c


def sign_with(c):
    return [enc(), op("addmil" if "u" in c else "addmi", **c)]


def check_with(c, **k):
    return op("micl" if "u" in c else "mic", **dict(c, **k))


def sign(rng):
    return sign_with(cred(rng))


def ones():
    """Single attribute types as attribute sets."""
    return [("one", c) for c in sorted(KIND)]


def feed_all(p, sizes, eos_style="none", extra=b"", flab=0, rt=0):
    """Feeds p in chunks, with `extra` bytes of what follows in the last one, and takes the result."""
    ops, i, n = [], 0, len(p)
    for j, k in enumerate(sizes):
        last = j == len(sizes) - 1
        b = list(p[i:i + k])
        i += k
        if last:
            b += list(p[i:]) + list(extra)
            i = n
        after = (n - i)
        eos = -1
        if eos_style == "exact":
            eos = after
        elif eos_style == "end" and after == 0 and not extra:
            eos = -2
        elif eos_style == "more":
            eos = after + 7
        ops.append(feed(b, eos))
        if flab:
            ops[-1]["lab"] = flab
    ops.append(fin(**({"lab": flab} if flab else {}), **({"rt": 1} if rt else {})))
    return ops


# ---- packets of interest: (name, bytes), meant for set rfc5389
def base_packets(rng):
    tx = list(range(1, 13))
    e = packet(0, 1, tx, [])
    sw = tlv(0x8022, b"foo")
    us = tlv(0x0006, b"user1")
    unk = tlv(0x7F01, b"\x01\x02\x03\x04\x05", b"\xAA\xBB\xCC")
    ma = tlv(0x0001, enc_val("addr", [1, 80, 127, 0, 0, 1], tx))
    xa6 = tlv(0x0020, enc_val("xaddr", [2, 443] + list(range(16)), tx))
    good = [
        ("empty", e),
        ("one", packet(1, 2, [9] * 12, [sw])),
        ("two", packet(2, 0xABC, [8] * 12, [us, ma])),
        ("pad", packet(3, 1, tx, [tlv(0x8022, b"x", b"\x01\x02\x03"), unk])),
        ("xor6", packet(2, 1, tx, [xa6, sw, sw])),
        ("unknown", packet(0, 3, [7] * 12, [unk, tlv(0xFFFF, b"")])),
        ("err", packet(3, 4, tx, [tlv(0x0009, bytes([0, 0, 4, 20]) + b"Unknown"), tlv(0x000A, bytes([0, 1, 0x80, 2]))])),
        ("fp", add_fp(packet(0, 1, [5] * 12, [sw, us]))),
        ("mifp", add_fp(add_mi(packet(0, 1, [4] * 12, [us, sw]), b"secret"))),
        ("long", packet(1, 5, [3] * 12, [tlv(0x0013, bytes(range(200))), sw])),
    ]
    broken = [
        ("b-cut-tlv", packet(0, 1, [2] * 12, [sw, b"\x80"])),
        ("b-cut-head", packet(1, 7, [2] * 12, [us, sw[:3]])),
        ("b-len-over", packet(2, 8, [2] * 12, [us, tlv(0x8022, b"abcd", length=9)])),
        ("b-len-near", packet(2, 8, [2] * 12, [us, tlv(0x8022, b"abcd", length=6)])),
        ("b-len-near-u", packet(3, 9, [2] * 12, [us, sw, tlv(0x7F01, b"abcdefgh", length=10)])),
        ("b-len-unknown", packet(3, 9, [2] * 12, [tlv(0x7F01, b"abcd", length=60)])),
        ("b-no-pad", packet(0, 0xFFF, [2] * 12, [tlv(0x8022, b"abcde", b"")])),
        ("b-family", packet(0, 1, [1] * 12, [sw, tlv(0x0001, bytes([0, 3, 0, 80, 1, 2, 3, 4])), us])),
        ("b-short-addr", packet(0, 1, [1] * 12, [sw, us, tlv(0x0001, bytes([0, 1, 0, 80]))])),
        ("b-utf8", packet(0, 1, [1] * 12, [us, tlv(0x8022, b"\xff\xfe")])),
        ("b-errcode", packet(0, 1, [1] * 12, [us, sw, tlv(0x0009, bytes([0, 0, 7, 20]))])),
        ("b-fp", bytes(add_fp(packet(0, 1, [6] * 12, [sw])))[:-1] + b"\x00"),
        ("b-first", packet(0, 1, [1] * 12, [tlv(0x0001, b"\x00"), sw, us, ma])),
        ("b-mi-len", packet(0, 1, [1] * 12, [sw, tlv(0x0008, bytes(19))])),
        ("b-fp-mid", packet(0, 1, [1] * 12, [sw, tlv(0x8028, bytes(4)), us, us])),
    ]
    good0 = bytes(good[2][1])
    rejected = [
        ("r-top2", bytes([good0[0] | 0x80]) + good0[1:]),
        ("r-top1", bytes([good0[0] | 0x40]) + good0[1:]),
        ("r-cookie", good0[:7] + bytes([good0[7] ^ 1]) + good0[8:]),
        ("r-both", bytes([0xC0]) + good0[1:4] + b"\0\0\0\0" + good0[8:]),
    ]
    return good, broken, rejected


def extreme_bodies(rng, set_):
    """Packets with awkward bodies for any set."""
    out = []
    tx = rtx(rng)
    for n in (1, 2, 3, 5, 6, 7):
        out.append(header(1, n, tx) + bytes(rbytes(rng, n)))
    out.append(header(1, 4, tx) + bytes([0x80, 0x22, 0xFF, 0xFF]))
    out.append(header(1, 4, tx) + bytes([0x80, 0x22, 0, 0]))
    out.append(header(1, 8, tx) + bytes([0x80, 0x22, 0, 5, 1, 2, 3, 4]))
    out.append(header(1, 65535, tx) + bytes(65535))
    out.append(header(1, 65532, tx) + tlv(0x0013, bytes(65528)))
    out.append(header(1, 65532, tx) + tlv(0x7F31, bytes(65528)))
    return out


def crowd(rng, set_, n, size=6, unknown=0.3, fp=0, mi=b"", bad=0):
    """A packet of n small attributes, known and unknown, any padding; `bad` damages the last one."""
    tx = rtx(rng)
    types = [c for c in SETS.get(set_, sorted(KIND)) if KIND.get(c) not in ("mi", "fp")]
    small = [c for c in types if KIND[c] in ("text", "name", "u32", "empty", "even", "data", "types", "xaddr", "addr")] or types
    ts = []
    for _ in range(n):
        if rng.random() < unknown or not small:
            c, v = unknown_type(rng), bytes(rbytes(rng, rng.randrange(size)))
        else:
            c = rng.choice(small)
            v = bytes(enc_val(KIND[c], rand_value(rng, KIND[c], size), tx))
        ts.append(tlv(c, v, bytes(rbytes(rng, pad_len(len(v)))) if rng.random() < 0.5 else None))
    p = packet(rng.randrange(4), rmethod(rng), tx, ts)
    if mi:
        p = add_mi(p, mi)
    if fp:
        p = add_fp(p)
    if bad:
        p = fix_len(bytes(p) + b"\x80\x22\x00\x09")
    return bytes(p)


def skipped(rng):
    """A packet with a broken attribute and many bytes of any kind after it."""
    bad = rng.choice([tlv(0x0001, b"\x00"), tlv(0x0001, bytes([0, 3, 0, 80, 1, 2, 3, 4])), tlv(0x8022, b"\xff\xfe\xff"),
                      tlv(0x0009, bytes([0, 0, 7, 20])), tlv(0x8023, bytes(9)), tlv(0x0008, bytes(21)), tlv(0x8028, bytes(3)),
                      tlv(0x000A, bytes(3)), tlv(0x0009, b"\xff" * 12)])
    r, n = rng.random(), rng.randrange(1, 60)
    if r < 0.25:
        rest = bytes([rng.choice([0, 1, 4, 0x20, 0x80, 0xFF])]) * n
    elif r < 0.5:
        rest = bytes(rbytes(rng, n))
    elif r < 0.75:
        rest = b"".join(rng.choice([tlv(0x8022, b"abc"), tlv(0x7F01, b"\xff\x00\xff"), tlv(0x0006, b""), bad]) for _ in range(n // 8 + 1))
    else:
        rest = bytes(rng.choice([0, 255, 128, 32, 4]) for _ in range(n))
    pre = [tlv(0x8022, b"foo"), tlv(0x7F01, bytes(5))][:rng.randrange(3)]
    return fix_len(bytes(packet(rng.randrange(4), rmethod(rng), rtx(rng), pre + [bad])) + rest)


CROWDS = (16, 17, 33, 65, 129, 257)


# ------------------------------------------------------------------------- properties
def c01(o, rng, k):
    # every decodable type, and every class and method
    order = list(range(16384))
    for g in range(0, 16384, 128):
        ops = []
        for ty in order[g:g + 128]:
            ops.append(dec(header(ty, 0, [ty % 251] * 12)))
        o.add("dec", "rfc5389", ops)
    for me0 in range(0, 4096, 32):
        ops = []
        for me in range(me0, me0 + 32):
            for cl in range(4):
                ops += [new(cl, me, [me % 256, cl] * 6), enc()]
        o.add("enc", "rfc5389", ops)
    # with bodies, other sets, broken bodies, rejected headers in between, split, pulled
    for i in range(150 * k):
        set_ = rng.choice(ALL_SETS)
        ops = []
        for _ in range(6):
            ty = rng.randrange(16384)
            p = bytes(rand_packet(rng, set_, rng.randrange(4)))
            p = struct.pack(">H", ty) + p[2:]
            r = rng.random()
            if r < 0.2:
                p = fix_len(p + b"\x80")
            elif r < 0.3:
                ops.append(dec(bytes([p[0] | rng.choice([0x40, 0x80, 0xC0])]) + p[1:]))
            if rng.random() < 0.5:
                ops.append(dec(p))
            else:
                ops += feed_all(p, chunks(rng, len(p)))
            ops.append(enc())
        o.add("body", set_, ops)
    for i in range(60 * k):
        set_ = rng.choice(ALL_SETS)
        ops = build(rng, set_, rng.randrange(4)) + [op("start")] + [pull(n) for n in chunks(rng, 3, "ones")] + [pull(9999)]
        o.add("pull", set_, ops)


def c02(o, rng, k):
    tx = list(range(100, 112))
    for set_ in ("rfc5389", "raw"):
        for bit in range(32):
            c = bytes(b ^ (1 << (31 - bit) >> (24 - 8 * i) & 255) for i, b in enumerate(COOKIE))
            ops = []
            for body in (b"", tlv(0x8022, b"abc")):
                ops.append(dec(header(1, len(body), tx, c) + body))
                ops.append(dec(header(1, len(body), tx) + body))
                ops += feed_all(header(1, len(body), tx, c) + body, chunks(rng, 20, "mixed"))[:-1] + [FD]
            o.add("cookie", set_, ops)
        for hi in range(256):
            ops = []
            for lo in (0, 1, 0x11, 0xFE, 0xFF):
                ty = hi * 256 + lo
                ops += [dec(header(ty, 8, [ty % 256] * 12) + tlv(0x8022, b"abcd")), dec(header(ty % 16384, 0, tx))]
            o.add("top", set_, ops)
    # every cookie made of the right bytes, its neighbours, and other words of the protocol
    cookies = {bytes(x) for x in itertools.product(COOKIE, repeat=4)} | {b"\0" * 4, b"\xff" * 4, b"UNTS"}
    cookies |= {(n & 0xFFFFFFFF).to_bytes(4, e) for n in NUMS for e in ("big", "little")}
    cookies |= {COOKIE[:j] + bytes(4 - j) for j in range(4)} | {bytes(j) + COOKIE[j:] for j in range(4)}
    cookies |= {COOKIE[j:] + COOKIE[:j] for j in range(4)} | {bytes(255 - b for b in COOKIE)}
    cookies |= {(0x2112A442 + d).to_bytes(4, "big") for d in (-1, 1, -256, 256, 65536, 1 << 24)}
    cookies = sorted(cookies - {COOKIE})
    for set_ in ("rfc5389", "raw"):
        for g in range(0, len(cookies), 40):
            ops = []
            for c in cookies[g:g + 40]:
                ops += [dec(header(1, 0, tx, c)), dec(header(0x0101, 8, tx, c) + tlv(0x8022, b"abcd")),
                        dec(header(0x0101, 8, tx) + tlv(0x8022, b"abcd"))]
            o.add("cookies", set_, ops)
    # every top byte with special cookies and bodies; classic (RFC 3489) packets
    for top in (0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xC0, 0xFF):
        ops = []
        for c in (COOKIE, COOKIE[::-1], bytes(4)):
            for body in (b"", tlv(0x8028, bytes(4)), tlv(0x8022, b"abcd"), b"\x80"):
                ops.append(dec(header(top * 256 + 1, len(body), tx, c) + body))
        o.add("classic", "rfc5389", ops)
    for i in range(60 * k):
        set_ = rng.choice(ALL_SETS)
        ops = []
        for _ in range(4):
            p = bytes(rand_packet(rng, set_, rng.randrange(4)))
            m = rng.randrange(5)
            if m == 0:
                j = rng.randrange(8)
                if j in (2, 3):
                    j = 0
                p = p[:j] + bytes([p[j] ^ (1 << rng.randrange(8))]) + p[j + 1:]
            elif m == 1:
                p = fix_len(p + bytes(rng.randrange(1, 4)))
            elif m == 2:
                p = p[:4] + bytes(rbytes(rng, 4)) + p[8:]
            ok = p[0] < 64 and p[4:8] == COOKIE
            if rng.random() < 0.5 or not ok:
                ops.append(dec(p))
            else:
                ops += feed_all(p, chunks(rng, len(p)))
            if ok:
                ops.append(enc())
        o.add("mutated", set_, ops)
    for set_ in ALL_SETS + ["probe"]:
        for n in range(6):
            for _ in range(2 * k):
                mi = set_ in ("rfc5389", "all", "turn") and rng.random() < 0.4
                fp = set_ in ("rfc5389", "all", "turn") and rng.random() < 0.4
                o.add("enc", set_, build(rng, set_, n, mi, fp) + [enc(), op("start"), pull(rng.randrange(25)), pull(99999)])
    for n in (0, 251, 252, 253, 1000, 65000, 65528):
        o.add("size", "rfc5766", [new(1, 7, rtx(rng)), add(0x0013, [n % 256] * n), enc()])
    for t in ([0] * 12, [255] * 12, [1] + [0] * 11, [0] * 11 + [1], list(range(12))):
        o.add("tx", "rfc5389", [new(0, 1, t), enc(), dec_out(), enc()])


def de_bruijn(n):
    """Every pair of the symbols below n, in one row."""
    out, seen = [0], set()
    for _ in range(n * n):
        x = out[-1]
        y = next(y for y in range(n - 1, -1, -1) if (x, y) not in seen)
        seen.add((x, y))
        out.append(y)
    return out


def pair_texts(limit):
    """Texts of at most `limit` characters that hold every two ASCII characters side by side."""
    row = de_bruijn(128)
    return [bytes(row[i:i + limit]) for i in range(0, len(row) - 1, limit - 1)]


def framed_texts():
    """Every character, ASCII or odd, alone, in front, behind and around."""
    xs = [bytes([i]) for i in range(128)] + [chr(x).encode() for x in ODD_CHARS]
    out = [b"" + x for x in xs] + [x + b"a" + x for x in xs] + [x + x for x in xs]
    out += [p + b"a" + q for p, q in ((b"<", b">"), (b"(", b")"), (b"[", b"]"), (b"{", b"}"), (b"\r", b"\n"), (b"\xc2\xab", b"\xc2\xbb"))]
    out += [p.encode() for p in ("\r\n", "a\r\nb", "\\n", "\\\"", "%41", "&amp;", "\u00e9", "e\u0301", "\u1100\u1161", "\uac00", "\ufb01", "\u00df", "\u1e9e", "\u0130", "\u0131", "\u212b",
                                   "\u00c5", "\u2126", "\uff21", "\u03c2", "\u03c3", "A", "a", "\u0410", "\ufeffa", "a\ufeff")]
    return out


TEXT_TYPES = ((0x0006, 512), (0x0014, 127), (0x0015, 127), (0x8022, 127), (0x0009, 16000))


def text_groups(c, limit):
    """The texts above, in groups for a message each."""
    ts = pair_texts(limit)
    fs = framed_texts()
    return [ts] + [fs[i:i + 64] for i in range(0, len(fs), 64)]


def text_value(c, t):
    return [421] + list(t) if c == 9 else list(t)


def c03(o, rng, k):
    def finish(ops, n_guess=None):
        return ops + [enc(), dec_out(rt=1), enc()]
    for set_ in ALL_SETS:
        for c in addable(set_):
            for v in values(kind(set_, c)):
                o.add("val", set_, finish([rand_new(rng), add(c, v)]))
    for set_, c in ones():
        if KIND[c] in ("mi", "fp"):
            o.add("one", set_, finish([rand_new(rng)] + ([op("addfp")] if KIND[c] == "fp" else sign_with({"pw": [1]})) * 2), c)
            continue
        vs = values(KIND[c])
        for v in vs:
            o.add("one", set_, finish([rand_new(rng), add(c, v)]), c)
        o.add("one", set_, finish([rand_new(rng)] + [add(c, v) for v in vs]), c)
    for set_ in ALL_SETS + ["probe"]:
        for i in range((60 if set_ == "all" else 30) * k):
            n = rng.choice([0, 1, 2, 3, 4, 5, 8, 12])
            sig = set_ in ("rfc5389", "all", "turn")
            ops = build(rng, set_, n, sig and rng.random() < 0.4, sig and rng.random() < 0.4)
            if set_ == "probe":
                ops = [x for x in ops if not (x["op"] == "add" and x["c"] in (0x7F00, 0xFF00) and x["v"][:1] in ([0xEE], [0xDD]))]
            ops.append(enc())
            if rng.random() < 0.5:
                ops.append(dec_out(rt=1))
            else:
                for a in range(0, 40, 7):
                    ops.append(op("feed", src="out", **{"from": a, "cut": 7}, eos=-1))
                ops += [op("feed", src="out", **{"from": 42}, eos=-1), fin(rt=1)]
            ops += [enc(), dec_out(rt=1), enc()]
            if rng.random() < 0.5:
                ops += [op("rebuild"), enc(), dec_out(rt=1), enc()]
            o.add("rand", set_, ops)
    cross = cross_addresses()
    for g in range(0, len(cross), 8):
        for t in (0x0001, 0x8023, 0x802B, 0x802C) + tuple(XOR_TYPES):
            o.add("cross", "all", finish([rand_new(rng)] + [add(t, v) for v in cross[g:g + 8]]))
    for set_ in ALL_SETS:
        cs = [c for c in addable(set_) if kind(set_, c) in LONG_KINDS]
        for i in range((40 if set_ in ("all", "rfc5389") else 15) * k if cs else 0):
            ops = [rand_new(rng)]
            for _ in range(rng.randrange(1, 4)):
                c = rng.choice(cs)
                ops.append(add(c, mid_value(rng, kind(set_, c))))
            o.add("mid", set_, finish(ops))
    for v in (list(range(256)) * 100, [5] * 60000):
        o.add("large", "all", finish([rand_new(rng), add(0x0013, v), add(0x8022, b"end")]))
    o.add("large", "all", finish([rand_new(rng)] + [add(0x8022, [97 + i % 26] * (i % 128)) for i in range(200)]))
    o.add("large", "rfc5389", finish([rand_new(rng), add(0x0009, [599] + [97] * 5000)]))
    for c, limit in TEXT_TYPES:
        for g in text_groups(c, limit):
            o.add("texts", rng.choice(["all", "rfc5389"]), finish([rand_new(rng)] + [add(c, text_value(c, t)) for t in g]))
    row = de_bruijn(256)
    for c in (0x0013, 0x8030):
        for i in range(0, len(row) - 1, 32767):
            o.add("pairs", "all", finish([rand_new(rng), add(c, row[i:i + 32768])]))
    for n in CROWDS:
        for set_ in ("all", "rfc5389", "turn"):
            o.add("crowd", set_, finish(build(rng, set_, n, n < 40, n < 70, 6)))


def c04(o, rng, k):
    for set_ in ALL_SETS:
        for c in sorted(KIND) + UNKNOWN_TYPES:
            if KIND.get(c) == "fp" and set_ in ("rfc5389", "all", "turn"):
                continue
            kd = KIND.get(c, "raw")
            vs = values(kd) if kd not in ("mi", "fp") else [[7] * (20 if kd == "mi" else 4)]
            for v in vs:
                tx = rtx(rng)
                w = enc_val(kd, v, tx)
                pads = [bytes(pad_len(len(w))), b"\xff" * pad_len(len(w)), bytes(rbytes(rng, pad_len(len(w))))]
                if pad_len(len(w)) == 0:
                    pads = pads[:1]
                if len(w) > 300 and set_ not in ("all", "raw"):
                    continue
                ops = []
                for p in pads:
                    pk = packet(rng.randrange(4), rng.randrange(4096), tx, [tlv(c, w, p), tlv(0x7F55, w[:9], None)])
                    ops += [dec(pk), enc()]
                o.add("val", set_, ops)
    for c, limit in TEXT_TYPES:
        for g in text_groups(c, limit):
            p = packet(rng.randrange(4), rng.randrange(4096), rtx(rng), [tlv(c, bytes(enc_val(KIND[c], text_value(c, t), [0] * 12))) for t in g])
            o.add("texts", rng.choice(["all", "rfc5389", "rfc5766"]), [dec(p), enc()])
    row = de_bruijn(256)
    for i in range(0, len(row) - 1, 32767):
        o.add("pairs", rng.choice(["all", "rfc5389", "raw"]), [dec(packet(0, 1, rtx(rng), [tlv(c, bytes(row[i:i + n]))])) for c, n in ((0x0013, 32768), (0x7F01, 32768))] + [enc()])
    # added to after it was received
    for i in range(80 * k):
        set_ = rng.choice(ALL_SETS + ["probe"])
        p = bytes(rand_packet(rng, set_, rng.randrange(5), 20, 0.3, True, rng.random() < 0.2, rng.random() < 0.2))
        ops = [dec(p), enc()]
        for _ in range(rng.choice([1, 2, 3, 8, 20, 40])):
            r = rng.random()
            if r < 0.85:
                c = rng.choice(addable(set_))
                v = rand_value(rng, kind(set_, c), 9)
                if set_ == "probe" and c in (0x7F00, 0xFF00) and v[:1] in ([0xEE], [0xDD]):
                    continue
                ops.append(add(c, v))
            elif set_ in FP_SETS:
                ops += [enc(), op("addfp")] if r < 0.93 else sign(rng)
            if rng.random() < 0.2:
                ops += [enc(), LOOK]
        ops += [enc(), op("start"), pull(rng.randrange(40)), pull(99999)]
        o.add("extend", set_, ops)
    for set_ in ALL_SETS:
        cs = [c for c in sorted(KIND) + UNKNOWN_TYPES if KIND.get(c, "raw") in LONG_KINDS]
        for i in range(25 * k):
            tx, ts = rtx(rng), []
            for _ in range(rng.randrange(1, 4)):
                c = rng.choice(cs)
                w = enc_val(KIND.get(c, "raw"), mid_value(rng, KIND.get(c, "raw")), tx)
                ts.append(tlv(c, w, rng.choice([None, bytes(rbytes(rng, pad_len(len(w))))])))
            o.add("mid", set_, [dec(packet(rng.randrange(4), rmethod(rng), tx, ts)), enc()])
    for set_ in ALL_SETS + ["one"]:
        for i in range(60 * k):
            only = rng.choice(sorted(KIND)) if set_ == "one" else 0
            knows = [only] if set_ == "one" else SETS.get(set_, [])
            ops = []
            for _ in range(3):
                fp = rng.random() < 0.4
                mi = rng.random() < 0.4
                p = rand_packet(rng, set_, rng.choice([0, 1, 2, 3, 6, 10]), 40,
                                rng.choice([0, 0.2, 0.8]), True, fp, mi)
                r = rng.random()
                if r < 0.4:
                    ops += [dec(p), enc()]
                elif r < 0.7:
                    ops += feed_all(p, chunks(rng, len(p))) + [enc()]
                else:
                    ops += [dec(p), op("start")] + [pull(n) for n in chunks(rng, len(p))] + [pull(99999)]
            o.add("rand", set_, ops, only)
    # duplicates, everything unknown, and known again
    tx = [1] * 12
    dup = [tlv(0x8022, b"a"), tlv(0x8022, b"b"), tlv(0x8022, b"a"), tlv(0x7F01, b"q"), tlv(0x7F01, b"q"), tlv(0x8022, b"")]
    for set_ in ALL_SETS:
        o.add("dup", set_, [dec(packet(0, 1, tx, dup)), enc(), dec(packet(0, 1, tx, dup[::-1])), enc()])
    for n in CROWDS:
        for set_ in ("all", "rfc5389", "turn", "raw"):
            p = crowd(rng, set_, n, fp=n < 70, mi=b"k" if n < 70 else b"")
            o.add("crowd", set_, [dec(p), enc(), FD] + feed_all(p, chunks(rng, len(p))) + [enc()])
    for n in (65532 - 4, 60001, 32000):
        p = header(1, 4 + n + pad_len(n), tx) + tlv(0x0013, bytes(i % 256 for i in range(n)), b"\xEE" * pad_len(n))
        for set_ in ("rfc5389", "rfc5766"):
            o.add("large", set_, [dec(p), enc()])


def splits2(n):
    return [[i, n - i] for i in range(n + 1)]


def c05(o, rng, k):
    good, broken, rejected = base_packets(rng)
    nxt = b"\x00\x01\x00\x00" + COOKIE + bytes(12)
    for name, p in good + broken:
        p = bytes(p)
        parts = splits2(len(p)) + [[1] * len(p), [0, 1] * len(p)]
        parts += [[4 * (i % 2) for i in range(len(p) // 2 + 1)], [19, 1, 1, 1, len(p)], [20, 0, len(p)]]
        for j, sizes in enumerate(parts):
            st = ["none", "exact", "end", "more"][j % 4]
            ops = [dec(p, lab=1), FD] + feed_all(p, sizes, st, b"", 1)
            if j % 3 == 0:
                ops += feed_all(p, sizes, "none", nxt, 1)
            if j % 5 == 0:
                ops = ops[:-1] + [feed(nxt), feed(b""), fin(lab=1)]
            o.add("split-" + name, "rfc5389", ops)
    for name, p in rejected:
        p = bytes(p)
        for sizes in splits2(20) + [[1] * 20, [3] * 7, [0, 1] * 20]:
            i, ops = 0, [dec(p, lab=1)]
            for n in sizes:
                if n > 20 - i:
                    n = 20 - i
                ops.append(feed(p[i:i + n], -1, **({"lab": 1} if True else {})))
                i += n
                if i >= 20:
                    break
            o.add("split-" + name, "rfc5389", ops)
    for i in range(200 * k):
        set_ = rng.choice(ALL_SETS)
        ops = []
        for lab in range(1, 4):
            p = bytes(rand_packet(rng, set_, rng.randrange(6), 30, 0.3, True,
                                  rng.random() < 0.3, rng.random() < 0.3))
            r = rng.random()
            if r < 0.3 and not signed(p):
                j = rng.randrange(20, len(p)) if len(p) > 20 else None
                if j:
                    p = p[:j] + bytes([rng.randrange(256)]) + p[j + 1:]
            elif r < 0.4:
                p = fix_len(p + bytes(rbytes(rng, rng.randrange(1, 4))))
            ops += [dec(p, lab=lab)]
            for _ in range(3):
                ex = bytes(rbytes(rng, rng.randrange(30))) if rng.random() < 0.4 else b""
                ops += feed_all(p, chunks(rng, len(p)), rng.choice(["none", "exact", "end", "more"]), ex, lab)
            ops += [op("dec", b=list(p) + [0] * rng.randrange(1, 4)), fin(lab=lab)]
        o.add("rand", set_, ops)
    for i in range(100 * k):
        p = skipped(rng)
        ops = [dec(p, lab=1), FD]
        for sizes in ([1] * len(p), chunks(rng, len(p)), [rng.randrange(20, len(p) + 1)] + [1] * len(p), [2] * len(p)):
            ops += feed_all(p, sizes[:len(p)], rng.choice(["none", "exact", "end", "more"]), b"", 1)
        o.add("skipped", "rfc5389", ops)
    for n in CROWDS[:4]:
        for set_ in ("all", "raw"):
            p = crowd(rng, set_, n, bad=n % 2)
            ops = [dec(p, lab=1), FD]
            for _ in range(3):
                ops += feed_all(p, chunks(rng, len(p)), "none", b"", 1)
            o.add("crowd", set_, ops + feed_all(p, [1] * len(p), "exact", b"", 1))
    # the longest packets, in few reads that may hold more
    for set_, n, length in (("all", 65528, 65528), ("rfc5389", 65528, 65530), ("raw", 65525, 65525), ("all", 65524, 65528)):
        p = bytes(header(1, 65532 if n > 65524 else 65531, [1] * 12) + tlv(0x0013, bytes(range(256)) * 255 + bytes(n - 65280), length=length))
        ops = []
        for sizes, extra in (([len(p)], b""), ([len(p)], bytes(70000)), ([20, len(p)], bytes(70000)), ([65535, 65535], bytes(9)), ([65536, 65536], b""), ([40000, 40000], b"")):
            ops += [FD] + feed_all(p, sizes, "none" if len(extra) != 9 else "exact", extra, 1)
        o.add("longest", set_, ops)


def c06(o, rng, k):
    def drain(sizes):
        return [op("start")] + [pull(n, lab=1) for n in sizes] + [pull(70000, lab=1), pull(1), pull(0)]
    good, _, _ = base_packets(rng)
    for name, p in good:
        for step in list(range(1, 31)) + [len(p), len(p) - 1, len(p) + 1]:
            o.add("dec-" + name, "rfc5389", [dec(p), enc(lab=1)] + drain([step] * (len(p) // max(step, 1) + 1)))
        for s2 in splits2(len(p))[::1 if len(p) < 60 else 7]:
            o.add("dec2-" + name, "rfc5389", [dec(p), enc(lab=1)] + drain(s2))
    for set_, c in ones():
        if KIND[c] in ("mi", "fp"):
            continue
        for v in values(KIND[c])[:6 * k]:
            ops = [rand_new(rng), add(c, v), enc(lab=1)] + drain([1] * 60) + drain([0, 3] * 12)
            o.add("one", set_, ops, c)
    for set_ in ALL_SETS:
        for i in range(40 * k):
            sig = set_ in ("rfc5389", "all", "turn")
            ops = build(rng, set_, rng.randrange(6), sig and rng.random() < 0.3, sig and rng.random() < 0.3)
            ops.append(enc(lab=1))
            for _ in range(3):
                ops += drain(chunks(rng, 120))
            ops += [enc(lab=1)]
            o.add("rand", set_, ops)
    for i in range(20 * k):
        p = rand_packet(rng, "all", 4)
        set_ = rng.choice(ALL_SETS)
        o.add("unknown", set_, [dec(p), enc(lab=1)] + drain(chunks(rng, len(p))) + drain([1] * len(p)))
    for n in CROWDS:
        p = crowd(rng, "all", n)
        o.add("crowd", "all", [dec(p), enc(lab=1)] + drain(chunks(rng, len(p))) + drain([20, 4, 1]) + drain([255, 1, 256]))
    # larger values, buffers of any size, any number of bytes left
    for i in range(60 * k):
        set_ = rng.choice(ALL_SETS)
        cs = [c for c in addable(set_) if kind(set_, c) in LONG_KINDS] or addable(set_)
        ops = [rand_new(rng)]
        for _ in range(rng.randrange(1, 4)):
            c = rng.choice(cs)
            ops.append(add(c, mid_value(rng, kind(set_, c)) if kind(set_, c) in LONG_KINDS else rand_value(rng, kind(set_, c))))
        ops += [enc(lab=1)]
        for _ in range(2):
            ops += drain([max(0, min(rng.choice(SHORT), 4096) + rng.choice([-1, 0, 0, 1])) for _ in range(12)])
        o.add("mid", set_, ops)
    lens = sorted({n + d for n in [x for x in SHORT if x < 9000] + [1 << i for i in range(14)] for d in (-1, 0, 1) if n + d > 0})
    for set_, ms in (("all", [add(0x0013, [7] * 9200)]), ("raw", [add(0x7F01, [7] * 9200)]), ("rfc5389", [add(0x8022, b"a" * 120)] * 74)):
        n = {"all": 9224, "raw": 9224, "rfc5389": 20 + 124 * 74}[set_]
        at = sorted({n - x for x in lens})
        o.add("left", set_, [new(0, 1, [1] * 12)] + ms + [enc(lab=1)] + drain([b - a for a, b in zip([0] + at, at)]))
    # one encoder, many messages
    ops = []
    for lab in range(1, 300):
        ops += build(rng, "rfc5389", rng.randrange(4)) + [op("start"), pull(rng.randrange(40)), pull(70000), pull(1)]
    o.add("long", "rfc5389", ops)
    for set_, n in (("all", 65528), ("raw", 65525)):
        ops = [rand_new(rng), add(0x0013, [i % 251 for i in range(n)]), enc(lab=1)]
        for sizes in ([65552], [70000], [65535] * 2, [65536] * 2, [20, 65532], [20, 65535], [24, 70000], [40000] * 2):
            ops += drain(sizes)
        o.add("longest", set_, ops)
    o.add("large", "rfc5766", [rand_new(rng), add(0x0013, [3] * 5000), enc(lab=1)] + drain([1000, 1, 24, 4096]) + drain([5023]))


def history_ops(rng, packets, checks=True, set_="rfc5389"):
    ops = []
    for lab, p in enumerate(packets, 1):
        r = rng.random()
        hdr_ok = p[0] < 64 and bytes(p[4:8]) == COOKIE
        if r < 0.5 or not hdr_ok:
            ops.append(dec(p, lab=lab))
        else:
            ops += feed_all(p, chunks(rng, len(p)), "none", b"", lab)
    for lab, p in enumerate(packets, 1):
        ops += [FD, dec(p, lab=lab)]
    return ops


def c07(o, rng, k):
    good, broken, rejected = base_packets(rng)
    everything = good + broken + rejected
    for na, a in everything:
        ops = []
        for nb, b in everything:
            # a then b on one decoder; then b on a new one
            ops += [FD, dec(a)]
            lab = len(ops)
            ops += [dec(b, lab=lab), FD, dec(b, lab=lab)]
        o.add("pair-" + na, "rfc5389", ops)
        ops = []
        for nb, b in good + broken:
            ops += [FD, dec(a)]
            lab = len(ops)
            ops += feed_all(b, chunks(rng, len(b)), "none", b"", lab) + [FD, dec(b, lab=lab)]
        o.add("pairfeed-" + na, "rfc5389", ops)
    for i in range(150 * k):
        set_ = rng.choice(ALL_SETS + ["rfc5389", "rfc5389"])
        ps = []
        for _ in range(rng.randrange(3, 9)):
            r = rng.random()
            if r < 0.35:
                ps.append(rng.choice(everything)[1])
            else:
                p = bytes(rand_packet(rng, set_, rng.randrange(5), 30, 0.3, True, rng.random() < 0.2, rng.random() < 0.2))
                if r < 0.7 and len(p) > 24 and not signed(p):
                    j = rng.randrange(20, len(p))
                    p = p[:j] + bytes([rng.randrange(256)]) + p[j + 1:]
                elif r < 0.8:
                    j = rng.choice([0, 4, 5, 6, 7])
                    p = p[:j] + bytes([p[j] ^ 0x80]) + p[j + 1:]
                ps.append(p)
        o.add("rand", set_, history_ops(rng, ps))
    # long histories, and large packets before small ones
    for i in range(3 * k):
        ps = [bytes(rng.choice(everything)[1]) for _ in range(70)]
        o.add("long", "rfc5389", history_ops(rng, ps))
    # nothing is counted: more packets of a kind than fit a byte
    for kind in (good, broken, rejected, everything):
        ops = [FD]
        for i in range(300):
            ops.append(dec(kind[i % len(kind)][1]))
        for lab, (_, p) in enumerate(good + broken, 1):
            ops += [dec(kind[lab % len(kind)][1]), dec(p, lab=lab)]
        for lab, (_, p) in enumerate(good + broken, 1):
            ops += [FD, dec(p, lab=lab)]
        o.add("many", "rfc5389", ops)
    for n in CROWDS:
        ps = [crowd(rng, "all", n), good[1][1], crowd(rng, "all", n, bad=1), good[2][1], crowd(rng, "all", n // 2, fp=1), broken[0][1], good[0][1]]
        o.add("crowd", "all", history_ops(rng, [bytes(p) for p in ps]))
    for n in (300, 4000, 65500):
        for t in (0x0013, 0x7F31, 0x8022):
            ps = [header(1, n + 4, [1] * 12) + tlv(t, bytes(n)), good[1][1], header(1, n + 4, [1] * 12) + tlv(t, bytes(n), length=n + 1), good[2][1]]
            o.add("large", "all", history_ops(rng, [bytes(p) for p in ps]))


def c08(o, rng, k):
    good, broken, _ = base_packets(rng)
    # lengths of every type
    for set_ in ("all", "rfc5389", "rfc5245", "rfc5766", "rfc5780"):
        for c in sorted(KIND):
            if set_ != "all" and c not in SETS[set_]:
                continue
            ops = []
            kd = KIND[c]
            for n in list(range(0, 26)) + [30, 64]:
                for fill in (0, 1, 4, 97, 255):
                    if fill not in (0, 97) and set_ != "all":
                        continue
                    w = bytes([fill] * n)
                    p = packet(0, 1, [n] * 12, [tlv(0x7F01, b"z"), tlv(c, w), tlv(0x7F02, b"")])
                    if kd in ("mi", "fp") or canonical(p, set_) or True:
                        ops.append(dec(p))
            o.add("len", set_, ops)
    # every cut and every length field of some packets
    for name, p in good + broken:
        p = bytes(p)
        if len(p) > 120:
            continue
        ops = []
        for n in range(20, len(p) + 1):
            ops.append(dec(with_len(p[:n], n - 20)))
        o.add("cut-" + name, "rfc5389", ops)
        ops = []
        for c, i, n in tlvs(p):
            for x in list(range(0, n + 9)) + [255, 256, 65535, 65532]:
                q = p[:i - 2] + struct.pack(">H", x) + p[i:]
                if canonical(q, "rfc5389"):
                    ops.append(dec(q))
        o.add("tlvlen-" + name, "rfc5389", ops)
        ops = []
        for c, i, n in tlvs(p):
            for t in (0x0001, 0x0006, 0x0008, 0x0009, 0x000A, 0x0020, 0x8020, 0x8028, 0x7F01, 0x8023):
                q = p[:i - 4] + struct.pack(">H", t) + p[i - 2:]
                if canonical(q, "rfc5389"):
                    ops.append(dec(q))
        o.add("retype-" + name, "rfc5389", ops)
    # values outside their ranges, at the start, in the middle and at the end
    for set_ in ("all", "turn", "rfc5389", "rfc5766"):
        for c in SETS[set_]:
            kd = KIND[c]
            ops = []
            for w in wire_edges(kd):
                a, z = tlv(0x7F01, b"abc", b"\x01"), tlv(0x7F02, b"")
                for ts in ([tlv(c, w)], [a, tlv(c, w), z]):
                    ops.append(dec(packet(rng.randrange(4), rng.randrange(4096), rtx(rng), ts)))
            if ops:
                o.add("edge", set_, ops)
    # random damage
    for i in range(250 * k):
        set_ = rng.choice(["all", "all", "turn", "rfc5389", "rfc5766", "rfc5780", "rfc5245", "raw"])
        ops = []
        for _ in range(5):
            p = bytes(rand_packet(rng, set_, rng.randrange(5), 30, 0.2, True, rng.random() < 0.2, rng.random() < 0.2))
            for _ in range(rng.choice([0, 1, 1, 2, 4])):
                if len(p) <= 20:
                    break
                j = rng.randrange(20, len(p))
                r = rng.random()
                if r < 0.4:
                    p = p[:j] + bytes([p[j] ^ (1 << rng.randrange(8))]) + p[j + 1:]
                elif r < 0.6:
                    p = fix_len(p[:j])
                elif r < 0.8:
                    p = fix_len(p[:j] + bytes(rbytes(rng, rng.randrange(5))) + p[j:])
                else:
                    p = p[:j] + bytes([rng.choice([0, 1, 2, 4, 8, 255])]) + p[j + 1:]
            if signed(p) and not canonical(p, set_):
                continue
            if rng.random() < 0.6:
                ops.append(dec(p))
            else:
                ops += feed_all(p, chunks(rng, len(p)))
        o.add("damage", set_, ops)
    for p in extreme_bodies(rng, "all"):
        o.add("extreme", "all", [dec(p), dec(good[1][1])])
    for n in CROWDS:
        for set_ in ("all", "rfc5389", "raw"):
            o.add("crowd", set_, [dec(crowd(rng, set_, n)), dec(crowd(rng, set_, n, bad=1)), dec(crowd(rng, set_, n, fp=1)), dec(good[1][1])])


def wire_edges(kd):
    """Wire values around the limits of a kind, valid and invalid."""
    if kd in ("addr", "xaddr"):
        out = [bytes([0, f, 0, 80]) + bytes(n) for f in (0, 1, 2, 3, 4, 128, 255) for n in (0, 3, 4, 5, 15, 16, 17)]
        return out
    if kd == "name":
        return [b"a" * 512, b"a" * 513, U2 * 256, U2 * 257, b"\x80", b"\xc3", b"a\xc0\x80", U3[:2], U4[:3],
                b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"a" * 600, b"\xf0\x8f\xbf\xbf", b"ok\xff"]
    if kd == "text":
        return [b"a" * 127, b"a" * 128, U2 * 127, U2 * 128, U4 * 127, U4 * 128, b"\x80", U3[:2], b"\xed\xa0\x80",
                b"a" * 763, b"a" * 764, U4 * 190, b"\xff", U3 * 127 + b"a"]
    if kd == "err":
        return [bytes([0, 0, c, n]) + t for c in range(8) for n in (0, 1, 99, 100, 127, 255) for t in (b"", b"r")] + \
               [bytes([0, 0, 4, 0]) + t for t in (b"\xff", U3, U3[:2], b"a" * 800)] + [b"", b"\0", bytes(3)]
    if kd == "types":
        return [b"", b"\1", b"\1\2", b"\1\2\3", bytes(40), bytes(41)]
    if kd == "chan":
        return [struct.pack(">HH", n, 0) for n in (0, 0x3FFF, 0x4000, 0x4001, 0x4FFF, 0x5000, 0x7FFF, 0x8000, 0xFFFF)] + [b"", bytes(3), bytes([0x40, 0, 0, 0, 0])]
    if kd == "family":
        return [bytes([n, 0, 0, 0]) for n in (0, 1, 2, 3, 4, 128, 255)] + [b"", b"\1", b"\1\0\0", bytes([1, 0, 0, 0, 0])]
    if kd == "even":
        return [b"\0", b"\x80", b"", b"\0\0", b"\x80\0\0\0"]
    if kd in ("proto", "port", "change", "u32"):
        return [bytes([6 if kd != "change" else 0, 0, 0, 0]), b"", b"\0", bytes(3), bytes(5), bytes(8)]
    if kd == "u64":
        return [bytes(8), b"", bytes(4), bytes(7), bytes(9), bytes(12)]
    if kd == "empty":
        return [b"", b"\0", bytes(4)]
    if kd == "mi":
        return [bytes(20), bytes(19), bytes(21), b"", bytes(24)]
    if kd == "fp":
        return [bytes(3), bytes(5), b"", bytes(8), bytes(4)]
    return [b"", bytes(1), bytes(300)]


def c09(o, rng, k):
    good, broken, rejected = base_packets(rng)
    names = good + broken + rejected
    after = [LOOK, op("mic", pw=[97]), op("micl", u=[97], re=[98], pw=[]), enc(), op("start"), pull(7), pull(0), pull(99999, -2),
             op("addfp"), op("addmi", pw=[1, 2]), LOOK, enc(), dec_out(), FE, FD]
    for name, p in names:
        p = bytes(p)
        for set_ in ALL_SETS:
            ops = []
            for n in sorted({0, 1, 3, 4, 8, 19, 20, 21, 24, len(p) - 1, len(p) // 2}):
                if n >= len(p):
                    continue
                # the stream ends early: at once, or after some calls
                ops += [dec(p[:n]), FD, feed(p[:n // 2]), feed(p[n // 2:n], -2), fin(), fin(), FD]
                ops += [feed(p[:n], 0), fin(), FD, feed(p[:n]), fin(), FD, feed(p[:n], 1), feed(b"", -2), fin(), FD]
            ops += [dec(p)] + after + [fin(), fin(), FD, feed(p + b"\0" * 9, 3), fin()] + after
            o.add("early-" + name, set_, ops)
    for i in range(300 * k):
        set_ = rng.choice(ALL_SETS + ["one"])
        only = rng.choice(sorted(KIND)) if set_ == "one" else 0
        ops = []
        for _ in range(4):
            r = rng.random()
            if r < 0.15:
                p = bytes(rbytes(rng, rng.randrange(60)))
            elif r < 0.5:
                n = rng.choice([0, 1, 3, 4, 7, 8, 16, 33, 64, 100])
                p = header(rng.randrange(16384), n, rtx(rng)) + bytes(rng.choice([0, 1, 4, 8, 0x20, 0x80, 255, rng.randrange(256)]) for _ in range(n))
            else:
                p = bytes(rand_packet(rng, rng.choice(ALL_SETS), rng.randrange(6), 30, 0.3, True, rng.random() < 0.3, rng.random() < 0.3))
                for _ in range(rng.choice([0, 1, 2, 3])):
                    j = rng.randrange(len(p))
                    if rng.random() < 0.3 and len(p) > 24:
                        p = p[:j] + p[j + 1:]
                    else:
                        p = p[:j] + bytes([rng.choice([0, 1, 255, rng.randrange(256)])]) + p[j + 1:]
            if rng.random() < 0.5:
                ops += [dec(p)]
            else:
                j = 0
                while j < len(p):
                    n = rng.choice([0, 1, 4, 20, 50])
                    ops.append(feed(p[j:j + n], rng.choice([-1, -1, -1, -2, 0, 5, 1000])))
                    j += max(n, 1) if rng.random() < 0.9 else n
                    if len(ops) > 120:
                        break
                ops += [fin()]
            ops += after[:rng.randrange(len(after) + 1)]
            if rng.random() < 0.5:
                ops += [FD]
        o.add("fuzz", set_, ops, only)
    for p in extreme_bodies(rng, "all"):
        for set_ in ("all", "rfc5389", "raw"):
            o.add("extreme", set_, [dec(p)] + after)
    # long texts: built, encoded and decoded, and decoded as they are
    for i, t in enumerate(long_texts()):
        ops = []
        for c in (0x0009, 0x0006, 0x0014, 0x0015, 0x8022):
            v = [300 + i % 400] + t if c == 9 else t
            ops += [new(3, 1, [c % 256] * 12), add(c, v), LOOK, enc(), dec_out(), LOOK,
                    dec(packet(3, 1, [4] * 12, [tlv(c, bytes([0, 0, 4, 1] if c == 9 else []) + bytes(t))]))]
        o.add("text", ("all", "rfc5389")[i % 2], ops)
    # near the size limit: fingerprints and digests of nearly 64 KiB
    for n in (65500, 65504, 65516, 65520, 65524, 65528):
        p = header(1, 4 + n, [1] * 12) + tlv(0x7F31, bytes(n))
        o.add("limit", "rfc5389", [dec(p)] + after)
        if n + 12 <= 65532:
            o.add("limit", "rfc5389", [dec(add_fp(p))] + after)
        if n + 28 <= 65532:
            o.add("limit", "rfc5389", [dec(add_mi(p, b"k"))] + after)
        o.add("limit", "rfc5766", [new(0, 6, [2] * 12), add(0x0013, [0] * n)] + after)
    # many attributes
    for n in (500, 2000):
        p = packet(0, 1, [3] * 12, [tlv(0x8022, b"")] * n)
        o.add("many", "rfc5389", [dec(p)] + after)
    # single values
    for c in [0] + sorted(KIND):
        ops = [op("inew", c=c)]
        for _ in range(12):
            b = rbytes(rng, rng.choice([0, 1, 2, 4, 8, 20, 25]))
            ops += [op("ifeed", b=b, eos=rng.choice([-1, -2, 0, 3])), op("ifin"), op("inew", c=c)]
        vs = values("addr" if c == 0 else KIND[c])
        if KIND.get(c) not in ("mi", "fp"):
            for v in vs[:6]:
                ops += [op("istart", v=v), op("ipull", n=rng.randrange(6), eos=-1), op("ipull", n=9999, eos=-2)]
        o.add("item", "raw", ops)


def c10(o, rng, k):
    addrs = values("xaddr")
    txs = [[0] * 12, [255] * 12, list(range(12)), [0x21, 0x12, 0xA4, 0x42] * 3] + [rbytes(rng, 12) for _ in range(4)]
    for tx in txs:
        o.add("fn", "raw", [op("xor", v=v, tx=tx) for v in addrs + [raddr(rng) for _ in range(20)]])
    one_hot = [op("xor", v=[2, 0] + [0] * 16, tx=[(1 << b) * (i == j) for j in range(12)]) for i in range(12) for b in range(8)]
    o.add("fn", "raw", one_hot)
    for c in XOR_TYPES:
        for set_, only in [("all", 0), ("one", c)] + [(s, 0) for s in ("rfc5389", "rfc5766", "turn") if c in SETS[s]]:
            for tx in txs[:8]:
                ops = []
                for v in addrs + [raddr(rng) for _ in range(3 * k)]:
                    ops += [new(rng.randrange(4), rng.randrange(4096), tx), add(c, v), op("look", lab=len(ops) + 1)]
                    lab = len(ops)
                    ops += [enc(), op("look", lab=lab), enc(), op("start"), pull(9999), op("look", lab=lab),
                            dec_out(), op("look"), enc(), op("look"), dec_out(), enc(), op("look")]
                    w = enc_val("xaddr", v, tx)
                    ops += [dec(packet(2, 1, tx, [tlv(c, w)])), enc(), op("look")]
                o.add("msg", set_, ops, only)
    # several in one message, in one message after another with other ids, rebuilt and copied
    for i in range(80 * k):
        set_ = rng.choice(["all", "rfc5389", "turn", "rfc5766"])
        types = [c for c in SETS[set_] if c in XOR_TYPES]
        ops = []
        for _ in range(3):
            ops.append(rand_new(rng))
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < 0.7:
                    ops.append(add(rng.choice(types), raddr(rng)))
                else:
                    c, v = rand_attrs(rng, set_, 1, 10)[0]
                    ops.append(add(c, v))
            ops += [LOOK, enc(), LOOK]
            if set_ in ("all", "rfc5389", "turn") and rng.random() < 0.5:
                ops += sign(rng) + [LOOK, enc(), op("addfp"), LOOK, enc()]
            ops += [dec_out(), LOOK, enc(), LOOK, op("rebuild"), LOOK, enc(), dec_out(), LOOK]
        o.add("rand", set_, ops)


    cross = cross_addresses()
    for g in range(0, len(cross), 20):
        ops = [op("xor", v=v, tx=rtx(rng)) for v in cross[g:g + 20]]
        ops += [rand_new(rng)] + [add(XOR_TYPES[(g + j) % 4], v) for j, v in enumerate(cross[g:g + 20])]
        o.add("cross", "all", ops + [LOOK, enc(), LOOK, dec_out(), LOOK, enc(), LOOK])
    for n in (9, 17, 33, 70, 260):
        ops = [rand_new(rng)] + [add(rng.choice(XOR_TYPES), raddr(rng)) for _ in range(n)]
        o.add("crowd", "all", ops + [LOOK, enc(), LOOK, dec_out(), LOOK, enc(), LOOK])


# Words a comparison might let pass.
WORDS = [[0] * 4, [255] * 4, [0x53, 0x54, 0x55, 0x4E], list(COOKIE), [0, 0, 0, 1]] \
    + [list(n.to_bytes(4, "big")) for n in NUMS if n >= 65536 and n < 1 << 32]
FP_SETS = ["rfc5389", "all", "turn"]


def size_groups(k):
    """Sizes of one attribute's value, so that the body's length passes the carries of its low byte."""
    ns = [n for n in range(0, 1100) if n % 4 == n // 4 % 4 and (k > 1 or n < 80 or n % 256 > 210)]
    ns += [4076 + 4 * i for i in range(6)] + [32730 + 4 * i for i in range(10)] * (k > 1) + [65270 - 4 * i for i in range(9)] * (k > 1)
    return [ns[i:i + 16] for i in range(0, len(ns), 16)]


def c11(o, rng, k):
    for set_ in FP_SETS:
        for i in range(40 * k):
            ops = build(rng, set_, rng.randrange(6), rng.random() < 0.3)
            ops += [enc(), op("addfp"), enc(), dec_out(rt=1), enc()]
            if rng.random() < 0.3:
                ops += [op("addfp"), enc(), dec_out(rt=1)]
            o.add("create", set_, ops)
        o.add("create", set_, [rand_new(rng), enc(), op("addfp"), enc(), dec_out(rt=1)])
    o.add("create", "one", [rand_new(rng), enc(), op("addfp"), enc(), dec_out(rt=1), enc(), op("addfp"), enc(), dec_out(rt=1)], 0x8028)
    # every size of the body before it, small ones and where the length carries
    for g in size_groups(k):
        o.add("size", "all", [x for n in g for x in (rand_new(rng), add(0x0013, rbytes(rng, n)), op("addfp"), enc(), dec_out(rt=1))])
    # every single-bit change of some packets
    tx = [0x11, 0x22] * 6
    some = [
        ("min", "rfc5389", add_fp(packet(0, 1, tx, []))),
        ("sw", "rfc5389", add_fp(packet(0, 1, tx, [tlv(0x8022, b"abcde", b"\1\2\3")]))),
        ("unk", "rfc5389", add_fp(packet(2, 1, tx, [tlv(0x7F01, b"abcde", b"\1\2\3"), tlv(0x0015, b"n")]))),
        ("mid", "rfc5389", add_tlv(add_fp(packet(1, 1, tx, [tlv(0x8022, b"ab")])), tlv(0x8022, b"later"))),
        ("mi", "rfc5389", add_fp(add_mi(packet(0, 1, tx, [tlv(0x0006, b"user")]), b"pw"))),
        ("two", "rfc5389", add_fp(add_fp(packet(0, 1, tx, [tlv(0x0006, b"user")])))),
        ("one", "one", add_fp(packet(0, 1, tx, [tlv(0x8022, b"abc", b"\7")]))),
    ]
    for name, set_, p in some:
        p = bytes(p)
        only = 0x8028 if set_ == "one" else 0
        ops = [dec(p), enc()]
        for i in range(len(p)):
            if 4 <= i < 8:
                continue
            for b in (range(8) if k > 1 or len(p) < 45 else [0, 7, i % 6 + 1]):
                q = p[:i] + bytes([p[i] ^ (1 << b)]) + p[i + 1:]
                if q[0] < 64 and canonical(q, "rfc5389" if set_ != "one" else "raw"):
                    if i in (2, 3):
                        continue
                    ops.append(dec(q))
        o.add("flip-" + name, set_, ops, only)
    # received: fingerprints anywhere, matching or not
    for i in range(120 * k):
        set_ = rng.choice(FP_SETS + ["one", "rfc5389"])
        only = 0x8028 if set_ == "one" else 0
        types = None if set_ != "one" else [0x8022, 0x0013, 0x0006]
        ops = []
        for _ in range(4):
            p = bytes(rand_packet(rng, "all" if set_ == "one" else set_, rng.randrange(5), 30, 0.3, True, True, rng.random() < 0.3, types))
            ops += [dec(p), enc()]
            fps = [(i, n) for c, i, n in tlvs(p) if c == 0x8028]
            i, n = fps[0]
            r = rng.random()
            good = p[i:i + 4]
            prefix = p[:i - 4]
            crc = zlib.crc32(with_len(prefix, len(prefix) - 20 + 8))
            wrong = [struct.pack(">I", crc), struct.pack(">I", crc ^ 0x5354554F), good[::-1], bytes(4),
                     struct.pack(">I", zlib.crc32(prefix) ^ 0x5354554E),
                     struct.pack(">I", zlib.crc32(with_len(prefix, len(p) - 20)) ^ 0x5354554E),
                     struct.pack(">I", ~crc & 0xFFFFFFFF ^ 0x5354554E)] + [bytes(lit_bytes(rng, 4)) for _ in range(4)]
            w = rng.choice(wrong + [bytes(x) for x in WORDS])
            q = p[:i] + w + p[i + 4:]
            ops.append(dec(q))
            # bytes after the fingerprint do not matter
            ops.append(dec(add_tlv(p, tlv(0x7F01, bytes(rbytes(rng, 5)), bytes(rbytes(rng, 3))))))
            j = rng.randrange(20, i - 4) if i - 4 > 20 else 8 + rng.randrange(12)
            q = p[:j] + bytes([p[j] ^ (1 << rng.randrange(8))]) + p[j + 1:]
            if canonical(q, "all"):
                ops.append(dec(q))
        o.add("rand", set_, ops, only)
    for body in ([], [tlv(0x8022, b"abc")]):
        p = packet(0, 1, tx, body)
        o.add("words", "rfc5389", [dec(add_tlv(p, tlv(0x8028, bytes(w)))) for w in WORDS])
    for n in CROWDS:
        for set_ in FP_SETS:
            p = crowd(rng, set_, n, fp=1)
            j = rng.randrange(22, len(p) - 8)
            o.add("crowd", set_, [dec(p), enc(), dec(p[:-1] + bytes([p[-1] ^ 1]))])
    # several of them, next to each other and among others
    for i in range(40 * k):
        ops = build(rng, "rfc5389", rng.randrange(3), False, False)
        for _ in range(rng.randrange(2, 7)):
            r = rng.random()
            ops += [op("addfp")] if r < 0.7 else sign(rng) if r < 0.85 else [add(0x8022, rtext(rng, 4))]
        o.add("several", "rfc5389", ops + [enc(), dec_out(rt=1), op("addfp"), enc(), dec_out(rt=1)])
    # added to received messages, with what the set does not know and any padding
    for i in range(60 * k):
        set_ = rng.choice(FP_SETS)
        p = bytes(rand_packet(rng, "all", rng.randrange(1, 6), 30, 0.4, True, False, False))
        o.add("relay", set_, [dec(p), op("addfp"), enc(), dec_out(rt=1), enc(), op("addfp"), enc(), dec_out(rt=1)])
    for n in (65504, 65508, 65512, 65520):
        p = header(1, 4 + n, tx) + tlv(0x7F31, bytes(n))
        if n + 12 <= 65532:
            o.add("large", "rfc5389", [dec(add_fp(p)), enc(), dec(bytes(add_fp(p))[:-1] + b"\1")])
    o.add("large", "all", [new(0, 1, tx), add(0x0013, [1] * 65516), enc(), op("addfp"), enc(), dec_out(rt=1)])
    o.add("large", "all", [new(0, 1, tx), add(0x0013, [1] * 65520), enc(), op("addfp"), enc()])


DECORATIONS = [b"\n", b"\r\n", b" ", b"\t", b"\0", b'"', b'""', b"'", b":", b"::", b"@", b"\\", b"%20", b"/", b";", b",", b"=", b"<>",
               b"\xc2\xa0", b"\xc2\xad", b"\xef\xbb\xbf", b"\xcc\x81", b"A", b"\xc3\x9f", b"\xf0\x9f\x98\x80", b"0" * 70]


def key_of(c):
    return long_key(c["u"], c["re"], c["pw"]) if "u" in c else bytes(c["pw"])


def c12(o, rng, k):
    sets = FP_SETS
    for i in range(150 * k):
        set_ = rng.choice(sets)
        c = cred(rng)
        wrong = [dict(c, pw=c["pw"] + [65]), dict(c, pw=[67] + c["pw"])]
        if "u" in c:
            wrong += [dict(c, u=c["u"] + [120] if len(c["u"]) < 512 else [98] * 512),
                      dict(c, re=c["re"] + [120] if len(c["re"]) < 100 else list(b"other")), {"pw": c["pw"]}]
        else:
            wrong += [dict(c, u=[], re=[])]
        checks = [check_with(c)] + [check_with(w) for w in wrong]
        ops = build(rng, set_, rng.randrange(5), False)
        ops += sign_with(c) + checks
        for a in rand_attrs(rng, set_, rng.randrange(4), 20):
            ops.append(add(*a))
        if rng.random() < 0.5:
            ops += [enc(), op("addfp")]
        if rng.random() < 0.3:
            ops += sign_with(cred(rng))
        ops += checks + [enc(), dec_out()] + checks + [enc(), op("rebuild")] + checks[:2]
        o.add("create", set_, ops)
    for c in ({"pw": []}, {"pw": [65]}, {"pw": [66] * 64}, {"pw": [67] * 65}, {"pw": list(b"x" * 200)},
              {"pw": [], "u": [], "re": []}, {"pw": list(b"pass"), "u": list(b"user"), "re": list(b"realm")},
              {"pw": list(U3), "u": list(U2), "re": list(U4)}):
        for set_, only in [("rfc5389", 0), ("one", 8)]:
            ops = [rand_new(rng)] + sign_with(c) + [check_with(c), enc(), dec_out(), check_with(c), check_with(dict(c, pw=[1]))]
            o.add("key", set_, ops, only)
    for g in size_groups(k):
        c = cred(rng)
        o.add("size", "all", [x for n in g for x in [rand_new(rng), add(0x0013, rbytes(rng, n))] + sign_with(c) + [check_with(c), enc(), dec_out(), check_with(c), check_with(dict(c, pw=c["pw"] + [65]))]])
    # ambiguous joins of user, realm and password are the same key
    a = {"u": list(b"a:b"), "re": list(b"c"), "pw": list(b"d")}
    b = {"u": list(b"a"), "re": list(b"b:c"), "pw": list(b"d")}
    o.add("key", "rfc5389", [rand_new(rng)] + sign_with(a) + [check_with(b), check_with(a)])
    # received packets: every bit of some, and attributes after
    tx = [0x31] * 12
    p = add_mi(packet(0, 1, tx, [tlv(0x0006, b"user1", b"\1\2\3"), tlv(0x7F00, b"q")]), b"pw")
    p = bytes(add_tlv(p, tlv(0x8022, b"later")))
    ops = [dec(p), check_with({"pw": list(b"pw")})]
    for i in range(len(p)):
        if i in (2, 3, 4, 5, 6, 7):
            continue
        for bit in (range(8) if k > 1 else [0, i % 7 + 1]):
            q = p[:i] + bytes([p[i] ^ (1 << bit)]) + p[i + 1:]
            if q[0] < 64 and canonical(q, "rfc5389") and not any(c in (0x8028,) for c, _, _ in tlvs(q)):
                ops += [dec(q), check_with({"pw": list(b"pw")})]
    # keep each session short
    for g in range(0, len(ops), 60):
        o.add("flip", "rfc5389", [FD, new(0, 0, [0] * 12)] + ops[g:g + 60])
    for i in range(120 * k):
        set_ = rng.choice(sets + ["one"])
        only = 8 if set_ == "one" else 0
        c = cred(rng)
        key = long_key(c["u"], c["re"], c["pw"]) if "u" in c else bytes(c["pw"])
        types = None if set_ != "one" else [0x8022, 0x0013]
        ops = []
        for _ in range(3):
            p = bytes(rand_packet(rng, "all" if set_ == "one" else set_, rng.randrange(4), 30, 0.3, True, False, False, types))
            pre = p
            p = bytes(add_mi(p, key))
            for _ in range(rng.randrange(3)):
                r = rng.random()
                if r < 0.3:
                    p = bytes(add_mi(p, rng.choice([key, b"other"])))
                elif r < 0.6 and set_ != "one":
                    p = bytes(add_fp(p))
                else:
                    p = bytes(add_tlv(p, tlv(0x8022, bytes(rtext(rng, rng.randrange(9))), None)))
            ops += [dec(p), check_with(c), check_with(dict(c, pw=c["pw"] + [97])), enc()]
            bad = rng.choice([hmac.new(key, pre, hashlib.sha1).digest(),
                              hmac.new(key, with_len(pre, len(p) - 20), hashlib.sha1).digest(), bytes(20)])
            q = add_tlv(pre, tlv(0x0008, bad))
            ops += [dec(q), check_with(c)]
        o.add("recv", set_, ops, only)
    for n in CROWDS:
        for set_ in sets:
            p = crowd(rng, set_, n, mi=b"pw")
            o.add("crowd", set_, [dec(p), check_with({"pw": list(b"pw")}), check_with({"pw": list(b"px")}), dec(add_fp(p)), check_with({"pw": list(b"pw")})])
    # values a comparison might let pass
    for c in ({"pw": list(b"pw")}, {"pw": []}, {"pw": list(b"p"), "u": list(b"u"), "re": list(b"r")}):
        key = long_key(c["u"], c["re"], c["pw"]) if "u" in c else bytes(c["pw"])
        p = packet(0, 1, tx, [tlv(0x0006, b"u")])
        m = mi_value(p, key)
        vs = [bytes(20), b"\xff" * 20, m[::-1], m[1:] + m[:1], bytes(x ^ 255 for x in m), bytes(sorted(m)), m[:10] * 2,
              (key + bytes(20))[:20], hashlib.sha1(bytes(p)).digest(), hashlib.sha1(key + bytes(p)).digest(),
              mi_value(p, key + b"\0"), mi_value(p, key.upper()), mi_value(p, key * 2), mi_value(p, b""), m]
        vs += [m[:n] + bytes(x ^ 85 for x in m[n:]) for n in range(20)] + [bytes(x ^ 85 for x in m[:n]) + m[n:] for n in range(1, 20)]
        ops = []
        for v in vs:
            ops += [dec(add_tlv(p, tlv(0x0008, v))), check_with(c)]
        o.add("words", "rfc5389", ops)
        # credentials that are nearly right
        near = [{"pw": x} for x in (c["pw"] + [0], c["pw"] + [0] * 62, [0] + c["pw"], c["pw"][:-1], c["pw"] + [32], [ord("P")] + c["pw"][1:],
                                    c["pw"] * 2, [], list(key.hex().encode()), list(key.hex().upper().encode()))]
        near += [{"pw": a, "u": b, "re": d} for a, b, d in ((list(b"p"), list(b"r"), list(b"u")), (list(b"p"), list(b"u"), []), (list(b"p"), [], list(b"r")),
                 (list(b"r:p"), list(b"u"), []), (list(b"p"), list(b"u:r"), []), (list(b"P"), list(b"u"), list(b"r")), (list(b"p"), list(b"U"), list(b"r")),
                 (list(b"p"), list(b"u"), list(b"R")), (list(b"p "), list(b"u"), list(b"r")), (list(b"p"), list(b"u"), list(b"r ")), (list(b"p"), list(b" u"), list(b"r")))]
        o.add("near", "rfc5389", [dec(add_mi(p, key))] + [check_with(x) for x in near + [c]])
    # several integrity attributes and fingerprints, in any order
    for i in range(60 * k):
        set_ = rng.choice(sets)
        c = cred(rng)
        p = packet(rng.randrange(4), rng.randrange(4096), tx, [])
        ops = [new(0, 1, tx)]
        for _ in range(rng.randrange(2, 7)):
            r = rng.random()
            v = rtext(rng, 4)
            if r < 0.45:
                p = add_mi(p, key_of(c if rng.random() < 0.8 else {"pw": [120]}))
                ops += sign_with(c)
            elif r < 0.8:
                p = add_fp(p)
                ops.append(op("addfp"))
            else:
                p = add_tlv(p, tlv(0x8022, v))
                ops.append(add(0x8022, v))
        o.add("layers", set_, [dec(p), check_with(c)] + ops + [check_with(c), enc(), dec_out(), check_with(c)])
    # what a credential could be stripped of, or cut at
    plain = {"pw": list(b"pass"), "u": list(b"user"), "re": list(b"real")}
    for d in DECORATIONS:
        ops = []
        for long_term in (False, True):
            c0 = plain if long_term else {"pw": plain["pw"]}
            for f in c0:
                for at in (0, 2, 4):
                    c = dict(c0, **{f: c0[f][:at] + list(d) + c0[f][at:]})
                    ops += [FD, dec(add_mi(p, key_of(c))), check_with(c), check_with(c0), new(0, 1, tx)] + sign_with(c) + [check_with(c), check_with(c0),
                            dec(add_mi(p, key_of(c0))), check_with(c)]
        o.add("decorated", "rfc5389", ops)
    # signing received messages, with what the set does not know and any padding
    for i in range(60 * k):
        set_ = rng.choice(sets)
        c = cred(rng)
        p = bytes(rand_packet(rng, "all", rng.randrange(1, 6), 30, 0.4, True, False, False))
        ops = [dec(p)] + sign_with(c) + [check_with(c), check_with(dict(c, pw=c["pw"] + [97])), enc(), dec_out(), check_with(c),
                                         check_with(dict(c, pw=c["pw"] + [97]))]
        o.add("relay", set_, ops)
    n = 65500
    ops = [new(0, 1, tx), add(0x0013, [1] * n)] + sign_with({"pw": [1]}) + [check_with({"pw": [1]}), enc(), dec_out(), check_with({"pw": [1]})]
    o.add("large", "all", ops)
    for n in (65504, 65508, 65528):
        o.add("large", "all", [new(0, 1, tx), add(0x0013, [1] * n)] + sign_with({"pw": [1]}) + [check_with({"pw": [1]}), check_with({"pw": [2]})])


def c13(o, rng, k):
    for c, limit in TEXT_TYPES:
        for g in text_groups(c, limit):
            o.add("texts", rng.choice(["all", "rfc5389"]), [rand_new(rng)] + [add(c, text_value(c, t)) for t in g] + [enc(), dec_out(), LOOK])
    for set_, only in [("all", 0)] + [(s, 0) for s in ALL_SETS if s not in ("all", "raw")] + ones():
        types = [only] if set_ == "one" else SETS[set_]
        for c in types:
            kd = KIND[c]
            ops = []
            if kd not in ("mi", "fp"):
                for v in values(kd) + [rand_value(rng, kd) for _ in range(4 * k)]:
                    ops += [new(0, 1, rtx(rng)), add(c, v), enc(), dec_out(), LOOK]
                    if len(ops) > 100:
                        o.add("val", set_, ops, only)
                        ops = []
            o.add("val", set_, ops, only)
            # every flag and field bit, reserved bits, lengths
            ops = []
            tx = rtx(rng)
            for v in (values(kd) if kd not in ("mi", "fp") else [])[:12]:
                w = bytes(enc_val(kd, v, tx))
                if len(w) > 64:
                    continue
                ops.append(dec(packet(0, 1, tx, [tlv(c, w)])))
                for i in range(len(w)):
                    for b in range(8):
                        if kd in ("name", "text", "data") and i > 4:
                            continue
                        q = w[:i] + bytes([w[i] ^ (1 << b)]) + w[i + 1:]
                        if set_ in ("all", "one") or b in (0, 7):
                            ops.append(dec(packet(0, 1, tx, [tlv(c, q)])))
                    if len(ops) > 150:
                        o.add("bits", set_, ops, only)
                        ops = []
            # every reserved bit at once, and any of them
            if set_ in ("all", "one"):
                res = RESERVED.get(kd, {})
                for v in (values(kd) if kd not in ("mi", "fp") else []) + [rand_value(rng, kd) for _ in range(2 if kd not in ("mi", "fp") else 0)]:
                    w = bytes(enc_val(kd, v, tx))
                    if not res or len(w) > 64:
                        continue
                    for m in (255, 0, 0x55, None, None):
                        q = bytes(b | (res.get(i, 0) & (rng.randrange(256) if m is None else m)) for i, b in enumerate(w))
                        ops.append(dec(packet(0, 1, tx, [tlv(c, q)])))
            for n in range(0, 30):
                ops.append(dec(packet(0, 1, tx, [tlv(c, bytes(n))])))
                ops.append(dec(packet(0, 1, tx, [tlv(c, bytes([1, 1] * n)[:n])])))
            if kd != "fp":
                o.add("bits", set_, ops, only)
    # exhaustive small fields
    for hi in range(256):
        if hi % (8 if k == 1 else 1) and hi not in (2, 4, 6, 128, 64):
            continue
        w = [bytes([0, 0, 0, hi]), bytes([hi, 0, 0, 0]), bytes([0, hi, 0, 0]), bytes([0, 0, hi, 0]), bytes([hi])]
        ops = []
        for c in (0x0003, 0x000C, 0x0018, 0x0019, 0x0027, 0x0017, 0x8000, 0x0024, 0x000D):
            for x in w:
                ops.append(dec(packet(0, 1, [0] * 12, [tlv(c, x)])))
        o.add("fields", "all", ops)
    for i in range(60 * k):
        ops = build(rng, "all", rng.randrange(2, 8)) + [enc(), LOOK, dec_out(), LOOK]
        o.add("rand", "all", ops)
    for i in range(120 * k):
        set_ = rng.choice(["all", "all", "rfc5389", "rfc5766", "turn", "raw"])
        c = rng.choice([c for c in addable(set_) if kind(set_, c) in LONG_KINDS])
        o.add("mid", set_, [rand_new(rng), add(c, mid_value(rng, kind(set_, c))), enc(), LOOK, dec_out(), LOOK])
    cross = cross_addresses()
    for g in range(0, len(cross), 20):
        for ts in ((0x0001, 0x8023, 0x802B, 0x802C), tuple(XOR_TYPES)):
            ops = [rand_new(rng)] + [add(ts[(g + j) % 4], v) for j, v in enumerate(cross[g:g + 20])]
            o.add("cross", "all", ops + [enc(), LOOK, dec_out(), LOOK])
    # the codecs of single values
    for c in sorted(KIND):
        kd = KIND[c]
        if kd in ("mi", "fp"):
            continue
        for v in values(kd):
            w = enc_val("addr" if kd == "xaddr" else kd, v, [0] * 12)
            for sizes in ([len(w)], [1] * len(w), chunks(rng, len(w))):
                ops = [op("inew", c=c), op("istart", v=v)] + [op("ipull", n=n, eos=-1) for n in sizes] + [op("ipull", n=9999, eos=-1)]
                i = 0
                for j, n in enumerate(sizes):
                    ops.append(op("ifeed", b=list(w[i:i + n]), eos=len(w) - i - n if rng.random() < 0.5 else -1))
                    i += n
                ops += [op("ifeed", b=list(w[i:]), eos=-2), op("ifin")]
                if len(w) > 200 and len(sizes) > 1:
                    continue
                o.add("item", "raw", ops)


ODD_CHARS = [0, 9, 10, 13, 0x20, 0x22, 0x5C, 0x7F, 0x80, 0x85, 0xA0, 0xAD, 0x301, 0x34F, 0x61C, 0x7FF, 0x800, 0x115F, 0x180E, 0x200B, 0x200D, 0x200E, 0x2028, 0x202E,
             0x2060, 0x20E3, 0x3000, 0x3099, 0xAC00, 0xD7FF, 0xE000, 0xFE0F, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F1E6, 0x1F3FB, 0x1F600, 0xE0001, 0xE0100, 0x10FFFF]


def c14(o, rng, k):
    ns = list(range(0, 65536, 257 if k == 1 else 17)) + [4094, 4095, 4096, 4097, 8191, 8192, 65535]
    o.add("method", "rfc5389", [op("meth", n=n) for n in ns] + [op("meth8", n=n) for n in range(256)])
    o.add("method", "rfc5389", [new(0, n, [0] * 12) for n in ns])
    for g in range(0x3F80, 0x5080, 64):
        o.add("chan", "rfc5766", [op("chan", n=n) for n in range(g, g + 64)] + [new(0, 1, [0] * 12)] + [add(0x000C, [n]) for n in range(g, g + 64, 7)])
    o.add("chan", "rfc5766", [op("chan", n=n) for n in range(0, 65536, 251)] + [op("chan", n=65535)])
    for g in range(0, 65536, 8192):
        step = 1 if k > 1 else 31
        o.add("chandec", "rfc5766", [dec(packet(0, 1, [0] * 12, [tlv(0x000C, struct.pack(">HH", n, 0))]))
                                    for n in list(range(g, g + 8192, 8 * step)) + [g + 8191]])
    o.add("chandec", "rfc5766", [dec(packet(0, 1, [0] * 12, [tlv(0x000C, struct.pack(">HH", n, 0))]))
                                for n in (0x3FFE, 0x3FFF, 0x4000, 0x4001, 0x4FFE, 0x4FFF, 0x5000, 0x5001)])
    for c in (0x0009,):
        codes = list(range(0, 1024)) + [65535, 65236, 300 + 65536 // 2]
        for g in range(0, len(codes), 128):
            o.add("err", "rfc5389", [new(0, 1, [0] * 12)] + [add(c, [n] + list(b"why")) for n in codes[g:g + 128]])
        for cl in range(8):
            o.add("errdec", "rfc5389", [dec(packet(3, 1, [0] * 12, [tlv(9, bytes([0, 0, cl, n]) + b"r")])) for n in range(256)])
    for c in (0x0006, 0x0014, 0x0015, 0x8022):
        unit = [b"a", U2, U3, U4]
        for u in unit:
            ops, dops = [new(0, 1, [0] * 12)], []
            lens = list(range(0, 4)) + list(range(120, 133)) + list(range(165, 175)) + list(range(250, 262)) + [508, 509, 510, 511, 512, 513, 514, 600]
            for n in lens:
                ops.append(add(c, u * n))
                dops.append(dec(packet(0, 1, [0] * 12, [tlv(c, u * n)])))
                if c == 0x8022:
                    ops.append(op("newstatic", v=list(u * n)))
            o.add("text", "rfc5389", ops)
            o.add("textdec", "rfc5389", dops)
        # characters that other counts of a text's length leave out or count otherwise
        ops = []
        for x in ODD_CHARS:
            x = chr(x).encode()
            n = 127 if c != 6 else 512
            room = (lambda m: m - len(x)) if c == 6 else (lambda m: m - 1)
            for at in (n, n + 1):
                for t in (x + b"a" * room(at), b"a" * room(at) + x, x * (at if c != 6 else at // len(x)), (b"a" + x) * (at // (2 if c != 6 else 1 + len(x))) + b"a" * (at % (2 if c != 6 else 1 + len(x)))):
                    ops += [new(0, 1, [0] * 12), add(c, t), dec(packet(0, 1, [0] * 12, [tlv(c, t)]))]
                    if c == 0x8022 and rng.random() < 0.3:
                        ops.append(op("newstatic", v=list(t)))
            if len(ops) > 120:
                o.add("odd", rng.choice(["rfc5389", "all"]), ops)
                ops = []
        o.add("odd", "rfc5389", ops)
        ops = [new(0, 1, [0] * 12)]
        for _ in range(40 * k):
            n = rng.choice([126, 127, 128, 129]) if c != 6 else rng.randrange(150, 260)
            t = rtext(rng, n)
            ops += [add(c, t), dec(packet(0, 1, [0] * 12, [tlv(c, bytes(t))])), new(0, 1, [0] * 12)]
        o.add("text", "rfc5389", ops)
    for c in (0x0013, 0x8030):
        for n in (0, 1, 65531, 65532, 65534, 65535, 65536, 65537, 70000):
            o.add("data", "all", [new(0, 1, [0] * 12), add(c, [1] * n)])
    secs = [0, 1, 600, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**33, 2**63, 2**64 - 1]
    for s_ in secs:
        o.add("life", "rfc5766", [op("life", secs=list(struct.pack(">Q", s_)), nanos=n) for n in (0, 1, 999999999)])
    o.add("life", "rfc5766", [op("life32", secs=list(struct.pack(">I", s_))) for s_ in secs if s_ < 2**32])
    for set_ in ("all", "rfc5389", "rfc5766", "turn"):
        for c in SETS[set_]:
            kd = KIND[c]
            if kd in ("mi", "fp"):
                continue
            ops = [new(0, 1, rtx(rng))]
            for v in values(kd) + bad_values(kd):
                ops.append(add(c, v))
            for w in wire_edges(kd):
                ops.append(dec(packet(0, 1, [0] * 12, [tlv(c, w)])))
            o.add("edge", set_, ops)
    for set_, c in ones():
        kd = KIND[c]
        if kd in ("mi", "fp"):
            continue
        ops = [new(0, 1, rtx(rng))] + [add(c, v) for v in bad_values(kd) + values(kd)]
        ops += [dec(packet(0, 1, [0] * 12, [tlv(c, w)])) for w in wire_edges(kd)]
        o.add("edge", set_, ops, c)
    for c in sorted(KIND):
        kd = KIND[c]
        if kd in ("mi", "fp"):
            continue
        for w in wire_edges("addr" if kd == "xaddr" else kd):
            if len(w) > 65000:
                continue
            o.add("item", "raw", [op("inew", c=c), op("ifeed", b=list(w), eos=-2), op("ifin")])
    for i in range(100 * k):
        p = bytes(rand_packet(rng, "all", rng.randrange(1, 5), 30, 0.1, False))
        for _ in range(2):
            j = rng.randrange(24, len(p)) if len(p) > 24 else 0
            if j:
                p = p[:j] + bytes([rng.choice([0, 1, 2, 3, 4, 5, 6, 0x40, 0x4F, 0x50, 99, 100, rng.randrange(256)])]) + p[j + 1:]
        if not signed(p):
            o.add("rand", "all", [dec(p)])


def c15(o, rng, k):
    step = 1 if k > 1 else 7
    for g in range(0, 65536, 4096):
        o.add("ctype", "raw", [op("ctype", c=c) for c in list(range(g, g + 4096, step)) + [g + 4095]])
    o.add("ctype", "raw", [op("ctype", c=c) for c in (0x7FFE, 0x7FFF, 0x8000, 0x8001)])
    # every type number once in every predefined set: known exactly if it belongs to it
    near = sorted({c + d for c in KIND for d in (-1, 0, 1)} - {-1} | {c ^ 0x8000 for c in KIND} | {c ^ 0x0100 for c in KIND} | set(UNKNOWN_TYPES)
                  | {n + d for n in SHORT for d in (-1, 0, 1)})
    near = [c for c in near if 0 <= c <= 65535]
    for set_, only in [(s, 0) for s in ALL_SETS] + [("probe", 0)] + ones():
        ops = []
        for c in near:
            kd = KIND.get(c, "raw")
            vs = values(kd)
            if kd == "mi":
                vs = [[3] * 20]
            if kd == "fp":
                p = add_fp(packet(0, 1, [0] * 12, []))
                ops.append(dec(p))
                continue
            v = rng.choice(vs)
            if len(v) > 100:
                v = vs[1]
            p = packet(0, 1, [0] * 12, [tlv(c, enc_val(kd, v, [0] * 12)), tlv(0x7F77, b"u")])
            ops.append(dec(p))
        for g in range(0, len(ops), 90):
            o.add("known", set_, ops[g:g + 90], only)
    for c in range(0, 65536, 997 if k == 1 else 61):
        o.add("raw", "raw", [op("raw", c=c, v=rbytes(rng, c % 9))])
    # mixtures with duplicates
    for set_ in ALL_SETS + ["one", "probe"]:
        for i in range(40 * k):
            only = rng.choice(sorted(KIND)) if set_ == "one" else 0
            if KIND.get(only) == "fp":
                only = 0x8022
            pool = [only] if set_ == "one" else SETS.get(set_, sorted(KIND))
            pool = [c for c in pool if KIND.get(c) not in ("mi", "fp")]
            if not pool:
                continue
            few = [rng.choice(pool) for _ in range(3)]
            tx = rtx(rng)
            ts = []
            for _ in range(rng.randrange(1, 9)):
                c = rng.choice(few + [rng.choice(sorted(KIND)), rng.choice(UNKNOWN_TYPES)])
                kd = KIND.get(c, "raw")
                if kd == "fp":
                    continue
                v = [9] * 20 if kd == "mi" else rand_value(rng, kd, 12)
                if kd == "raw" and v[:1] in ([0xDD], [0xEE]):
                    v = []
                ts.append(tlv(c, enc_val(kd, v, tx), None))
            p = packet(rng.randrange(4), rng.randrange(4096), tx, ts)
            ops = [dec(p), LOOK]
            if rng.random() < 0.5:
                ops += feed_all(p, chunks(rng, len(p)))
            ops += [enc(), LOOK]
            o.add("mix", set_, ops, only)
    for n in CROWDS:
        for set_ in ("all", "rfc5389", "turn", "raw", "rfc5766"):
            o.add("crowd", set_, [dec(crowd(rng, set_, n)), LOOK])
    # lookups on built messages
    for set_ in ALL_SETS:
        for i in range(15 * k):
            o.add("built", set_, build(rng, set_, rng.randrange(8)) + [LOOK, enc(), dec_out(), LOOK])
    for c in sorted(KIND):
        o.add("tag", "raw", [op("inew", c=c)] + [op("itag", c=x) for x in (c, c ^ 1, c ^ 0x8000, 0, 0xFFFF, c ^ 0x100) + tuple(sorted(KIND))])


def c16(o, rng, k):
    def size_msg(set_, sizes, c=0x0013):
        return [new(0, 6, rtx(rng))] + [add(c, [i % 256] * n) for i, n in enumerate(sizes)]
    small = [new(1, 7, [1] * 12), add(0x8022, b"ok")]
    smallraw = [new(1, 7, [1] * 12), add(0x7F01, b"ok")]
    after = [enc(lab=1), FE, enc(lab=1)]
    cases = [[65527], [65528], [65529], [65531], [65532], [65533], [65535], [32760, 32760], [32764, 32760],
             [32764, 32764], [32765, 32760], [65524, 0], [65524, 1], [65520, 4], [60000, 6000], [65535, 0], [65535, 65535],
             [16380] * 4, [16380] * 3 + [16376], [16380] * 3 + [16377]]
    for sizes in cases:
        for style in ("enc", "start"):
            ops = size_msg("all", sizes) + [op(style)]
            if style == "start":
                ops += [pull(30), pull(70000)]
            ops += small + after
            o.add("size", "all", ops)
    for n in (65532, 65533, 65535, 65536, 65537, 131072):
        o.add("raw", "raw", [new(0, 1, [1] * 12), add(0x7F01, [1] * n), enc()] + smallraw + after)
    for n in (32763, 32764, 32765, 32767, 32768, 32769):
        o.add("types", "rfc5389", [new(0, 1, [1] * 12), add(0x000A, [1] * n), enc()] + small + after)
    for n in (65524, 65525, 65528, 65531, 65532, 70000):
        o.add("reason", "rfc5389", [new(3, 1, [1] * 12), add(0x0009, [400] + [97] * n), enc()] + small + after)
    o.add("many", "rfc5389", [new(3, 1, [1] * 12)] + [add(0x8022, [97] * 124)] * 511 + [enc(), add(0x8022, [97] * 120), enc(), add(0x8022, []), enc()] + small + after)
    # signing near the limit
    for n in (65500, 65504, 65508, 65516, 65520, 65524, 65528, 65532):
        o.add("sign", "all", [new(0, 1, [1] * 12), add(0x0013, [1] * n), op("addfp"), enc(), FE] + small + after)
        o.add("sign", "all", [new(0, 1, [1] * 12), add(0x0013, [1] * n), op("addmi", pw=[1]), enc(), FE] + small + after)
    # refusal by a hook, before, between and after
    for pre in range(3):
        for post in range(3):
            ops = [new(0, 1, [2] * 12)] + [add(0x7F00, [1])] * pre + [add(0xFF00, [0xEE, 1])] + [add(0x8022, b"x")] * post
            for style in ("enc", "start"):
                o.add("hook", "probe", ops + [op(style), pull(9), new(1, 7, [1] * 12), add(0x7F00, b"ok")] + after)
    # busy: every way of interrupting a message in progress
    msgs = {"all": [small, [new(2, 3, [9] * 12), add(0x0020, [1, 80, 1, 2, 3, 4]), add(0x0013, [5] * 9)],
                    [new(3, 3, [9] * 12)], size_msg("all", [65533]),
                    [new(0, 3, [9] * 12), add(0x000A, [1, 2, 3])]],
            "probe": [[new(0, 1, [2] * 12), add(0x7F00, [1, 2, 3]), add(0x8022, b"x")],
                      [new(0, 1, [2] * 12), add(0x7F00, [0xEE])], [new(0, 9, [3] * 12)]],
            "rfc5389": [[new(0, 1, [2] * 12), add(0x8022, b"abc")], [new(0, 9, [3] * 12)]],
            "raw": [[new(0, 1, [2] * 12), add(0x8022, b"abc")], [new(0, 9, [3] * 12)]]}
    for set_, ms in msgs.items():
        for a in ms:
            for b in ms:
                for cut in (0, 1, 2, 3, 4, 8, 19, 20, 21, 24, 27):
                    ops = a + [enc(), op("start"), pull(cut)] + b + [op("start"), pull(3), enc(), op("start"), pull(70000), pull(5), enc(), op("start"), pull(99999)]
                    o.add("busy", set_, ops)
    for i in range(60 * k):
        set_ = rng.choice(["all", "probe", "rfc5389", "rfc5766", "raw", "turn"])
        ops = []
        for _ in range(8):
            ops += build(rng, set_, rng.randrange(4))
            if rng.random() < 0.2 and set_ in ("all", "turn", "rfc5766"):
                ops.append(add(0x0013, [1] * rng.choice([65528, 65529, 65532, 65533, 65535])))
            ops += [rng.choice([enc(), op("start")]), pull(rng.randrange(30))]
            if rng.random() < 0.6:
                ops.append(pull(99999))
        o.add("rand", set_, ops)
    # nothing is counted: more refusals, and more messages, than fit a byte
    ok = [add(0x8022, b"ok"), op("start"), pull(9), op("start"), pull(99)]
    for set_, c, v, n in (("probe", 0xFF00, [0xEE, 1], 300), ("rfc5389", 0x0009, [400] + [97] * 65530, 9), ("raw", 0x7F01, [1] * 65533, 9)):
        ops = [new(0, 1, [2] * 12), add(c, v)] + [op("start")] * n + [new(1, 7, [1] * 12)] + (ok if set_ != "probe" else [add(0x7F00, b"ok"), op("start"), pull(99)])
        o.add("refusals", set_, ops)
    o.add("messages", "rfc5389", [new(1, 7, [1] * 12), add(0x8022, b"ok")] + [op("start"), pull(9), op("start"), pull(99)] * 300)


def c17(o, rng, k):
    # sign, append, transmit, verify
    for i in range(200 * k):
        set_ = rng.choice(FP_SETS)
        c = cred(rng)
        before = rand_attrs(rng, set_, rng.randrange(5), 20)
        later = rand_attrs(rng, set_, rng.randrange(4), 20)
        ops = [rand_new(rng)] + [add(*a) for a in before] + sign_with(c) + [add(*a) for a in later]
        if rng.random() < 0.7:
            ops += [op("addfp")]
        ops += [enc()]
        if rng.random() < 0.5:
            ops += [dec_out(rt=1)]
        else:
            for a in range(0, 60, 6):
                ops.append(op("feed", src="out", **{"from": a, "cut": 6}, eos=-1))
            ops += [op("feed", src="out", **{"from": 60}, eos=-1), fin(rt=1)]
        ops += [check_with(c, want=1), enc(), dec_out(rt=1), check_with(c, want=1)]
        ops += [check_with(dict(c, pw=c["pw"] + [48]), want=0)]
        o.add("sign", set_, ops)
        # altered on the way, before the signature
        ops = [rand_new(rng)] + [add(*a) for a in before] + sign_with(c) + [enc(), dec_out(rt=1), check_with(c, want=1)]
        n = 20 + sum(4 + len(enc_val(kind(set_, t), v, [0] * 12)) + pad_len(len(enc_val(kind(set_, t), v, [0] * 12))) for t, v in before)
        for _ in range(6):
            j = rng.choice([0, 1] + list(range(8, n)) + list(range(n + 4, n + 24)))
            m = 1 << rng.randrange(6 if j == 0 else 8)
            if reserved_at(before, set_, j, m):
                continue
            ops += [FD, dec_out(flip=[[j, m]]), check_with(c, want=0)]
        o.add("alter", set_, ops)
    # dropped, reordered, replaced, inserted - with a valid fingerprint over the result
    for i in range(150 * k):
        set_ = rng.choice(FP_SETS)
        c = cred(rng)
        key = long_key(c["u"], c["re"], c["pw"]) if "u" in c else bytes(c["pw"])
        tx = rtx(rng)
        cl, me = rng.randrange(4), rng.randrange(4096)
        # attributes of the set, or of others, and unknown ones
        ts = [tlv(t, enc_val(kind("all", t), v, tx)) for t, v in
              rand_attrs(rng, rng.choice([set_, "all"]), rng.randrange(2, 5), 16)]
        for _ in range(rng.choice([0, 0, 0, 1, 2, 3, 4, 6])):
            w = bytes(rbytes(rng, rng.randrange(9)))
            ts.insert(rng.randrange(len(ts) + 1), tlv(unknown_type(rng), w, bytes(rbytes(rng, pad_len(len(w))))))
        base = packet(cl, me, tx, ts)
        mi = tlv(0x0008, mi_value(base, key))
        ins = tlv(0x8022, bytes(rtext(rng, 3)))
        perm = ts[:]
        rng.shuffle(perm)
        variants = [(ts + [mi], 1), (ts + [mi, ins], 1), (ts + [mi, ins, tlv(0x7F02, b"zz", b"\1\2")], 1),
                    (ts[1:] + [mi], 0), (ts[:-1] + [mi], 0), (ts + [ins, mi], 0), ([ins] + ts + [mi], 0),
                    (perm + [mi], 1 if perm == ts else (None if b"".join(perm) == b"".join(ts) else 0)),
                    ([mi] + ts, 0), (ts[:1] + [mi] + ts[1:], 0)]
        for v, want in variants:
            if want is None:
                continue
            p = packet(cl, me, tx, v)
            q = add_fp(p)
            ops = [dec(p), check_with(c, want=want), dec(q), check_with(c, want=want)]
            ops += [dec(packet(cl, me ^ 1, tx, v)), check_with(c, want=0), dec(packet(cl ^ 1, me, tx, v)), check_with(c, want=0)]
            ops += feed_all(q, chunks(rng, len(q))) + [check_with(c, want=want)]
            o.add("edit", set_, ops)
    # signatures and fingerprints in any order, by one signer
    for i in range(60 * k):
        set_ = rng.choice(FP_SETS)
        c = cred(rng)
        ops = [rand_new(rng)]
        for _ in range(rng.randrange(2, 7)):
            r = rng.random()
            ops += sign_with(c) if r < 0.4 else [op("addfp")] if r < 0.75 else [add(0x8022, rtext(rng, 4))]
        ops += sign_with(c) + [op("addfp")] * rng.randrange(3)
        o.add("layers", set_, ops + [enc(), dec_out(rt=1), check_with(c, want=1), check_with(dict(c, pw=c["pw"] + [48]), want=0)])
    # signed by a relay: a received message with any padding, then many more attributes
    for i in range(80 * k):
        set_ = rng.choice(FP_SETS)
        c = cred(rng)
        p = bytes(rand_packet(rng, rng.choice([set_, "all"]), rng.randrange(1, 6), 20, 0.3, True, False, False))
        ops = [dec(p)] + sign_with(c)
        for n in (rng.randrange(4), rng.choice([0, 1, 9, 20, 50])):
            ops += [add(*a) for a in rand_attrs(rng, set_, n, 8)]
            ops += [enc(), dec_out(rt=1), check_with(c, want=1)]
        if rng.random() < 0.5:
            ops += [op("addfp"), enc(), dec_out(rt=1), check_with(c, want=1)]
        ops += [check_with(dict(c, pw=c["pw"] + [48]), want=0)]
        o.add("relay", set_, ops)
    for n in CROWDS:
        for set_ in FP_SETS:
            p = crowd(rng, set_, n, mi=b"pw", fp=1)
            o.add("crowd", set_, feed_all(p, chunks(rng, len(p))) + [check_with({"pw": list(b"pw")}, want=1), check_with({"pw": list(b"px")}, want=0)])


def reserved_at(before, set_, j, mask):
    """Whether flipping mask at byte j of the message only touches reserved bits."""
    i = 20
    for t, v in before:
        kd = kind(set_, t)
        w = enc_val(kd, v, [0] * 12)
        r = RESERVED.get(kd, {})
        if i + 4 <= j < i + 4 + len(w):
            return bool(r.get(j - i - 4, 0) & mask)
        # the type or length of the attribute: a reinterpretation may have reserved bits anywhere
        if i <= j < i + 4:
            return True
        i += 4 + len(w) + pad_len(len(w))
    return False


def c18(o, rng, k):
    for set_ in ALL_SETS:
        o.add("const", set_, [op("consts"), op("errconv")])
    _, broken, _ = base_packets(rng)
    o.add("broken", "rfc5389", [dec(p) for _, p in broken])
    o.add("names", "raw", [op("meth", n=n) for n in range(0, 4096, 1 if k > 1 else 3)] + [op("meth", n=n) for n in range(32)])
    for set_, only in [("all", 0)] + [(s, 0) for s in ALL_SETS if s not in ("all", "raw")] + ones():
        types = [only] if set_ == "one" else SETS[set_]
        ops = [rand_new(rng)]
        for c in types:
            if KIND[c] == "fp":
                ops += [op("addfp"), enc()]
            elif KIND[c] == "mi":
                ops += [op("addmi", pw=[1]), enc()]
            else:
                for v in values(KIND[c])[:4]:
                    ops.append(add(c, v))
        ops += [enc(), LOOK, dec_out(), LOOK]
        o.add("types", set_, ops, only)


def steps(rng):
    """Sizes of reads or writes; 0 would block."""
    return [rng.choice([0, 1, 1, 2, 3, 7, 20, 21, 1000]) for _ in range(rng.randrange(1, 5))] + [rng.choice([1, 5, 64])]


def c19(o, rng, k):
    good, broken, rejected = base_packets(rng)
    for i in range(200 * k):
        set_ = rng.choice(["rfc5389", "rfc5389", "all", "turn", "raw", "rfc5766"])
        ps = []
        for _ in range(rng.randrange(1, 7)):
            r = rng.random()
            if r < 0.5:
                ps.append(bytes(rng.choice(good + broken)[1]))
            else:
                p = bytes(rand_packet(rng, set_, rng.randrange(5), 30, 0.3, True, rng.random() < 0.2, rng.random() < 0.2))
                if r < 0.7 and len(p) > 24 and not signed(p):
                    j = rng.randrange(20, len(p))
                    p = p[:j] + bytes([rng.randrange(256)]) + p[j + 1:]
                elif r < 0.75:
                    p = fix_len(p + b"\1")
                ps.append(p)
        if rng.random() < 0.3:
            ps.append(bytes(rng.choice(rejected)[1]))
        labs = list(range(1, len(ps) + 1))
        tail = bytes(rbytes(rng, rng.randrange(25))) if rng.random() < 0.3 else b""
        ops = [FD, op("decx", b=list(b"".join(ps) + tail), k=len(ps), labs=labs)]
        for lab, p in zip(labs, ps):
            ops += [FD, dec(p, lab=lab)]
        # the same stream, read as the reader trusting the required bytes does, in other pieces
        ops += [FD]
        for lab, p in zip(labs, ps):
            hdr_ok = p[0] < 64 and p[4:8] == COOKIE
            if hdr_ok:
                ops += feed_all(p, chunks(rng, len(p)), "none", b"", lab)
            else:
                break
        o.add("stream", set_, ops)
    for i in range(2 * k):
        ps = [bytes(rng.choice(good + broken)[1]) for _ in range(80)]
        o.add("long", "rfc5389", [FD, op("decx", b=list(b"".join(ps)), k=len(ps), labs=list(range(1, 81)))]
              + [x for lab, p in enumerate(ps, 1) for x in (FD, dec(p, lab=lab))])
    # more than 64 KiB of packets, large and small
    for _ in range(2 * k):
        ps = [bytes(rng.choice(good + broken)[1]) for _ in range(8)]
        for n in (rng.randrange(20000, 65500), rng.randrange(9000, 40000), rng.randrange(65400, 65528)):
            ps.insert(rng.randrange(len(ps)), bytes(packet(0, 1, rtx(rng), [tlv(0x7F31, bytes(rbytes(rng, n)))])))
        o.add("volume", "all", [FD, op("decx", b=list(b"".join(ps)), k=len(ps), labs=list(range(1, len(ps) + 1)))]
              + [x for lab, p in enumerate(ps, 1) for x in (FD, dec(p, lab=lab))])
    for n in CROWDS:
        ps = [crowd(rng, "all", n), crowd(rng, "all", n, bad=1), bytes(good[1][1]), crowd(rng, "all", n, fp=1)]
        o.add("crowd", "all", [FD, op("decx", b=list(b"".join(ps)), k=4, labs=[1, 2, 3, 4])] + [x for lab, p in enumerate(ps, 1) for x in (FD, dec(p, lab=lab))])
    # through read buffers of any size, filled in steps
    for i in range(60 * k):
        ps = [bytes(rng.choice(good + broken)[1]) for _ in range(rng.randrange(1, 9))]
        labs = list(range(1, len(ps) + 1))
        if rng.random() < 0.2:
            ps.append(bytes(rng.choice(rejected)[1]))
        ops = [x for lab, p in zip(labs, ps) for x in (FD, dec(p, lab=lab))]
        for _ in range(3):
            ops += [FD, op("decr", b=list(b"".join(ps)), k=len(ps), labs=labs, cap=rng.choice([1, 2, 3, 7, 19, 20, 21, 64, 1500, 5000]),
                           steps=steps(rng))]
        ops += [FD, op("decr", b=list(b"".join(ps))[:-1 - rng.randrange(9)], k=len(ps), labs=labs[:-1], cap=rng.choice([5, 20, 2000]), steps=steps(rng))]
        o.add("buffer", "rfc5389", ops)
    # written one after the other by one encoder, and read again
    for i in range(120 * k):
        set_ = rng.choice(["rfc5389", "all", "turn", "rfc5766", "rfc5245", "rfc5780"])
        sig = set_ in FP_SETS
        ops, labs = [], []
        for lab in range(1, rng.randrange(2, 9)):
            ops += build(rng, set_, rng.choice([0, 0, 1, 2, 3, 5, 9]), sig and rng.random() < 0.3, sig and rng.random() < 0.3)
            if sig and ops[-1]["op"] != "addfp" and rng.random() < 0.1:
                # one that cannot be written
                ops += [add(0x000A, [0x8022] * 32768), op("write"), add(0x8022, [97]), op("write", steps=steps(rng), cap=9)]
                continue
            if rng.random() < 0.3:
                p = bytes(rng.choice(good)[1]) if set_ == "rfc5389" else bytes(rand_packet(rng, set_, rng.randrange(4)))
                ops += [FD, dec(p)]
            w = op("write", lab=lab)
            if rng.random() < 0.7:
                w.update(cap=rng.choice([1, 2, 3, 5, 20, 21, 33, 1024]), steps=steps(rng))
            ops.append(w)
            labs.append(lab)
        ops += [FD, op("decx", src="stream", k=len(labs), labs=labs),
                FD, op("decr", src="stream", k=len(labs), labs=labs, cap=rng.choice([1, 4, 23, 600]), steps=steps(rng))]
        o.add("write", set_, ops)
    # values of many lengths, their bytes required one after the other
    lens = sorted({n + d for n in [x for x in SHORT if 16 < x < 9000] + [1 << i for i in range(5, 14)] for d in (-1, 0, 1)})
    for n in lens if k > 1 else rng.sample(lens, min(len(lens), 60)) + [1 << i for i in range(5, 14)]:
        c = rng.choice([0x8022 if n < 128 else 0x7F31, 0x7F31, 0x0013])
        p = packet(0, 1, rtx(rng), [tlv(c, b"a" * n), tlv(0x8022, b"x")])
        o.add("need", "all", [FD] + [feed(p[i:j]) for i, j in ((0, 20), (20, 24), (24, 25), (25, 25 + n // 2), (25 + n // 2, len(p)))] + [fin(lab=1)]
              + [op("decx", b=list(bytes(p) * 2), k=2, labs=[1, 1])])
    # any number of bytes left
    for set_, ts in (("all", [tlv(0x7F31, bytes(9200))]), ("all", [tlv(0x0013, bytes(9200))]), ("rfc5389", [tlv(0x8022, b"a" * 120)] * 74),
                     ("rfc5389", [tlv(0x0001, b"\0")] + [tlv(0x8022, b"abc")] * 1150)):
        p = packet(0, 1, [1] * 12, ts)
        at = sorted({len(p) - n for n in lens})
        cuts = list(zip([0] + at, at + [len(p)]))
        o.add("left", set_, [FD] + [feed(p[i:j]) for i, j in cuts] + [fin()])
    for n in sorted({x // 4 * 4 for x in lens}):
        p = packet(0, 1, [2] * 12, [tlv(0x7F31, bytes(n - 4))])
        q = bytes(good[1][1])
        o.add("body", "all", [op("decx", b=list(bytes(p) + q), k=2)])
    # every prefix of some packets: required bytes after each byte
    for name, p in good + broken:
        ops = [FD]
        for b in p:
            ops.append(feed([b]))
        ops += [fin()]
        for a in range(0, len(p), 3):
            ops.append(feed(p[a:a + 3]))
        ops += [fin(), dec(p)]
        o.add("bytes-" + name, "rfc5389", ops)
    for n in (65000, 65532 - 4):
        p = header(1, 4 + n, [1] * 12) + tlv(0x7F31, bytes(n))
        q = bytes(good[1][1])
        o.add("large", "rfc5389", [op("decx", b=list(q + p + q), k=3, labs=[1, 2, 1]), FD, dec(q, lab=1), dec(p, lab=2)])
    for name, p in rejected + broken:
        q = bytes(good[2][1])
        o.add("after-" + name, "rfc5389", [op("decx", b=list(bytes(p) + q), k=2), FD] + [op("decx", b=list(q + bytes(p)), k=2)])


def c20(o, rng, k):
    N = op("inew", c=0)
    vs = values("addr")
    for v in vs:
        w = enc_val("addr", v, [])
        for sizes in splits2(len(w)) + [[1] * len(w), [0, 1] * len(w), [len(w) + 5]]:
            ops = [N, op("istart", v=v)] + [op("ipull", n=n, eos=-1) for n in sizes] + [op("ipull", n=3, eos=-1)]
            i = 0
            for n in sizes:
                ops.append(op("ifeed", b=list(w[i:i + n]), eos=-1))
                i += n
            ops += [op("ifeed", b=[1, 2, 3], eos=-1), op("ifin"), op("ifeed", b=list(w), eos=0), op("ifin"), op("ifeed", b=list(w), eos=-2), op("ifin")]
            o.add("split", "raw", ops)
    for fam in range(256):
        ops = [N]
        for first in (0, 1, 255):
            for n in (2, 8, 20, 24):
                b = [first, fam] + rbytes(rng, n - 2)
                ops += [op("ifeed", b=b, eos=-1), op("ifin"), N]
                ops += [op("ifeed", b=b[:1], eos=-1), op("ifeed", b=b[1:], eos=-1), op("ifin"), N]
        o.add("family", "raw", ops)
    for first in range(256):
        o.add("first", "raw", [N, op("ifeed", b=[first] + list(enc_val("addr", rng.choice(vs), []))[1:], eos=-1), op("ifin")])
    for i in range(150 * k):
        ops = [N]
        for _ in range(6):
            v = raddr(rng)
            w = list(enc_val("addr", v, []))
            ops += [op("istart", v=v)] + [op("ipull", n=n, eos=-1) for n in chunks(rng, len(w))] + [op("ipull", n=50, eos=-1)]
            w[0] = rng.randrange(256)
            extra = rbytes(rng, rng.randrange(5))
            sizes = chunks(rng, len(w))
            i = 0
            for j, n in enumerate(sizes):
                ops.append(op("ifeed", b=w[i:i + n] + (extra if j == len(sizes) - 1 else []), eos=rng.choice([-1, -1, len(w) - i - n])))
                i += n
            ops += [op("ifin")]
        o.add("reuse", "raw", ops)
    cross = cross_addresses()
    for g in range(0, len(cross), 40):
        ops = [N]
        for v in cross[g:g + 40]:
            ops += [op("istart", v=v), op("ipull", n=50, eos=-1), op("ifeed", b=list(enc_val("addr", v, [])), eos=-1), op("ifin")]
        o.add("cross", "raw", ops)
    # started while an address is being emitted
    for v in vs:
        w = enc_val("addr", v, [])
        for n in range(len(w) + 1):
            ops = [N, op("istart", v=v), op("ipull", n=n, eos=-1), op("istart", v=rng.choice(vs)), op("ipull", n=1, eos=-1),
                   op("istart", v=rng.choice(vs)), op("ipull", n=50, eos=-1), op("ipull", n=50, eos=-1)]
            o.add("busy", "raw", ops)
    ops = [N]
    for _ in range(300):
        v = raddr(rng)
        w = list(enc_val("addr", v, []))
        ops += [op("istart", v=v), op("ipull", n=50, eos=-1), op("ifeed", b=w, eos=-1), op("ifin")]
    o.add("long", "raw", ops)
    # too early
    for v in vs[:8]:
        w = list(enc_val("addr", v, []))
        ops = []
        for n in range(len(w)):
            ops += [N, op("ifeed", b=w[:n], eos=-1), op("ifin"), N, op("ifeed", b=w[:n], eos=-2), op("ifin")]
        o.add("early", "raw", ops)


def c21(o, rng, k):
    def attr(rng):
        r = rng.random()
        if r < 0.7:
            v = rbytes(rng, rng.randrange(5))
            if v and v[0] in (0xEE, 0xDD):
                v[0] = 1
            return (rng.choice([0x7F00, 0xFF00]), v)
        if r < 0.85:
            return (0x8022, rtext(rng, 3))
        return (0x0020, raddr(rng))
    for i in range(200 * k):
        at = [attr(rng) for _ in range(rng.randrange(7))]
        r = rng.random()
        if r < 0.3 and at:
            for _ in range(rng.choice([1, 1, 2])):
                at[rng.randrange(len(at))] = (rng.choice([0x7F00, 0xFF00]), [0xEE] + rbytes(rng, 2))
        elif r < 0.5 and at:
            for _ in range(rng.choice([1, 1, 2])):
                at[rng.randrange(len(at))] = (rng.choice([0x7F00, 0xFF00]), [0xDD] + rbytes(rng, 2))
        ops = [rand_new(rng)] + [add(*a) for a in at]
        ops += [LOOK, enc(), LOOK, op("start"), pull(5), pull(9999), LOOK, enc(), dec_out(), LOOK, enc(), LOOK]
        o.add("enc", "probe", ops)
    for i in range(200 * k):
        ops = []
        for _ in range(4):
            tx = rtx(rng)
            ts = []
            for _ in range(rng.randrange(7)):
                c, v = attr(rng)
                if rng.random() < 0.12:
                    c, v = rng.choice([0x7F00, 0xFF00]), [0xDD] + rbytes(rng, rng.randrange(3))
                if rng.random() < 0.05:
                    c, v = rng.choice([0x7F00, 0xFF00]), [0xEE] + rbytes(rng, rng.randrange(3))
                if rng.random() < 0.25:
                    c, v = rng.choice(UNKNOWN_TYPES + [0x0006]), rbytes(rng, rng.randrange(5))
                ts.append(tlv(c, enc_val(KIND.get(c, "raw"), v, tx)))
            p = packet(rng.randrange(4), rng.randrange(4096), tx, ts)
            if rng.random() < 0.6:
                ops += [dec(p)]
            else:
                ops += feed_all(p, chunks(rng, len(p)))
            ops += [LOOK, enc(), LOOK, FE]
        o.add("dec", "probe", ops)
    for n in (16, 17, 33, 70, 260):
        at = [attr(rng) for _ in range(n)]
        o.add("crowd", "probe", [rand_new(rng)] + [add(*a) for a in at] + [enc(), dec_out(), LOOK, enc(), FE])
        at[n - 2] = (0x7F00, [0xDD])
        tx = rtx(rng)
        o.add("crowd", "probe", [dec(packet(0, 1, tx, [tlv(c, enc_val(KIND.get(c, "raw"), v, tx)) for c, v in at])), LOOK])
        at[n - 2] = (0x7F00, [0xEE])
        o.add("crowd", "probe", [rand_new(rng)] + [add(*a) for a in at] + [enc(), LOOK, op("start"), pull(20), LOOK])
    # failing hooks at every position
    for n in range(1, 6):
        for bad in range(n):
            for val in (0xEE, 0xDD):
                at = [(0x7F00 if i % 2 else 0xFF00, [val if i == bad else 1, i]) for i in range(n)]
                ops = [new(0, 1, [5] * 12)] + [add(*a) for a in at] + [enc(), LOOK, op("start"), LOOK, FE]
                p = packet(0, 1, [5] * 12, [tlv(c, bytes(v)) for c, v in at])
                ops += [dec(p), LOOK] + feed_all(p, [1] * len(p)) + [dec(p), LOOK]
                o.add("fail", "probe", ops)


def item_kind(set_, c):
    k = kind(set_, c)
    return "addr" if k == "xaddr" else k


def item_value(rng, k):
    """A value and its bytes; of mi and fp there are only the bytes."""
    if k in ("mi", "fp"):
        w = rbytes(rng, 20 if k == "mi" else 4)
        return None, w
    v = rng.choice(values(k)) if rng.random() < 0.5 else rand_value(rng, k)
    return v, list(enc_val(k, v, [0] * 12))


OPEN_KINDS = ("name", "text", "err", "types", "data", "raw")


def item_feed(rng, k, w, sizes=None, junk=True):
    """Calls that give a decoder the bytes of one value."""
    ops, i = [], 0
    sizes = list(chunks(rng, len(w)) if sizes is None else sizes)
    if k in OPEN_KINDS:
        style = rng.choice(["late", "now", "count"])
        for j, n in enumerate(sizes):
            last = j == len(sizes) - 1
            eos = {"late": -1, "now": -2 if last else -1, "count": len(w) - i - n}[style]
            ops.append(op("ifeed", b=w[i:i + n], eos=eos))
            i += n
        if style == "late" or not sizes:
            ops.append(op("ifeed", b=[], eos=rng.choice([0, -2])))
        if junk and rng.random() < 0.3:
            ops.append(op("ifeed", b=rbytes(rng, 3), eos=-1))
        return ops
    extra = rbytes(rng, rng.randrange(1, 6)) if junk and rng.random() < 0.3 else []
    for j, n in enumerate(sizes or [0]):
        last = j >= len(sizes) - 1
        ops.append(op("ifeed", b=w[i:i + n] + (extra if last else []), eos=rng.choice([-1, -1, len(w) - i - n + (0 if last else len(extra))])))
        i += n
    if extra:
        ops.append(op("ifeed", b=extra, eos=rng.choice([-1, 0, -2])))
    return ops


def item_pull(rng, n, sizes=None):
    sizes = chunks(rng, n) if sizes is None else sizes
    return [op("ipull", n=x, eos=-1) for x in sizes] + [op("ipull", n=rng.choice([0, 1, 50]), eos=-1)]


def c22(o, rng, k):
    """The codecs of attribute values."""
    def one(c):
        return [op("inew", c=c)]

    def of_set(c):
        return [op("itag", c=c)]
    N = op("inew", c=-1)
    sets = [(s, 0) for s in ALL_SETS + ["probe"]]
    # every type: every value, in two parts, byte by byte, in any chunks
    for c in sorted(KIND):
        kd = item_kind("all", c)
        T = op("inew", c=c)
        vs = [(v, list(enc_val(kd, v, [0] * 12))) for v in (values(kd) if kd not in ("mi", "fp") else [])] or [item_value(rng, kd) for _ in range(6)]
        for mode in ("one", "set"):
            ops = []
            first, pre = (T, []) if mode == "one" else (N, [op("itag", c=c)])
            for v, w in vs:
                short = len(w) <= 24
                for sizes in (splits2(len(w)) if short else [[1, len(w) - 1], [len(w) - 1, 1]]) + ([[1] * len(w), [0, 1] * len(w)] if short else [None]):
                    ops += pre + item_feed(rng, kd, w, sizes) + [op("ifin"), op("iagain")] + item_pull(rng, len(w), sizes if rng.random() < 0.5 else None)
                    if v is not None:
                        ops += [op("istart", c=c, v=v)] + item_pull(rng, len(w), sizes if rng.random() < 0.7 else None)
                if len(ops) > 250:
                    o.add("value", "all", [first] + ops)
                    ops = []
            o.add("value", "all", [first] + ops)
    for c, limit in TEXT_TYPES:
        for g in text_groups(c, limit):
            ops = []
            for t in g[:: 1 if len(g) < 65 else 8 if k == 1 else 1]:
                w = list(enc_val(KIND[c], text_value(c, t), [0] * 12))
                if len(w) < 600:
                    ops += item_feed(rng, KIND[c], w, [len(w) // 2, len(w) - len(w) // 2]) + [op("ifin")]
            o.add("texts", "all", [op("inew", c=c)] + ops)
    # encoders that have nothing
    for first, set_, only in [(N, s, c) for s, c in sets + ones()] + [(op("inew", c=c), "all", 0) for c in sorted(KIND)]:
        types = [first["c"]] if first["c"] != -1 else [only] if set_ == "one" else SETS.get(set_, sorted(KIND) + UNKNOWN_TYPES)
        ops = [first] + [op("ipull", n=n, eos=-1) for n in (0, 1, 5, 20)]
        for _ in range(3):
            c = rng.choice(types)
            v, w = item_value(rng, item_kind("all" if first["c"] != -1 else set_, c))
            if v is not None and len(w) < 200:
                ops += [op("istart", c=c, v=v)] + item_pull(rng, len(w)) + [op("ipull", n=n, eos=-1) for n in (4, 0)]
        o.add("idle", set_, ops, only)
    # the decoder and the encoder of a set, value after value of any of its types
    for set_, only in sets * 2 + ones():
        types = [only] if set_ == "one" else SETS.get(set_, sorted(KIND) + UNKNOWN_TYPES)
        for _ in range(k if set_ == "one" else 6 * k):
            ops = [N]
            for _ in range(20 if set_ != "one" else 8):
                if rng.random() < 0.4:
                    ops.append(op("itag", c=unknown_type(rng) if set_ != "raw" else rng.choice(types)))
                    if set_ == "raw":
                        ops += item_feed(rng, "raw", rbytes(rng, 3)) + [op("ifin")]
                c = rng.choice(types)
                kd = item_kind(set_, c)
                v, w = item_value(rng, kd)
                ops += [op("itag", c=c)] + item_feed(rng, kd, w) + [op("ifin")]
                if rng.random() < 0.5:
                    ops += [op("iagain")] + item_pull(rng, len(w))
                c = rng.choice(types)
                kd = item_kind(set_, c)
                v, w = item_value(rng, kd)
                if v is not None:
                    ops += [op("istart", c=c, v=v)] + item_pull(rng, len(w))
            o.add("set", set_, ops, only)
    # which types it takes
    for set_, only in sets + ones()[::4]:
        types = [only] if set_ == "one" else SETS.get(set_, sorted(KIND))
        ask = sorted({(c + d) & 0xFFFF for c in list(KIND) + [0x7F00, 0xFF00] for d in (-1, 0, 1, 0x100, 0x8000, -0x100)}
                     | set(UNKNOWN_TYPES) | {lit16(rng) for _ in range(40)} | {rng.randrange(65536) for _ in range(60)})
        if set_ == "one":
            ask = rng.sample(ask, 40)
        ops = [N]
        for c in ask:
            ops.append(op("itag", c=c))
            if c in types or set_ == "raw":
                kd = item_kind(set_, c)
                v, w = item_value(rng, kd)
                ops += item_feed(rng, kd, w[:200] if kd == "raw" else w, [len(w)]) + [op("ifin")]
            if len(ops) > 300:
                o.add("tags", set_, ops, only)
                ops = [N]
        o.add("tags", set_, ops, only)
    for c in sorted(KIND):
        o.add("tags", "all", [op("inew", c=c)] + [op("itag", c=(x + d) & 0xFFFF) for x in KIND for d in (0, 1, 0x8000)])
    # started while a value is being emitted
    for set_, types in [("all", sorted(KIND)), ("probe", SETS["probe"]), ("raw", [1, 9]), ("rfc5389", SETS["rfc5389"])]:
        for c in types:
            kd = item_kind(set_, c)
            if kd in ("mi", "fp"):
                continue
            for mode in ("one", "set") if set_ == "all" else ("set",):
                first = op("inew", c=c) if mode == "one" else N
                ops = []
                for v in rng.sample(values(kd), min(4, len(values(kd)))):
                    w = list(enc_val(kd, v, [0] * 12))
                    for n in range(len(w)) if len(w) <= 20 else (0, 1, 3, 4, 5, len(w) - 1):
                        c2 = c if mode == "one" or rng.random() < 0.4 else rng.choice([x for x in types if item_kind(set_, x) not in ("mi", "fp")])
                        v2, w2 = item_value(rng, item_kind(set_, c2))
                        ops += [op("istart", c=c, v=v), op("ipull", n=n, eos=-1), op("istart", c=c2, v=v2), op("ipull", n=1, eos=-1),
                                op("istart", c=c2, v=v2) if n + 1 < len(w) else op("ipull", n=0, eos=-1)]
                        ops += item_pull(rng, 0, [len(w)])
                        ops += [op("istart", c=c2, v=v2)] + item_pull(rng, len(w2))
                    if len(ops) > 250:
                        o.add("busy", set_, [first] + ops)
                        ops = []
                if ops:
                    o.add("busy", set_, [first] + ops)
    # what is no value
    for c in sorted(KIND):
        kd = item_kind("all", c)
        ops = []
        bad = [bytes(n) for n in range(0, 24)] + wire_edges(kd)
        bad += [enc_val(kd, v, [0] * 12) for v in bad_values(kd)] if kd != "err" else []
        bad += [b"\xff", b"a\x80", b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\xc0\x80", b"\x00\x00\x04\x00\xff", b"\x00\x00\x06\x00"]
        for w in bad:
            w = list(w[0] if isinstance(w, tuple) else w)
            for first in ([op("inew", c=c)], [N, op("itag", c=c)]):
                ops += first + [op("ifeed", b=w, eos=-2), op("ifin")]
                if len(w) > 1 and len(w) < 30:
                    n = rng.randrange(1, len(w))
                    ops += first + [op("ifeed", b=w[:n], eos=len(w) - n), op("ifeed", b=w[n:], eos=0), op("ifin")]
                    ops += first + [op("ifeed", b=w[:n], eos=-1), op("ifeed", b=w[n:], eos=-1), op("ifeed", b=[], eos=-2), op("ifin")]
            if len(ops) > 250:
                o.add("bad", "all", ops)
                ops = []
        o.add("bad", "all", ops)
        # too early
        ops = []
        for v, w in [item_value(rng, kd) for _ in range(5)]:
            for n in range(min(len(w), 24)):
                ops += [op("inew", c=c), op("ifeed", b=w[:n], eos=-1), op("ifin"), N, op("itag", c=c), op("ifeed", b=w[:n], eos=-1), op("ifin")]
        if ops:
            o.add("early", "all", ops)
    # given up or refused, then anew: the same type or another
    for set_, only in [x for x in sets if x[0] != "raw"]:
        types = [only] if set_ == "one" else SETS[set_] if set_ in SETS else sorted(KIND)
        ops = [N]
        for c in types if set_ == "all" else rng.sample(types, min(len(types), 8 * k)):
            kd = item_kind(set_, c)
            for _ in range(3):
                v, w = item_value(rng, kd)
                n = rng.randrange(len(w) + 1)
                ops.append(op("itag", c=c))
                r = rng.random()
                if r < 0.5:
                    ops += [op("ifeed", b=w[:n], eos=rng.choice([-1, -1, len(w) - n]))]
                elif r < 0.6:
                    ops += item_feed(rng, kd, w)
                elif r < 0.75:
                    ops += [op("ifeed", b=w[:n], eos=-2), op("ifin")]
                else:
                    x = rng.choice([b"\xff", b"a\x80", b"\0\0\6\0", b"\0\3\0\0", b"\0\0\0\0\0", b"\x3f\xff\0\0"])
                    ops += [op("ifeed", b=list(x), eos=rng.choice([-1, -2])), op("ifin")]
                if rng.random() < 0.2:
                    ops.append(op("itag", c=unknown_type(rng)))
                c2 = c if rng.random() < 0.6 else rng.choice(types)
                kd2 = item_kind(set_, c2)
                v, w = item_value(rng, kd2)
                ops += [op("itag", c=c2)] + item_feed(rng, kd2, w) + [op("ifin")]
            if len(ops) > 250:
                o.add("anew", set_, ops, only)
                ops = [N]
        o.add("anew", set_, ops, only)
    # long histories, long values
    for set_ in ("all", "raw", "probe"):
        types = SETS.get(set_, sorted(KIND))
        ops = [N]
        for _ in range(300):
            c = rng.choice(types)
            kd = item_kind(set_, c)
            v, w = item_value(rng, kd)
            ops += [op("itag", c=c)] + item_feed(rng, kd, w, [len(w)]) + [op("ifin"), op("iagain")] + item_pull(rng, 0, [len(w)])
        o.add("long", set_, ops)
    for c in (0x0013, 0x8030, 0x000A, 0x0006, 0x0009):
        kd = item_kind("all", c)
        for _ in range(2 * k):
            v = mid_value(rng, kd)
            w = list(enc_val(kd, v, [0] * 12))
            for first in ([op("inew", c=c)], [N, op("itag", c=c)]):
                o.add("mid", "all", first + item_feed(rng, kd, w) + [op("ifin"), op("iagain")] + item_pull(rng, len(w)))
    big = rbytes(rng, 65535)
    for c, w in ((0x0013, big), (0x8030, big), (0x000A, big[:65534])):
        o.add("big", "all", [N, op("itag", c=c)] + item_feed(rng, item_kind("all", c), w) + [op("ifin"), op("iagain")] + item_pull(rng, len(w)))


def c23(o, rng, k):
    """Attributes and messages as values."""
    def cmp_all(n, some=None):
        pairs = [(i, j) for i in range(n) for j in range(n)]
        return [op("vcmp", **{"at": i, "with": j}) for i, j in (rng.sample(pairs, some) if some else pairs)]
    # numbers
    few = sorted({n for n in SHORT} | {0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF})
    ks = {"type": few + list(KIND), "method": [n for n in few if n < 4096] + [4095], "chan": [0x4000 + n for n in few if n < 4096] + [0x4FFF]}
    for kk, ns in sorted(ks.items()):
        ns = sorted(set(ns))
        ops = []
        for _ in range(400 * k):
            a = rng.choice(ns)
            b = rng.choice([a, rng.choice(ns), a ^ (1 << rng.randrange(16))])
            if kk == "method" and b > 4095 or kk == "chan" and not 0x4000 <= b <= 0x4FFF:
                b = rng.choice(ns)
            ops.append(op("cmpt", k=kk, v=[a], w=[b]))
        edges = {"type": [0, 1, 0x20, 0x7FFF, 0x8000, 0x8001, 0x8020, 0xFFFE, 0xFFFF], "method": [0, 1, 2, 255, 256, 257, 0x7FF, 0x800, 4094, 4095],
                 "chan": [0x4000, 0x4001, 0x40FF, 0x4100, 0x47FF, 0x4800, 0x4FFE, 0x4FFF]}[kk]
        ops += [op("cmpt", k=kk, v=[a], w=[b]) for a in edges for b in edges]
        o.add("number", "raw", ops)
    o.add("number", "raw", [op("cmpt", k="class", v=[a], w=[b]) for a in range(4) for b in range(4)])
    ops = []
    for _ in range(200 * k):
        a = rtx(rng)
        b = list(a)
        for _ in range(rng.randrange(3)):
            b[rng.randrange(12)] = rng.randrange(256)
        if rng.random() < 0.3:
            i, j = rng.randrange(12), rng.randrange(12)
            b[i], b[j] = b[j], b[i]
        ops += [op("cmpt", k="tx", v=list(a), w=b), op("cmpt", k="tx", v=b, w=list(a))]
    for i in range(12):
        for bit in range(8):
            for a in (rtx(rng), [0] * 12, [255] * 12, [128] * 12, [1] * 12):
                b = list(a)
                b[i] ^= 1 << bit
                ops.append(op("cmpt", k="tx", v=list(a), w=b))
    o.add("number", "raw", ops)
    # one value that came about in every way, and others
    def ways(set_, c, v, w, tx, put):
        """Calls that put values of the bytes w (v, if it can be made) into places."""
        kd = kind(set_, c)
        ops = []
        for at, way in put:
            if way == "make" and v is None:
                way = "dec"
            if way == "make":
                ops.append(op("vmk", c=c, v=v, to=at))
            elif way == "dec":
                ops.append(op("vdec", c=c, b=list(w), to=at))
            elif way == "add":
                if v is None:
                    ops += [new(0, 1, tx), op("vdec", c=c, b=list(w), to=at), op("vadd", at=at)]
                else:
                    ops += [new(rng.randrange(4), 1, tx), add(c, v)]
                ops.append(op("vtake", i=0, to=at))
            elif way == "msg" and kd not in ("fp",):
                t = tlv(c, enc_val(kd, v, tx) if v is not None else bytes(w), bytes(rbytes(rng, pad_len(len(w)))))
                ops += [dec(packet(rng.randrange(4), rmethod(rng), tx, [tlv(0x7F77, b"u"), t])), op("vtake", i=0 if set_ != "raw" else 1, to=at)]
            else:
                ops.append(op("vdec", c=c, b=list(w), to=at))
        return ops
    WAYS = ["make", "dec", "add", "msg"]

    def pick(set_, c):
        kd = item_kind(set_, c)
        while True:
            v, w = item_value(rng, kd)
            if set_ != "probe" or v is None or v[:1] not in ([0xDD], [0xEE]):
                return v, list(w)
    for set_, only in [(s, 0) for s in ALL_SETS + ["probe"]] + ones():
        types = [only] if set_ == "one" else SETS.get(set_, sorted(KIND))
        for c in types:
            kd = item_kind(set_, c)
            ops = []
            for _ in range(2 * k if set_ != "all" else 4 * k):
                v, w = pick(set_, c)
                ops += ways(set_, c, v, w, rtx(rng), list(enumerate(WAYS)))
                ops += [op("vcp", at=rng.randrange(4), to=4)]
                c2 = rng.choice([x for x in types if item_kind(set_, x) == kd] if rng.random() < 0.6 else types)
                v2, w2 = (v, w) if c2 != c and item_kind(set_, c2) == kd else pick(set_, c2)
                ops += ways(set_, c2, v2, w2, rtx(rng), [(5, rng.choice(WAYS))])
                ops += cmp_all(6, None if set_ == "all" and k > 1 else 14)
            o.add("ways", set_, ops, only)
    # neighbours: any two bytes strings of a kind
    for c in sorted(KIND):
        kd = item_kind("all", c)
        ops = []
        base = [item_value(rng, kd)[1] for _ in range(4)] + ([list(enc_val(kd, v, [0] * 12)) for v in values(kd)[:6]] if kd not in ("mi", "fp") else [])
        for w in base:
            w = list(w)[:40]
            ops.append(op("vdec", c=c, b=w, to=0))
            flips = [(i, b) for i in range(len(w)) for b in range(8)]
            for i, b in flips if len(flips) <= 64 else rng.sample(flips, 64):
                x = list(w)
                x[i] ^= 1 << b
                ops += [op("vdec", c=c, b=x, to=1), op("vcmp", **{"at": 0, "with": 1})]
            # two bytes that make up for each other, or change places
            for _ in range(12 if len(w) > 1 else 0):
                i, j = rng.sample(range(len(w)), 2)
                d = rng.choice([0x80, 0x80, 1, 2, rng.randrange(1, 256)])
                x, y, z = list(w), list(w), list(w)
                x[i], x[j] = w[i] ^ d, w[j] ^ d
                y[i], y[j] = (w[i] + d) % 256, (w[j] - d) % 256
                z[i], z[j] = w[j], w[i]
                for x in (x, y, z):
                    ops += [op("vdec", c=c, b=x, to=1), op("vcmp", **{"at": 0, "with": 1})]
            if kd == "unk" and len(w) > 3:
                units = [w[i:i + 2] for i in range(0, len(w), 2)]
                for x in (units[::-1], sorted(units), units + units[:1], units[1:] + units[:1], units[:1] + units, [y for i, y in enumerate(units) if y not in units[:i]]):
                    ops += [op("vdec", c=c, b=sum(x, []), to=1), op("vcmp", **{"at": 0, "with": 1})]
            for x in ([w + [0]] + [w + w[-1:]] + [w[:-1]] + [w[::-1]] + [w[1:] + w[:1]] + [[0] + w]):
                ops += [op("vdec", c=c, b=x, to=1), op("vcmp", **{"at": 0, "with": 1})]
            if len(ops) > 250:
                o.add("near", "all", ops)
                ops = []
        if ops:
            o.add("near", "all", ops)
    # addresses that mean the same host
    for c in sorted(KIND):
        if item_kind("all", c) != "addr":
            continue
        ops = []
        for _ in range(2):
            ip, port = list(lit_bytes(rng, 4)), list(lit_bytes(rng, 2))
            forms = [[0, 1] + port + ip] + [[0, 2] + port + p + ip for p in ([0] * 10 + [255] * 2, [0] * 12, [0, 100, 255, 155] + [0] * 8, [32, 2] + [0] * 10)] + [[0, 2] + port + [32, 2] + ip + [0] * 10]
            for i, a in enumerate(forms):
                ops.append(op("vdec", c=c, b=a, to=i))
            ops += cmp_all(6)
        o.add("near", "all", ops)
        # special addresses with one port, and one address with special ports
        port = list(lit_bytes(rng, 2))
        hosts = [[0] * 4, [127, 0, 0, 1], [127, 0, 0, 2], [255] * 4, [224, 0, 0, 1], [10, 0, 0, 1], [169, 254, 0, 1],
                 [0] * 16, [0] * 15 + [1], [254, 128] + [0] * 13 + [1], [254, 128] + [0] * 5 + [1] + [0] * 7 + [1], [255, 2] + [0] * 13 + [1], [255] * 16]
        forms = [[0, 1 if len(h) == 4 else 2] + port + h for h in hosts]
        forms += [[0, 1] + p + [127, 0, 0, 1] for p in ([0, 0], [0, 80], [13, 150], [255, 255])] + [[0, 2] + p + [0] * 16 for p in ([0, 0], [13, 150])]
        ops = []
        for i, a in enumerate(forms):
            ops.append(op("vdec", c=c, b=a, to=0))
            for b in forms[i:]:
                ops += [op("vdec", c=c, b=b, to=1), op("vcmp", **{"at": 0, "with": 1})]
        o.add("near", "all", ops)
    for set_ in ("all", "turn"):
        ops = []
        for _ in range(6 * k):
            for c in (0x13, 0x06, 0x14, 0x15, 0x8022):
                if c not in SETS.get(set_, KIND):
                    continue
                v = rtext(rng, rng.choice([0, 1, 5, 30]))[:100]
                while not is_text(v):
                    v = v[:-1]
                ops += [op("vway", k="roomy", c=c, v=v, to=0), op("vmk", c=c, v=v, to=1), op("vdec", c=c, b=v, to=2), op("vcp", at=0, to=3)] + cmp_all(4, 8)
        o.add("made", set_, ops)
    # constructors only some types have
    for set_ in ("all", "turn", "rfc5389", "rfc5766"):
        ops = []
        for _ in range(10 * k):
            if set_ != "rfc5766":
                v = rtext(rng, rng.choice([0, 1, 5, 30]))[:100]
                while not is_text(v):
                    v = v[:-1]
                w = rng.choice([v, v + [32], v[:-1] if is_text(v[:-1]) else v, [x ^ 32 if 64 < x < 123 else x for x in v]])
                ops += [op("vway", k="static", v=v, to=0), op("vmk", c=0x8022, v=v, to=1), op("vdec", c=0x8022, b=v, to=2),
                        op("vway", k="static", v=w, to=3), op("vcp", at=0, to=4), rand_new(rng), op("vadd", at=0), op("vtake", i=0, to=5)] + cmp_all(6, 14)
                i = rng.randrange(6)
                ops += [op("vway", k="error", i=i, to=0), op("vway", k="error", i=rng.randrange(6), to=1), op("vway", k="error", i=i, to=2)]
                t = [(400, b"Bad Request"), (401, b"Unauthorized"), (403, b"Forbidden"), (487, b"Role Conflict"), (405, b"Mobility Forbidden"), (400, b"Bad Request")][i]
                ops += [op("vmk", c=9, v=[t[0]] + list(rng.choice([t[1], t[1], t[1].lower(), t[1] + b".", b""])), to=3)] + cmp_all(4)
            if set_ != "rfc5389":
                v = rng.choice([lit_bytes(rng, 4), [255] * 4, [0] * 4])
                w = rng.choice([v, lit_bytes(rng, 4), v[:3] + [v[3] ^ 1]])
                ops += [op("vway", k="life", v=v, nanos=rng.choice([0, 1, 500000000, 999999999]), to=0), op("vway", k="life32", v=v, to=1),
                        op("vdec", c=0x0D, b=v, to=2), op("vway", k="life", v=w, nanos=rng.choice([0, 1, 999999999]), to=3), op("vmk", c=0x0D, v=v, to=4)] + cmp_all(5)
        o.add("made", set_, ops)
    for set_ in ("all", "turn", "rfc5389"):
        for _ in range(4 * k):
            ops = build(rng, set_, rng.randrange(3))
            n = sum(x["op"] == "add" for x in ops)
            ops += [enc(), op("addfp"), op("vtake", i=n, to=0), enc(), dec_out(), op("vtake", i=n, to=1), op("vcp", at=1, to=2)] + cmp_all(3)
            ops += [op("vadd", at=0), enc(), LOOK, add(*rand_attrs(rng, set_, 1)[0]), enc(), LOOK]
            o.add("made", set_, ops)
    for c in (0x0006, 0x0014, 0x0015, 0x8022, 0x0009, 0x000A, 0x0013, 0x8030):
        kd = item_kind("all", c)
        ops = []
        for _ in range(4 * k):
            v = mid_value(rng, kd)
            w = list(enc_val(kd, v, [0] * 12))
            ops += ways("all", c, v, w, rtx(rng), [(0, rng.choice(WAYS)), (1, rng.choice(WAYS))])
            x = list(w)
            if x:
                x[rng.choice([len(x) - 1, rng.randrange(len(x))])] ^= 1
            ops += [op("vdec", c=c, b=x, to=2), op("vdec", c=c, b=w[:-2], to=3)] + cmp_all(4)
        o.add("long", "all", ops)
    # long unknown attributes, and what their copies are
    for set_ in ALL_SETS + ["raw"]:
        for n in [rng.choice([1000, 2047]), 2049, rng.randrange(4097, 9000)] + ([16385, 33000, 65000] if k > 1 or set_ in ("raw", "all") else []):
            t = rng.choice([0x7F77, 0x00FF, 0xFF01])
            p = packet(rng.randrange(4), rmethod(rng), rtx(rng), [tlv(0x7F77, b"u"), tlv(t, bytes(rbytes(rng, n)), bytes(rbytes(rng, pad_len(n))))])
            ops = [dec(p), op("enc", lab=1), op("look", lab=2), op("mcp", to=0), op("msw", at=0), op("look", lab=2), op("enc", lab=1), op("msw", at=0), op("look", lab=2), op("enc", lab=1)]
            if set_ == "raw":
                ops += [op("vtake", i=1, to=0), op("vcp", at=0, to=1), rand_new(rng), op("vadd", at=1), op("enc"), LOOK]
            o.add("long", set_, ops)
    # copies of messages, each going its way
    for set_ in ALL_SETS + ["probe"]:
        for _ in range(14 * k):
            o.add("copies", set_, copies(rng, set_, rng.choice([12, 25, 40])))
    for set_ in ("all", "turn", "rfc5389"):
        for n in (16, 33, 65) + ((129, 257) if k > 1 else ()):
            ops = [dec(crowd(rng, set_, n)), op("enc", lab=1), op("look", lab=2), op("mcp", to=0)]
            ops += [add(*a) for a in rand_attrs(rng, set_, 3)] + [op("enc"), LOOK, op("msw", at=0), op("enc", lab=1), op("look", lab=2), op("msw", at=0), LOOK]
            o.add("crowd", set_, ops)


def copies(rng, set_, n):
    """Calls on a message and copies of it; the same label for the same message, whatever was done to others."""
    c = cred(rng)
    other = dict(c, pw=c["pw"] + [33])
    count = [0]

    def version():
        count[0] += 10
        return count[0]
    ops, slots, filled = [], {}, {}
    signs = set_ in ("rfc5389", "all", "turn")

    def fresh():
        if rng.random() < 0.5:
            return [rand_new(rng)]
        mi = signs and rng.random() < 0.4
        p = bytes(rand_packet(rng, set_, rng.randrange(6), size=20, unknown=0.3))
        if mi:
            p = add_mi(p, bytes(key_of(c)))
        if signs and rng.random() < 0.3:
            p = add_fp(p)
        return [dec(p)]
    ops += fresh()
    cur = version()

    def observe(more=0.5):
        x = [op("look", lab=cur)]
        if rng.random() < more:
            # The encoder works on a copy too: whole, in parts, or given up.
            r = rng.random()
            if r < 0.6:
                x.append(op("enc", lab=cur + 1))
            else:
                x += [op("start"), pull(rng.choice([0, 1, 20, 33]))]
                x += [FE] if r < 0.7 else [pull(70000)]
        if signs and rng.random() < 0.4:
            # with the right and a wrong password, in any order
            x += rng.sample([check_with(c, lab=cur + 2), check_with(other, lab=cur + 3)], rng.choice([1, 2, 2]))
        return x
    ops += observe()
    for _ in range(n):
        r = rng.random()
        if r < 0.2:
            to = rng.randrange(4)
            ops.append(op("mcp", to=to))
            slots[to] = cur
        elif r < 0.45 and slots:
            at = rng.choice(sorted(slots))
            ops.append(op("msw", at=at))
            slots[at], cur = cur, slots[at]
        elif r < 0.6:
            ops.append(add(*rand_attrs(rng, set_, 1, 20)[0]))
            cur = version()
        elif r < 0.7:
            ops.append(op("vtake", i=rng.randrange(3), to=rng.randrange(3)))
            at = rng.randrange(3)
            ops += [op("vadd", at=at)]
            cur = version()
        elif r < 0.78 and signs:
            ops += [op("enc"), op(*["addfp"])] if rng.random() < 0.4 else sign_with(c)
            cur = version()
        elif r < 0.85:
            ops += fresh()
            cur = version()
        elif r < 0.89:
            # two that differ in one attribute only, and are signed or read one after the other
            at = rand_attrs(rng, set_, 2, 20)
            ops += [op("mcp", to=3), add(*at[0])] + (sign_with(c) if signs else []) + [op("enc"), LOOK, op("msw", at=3), add(*at[1])] + (sign_with(c) if signs else [])
            slots[3] = version()
            cur = version()
        elif r < 0.92:
            ops.append(op("vcmp", **{"at": rng.randrange(3), "with": rng.randrange(3)}))
        ops += observe()
    for at in sorted(slots):
        ops.append(op("msw", at=at))
        slots[at], cur = cur, slots[at]
        ops += observe(1)
    return ops


def c24(o, rng, k):
    """Sessions of every other property at work together."""
    pool = []
    for p in sorted(GEN):
        if p == "C24":
            continue
        q = Out(p)
        GEN[p](q, random.Random("%s/C24/%s" % (rng.random(), p)), 1)
        rng.shuffle(q.list)
        pool.append(q.list)

    def lane(most, of=None):
        while True:
            x = rng.choice(rng.choice(of or pool))
            ops = x["ops"]
            # from the beginning, or from where something begins
            at = [0] + [i for i, c in enumerate(ops) if c["op"] in ("fd", "fe", "new", "inew")]
            i = rng.choice(at) if rng.random() < 0.5 else 0
            ops = ops[i:i + rng.randrange(2, most + 1)]
            if sum(len(c.get("b", ())) + len(c.get("v", ())) for c in ops) < 4000:
                return {"set": x["set"], "only": x["only"], "ops": ops}

    def together(group, lanes, mode):
        left = [i for i, x in enumerate(lanes) for _ in x["ops"]]
        style = rng.random()
        if style < 0.5:
            rng.shuffle(left)
        elif style < 0.75:
            # a few calls of one, a few of another
            sched, n = [], [len(x["ops"]) for x in lanes]
            while any(n):
                i = rng.choice([i for i in range(len(n)) if n[i]])
                j = min(n[i], rng.randrange(1, 6))
                sched += [i] * j
                n[i] -= j
            left = sched
        else:
            # in turn
            left = [i for _, i in sorted((j, i) for i, x in enumerate(lanes) for j in range(len(x["ops"])))]
        o.add(group, lanes[0]["set"], [])
        o.list[-1].update(lanes=lanes, sched=left, mode=mode)
        if mode == "moves":
            o.list[-1]["on"] = [rng.randrange(3) for _ in left]

    together("auto", [{"set": "all", "only": 0, "ops": [op("auto")]}], "one")
    for mode, n, most in (("one", 700, 40), ("moves", 120, 40), ("turns", 120, 40), ("free", 60, 200), ("first", 60, 12)):
        for _ in range(n * k):
            of = [rng.choice(pool)] if rng.random() < 0.3 else pool
            ls = [lane(most, of) for _ in range(rng.choice([2, 2, 2, 3, 4]) if mode not in ("free", "first") else 4)]
            if rng.random() < 0.15:
                ls.append(ls[0])
            if mode == "free" and rng.random() < 0.6:
                # the same few calls again and again
                ls = [dict(x, ops=x["ops"][:6] * 60) for x in ls]
            if mode == "first" and rng.random() < 0.7:
                ls = ls[:1] * 4
            together(mode, ls, mode)


    # the same checks of different credentials and messages in parallel
    for _ in range(12 * k):
        ls = []
        for _ in range(6):
            c = cred(rng, True if rng.random() < 0.8 else None)
            ops = [rand_new(rng), add(6, list(b"u%d" % rng.randrange(1000)))] + sign_with(c) + [enc(), dec_out()]
            ops += [check_with(c)] * 70 + [check_with(c), check_with(cred(rng, True))] * 30
            ls.append({"set": "rfc5389", "only": 0, "ops": ops})
        together("keys", ls, "free")


def scoped(sessions, rng):
    """IPv6 addresses with a scope id and flow information, which are not on the wire."""
    for x in sessions:
        for i, c in enumerate(x["ops"]):
            if c["op"] in ("add", "istart", "xor") and len(c.get("v", ())) == 18 and c["v"][0] == 2 and rng.random() < 0.3:
                x["ops"][i] = dict(c, scope=rng.choice([1, 2, 255, 256, 65536, 0xFFFFF]))


GEN = {"C%02d" % i: globals()["c%02d" % i] for i in range(1, 25)}


def gen(prop, seed, tier):
    rng = random.Random("%s/%s" % (seed, prop))
    o = Out(prop)
    GEN[prop](o, rng, 1 if tier == "quick" else 12)
    if prop in ("C03", "C06", "C10", "C13", "C20", "C22"):
        scoped(o.list, random.Random("%s/%s/scope" % (seed, prop)))
    return o.list


if __name__ == "__main__":
    for p in sorted(GEN):
        s_ = gen(p, 1, "quick")
        print(p, len(s_), sum(len(x["ops"]) for x in s_))
