"""Inputs for the harness: packets, values and scripts.

Nothing here decides anything: packets are only built, well-formed or not, and the specification
says what they mean."""
import hashlib
import hmac
import os
import re
import struct
import zlib

COOKIE = bytes([0x21, 0x12, 0xA4, 0x42])

KIND = {
    0x0001: "addr", 0x8023: "addr", 0x802B: "addr", 0x802C: "addr",
    0x0012: "xaddr", 0x0016: "xaddr", 0x0020: "xaddr", 0x8020: "xaddr",
    0x0006: "name", 0x0014: "text", 0x0015: "text", 0x8022: "text",
    0x0008: "mi", 0x8028: "fp", 0x0009: "err", 0x000A: "types", 0x0003: "change",
    0x000C: "chan", 0x000D: "u32", 0x0024: "u32", 0x0013: "data", 0x8030: "data",
    0x0018: "even", 0x0019: "proto", 0x001A: "empty", 0x0025: "empty",
    0x0022: "u64", 0x8029: "u64", 0x802A: "u64", 0x0027: "port",
    0x0017: "family", 0x8000: "family",
}
SETS = {
    "rfc5389": [0x0001, 0x0006, 0x0008, 0x0009, 0x000A, 0x0014, 0x0015, 0x0020, 0x8020, 0x8022,
                0x8023, 0x8028],
    "rfc5245": [0x0024, 0x0025, 0x8029, 0x802A],
    "rfc5766": [0x000C, 0x000D, 0x0012, 0x0013, 0x0016, 0x0018, 0x0019, 0x001A, 0x0022],
    "rfc5780": [0x0003, 0x802B, 0x0027, 0x802C],
    "all": sorted(KIND),
    "turn": [0x0001, 0x0006, 0x0008, 0x0009, 0x000A, 0x0014, 0x0015, 0x0020, 0x8022, 0x8023,
             0x8028, 0x000C, 0x000D, 0x0012, 0x0013, 0x0016, 0x0018, 0x0019, 0x001A, 0x0022],
    "probe": [0x7F00, 0xFF00, 0x8022, 0x0020],
}
XOR_TYPES = [0x0012, 0x0016, 0x0020, 0x8020]
UNKNOWN_TYPES = [0x0000, 0x0002, 0x0004, 0x0007, 0x0017 + 0x100, 0x7FFF, 0x8001, 0x8021, 0xC001,
                 0xFFFF, 0x8027, 0x801F, 0x0021]


def kind(set_, c):
    if set_ == "raw":
        return "raw"
    return KIND.get(c, "raw")


def type_bits(cl, me):
    return ((me & 0xF) | (cl & 1) << 4 | (me & 0x70) << 1 | (cl & 2) << 7 | (me & 0xF80) << 2)


def xor_addr(v, tx):
    mask = COOKIE + bytes(tx)
    return [v[0], v[1] ^ 0x2112] + [b ^ mask[i] for i, b in enumerate(v[2:])]


def enc_val(k, v, tx):
    """The wire value of abstract value v."""
    if k == "xaddr":
        return enc_val("addr", xor_addr(v, tx), tx)
    if k == "addr":
        return bytes([0, v[0]]) + struct.pack(">H", v[1]) + bytes(v[2:])
    if k == "err":
        return bytes([0, 0, v[0] // 100 % 8, v[0] % 100]) + bytes(v[1:])
    if k == "types":
        return b"".join(struct.pack(">H", x) for x in v)
    if k == "change":
        return bytes([0, 0, 0, v[0] * 4 + v[1] * 2])
    if k in ("chan", "port"):
        return struct.pack(">HH", v[0], 0)
    if k == "even":
        return bytes([v[0] * 128])
    if k in ("proto", "family"):
        return bytes([v[0], 0, 0, 0])
    return bytes(v)


def pad_len(n):
    return -n % 4


def tlv(c, value, pad=None, length=None):
    n = len(value) if length is None else length
    if pad is None:
        pad = bytes(pad_len(len(value)))
    return struct.pack(">HH", c, n) + bytes(value) + bytes(pad)


def header(ty, n, tx, cookie=COOKIE):
    return struct.pack(">HH", ty, n & 0xFFFF) + cookie + bytes(tx)


def packet(cl, me, tx, tlvs):
    body = b"".join(tlvs)
    return header(type_bits(cl, me), len(body), tx) + body


def with_len(p, n):
    return p[:2] + struct.pack(">H", n & 0xFFFF) + p[4:]


def fix_len(p):
    return with_len(p, len(p) - 20)


def fp_value(prefix):
    return struct.pack(">I", zlib.crc32(with_len(prefix, len(prefix) - 20 + 8)) ^ 0x5354554E)


def add_fp(p):
    return fix_len(p + tlv(0x8028, fp_value(p)))


def long_key(u, realm, pw):
    return hashlib.md5(bytes(u) + b":" + bytes(realm) + b":" + bytes(pw)).digest()


def mi_value(prefix, key):
    return hmac.new(bytes(key), with_len(prefix, len(prefix) - 20 + 24), hashlib.sha1).digest()


def add_mi(p, key):
    return fix_len(p + tlv(0x0008, mi_value(p, key)))


def add_tlv(p, t):
    return fix_len(p + t)


# ------------------------------------------------------------------------------ values
U2 = "é".encode()
U3 = "ツ".encode()
U4 = "😀".encode()


# Literals of the code under test, as interesting inputs (nothing is judged by them).
def harvest(root="/repo/src"):
    nums, texts = set(), set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith(".rs"):
                continue
            with open(os.path.join(d, f), errors="replace") as fd:
                src = "\n".join(l for l in fd.read().split("#[cfg(test)]")[0].splitlines()
                                if not l.lstrip().startswith("//"))
            for m in re.findall(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b", src):
                try:
                    n = int(m.replace("_", ""), 0) if m[:2] in ("0x", "0b") else int(m.replace("_", ""))
                except ValueError:
                    continue
                if n < 1 << 64:
                    nums.add(n)
            for m in re.findall(r'"((?:[^"\\\n]|\\.)*)"', src):
                if 0 < len(m) < 60:
                    texts.add(m)
    return sorted(nums), sorted(texts)


NUMS, TEXTS = harvest()
SMALL = [n for n in NUMS if n < 256]
SHORT = [n for n in NUMS if n < 65536]


def lit16(rng):
    """A 16-bit number: uniform, at an edge, or near a literal."""
    r = rng.random()
    if r < 0.35:
        return rng.randrange(65536)
    if r < 0.6:
        return rng.choice([0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 0x2112, 0xA442, 0x1221, 3478, 80,
                           1 << rng.randrange(16), 65535 ^ (1 << rng.randrange(16)), rng.randrange(256) * 257])
    return min(65535, max(0, rng.choice(SHORT) + rng.choice([0, 0, 0, -1, 1])))


def lit_bytes(rng, n):
    """n bytes: random, repeated, counting, or out of literals."""
    r = rng.random()
    if r < 0.5:
        return rbytes(rng, n)
    if r < 0.6:
        return [rng.choice([0, 255, 1, 128, rng.randrange(256)])] * n
    if r < 0.7:
        out = [0] * n
        if n:
            out[rng.randrange(n)] = 1 << rng.randrange(8)
        return out
    if r < 0.8:
        a = rng.randrange(256)
        return [(a + i) % 256 for i in range(n)]
    out = []
    while len(out) < n:
        m = rng.choice(NUMS)
        w = 1 if m < 256 else 2 if m < 65536 else 4 if m < 1 << 32 else 8
        out += list(m.to_bytes(w, rng.choice(["big", "big", "little"])))
    return out[:n]


def rbytes(rng, n):
    return [rng.randrange(256) for _ in range(n)]


def rtext(rng, chars):
    r = rng.random()
    if r < 0.1:
        # one unit over and over, or a literal
        return list(rng.choice([b"a", b" ", b"\x00", U2, U3, U4]) * chars)
    if r < 0.2:
        return list((rng.choice(TEXTS) * (1 + chars // 3))[:chars].encode())
    out = b""
    for _ in range(chars):
        out += rng.choice([b"a", b"Z", b"0", b" ", b":", b"\x00", b"\x7f", b"\"", b"\\", b"\n", U2, U3, U4,
                           b"\xcc\x81", b"\xef\xbb\xbf", b"\xc2\xad", b"\xe2\x80\x83"])
    return list(out)


def long_texts():
    """Long runs of characters of every width, in every alignment, around the sizes RFC 5389 names."""
    out = []
    for ch in (b"a", U2, U3, U4):
        for pre in range(4):
            for n in (126, 128, 254, 257, 300):
                out.append(list(b"x" * pre + ch * n))
    return out


def rtx(rng):
    return rng.choice([[0] * 12, [255] * 12, list(range(12)), list(COOKIE) * 3, lit_bytes(rng, 12)]
                      + [rbytes(rng, 12)] * 5)


def raddr(rng):
    port = lit16(rng)
    if rng.random() < 0.5:
        return [1, port] + rng.choice(
            [[0] * 4, [255] * 4, [0x21, 0x12, 0xA4, 0x42], [127, 0, 0, 1], [224, 0, 0, 1], [169, 254, 1, 2],
             [10, 0, 0, 1], [0, 0, 0, 1], lit_bytes(rng, 4)] + [rbytes(rng, 4)] * 3)
    # IPv4-mapped and IPv4-compatible IPv6 addresses are IPv6 addresses
    mapped = [0] * 10 + [255, 255] + rbytes(rng, 4)
    return [2, port] + rng.choice(
        [[0] * 16, [255] * 16, [0x21, 0x12, 0xA4, 0x42] + [0] * 12, mapped,
         [0, 0x64, 0xFF, 0x9B] + [0] * 8 + rbytes(rng, 4), [0x20, 2] + rbytes(rng, 4) + [0] * 10,
         [0] * 12 + rbytes(rng, 4), [0] * 15 + [1], [0xFE, 0x80] + [0] * 13 + [1], [0xFF, 2] + [0] * 13 + [1],
         lit_bytes(rng, 16)]
        + [rbytes(rng, 16)] * 5)


def values(k):
    """Valid boundary values of a kind (lists of abstract values)."""
    if k in ("addr", "xaddr"):
        return [[1, 0, 0, 0, 0, 0], [1, 65535, 255, 255, 255, 255], [1, 0x2112, 0x21, 0x12, 0xA4, 0x42],
                [1, 32853, 192, 0, 2, 1], [2, 0] + [0] * 16, [2, 65535] + [255] * 16,
                [2, 0x2112, 0x21, 0x12, 0xA4, 0x42] + [0] * 12, [2, 443] + list(range(16)),
                [2, 80] + [0] * 10 + [255, 255, 192, 0, 2, 1], [2, 80] + [0] * 12 + [1, 2, 3, 4],
                [2, 256] + [0x20, 1, 0xD, 0xB8, 0x12, 0x34, 0x56, 0x78, 0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77]]
    if k == "name":
        return [list(x) for x in (b"", b"a", b"ab", b"abc", b"abcd", U2 * 3, U3, b"a" * 511, b"a" * 512,
                                  U2 * 256, U4 * 128, b"user:name", U2 * 200, b"\x00", b" a ", b"A\xcc\x81", b"\xef\xbb\xbfb", b"a" * 255, b"a" * 256, b"a" * 300)]
    if k == "text":
        return [list(x) for x in (b"", b"a", b"ab", b"abc", b"abcd", U2 * 3, U3, b"a" * 126, b"a" * 127,
                                  U2 * 127, U3 * 127, U4 * 127, U2 + b"x" * 126, b"\x00", b"a\x00", b" a ", b'"q"', b"A\xcc\x81",
                                  b"\xef\xbb\xbfb", b"MiXed", b"obMatJos2")]
    if k == "err":
        return ([[c] + list(t) for c in (300, 301, 399, 400, 401, 420, 438, 499, 500, 599)
                 for t in (b"", b"x")]
                + [[404] + list(t) for t in (b"ab", b"abc", b"abcd", U3, U4 * 3, b"r" * 127, U3 * 127, U4 * 128, b"r" * 128,
                                         b"r" * 512, b"r" * 513, b"r" * 700, b"r" * 763, b"r" * 764, U4 * 191,
                                         U2 * 500, b"\x00", b" pad ")])
    if k == "types":
        return [[], [0], [1], [0x8022], [1, 2], [65535, 0, 0x7FFF], [5, 5], [7, 8, 8], [9, 9, 8, 9],
                [3, 2, 1], [0] * 5, list(range(30)), [0x0102, 0x0304, 0x0506, 0x0708]]
    if k == "change":
        return [[0, 0], [0, 1], [1, 0], [1, 1]]
    if k == "chan":
        return [[0x4000], [0x4001], [0x40FF], [0x4100], [0x4FFE], [0x4FFF]]
    if k == "u32":
        return [[0, 0, 0, 0], [255, 255, 255, 255], [0, 0, 0, 1], [128, 0, 0, 0], [1, 2, 3, 4],
                [0, 0, 2, 88]]
    if k == "u64":
        return [[0] * 8, [255] * 8, [0] * 7 + [1], [128] + [0] * 7, [1, 2, 3, 4, 5, 6, 7, 8]]
    if k == "data":
        return [[], [0], [1, 2], [1, 2, 3], [1, 2, 3, 4], [255] * 5, [0] * 8, list(range(256)), [7] * 255, [7] * 257, [7] * 1023, [7] * 1501]
    if k == "even":
        return [[0], [1]]
    if k == "proto":
        return [[0], [6], [17], [255], [1], [128]]
    if k == "port":
        return [[0], [1], [80], [256], [0x1234], [65535]]
    if k == "empty":
        return [[]]
    if k == "family":
        return [[1], [2]]
    if k == "raw":
        return [[], [0], [1, 2], [9, 8, 7], [1, 2, 3, 4], [255] * 7, [0xDE] * 21]
    return []


def cross_addresses():
    """Ports and addresses that may be taken to be special, in all combinations."""
    v4 = [[0] * 4, [255] * 4, list(COOKIE), [127, 0, 0, 1], [0, 0, 0, 1], [224, 0, 0, 251], [10, 0, 0, 0], [100, 64, 0, 1], [169, 254, 1, 1],
          [172, 16, 3, 4], [192, 0, 0, 171], [192, 0, 2, 7], [192, 88, 99, 1], [192, 168, 1, 255], [198, 18, 5, 6], [198, 51, 100, 9], [203, 0, 113, 1],
          [239, 255, 255, 250], [240, 0, 0, 1]]
    v6 = [[0] * 16, [255] * 16, [0] * 15 + [1], [0] * 10 + [255, 255, 127, 0, 0, 1], [0] * 10 + [255, 255] + [0] * 4,
          [0] * 10 + [255] * 6, [0] * 12 + [127, 0, 0, 1], list(COOKIE) + [0] * 12, [0xFE, 0x80] + [0] * 13 + [1], [0xFF, 2] + [0] * 13 + [1],
          [0, 0x64, 0xFF, 0x9B] + [0] * 8 + [192, 0, 2, 1], [0, 0x64, 0xFF, 0x9B, 0, 1] + [9] * 10, [0] * 8 + [1] * 8, [1] * 8 + [0] * 8,
          [0] * 8 + [255, 255, 0, 0, 192, 0, 2, 1], [0] * 8 + [0, 0, 0x5E, 0xFE, 192, 0, 2, 1]]
    v6 += [x + [0] * (12 - len(x)) + [7, 6, 5, 4] for x in ([1, 0], [0x20, 1], [0x20, 1, 0, 2], [0x20, 1, 0, 0x10], [0x20, 1, 0, 0x20], [0x20, 1, 0x0D, 0xB8],
           [0x20, 2, 192, 0, 2, 1], [0x26, 0x20], [0x3F, 0xFE], [0x3F, 0xFF], [0x5F, 0], [0xFC, 0], [0xFD, 0x12], [0xFE, 0xBF], [0xFE, 0xC0], [0xFE, 0xFF],
           [0xFF, 1], [0xFF, 5], [0xFF, 0x0E], [0xFF, 0x3E])]
    ports = [0, 1, 0x2112, 0xDEED, 3478, 5349, 65535, 256]
    return [[1, p] + a for a in v4 for p in ports] + [[2, p] + a for a in v6 for p in ports]


def bad_values(k):
    """Values a constructor has to refuse (and expressible in Rust)."""
    if k == "name":
        return [list(x) for x in (b"a" * 513, b"a" * 514, U2 * 257, U4 * 129, U3 * 171, b"a" * 1000, U3 * 400)]
    if k == "text":
        return [list(x) for x in (b"a" * 128, b"a" * 129, U2 * 128, U4 * 128, b"x" * 127 + U2, b"a" * 763, b"b" * 764)]
    if k == "err":
        return [[c] + list(t) for c in (0, 1, 99, 100, 299, 600, 601, 699, 700, 1000, 65535, 32768 + 400)
                for t in (b"", b"xy")]
    if k == "chan":
        return [[0], [0x3FFF], [0x5000], [0x7FFF], [0x8000], [0xC000], [0xFFFF], [0x0FFF]]
    return []


def rand_value(rng, k, size=40):
    if k in ("addr", "xaddr"):
        return raddr(rng)
    if k in ("name", "text"):
        return rtext(rng, rng.choice([0, 1, 2, 3, 4, 5, 7, 20, rng.randrange(size)]
                                     + ([rng.randrange(127 if k == "text" else 128)] if size > 20 else [])))
    if k == "err":
        n = rng.choice([0, 1, 2, 3, 4, 8, rng.randrange(20)]) if rng.random() < 0.95 or size < 30 else rng.randrange(300)
        code = rng.choice([n for n in SHORT if 300 <= n < 600] + [300, 399, 400, 499, 500, 599]) \
            if rng.random() < 0.5 else rng.randrange(300, 600)
        return [code] + rtext(rng, n)
    if k == "types":
        v = [lit16(rng) for _ in range(rng.randrange(6))]
        if v and rng.random() < 0.5:
            v += [rng.choice(v) for _ in range(rng.randrange(1, 4))]
            if rng.random() < 0.5:
                v.sort(reverse=rng.random() < 0.5)
        return v
    if k == "chan":
        return [rng.choice([n for n in SHORT if 0x4000 <= n < 0x5000])] if rng.random() < 0.2 \
            else [rng.randrange(0x4000, 0x5000)]
    if k == "u32":
        return lit_bytes(rng, 4)
    if k == "u64":
        return lit_bytes(rng, 8)
    if k in ("data", "raw"):
        return lit_bytes(rng, rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(size), min(size, rng.choice(SMALL))]))
    if k == "proto":
        return [rng.choice(SMALL)] if rng.random() < 0.3 else [rng.randrange(256)]
    if k == "port":
        return [lit16(rng)]
    return list(rng.choice(values(k)))


LONG_KINDS = ("data", "raw", "types", "err", "text", "name")


def mid_len(rng, limit):
    """A length up to limit: uniform on a logarithmic scale, or near a literal or a power of two."""
    r = rng.random()
    if r < 0.4:
        n = int(2 ** (rng.random() * 13))
    elif r < 0.7:
        n = (1 << rng.randrange(4, 13)) + rng.randrange(-4, 5)
    else:
        n = rng.choice([x for x in SHORT if 8 < x < 6000] or [100]) + rng.randrange(-2, 3)
    return max(0, min(limit, n))


def mid_value(rng, k):
    """A larger value of a kind of variable length, with any bytes at its ends."""
    ends = [[], [0], [0, 0], [255], [32], [10], [13, 10], [9], [58], [1]]
    if k in ("data", "raw"):
        n = mid_len(rng, 6000)
        a, z = rng.choice(ends), rng.choice(ends)
        fill = rng.choice([[7], [0], [255], [0, 1, 2, 3], list(range(256)), lit_bytes(rng, 37)])
        return (a + (fill * (n // len(fill) + 1))[:max(0, n - len(a) - len(z))] + z)[:n] if n else []
    if k == "types":
        n = mid_len(rng, 300)
        v = [lit16(rng) for _ in range(n)]
        if rng.random() < 0.3:
            v = [i * 7 % 65536 for i in range(n)][::rng.choice([1, -1])]
        return v
    n = mid_len(rng, {"text": 127, "name": 512, "err": 2000}[k])
    unit = rng.choice([b"a", b"a", b"ab ", b"\x00", U2, U3, U4, b":", b"/"] if k != "name" or n < 129 else [b"a", b"aB", b"0:", b" "])
    t = (unit * n).decode()[:n - 1] if n else ""
    t = (t + rng.choice(["", "\0", " ", "\n", "z", "\t"]))[:n].encode() if n else b""
    return ([rng.randrange(300, 600)] if k == "err" else []) + list(t)


def rmethod(rng):
    if rng.random() < 0.4:
        return rng.choice([0, 1, 2, 3, 4, 6, 7, 8, 9, 15, 16, 127, 128, 0xFFF] + [n for n in SHORT if n < 4096])
    return rng.randrange(4096)


def unknown_type(rng):
    """Mostly a type no set knows; sometimes a literal's."""
    if rng.random() < 0.7:
        return rng.choice(UNKNOWN_TYPES)
    c = lit16(rng)
    return c if c not in KIND and c not in (0x7F00, 0xFF00) else rng.choice(UNKNOWN_TYPES)


def addable(set_):
    """Types of the set whose values can be made by a plain constructor call."""
    if set_ == "raw":
        return sorted(KIND) + UNKNOWN_TYPES
    return [c for c in SETS[set_] if KIND.get(c) not in ("mi", "fp")]


def rand_attrs(rng, set_, n, size=40):
    out = []
    for _ in range(n):
        c = rng.choice(addable(set_))
        out.append((c, rand_value(rng, kind(set_, c), size)))
    return out


def rand_packet(rng, set_, n, size=40, unknown=0.2, garble_pad=True, fp=False, mi=False, known_types=None):
    """A well-formed packet: known and unknown attributes, any padding bytes."""
    tx = rtx(rng)
    cl, me = rng.randrange(4), rmethod(rng)
    p = packet(cl, me, tx, [])
    types = known_types or [c for c in SETS.get(set_, sorted(KIND)) if KIND.get(c) not in ("mi", "fp")]
    mi_at = rng.randrange(n + 1) if mi else -1
    fp_at = rng.choice([n, n, rng.randrange(n + 1)]) if fp else -1
    key = bytes(rtext(rng, 6))
    for i in range(n + 1):
        if i == mi_at:
            p = add_mi(p, key)
        if i == fp_at:
            p = add_fp(p)
        if i == n:
            break
        if rng.random() < unknown:
            c = unknown_type(rng)
            v = bytes(lit_bytes(rng, rng.randrange(size)))
        else:
            c = rng.choice(types)
            v = enc_val(KIND.get(c, "raw"), rand_value(rng, KIND.get(c, "raw"), size), tx)
        pad = bytes(rbytes(rng, pad_len(len(v)))) if garble_pad and rng.random() < 0.5 else None
        p = add_tlv(p, tlv(c, v, pad))
    return list(p)


def chunks(rng, n, style=None):
    """A partition of n bytes into chunk sizes (some empty)."""
    style = style or rng.choice(["ones", "small", "big", "mixed"])
    out = []
    left = n
    if n > 3000 and style is not None:
        style = "huge"
    while left > 0:
        k = {"huge": rng.choice([0, 1, 4, 20, 255, 256, 1000, 4096]), "ones": 1, "small": rng.randrange(0, 4), "big": rng.randrange(1, 30),
             "mixed": rng.choice([0, 1, 2, 3, 4, 5, 19, 20, 21, 40])}[style]
        k = min(k, left)
        out.append(k)
        left -= k
    if rng.random() < 0.5:
        out.append(0)
    return out


def tlvs(p):
    out, i = [], 20
    while len(p) - i >= 4:
        c, n = struct.unpack(">HH", bytes(p[i:i + 4]))
        if 4 + n + pad_len(n) > len(p) - i:
            break
        out.append((c, i + 4, n))
        i += 4 + n + pad_len(n)
    return out


# Reserved bits of a value: position -> mask of the bits that have to be zero.
RESERVED = {"addr": {0: 255}, "xaddr": {0: 255}, "err": {0: 255, 1: 255, 2: 0xF8},
            "change": {0: 255, 1: 255, 2: 255, 3: 0xF9}, "chan": {2: 255, 3: 255},
            "port": {2: 255, 3: 255}, "even": {0: 0x7F}, "proto": {1: 255, 2: 255, 3: 255},
            "family": {1: 255, 2: 255, 3: 255}}


def canonical(p, set_):
    """Whether the reserved bits inside all values whose types might be known are zero."""
    for c, i, n in tlvs(p):
        for j, m in RESERVED.get(kind(set_, c), {}).items():
            if j < n and p[i + j] & m:
                return False
    return True


def signed(p):
    return any(c in (0x0008, 0x8028) for c, _, _ in tlvs(p))
