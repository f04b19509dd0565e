#!/usr/bin/env python3
"""Writes /verif/known-findings.jsonl (run by hand, never by a check)."""
import json
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from wire import *
from scripts import dec, enc, new, add, op, dec_out

FIXED = """
C01 d69dce9 the upper five method bits were encoded two places too low, so methods above 0x7F were sent as others
C13 52e8c7c the CHANGE-REQUEST flags were read from the wrong byte and bits
C13 54aa73e RESPONSE-PORT was encoded as a 16-bit value without its two reserved bytes, in no decodable form
C07 4fac574 attributes of a broken message were delivered again with the next message
C07 62c43be a header rejected for its top bits left its cookie and transaction id behind, so the next packet was misread
C09 0dc3f72 calculating FINGERPRINT for a body of more than 65527 bytes overflowed and panicked
C11 0dc3f72 calculating FINGERPRINT for a body of more than 65527 bytes overflowed and panicked
C19 becf755 requiring_bytes of a decoder between packets counted the body of the previous packet, so readers read past the header
C16 668dde8 starting to encode while a message was being emitted destroyed the message in progress
C16 2078901 an encoder that had refused a message was never idle again and emitted bytes of the refused message
C14 f629211 Software::new_static counted bytes instead of characters
C14 a2040af MobilityTicket::new accepted data of more than 65535 bytes
C08 14df3c4 an attribute cut off by the end of the body was dropped, and the message delivered without it, when its missing bytes were fewer than those in the last buffer and the decoder was asked again
C05 14df3c4 whether a body cut off inside an attribute is broken depended on how the packet was split
C07 14df3c4 after a body cut off inside an attribute the next packet was decoded starting in the middle of that attribute
C19 14df3c4 a stream reader (decode_exact) delivered packets cut off inside an attribute as messages
C20 98c0c7b starting a socket address encoder that was busy failed but restarted its idle parts, so the address in progress got extra bytes
C22 035a379 starting an ERROR-CODE encoder that was emitting the reason phrase failed but restarted the four bytes before it, so the value in progress got extra bytes
C22 15dd8bd the decoder of UNKNOWN-ATTRIBUTES took an odd number of bytes for a value when the end was announced after them, and the byte left over became part of the next value
"""

TX = list(range(1, 13))
# type, canonical value, position of a reserved byte, bits set in it
CASES = [
    ("MAPPED-ADDRESS", 0x0001, [1, 80, 127, 0, 0, 1], 0, 0xFF),
    ("XOR-MAPPED-ADDRESS", 0x0020, [1, 80, 127, 0, 0, 1], 0, 0xFF),
    ("ERROR-CODE", 0x0009, [404, 120], 1, 0x01),
    ("CHANGE-REQUEST", 0x0003, [1, 1], 3, 0x01),
    ("CHANNEL-NUMBER", 0x000C, [0x4001], 3, 0x01),
    ("RESPONSE-PORT", 0x0027, [80], 2, 0x80),
    ("EVEN-PORT", 0x0018, [1], 0, 0x01),
    ("REQUESTED-TRANSPORT", 0x0019, [17], 1, 0x01),
    ("REQUESTED-ADDRESS-FAMILY", 0x0017, [2], 3, 0x01),
]
out = []


def known(prop, name, ops, event, objections, what):
    sid = "%s-known-%s" % (prop, name)
    out.append({"property": prop, "what": what, "event": event, "objections": sorted(objections),
                "session": {"id": sid, "set": "all", "only": 0, "ops": ops}})


for n, c, v, i, bits in CASES:
    k = KIND[c]
    w = bytes(enc_val(k, v, TX))
    r = w[:i] + bytes([w[i] | bits]) + w[i + 1:]
    canon, recv = packet(0, 1, TX, [tlv(c, w)]), packet(0, 1, TX, [tlv(c, r)])
    right = add_fp(recv)
    wrong = add_tlv(recv, tlv(0x8028, fp_value(canon)))
    why = "reserved bits of a received %s are cleared before its message's %s"
    known("C08", n, [dec(right)], 1, ["well-formed body"],
          "packet with a matching FINGERPRINT and reserved bits set in %s (%d/0x%02x) is delivered as broken" % (n, i, bits))
    known("C11", n + "-right", [dec(right)], 1, ["matching fingerprint refused"],
          (why % (n, "FINGERPRINT")) + " is computed (%d/0x%02x): a matching one is refused" % (i, bits))
    known("C11", n + "-wrong", [dec(wrong)], 1, ["mismatch accepted"],
          (why % (n, "FINGERPRINT")) + " is computed (%d/0x%02x): a mismatching one is accepted" % (i, bits))
    key = b"pw"
    good = add_mi(recv, key)
    bad = add_tlv(recv, tlv(0x0008, mi_value(canon, key)))
    known("C12", n + "-right", [dec(good), op("mic", pw=list(key))], 2, ["verdict"],
          (why % (n, "HMAC")) + " is computed (%d/0x%02x): the right password fails" % (i, bits))
    known("C12", n + "-wrong", [dec(bad), op("mic", pw=list(key))], 2, ["verdict"],
          (why % (n, "HMAC")) + " is computed (%d/0x%02x): a value for other bytes passes" % (i, bits))
    known("C17", n, [new(0, 1, TX), add(c, v), enc(), op("addmi", pw=list(key)), enc(),
                     dec_out(flip=[[24 + i, bits]]), op("mic", pw=list(key), want=0)], 7, ["altered message passes"],
          "setting reserved bits of %s (%d/0x%02x) before the MESSAGE-INTEGRITY is not noticed" % (n, i, bits))

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known-findings.jsonl")
with open(path, "w") as f:
    for line in FIXED.strip().splitlines():
        prop, commit, what = line.split(" ", 2)
        f.write("fixed: property=%s %s %s\n" % (prop, commit, what))
    for k in out:
        f.write(json.dumps(k, separators=(",", ":")) + "\n")
