"""P01: transaction layer packets survive encoding, decoding and copying."""
import hypothesis.strategies as st
import tlpgen
from runner import Part, check
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId

PROPERTY = "P01"
ASSUMPTIONS = ["message TLPs and prefixes have no encoder in this codebase and are outside the domain"]


def run_codec(c, ctx):
    ctx.label(c["kind"])
    ctx.nontrivial(c["tag"] > 255 or c["length"] > 1 or c["attr"] > 3 or c["th"] or c["ln"])
    t = tlpgen.build(c)
    hdr = tlpgen.wire(c)
    got = bytes(t.pack_header())
    check(got == hdr, "header of %r encodes as %s, specification says %s", c, got.hex(), hdr.hex())
    pkt = bytes(t.pack())
    want = hdr + (tlpgen.pattern(c["length"] * 4, c["salt"]) if tlpgen.has_data(c["kind"]) else b"")
    check(pkt == want, "packet of %r: %s != %s", c, pkt[:32].hex(), want[:32].hex())
    check(bytes(t) == want, "bytes() of packet differs from its wire form: %r", c)
    check(t.get_header_size() == len(hdr) and t.get_header_size_dw() * 4 == len(hdr), "header size wrong for %r", c)
    check(t.get_size() == len(want) and t.get_size_dw() * 4 == len(want), "packet size wrong for %r", c)
    u = Tlp.unpack(want)
    o, f = tlpgen.observe(u), tlpgen.fields(c)
    check(o == f, "decoding %s gives %r, packet was %r", hdr.hex(), o, f)
    check(bytes(u.data) == want[len(hdr):], "payload lost in decode of %r", c)
    check(bytes(u.pack()) == want, "decode then encode is not the identity on %s", want[:16].hex())
    check(u == t, "decoded packet is not equal to the original: %r", c)
    h = Tlp.unpack_header(hdr)
    check(tlpgen.observe(h) == f, "header-only decode of %r differs", c)


def run_copy(case, ctx):
    c = case["tlp"]
    t = tlpgen.build(c)
    t.seq = case["seq"]
    before = tlpgen.observe(t)
    data = bytes(t.data)
    u = Tlp(t)
    ctx.label(c["kind"])
    ctx.nontrivial(c["th"] or c["ln"] or c["ep"] or c["td"])
    check(tlpgen.observe(u) == before, "copy changed fields: %r -> %r", before, tlpgen.observe(u))
    check(bytes(u.data) == data and u.seq == case["seq"], "copy changed payload or sequence number of %r", c)
    check(u == t and t == u, "copy of %r is not equal to it", c)
    check(bytes(u.pack()) == bytes(t.pack()), "copy of %r encodes differently", c)
    # a copy is independent of its original
    if u.data:
        i = case["poke"] % len(u.data)
        u.data[i] ^= 0xff
        check(bytes(t.data) == data, "writing the copy's payload changed the original: %r", c)
        check(u != t, "packets with different payload compare equal: %r", c)
        u.data[i] ^= 0xff
    # equality notices a change of any one carried field
    k = case["field"]
    if k in before and k != "kind":
        v = Tlp(t)
        if k in ("ln", "th", "td", "ep", "bcm"):
            setattr(v, k, not getattr(v, k))
        elif k in ("requester_id", "completer_id"):
            setattr(v, k, PcieId.from_int(int(getattr(v, k)) ^ (1 << case["bit"] % 16)))
        elif k in ("tc", "attr", "at", "status"):
            old = getattr(v, k)
            setattr(v, k, type(old)({0: 1, 1: 2, 2: 0}.get(int(old), 0)))
        else:
            setattr(v, k, getattr(v, k) ^ (4 if k == "address" else 1))
        check(v != t, "packets that differ in %s compare equal: %r", k, c)
        ctx.label("eq-" + k)


copy_case = st.fixed_dictionaries({
    "tlp": tlpgen.tlp_case(max_dw=64), "seq": st.integers(0, 4095), "poke": st.integers(0, 4095),
    "bit": st.integers(0, 15),
    "field": st.sampled_from(["ln", "th", "td", "ep", "bcm", "requester_id", "completer_id", "tc", "attr", "at",
                              "status", "tag", "length", "byte_count", "lower_address", "address", "first_be",
                              "last_be", "ph"])})


def run_id(c, ctx):
    n = c["n"]
    i = PcieId.from_int(n)
    ctx.nontrivial(n not in (0, 0xffff))
    check((i.bus, i.device, i.function) == (n >> 8, (n >> 3) & 31, n & 7), "id %#x decodes as %r", n, i)
    check(int(i) == n and int(PcieId(i.bus, i.device, i.function)) == n, "id %#x does not round trip: %r", n, i)
    check(PcieId((i.bus, i.device, i.function)) == i and PcieId(i) == i, "id %#x not equal to its copy", n)
    bad = c["bad"]
    vals = [i.bus, i.device, i.function]
    lim = [255, 31, 7]
    vals[bad] = lim[bad] + 1 + c["by"] if c["up"] else -1 - c["by"]
    try:
        PcieId(*vals)
    except ValueError:
        pass
    else:
        check(False, "out-of-range id accepted: %r", vals)


id_case = st.fixed_dictionaries({"n": st.integers(0, 0xffff), "bad": st.integers(0, 2), "by": st.integers(0, 300),
                                 "up": st.booleans()})

PARTS = [
    Part("codec", tlpgen.tlp_case(), run_codec, 6000, 120000,
         "legal packets of every type with an encoder, fields uniform plus boundary values; non-trivial when it "
         "uses a multi-DW payload/length, an extended tag, IDO, TH or LN"),
    Part("copy", copy_case, run_copy, 4000, 60000,
         "copy and one-field-different pairs; non-trivial when a TH/LN/EP/TD flag is set"),
    Part("id", id_case, run_id, 1500, 20000, "16-bit routing IDs and out-of-range components; non-trivial except 0 and ffff"),
]
