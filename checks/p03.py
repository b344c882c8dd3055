"""P03: data link layer packets survive encoding and decoding; corruption is rejected."""
import hypothesis.strategies as st
import simcore  # noqa: F401
from runner import Part, check
from cocotbext.pcie.core.dllp import Dllp, DllpType, FcScale, FcType

PROPERTY = "P03"
ASSUMPTIONS = ["DLLP kinds with no encoder (MR-IOV, vendor) are outside the domain"]

CODES = {"ACK": 0x00, "DATA_LINK_FEATURE": 0x02, "NAK": 0x10, "PM_ENTER_L1": 0x20, "PM_ENTER_L23": 0x21, "PM_ACT_ST_REQ_L1": 0x23,
         "PM_REQ_ACK": 0x24, "NOP": 0x31, "INIT_FC1_P": 0x40, "INIT_FC1_NP": 0x50, "INIT_FC1_CPL": 0x60, "INIT_FC2_P": 0xc0,
         "INIT_FC2_NP": 0xd0, "INIT_FC2_CPL": 0xe0, "UPDATE_FC_P": 0x80, "UPDATE_FC_NP": 0x90, "UPDATE_FC_CPL": 0xa0}


def wire(c):
    k = c["kind"]
    b = [CODES[k], 0, 0, 0]
    if k in ("ACK", "NAK"):
        b[2], b[3] = c["seq"] >> 8, c["seq"] & 0xff
    elif k == "DATA_LINK_FEATURE":
        v = c["feat"] | (0x800000 if c["fack"] else 0)
        b[1:] = v.to_bytes(3, "big")
    elif "FC" in k:
        b[0] |= c["vc"]
        b[1] = c["hs"] << 6 | c["hdr"] >> 2
        b[2] = (c["hdr"] & 3) << 6 | c["ds"] << 4 | c["data"] >> 8
        b[3] = c["data"] & 0xff
    return bytes(b)


def crc(data):
    """Bit-serial CRC-16, polynomial 100Bh, as drawn in the specification."""
    reg = 0xffff
    for byte in data:
        for i in range(8):
            fb = (reg >> 15 & 1) ^ (byte >> i & 1)
            reg = reg << 1 & 0xffff
            if fb:
                reg ^= 0x100b
    reg ^= 0xffff
    out = bytes(int(format(x, "08b")[::-1], 2) for x in (reg >> 8, reg & 0xff))
    return out


def mk(c):
    d = Dllp()
    d.type = DllpType[c["kind"]]
    if c["kind"] in ("ACK", "NAK"):
        d.seq = c["seq"]
    elif c["kind"] == "DATA_LINK_FEATURE":
        d.feature_support, d.feature_ack = c["feat"], c["fack"]
    elif "FC" in c["kind"]:
        d.vc, d.hdr_scale, d.hdr_fc, d.data_scale, d.data_fc = c["vc"], FcScale(c["hs"]), c["hdr"], FcScale(c["ds"]), c["data"]
    return d


def run(c, ctx):
    ctx.label(c["kind"])
    ctx.nontrivial("FC" in c["kind"] or c["kind"] in ("ACK", "NAK", "DATA_LINK_FEATURE"))
    d = mk(c)
    w = wire(c)
    check(bytes(d.pack()) == w, "%r encodes as %s, specification says %s", c, bytes(d.pack()).hex(), w.hex())
    full = w + crc(w)
    check(bytes(d.pack_crc()) == full, "%r with CRC encodes as %s, specification says %s", c, bytes(d.pack_crc()).hex(), full.hex())
    check(len(full) == d.get_size(), "size of DLLP")
    for u in (Dllp.unpack(w), Dllp.unpack_crc(full), Dllp(d)):
        check(u == d and u.type == d.type and bytes(u.pack()) == w, "decode or copy of %r gives %r", c, u)
    if c["kind"] in ("ACK", "NAK"):
        check((Dllp.create_ack if c["kind"] == "ACK" else Dllp.create_nak)(c["seq"]) == d, "%r constructor differs", c)
    if "FC" in c["kind"]:
        check(d.get_fc_type() == {"_P": FcType.P, "NP": FcType.NP, "PL": FcType.CPL}[c["kind"][-2:]], "%r has credit type %s", c, d.get_fc_type())
    # any 1..3 bit error and any burst up to 16 bits must be rejected
    bad = int.from_bytes(full, "little") ^ c["err"]
    try:
        u = Dllp.unpack_crc(bad.to_bytes(6, "little"))
    except Exception:
        pass
    else:
        check(False, "corrupted DLLP (error mask %#x) accepted: %r -> %r", c["err"], c, u)


@st.composite
def err(draw):
    if draw(st.booleans()):
        bits = draw(st.sets(st.integers(0, 47), min_size=1, max_size=3))
        return sum(1 << b for b in bits)
    n = draw(st.integers(1, 16))
    pos = draw(st.integers(0, 48 - n))
    return (draw(st.integers(0, (1 << n) - 1)) | 1 | 1 << (n - 1)) << pos


case = st.fixed_dictionaries({"kind": st.sampled_from(sorted(CODES)), "seq": st.integers(0, 4095), "feat": st.integers(0, (1 << 23) - 1), "fack": st.booleans(),
                              "vc": st.integers(0, 7), "hs": st.integers(0, 3), "hdr": st.integers(0, 255), "ds": st.integers(0, 3),
                              "data": st.integers(0, 4095), "err": err()})

PARTS = [Part("codec", case, run, 5000, 150000, "every encodable DLLP kind with uniform fields plus a bit-error mask of up to 3 bits or a "
              "burst of up to 16; non-trivial when the kind carries fields")]
