"""P22: Xilinx UltraScale descriptors say exactly what the TLP says."""
import hypothesis.strategies as st
import simcore  # noqa: F401
import tlpgen
from xdesc import spec, parity, enables
from runner import Part, check
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us.tlp import Tlp_us, ErrorCode
from cocotbext.pcie.xilinx.us.interface import UsPcieFrame

PROPERTY = "P22"
ASSUMPTIONS = ["8-bit tags, and no message descriptors (not implemented by the library)"]

CQ = sorted(tlpgen.MEM | tlpgen.ATOMIC | tlpgen.IO)
RQ = sorted(set(CQ) | tlpgen.CFG)
CPL = sorted(tlpgen.CPL)


def run(c, ctx):
    i, c = c["if"], dict(c["tlp"])
    x = c["us"]
    name = c["kind"]
    if i == "rq" and "completer_id" not in c:
        c["completer_id"] = x["cid"]
    if name in CPL:
        if i == "rc":
            if tlpgen.has_data(name):
                x["la"] = x["la"] & ~3 | c["lower_address"] & 3
        else:
            x["la"] = c["lower_address"]
    if not tlpgen.four_dw(name) and name in tlpgen.MEM | tlpgen.ATOMIC:
        c["address"] &= 0xffffffff
    if tlpgen.four_dw(name) and c["address"] < 1 << 32:
        c["address"] |= 1 << 33
    t = tlpgen.build(c, Tlp_us)
    if i == "cq":
        t.completer_id = PcieId(0, 0, x["fn"])
        t.bar_id, t.bar_aperture = x["bar"], x["aperture"]
    elif i == "rq":
        t.requester_id_enable, t.seq_num = x["en"], x["seq"]
        t.completer_id = PcieId.from_int(c["completer_id"])
    elif i == "cc":
        t.completer_id_enable = x["en"]
    else:
        t.lower_address, t.error_code, t.request_completed = x["la"], ErrorCode(x["err"]), x["done"]
    t.discontinue = x["disc"]
    data = tlpgen.pattern(c["length"] * 4, c["salt"]) if tlpgen.has_data(name) else b""
    dws = [int.from_bytes(data[k:k + 4], "little") for k in range(0, len(data), 4)]
    want = spec(i, c) + dws

    # copies are equal and independent
    cp = Tlp_us(t)
    for what, y in (("packet", t), ("copy", cp)):
        f = getattr(y, "pack_us_" + i)()
        check(f.data == want, "%s descriptor of %s %r: %s, product guide says %s", i, what, c, [hex(v) for v in f.data], [hex(v) for v in want])
        check(f.parity == [parity(v) for v in want], "%s parity of %s", i, what)
        check(bool(f.discontinue) == x["disc"], "discontinue of %s", what)
        if i in ("cq", "rq"):
            check((f.first_be, f.last_be) == (c["first_be"], c["last_be"]), "byte enables on the %s sideband of %s: %x %x, packet has %x %x", i, what, f.first_be, f.last_be, c["first_be"], c["last_be"])
        if i == "rq":
            check(f.seq_num == x["seq"], "sequence number of %s: %d, given %d", what, f.seq_num, x["seq"])
        if i in ("cq", "rc"):
            hdr = 4 if i == "cq" else 3
            be = [0] * hdr + enables(i, c, len(dws))
            check(f.byte_en == be, "byte enables of %s %s %r: %r, should be %r", i, what, c, f.byte_en, be)
        check(f.check_parity(), "own parity rejected")
    # a frame built from the product guide decodes to the packet
    g = UsPcieFrame()
    g.data = list(want)
    g.parity = [parity(v) for v in want]
    g.discontinue = x["disc"]
    if i in ("cq", "rq"):
        g.first_be, g.last_be = c["first_be"], c["last_be"]
    if i == "rq":
        g.seq_num = x["seq"]
    if i in ("cq", "rc"):
        g.byte_en = [0] * (4 if i == "cq" else 3) + enables(i, c, len(dws))
    u = getattr(Tlp_us, "unpack_us_" + i)(UsPcieFrame(g), check_parity=True)
    o = tlpgen.observe(u)
    keys = {"cq": "kind tc attr at tag requester_id length address first_be last_be", "rq": "kind tc attr ep tag requester_id length address first_be last_be",
            "cc": "kind tc attr at ep tag requester_id completer_id length status byte_count", "rc": "kind tc attr ep tag requester_id completer_id length status byte_count"}[i].split()
    if i == "rq" and name not in tlpgen.CFG:
        keys.append("at")
    for k in keys:
        check(o[k] == c[k], "%s frame of %r decodes with %s = %r", i, c, k, o[k])
    check(bytes(u.data) == data, "%s frame decodes with other payload", i)
    check(u.discontinue == x["disc"], "discontinue lost")
    if i == "cq":
        check((u.bar_id, u.bar_aperture, u.completer_id.function) == (x["bar"], x["aperture"], x["fn"]), "BAR id, aperture or target function of CQ: %r", (u.bar_id, u.bar_aperture, u.completer_id))
    if i == "rq":
        check(int(u.completer_id) == c["completer_id"] and bool(u.requester_id_enable) == x["en"] and u.seq_num == x["seq"], "completer id, requester id enable or sequence number of RQ")
    if i == "cc":
        check(u.lower_address == c["lower_address"] and bool(u.completer_id_enable) == x["en"], "lower address or completer id enable of CC")
    if i == "rc":
        check(u.lower_address == x["la"] and int(u.error_code) == x["err"] and bool(u.request_completed) == x["done"], "lower address, error code or request completed of RC: %r", (u.lower_address, u.error_code, u.request_completed))
    # any corrupted bit is seen by the parity check
    k, b = x["flip"] % len(want), x["flip"] // len(want) % 36
    h = UsPcieFrame(g)
    if b < 32:
        h.data[k] ^= 1 << b
    else:
        h.parity[k] ^= 1 << (b - 32)
    check(not h.check_parity(), "parity check does not see flipped bit %d of dword %d", b, k)
    h.update_parity()
    check(h.parity == [parity(v) for v in h.data], "update_parity")
    # frame copies
    f = UsPcieFrame(g)
    check(f == g and len(f) == len(want), "frame copy differs")
    f.data[k] ^= 1
    f.parity.append(0)
    f.byte_en.append(0)
    check(g.data == want and f != g and len(g.parity) == len(want), "frame copy shares state with the original")
    # plain TLPs convert
    p = Tlp_us(tlpgen.build(c))
    check(tlpgen.observe(p) == tlpgen.observe(tlpgen.build(c)) and bytes(p.data) == data, "Tlp_us(Tlp) changes the packet")
    # every Xilinx field survives a copy
    for k in ("bar_id", "bar_aperture", "completer_id_enable", "requester_id_enable", "discontinue", "seq_num", "error_code", "request_completed"):
        check(getattr(cp, k) == getattr(t, k), "copy of Tlp_us has %s = %r, original %r", k, getattr(cp, k), getattr(t, k))
    cp.data.extend(b"x")
    check(bytes(t.data) == data, "copy shares its payload")
    ctx.nontrivial(bool(dws) or x["disc"])
    ctx.label(i + " " + name)


us = st.fixed_dictionaries({"fn": st.integers(0, 7), "bar": st.integers(0, 6), "aperture": st.integers(0, 63), "en": st.booleans(), "seq": st.integers(0, 63), "cid": st.integers(0, 65535),
                            "la": st.integers(0, 4095), "err": st.sampled_from([0, 0, 1, 2, 3, 4, 5, 6, 8, 9]), "done": st.booleans(), "disc": st.booleans(), "flip": st.integers(0, 36 * 1100)})


@st.composite
def case(draw):
    i = draw(st.sampled_from(["cq", "cc", "rq", "rc"]))
    c = draw(tlpgen.tlp_case(names={"cq": CQ, "rq": RQ, "cc": CPL, "rc": CPL}[i]))
    c["tag"] &= 0xff
    if tlpgen.has_data(c["kind"]) and c["kind"] in tlpgen.CPL and draw(st.booleans()):
        # last completion of a request: byte count ends in the last dword
        off = c["lower_address"] & 3
        lo = max(1, (c["length"] - 1) * 4 - off + 1)
        c["byte_count"] = min(4096, draw(st.integers(lo, max(lo, c["length"] * 4 - off))))
    c["us"] = draw(us)
    return {"if": i, "tlp": c}


PARTS = [Part("descriptor", case(), run, 2500, 80000, "every interface and packet kind, uniform fields; non-trivial with payload or discontinue")]
