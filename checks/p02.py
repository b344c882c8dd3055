"""P02: byte ranges, byte enables and completion fields agree with each other."""
import hypothesis.strategies as st
import tlpgen
from runner import Part, check
from cocotbext.pcie.core.tlp import Tlp, TlpType, CplStatus
from cocotbext.pcie.core.utils import PcieId, align, byte_mask_update

PROPERTY = "P02"
ASSUMPTIONS = ["a request never spans more than 4096 bytes or a 4 KB boundary, as every caller ensures"]


def enabled(addr, length, fbe, lbe):
    """Byte addresses a request touches, from the specification's definition."""
    out = []
    for i in range(length):
        be = fbe if i == 0 else (lbe if i == length - 1 else 15)
        for b in range(4):
            if be >> b & 1:
                out.append(addr + i * 4 + b)
    return out


def run_range(c, ctx):
    addr, n = c["page"] * 4096 + c["off"], c["n"]
    n = min(n, 4096 - c["off"])
    ctx.nontrivial(n > 0 and (addr % 4 or n % 4))
    t = Tlp()
    t.fmt_type = TlpType.MEM_WRITE_64 if addr > 0xffffffff else TlpType.MEM_WRITE
    data = tlpgen.pattern(n, c["salt"])
    if c["with_data"]:
        t.set_addr_be_data(addr, data)
    else:
        t.fmt_type = TlpType.MEM_READ_64 if addr > 0xffffffff else TlpType.MEM_READ
        t.set_addr_be(addr, n)
    check(t.address == addr & ~3, "address %#x -> %#x", addr, t.address)
    if n == 0:
        check((t.length, t.first_be, t.last_be) == (1, 0, 0), "zero-length request at %#x gives length %d, enables %x %x",
              addr, t.length, t.first_be, t.last_be)
        check(t.get_be_byte_count() == 1, "zero-length request has byte count %d", t.get_be_byte_count())
        check(t.get_lower_address() == addr & 0x7c, "zero-length request at %#x: lower address %#x", addr, t.get_lower_address())
        if c["with_data"]:
            check(len(t.data) == 4 and t.check(), "zero-length write carries %d bytes", len(t.data))
        return
    en = enabled(t.address, t.length, t.first_be, t.last_be)
    check(en == list(range(addr, addr + n)), "%d bytes at %#x encode as address %#x length %d enables %x %x",
          n, addr, t.address, t.length, t.first_be, t.last_be)
    check(t.length > 1 or t.last_be == 0, "last byte enables of a one-DW request must be zero")
    check(t.get_be_byte_count() == n, "%d bytes at %#x: byte count %d", n, addr, t.get_be_byte_count())
    check(t.get_first_be_offset() == addr % 4, "%d bytes at %#x: first offset %d", n, addr, t.get_first_be_offset())
    check(t.get_lower_address() == addr & 0x7f, "%d bytes at %#x: lower address %#x, should be %#x", n, addr,
          t.get_lower_address(), addr & 0x7f)
    if c["with_data"]:
        check(bytes(t.data[addr % 4:addr % 4 + n]) == data and len(t.data) == t.length * 4,
              "payload of a %d byte write at %#x is misplaced", n, addr)
        check(t.get_data_credits() == (t.length + 3) // 4, "%d DW need %d credits", t.length, t.get_data_credits())
    else:
        check(t.get_data_credits() == 0, "a request without payload needs %d data credits", t.get_data_credits())
    check(t.check(), "legal request of %d bytes at %#x is rejected", n, addr)


range_case = st.fixed_dictionaries({
    "page": st.one_of(st.integers(0, 7), st.integers(0, (1 << 52) - 1)), "off": st.one_of(st.integers(0, 4095), st.integers(0, 130)),
    "n": st.one_of(st.integers(0, 20), st.integers(0, 4096), st.just(4096)), "salt": st.integers(0, 255),
    "with_data": st.booleans()})


def run_be(c, ctx):
    t = Tlp()
    t.fmt_type = TlpType.MEM_READ
    t.address = c["address"] * 4
    t.length = c["length"]
    fbe, lbe = c["fbe"], c["lbe"]
    if t.length == 1:
        lbe = 0
    else:
        fbe, lbe = fbe or 8, lbe or 1
    t.first_be, t.last_be = fbe, lbe
    en = enabled(t.address, t.length, fbe, lbe)
    ctx.nontrivial(fbe not in (0, 15) or lbe not in (0, 15))
    ctx.label("len1" if t.length == 1 else "multi")
    if not en:
        check(t.get_be_byte_count() == 1, "no byte enabled: byte count %d, specification says 1", t.get_be_byte_count())
        check(t.get_lower_address() == t.address & 0x7c, "no byte enabled at %#x: lower address %#x", t.address, t.get_lower_address())
        return
    want = en[-1] - en[0] + 1
    check(t.get_be_byte_count() == want, "enables %x %x length %d: byte count %d, should be %d", fbe, lbe, t.length,
          t.get_be_byte_count(), want)
    check(t.get_first_be_offset() == en[0] - t.address, "enables %x %x length %d: first offset %d", fbe, lbe, t.length,
          t.get_first_be_offset())
    check(t.get_last_be_offset() == t.address + t.length * 4 - 1 - en[-1], "enables %x %x length %d: last offset %d", fbe,
          lbe, t.length, t.get_last_be_offset())
    check(t.get_lower_address() == en[0] & 0x7f, "enables %x at %#x: lower address %#x", fbe, t.address, t.get_lower_address())


be_case = st.fixed_dictionaries({"address": st.one_of(st.integers(0, 64), st.integers(0, (1 << 62) - 1)), "length": tlpgen.pick_len(1, 1024),
                                 "fbe": st.integers(0, 15), "lbe": st.integers(0, 15)})


def run_cpl(c, ctx):
    r = tlpgen.build(c["tlp"])
    cid = PcieId.from_int(c["cid"])
    kind = c["how"]
    ctx.label(kind)
    ctx.nontrivial(c["tlp"]["tag"] > 255 or c["tlp"]["attr"] != 0)
    k = {"plain": lambda: Tlp.create_completion_for_tlp(r, cid), "data": lambda: Tlp.create_completion_data_for_tlp(r, cid),
         "ur": lambda: Tlp.create_ur_completion_for_tlp(r, cid), "ca": lambda: Tlp.create_ca_completion_for_tlp(r, cid),
         "crs": lambda: Tlp.create_crs_completion_for_tlp(r, cid)}[kind]()
    st_ = {"plain": 0, "data": 0, "ur": 1, "crs": 2, "ca": 4}[kind]
    check(k.fmt_type == (TlpType.CPL_DATA if kind == "data" else TlpType.CPL), "%s completion has type %s", kind, k.fmt_type)
    check(int(k.status) == st_, "%s completion has status %s", kind, k.status)
    got = (int(k.requester_id), int(k.completer_id), k.tag, int(k.tc), int(k.attr))
    want = (c["tlp"]["requester_id"], c["cid"], c["tlp"]["tag"], c["tlp"]["tc"], c["tlp"]["attr"])
    check(got == want, "completion echoes (requester, completer, tag, tc, attr) %r, request had %r", got, want)
    check(k.is_completion() and not k.is_posted() and not k.is_nonposted(), "completion misclassified")


cpl_case = st.fixed_dictionaries({"tlp": tlpgen.tlp_case(names=sorted(n for n in tlpgen.REQ if not n.startswith("MEM_WRITE")), max_dw=16),
                                  "cid": st.integers(0, 0xffff), "how": st.sampled_from(["plain", "data", "ur", "ca", "crs"])})


def run_valid(c, ctx):
    """Validation accepts legal packets and rejects each listed malformation."""
    k = c["tlp"]
    t = tlpgen.build(k)
    check(t.check(), "legal packet is rejected: %r", k)
    name = k["kind"]
    m = c["how"]
    by = c["by"]
    if m == "payload" and tlpgen.has_data(name):
        t.data = t.data[:-by % len(t.data)] if by & 1 and len(t.data) > by else t.data + bytes(by)
    elif m == "length" and tlpgen.has_data(name):
        if name in tlpgen.CPL:
            t.byte_count = 4096
            if by > 3:
                return
        elif name in tlpgen.MEM | tlpgen.ATOMIC:
            t.address &= ~0xfff
        t.length = 1024 + by
        t.data = bytes(t.length * 4)
    elif m == "4k" and name in tlpgen.MEM:
        t.address = (t.address & ~0xfff) | (0x1000 - 4 * max(0, t.length - 1 - by % t.length))
        t.address = (t.address & ~0xfff) | 0xffc if t.address & 0xfff == 0 else t.address
        if (t.address & 0xfff) + t.length * 4 <= 0x1000:
            return
    elif m == "single" and name in tlpgen.CFG | tlpgen.IO:
        t.length = 1 + by
        if tlpgen.has_data(name):
            t.data = bytes(4 * t.length)
    elif m == "lastbe" and name in tlpgen.CFG | tlpgen.IO:
        t.last_be = 1 + by % 15
    elif m == "cpl" and name in ("CPL_DATA", "CPL_LOCKED_DATA"):
        lo = t.length * 4 - (t.lower_address & 3) - 3
        if lo - by <= 0:
            return
        t.byte_count = lo - by
    elif m == "reserved" and name in ("CPL", "CPL_LOCKED"):
        t.length = by
    else:
        return
    ctx.nontrivial()
    ctx.label(m)
    check(not t.check(), "malformed packet (%s) is accepted: %r", m, t)


valid_case = st.one_of([
    st.fixed_dictionaries({"tlp": tlpgen.tlp_case(names=sorted(names), max_dw=mx), "how": st.just(how), "by": st.integers(1, 40)})
    for how, names, mx in (
        ("payload", {n for n in tlpgen.SPEC_TYPES if tlpgen.has_data(n)}, 64), ("length", {n for n in tlpgen.SPEC_TYPES if tlpgen.has_data(n)} - tlpgen.CFG - tlpgen.IO, 64),
        ("4k", tlpgen.MEM, 1024), ("single", tlpgen.CFG | tlpgen.IO, 1), ("lastbe", tlpgen.CFG | tlpgen.IO, 1),
        ("cpl", {"CPL_DATA", "CPL_LOCKED_DATA"}, 64), ("reserved", {"CPL", "CPL_LOCKED"}, 1), ("none", set(tlpgen.SPEC_TYPES), 1024))])


def run_mask(c, ctx):
    old, new, mask, bm = c["old"], c["new"], c["mask"], c["bitmask"]
    ctx.nontrivial(mask not in (0, 15) and bm not in (0, 0xffffffff))
    full = sum(0xff << 8 * i for i in range(4) if mask >> i & 1)
    want = (old & ~(full & bm)) | (new & full & bm)
    got = byte_mask_update(old, mask, new, bm)
    check(got & 0xffffffff == want, "write of %#x over %#x, byte mask %x, bit mask %#x gives %#x, should be %#x", new, old, mask, bm, got, want)
    v, w = c["old"], (1 << c["k"]) - 1
    a = align(v, w)
    check(a % (w + 1) == 0 and v <= a <= v + w, "align(%#x, %#x) = %#x", v, w, a)


u32 = st.integers(0, 0xffffffff)
mask_case = st.fixed_dictionaries({"old": u32, "new": u32, "mask": st.integers(0, 15),
                                   "bitmask": st.one_of(u32, st.sampled_from([0, 0xffffffff, 0xffff, 0x7])), "k": st.integers(0, 20)})

PARTS = [
    Part("range", range_case, run_range, 4000, 60000, "byte ranges within a 4 KB page; non-trivial when start or size is not DW aligned"),
    Part("enables", be_case, run_be, 3000, 40000, "all first/last byte enable patterns legal in real requests; non-trivial when one is partial"),
    Part("completion", cpl_case, run_cpl, 1500, 20000, "requests of every non-posted type; non-trivial with extended tag or attributes set"),
    Part("validation", valid_case, run_valid, 3000, 40000, "legal packets and one-way malformed variants; non-trivial when malformed"),
    Part("mask", mask_case, run_mask, 1500, 20000, "register update masks; non-trivial when byte and bit masks are partial"),
]
