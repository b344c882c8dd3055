"""Generators for transaction layer packets plus an independent wire codec.

Cases are plain dicts; `build` turns one into a `Tlp` through its public
attributes.  `wire` / `parse` are written from the PCI Express base
specification's figures, not from the code under test.
"""
import simcore  # noqa: F401
import hypothesis.strategies as st
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, TlpAt, CplStatus
from cocotbext.pcie.core.utils import PcieId

# name -> (fmt, type) per PCIe base spec table 2-3
SPEC_TYPES = {
    "MEM_READ": (0, 0x00), "MEM_READ_64": (1, 0x00),
    "MEM_READ_LOCKED": (0, 0x01), "MEM_READ_LOCKED_64": (1, 0x01),
    "MEM_WRITE": (2, 0x00), "MEM_WRITE_64": (3, 0x00),
    "IO_READ": (0, 0x02), "IO_WRITE": (2, 0x02),
    "CFG_READ_0": (0, 0x04), "CFG_WRITE_0": (2, 0x04),
    "CFG_READ_1": (0, 0x05), "CFG_WRITE_1": (2, 0x05),
    "CPL": (0, 0x0A), "CPL_DATA": (2, 0x0A),
    "CPL_LOCKED": (0, 0x0B), "CPL_LOCKED_DATA": (2, 0x0B),
    "FETCH_ADD": (2, 0x0C), "FETCH_ADD_64": (3, 0x0C),
    "SWAP": (2, 0x0D), "SWAP_64": (3, 0x0D),
    "CAS": (2, 0x0E), "CAS_64": (3, 0x0E),
}
MEM = {"MEM_READ", "MEM_READ_64", "MEM_READ_LOCKED", "MEM_READ_LOCKED_64", "MEM_WRITE", "MEM_WRITE_64"}
ATOMIC = {"FETCH_ADD", "FETCH_ADD_64", "SWAP", "SWAP_64", "CAS", "CAS_64"}
IO = {"IO_READ", "IO_WRITE"}
CFG = {"CFG_READ_0", "CFG_WRITE_0", "CFG_READ_1", "CFG_WRITE_1"}
CPL = {"CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"}
REQ = MEM | ATOMIC | IO | CFG


def has_data(name):
    return SPEC_TYPES[name][0] & 2 != 0


def four_dw(name):
    return SPEC_TYPES[name][0] & 1 != 0


@st.composite
def mix(draw, *options):
    """One of the options; one that is given twice is twice as likely (st.one_of drops repetitions)."""
    return draw(options[draw(st.integers(0, len(options) - 1))])


@st.composite
def many(draw, elements, lo, hi):
    """A list whose length is spread evenly over lo..hi (st.lists prefers short ones)."""
    n = draw(st.integers(lo, hi))
    return draw(st.lists(elements, min_size=n, max_size=n))


def span(t):
    """(offset of the first enabled byte, bytes up to the last one) of a request; (0, 1) when none is enabled."""
    n = t.length or 1024
    en = t.first_be if n == 1 else t.first_be | 0xf0 * (n > 2) | t.last_be << 8
    where = [i for i in range(12) if en >> i & 1]
    if not where:
        return 0, 1
    end = where[-1] if n == 1 else 4 * n - 4 + where[-1] - 8
    return where[0], end - where[0] + 1


ids = st.integers(0, 0xffff)


def pick_len(lo=1, hi=1024):
    """Lengths biased to small values and to the limits."""
    return st.one_of(st.integers(lo, min(hi, 8)), st.sampled_from([x for x in (hi, hi - 1, 1023, 1024, 512, 256, 255, 32, 31, 33, 64) if lo <= x <= hi]),
                     st.integers(lo, hi))


def pattern(n, salt):
    """n deterministic bytes, never all alike, cheap to describe in a case."""
    x = (salt * 2654435761 + 12345) & 0xffffffff
    out = bytearray()
    while len(out) < n:
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out += (x >> 8).to_bytes(3, "little")[:2]
    return bytes(out[:n])


@st.composite
def tlp_case(draw, names=tuple(sorted(SPEC_TYPES)), max_dw=1024, legal=True):
    """A legal TLP as a dict of raw field values."""
    name = draw(st.sampled_from(list(names)))
    c = {"kind": name,
         "tc": draw(st.integers(0, 7)), "attr": draw(st.integers(0, 7)), "at": draw(st.integers(0, 2)),
         "ln": draw(st.booleans()), "th": draw(st.booleans()), "td": draw(st.booleans()), "ep": draw(st.booleans()),
         "tag": draw(st.one_of(st.integers(0, 1023), st.sampled_from([0, 31, 32, 255, 256, 511, 512, 768, 1023]))),
         "requester_id": draw(ids)}
    if name in CPL:
        c["completer_id"] = draw(ids)
        c["bcm"] = draw(st.booleans())
        if has_data(name):
            c["status"] = draw(st.sampled_from([0, 0, 0, 0, 1, 2, 4]))
            c["length"] = draw(pick_len(1, max_dw))
            off = draw(st.integers(0, 3))
            c["lower_address"] = draw(st.integers(0, 31)) * 4 + off
            lo = max(1, c["length"] * 4 - off - 3)
            c["byte_count"] = draw(st.one_of(st.integers(lo, 4096), st.just(lo), st.just(4096)))
        else:
            c["status"] = draw(st.sampled_from([0, 1, 2, 4]))
            c["length"] = 0
            c["lower_address"] = draw(st.integers(0, 127))
            c["byte_count"] = draw(st.one_of(st.integers(1, 4096), st.sampled_from([4, 4096])))
    elif name in CFG:
        c["completer_id"] = draw(ids)
        c["address"] = draw(st.integers(0, 0x3ff)) * 4
        c["length"] = 1
        c["first_be"] = draw(st.integers(0, 15))
        c["last_be"] = 0
    else:
        hi = (1 << 64) - 1 if four_dw(name) else (1 << 32) - 1
        if name in IO:
            c["length"] = 1
        else:
            c["length"] = draw(pick_len(1, max_dw))
        span = c["length"] * 4
        page = draw(st.one_of(st.integers(0, hi >> 12), st.sampled_from([0, 1, 0xfffff, hi >> 12])))
        if four_dw(name):
            page = draw(st.one_of(st.just(page), st.integers(1 << 20, hi >> 12)))
        room = (0x1000 - span) // 4
        off = draw(st.one_of(st.integers(0, room), st.sampled_from([0, room])))
        c["address"] = (page << 12) + off * 4
        c["ph"] = draw(st.integers(0, 3))
        c["first_be"] = draw(st.integers(0, 15))
        c["last_be"] = draw(st.integers(1, 15)) if c["length"] > 1 else 0
        if c["length"] > 1 and c["first_be"] == 0:
            c["first_be"] = 8
    if has_data(name):
        c["salt"] = draw(st.integers(0, 255))
    return c


def build(c, cls=None):
    t = (cls or Tlp)()
    t.fmt_type = TlpType[c["kind"]]
    t.tc = TlpTc(c["tc"])
    t.attr = TlpAttr(c["attr"])
    t.at = TlpAt(c["at"])
    for k in ("ln", "th", "td", "ep", "tag", "bcm", "length", "byte_count", "lower_address", "address",
              "first_be", "last_be", "ph"):
        if k in c:
            setattr(t, k, c[k])
    if "status" in c:
        t.status = CplStatus(c["status"])
    t.requester_id = PcieId.from_int(c["requester_id"])
    if "completer_id" in c:
        t.completer_id = PcieId.from_int(c["completer_id"])
    if has_data(c["kind"]):
        t.data = bytearray(pattern(c["length"] * 4, c["salt"]))
    return t


def fields(c):
    """Field values a decoder must report for this packet."""
    return {k: v for k, v in c.items() if k not in ("salt",)}


def observe(t):
    """Field values of a Tlp as raw numbers, every field the packet carries."""
    name = t.fmt_type.name
    d = {"kind": name, "tc": int(t.tc), "attr": int(t.attr), "at": int(t.at), "ln": bool(t.ln), "th": bool(t.th),
         "td": bool(t.td), "ep": bool(t.ep), "tag": t.tag, "requester_id": int(t.requester_id), "length": t.length}
    if name in CPL:
        d.update(completer_id=int(t.completer_id), bcm=bool(t.bcm), status=int(t.status),
                 lower_address=t.lower_address, byte_count=t.byte_count)
    elif name in CFG:
        d.update(completer_id=int(t.completer_id), address=t.address, first_be=t.first_be, last_be=t.last_be)
    else:
        d.update(address=t.address, first_be=t.first_be, last_be=t.last_be, ph=t.ph)
    return d


def wire(c):
    """Header bytes of the packet, from the specification's figures."""
    fmt, typ = SPEC_TYPES[c["kind"]]
    b = [0] * (16 if fmt & 1 else 12)
    b[0] = fmt << 5 | typ
    b[1] = (((c["tag"] >> 9) & 1) << 7 | c["tc"] << 4 | ((c["tag"] >> 8) & 1) << 3 | ((c["attr"] >> 2) & 1) << 2
            | int(c["ln"]) << 1 | int(c["th"]))
    b[2] = int(c["td"]) << 7 | int(c["ep"]) << 6 | (c["attr"] & 3) << 4 | c["at"] << 2 | ((c["length"] >> 8) & 3)
    b[3] = c["length"] & 0xff
    if c["kind"] in CPL:
        b[4:6] = c["completer_id"].to_bytes(2, "big")
        bc = c["byte_count"] & 0xfff
        b[6] = c["status"] << 5 | int(c["bcm"]) << 4 | bc >> 8
        b[7] = bc & 0xff
        b[8:10] = c["requester_id"].to_bytes(2, "big")
        b[10] = c["tag"] & 0xff
        b[11] = c["lower_address"]
    else:
        b[4:6] = c["requester_id"].to_bytes(2, "big")
        b[6] = c["tag"] & 0xff
        b[7] = c["last_be"] << 4 | c["first_be"]
        if c["kind"] in CFG:
            b[8:10] = c["completer_id"].to_bytes(2, "big")
            b[10] = c["address"] >> 8
            b[11] = c["address"] & 0xfc
        elif fmt & 1:
            b[8:16] = (c["address"] | c["ph"]).to_bytes(8, "big")
        else:
            b[8:12] = (c["address"] | c["ph"]).to_bytes(4, "big")
    return bytes(b)
