"""Wire-level legality rules for the traffic a simulated hierarchy generates."""
import tlpgen
from cocotbext.pcie.core.tlp import TlpType, CplStatus


def _i(x):
    return int(x)


class Legal:
    """Attach `on_tlp` to a Wire.  `origin(id)` returns limits of a requester or
    completer: dict(mps=bytes, mrrs=bytes, tags=n, rcb=bytes) or None if unknown."""

    def __init__(self, origin):
        self.origin = origin
        self.out = {}       # (link, requester, tag) -> state
        self.errors = []
        self.stats = {"req": 0, "cpl": 0, "split": 0, "np": 0}

    def err(self, pkt, fmt, *a):
        if len(self.errors) < 10:
            self.errors.append((fmt % a if a else fmt) + ": " + repr(pkt))

    def on_tlp(self, port, t):
        e = self.err
        other = port.other
        link = min(id(port), id(other))
        toward = id(port)
        name = t.fmt_type.name
        ndw = len(t.data) // 4
        if len(t.data) % 4:
            e(t, "payload is not a whole number of DWs")
        if tlpgen.has_data(name) and t.length != ndw:
            e(t, "Length field is %d but the payload has %d DWs", t.length, ndw)
        if not 1 <= t.length <= 1024 and not name.startswith("CPL") and not name.startswith("MSG"):
            e(t, "length out of range")
        if name.startswith("CPL"):
            self.cpl(link, toward, t, name, ndw)
            return
        o = self.origin(t.requester_id)
        if o is None:
            e(t, "requester id belongs to no function")
            return
        self.stats["req"] += 1
        if len(t.data) > o["mps"]:
            e(t, "payload of %d bytes exceeds the requester's Max_Payload_Size %d", len(t.data), o["mps"])
        if name.startswith("MEM"):
            if (name.endswith("64")) != (t.address > 0xffffffff):
                e(t, "address 0x%x in the wrong header format", t.address)
            if (t.address & 0xfff) + t.length * 4 > 4096:
                e(t, "request crosses a 4 KB boundary")
            if "READ" in name and t.length * 4 > o["mrrs"]:
                e(t, "read of %d bytes exceeds the requester's Max_Read_Request_Size %d", t.length * 4, o["mrrs"])
            if t.length == 1 and t.last_be:
                e(t, "last byte enables set in a one-DW request")
            if t.length > 1 and (not t.first_be or not t.last_be):
                e(t, "empty byte enables in a multi-DW request")
            if t.length > 2 and (t.first_be not in (15, 14, 12, 8) or t.last_be not in (1, 3, 7, 15)):
                e(t, "non-contiguous byte enables")
            if t.address & 3:
                e(t, "address is not DW aligned")
        if name.startswith(("IO", "CFG")):
            if t.length != 1 or t.last_be or _i(t.tc) or _i(t.attr) or _i(t.at):
                e(t, "IO/configuration request with length %d, last BE %d, TC %d, Attr %d", t.length, t.last_be, _i(t.tc), _i(t.attr))
        if "WRITE" in name and name.startswith("MEM") or name.startswith("MSG"):
            return
        self.stats["np"] += 1
        if t.tag >= o["tags"]:
            e(t, "tag %d used although only %d tags are enabled", t.tag, o["tags"])
        k = (link, toward, _i(t.requester_id), t.tag)
        if k in self.out:
            e(t, "tag %d reused while request %r is outstanding", t.tag, self.out[k]["req"])
        self.out[k] = {"req": t.__class__(t), "left": tlpgen.span(t)[1], "done_dw": 0}

    def cpl(self, link, toward, t, name, ndw):
        e = self.err
        self.stats["cpl"] += 1
        # the request travelled the other way on this link
        keys = [k for k in self.out if k[0] == link and k[1] != toward and k[2] == _i(t.requester_id) and k[3] == t.tag]
        if not keys:
            e(t, "completion without an outstanding request")
            return
        k = keys[0]
        st = self.out[k]
        r = st["req"]
        if t.tc != r.tc or t.attr != r.attr:
            e(t, "completion does not carry the request's TC and Attr (%r, %r)", r.tc, r.attr)
        if t.status != CplStatus.SC:
            if t.data:
                e(t, "unsuccessful completion carries data")
            del self.out[k]
            return
        o = self.origin(t.completer_id)
        if o is None:
            e(t, "completer id belongs to no function")
            return
        if len(t.data) > o["mps"]:
            e(t, "completion payload of %d bytes exceeds the completer's Max_Payload_Size %d", len(t.data), o["mps"])
        if r.fmt_type in (TlpType.MEM_READ, TlpType.MEM_READ_64):
            cur = r.address + st["done_dw"] * 4
            off = tlpgen.span(r)[0] if st["done_dw"] == 0 else 0
            if not t.data:
                e(t, "successful read completion without data")
                del self.out[k]
                return
            if t.byte_count != st["left"]:
                e(t, "byte count %d, but %d bytes remain", t.byte_count, st["left"])
            if t.lower_address != (cur + off) & 0x7f:
                e(t, "lower address 0x%x, expected 0x%x", t.lower_address, (cur + off) & 0x7f)
            st["done_dw"] += ndw
            st["left"] -= ndw * 4 - off
            if st["done_dw"] > r.length:
                e(t, "completions return more data than requested")
                del self.out[k]
            elif st["done_dw"] == r.length:
                if st["left"] > 0:
                    e(t, "all DWs returned but %d bytes still counted", st["left"])
                del self.out[k]
            else:
                self.stats["split"] += 1
                if (cur + ndw * 4) % o["rcb"]:
                    e(t, "partial completion ends at 0x%x, not on a %d-byte read completion boundary", cur + ndw * 4, o["rcb"])
        else:
            read = "READ" in r.fmt_type.name
            if read != bool(t.data) or (read and ndw != 1):
                e(t, "completion payload of %d DWs for %s", ndw, r.fmt_type.name)
            if t.byte_count != 4:
                e(t, "byte count %d in a completion for an IO or configuration request", t.byte_count)
            if t.lower_address:
                e(t, "lower address %d in a completion for an IO or configuration request", t.lower_address)
            del self.out[k]

    def outstanding(self):
        return [repr(v["req"]) for v in self.out.values()]
