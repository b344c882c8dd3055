"""Random PCIe topologies built from a JSON description, plus wire monitors."""
import contextlib
from types import SimpleNamespace
import hypothesis.strategies as st
import simcore
import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core import RootComplex, MemoryEndpoint, Device, Switch
from cocotbext.pcie.core.port import Port, SimPort
from cocotbext.pcie.core.dllp import Dllp
from cocotbext.pcie.core.tlp import Tlp, TlpType
import tlpgen
from linkbench import fc_kind

BARS = ("m32", "p32", "m64", "p64", "io")


# ---------------------------------------------------------------- generators

@st.composite
def bar_list(draw, max_bars=4, kinds=BARS, mem_log=(4, 20), io_log=(2, 10)):
    out, slots = [], 0
    for _ in range(draw(st.integers(0, max_bars))):
        k = draw(st.sampled_from(kinds))
        need = 2 if k.endswith("64") else 1
        if slots + need > 6:
            break
        slots += need
        lo, hi = io_log if k == "io" else mem_log
        out.append([k, draw(st.integers(lo, hi))])
    return out


@st.composite
def function(draw, **kw):
    return {"bars": draw(bar_list(**kw)), "mpss": draw(st.sampled_from([5, 5, 5, 0, 1, 2, 3])), "etag": draw(st.booleans())}


@st.composite
def endpoint(draw, max_f=2, **kw):
    return {"t": "ep", "f": [draw(function(**kw)) for _ in range(draw(st.integers(1, max_f)))],
            "speed": draw(st.sampled_from([None, 1, 3, 5])), "width": draw(st.sampled_from([None, 1, 4, 16]))}


@st.composite
def tree(draw, max_eps=3, depth=2, max_f=2, **kw):
    """List of nodes below the root complex."""
    budget = [draw(st.integers(1, max_eps))]

    def nodes(d, need):
        out = []
        while budget[0] > 0 and len(out) < 4:
            if d > 0 and draw(st.integers(0, 2)) == 0:
                out.append({"t": "sw", "c": nodes(d - 1, 0), "mpss": draw(st.sampled_from([5, 5, 2, 0]))})
            else:
                budget[0] -= 1
                if draw(st.integers(0, 7)) == 0:
                    # on the internal bus of the root complex or switch, without a link of its own
                    out.append({"t": "int", "f": [draw(function(**kw))]})
                else:
                    out.append(draw(endpoint(max_f=max_f, **kw)))
            if out and draw(st.integers(0, 3)) == 0:
                break
        return out
    return nodes(depth, 1)


rc_cfg = st.fixed_dictionaries({"mps": st.sampled_from([0, 0, 1, 2, 3, 5]), "mrrs": st.sampled_from([2, 2, 0, 1, 5]),
                                "rcb": st.booleans(), "split": st.booleans(), "tags": st.sampled_from([32, 32, 256, 8, 2, 1])})


# ---------------------------------------------------------------- building

class Tail:
    """Backing for the last bytes of a huge region; the rest is not backed."""
    SIZE = 1 << 14

    def __init__(self, size):
        self.base, self.mem, self.stray = size - self.SIZE, bytearray(self.SIZE), []

    def _at(self, addr, n):
        if n == 0:
            return 0
        if addr < self.base or addr + n > self.base + self.SIZE:
            self.stray.append((addr, n))
            return 0
        return addr - self.base

    async def read(self, addr, n):
        o = self._at(addr, n)
        return bytes(self.mem[o:o + n])

    async def write(self, addr, data):
        o = self._at(addr, len(data))
        self.mem[o:o + len(data)] = data


class Built:
    """Functions are listed in the order of the description (depth first)."""

    def __init__(self, rc_cfg, nodes, ep_cls=MemoryEndpoint):
        self.rc = RootComplex()
        c = rc_cfg
        self.rc.max_payload_size = c.get("mps", 0)
        self.rc.max_read_request_size = c.get("mrrs", 2)
        self.rc.read_completion_boundary = c.get("rcb", False)
        self.rc.split_on_all_rcb = c.get("split", False)
        self.rc.tag_count = c.get("tags", 32)
        self.funcs = []      # (Function, func desc)
        self.devices = []    # Device
        self.switches = []
        self.ports = []      # bridges with a downstream port
        self.ep_cls = ep_cls
        for n in nodes:
            self._add(self.rc, n)

    def _func(self, fd):
        f = self.ep_cls()
        f.pcie_cap.max_payload_size_supported = fd.get("mpss", 5)
        f.pcie_cap.extended_tag_supported = fd.get("etag", True)
        f.bar_of, f.tails = [], {}
        for kind, log in fd["bars"]:
            f.bar_of.append(f.bar_ptr)
            tail = Tail(1 << log) if log > 24 else None
            f.add_region(1 << log, tail and tail.read, tail and tail.write, ext=kind.endswith("64"), prefetch=kind.startswith("p"), io=kind == "io")
            f.tails[f.bar_of[-1]] = tail
        self.funcs.append((f, fd))
        return f

    def _add(self, parent, n):
        if n["t"] == "int":
            self.devices.append(SimpleNamespace(functions=[parent.add_endpoint(self._func(n["f"][0]))]))
            return
        port = parent.make_port()
        self.ports.append(port)
        if "up" in n:
            port.downstream_port.max_link_speed, port.downstream_port.max_link_width = n["up"]
        if n["t"] == "sw":
            sw = Switch()
            self.switches.append(sw)
            sw.upstream_bridge.pcie_cap.max_payload_size_supported = n.get("mpss", 5)
            if "up" in n:
                sw.upstream_bridge.upstream_port.max_link_speed, sw.upstream_bridge.upstream_port.max_link_width = n["speed"], n["width"]
            port.connect(sw)
            for ch in n["c"]:
                self._add(sw, ch)
        else:
            dev = Device()
            for fd in n["f"]:
                dev.append_function(self._func(fd))
            dev.upstream_port.max_link_speed = n.get("speed")
            dev.upstream_port.max_link_width = n.get("width")
            self.devices.append(dev)
            port.connect(dev)

    async def enumerate(self):
        await self.rc.enumerate()

    def pci(self, f):
        return self.rc.find_device(f.pcie_id)


# ---------------------------------------------------------------- monitors

class Wire:
    """Records every packet arriving at every port and checks flow control.

    For each direction: `limit` is the credit limit the transmitter has been
    given (initial advertisement plus UpdateFC), `used` what it has sent.
    """

    def __init__(self, keep=True):
        self.keep = keep
        self.log = []        # (time ps, receiving port, tlp snapshot)
        self.rx = {}         # id(port) -> per class [hdr, data] received
        self.adv = {}        # id(port) -> per class {"init": (h, d), "limit": [h, d]} advertised by that port
        self.ports = {}
        self.errors = []
        self.on_tlp = None
        self.last_tlp = 0

    def _err(self, *a):
        if len(self.errors) < 20:
            self.errors.append(a[0] % a[1:])

    def note(self, port, pkt):
        self.ports[id(port)] = port
        other = getattr(port, "other", None)
        if isinstance(pkt, Dllp):
            n = pkt.type.name
            if "FC" not in n or other is None:
                return
            # advertised by `other`
            self.ports[id(other)] = other
            cls = n.split("_")[-1]
            a = self.adv.setdefault(id(other), {})
            if n.startswith("INIT"):
                v = (pkt.hdr_fc, pkt.data_fc)
                if cls not in a:
                    a[cls] = {"init": v, "limit": list(v)}
                elif a[cls]["init"] != v:
                    self._err("port advertises initial credits %r then %r for %s", a[cls]["init"], v, cls)
            else:
                if cls not in a:
                    self._err("UpdateFC before InitFC for %s", cls)
                    return
                for i, (v, mod) in enumerate(((pkt.hdr_fc, 256), (pkt.data_fc, 4096))):
                    if a[cls]["init"][i] == 0:
                        if v != 0:
                            self._err("UpdateFC for infinite %s credits carries %d", cls, v)
                        continue
                    inc = (v - a[cls]["limit"][i]) % mod
                    if inc >= mod // 2:
                        self._err("UpdateFC %s takes credits back: limit %d, update %d", cls, a[cls]["limit"][i], v)
                        continue
                    a[cls]["limit"][i] += inc
                    got = self.rx.get(id(other), {}).get(cls, [0, 0])[i]
                    if a[cls]["limit"][i] - got > a[cls]["init"][i]:
                        self._err("UpdateFC %s advertises %d credits beyond the %d received: more than the %d the receiver has", cls,
                                  a[cls]["limit"][i] - got, got, a[cls]["init"][i])
            return
        cls = fc_kind(pkt.fmt_type.name)
        h = self.rx.setdefault(id(port), {}).setdefault(cls, [0, 0])
        h[0] += 1
        h[1] += (len(pkt.data) + 15) // 16
        self.last_tlp = simcore.wheel.now
        a = self.adv.get(id(port), {}).get(cls)
        if a:
            for i in (0, 1):
                if a["init"][i] and h[i] > a["limit"][i]:
                    self._err("transmitter overran %s %s credits: %d used, limit %d", cls, ("header", "data")[i], h[i], a["limit"][i])
        if self.keep:
            self.log.append((simcore.wheel.now, port, pkt.fmt_type.name, tlpgen.observe(pkt), bytes(pkt.data)))
        if self.on_tlp:
            self.on_tlp(port, pkt)

    def leaked(self):
        """At quiescence: classes whose advertised limit does not cover what was received."""
        out = []
        for k, a in self.adv.items():
            for cls, d in a.items():
                got = self.rx.get(k, {}).get(cls, [0, 0])
                for i in (0, 1):
                    if d["init"][i] and d["limit"][i] - got[i] != d["init"][i]:
                        out.append("%s: %s %s credits: %d of %d available at rest" % (
                            type(self.ports[k].parent).__name__, cls, ("header", "data")[i], d["limit"][i] - got[i], d["init"][i]))
        return out


@contextlib.contextmanager
def tapped(wire):
    orig = Port.ext_recv

    async def ext_recv(self, pkt):
        wire.note(self, pkt)
        await orig(self, pkt)
    Port.ext_recv = ext_recv
    try:
        yield wire
    finally:
        Port.ext_recv = orig


async def quiesce(wire, quiet_us=45, limit_us=2000):
    """Wait until no TLP has moved for `quiet_us` (longer than the FC update period)."""
    end = simcore.wheel.now + limit_us * 1_000_000
    while simcore.wheel.now < end:
        await Timer(5, "us")
        if simcore.wheel.now - wire.last_tlp >= quiet_us * 1_000_000:
            return True
    return False
