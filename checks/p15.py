"""P15: enumeration finds every function, numbers the buses and places every BAR soundly."""
import hypothesis.strategies as st
import simcore
import topo
from cocotbext.pcie.core import RootComplex, Device, Switch
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.caps.common import PciExtCap
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId
from runner import Part, check

PROPERTY = "P15"
ASSUMPTIONS = ["every root port and switch port has a device attached", "devices below a port are device 0", "all BARs fit the root complex windows", "a device that answers CRS sits behind a port and is ready within 10 ms"]

bars = topo.bar_list(max_bars=6, mem_log=(4, 24), io_log=(2, 16))
big = st.tuples(st.sampled_from(["p64"]), st.integers(28, 40)).map(list)


@st.composite
def barset(draw):
    b = draw(bars)
    if draw(st.integers(0, 3)) == 0:
        b = b[:2] + [draw(big)]
    return b


func = st.fixed_dictionaries({
    "bars": barset(), "rom": st.sampled_from([0, 0, 0, 11, 12, 16, 20]), "mpss": st.integers(0, 5), "etag": st.booleans(),
    "vid": st.integers(1, 0xfffe), "did": st.integers(1, 0xfffe), "cls": st.integers(0, 0xffffff), "rev": st.integers(0, 255),
    "sv": st.integers(0, 0xffff), "sd": st.integers(0, 0xffff),
    # extended capabilities: id, registers, where (None: next free place)
    "ext": st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(1, 0xfffe), st.integers(1, 6), st.one_of(st.none(), st.integers(0x50, 0x3f0))), max_size=4))})
bridge = st.fixed_dictionaries({
    "bars": st.sampled_from([[], [], [], [["m32", 12]], [["m32", 16], ["m32", 4]], [["m64", 14]], [["p64", 22]], [["p64", 33]], [["io", 8]], [["io", 4], ["m32", 21]]]),
    "rom": st.sampled_from([0, 0, 0, 0, 11, 21]), "mpss": st.integers(0, 5)})


@st.composite
def tree(draw):
    budget = [draw(st.integers(1, 7))]

    def port(d):
        """What hangs off one port, or sits beside the ports."""
        if d < 4 and draw(st.integers(0, 7)) == 0:
            budget[0] -= 1
            return {"int": draw(func)}
        if d > 0 and draw(st.integers(0, 2)) == 0:
            ports = []
            while len(ports) < 4 and (not ports or (budget[0] > 0 and draw(st.integers(0, 2)))):
                budget[0] -= 1
                ports.append(port(d - 1))
            return {"port": draw(bridge), "sw": draw(bridge), "c": ports}
        budget[0] -= 1
        nums = draw(st.one_of(st.just([0]), st.just([0, 1]), st.sets(st.integers(1, 7), max_size=3).map(lambda s: [0] + sorted(s))))
        return {"port": draw(bridge), "f": [[n, draw(func)] for n in nums], "crs": draw(st.sampled_from([0] * 12 + [1, 40, 300, 2500]))}
    out = [port(4 if draw(st.booleans()) else draw(st.integers(0, 3)))]
    while budget[0] > 0 and len(out) < 6:
        out.append(port(draw(st.integers(0, 3))))
    return {"ports": out, "mps": draw(st.integers(0, 5))}


small = st.fixed_dictionaries({
    "bars": st.sampled_from([[], [], [["m32", 4]], [["io", 2]], [["m32", 8], ["io", 4]]]), "rom": st.sampled_from([0, 0, 0, 11]), "mpss": st.integers(0, 5), "etag": st.booleans(),
    "vid": st.just(0x1234), "did": st.integers(1, 0xfffe), "cls": st.just(0x058000), "rev": st.just(1), "sv": st.just(1), "sd": st.just(2)})


@st.composite
def wide(draw):
    """Nearly every device number of one bus is in use."""
    root = draw(st.booleans())
    n = draw(st.sampled_from([31, 31, 28, 29, 30]))
    ports = [{"int": draw(small)} for _ in range(n)]
    br = {"bars": [], "rom": 0, "mpss": 5}
    for at in draw(st.sets(st.sampled_from([0, 1, n - 1, n - 2, n // 2]), max_size=3)):
        ports[at] = {"port": br, "f": [[0, draw(small)]], "crs": 0}
    if not root:
        ports = [{"port": br, "sw": br, "c": ports}]
    return {"ports": ports, "mps": draw(st.integers(0, 5))}


def setup_fn(f, d):
    i = 0
    for kind, log in d["bars"]:
        f.configure_bar(i, 1 << log, ext=kind.endswith("64"), prefetch=kind.startswith("p"), io=kind == "io")
        i += 2 if kind.endswith("64") else 1
    if d["rom"]:
        f.expansion_rom_addr_mask = 0xfffff800 & ~((1 << d["rom"]) - 1)
    f.pcie_cap.max_payload_size_supported = d["mpss"]


class ExtCap(PciExtCap):
    def __init__(self, cap_id, length):
        super().__init__()
        self.cap_id, self.length, self.cap_ver = cap_id, length, 1


class SlowStart(Endpoint):
    """Answers configuration requests with CRS for some time after the first one."""
    ready_us = 0

    async def upstream_recv(self, tlp):
        if self.ready_us and tlp.fmt_type in (TlpType.CFG_READ_0, TlpType.CFG_WRITE_0):
            if self.clock[0] is None:
                self.clock[0] = simcore.wheel.now
            if simcore.wheel.now < self.clock[0] + self.ready_us * 1_000_000:
                tlp.release_fc()
                await self.send(Tlp.create_crs_completion_for_tlp(tlp, self.pcie_id))
                return
        await super().upstream_recv(tlp)


def build(c):
    """Returns (rc, nodes): nodes are dicts with fn, kind, desc, parent, child list."""
    rc = RootComplex()
    rc.max_payload_size = c["mps"]
    nodes = []

    def add(fn, desc, parent, kind):
        n = {"fn": fn, "d": desc, "parent": parent, "kind": kind}
        nodes.append(n)
        return n

    def endpoint(fd, num):
        f = SlowStart()
        f.pcie_id = PcieId(0, 0, num)
        setup_fn(f, fd)
        f.vendor_id, f.device_id, f.class_code, f.revision_id = fd["vid"], fd["did"], fd["cls"], fd["rev"]
        f.subsystem_vendor_id, f.subsystem_id = fd["sv"], fd["sd"]
        f.pcie_cap.extended_tag_supported = fd["etag"]
        for cid, n, at in fd.get("ext", ()):
            used = [r for x in f.ext_capabilities.list for r in range(x.offset, x.offset + x.length)]
            if at is None or not any(at <= r < at + n for r in used):
                f.register_extended_capability(ExtCap(cid, n), at)
        return f

    def below(parent_switch, parent_node, p, root):
        if "int" in p:
            add(parent_switch.add_endpoint(endpoint(p["int"], 0)), p["int"], parent_node, "ep")
            return
        br = parent_switch.make_port()
        mpss = br.pcie_cap.max_payload_size_supported
        setup_fn(br, p["port"])
        if root:
            br.pcie_cap.max_payload_size_supported = max(mpss, c["mps"])
        pn = add(br, p["port"], parent_node, "rp" if root else "dsp")
        if "sw" in p:
            sw = Switch()
            setup_fn(sw.upstream_bridge, p["sw"])
            br.connect(sw)
            un = add(sw.upstream_bridge, p["sw"], pn, "usp")
            for ch in p["c"]:
                below(sw, un, ch, False)
        else:
            dev = Device()
            clock = [None]
            for num, fd in p["f"]:
                f = endpoint(fd, num)
                f.ready_us, f.clock = p.get("crs", 0), clock
                dev.add_function(f)
                add(f, fd, pn, "ep")
            br.connect(dev)
    for p in c["ports"]:
        below(rc, None, p, True)
    return rc, nodes


def bar_regs(fn, d):
    """[(index, space, base, size, kind)] decoded from the registers themselves."""
    out, i = [], 0
    for kind, log in d["bars"]:
        lo = fn.bar[i]
        hi = fn.bar[i + 1] if kind.endswith("64") else 0
        flags = {"m32": 0, "p32": 8, "m64": 4, "p64": 12, "io": 1}[kind]
        check(lo & (3 if kind == "io" else 15) == flags, "%s BAR%d type bits are %x", kind, i, lo & 15)
        base = (lo & ~(3 if kind == "io" else 15)) | hi << 32
        out.append((i, "io" if kind == "io" else "mem", base, 1 << log, kind))
        i += 2 if kind.endswith("64") else 1
    while i < len(fn.bar):
        check(fn.bar[i] == 0, "unimplemented BAR%d reads %x", i, fn.bar[i])
        i += 1
    if d["rom"]:
        out.append(("rom", "mem", fn.expansion_rom_addr & 0xfffff800, 1 << d["rom"], "rom"))
    return out


def run(c, ctx):
    info = {}

    async def main():
        rc, nodes = build(c)
        await rc.enumerate()
        await verify(rc, nodes, c, info)
    simcore.run(main, max_time_ns=200_000_000)
    ctx.nontrivial(info["bars"] > 0 and info["nodes"] > 2)
    ctx.label("%d bridges" % min(info["bridges"], 9))
    if info["slow"]:
        ctx.label("devices that answer CRS at first")


def inside(lo, hi, b, n):
    return lo <= b and b + n - 1 <= hi


async def verify(rc, nodes, c, info):
    # --- discovery
    tree_devs = {}

    def walk(bus):
        for d in bus.devices:
            check(d.pcie_id not in tree_devs, "two tree entries have id %s", d.pcie_id)
            tree_devs[d.pcie_id] = d
            check(d.bus is bus and d.bus_num == bus.bus_num, "device %s listed on bus %d", d.pcie_id, bus.bus_num)
        for ch in bus.children:
            walk(ch)
    walk(rc.host_bridge.bus)
    ids = [n["fn"].pcie_id for n in nodes]
    check(len(set(ids)) == len(ids), "functions share an id: %s", sorted(map(str, ids)))
    check(set(ids) == set(tree_devs), "functions %s, found %s", sorted(map(str, ids)), sorted(map(str, tree_devs)))
    # --- buses
    buses = {}
    for n in nodes:
        fn, par = n["fn"], n["parent"]
        expect_bus = par["fn"].sec_bus_num if par else 0
        check(fn.pcie_id.bus == expect_bus, "%s at %s: should be on bus %d", n["kind"], fn.pcie_id, expect_bus)
        dev = rc.find_device(fn.pcie_id)
        check(dev is tree_devs[fn.pcie_id], "find_device(%s) returns %r", fn.pcie_id, dev)
        n["dev"] = dev
        if n["kind"] != "ep":
            check(fn.pri_bus_num == fn.pcie_id.bus, "%s primary bus %d", fn.pcie_id, fn.pri_bus_num)
            check(fn.pri_bus_num < fn.sec_bus_num <= fn.sub_bus_num, "%s buses %d %d %d", fn.pcie_id, fn.pri_bus_num, fn.sec_bus_num, fn.sub_bus_num)
            check(fn.sec_bus_num not in buses, "bus %d used twice", fn.sec_bus_num)
            buses[fn.sec_bus_num] = n
            if par:
                check(par["fn"].sec_bus_num < fn.sec_bus_num and fn.sub_bus_num <= par["fn"].sub_bus_num, "bus range of %s not inside its parent's", fn.pcie_id)
            check(dev.is_bridge() and dev.subordinate is not None and dev.subordinate.bus_num == fn.sec_bus_num, "tree entry of bridge %s", fn.pcie_id)
            check(fn.bridge_serr_enable, "%s: SERR forwarding not enabled", fn.pcie_id)
        else:
            check(not dev.is_bridge(), "%s is listed as a bridge", fn.pcie_id)
        up = dev.upstream_bridge()
        check((up is None) == (par is None) and (par is None or up is par["dev"]), "upstream bridge of %s", fn.pcie_id)
        if n["kind"] == "rp":
            check(fn.pcie_cap.crs_software_visibility_enable, "%s: CRS software visibility not enabled", fn.pcie_id)
    for n in nodes:
        if n["kind"] != "ep":
            for m in nodes:
                if m is n or m["kind"] == "ep" or m["parent"] is not n["parent"]:
                    continue
                check(m["fn"].sub_bus_num < n["fn"].sec_bus_num or n["fn"].sub_bus_num < m["fn"].sec_bus_num, "bus ranges of %s and %s overlap", n["fn"].pcie_id, m["fn"].pcie_id)
    # --- identity
    for n in nodes:
        fn, dev = n["fn"], n["dev"]
        for a in ("vendor_id", "device_id", "class_code", "revision_id"):
            check(getattr(dev, a) == getattr(fn, a), "%s: %s %x, device has %x", fn.pcie_id, a, getattr(dev, a), getattr(fn, a))
        if n["kind"] == "ep":
            check((dev.subsystem_vendor_id, dev.subsystem_id) == (fn.subsystem_vendor_id, fn.subsystem_id), "%s subsystem ids", fn.pcie_id)
        check(dev.multifunction == bool(fn.multifunction_device), "%s multifunction", fn.pcie_id)
        want = [(x.cap_id, x.offset * 4) for x in fn.capabilities.list]
        check([tuple(x) for x in dev.capabilities] == want, "%s capabilities %r, registered %r", fn.pcie_id, dev.capabilities, want)
        mps = fn.pcie_cap.max_payload_size
        check(mps <= fn.pcie_cap.max_payload_size_supported, "%s: MPS %d above the supported %d", fn.pcie_id, mps, fn.pcie_cap.max_payload_size_supported)
        check(await dev.get_mps() == mps, "get_mps(%s)", fn.pcie_id)
        kids = [m["fn"].pcie_cap.max_payload_size_supported for m in nodes if m["parent"] is n]
        sup = fn.pcie_cap.max_payload_size_supported
        if n["kind"] == "rp":
            want = min([c["mps"], sup] + kids)
            check(mps == want, "%s: MPS of the root port is %d; the host asks for %d, it supports %d and what is below it %r", fn.pcie_id, mps, c["mps"], sup, kids)
        elif n["parent"]:
            want = min(sup, n["parent"]["fn"].pcie_cap.max_payload_size)
            sib = [m for m in nodes if m["parent"] is n["parent"]]
            check(mps == want or (len(sib) > 1 and n["parent"]["kind"] == "rp" and want < mps <= min(c["mps"], sup)), "%s: MPS %d, supports %d, port above %d", fn.pcie_id, mps, sup, n["parent"]["fn"].pcie_cap.max_payload_size)
        ptr = min((x.offset for x in fn.ext_capabilities.list), default=None)
        want = sorted((x.offset * 4, x.cap_id) for x in fn.ext_capabilities.list) if ptr == 0x40 else []
        check([(b, a) for a, b in dev.ext_capabilities] == want, "%s extended capabilities %r, registered %r", fn.pcie_id, dev.ext_capabilities, want)
        if n["kind"] == "ep":
            check(bool(fn.pcie_cap.extended_tag_field_enable) == n["d"]["etag"], "%s: extended tags %r", fn.pcie_id, fn.pcie_cap.extended_tag_field_enable)
    # --- windows and BARs
    await resources(rc, nodes, info)
    # probing again changes nothing
    before = [(list(n["fn"].bar), n["fn"].expansion_rom_addr) for n in nodes]
    sizes = [list(n["dev"].bar_size) for n in nodes]
    for n in nodes:
        await n["dev"].read_bars(*((6, 0x30) if n["kind"] == "ep" else (2, 0x38)))
    check(before == [(list(n["fn"].bar), n["fn"].expansion_rom_addr) for n in nodes], "probing the BARs again changed them: %r", 
          [(str(n["fn"].pcie_id), [hex(x) for x in b[0]], [hex(x) for x in n["fn"].bar]) for n, b in zip(nodes, before) if b[0] != list(n["fn"].bar)][:1])
    check(sizes == [list(n["dev"].bar_size) for n in nodes], "probing the BARs again finds other sizes")
    info["slow"] = sum(getattr(n["fn"], "ready_us", 0) > 0 for n in nodes)
    info["nodes"] = len(nodes)
    info["bridges"] = sum(n["kind"] != "ep" for n in nodes)


def windows(fn):
    return {"io": [(fn.io_base, fn.io_limit)], "mem": [(fn.mem_base, fn.mem_limit), (fn.prefetchable_mem_base, fn.prefetchable_mem_limit)]}


async def resources(rc, nodes, info):
    allb = []
    for n in nodes:
        fn, dev = n["fn"], n["dev"]
        n["bars"] = bar_regs(fn, n["d"])
        for idx, space, base, size, kind in n["bars"]:
            check(base % size == 0, "%s BAR%s at %#x is not aligned to its size %#x", fn.pcie_id, idx, base, size)
            check(base > 0, "%s BAR%s was not assigned", fn.pcie_id, idx)
            allb.append((space, base, size, n, idx, kind))
            if idx == "rom":
                got = (dev.expansion_rom_addr, dev.expansion_rom_size, dev.expansion_rom_window)
            else:
                got = (dev.bar_addr[idx], dev.bar_size[idx], dev.bar_window[idx])
            check(got[:2] == (base, size), "%s BAR%s is at %#x size %#x, tree says %r", fn.pcie_id, idx, base, size, got[:2])
            check(got[2].size == size and got[2].get_absolute_address(0) == base, "%s BAR%s window", fn.pcie_id, idx)
        known = {b[0] for b in n["bars"]}
        for i in range(len(fn.bar)):
            if i not in known:
                check(dev.bar_window[i] is None and not dev.bar_size[i], "%s: BAR%d is not implemented but has size %r", fn.pcie_id, i, dev.bar_size[i])
        if not n["d"]["rom"]:
            check(dev.expansion_rom_window is None, "%s: ROM window without a ROM", fn.pcie_id)
    for k, (space, base, size, n, idx, kind) in enumerate(allb):
        for space2, base2, size2, n2, idx2, kind2 in allb[k + 1:]:
            check(space != space2 or base + size <= base2 or base2 + size2 <= base, "%s BAR%s %#x+%#x overlaps %s BAR%s %#x+%#x",
                  n["fn"].pcie_id, idx, base, size, n2["fn"].pcie_id, idx2, base2, size2)
        # every bridge above forwards the whole BAR, no other bridge any of it
        above, p = [], n["parent"]
        while p:
            above.append(p)
            p = p["parent"]
        for m in nodes:
            if m["kind"] == "ep":
                continue
            w = windows(m["fn"])[space]
            if any(m is a for a in above):
                check(any(inside(lo, hi, base, size) for lo, hi in w), "%s BAR%s %#x+%#x is outside the windows of %s above it: %r",
                      n["fn"].pcie_id, idx, base, size, m["fn"].pcie_id, [(hex(a), hex(b)) for a, b in w])
            else:
                check(not any(lo <= base + size - 1 and base <= hi for lo, hi in w), "%s BAR%s %#x+%#x is inside a window of %s, which is not above it: %r",
                      n["fn"].pcie_id, idx, base, size, m["fn"].pcie_id, [(hex(a), hex(b)) for a, b in w])
        # the BAR claims its addresses and no other function of the device does
        if idx != "rom":
            for off in (0, size - 1, size // 2):
                for m in nodes:
                    hit = m["fn"].match_bar(base + off, space == "io")
                    want = (idx, off) if m is n else None
                    check(hit == want, "%#x in %s BAR%s: match_bar of %s gives %r", base + off, n["fn"].pcie_id, idx, m["fn"].pcie_id, hit)
            for out in (base - 1, base + size):
                hit = n["fn"].match_bar(out, space == "io")
                check(hit is None or hit[0] != idx, "%#x just outside %s BAR%s: match_bar gives %r", out, n["fn"].pcie_id, idx, hit)
    # sibling windows are disjoint and nested in the parent's
    brs = [n for n in nodes if n["kind"] != "ep"]
    for n in brs:
        for space, w in windows(n["fn"]).items():
            for i, (lo, hi) in enumerate(w):
                if lo > hi:
                    continue
                if n["parent"]:
                    plo, phi = windows(n["parent"]["fn"])[space][i]
                    check(plo <= lo and hi <= phi, "%s window %#x-%#x outside its parent's %#x-%#x", n["fn"].pcie_id, lo, hi, plo, phi)
                for m in brs:
                    if m is not n and m["parent"] is n["parent"]:
                        lo2, hi2 = windows(m["fn"])[space][i]
                        check(lo2 > hi2 or hi < lo2 or hi2 < lo, "windows %#x-%#x of %s and %#x-%#x of %s overlap", lo, hi, n["fn"].pcie_id, lo2, hi2, m["fn"].pcie_id)
    info["bars"] = len(allb)


PARTS = [
    Part("tree", tree, run, 240, 12000, "whole hierarchies enumerated, all registers inspected; non-trivial with three functions and one BAR"),
    Part("wide", wide(), run, 24, 600, "a bus with 28 to 31 devices; non-trivial with three functions and one BAR"),
]
