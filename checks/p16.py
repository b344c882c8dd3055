"""P16: configuration space accesses follow the header access rules."""
import hypothesis.strategies as st
import simcore  # noqa: F401
from cocotbext.pcie.core import RootComplex, Device, MemoryEndpoint, Switch
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.caps.common import PciExtCap
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.utils import PcieId
import topo
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P16"
ASSUMPTIONS = ["attributes hold values that fit their field", "start BIST is only looked at on functions that are BIST capable"]

STATUS = {"master_data_parity_error": 24, "signaled_target_abort": 27, "received_target_abort": 28, "received_master_abort": 29, "signaled_system_error": 30, "detected_parity_error": 31}
SEC = {"sec_master_data_parity_error": 24, "sec_signaled_target_abort": 27, "sec_received_target_abort": 28, "sec_received_master_abort": 29,
       "sec_received_system_error": 30, "sec_detected_parity_error": 31}

u8, u16, u32 = st.integers(0, 255), st.integers(0, 0xffff), st.integers(0, 0xffffffff)
word = st.one_of(u32, st.sampled_from([0, 0xffffffff]), st.integers(0, 31).map(lambda b: 1 << b), st.integers(0, 31).map(lambda b: 0xffffffff ^ 1 << b))
mask = st.one_of(st.integers(1, 15), st.just(15))
ident = st.fixed_dictionaries({"vid": u16, "did": u16, "rev": u8, "cls": st.integers(0, 0xffffff), "sv": u16, "sd": u16, "pin": u8, "lat": u8, "bist": st.booleans(),
                               "bcc": st.integers(0, 15), "multi": st.booleans(), "ints": st.booleans()})
ops = many(mix(
    st.tuples(st.just("w"), st.integers(0, 15), word, mask),
    st.tuples(st.just("w"), st.sampled_from([1, 3, 4, 5, 6, 7, 8, 9, 12, 15]), word, mask),
    st.tuples(st.just("ev"), st.integers(0, 11))).map(list), 0, 25)
case = st.fixed_dictionaries({"bridge": st.booleans(), "id": ident, "bars": topo.bar_list(max_bars=6, mem_log=(4, 31), io_log=(2, 16)), "rom": st.sampled_from([0, 0, 11, 14, 24]), "ops": ops})


def bars_for(c):
    n, out, used = 2 if c["bridge"] else 6, [], 0
    for kind, log in c["bars"]:
        need = 2 if kind.endswith("64") else 1
        if used + need > n:
            break
        out.append((used, kind, log))
        used += need
    return out


def run(c, ctx):
    simcore.run(lambda: direct(c, ctx))


async def direct(c, ctx):
    br = c["bridge"]
    f = Bridge() if br else Endpoint()
    i = c["id"]
    f.vendor_id, f.device_id, f.revision_id, f.class_code = i["vid"], i["did"], i["rev"], i["cls"]
    f.subsystem_vendor_id, f.subsystem_id = i["sv"], i["sd"]
    f.interrupt_pin, f.latency_timer = i["pin"], i["lat"]
    f.bist_capable, f.bist_completion_code, f.multifunction_device, f.interrupt_status = i["bist"], i["bcc"], i["multi"], i["ints"]
    rw, w1c, val = [0] * 16, [0] * 16, [0] * 16
    loose = [0] * 16
    val[0] = i["vid"] | i["did"] << 16
    rw[1] = 0x547
    rw[1] = 1 << 0 | 1 << 1 | 1 << 2 | 1 << 6 | 1 << 8 | 1 << 10
    w1c[1] = sum(1 << b for b in STATUS.values())
    val[1] = i["ints"] << 19 | 1 << 20
    val[2] = i["rev"] | i["cls"] << 8
    rw[3] = 0xff
    val[3] = i["lat"] << 8 | (1 if br else 0) << 16 | i["multi"] << 23 | i["bcc"] << 24 | i["bist"] << 31
    if i["bist"]:
        rw[3] |= 1 << 30
    else:
        loose[3] |= 1 << 30
    for k, kind, log in bars_for(c):
        f.configure_bar(k, 1 << log, ext=kind.endswith("64"), prefetch=kind.startswith("p"), io=kind == "io")
        val[4 + k] = {"m32": 0, "p32": 8, "m64": 4, "p64": 12, "io": 1}[kind]
        m = (1 << 64) - (1 << log)
        rw[4 + k] = m & 0xffffffff
        if kind.endswith("64"):
            rw[5 + k] = m >> 32
    rom = 14 if br else 12
    if c["rom"]:
        f.expansion_rom_addr_mask = 0x100000000 - (1 << c["rom"])
        rw[rom] = f.expansion_rom_addr_mask | 1
    if br:
        f.sec_lat_timer = i["lat"]
        rw[6], val[6] = 0xffffff, i["lat"] << 24
        rw[7], val[7] = 0xf0f0, 0x0101
        w1c[7] = sum(1 << b for b in SEC.values())
        rw[8] = rw[9] = 0xfff0fff0
        val[9] = 0x00010001
        rw[10] = rw[11] = rw[12] = 0xffffffff
        rw[15], val[15] = 0xff | 1 << 16 | 1 << 17 | 1 << 22, i["pin"] << 8
    else:
        val[11] = i["sv"] | i["sd"] << 16
        rw[15], val[15] = 0xff, i["pin"] << 8
    val[13] = f.capabilities_ptr

    async def compare(what):
        for r in range(16):
            got = await f.read_config_register(r)
            check((got ^ val[r]) & ~loose[r] == 0, "type %d header register %#x (%s) reads %08x, expected %08x", br, r * 4, what, got, val[r])
        cmd = val[1]
        for a, b in (("io_space_enable", 0), ("memory_space_enable", 1), ("bus_master_enable", 2), ("parity_error_response_enable", 6), ("serr_enable", 8), ("interrupt_disable", 10)):
            check(bool(getattr(f, a)) == bool(cmd >> b & 1), "%s is %r after %s, command register is %04x", a, getattr(f, a), what, cmd & 0xffff)
        if br:
            check((f.pri_bus_num, f.sec_bus_num, f.sub_bus_num) == (val[6] & 255, val[6] >> 8 & 255, val[6] >> 16 & 255), "bus numbers after %s", what)
            iob = (val[7] & 0xf0) << 8 | (val[12] & 0xffff) << 16
            iol = (val[7] & 0xf000) | (val[12] & 0xffff0000) | 0xfff
            mb, ml = (val[8] & 0xfff0) << 16, val[8] & 0xfff00000 | 0xfffff
            pb, pl = (val[9] & 0xfff0) << 16 | val[10] << 32, val[9] & 0xfff00000 | val[11] << 32 | 0xfffff
            want = (iob, iol, mb, ml, pb, pl)
            got = (f.io_base, f.io_limit, f.mem_base, f.mem_limit, f.prefetchable_mem_base, f.prefetchable_mem_limit)
            check(got == want, "windows after %s are %r, registers say %r", what, [hex(x) for x in got], [hex(x) for x in want])
    await compare("reset")
    changed = 0
    for o in c["ops"]:
        if o[0] == "ev":
            names = list(STATUS.items()) + (list(SEC.items()) if br else [])
            a, b = names[o[1] % len(names)]
            setattr(f, a, True)
            val[1 if o[1] % len(names) < 6 else 7] |= 1 << b
            continue
        _, r, data, m = o
        bm = sum(0xff << 8 * k for k in range(4) if m >> k & 1)
        await f.write_config_register(r, data, m)
        old = val[r]
        val[r] = (old & ~(rw[r] & bm) | data & rw[r] & bm) & ~(data & w1c[r] & bm)
        changed += old != val[r]
        await compare("writing %08x mask %x to %#x" % (data, m, r * 4))
    ctx.nontrivial(changed > 1)
    ctx.label("type %d" % br)


# ---------------------------------------------------------------- through configuration requests

acc = st.tuples(st.integers(0, 9), st.sampled_from(["r", "w", "w"]), st.one_of(st.integers(0, 0x5f), st.integers(0, 0xff), st.integers(0, 0xfff), st.integers(0x100, 0xfff)), st.integers(1, 20), u32).map(list)
sys_case = st.fixed_dictionaries({"sw": st.booleans(), "nums": st.sets(st.integers(1, 7), max_size=3).map(sorted), "bars": topo.bar_list(max_bars=6, mem_log=(4, 16)),
                                  "acc": many(acc, 1, 14), "store": st.sampled_from([0, 20, 960])})


class Store(PciExtCap):
    """Extended capability with plain registers."""

    def __init__(self, length):
        super().__init__()
        self.cap_id, self.length, self.cap_ver, self.mem = 0x1f, length, 1, [0] * length

    async def _read_register(self, reg):
        return self.mem[reg]

    async def _write_register(self, reg, data, mask):
        bm = sum(0xff << 8 * i for i in range(4) if mask >> i & 1)
        self.mem[reg] = self.mem[reg] & ~bm | data & bm


def make_fn(c, num):
    f = MemoryEndpoint()
    f.pcie_id = PcieId(0, 0, num)
    f.vendor_id, f.device_id = 0x1200 + num, 0x3400 + num
    for kind, log in c["bars"]:
        f.add_region(1 << log, ext=kind.endswith("64"), prefetch=kind.startswith("p"), io=kind == "io")
    if c["store"]:
        f.register_extended_capability(Store(c["store"]))
    return f


def run_sys(c, ctx):
    simcore.run(lambda: through(c, ctx))


async def through(c, ctx):
    rc = RootComplex()
    top = rc.make_port()
    if c["sw"]:
        sw = Switch()
        top.connect(sw)
        top = sw.make_port()
    dev = Device()
    nums = [0] + c["nums"]
    fs = [dev.add_function(make_fn(c, n)) for n in nums]
    top.connect(dev)
    await rc.enumerate()
    bus = fs[0].pcie_id.bus
    # twins: same objects never attached to a link, driven register by register
    twins = []
    for f in fs:
        t = make_fn(c, f.function_num)
        t.multifunction_device = f.multifunction_device
        for r in range(1024):
            v = await f.read_config_register(r)
            if r not in (1,):
                await t.write_config_register(r, v, 15)
        t.pcie_id = f.pcie_id
        await t.write_config_register(1, (await f.read_config_register(1)) & 0xffff, 15)
        twins.append(t)

    async def dump(f):
        return b"".join([(await f.read_config_register(r)).to_bytes(4, "little") for r in range(1024)])
    for f, t in zip(fs, twins):
        a, b = await dump(f), await dump(t)
        check(a == b, "function %s: registers written back do not restore the same state", f.pcie_id)

    async def one(k, who, kind, addr, ln, v):
        ln = min(ln, 4096 - addr)
        n = who % (len(fs) + 2)
        if n >= len(fs):
            # nobody there
            free = [x for x in range(8) if x not in nums]
            pid = PcieId(bus, 0, free[v % len(free)]) if n == len(fs) and free else PcieId(bus, 1 + v % 31, 0) if n == len(fs) else PcieId(200, 0, 0)
            if kind == "r":
                got = await rc.config_read(pid, addr, ln)
                check(bytes(got) == b"\xff" * ln, "config_read of missing function %s returns %s", pid, bytes(got).hex())
            else:
                await rc.config_write(pid, addr, bytes((v >> 8 * (j % 4)) & 255 for j in range(ln)))
            return
        f, t = fs[n], twins[n]
        if kind == "r":
            want = (await dump(t))[addr:addr + ln]
            got = await rc.config_read(f.pcie_id, addr, ln)
            check(bytes(got) == want, "config_read(%s, %#x, %d) returns %s, expected %s", f.pcie_id, addr, ln, bytes(got).hex(), want.hex())
        else:
            data = bytes((v >> 8 * (j % 4)) & 255 for j in range(ln))
            for r in range(addr // 4, (addr + ln - 1) // 4 + 1):
                m = w = 0
                for b in range(4):
                    j = r * 4 + b - addr
                    if 0 <= j < ln:
                        m |= 1 << b
                        w |= data[j] << 8 * b
                await t.write_config_register(r, w, m)
            await rc.config_write(f.pcie_id, addr, data)
    for k, a in enumerate(c["acc"]):
        await one(k, *a)
        for f, t in zip(fs, twins):
            x, y = await dump(f), await dump(t)
            if x != y:
                d = [j for j in range(4096) if x[j] != y[j]][0]
                check(False, "after %r function %s byte %#x is %02x, expected %02x", a, f.pcie_id, d, x[d], y[d])
    ctx.nontrivial(len(c["acc"]) >= 2)


PARTS = [
    Part("header", case, run, 8000, 250000, "status events and byte-masked writes to type 0 and type 1 headers; non-trivial when two writes change a register"),
    Part("requests", sys_case, run_sys, 250, 8000, "configuration reads and writes of any byte range to present and missing functions; non-trivial with two accesses"),
]
