"""P32: the host's device operations do exactly what they say to the device and the bridges above it."""
import hypothesis.strategies as st
import simcore
import topo
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P32"
ASSUMPTIONS = ["a device is disabled no more often than it was enabled", "nobody else writes the command register while an operation runs"]

OPS = ["enable", "enable", "enable", "disable", "master", "clear", "master0", "readrq", "mps", "readrq_bad", "mps_bad", "cmd", "ctl", "get", "sts", "sts"]
op = st.fixed_dictionaries({"d": st.integers(0, 30), "k": st.sampled_from(OPS), "v": st.integers(0, 0xffff)})
case = st.fixed_dictionaries({"rc": topo.rc_cfg, "nodes": topo.tree(max_eps=3, depth=2, max_f=2, max_bars=2), "ops": many(op, 1, 25)})
SETTABLE = 1 << 6 | 1 << 8 | 1 << 10        # command bits no operation is about: parity response, SERR, interrupt disable
# status bits that show events; they stay until software writes a one, which none of the operations does
DEVSTA = [("correctable_error_detected", 1), ("nonfatal_error_detected", 2), ("fatal_error_detected", 4), ("unsupported_request_detected", 8),
          ("emergency_power_reduction_detected", 64)]
STATUS = [("master_data_parity_error", 1 << 8), ("signaled_target_abort", 1 << 11), ("received_target_abort", 1 << 12), ("received_master_abort", 1 << 13),
          ("signaled_system_error", 1 << 14), ("detected_parity_error", 1 << 15)]
CTL = 0x1f                                  # device control bits no operation is about: error reporting, relaxed ordering


class Dev:
    """Model of one function as the host knows it."""

    def __init__(self, fn, pci, parent):
        self.fn, self.pci, self.parent = fn, pci, parent
        self.count = 0
        self.master = False
        self.decode = False
        self.other = 0
        self.sts = self.devsta = 0

    def up(self):
        """What happens to a bridge when something below it is enabled."""
        if self.parent:
            self.parent.up()
        if self.count == 0:
            self.enable()
        self.master = True

    def enable(self):
        self.count += 1
        if self.count == 1:
            if self.parent:
                self.parent.up()
            self.decode = True

    def disable(self):
        self.count -= 1
        if self.count == 0:
            self.master = False

    def command(self):
        return self.decode * 3 | self.master << 2 | self.other


def run(c, ctx):
    info = {"n": 0, "up": 0}

    async def main():
        b = topo.Built(c["rc"], c["nodes"])
        await b.enumerate()
        fns = [f for f, _ in b.funcs] + b.ports + [s.upstream_bridge for s in b.switches]
        known = {}

        def dev(pci):
            if pci.pcie_id not in known:
                up = pci.upstream_bridge()
                fn = [f for f in fns if f.pcie_id == pci.pcie_id]
                check(len(fn) == 1, "%s is %d functions", pci.pcie_id, len(fn))
                known[pci.pcie_id] = Dev(fn[0], pci, dev(up) if up else None)
            return known[pci.pcie_id]
        devs = [dev(b.pci(f)) for f in fns]
        for d in devs:
            cmd = await d.pci.config_read_word(4)
            d.decode, d.master, d.other = bool(cmd & 3), bool(cmd & 4), cmd & SETTABLE
            check(not d.master, "%s is bus master after enumeration", d.pci.pcie_id)
            d.ctl = await d.pci.config_read_word(d.fn.pcie_cap.offset * 4 + 8)
            d.sts = sum(m for a, m in STATUS if getattr(d.fn, a))
        for i, o in enumerate(c["ops"]):
            d = devs[o["d"] % len(devs)]
            k, v = o["k"], o["v"]
            p = d.pci
            err = None
            want_err = False
            try:
                if k == "enable":
                    info["up"] += d.parent is not None and d.count == 0
                    d.enable()
                    await p.enable_device()
                elif k == "disable":
                    if not d.count:
                        continue
                    d.disable()
                    await p.disable_device()
                elif k == "master":
                    d.master = True
                    await p.set_master()
                elif k == "master0":
                    d.master = bool(v & 1)
                    await p.set_master(bool(v & 1))
                elif k == "clear":
                    d.master = False
                    await p.clear_master()
                elif k == "readrq":
                    d.ctl = d.ctl & ~0x7000 | v % 6 << 12
                    await p.set_readrq(v % 6)
                elif k == "mps":
                    v %= d.fn.pcie_cap.max_payload_size_supported + 1
                    d.ctl = d.ctl & ~0xe0 | v << 5
                    await p.set_mps(v)
                elif k == "readrq_bad":
                    want_err = True
                    await p.set_readrq([-1, 6, 7, 128, 512][v % 5])
                elif k == "mps_bad":
                    want_err = True
                    await p.set_mps([-1, 6, 7, 128, d.fn.pcie_cap.max_payload_size_supported + 1][v % 5])
                elif k == "cmd":
                    # a driver's own setting, which must survive
                    d.other = v & SETTABLE
                    await p.config_write_word(4, d.command())
                elif k == "ctl":
                    d.ctl = d.ctl & ~CTL | v & CTL
                    await p.config_write_word(d.fn.pcie_cap.offset * 4 + 8, d.ctl)
                elif k == "sts":
                    # events happen meanwhile
                    for a, m in DEVSTA:
                        if v & m:
                            setattr(d.fn.pcie_cap, a, True)
                            d.devsta |= m
                    for a, m in STATUS:
                        if v & m:
                            setattr(d.fn, a, True)
                            d.sts |= m
            except ValueError as e:
                err = e
            check(bool(err) == want_err, "%s(%d) on %s: %r", k, v, p.pcie_id, err)
            info["n"] += 1
            for x in devs:
                cmd = (await x.fn.read_config_register(1)) & 0xffff
                check(cmd == x.command(), "after %s of %s: command register of %s %s is %#x instead of %#x", k, p.pcie_id, type(x.fn).__name__, x.pci.pcie_id, cmd, x.command())
                check((x.pci.is_enabled(), bool(x.pci.is_busmaster)) == (x.count > 0, x.master), "after %s of %s: %s says enabled %r, bus master %r instead of %r", k, p.pcie_id,
                      x.pci.pcie_id, x.pci.is_enabled(), x.pci.is_busmaster, (x.count > 0, x.master))
                check(bool(x.fn.bus_master_enable) == x.master and bool(x.fn.memory_space_enable) == x.decode and bool(x.fn.io_space_enable) == x.decode,
                      "after %s of %s: attributes of %s differ from its command register", k, p.pcie_id, x.pci.pcie_id)
                ctl = await x.fn.read_config_register(x.fn.pcie_cap.offset + 2)
                sts = (ctl >> 16, (await x.fn.read_config_register(1)) >> 16)
                ctl &= 0xffff
                check(ctl == x.ctl, "after %s of %s: device control of %s is %#x instead of %#x", k, p.pcie_id, x.pci.pcie_id, ctl, x.ctl)
                for nm, bits, val, want in (("device status", DEVSTA, sts[0], x.devsta), ("status", STATUS, sts[1], x.sts)):
                    msk = sum(m for _, m in bits)
                    check(val & msk == want, "after %s of %s: %s bits of %s are %#x instead of %#x", k, p.pcie_id, nm, x.pci.pcie_id, val & msk, want)
            check((await p.get_readrq(), await p.get_mps()) == (d.ctl >> 12 & 7, d.ctl >> 5 & 7), "get_readrq/get_mps of %s", p.pcie_id)
    simcore.run(main)
    ctx.nontrivial(info["n"] > 3 and info["up"] > 0)


PARTS = [
    Part("control", case, run, 300, 12000, "histories of enable, disable, bus master, read request and payload size operations on the functions and bridges of generated "
         "topologies; non-trivial with more than three operations, one of them enabling a device below a bridge"),
]
