"""P25: Xilinx configuration interfaces: management port, status outputs, interrupts and flow-control outputs follow the function's registers and the link."""
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
import xdev
import linkbench as lb
from tlpgen import mix
from xdesc import spec
from cocotb.triggers import Timer, RisingEdge
from cocotbext.pcie.core.tlp import Tlp, TlpType, CplStatus
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.core.caps import PciExtCap
from runner import Part, check

PROPERTY = "P25"
ASSUMPTIONS = ["one interrupt request at a time, one bit set, for a function whose interrupts and bus mastering are enabled, as the core's guide asks",
               "legacy interrupts, messages, extended configuration and power management outputs are not implemented by the library",
               "the link status fields are set by the harness (the library does not train links)"]

COMMON = {"cfg_mgmt_write": 1, "cfg_mgmt_write_data": 32, "cfg_mgmt_byte_enable": 4, "cfg_mgmt_read": 1, "cfg_mgmt_read_data": 32, "cfg_mgmt_read_write_done": 1,
          "cfg_phy_link_down": 1, "cfg_max_read_req": 3, "cfg_max_payload": 3, "cfg_function_status": 16, "cfg_rcb_status": 4,
          "cfg_fc_ph": 8, "cfg_fc_pd": 12, "cfg_fc_nph": 8, "cfg_fc_npd": 12, "cfg_fc_cplh": 8, "cfg_fc_cpld": 12, "cfg_fc_sel": 3,
          "cfg_interrupt_msi_enable": 4, "cfg_interrupt_msi_mmenable": 12, "cfg_interrupt_msi_data": 32, "cfg_interrupt_msi_int": 32, "cfg_interrupt_msi_pending_status": 32,
          "cfg_interrupt_msi_pending_status_data_enable": 1, "cfg_interrupt_msi_sent": 1, "cfg_interrupt_msi_fail": 1, "cfg_interrupt_msix_address": 64,
          "cfg_interrupt_msix_data": 32, "cfg_interrupt_msix_int": 1, "cfg_interrupt_msix_sent": 1, "cfg_interrupt_msix_fail": 1, "cfg_interrupt_msi_attr": 3}
US = {"cfg_mgmt_addr": 19, "cfg_negotiated_width": 4, "cfg_current_speed": 3, "cfg_local_error": 1, "cfg_interrupt_msi_select": 4,
      "cfg_interrupt_msi_pending_status_function_num": 4, "cfg_interrupt_msix_enable": 2, "cfg_interrupt_msix_mask": 2, "cfg_interrupt_msi_function_number": 4}
USP = {"cfg_mgmt_addr": 10, "cfg_mgmt_function_number": 8, "cfg_negotiated_width": 3, "cfg_current_speed": 2, "cfg_local_error_out": 5, "cfg_local_error_valid": 1, "cfg_bus_number": 8,
       "cfg_interrupt_msi_select": 2, "cfg_interrupt_msi_pending_status_function_num": 2, "cfg_interrupt_msix_enable": 4, "cfg_interrupt_msix_mask": 4, "cfg_interrupt_msi_function_number": 8}
IN = ["cfg_mgmt_addr", "cfg_mgmt_function_number", "cfg_mgmt_write", "cfg_mgmt_write_data", "cfg_mgmt_byte_enable", "cfg_mgmt_read", "cfg_fc_sel", "cfg_interrupt_msi_int", "cfg_interrupt_msi_pending_status",
      "cfg_interrupt_msi_pending_status_data_enable", "cfg_interrupt_msix_address", "cfg_interrupt_msix_data", "cfg_interrupt_msix_int", "cfg_interrupt_msi_attr", "cfg_interrupt_msi_select",
      "cfg_interrupt_msi_pending_status_function_num", "cfg_interrupt_msi_function_number"]

# fields a register write can change, by name of the register
RW = {"command": 0x0547, "intline": 0xff, "msi0": 0x0071_0000, "msi1": 0xffff_fffc, "msi2": 0xffff_ffff, "msi3": 0xffff, "msi4": 0xffff_ffff, "msix0": 0xc000_0000, "dev": 0x70e0, "link": 0x8,
      "ext1": 0xffff_ffff, "ext2": 0xffff_ffff, "ext3": 0xffff_ffff}       # plain registers at the start, in the middle and at the end of an extended capability

fn = st.integers(0, 3)
be = st.sampled_from([15, 15, 15, 3, 12, 4, 8, 1, 2, 5, 0])
val = st.one_of(st.integers(0, 0xffffffff), st.sampled_from([0xffffffff, 0x00010000, 0x80000000, 0x00510006]))
REGS = sorted(RW)
op = mix(*[st.fixed_dictionaries({"op": st.just("write"), "fn": fn, "reg": st.sampled_from(REGS), "v": val, "be": be, "mgmt": st.booleans(), "gap": st.integers(0, 3)})] * 5,
         *[st.fixed_dictionaries({"op": st.just("read"), "fn": fn, "reg": st.sampled_from(REGS + ["id", "devcap"]), "mgmt": st.booleans(), "gap": st.integers(0, 2)})] * 2,
         *[st.fixed_dictionaries({"op": st.just("msi"), "fn": fn, "bit": st.integers(0, 31), "attr": st.integers(0, 7), "set": st.booleans(), "mm": st.integers(0, 5), "addr": st.one_of(st.integers(0, (1 << 62) - 1), st.integers(0, (1 << 30) - 1)), "data": st.integers(0, 0xffff)})] * 4,
         *[st.fixed_dictionaries({"op": st.just("msix"), "fn": fn, "attr": st.integers(0, 7), "addr": st.one_of(st.integers(0, (1 << 62) - 1), st.integers(0, (1 << 30) - 1)), "data": st.integers(0, 0xffffffff)})] * 3,
         st.fixed_dictionaries({"op": st.just("pending"), "fn": fn, "v": st.integers(0, 0xffffffff)}),
         st.fixed_dictionaries({"op": st.just("mask"), "sel": st.integers(0, 15)}),
         st.fixed_dictionaries({"op": st.just("link"), "width": st.sampled_from([1, 2, 4, 8, 16]), "speed": st.integers(1, 4)}),
         st.fixed_dictionaries({"op": st.just("internal"), "reg": st.integers(0, 1023), "w": st.booleans(), "v": val}),
         st.fixed_dictionaries({"op": st.just("posted"), "n": st.sampled_from([1, 3, 70, 300]), "dw": st.sampled_from([1, 4, 5, 64])}),
         st.fixed_dictionaries({"op": st.just("credits"), "sel": st.integers(0, 7)}),
         st.fixed_dictionaries({"op": st.just("bus"), "v": st.integers(0, 255)}),
         st.fixed_dictionaries({"op": st.just("check")}))


@st.composite
def cases(draw):
    c = draw(xdev.config())
    c.update(ops=draw(tlpgen.many(op, 3, 40)), msi=draw(st.lists(st.sampled_from([0, 1, 2, 3, 4, 8, 16, 31, 32]), min_size=4, max_size=4)), msix=draw(st.lists(st.integers(0, 0x7ff) | st.just(-1), min_size=4, max_size=4)),
             pvm=draw(st.booleans()), grant=draw(st.sampled_from([[0] * 6, [100, 1000, 127, 500, 127, 2000], [127, 2047, 0, 0, 0, 0], [0, 1500, 90, 0, 100, 0]])), flood=draw(st.sampled_from([0, 0, 40, 80, 300])), fill=draw(st.one_of(st.none(), st.tuples(st.sampled_from([28, 60, 124, 28, 60, 1, 13, 127, 128]), st.sampled_from([0, 0, 1, -1, 3])))))
    c["opt"] = False
    c["ext"] = [draw(st.sampled_from([0, 4, 100, 500, 800])) for _ in range(4)]
    return c


class Store(PciExtCap):
    """Extended capability with plain registers."""

    def __init__(self, length):
        super().__init__()
        self.cap_id, self.length, self.cap_ver, self.mem = 0x1f, length, 1, [0] * length

    async def _read_register(self, reg):
        return self.mem[reg]

    async def _write_register(self, reg, data, mask):
        bm = sum(0xff << 8 * i for i in range(4) if mask >> i & 1)
        self.mem[reg] = self.mem[reg] & ~bm | data & bm


class Harness:
    def __init__(self, c):
        self.c = c
        kw = {}
        for k in range(c["pf"]):
            kw["pf%d_msi_enable" % k] = bool(c["msi"][k])
            if c["msi"][k]:
                kw["pf%d_msi_count" % k] = c["msi"][k]
            kw["pf%d_msix_enable" % k] = c["msix"][k] >= 0
            if c["msix"][k] >= 0:
                kw.update({"pf%d_msix_table_size" % k: c["msix"][k], "pf%d_msix_table_bir" % k: k, "pf%d_msix_table_offset" % k: 0x1000 * k + 8, "pf%d_msix_pba_bir" % k: 5 - k, "pf%d_msix_pba_offset" % k: 0x800 * k + 16})
        sigs = dict(COMMON, **(USP if c["plus"] else US))
        self.b = b = xdev.Bench(c, extra=sigs, grant=c["grant"], **kw)
        self.d = b.d
        self.ext = [None] * len(b.fns)
        for k, f in enumerate(b.fns):
            if c["ext"][k]:
                self.ext[k] = Store(c["ext"][k])
                f.register_extended_capability(self.ext[k])
        for n in IN:
            if n in sigs:
                getattr(b.d, n).setimmediatevalue(0)
        b.d.pcie_cq_np_req.setimmediatevalue(1)
        b.part.on_tlp = self.on_tlp
        b.fns[0].configure_bar(0, 1 << 16)
        self.sent = {k: [0, 0] for k in ("P", "NP", "CPL")}
        self.got = []
        self.pulses = {"cfg_mgmt_read_write_done": 0, "cfg_interrupt_msi_sent": 0, "cfg_interrupt_msix_sent": 0, "cfg_interrupt_msi_fail": 0, "cfg_interrupt_msix_fail": 0}
        self.errors_seen = []
        # the registers a user can change
        self.reg = [dict.fromkeys(RW, 0) for _ in b.fns]
        self.pend = [0] * len(b.fns)
        self.ops = 0
        if c["pvm"]:
            for f in b.fns:
                f.msi_cap.msi_per_vector_mask_capable = 1

    def on_tlp(self, t):
        cls = lb.fc_kind(t.fmt_type.name)
        self.sent[cls][0] += 1
        self.sent[cls][1] += (len(t.data) + 15) // 16
        if not self.b.take_cfg(t):
            self.got.append(t)

    async def monitor(self):
        while True:
            await RisingEdge(self.d.user_clk)
            for n in self.pulses:
                self.pulses[n] += int(getattr(self.d, n).value)
            if self.c["plus"]:
                if int(self.d.cfg_local_error_valid.value):
                    self.errors_seen.append(int(self.d.cfg_local_error_out.value))
            elif int(self.d.cfg_local_error.value):
                self.errors_seen.append(1)

    async def clocks(self, n):
        for _ in range(n):
            await RisingEdge(self.d.user_clk)

    # registers
    def number(self, f, name):
        cap = self.caps[f]
        if name in ("command", "intline", "id"):
            return {"command": 1, "intline": 15, "id": 0}[name]
        if name.startswith("ext"):
            x = self.ext[f]
            return x and x.offset + {"1": 1, "2": x.length // 2, "3": x.length - 1}[name[-1]]
        base = {"msi": 5, "msix": 17}.get(name[:-1], 16)
        if base not in cap:
            return None
        return cap[base] + {"devcap": 1, "dev": 2, "link": 4}.get(name, int(name[-1]) if name[-1].isdigit() else 0)

    async def mgmt(self, f, reg, data=None, be=15, gap=0, internal=False):
        d = self.d
        await RisingEdge(d.user_clk)
        before = self.pulses["cfg_mgmt_read_write_done"]
        if self.c["plus"]:
            d.cfg_mgmt_addr.value = reg
            d.cfg_mgmt_function_number.value = f
        else:
            d.cfg_mgmt_addr.value = reg | f << 10 | internal << 18
        if data is None:
            d.cfg_mgmt_read.value = 1
        else:
            d.cfg_mgmt_write_data.value = data
            d.cfg_mgmt_byte_enable.value = be
            d.cfg_mgmt_write.value = 1
        for _ in range(100):
            await RisingEdge(d.user_clk)
            if int(d.cfg_mgmt_read_write_done.value):
                break
        else:
            check(False, "the management interface never finished an access to function %d register %#x", f, reg)
        v = int(d.cfg_mgmt_read_data.value)
        d.cfg_mgmt_read.value = 0
        d.cfg_mgmt_write.value = 0
        if gap:
            await self.clocks(8 * gap)
            check(self.pulses["cfg_mgmt_read_write_done"] == before + 1, "one management access, %d done pulses", self.pulses["cfg_mgmt_read_write_done"] - before)
        return v

    async def write(self, f, name, v, be=15, mgmt=False, gap=0):
        n = self.number(f, name)
        if n is None or (name == "msi4" and not self.c["pvm"]):
            return False
        mask = RW[name] & sum(0xff << 8 * k for k in range(4) if be >> k & 1)
        self.reg[f][name] = self.reg[f][name] & ~mask | v & mask
        if mgmt:
            await self.mgmt(f, n, v, be, gap)
        else:
            t = await self.b.cfg("CFG_WRITE_0", f, n, v, be)
            check(int(t.status) == 0, "configuration write answered with status %d", t.status)
        self.ops += 1
        return True

    async def read(self, f, name, mgmt, gap=0):
        n = self.number(f, name)
        if n is None:
            return
        if mgmt:
            v = await self.mgmt(f, n, gap=gap)
        else:
            t = await self.b.cfg("CFG_READ_0", f, n)
            check(int(t.status) == 0 and len(t.data) == 4, "configuration read answered %r", t)
            v = int.from_bytes(t.data, "little")
        self.ops += 1
        if name in RW and (name != "msi4" or self.c["pvm"]):
            check(v & RW[name] == self.reg[f][name], "%s of function %d reads %#010x through %s, the writable bits should be %#010x", name, f, v, "the management port" if mgmt else "the link", self.reg[f][name])
        elif name == "devcap":
            check(v & 7 == 2, "device capabilities %#x", v)
        if name == "msi0":
            want = max(0, (self.c["msi"][f] - 1).bit_length())
            check(v >> 17 & 7 == want, "function %d was configured for %d MSI vectors and offers 2**%d", f, self.c["msi"][f], v >> 17 & 7)
        if name == "msix0":
            check(v >> 16 & 0x7ff == self.c["msix"][f], "MSI-X table size of function %d is %#x, configured %#x", f, v >> 16 & 0x7ff, self.c["msix"][f])
            for i, want in ((1, 0x1000 * f + 8 | f), (2, 0x800 * f + 16 | 5 - f)):
                t = await self.b.cfg("CFG_READ_0", f, n + i)
                check(int.from_bytes(t.data, "little") == want, "MSI-X register %d of function %d is %s, configured %#x", i, f, bytes(t.data).hex(), want)
        if name == "link":
            check(v >> 16 & 15 == self.speed and v >> 20 & 63 == self.width, "link status %#x", v >> 16)

    async def start(self):
        b, c = self.b, self.c
        cocotb.start_soon(self.monitor())
        await b.start()
        for r in self.reg:
            r["command"] = 6
        self.speed, self.width = 0, 0
        self.caps = []
        for f in range(len(b.fns)):
            caps = {}
            p = await self.b.cfg("CFG_READ_0", f, 13)
            p = p.data[0]
            while p:
                t = await self.b.cfg("CFG_READ_0", f, p // 4)
                check(t.data[0] not in caps and len(caps) < 10, "capability list of function %d: %r", f, caps)
                caps[t.data[0]] = p // 4
                p = t.data[1]
            check((5 in caps) == bool(c["msi"][f]), "MSI capability of function %d", f)
            check((17 in caps) == (c["msix"][f] >= 0), "MSI-X capability of function %d", f)
            check(16 in caps, "no PCIe capability in function %d", f)
            self.caps.append(caps)
            # known start values
            for name in RW:
                if name != "command":
                    await self.write(f, name, 0)
        self.b.rc.pause = False

    # outputs
    async def status(self):
        d, c, reg = self.d, self.c, self.reg
        await self.clocks(8)
        n = len(reg)
        want = {"cfg_max_payload": reg[0]["dev"] >> 5 & (3 if c["plus"] else 7), "cfg_max_read_req": reg[0]["dev"] >> 12 & 7, "cfg_phy_link_down": 0, "user_lnk_up": 1,
                "cfg_function_status": sum((7 if reg[k]["command"] & 4 else 0) << 4 * k | bool(reg[k]["command"] & 0x400) << 4 * k + 3 for k in range(n)),
                "cfg_rcb_status": sum(bool(reg[k]["link"] & 8) << k for k in range(n)),
                "cfg_interrupt_msi_enable": sum(bool(reg[k]["msi0"] & 1 << 16) << k for k in range(n)),
                "cfg_interrupt_msi_mmenable": sum((reg[k]["msi0"] >> 20 & 7) << 3 * k for k in range(n)),
                "cfg_interrupt_msix_enable": sum((reg[k]["msix0"] >> 31) << k for k in range(n)),
                "cfg_interrupt_msix_mask": sum((reg[k]["msix0"] >> 30 & 1) << k for k in range(n)),
                "cfg_interrupt_msi_fail": 0, "cfg_interrupt_msix_fail": 0, "cfg_interrupt_msi_sent": 0, "cfg_interrupt_msix_sent": 0}
        if c["plus"]:
            want["cfg_bus_number"] = self.b.bus
        if self.width:
            want["cfg_negotiated_width"] = self.width.bit_length() - 1 if c["plus"] else self.width & 15
            want["cfg_current_speed"] = self.speed - 1 if c["plus"] else 1 << self.speed - 1
        for k, v in want.items():
            got = int(getattr(d, k).value)
            check(got == v, "%s is %#x, should be %#x; registers %r", k, got, v, reg)

    async def credits(self, sel):
        """At rest."""
        d = self.d
        d.cfg_fc_sel.value = sel
        part = self.b.part
        while True:
            seen = dict(self.sent, n=part.seq)
            await Timer(1, "us")
            if seen == dict(self.sent, n=part.seq):
                break
        await self.clocks(4)
        part = self.b.part
        for i, k in enumerate(("P", "NP", "CPL")):
            for j, name in enumerate(("h", "d")):
                mask = (0xff, 0xfff)[j]
                got = int(getattr(d, "cfg_fc_" + k.lower() + name).value)
                init, sent = part.adv[k][0][j], part.sent[k][j]
                lim = init + sent       # everything has been taken
                grant, used = part.grant[2 * i + j], self.sent[k][j]
                if sel in (4, 5, 6):
                    if not grant:
                        continue
                    want = {4: grant - used, 5: grant, 6: used}[sel] & mask
                elif sel == 2 or (sel in (0, 1) and not self.c["plus"]):
                    if not init:
                        continue
                    want = {0: lim - sent, 1: lim, 2: sent}[sel] & mask
                else:
                    want = 0
                check(got == want, "cfg_fc_%s%s is %#x with cfg_fc_sel %d, should be %#x (device advertised %d, limit %d, received %d; partner granted %d, sent %d)",
                      k.lower(), name, got, sel, want, init, lim, sent, grant, used)
        self.ops += 1

    def room(self, n):
        """Does the partner still have credits for n more single-data-word posted packets?"""
        g = self.b.part.grant
        return (not g[0] or self.sent["P"][0] + n <= g[0]) and (not g[1] or self.sent["P"][1] + n <= g[1])

    def cpl_room(self):
        g = self.b.part.grant
        return (not g[4] or self.sent["CPL"][0] + 30 <= g[4]) and (not g[5] or self.sent["CPL"][1] + 30 <= g[5])

    async def interrupt(self, kind, f, attr, addr, data, fire, idle):
        d = self.d
        before = dict(self.pulses)
        n = len(self.got)
        await RisingEdge(d.user_clk)
        d.cfg_interrupt_msi_function_number.value = f
        d.cfg_interrupt_msi_attr.value = attr
        fire()
        await RisingEdge(d.user_clk)
        idle()
        for _ in range(400):
            await RisingEdge(d.user_clk)
            if self.pulses["cfg_interrupt_%s_sent" % kind] != before["cfg_interrupt_%s_sent" % kind] and len(self.got) > n:
                break
        else:
            check(False, "%s interrupt of function %d: %d sent pulses, %d packets on the link", kind, f, self.pulses["cfg_interrupt_%s_sent" % kind] - before["cfg_interrupt_%s_sent" % kind], len(self.got) - n)
        await self.clocks(12)
        await Timer(300, "ns")
        for k in self.pulses:
            if k.startswith("cfg_int"):
                check(self.pulses[k] - before[k] == (k == "cfg_interrupt_%s_sent" % kind), "%d pulses of %s for one %s interrupt", self.pulses[k] - before[k], k, kind)
        check(len(self.got) == n + 1, "%d packets on the link for one %s interrupt", len(self.got) - n, kind)
        o = tlpgen.observe(self.got[-1])
        want = {"kind": "MEM_WRITE_64" if addr >> 32 else "MEM_WRITE", "requester_id": self.b.bus << 8 | f, "address": addr, "length": 1, "first_be": 15, "last_be": 0, "attr": attr, "tc": 0, "ep": False}
        for k, v in want.items():
            check(o[k] == v, "%s interrupt of function %d: %s is %r, should be %r", kind, f, k, o[k], v)
        check(bytes(self.got[-1].data) == data.to_bytes(4, "little"), "%s interrupt of function %d carries %s, should carry %08x", kind, f, bytes(self.got[-1].data)[::-1].hex(), data)
        self.ops += 1
        self.ints = getattr(self, "ints", 0) + 1

    async def msi(self, o):
        f, r = o["fn"], self.reg[o["fn"]]
        if 5 not in self.caps[f] or not self.room(1):
            return
        cap = max(0, (self.c["msi"][f] - 1).bit_length())
        if o["set"] or not r["msi0"] & 1 << 16:
            mm = min(o["mm"], cap)
            await self.write(f, "msi0", 1 << 16 | mm << 20, mgmt=bool(o["bit"] & 1))
            await self.write(f, "msi1", o["addr"] & 0xffffffff)
            await self.write(f, "msi2", o["addr"] >> 32)
            await self.write(f, "msi3", o["data"])
        if not r["command"] & 4:
            await self.write(f, "command", 6)
        mm = min(r["msi0"] >> 20 & 7, cap)
        if r["msi0"] >> 20 & 7 > mm:
            return
        bit = o["bit"] % (1 << mm)
        data = r["msi3"] & ~((1 << mm) - 1) | bit
        d = self.d

        def fire():
            d.cfg_interrupt_msi_int.value = 1 << bit

        def idle():
            d.cfg_interrupt_msi_int.value = 0
        await self.interrupt("msi", f, o["attr"], r["msi1"] | r["msi2"] << 32, data, fire, idle)

    async def msix(self, o):
        f, r = o["fn"], self.reg[o["fn"]]
        if 17 not in self.caps[f] or not self.room(1):
            return
        if not r["msix0"] >> 31:
            await self.write(f, "msix0", 1 << 31)
        if not r["command"] & 4:
            await self.write(f, "command", 6)
        d, addr = self.d, o["addr"] & ~3

        def fire():
            d.cfg_interrupt_msix_address.value = addr
            d.cfg_interrupt_msix_data.value = o["data"]
            d.cfg_interrupt_msix_int.value = 1

        def idle():
            d.cfg_interrupt_msix_int.value = 0
            d.cfg_interrupt_msix_address.value = 0
            d.cfg_interrupt_msix_data.value = 0
        await self.interrupt("msix", f, o["attr"], addr, o["data"], fire, idle)

    async def mask(self, sel):
        sel &= 3 if self.c["plus"] else 15
        self.d.cfg_interrupt_msi_select.value = sel
        await self.clocks(4)
        want = self.reg[sel]["msi4"] if sel < len(self.reg) else 0
        got = int(self.d.cfg_interrupt_msi_data.value)
        check(got == want, "cfg_interrupt_msi_data shows %#x for selection %d, mask registers are %r", got, sel, [r["msi4"] for r in self.reg])

    async def pending(self, f, v):
        d = self.d
        await RisingEdge(d.user_clk)
        d.cfg_interrupt_msi_pending_status.value = v
        d.cfg_interrupt_msi_pending_status_function_num.value = f
        d.cfg_interrupt_msi_pending_status_data_enable.value = 1
        await RisingEdge(d.user_clk)
        d.cfg_interrupt_msi_pending_status_data_enable.value = 0
        d.cfg_interrupt_msi_pending_status.value = v ^ 0xffffffff
        await self.clocks(3)
        self.pend[f] = v
        for k in range(len(self.reg)):
            if 5 in self.caps[k] and self.c["pvm"] and self.cpl_room():
                t = await self.b.cfg("CFG_READ_0", k, self.caps[k][5] + 5)
                check(int.from_bytes(t.data, "little") == self.pend[k], "pending bits of function %d read %s, should be %#x", k, bytes(t.data)[::-1].hex(), self.pend[k])

    async def posted(self, n, dw):
        for k in range(n):
            t = Tlp()
            t.fmt_type = TlpType.MEM_WRITE
            t.address, t.first_be, t.last_be = 0x100, 15, 15 if dw > 1 else 0
            t.set_data(bytes(4 * dw))
            await self.b.part.send(t)

    async def overflow(self, n, fill=None):
        """Completions that do not fit the receive buffer are dropped and reported, the others delivered."""
        b = self.b
        b.rc.pause = True
        low, room, dw = 256 if self.c["plus"] else 64, 2048 if self.c["plus"] else 1024, 0
        if fill:
            # packets with data; the buffer counts one unit of 16 bytes more than their payload
            dw = fill[0]
            low = min(low, room // ((dw + 3) // 4 + 1))
            n = max(1, low + fill[1])
        for k in range(n):
            t = Tlp()
            t.fmt_type = TlpType.CPL_DATA if dw else TlpType.CPL
            t.requester_id, t.completer_id = PcieId(b.bus, 0, 0), PcieId(0, 3, 0)
            t.tag, t.status, t.byte_count = k & 31, CplStatus.SC if dw else CplStatus.UR, 4 * max(dw, 1)
            if dw:
                t.set_data(bytes(4 * dw))
            await b.part.send(t)
            if k & 15 == 15:
                await Timer(100, "ns")
        await Timer(3, "us")
        b.rc.pause = False
        got = 0
        for _ in range(60 + n // 4 * (1 + dw // 8)):
            await self.clocks(20)
            while not b.rc.empty():
                b.rc.recv_nowait()
                got += 1
        lost = n - got
        check(lost <= max(0, n - low), "%d completions sent to an empty receive buffer for %d, %d delivered", n, low, got)
        if self.c["plus"]:
            check(self.errors_seen == [15] * lost, "%d completions were lost, local errors reported: %r", lost, self.errors_seen)
        else:
            check(bool(self.errors_seen) == bool(lost) and len(self.errors_seen) <= lost, "%d completions were lost, %d local errors reported", lost, len(self.errors_seen))
        self.lost = lost


def run(c, ctx):
    out = {}

    async def main():
        h = out["h"] = Harness(c)
        await h.start()
        b = h.b
        n = len(b.fns)
        for o in c["ops"]:
            k = o["op"]
            if "fn" in o:
                o = dict(o, fn=o["fn"] % n)
            if not h.cpl_room() and k not in ("credits", "check", "mask"):
                continue
            if k == "write":
                await h.write(o["fn"], o["reg"], o["v"], o["be"], o["mgmt"], o["gap"])
            elif k == "read":
                await h.read(o["fn"], o["reg"], o["mgmt"], o["gap"])
            elif k == "msi":
                await h.msi(o)
            elif k == "msix":
                await h.msix(o)
            elif k == "mask":
                await h.mask(o["sel"])
            elif k == "pending":
                await h.pending(o["fn"], o["v"])
            elif k == "link":
                h.width, h.speed = o["width"] if c["plus"] else min(8, o["width"]), o["speed"] if c["plus"] else min(3, o["speed"])
                for f in b.fns:
                    f.pcie_cap.negotiated_link_width = h.width
                    f.pcie_cap.current_link_speed = h.speed
                await h.status()
            elif k == "internal" and not c["plus"]:
                await h.mgmt(0, o["reg"], o["v"] if o["w"] else None, internal=True)
            elif k == "posted":
                await h.posted(o["n"], o["dw"])
            elif k == "credits":
                await h.credits(o["sel"])
            elif k == "bus":
                b.bus = o["v"]
                for f in range(n):
                    await b.cfg_write(f, 15, 0, 0)
            elif k == "check":
                await h.status()
        await h.status()
        for f in range(n):
            for name in RW:
                if h.cpl_room():
                    await h.read(f, name, False)
        await h.credits(c["ops"][0].get("v", 2) % 8)
        check(h.pulses["cfg_interrupt_msi_fail"] + h.pulses["cfg_interrupt_msix_fail"] == 0, "interrupt reported as failed")
        check(not h.errors_seen, "local errors %r without cause", h.errors_seen)
        if c["flood"]:
            await h.overflow(c["flood"], c["fill"])

    simcore.run(main, max_time_ns=60_000_000, max_events=6_000_000)
    h = out["h"]
    ctx.label(("us+" if c["plus"] else "us") + " %d functions" % len(h.b.fns))
    if getattr(h, "lost", 0):
        ctx.label("buffer overflow")
    ctx.nontrivial(h.ops >= 5 and getattr(h, "ints", 0) > 0)


PARTS = [Part("registers", cases(), run, 240, 8000, "random register writes through link and management port, interrupts, flow-control selections; non-trivial with at least five operations and an interrupt")]
