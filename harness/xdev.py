"""Xilinx hard IP models with a hand-written link partner on one side and the user interfaces on the other."""
import hypothesis.strategies as st
import simcore
import cocotb
import linkbench as lb
import xaxis
from tlpgen import mix
from cocotb.triggers import Timer, RisingEdge
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.core.tlp import Tlp, TlpType
from cocotbext.pcie.core.utils import PcieId
from cocotbext.pcie.xilinx.us import UltraScalePcieDevice, UltraScalePlusPcieDevice
from cocotbext.pcie.xilinx.us.interface import RqSource, RcSink, CqSink, CcSource, UsPcieFrame
from runner import check

US = [(3, 1, 64, 250e6), (1, 1, 64, 62.5e6), (3, 4, 128, 250e6), (3, 8, 256, 250e6), (2, 8, 256, 125e6)]
USP = [(3, 1, 64, 250e6), (3, 4, 128, 250e6), (3, 8, 256, 250e6), (3, 16, 512, 250e6), (4, 8, 512, 250e6), (3, 16, 512, 250e6)]

pat = mix(st.just([False]), st.just([False]), st.lists(st.booleans(), min_size=2, max_size=9).map(lambda x: x + [False]))


@st.composite
def config(draw, pf=True):
    plus = draw(st.booleans())
    c = {"plus": plus, "cfg": draw(st.integers(0, len(USP if plus else US) - 1)), "strad": draw(st.integers(0, 7)), "pf": draw(st.integers(1, 4 if plus else 2)) if pf else 1,
         "client": draw(st.booleans()), "etag": draw(st.booleans()), "parity": draw(st.booleans()), "bus": draw(st.sampled_from([1, 1, 2, 77, 255])),
         "slow": draw(st.sampled_from([200, 50, 1000])), "opt": draw(st.booleans())}
    return c


def cycle(p):
    while True:
        for v in p:
            yield v


class Bench:
    SIGS = {"user_clk": 1, "user_reset": 1, "user_lnk_up": 1, "pcie_cq_np_req_count": 6}
    ONLY_US = {"pcie_rq_seq_num": 4, "pcie_rq_seq_num_vld": 1, "pcie_rq_tag": 6, "pcie_rq_tag_av": 2, "pcie_rq_tag_vld": 1, "pcie_cq_np_req": 1}
    ONLY_USP = {"pcie_rq_seq_num0": 6, "pcie_rq_seq_num_vld0": 1, "pcie_rq_seq_num1": 6, "pcie_rq_seq_num_vld1": 1, "pcie_rq_tag0": 8, "pcie_rq_tag_vld0": 1,
                "pcie_rq_tag1": 8, "pcie_rq_tag_vld1": 1, "pcie_rq_tag_av": 4, "pcie_cq_np_req": 2}

    def __init__(self, c, extra=None, grant=None, fc=None, **kw):
        plus = self.plus = c["plus"]
        gen, width, dw, freq = (USP if plus else US)[c["cfg"]]
        self.dw, self.period = dw, int(1e9 / freq)
        sigs = dict(self.SIGS, **(self.ONLY_USP if plus else self.ONLY_US))
        sigs.update(extra or {})
        tw = {i: xaxis.W512[i]["w"] if dw == 512 else xaxis.WIDTHS[i][-1 if plus else 0] for i in xaxis.WIDTHS}
        d = self.d = simcore.Dut(**sigs)
        for i in tw:
            for n, w in (("tdata", dw), ("tkeep", dw // 32), ("tvalid", 1), ("tready", 1), ("tlast", 1), ("tuser", tw[i])):
                d._add("%s_%s" % (i, n), w)
        s = c["strad"] if dw == 512 else c["strad"] & 1 if dw == 256 else 0
        segs = {"rq": 1, "cq": 1, "cc": 1, "rc": 1}
        if plus:
            kw.update(rc_straddle=bool(s & 1), rq_straddle=bool(s & 2), cq_straddle=bool(s & 4), cc_straddle=bool(s & 4))
            if dw == 512:
                four = bool(s & 1 and s & 2)
                kw.update(rc_4tlp_straddle=four)
                segs = {"rq": 2 if s & 2 else 1, "cq": 2 if s & 4 else 1, "cc": 2 if s & 4 else 1, "rc": 4 if four else 2 if s & 1 else 1}
            elif s & 1:
                segs["rc"] = 2
        else:
            kw.update(rc_straddle=bool(s & 1))
            if s & 1:
                segs["rc"] = 2
        self.segs = segs
        for n in sigs:
            # a design may leave optional ports open
            if c["opt"] and n.startswith(("pcie_rq_", "pcie_cq_np_req", "cfg_config")) and not (n.startswith("pcie_rq_tag") and not c["client"]):
                continue
            kw.setdefault(n, getattr(d, n))
        cls = UltraScalePlusPcieDevice if plus else UltraScalePcieDevice
        bus = {i: AxiStreamBus.from_prefix(d, i) for i in tw}
        d.pcie_cq_np_req.setimmediatevalue(0)
        self.dev = cls(pcie_generation=gen, pcie_link_width=width, user_clk_frequency=freq, pf_count=c["pf"], max_payload_size=512,
                       enable_client_tag=c["client"], enable_extended_tag=c["etag"], enable_parity=c["parity"],
                       rq_bus=bus["rq"], rc_bus=bus["rc"], cq_bus=bus["cq"], cc_bus=bus["cc"], **kw)
        self.part = lb.Partner(fc or [64, 1024, 64, 64, 0, 0], symbol_ps=c["slow"], grant=grant)
        lb.device_port(self.dev, self.part.port)
        self.fns = self.dev.functions
        self.bus = c["bus"]
        bus = {i: AxiStreamBus.from_prefix(d, i) for i in tw}
        clk, rst = d.user_clk, d.user_reset
        self.rq = RqSource(bus["rq"], clk, rst, segments=segs["rq"])
        self.rc = RcSink(bus["rc"], clk, rst, segments=segs["rc"])
        self.cq = CqSink(bus["cq"], clk, rst, segments=segs["cq"])
        self.cc = CcSource(bus["cc"], clk, rst, segments=segs["cc"])
        self.cfg_tag = 0
        self.cfg_cpl = {}

    async def start(self):
        """Wait for the end of reset and tell the device its bus number."""
        check(len(self.fns) >= 1, "no function")
        while not int(self.d.user_reset.value):
            await RisingEdge(self.d.user_clk)
        while int(self.d.user_reset.value):
            await RisingEdge(self.d.user_clk)
        for k, f in enumerate(self.fns):
            await self.cfg_write(k, 1, 6, 3)      # memory and bus master enable

    def take_cfg(self, t):
        """True if t answers one of our configuration requests."""
        if t.is_completion() and (int(t.requester_id), t.tag) in self.cfg_cpl:
            self.cfg_cpl[(int(t.requester_id), t.tag)] = t
            return True
        return False

    async def cfg(self, kind, fn, reg, data=None, be=15):
        t = Tlp()
        t.fmt_type = TlpType[kind]
        t.completer_id = PcieId(self.bus, 0, fn)
        t.requester_id = PcieId(0, 0, 7)
        t.address, t.first_be, t.length = reg * 4, be, 1
        t.tag = self.cfg_tag = (self.cfg_tag + 1) & 31
        if data is not None:
            t.set_data(data.to_bytes(4, "little"))
        key = (7, t.tag)
        self.cfg_cpl[key] = None
        await self.part.send(t)
        for _ in range(200):
            if self.cfg_cpl[key] is not None:
                return self.cfg_cpl.pop(key)
            await Timer(100, "ns")
        check(False, "%s to function %d was not answered", kind, fn)

    async def cfg_write(self, fn, reg, data, be=15):
        return await self.cfg("CFG_WRITE_0", fn, reg, data, be)

    def frame(self, words, parity, fb=0, lb=0, seq=0, disc=False):
        f = UsPcieFrame()
        f.data = list(words)
        f.parity = [parity(v) for v in words]
        f.first_be, f.last_be, f.seq_num, f.discontinue = fb, lb, seq, disc
        return f
