"""Intel hard IP models with a hand-written link partner on one side and the user interfaces on the other."""
import hypothesis.strategies as st
import simcore
import cocotb
import linkbench as lb
import avst
from tlpgen import mix
from xdev import Bench as XBench
from cocotb.triggers import RisingEdge
from cocotbext.pcie.intel.s10 import S10PcieDevice
from cocotbext.pcie.intel.s10.interface import S10PcieSource, S10PcieSink, S10RxBus, S10TxBus
from cocotbext.pcie.intel.ptile import PTilePcieDevice
from cocotbext.pcie.intel.ptile.interface import PTilePcieSource, PTilePcieSink, PTileRxBus, PTileTxBus
from runner import check

S10 = [(3, 8, 256, 250e6), (1, 4, 256, 125e6), (3, 16, 512, 250e6), (3, 16, 512, 250e6)]
PTILE = [(3, 4, 128, 250e6), (3, 8, 256, 250e6), (4, 8, 256, 500e6), (3, 16, 512, 250e6), (4, 16, 512, 500e6)]


@st.composite
def config(draw, pf=True, fam=("s10", "ptile")):
    fam = draw(st.sampled_from(fam))
    return {"fam": fam, "cfg": draw(st.integers(0, len(S10 if fam == "s10" else PTILE) - 1)), "pf": draw(st.integers(1, 4)) if pf else 1, "ltile": draw(st.booleans()),
            "etag": draw(st.booleans()), "par": draw(st.booleans()), "bus": draw(st.sampled_from([1, 1, 2, 77, 255])), "slow": draw(st.sampled_from([200, 50, 1000]))}


class Bench:
    def __init__(self, c, extra=None, grant=None, fc=None, **kw):
        s10 = self.s10 = c["fam"] == "s10"
        gen, width, dw, freq = (S10 if s10 else PTILE)[c["cfg"]]
        segs = 2 if dw == 512 else 1
        self.dw, self.segs, self.gen, self.width, self.freq = dw, segs, gen, width, freq
        self.rxcfg, self.txcfg = (c["fam"], dw, segs, "rx"), (c["fam"], dw, segs, "tx")
        sigs = {"coreclkout_hip": 1, "reset_status": 1}
        sigs.update(extra or {})
        d = self.d = simcore.Dut(**sigs)
        for p, cfg in (("rx", self.rxcfg), ("tx", self.txcfg)):
            for n, w in avst.signals(cfg, c["par"]).items():
                d._add("%s_st_%s" % (p, n), w)
        rx, tx, src, snk = (S10RxBus, S10TxBus, S10PcieSource, S10PcieSink) if s10 else (PTileRxBus, PTileTxBus, PTilePcieSource, PTilePcieSink)
        for n in sigs:
            kw.setdefault(n, getattr(d, n))
        if s10:
            kw["l_tile"] = c["ltile"]
        self.dev = (S10PcieDevice if s10 else PTilePcieDevice)(
            pcie_generation=gen, pcie_link_width=width, pld_clk_frequency=freq, pf_count=c["pf"], max_payload_size=512, enable_extended_tag=c["etag"],
            rx_bus=rx.from_prefix(d, "rx_st"), tx_bus=tx.from_prefix(d, "tx_st"), **kw)
        self.part = lb.Partner(fc or [64, 1024, 64, 64, 0, 0], symbol_ps=c["slow"], grant=grant)
        lb.device_port(self.dev, self.part.port)
        self.fns = self.dev.functions
        self.bus = c["bus"]
        clk = self.clk = d.coreclkout_hip
        self.rxlat = (18 if dw == 512 else 17) if s10 else 27
        self.tx = src(tx.from_prefix(d, "tx_st"), clk, ready_latency=3)
        self.rx = snk(rx.from_prefix(d, "rx_st"), clk, ready_latency=self.rxlat)
        self.cfg_tag = 0
        self.cfg_cpl = {}

    async def start(self):
        while not int(self.d.reset_status.value):
            await RisingEdge(self.clk)
        while int(self.d.reset_status.value):
            await RisingEdge(self.clk)
        for k in range(len(self.fns)):
            await self.cfg_write(k, 1, 6, 3)      # memory and bus master enable

    async def clocks(self, n):
        for _ in range(n):
            await RisingEdge(self.clk)

    take_cfg, cfg, cfg_write = XBench.take_cfg, XBench.cfg, XBench.cfg_write
