"""P29: hard IP models: choice of the configuration, clock, reset, link, and what the system sees of it."""
import hypothesis.strategies as st
import simcore
import cocotb
import avst
import xaxis
from tlpgen import mix
from cocotb.triggers import Timer, RisingEdge, First
from cocotb.utils import get_sim_time
from cocotbext.axi import AxiStreamBus
from cocotbext.pcie.core import RootComplex
from cocotbext.pcie.xilinx.us import UltraScalePcieDevice, UltraScalePlusPcieDevice
from cocotbext.pcie.intel.s10 import S10PcieDevice
from cocotbext.pcie.intel.s10.interface import S10RxBus, S10TxBus
from cocotbext.pcie.intel.ptile import PTilePcieDevice
from cocotbext.pcie.intel.ptile.interface import PTileRxBus, PTileTxBus
from runner import Part, check

PROPERTY = "P29"
ASSUMPTIONS = ["the combinations the vendor documents allow are those the library lists: link speed, width, interface width and clock (copied into the check)",
               "clock periods are compared with a tolerance of one part in 2000 (the simulator counts picoseconds)", "dword alignment (the only one implemented)"]


def table(text):
    out = []
    for line in text.split("\n"):
        if not line:
            continue
        g, w, dw, fr = line.split()
        out += [(int(g), int(w), int(dw), float(f) * 1e6) for f in fr.split(",")]
    return out


US_COMMON = """
1 1 64 62.5,125,250
1 2 64 62.5,125,250
1 4 64 125,250
1 8 64 250
1 8 128 125
2 1 64 62.5,125,250
2 2 64 125,250
2 4 64 250
2 4 128 125
2 8 128 250
2 8 256 125
3 1 64 125,250
3 2 64 250
3 2 128 125
3 4 128 250
3 4 256 125
3 8 256 250
"""
VALID = {
    "us": table(US_COMMON),
    "usp": table(US_COMMON + """
1 16 128 250
2 16 256 250
3 16 512 250
4 1 64 250
4 1 128 125
4 2 128 250
4 2 256 125
4 4 256 250
4 8 512 250
"""),
    "s10": table("""
1 1 256 125
1 2 256 125
1 4 256 125
1 8 256 125
1 16 256 125
2 1 256 125
2 2 256 125
2 4 256 125
2 8 256 125
2 16 256 250
3 1 256 125
3 2 256 125
3 4 256 125
3 8 256 250
3 16 512 250
"""),
    "ptile": table("""
3 4 128 250
3 8 256 250
3 16 256 250
3 16 512 250
4 4 128 350,400,450,500
4 8 256 175,200,225,250,350,400,450,500
4 8 512 175,200,225,250
4 16 512 175,200,225,250,350,400,450,500
"""),
}


def matches(c):
    lim = 16
    if c["fam"] == "ptile":
        lim = (16, 8, 4, 4)[c["port"]]
    hz = None if c["freq"] is None else c["freq"] * (1e6 if c["freq"] < 1e6 else 1)
    return [v for v in VALID[c["fam"]] if v[2] == c["dw"] and v[1] <= lim and c["gen"] in (None, v[0]) and c["width"] in (None, v[1]) and hz in (None, v[3])]


@st.composite
def selection(draw, valid=False):
    fam = draw(st.sampled_from(sorted(VALID)))
    g, w, dw, f = draw(st.sampled_from(VALID[fam]))
    drop = draw(mix(st.integers(0, 7), st.integers(0, 7), st.just(0), st.sampled_from([2, 3, 6, 7])))
    c = {"fam": fam, "gen": None if drop & 1 else g, "width": None if drop & 2 else w, "dw": dw, "freq": None if drop & 4 else f, "port": draw(st.integers(0, 3))}
    if not valid and draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from(["gen", "width", "dw", "freq"]))
        c[k] = draw(st.sampled_from({"gen": [1, 2, 3, 4, 5], "width": [1, 2, 3, 4, 8, 12, 16, 32], "dw": sorted({v[2] for v in VALID[fam]}), "freq": [62.5e6, 100e6, 125e6, 175e6, 200e6, 225e6, 250e6, 350e6, 400e6, 450e6, 500e6]}[k]))
    if valid:
        if not matches(c):
            c["port"] = 0
    if c["freq"] is not None and draw(st.booleans()):
        c["freq"] /= 1e6
        if c["freq"] == int(c["freq"]) and draw(st.booleans()):
            c["freq"] = int(c["freq"])
    return c


def build(c, **kw):
    fam, dw = c["fam"], c["dw"]
    xil = fam in ("us", "usp")
    sigs = {"clk": 1, "rst": 1, "nrst_in": 1}
    d = simcore.Dut(**sigs)
    if xil:
        for i in xaxis.WIDTHS:
            tw = xaxis.W512[i]["w"] if dw == 512 else xaxis.WIDTHS[i][-1 if fam == "usp" else 0]
            for n, w in (("tdata", dw), ("tkeep", dw // 32), ("tvalid", 1), ("tready", 1), ("tlast", 1), ("tuser", tw)):
                d._add("%s_%s" % (i, n), w)
        kw.update({"%s_bus" % i: AxiStreamBus.from_prefix(d, i) for i in xaxis.WIDTHS}, user_clk=d.clk, user_reset=d.rst, user_clk_frequency=c["freq"])
        if c.get("sysrst"):
            kw["sys_reset"] = d.nrst_in
        cls = UltraScalePlusPcieDevice if fam == "usp" else UltraScalePcieDevice
    else:
        segs = 2 if dw == 512 else 1
        for p in ("rx", "tx"):
            for n, w in avst.signals((fam, dw, segs, p), False).items():
                d._add("%s_st_%s" % (p, n), w)
        rx, tx = (S10RxBus, S10TxBus) if fam == "s10" else (PTileRxBus, PTileTxBus)
        kw.update(rx_bus=rx.from_prefix(d, "rx_st"), tx_bus=tx.from_prefix(d, "tx_st"), coreclkout_hip=d.clk, reset_status=d.rst, pld_clk_frequency=c["freq"])
        if fam == "ptile":
            kw["port_num"] = c["port"]
            if c.get("sysrst"):
                kw["pin_perst_n"] = d.nrst_in
        elif c.get("sysrst"):
            kw["pin_perst"] = d.nrst_in
        cls = S10PcieDevice if fam == "s10" else PTilePcieDevice
    d.nrst_in.setimmediatevalue(1)
    return d, cls(pcie_generation=c["gen"], pcie_link_width=c["width"], **kw)


async def out_of_reset(d, edges=400):
    """Wait until reset has been seen asserted and released again."""
    seen = False
    for _ in range(edges):
        await RisingEdge(d.clk)
        v = int(d.rst.value)
        if seen and not v:
            return
        seen = seen or bool(v)
    check(False, "reset was %s", "not released" if seen else "never asserted")


async def period(d, n=20):
    await RisingEdge(d.clk)
    t0 = get_sim_time("ps")
    for _ in range(n):
        await RisingEdge(d.clk)
    return (get_sim_time("ps") - t0) / n


def agrees(c, dev, speed_width):
    """The configuration in effect, after checking that it is one of the possible ones."""
    now = (dev.pcie_generation, dev.pcie_link_width, c["dw"], dev.user_clk_frequency if c["fam"] in ("us", "usp") else dev.pld_clk_frequency)
    ok = matches(c)
    check(now in ok, "generation, width, clock given %r on %d bits: the model uses %r, possible are %r", (c["gen"], c["width"], c["freq"]), c["dw"], now, ok[:6])
    check(speed_width == now[:2], "the link is able to do generation %d x%d, configured %r", speed_width[0], speed_width[1], now)
    return now


def run_select(c, ctx):
    ok = matches(c)
    res = {}

    async def main():
        try:
            d, dev = build(c)
        except Exception as e:
            res["exc"] = e
            return
        RootComplex().make_port().connect(dev)
        if not ok:
            return
        now = agrees(c, dev, (dev.upstream_port.max_link_speed, dev.upstream_port.max_link_width))
        p = await period(d)
        check(abs(p * now[3] / 1e12 - 1) < 1 / 2000, "the clock is %.3f MHz, configured %.3f MHz", 1e6 / p, now[3] / 1e6)

    simcore.run(main, max_time_ns=100_000, max_events=100_000)
    if ok:
        check("exc" not in res, "generation %r, width %r, clock %r on %d bits%s: %r, possible are %r", c["gen"], c["width"], c["freq"], c["dw"],
              ", port %d" % c["port"] if c["fam"] == "ptile" else "", res.get("exc"), ok[:6])
    else:
        check("exc" in res, "generation %r, width %r, clock %r on %d bits%s: accepted, but there is no such configuration", c["gen"], c["width"], c["freq"], c["dw"],
              ", port %d" % c["port"] if c["fam"] == "ptile" else "")
    ctx.label(c["fam"] + (" possible" if ok else " impossible"))
    ctx.nontrivial(bool(ok) and None in (c["gen"], c["width"], c["freq"]) or not ok)


PFS = {"us": 2, "usp": 4, "s10": 4, "ptile": 4}
OFFS = st.one_of(st.integers(0, 0x1fff), st.integers(0, 0x1fff), st.sampled_from([0, 1, 0x1fffffff])).map(lambda x: 8 * x)
pf = st.fixed_dictionaries({"msi": mix(st.just(0), st.integers(1, 32)), "msix": mix(st.just(-1), st.integers(0, 0x7ff)), "tbir": st.integers(0, 5), "pbir": st.integers(0, 5), "toff": OFFS, "poff": OFFS,
                            "bars": st.lists(st.tuples(st.integers(7, 24), st.booleans(), st.booleans(), st.integers(0, 3)), max_size=4), "cls": st.integers(0, 0xffffff), "dev": st.integers(0, 0xfffe), "ask": st.integers(1, 32)})


@st.composite
def system(draw):
    c = draw(selection(valid=True))
    c.update(pfs=draw(st.lists(pf, min_size=1, max_size=PFS[c["fam"]])), mps=draw(st.sampled_from([128, 256, 512, 1024])), etag=draw(st.booleans()), sysrst=draw(st.booleans()),
             rcgen=draw(st.integers(1, 5)), rcwidth=draw(st.sampled_from([1, 2, 4, 8, 16])), late=draw(st.sampled_from([0, 0, 50, 1000])),
             rst=draw(st.lists(st.tuples(st.integers(0, 300), st.integers(1, 60), st.sampled_from([0, 0, 1, 20, 60, 95, 99, 100, 104, 130])), max_size=3)))
    return c


def run_system(c, ctx):
    async def main():
        kw = {}
        for k, f in enumerate(c["pfs"]):
            kw["pf%d_msi_enable" % k] = bool(f["msi"])
            if f["msi"]:
                kw["pf%d_msi_count" % k] = f["msi"]
            kw["pf%d_msix_enable" % k] = f["msix"] >= 0
            if f["msix"] >= 0:
                kw.update({"pf%d_msix_table_size" % k: f["msix"], "pf%d_msix_table_bir" % k: f["tbir"], "pf%d_msix_table_offset" % k: f["toff"], "pf%d_msix_pba_bir" % k: f["pbir"], "pf%d_msix_pba_offset" % k: f["poff"]})
        d, dev = build(c, pf_count=len(c["pfs"]), max_payload_size=c["mps"], enable_extended_tag=c["etag"], **kw)
        now = agrees(c, dev, (dev.upstream_port.max_link_speed, dev.upstream_port.max_link_width))
        check(len(dev.functions) == len(c["pfs"]), "%d functions, configured %d", len(dev.functions), len(c["pfs"]))
        rc = RootComplex()
        port = rc.make_port()
        port.downstream_port.max_link_speed = c["rcgen"]
        port.downstream_port.max_link_width = c["rcwidth"]
        port.connect(dev)
        bars = []
        for f, p in zip(dev.functions, c["pfs"]):
            f.class_code, f.device_id = p["cls"], p["dev"]
            i, lst = 0, []
            for n, ext, pre, io in p["bars"]:
                if i + (ext and io) > 5:
                    break
                if io == 0:
                    f.configure_bar(i, 1 << min(n, 12), io=True)
                    lst.append((i, 1 << min(n, 12), "io"))
                    i += 1
                elif ext and i < 5:
                    f.configure_bar(i, 1 << n, ext=True, prefetch=pre)
                    lst.append((i, 1 << n, "64"))
                    i += 2
                else:
                    f.configure_bar(i, 1 << n, prefetch=pre)
                    lst.append((i, 1 << n, "32"))
                    i += 1
            bars.append(lst)
        await out_of_reset(d)
        if c["sysrst"]:
            # the fundamental reset is passed on to the user, and ends
            async def watch():
                low = 0
                while True:
                    await RisingEdge(d.clk)
                    low = 0 if int(d.nrst_in.value) else low + 1
                    check(low < 8 or int(d.rst.value) == 1, "the user is not in reset while the reset input is low")
            mon = cocotb.start_soon(watch())
            for wait, hold, again in c["rst"]:
                await Timer(wait + 1, "ns")
                d.nrst_in.value = 0
                await Timer(hold + 1, "ns")
                for _ in range(8):
                    await RisingEdge(d.clk)
                check(int(d.rst.value) == 1, "the user's reset output is low %d ns after the reset input was asserted", hold)
                if again:
                    # released for a short time only
                    d.nrst_in.value = 1
                    await Timer(again, "ns")
                    d.nrst_in.value = 0
                    await Timer(hold + 1, "ns")
                    for _ in range(8):
                        await RisingEdge(d.clk)
                    check(int(d.rst.value) == 1, "the user's reset output is low %d ns after the reset input was asserted again", hold)
                d.nrst_in.value = 1
                await out_of_reset(d)
            mon.kill()
        if c["late"]:
            await Timer(c["late"], "ns")
        await rc.enumerate()
        up = dev.upstream_port
        for a in (up, port.downstream_port):
            check((a.cur_link_speed, a.cur_link_width) == (min(now[0], c["rcgen"]), min(now[1], c["rcwidth"])), "link between generation %d x%d and generation %d x%d runs at generation %r x%r",
                  now[0], now[1], c["rcgen"], c["rcwidth"], a.cur_link_speed, a.cur_link_width)
        for k, (f, p) in enumerate(zip(dev.functions, c["pfs"])):
            x = rc.find_device(f.pcie_id)
            check(x is not None and f.pcie_id.function == k and f.pcie_id.bus == 1, "function %d (%s) was not found by enumeration", k, f.pcie_id)
            check((x.class_code, x.device_id) == (p["cls"], p["dev"]), "function %d: class %#x device %#x, configured %#x and %#x", k, x.class_code, x.device_id, p["cls"], p["dev"])
            ids = sorted(int(a) for a, _ in x.capabilities)
            want = sorted([1, 16] + ([5] if p["msi"] else []) + ([17] if p["msix"] >= 0 else []))
            check(ids == want, "function %d: capabilities %r, configured %r", k, ids, want)
            ext = sorted(int(a) for a, _ in x.ext_capabilities)
            check(ext == [1, 0x19], "function %d: extended capabilities %r, the model has advanced error reporting and secondary PCI Express", k, ext)
            cap = {int(a): b for a, b in x.capabilities}
            v = await x.config_read_dword(cap[16] + 4)
            check(128 << (v & 7) == c["mps"] and bool(v >> 5 & 1) == c["etag"], "function %d: device capabilities %#x, configured payload %d, extended tag %s", k, v, c["mps"], c["etag"])
            if p["msi"]:
                v = await x.config_read_word(cap[5] + 2)
                check(v >> 1 & 7 == (p["msi"] - 1).bit_length(), "function %d: %d MSI vectors offered, configured %d", k, 1 << (v >> 1 & 7), p["msi"])
            if p["msix"] >= 0:
                v = [await x.config_read_dword(cap[17] + 4 * j) for j in range(3)]
                check(v[0] >> 16 & 0x7ff == p["msix"] and v[1] == p["toff"] | p["tbir"] and v[2] == p["poff"] | p["pbir"], "function %d: MSI-X capability %r, configured %r", k, [hex(a) for a in v], p)
            for i, size, kind in bars[k]:
                check(x.bar_size[i] == max(size, 4 if kind == "io" else 16), "function %d: BAR %d has size %r, configured %#x", k, i, x.bar_size[i], size)
            if p["msi"] and p["msix"] < 0:       # the MSI-X table is in the user's memory
                await x.set_master()
                n = await x.alloc_irq_vectors(1, p["ask"])
                lim = 1 << (p["msi"] - 1).bit_length()
                check(n == min(p["ask"], lim), "function %d: %d vectors for a request of %d, %d on offer", k, n, p["ask"], lim)
                check(f.msi_cap.msi_enable and n <= 1 << f.msi_cap.msi_multiple_message_enable <= lim, "function %d: MSI enable %s for 2**%d vectors, %d were allocated", k, f.msi_cap.msi_enable, f.msi_cap.msi_multiple_message_enable, n)
        n = sum(1 for y in dev.functions if rc.find_device(y.pcie_id) is not None)
        check(rc.find_device(type(f.pcie_id)(1, 0, len(c["pfs"]))) is None, "a function that does not exist was found; %d do", n)

    simcore.run(main, max_time_ns=3_000_000, max_events=2_000_000)
    ctx.label("%s %d functions" % (c["fam"], len(c["pfs"])))
    ctx.nontrivial(len(c["pfs"]) > 1 and any(p["bars"] for p in c["pfs"]))


PARTS = [Part("select", selection(), run_select, 1500, 60000, "random valid combinations with parts left open, and invalid ones; non-trivial when something was chosen by the model or had to be refused"),
         Part("system", system(), run_system, 300, 9000, "random functions, BARs and capabilities enumerated by the root complex; non-trivial with several functions and BARs")]
