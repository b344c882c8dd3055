"""P09: device accesses to another device's BARs behave like a byte array."""
import hypothesis.strategies as st
import simcore  # noqa: F401
import topo
import traffic
from runner import Part, check

PROPERTY = "P09"
ASSUMPTIONS = ["BAR and host memory sizes are powers of two; concurrent streams touch disjoint bytes; a device does not address its own BARs through the fabric"]
MODE = "p2p"


def run(c, ctx):
    w = topo.Wire(keep=False)
    s = traffic.run(c, ctx, w)
    n = s["host"] if MODE == "rc" else s["dma"] if MODE == "dma" else s["p2p"]
    ctx.nontrivial(n >= 3)
    ctx.label("%s ops %s" % (MODE, "0" if n == 0 else "1-5" if n < 6 else "6+"))
    ctx.label("with split transfers" if s["split"] else "single-TLP transfers")
    ctx.label("switch" if s["built"].switches else "no switch")


@st.composite
def p2p_case(draw):
    c = draw(traffic.case(["p2p", "p2p", "p2p", "dma", "rc"], max_eps=4))
    # make sure there are at least two devices and one of the first has a BAR
    eps = []

    def walk(ns):
        for n in ns:
            if n["t"] != "sw":
                eps.append(n)
            else:
                walk(n["c"])
    walk(c["nodes"])
    while len(eps) < 2:
        e = draw(topo.endpoint(max_f=1))
        eps.append(e)
        sw = [n for n in c["nodes"] if n["t"] == "sw"]
        (sw[0]["c"] if sw and draw(st.booleans()) else c["nodes"]).append(e)
    for e in eps[:2]:
        if not e["f"][0]["bars"]:
            e["f"][0]["bars"] = [[draw(st.sampled_from(topo.BARS[:4])), draw(st.integers(8, 16))]]
    return c


PARTS = [
    Part("p2p", p2p_case(), run, 320, 8000,
         "at least two devices, anywhere below the root complex or switches; non-trivial with at least 3 device-to-device operations"),
    Part("edge", traffic.edge_case(["p2p"]), run, 100, 3000,
         "a BAR that fills the whole memory or IO window, accessed at its end; non-trivial with at least 3 device-to-device operations"),
]
