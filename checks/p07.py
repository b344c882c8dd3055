"""P07: root complex accesses to device BARs behave like a byte array."""
import hypothesis.strategies as st
import simcore  # noqa: F401
import topo
import traffic
from runner import Part, check

PROPERTY = "P07"
ASSUMPTIONS = ["BAR and host memory sizes are powers of two; concurrent streams touch disjoint bytes; a device does not address its own BARs through the fabric"]
MODE = "rc"


def run(c, ctx):
    w = topo.Wire(keep=False)
    s = traffic.run(c, ctx, w)
    n = s["host"] if MODE == "rc" else s["dma"] if MODE == "dma" else s["p2p"]
    ctx.nontrivial(n >= 3)
    ctx.label("%s ops %s" % (MODE, "0" if n == 0 else "1-5" if n < 6 else "6+"))
    ctx.label("with split transfers" if s["split"] else "single-TLP transfers")
    ctx.label("switch" if s["built"].switches else "no switch")


PARTS = [
    Part("mixed", traffic.case(["rc", "rc", "rc", "dma", "p2p"]), run, 260, 6000,
         "generated topology with up to 3 devices, concurrent streams; non-trivial with at least 3 root complex operations"),
    Part("single", traffic.case(["rc"], max_eps=1, depth=1, max_f=1, max_ops=14, host=True), run, 500, 12000,
         "one device, longer histories; non-trivial with at least 3 root complex operations"),
    Part("edge", traffic.edge_case(["rc"]), run, 120, 3000,
         "a BAR that fills the whole memory or IO window, accessed at its end; non-trivial with at least 3 root complex operations"),
]
