"""P13: requests nobody claims are answered with exactly one UR, or dropped if posted."""
import simcore  # noqa: F401
import responder
from runner import Part

PROPERTY = "P13"
ASSUMPTIONS = ["messages are not implemented by the device models and not sent", "requests do not cross a 4 KB boundary (they are dropped as malformed)"]


def run(c, ctx):
    s = responder.run(c, ctx)
    ctx.nontrivial(s["ur"] > 0 and s["ok"] + s["posted"] + s["dropped"] > 0)
    ctx.label(c["who"])
    ctx.label("UR %s" % min(s["ur"], 5))


KINDS = ["mr", "mw", "ir", "iw", "xmr", "xmr", "xmw", "xmw", "xir", "xiw", "cr", "cw", "cr", "cw", "c1r", "c1w", "cpl", "cpl"]
PARTS = [
    Part("device", responder.case(KINDS, ("dev",)), run, 2500, 60000, "supported and unsupported requests and unexpected completions to a device; non-trivial with at least one UR and one other packet"),
    Part("root", responder.case(KINDS, ("rc",)), run, 2000, 60000, "the same arriving at the root complex through a root port"),
]
