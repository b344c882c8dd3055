"""P11: memory and IO requests act on exactly the enabled bytes."""
import simcore  # noqa: F401
import responder
from runner import Part

PROPERTY = "P11"
ASSUMPTIONS = ["requests do not cross a 4 KB boundary or the end of a BAR (they are dropped as malformed); non-contiguous byte enables only where PCIe allows them "
               "(one DW, or two QW-aligned DWs)"]


def run(c, ctx):
    s = responder.run(c, ctx)
    ctx.nontrivial(s["part"] > 0 and s["ok"] > 0)
    ctx.label(c["who"])
    ctx.label("split completions" if s["split"] else "whole completions")


KINDS = ["mr", "mr", "mw", "mw", "mw", "ir", "iw"]
PARTS = [
    Part("device", responder.case(KINDS, ("dev",)), run, 2500, 60000, "hand-made request TLPs to a device; non-trivial with a write of only some bytes and an answered request"),
    Part("root", responder.case(KINDS, ("rc",)), run, 2000, 60000, "hand-made request TLPs to the root complex; non-trivial as above"),
]
