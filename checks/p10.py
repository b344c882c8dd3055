"""P10: all traffic the models generate obeys the wire rules."""
import hypothesis.strategies as st
import simcore  # noqa: F401
import topo
import traffic
import legal
from runner import Part, check
from cocotbext.pcie.core.utils import PcieId

PROPERTY = "P10"
ASSUMPTIONS = ["Max_Payload_Size and Max_Read_Request_Size are those configured in the transmitting function (for the root complex, its max_payload_size and "
               "max_read_request_size attributes)", "read completion boundary: 64 or 128 bytes for the root complex as configured, 128 bytes for endpoints"]


def run(c, ctx):
    built = []
    orig = topo.Built.__init__

    def origin(pid):
        b = built[0]
        rc = b.rc
        pid = PcieId(pid)
        if pid == PcieId(0, 0, 0):
            return {"mps": 128 << rc.max_payload_size, "mrrs": 128 << rc.max_read_request_size, "tags": rc.tag_count,
                    "rcb": 128 if rc.read_completion_boundary else 64}
        for f, _ in b.funcs:
            if f.pcie_id == pid:
                return {"mps": 128 << f.pcie_cap.max_payload_size, "mrrs": 128 << f.pcie_cap.max_read_request_size,
                        "tags": 256 if f.pcie_cap.extended_tag_field_enable else 32, "rcb": 128}
        for br in b.ports + [s.upstream_bridge for s in b.switches]:
            if br.pcie_id == pid:
                return {"mps": 128 << br.pcie_cap.max_payload_size, "mrrs": 4096, "tags": 256, "rcb": 128}
        # function not yet assigned its bus number: completions of unconfigured devices
        return None

    class B(topo.Built):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            built.append(self)
    w = topo.Wire(keep=False)
    lg = legal.Legal(origin)
    w.on_tlp = lg.on_tlp
    save, topo.Built = topo.Built, B
    try:
        traffic.run(c, ctx, w)
    finally:
        topo.Built = save
    ctx.nontrivial(lg.stats["split"] > 0)
    ctx.label("split completions" if lg.stats["split"] else "whole completions")
    check(not lg.errors, "%s", "; ".join(lg.errors[:3]))
    check(not lg.outstanding(), "requests never completed: %s", lg.outstanding()[:3])


PARTS = [
    Part("mixed", traffic.case(["rc", "dma", "dma", "p2p"], attrs=True), run, 280, 6000,
         "generated topology and traffic; non-trivial when a read was answered by more than one completion"),
    Part("single", traffic.case(["rc", "dma", "dma"], max_eps=1, depth=1, max_f=2, max_ops=12, attrs=True), run, 500, 12000,
         "one device, random MPS, MRRS, RCB, tag limits, TC and attributes; non-trivial as above"),
    Part("edge", traffic.edge_case(["rc", "rc", "p2p"]), run, 60, 2000,
         "a BAR that fills a whole window, up to 4 GB or 2^64, accessed at its end; non-trivial as above"),
]
