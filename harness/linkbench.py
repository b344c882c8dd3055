"""Two simulated link partners with a wire tap, and a hand-written link peer."""
import simcore
import cocotb
from cocotb.triggers import Timer, Event, First
from cocotb.queue import Queue
from cocotbext.pcie.core.port import Port, SimPort
from cocotbext.pcie.core.dllp import Dllp, DllpType
from cocotbext.pcie.core.tlp import Tlp
import tlpgen
from runner import Violation

FC_KINDS = {"P": 0, "NP": 2, "CPL": 4}


def fc_kind(name):
    if name in ("CPL", "CPL_DATA", "CPL_LOCKED", "CPL_LOCKED_DATA"):
        return "CPL"
    return "P" if name.startswith(("MEM_WRITE", "MSG")) else "NP"


def credits(c):
    return (c["length"] + 3) // 4 if tlpgen.has_data(c["kind"]) else 0


def snap(pkt):
    """Immutable record of a packet as it is on the wire now."""
    if isinstance(pkt, Dllp):
        return ("dllp", pkt.type.name, pkt.seq, pkt.vc, pkt.hdr_fc, pkt.data_fc)
    d = tlpgen.observe(pkt)
    return ("tlp", pkt.seq, d, bytes(pkt.data))


def ident(d, data):
    return tuple(sorted(d.items())) + (data,)


def expect(c):
    data = tlpgen.pattern(c["length"] * 4, c["salt"]) if tlpgen.has_data(c["kind"]) else b""
    return ident(tlpgen.fields(c), data)


class TapPort(SimPort):
    """SimPort that records everything that arrives at it."""

    def __init__(self, tap=None, fc_init=None):
        self.tap = tap
        super().__init__(fc_init=[fc_init] * 8 if fc_init is not None else [[0] * 6] * 8)

    async def ext_recv(self, pkt):
        self.tap(self, pkt)
        await super().ext_recv(pkt)


class PeerPort(Port):
    """Port under test whose other end is a harness model.

    `on_tx(pkt)` sees every packet the port sends; the harness injects packets
    with `await port.ext_recv(pkt)`.
    """

    def __init__(self, on_tx, fc_init, symbol_ps=400):
        self.on_tx = on_tx
        self.symbol_ps = symbol_ps
        super().__init__(fc_init=[fc_init] * 8)

    async def handle_tx(self, pkt):
        await Timer(max(1, pkt.get_wire_size() * self.symbol_ps), "step")
        self.on_tx(pkt)


def dllp(kind, seq=0, hdr=0, data=0, vc=0):
    d = Dllp()
    d.type = DllpType[kind]
    d.seq = seq
    d.hdr_fc = hdr
    d.data_fc = data
    d.vc = vc
    return d


class StarvedError(Violation):
    pass


class Partner:
    """Hand-written link partner of a PeerPort: answers flow-control
    initialisation, acknowledges nothing unless asked, and lets the harness
    exchange TLPs.  Grants infinite credits unless `grant` is given as
    [ph, pd, nph, npd, cplh, cpld]."""

    KINDS = ("P", "NP", "CPL")

    def __init__(self, fc_init, symbol_ps=400, grant=None, ack=True):
        self.grant = grant or [0] * 6
        self.rx = []                     # TLPs the port sent
        self.rx_event = Event()
        self.dllps = []                  # (time, snapshot)
        self.seq = 0
        self.ack = ack
        self.sent = {k: [0, 0] for k in self.KINDS}          # what we sent
        self.adv = {}                    # what the port advertised: cls -> [init, limit]
        self.errors = []
        self.on_tlp = None
        self.port = PeerPort(self._on_tx, fc_init, symbol_ps)
        cocotb.start_soon(self._handshake())

    async def _handshake(self):
        # InitFC2 only after the port's own three InitFC1 have arrived
        for stage in ("INIT_FC1_", "INIT_FC2_"):
            for i, k in enumerate(self.KINDS):
                await self.port.ext_recv(dllp(stage + k, hdr=self.grant[2 * i], data=self.grant[2 * i + 1]))
                await Timer(1, "ns")
            while len(self.adv) < 3:
                await Timer(5, "ns")

    def _on_tx(self, pkt):
        if isinstance(pkt, Dllp):
            self.dllps.append((simcore.wheel.now, snap(pkt)))
            n = pkt.type.name
            if "FC" in n:
                cls = n.split("_")[-1]
                v = [pkt.hdr_fc, pkt.data_fc]
                if n.startswith("INIT"):
                    self.adv.setdefault(cls, [tuple(v), list(v)])
                else:
                    init, lim = self.adv[cls]
                    for i, mod in enumerate((256, 4096)):
                        if init[i]:
                            lim[i] += (v[i] - lim[i]) % mod
            return
        t = Tlp(pkt)
        t.seq = pkt.seq
        self.rx.append(t)
        if self.ack:
            cocotb.start_soon(self.port.ext_recv(dllp("ACK", seq=pkt.seq)))
        self.rx_event.set()
        if self.on_tlp:
            self.on_tlp(t)

    async def send(self, tlp):
        """Deliver a TLP to the port, waiting for the credits it advertised."""
        cls = fc_kind(tlp.fmt_type.name)
        need = (1, (len(tlp.data) + 15) // 16)
        waited = 0
        while True:
            a = self.adv.get(cls)
            if a and all(a[0][i] == 0 or self.sent[cls][i] + need[i] <= a[1][i] for i in (0, 1)):
                break
            await Timer(100, "ns")
            waited += 1
            if waited > 2000:
                raise StarvedError("no %s credits for 200 us: sent %r, limit %r" % (cls, self.sent[cls], a))
        for i in (0, 1):
            self.sent[cls][i] += need[i]
        tlp.seq = self.seq
        self.seq = (self.seq + 1) & 0xfff
        await self.port.ext_recv(tlp)

    def leaked(self):
        return ["%s %s" % (k, ("header", "data")[i]) for k, (init, lim) in self.adv.items() for i in (0, 1)
                if init[i] and lim[i] - self.sent[k][i] != init[i]]

    async def wait_tlp(self, n, timeout_us=200):
        """Wait until at least n TLPs have been received from the port."""
        end = simcore.wheel.now + timeout_us * 1_000_000
        while len(self.rx) < n:
            self.rx_event.clear()
            await First(self.rx_event.wait(), Timer(timeout_us, "us"))
            if simcore.wheel.now >= end and len(self.rx) < n:
                return False
        return True


def park(port):
    """Leave a default port that is about to be replaced on a silent link."""
    SimPort(fc_init=[[0] * 6] * 8).connect(port)


def root_port(rc, port):
    br = rc.default_downstream_bridge()
    br.pcie_cap.max_payload_size_supported = rc.upstream_bridge.pcie_cap.max_payload_size_supported
    br.pcie_cap.extended_tag_supported = rc.upstream_bridge.pcie_cap.extended_tag_supported
    park(br.downstream_port)
    return rc.make_port(bridge=br, port=port)


def device_port(dev, port):
    park(dev.upstream_port)
    dev.set_port(port)
