"""P30: links carry packets at the speed and width they negotiate."""
import hypothesis.strategies as st
import simcore
import topo
import traffic
import tlpgen
import linkbench as lb
import cocotb
from cocotb.triggers import Timer
from runner import Part, check
from cocotbext.pcie.core.dllp import Dllp
from cocotbext.pcie.core.port import SimPort

PROPERTY = "P30"
ASSUMPTIONS = ["a TLP occupies the link for its header and payload plus 8 bytes, a DLLP for 8 bytes (the size the models document); a link whose speed or width neither "
               "end states takes no time beyond the delay of the ports", "Max_Payload_Size for the acknowledgement latency limit is 128 bytes",
               "times are compared with a tolerance of 2 ps per packet (the simulator counts whole picoseconds)"]

# useful bits per second and lane after line coding
RATE = {1: 2.0e9, 2: 4.0e9, 3: 8e9 * 128 / 130, 4: 16e9 * 128 / 130, 5: 32e9 * 128 / 130}
# PCIe Base Specification: Ack latency limit, (MPS + overhead) * AckFactor / width + internal delay, for Max_Payload_Size 128
FACTOR = {1: 1.4, 2: 1.4, 4: 1.4, 8: 2.5, 12: 3.0, 16: 3.0, 32: 3.0}
DELAY = {1: 19, 2: 70, 3: 115, 4: 115, 5: 115}
TOL = 2


def common(a, b):
    return b if a is None else a if b is None else min(a, b)


class Model:
    """What the link between two ports with these abilities does, in picoseconds."""

    def __init__(self, speeds, widths, delays):
        self.speed, self.width = common(*speeds), common(*widths)
        self.timed = self.speed is not None and self.width is not None
        self.delay = max(sum(delays) * 1e12, 1) if self.timed else 1

    def ser(self, size):
        return size * 8e12 / (RATE[self.speed] * self.width) if self.timed else 1

    def latency(self):
        if not self.timed:
            return 1
        return ((128 + 28) * FACTOR[self.width] / self.width + DELAY[self.speed]) * 8e12 / RATE[self.speed]


def size_of(pkt):
    """Bytes on the wire of a recorded packet."""
    if pkt[0] == "dllp":
        return 8
    d, data = pkt[2], pkt[3]
    four = d["kind"].startswith("MSG") or tlpgen.four_dw(d["kind"])
    return (16 if four else 12) + len(data) + 8


SPEED = st.sampled_from([None, 1, 2, 3, 4, 5, 5, 3])
WIDTH = st.sampled_from([None, 1, 2, 4, 8, 16, 16, 8])
DELAYS = st.sampled_from([5e-9, 5e-9, 0, 1e-9, 40e-9, 1e-6])


@st.composite
def case(draw):
    side = lambda: {"speed": draw(SPEED), "width": draw(WIDTH), "delay": draw(DELAYS)}
    item = st.tuples(st.integers(0, 1), st.sampled_from([0, 0, 0, 1, 30, 2000, 11000]), tlpgen.tlp_case(max_dw=64))
    return {"fc": draw(st.booleans()), "ports": [side(), side()], "swap": draw(st.booleans()), "items": draw(st.lists(item, min_size=1, max_size=40))}


def run(c, ctx):
    out = {}

    async def main():
        log = [[], []]          # arrivals at each end: (time, packet)
        ports = []

        def tap(p, pkt):
            log[ports.index(p)].append((simcore.wheel.now, lb.snap(pkt)))
        for s in c["ports"]:
            p = lb.TapPort(tap, [127, 2047] * 3 if c["fc"] else [0] * 6)
            p.max_link_speed, p.max_link_width, p.port_delay = s["speed"], s["width"], s["delay"]
            ports.append(p)

            async def sink(t):
                t.release_fc()
            p.rx_handler = sink
        a, b = (1, 0) if c["swap"] else (0, 1)
        ports[a].connect(ports[b])
        out.update(log=log, ports=ports)
        await Timer(30, "us")
        sent = [[], []]
        idle = [[], []]

        async def sender(side):
            await Timer(1, "ns")
            for s, gap, t in c["items"]:
                if s != side:
                    continue
                if gap:
                    await Timer(gap, "ns")
                tlp = tlpgen.build(t)
                sent[side].append((simcore.wheel.now, gap))
                await ports[side].send(tlp)
        tasks = [cocotb.start_soon(sender(i)) for i in (0, 1)]
        for t in tasks:
            await t.join()
        await Timer(30, "us")
        out["sent"] = sent
    simcore.run(main)
    m = Model(*[[s[k] for s in c["ports"]] for k in ("speed", "width", "delay")])
    for p in out["ports"]:
        check((p.cur_link_speed, p.cur_link_width) == (m.speed, m.width), "a link between %r negotiates speed %r, width %r", c["ports"], p.cur_link_speed, p.cur_link_width)
    busy = 0
    for side in (0, 1):
        rx = out["log"][1 - side]
        tlps = [(t, p) for t, p in rx if p[0] == "tlp"]
        offers = out["sent"][side]
        check(len(tlps) == len(offers), "%d TLPs sent, %d arrived", len(offers), len(tlps))
        prev = None
        n = 0
        for i, (t, p) in enumerate(rx):
            s = m.ser(size_of(p))
            if prev is not None:
                check(t - prev >= s - TOL, "%s of %d bytes arrives %d ps after the previous packet; it takes %g ps at gen %r x%r", p[0], size_of(p), t - prev, s, m.speed, m.width)
            if p[0] == "tlp":
                t0, gap = offers[n]
                n += 1
                # not sooner than it can be, and without any idle time on the link while it waits
                start = max(t0, 0 if prev is None else prev - m.delay)
                best = start + s + m.delay
                check(t >= t0 + s + m.delay - TOL, "TLP offered at %d ps arrives at %d ps, %g ps plus %g ps delay earliest", t0, t, s, m.delay)
                if prev is not None and t0 + m.delay <= prev:
                    busy += 1
                check(t <= best + TOL, "TLP offered at %d ps, link free at %g ps, arrives at %d ps; %g ps plus %g ps delay expected", t0, start, t, s, m.delay)
            prev = t
        # acknowledgement latency: the limit, the packet in progress, the DLLP itself, the way back
        back = out["log"][side]
        acks = [(t, p[2]) for t, p in back if p[0] == "dllp" and p[1] == "ACK"]
        big = max([m.ser(size_of(p)) for _, p in back if p[0] == "tlp"], default=0)
        lim = m.latency() + max(big, m.ser(8)) + m.ser(8) + m.delay + 10
        for k, (t, p) in enumerate(tlps):
            hit = [ta for ta, q in acks if ta > t and ((q - p[1]) & 0xfff) < 2048]
            check(hit and hit[0] <= t + lim, "TLP %d arrived at %d ps, acknowledged at %r ps, limit %g ps", p[1], t, hit[:1], lim)
        # the same for the credits of each class (all are returned at once here)
        done = {"P": 0, "NP": 0, "CPL": 0}
        for t, p in tlps if c["fc"] else []:
            cls = lb.fc_kind(p[2]["kind"])
            done[cls] += 1
            hit = [tu for tu, q in back if tu > t and q[0] == "dllp" and q[1] == "UPDATE_FC_" + cls and (q[4] - 127 - done[cls]) & 0xff < 128]
            check(hit and hit[0] <= t + lim + 3 * m.ser(8), "%s TLP %d consumed at %d ps, its credit came back at %r ps, limit %g ps", cls, p[1], t, hit[:1], lim + 3 * m.ser(8))
    ctx.nontrivial(m.timed and busy > 3)
    ctx.label("gen %s x%s" % (m.speed, m.width) if m.timed else "untimed")


# --------------------------------------------------------------- topologies

def with_links(draw, nodes):
    """Give both ends of every link a speed and width."""
    out = []
    for n in nodes:
        n = dict(n)
        if n["t"] != "int":
            n["up"] = [draw(SPEED), draw(WIDTH)]
            n["speed"], n["width"] = draw(SPEED), draw(WIDTH)
        if n["t"] == "sw":
            n["c"] = with_links(draw, n["c"])
        out.append(n)
    return out


@st.composite
def tree_case(draw):
    c = draw(traffic.case(["rc", "dma", "dma", "p2p"]))
    c["nodes"] = with_links(draw, c["nodes"])
    return c


class Lines(topo.Wire):
    """Times of all packets on all links."""

    def __init__(self):
        super().__init__(keep=False)
        self.prev = {}
        self.models = {}
        self.count = 0

    def note(self, port, pkt):
        super().note(port, pkt)
        other = port.other
        ends = (port, other)
        m = Model(*[[getattr(p, k) for p in ends] for k in ("max_link_speed", "max_link_width", "port_delay")])
        if (port.cur_link_speed, port.cur_link_width) != (m.speed, m.width):
            self._err("a link negotiated %r, %r instead of %r, %r", port.cur_link_speed, port.cur_link_width, m.speed, m.width)
        now = simcore.wheel.now
        size = size_of(lb.snap(pkt))
        prev = self.prev.get(id(port))
        if m.timed:
            self.count += 1
        if prev is not None and now - prev < m.ser(size) - TOL:
            self._err("a packet of %d bytes arrives %d ps after the previous one; it takes %g ps at gen %r x%r", size, now - prev, m.ser(size), m.speed, m.width)
        self.prev[id(port)] = now


def tree_run(c, ctx):
    w = Lines()
    traffic.run(c, ctx, w)
    check(not w.errors, "%s", "; ".join(w.errors[:3]))
    ctx.nontrivial(w.count > 30)


PARTS = [
    Part("link", case(), run, 900, 24000, "two ports with random speeds, widths and delays, bursts and single packets both ways; non-trivial when a timed link was kept "
         "busy for more than three packets"),
    Part("tree", tree_case(), tree_run, 150, 4000, "generated topologies and traffic with random abilities at both ends of every link; non-trivial when more than 30 packets "
         "crossed timed links"),
]
