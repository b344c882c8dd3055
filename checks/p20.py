"""P20: status registers record exactly the errors that happened to their own function."""
import hypothesis.strategies as st
import simcore  # noqa: F401
from cocotb.triggers import Timer
from cocotbext.pcie.core import RootComplex, Device, MemoryEndpoint, Switch
from cocotbext.pcie.core.bridge import SwitchUpstreamPort
from cocotbext.pcie.core.tlp import Tlp, TlpType, CplStatus
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P20"
ASSUMPTIONS = ["detected parity error and signaled system error are not modelled by the library",
               "a poisoned TLP may, and in the cases the specification names must, set master data parity error where parity error response is enabled"]

MDPE, STA, RTA, RMA = 1 << 24, 1 << 27, 1 << 28, 1 << 29
BITS = 0xf9 << 24
MODES = ["ok", "ur", "ca", "crs", "poison"]

ep = st.fixed_dictionaries({"t": st.just("ep"), "n": st.integers(1, 2)})


@st.composite
def tree(draw):
    budget = [draw(st.integers(1, 3))]

    def nodes(d):
        out = []
        while budget[0] > 0 and len(out) < 3:
            if d and draw(st.integers(0, 1)) == 0:
                out.append({"t": "sw", "c": nodes(d - 1)})
            else:
                budget[0] -= 1
                out.append(draw(ep))
            if out and draw(st.integers(0, 2)) == 0:
                break
        return out
    return nodes(2)


who = st.integers(0, 12)
op = mix(
    st.tuples(st.just("read"), who, st.integers(0, 15), st.sampled_from(MODES)),
    st.tuples(st.just("read"), who, st.integers(0, 15), st.sampled_from(MODES)),
    st.tuples(st.just("write"), who, st.integers(0, 15), st.booleans()),
    st.tuples(st.just("write"), who, st.integers(0, 15), st.booleans()),
    st.tuples(st.just("io"), who, st.integers(0, 2), st.booleans()),
    st.tuples(st.just("cfg"), st.integers(0, 3), st.booleans()),
    st.tuples(st.just("per"), who, st.booleans(), st.booleans()),
    st.tuples(st.just("clear"), who, st.integers(0, 255), st.booleans()),
    st.tuples(st.just("set"), who, st.integers(0, 4), st.booleans()),
).map(list)
case = st.fixed_dictionaries({"nodes": tree(), "per": st.lists(st.booleans(), min_size=1, max_size=5), "tags": st.sampled_from([256, 1, 2]), "ops": many(op, 1, 20)})


class Answers:
    """A function whose BAR 0 reads are answered as `mode` says."""
    mode = "ok"

    def arm(self):
        for t in (TlpType.MEM_READ, TlpType.MEM_READ_64):
            self.register_rx_tlp_handler(t, self.answer)
        for t in (TlpType.MEM_WRITE, TlpType.MEM_WRITE_64):
            self.register_rx_tlp_handler(t, self.sink)

    async def sink(self, tlp):
        self.got = tlp.ep

    async def answer(self, tlp):
        if self.mode in ("ok", "poison"):
            cpl = Tlp.create_completion_data_for_tlp(tlp, self.pcie_id)
            cpl.set_data(bytes(range(tlp.length * 4)))
            cpl.byte_count = tlp.length * 4
            cpl.ep = self.mode == "poison"
        else:
            cpl = Tlp.create_completion_for_tlp(tlp, self.pcie_id)
            cpl.status = CplStatus[self.mode.upper()]
        await self.send(cpl)


class Fn(Answers, MemoryEndpoint):
    pass


def bridge_class(base):
    class Br(Answers, base):
        pass
    return Br


class Sw(Switch):
    def __init__(self):
        self.default_upstream_bridge = bridge_class(SwitchUpstreamPort)
        super().__init__()


class Node:
    def __init__(self, f, parent, up=None):
        self.f, self.parent = f, parent      # parent: chain of Nodes (bridges) towards the root
        self.st = 0                          # status bits set for certain
        self.sec = 0
        self.per = self.bper = False
        self.bridge = hasattr(f, "sec_bus_num")


def run(c, ctx):
    stats = {"err": 0, "poison": 0, "clear": 0}

    async def main():
        rc = RootComplex()
        nodes = []

        def add(dev_parent, parent, n):
            br = dev_parent.default_downstream_bridge
            br = bridge_class(br)()
            br.configure_bar(0, 4096)
            br.arm()
            dev_parent.make_port(bridge=br)
            p = Node(br, parent)
            nodes.append(p)
            if n["t"] == "sw":
                sw = Sw()
                up = sw.upstream_bridge
                up.configure_bar(0, 4096)
                up.arm()
                u = Node(up, p)
                nodes.append(u)
                br.connect(sw)
                for ch in n["c"]:
                    add(sw, u, ch)
            else:
                d = Device()
                for _ in range(n["n"]):
                    f = Fn()
                    f.add_region(4096)
                    f.arm()
                    d.append_function(f)
                    nodes.append(Node(f, p))
                br.connect(d)
        for n in c["nodes"]:
            add(rc, None, n)
        await rc.enumerate()
        host = rc.mem_pool.alloc_region(4096)
        hosta = host.get_absolute_address(0)
        hostio = rc.io_pool.alloc_region(64).get_absolute_address(0)

        async def boom(*a, **k):
            raise Exception("no")
        bad = rc.mem_pool.alloc_region(4096)
        bada = bad.get_absolute_address(0)
        bad._read = bad.read = boom
        bad._write = bad.write = boom
        for i, n in enumerate(nodes):
            d = rc.find_device(n.f.pcie_id)
            check(d is not None, "function %d was not found", i)
            await d.enable_device()
            await d.set_master()
            n.pci = d
            n.addr = d.bar_addr[0]
            n.f.tag_count = c["tags"]
            n.per = c["per"][i % len(c["per"])]
            cmd = await d.config_read_word(4)
            await d.config_write_word(4, cmd | 0x40 if n.per else cmd & ~0x40)
            if n.bridge:
                n.bper = c["per"][(i + 1) % len(c["per"])]
                bc = await d.config_read_word(0x3e)
                await d.config_write_word(0x3e, bc | 1 if n.bper else bc & ~1)
            # enumeration probes absent functions; none of these bits is set by that
        reqs = [n for n in nodes if not n.bridge] + [n for n in nodes if n.bridge]

        async def compare(what, may=None, smay=None):
            may, smay = may or {}, smay or {}
            for i, n in enumerate(nodes):
                v = await n.f.read_config_register(1) & BITS
                m = may.get(id(n), 0)
                check(n.st & ~v == 0, "%s: status of function %d is 0x%08x, bits 0x%08x are missing", what, i, v, n.st & ~v)
                check(v & ~(n.st | m) == 0, "%s: status of function %d is 0x%08x, bits 0x%08x should not be set", what, i, v, v & ~(n.st | m))
                n.st = v
                if n.bridge:
                    v = await n.f.read_config_register(7) & BITS
                    m = smay.get(id(n), 0)
                    check(n.sec & ~v == 0, "%s: secondary status of bridge %d is 0x%08x, bits 0x%08x are missing", what, i, v, n.sec & ~v)
                    check(v & ~(n.sec | m) == 0, "%s: secondary status of bridge %d is 0x%08x, bits 0x%08x should not be set", what, i, v, v & ~(n.sec | m))
                    n.sec = v

        def chain(n):
            out = []
            n = n.parent
            while n:
                out.append(n)
                n = n.parent
            return out

        def poison(src, dst, cpl):
            """Bits a poisoned TLP from src to dst (None: root complex) must and may set."""
            may, smay = {}, {}
            up = chain(src) if src else []
            down = chain(dst) if dst else []
            # a function below a bridge is reached through the bridge; the bridge itself is an end point of the path
            if dst in up:
                up = up[:up.index(dst)]
                down = []
                last = dst
            elif src in down:
                down = down[:down.index(src)]
                up = []
                last = None
            else:
                common = [n for n in up if n in down]
                up = [n for n in up if n not in common]
                down = [n for n in down if n not in common]
                last = None
                # the turn is made inside the switch; whether it touches the upstream port is not specified
                for n in common[:1]:
                    may[id(n)] = MDPE if n.per else 0
                    smay[id(n)] = MDPE if n.bper else 0
            for n in up:
                if n.per:
                    may[id(n)] = MDPE
                    if not cpl:
                        n.st |= MDPE         # transmits a poisoned request upstream
                if n.bper:
                    smay[id(n)] = MDPE
                    if cpl:
                        n.sec |= MDPE        # receives a poisoned completion from below
            for n in down:
                if n.per:
                    may[id(n)] = MDPE
                    if cpl:
                        n.st |= MDPE         # receives a poisoned completion going down
                if n.bper:
                    smay[id(n)] = MDPE
                    if not cpl:
                        n.sec |= MDPE        # transmits a poisoned request downstream
            for n, must in ((src, not cpl), (dst, cpl)):
                if n is None:
                    continue
                other = dst if n is src else src
                below = n.bridge and other is not None and n in chain(other)     # the TLP is on the secondary side
                if n.per:
                    may[id(n)] = MDPE
                    if must and not below:
                        n.st |= MDPE
                if n.bridge and n.bper:
                    smay[id(n)] = MDPE
                    if must and below:
                        n.sec |= MDPE
            return may, smay

        await compare("after enumeration")
        for k, o in enumerate(c["ops"]):
            what = "op %d %r" % (k, o)
            may, smay = {}, {}
            if o[0] in ("read", "write"):
                w = o[1] % (len(reqs) + 1)
                src = reqs[w - 1] if w else None
                tg = nodes + [None, None, None]
                t = tg[o[2] % len(tg)]
                kind = "fn"
                if t is None:
                    kind = ["host", "bad", "none"][o[2] % len(tg) - len(nodes)]
                if t is src and t is not None or t is None and src is None and kind != "none":
                    continue
                if src and t and not t.bridge and t.parent is src.parent:
                    continue        # function of the same device
                addr = {"fn": t.addr if t else 0, "host": hosta, "bad": bada, "none": 0xfff00000}[kind]
                req = src.f if src else rc
                r = Tlp()
                r.set_addr_be(addr + 16, 8)
                r.requester_id = src.f.pcie_id if src else r.requester_id
                if o[0] == "write":
                    r.fmt_type = TlpType.MEM_WRITE if addr < 1 << 32 else TlpType.MEM_WRITE_64
                    r.set_data(bytes(8))
                    r.ep = o[3]
                    if o[3]:
                        if kind == "none":
                            continue
                        stats["poison"] += 1
                        may, smay = poison(src, t, False)
                    await req.perform_posted_operation(r)
                else:
                    r.fmt_type = TlpType.MEM_READ if addr < 1 << 32 else TlpType.MEM_READ_64
                    r.length = 2
                    mode = o[3]
                    if kind != "fn":
                        mode = {"host": "ok", "bad": "ca", "none": "ur"}[kind]
                    else:
                        t.f.mode = mode
                    if mode == "poison":
                        stats["poison"] += 1
                        may, smay = poison(t, src, True)
                    if mode in ("ur", "ca"):
                        stats["err"] += 1
                        if src:
                            b = RMA if mode == "ur" else RTA
                            if src.bridge and t is not None and src in chain(t):
                                src.sec |= b         # a bridge reads from below
                            else:
                                src.st |= b
                        if mode == "ca" and kind == "fn":
                            if t.bridge and src is not None and t in chain(src):
                                t.sec |= STA
                            elif t.bridge and src is None:
                                t.st |= STA
                            elif t.bridge:
                                t.st |= STA
                            else:
                                t.st |= STA
                    cpl = await req.perform_nonposted_operation(r, 100, "us")
                    check(len(cpl) == 1, "%s: %d completions", what, len(cpl))
                    check(cpl[0].status == CplStatus[{"ok": "SC", "poison": "SC"}.get(mode, mode.upper())], "%s: status %r", what, cpl[0].status)
                    check(bool(cpl[0].ep) == (mode == "poison"), "%s: poisoned flag of the completion is %r", what, cpl[0].ep)
            elif o[0] == "io":
                src = reqs[o[1] % len(reqs)]
                r = Tlp()
                r.requester_id = src.f.pcie_id
                r.fmt_type = TlpType.IO_WRITE if o[3] else TlpType.IO_READ
                good = o[2] == 0
                r.set_addr_be(hostio + 8 if good else 0xfff00000, 4)
                if o[3]:
                    r.set_data(bytes(4))
                if not good:
                    stats["err"] += 1
                    src.st |= RMA
                cpl = await src.f.perform_nonposted_operation(r, 100, "us")
                check(len(cpl) == 1 and cpl[0].status == (CplStatus.SC if good else CplStatus.UR), "%s: completions %r", what, cpl)
            elif o[0] == "cfg":
                # configuration accesses to functions that are not there are nobody's error but the host's
                n = nodes[o[1] % len(nodes)]
                dev = n.f.pcie_id._replace(device=31, function=7)
                if o[2]:
                    await rc.config_read(dev, 0, 4)
                else:
                    await rc.config_write(dev, 4, b"\xff\xff\xff\xff")
            elif o[0] == "per":
                n = nodes[o[1] % len(nodes)]
                if o[2] and n.bridge:
                    n.bper = o[3]
                    bc = await n.pci.config_read_word(0x3e)
                    await n.pci.config_write_word(0x3e, bc | 1 if n.bper else bc & ~1)
                else:
                    n.per = o[3]
                    cmd = await n.pci.config_read_word(4)
                    await n.pci.config_write_word(4, cmd | 0x40 if n.per else cmd & ~0x40)
            elif o[0] == "clear":
                n = nodes[o[1] % len(nodes)]
                stats["clear"] += bool(n.st)
                if o[3] and n.bridge:
                    await n.pci.config_write_word(0x1e, o[2] << 8)
                    n.sec &= ~(o[2] << 24)
                else:
                    await n.pci.config_write_word(6, o[2] << 8)
                    n.st &= ~(o[2] << 24)
            else:
                # the device model reports an error itself
                n = nodes[o[1] % len(nodes)]
                b = [MDPE, STA, RTA, RMA, 1 << 31][o[2]]
                name = ["master_data_parity_error", "signaled_target_abort", "received_target_abort", "received_master_abort", "detected_parity_error"][o[2]]
                if o[3] and n.bridge:
                    setattr(n.f, "sec_" + name, True)
                    n.sec |= b
                else:
                    setattr(n.f, name, True)
                    n.st |= b
            await Timer(3, "us")
            await compare(what, may, smay)
    simcore.run(main, max_time_ns=30_000_000, max_events=3_000_000)
    ctx.nontrivial(stats["err"] > 0 and (stats["poison"] > 0 or stats["clear"] > 0))
    ctx.label("errors %s" % min(3, stats["err"]))
    ctx.label("poisoned %s" % min(3, stats["poison"]))


PARTS = [Part("status", case, run, 260, 9000, "histories of successful, aborted, unclaimed and poisoned requests between root complex, functions and bridges; non-trivial with an error and a poisoned TLP or a cleared bit")]
