"""P31: accessors of every width and kind are views of the same bytes."""
import hypothesis.strategies as st
from types import SimpleNamespace
import simcore
import topo
import tlpgen
import cocotb
from cocotb.triggers import Timer
from cocotbext.pcie.core import RootComplex, Device, MemoryEndpoint, Switch
from cocotbext.pcie.core.caps.common import PciCap, PciExtCap, PciCapId, PciExtCapId
from cocotbext.pcie.core.tlp import TlpAttr, TlpTc
from cocotbext.pcie.core.region import Region
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P31"
ASSUMPTIONS = ["accesses stay inside one BAR, host region or capability", "a configuration access that is given up reads as all ones (as the root complex does for an absent function)"]

MEM, IO, CAP = 4096, 256, 15 * 4       # bytes under test in each space; capabilities from their second register on
CAPS = [PciCapId.VNDR, PciCapId.SSVID, PciCapId.HT]
XCAPS = [PciExtCapId.VSEC, PciExtCapId.DSN, PciExtCapId.DVSEC]
FAMS = ["", "_byte", "_word", "_words", "_dword", "_dwords", "_qword", "_qwords"]
OBJS = ["rc_mem", "rc_io", "fn_mem", "fn_io", "rc_cfg", "pci_cfg", "rc_cap", "rc_xcap", "pci_cap", "pci_xcap", "rc_hostmem", "rc_hostio", "rc_region", "rc_ioregion", "fn_alloc", "fn_ioalloc"]
NOT_SLOW = ("rc_hostmem", "rc_hostio", "fn_alloc", "fn_ioalloc")
UNITS = {"ns": 1e3, "us": 1e6, "ps": 1, "step": 1}


class Mem:
    """Registers over a byte array, optionally slow."""

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.mem = bytearray(CAP)
        self.length = 16
        self.hold = 0

    async def _read_register(self, reg):
        if self.hold:
            await Timer(self.hold, "ns")
        return int.from_bytes(self.mem[reg * 4 - 4:reg * 4], "little") if reg else 0

    async def _write_register(self, reg, data, mask):
        if self.hold:
            await Timer(self.hold, "ns")
        for i in range(4):
            if reg and mask >> i & 1:
                self.mem[reg * 4 - 4 + i] = data >> 8 * i & 0xff


class Cap(Mem, PciCap):
    def __init__(self, cap_id):
        super().__init__()
        self.cap_id, self.cap_ver = cap_id, 1


class ExtCap(Mem, PciExtCap):
    def __init__(self, cap_id):
        super().__init__()
        self.cap_id, self.cap_ver = cap_id, 1


class Slow(Region):
    """Host memory over a byte array, optionally slow."""

    def __init__(self, size):
        super().__init__(size=size)
        self.mem = bytearray(size)
        self.hold = 0

    async def read(self, addr, length, **kw):
        if self.hold:
            await Timer(self.hold, "ns")
        return bytes(self.mem[addr:addr + length])

    async def write(self, addr, data, **kw):
        if self.hold:
            await Timer(self.hold, "ns")
        self.mem[addr:addr + len(data)] = data


class Bench:
    """A device with two functions, each with memory, IO and capabilities under test."""

    def __init__(self, c):
        self.c = c
        self.rc = RootComplex()
        self.rc.max_read_request_size = c["mrrs"]
        self.dev = Device()
        self.fns = []
        for i in (0, 1):
            f = MemoryEndpoint()
            f.mem = Slow(MEM)
            f.io = Slow(IO)
            f.add_region(MEM, f.mem.read, f.mem.write, ext=c["ext"], prefetch=c["ext"])
            f.add_region(IO, f.io.read, f.io.write, io=True)
            f.caps = [Cap(x) for x in CAPS]
            f.xcaps = [ExtCap(x) for x in XCAPS]
            for x in f.caps:
                # 16 registers each do not fit beside the others in the first 256 bytes
                x.length = 5
                f.register_capability(x)
            for x in f.xcaps:
                f.register_extended_capability(x)
            self.dev.append_function(f)
            self.fns.append(f)
        port = self.rc.make_port()
        if c["switch"]:
            sw = Switch()
            port.connect(sw)
            port = sw.make_port()
        port.connect(self.dev)
        self.hmem, self.hio = Slow(MEM), Slow(IO)
        self.rc.mem_pool.register_region(self.hmem, 0x1000_0000)
        self.rc.io_pool.register_region(self.hio, 0x1000)
        self.alloc, self.ioalloc = SimpleNamespace(), SimpleNamespace()
        self.alloc.base, self.alloc.mem = self.rc.alloc_region(MEM)
        self.ioalloc.base, self.ioalloc.mem = self.rc.alloc_io_region(IO)

    def target(self, o):
        """(prefix of the accessors, object, leading arguments, first address, storage, first byte under test, bytes under test)"""
        k, fi = o["obj"], o["fn"]
        f = self.fns[fi]
        d = self.rc.find_device(f.pcie_id)
        ci = o["cap"]
        if k.endswith("alloc"):
            return ("io", f, [], self.ioalloc.base, self.ioalloc, IO) if "io" in k else ("mem", f, [], self.alloc.base, self.alloc, MEM)
        if k == "rc_region":
            return "region", self.rc, [], d.bar_addr[0], f.mem, MEM
        if k == "rc_ioregion":
            return "io_region", self.rc, [], d.bar_addr[2 if self.c["ext"] else 1], f.io, IO
        if k == "rc_mem":
            return "mem", self.rc, [], d.bar_addr[0], f.mem, MEM
        if k == "rc_io":
            return "io", self.rc, [], d.bar_addr[2 if self.c["ext"] else 1], f.io, IO
        if k in ("fn_mem", "rc_hostmem"):
            return "mem", f if k[0] == "f" else self.rc, [], 0x1000_0000, self.hmem, MEM
        if k in ("fn_io", "rc_hostio"):
            return "io", f if k[0] == "f" else self.rc, [], 0x1000, self.hio, IO
        x = k.endswith("xcap") or k.endswith("cfg") and o["cap"] & 1
        cap = (f.xcaps if x else f.caps)[ci % 3]
        n = cap.length * 4 - 4
        dev = [f.pcie_id] if k.startswith("rc") else []
        obj = self.rc if dev else d
        if k.endswith("cfg"):
            return "config", obj, dev, cap.offset * 4 + 4, cap, n
        return "capability", obj, dev + [cap.cap_id], 4, cap, n

    def stores(self):
        return [s for f in self.fns for s in [f.mem, f.io] + f.caps + f.xcaps] + [self.hmem, self.hio, self.alloc, self.ioalloc]


@st.composite
def op(draw):
    return {"obj": draw(st.sampled_from(OBJS)), "fn": draw(st.integers(0, 1)), "cap": draw(st.integers(0, 5)), "w": draw(st.booleans()), "fam": draw(st.sampled_from(FAMS)),
            "off": draw(st.one_of(st.integers(0, 12), st.integers(0, MEM - 1))), "n": draw(st.one_of(st.integers(0, 3), st.integers(1, 40), st.integers(20, 500))),
            "bo": draw(st.sampled_from([None, "little", "big", "big"])), "ws": draw(st.sampled_from([None, 1, 2, 3, 4, 8, 12])), "salt": draw(st.integers(0, 999)),
            "pos": draw(st.booleans()), "attr": draw(st.sampled_from([None, 0, 1, 2, 4, 7])), "tc": draw(st.sampled_from([None, 0, 1, 6, 7])),
            "to": draw(st.sampled_from([None, None, None, [400, "us"], [90, "us"], [500000, "ns"], [150000000, "ps"]]))}


case = st.fixed_dictionaries({"ext": st.booleans(), "switch": st.booleans(), "mrrs": st.sampled_from([0, 2]), "hold": st.sampled_from([0, 0, 300]), "ops": many(op(), 2, 24)})
SIZES = {"_byte": 1, "_dword": 4, "_dwords": 4, "_qword": 8, "_qwords": 8}


def plan(o, room):
    """What the access covers: (offset, word size, words); None if it does not fit."""
    fam = o["fam"]
    ws = 1 if not fam else SIZES.get(fam) or o["ws"] or 2
    n = o["n"] if not fam or fam.endswith("s") else 1
    n = min(n, room // ws, 520 // ws)
    if n == 0 and fam and not fam.endswith("s"):
        return None
    off = o["off"] % (room - max(n * ws, 1) + 1)
    return off, ws, n


def number(b, big):
    return sum(x << 8 * i for i, x in enumerate(reversed(b) if big else b))


def arguments(o, prefix, addr, lead, what):
    """Positional and keyword arguments of the call after its leading ones."""
    fam = o["fam"]
    opts = []
    if fam not in ("", "_byte"):
        opts.append(("byteorder", o["bo"], "little"))
        if "_word" in fam:
            opts.append(("ws", o["ws"], 2))
    to = o["to"] or [None, None]
    opts += [("timeout", to[0], 0), ("timeout_unit", to[1], "ns")]
    if prefix == "mem":
        opts += [("attr", None if o["attr"] is None else TlpAttr(o["attr"]), TlpAttr(0)), ("tc", None if o["tc"] is None else TlpTc(o["tc"]), TlpTc(0))]
    args = lead + [addr] + what
    if o["pos"]:
        return args + [d if v is None else v for _, v, d in opts], {}
    return args, {k: v for k, v, _ in opts if v is not None}


def show(o, prefix, off, ws, n):
    return "%s %s_%s%s at %d (%d of %d bytes, %r)" % (o["obj"], prefix, "write" if o["w"] else "read", o["fam"], off, n, ws, {k: o[k] for k in ("bo", "ws", "pos", "to")})


async def perform(o, b, off, ws, n):
    """Calls the accessor; returns what it returned, and the bytes written."""
    prefix, obj, lead, base, store, room = b.target(o)
    fam = o["fam"]
    if "region" in prefix:
        raw = tlpgen.pattern(n, o["salt"])[:n]
        if o["w"]:
            await getattr(obj, "write_" + prefix)(base + off, raw)
            return None, raw, False, True
        return await getattr(obj, "read_" + prefix)(base + off, n), raw, False, True
    many_ = not fam or fam.endswith("s")
    raw = tlpgen.pattern(n * ws, o["salt"])[:n * ws]
    big = o["bo"] == "big" and fam not in ("", "_byte")
    if o["w"]:
        vals = [number(raw[i * ws:i * ws + ws], big) for i in range(n)]
        what = [raw if not fam else vals if many_ else vals[0]]
    else:
        what = [n] if many_ else []
    args, kw = arguments(o, prefix, base + off, lead, what)
    fn = getattr(obj, "%s_%s%s" % (prefix, "write" if o["w"] else "read", fam))
    return await fn(*args, **kw), raw, big, many_


def run(c, ctx):
    kinds = set()

    async def main():
        b = Bench(c)
        w = topo.Wire(keep=False)
        reqs = []
        w.on_tlp = lambda port, t: reqs.append((t.fmt_type.name, int(t.attr), int(t.tc))) if not t.fmt_type.name.startswith("CPL") else None
        with topo.tapped(w):
            await b.rc.enumerate()
            for f in b.fns:
                d = b.rc.find_device(f.pcie_id)
                await d.enable_device()
                await d.set_master()
            model = {}
            for i, s in enumerate(b.stores()):
                s.mem[:] = tlpgen.pattern(len(s.mem), i + 1)[:len(s.mem)]
                s.hold = c["hold"]
                model[id(s)] = bytearray(s.mem)
            for o in c["ops"]:
                prefix, obj, lead, base, store, room = b.target(o)
                if "region" in prefix:
                    o = dict(o, fam="")
                p = plan(o, room)
                if p is None:
                    continue
                off, ws, n = p
                del reqs[:]
                got, raw, big, many_ = await perform(o, b, off, ws, n)
                text = show(o, prefix, off, ws, n)
                m = model[id(store)]
                if o["w"]:
                    m[off:off + n * ws] = raw
                    await Timer(3, "us")
                else:
                    cut = bytes(m[off:off + n * ws])
                    want = cut if not o["fam"] else [number(cut[i * ws:i * ws + ws], big) for i in range(n)]
                    if not many_:
                        want = want[0]
                    if not o["fam"]:
                        got = bytes(got)
                    check(got == want, "%s returns %r instead of %r", text, got, want)
                for s in b.stores():
                    check(bytes(s.mem) == bytes(model[id(s)]), "%s: bytes %s are wrong afterwards", text,
                          ["%s+%d" % (type(s).__name__, i) for i in range(len(s.mem)) if s.mem[i] != model[id(s)][i]][:6])
                if not o["obj"].startswith("rc_host"):
                    want = (o["attr"] or 0, o["tc"] or 0) if prefix == "mem" else (0, 0)
                    check(n == 0 and prefix not in ("mem", "io") or reqs, "%s sends no request", text)
                    check(all(r[1:] == want for r in reqs), "%s sends requests with (attributes, class) %s instead of %s", text, [r[1:] for r in reqs], want)
                kinds.add(o["obj"])
            check(not w.errors, "%s", "; ".join(w.errors[:3]))
    simcore.run(main)
    ctx.nontrivial(len(kinds) >= 3 and any(o["w"] for o in c["ops"]))


# ------------------------------------------------------------------ timeouts

@st.composite
def slow_op(draw):
    o = draw(op())
    o["obj"] = draw(st.sampled_from([x for x in OBJS if x not in NOT_SLOW and "region" not in x]))
    o["n"] = draw(st.integers(1, 8))
    o["to"] = draw(st.sampled_from([[3, "us"], [7, "us"], [1500, "ns"], [20000, "ns"], [2500000, "ps"], [4000000, "step"]]))
    return o


slow_case = st.fixed_dictionaries({"ext": st.booleans(), "switch": st.booleans(), "mrrs": st.sampled_from([0, 2]), "op": slow_op(), "wait": st.booleans(), "absent": st.booleans()})


def slow_run(c, ctx):
    async def main():
        b = Bench(c)
        await b.rc.enumerate()
        for f in b.fns:
            d = b.rc.find_device(f.pcie_id)
            await d.enable_device()
            await d.set_master()
        o = c["op"]
        prefix, obj, lead, base, store, room = b.target(o)
        p = plan(o, room)
        if p is None:
            return
        off, ws, n = p
        text = show(o, prefix, off, ws, n)
        if prefix == "capability" and c["absent"]:
            lead[-1] = PciExtCapId.MRIOV if o["obj"].endswith("xcap") else PciCapId.AGP
            orig = b.target
            b.target = lambda o: (prefix, obj, lead, base, store, room)
            try:
                await perform(o, b, off, ws, n)
            except Exception:
                ctx.nontrivial(True)
                ctx.label("absent capability")
                return
            check(False, "%s of an absent capability succeeds", text)
        t = o["to"][0] * UNITS[o["to"][1]]
        store.hold = 60_000
        if c["wait"]:
            o = dict(o, to=None)
        t0 = simcore.wheel.now
        err = None
        try:
            got, raw, big, many_ = await perform(o, b, off, ws, n)
        except Exception as e:
            err = e
        dt = simcore.wheel.now - t0
        posted = prefix == "mem" and o["w"]
        if c["wait"]:
            # without a timeout the access takes as long as it takes
            check(err is None, "%s without timeout fails: %r", text, err)
            check(posted or dt >= 60_000_000, "%s returns after %d ps although the answer takes 60 us", text, dt)
            ctx.label("waits")
        elif posted:
            check(err is None, "%s (posted) fails: %r", text, err)
            ctx.label("posted")
        else:
            # the requests of a configuration access, or those of one word list, may follow one another
            count = n * ws // 4 + 2
            check(dt >= t - 1, "%s gives up after %d ps, before its timeout", text, dt)
            check(dt <= (count if prefix in ("config", "capability") else 1) * t + 1_500_000, "%s with timeout %r takes %d ps", text, o["to"], dt)
            if prefix in ("config", "capability"):
                check(err is None, "%s that times out fails: %r", text, err)
                if not o["w"]:
                    ones = (1 << 8 * ws) - 1
                    want = b"\xff" * n if not o["fam"] else [ones] * n if many_ else ones
                    check((bytes(got) if not o["fam"] else got) == want, "%s that times out returns %r", text, got)
            else:
                check(err is not None, "%s returns although nobody answers within its timeout", text)
            ctx.label("gives up")
        ctx.nontrivial(True)
        store.hold = 0
        await Timer(1000 if n * ws < 100 else 8000, "us")
    simcore.run(main)


PARTS = [
    Part("views", case, run, 550, 16000, "operations of all accessor families on memory, IO, configuration space and capabilities by the root complex, the function and the "
         "host's device object; non-trivial when at least three kinds of accessor were used and one wrote"),
    Part("timeouts", slow_case, slow_run, 300, 8000, "one access to a completer that takes 60 us, with and without timeout, or to an absent capability"),
]
