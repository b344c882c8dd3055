"""Generated memory and IO traffic over generated topologies, against byte arrays."""
import hypothesis.strategies as st
import simcore
import topo
import tlpgen
import cocotb
from cocotb.triggers import Timer, Event
from cocotbext.pcie.core.tlp import TlpAttr, TlpTc
from cocotbext.axi import MemoryRegion
from runner import check

LENS = [0, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 384, 511, 512, 513, 1000, 1024, 2048, 4095, 4096, 4097, 5000, 9000]
DWLEN = st.one_of(st.sampled_from(LENS), st.integers(0, 300))
OFF = st.one_of(st.integers(0, 20), st.integers(0, 1 << 20), st.sampled_from([0xffc, 0xfff, 0x1000, 0x7c, 0x7f, 0x80, 0x3f, 0x40, 0xf80, 0x1ffd]))

op = st.fixed_dictionaries({"k": st.sampled_from(["r", "r", "w"]), "t": st.integers(0, 63), "off": OFF, "len": DWLEN, "salt": st.integers(1, 250),
                            "gap": st.sampled_from([0, 0, 0, 0, 10, 300, 5000])})


# host memory elsewhere in the address space: base address for a region of a given size
HIGH = {"4G": lambda n: 1 << 32, "5G": lambda n: 0x1_4000_0000, "8G": lambda n: (1 << 33) - n // 4, "32T": lambda n: 0x2000_1234_0000, "top": lambda n: (1 << 63) - n}


@st.composite
def case(draw, whos, max_streams=4, max_ops=8, max_eps=3, depth=2, host=True, attrs=False, **kw):
    nodes = draw(topo.tree(max_eps=max_eps, depth=depth, **kw))
    n = draw(st.integers(1, max_streams))
    return {"rc": draw(topo.rc_cfg), "nodes": nodes,
            "host": draw(st.lists(st.integers(6, 16), min_size=1, max_size=2)) if host else [],
            "hostio": draw(st.lists(st.integers(2, 9), max_size=1)) if host else [],
            "high": draw(st.lists(st.tuples(st.sampled_from(sorted(HIGH)), st.integers(6, 14)), max_size=1)) if host else [],
            "attrs": draw(st.lists(st.tuples(st.integers(0, 7), st.integers(0, 7)), min_size=1, max_size=4)) if attrs else [],
            "mrrs": draw(st.lists(st.sampled_from([2, 0, 1, 3, 5]), min_size=1, max_size=3)),
            "streams": [{"who": draw(st.sampled_from(whos)) if not callable(whos) else draw(whos()), "sel": draw(st.integers(0, 7)),
                         "ops": draw(tlpgen.many(op, 1, max_ops))} for _ in range(n)]}


class Target:
    def __init__(self, name, mem, addr, size, io, fn=None, window=None):
        self.name, self.mem, self.addr, self.size, self.io, self.fn, self.window = name, mem, addr, size, io, fn, window
        init = tlpgen.pattern(size, 7 + len(name))
        mem[0:size] = init
        self.model = bytearray(init)
        self.stray = []


@st.composite
def edge_case(draw, whos):
    """A BAR that fills a root complex window completely, and another device."""
    c = draw(case(whos, max_eps=1, max_ops=8, host=False))
    kind = draw(st.sampled_from(["m32", "m32", "io", "p64"]))
    n = {"t": "ep", "f": [{"bars": [[kind, {"m32": 30, "io": 31, "p64": 63}[kind]]], "mpss": 5, "etag": True}]}
    for _ in range(draw(st.integers(0, 2))):
        n = {"t": "sw", "c": [n]}
    other = {"t": "ep", "f": [{"bars": draw(st.sampled_from([[], [["m32" if kind == "io" else "io", 8]], [["m32" if kind == "p64" else "p64", 12]]])), "mpss": 5, "etag": True}]}
    c["nodes"] = draw(st.sampled_from([[n, other], [other, n]]))
    return c


async def setup(c, b):
    """Enumerate, enable everything and return the list of addressable targets."""
    await b.enumerate()
    targets = []
    for i, (f, fd) in enumerate(b.funcs):
        d = b.pci(f)
        check(d is not None, "function %d of the topology was not found by enumeration", i)
        await d.enable_device()
        await d.set_master()
        await d.set_readrq(c["mrrs"][i % len(c["mrrs"])])
        for (kind, log), bar in zip(fd["bars"], f.bar_of):
            check(d.bar_size[bar] == max(1 << log, 4 if kind == "io" else 16), "function %d BAR %d: enumeration found size %r, not %d", i, bar, d.bar_size[bar], 1 << log)
            if log > 24:        # use only the end of a huge BAR
                t = f.tails[bar]
                targets.append(Target("end of f%d.bar%d(%s)" % (i, bar, kind), t.mem, d.bar_addr[bar] + t.base, t.SIZE, kind == "io", f))
                targets[-1].stray = t.stray
                continue
            targets.append(Target("f%d.bar%d(%s)" % (i, bar, kind), f.regions[bar], d.bar_addr[bar], 1 << log, kind == "io", f, d.bar_window[bar]))
    for k, log in enumerate(c["host"]):
        r = b.rc.mem_pool.alloc_region(1 << log)
        targets.append(Target("host%d" % k, r.mem, r.get_absolute_address(0), 1 << log, False))
    for where, log in c.get("high", ()):
        r, a = MemoryRegion(1 << log), HIGH[where](1 << log)
        b.rc.mem_address_space.register_region(r, a)
        targets.append(Target("host at 0x%x" % a, r.mem, a, 1 << log, False))
    for k, log in enumerate(c["hostio"]):
        r = b.rc.io_pool.alloc_region(1 << log)
        targets.append(Target("hostio%d" % k, r.mem, r.get_absolute_address(0), 1 << log, True))
    return targets


def run(c, ctx, wire, max_io=40, extra=None):
    """Runs the case; data mismatches raise Violation.  Returns statistics."""
    stats = {"ops": 0, "bytes": 0, "split": 0, "p2p": 0, "dma": 0, "host": 0}

    async def main():
        b = topo.Built(c["rc"], c["nodes"])
        targets = await setup(c, b)
        stats["built"] = b
        nst = len(c["streams"])
        left = [nst]
        done = Event()

        async def stream(k, s):
            fi = s["sel"] % len(b.funcs)
            who = b.rc if s["who"] == "rc" else b.funcs[fi][0]
            mydev = None
            if who is not b.rc:
                mydev = [d for d in b.devices if who in d.functions][0]
            if s["who"] == "rc":
                cand = [t for t in targets if t.fn is not None]
            elif s["who"] == "dma":
                cand = [t for t in targets if t.fn is None]
            else:
                cand = [t for t in targets if t.fn is not None and t.fn not in mydev.functions]
            for o in s["ops"]:
                if not cand:
                    break
                t = cand[o["t"] % len(cand)]
                sl = t.size // nst
                if sl == 0:
                    continue
                base = sl * k
                off = o["off"] % sl
                ln = min(o["len"], sl - off)
                if t.io:
                    ln = min(ln, max_io)
                if o["gap"]:
                    await Timer(o["gap"], "ns")
                off += base
                a = t.addr + off
                stats["ops"] += 1
                stats["bytes"] += ln
                if ln > 128:
                    stats["split"] += 1
                stats["host" if who is b.rc else "dma" if t.fn is None else "p2p"] += 1
                what = "%s %s %s+0x%x len %d" % (s["who"], "read" if o["k"] == "r" else "write", t.name, off, ln)
                kw = {}
                if c["attrs"] and not t.io:
                    at, tc = c["attrs"][o["salt"] % len(c["attrs"])]
                    kw = {"attr": TlpAttr(at), "tc": TlpTc(tc)}
                if o["k"] == "r":
                    if who is b.rc and o["t"] & 1 and t.window:
                        got = await t.window.read(off, ln, **kw)
                    elif t.io:
                        got = await who.io_read(a, ln)
                    else:
                        got = await who.mem_read(a, ln, **kw)
                    want = bytes(t.model[off:off + ln])
                    check(bytes(got) == want, "%s returned %r..., memory holds %r... (first difference at byte %d)", what, bytes(got)[:24], want[:24],
                          next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want))))
                else:
                    data = tlpgen.pattern(ln, o["salt"])
                    if who is b.rc and o["t"] & 1 and t.window:
                        await t.window.write(off, data, **kw)
                    elif t.io:
                        await who.io_write(a, data)
                    else:
                        await who.mem_write(a, data, **kw)
                    t.model[off:off + ln] = data
            left[0] -= 1
            if left[0] == 0:
                done.set()

        tasks = [cocotb.start_soon(stream(k, s)) for k, s in enumerate(c["streams"])]
        if extra:
            tasks += [cocotb.start_soon(x) for x in extra(b, targets)]
        for t in tasks:
            await t.join()
        ok = await topo.quiesce(wire)
        check(ok, "traffic never stops although every operation has finished")
        for t in targets:
            check(not t.stray, "%s: the device saw accesses outside the part that was used: %r", t.name, t.stray[:4])
            got = bytes(t.mem[0:t.size])
            if got != bytes(t.model):
                i = next(i for i in range(t.size) if got[i] != t.model[i])
                check(False, "final contents of %s differ from the model at offset 0x%x: %r, expected %r", t.name, i, got[i:i + 16], bytes(t.model[i:i + 16]))

    with topo.tapped(wire):
        try:
            simcore.run(main, max_time_ns=30_000_000, max_events=4_000_000)
        except (simcore.TimeLimit, simcore.SimLimit, simcore.Deadlock) as e:
            check(False, "operations do not complete: %s", e)
    return stats
