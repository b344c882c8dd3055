"""P17: capability lists stay well formed under any history of registrations."""
import hypothesis.strategies as st
import simcore  # noqa: F401
from cocotbext.pcie.core import RootComplex, Device
from cocotbext.pcie.core.endpoint import Endpoint
from cocotbext.pcie.core.bridge import Bridge
from cocotbext.pcie.core.caps.common import PciCap, PciExtCap
from tlpgen import mix, many
from runner import Part, check

PROPERTY = "P17"
ASSUMPTIONS = ["the registered capabilities fit the configuration space", "extended capabilities start at 0x100 when software is to find them"]


class Cap(PciCap):
    def __init__(self, cap_id, length):
        super().__init__()
        self.cap_id, self.length, self.cap_ver = cap_id, length, 1
        self.mem = [0] * length

    async def _read_register(self, reg):
        return self.mem[reg]

    async def _write_register(self, reg, data, mask):
        bm = sum(0xff << 8 * i for i in range(4) if mask >> i & 1)
        self.mem[reg] = self.mem[reg] & ~bm | data & bm


class ExtCap(Cap, PciExtCap):
    pass


# register relative to the start of the space; negative: to its end
OFF = st.one_of(st.integers(0, 30), st.integers(0, 30), st.integers(-12, -1), st.integers(0, 2000))
ops = many(mix(
    st.tuples(st.just("add"), st.integers(0, 5), mix(st.none(), st.none(), OFF)),
    st.tuples(st.just("add"), st.integers(0, 5), st.none()),
    st.tuples(st.just("readd"), st.integers(0, 5), st.one_of(st.none(), OFF)),
    st.tuples(st.just("del"), st.integers(0, 5), st.none()),
).map(list), 1, 12)
case = st.fixed_dictionaries({"ext": st.booleans(), "who": st.sampled_from(["ep", "bridge"]), "lens": st.lists(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 24)), min_size=6, max_size=6),
                              "keep": st.booleans(), "ops": ops})


async def verify(f, want, ext, what, fixed=None):
    """The software view of the list is exactly `want` (the registered capabilities)."""
    lst = f.ext_capabilities if ext else f.capabilities
    lo, hi = (0x40, 0x400) if ext else (0x10, 0x40)
    owner = {}
    for c in want:
        check(isinstance(c.offset, int) and lo <= c.offset and c.offset + c.length <= hi, "%s: capability %x at register %r is outside the space", what, c.cap_id, c.offset)
        for r in range(c.offset, c.offset + c.length):
            check(r not in owner, "%s: capabilities %x and %x both own register %#x", what, c.cap_id, owner.get(r, c).cap_id, r * 4)
            owner[r] = c
    if fixed:
        check(fixed[0].offset == fixed[1], "%s: asked for register %#x, placed at %r", what, fixed[1], fixed[0].offset)
    # walk as software does
    seen = []
    if ext:
        ptr = min((c.offset for c in want), default=0) * 4
    else:
        ptr = (await f.read_config_register(13)) & 0xff
        check(ptr % 4 == 0 and (ptr >= 0x40 or ptr == 0), "%s: capabilities pointer %#x", what, ptr)
    while ptr:
        check(len(seen) <= len(want), "%s: the list does not end: %r", what, seen)
        v = await f.read_config_register(ptr // 4)
        if ext:
            seen.append((v & 0xffff, ptr))
            ptr = v >> 20
        else:
            seen.append((v & 0xff, ptr))
            ptr = v >> 8 & 0xff
    check(seen == sorted(((int(c.cap_id), c.offset * 4) for c in want), key=lambda x: x[1]), "%s: software finds %r, registered are %r", what,
          [(hex(a), hex(b)) for a, b in seen], [(hex(c.cap_id), hex(c.offset * 4)) for c in want])
    return owner


async def touch(f, owner, lo, n, salt):
    """Register accesses reach the owner at the right offset and nothing else."""
    for r in range(lo, lo + n):
        before = {id(c): list(c.mem) for c in owner.values() if isinstance(c, Cap)}
        v = (r * 0x01010101 + salt) & 0xffffffff
        c = owner.get(r)
        if c is not None and not isinstance(c, Cap):
            continue
        if c is None:
            await f.write_config_register(r, v, 0xf)
            check(await f.read_config_register(r) == 0, "register %#x of no capability reads back what is written", r * 4)
        else:
            await f.write_config_register(r, v, 0xf)
            before[id(c)][r - c.offset] = v
            if r != c.offset:
                check(await f.read_config_register(r) == v, "register %#x does not read back", r * 4)
        for d in owner.values():
            if isinstance(d, Cap):
                check(d.mem == before[id(d)], "write to register %#x changed capability %x at %#x: %r", r * 4, d.cap_id, d.offset * 4, d.mem)


def run(c, ctx):
    out = {}

    async def main():
        f = Endpoint() if c["who"] == "ep" else Bridge()
        ext = c["ext"]
        cls = ExtCap if ext else Cap
        caps = [cls(0x20 + i, n) for i, n in enumerate(c["lens"])]
        if not ext and not c["keep"]:
            for x in list(f.capabilities.list):
                f.deregister_capability(x)
        regd = list((f.ext_capabilities if ext else f.capabilities).list)
        reg = f.register_extended_capability if ext else f.register_capability
        dereg = f.deregister_extended_capability if ext else f.deregister_capability
        base = 0x40 if ext else 0x10
        await verify(f, regd, ext, "initially")
        bumps = 0
        for k, (op, i, off) in enumerate(c["ops"]):
            cap = caps[i]
            if off is not None:     # somewhere the capability fits
                room = (0x400 if ext else 0x40) - base - cap.length
                off = room + 1 + off if off < 0 else min(off, room)
                off = max(off, 0)
            what = "after %s of a %d-register capability%s (step %d)" % (op, cap.length, "" if off is None else " at register %#x" % (base + off), k)
            fixed = None
            if op == "del":
                dereg(cap)
                if cap in regd:
                    regd.remove(cap)
            else:
                if off is not None:
                    fixed = (cap, base + off)
                    bumps += any(x is not cap and x.offset < base + off + cap.length and base + off < x.offset + x.length for x in regd)
                reg(cap, None if off is None else base + off)
                if cap not in regd:
                    regd.append(cap)
                check(cap.parent is f, "%s: parent is %r", what, cap.parent)
            hi = 0x400 if ext else 0x40
            full = [x for x in regd if x.offset + x.length > hi]
            if full:
                # legitimate only if there is no room for it
                x = full[0]
                used = {r for y in regd if y is not x for r in range(y.offset, y.offset + y.length)}
                check(not any(all(a + j not in used for j in range(x.length)) for a in range(base, hi - x.length + 1)),
                      "%s: capability %x was placed at register %#x although there is room", what, x.cap_id, x.offset)
                out.update(bumps=bumps, n=0)
                return
            owner = await verify(f, regd, ext, what, fixed)
        await touch(f, owner, base, 0x30, len(c["ops"]))
        if ext:
            await touch(f, owner, 0x3f0, 0x10, len(c["ops"]))
        out.update(bumps=bumps, n=len(regd))
    simcore.run(main)
    ctx.nontrivial(len(c["ops"]) >= 2 and out["n"] >= 2)
    ctx.label("%s bumps %d" % ("ext" if c["ext"] else "std", min(out["bumps"], 3)))


# what enumeration finds is what is registered

sys_case = st.fixed_dictionaries({"lens": st.lists(st.integers(1, 4), max_size=5), "offs": st.lists(st.one_of(st.none(), st.integers(0, 30)), min_size=5, max_size=5),
                                  "elens": st.lists(st.integers(1, 40), max_size=5), "gaps": st.lists(st.integers(0, 60), min_size=5, max_size=5),
                                  "acc": st.lists(st.tuples(st.integers(0, 5), st.booleans(), st.integers(0, 200), st.integers(1, 16), st.integers(0, 255)), max_size=8)})


def run_sys(c, ctx):
    async def main():
        rc = RootComplex()
        dev = Device()
        f = Endpoint()
        caps = []
        for i, n in enumerate(c["lens"]):
            x = Cap(0x20 + i, n)
            f.register_capability(x, None if c["offs"][i] is None else 0x10 + c["offs"][i])
            caps.append(x)
        ecaps = []
        off = 0x40
        for i, n in enumerate(c["elens"]):
            x = ExtCap(0x30 + i, n)
            x.cap_ver = i + 1
            f.register_extended_capability(x, off)
            off += n + c["gaps"][i]
            ecaps.append(x)
        dev.append_function(f)
        rc.make_port().connect(dev)
        await rc.enumerate()
        d = rc.find_device(f.pcie_id)
        check([tuple(map(int, x)) for x in d.capabilities] == sorted(((int(x.cap_id), x.offset * 4) for x in f.capabilities.list), key=lambda x: x[1]),
              "enumeration finds capabilities %r, registered are %r", d.capabilities, f.capabilities.list)
        check([tuple(map(int, x)) for x in d.ext_capabilities] == sorted(((int(x.cap_id), x.offset * 4) for x in ecaps), key=lambda x: x[1]),
              "enumeration finds extended capabilities %r, registered are %r", d.ext_capabilities, f.ext_capabilities.list)
        # byte accesses through configuration requests
        pool = [x for x in caps + ecaps if x.length > 1]
        n_acc = 0
        for i, wr, o, ln, v in c["acc"]:
            if not pool:
                break
            x = pool[i % len(pool)]
            size = x.length * 4 - 4
            o %= size
            ln = min(ln, size - o)
            img = bytearray(b"".join(w.to_bytes(4, "little") for w in x.mem[1:]))
            a = x.offset * 4 + 4 + o
            if wr:
                data = bytes((v + k * 7) & 0xff for k in range(ln))
                await d.config_write(a, data)
                img[o:o + ln] = data
            else:
                got = await d.config_read(a, ln)
                check(bytes(got) == bytes(img[o:o + ln]), "config_read(%#x, %d) returns %s, capability holds %s", a, ln, bytes(got).hex(), bytes(img[o:o + ln]).hex())
            now = b"".join(w.to_bytes(4, "little") for w in x.mem[1:])
            check(now == bytes(img), "after %s of %d bytes at %#x the capability holds %s, expected %s", "config_write" if wr else "config_read", ln, a, now.hex(), bytes(img).hex())
            n_acc += 1
        ctx.nontrivial(len(caps) + len(ecaps) >= 2 and n_acc > 0)
    simcore.run(main)


PARTS = [
    Part("list", case, run, 6000, 200000, "histories of registering, moving and deregistering; non-trivial with two operations leaving two capabilities"),
    Part("walk", sys_case, run_sys, 250, 8000, "lists found and accessed through enumeration and configuration requests; non-trivial with two capabilities and an access"),
]
