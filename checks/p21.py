"""P21: Xilinx requester interfaces against the product guides: every request goes out once, every completion comes back once."""
import hypothesis.strategies as st
import simcore
import cocotb
import tlpgen
import xdev
from tlpgen import mix
from xdesc import spec, enables, parity
from cocotb.triggers import Timer, RisingEdge
from cocotb.queue import Queue
from cocotbext.pcie.core.tlp import Tlp, TlpType, TlpAttr, TlpTc, CplStatus
from cocotbext.pcie.core.utils import PcieId
from runner import Part, check

PROPERTY = "P21"
ASSUMPTIONS = ["the user keeps client tags unique and in range, and keeps the completion buffer from overflowing",
               "no messages, no translation requests", "address-aligned mode is not implemented by the library"]

KINDS = ["read", "read", "read", "read64", "write", "write", "write64", "ior", "iow", "fa", "swap64", "cas"]
SPECK = {"read": "MEM_READ", "read64": "MEM_READ_64", "write": "MEM_WRITE", "write64": "MEM_WRITE_64", "ior": "IO_READ", "iow": "IO_WRITE",
         "fa": "FETCH_ADD", "swap64": "SWAP_64", "cas": "CAS"}
PLANS = ["ok", "ok", "ok", "ok", "ur", "ca", "crs", "nodata", "poison", "mismatch", "badaddr", "wrongfn", "twice"]


@st.composite
def request(draw, kinds=KINDS):
    k = draw(st.sampled_from(kinds))
    n = 1 if k in ("ior", "iow", "fa") else 2 if k in ("cas", "swap64") else draw(tlpgen.pick_len(1, 128))
    r = {"op": "req", "k": k, "n": n, "page": draw(st.integers(1, 200)), "off": draw(st.one_of(st.integers(0, 1023), st.sampled_from([0, 15, 31, 32, 1023]))),
         "fbe": draw(st.sampled_from([15, 15, 15, 1, 8, 12, 6, 0, 5, 14])), "lbe": draw(st.sampled_from([15, 15, 1, 3, 7, 8, 9])),
         "fn": draw(st.integers(0, 3)), "en": draw(st.booleans()), "tc": draw(st.integers(0, 7)), "attr": draw(st.integers(0, 7)), "ep": draw(st.integers(0, 7)) == 0,
         "seq": draw(st.integers(0, 63)), "tag": draw(st.integers(0, 255)), "cid": draw(st.integers(0, 65535)), "disc": draw(st.integers(0, 7)) == 0,
         "plan": draw(st.sampled_from(PLANS)), "at": draw(st.integers(0, 7)), "cut": draw(st.lists(st.integers(1, 4), max_size=4)), "salt": draw(st.integers(0, 255))}
    if k in ("read", "read64") and draw(st.integers(0, 3)) == 0:
        # starts in the middle of a word and ends just after a boundary where a completion may end
        r["fbe"], r["lbe"], r["cut"] = draw(st.sampled_from([8, 12, 14])), draw(st.sampled_from([1, 3, 7, 15])), [1, 1, 1, 1]
        r["n"] = draw(st.integers(2, 60))
        r["off"] = (16 * draw(st.integers(4, 60)) - r["n"] + 1) % 960
    return r


op = mix(request(), request(), request(), request(), request(),
               st.fixed_dictionaries({"op": st.just("gap"), "n": st.integers(1, 40)}),
               st.fixed_dictionaries({"op": st.just("bme"), "fn": st.integers(0, 3), "on": st.booleans()}),
               st.fixed_dictionaries({"op": st.just("stray"), "tag": st.integers(0, 255), "fn": st.integers(0, 3), "n": st.integers(0, 8)}),
               st.fixed_dictionaries({"op": st.just("hold"), "n": st.one_of(st.integers(1, 40), st.integers(60, 80)), "k": st.sampled_from(["read", "iow", "ior"]), "off": st.sampled_from([None, None, 0, 1, 2]),
                                      "one": st.sampled_from([None, None, -1, -2, 0, 30])}),
               st.fixed_dictionaries({"op": st.just("idle")}))


@st.composite
def cases(draw):
    c = draw(xdev.config())
    c.update(ops=draw(tlpgen.many(op, 3, 40)), sp=draw(xdev.pat), kp=draw(xdev.pat), order=draw(st.lists(st.integers(0, 7), min_size=1, max_size=12)),
             lat=draw(st.lists(st.integers(0, 12), min_size=1, max_size=6)), cid=draw(st.integers(0, 65535)), rcb=draw(st.sampled_from([64, 128])), xt=draw(st.booleans()))
    return c


class Req:
    pass


def fix_request(r):
    """Field values of one legal request."""
    k = r["k"]
    c = {"kind": SPECK[k], "tc": r["tc"], "attr": r["attr"], "at": 0, "ln": False, "th": False, "td": False, "ep": r["ep"],
         "length": r["n"], "first_be": r["fbe"], "last_be": r["lbe"] if r["n"] > 1 else 0, "ph": 0, "salt": r["salt"]}
    off = r["off"] * 4
    if k in ("fa", "swap64", "cas"):
        # operands are naturally aligned and carry no byte enables of their own
        c["first_be"], c["last_be"] = (15, 15) if r["n"] > 1 else (15, 0)
        off &= ~(4 * r["n"] - 1)
    else:
        off = min(off, 4096 - 4 * r["n"])
        if r["n"] > 1:
            # discontiguous enables only within an aligned quadword; keep the edges contiguous
            c["first_be"] = {1: 8, 5: 12, 6: 14, 0: 15}.get(r["fbe"], r["fbe"])
            c["last_be"] = {8: 1, 9: 3}.get(c["last_be"], c["last_be"])
    c["address"] = r["page"] * 4096 + off
    if k in ("read64", "write64", "swap64"):
        c["address"] |= r["page"] << 40 | 1 << 33
    return c


def ndata(c):
    """(first enabled byte address, number of bytes) a read completion covers."""
    bits = [i for i in range(c["length"] * 4) if (c["first_be"] if i < 4 else c["last_be"] if i >= 4 * c["length"] - 4 else 15) >> i % 4 & 1]
    if not bits:
        return c["address"], 1
    return c["address"] + bits[0], bits[-1] - bits[0] + 1


def completions(q, plan, bus, case):
    """[(packet, expected RC descriptor and data or None)] that answer request q."""
    c, r = q.c, q.r
    base = {"kind": "CPL_DATA", "tc": c["tc"], "attr": c["attr"], "tag": q.tag, "requester_id": q.rid, "completer_id": case["cid"], "status": 0, "ep": False}
    out = []

    def put(length, bc, la, la12, err, done, data=b"", shown=True, **kw):
        d = dict(base, length=length, byte_count=bc, lower_address=la, **kw)
        d["kind"] = "CPL_DATA" if data else "CPL"
        t = Tlp()
        t.fmt_type = TlpType[d["kind"]]
        t.tc, t.attr, t.tag, t.ep = TlpTc(d["tc"]), TlpAttr(d["attr"]), d["tag"], d["ep"]
        t.requester_id, t.completer_id = PcieId.from_int(d["requester_id"]), PcieId.from_int(d["completer_id"])
        t.status, t.byte_count, t.lower_address, t.length = CplStatus(d["status"]), bc, la, length
        if data:
            t.set_data(data)
        d["us"] = {"la": la12, "err": err, "done": done}
        dws = [int.from_bytes(data[k:k + 4], "little") for k in range(0, len(data), 4)]
        want = (spec("rc", d) + dws, [0, 0, 0] + enables("rc", d, len(dws)))
        out.append((t, want if shown else None, done and err in (0, 1, 2, 3)))

    mem = c["kind"].startswith("MEM_READ")
    if mem:
        start, left = ndata(c)
        end = start + left
        pieces = []
        a = start
        for n in list(r["cut"]) + [99]:
            if a >= end:
                break
            b = min(end, (a // case["rcb"] + n) * case["rcb"], a // 512 * 512 + 512)
            pieces.append((a, b))
            a = b
        while a < end:
            b = min(end, a // 512 * 512 + 512)
            pieces.append((a, b))
            a = b
    elif c["kind"] == "IO_WRITE":
        pieces = [(0, 0)]
    else:
        pieces = [(0, {"CAS": 4}.get(c["kind"], 4 * c["length"]))]
    at = r["at"] % len(pieces)
    for i, (a, b) in enumerate(pieces):
        hit = i == at
        n = (b + 3) // 4 - a // 4
        data = tlpgen.pattern(4 * n, r["salt"] + 7 * i + 1)
        if mem:
            bc, la, la12, last = pieces[-1][1] - a, a & 0x7f, a & 0xfff, i == len(pieces) - 1
        else:
            bc, la, la12, last = (4 if c["kind"] in ("IO_READ", "IO_WRITE") else b), 0, 0, True
        if hit and plan in ("ur", "ca", "crs"):
            put(0, bc, la, la, 2, True, status={"ur": 1, "crs": 2, "ca": 4}[plan])
            return out
        if hit and plan == "nodata" and mem:
            put(0, bc, la, la12, 3, True)
            return out
        if hit and plan == "mismatch":
            # a completion that differs in traffic class or attributes belongs to some other request
            bad = {"tc": c["tc"] ^ 1 + r["cid"] % 7} if r["at"] & 1 else {"attr": c["attr"] ^ 1 + r["cid"] % 7}
            put(n, bc, la, la, 4, False, data, **bad)
        if hit and plan == "wrongfn":
            put(n, bc, la, la, 0, False, data, shown=False, requester_id=(bus + 1 & 255) << 8 if r["at"] & 1 else q.rid | 7)
        if hit and plan == "badaddr" and mem:
            la ^= (1 + r["cid"] % 31) << 2
            put(n, bc, la, la, 5, last, data)
            if last:
                out[-1] = out[-1][:2] + (True,)
        elif hit and plan == "poison" and data:
            put(n, bc, la, la12, 1, last, data, ep=True)
        else:
            put(n, bc, la, la12, 0, last, data)
    if plan == "twice":
        # the tag is free now
        t, w, _ = out[-1]
        put(t.length, t.byte_count, int(t.lower_address), int(t.lower_address), 6, False, bytes(t.data))
    return out


class Harness:
    def __init__(self, c):
        self.c = c
        self.b = b = xdev.Bench(c)
        b.part.on_tlp = self.on_tlp
        self.client = c["client"]
        ext = c["xt"] and c["etag"]
        self.ext = ext
        self.ntags = (256 if c["plus"] else 64) if ext else 32
        self.posted, self.np = [], []          # pushed and not seen on the link
        self.busy = {}                         # tag -> request outstanding
        self.user_busy = set()                 # client tags in use by the user
        self.seqs, self.want_seqs = [], []
        self.tags, self.want_tags = [], []
        self.rc_want, self.rc_seen = [], 0
        self.todo = []                         # completion streams: lists of (packet, expectation, done)
        self.hold = self.quiet = False
        self.alone = None                      # the stream to send while the others are held
        self.room = [0, 0]
        self.err = []
        self.n_out = self.n_done = 0
        self.dead = 0

    def fail(self, msg, *a):
        self.err.append(msg % a)

    def on_tlp(self, t):
        if self.b.take_cfg(t):
            return
        o = tlpgen.observe(t)
        data = bytes(t.data)
        if t.is_completion():
            return self.fail("device sent a completion %r", o)
        lst = self.posted if t.is_posted() else self.np
        i = 0
        if lst is self.np and not self.client:
            # the tag is the device's choice, and non-posted requests may pass each other
            for i, q in enumerate(lst):
                if self.same(q, o, data, o["tag"]) is None:
                    break
            else:
                i = 0
        if not lst:
            return self.fail("nothing was requested, yet the device sent %r", o)
        q = lst.pop(i)
        bad = self.same(q, o, data, q.tag if self.client or lst is self.posted else o["tag"])
        if bad:
            return self.fail("request %r on the link: %s", q.r, bad)
        if lst is self.np:
            before = [p for p in self.posted if p.order < q.order]
            if before:
                return self.fail("non-posted %r passed posted %r", q.r, before[0].r)
            tag = o["tag"]
            if tag in self.busy:
                return self.fail("tag %d is on the link twice", tag)
            if tag >= self.ntags:
                return self.fail("tag %d out of range", tag)
            q.tag = tag
            self.busy[tag] = q
            self.n_out += 1
            if not self.client:
                self.want_tags.append(tag)
            if not q.r.get("silent"):
                self.todo.append(completions(q, q.r["plan"], self.b.bus, self.c))
        self.want_seqs.append(q.seq)

    def same(self, q, o, data, tag):
        c = q.c
        for k in ("kind", "tc", "attr", "ep", "length", "first_be", "last_be", "address"):
            if o[k] != c[k]:
                return "%s is %r, given %r" % (k, o[k], c[k])
        if o["requester_id"] != q.rid:
            return "requester id %04x, should be %04x" % (o["requester_id"], q.rid)
        if o["tag"] != tag:
            return "tag %d, given %d" % (o["tag"], tag)
        if data != q.data:
            return "payload differs"
        return None

    async def push(self, r):
        b = self.b
        while self.quiet:
            await RisingEdge(b.d.user_clk)
        q = Req()
        q.r, q.c = r, fix_request(r)
        fn = r["fn"] % len(b.fns)
        q.rid = b.bus << 8 | fn
        q.seq = r["seq"] & (63 if self.c["plus"] else 15)
        np = not q.c["kind"].startswith("MEM_WRITE")
        q.tag = r["tag"]
        if not np:
            q.tag &= self.ntags - 1
        elif self.client:
            for _ in range(20000):
                free = [t for t in range(self.ntags) if t not in self.user_busy]
                if free and not self.quiet:
                    break
                await RisingEdge(b.d.user_clk)
            else:
                check(False, "no tag comes free: %d requests open", len(self.busy))
            q.tag = free[r["tag"] % len(free)]
        q.data = tlpgen.pattern(4 * q.c["length"], r["salt"]) if tlpgen.has_data(q.c["kind"]) else b""
        d = dict(q.c, tag=q.tag, requester_id=q.rid if r["en"] else fn, completer_id=r["cid"], us={"en": r["en"]})
        dws = [int.from_bytes(q.data[k:k + 4], "little") for k in range(0, len(q.data), 4)]
        disc = r["disc"] and b.segs["rq"] == 1
        f = b.frame(spec("rq", d) + dws, parity, q.c["first_be"], q.c["last_be"], q.seq, disc)
        q.order = self.count = getattr(self, "count", 0) + 1
        if not disc and self.bme[fn]:
            (self.np if np else self.posted).append(q)
            if np and self.client:
                self.user_busy.add(q.tag)
        await b.rq.send(f)
        return q

    async def answer(self):
        """The completer: one packet at a time, streams interleaved."""
        k = 0
        while True:
            await Timer(self.c["lat"][k % len(self.c["lat"])] * 40 + 1, "ns")
            if self.alone:
                s = self.alone
                t, want, done = s.pop(0)
            elif self.hold or not self.todo:
                continue
            else:
                k += 1
                i = self.c["order"][k % len(self.c["order"])] % len(self.todo)
                s = self.todo[i]
                t, want, done = s.pop(0)
                if not s:
                    self.todo.pop(i)
            n = (len(t.data) + 15) // 16 + 1
            while self.room[0] > 56 or self.room[1] + n > 900:
                await Timer(40, "ns")
            spare = want and want[0][0] >> 12 & 15 == 6
            if spare:
                # only a completion for a tag that no request can have got meanwhile is unexpected
                self.quiet = True
                for _ in range(100):
                    if not self.np:
                        break
                    await Timer(40, "ns")
                if self.np or t.tag in self.busy:
                    self.quiet = False
                    continue
            if want:
                self.room[0] += 1
                self.room[1] += n
                self.rc_want.append((want, t, n, t.tag if done else None))
            if done:
                self.busy.pop(t.tag, None)
                self.n_done += 1
            await self.b.part.send(t)
            if spare:
                while self.rc_seen < len(self.rc_want) and not self.err:
                    await Timer(40, "ns")
                self.quiet = False

    async def collect(self):
        """The user's completion handler."""
        while True:
            f = await self.b.rc.recv()
            if not self.rc_want[self.rc_seen:]:
                self.fail("completion nobody sent: %s", [hex(v) for v in f.data[:3]])
                return
            (want, be), t, n, tag = self.rc_want[self.rc_seen]
            self.rc_seen += 1
            self.room[0] -= 1
            self.room[1] -= n
            if list(f.data) != want:
                self.fail("completion %r delivered as %s, should be %s", t, [hex(v) for v in f.data[:6]], [hex(v) for v in want[:6]])
            elif self.c["parity"] and f.parity != [parity(v) for v in want]:
                self.fail("parity of a completion")
            elif [v for v in f.byte_en] != be:
                self.fail("byte enables of completion %r: %r, should be %r", t, f.byte_en, be)
            elif f.discontinue:
                self.fail("completion %r marked discontinued", t)
            if tag is not None:
                self.user_busy.discard(tag)

    async def monitor(self):
        d = self.b.d
        if self.c["plus"]:
            sp, tp = [(d.pcie_rq_seq_num0, d.pcie_rq_seq_num_vld0)], [(d.pcie_rq_tag0, d.pcie_rq_tag_vld0)]
            if self.b.dw == 512:
                sp.append((d.pcie_rq_seq_num1, d.pcie_rq_seq_num_vld1))
                tp.append((d.pcie_rq_tag1, d.pcie_rq_tag_vld1))
        else:
            sp, tp = [(d.pcie_rq_seq_num, d.pcie_rq_seq_num_vld)], [(d.pcie_rq_tag, d.pcie_rq_tag_vld)]
        while True:
            await RisingEdge(d.user_clk)
            for ports, out in ((sp, self.seqs), (tp, self.tags)):
                for v, vld in ports:
                    if int(vld.value):
                        out.append(int(v.value))

    def raise_error(self):
        check(not self.err, "%s", self.err and self.err[0])

    def settled(self, waiting=0):
        # dropped requests leave no trace: wait until the source has handed over everything
        if not waiting and not (self.b.rq.empty() and self.b.rq.idle()):
            return False
        return not self.posted and len(self.np) == waiting and (self.hold or (not self.todo and self.rc_seen == len(self.rc_want)))

    async def idle(self, waiting=0, what="requests or completions are stuck"):
        last = None
        for _ in range(400):
            self.raise_error()
            if self.settled(waiting):
                break
            for _ in range(20):
                await Timer(100, "ns")
                if self.settled(waiting):
                    break
        else:
            check(False, "%s: %d posted and %d non-posted requests never reached the link (%d tags in use), %d of %d completions delivered",
                  what, len(self.posted), len(self.np), len(self.busy), self.rc_seen, len(self.rc_want))
        for _ in range(12):
            await RisingEdge(self.b.d.user_clk)
        self.raise_error()

    def at_rest(self):
        d, c = self.b.d, self.c
        if not c["opt"]:
            if self.client:
                check(self.seqs == self.want_seqs, "sequence numbers reported %r, transmitted %r", self.seqs[-20:], self.want_seqs[-20:])
            else:
                check(sorted(self.seqs) == sorted(self.want_seqs), "sequence numbers reported %r, transmitted %r", self.seqs[-20:], self.want_seqs[-20:])
        if not self.client:
            check(sorted(self.tags) == sorted(self.want_tags), "tags announced %r, used %r", self.tags[-20:], self.want_tags[-20:])
            if self.n_out:
                cap = 15 if c["plus"] else 3
                free = self.ntags - len(self.busy)
                got = int(d.pcie_rq_tag_av.value)
                check(got == min(cap, free), "%d tags are free, pcie_rq_tag_av is %d", free, got)

    async def start(self):
        b, c = self.b, self.c
        await b.start()
        self.bme = [True] * len(b.fns)
        if self.ext:
            for f in b.fns:
                f.pcie_cap.extended_tag_field_enable = True
        b.rq.set_pause_generator(xdev.cycle(c["sp"]))
        b.rc.set_pause_generator(xdev.cycle(c["kp"]))
        cocotb.start_soon(self.answer())
        cocotb.start_soon(self.collect())
        cocotb.start_soon(self.monitor())


def run(c, ctx):
    res = {}

    async def main():
        h = Harness(c)
        res["h"] = h
        await h.start()
        b = h.b
        for o in c["ops"]:
            h.raise_error()
            if o["op"] == "req":
                await h.push(o)
                continue
            if o["op"] == "gap":
                for _ in range(o["n"]):
                    await RisingEdge(b.d.user_clk)
                continue
            await h.idle()
            h.at_rest()
            if o["op"] == "bme":
                fn = o["fn"] % len(b.fns)
                await b.cfg_write(fn, 1, 2 | 4 * o["on"], 3)
                h.bme[fn] = o["on"]
            elif o["op"] == "stray":
                fn = o["fn"] % len(b.fns)
                q = Req()
                q.rid, q.tag = b.bus << 8 | fn, o["tag"]
                q.c = {"kind": "IO_READ", "tc": 0, "attr": 0, "length": 1, "address": 0}
                q.r = {"cut": [], "at": 0, "salt": 3, "cid": 5}
                # a completion of a request that is not open
                h.todo.append(completions(q, "twice", b.bus, c)[1:])
            elif o["op"] == "hold":
                # leave requests unanswered
                h.hold = True
                n = min(o["n"], h.ntags) if h.client else o["n"]
                fns = [k for k in range(len(b.fns)) if h.bme[k]]
                if not fns:
                    n = 0
                for k in range(n):
                    await h.push({"op": "req", "k": o["k"], "n": 1, "page": 1 + k, "off": 0, "fbe": 15, "lbe": 15, "fn": fns[k % len(fns)], "en": False, "tc": 0, "attr": 0, "ep": False,
                                  "seq": k & 63, "tag": 0, "cid": 0, "disc": False, "plan": "ok", "at": 0, "cut": [], "salt": k})
                rest = max(0, n - h.ntags)
                await h.idle(rest)
                if rest:
                    await Timer(3, "us")
                h.raise_error()
                check(len(h.busy) == min(n, h.ntags), "%d of %d reads are outstanding", len(h.busy), n)
                h.at_rest()
                if o.get("one") is not None and h.todo:
                    # a single answer frees its tag for exactly one of those that wait
                    s = h.todo.pop(o["one"] % len(h.todo))
                    h.alone = s
                    for _ in range(2000):
                        if not s:
                            break
                        await Timer(40, "ns")
                    h.raise_error()
                    rest = max(0, rest - 1)
                    await h.idle(rest, "a tag was freed")
                    await Timer(2, "us")
                    h.raise_error()
                    check(len(h.np) == rest, "%d requests wait, should be %d", len(h.np), rest)
                    h.at_rest()
                if rest and o.get("off") is not None:
                    # the requests of this function that are still waiting must not go out any more
                    fn = fns[o["off"] % len(fns)]
                    await b.cfg_write(fn, 1, 2, 3)
                    h.bme[fn] = False
                    h.np = [q for q in h.np if q.rid & 255 != fn]
                    ctx.label("bus mastering ends while requests wait")
                h.hold = False
                await h.idle()
        await h.idle()
        h.at_rest()
        await Timer(2, "us")
        h.raise_error()
        h.at_rest()
        check(not b.part.leaked(), "flow control credits lost: %r", b.part.leaked())

    try:
        simcore.run(main, max_time_ns=60_000_000, max_events=4_000_000)
    finally:
        h = res.get("h")
        if h and h.err:
            check(False, "%s", h.err[0])
    ctx.label(("us+" if c["plus"] else "us") + " %d" % h.b.dw)
    ctx.label("client tags" if c["client"] else "internal tags")
    ctx.nontrivial(h.n_done > 1 and h.rc_seen > 1)


@st.composite
def endurance(draw):
    c = draw(xdev.config())
    c.update(c["plus"] and {"total": 2200} or {"total": 1150}, k=draw(st.sampled_from(["iow", "iow", "fa", "read", "ior"])),
             plan=draw(st.sampled_from(["ok", "ok", "ok", "ur", "ca", "nodata", "poison", "badaddr"])), sp=[False], kp=[False],
             order=[0], lat=[0], cid=5, rcb=64, xt=draw(st.booleans()))
    c["opt"], c["slow"], c["cfg"] = False, 50, max(2, c["cfg"])
    return c


def run_long(c, ctx):
    """The same small request over and over: no resource may run out."""
    async def main():
        h = Harness(c)
        await h.start()
        for k in range(c["total"]):
            await h.push({"op": "req", "k": c["k"], "n": 1, "page": 1 + k % 100, "off": k % 1024, "fbe": 15, "lbe": 15, "fn": k, "en": False, "tc": 0, "attr": 0, "ep": False,
                          "seq": k & 63, "tag": k, "cid": 0, "disc": False, "plan": c["plan"], "at": 0, "cut": [], "salt": k & 255})
            while len(h.np) > 16:
                last = h.n_out
                for _ in range(400):
                    await Timer(100, "ns")
                    if h.n_out != last:
                        break
                else:
                    h.raise_error()
                    check(False, "requests stopped after %d %s answered %s; %d tags in use", last, c["k"], c["plan"], len(h.busy))
            h.raise_error()
        await h.idle()
        h.at_rest()
        check(h.n_out == h.n_done == c["total"], "%d requests sent, %d answered", h.n_out, h.n_done)

    simcore.run(main, max_time_ns=60_000_000, max_events=8_000_000)
    ctx.label(("us+" if c["plus"] else "us") + " " + c["k"] + " " + c["plan"])
    ctx.nontrivial()


PARTS = [Part("traffic", cases(), run, 200, 9000, "random requests, completion plans, tag modes, widths and stalls; non-trivial with several completions"),
         Part("endurance", endurance(), run_long, 16, 200, "more requests than any internal limit; every case")]
