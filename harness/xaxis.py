"""UltraScale(+) AXI-Stream beats, written from PG156/PG213: encoder and decoder.

A frame is a dict: data (dwords), par (4 bits per dword), be (4 bits per dword,
rc and cq only), fb, lb (rq and cq), seq (rq), disc.
"""

# tuser field offsets
W512 = {"rq": dict(w=137, sop=20, sptr=22, eop=26, eptr=28, n=2, disc=36, par=73, fb=0, lb=8, seq=61),
        "rc": dict(w=161, sop=64, sptr=68, eop=76, eptr=80, n=4, disc=96, par=97, be=0),
        "cq": dict(w=183, sop=80, sptr=82, eop=86, eptr=88, n=2, disc=96, par=119, be=16, fb=0, lb=8),
        "cc": dict(w=81, sop=0, sptr=2, eop=6, eptr=8, n=2, disc=16, par=17)}
NARROW = {"rq": dict(disc=11, par=28, fb=0, lb=4, seq=24), "rc": dict(disc=42, par=43, be=0),
          "cq": dict(disc=41, par=53, be=8, fb=0, lb=4), "cc": dict(disc=0, par=1)}
WIDTHS = {"rq": (60, 62), "rc": (75,), "cq": (85, 88), "cc": (33,)}
CONFIGS = [(i, w, t, 1) for i in WIDTHS for w in (64, 128, 256) for t in WIDTHS[i]] + \
          [("rc", 256, 75, 2)] + [(i, 512, W512[i]["w"], s) for i in W512 for s in ((1, 2, 4) if i == "rc" else (1, 2))]
SEQ_BITS = {60: 4, 62: 6, 137: 6}


def encode(cfg, frames, start_new):
    """Frames -> list of beats (dict).  start_new() says whether a packet may start in a free segment of the current beat."""
    i, width, tw, segs = cfg
    lanes = width // 32
    sl = lanes // segs
    L = W512[i] if width == 512 else NARROW[i]
    beats = []
    todo = list(frames)
    cur, off = None, 0
    while todo or cur is not None:
        b = {"data": 0, "keep": 0, "user": 0, "last": 0, "frames": []}
        for lane in range(lanes):
            b["user"] |= 15 << (L["par"] + 4 * lane)
        ns = ne = 0
        for seg in range(segs):
            if cur is None:
                if not todo or (seg and not start_new()):
                    break
                cur, off = todo.pop(0), 0
                u = 0
                if width == 512:
                    u |= 1 << (L["sop"] + ns) | (seg * sl // 4) << (L["sptr"] + 2 * ns)
                elif i == "rc":
                    u |= 1 << (32 + ns)
                elif i == "cq":
                    u |= 1 << 40
                if "fb" in L:
                    u |= cur["fb"] << (L["fb"] + 4 * ns) | cur["lb"] << (L["lb"] + 4 * ns)
                if "seq" in L:
                    if width == 512:
                        u |= cur["seq"] << (L["seq"] + 6 * ns)
                    else:
                        u |= (cur["seq"] & 15) << 24 | (cur["seq"] >> 4) << 60
                b["user"] |= u
                ns += 1
            b["frames"].append(cur["id"])
            if cur["disc"]:
                b["user"] |= 1 << L["disc"]
            last = 0
            for lane in range(seg * sl, (seg + 1) * sl):
                if off < len(cur["data"]):
                    b["data"] |= cur["data"][off] << 32 * lane
                    b["keep"] |= 1 << lane
                    b["user"] &= ~(15 << (L["par"] + 4 * lane))
                    b["user"] |= cur["par"][off] << (L["par"] + 4 * lane)
                    if "be" in L:
                        b["user"] |= cur["be"][off] << (L["be"] + 4 * lane)
                    last = lane
                    off += 1
            if off >= len(cur["data"]):
                if width == 512:
                    b["user"] |= 1 << (L["eop"] + ne) | last << (L["eptr"] + 4 * ne)
                elif i == "rc":
                    b["user"] |= (1 | last << 1) << (34 + 4 * ne)
                ne += 1
                if segs == 1:
                    b["last"] = 1
                cur = None
        beats.append(b)
    return beats


def decode(cfg, beats):
    """List of beats (dict data, keep, user, last) -> list of frames; raises AssertionError with a reason."""
    i, width, tw, segs = cfg
    lanes = width // 32
    sl = lanes // segs
    L = W512[i] if width == 512 else NARROW[i]
    out = []
    cur = None
    for b in beats:
        u = b["user"]

        def f(pos, n):
            return u >> pos & ((1 << n) - 1)
        # starts and ends in lane order
        sops, eops = [], []
        if width == 512:
            for k in range(L["n"]):
                if f(L["sop"] + k, 1):
                    assert k == len(sops), "is_sop[%d] without is_sop[%d]" % (k, k - 1)
                    sops.append(4 * f(L["sptr"] + 2 * k, 2))
                if f(L["eop"] + k, 1):
                    assert k == len(eops), "is_eop[%d] without is_eop[%d]" % (k, k - 1)
                    eops.append(f(L["eptr"] + 4 * k, 4))
            assert len(sops) <= segs and len(eops) <= segs, "more packets in a beat than segments"
        elif i == "rc":
            if f(32, 1):
                sops.append(4 if cur is not None else 0)
            if f(33, 1):
                assert sops, "is_sof_1 without is_sof_0"
                sops.append(4)
            for k in (0, 1):
                if f(34 + 4 * k, 1):
                    eops.append(f(35 + 4 * k, 3))
            assert segs == 2 or len(sops) < 2 and len(eops) < 2
        else:
            if i == "cq":
                assert f(40, 1) == (cur is None), "sop is %d, packet in progress: %r" % (f(40, 1), cur is not None)
            if cur is None:
                sops = [0]
            if b["last"]:
                k = b["keep"]
                assert k and k & (k + 1) == 0, "tkeep %#x" % k
                eops = [k.bit_length() - 1]
        if segs == 1:
            assert sops == ([0] if cur is None else []), "packet start at %r, packet in progress: %r" % (sops, cur is not None)
            assert bool(b["last"]) == bool(eops), "tlast %d, end of packet %r" % (b["last"], eops)
            k = (1 << (eops[0] + 1 if eops else lanes)) - 1
            assert b["keep"] == k, "tkeep %#x, should be %#x" % (b["keep"], k)
        lane = 0
        ns = 0
        e = list(eops)
        anything = False
        while lane < lanes:
            if cur is None:
                if ns < len(sops):
                    assert sops[ns] == lane, "packet starts at lane %d, expected lane %d" % (sops[ns], lane)
                    cur = {"data": [], "par": [], "be": [], "disc": False}
                    if "fb" in L:
                        cur["fb"], cur["lb"] = f(L["fb"] + 4 * ns, 4), f(L["lb"] + 4 * ns, 4)
                    if "seq" in L:
                        cur["seq"] = f(L["seq"] + 6 * ns, 6) if width == 512 else f(24, 4) | (f(60, 2) << 4 if tw == 62 else 0)
                    ns += 1
                else:
                    break
            anything = True
            last = e[0] if e else lanes - 1
            assert last >= lane, "packet ends at lane %d before it starts at lane %d" % (last, lane)
            cur["disc"] |= bool(f(L["disc"], 1))
            for k in range(lane, last + 1):
                cur["data"].append(b["data"] >> 32 * k & 0xffffffff)
                cur["par"].append(f(L["par"] + 4 * k, 4))
                cur["be"].append(f(L["be"] + 4 * k, 4) if "be" in L else None)
            if e:
                e.pop(0)
                out.append(cur)
                cur = None
                lane = (last // sl + 1) * sl
                # free lanes of the segment carry the parity of zero
                for k in range(last + 1, lane):
                    assert f(L["par"] + 4 * k, 4) == 15, "parity of an unused lane"
            else:
                lane = lanes
        assert anything, "beat without packet data"
        assert not e and ns == len(sops), "unmatched start or end of packet: starts %r, ends %r" % (sops, eops)
    assert cur is None, "last packet incomplete"
    return out
