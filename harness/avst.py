"""Intel Avalon-ST TLP interfaces (Stratix 10 H/L-tile, P-tile) on the wire level, written from the user guides.

A frame is a dict: data (payload dwords; for S10 header dwords first), par (4 bits per dword), bar, fn, vf (None
or number), err, abort and, for P-tile, hdr (128 bit), hpar (16), pfx (32), ppar (4).
"""
S10, PTILE = "s10", "ptile"
CONFIGS = [(f, w, s, d) for f, w, s in ((S10, 256, 1), (S10, 512, 2), (PTILE, 128, 1), (PTILE, 256, 1), (PTILE, 512, 2)) for d in ("rx", "tx")]
FN_BITS = {S10: 2, PTILE: 3}


def signals(cfg, par, vf=True):
    """name -> width of the interface's signals."""
    fam, w, s, d = cfg
    lanes = w // 32 // s
    out = {"data": w, "sop": s, "eop": s, "valid": s, "ready": 1}
    if d == "rx":
        out.update(empty=s * (lanes - 1).bit_length(), bar_range=3 * s)
        if vf:
            out.update(vf_active=s, func_num=FN_BITS[fam] * s, vf_num=11 * s)
        if fam == PTILE:
            out.update(tlp_abort=s)
    else:
        out.update(err=s)
    if fam == PTILE:
        out.update(hdr=128 * s, tlp_prfx=32 * s)
        if par:
            out.update(data_par=w // 8, hdr_par=16 * s, tlp_prfx_par=4 * s)
    elif par:
        out.update(parity=w // 8)
    return out


def header_dws(dw0):
    return 4 if dw0 >> 29 & 1 else 3


def payload_dws(dw0):
    return (dw0 & 0x3ff or 1024) if dw0 >> 30 & 1 else 0


def byte_parity(v, nbytes):
    """Even parity, one bit per byte."""
    return sum((bin(v >> 8 * k & 255).count("1") & 1) << k for k in range(nbytes))


def total(fam, f):
    return payload_dws(f["hdr"] >> 96) if fam == PTILE else header_dws(f["data"][0]) + payload_dws(f["data"][0])


def decode(cfg, par, beats, vf=True):
    """Beats (dict of signal values, valid in at least one segment) -> frames; AssertionError when the rules are broken."""
    fam, w, s, d = cfg
    lanes = w // 32 // s
    eb = (lanes - 1).bit_length()
    fb = FN_BITS[fam]
    out, cur, left = [], None, 0
    for b in beats:
        seen_gap = False
        for seg in range(s):
            if not b["valid"] >> seg & 1:
                assert not (cur is not None), "segment %d not valid within a packet" % seg
                seen_gap = True
                continue
            sop, eop = b["sop"] >> seg & 1, b["eop"] >> seg & 1
            dw = [b["data"] >> 32 * (seg * lanes + k) & 0xffffffff for k in range(lanes)]
            if sop:
                assert cur is None, "sop within a packet"
                cur = {"data": [], "par": [], "bar": b.get("bar_range", 0) >> 3 * seg & 7, "err": b.get("err", 0) >> seg & 1, "abort": b.get("tlp_abort", 0) >> seg & 1,
                       "fn": b.get("func_num", 0) >> fb * seg & (1 << fb) - 1, "vf": (b["vf_num"] >> 11 * seg & 0x7ff) if b.get("vf_active", 0) >> seg & 1 else None}
                if fam == PTILE:
                    cur["hdr"] = b["hdr"] >> 128 * seg & (1 << 128) - 1
                    cur["pfx"] = b["tlp_prfx"] >> 32 * seg & 0xffffffff
                    if par:
                        cur["hpar"] = b["hdr_par"] >> 16 * seg & 0xffff
                        cur["ppar"] = b["tlp_prfx_par"] >> 4 * seg & 15
                    left = payload_dws(cur["hdr"] >> 96)
                else:
                    left = header_dws(dw[0]) + payload_dws(dw[0])
            assert cur is not None, "data outside of a packet"
            n = min(lanes, left)
            cur["data"] += dw[:n]
            if par:
                p = b["data_par" if fam == PTILE else "parity"]
                cur["par"] += [p >> 4 * (seg * lanes + k) & 15 for k in range(n)]
            left -= n
            assert bool(eop) == (left == 0), "eop %d with %d dwords of the packet missing" % (eop, left)
            if eop:
                if "empty" in b and n:
                    e = b["empty"] >> eb * seg & (1 << eb) - 1
                    assert e == lanes - n, "empty is %d with %d of %d dwords used" % (e, n, lanes)
                out.append(cur)
                cur = None
    assert cur is None, "last packet incomplete"
    return out


def encode(cfg, par, frames, start_new):
    """Frames -> beats.  start_new() tells whether a packet may start in a free segment (else the segment stays idle)."""
    fam, w, s, d = cfg
    lanes = w // 32 // s
    eb = (lanes - 1).bit_length()
    fb = FN_BITS[fam]
    names = signals(cfg, par)
    beats, todo, cur, off = [], list(frames), None, 0
    while todo or cur is not None:
        b = dict.fromkeys(names, 0)
        for seg in range(s):
            if cur is None:
                if not todo or not start_new():
                    continue
                cur, off = todo.pop(0), 0
                b["sop"] |= 1 << seg
                side = {"bar_range": cur["bar"] << 3 * seg, "err": cur["err"] << seg, "tlp_abort": cur["abort"] << seg, "func_num": cur["fn"] << fb * seg}
                if cur["vf"] is not None:
                    side.update(vf_active=1 << seg, vf_num=cur["vf"] << 11 * seg)
                if fam == PTILE:
                    side.update(hdr=cur["hdr"] << 128 * seg, tlp_prfx=cur["pfx"] << 32 * seg, hdr_par=cur["hpar"] << 16 * seg, tlp_prfx_par=cur["ppar"] << 4 * seg)
                for k, v in side.items():
                    if k in b:
                        b[k] |= v
            b["valid"] |= 1 << seg
            n = min(lanes, len(cur["data"]) - off)
            for k in range(n):
                b["data"] |= cur["data"][off + k] << 32 * (seg * lanes + k)
                if par:
                    b["data_par" if fam == PTILE else "parity"] |= cur["par"][off + k] << 4 * (seg * lanes + k)
            off += n
            if off == len(cur["data"]):
                b["eop"] |= 1 << seg
                if "empty" in b:
                    b["empty"] |= ((lanes - n) % lanes) << eb * seg
                cur = None
        if b["valid"]:
            beats.append(b)
    return beats
