"""minimal SAC reader/writer (little endian, 70 floats, 40 ints, 24 strings)"""
import struct, numpy as np
FL = "delta depmin depmax scale odelta b e o a internal1 t0 t1 t2 t3 t4 t5 t6 t7 t8 t9 f resp0 resp1 resp2 resp3 resp4 resp5 resp6 resp7 resp8 resp9 stla stlo stel stdp evla evlo evel evdp mag user0 user1 user2 user3 user4 user5 user6 user7 user8 user9 dist az baz gcarc internal2 internal3 depmen cmpaz cmpinc xminimum xmaximum yminimum ymaximum unused1 unused2 unused3 unused4 unused5 unused6 unused7".split()
IN = "nzyear nzjday nzhour nzmin nzsec nzmsec nvhdr norid nevid npts internal4 nwfid nxsize nysize unused8 iftype idep iztype unused9 iinst istreg ievreg ievtyp iqual isynth imagtyp imagsrc unused10 unused11 unused12 unused13 unused14 unused15 unused16 unused17 leven lpspol lovrok lcalda unused18".split()
assert len(FL) == 70 and len(IN) == 40

def read(path):
    b = open(path, "rb").read()
    if len(b) < 632: raise ValueError("short SAC file " + path)
    fl = struct.unpack("<70f", b[:280]); it = struct.unpack("<40i", b[280:440])
    h = dict(zip(FL, fl)); h.update(dict(zip(IN, it)))
    s = b[440:632]
    h["kstnm"] = s[0:8].split(b"\0")[0].decode("latin1").strip(); h["kcmpnm"] = s[160:168].split(b"\0")[0].decode("latin1").strip()
    h["_str"] = s
    h["_size"] = len(b)
    n = h["npts"]
    if len(b) < 632 + 4 * n: raise ValueError("truncated SAC file " + path)
    return h, np.frombuffer(b[632:632 + 4 * n], "<f4").astype(float)

def write(path, hdr, data):
    data = np.asarray(data, "<f4")
    h = {k: -12345.0 for k in FL}; h.update({k: -12345 for k in IN})
    h.update(nvhdr=6, iftype=1, leven=1, lpspol=0, lovrok=1, lcalda=0, b=0.0, unused18=0)
    h.update({k: v for k, v in hdr.items() if k in h})
    h["npts"] = len(data)
    h["e"] = h["b"] + (len(data) - 1) * h["delta"]
    if len(data):
        h["depmin"] = float(data.min()); h["depmax"] = float(data.max()); h["depmen"] = float(data.mean())
    b = struct.pack("<70f", *[h[k] for k in FL]) + struct.pack("<40i", *[int(h[k]) for k in IN])
    s = hdr.get("_str")
    if s is None:
        s = b"-12345  " + b"-12345          " + b"-12345  " * 21
        kc = hdr.get("kcmpnm")
        if kc: s = s[:160] + kc.ljust(8).encode()[:8] + s[168:]
    assert len(s) == 192
    with open(path, "wb") as f: f.write(b + s + data.tobytes())
