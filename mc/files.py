"""Writers of survey files with chosen header values (independent of the library's own writer)."""
import struct

import numpy as np
import obspy
from obspy.io.segy.segy import SEGYTraceHeader
from obspy.core import AttribDict, Stats


def write_segy_like(fname, fmt, traces, dt, default_source=(0, 0), integer=False):
    """traces: list of dicts(amp, gx, gy, sx, sy, scale, nst, delay_ms, units); header integers are written as given."""
    st = obspy.Stream()
    for t in traces:
        tr = obspy.Trace(np.array(t["amp"], dtype=np.int32 if integer else np.float32))
        tr.stats.delta = dt
        tr.stats.starttime = obspy.UTCDateTime(2021, 1, 2, 3, 4, 5)
        h = SEGYTraceHeader()
        h.scalar_to_be_applied_to_all_coordinates = t.get("scale", -1000)
        h.source_coordinate_x = t.get("sx", default_source[0])
        h.source_coordinate_y = t.get("sy", default_source[1])
        h.group_coordinate_x = t["gx"]
        h.group_coordinate_y = t.get("gy", 0)
        h.number_of_horizontally_stacked_traces_yielding_this_trace = t.get("nst", 1)
        h.delay_recording_time = t.get("delay_ms", 0)
        h.coordinate_units = t.get("units", 1)
        if fmt == "SU":
            tr.stats.su = AttribDict({"trace_header": h})
        else:
            tr.stats.segy = AttribDict({"trace_header": h})
        st.append(tr)
    if fmt == "SEGY":
        st.write(str(fname), format="SEGY", data_encoding=2 if integer else 5)
    else:
        st.write(str(fname), format="SU")


def write_seg2(fname, traces, dt, code=4):
    """Minimal SEG-2 writer. traces: list of dicts(amp, headers: dict of strings); code: 4 single precision, 2 32-bit integers."""
    n = len(traces)
    size = 4 * n
    size += (-size) % 4

    def strings(d):
        out = b""
        for k, v in d.items():
            s = f"{k} {v}".encode() + b"\x00"
            out += struct.pack("<H", len(s) + 2) + s
        return out + struct.pack("<H", 0)

    fstr = strings({"ACQUISITION_DATE": "02/01/2021", "ACQUISITION_TIME": "03:04:05"})
    blocks = []
    for t in traces:
        hd = {"SAMPLE_INTERVAL": repr(dt)}
        hd.update(t["headers"])
        b = strings(hd)
        amp = np.array(t["amp"], dtype="<f4" if code == 4 else "<i4").tobytes()
        hsize = 32 + len(b)
        hsize += (-hsize) % 4
        hdr = struct.pack("<HHIIB", 0x4422, hsize, len(amp), len(t["amp"]), code)
        hdr += b"\x00" * (32 - len(hdr)) + b
        hdr += b"\x00" * (hsize - len(hdr))
        blocks.append(hdr + amp)
    head = struct.pack("<HHHH", 0x3a55, 1, size, n)
    head += struct.pack("<B2sB2s", 1, b"\x00\x00", 1, b"\n\x00")
    head += b"\x00" * (32 - len(head))
    start = 32 + size + len(fstr)
    start += (-start) % 4
    ptrs, pos = [], start
    for b in blocks:
        ptrs.append(pos)
        pos += len(b)
    body = head + struct.pack("<%dI" % n, *ptrs)
    body += b"\x00" * (32 + size - len(body)) + fstr
    body += b"\x00" * (start - len(body))
    with open(fname, "wb") as f:
        f.write(body + b"".join(blocks))
