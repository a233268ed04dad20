#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand after editing)."""
import json, os, subprocess
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)),".."))
SEQ="exhaustive enumeration of operation histories on the real code up to a depth, compared after each step with a reference model"
ENC="exhaustive enumeration of operation histories on the real encoder with a recording sink, decoded by an independent reader"
IOX="exhaustive enumeration of histories x system call outcomes on the real code over interposed libc file calls"
N={
"C01":(SEQ,"every history up to the depth over every buffer kind; beyond it, every combination of bulk steps around growth and word boundaries. Trusts the reference lists and the fixed value alphabet"),
"C02":(SEQ,"every source shape x destination prefix x span partition up to the bound, all bit alignments. Values from a fixed alphabet"),
"C03":("exhaustive enumeration of bit sequences, run structures and encoder reuse, decoded by an independent decoder","all bit strings to a length, all run structures around every threshold; longer inputs by run structure only"),
"C04":("exhaustive enumeration of values and byte strings against an independent LEB128 in 128-bit arithmetic","all small values, windows around all powers of two, all 7-bit group combinations over representatives, all byte strings over representatives"),
"C05":("exhaustive enumeration of lists x widths x sizes and reuse histories, unpacked by an independent bit reader","every length to 400 x every width x placements. One recorded finding at width 32"),
"C06":(ENC,"every history to the depth x block sizes x types, and bulk batches around every internal boundary; sizes to 1.1 million rows and 2 MiB values"),
"C07":(ENC,"every history to the depth x block sizes x item lengths, and bulk batches around every internal boundary; sizes to 1.1 million rows and 2 MiB values"),
"C08":(ENC,"the same histories as C06 and C07; ids judged from block data sections alone"),
"C09":(ENC,"the same histories as C06 and C07, and whole segments for the 128 KiB size"),
"C10":(ENC+"; every partition into batches compared with one batch","all partitions of all short row sequences, and the C06/C07 histories"),
"C11":("all interleavings of two and three writers at their suspension points, and of segment writers on threads stopped at every file system call within a preemption bound, under a controlled scheduler","switching happens where the code awaits or calls the file system; the code shares no memory between instances by construction of safe Rust without globals"),
"C12":(IOX,"every history to the depth x one partial or interrupted call. The kernel's page cache and std/tokio are trusted"),
"C13":(IOX+"; single-fault enumeration","every call of every history to the depth failing once or persistently; one fault point per run; every errno on selected histories"),
"C14":(IOX,"all ranges of small files, all pairs of boundary points of a larger one, one fault per read"),
"C15":("stateless model checking: every completion order and polling order under a controlled scheduler that gates preads","up to 6 reads (8 thorough), two streams, two files, bounded faults; threads interact only at file calls and wake-ups"),
"C16":("exhaustive enumeration of segment write histories on the real writer, files read by an independent reader","all plans up to 3 columns x batch shapes; block offsets taken from the in-memory block index"),
"C17":("exhaustive enumeration of segment and column attributes, index file read by an independent footer and protobuf decoder","all combinations of listed attribute values; up to 1000 columns (20,000 thorough)"),
"C18":("exhaustive enumeration of ids (every byte value at every position) and short segment sequences","two backgrounds per byte position; orders of several close ids; 300 segments in one directory"),
"C19":("crash-state enumeration: every crash point x every surviving subset of unsynced writes of the recorded system call history","a successful fsync makes earlier writes of that file durable; a new name is durable once its directory was synced after it appeared"),
"C20":("exhaustive enumeration of (kind, encoding, nullability, input) configurations","all configurations; inputs by shape. One recorded finding: snappy is a stub"),
"C21":("exhaustive enumeration of configurations, run on the real executable","observed through a guarded println of the configuration the server receives"),
"C22":("exhaustive enumeration of segment write histories; index entries compared with the bytes of the file","the same plans as C16. One recorded finding: the index is never persisted"),
}
def full(h): return subprocess.check_output(["git","-C","/repo","rev-parse",h],text=True).strip()
m={"version":1,"setup_cmd":"./setup.sh",
"hooks":{"guard":"meerkat_verif (rustc --cfg)","enable":"the explorer's build script compiles a mirror of /repo/src into the explorer with --cfg meerkat_verif and --cfg meerkat_verif=<group> for every group of hooks (rle, varint, offsets, enc, index, io, seg); for C21 `cargo rustc --bin meerkat -- --cfg meerkat_verif` in a mirror",
"source_commits":[full("d7063b1"),full("fd1cd45"),full("b4db7f1")]},
"checks":[{"property":k,"quick_cmd":"./check "+k,"thorough_cmd":"VERIF_TIER=thorough ./check "+k,
"evidence_file":"evidence/%s.json"%k,"technique":t,"level":"model_checking","level_note":n} for k,(t,n) in N.items()],
"not_applicable":[],
"notes":"See DESIGN.md. known_findings.txt lists recorded findings and repaired defects."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
