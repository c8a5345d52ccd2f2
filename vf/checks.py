"""property id -> jobs (harness, sources of /repo, bounds)"""
from engine import Job

CHECKS = {}


def prop(pid, jobs, assumptions=()):
    CHECKS[pid] = {"jobs": jobs, "assumptions": list(assumptions)}


# utils.c with readall & co. renamed away; the harness supplies their contract
CONTRACT_IO = {"utils.c": ["%s=vf_orig_%s" % (n, n) for n in ("readall", "preadall", "writeall", "pwriteall")]}
BY_CONTRACT = "readall/preadall/writeall/pwriteall by the contract C20 decides"

IO = ["readall", "preadall", "writeall", "pwriteall"]
prop("C20", [
    Job("wide-" + n, "iowide.c", ["utils.c"], defs=["OP=%d" % i, "CALLS=4"], unwind=6,
        bounds="length <= 2^40, offset <= 2^62, 4 system calls (3 arbitrary outcomes, then one full transfer)")
    for i, n in enumerate(IO)
] + [
    Job("exact-" + n, "io.c", ["utils.c"], defs=["OP=%d" % i, "EXACT=3", "K_SHORT=2"], unwind=9,
        bounds="length <= 3, file <= 5 bytes, every byte compared; <= 2 short transfers, 2 EINTR, 1 EIO")
    for i, n in enumerate(IO)
] + [
    Job("wide5-" + n, "iowide.c", ["utils.c"], defs=["OP=%d" % i, "CALLS=6"], unwind=8, tier="thorough", timeout=3000,
        bounds="length <= 2^40, offset <= 2^62, 6 system calls")
    for i, n in enumerate(IO)
])

_C12 = ["caibx.c", "utils.c", "chunker.c"]
_C12H = {"vf_pread": 41, "le": 9, "readall": 65}
_RA = {"utils.c": ["readall=vf_orig_readall"]}
prop("C12", [
    Job("sizes-small", "caibx_hdr.c", _C12, defs=["NMASK=0xfff", "NSHIFT=0"], unwind=5, srcdefs=_RA, hints=_C12H, stubs="readall by its contract (C20)",
        bounds="any entry count < 4096 and any remainder; every header and footer byte arbitrary; file or device"),
    Job("sizes-large", "caibx_hdr.c", _C12, defs=["NMASK=0xfff", "NSHIFT=24"], unwind=5, srcdefs=_RA, hints=_C12H, stubs="readall by its contract (C20)",
        bounds="entry counts k * 2^24, k < 4096; every header and footer byte arbitrary"),
    Job("truncated", "caibx_hdr.c", _C12, defs=["TINY"], unwind=5, srcdefs=_RA, hints=_C12H, stubs="readall by its contract (C20)",
        bounds="index of 0..103 arbitrary bytes"),
    Job("faults", "caibx_hdr.c", _C12, defs=["FAULTS", "ENTRIES=2"], unwind=5, srcdefs=_RA, hints=_C12H, stubs="readall by its contract (C20)",
        bounds="2 entries; any one seek or read fails"),
] + [
    Job("short-read%d" % k, "caibx_hdr.c", _C12, defs=["EXACT_IO", "ENTRIES=1", "SHORT_AT=%d" % k], unwind=5, hints={"vf_pread": 41, "le": 9},
        bounds="1 entry, every header and footer byte arbitrary; system call %d transfers 3 bytes only" % k)
    for k in (1, 2)
])

prop("C13", [
    Job("entries", "caibx_iter.c", _C12, defs=["VF_CONTRACT_IO", "VN=3"], srcdefs=CONTRACT_IO, unwind=5,
        hints={"vf_data_out": 42, "le": 9, "cb": 33}, stubs=BY_CONTRACT,
        bounds="<= 3 entries, every table byte and chunk size parameter arbitrary; <= 1 failing read"),
    Job("syscalls", "caibx_iter.c", _C12, defs=["VN=2"], unwind=5,
        hints={"vf_data_out": 42, "le": 9, "cb": 33}, bounds="<= 2 entries, system calls that transfer in full"),
])

_CH = ["chunker.c", "utils.c"]


def _chunker(name, length, avg, discr, parts, sym=None, seed=None, tier="quick", timeout=600, weight=1):
    defs = ["LEN=%d" % length, "AVG=%d" % avg, "DISCR=%d" % discr, "PARTS=%s" % parts]
    defs += ["SYM=%s" % sym] if sym else ["TABLE"]
    defs += ["SEED=%d" % seed] if seed else []
    return Job(name, "chunker.c", _CH, defs=defs, unwind=length + 4, tier=tier, timeout=timeout, weight=weight,
               hints={"ref_boundary": max(49, length - 46)}, optional_reach=("no boundary", "boundary found"),
               bounds="%d bytes in pieces of %s and the rest; %s; average size %d (discriminator %d), every minimum and maximum size up to 200 around it" % (
                   length, parts, "bytes %s arbitrary" % sym if sym else "one arbitrary byte at an arbitrary position, minimum 0", avg, discr))


prop("C14", [
    _chunker("table", 52, 3, 2, "52", weight=2),
    _chunker("window", 110, 171, 128, "100", sym="60", weight=5),
    _chunker("window-pieces", 110, 171, 128, "47,1,48", sym="48", weight=5),
    _chunker("first-byte", 60, 22, 16, "1", sym="0,49"),
    _chunker("piece47", 60, 22, 16, "47", sym="46,47,49"),
    _chunker("piece48", 60, 22, 16, "48", sym="1,48,50"),
    _chunker("piece49", 60, 22, 16, "49", sym="0,48,49"),
    _chunker("bytewise", 52, 22, 16, ",".join(["1"] * 51), sym="0,47,48"),
    _chunker("pieces", 60, 22, 16, "10,39,3", sym="0,48,50,53"),
    _chunker("discriminator37", 50, 50, 37, "49", sym="48"),
    _chunker("discriminator-default", 50, 65536, 0xc17f, "20,29", sym="48", seed=325),
    _chunker("discriminator-default-2", 50, 65536, 0xc17f, "50", sym="48", seed=421),
    _chunker("dense", 60, 22, 16, "60", sym="0,1,2,30,47,48,49,50,53", tier="thorough", timeout=3000),
    _chunker("window2", 110, 171, 128, "47,1,48", sym="10,48,96", tier="thorough", timeout=3000),
    _chunker("window3", 150, 171, 128, "48,48,48", sym="95,96", tier="thorough", timeout=6000),
    _chunker("long37", 54, 50, 37, "49", sym="48", tier="thorough", timeout=3000),
])


def _scanfd(name, length, parts, avg, discr, mn, mx, sym, fault=None, eintr=0, seed=None, tier="quick", reach=()):
    defs = ["VF_BUFSIZ=64", "LEN=%d" % length, "PARTS=%s" % parts, "AVG=%d" % avg, "DISCR=%d" % discr,
            "MIN_SZ=%d" % mn, "MAX_SZ=%d" % mx] + sym
    if fault is not None:
        defs += ["FAULT=%d" % fault, "FKIND=%d" % eintr]
    if seed:
        defs += ["SEED=%d" % seed]
    return Job(name, "chunker_fd.c", _CH, defs=defs, unwind=length + 10, tier=tier, optional_reach=reach,
               bounds="%d bytes%s, read in pieces of %s and the rest (read buffer of 64 bytes); %s" % (
                   length, " (all arbitrary)" if "ALLSYM" in sym else "", parts,
                   "no faults" if fault is None else "call %d %s" % (fault, "interrupted" if eintr else "fails")))


_PLAN = {"chunker.c": ["chunker_scan", "chunker_reset", "chunker_get_id"]}
prop("C15", [
    Job("plan-%d-%d" % (b, n), "chunker_fdplan.c", _CH, defs=["VF_BUFSIZ=%d" % b, "LEN=%d" % n, "MINCHUNK=%d" % m], unwind=6,
        hints={"vf_read": 40, "chunker_get_id": 40}, replace=_PLAN, stubs="chunker_scan by an arbitrary boundary plan (its own behaviour is C14)",
        bounds="file of <= %d arbitrary bytes, read buffer of %d, 2 chunk boundaries of any length >= %d, <= 2 short reads, 1 EINTR, failing seek, read or consumer" % (n, b, m))
    for b, n, m in ((4, 6, 1), (8, 6, 2), (3, 5, 2))
] + [
    _scanfd("content", 110, "51,4", 2, 1, 0, 60, ["ALLSYM"]),
    _scanfd("content-one-read", 60, "60", 2, 1, 0, 60, ["ALLSYM"]),
    _scanfd("boundaries", 180, "30,40,48", 3, 2, 0, 60, []),
    _scanfd("boundaries-bulk", 180, "64,64,52", 3, 2, 0, 60, [], seed=99),
    _scanfd("boundaries-max", 180, "50,50,50", 50, 37, 49, 52, [], seed=7),
    _scanfd("boundaries-exact", 144, "48,48,48", 2, 1, 0, 60, [], seed=7),
    _scanfd("interrupted", 110, "48,20", 3, 2, 0, 60, [], fault=2, eintr=1),
    _scanfd("seek-fails", 60, "60", 3, 2, 0, 60, [], fault=0, reach=("scan completed",)),
    _scanfd("read-fails", 110, "60,20", 3, 2, 0, 60, [], fault=2, reach=("scan completed",)),
    _scanfd("read-fails-at-end", 110, "60,50", 3, 2, 0, 60, [], fault=3, reach=("scan completed",)),
    _scanfd("content-long", 200, "51,4,64,10", 2, 1, 0, 60, ["ALLSYM"], tier="thorough"),
])

prop("C16", [
    Job("ascending", "chunker_params.c", _CH, defs=["SET"], bounds="every triple of 64 bit sizes"),
    Job("usable", "chunker_params.c", _CH, defs=["AVG_LO=0", "AVG_HI=0xffffffff", "NO_QUOTIENT"], bounds="every 32 bit average, minimum and maximum size"),
    Job("discriminator", "chunker_params.c", _CH, defs=["FIXED"], unwind=33, bounds="20 average sizes, every minimum and maximum size"),
    Job("discriminator-64k", "chunker_params.c", _CH, defs=["AVG_LO=65536", "AVG_HI=65551"], optional_reach=("rejected",), bounds="average sizes 65536..65551"),
    Job("discriminator-1k", "chunker_params.c", _CH, defs=["AVG_LO=1024", "AVG_HI=1279"], optional_reach=("rejected",), bounds="average sizes 1024..1279"),
    Job("discriminator-16k", "chunker_params.c", _CH, defs=["AVG_LO=16384", "AVG_HI=20479"], optional_reach=("rejected",), tier="thorough", timeout=3000, bounds="average sizes 16384..20479"),
])

_IDX = ["index.c", "utils.c"]


def _index(name, size, at, ops, few=0, tier="quick", timeout=600):
    return Job(name, "index.c", _IDX, defs=["SIZE=%d" % size, "INSERT_AT=0x%x" % at, "OPS=%d" % ops] + (["FEW_BYTES=%d" % few] if few else []),
               unwind=34, hints={"vf_qsort": 9, "vf_bsearch": 6, "swap_entries": 33}, tier=tier, timeout=timeout,
               bounds="expected size %d; operations %s; 3 ids%s, arbitrary ranges" % (
                   size, "".join("I" if at >> k & 1 else "Q" for k in range(ops)),
                   " with %d arbitrary bytes each" % few if few else ", every byte arbitrary"))


prop("C17", [
    _index("size0", 0, 0x0b, 5, few=3),
    _index("size1", 1, 0x07, 4, few=3),
    _index("size1-again", 1, 0x0b, 5, few=3),
    _index("size2-grown", 2, 0x0f, 5, few=1),
    _index("size2-again", 2, 0x2f, 6, few=1),
    _index("size3", 3, 0x15, 6, few=3),
    _index("empty-queries", 0, 0x02, 4),
    _index("full-ids", 1, 0x03, 3),
    _index("size2-grown3", 2, 0x0f, 5, few=3, tier="thorough", timeout=3000),
    _index("size1-grown", 1, 0x1f, 6, few=1, tier="thorough", timeout=3000),
    _index("full-ids-3", 1, 0x07, 4, tier="thorough", timeout=3000),
])


def _chain(name, n, hint, q, first=None, nofree=0, tier="quick"):
    first = n if first is None else first
    return Job(name, "chain.c", ["store.c", "chunk.c", "utils.c"], unwind=max(n, q) + 3, hints={"chunk_format_id": 33, "fake_get": 33, "harness": 33}, tier=tier,
               defs=["N_STORES=%d" % n, "HINT=%d" % hint, "QUERIES=%d" % q, "FIRST=%d" % first, "NOFREE=%d" % nofree], optional_reach=("answered", "statistics") if n == 0 else ("statistics",),
               bounds="%d stores (%d before the first request), size hint %d, %d requests, every answer of every store arbitrary" % (n, first, hint, q))


prop("C18", [
    _chain("three", 3, 4, 3),
    _chain("grown", 4, 1, 3),
    _chain("no-hint", 3, 0, 2, first=1, nofree=2),
    _chain("exact-hint", 2, 2, 4, nofree=1),
    _chain("empty", 0, 0, 2),
    _chain("late", 5, 2, 3, first=2),
    *[Job("append-%d-%d" % (n, hint), "chain.c", ["store.c", "chunk.c", "utils.c"], unwind=n + 3, hints={"chunk_format_id": 33, "fake_get": 33, "harness": 33},
          defs=["N_STORES=%d" % n, "HINT=%d" % hint, "QUERIES=0", "FIRST=0", "NOFREE=0", "APPEND_ONLY"], optional_reach=("answered", "freed", "not found", "statistics"), bounds="%d stores appended to a chain with size hint %d" % (n, hint))
      for n, hint in ((9, 0), (9, 1), (6, 2), (9, 3), (9, 4))],
    _chain("many", 9, 3, 4, first=4, tier="thorough"),
])


def _target(name, ops, estimate=2, faults=0, size=8, tier="quick", reach=()):
    return Job(name, "target.c", ["target.c", "utils.c", "sha.c"], unwind=5, srcdefs=CONTRACT_IO, stubs=BY_CONTRACT + "; index.c by the contract C17 decides; SHA-256 by an injective stand-in", tier=tier,
               hints={"harness": 33, "pick": 33, "vf_hash": 34, "vf_hash_eq": 34, "index_insert": 33, "index_query": 33, "vf_data_in": 9, "vf_data_out": 9},
               defs=["VF_CONTRACT_IO", "OPS=" + ",".join("{%s,%s}" % (o[0], o[1:] or 0) for o in ops.split()), "ESTIMATE=%d" % estimate, "FAULTS=%d" % faults, "FILE_SIZE=%d" % size],
               optional_reach=tuple(reach), bounds="operations %s on 4 ranges of a %d byte target, arbitrary data and 3 ids, %d failing calls, size estimate %d" % (ops, size, faults, estimate))


prop("C19", [
    _target("write-get", "S W0 G W1 G", reach=("confirmed",)),
    _target("check-get", "S C0 G C1 G"),
    _target("mixed", "S C0 W2 W1 G", estimate=1),
    _target("faults", "S W0 C1 G G", estimate=0, faults=1),
    _target("late-store", "W0 G S W2 G C3 G", reach=("confirmed",)),
    _target("short-target", "S C3 W3 G", size=7, faults=1, reach=("confirmed",)),
    _target("long", "S C0 W1 G C2 W3 G G", faults=1),
    _target("longer", "W0 C1 S G C2 W3 G G", faults=2, estimate=0),
], assumptions=["every range of the target is written at most once per run"])


def _local(name, layout, side=0, queries=2, faults=0, tier="quick", reach=(), **kw):
    nch = layout.count(",") + 1 if layout else 0
    return Job(name, "local.c", ["store-local.c", "utils.c", "sha.c"], unwind=max(nch, side, queries) + 2, srcdefs=CONTRACT_IO, tier=tier,
               stubs=BY_CONTRACT + "; chunker_scan_fd, caibx_*, index_* by the contracts C15, C12, C13, C17 decide; SHA-256 by an injective stand-in",
               hints={"harness": 33, "vf_hash": 34, "vf_hash_eq": 34, "index_insert": 33, "index_query": 33, "vf_data_in": 9, "vf_data_out": 9, "chunk_format_id": 33},
               defs=["VF_CONTRACT_IO", "LAYOUT=" + layout, "SIDE=%d" % side, "QUERIES=%d" % queries, "FAULTS=%d" % faults],
               optional_reach=tuple(reach), bounds="seed of %s bytes in chunks of %s, arbitrary content; %s; %d requests for arbitrary ids with any buffer size up to 8; at most %d failing reads and scans" % (
                   6, layout, "side-loaded index with %d arbitrary entries, unusable in any way" % side if side else "no side-loaded index", queries, faults), **kw)


prop("C10", [
    _local("scan", "2,1,3", queries=2, reach=("found after discarding the index", "index discarded when it was loaded")),
    _local("scan-same-length", "2,2,2", queries=3, reach=("found after discarding the index", "index discarded when it was loaded")),
    _local("scan-faults", "4,2", queries=2, faults=1, reach=("found after discarding the index", "index discarded when it was loaded")),
    _local("sideload", "2,1,3", side=1, queries=2),
    _local("sideload-faults", "3,3", side=2, queries=2, faults=1),
])
prop("C11", [
    _local("one-entry", "2,1,3", side=1, queries=2),
    _local("two-entries", "2,4", side=2, queries=2),
    _local("three-entries", "1,2,3", side=3, queries=1),
    _local("requests", "3,3", side=2, queries=3),
    _local("faults", "3,3", side=2, queries=2, faults=1),
    _local("deep", "2,1,3", side=3, queries=4, faults=1, tier="thorough", timeout=3000),
])


def _sha(name, calls, maxlen, short=1, eintr=1, fails=1, lib=1, kernel=1, setup=0, long_name=0, tier="quick"):
    return Job(name, "sha.c", ["sha.c", "utils.c"], unwind=maxlen + 4, tier=tier, weight=2,
               hints={"vf_hash": 34, "vf_hash_eq": 34, "k_recv": 33, "sha_once": 1 + maxlen + short + eintr},
               defs=["CALLS=%d" % calls, "MAXLEN=%d" % maxlen, "SHORT=%d" % short, "EINTRS=%d" % eintr, "FAILS=%d" % fails, "LIBFAILS=%d" % lib,
                     "USE_KERNEL=%d" % kernel, "SETUP_FAULT=%d" % setup] + (["LONG_NAME=%d" % long_name] if long_name else []),
               optional_reach=("fell back", "kernel backend set up"),
               bounds="%d inputs of <= %d arbitrary bytes; %s; <= %d short sends, %d interruptions, %d failures of the kernel backend, %d of the library" % (
                   calls, maxlen, "kernel backend (driver name of %d bytes)" % long_name if long_name else "kernel backend" + (", any set-up step failing" if setup else "") if kernel else "library only", short, eintr, fails, lib))


prop("C25", [
    _sha("one", 1, 4, short=2, eintr=2),
    _sha("two", 2, 3),
    _sha("three", 3, 2),
    _sha("setup", 2, 2, setup=1, short=0, eintr=0),
    _sha("library", 2, 3, kernel=0),
    _sha("name63", 1, 1, long_name=63),
    _sha("name64", 1, 1, long_name=64),
    _sha("name88", 1, 1, long_name=88),
    _sha("long", 2, 6, short=2, eintr=2, fails=2, tier="thorough"),
])


_HT = ["store-http.c", "utils.c", "sha.c"]
_HTH = {"vf_vfmt": 300, "strlen": 300, "encrypt_do": 9, "vf_ZSTD_decompressStream": 9, "retried_curl_easy_perform": 11,
        "chunk_format_id": 65, "strncat.0": 200, "strncat.1": 10, "vf_memcpy": 33, "vf_memmove": 9, "vf_realloc": 9, "vf_usleep": 21,
        "check_url": 65, "vf_hash": 34, "vf_hash_eq": 34}
_HTSTUB = "libcurl, zstd and encrypt.c by nondeterministic stand-ins; SHA-256 by an injective stand-in; the chunk name by the contract C09 decides"


def _http(name, parts, leave="", cuts="", enc=0, status="200", magic=1, bl=None, out=4, out_min=None, flags=(), requests=1, transient=0, reach=(), tier="quick", timeout=600):
    n = sum(int(x) for x in parts.split(","))
    bl = n if bl is None else bl
    defs = ["VF_LOOP_MEM=8", "PARTS=" + parts, "BL=%d" % bl, "OUT=%d" % out, "OUT_MIN=%d" % (out if out_min is None else out_min), "REQUESTS=%d" % requests, "TRANSIENT=%d" % transient]
    if status is not None:
        defs.append("STATUS=" + status)
    if magic:
        defs.append("MAGIC")
    if enc:
        defs.append("ENC=1")
    if leave:
        defs.append("LEAVE=" + leave)
    if cuts:
        defs.append("CUTS=" + cuts)
    defs += list(flags)
    opt = set(reach)
    fl = " ".join(flags)
    if "FAILURES" not in fl and "SETOPT_FAIL" not in fl:
        opt.add("failure")
    else:
        opt.add("done")
    if not transient:
        opt.add("chunk returned by a retry")
    return Job(name, "http.c", _HT, defs=defs, unwind=34, hints=dict(_HTH, retried_curl_easy_perform=min(11, transient + 1)), stubs=_HTSTUB, optional_reach=tuple(opt), tier=tier, timeout=timeout,
               bounds="body of %d bytes in pieces %s%s%s, %s, output buffer of %s bytes; %s status; %s requests%s%s; arbitrary body, key stream and id" % (
                   n, parts, ", the decompressor leaving %s bytes" % leave if leave else "", ", pieces delivered per attempt %s" % cuts if cuts else "",
                   "with the magic" if magic else "any first bytes", "%d..%d" % (out_min, out) if out_min is not None else out, "any" if status is None else status,
                   requests, ", <= %d transient failures" % transient if transient else "", ", " + fl if fl else ""))


_NONE = ("chunk returned", "chunk returned by a retry")
prop("C05", [
    _http("any-status", "6", status=None, magic=0, out=4, out_min=1),
    _http("any-output", "6", status="200", flags=["ARBITRARY_OUTPUT"], out_min=1),
    _http("any-output-pieces", "5,2,1", status="200", flags=["ARBITRARY_OUTPUT"]),
    _http("status-203", "5,1", status="203", reach=_NONE),
    _http("status-302", "4,2", status="302", reach=_NONE),
    _http("status-404", "6", status="404", reach=_NONE),
    _http("status-500", "5,1", status="500", reach=_NONE, requests=2),
    _http("decoder-fails", "4,1,1", flags=["ZERROR=0"], reach=_NONE),
    _http("decoder-fails-1", "4,1,1", leave="1", flags=["ZERROR=1"], reach=_NONE),
    _http("decoder-fails-2", "5,1,1", flags=["ZERROR=2"], reach=_NONE),
    _http("transfer-fails", "5,1", flags=["FAILURES=1"], reach=_NONE + ("not returned",)),
    _http("setup-fails-1", "6", flags=["SETOPT_FAIL=1"], requests=2, reach=_NONE + ("not returned",)),
    _http("setup-fails-2", "6", flags=["SETOPT_FAIL=2"], requests=2, reach=_NONE + ("not returned",)),
    _http("setup-fails-3", "6", flags=["SETOPT_FAIL=3"], requests=2),
    _http("two-requests", "5,1", flags=["ZERROR=1"], out=3, requests=2),
    _http("two-requests-left", "5,1", leave="0,1", out=3, requests=2),
    _http("two-requests-enc", "5,1", enc=1, leave="1", out=3, requests=2),
    _http("overfull", "8", bl=8, out=2, out_min=1),
    _http("overfull-pieces", "4,2,2", bl=8, out=2),
    _http("overfull-pieces-1", "5,1,2", bl=8, out=1),
    _http("overfull-enc", "5,1,2", bl=8, out=2, enc=1),
    _http("empty-body", "0", bl=6, reach=("chunk returned",)),
    _http("enc-decoder-fails", "5,1", enc=1, flags=["ZERROR=1"], reach=_NONE),
    _http("enc-transfer-fails", "5,1", enc=1, flags=["FAILURES=1"], reach=_NONE + ("not returned",)),
])

_C06 = []
for _enc in (0, 1):
    for _p, _l in (("6", ""), ("4,2", ""), ("4,1,1", "1"), ("5,1", "2"), ("6", "2"), ("5,2", "1,1"), ("4,2,1", "2,3"), ("4,1,1,1", "0,1,2"), ("7,1", "3,2"), ("4,0,2", "1,2"), ("5,1,1", "4,1"), ("4,2,2", "3"),
            ("1,3,2", ""), ("2,2,2", "1"), ("3,1,2", "4"), ("1,1,1,1,1", ""), ("3,3", "2")):
        _C06.append(_http("%s-%s-%s" % ("enc" if _enc else "plain", _p.replace(",", ""), _l.replace(",", "") or "0"), _p, leave=_l, enc=_enc, reach=("chunk returned", "not returned")))
_C06.append(_http("magic-any", "6", magic=0))
_C06.append(_http("magic-any-enc", "6", magic=0, enc=1))
for _k in range(4):
    _C06.append(_http("magic-bad-%d" % _k, "5,1", flags=["MAGIC_BAD=%d" % _k], reach=_NONE))
    _C06.append(_http("magic-bad-enc-%d" % _k, "3,3", enc=1, flags=["MAGIC_BAD=%d" % _k], reach=_NONE))
for _enc in (0, 1):	# state left behind by one request must not leak into the next
    for _p, _l in (("5,1", "0,1"), ("6", "2"), ("4,2", "1,2")):
        _C06.append(_http("two-%s-%s-%s" % ("enc" if _enc else "plain", _p.replace(",", ""), _l.replace(",", "")), _p, leave=_l, enc=_enc, out=3, requests=2, reach=("chunk returned", "not returned")))
prop("C06", _C06)

prop("C07", [
    _http("nothing", "6", cuts="0", transient=1),
    _http("header", "4,2", cuts="1", transient=1),
    _http("left-over", "5,1", leave="1", cuts="1", transient=1),
    _http("left-over-output", "5,1", leave="0", cuts="1", transient=1, out=1),
    _http("whole", "6", cuts="1", transient=1),
    _http("whole-left", "6", leave="2", cuts="1", transient=1),
    _http("twice", "4,2", leave="2,1", cuts="1,1", transient=2),
    _http("enc-nothing", "6", enc=1, cuts="0", transient=1),
    _http("enc-header", "3,3", enc=1, cuts="1", transient=1),
    _http("enc-left-over", "5,1", enc=1, leave="1", cuts="1", transient=1),
    _http("enc-output", "5,1", enc=1, cuts="1", transient=1),
    _http("other-failures", "5,1", cuts="1", transient=1, flags=["FAILURES=2"], reach=_NONE),
    _http("other-failure-first", "5,1", transient=1, flags=["FAILURES=1"], reach=_NONE),
    _http("up-to-eleven", "5", cuts="0,0,0,0,0,0,0,0,0,0,0", transient=11, out=1, reach=_NONE),
    _http("ten", "5", cuts="0,0,0,0,0,0,0,0,0", transient=10, out=1),
    _http("second-request", "5,1", leave="1,0,1", cuts="1", transient=2, requests=2, out=3, flags=["ATTEMPTS=1,0,1,0"]),
    _http("second-request-clean", "5,1", leave="1,0,1", transient=2, requests=2, out=3, flags=["ATTEMPTS=0,1,1,0"]),
    _http("enc-second-request", "5", enc=1, cuts="1", transient=2, requests=2, out=2),
])


def _budget(kinds, tier="quick", **kw):
    fails = run = 0
    gave_up = False
    for k in kinds:
        if k in "eEu2":
            run += 1
        elif k == "g":
            run = 0
        gave_up |= run > 10
    opt = ["failure", "gave up" if not gave_up else "did not give up"]
    if "2" in kinds:
        opt = ["failure"] + ([] if gave_up else ["gave up"])
    return Job(kinds, "http.c", _HT, defs=["VF_LOOP_MEM=8", "BUDGET", 'KINDS="%s"' % kinds, "PARTS=0", "OUT=1", "OUT_MIN=1"], unwind=34, hints=_HTH, stubs=_HTSTUB, tier=tier,
               optional_reach=tuple(opt), timeout=800, bounds="requests with outcomes %s (e server error, E with a document, m 404/410, g good, u unreachable, 2 error or missing), any status of the kind" % kinds)


prop("C08", [
    _budget("eeeeeeeeeee"), _budget("EEEEEEEEEEE"), _budget("eeeeeeeeeegeeeeeeeeee"), _budget("eEemeEemeeeeeeee"),
    _budget("eeeeeeeeeemmme"), _budget("ugeeeeeeeeeee"), _budget("uueeeeeeeee"), _budget("eeeeeeeeeeu"), _budget("2222222222222"), _budget("mmmmmmmmmmmm"),
])


def _url(name, base, enc=0, refused=False):
    return Job(name, "http.c", _HT + ["chunk.c"], defs=["VF_LOOP_MEM=8", "URL_CHECKED", 'BASE="%s"' % base, "PARTS=0", "OUT=1", "OUT_MIN=1"] + (["ENC=1"] if enc else []), unwind=34,
               hints=dict(_HTH, harness=400), optional_reach=("requested",) if refused else ("refused",), stubs=_HTSTUB, bounds="base URL %s; two requests for arbitrary ids" % base)


prop("C09", [
    _url("plain", "http://h/a"), _url("slash", "http://h/a/"), _url("host", "https://h"), _url("slashes", "http://h//"), _url("no-parameters", "http://h/#"),
    _url("encrypted", "http://h/a#encrypt=key:k", 1), _url("encrypted-slash", "http://h/a/#encrypt=key:k", 1), _url("unknown", "http://h/a#bad", refused=True),
    _url("short", "http:", 0), _url("encrypted-short", "http#encrypt=key:k", 1), _url("long", "https://server.example.org/" + "d/" * 20 + "store.castr/"),
])


def _main(claim, name, plan, sizes="2,1", stores="s", blk=0, faults=0, size=8, flags=(), answers="", reach=(), tier="quick", timeout=800):
    args = ",".join('"%s"' % a for a in ["csn", "i", "t"] + stores.split())
    defs = ["VF_CONTRACT_IO", "CLAIM=%d" % claim, "PLAN=" + plan, "SIZES=" + sizes, "ARGS=" + args, "TBLK=%d" % blk, "FAULTS=%d" % faults, "TSIZE=%d" % size] + list(flags)
    if answers:
        defs.append('ANSWERS="%s"' % answers)
    return Job(name, "main.c", ["main.c", "target.c", "store.c", "utils.c"], rename_main="main.c", srcdefs=CONTRACT_IO, unwind=8, defs=defs, optional_reach=tuple(reach) or ("resumed", "failed"), tier=tier, timeout=timeout,
               hints={"vf_hash": 34, "vf_hash_eq": 34, "index_insert": 33, "index_query": 33, "strlen": 20, "caibx_iterate_entries": 33, "harness": 33, "vf_data_in": 5, "vf_data_out": 5, "stub_get": 9, "on_write": 9},
               stubs=BY_CONTRACT + "; caibx.c, index.c, store-local.c, store-http.c by the contracts C12/C13, C17, C10/C11 and C05 decide; SHA-256 by an injective stand-in",
               bounds="csn i t %s; index entries {chunk,length} %s, chunks of %s arbitrary bytes; %s target of %d arbitrary bytes; %s answers of the stores (found, missing, failed; scribbling on the buffer); <= %d failing reads/writes%s" % (
                   stores, plan, sizes, "block device" if blk else "file", size, "arbitrary" if not answers else "given", faults, "; reading the index may fail at any entry" if "ITER_FAILS" in flags else ""))


_X = ("extracted", "resumed", "failed")
prop("C01", [
    _main(1, "repeated", "{0,2},{1,1},{1,1},{0,2}", faults=1),
    _main(1, "index-fails", "{0,2},{1,1},{0,2}", flags=["ITER_FAILS"]),
    _main(1, "shorter", "{0,2},{1,1},{1,2}", reach=_X),
    _main(1, "longer", "{1,1},{0,1}", faults=1, reach=_X),
    _main(1, "other-length", "{0,2},{0,1}", reach=_X),
    _main(1, "other-length-longer", "{1,1},{1,2}", sizes="2,1", reach=_X),
    _main(1, "large", "{0,262145}", sizes="3", reach=_X),
    _main(1, "large-later", "{0,2},{0,262145}", reach=_X),
    _main(1, "two-stores", "{0,2},{1,1},{0,2}", stores="s http:x", faults=0),
    _main(1, "target-store", "{0,2},{1,1},{0,2}", stores="t s", faults=1),
    _main(1, "target-last", "{0,1},{1,1},{0,1},{1,1}", sizes="1,1", stores="s t", faults=1),
    _main(1, "device-end", "{0,2},{1,1},{1,1}", blk=1, size=3, reach=_X),
    _main(1, "short-file", "{0,2},{1,1},{1,1}", blk=0, size=1, faults=1),
    _main(1, "five", "{0,2},{1,1},{1,1},{0,2},{1,1}", stores="t s http:x", faults=1, tier="thorough", timeout=3000),
    _main(1, "three-faults", "{0,2},{1,1},{2,3}", sizes="2,1,3", stores="s http:x", faults=3, tier="thorough", timeout=3000),
])
prop("C02", [
    _main(2, "plain", "{0,2},{1,1},{1,1},{0,2}", faults=1),
    _main(2, "lengths", "{0,2},{1,2},{1,1}", stores="s:i http:x", faults=1, reach=_X),
    _main(2, "target-store", "{0,2},{1,1},{0,2}", stores="t s", faults=1),
    _main(2, "device-end", "{0,2},{1,1},{1,1}", blk=1, size=3, reach=_X),
    _main(2, "short-file", "{0,2},{1,1}", blk=0, size=1, faults=1),
    _main(2, "index-fails", "{1,1},{0,2},{2,3}", sizes="2,1,3", flags=["ITER_FAILS"]),
    _main(2, "other-length", "{0,2},{0,1}", reach=_X),
    _main(2, "two-stores", "{0,2},{1,1},{0,2}", stores="s http:x"),
    _main(2, "no-target", "{0,2},{1,1}", stores="t s", flags=["NO_TARGET"], reach=("extracted", "resumed")),
    _local("seed", "2,1,3", queries=1, faults=1, reach=("found after discarding the index", "index discarded when it was loaded")),
    _local("seed-index", "2,4", side=1, queries=1),
])
prop("C03", [
    _main(3, "plain", "{0,2},{1,1},{2,3}", sizes="2,1,3"),
    _main(3, "repeated", "{0,2},{1,1},{1,1},{0,2}"),
    _main(3, "same", "{0,1},{0,1},{0,1},{0,1}", sizes="1"),
    _main(3, "target-store", "{0,2},{1,1},{1,1},{0,2}", stores="t s", blk=1),
    _main(3, "all-there", "{0,1},{1,2},{0,1}", sizes="1,2", stores="s t", answers="fffff"),
    _main(3, "short-file", "{0,2},{1,1},{0,2}", size=3, answers="fffff"),
    _main(3, "short-device", "{0,2},{1,1}", blk=1, size=3, answers="fffff"),
    _main(3, "wrong-length", "{0,2},{1,2},{0,2}", reach=_X),
    _main(3, "short-last", "{0,2},{1,1}", flags=["MINSIZE=2"]),
    _main(3, "short-only", "{0,1}", sizes="1", flags=["MINSIZE=2"], stores="t s"),
])
prop("C04", [
    _main(4, "repeated", "{0,2},{1,1},{1,1},{1,1}", faults=1),
    _main(4, "alternating", "{0,1},{1,1},{0,1},{1,1}", sizes="1,1"),
    _main(4, "target-first", "{0,2},{1,1},{0,2}", stores="t s http:x", faults=1, flags=["TARGET_FIRST"]),
    _main(4, "target-first-far", "{0,1},{1,1},{2,1},{0,1}", sizes="1,1,1", stores="t s", flags=["TARGET_FIRST"]),
    _main(4, "target-first-device", "{0,1},{1,1},{0,1},{1,1}", sizes="1,1", stores="t s", blk=1, flags=["TARGET_FIRST"]),
    _main(4, "target-between", "{0,2},{1,1},{0,2}", stores="s t http:x"),
])

_HC = {"crypto_wipe": 65, "unp32le_buf": 9, "p32le_buf": 9, "chacha20_rounds": 11, "ref_hchacha20": 11}
_HCREACH = ["encrypted", "encryption failed", "a restart failed", "initialisation failed"]
def _crypt(name, lens, extra=(), fails=0, opt=(), **kw):
    n = lens.count("255")
    return Job(name, "crypt.c", ["encrypt.c", "utils.c"], unwind=10, hints=_HC, optional_reach=list(opt),
        defs=["MODE=1", "LENS=" + lens, "RESTARTS=%d" % n, "FAILS=%d" % fails] + list(extra),
        bounds="operations (255: restart; else: bytes encrypted) %s, <= %d library failures at any point; every byte of input and key stream arbitrary" % (lens, fails), **kw)
prop("C21", [
    Job("subkey", "crypt.c", ["encrypt.c", "utils.c"], defs=["MODE=0", "KEYSYM=32", "IDSYM=16"], unwind=10, hints=_HC, solver=["--cvc5"],
        timeout=400, weight=9, bounds="every key and id (256 + 256 bits symbolic); SMT (cvc5)"),
    Job("subkey-key", "crypt.c", ["encrypt.c", "utils.c"], defs=["MODE=0", "KEYSYM=1", "IDSYM=0"], unwind=10, hints=_HC, solver=["--cvc5"], timeout=300,
        bounds="every value of one key byte and of the nonce, the rest fixed"),
    Job("subkey-fixed", "crypt.c", ["encrypt.c", "utils.c"], defs=["MODE=0", "KEYSYM=0", "IDSYM=0"], unwind=10, hints=_HC,
        bounds="one key, every nonce"),
    _crypt("restart-same", "255,3,2,255,2,0,1", opt=_HCREACH[1:]),
    _crypt("restart-other", "255,3,2,255,2,0,1", ["OTHER_ID"], opt=_HCREACH[1:]),
    _crypt("in-place", "255,1,0,3,255,255,4", ["IN_PLACE"], opt=_HCREACH[1:]),
    _crypt("failures", "255,2,1,255,3,1", fails=1),
    _crypt("failures-2", "255,255,2,1,255,2", ["OTHER_ID", "IN_PLACE"], fails=2),
    Job("large", "crypt.c", ["encrypt.c", "utils.c"], defs=["MODE=2", "MAXLEN=((uint64_t)1<<34)"], unwind=10, hints=_HC,
        bounds="every length up to 2^34"),
])

_KS = {"nibble": 2, "parse_hex": 80, "chomp": 140, "startswith": 10, "crypto_wipe": 140, "strlen": 300, "strncmp": 8, "vf_data_out": 141}
def _key(src, n, eio=0, kind="", **kw):
    return Job("%s-%d%s%s" % (["key", "env", "file", "other"][src], n, "-failing" if eio else "", kind and "-" + kind[3:]), "keyspec.c", ["encrypt.c", "utils.c"],
        defs=["SRC=%d" % src, "LEN=%d" % n, "VF_CONTRACT_IO", "EIO_N=%d" % eio] + (["KIND=" + kind] if kind else []), stubs=BY_CONTRACT + "; chomp by the contract the chomp jobs decide", unwind=70, hints=_KS,
        replace={"utils.c": IO + ["chomp"]},
        optional_reach=["accepted"] if src == 3 or kind or n < 64 or (src < 2 and n != 64) else [],
        bounds="%s, %d arbitrary %s%s" % (["key:", "env:", "file:", "any other specification"][src], n, "bytes" if src == 2 else "characters",
            ", <= %d failing read" % eio if eio else ""), **kw)
prop("C22", [_key(s, n) for s in (0, 1) for n in (0, 1, 63, 64, 65, 66, 128)]
     + [_key(2, n) for n in (0, 1, 63, 64, 65, 66, 70, 129)] + [_key(2, 65, 1)] + [_key(2, 64, kind=k) for k in ("VF_CHR", "VF_ABSENT")]
     + [_key(3, n) for n in (0, 3, 4, 5, 6, 64, 68, 69)]
     + [Job("chomp-%d" % n, "keyspec.c", ["encrypt.c", "utils.c"], defs=["SRC=4", "LEN=%d" % n, "VF_CONTRACT_IO"], srcdefs=CONTRACT_IO, unwind=n + 2,
            optional_reach=["removed"] if n < 2 else [], bounds="every string of at most %d characters" % n) for n in (1, 4, 6)],
     ["the text of a key file ends at its first NUL byte"])

_ID = "00112233445566778899aabbccddeeff00112233445566778899AABBCCDDEEFF"
def _tool(name, args, inp="d/@.cacnk", out="d/@.cacnk.enc", size=3, fail=0, exists=0, missing=0, valid=1, stdout=0, help=0, id=_ID, files=None, list="",
          pathmax=100, reach=("failure", "success"), **kw):
    q = lambda x: '"%s"' % x
    defs = ["VF_CONTRACT_IO", "VF_PATH_MAX=%d" % pathmax, "ARGS=" + ",".join(q(a) for a in args.split()), "IN=" + q(inp), "OUT=" + q(out), "ID=" + q(id), "SIZE=%d" % size,
            "FAIL_AT=%d" % fail, "EXISTS=%d" % exists, "MISSING=%d" % missing, "VALID=%d" % valid, "TO_STDOUT=%d" % stdout, "HELP=%d" % help]
    if list:
        defs.append("LIST=" + q(list))
    if files:
        defs += ["FILES=2", "IN2=" + q(files[0]), "OUT2=" + q(files[1])]
    return Job(name, "tool.c", ["csn-tool.c", "utils.c"], rename_main="csn-tool.c", replace={"utils.c": IO}, unwind=10, optional_reach=reach, defs=defs,
        hints={"harness": 66, "expand": 200, "vf_streq": 200, "chomp": 100, "parse_hex": 66, "encrypt_restart": 33, "encrypt_init": 33, "encrypt_parse_keyspec": 33, "vf_fgets": 200, "vf_data_in": 5, "vf_data_out": 5, "strcpy": 200, "memcpy": 70},
        stubs=BY_CONTRACT + "; encrypt.c by the contracts C21/C22 decide",
        bounds="csn-tool %s; input %s of %d arbitrary bytes%s%s, chunk id %s (?: any character), %s; PATH_MAX taken as %d" % (
            args, inp, size, ", missing" if missing else "", ", output exists" if exists else "", id, "fallible call number %d fails" % fail if fail else "nothing fails", pathmax), **kw)
_QID = "0?112233445566778899aabbccddeeff001122334?5566778899AABBCCDDEEF?"
prop("C23", [
    *[_tool("encrypt%s" % (k and "-fail-%d" % k or ""), "crypt key:x <", fail=k) for k in range(9)],
    *[_tool("decrypt%s" % (k and "-fail-%d" % k or ""), "crypt key:x <", "@.cacnk.enc", "@.cacnk", fail=k) for k in range(9)],
    _tool("digits", "crypt key:x <", id=_QID, size=1),
    *[_tool("explicit%s" % (k and "-fail-%d" % k or ""), "crypt key:x < >", out="o", fail=k) for k in range(9)],
    _tool("explicit-exists", "crypt key:x < >", out="o", exists=1),
    *[_tool("stdout%s" % (k and "-fail-%d" % k or ""), "crypt key:x < -", stdout=1, fail=k) for k in range(8)],
    *[_tool("exists%s" % (k and "-fail-%d" % k or ""), "crypt key:x <", exists=1, fail=k) for k in range(4)],
    _tool("exists-missing", "crypt key:x <", exists=1, missing=1),
    _tool("missing", "crypt key:x <", missing=1),
    *[_tool("empty%s" % (k and "-fail-%d" % k or ""), "crypt key:x <", size=0, fail=k) for k in range(9)],
    *[_tool("list%s" % (k and "-fail-%d" % k or ""), "crypt key:x", list="d/@.cacnk\\n#.cacnk.enc\\n", files=("@.cacnk.enc", "@.cacnk"), size=2, fail=k) for k in range(19)],
    _tool("list-crlf", "crypt key:x", list="d/@.cacnk\\r\\n#.cacnk.enc", files=("@.cacnk.enc", "@.cacnk"), size=1),
    _tool("list-empty-line", "crypt key:x", list="\\nd/@.cacnk\\n", valid=0),
    _tool("list-exists", "crypt key:x", list="d/@.cacnk\\n#.cacnk.enc\\n", files=("@.cacnk.enc", "@.cacnk"), exists=1, size=2),
] + [
    _tool("name-" + n, "crypt key:x <", i, "x", valid=0)
    for n, i in (("short", "d/1.cacnk"), ("69", "d/@cacnk"), ("71", "d/a@.cacnk"), ("73", "@cacnk.enc"), ("75", "a@.cacnk.enc"), ("suffix", "@.cacnx"), ("suffix-enc", "@.cacnk.enx"),
                 ("70-enc", "d/@.xxenc"), ("74-cacnk", "d/aaaa@.cacnk"), ("enc-only", "d/@.enc"), ("empty", "d/"))
] + [
    _tool("usage-%d" % i, a, valid=0)
    for i, a in enumerate(("crypt", "crypt key:x < > more", "crypt -h", "crypt --help", "decrypt key:x <", "crypto", "CRYPT key:x <"))
] + [_tool("help", "-h", help=1), _tool("help-long", "--help", help=1)] + [
    _tool("path-%d" % n, "crypt key:x <", "d" * (n - 71) + "/@.cacnk", "d" * (n - 71) + "/@.cacnk.enc", valid=int(n + 4 < 100)) for n in (95, 96, 97, 99)
] + [_tool("path-enc-%d" % n, "crypt key:x <", "d" * (n - 75) + "/@.cacnk.enc", "d" * (n - 75) + "/@.cacnk") for n in (98, 99)])

_SCALE = [(r"1024\s*\*\s*1024|1048576|1\s*<<\s*20|0x100000\b", "VF_BLOCK")]
def _pdd(name, src, dst, fail=0, skind="VF_REG", dkind="VF_REG", args='"s","d"', ok=1, block=3, tty=0, scale=True, **kw):
    return Job(name, "patchdd.c", ["patchdd.c", "utils.c"], rename_main="patchdd.c", replace={"utils.c": IO}, rewrite={"patchdd.c": _SCALE} if scale else None, unwind=13,
        defs=["VF_CONTRACT_IO", "VF_BLOCK=%d" % block, "BLOCK=%d" % (block if scale else 1048576), "SRC=%d" % src, "DST=%d" % dst, "FAIL_AT=%d" % fail, "SKIND=" + skind, "DKIND=" + dkind, "ARGS=" + args, "ARGS_OK=%d" % ok, "TTY=%d" % tty],
        optional_reach=("success", "failure"), stubs=BY_CONTRACT,
        bounds="source of %d and destination of %d arbitrary bytes (%s, %s), transfer size %s, %s" % (
            src, dst, skind[3:], dkind[3:], "scaled from 1 MiB to %d bytes" % block if scale else "as it is", "fallible call number %d fails" % fail if fail else "nothing fails"), **kw)
prop("C24", [
    *[_pdd("blocks-%d-%d" % (s, d), s, d) for s, d in ((0, 0), (0, 2), (1, 1), (2, 5), (3, 3), (4, 4), (5, 9), (6, 6), (7, 8), (9, 9))],
    *[_pdd("fail-%d" % k, 5, 7, fail=k, tty=k & 1) for k in range(1, 11)],
    *[_pdd("fail-device-%d" % k, 7, 7, fail=k, skind="VF_BLK", dkind="VF_BLK") for k in (3, 5, 7, 8, 11, 12)],
    *[_pdd("smaller-%d-%d" % (s, d), s, d) for s, d in ((1, 0), (4, 3), (7, 6))],
    _pdd("device", 6, 8, dkind="VF_BLK", tty=1), _pdd("device-smaller", 6, 5, dkind="VF_BLK"), _pdd("from-device", 4, 6, skind="VF_BLK"),
    _pdd("no-source", 3, 3, skind="VF_ABSENT"), _pdd("no-destination", 3, 3, dkind="VF_ABSENT"), _pdd("character-device", 3, 3, dkind="VF_CHR"),
    _pdd("block-1", 4, 5, block=1), _pdd("block-2", 5, 5, block=2), _pdd("block-4", 9, 12, block=4),
    _pdd("block-64", 6, 7, block=64),
    _pdd("usage-1", 3, 3, args='"s"', ok=0), _pdd("usage-help", 3, 3, args='"-h","d"', ok=0), _pdd("usage-help-long", 3, 3, args='"--help","s","d"', ok=0),
], ["the transfer size of 1 MiB is scaled down in the encoded copy of patchdd.c, so that more than one block fits the bounds"])

def _cli(name, args, stores="", index=1, target=2, expect="OK", word=0, app=0, env=0, fail=0, **kw):
    """stores: 'arg' or 'arg:offset', space separated"""
    st = "".join("{%s,%s}," % tuple((x + ":0").split(":")[:2]) for x in stores.split())
    av = args.split()
    R = range(len(av))
    return Job(name + ("-fail%d" % fail if fail else ""), "cli.c", ["main.c", "utils.c"], rename_main="main.c", unwind=45, optional_reach=("extracted", "refused"),
        defs=["DECLS=" + "".join('static char a%d[]="%s",o%d[]="%s";' % (i, a, i, a) for i, a in enumerate(av)),
              "ARGS=" + ",".join("a%d" % i for i in R), "ORIGS=" + ",".join("o%d" % i for i in R), "LENS=" + ",".join(str(len(a)) for a in av),
              "DASHED=" + ",".join("1" if a[0] == "-" and len(a) > 1 else "0" for a in av),
              "STORES=" + st, "INDEX=%d" % index, "TARGET=%d" % target, "EXPECT=" + expect, "WORD=%d" % word, "APPLEN=%d" % app, "ENV=%d" % env, "FAIL_AT=%d" % fail],
        stubs="target, stores, store chain, index, hashing and getopt_long by their contracts",
        bounds="command line %s (?: any character)%s, %s" % (args, ", CSN_KCAPI_DRIVER set" if env else "", "call %d fails" % fail if fail else "nothing fails"), **kw)
def _clif(name, args, stores="", extra=0, **kw):
    """the command line without failures, and with every single one"""
    n = 5 + 2 * len(stores.split()) + extra
    return [_cli(name, args, stores, fail=f, **kw) for f in range(n + 1)]
prop("C26", _clif("csn", "/usr/bin/csn i t a b:c http://h/ t", "3 4 5 6") + _clif("csn-kcapi", "csn i t a", "3", env=1, extra=1)
  + _clif("casync", "casync extract --store=http://h/ --seed=a:b --seed-output=x i t", "2:8 3:7", index=5, target=6)
  + _clif("casync-separate", "casync --store http://h/ --seed a --seed t --seed-output x extract i t", "2 4 6", index=10, target=11) + [
    _cli("csn-any-1", "csn i t ? a", "3 4"),
    _cli("csn-any-2", "./csn i tt ?? ?", "3 4"),
    _cli("csn-any-3", "csn i t ???", "3"),
    _cli("csn-any-5", "csn i http? ?????", "3"),
    _cli("csn-any-6", "csn i t ?????? t", "3 4"),
    _cli("csn-any-target", "csn ?? ?? ??", "3"),
    _cli("csn-target", "csn i t t", "3"),
    _cli("csn-target-colon", "csn i t:x t:x t", "3 4"),
    _cli("csn-target-http", "csn i http://t http://t http://", "3 4"),
    _cli("csn-colons", "csn i t a:b:c :d e:", "3 4 5"),
    _cli("csn-few-3", "csn i t", expect="BAD", index=0), _cli("csn-few-2", "csn i", expect="BAD", index=0, target=0), _cli("csn-few-1", "csn", expect="BAD", index=0, target=0),
    _cli("csn-options", "csn i t --store=a -h", "3 4"),
    _cli("app-3", "/???", "", expect="BAD", index=0, target=0),
    _cli("app-csn", "x/??? i t a", "3", app=3),
    _cli("app-casync", "x/?????? extract --store=a i t", "2:8", index=3, target=4, app=6),
    _cli("casync-mixed", "casync --seed a extract --store=b:c --seed-output x i t", "2 4:8", index=7, target=8),
    _cli("casync-any", "casync extract --store=?????? --seed ? i t", "2:8 4", index=5, target=6),
    _cli("casync-any-2", "casync --seed ?? extract --seed=?? i tt", "2 4:7", index=5, target=6),
    _cli("casync-word", "casync --seed=a ??????? i t", "1:7", index=3, target=4, word=2),
    _cli("casync-word-8", "casync ???????? i t", "", index=2, target=3, word=1),
    _cli("casync-word-6", "casync ?????? i t", "", index=2, target=3, word=1),
    _cli("casync-no-store", "casync extract i t", "", index=2, target=3),
    _cli("casync-abbreviated", "casync extract --st=a --seed=b i t", "2:5 3:7", index=4, target=5),
    _cli("casync-many", "casync extract --seed=a --seed=b --seed=c --seed=d --store=http://h i t", "2:7 3:7 4:7 5:7 6:8", index=7, target=8),
    _cli("casync-dashes", "casync --seed a -- extract i t", "2", index=5, target=6),
    _cli("casync-unknown", "casync extract --sparse i t", "", index=3, target=4, expect="BAD"),
    _cli("casync-unknown-late", "casync extract --store=a --with=all i t", "2:8", index=4, target=5, expect="BAD"),
    _cli("casync-unknown-short", "casync -v extract i t", "", index=3, target=4, expect="BAD"),
    _cli("casync-missing-target", "casync --store=a extract i", "1:8", index=2, target=3, expect="BAD"),
    _cli("casync-value-eaten", "casync extract --store i t", "3", index=3, target=4, expect="BAD"),
    _cli("casync-few-2", "casync extract", expect="BAD", index=0, target=0), _cli("casync-few-1", "casync", expect="BAD", index=0, target=0),
    _cli("casync-two", "casync i t", expect="BAD", index=1, target=2),
    _cli("casync-other", "casync make i t", expect="BAD", index=2, target=3),
    _cli("casync-help", "casync --help extract i t", index=3, target=4, expect="HELP"), _cli("casync-help-short", "casync extract -h i t", index=3, target=4, expect="HELP"),
    _cli("casync-help-late", "casync extract --store=a --help i t", "2:8", index=4, target=5, expect="HELP"),
] + [
    _tool("tool-usage-%d" % i, a, valid=0)
    for i, a in enumerate(("crypt", "crypt key:x < > more", "decrypt key:x <", "crypto", "CRYPT key:x <"))
] + [_tool("tool-help", "-h", help=1)])

def _log(name, pad, tty=0, level=0, loglevel=3, path="a/b/file.c", func="some_function", line=123):
    """a message of pad filling characters around its conversions"""
    lv = ("ERR", "WRN", "INF", "DBG")[level]
    fill = ("abcdefghijklmnopqrstuvwxyz" * 20)[:pad]
    fmt = "%c" + fill + " %s %d %c%%%c"
    # \\1 stands for any of the unknown characters
    msg = "\\1\" \"" + fill + " %s% 4711 \\1\" \"%\\1\" \""
    f = path.split("/")[-1]
    if tty:
        want = "\\033[38;5;%dm%s:%s:%d\\t%s\\033[0m\\n" % ((196, 202, 40, 75)[level], f, func, line, msg)
    else:
        want = "%s %s:%s:%d %s\\n" % (lv, f, func, line, msg)
    return Job(name, "log.c", ["log.c"], unwind=400, optional_reach=("silent", "printed"),
        defs=["FMT=\"%s\"" % fmt, "WANT=\"%s\"" % want, "TTY=%d" % tty, "LEVEL=%d" % level, "LOGLEVEL=%d" % loglevel, "PATH=\"%s\"" % path, "FUNC=\"%s\"" % func, "LINE=%d" % line],
        stubs="printf family by its documentation (%s %c %d %u %%)", bounds="format of %d characters, any characters as arguments, %s, level %s with threshold %d" % (len(fmt), "terminal" if tty else "no terminal", lv, loglevel))
prop("C27", [Job("levels", "log.c", ["log.c"], unwind=12, defs=["LEVELS=1", "TTY=0"], stubs="printf family", bounds="LOGLEVEL unset or any string of up to 8 characters, all levels", )]
  + [_log("text-%d-%d%s" % (pad, level, "-tty" if tty else ""), pad, tty, level)
     for tty in (0, 1) for pad, level in ((0, 0), (0, 1), (0, 2), (0, 3), (30, 1), (62, 0), (72, 2), (73, 2), (74, 2), (75, 2), (76, 2), (77, 1), (78, 1), (79, 1), (80, 0), (90, 3), (120, 1), (180, 0), (250, 1))]
  + [_log("threshold-%d-%d" % (l, t), 5, 0, l, t) for l in range(4) for t in range(4)]
  + [_log("path-plain", 3, path="x.c"), _log("path-end", 3, path="/x/y/"), _log("func-long", 40, func="f" * 80)])
