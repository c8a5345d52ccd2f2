"""writes ../properties.jsonl (kept as a script so that the texts are diffable)"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files.split(), mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))

p("C01", "A successful extraction leaves exactly the indexed image on the target",
  "When csn (or casync extract) exits successfully, every range of the target named by the index holds data of the indexed length whose hash is the indexed chunk id. If any chunk cannot be obtained, has the wrong length, or cannot be written, the exit status is a failure.",
  "inputs histories fault_sequences",
  "every valid index (entry offsets, lengths, ids), every prior target content, every behaviour of the stores within their contract (hit, miss, failure, any length), any I/O failure on the target",
  "The end-to-end tests extract two or three fixed images from well-behaved stores; wrong-length answers, failing reads and writes, repeated ids and partially written targets are not combined.",
  "main.c caibx.c target.c store.c", [("per-entry fetch, length comparison and write", "main.c: entry_cb"), ("iteration aborts on a failing entry", "caibx.c: caibx_iterate_entries"), ("exit status", "main.c: main")],
  [("last chunk buffer", "the chunk fetched last, reused for a repeated id", "main.c: entry_cb")], ["target contents after main() returns", "exit status"])
p("C02", "Only the target is written, and only inside the ranges of the index",
  "An extraction writes to the target only, each write lies inside a range of the index and carries that range's data; the index, the seeds and side-loaded indices are opened read-only. The target is opened without creating or truncating it.",
  "inputs histories fault_sequences",
  "every index, target content, store behaviour and failing call",
  "The tests compare the final target of a few runs; a write outside of the ranges, to a seed, or a truncation that is undone later is invisible to them.",
  "main.c target.c store-local.c utils.c", [("target opened O_RDWR", "target.c: target_new"), ("positional writes", "target.c: target_write"), ("seeds opened O_RDONLY", "store-local.c: store_local_new")], (), ["arguments of open/pwrite"])
p("C03", "An interrupted extraction resumes: the intact prefix is not fetched again",
  "Whatever prefix of the target's ranges already holds the right data is recognised by reading it back and is neither fetched nor rewritten; from the first range that does not match onwards everything is fetched. A target left behind by an extraction that was interrupted at any point is completed by running it again.",
  "crash_points histories inputs",
  "every target content, hence every point at which an earlier extraction stopped, including in the middle of a write",
  "One test resumes from one particular truncation point.",
  "main.c target.c", [("resuming flag and read-back check", "main.c: entry_cb, target.c: target_check_chunk")], [("resuming", "still inside the intact prefix", "main.c: entry_cb")], ["requests to the stores", "writes to the target"])
p("C04", "Chunks already obtained are not fetched again",
  "For directly consecutive entries with the same id the stores are asked only once, and the target receives the data in every one of the ranges. If the target is given as a store in front of others, a chunk that has been written to (or found at the beginning of) the target is not requested from the stores behind it.",
  "inputs histories",
  "every pattern of equal and different ids among the entries, every target content",
  "Call counts of stores are not observed by any test.",
  "main.c target.c store.c index.c", [("last id", "main.c: entry_cb"), ("target index", "target.c: target_add_chunk, target_get_chunk")], (), ["requests to the stores"])
p("C05", "An HTTP store never hands out unverified data",
  "A chunk obtained over HTTP is returned only if the request succeeded with status 200 and the hash of the decoded data equals the id that was asked for; in every other case the result is 'not found' or a failure. Nothing is written outside of the output buffer, and the returned length is the number of decoded bytes.",
  "inputs fault_sequences histories",
  "every response body, status, transfer result, decoder behaviour within its contract, segmentation, and any sequence of requests",
  "The tests use a real server with intact chunks and one corrupted one; transfer errors after partial data, decoder errors and oversized frames are not produced.",
  "store-http.c", [("hash comparison", "store-http.c: store_http_get_chunk"), ("status check before decoding", "store-http.c: store_http_data_cb")], (), ["result and buffer of get_chunk"])
p("C06", "HTTP decoding does not depend on how the response is cut into pieces",
  "The bytes handed to the decompressor are the response body (decrypted if the store is encrypted) in order, each exactly once, however the transport cuts the body into pieces and however much of its input the decompressor consumes each time. A body that does not begin with the compression magic is never passed to it.",
  "schedules inputs",
  "every cut of the body into pieces, every consumption pattern of the decompressor, plain and encrypted stores",
  "Segmentation is decided by libcurl and the network; over the loopback the tests see one piece per small chunk.",
  "store-http.c encrypt.c", [("buffering of unconsumed input", "store-http.c: store_http_data_cb, decode_buffer_absorb")], [("decode buffer", "input not consumed yet", "store-http.c")], ["input of ZSTD_decompressStream"])
p("C07", "Failed HTTP connections are retried from a clean state",
  "When connecting fails, resolving the host fails or the transfer times out, the request is repeated, up to ten attempts in total, with a pause that starts at 0.2 s, doubles each time and never exceeds 10 s. Every attempt starts decoding from scratch, so that data delivered by a failed attempt never influences the result; other results end the attempts immediately.",
  "fault_sequences schedules",
  "every sequence of transfer results over the attempts, with any data delivered by attempts that fail later",
  "No test makes an attempt fail after it has delivered data, or counts attempts and pauses.",
  "store-http.c", [("retry loop", "store-http.c: retried_curl_easy_perform")], [("decoder state", "partial output, buffered input, key stream position", "store-http.c")], ["calls of curl_easy_perform and usleep"])
p("C08", "An HTTP store gives up after its error budget, and not before",
  "Server errors and exhausted retries count as failures; the store reports itself as broken with the eleventh failure in a row and answers 'not found' for the ten before. A chunk that was transferred resets the count, while 404 and 410 neither count nor reset.",
  "histories fault_sequences",
  "every sequence of request outcomes",
  "The tests make a server fail a fixed number of times at most.",
  "store-http.c", [("error counter", "store-http.c: increase_error_counter, store_http_get_chunk")], [("error_count", "failures in a row", "store-http.c: struct store_http")], ["result of get_chunk"])
p("C09", "Chunk URLs follow the casync layout and stay within their buffer",
  "Every chunk is requested from <base>/<first four hex digits>/<64 hex digits>.cacnk, with .enc appended for encrypted stores, in lower case, with the parameter part of the store URL and one trailing slash removed from the base. No base URL or sequence of requests makes the name exceed the memory reserved for it.",
  "inputs configurations histories",
  "every base URL (with and without slash, parameters, encryption) up to the bound and every id",
  "A handful of URLs is used by the tests, with a fixed host.",
  "store-http.c chunk.c", [("URL buffer", "store-http.c: set_url, store_http_new")], (), ["CURLOPT_URL"])
p("C10", "A local store returns exactly the data that belongs to an id",
  "Whatever a local store (seed) returns for an id is data of the store file that hashes to this id, with its length, provided the file does not change during the run. If reading the file fails, the result is a failure and not data.",
  "inputs histories fault_sequences",
  "every store content, chunk layout, id and I/O failure, with and without a side-loaded index",
  "Two fixed images are used as seeds.",
  "store-local.c index.c chunker.c", [("scan builds the index", "store-local.c: store_scan"), ("validation on first use", "store-local.c: store_local_get_chunk")], (), ["result and buffer of get_chunk"])
p("C11", "A wrong side-loaded index is as good as none",
  "If a side-loaded index is unreadable, malformed, made with other parameters, or turns out to describe other data than the seed holds, it is discarded and the seed is scanned as if the index had not been specified. Every chunk that a store without side-loaded index would return is then still found.",
  "inputs histories fault_sequences",
  "every side-loaded index (any bytes), every seed content, every sequence of requests",
  "The tests use one intact index, one with other parameters and one with wrong entries.",
  "store-local.c", [("rescan on validation failure", "store-local.c: store_local_get_chunk"), ("fall back to scanning", "store-local.c: store_local_new")], [("validated flag", "entry has been compared with the data", "store-local.c")], ["result of get_chunk"])
p("C12", "Index headers are accepted exactly if they are well-formed",
  "A blob index is accepted if and only if its size, format magics, feature flags, record sizes, table length, and footer are consistent and the chunk size parameters are in the supported range; then the number of entries and the chunk sizes are the ones it states. Anything else, including truncated input and I/O errors, is refused without reading out of bounds.",
  "inputs fault_sequences",
  "every byte string as index up to the stated sizes, any failing call",
  "Two intact files and a few corrupted ones are parsed by the tests.",
  "caibx.c", [("header checks", "caibx.c: caibx_load_header")], (), ["result and outputs of caibx_load_header"])
p("C13", "Every index entry is delivered exactly once, in order, unaltered",
  "Iterating over an index reports for each entry its start offset, the exact length (difference to the next end offset) and id, in file order, and stops with an error on the first entry that is not representable, on read errors and when the consumer refuses an entry. Entries that do not advance or that exceed the permitted length are refused.",
  "inputs fault_sequences",
  "every content of the entry table and every consumer result",
  "Only well-formed tables are iterated by the tests.",
  "caibx.c", [("entry loop", "caibx.c: caibx_iterate_entries")], (), ["callback arguments"])
p("C14", "Chunk boundaries are those of casync, however the data arrives",
  "The chunker places a boundary where the reference rolling hash (window of 48 bytes, casync's table, discriminator and minimum/maximum sizes) places it, so that chunks of independently chunked data can be found again. The result does not depend on how the data is cut into pieces.",
  "inputs schedules",
  "data bytes, piece boundaries and size parameters",
  "One image is chunked and compared with one index.",
  "chunker.c", [("rolling hash", "chunker.c: chunker_scan, hash_update")], [("rolling hash window", "last 48 bytes", "chunker.c: struct chunker")], ["result of chunker_scan"])
p("C15", "Scanning a file covers it completely with correctly identified chunks",
  "Scanning a file reports consecutive chunks that start at offset 0, have no gaps or overlaps, end at the end of the file, and carry the hash of exactly their bytes, for any way in which reads are shortened or interrupted. Failing reads or seeks and a refusing consumer make the scan fail.",
  "inputs schedules fault_sequences",
  "file contents, read sizes, interruptions and failures",
  "Reads from regular files are never short or interrupted in the tests.",
  "chunker.c", [("scan loop", "chunker.c: chunker_scan_fd")], (), ["callback arguments", "result of chunker_scan_fd"])
p("C16", "Chunker parameters are accepted exactly if they are usable",
  "Chunk size parameters are accepted only if minimum, average and maximum ascend and fit the implementation, and a chunker is set up only for average sizes for which casync's discriminator formula gives a positive value, with exactly that value. No size leads to a division by zero, overflow or an endless scan.",
  "inputs configurations",
  "every triple of sizes",
  "The tests use the default sizes and a few others.",
  "chunker.c", [("parameter checks", "chunker.c: chunker_params_set, chunker_init")], (), ["results"])
p("C17", "The chunk map finds exactly what has been inserted",
  "A lookup returns an entry with the requested id and exactly the values it was inserted with if and only if such an entry has been inserted, for any interleaving of insertions and lookups and any expected size, zero included. Marking an entry sticks, and a map that was cleaned up is empty and can be set up again.",
  "histories inputs",
  "every sequence of operations up to the bound, every id and range, any expected size",
  "The tests insert a few entries before looking up.",
  "index.c", [("sort on demand and binary search", "index.c: index_query"), ("growth", "index.c: index_insert")], [("sorted flag", "", "index.c: struct index")], ["results of index_query"])
p("C18", "A store chain asks its stores in order and drops those that fail",
  "A request to a chain is passed to its stores in the order in which they were added, unaltered, until one answers; the answer is passed on, and 'not found' is the answer if none has one. A store that reported a failure is never asked again while the others still are, and freeing the chain frees every store once after reporting how many requests each has answered.",
  "histories fault_sequences configurations",
  "every number of stores and size hint, every sequence of answers",
  "The tests chain two stores and never make one fail.",
  "store.c", [("chain loop", "store.c: store_chain_get_chunk")], [("active flag", "store has not failed yet", "store.c: struct substore")], ["requests reaching the stores"])
p("C19", "The target as a store returns only what it holds",
  "Asked for an id, the target returns the data (and length) of a range that was written or verified under this id during this run, and 'not found' for every other id; the answer is a failure if the range cannot be read or does not fit. As long as nobody asked for the target as a store it answers 'not found'.",
  "histories inputs fault_sequences",
  "every sequence of writes, checks and requests, every content",
  "The tests use the target as a store in one scenario.",
  "target.c index.c", [("target index", "target.c: target_add_chunk, target_get_chunk")], [("queryable", "", "target.h")], ["results"])
p("C20", "Positional and sequential I/O helpers transfer everything or fail",
  "The read and write helpers report success only if all requested bytes were transferred at the requested position, in order, across short transfers and interruptions. They fail on errors and on premature end of file, and never touch bytes outside of the request.",
  "schedules fault_sequences inputs",
  "lengths, offsets, and every sequence of short transfers, interruptions and errors",
  "Short transfers and EINTR do not occur on local files in the tests.",
  "utils.c", [("transfer loops", "utils.c: readall, preadall, writeall, pwriteall")], (), ["system calls and results"])
p("C21", "Chunk encryption is XChaCha20 keyed by the chunk id",
  "Encrypting or decrypting a chunk applies the ChaCha20 key stream for the sub-key that HChaCha20 derives from the key and the first 16 bytes of the chunk id, with the next 8 bytes as nonce and a block counter starting at 0. Restarting for another (or the same) id is independent of what was processed before, and a failing cipher never counts as success. Closing the context wipes the key.",
  "inputs histories fault_sequences",
  "every key, id, data and sequence of calls",
  "Fixed test vectors; no failing cipher backend.",
  "encrypt.c", [("sub-key derivation", "encrypt.c: hchacha20, encrypt_restart")], (), ["calls of the cipher"])
p("C22", "Key specifications are decoded exactly or refused",
  "A key is accepted if and only if the specification names a supported source (key:, env:, file:) that yields exactly 64 hexadecimal digits (upper or lower case; line endings at the end of a key file are ignored), and the key is then their value. Anything else is refused without reading or writing out of bounds.",
  "inputs configurations",
  "every specification string, environment value and file content up to the bound",
  "The tests decode a few strings.",
  "encrypt.c utils.c", [("parsing", "encrypt.c: encrypt_parse_keyspec, utils.c: parse_hex, chomp, slurp_file")], (), ["result and key"])
p("C23", "csn-tool crypt produces complete output or none",
  "csn-tool crypt writes the input transformed under the given key and the id in the input's name to the derived (or given) output name, or to standard output for '-'; an output file that exists already counts as finished and is left alone. It reports failure if the name, input or key is unusable or anything fails, and a failure leaves no partial output file that a later run would mistake for a finished one.",
  "inputs fault_sequences histories",
  "every input name and content up to the bound, every failing call",
  "csn-tool has no tests.",
  "csn-tool.c encrypt.c utils.c", [("output handling", "csn-tool.c: encrypt_one")], (), ["system calls and exit status"])
p("C24", "patchdd makes the destination start with the source, writing only differences",
  "When patchdd succeeds, the beginning of the destination equals the source and bytes beyond the source's size are unchanged; it has been flushed to disk. It writes nothing before the first differing byte of each block, refuses destinations smaller than the source, and fails if any read, write or flush fails.",
  "inputs fault_sequences crash_points",
  "every pair of contents, every failing call; hence every crash point",
  "patchdd has no tests.",
  "patchdd.c utils.c", [("compare and write loop", "patchdd.c: main")], (), ["system calls and exit status"])
p("C25", "Hashing gives the SHA-256 of the whole input whatever backend is used",
  "The hash of a buffer is the SHA-256 of all its bytes, computed by the kernel or by the library; short sends, interruptions and failures of the kernel backend at any point fall back to the library and still give the same result. A result of the wrong size is never accepted.",
  "fault_sequences schedules inputs",
  "every sequence of results of the kernel calls, every length",
  "The kernel backend is not exercised by the tests.",
  "sha.c", [("fall back", "sha.c: sha_once")], [("kcapi socket", "", "sha.c")], ["digest"])
p("C26", "Command lines are interpreted as documented, and misuse fails",
  "csn takes index, target and stores in order; casync extract takes stores and seeds from its options, ignores --seed-output and uses the last two arguments as index and target; stores beginning with http are remote, the target's own path is the target store, and 'path:index' is a seed with a side-loaded index. Anything unusable (missing arguments, unknown options or commands, a store that cannot be set up, unreadable index or target) gives a failure before the target is modified.",
  "configurations inputs fault_sequences",
  "every combination of the argument kinds up to the bound, every failing set-up step",
  "The tests call csn with a few argument lists; of casync's options one combination.",
  "main.c", [("argument handling", "main.c: csn, casync, append_store_from_arg")], (), ["stores created, in order", "exit status"])
p("C27", "Log messages of the selected levels are printed completely, others not at all",
  "LOGLEVEL selects the threshold (debug, info, warn/warning, err/error; info if unset, and with a warning if unknown). A message is printed if and only if its level is within the threshold; it then appears on standard error as one complete line with its level, file, function and line, however long it is, and its arguments are only interpreted according to its own format.",
  "inputs configurations",
  "every value of LOGLEVEL, every level, messages of any length up to the bound, every content of the arguments",
  "No test looks at the log; what is lost when a message exceeds the internal buffer depends on the lengths of format, file and function name.",
  "log.c", [("threshold", "log.c: u_log_init, check_loglevel"), ("assembly of the line", "log.c: _u_log")], [("loglevel", "threshold", "log.c"), ("is_tty", "whether colours are used", "log.c")], ["bytes written to standard error"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
