"""Texts of the properties; `python3 meta.py` rewrites properties.jsonl and MANIFEST.json."""
import json
META = {}
def m(id, title, statement, over, qtext, why, files, mech, observe=()):
    META[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                    anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe)))
C = 'fstrm/control.c'
m('P01', 'Control frame decoding accepts exactly the specified grammar',
  'For every byte string given as a control frame (with or without the escape/length header), decoding succeeds if and only if the bytes are a well-formed frame: exact header, length at most 512, a known type, only content-type fields that lie inside the frame and are at most 256 bytes each, at most one of them in START and none in STOP or FINISH. On success the decoded type and every content type, in order, are exactly those in the bytes; decoding never reads outside the given bytes, never changes them, and leaks nothing.',
  ['inputs'], 'all byte strings (lengths 0 to 540, all that can be accepted and some more) and all flag words', 'The tests decode a few dozen hand-written frames; the grammar has to hold for every byte string, including every truncation and every length word.',
  [C], [('bounds-checked readers and the field loop', 'fstrm_control_decode, fs_load_be32, fs_load_bytes')], ['fstrm_control_decode'])
m('P02', 'Control frame encoding is exact and in bounds',
  'For every control frame object, the announced encoded size is exact, and it is refused when a content type exceeds 256 bytes or the frame exceeds the maximum length. Encoding writes exactly that many bytes, never one outside the buffer it was given (a too-small buffer is refused), and the bytes are the canonical layout: optional escape and length header, big-endian type, then each content-type field in order, at most the first one for START and none for STOP and FINISH.',
  ['inputs'], 'all frame types, any number and lengths of content types, all buffer sizes', 'The tests encode a handful of frames into ample buffers; sizes, limits and buffer bounds must agree for every combination.',
  [C], [('size computation and bounds-checked writers', 'fstrm_control_encoded_size, fstrm_control_encode, fs_store_be32, fs_store_bytes')], ['fstrm_control_encoded_size', 'fstrm_control_encode'])
m('P03', 'Encoded control frames decode to what was encoded',
  'Every control frame that can be encoded is accepted by decoding with the same flags, and decodes to the same type and the same content types (as many as the type may carry), byte for byte and in order.',
  ['inputs'], 'all frame types and content type lists that fit a frame, with and without header', 'Round trips are tested on fixed samples only; both directions must agree on every frame or peers stop interoperating.',
  [C], [('shared layout of encoder and decoder', 'fstrm_control_encode, fstrm_control_decode')], ['fstrm_control_encode', 'fstrm_control_decode'])
m('P04', 'Content type matching and control frame accessors are exact',
  'A content type matches a control frame if and only if the frame carries no usable content type or carries one that is byte-for-byte and length equal (only the first counts for START, none for STOP and FINISH). Adding a content type stores a private copy at the end, or refuses one longer than 256 bytes and changes nothing; type and content types are read back exactly, out-of-range requests are refused, and reset or destroy returns the frame to empty and frees everything once.',
  ['inputs', 'histories'], 'any number and content of types (including empty, prefixes of each other, embedded zero bytes), any index', 'The tests match a few short strings; equality must be decided on length and content for every pair.',
  [C], [('length-and-bytes comparison over the stored set', 'fstrm_control_match_field_content_type'), ('owned copies', 'fstrm_control_add_field_content_type, fstrm_control_reset')], ['fstrm_control_match_field_content_type'])
R = 'fstrm/reader.c'
m('P05', 'The reader delivers exactly the data frames that were sent',
  'On every input stream, successive reads deliver exactly the data frames of the stream, in order, each with its exact length and bytes; well-formed control frames in between are skipped, and the STOP frame ends the data. A frame longer than the configured maximum, a malformed control frame, a truncated frame or a transport error never yields data: the read fails (or signals the end of input), and nothing is delivered afterwards.',
  ['inputs', 'fault_sequences', 'histories'], 'all byte streams, all maximum frame sizes, transport failure at any read', 'Tests read well-formed streams of a few shapes; framing must hold for every stream and every failure point.',
  [R], [('length-prefixed frame loop', 'fstrm__reader_next_data'), ('state machine', 'fstrm_reader_read')], ['fstrm_reader_read'])
m('P06', 'The reader follows the opening and closing handshake',
  'A reader becomes open only after a START frame whose content type it wants (or any, if it wants none in particular); on a two-way transport it first reads READY and answers one ACCEPT listing exactly those of its own types that READY offers, in its own order. A failed opening closes the transport; closing an open two-way reader writes exactly one FINISH, closes the transport once, and a closed reader delivers no more data.',
  ['inputs', 'configurations', 'fault_sequences'], 'any peer bytes, any content type lists, one-way and two-way transports, failure at any transport operation', 'The tests run handshakes between matching peers; wrong, hostile or failing peers and longer type lists are not sampled.',
  [R, 'fstrm/rdwr.c'], [('opening', 'fstrm_reader_open and helpers'), ('closing', 'fstrm_reader_close')], ['fstrm_reader_open', 'fstrm_reader_close'])
W = 'fstrm/writer.c'
m('P07', 'The writer emits every frame once, length-prefixed and in order',
  'For every list of frames handed to the writer (any count, any sizes), the transport receives exactly, for each frame in order, its 32-bit big-endian length followed by its bytes, with nothing lost, repeated, reordered or interleaved. A list containing a frame that is empty or too long for 32 bits is refused before anything is written, and after a failed transport write nothing further is written.',
  ['inputs', 'fault_sequences', 'histories'], 'any number of frames including more than one internal batch, any lengths, failure at any write', 'Tests write a few small frames; batching boundaries and failures need every count and every failure point.',
  [W], [('gathering into batches', 'fstrm__writer_write_iov, fstrm__writer_write_iov_stupid'), ('validation', 'fstrm_writer_writev')], ['fstrm_writer_write', 'fstrm_writer_writev'])
m('P08', 'The writer follows the opening handshake',
  'No data frame is written before START. On a one-way transport START carries the first configured content type, if any; on a two-way transport the writer writes READY with all its types in order, requires an ACCEPT, and writes START with the first of its own types that ACCEPT admits, and fails if it has types and none is admitted. A failed opening leaves the writer unopened and the transport closed.',
  ['inputs', 'configurations', 'fault_sequences'], 'any peer bytes, any content type lists, one-way and two-way transports, failure at any transport operation', 'Tests negotiate with a matching peer and at most a couple of types.',
  [W, 'fstrm/rdwr.c'], [('opening', 'fstrm_writer_open and helpers')], ['fstrm_writer_open'])
m('P09', 'A writer ends its stream with exactly one STOP and waits for FINISH',
  'Closing an open writer writes exactly one STOP frame after all data, on a two-way transport then requires FINISH from the peer (anything else is reported as failure), and closes the transport exactly once on every path. A writer that is not open cannot be closed, nothing is written after closing, and destroying an open writer closes it the same way.',
  ['histories', 'fault_sequences', 'inputs'], 'any history of writes, any peer answer, failure at any transport operation', 'Tests close healthy streams only.',
  [W, 'fstrm/rdwr.c'], [('closing', 'fstrm_writer_close, fstrm_writer_destroy')], ['fstrm_writer_close', 'fstrm_writer_destroy'])
m('P10', 'A transport is used only while open and is closed exactly once',
  'Through the transport object, read and write reach the transport only between a successful open and the following close, unchanged and exactly once each; a failed read or write closes the transport immediately, and close reaches it exactly once per successful open, at the latest when the object is destroyed. Reading a control frame consumes exactly that frame and refuses a missing escape or an over-long length without reading further; writing one passes on exactly its encoding in one write.',
  ['histories', 'fault_sequences'], 'every sequence of operations, every result of every operation, every subset of methods provided', 'Tests use transports whose operations succeed.',
  ['fstrm/rdwr.c'], [('opened flag', 'struct fstrm_rdwr'), ('control frame I/O', 'fstrm__rdwr_read_control_frame, fstrm__rdwr_write_control_frame')], ['fstrm_rdwr_*'])
m('P11', 'Socket transports move every byte through any partial transfer',
  'For every list of buffers and every pattern of partial transfers and interrupted system calls, a socket write either sends every byte exactly once and in order, or reports failure after the first real error and sends nothing more; a socket read returns exactly the requested bytes or reports failure. Opening connects one new stream socket to exactly the configured address or leaves no descriptor behind, closing closes it exactly once, and no write raises SIGPIPE.',
  ['inputs', 'fault_sequences', 'schedules'], 'all buffer lists the writer can pass (up to 256 elements), all sequences of short counts, EINTR and errors', 'A local socket takes small writes whole, so tests never see a partial transfer that ends inside or at the edge of a buffer.',
  ['fstrm/unix_writer.c', 'fstrm/tcp_writer.c', 'libmy/read_bytes.h'], [('resuming after partial transfers', 'fstrm__unix_writer_op_write, fstrm__tcp_writer_op_write, read_bytes'), ('descriptor life cycle', 'op_open, op_close')], ['fstrm_unix_writer_init', 'fstrm_tcp_writer_init'])
m('P12', 'The file transport loses, adds and changes no byte',
  'Writing frames to a file and closing it successfully leaves exactly the encoded stream in the file, and a full disk or I/O error at any point is reported by a write or the close; reading delivers exactly the frames that are completely in the file, in order, whatever the read sizes. A truncated file never yields a partial frame, a read error is a failure, the path is a private copy and the file is opened once per open and closed exactly once on every path.',
  ['inputs', 'fault_sequences'], 'all frame lists, all truncation points, failure at any read, write, open or close, any chunking by stdio', 'Tests write and read small healthy files on a disk with space.',
  ['fstrm/file.c'], [('stdio adapter', 'fstrm__file_op_open/close/read/write/destroy')], ['fstrm_file_reader_init', 'fstrm_file_writer_init'])
m('P13', 'The lock-free queue passes every item once, whole and in order',
  'With one producer and one consumer running at the same time, every inserted item is removed exactly once, in order and unchanged, under every interleaving; an insert is refused only if the queue was full at some moment of the call, a removal only if it was empty. No slot is overwritten while an item in it is not yet taken, none is read before its item is complete, and the reported space and count were true at some moment of the call.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of producer and consumer steps, all capacities (powers of two), any fill level, index wrap-around', 'A stress test sees the interleavings the scheduler happens to produce on one machine.',
  ['libmy/my_queue_mb.c', 'libmy/my_memory_barrier.h'], [('ring indices and publication order', 'my_queue_mb_insert, my_queue_mb_remove')], ['my_queue_mb_ops'])
m('P14', 'The locked queue passes every item once, whole and in order',
  'With any number of producers and consumers, every inserted item is removed exactly once, in insertion order and unchanged; an insert is refused exactly if the queue is full and a removal exactly if it is empty, and the reported space and count are exact. Every operation takes the lock once, gives it back on every path and touches the queue only while holding it.',
  ['schedules', 'inputs', 'histories'], 'every interleaving of any number of threads, all capacities, any fill level, index wrap-around', 'A stress test sees the interleavings the scheduler happens to produce.',
  ['libmy/my_queue_mutex.c'], [('ring under a mutex', 'my_queue_mutex_insert, my_queue_mutex_remove')], ['my_queue_mutex_ops'])
I = 'fstrm/iothr.c'
m('P15', 'Submit accepts a payload whole or refuses it and leaves it alone',
  'A submitted payload of 1 to 2^32-2 bytes is either queued exactly as given, with its own callback and argument, or refused because its queue is full or the object is shutting down; anything else is refused as invalid. A refused payload is never freed or kept, and submit itself never calls a callback.',
  ['inputs', 'schedules', 'histories'], 'all pointers, lengths (including beyond 32 bits), callbacks, fill levels', 'Tests submit small payloads and retry until accepted.',
  [I], [('entry construction and result codes', 'fstrm_iothr_submit')], ['fstrm_iothr_submit'])
m('P16', 'Every accepted payload is freed exactly once, after it was written',
  'Every accepted payload is handed to its own callback exactly once, by the end of destroy at the latest, whether it is written, discarded because the writer is closed, or caught by a write failure or shutdown, and never before its write is done. Payloads of one input queue are written in submission order, each at most once, and if nothing fails each exactly once; what waits is written when the output queue is full, the buffer hint is reached or the flush timeout expires.',
  ['schedules', 'fault_sequences', 'histories'], 'any number of producers and queues, any payload sizes, failure of any transport operation, any shutdown point', 'Losing or double freeing a payload needs a failure or shutdown at the right moment; tests run healthy streams.',
  [I], [('output queue and deferred frees', 'fstrm__iothr_process_queue_entry, fstrm__iothr_flush_output, fstrm__iothr_free_queues')], ['fstrm_iothr_submit', 'fstrm_iothr_destroy'])
m('P17', 'The I/O thread opens, reopens, drains and closes as documented',
  'The I/O thread tries to open its writer at once and, whenever it is closed, again as soon as the reopen interval has passed since the last attempt, never earlier; a failed write closes the writer once. It never sleeps past the flush timeout, and destroy stops it only after everything queued was taken, written if the writer is open, and the writer closed, then releases every resource once; a failed initialisation leaves the writer with the caller and leaves nothing behind.',
  ['schedules', 'fault_sequences', 'histories', 'configurations'], 'any sequence of open and write failures, any clock values, any moment of shutdown', 'Reopening and shutdown under failure are not tested; the clock cannot be controlled by the tests.',
  [I], [('thread loop', 'fstrm__iothr_thr, fstrm__iothr_maybe_open'), ('life cycle', 'fstrm_iothr_init, fstrm_iothr_destroy')], ['fstrm_iothr_init', 'fstrm_iothr_destroy'])
m('P18', 'I/O thread options are accepted exactly in their documented ranges',
  'Every option setter accepts exactly the documented range (the input queue size only powers of two), sets only its own option, and changes nothing when it refuses; a fresh options object holds the documented defaults. An I/O thread runs with exactly the options it was given, or the defaults if it was given none.',
  ['inputs', 'configurations'], 'all 32-bit values of every option', 'Tests use a handful of valid values.',
  [I], [('setters', 'fstrm_iothr_options_set_*')], ['fstrm_iothr_options_*'])
m('P19', 'Every input queue is handed out exactly once',
  'With any number of threads asking at the same time, each of the configured input queues is returned exactly once, after that nothing is; asking by index returns that queue, and nothing for an index out of range.',
  ['schedules', 'inputs'], 'any number of threads and calls, all indices', 'Tests ask once per thread in order.',
  [I], [('counter under a lock', 'fstrm_iothr_get_input_queue, fstrm_iothr_get_input_queue_idx')], ['fstrm_iothr_get_input_queue'])
C = 'src/fstrm_capture.c'
m('P20', 'The capture program records every data frame exactly once, byte for byte',
  'Every complete data frame a client sends inside a negotiated stream is written to the output once, unchanged with its length, in the order received, however the bytes are split on arrival and however many clients send at once; a frame that cannot fit in the read buffer is skipped whole and nothing else. If writing fails the program stops with an error instead of carrying on.',
  ['inputs', 'schedules', 'fault_sequences'], 'all byte streams, splits into arbitrary reads and memory chunks, buffer sizes, frame lengths up to 2^32-1, number of clients', 'The tests of the programs run dump and replay only; splits, oversized frames and several clients are never exercised.',
  [C], [('framing', 'can_read_full_frame, cb_read'), ('copying', 'process_data_frame')], ['fstrm_capture'])
m('P21', 'The capture program admits only negotiated streams, within its limit',
  'A connection must send READY with the configured content type, then START, then data, then STOP; it gets exactly one ACCEPT and one FINISH in return, is closed after the FINISH, and anything out of order, malformed or of another type closes it at once without data being recorded. At most the configured number of connections is open at any time, and each ended connection frees its place and memory.',
  ['inputs', 'schedules', 'histories'], 'all sequences of frames, connections, disconnections and failures', 'No test opens a connection to the capture program.',
  [C], [('state machine', 'process_control_frame'), ('connection limit', 'cb_accept_conn, cb_close_conn')], ['fstrm_capture'])
m('P22', 'Every capture output file is one complete stream, or the failure is reported',
  'Each output file starts with one START carrying the content type and, when it is rotated or the program ends, is completed with one STOP and closed; any failure to open, write or close it ends the program with a non-zero status. Rotation happens exactly when the interval has passed or on SIGUSR1, between frames, into a file named for that moment; SIGHUP makes what was recorded readable, and SIGTERM and SIGINT end the program in order.',
  ['histories', 'fault_sequences', 'configurations'], 'all clock values, signals between any two frames, failure of any file operation, all option combinations', 'Needs a controlled clock, signals and failing file operations; untested.',
  [C], [('bracketing', 'open_write_file, close_write_file'), ('rotation', 'maybe_rotate_output, rotate_output'), ('life cycle', 'main')], ['fstrm_capture'])
m('P23', 'The dump program prints and copies every frame, or says that it failed',
  'Every data frame of the input is printed once, in order, on a line of its own as a quoted string in which exactly the printable bytes stand for themselves, and with an output file the same frames form one complete stream of the same content type. The exit status is zero exactly if the whole stream up to its STOP was read and everything was printed and written.',
  ['inputs', 'fault_sequences'], 'all files: complete, truncated anywhere, damaged; any frame bytes and lengths; failure of any output operation', 'The test compares one text for a handful of files; truncated input, full disks and binary frames are not tried.',
  ['src/fstrm_dump.c', 'libmy/print_string.h'], [('loop over frames', 'main'), ('quoting', 'print_string')], ['fstrm_dump'])
m('P24', 'The replay program sends every matching frame in order, or says it failed',
  'The frames of all readable files whose content type is the requested one are sent once, file after file and in order, as one stream of that content type to the destination given; files that cannot be read or have another type are skipped. The exit status is zero only if the peer accepted the content type, every frame was written and the peer confirmed the end of the stream; options that make no sense together are refused before anything is sent.',
  ['inputs', 'fault_sequences', 'configurations'], 'all sequences of files, content types, peers that refuse or disappear at any byte, option combinations', 'The test replays good files to a good peer.',
  ['src/fstrm_replay.c'], [('loop over frames', 'process_file'), ('life cycle', 'main, init_writer'), ('options', 'parse_args')], ['fstrm_replay'])
m('P25', 'Library objects own copies of their inputs and free everything once',
  'Readers, writers, I/O threads, transports and option objects keep private copies of the names and content types they are given, so callers may reuse or free theirs at once, and take over a passed transport or writer only if creation succeeds. Destroying any of them, in any state and after any failure, releases every resource exactly once, clears the caller\'s pointer, and does nothing for an object already destroyed.',
  ['histories', 'inputs', 'fault_sequences'], 'all option combinations, any number of content types, every state an object can be destroyed in, every failing creation', 'Leaks, double frees and kept caller pointers do not change the output the tests compare.',
  ['fstrm/reader.c', 'fstrm/writer.c', 'fstrm/iothr.c', 'fstrm/rdwr.c', 'fstrm/file.c', 'fstrm/unix_writer.c', 'fstrm/tcp_writer.c'], [('creation and destruction', 'fstrm_*_init, fstrm_*_destroy, fstrm_*_options_*')], ['fstrm_*_init', 'fstrm_*_destroy'])
m('P26', 'Growable arrays keep every element and never write past their room',
  'The growable arrays that hold content types and frame buffers keep every element, in order and unchanged, through every sequence of additions, reservations, shortenings and growth, and never read or write outside their storage. After a reservation there is room for what was asked at the place reported, memory stays within twice what is needed, and storage is released exactly once.',
  ['histories', 'inputs'], 'every sequence of operations, all sizes and initial sizes up to 2^33 elements', 'Tests never grow them past a few elements, and an overrun by one element stays unnoticed.',
  ['libmy/vector.h', 'libmy/ubuf.h', 'libmy/my_alloc.h'], [('size, capacity and end pointer', 'VECTOR_GENERATE')], ['fstrm_control_add_field_content_type', 'fstrm_reader_read'])
m('P27', 'Command lines take effect as documented, or are refused',
  'Every command line of the programs, however its options are written (short, clustered, long or unambiguously abbreviated, with the value in the next argument or after an equals sign, in an argument file or in the environment), either is accepted, with every option that was given holding exactly the value (or, for lists, all values in order) given for it and every other one its default, or is refused. It is refused when an option is unknown or ambiguous, a value or a mandatory option is missing, options that exclude each other are combined, none of a required group is given, or an argument is left over. No command line makes the parser touch memory outside its tables, strings and variables, and everything the options own is released exactly once.',
  ['inputs'], 'all option tables of up to 12 entries, all command lines, argument files and environment settings', 'The tests of the programs use a handful of well-formed command lines; what the parser does with clusters, repeated, missing, conflicting or file-supplied options is not tested.',
  ['libmy/argv.c', 'libmy/argv.h'], [('queue of options that wait for a value', 'do_arg, enqueue, do_list'), ('conversion of values', 'string_to_value'), ('checks at the end', 'check_mand, check_opt, check_xor, check_or'), ('the tables of the programs', 'src/fstrm_capture.c, src/fstrm_replay.c: g_args')], ['argv_process', 'argv_cleanup'])
NA = []
TECH = {'proof': 'code contracts on the real functions, discharged by CBMC (goto-instrument --dfcc, function by function, loop invariants); failing inputs searched with the real code'}
NOTE = {'P27': 'mixed: discharged without bound for tables of up to 12 entries: enqueue, check_or, check_mand, check_opt, preprocess_array, string_to_value, do_arg, argv_process; bounded (stated text or table sizes, not counted as proved): check_xor, do_list, vectorize, file_args, is_number, radix and unit conversion, string_copy, argv_process_no_env, argv_cleanup; process_env is only searched'}
def main():
    from props import PROPS
    ids = sorted(META)
    with open('properties.jsonl', 'w') as f:
        for i in ids: f.write(json.dumps(META[i]) + '\n')
    checks = []
    for i in ids:
        if i not in PROPS: continue
        p = PROPS[i]
        assert p['title'] == META[i]['title'], i
        n = NOTE.get(i, 'every obligation of the listed units discharged for all inputs; allocation assumed to succeed; transports and libc by contract')
        checks.append(dict(property=i, quick_cmd='python3 run.py %s --tier quick' % i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                           technique=TECH['proof'], level=p['level'], level_note=n))
    na = [dict(property=i, reason=r) for i, r in NA] + [dict(property=i, reason='no check built') for i in ids if i not in PROPS and i not in dict(NA)]
    json.dump(dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na), open('MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
