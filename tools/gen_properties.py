#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
            mechanism=[dict(name=a, where=b) for a,b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "I/O thread output: no frame invented, altered, duplicated or reordered",
  "Whatever the interleaving of producer threads with the I/O thread and whatever the transport does (short writes, errors, resets, reconnects), every complete data frame found in anything the I/O thread wrote is byte-for-byte a frame whose submit call reported success. Each accepted frame appears at most once over all connections together. Frames that one producer submitted to one queue appear in the order in which it submitted them.",
  ["schedules","fault_sequences","histories","configurations"],
  "All interleavings of 1..6 producers with the I/O thread (preemption at every shared memory access), both queue models, all queue/buffer sizes, all sequences of transport faults and reconnects.",
  "t/ submits from real threads on whatever schedule the OS gives, with a healthy transport; no test injects a failed or partial write, and lost/duplicated frames in rare interleavings are invisible to it.",
  ["fstrm/iothr.c","libmy/my_queue_mb.c","libmy/my_queue_mutex.c","fstrm/writer.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
  [("single consumer drains queues into output arrays","fstrm/iothr.c:fstrm__iothr_process_queues"),("publication order in the lock-free queue","libmy/my_queue_mb.c:my_queue_mb_insert"),("output queue reset after flush","fstrm/iothr.c:fstrm__iothr_flush_output")],
  [("outq_idx/outq_iov/outq_entries","frames taken from the queues but not yet written","fstrm/iothr.c:struct fstrm_iothr"),("head/tail","ring indices","libmy/my_queue_mb.c")],
  ["bytes accepted by the simulated kernel on every connection and file","return values of fstrm_iothr_submit"])

p("C02", "I/O thread delivers every accepted frame over a healthy transport",
  "If the transport opens and never fails, then by the time fstrm_iothr_destroy returns every frame whose submit reported success before destroy was called has been written, and the complete output is one well-formed stream: a START frame, exactly those data frames, a STOP frame. Partial writes, interrupted system calls and slow peers are not failures.",
  ["schedules","configurations","histories"],
  "All interleavings of submits, signals, time-outs and shutdown; all queue counts/sizes, thresholds, buffer hints; all patterns of short writes and EINTR.",
  "Tests use one or two fixed configurations and never race submission against shutdown, spurious wake-ups or short writes.",
  ["fstrm/iothr.c","fstrm/writer.c","fstrm/unix_writer.c","fstrm/tcp_writer.c","fstrm/file.c"],
  [("drain loop at shutdown","fstrm/iothr.c:fstrm__iothr_thr"),("flush then close","fstrm/iothr.c:fstrm__iothr_flush_output")],
  [("shutting_down","set by destroy, polled by the I/O thread","fstrm/iothr.c:struct fstrm_iothr")],
  ["complete byte stream received by the simulated peer or file"])

p("C03", "Payload ownership: free callback exactly once per accepted frame",
  "For every frame whose submit reported success the supplied free callback runs exactly once, with the supplied data and free_data, no earlier than the last use of the payload by the library and no later than the return of fstrm_iothr_destroy. For a submit call that did not report success the callback never runs and the payload is not touched afterwards.",
  ["schedules","fault_sequences","histories","configurations"],
  "All interleavings, write failures at any batch position, closed-writer discards, shutdown with non-empty queues, rejected submits.",
  "Tests free with a plain wrapper and cannot see a missed or late free except as a leak under valgrind on the few schedules they run; failure paths are never taken.",
  ["fstrm/iothr.c"],
  [("deferred deallocations after the write","fstrm/iothr.c:fstrm__iothr_flush_output"),("discard when closed","fstrm/iothr.c:fstrm__iothr_process_queue_entry"),("leftovers freed at destroy","fstrm/iothr.c:fstrm__iothr_free_queues")],
  [("outq_entries","entries whose deallocation is pending","fstrm/iothr.c")],
  ["calls of the free callback","shadow memory of the payload (poisoned on free)"])

p("C04", "Submit never waits, and reports 'again' only for a full queue",
  "fstrm_iothr_submit returns without waiting for I/O, for the peer or for time to pass, however slow or broken the transport is. It returns fstrm_res_again only when the chosen queue really holds its capacity (input_queue_size - 1) of frames not yet taken by the I/O thread, rejects an empty, absent or oversized payload with fstrm_res_invalid and no side effect, and a retried submit is accepted once the I/O thread has made room. A queue that is filled up while the I/O thread sleeps wakes it (for every notify threshold below the capacity), so that a burst does not have to wait for a timeout.",
  ["schedules","fault_sequences","configurations"],
  "All interleavings, stalled and dead peers, all queue sizes, one or many queues, invalid arguments at any point.",
  "No test has a peer that stops reading, and none checks the reason of a rejected submit.",
  ["fstrm/iothr.c","libmy/my_queue_mb.c","libmy/my_queue_mutex.c"],
  [("lock-free or short-critical-section insert","libmy/my_queue_mb.c, libmy/my_queue_mutex.c"),("argument validation","fstrm/iothr.c:fstrm_iothr_submit")],
  (), ["simulated time and blocking during each submit call","return value against the count of unfreed accepted frames"])

p("C05", "Accepted frames are flushed within the flush timeout",
  "With the writer open and a transport that accepts writes at once, an accepted frame is handed to the transport within two flush_timeout periods of its submission without any further action by the application, whatever other producers do and whatever wake-ups the I/O thread gets.",
  ["schedules","histories","configurations"],
  "All submit timings relative to the I/O thread's timed waits, all thresholds/buffer hints/queue sizes, spurious wake-ups, realtime clock jumps.",
  "Tests submit bursts and then destroy, which flushes everything; no test waits for a timed flush, and none steps the clock.",
  ["fstrm/iothr.c","fstrm/time.c"],
  [("timed wait then flush on ETIMEDOUT","fstrm/iothr.c:fstrm__iothr_thr"),("monotonic clock for the wait","fstrm/time.c")],
  [("flush deadline","when unflushed data must be written","fstrm/iothr.c:fstrm__iothr_thr")],
  ["simulated arrival time of each frame at the transport minus its submit time"])

p("C06", "fstrm_iothr_destroy always terminates and tears down exactly once",
  "fstrm_iothr_destroy, called at any moment after all submits have returned, returns within one flush_timeout plus the time the transport itself blocks, and never deadlocks. Before it returns the I/O thread has ended, an opened writer has been closed exactly once (no I/O on it afterwards), the writer has been destroyed, and all memory and descriptors the I/O thread object held are released.",
  ["schedules","fault_sequences","configurations"],
  "Destroy at every point of the I/O thread's life: before first open, during open/handshake/write/wait, after failures; lost and spurious condition signals.",
  "Tests call destroy at one place in one schedule, with the transport healthy.",
  ["fstrm/iothr.c","fstrm/writer.c"],
  [("shutdown flag + signal + join","fstrm/iothr.c:fstrm_iothr_destroy"),("timed wait bounds a lost signal","fstrm/iothr.c:fstrm__iothr_thr")],
  [("shutting_down","shutdown requested","fstrm/iothr.c")],
  ["simulated duration of destroy","open descriptors and live allocations afterwards","calls into a custom writer's rdwr operations"])

p("C07", "I/O thread survives transport failure and reconnects at the set pace",
  "When opening fails or an open transport breaks (also in a way that raises SIGPIPE), the I/O thread keeps draining its input queues and attempts to open again: the first attempt is made as soon as the thread starts, later ones no sooner than reopen_interval after the previous attempt (one second clock granularity) and no later than one flush_timeout (plus one second of clock granularity) after it is due. Once the transport works again, frames submitted after the successful reopen are delivered.",
  ["schedules","fault_sequences","histories","configurations"],
  "All sequences and timings of refused/failed/hung-up connections and handshakes, all reopen intervals, realtime clock jumps, any start value of the monotonic clock.",
  "No test breaks a connection or makes an open fail, and the reopen interval is at least a real second per attempt.",
  ["fstrm/iothr.c","fstrm/time.c","fstrm/writer.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
  [("reopen pacing","fstrm/iothr.c:fstrm__iothr_maybe_open"),("close on failed write","fstrm/iothr.c:fstrm__iothr_flush_output")],
  [("last_open_attempt","seconds of the last attempt","fstrm/iothr.c"),("opened","whether the writer is usable","fstrm/iothr.c")],
  ["simulated times of socket/open attempts","frames received after the last fault"])

p("C08", "Every connection carries a prefix of one well-formed stream",
  "The bytes a writer puts on any one connection or file are always a prefix of a well-formed Frame Streams byte stream (handshake or START first, then length-prefixed frames, at most one STOP, nothing after it), however the system splits, shortens or interrupts its writes and wherever it fails. Each frame passed to a write call that reported success appears whole, once, in order.",
  ["inputs","schedules","fault_sequences"],
  "All frame sizes and batch sizes (1..1000 iovecs), all patterns of short writes, EINTR, full buffers and errors at any byte, Unix/TCP/file writers and the I/O thread.",
  "Loopback sockets in the tests practically always take a whole sendmsg; a resumed partial send has never been executed by a test.",
  ["fstrm/unix_writer.c","fstrm/tcp_writer.c","fstrm/file.c","fstrm/writer.c","fstrm/rdwr.c"],
  [("resume after partial sendmsg","fstrm/unix_writer.c:fstrm__unix_writer_op_write, fstrm/tcp_writer.c:fstrm__tcp_writer_op_write"),("length prefixes interleaved with payloads","fstrm/writer.c:fstrm__writer_write_iov")],
  (), ["bytes accepted by the simulated kernel per connection/file"])

p("C09", "Writer results are truthful and failure is sticky for the connection",
  "A write that the transport failed is reported as not successful, and after it nothing more is sent on that connection except that it is closed. fstrm_writer_close reports success only if the transport took the STOP frame and (bi-directional) a FINISH frame was received and the close itself succeeded; writing to a closed writer fails without sending anything.",
  ["fault_sequences","inputs","histories"],
  "All operation sequences (open, write, writev, close, reopen, destroy) with failures injected at any read, write, open or close, on sockets, files and custom transports.",
  "Tests only exercise the success path of each call.",
  ["fstrm/writer.c","fstrm/rdwr.c","fstrm/file.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
  [("close on failed read/write","fstrm/rdwr.c:fstrm_rdwr_write, fstrm_rdwr_read"),("writer state machine","fstrm/writer.c:fstrm_writer_close")],
  [("state","opening/opened/closed/failed","fstrm/writer.c"),("opened","transport usable","fstrm/rdwr.c")],
  ["API results against the simulated transport's record"])

p("C10", "Writer handshake follows the protocol and negotiates the content type",
  "On a bi-directional transport opening a writer sends one READY frame listing all configured content types, then waits for the answer, and sends START, carrying the first configured content type that the peer's ACCEPT frame allows (any if ACCEPT names none), only after a valid ACCEPT. If the peer answers with anything else, with no common content type, or not at all, open reports failure and neither START nor any data frame is sent. On a uni-directional transport opening sends just START with the first configured content type.",
  ["inputs","histories","fault_sequences"],
  "All content type lists on both sides, all peer answers (valid, malformed, truncated, wrong type, hang-up), delivered in arbitrary pieces with arbitrary delay.",
  "Tests negotiate one identical type on both sides.",
  ["fstrm/writer.c","fstrm/rdwr.c","fstrm/control.c"],
  [("negotiation","fstrm/writer.c:fstrm__writer_open_bidirectional")],
  [("control_ready/control_accept/control_start","handshake frames","fstrm/writer.c")],
  ["bytes on the simulated connection","result of fstrm_writer_open"])

p("C11", "Reader yields exactly the stream's frames, never partial or invented data",
  "Fed any byte stream in any fragmentation, a reader returns exactly the leading complete data frames of the valid stream prefix, intact and in order, and then reports stop or failure (failure where the transport reported an error); it never returns a partial frame, a frame larger than max_frame_size, or data from beyond a protocol error. The STOP control frame is reported as read only if one was read, and results after the end are never success.",
  ["inputs","fault_sequences"],
  "Valid, truncated, bit-flipped and oversized streams; arbitrary fragmentation, read errors and EOF at any byte; uni- and bi-directional transports; any max_frame_size and content type configuration.",
  "Tests read well-formed files and streams only.",
  ["fstrm/reader.c","fstrm/rdwr.c","fstrm/control.c","fstrm/file.c"],
  [("frame loop","fstrm/reader.c:fstrm__reader_next_data"),("control frame limits","fstrm/rdwr.c:fstrm__rdwr_read_control_frame")],
  [("state","opening/opened/closing/closed/failed","fstrm/reader.c")],
  ["results of fstrm_reader_read against an independent parser"])

p("C12", "A file written before a crash or disk error is a readable prefix",
  "At every instant (process killed, power cut losing a suffix, disk full, write error) a file produced by a file writer is a prefix of the well-formed stream of the frames written so far, and a reader run on what is left returns exactly the complete frames in it. If close reported success, the file holds START, every successfully written frame, and STOP.",
  ["crash_points","fault_sequences","inputs"],
  "Crash or ENOSPC/EIO at every system call of the writing process, any stdio buffering split, truncation at any byte.",
  "Tests write small files that never fail and are read back complete.",
  ["fstrm/file.c","fstrm/writer.c","fstrm/reader.c"],
  [("append-only buffered writes","fstrm/file.c:fstrm__file_op_write"),("fclose result checked","fstrm/file.c:fstrm__file_op_close")],
  (), ["simulated inode contents after the crash"])

p("C13", "Failed and repeated opens, reads and closes leak and double-close nothing",
  "Over any sequence of API calls on readers, writers and transports, with any call failing, each descriptor or file the library opened is closed exactly once at the latest by the matching destroy, and all memory is released by it. A failed open leaves nothing open, so that a later open starts on a fresh connection with a fresh handshake. A writer, reader or I/O thread that cannot be created is reported with NULL, leaks nothing and leaves the transport or writer with the caller.",
  ["histories","fault_sequences"],
  "All call sequences on readers/writers over Unix, TCP, file and custom transports with failures at any step.",
  "Tests open, use and close once, and stop at the first failure.",
  ["fstrm/writer.c","fstrm/reader.c","fstrm/rdwr.c","fstrm/file.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
  [("close paths","fstrm/rdwr.c:fstrm_rdwr_close, fstrm/writer.c:fstrm_writer_destroy, fstrm/reader.c:fstrm_reader_destroy")],
  [("opened","transport open","fstrm/rdwr.c")],
  ["simulated descriptor table and heap after destroy","open/close calls on custom transports"])

p("C14", "Concurrent callers of get_input_queue get distinct queues",
  "Over all calls of fstrm_iothr_get_input_queue on one I/O thread object, from any threads, exactly num_input_queues calls return a queue, all different, and every further call returns NULL. fstrm_iothr_get_input_queue_idx returns for each valid index one fixed queue, different for different indices and usable for submission, and NULL for others.",
  ["schedules","configurations"],
  "All interleavings of 2..6 threads requesting queues while others submit.",
  "Tests obtain queues from one thread.",
  ["fstrm/iothr.c"],
  [("mutex-protected index","fstrm/iothr.c:fstrm_iothr_get_input_queue")],
  [("get_queue_idx","next queue to hand out","fstrm/iothr.c")],
  ["returned pointers"])

p("C15", "Input queues are linearizable bounded FIFO queues",
  "Every concurrent history of insert and remove on an input queue (one producer and one consumer for the lock-free kind, many producers for the mutex kind) is linearizable to a bounded FIFO queue of capacity size-1: items come out intact, once, in order. An insert fails only when full, a remove fails only when empty, and the reported space/count agree with the bounded queue up to operations still in progress.",
  ["schedules","histories"],
  "All interleavings at memory-access granularity, all power-of-two sizes from 2, all element sizes.",
  "t/test_queue runs real threads and checks a running sum, which cannot see reordering, transient false full/empty, or torn elements on schedules that do not happen on the build machine.",
  ["libmy/my_queue_mb.c","libmy/my_queue_mutex.c"],
  [("ring with one slot kept empty","libmy/my_queue_mb.c:q_space"),("mutex","libmy/my_queue_mutex.c:q_lock")],
  [("head/tail","ring indices","libmy/my_queue_mb.c, libmy/my_queue_mutex.c")],
  ["operation history with global event numbers"])

p("C16", "Library writer and library reader agree end to end",
  "When the library's own writer and reader are joined by a transport, with any content type configuration, the handshake completes exactly when the two content type sets are compatible, the reader returns exactly the frames successfully written, in order and intact, then stop, and both closes succeed (STOP answered by FINISH). If the transport fails midway the reader returns a prefix of the written frames and at least one side reports failure.",
  ["inputs","schedules","fault_sequences","configurations"],
  "All frame sequences, content type sets, interleavings of the two sides, fragmentations, buffer sizes, and connection failures at any byte.",
  "Tests join them over a loopback socket with one type and no faults.",
  ["fstrm/writer.c","fstrm/reader.c","fstrm/rdwr.c","fstrm/control.c"],
  [("handshake on both sides","fstrm/writer.c:fstrm__writer_open_bidirectional, fstrm/reader.c:fstrm__reader_open_bidirectional"),("shutdown handshake","fstrm/writer.c:fstrm_writer_close, fstrm/reader.c:fstrm_reader_close")],
  (), ["results on both sides"])

p("C17", "fstrm_capture records exactly the clients' frames",
  "Output files of fstrm_capture are well-formed streams with the configured content type that contain, for each client, exactly a prefix of the data frames which that client sent between its START and STOP, each whole, intact, once, in that client's order, and no other bytes. A client that received the FINISH frame has all its frames (not exceeding the read buffer size) in the output when capture terminates normally.",
  ["schedules","inputs","fault_sequences","histories"],
  "Any number of concurrent clients, any fragmentation, delay and interleaving of their bytes, frames up to and beyond the read buffer size, partial writes and disconnects at any byte.",
  "The program tests send one short stream from one client over loopback.",
  ["src/fstrm_capture.c"],
  [("per-connection state machine","src/fstrm_capture.c:cb_read, can_read_full_frame, process_data_frame")],
  [("conn.state/bytes_skip/len_frame_total","parser state per client","src/fstrm_capture.c:struct conn")],
  ["simulated output files parsed by an independent parser"])

p("C18", "fstrm_capture withstands broken clients and isolates them",
  "No byte sequence or disconnect by one client crashes or hangs fstrm_capture, adds bytes to the output that are not that client's whole data frames sent inside a negotiated START..STOP phase, or affects what is recorded for other clients. A client that violates the protocol (bad handshake or content type, malformed or oversized control frame, data outside the phase) is disconnected and gets no FINISH; one that follows it is answered with ACCEPT, and with FINISH after its STOP, and is then disconnected; a data frame larger than the read buffer is skipped whole and the following frames are still recorded.",
  ["inputs","schedules","fault_sequences"],
  "Mutated, truncated, oversized, out-of-order client streams in any fragmentation, next to well-behaved clients; small and large buffer sizes.",
  "No test sends a malformed byte or an oversized frame to capture.",
  ["src/fstrm_capture.c"],
  [("state checks per control frame","src/fstrm_capture.c:process_control_frame"),("length limits and skipping","src/fstrm_capture.c:can_read_full_frame")],
  [("conn.state","protocol phase","src/fstrm_capture.c")],
  ["connection closes, FINISH frames, output files, exit status"])

p("C19", "Output rotation of fstrm_capture loses and splits nothing",
  "Whenever output is rotated (SIGUSR1, or --split time elapsed) every file closed by rotation is a complete stream of its own (START, frames, STOP), every recorded frame is in exactly one file, and the files in order hold the frames in recording order. Every SIGUSR1 (or several sent together) starts a new file, nothing but it or an elapsed split period does, no frame goes into a file whose split period had already elapsed when the previous frame was recorded, and with --gmtime or --localtime the file name follows strftime of the opening time. After SIGHUP every frame received before it is in the output file.",
  ["schedules","histories","fault_sequences"],
  "Rotation signals and time steps at any point relative to data arrival, any number of rotations, SIGHUP in between.",
  "The tests never rotate.",
  ["src/fstrm_capture.c"],
  [("close then reopen between frames","src/fstrm_capture.c:rotate_output, maybe_rotate_output")],
  [("output_open_timestamp","start of the split period","src/fstrm_capture.c")],
  ["sequence of simulated output files"])

p("C20", "fstrm_capture honours its connection limit and recovers slots",
  "With --maxconns N fstrm_capture never serves more than N clients at once, and whenever fewer than N are connected a waiting client is served: every slot is given back exactly once however the connection ended. Without the option all clients are served.",
  ["schedules","histories","fault_sequences"],
  "All interleavings of connects, normal ends, protocol errors, resets and accept failures, N from 1.",
  "No test uses --maxconns.",
  ["src/fstrm_capture.c"],
  [("counter with listener enable/disable","src/fstrm_capture.c:cb_accept_conn, cb_close_conn")],
  [("remaining_connections","free slots","src/fstrm_capture.c")],
  ["accepted and open connections in the simulated kernel"])

p("C21", "fstrm_capture ends cleanly on SIGTERM/SIGINT and never hides a write error",
  "On SIGTERM or SIGINT, arriving at any moment after start-up, fstrm_capture stops within bounded time and exits 0 with the output file a complete stream ending in STOP. It exits 0 only if everything it recorded was actually accepted by the file system; after a disk error or full disk it exits with a failure status, and what is in the file is still a prefix of the correct stream.",
  ["schedules","crash_points","fault_sequences"],
  "Signals at every system call and program point, write/close errors at any byte, with idle, busy and stalled clients.",
  "Tests kill capture with a fixed sleep when idle and have no disk errors.",
  ["src/fstrm_capture.c"],
  [("signal handling","src/fstrm_capture.c:setup_signals"),("STOP on close","src/fstrm_capture.c:close_write_file")],
  (), ["exit status, simulated time to exit, output file"])

p("C22", "fstrm_replay forwards exactly the matching files' frames and reports failure",
  "fstrm_replay sends over one connection the data frames of those input files whose START matches the requested content type, in argument order and intact, skipping others with nothing of theirs sent, followed by STOP. It exits 0 only if the connection was opened, every frame of every matching file up to its end was read and sent, and the peer confirmed with FINISH.",
  ["inputs","fault_sequences","schedules"],
  "Any set of files (good, truncated, corrupt, missing, wrong type), any peer behaviour and connection failure, any fragmentation.",
  "The test replays one or two good files to a healthy capture.",
  ["src/fstrm_replay.c","fstrm/reader.c","fstrm/writer.c"],
  [("per-file copy loop","src/fstrm_replay.c:process_file"),("final close","src/fstrm_replay.c:main")],
  (), ["bytes on the simulated connection, exit status"])

p("C23", "fstrm_dump copies and prints exactly the input's frames and reports failure",
  "fstrm_dump prints one line per data frame of the input in order with its exact escaped content, and with an output file writes a well-formed stream with the input's content type and exactly those frames. It exits 0 only if the input was a complete stream ending in STOP and everything was completely printed and written; on truncated or corrupt input or a write error it exits non-zero, having emitted only a prefix.",
  ["inputs","fault_sequences"],
  "Good, truncated, corrupt, oversized inputs; read errors, full disk and close errors on the output at any byte; stdio buffering splits.",
  "The test dumps one good file.",
  ["src/fstrm_dump.c","libmy/print_string.h","fstrm/reader.c","fstrm/writer.c","fstrm/file.c"],
  [("copy loop","src/fstrm_dump.c:main")],
  (), ["simulated stdout, output file, exit status"])

p("C24", "Control frame codec round-trips and rejects malformed frames",
  "Encoding a control frame and decoding the result yields the same type and content types, the encoded size is exact, and decoding any malformed byte string (bad type, bad field, wrong length, over the limits) fails without reading or writing out of bounds.",
  ["inputs"],
  "All control frames and all byte strings up to and beyond the size limits.",
  "t/test_control covers a table of about forty frames.",
  ["fstrm/control.c","fstrm/control.h"],
  [("length-checked loads and stores","fstrm/control.c:fstrm_control_decode, fstrm_control_encode")],
  (), ["results of encode/decode"])

p("C25", "Memory held for frames stays within the configured limits",
  "Whatever producers and peers do, the memory the library and fstrm_capture hold is bounded by their configuration. An I/O thread never holds more accepted, unwritten, undiscarded frames than its input queues can hold plus output_queue_size (plus the entry in hand); no single write carries more than output_queue_size frames or goes on collecting after buffer_hint bytes have been reached, and a thread that goes to sleep with its output open holds fewer than buffer_hint bytes of collected frames. A reader's memory is bounded by its max_frame_size (and the fixed control frame limit) and not by lengths the input announces. fstrm_capture buffers at most a small multiple of --buffersize per connection, also for announced lengths far above it; and with no client connected it holds no more than before the first one came, but for a bounded reserve, however many clients have come and gone and however often the output was rotated.",
  ["histories","inputs","schedules"],
  "Producers faster than the writer, stalled and failing peers, streams announcing any length, many connections, runs of any length.",
  "The tests never look at memory and no test has a producer outrun a stalled peer for long.",
  ["fstrm/iothr.c","fstrm/reader.c","fstrm/read_bytes.h","src/fstrm_capture.c"],
  [("queue and output queue limits","fstrm/iothr.c:fstrm__iothr_maybe_write, fstrm__iothr_process_queue_entry"),("length checks before buffering","fstrm/reader.c:fstrm_reader_read, src/fstrm_capture.c:process_data_frame, cb_read")],
  [("outq_idx, outq_nbytes","what waits to be written in one go","fstrm/iothr.c")],
  ["frames accepted minus frames written or freed, size of each write, peak of the simulated heap"])

p("C26", "Programs start exactly as configured or fail promptly",
  "With a usable configuration on a working system fstrm_capture listens within bounded time on exactly the configured Unix or TCP (IPv4 or IPv6) address and on nothing else, replacing a socket an earlier run left behind; every client that follows the protocol is then served, its frames go to the configured output and to no other file, and SIGINT or SIGTERM ends it with status 0. With an unusable configuration (missing, unknown or contradictory options, an address or port that is none, a socket path or content type over the limits), an address in use, an output or socket that cannot be created, or a failing start-up system call, it ends within bounded time with a failure status, says so on standard error and serves nobody; a rejected command line leaves existing files alone. fstrm_replay connects to exactly the configured address, and both it and fstrm_dump end with a failure status on unusable arguments, without having connected to anybody or printed or written anything.",
  ["inputs","fault_sequences"],
  "All combinations and orders of options, stale sockets and old outputs, each start-up system call failing.",
  "The shell tests start the programs with one fixed set of options per test and never with a failing system call.",
  ["src/fstrm_capture.c","src/fstrm_replay.c","src/fstrm_dump.c","libmy/argv.c"],
  [("option parsing","src/fstrm_capture.c:parse_args, src/fstrm_replay.c:parse_args"),("listening socket","src/fstrm_capture.c:open_read_unix, open_read_tcp, setup_event_loop"),("output","src/fstrm_capture.c:open_write_file, open_write_start")],
  [("g_program_args","what the command line asked for","src/fstrm_capture.c")], ["exit status, standard error, listening addresses, answers to clients, output files"])

p("C27", "What the programs report about files, frames and bytes is what happened",
  "Over any schedule of clients, rotations, signals and faults: each report of fstrm_capture on standard error that an output file was opened or closed names the file, in the order in which they were opened and closed, with exactly the frames (control frames included) and bytes the file holds; each report that a connection was closed gives the frames and bytes recorded from it; a run that ends with status 0 has reported every output file. fstrm_replay names exactly the files it skips, in order. fstrm_dump reports exactly the data frames it prints with their lengths, and a STOP frame only where the input has one. No program ends with a failure status without saying anything on standard error.",
  ["histories","schedules","fault_sequences"],
  "All interleavings of connections, rotations and signals; any damage to the files; failures at any point.",
  "The tests look at exit statuses and output files, not at what is reported.",
  ["src/fstrm_capture.c","src/fstrm_replay.c","src/fstrm_dump.c"],
  [("accounting","src/fstrm_capture.c:process_data_frame, open_write_start, close_write_stop, close_write_file, cb_close_conn"),("reports about files","src/fstrm_replay.c:process_file, src/fstrm_dump.c:print_data_frame, print_stop_frame")],
  [("count_written, bytes_written","frames and bytes in the current output file","src/fstrm_capture.c"),("count_read, bytes_read","frames and bytes recorded from a connection","src/fstrm_capture.c")], ["standard error, output files, exit status"])

p("C28", "Objects used at the same time do not influence each other",
  "Any number of I/O threads, writers and readers of one process, each on a transport of its own and created, used and destroyed from different threads at any time, each behave as if they were alone: what one sends is a stream of exactly its own frames under its own content type, what one reads is exactly what its own transport holds, the control frames it reports are its own, and failing, slow or destroyed neighbours do not fail, delay for ever, corrupt or leak anything of it.",
  ["schedules","inputs","fault_sequences"],
  "All interleavings of all calls on all objects; the set of objects is arbitrary.",
  "The tests use one writer and one reader at a time, or several of one kind that never overlap in time inside a call.",
  ["fstrm/iothr.c","fstrm/writer.c","fstrm/reader.c","fstrm/rdwr.c","fstrm/control.c","fstrm/file.c","fstrm/unix_writer.c","fstrm/tcp_writer.c"],
  [("per-object buffers","fstrm/writer.c:fstrm__writer_write_iov, fstrm/reader.c:fstrm__reader_next_data, fstrm/rdwr.c:fstrm__rdwr_read_control_frame, fstrm__rdwr_write_control_frame"),("per-object threads and queues","fstrm/iothr.c:fstrm_iothr_init, fstrm__iothr_thr")],
  [("struct fstrm_iothr, fstrm_writer, fstrm_reader","all state belongs to one object","fstrm/*.c")], ["bytes on every transport and in every file, frames read, results of calls"])

p("C29", "The library leaves its host process alone",
  "Whatever the application does with writers, readers and I/O threads, and whatever fails below them, the library does not change what any signal does in the process nor the signal mask of any thread of the application, does not cause SIGPIPE to be delivered to it, does not end it, does not write to or close its standard streams (unless the path \"-\" was given), and never uses or closes a descriptor that the application opened, even one that got the number of a descriptor the library had before. Programs which the application starts at any moment inherit no socket of the library; where the system cannot create close-on-exec sockets, they inherit none that is connected.",
  ["schedules","inputs","fault_sequences"],
  "All library calls, all instants at which other threads of the application open and close descriptors and start programs, all signal set-ups of the application; with and without SOCK_CLOEXEC.",
  "The tests own their process and have nothing in it that the library could disturb; they start no programs and leave the signal set-up at its default.",
  ["fstrm/iothr.c","fstrm/unix_writer.c","fstrm/tcp_writer.c","fstrm/file.c","fstrm/writer.c","fstrm/reader.c"],
  [("socket creation, close-on-exec, MSG_NOSIGNAL","fstrm/unix_writer.c, fstrm/tcp_writer.c: op_open, op_close, op_write"),("SIGPIPE blocked in the I/O thread only","fstrm/iothr.c:fstrm__iothr_thr_setup")],
  [("w->fd, w->connected","descriptor owned by the transport while connected","fstrm/unix_writer.c, fstrm/tcp_writer.c")], ["signal dispositions and masks, descriptor table, standard streams, what an executed program inherits"])

p("C30", "End to end, what applications log is what is captured and read back",
  "When applications hand frames to fstrm_iothr objects whose socket writers lead to fstrm_capture, every frame is in at most one of capture's output files, at most once and byte for byte, and frames of one producer are in the order in which it submitted them on that connection; nothing else is in the files. If a connection did not fail and ended with FINISH, every frame accepted since it opened (and, where nothing failed at all, every accepted frame) that fits capture's read buffer is in the files by the time capture has been told to end, whatever the network's delays and fragmentation, rotations, flushes, splits, connection limits, the death of other applications, and earlier deaths or restarts of capture. Every file of a capture that ended properly is a complete stream, and reading these files with fstrm_reader, fstrm_dump or fstrm_replay (into any server, also another fstrm_capture) gives exactly these frames in this order.",
  ["schedules","inputs","fault_sequences","crash_points"],
  "1 to 3 application processes with 1 to 3 queues and 1 to 5 producers each; all schedules, frame sequences, rotations, restart and crash points; Unix and TCP sockets.",
  "Every test starts one part against a scripted counterpart or checks one chain with one schedule, without failures, restarts, rotations or several applications.",
  ["fstrm/iothr.c","fstrm/writer.c","fstrm/rdwr.c","fstrm/unix_writer.c","fstrm/tcp_writer.c","fstrm/reader.c","fstrm/file.c","src/fstrm_capture.c","src/fstrm_replay.c","src/fstrm_dump.c"],
  [("sending side","fstrm/iothr.c:fstrm__iothr_thr, fstrm/writer.c:fstrm_writer_close"),("recording side","src/fstrm_capture.c:process_data_frame, cb_read, cb_close_conn, process_control_frame_stop"),("way back","src/fstrm_replay.c, src/fstrm_dump.c, fstrm/reader.c")],
  [("accepted frames","sent at most once, recorded at most once, FINISH only after recording","fstrm/iothr.c, src/fstrm_capture.c")], ["frames accepted from applications, bytes on connections, content of all output files, frames read back, exit statuses"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
