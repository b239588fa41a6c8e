#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

p("C01", "The bounded double-ended queue is a sequence",
  "A queue created with a given capacity behaves as a double-ended sequence of at most that many elements: adding appends exactly one element (its key and data) at the back, or reports failure and changes nothing when the queue is full. Looking at or removing from the front or the back concerns exactly the first or last element in order of insertion, and yields nothing (and changes nothing) when the queue is empty. All other elements keep their contents and relative order, for any number of wrap-arounds of the underlying storage.",
  ["inputs", "histories"], "every capacity > 0, every reachable queue state (any head position, any length), every key/data value, every operation",
  "unit tests push and pop a handful of elements on one capacity; the wrap-around of removal at the back is never reached",
  ["src/queue.c", "src/queue.h"], [("ring buffer indices", "queue_enqueue, queue_dequeue_head, queue_dequeue_tail, queue_drop")],
  [("head/tail/size", "ring position of first and last element, element count", "src/queue.h")], ["queue_* API"])

p("C02", "The priority queue always yields a minimum key and stable handles",
  "After any history of insertions, removals of arbitrary elements and removals of the top, the element presented as top has a key not greater than that of any element in the queue, and the reported size is the number of elements in it. An insertion into a non-full queue adds exactly one element with the given key and data and returns a handle that keeps designating that same element (key, data) until it is removed; a removal takes out exactly the designated element and leaves all the others, their handles, keys and data in place. A handle freed by a removal is reused only by a later insertion, and up to the full capacity elements can be held at once.",
  ["inputs", "histories"], "every reachable heap state of every capacity, every key and data, insertion, removal of any live handle, pop",
  "unit tests use a few elements in a few orders; the heap repair after removing an inner element is reached only for a few shapes",
  ["src/priority_queue.c", "src/priority_queue.h"], [("binary heap with back pointers and a free-handle stack", "pqueue_insert, pqueue_remove, pqueue_pop, up, down, swap_node")],
  [("heap/nodes/stack/size", "heap order, element slots, free slots, count", "src/priority_queue.h")], ["pqueue_* API"])

p("C03", "Time arithmetic is exact on normalised times",
  "For any two normalised times, addition and subtraction give the exact mathematical sum and difference, again normalised (nanoseconds within one second); the microsecond difference is the exact difference rounded down to whole microseconds; comparing never reports a later time as preceding an earlier one and always reports a strictly earlier time as preceding. Converting a non-negative number of microseconds into a one-shot timer setting and back is the identity.",
  ["inputs"], "all pairs of normalised times whose second counts stay within +-2^40, all non-negative int microsecond counts",
  "unit tests try a few constant pairs",
  ["src/timespec.h"], [("carry/borrow normalisation", "ts_add, ts_sub, ts_sub_us, ts_leq, us_to_its, its_to_us")], [], ["ts_* and *_its helpers"])

p("C04", "Request ids are unique among live requests and look up exactly",
  "Starting a request hands out an identifier that no other live request has, or reports failure without touching any live request when the slot that identifier maps to is still occupied; a started request carries no leftover state (pending forward count, current command, neighbours, timeout) of the slot's previous user. Looking up an identifier returns the live request carrying it and nothing when no live request has it, for negative identifiers too. Retiring a request makes its identifier unknown, releases its slot, and unlinks it from its neighbours without disturbing any other request.",
  ["inputs", "histories"], "every table state reachable by allocation and release, every identifier counter value in 0..2^31-1, every lookup argument",
  "tests run few requests and never wrap the identifier space nor look up stale identifiers",
  ["src/request.c", "src/request.h"], [("slot = id modulo table size, -1 marks free slots", "req_alloc, req_free, req_get_by_id, req_init")],
  [("reqs", "table of requests", "src/request.c"), ("last_reqs", "identifier counter", "src/request.c")], ["req_alloc/req_free/req_get_by_id"])

p("C05", "Connection slots are never shared and start clean",
  "Allocating a connection yields a slot that no other live connection owns, under any interleaving of allocations and releases by other threads; it fails only if all slots are taken or memory is exhausted, and a failed allocation takes no slot and leaks no memory. A newly allocated connection carries the given socket, peer address and protocol, owns two distinct full-size empty buffers, has nothing received, nothing to send and no pending request left over from an earlier user of the slot. Releasing a connection frees its buffers and its pending requests and makes the slot available again, leaving every other connection alone.",
  ["inputs", "histories", "schedules"], "every state of the connection table, every interference by other threads on slots not owned by the caller, success or failure of each memory allocation",
  "tests open a few connections, never exhaust the table or memory, and never reuse a slot with requests pending under inspection",
  ["src/connection.c", "src/connection.h"], [("atomic busy flag per slot", "conn_alloc, conn_free, conn_del_id, conn_reset")],
  [("conns", "connection table", "src/connection.c")], ["conn_alloc/conn_free"])

p("C06", "Outgoing bytes are sent once, in order, whatever the socket accepts",
  "The bytes handed to a connection's socket are, in order and without loss, duplication or corruption, the concatenation of the messages started on that connection, whatever the sizes of the individual partial sends and temporary refusals. A message is always composed in free buffer space directly behind the bytes still waiting, is told exactly how much space is left, and never touches waiting bytes, or is refused when not even its header would fit; nothing is sent while the connection is still being established. Sending reports the number of bytes accepted, treats 'would block' as nothing sent and the connection as still healthy, a reset or broken connection as closed, and other errors as failure.",
  ["inputs", "histories", "fault_sequences"], "every send-buffer state, every message size that fits, every possible result of each send call (any partial count or any error)",
  "on loopback each send is accepted in full, so partial sends with more data queued are never exercised",
  ["src/connection.c"], [("pending region of the send buffer", "conn_send_message, conn_start_send, conn_send, get_send_buf")],
  [("curr_send_buf/curr_send_size", "start and length of the bytes still to be sent", "src/connection.h")], ["sendto() arguments"])

p("C07", "Incoming bytes are framed into exactly the messages sent",
  "However the incoming byte stream is cut into receive chunks, the messages delivered from a connection are exactly the consecutive messages of the stream: a message is delivered only once all of its bytes have arrived, each is delivered once, in order and at its exact boundaries, and an incomplete header or body is never delivered nor skipped. Receiving appends the received bytes behind those already held without altering them, never beyond the buffer, and keeps the amount of free space exact. Peer shutdown and fatal receive errors are reported as closed, 'would block' as nothing received.",
  ["inputs", "histories", "fault_sequences"], "every receive-buffer state, every chunk length including 0, every receive error, every declared message size between the header size and the buffer size",
  "tests use loopback where messages arrive whole in most cases",
  ["src/connection.c"], [("receive and process pointers", "conn_recv, conn_next_message")],
  [("curr_recv_buf/curr_recv_size/curr_proc_buf", "end of received data, free space, first byte not yet delivered", "src/connection.h")], ["conn_next_message() results"])

p("C08", "Retiring a request keeps every other pending request intact",
  "A request added to a connection becomes a pending request of it, in front of the older ones, addressed to the connection's current peer. When a pending request of a connection is retired, in any order with respect to the others, its message's bytes are reclaimed and every other pending request of the connection still refers to exactly its own message bytes and to the same next command within them; the bytes received but not yet delivered are preserved as well and the free space grows by exactly the retired message's size. The retired request leaves the connection's list of pending requests and all others stay in it in order.",
  ["inputs", "histories"], "every list of pending requests of any length laid out in arrival order in the receive buffer, every request chosen for retirement, every message size and content",
  "tests do not keep several requests of one connection pending and retire them out of order while comparing contents",
  ["src/connection.c", "src/request.c"], [("buffer defragmentation", "conn_req_add, conn_req_remove")],
  [("req_list, message_ptr, curr_cmd", "pending requests, their message and next command", "src/connection.h")], ["pending requests of a connection"])

p("C09", "A request message encodes the configured command list exactly",
  "Encoding a configured list of commands writes into the message, in order and back to back, one command for each configured command that is not skipped, each with its configured options and freshly sampled quantities (size, time, offset) in the right field, followed by one end marker, and nothing beyond it. The space accounting given by the caller decreases by exactly the bytes used; if the remaining space cannot hold a command or the end marker the encoding reports failure, and otherwise success. A probabilistic skip contributes no command itself and removes exactly the configured number of following commands when the random draw does not exceed its probability, none otherwise.",
  ["inputs", "programs"], "every list of commands of any length and any option values, every outcome of the samplers and of the random draws",
  "unit tests encode one or two fixed short lists and compare a few fields",
  ["src/ccmd.c", "src/message.c"], [("per-command encoders", "ccmd_add, ccmd_dump, cmd_type_size, cmd_next, message_first_cmd")],
  [("req_size", "space left while encoding", "src/message.h")], ["bytes of the message"])

p("C10", "Skipping treats a forward and everything up to its reply as one step",
  "Skipping n commands from a position in a well-formed command list advances over exactly n steps, where a step is a single command, or a whole forward: a forward (or a run of consecutive multi-forwards) together with everything nested in it up to and including its matching reply. Skipping stops at the end of the list if fewer steps remain and never looks beyond it, gives the same result on configured lists and on encoded messages, and changes nothing.",
  ["inputs", "programs"], "every well-formed command list of any length and nesting depth, every start position, every n",
  "test_skip covers few shapes without nesting",
  ["src/message.c", "src/ccmd.c"], [("nesting counter", "message_skip_cmds, ccmd_skip, cmd_next")], [], ["returned position"])

p("C11", "The forwarded message carries exactly the commands up to the matching reply",
  "The message built for a forward contains, byte for byte and in order, the commands from the given position up to and including the first reply at the same nesting level (forwards nested in between are carried whole), followed by an end marker; its request id and status are those of the source message, its declared size never exceeds the available space, and the source message is unchanged. If the commands and the end marker do not fit in the space available the copy is refused and the destination's bytes beyond the header are left alone. The position reported is that of the matching reply in the source message.",
  ["inputs", "programs"], "every well-formed command list of any length, every start position followed by a reply at its level, every available space",
  "tests forward one or two small messages and never run out of space",
  ["src/message.c"], [("bounded copy", "message_copy_tail, message_skip_cmds")], [], ["bytes of the destination message"])

p("C12", "A forwarded request resumes after exactly the required acknowledgements",
  "A forward sends one message of the configured size, carrying the commands that follow its forward group, to each target of the group, over a connection to that target with the configured protocol, identified by the forwarding node's own request id, and arms a timeout only if one is configured. The request then waits until exactly as many responses as its reply command requires (at least one) have come back, and continues right after the forward group's matching reply with any pending timeout cancelled; every forward of a request counts its own acknowledgements afresh. Responses that match no live request are dropped without any effect.",
  ["inputs", "histories", "programs"], "every forward group of any length, every ack count, every state of the waiting request, every order of responses and success or failure of each send",
  "tests forward through one or two nodes once and do not count acknowledgements",
  ["src/dw_node.c"], [("per-request countdown", "single_start_forward, start_forward, handle_forward_reply")],
  [("fwd_replies_left", "responses still awaited, -1 when none started", "src/request.h")], ["messages queued on connections, resumed command"])

p("C13", "Forward timeouts fire at their own deadline",
  "Whatever other timeouts are armed, removed or expire in between, every pending timeout keeps the deadline given when it was armed (time of arming plus its timeout): the timer is always set to expire when the earliest pending deadline is due and is off when no timeout is pending. Cancelling a timeout removes only that one, is harmless when none is pending, and reports the time that was left.",
  ["inputs", "histories", "schedules"], "every set of pending timeouts, every elapsed time between operations, every timeout value, arming and cancelling in any order",
  "tests arm at most one timeout at a time",
  ["src/dw_node.c", "src/priority_queue.c", "src/timespec.h"], [("relative time base kept in the worker", "insert_timeout, remove_timeout")],
  [("timeout_queue, time_elapsed, timerfd", "pending deadlines, offset of the time base, kernel timer", "src/dw_node.c")], ["timerfd_settime() arguments"])

p("C14", "An expired forward is retried, then skipped or failed, exactly as configured",
  "When the timeout of a waiting plain forward expires and retries are left, the forward is sent again and the retry count decreases by one; with no retries left and a failure-skip count configured, the request continues after skipping exactly that many steps with its status marked failed; otherwise the request is dropped and accounted as no longer active. Each expiry consumes its timeout, happens only once the timer has run out, concerns only the request whose deadline expired whatever identifier the requester gave it, and a request that already moved on or disappeared is left alone without blocking later timeouts.",
  ["inputs", "histories"], "every retries and skip value, every request state at expiry, every requester-chosen id",
  "tests use a retries count of a few with one request in flight whose ids happen to coincide",
  ["src/dw_node.c"], [("timeout handler", "handle_timeout")], [("retries, on_fail_skip, status", "remaining retries, steps skipped on failure, message status", "src/message.h")],
  ["resumed position, message status, active request count"])

p("C15", "A node executes commands in order and answers each request once, correctly",
  "For each request the commands are executed in their order, each once: computation immediately, store and load handed to the storage worker with the request suspended until acknowledged, forwards suspended until resumed, and execution stops at the first reply. The reply goes once to the connection and address the request came from, carries the request id the sender used, the size asked for, the request's status and no commands; the request is retired and the active-request count drops by one. A reply whose bytes cannot be sent immediately is still a success.",
  ["inputs", "programs", "histories"], "every command list, every command options, every request/connection state, every send result",
  "tests run a few short command lists and look at the client's summary only",
  ["src/dw_node.c"], [("command interpreter", "process_single_message, reply, process_messages")],
  [("curr_cmd", "next command to execute", "src/request.h")], ["sequence of command effects, bytes of the reply"])

p("C16", "Stores and loads hit the requested place, amount and file region",
  "A store writes exactly the requested number of bytes (rounded up to whole blocks with direct I/O), starting at the requested offset if one is given (likewise rounded up), else where the last operation ended, wrapping to the start when it would not fit within the maximum storage size. A load reads exactly the requested number of bytes, from the requested offset if given, else from where the last operation ended, wrapping to the start when fewer bytes than requested have been stored beyond it. Offsets and sizes are honoured over their full 64-bit range and the recorded end of data never exceeds the maximum size.",
  ["inputs", "histories"], "every offset, size, storage position, end of data, block size and maximum size; every partial write/read result",
  "tests store and load a few small blocks at default offsets",
  ["src/dw_node.c"], [("storage cursor", "store, load")], [("storage_offset, storage_eof", "file position, end of stored data", "src/dw_node.c")], ["lseek/write/read arguments"])

p("C17", "Exact-length transfers move every byte once, in order",
  "Writing a buffer of n bytes to a file descriptor returns success only after exactly its n bytes were accepted, each once and in order, whatever the sizes of the partial writes, and returns failure as soon as a write fails, never writing anything outside the buffer. Reading n bytes fills the buffer's n bytes once and in order whatever the partial reads, restarts from the beginning of the file at end of data, gives up only when a restart yielded nothing, reports a read error as failure, and never stores outside the n bytes.",
  ["inputs", "fault_sequences"], "every length, every sequence of partial counts and errors",
  "pipes and files transfer everything in one call in tests",
  ["src/dw_node.c"], [("transfer loops", "safe_write, safe_read")], [], ["write()/read() arguments"])

p("C18", "A store is acknowledged only after the sync it asked for",
  "A store request that asks to wait for synchronisation is acknowledged to the requesting worker only after its data was written and then synchronised to disk: directly when no periodic sync is configured, else by the next periodic sync. Each storage request is acknowledged exactly once, to the worker it came from and with its own request id; a store that does not ask to wait, and any load, is acknowledged right after it was carried out.",
  ["inputs", "histories", "schedules"], "every sequence of storage events (requests from any worker, periodic sync ticks), every option value",
  "tests cannot observe the order of sync and acknowledgement",
  ["src/dw_node.c"], [("ack after fsync / waiting queue", "storage_worker, store")], [("sync_waiting_queue", "requests waiting for the periodic sync", "src/dw_node.c")], ["fsync() and ack write() order"])

p("C19", "A compute command consumes at least the requested CPU time",
  "A compute command for t microseconds returns only once at least t microseconds of the executing thread's CPU time have passed since it started, and returns at the first clock reading that shows so, for every t and whatever the clock readings are, provided they never go back.",
  ["inputs", "schedules"], "every requested time, every non-decreasing sequence of clock readings",
  "tests measure wall time of a few values with coarse tolerance",
  ["src/dw_node.c", "src/timespec.h"], [("clock polling", "compute_for, ts_sub_us")], [], ["clock readings between start and return"])

p("C20", "Sampled quantities follow the configured distribution's range and sequence",
  "A fixed distribution always yields its value, a uniform one values within its bounds, and a distribution given with a range never a value outside it. Arithmetic and geometric sequences yield their start, then each time the previous value plus (times) the step, staying at the bound once it is reached; a sequence read from a file yields the values of the chosen column that lie within the range in order, restarting after the last. Drawing changes nothing but the drawn distribution's own position.",
  ["inputs", "histories", "configurations"], "every parameter set accepted by the parser, every random draw in [0,1), any number of draws",
  "unit tests draw few samples of few distributions",
  ["src/distrib.c", "src/distrib.h"], [("sampler", "pd_sample, pd_build_*")], [("prev, curr", "last value of a sequence", "src/distrib.h")], ["sampled values"])

p("C21", "Quantities are parsed with their unit",
  "A quantity written with a unit suffix is the number scaled by exactly that unit: k, m and g in either case are 10^3, 10^6 and 10^9 (for sizes optionally followed by b), and ns, us, ms and s are converted to microseconds; without suffix it is taken as is, and a wrong time unit is refused. In a distribution every named parameter sets exactly its own field, with the unit of the quantity being parsed.",
  ["inputs"], "every number and every suffix", "tests use few suffixes",
  ["src/distrib.c"], [("unit parsing", "sscanf_unit, sscanf_time_us, pd_parse")], [], ["parsed values"])

p("C22", "CPU lists select exactly the listed cores and are handed out round-robin",
  "A CPU list of numbers and ranges with an optional step selects exactly the listed cores: each range contributes first, first+step, ... up to its last core, with the step (default 1) applying to that range only; a list naming a core outside the machine or containing anything else is refused. Handing out cores visits exactly the selected ones in increasing order, one after the other, starting again from the lowest after the highest.",
  ["inputs", "histories"], "every CPU list text within the number of cores, every non-empty core set and current core",
  "tests use one or two lists",
  ["src/thread_affinity.c", "src/thread_affinity.h"], [("list parser and iterator", "aff_list_parse, aff_it_init, aff_it_next")], [], ["CPU set, successive cores"])

p("C23", "Address strings are split into protocol, host and port as written",
  "An address [proto:[//]][host][:port] is split into the protocol named, the host and the port exactly as written; a missing protocol, host or port leaves the default in place. Nothing is written beyond the destination's size, and a string that is too long is refused.",
  ["inputs"], "every address string", "tests use few well-formed addresses",
  ["src/address_utils.c", "src/address_utils.h"], [("parser", "addr_proto_parse, addr_parse")], [], ["parsed fields"])

p("C24", "Existing connections are reused only for their own peer and protocol",
  "Looking for a connection to a peer returns a live connection with that same address, port and protocol (for UDP: a live UDP connection owned by the calling thread) that is not about to be closed, and reports none only if there is none. Looking up a socket returns the connection using that socket, or none if there is none. Lookups change nothing.",
  ["inputs", "histories"], "every state of the connection table, every address, port, protocol, socket and thread",
  "tests have at most a handful of connections, all TCP or all UDP",
  ["src/connection.c"], [("table scan", "conn_find_existing, conn_find_sock")], [], ["returned slot"])

p("C25", "A connection with data waiting is watched for writability, and only then",
  "After any event on a connection is handled, either the connection has been closed and its slot released exactly once, or its own socket is being watched for input and, if and only if bytes are still waiting to be sent on an established connection, also for output. A connection is closed on error, hang-up, peer shutdown, a failed send or connect, or after it delivered the response to a TCP forward, and never because a send would block. The count of active connections goes up once when a connection is established and down once when it is closed.",
  ["inputs", "histories", "fault_sequences"], "every event mask and kind, every connection state, every result of receive, send and connect",
  "tests never fill a socket buffer, so output watching is not exercised",
  ["src/dw_node.c"], [("event handler", "exec_request, establish_conn, close_and_forget")], [("status", "connection state", "src/connection.h")], ["epoll_ctl() calls, active connection count"])

p("C26", "The client sends each request of a session once, whole and with its own id",
  "Within a session the client sends consecutive request ids starting from its first, each exactly once and completely however little the socket takes at a time, until all are sent or sending fails. Every message carries the command list and has the configured size, but is never smaller than its commands need nor larger than the space for it. The time of sending is recorded in the request's own place before it is sent, with no latency yet, and the recorded times of the session's other requests stay.",
  ["inputs", "configurations", "fault_sequences"], "every session within the limits, every sampled size, every result of sending, with and without rate steps and per-session output",
  "tests check the summary of small runs",
  ["src/dw_client.c"], [("sender loop", "thread_sender, idx")], [], ["messages sent, recorded times"])
open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
