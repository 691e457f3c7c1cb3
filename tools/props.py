#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (single source of the property texts)."""
import json, os, re, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, st, over, q, why, files, mech, obs=None, na=None, tech=None, note=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if obs: a["observe_at"] = obs
    P.append(dict(j={"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a}, na=na, tech=tech, note=note))
OBJ, SOCK, ESC, LOG, TEL, PROC, UX, IPMI, SER, SRV, CONF = ("src/server-%s.c" % x for x in "obj sock esc logfile telnet process unixsock ipmi serial X conf".split())
SRV = "src/server.c"

prop("C01", "Console output reaches every attached reader complete and in order",
 "Every byte a console device emits is delivered to every client attached for reading at that moment and to the console's log, unchanged (telnet commands removed), exactly once and in order, for every device transport and however reads and writes are split or refused, as long as a receiver is not more than its buffer behind. Output emitted immediately before the device hangs up is still delivered. Nothing from another console is ever mixed in.",
 ["inputs", "schedules", "fault_sequences"], "all output sequences, read/write splits, stalls and attach/detach orders", "A test sees one segmentation by the kernel; the property is about every short read, short write, would-block and buffer position.",
 [OBJ, TEL, "src/tpoll.c"], [("fan-out of console output", f"{OBJ}:read_from_obj"), ("ring buffer", f"{OBJ}:write_obj_data"), ("draining", f"{OBJ}:write_to_obj")])
prop("C02", "Console log files are complete, in order and survive reopening and errors",
 "Each console log holds all of the console's output and event records in order; a reconfiguration signal makes logging continue in the file then found under the configured name (a rotated file keeps exactly what it had), old content is discarded only at startup and only if so configured, and a log locked by another process is not written unless locking is disabled. Failures to open or write a log never affect the console, its sessions or other logs, and logging resumes at the next reopening.",
 ["histories", "fault_sequences", "configurations"], "all sequences of output, signals, rotation, removal, outages, locks and file errors", "Tests do one open; rotation, partial writes, locks and errors combine in many orders.",
 [LOG, OBJ, SRV], [("opening", f"{LOG}:open_logfile_obj"), ("reopen on signal", f"{SRV}:reopen_logfiles"), ("error shutdown", f"{OBJ}:shutdown_obj")])
prop("C03", "Typed input reaches exactly the consoles its sender may write to",
 "Every byte a client with write access sends is delivered unchanged, once and in order to each console its session writes to (one, or all consoles of a broadcast) and to no other; input of read-only clients is discarded. This holds for all byte values including 0xFF (quoted as the transport requires), every segmentation, short or refused writes and one stalled or disconnected broadcast member.",
 ["inputs", "schedules", "fault_sequences"], "all inputs, segmentations, device transports, session kinds", "A test types a few printable bytes in one piece.",
 [OBJ, ESC, TEL], [("input fan-out", f"{OBJ}:read_from_obj"), ("0xFF unquoting", f"{ESC}:process_client_escapes"), ("0xFF quoting for telnet", f"{TEL}:write_telnet_data")])
prop("C04", "A console has one writer unless clients force or join; rights and notices agree",
 "A request for write access to a console that has a writer is refused as busy unless it forces or joins; forcing disconnects every existing writer before the new one is admitted, joining keeps them, and monitoring neither needs nor takes write access. Changing a session between read-only and read-write follows the same force/join rules. At every moment exactly the sessions so admitted can write and exactly the attached ones receive, and everyone attached gets exactly the documented notice of each join, steal and departure.",
 ["histories", "inputs"], "all sequences of connect, force, join, monitor, broadcast, toggle and close by several clients", "The rule relates whole histories of several clients; a test exercises a handful.",
 [SOCK, OBJ, ESC], [("busy check", f"{SOCK}:find_busy_consoles"), ("linking and stealing", f"{OBJ}:link_objs"), ("toggling", f"{ESC}:perform_console_writer_linkage")])
prop("C05", "Concurrent client arrivals never corrupt, crash or hang the daemon",
 "However the threads that serve newly arriving clients interleave with each other and with the daemon's main loop (console traffic, other clients leaving, consoles going down, signals), the daemon does not crash, hang or use freed state, every admitted client is served, and every refused or failed one is cleaned up.",
 ["schedules"], "all interleavings of client threads, main loop and events up to a preemption bound", "Race windows between the request threads and the main loop cannot be hit reliably by a test.",
 [SOCK, OBJ, SRV, "src/list.c", "src/tpoll.c"], [("request thread", f"{SOCK}:process_client"), ("main loop", f"{SRV}:mux_io"), ("shared lists", "src/list.c"), ("lock", f"{OBJ}:lock_objs")])
prop("C06", "In-session commands act once and identically under any framing",
 "Each in-session command (break, delete, force, join, monitor, quiet, replay, reset, suspend) a client sends acts exactly once, whatever bytes surround it and however the stream is cut into reads, and never appears as typed data; a break reaches the console in the form of its transport and only if the sender may write. Unknown commands are ignored without affecting the session.",
 ["inputs", "schedules"], "all sequences of commands and data bytes in every segmentation, on each transport", "Tests never cut a command in two; segmentation is chosen by the network.",
 [ESC, "src/common.h"], [("escape parser", f"{ESC}:process_client_escapes"), ("break", f"{ESC}:perform_serial_break")])
prop("C07", "Log replay shows exactly the end of the console's log",
 "A replay request returns, framed by its begin and end records, exactly the last 4096 bytes (or all, if fewer) that were logged for that console, in order, at any moment and for any log history, including wrap-around of the buffer and reopening after errors; without an open log it says so. It never shows another console's data or stale memory.",
 ["histories", "inputs"], "all log histories by size and event", "Buffer positions and reopen histories matter; a test sees one position.",
 [ESC, OBJ], [("replay", f"{ESC}:perform_log_replay"), ("ring buffer", f"{OBJ}:write_obj_data")])
prop("C08", "Sanitized and timestamped logs are independent of how output is chunked",
 "With sanitizing, every logged byte of output is rendered as printable 7-bit text and every line end (CR, LF, and their mixtures with NUL) as one CR LF as documented; with timestamping, exactly the beginning of each logged line carries the time. The resulting log depends only on the output stream, not on how it was split into reads, and nothing is lost however much the data grows; sessions always receive the unprocessed output.",
 ["inputs", "schedules"], "all output strings over byte classes, all segmentations and option combinations", "Line state carried across reads has many corner cases; tests try one string.",
 [LOG], [("line state machine", f"{LOG}:write_log_data"), ("option parsing", f"{LOG}:parse_logfile_opts")])
prop("C09", "Telnet commands are stripped, answered and never leak, in any framing",
 "For a console reached over telnet, commands, option negotiations and subnegotiations from the device never appear in the output and data bytes (including quoted 255) always do, wherever the stream is cut. Options the daemon does not use are refused exactly once per request, it never answers a refusal, and each new connection starts with a clean parser and the same negotiation.",
 ["inputs", "schedules"], "all sequences of telnet items and all byte strings over the special bytes, every segmentation", "Framing-dependent parser state cannot be covered by sample streams.",
 [TEL], [("parser", f"{TEL}:process_telnet_escapes"), ("answers", f"{TEL}:process_telnet_cmd"), ("connection setup", f"{TEL}:connect_telnet_obj")])
prop("C10", "Lost network and socket consoles are retried with bounded backoff and announced",
 "A console behind a network or local socket connection that fails or is lost is retried forever: the interval doubles from its minimum to its fixed maximum (30 min network, 1 min local), starts over only after a connection has been stable, and an attaching client or the appearance of the local socket triggers an attempt at once. Attached clients stay attached, are told exactly once of each loss and each recovery, and no other console is affected.",
 ["fault_sequences", "histories", "schedules"], "all sequences of refusal, slow completion, acceptance, loss, holding times and attaching clients", "Hours of backoff and orders of failures cannot be run in a test.",
 [TEL, UX, "src/inevent.c", "src/tpoll.c"], [("telnet backoff", f"{TEL}:disconnect_telnet_obj"), ("local socket backoff", f"{UX}:disconnect_unixsock_obj"), ("directory watch", "src/inevent.c")])
prop("C11", "Process consoles are respawned with backoff and run in a clean environment",
 "A console backed by a program is running its configured command with exactly the configured arguments whenever possible: when the program exits for any reason it is started again, at once if it had been up for a minute and otherwise after a delay that doubles from one to thirty minutes or when a client attaches. The program is connected to the console by stdin, stdout and stderr, inherits no other descriptors of the daemon, is killed when its console is shut down, and every exited program is reaped.",
 ["fault_sequences", "histories"], "all sequences of exits, exec failures, fork failures, holding times and attaching clients", "Respawn timing, descriptor leaks and unreaped children depend on histories no test runs.",
 [PROC, SRV], [("spawn", f"{PROC}:connect_process_obj"), ("respawn", f"{PROC}:disconnect_process_obj")])
prop("C12", "Serial consoles are opened, configured, written and recovered faithfully",
 "A serial console's device is set to exactly the configured speed, data bits, parity and stop bits in raw mode, locked against other users, restored to its previous settings on shutdown, and reopened after an error or when a client attaches. Users and the log are told when the device is lost and when it is back, invalid option strings are reported, and a device that fails, cannot be opened or is in use affects no other console.",
 ["configurations", "fault_sequences"], "all option strings over the supported values, open failures, hang-ups", "Needs many device states and failures; tests have no serial device.",
 [SER], [("open", f"{SER}:open_serial_obj"), ("options", f"{SER}:parse_serial_opts")])
prop("C13", "Timed work happens when due, never early, lost or in a busy loop",
 "Every scheduled action takes place at its due time, actions due earlier (or together but created earlier) first, a cancelled one never, regardless of how many are pending, how far away they are, in which order they were created and what input arrives meanwhile; waiting for the next one consumes no processor time. Readiness of every descriptor is reported exactly as it is requested, and changes made by another thread take effect without waiting for unrelated activity.",
 ["histories", "schedules"], "all sequences of scheduling, cancelling, waiting and readiness changes up to a depth", "The combinations of deadlines, cancellations and descriptor changes are unbounded.",
 ["src/tpoll.c"], [("waiting", "src/tpoll.c:tpoll"), ("timers", "src/tpoll.c:tpoll_timeout_absolute")])
prop("C14", "A request selects exactly the matching consoles and gets the documented answer",
 "A query, monitor or connect request with any combination of names, shell patterns or regular expressions selects exactly the consoles whose whole names match at least one of them (all for an empty query), each once and in name order; no match, several matches without broadcast, an invalid expression and a busy console are each answered with their own error code and the documented detail, and nothing is changed by a refused request.",
 ["inputs", "configurations"], "all small sets of console names and patterns, all commands and options", "Matching semantics range over all names and patterns.",
 [SOCK, OBJ], [("matching", f"{SOCK}:query_consoles"), ("validation", f"{SOCK}:validate_req"), ("ordering", f"{OBJ}:compare_objs")])
prop("C15", "No client input, however malformed, harms the daemon or other sessions",
 "Whatever bytes a connecting or connected client sends, in whatever pieces, and whenever it stops, closes or resets its connection, the daemon keeps running, leaks no descriptor or memory, and other sessions and consoles continue unaffected; a client that does not complete a valid request gains no access. (The time and memory that evaluating a client's regular expression may take are not covered.)",
 ["inputs", "fault_sequences", "crash_points"], "all requests over a token grammar and all truncation points and endings", "Hostile input and abort points are unbounded.",
 [SOCK, "src/lex.c", "src/util-file.c"], [("greeting", f"{SOCK}:recv_greeting"), ("request", f"{SOCK}:recv_req"), ("tokenizer", "src/lex.c")])
prop("C16", "A departing client is fully cleaned up at any point of its session",
 "When a client leaves in any state (before, during or after its request; reading, writing, broadcasting, suspended, forced out; with data pending in either direction; by close, half-close or reset), its connection is closed, its write access is released and announced, and nothing of it remains, so that the next client finds the console free.",
 ["crash_points", "histories"], "all departure points, kinds and session states", "Departure can strike at any point; tests close idle sessions.",
 [OBJ, SOCK], [("shutdown", f"{OBJ}:shutdown_obj"), ("unlink", f"{OBJ}:unlink_obj"), ("end of data", f"{OBJ}:write_to_obj")])
prop("C17", "Signals are acted on: termination is clean, reconfiguration reopens logs",
 "A termination signal at any moment once it is started makes the daemon exit at once with status 0 after closing its connections, removing its pid file and, when running in the background, ending its programs; a reconfiguration signal at any moment reopens the log files (the daemon's own included) without loss of data or disturbing sessions; other signals such as a broken pipe or an exiting child disturb nothing. No signal is lost or waits for unrelated activity.",
 ["schedules", "histories"], "all signal arrival points and orders", "Signal timing relative to the main loop cannot be controlled in a test.",
 [SRV], [("handlers", f"{SRV}:exit_handler"), ("main loop", f"{SRV}:mux_io")])
prop("C18", "The configuration file means exactly what its documentation says",
 "Every valid configuration yields exactly the consoles, devices, logs and options it describes, with defaults from global directives and overrides per console; an invalid directive or value is reported with its line and does not alter the meaning of the others, duplicates are rejected, and the daemon starts only if at least one console remains.",
 ["configurations", "inputs"], "all directive sequences over a grammar of valid and invalid directives", "The grammar's combinations are unbounded.",
 [CONF, "src/lex.c"], [("parser", f"{CONF}:process_config"), ("directives", f"{CONF}:parse_console_directive")])
prop("C20", "Reset commands run at most once at a time, are bounded in time and reported",
 "A reset request by a writer runs the configured command once per console it writes to, with the console's name substituted, in its own process group with no terminal and no inherited sessions; while it runs further requests for that console are refused with a notice, a command exceeding one minute is killed with its whole group, and viewers are told. Without write access or a configured command nothing is run.",
 ["histories", "fault_sequences"], "all sequences of reset requests, command durations, failures and client kinds", "Needs long commands, several clients and failures.",
 [ESC], [("reset", f"{ESC}:perform_reset"), ("time limit", f"{ESC}:kill_reset_cmd")])
prop("C21", "Lists stay consistent under any mix of operations and live iterators",
 "For any sequence of insertions, removals, searches, sorts and iterations with several live iterators, a list contains exactly what was put in and not taken out, in order; every iterator visits each remaining element once and never a removed one; destroyed elements are freed once.",
 ["histories"], "all operation sequences up to a depth with several iterators", "Iterator validity depends on operation orders.",
 ["src/list.c"], [("iterators", "src/list.c:list_node_destroy"), ("insertion", "src/list.c:list_node_create")])
prop("C22", "Quoting and tokenizing round-trip and never misread protocol text",
 "Any name or message of 7-bit characters survives being quoted, transmitted and tokenized unchanged; the tokenizer splits any text into words, quoted strings, numbers and punctuation as documented, whatever bytes it contains, counting its lines, and never reads beyond its end. Device strings are split into (quoted) words, refusing unterminated quotes, and names substituted in format strings, exactly, truncated only as reported and within their buffers.",
 ["inputs"], "all strings up to a length over an alphabet of special characters", "Quoting corner cases are combinatorial.",
 ["src/lex.c", "src/util-str.c"], [("tokenizer", "src/lex.c:lex_next"), ("quoting", "src/lex.c:lex_encode")])
prop("C23", "The client program relays both directions faithfully and recognises its escapes",
 "The client shows exactly the console bytes it receives and sends exactly the bytes typed, quoting 0xFF, except that the configured escape character (one that is not itself a command letter) followed by a command letter, however the keystrokes are split, performs that command once, and the escape typed twice sends it once. In read-only and broadcast sessions only the commands allowed there act; keys typed ahead of a suspension escape are discarded.",
 ["inputs", "schedules"], "all keystroke sequences over an alphabet, every segmentation, session kinds", "Keystroke segmentation and escape state are combinatorial.",
 ["src/client-tty.c", "src/client-sock.c"], [("typed input", "src/client-tty.c:read_from_stdin"), ("escapes", "src/client-tty.c:process_escape"), ("output", "src/client-tty.c:write_to_stdout")])
prop("C24", "The client always leaves the terminal as it found it",
 "However a client session ends (escape, end of input, server closing, error, signal, refusal), the terminal's settings are those from before the session; while suspended by its escape they are the original ones and on resumption raw mode and the display continue without loss. The exit status reflects success or failure.",
 ["crash_points", "histories"], "all ways and moments of ending or suspending", "Abnormal endings at each moment are not testable with pipes.",
 ["src/client-tty.c"], [("raw mode", "src/client-tty.c:connect_console"), ("suspend", "src/client-tty.c:perform_suspend_esc")])
prop("C26", "Periodic timestamps are written to every log at the configured instants",
 "With a timestamp interval configured, every console log gets one timestamp record, bearing its time, at the first multiple of the interval since the local midnight before startup and then exactly one every interval, without drift, for any start time and interval from a minute to a year. Nothing else that happens (output, reconfiguration, lost consoles, failing logs) makes a record missing, repeated or mixed into output, and waiting for the next one consumes no processor time; without an interval there are none.",
 ["configurations", "histories"], "all intervals and start times over a set of boundary values", "Days must pass.",
 [SRV, "src/tpoll.c"], [("schedule", f"{SRV}:schedule_timestamp"), ("timer", "src/tpoll.c")])
prop("C27", "A stalled client or console delays nobody and loses only its oldest data",
 "A receiver (client, console or log) that does not accept data for any length of time never delays or affects others; for it the daemon keeps the most recent 16 KB, discarding the oldest, and delivers them in order once it accepts data again. A client that has suspended its output is treated the same.",
 ["schedules", "fault_sequences", "inputs"], "all burst sizes and stall patterns", "Overflow positions and stall patterns are combinatorial.",
 [OBJ], [("overwrite", f"{OBJ}:write_obj_data"), ("suspend", f"{ESC}:perform_suspend")])
prop("C28", "IPMI consoles are connected, retried, and relayed like any other console",
 "An IPMI console's session is opened with the configured credentials, announced when established, relayed faithfully, and after failure, timeout or loss retried with an interval doubling from one to thirty minutes or when a client attaches; a completion arriving late or from an abandoned session is harmless.",
 ["schedules", "fault_sequences", "configurations"], "all orders of completion, failure, timeout, loss and attachment", "Asynchronous completion races cannot be timed in a test.",
 [IPMI], [("session", f"{IPMI}:connect_ipmi_obj"), ("completion", f"{IPMI}:complete_pending_connect")])
prop("C31", "Only permitted peers are served",
 "With loopback configured the daemon accepts connections only on the loopback address; with access control configured, a connection is served if and only if the access rules allow the peer, and a rejected peer sees no protocol data and changes nothing.",
 ["configurations", "inputs"], "all combinations of settings and peers", "Needs many peers and rule outcomes.",
 [SRV, SOCK], [("listen address", f"{SRV}:create_listen_socket"), ("access rules", f"{SOCK}:resolve_addr")])
prop("C32", "Starting and stopping the daemon reports success or failure truthfully",
 "The command that starts the daemon exits with success only when the daemon is up and serving, and otherwise with failure and a message; a second daemon for the same configuration refuses to start; the pid file names the running daemon and is removed when it ends; the options to query, signal or stop a running daemon act on exactly that daemon (found by its lock on the configuration or by the pid file given with -P) and report whether one was found.",
 ["crash_points", "configurations"], "all startup failure points and configurations", "Each failure point of startup would need its own fault.",
 [SRV, CONF], [("daemonize", f"{SRV}:begin_daemonize"), ("pid file", f"{CONF}:process_cmdline")])
prop("C35", "The client turns options and settings into exactly the intended request",
 "Command line options, environment and files select the daemon, session kind, log file and consoles as documented, with the command line taking precedence; the resulting request carries every name and option intact, an invalid option is refused, and the daemon's errors are reported with a failing exit status.",
 ["configurations", "inputs"], "all option combinations and names over special characters", "Option and quoting combinations are unbounded.",
 ["src/client-conf.c", "src/client-sock.c"], [("options", "src/client-conf.c:process_client_cmd_line"), ("request", "src/client-sock.c:send_req")])
prop("C36", "A failing system call costs at most what it was made for",
 "While the daemon runs, an operation that the operating system refuses (no descriptor, process, thread, disk space or watch left; a device, file, socket or connection that fails when it is opened, configured, locked, read or written) affects at most the console, log or client it was made for: the daemon does not end or hang, the other consoles, logs and clients are served without interruption, nothing is leaked, and once the shortage is over the affected console and log work again by their usual rules.",
 ["fault_sequences", "histories"], "every single (thorough: every two) failing calls during all kinds of activity on all transports, and lasting shortages", "A test cannot make an arbitrary system call of a running daemon fail.",
 [SRV, OBJ, SOCK, LOG, TEL, PROC, UX, IPMI, SER, "src/inevent.c", "src/common.c"], [("fatal errors", "src/log.c:log_err"), ("accepting clients", f"{SRV}:accept_client"), ("opening consoles", f"{OBJ}:reopen_obj")])

prop("C37", "Names and messages of any length are kept whole or cut cleanly",
 "Console names, user and terminal names, device, host and program names, and the messages made of them may be of any length. A name counts up to its 1023rd byte, alike in the configuration and in requests, and is never confused with another by being cut further; a device name that the system cannot represent is refused when the daemon starts. A notice of up to 1020 bytes reaches the clients and the console's log whole; a longer one may be cut at its end but remains one line, and the daemon's own log likewise keeps one line per message. An answer is given whole or not at all. No length corrupts data, memory, other sessions or the following messages, in the daemon or in the client program.",
 ["inputs", "configurations"], "every length around each buffer size, in every kind of message, on every transport, in the daemon and the client", "Tests use short names; truncation happens only at particular lengths of particular messages.",
 [OBJ, SOCK, ESC, LOG, SRV, "src/log.c", "src/util-str.c", "src/client-tty.c"], [("notices", f"{OBJ}:write_notify_msg"), ("arrival and departure", f"{OBJ}:link_objs"), ("state of the console", f"{SOCK}:check_console_state"), ("answers", f"{SOCK}:format_rsp"), ("daemon log", "src/log.c:log_aux"), ("client messages", "src/client-tty.c:locally_display_status")])

TECH = "exhaustive stateless model checking of the compiled /repo sources under a simulated kernel, clock and scheduler, against a reference model"
NOTE = "Bounded: every combination of the choice points (inputs, segmentations, event orders, thread switches, faults) of each scenario is executed on the real code; larger sizes are not explored."
def main():
    have = set()
    for f in glob.glob(H + "/sim/scen/*.cc"):
        have |= set(re.findall(r"^SCENARIO\(\s*\w+\s*,\s*\"(\w+)\"", open(f).read(), re.M)) | set(re.findall(r"SCENARIO\(\w+##n, \"(\w+)\"", open(f).read()))
    ps = [p for p in P]
    with open(H + "/properties.jsonl", "w") as o:
        for p in ps: o.write(json.dumps(p["j"]) + "\n"); assert len(p["j"]["title"]) <= 80, p["j"]["id"]
    checks, na = [], []
    for p in ps:
        i = p["j"]["id"]
        if p["na"] or i not in have: na.append({"property": i, "reason": p["na"] or "no check built yet"}); continue
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": p["tech"] or TECH, "level": "model_checking", "level_note": p["note"] or NOTE})
    json.dump({"version": 1, "setup_cmd": "python3 --version", "checks": checks, "not_applicable": na}, open(H + "/MANIFEST.json", "w"), indent=1)
    print(len(checks), "checks;", "without:", [x["property"] for x in na])
main()
