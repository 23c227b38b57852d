#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable in review)."""
import json, pathlib

P = []

def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

LZ = "cfg(plusendi_verif=\"lzhuf\"): verif::lzhuf::{compress,decompress}"
TR = "cfg(plusendi_verif=\"transfer\"): verif::transfer::transfer"

prop("C01", "Message compression is lossless",
     "Compressing any message body and decompressing the result with the body's length yields exactly the original bytes. "
     "This holds for every length (the empty body included), for every byte value, when repeats lie anywhere in the 2 KiB history window, "
     "and for bodies long or skewed enough that the adaptive code table is rebuilt or reaches its longest codes. Compression always terminates without panicking.",
     ["inputs"], "all message bodies: all strings over small alphabets up to a length bound, all repeat distances and lengths, all continuations after long prefixes that fill the window, rebuild the table or deepen the code",
     "The tests compress four fixed inputs of at most 291 bytes: no repeat farther than 256 bytes, no empty input, no table rebuild (needs >32k symbols), no code longer than 15 bits.",
     ["src/lzhuf.rs"], [("encoder match search and token emission", "src/lzhuf.rs Encoder"), ("decoder", "src/lzhuf.rs Decoder"), ("adaptive Huffman tree", "src/lzhuf.rs LzHufState")],
     ["bytes returned by decompression of the compressed form"],
     [("frequency table / tree", "adaptive code shared by both directions", "src/lzhuf.rs"), ("text window", "last 2048 bytes", "src/lzhuf.rs")], LZ)

prop("C02", "Decompression follows the LZHUF stream format",
     "Any well-formed LZHUF stream produced by another station - any sequence of literals and back-references with every distance 1..2048 and every length 3..60, "
     "including references into the blank initial window, overlapping references and references after the window has wrapped or the code table has been rebuilt - "
     "decompresses to exactly the bytes the format defines. (Distances of 2049 and more, which the format can spell but its window cannot hold, are not defined.)",
     ["inputs", "histories"], "all token sequences up to a depth, and every single token (all 118,784 distance/length pairs, all literals) after each of a set of long prefixes",
     "The decoder tests cover four streams; none has a distance above 256, and no stream is checked against an independent definition of the format.",
     ["src/lzhuf.rs"], [("symbol decoding", "src/lzhuf.rs Decoder::decode_char"), ("distance decoding", "src/lzhuf.rs Decoder::decode_position, DECODE_CODE, DECODE_LEN"), ("tree rebuild", "src/lzhuf.rs LzHufState::reconstruct")],
     ["bytes returned by decompression"], [("text window", "last 2048 bytes", "src/lzhuf.rs")], LZ)

prop("C03", "Compressed output is readable by other LZHUF stations",
     "Every compressed body is a well-formed LZHUF stream that an independent decoder turns back into the original body, using only back-references to bytes already sent (or to the blank initial window). "
     "The stream ends with the last token, padded with zero bits to a whole byte: nothing is missing and no whole byte is surplus.",
     ["inputs"], "all message bodies, explored as for C01",
     "Tests compare four outputs with recorded ones; an encoder and decoder that share a mistake pass any round-trip test.",
     ["src/lzhuf.rs"], [("bit packing", "src/lzhuf.rs Bitbuffer"), ("token emission", "src/lzhuf.rs Encoder::encode_char/encode_position")],
     ["compressed bytes, decoded by an independent decoder"], [], LZ)

prop("C04", "Decompressing hostile data never panics or hangs",
     "For every compressed byte sequence and every declared size, decompression terminates without panicking and either returns exactly the declared number of bytes or reports an error. "
     "A stream that ends before the declared number of bytes has been produced is reported as an error, never as a (short or padded) message.",
     ["inputs"], "all short byte strings x declared sizes, and all truncations, single-bit flips and size misdeclarations of valid streams",
     "Tests only decode valid streams with the right size.",
     ["src/lzhuf.rs", "src/fbb.rs"], [("end-of-input handling", "src/lzhuf.rs Biterator, Decoder::decode")],
     ["return value of decompression, with overflow and bounds checks on"], [], LZ)

prop("C05", "Transfer checksum is CRC-16/XMODEM",
     "The 16-bit checksum computed over any byte sequence equals CRC-16 with polynomial 0x1021, initial value 0, no reflection and no final inversion, as every FBB/Winlink peer computes it.",
     ["inputs"], "all (register state, input byte) pairs: all 16,777,216 three-byte inputs, hence all longer ones by induction on the register",
     "One test checks one 225-byte input; a wrong table entry that input does not reach is invisible.",
     ["src/crc16.rs"], [("table-driven update", "src/crc16.rs")], ["checksum value"], [("CRC register", "16-bit state", "src/crc16.rs")],
     "cfg(plusendi_verif=\"crc16\")")

prop("C06", "A received transfer yields exactly the message that was framed",
     "For every title, resume offset, compressed body and division of that body into blocks of 1 to 256 bytes, a well-formed B2 transfer is accepted and yields that title, that offset and the body; "
     "how the body was divided into blocks makes no difference. Bytes that follow the transfer are left unconsumed and do not affect it.",
     ["inputs"], "all titles and offsets in small domains incl. the limits, all divisions of short bodies into blocks, all boundary divisions (1, 255, 256 byte blocks) of longer ones, all short trailers",
     "Tests parse two captured transfers, with one or two blocks each and nothing following.",
     ["src/fbb.rs"], [("header parsing", "src/fbb.rs header"), ("block parsing", "src/fbb.rs data_blocks, data_block"), ("body assembly", "src/fbb.rs CompressedMessage::decompress")],
     ["title, offset and decompressed body", "bytes left over"], [], TR)

prop("C07", "Corrupted or shortened transfers are never accepted",
     "A transfer in which any one byte of the protected content (compressed data, recorded size, CRC or checksum) has been changed is never accepted, nor is one whose blocks have been dropped, duplicated or exchanged so that the content differs, nor any proper prefix of a transfer. "
     "Acceptance requires both the CRC and the checksum to match.",
     ["inputs", "fault_sequences"], "every byte position x every wrong value of a set of transfers; every bit-pair flip of short ones; every block drop/duplicate/swap; every truncation; every compensated change that satisfies only one of the two checks",
     "No test feeds a corrupted transfer.",
     ["src/fbb.rs", "src/crc16.rs"], [("verify closure over CRC and checksum", "src/fbb.rs b2_message_block")], ["accepted / not accepted"], [], TR)

prop("C08", "Partial transfers ask for more; malformed ones are refused",
     "While a valid transfer is arriving, every proper prefix is reported as incomplete and never asks for more bytes than the transfer still lacks. "
     "A transfer that can no longer become valid because a completely received part is malformed (length, header text, offset, block marker, checks) is refused, not reported as incomplete; arbitrary bytes never cause a panic. (Where the format leaves it open - a first block too short to hold the CRC and the size, a transfer without blocks - either verdict will do until the end marker has been seen.)",
     ["inputs"], "all byte strings up to a length bound over an alphabet of the framing bytes, and all prefixes and single-byte substitutions of valid transfers, against an independent reference classifier",
     "Tests check two truncation points of one capture.",
     ["src/fbb.rs"], [("streaming parsers", "src/fbb.rs")], ["complete / incomplete(n) / invalid verdict"], [], TR)

prop("C09", "Proposals and answers are decoded field by field",
     "Every well-formed FBB proposal (FA/FB), Winlink proposal (FC) and answer line (FS) is decoded to exactly the fields it carries - message type, sender, BBS, recipient, message id, sizes - in their protocol order, "
     "and every answer symbol to its documented meaning (accept + Y H, resume ! A with offset, defer = L, reject - N R E), one answer per proposal in order. Lines with missing, overlong or non-numeric fields are refused rather than misread.",
     ["inputs"], "all short lines over the grammar's alphabet, all combinations of field-length boundaries, and all answer sequences up to 5 answers, against an independent reference grammar",
     "There is no test of proposals or answers.",
     ["src/fbb.rs"], [("proposal parsers", "src/fbb.rs fbb_proposal, winlink_proposal"), ("answer parser", "src/fbb.rs selection")], ["decoded fields"], [], "cfg(plusendi_verif=\"proposal\")")

prop("C10", "Station ids are whole, normalized callsigns",
     "A text is accepted as a station id exactly when all of it is a callsign (optional leading digit, letters, digits, then a letter followed by letters or digits), optionally followed by a hyphen and a one- or two-character SSID; nothing before, after or around it is tolerated. "
     "An accepted id reads as its upper-case form, equals and hashes like every other spelling of the same callsign, and normalizing again changes nothing.",
     ["inputs"], "all strings up to a length bound over an alphabet with upper/lower letters, digits, hyphen, space, CR, LF and non-ASCII, against an independent recognizer",
     "Two tests check one callsign in two spellings.",
     ["src/types.rs"], [("station pattern and normalizer", "src/types.rs")], ["StationId::new / StationIdRef::from_str and the accepted text"], [])

prop("C11", "Each modem command is one well-formed line",
     "Every command and every combination of its parameters is written to the modem as exactly one line in the modem's vocabulary: MYCALL with all callsigns, COMPRESSION OFF/TEXT/FILES, BW500/2300/2750, LISTEN ON/OFF/CQ, CONNECT origin target with zero, one or two digipeaters after a separate 'via' word, DISCONNECT, ABORT. "
     "Commands sent in sequence appear on the control connection whole, in order, each ended by exactly one carriage return, however few bytes each write accepts.",
     ["inputs", "schedules"], "all commands x parameter values in small domains; all sequences of the sendable commands up to a depth under all short-write patterns up to a bound",
     "There is no test of command rendering or of the control connection.",
     ["src/modem/vara.rs"], [("Display impls", "src/modem/vara.rs Command, ConnectPath, ..."), ("command writing", "src/modem/vara.rs manage_modem_thread")], ["bytes on the control connection", "Display output"], [])

prop("C12", "Every command gets its own answer",
     "The modem's OK/WRONG answers are credited to commands strictly in the order the commands were written to the control connection: a caller succeeds exactly when the modem answered OK to that caller's command. "
     "This holds for concurrent callers, for callers that give up waiting, with status reports interleaved, and however the answers are split or batched in transit. An unintelligible line in the stream ends the link, but not before the answers ahead of it have been credited.",
     ["schedules", "histories"], "2-3 concurrent callers x answer patterns x cancellation points x segmentations, all interleavings up to a preemption bound",
     "There is no test of the control connection.",
     ["src/modem/vara.rs"], [("reply queue", "src/modem/vara.rs manage_modem_thread"), ("request/reply channel", "src/modem/vara.rs VaraTnc::send_command")], ["result of each command call versus the modem's answer to that command's line"],
     [("reply queue", "callers waiting for an answer, oldest first", "src/modem/vara.rs")])

prop("C13", "Reported modem status mirrors the control stream",
     "After the modem has reported any sequence of status lines (heartbeat, buffer level, busy state, PTT, registered callsigns), the status a user reads equals the last report of each kind, with registered callsigns accumulating. "
     "The result does not depend on how the bytes were segmented in transit or on log verbosity, and a line outside the vocabulary never changes any status or answers a command.",
     ["inputs", "schedules"], "all status line sequences up to a depth x all split points of the byte stream; all single-byte mutations of vocabulary lines",
     "There is no test of status handling.",
     ["src/modem/vara.rs", "src/types.rs"], [("line framing and retention", "src/modem/vara.rs do_a_thing"), ("status parsers", "src/modem/vara.rs update"), ("watch channels", "src/modem/vara.rs channel")], ["VaraTnc status getters, subscribed PTT channel"],
     [("receive buffer", "unconsumed bytes of the control stream", "src/modem/vara.rs")])

prop("C14", "Losing the modem's control connection never hangs or spins",
     "If the modem closes or resets the control connection, or sends something unintelligible, at any point of any history, every command still waiting for an answer and every later command fails with an error (answers that arrived just before the loss may still count), a connect in progress fails, and an open session's reads end and its writes fail. "
     "Nothing waits forever, no task loops without making progress, and nothing panics.",
     ["crash_points", "schedules", "fault_sequences"], "every point of a set of session histories x {orderly close, reset, garbage line} x interleavings up to a preemption bound",
     "There is no test of the control connection.",
     ["src/modem/vara.rs"], [("control loop", "src/modem/vara.rs manage_modem_thread, do_a_thing"), ("session watcher", "src/modem/vara.rs VaraTnc::connect")], ["results of calls, termination and progress of all tasks"])

prop("C15", "Connect reports the outcome of this attempt",
     "A connect call returns a session exactly when the modem accepts the request and then reports that this attempt is connected; it fails when the request is refused or the attempt ends disconnected. "
     "Outcomes of earlier sessions - however they ended, and however late their disconnection is reported before the modem takes the new request - and unrelated status reports (PENDING and CANCELPENDING included) never decide it. An attempt that is reported connected and disconnected again before the caller runs may come out either way. (One caller connects at a time and waits for the outcome; incoming calls nobody asked for are out of scope.)",
     ["histories", "schedules"], "all sequences of up to 3 connection attempts x endings (remote, local, drop, refused, failed) x chatter x segmentation, all interleavings up to a preemption bound",
     "There is no test of connect; reconnecting needs a multi-step history.",
     ["src/modem/vara.rs", "src/types.rs"], [("connection state watch", "src/modem/vara.rs VaraTnc::connect")], ["result of connect versus the modem's reports for that attempt"],
     [("connection state", "last reported connection state and whether it has been seen", "src/modem/vara.rs")])

prop("C16", "A session delivers all its bytes, then a stable end",
     "Bytes a session reads are exactly those the modem delivered on the data connection, in order and without loss, duplication or invention, and bytes it writes reach the data connection likewise. "
     "When the remote end disconnects, everything already delivered can still be read, after which every read reports end of stream and every write, flush or shutdown fails with a connection-aborted error, however often it is repeated; a waiting reader is woken.",
     ["schedules", "histories"], "all interleavings of data delivery, disconnect report and reads/writes up to a preemption bound, x read sizes x short writes x repeated calls after the end",
     "There is no test of the session stream.",
     ["src/modem/vara.rs"], [("AsyncRead/AsyncWrite for the stream", "src/modem/vara.rs VaraStream"), ("session watcher", "src/modem/vara.rs VaraTnc::connect")], ["bytes and results of reads and writes"],
     [("remote disconnect notice", "one-shot notice that the remote end left", "src/modem/vara.rs")])

prop("C17", "Every session is torn down once, and only itself",
     "A session that the local side ends - by disconnecting, aborting or just dropping it - makes the modem receive exactly one teardown command (DISCONNECT, or ABORT for abort), even if the modem handle is dropped right after; dropping a session that the remote side is already known to have ended causes none. "
     "That command always reaches the modem before any later connect request, so it can never hit a later session. (Explicitly disconnecting or aborting a session the remote side has ended may or may not send the command; if the modem answers the command with WRONG, or the caller gives up waiting for the answer, one DISCONNECT may follow.)",
     ["schedules", "histories"], "all histories of up to 3 sessions x endings, incl. remote end racing local end, all interleavings up to a preemption bound",
     "There is no test of teardown; the harmful order needs a particular interleaving of a background task with the next connect.",
     ["src/modem/vara.rs"], [("drop guard", "src/modem/vara.rs VaraStream drop"), ("background disconnect task", "src/modem/vara.rs VaraTnc::connect")], ["order of lines on the control connection"])

prop("C18", "Dropping the modem handle shuts the link down cleanly",
     "After the modem handle and all sessions are gone, commands already accepted are still written, the control connection is closed once their answers have arrived, and the background task ends. "
     "While answers are outstanding it waits without blocking or starving other tasks.",
     ["schedules", "histories"], "all prefixes of command histories with abandoned callers x drop points x answer timing, all interleavings up to a preemption bound",
     "There is no test of shutdown; outstanding answers at drop time need an abandoned call.",
     ["src/modem/vara.rs"], [("drain loop", "src/modem/vara.rs manage_modem_thread")], ["closing of the control connection, progress of other tasks"])

prop("C19", "Rig commands are delivered whole and in order, whatever the rig says",
     "Every transmit/receive command accepted by the rig task is written to the rig exactly once, in order, as TX; or RX;, however few bytes each write accepts and whatever bytes the rig sends back in whatever segmentation (empty responses and non-text bytes included). "
     "The task ends when its command channel is closed, after writing all accepted commands; it ends with an error when the rig hangs up or fails, and never spins or panics.",
     ["schedules", "inputs", "fault_sequences"], "command sequences up to a depth x rig byte strings over a small alphabet x segmentations x short writes x hang-up points, all interleavings up to a preemption bound",
     "There is no test of the rig task.",
     ["src/rig/elecraft/kx3.rs"], [("rig loop", "src/rig/elecraft/kx3.rs manage_rig_thread")], ["bytes written to the rig, termination and result of the task"],
     [("receive buffer", "unconsumed bytes from the rig", "src/rig/elecraft/kx3.rs")])

prop("C20", "The rig ends up in the transmit state the modem last asked for",
     "In the running program, after any sequence of PTT ON / PTT OFF reports, however fast and however interleaved with other traffic, the rig's last received command matches the last report, and its commands follow the order of the reports: each TX or RX stands for a report of that kind, later reports for later commands, never an earlier report again once a later one was acted on. "
     "If the modem's control connection is lost while the rig is transmitting, or the program ends by itself then, for whatever reason, the rig is switched back to receive.",
     ["schedules", "fault_sequences"], "all PTT sequences up to a depth at every phase of a session, x modem loss points, all interleavings up to a preemption bound, on the whole program",
     "There is no test of the program or of rig control; bursts that outrun the bridge need particular schedules.",
     ["src/main.rs", "src/modem/vara.rs", "src/rig/elecraft/kx3.rs"], [("PTT bridge task", "src/main.rs"), ("PTT watch", "src/modem/vara.rs")], ["bytes on the rig's serial line"])

prop("C21", "The program shows the remote station's text and answers its prompt",
     "The program sets up callsign, compression and bandwidth, connects to the requested station, prints every line of the remote station once and in order regardless of segmentation and blank lines, and sends its identification line and FF only after the remote prompt and the operator's go-ahead. "
     "When the remote end disconnects or the modem refuses or goes away it ends: on its own, or where it is waiting for a line of the operator, at that line or the end of the operator's input at the latest. It never hangs otherwise, spins or panics. "
     "It reports success after an exchange that the remote station ended once it had been answered, and failure if there was no session (the modem refuses or cannot be reached, the call is not answered) or the remote station leaves before its prompt. "
     "If its standard output cannot be written to any more, it ends the session and reports failure. "
     "(Text after the prompt that the remote station sends and leaves without having been answered may stay unprinted.)",
     ["schedules", "inputs", "fault_sequences"], "remote transcripts over a small line alphabet x split points x disconnect/refusal points, all interleavings up to a preemption bound, on the whole program",
     "There is no test of the program.",
     ["src/main.rs", "src/modem/vara.rs"], [("session loop", "src/main.rs")], ["standard output, control and data connections, exit"])

prop("C22", "Logging never changes behaviour",
     "With logging at its most verbose, every input, status stream, rig response and transfer (non-text bytes, text split inside a character, and corrupted transfers included) has exactly the outcome it has with logging off; in particular nothing panics because it is being logged.",
     ["configurations", "inputs"], "the explorations of the parsers, status stream, rig and program repeated with every log record formatted",
     "Tests run with fixed logging and valid inputs; log arguments are evaluated only when enabled.",
     ["src/fbb.rs", "src/modem/vara.rs", "src/rig/elecraft/kx3.rs", "src/main.rs"], [("trace/warn arguments", "src/modem/vara.rs, src/rig/elecraft/kx3.rs, src/fbb.rs, src/main.rs")], ["outcomes with and without logging"], [], TR)

prop("C23", "The modem is reached at the configured ports",
     "Building a modem connects the control connection to the configured host and control port and the data connection to the configured data port, or to the control port plus one if none is configured. "
     "A control port of 65535 without a data port is refused without connecting; if either connection is refused, building fails and leaves no connection open.",
     ["configurations"], "all 65535 control ports x {no data port, data port}, hosts, refusal patterns",
     "There is no test of the builder.",
     ["src/modem/vara.rs"], [("builder", "src/modem/vara.rs VaraTncBuilder")], ["addresses connected to"])

prop("C24", "The command line decides who is contacted, and how",
     "The program contacts the modem at exactly the address, control port and data port given (127.0.0.1, 8300 and the control port plus one where not given) and the rig at exactly the given line and speed, and gives the modem exactly the own and target stations given, in upper case. "
     "A command line that lacks the target, the own station, the rig line or its speed, or has a station, address, port, speed or log filter that is not valid, is refused with a failure (not a panic) before anything is contacted; asking for help or the version contacts nobody and succeeds.",
     ["configurations", "inputs"], "all combinations of addresses, boundary ports, stations, lines and speeds in all option styles; all single omissions and all single invalid values of an alphabet",
     "No test runs the program.",
     ["src/main.rs", "src/types.rs", "src/modem/vara.rs"], [("options", "src/main.rs Opt"), ("builder", "src/modem/vara.rs VaraTncBuilder"), ("station parser", "src/types.rs StationId")],
     ["addresses and serial lines contacted, lines on the control connection, exit"])

prop("C25", "Sessions on one modem are kept apart",
     "However many sessions are held one after another on the same modem, and whatever else was done in between (commands, refused or failed attempts), each is as good as the first: it reads exactly the bytes delivered in it, to its own end, and never any that an earlier session left unread; what it writes reaches the data connection, once and in order. "
     "Ending, shutting down or dropping a session, by either side, takes nothing away from the sessions that follow.",
     ["histories", "schedules"], "all histories of up to four steps of a user followed by a session with traffic, all pairs and many triples of sessions x what each reads, writes, shuts down and leaves unread x how it ends, with interleavings up to a preemption bound",
     "There is no test of a session; leftovers of one session only show in a later one.",
     ["src/modem/vara.rs"], [("session start", "src/modem/vara.rs VaraTnc::connect"), ("stream on the shared data connection", "src/modem/vara.rs VaraStream")], ["bytes read and written by each session"],
     [("data connection", "one connection shared by all sessions of a modem", "src/modem/vara.rs VaraTnc")])

prop("C26", "However long the other side takes, it is waited for",
     "Once the connections to modem and rig are open, no operation and no session fails, ends or changes because time passes: answers to commands, the outcome of a connect request, the report that a session is over, the next bytes of a silent session, room for the bytes to be written, a rig that stalls, and the operator's line may come hours late (with nothing else happening on any connection meanwhile, heartbeats of the modem included), and everything turns out as if they had come at once. "
     "Nothing is sent to modem, remote station or rig just because time has passed.",
     ["histories", "schedules"], "the histories of the other link and program checks with every wait of the modem, the remote station, the rig, the user and the operator lasting half a day of virtual time, with interleavings up to a preemption bound",
     "No test waits for anything longer than a moment.",
     ["src/modem/vara.rs", "src/rig/elecraft/kx3.rs", "src/main.rs"], [("waiting for answers and reports", "src/modem/vara.rs VaraTnc::send_command, VaraTnc::connect, manage_modem_link"), ("session stream", "src/modem/vara.rs VaraStream"), ("rig task", "src/rig/elecraft/kx3.rs manage_rig_thread"), ("session of the program", "src/main.rs session")],
     ["results of calls, bytes on all connections, exit of the program"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in P))
print(len(P))
