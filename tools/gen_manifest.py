#!/usr/bin/env python3
"""Writes MANIFEST.json: what is claimed, and how each check decides it."""
import json, pathlib, subprocess

ENUM = "bounded exhaustive enumeration of inputs on the real code against an executable reference model"
notes = {
 "C01": (ENUM, "Every text of the stated spaces is compressed and decompressed by the real code. Texts outside these spaces (long texts that are not of the enumerated shapes) are not covered."),
 "C02": (ENUM, "Streams are written by an independent model of the format; every token sequence, distance, length and code-table state within the bounds is decoded by the real code. Trusts the model, which is pinned by the repository's sample message."),
 "C03": (ENUM, "As C01, with an independent decoder of the format reading the real encoder's output, including end and padding. Trusts the model, which is pinned by the repository's sample message."),
 "C04": (ENUM, "All short byte strings and all truncations, substitutions and size misdeclarations of several streams; overflow checks are on, so silent wrap-around counts as a panic."),
 "C05": (ENUM, "Every (register value, byte) transition is exercised through its 3-byte input, so within the register model the result holds for inputs of any length."),
 "C06": (ENUM, "All divisions of short bodies, all block sizes, all checksum values, all title lengths; the payload comes from the reference compressor."),
 "C07": (ENUM, "All single-byte changes, checksum-preserving pairs, block edits and prefixes of several transfers; all CRC and checksum values. Three or more coordinated changes that defeat both checks are outside what the format can detect."),
 "C08": (ENUM, "All prefixes, all short byte strings over the framing alphabet and all single substitutions, judged by an independent classifier of transfer bytes."),
 "C09": (ENUM, "All answer sequences up to five, all sizes and offsets, all two-field deviations from good lines and all short lines, judged by an independent line reader."),
 "C10": (ENUM, "All short texts over alphabets of letters, digits and separators, all single edits of callsigns, every unicode character in place; judged by an independent recognizer."),
}
SCHED = "bounded exhaustive exploration of task schedules, network timings and environment choices of the real code under a controlled scheduler"
SCHED_NOTE = " The real drivers run on a vendored tokio whose locks, channels and sockets are scheduling points; schedules deviate from run-to-block at most the stated number of times; memory is sequentially consistent and sockets are simulated."
PROG = "bounded exhaustive exploration of task schedules, network timings and environment choices of the whole program, one process per execution, under a controlled scheduler"
PROG_NOTE = " The real src/main.rs is built against the simulated runtime and every execution runs in a process of its own, forked where main first contacts the modem; the rest as for the modem checks."
notes.update({
 "C11": (SCHED, "All operations with the argument alphabets of the check, all short operation sequences, all pairs of concurrent callers." + SCHED_NOTE),
 "C12": (SCHED, "All answer sequences of the stated lengths, all ways of splitting and delaying them, concurrent callers." + SCHED_NOTE),
 "C13": (SCHED, "All report values of the vocabulary, all short report histories and segmentations." + SCHED_NOTE),
 "C14": (SCHED, "Every step of a set of histories x close, reset, garbage; crowds of callers around the loss." + SCHED_NOTE),
 "C15": (SCHED, "All attempts and endings of one, two and three sessions in a row with chatter and late reports." + SCHED_NOTE),
 "C16": (SCHED, "Short byte strings in every division, read sizes, short writes, ends and uses after the end." + SCHED_NOTE),
 "C25": (SCHED, "All histories of up to four steps followed by a session with traffic, pairs and triples of sessions with what each leaves behind." + SCHED_NOTE),
 "C17": (SCHED, "All histories of up to three sessions and endings, ends racing each other, handle dropped or kept." + SCHED_NOTE),
 "C18": (SCHED, "All short command histories with abandoned callers, drop points and answer timings; a clock task shows that nothing else is starved." + SCHED_NOTE),
 "C19": (SCHED, "All short command sequences, rig texts, segmentations, short writes and hang-ups." + SCHED_NOTE),
 "C20": (PROG, "All short PTT sequences at every phase of a session, slow rigs, short writes and modem losses." + PROG_NOTE),
 "C21": (PROG, "All short transcripts cut anywhere, refusals and losses at every step, operators quick and slow." + PROG_NOTE),
 "C24": (PROG, "Combinations of option values and styles, and single faults of the command line." + PROG_NOTE),
 "C22": (ENUM + "; " + SCHED, "Every case runs twice, with every log record formatted and with logging off, and must be the same execution." + SCHED_NOTE),
 "C26": (SCHED, "Histories, series of sessions, losses, silences, stalls and whole-program exchanges in which every wait of the environment lasts 12 hours of virtual time; limits longer than that, and time read other than through tokio, the system clock or a sleeping thread, would not be noticed." + SCHED_NOTE),
 "C23": (SCHED, "All control ports, data ports and refusals at deviation bound 0; a few with schedules." + SCHED_NOTE),
})
root = pathlib.Path(__file__).resolve().parent.parent
ids = [json.loads(l)["id"] for l in (root / "properties.jsonl").read_text().splitlines()]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
manifest = {
 "version": 1,
 "setup_cmd": "./setup",
 "hooks": {
  "guard": "cfg(plusendi_verif)",
  "enable": "RUSTFLAGS='--cfg plusendi_verif --cfg plusendi_verif=\"<group>\"' with group one of crc16, lzhuf, transfer, proposal; the other checks need no hook",
  "source_commits": hooks,
 },
 "checks": [{
   "property": i,
   "quick_cmd": f"./check {i} quick",
   "thorough_cmd": f"./check {i} thorough",
   "technique": notes[i][0],
   "level": "model_checking",
   "level_note": notes[i][1],
 } for i in ids if i in notes],
 "not_applicable": [{"property": i, "reason": "check under construction"} for i in ids if i not in notes],
}
(root / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
