#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below. Usage: tools/manifest.py
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the Go SSA of the current tree, branches and assertions decided by an SMT solver (z3), counterexamples replayed natively"
CONC = TECH + "; interleavings explored by a dynamic partial-order scheduler over the same symbolic states"
COMMON = " Trusted: the engine's semantics of Go SSA (its term simplifier is tested against random evaluation; counterexamples must reproduce natively) and its models of fmt, sync and the like. Bounds are listed in DESIGN.md and in the evidence."
C = {
 "C01": (TECH, "Holds for all values of every primitive, all string lengths up to 32767, byte arrays up to 1 MiB, arrays up to 4 elements (thorough: 24) and of 8 larger sizes up to 1025."),
 "C02": (TECH, "Bytes compared with an independent reference encoder for all values; same bounds as C01, and strings up to 128 KiB for the length error."),
 "C03": (TECH, "Declared sizes compared with bytes written for all values; same bounds as C01."),
 "C04": (TECH, "All 218 message types in every version, all field values, strings up to 32767 and byte arrays up to 1 MiB; every array with one element, and each array in turn null, empty or with 2 elements, and alternating shapes (thorough: 3, and every pair of arrays); each array also with 140 small elements."),
 "C05": (TECH, "All 218 message types in every version; bounds as for C04."),
 "C06": (TECH, "Bytes of all 218 message types in every version compared with a reference built from the committed and reviewed field table spec/messages.json; bounds as for C04. The flexible versions are known findings, and their classic layout is still checked."),
 "C07": (TECH, "Every primitive and every message type on arbitrary bytes up to 64 KiB with symbolic length; arrays unwound to 1 element (thorough: 3) while the allocation bound is checked for every length; structures nested in a message are replaced by their contract, which their own harness establishes."),
 "C08": (TECH, "Every primitive and every message type in every version, valid encodings with symbolic contents cut at a symbolic position; arrays of one element and empty or null in turn (thorough: as in C04)."),
 "C09": (TECH, "Every pair of encoder calls with symbolic arguments on a writer failing at a symbolic write after taking a symbolic part of the data, failing flushes, and the encoder's own errors."),
 "C10": (CONC, "Every interleaving of one writer and one reader (and of Close), buffer sizes 2-4, streams up to 4 symbolic bytes cut into every pair of calls, from every position (thorough: sizes to 6, 8 bytes, 3 calls); sizes up to 1000 with writer and reader by turns."),
 "C11": (CONC, "Every interleaving of one writer, one reader and Close, buffer sizes 2-4, up to 4 bytes (thorough: sizes to 6, 8 bytes, 3 calls); sizes up to 16 with at most 1 preemption (thorough: 2); a state in which a goroutine that must return cannot is the violation."),
 "C12": (TECH, "All 48 APIs, every range the broker can advertise (any two int16 values); any unknown key and range; lists of up to 150 unknown keys; two connections to an address whose broker changes its versions."),
 "C13": (TECH, "All 48 APIs in every supported version, requests with all field values; arrays of one element, then each array in turn null, empty or with 2 or 3 elements; strings of up to 6 bytes (thorough: 20) and byte arrays short."),
 "C14": (TECH, "All 48 APIs in every supported version, responses with all field values and array shapes as in C13; responses that lack their last byte, or are empty."),
 "C15": (CONC, "Every interleaving of two concurrent calls, the connection's two goroutines and the server, answers in either order, with unknown correlation ids and repeated answers in between, symbolic tags, ids and payloads; two concurrent requests larger than the write buffer with at most 2 preemptions (thorough: unbounded); three calls in every schedule that departs at most 3 times from one that runs each goroutine until it blocks; 70 calls at once (thorough: 300), one pending during 300 (3000) others, 130 (3000) stray responses. The ring buffer runs atomically here: C10 and C11 decide its interleavings."),
 "C16": (TECH, "Two pending calls whose responses, with a stray one, are cut at every 0-2 (thorough: 3) places, the connection staying open, ending, or ending together with the last bytes; and byte by byte. Symbolic payloads; three connections one after the other; one schedule (C15 covers the others)."),
 "C17": (CONC, "One call with the connection lost before the request or after each number of bytes of the response (end of stream, read error), failed and blocked writes, Close at every moment: every interleaving. Two calls: at most 2 preemptions (thorough: 4); two calls, two Closes and the loss together: every schedule with at most 2 (thorough: 3) departures from one that runs each goroutine until it blocks. 130 (thorough: 1100) pending, later or undecodable calls. A state in which a call or Close cannot return is the violation."),
 "C18": (TECH, "Responses with a string and a byte array of up to 6 (thorough: 12) symbolic bytes, followed by another response and a stray one of any such lengths; byte arrays of 5 larger sizes up to above the internal buffers (thorough: 7); up to two connections, closed at any point in between; one schedule."),
 "C19": (TECH, "Any 0-14 (thorough: 26) bytes from the broker, any frame length, any length under 4, any length not followed by its bytes; responses of 29 sizes (thorough: 120) around and above the internal buffers, with the buffers' constants divided by 100000. Message bodies: C07."),
 "C20": (TECH, "Clusters of 0-2 (thorough: 3) brokers with any node ids, the bootstrap server one of them or not; up to 2 topics with up to 2 partitions each, whose names of 1-2 bytes, indices and leaders are symbolic; every version for controller and coordinator, the lowest and highest for leaders; any coordinator error; hosts of up to 3 (thorough: 6) symbolic bytes and some IPv6 ones; clusters of up to 130 (thorough: 3000) brokers, topics or partitions; 15 ports. One schedule, but for two operations of one client at once: every schedule with at most 1 departure from one that runs each goroutine until it blocks (thorough: switches at every blocking)."),
 "C21": (TECH, "Bootstrap lists of 0-3 (thorough: 4) addresses, each usable or failing in one of 4 ways, for all four operations; longer lists with one usable address or none. One schedule."),
 "C22": (TECH, "All four operations with 2 bootstrap servers and a node that each behave in one of 8 ways and answers with or without the node or topic; NewBroker and Connect on every kind of broker. One schedule (C17 covers those of Close)."),
 "C23": (TECH, "Every sequence of up to 3 (thorough: 4) options (and longer lists) for all ways of connecting, with a failing and a good bootstrap server. The TLS handshake is modelled in the engine; counterexamples are replayed with real TLS."),
 "C24": (TECH, "Batches of 0-2 records with up to 2 (thorough: 3) headers; in turn the timestamp, its fraction, the offset, the key, the value, a header's key or its value is unrestricted (byte arrays up to 1 MiB; thorough: every two of them) while the others are small; up to 200 headers or records; dates before 1970 and far away."),
 "C25": (TECH, "Every version, up to 3 (thorough: 4) topics with names of 1-2 symbolic bytes, answers with all field values and alternating array shapes (thorough: as in C04); answers lacking their last 1-20 bytes; up to 130 topics; two calls of one client at once (schedules as in C20)."),
}
NA = {}
for l in open(os.path.join(root, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in C:
        NA[i] = "the check for this property is not built yet"
checks = []
for i in sorted(C):
    t, n = C[i]
    checks.append({"property": i, "quick_cmd": f"bash run.sh {i} quick", "thorough_cmd": f"bash run.sh {i} thorough", "technique": t, "level": "model_checking", "level_note": n + COMMON})
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks,
     "not_applicable": [{"property": i, "reason": NA[i]} for i in sorted(NA)],
     "notes": "No hooks in /repo: harnesses are overlaid as extra packages (zz_*) that use the exported API only. See DESIGN.md."}
open(os.path.join(root, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
