#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json

MON = "runtime monitoring: online reference monitor over every boundary call, generated hostile workloads"
CHECKS = {
    "C01": ("runtime monitoring: offline trace comparison of the same stream under every cut (metamorphic oracle)",
            "Executions only: thousands of generated streams, each under every single cut position, byte-wise and random cuts."),
}
for p in ["C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15"]:
    CHECKS[p] = (MON, "Held on the executions counted in the evidence (tens of thousands per run, seed dependent). Trusts the stand-in codec, the independent line/literal scanner and the monitor.")
CHECKS["C16"] = ("runtime monitoring: both reference monitors plus an end-to-end ledger over randomly cut and scheduled pipes",
                 "Held on the executions counted in the evidence. Trusts the stand-in codec and the monitors.")
CHECKS["C17"] = ("runtime monitoring: uniqueness ledger over handles of many instances and threads",
                 "Held on the executions counted in the evidence.")
CHECKS["C19"] = ("runtime monitoring: marker search (plain, escaped, decimal, hex, base64) over every debug/display text and tracing record",
                 "Finds secrets written in one of the searched forms, on the executions counted in the evidence.")
CHECKS["C20"] = ("runtime monitoring: setter/getter ledger and sent bytes compared for generated texts",
                 "Held on the executions counted in the evidence. What can be sent is decided by the stand-in codec's text validation.")

CHECKS["C21"] = ("runtime monitoring: counting allocator around every call of client and server, bounded against what was received or queued, and compared between the first and last of many like rounds",
                 "Held on the executions counted in the evidence. In proportion means 256 KiB plus 16 bytes per byte; growth is looked for over up to 3000 rounds.")

CHECKS["C18"] = ("runtime monitoring: uniqueness ledger over tags of many generators, threads and processes, statistics of the random part over release runs",
                 "Held on the executions counted in the evidence. Randomness is judged by what differs between runs, not by cryptographic strength.")
CHECKS["P05"] = ("runtime monitoring: loaded configurations compared with an independent writer's model, damaged ones must be refused",
                 "Held on the executions counted in the evidence.")

for p, n in {
    "P01": "ledgers of mock clients and mock servers around the real proxy process, every message compared",
    "P02": "every capability list that reaches a mock client compared with an independent filter of what the mock server sent",
    "P03": "literal handshakes of mock clients and mock servers around the real proxy process, rejections compared with the documented translation",
    "P04": "hostile clients and servers of many kinds next to proper control sessions, panics, open files and processor time of the real proxy process watched",
    "P07": "real proxy process between peers with false certificates, plain text, broken and failed handshakes; raw bytes on the wire must be nothing but TLS records and no data may pass",
    "P08": "all output of the real proxy process, at the highest log level, searched for the secrets that mock clients and servers sent, in several encodings",
    "P09": "real proxy processes started from generated configurations with services that can and cannot be started; each service that can must connect a mock client to its own mock server",
    "P10": "connections to the real proxy process ended in many ways; afterwards its open files, processor time and, over rounds of many connections, its resident memory are read from the system",
    "P06": "one side sends and closes in different ways; everything must arrive at the other side, which must then be closed",
}.items():
    CHECKS[p] = ("runtime monitoring: " + n,
                 "Held on the executions counted in the evidence. A standstill is 20 s without progress. Trusts the stand-in codec; TLS handshakes are done by a stand-in for tokio-rustls.")

for p, n in {
    "S01": "scripted state machine against a scripted socket peer, every byte and report compared with the model of the conversation",
    "S02": "futures dropped at suspension points (single streams, and pairs in one select loop), every byte and report compared",
    "S03": "both sides send megabytes before reading; after a flush nobody drives the stream and the peer must get everything",
    "S04": "the same conversations over TLS 1.2 and 1.3 as client and server, with data at the end of the handshake, key updates and all record sizes",
    "S07": "real clients and servers over streams with a recording relay between their sockets: both users' histories must agree, and the wire must carry exactly the expected plaintext and after STARTTLS nothing but TLS records",
    "S06": "polls of waiting futures counted while a scripted peer keeps the stream waiting (in the middle of a record, not reading); afterwards everything must arrive",
    "S05": "closes of every kind (FIN, close notification, reset, garbage, cut record), with CPU watchdog",
}.items():
    CHECKS[p] = ("runtime monitoring: " + n,
                 "Held on the executions counted in the evidence. A hang is 20 s without the required progress. TLS handshakes are done by a stand-in for tokio-rustls.")

m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"./check.sh {p} --thorough",
            "technique": t,
            "level": "exploration",
            "level_note": n,
        }
        for p, (t, n) in sorted(CHECKS.items())
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: only public API and sockets are observed. The dependencies missing from the offline cache are replaced by /verif/standins.",
}
have = set(CHECKS)
for l in open("properties.jsonl"):
    p = json.loads(l)
    if p["id"] not in have:
        m["not_applicable"].append({"property": p["id"], "reason": "check is still being built"})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
