#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "exploration"
T = {
"C01": ("fault_enumeration", "fault injection (full disk, unwritable directory, failing system calls at every write/fsync/close/link under strace, SIGKILL at every step) with a save-directory and syscall-order monitor",
        "Every failing system call and kill point of the observed save sequence is tried on random messages; the file system itself is trusted, disk loss after fsync is judged from the syscall order."),
"C02": (EX, "online comparison of saved files and message log with a reference transaction model over random conversations", "Samples conversations, data and interleavings; the stand-in smtpd supplies the SMTP conversation."),
"C03": (EX, "monitor of the save directory under repeated and concurrent deliveries (also with the race detector)", "Samples messages, hash modes, pre-existing files and interleavings."),
"C04": (EX, "differential monitoring of every reply against a reference rule engine over random rule sets and conversations", "Samples rules and conversations; the reference engine is trusted."),
"C05": (EX, "differential monitoring of every verdict against a reference matcher over generated and mutated patterns", "Samples patterns and operands, biased to near misses."),
"C06": (EX, "differential monitoring of attribute verdicts against a reference classification", "Samples addresses, names and reverse DNS situations."),
"C07": (EX, "scripted DNS server with injected failures, verdicts and saved reverse-DNS lines compared with a reference resolver model", "Samples zone contents and failures; the Go resolver is part of the run."),
"C08": (EX, "differential monitoring of null-sender conversations against a reference session model", "Samples rules and conversations."),
"C09": (EX, "differential monitoring of reply texts, notes, save directories and TLS offers against a reference model", "Samples rule sets with options."),
"C10": (EX, "monitoring of connections while rules files are broken, repaired and changed, against a version-tracking model", "Samples kinds of breakage and moments of change."),
"C11": (EX, "differential monitoring of start-up acceptance against a reference grammar, and metamorphic comparison of re-laid-out rules", "Samples valid, invalid and mutated rule texts."),
"C12": (EX, "hostile byte streams, disconnects, DNS answers and rules under a crash, goroutine, file descriptor and liveness monitor", "Samples inputs; a hang is a repeated watchdog expiry."),
"C13": (EX, "race detector plus per-session replay against sequential references under concurrency", "Sees the interleavings that occur under stress."),
"C14": (EX, "virtual-clock history monitoring of do-nothing clients against a reference record model", "Samples histories; time is moved through package time."),
"C15": (EX, "virtual-clock history monitoring of STARTTLS offers and client certificate requests against a reference record model", "Samples histories of plain, failed and good TLS sessions."),
"C16": (EX, "monitoring of greeting, certificate and speed of each connection against a reference reading of -conncfg", "Samples configuration files, their changes and local addresses."),
"C17": (EX, "trace checker over the SMTP, message and do-nothing logs of concurrent sessions against what clients sent and saw (also with the race detector)", "Sees the interleavings that occur under stress."),
"C18": (EX, "differential monitoring of every reply against a reference model of options, filters and standard rules", "Samples option combinations, filter files and conversations."),
"C19": (EX, "conservation monitor: published counters compared with the clients' own tally (also with the race detector)", "Samples workloads and interleavings."),
"C20": (EX, "observation of exit status, listening sockets and save directory at start-up against the documented refusals", "Samples option combinations."),
"C21": (EX, "monitoring of saved files, logs and verdicts of TLS sessions against the client's own view of the connection and its certificates", "Samples TLS versions, cipher suites, certificates and command orders."),
}
have = [f[:-3].upper() for f in sorted(os.listdir(here + "/harness")) if f.startswith("c") and f[1:3].isdigit()]
m = dict(version=1, setup_cmd="bash setup.sh",
    checks=[dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
        technique=T[i][1], level=T[i][0], level_note=T[i][2]) for i in sorted(T) if i in have],
    not_applicable=[dict(property=i, reason="check not built yet") for i in sorted(T) if i not in have],
    notes="No hooks: the daemon is built unmodified from /repo against the smtpd stand-in in smtpd/ and observed from outside. See DESIGN.md.")
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
