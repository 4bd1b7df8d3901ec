#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
HERE=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
T={
"C01":("differential monitor of read replies against an independent gocryptfs encoder","Sampled volumes, lengths, holes, flags, offsets and read histories; trusts the harness's reference encoder (itself checked against the volume fixtures in the repository)."),
"C02":("corruption injection with a reference-decryption oracle on every reply","Sampled manipulations of sampled files, biased to block and header borders; the oracle decides exactly which plaintexts are legitimate."),
"C03":("monitor of listing replies against the builder's name set","Sampled directories up to several thousand entries, including foreign, corrupt and metadata entries."),
"C04":("history monitor with uniquely identifiable objects","Sampled trees larger than the path cache and sampled request histories; every object has unique content, size or mtime."),
"C05":("cross-check of stat, fstat, listing and full reads","Sampled sizes (biased to block borders), modes and times."),
"C06":("trace-specification monitor on remote calls and client statuses","Sampled request sequences at packet level; each remote call and packet type is checked online."),
"C07":("fault injection at the remote with crash and service monitors","Sampled malformed data at each remote call; crash detection by process boundary, service by model answers."),
"C08":("online path monitor at the remote","Sampled hostile client paths and listings; every path reaching the remote is checked."),
"C09":("offline checker over the backend and request logs under schedule perturbation","Sampled interleavings (seeded yields and delays inserted at statement boundaries); each value is unique per fetch."),
"C10":("offline counting checker over the backend log under schedule perturbation","Sampled interleavings."),
"C11":("bounded-progress monitor with goroutine dumps around fault and stall phases","Sampled fault sequences; a call counts as lost only when nothing is outstanding and all goroutines are blocked in two dumps."),
"C12":("offline staleness checker over versioned results under schedule perturbation","Sampled interleavings of clears with fetches."),
"C13":("model-based sequence monitor and porcupine linearizability checking","Sampled sequences and capacities, sampled concurrent histories."),
"C14":("online per-connection automaton at the remote","Sampled interleavings, errors and connection losses."),
"C15":("online connection-counting automaton at the remote","Sampled call mixtures and losses at sampled packets."),
"C16":("reply monitor over concurrent sessions against a volume model","Sampled interleavings with slow, reordered and failing remote replies."),
"C17":("Go race detector under stress with schedule perturbation","Races on executed schedules only; races wholly inside third-party libraries are not counted."),
"C18":("admission monitor on the real binary","Sampled credentials near the right ones and all authentication methods the ssh library offers a client."),
"C19":("authentication log monitor at a hostile remote of the real binary","Sampled known-hosts files and keys, at start-up and on reconnection; the syntax of known_hosts is the library's."),
"C20":("start-up monitor on the real binary and in-process over broken configurations","All single and pairwise omissions plus sampled larger ones."),
"C21":("liveness monitor on the real binary under hostile clients","A catalogue of hostile behaviours at each protocol stage and random mixtures. Three crashes inside the dependency pkg/sftp are recorded as known findings."),
"C22":("unlock monitor over mutated configurations with an independent key wrapper","Sampled passwords and modifications of every field."),
"C24":("differential monitor with independent decryption and a nonce log, concurrent stress","Sampled contents, counts and positions."),
"C25":("differential monitor against an independent EME implementation, arbitrary-string stress","Sampled names (all lengths) and IVs."),
"C26":("algebraic-law monitor on offset arithmetic, independent big-integer oracle","All small values exhaustively within bounds, sampled 64-bit values."),
"C29":("differential monitor against an independent RFC 5297 implementation","Sampled inputs and manipulations."),
"C23":("system-call trace automaton with crash and error injection at every call (strace)","Every system call of the write is a crash point and a failing point; power loss is judged by the ordering of sync and rename in the trace."),
"C27":("secret scanner over all outputs, errors and leftover files","Sampled start-up outcomes and request histories; secrets searched raw, hex, base64 and grouped."),
"C28":("prompt and signer monitor with generated keys","Sampled key types, ciphers, passphrase sequences and damaged files."),
}
T["C30"]=("resource monitor on the real binary (sockets, goroutine dumps, remote handles) over clients that come and go","A catalogue of ways to come and go, repeated in batches; growth is judged against the state before, after everything settled.")
T["C31"]=("differential monitor of many interleaved cipher instances against independent references, freshness log of random values","Sampled keys, instance mixtures and orders of wiping; memory held by the standard library's ciphers is not inspected.")
T["C32"]=("progress monitor with chosen remote calls held open, under schedule perturbation","Sampled sets of held calls, worker counts and request mixtures; an unrelated request counts as held up after 40 s.")
T["C33"]=("differential monitor of long sessions on the real binary against the volume model","Bounded durations (under a minute in the quick tier, minutes in the thorough one) and numbers (thousands of handles and requests); limits beyond them are not reached.")
T["C34"]=("online comparison of every answer of the pass-through handlers with the remote tree at a recording SSH server, under delays, refused packets and connection cuts; open-handle accounting at the remote","Random trees, schedules and fault points; READLINK is not covered.")
LEVEL={"C23":"fault_enumeration"}
props=[json.loads(l)["id"] for l in open(os.path.join(HERE,"properties.jsonl"))]
import sys
done=set(a for a in open(os.path.join(HERE,"tools","done.txt")).read().split())
m=dict(version=1,setup_cmd="bash setup.sh",checks=[],not_applicable=[])
for p in props:
    if p in done:
        t,n=T[p]
        m["checks"].append(dict(property=p,quick_cmd=f"bash run.sh {p}",thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p}",technique=t,level=LEVEL.get(p,"exploration"),level_note=n))
    else:
        m["not_applicable"].append(dict(property=p,reason="check not built yet"))
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
