import json,jsonschema
MODEL="online oracle: an independent reference model of the algorithm judges every observed call over generated trees, options and requests"
T={
"C01":"runtime monitor: every successful answer examined on disk (exists, regular, canonical or normal) over generated trees, links, options and requests",
"C02":"crash, panic, stack and hang monitor: supervised worker processes on a 2 MiB stack, debug assertions and overflow checks on, hostile workload; a second phase of the same workload under AddressSanitizer",
"C13":"reference model, and a metamorphic monitor comparing runs with the option on, off and with ./request",
"C14":MODEL,
"C15":"differential monitor: warm, shared-cache and fresh resolvers asked the same calls in shuffled histories",
"C16":"history monitor: edits interleaved with calls, long-lived resolvers compared with fresh ones after every step",
"C17":"metamorphic monitor: same case in other orders, threads, processes, locations and with unrelated additions",
"C18":"concurrency stress: racing threads on cold shared caches and concurrent replacement of description files, sequential answers as oracle, deadlock watch; a second phase under ThreadSanitizer (std instrumented too)",
"C19":"error-text monitor over failing requests against the expected text from the reference model, repeated",
"C20":"file-system effect monitor: full snapshots (content, inode, mode, times) around calls, and strace of state-changing system calls",
"C21":"differential monitor: symlinks on against off, canonical paths compared, links kept checked by the reference model",
"C22":"conformance monitor: Node 16's list and its neighbourhood enumerated, plus random specifiers",
"C23":"byte-level specification as online oracle, idempotence and on-disk identity checks",
"C24":"metamorphic monitor: what is off or not configured is changed and the answers compared",
}
NOTE={
"C02":"No panic, abort, stack overflow or endless call on the hostile cases of the run; two defects of the jsonc-parser dependency are listed as known findings. Exploration, not proof.",
"C18":"The interleavings the scheduler gave on 8 cores; ThreadSanitizer also sees races that did no visible harm. Exploration.",
"C20":"Snapshots see every lasting change in and next to the tree; strace, where it runs, sees attempts anywhere.",
"C22":"The list and its edit-distance-1 neighbourhood are covered completely, other strings by sampling.",
}
D="Held on every generated case of the run (counts in the evidence); trusts the reference oracle and std's file access. Exploration of small trees, not proof."
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    checks.append(dict(property=i,quick_cmd="bash check.sh "+i,thorough_cmd="VERIF_TIER=thorough bash check.sh "+i,
      technique=T.get(i,MODEL),level="exploration",level_note=NOTE.get(i,D)))
m=dict(version=1,setup_cmd="bash check.sh build",checks=checks,not_applicable=[],
  notes="No hooks in /repo: every monitor observes the public API, the file system and the process. Known findings and repaired defects: known-findings.json.")
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
