"""Writes MANIFEST.json for the properties implemented so far."""
import json, sys
props = {json.loads(l)['id']: json.loads(l) for l in open('/verif/properties.jsonl')}
CHECKED = sys.argv[1].split(',')
NOTE = {
 'C01': 'Seeded histories of requests, roll-backs, refusals and errors on real code; every accepted request compared bit for bit with a from-scratch call. Exploration: histories of up to 40 operations (rarely 1000 requests), times usually up to about 10 years, rarely 38 years.',
 'C02': 'Seeded histories against a 12-line model of the integration clock; a third of the requests illegal or misused.',
 'C03': 'Real threads under a deterministic scheduler that can preempt at every control-flow edge, load and store of the crate; sequentially consistent interleavings only, at most 8 threads and 32 preemptions per schedule.',
 'C04': 'Seeded call histories in a forked process, each outcome compared with the same call alone in a pristine process.',
 'C05': 'Work metered in instrumented edges and memory accesses; bad clock readings injected between valid requests.',
 'C06': 'Seeded messages with known content delivered through a simulated stream with short reads, interruptions, errors and damage; independent JSON reading as oracle.',
 'C07': 'Seeded catalogues delivered with lost, repeated, reordered, merged and cut lines, mostly small, rarely up to 30 000 objects; independent TLE reader as oracle.',
 'C08': 'Seeded lines with bit flips, substitutions, losses, insertions, truncation and torn merges; independent TLE reader as oracle.',
 'C09': 'Simulated disk with crash points, torn and lost writes around a real serde store of real propagators.',
 'C10': 'Simulated disk with crash points, torn and lost writes around a real serde store of elements, orbits, geopotentials and predictions.',
 'C11': 'Allocator that refuses every request during the calls; results compared with unrestricted runs.',
 'C12': 'Every position of the failing allocation enumerated per input, in forked processes.',
 'C20': 'Simulated sinks that fill up, close, are interrupted, take little at a time, print the value themselves or panic; the text a sink without faults gets as reference.',
 'C21': 'Work metered in instrumented edges and memory accesses, and in bytes handled by precompiled copies, searches and number readings, over floods of up to 0.8 MB, at one size and at four times that size.',
 'C13': 'Simulated clock with jumps, stalls, skew and overflow; exact integer arithmetic as oracle.',
}
NA = {
 'C14': 'Pure function of (elements, time) judged against reference values: no schedule, fault, history or environment takes part, so a simulated world adds nothing to plain differential testing.',
 'C15': 'Compares two builds of a pure function; no nondeterminism or fault is involved. (The checks run on both builds, but do not compare them.)',
 'C16': 'Pure domain check of one call on one input; no history, schedule or fault can influence it beyond what C04 covers.',
 'C17': 'Relation between two pure parsers on the same input; ingest faults are covered by C06 to C08, the relation itself involves no environment.',
 'C18': 'Relation between two pure calls; history dependence of the mode flag is covered by C01 and C04.',
 'C19': 'Pure post-condition of one call; errors under histories and faults are covered by C01, C04 and C05.',
}
checks = [{
  'property': p,
  'quick_cmd': f'bash check.sh {p}',
  'thorough_cmd': f'bash check.sh {p}',
  'evidence_file': f'evidence/{p}.json',
  'technique': 'deterministic simulation with fault injection',
  'level': 'exploration',
  'level_note': NOTE[p],
} for p in CHECKED]
na = [{'property': p, 'reason': r} for p, r in NA.items()]
for p in props:
    if p not in CHECKED and p not in NA:
        na.append({'property': p, 'reason': 'check under construction'})
m = {
 'version': 1,
 'setup_cmd': 'bash build.sh',
 'hooks': {'guard': 'none', 'enable': 'No source hooks: the crate is compiled by sim/rustc-wrap.sh with compiler-inserted call-backs (SanitizerCoverage) at every edge, load and store.', 'source_commits': []},
 'checks': checks,
 'not_applicable': na,
 'notes': 'One seed (VERIF_SEED, property, run index) is one exactly repeatable execution. bash replay.sh <file> re-executes a reported violation twice.',
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
