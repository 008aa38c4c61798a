#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'deterministic simulation with fault injection: '
COMMON = ' Runs the whole tool compiled to WebAssembly under a simulated operating system; assumes that build behaves like the native one given the same system-call results. Seeded search over the cases generated, not exhaustive.'
CHECKS = {
 'C01': ('seeded map order, hash seeds, scheduler, clock, environment and directory order; byte equality of executions', 'exploration', 'Every case is one command line executed six times (nine when thorough) under schedules drawn from the seed.'),
 'C02': ('seeded map order, hash seeds, scheduler, clock, environment and directory order; byte equality of executions', 'exploration', 'Every case is one command line executed six times (nine when thorough) under schedules drawn from the seed.'),
 'C03': ('short, interrupted, delayed and one-byte reads, wrong sizes, symbolic links, pipes; byte equality with one-shot delivery', 'exploration', 'Delivery of every file and of standard input is divided at random.'),
 'C04': ('injected open, read, stat and list failures on the calls a fault-free run makes', 'fault_enumeration', 'Each case enumerates call sites of a fault-free run and places a failure on a sample of them; the message must name path and cause and no verdict may be given.'),
 'C05': ('seeded schemas, edits and file layouts under seeded visiting orders, against a reference differ', 'exploration', 'The oracle is an independent differ over the abstract schemas the files were rendered from, so neither parser nor file reading is trusted.'),
 'C06': ('several file layouts of one pair of schemas under seeded visiting orders; refinement to one set of changes', 'exploration', 'Layouts move, split and rename definitions, extension blocks and files.'),
 'C07': ('seeded files with lint comments under seeded visiting orders, against a reference linter', 'exploration', 'The oracle is an independent linter over the abstract schemas and the comment positions known from rendering.'),
 'C08': ('joint runs against one run per file, under seeded orders', 'exploration', 'Also over empty, duplicate and unparsable files.'),
 'C09': ('output errors, short and interrupted writes placed on the writes of a run', 'fault_enumeration', 'Failure points are drawn from the writes of the fault-free run.'),
 'C10': ('descriptor limits and collector schedules; peak of open descriptors observed at every call', 'exploration', 'Up to a few hundred files per run.'),
 'C11': ('kills, failures and disappearing files at random system calls; file system compared and every mutating call observed', 'exploration', 'Nothing can reach the real file system.'),
 'C12': ('torn, flipped, zeroed, repeated and lost blocks of schema files; crash, termination and verdict checked', 'exploration', 'Cuts inside a definition must be refused; other corruptions must end in status 0 or 1 within a step bound.'),
 'C13': ('seeded interleaving at every statement, simulated and natively under the race detector; equality with serial answers', 'exploration', 'The simulated machine has one processor; memory races are judged by happens-before in native runs whose schedule is seeded and whose hand-offs are hidden from the detector.'),
 'C14': ('other processes replacing, adding and removing files between the system calls of a run; outcome within those of single versions', 'exploration', 'Replacement is atomic (rename); writers are placed at random calls.'),
 'C15': ('seeded histories of library calls in one process; equality with fresh processes and deep digests of the inputs', 'exploration', 'Digests include unexported fields and the spare room of slices.'),
 'C16': ('unmatched files, links, directories and input around the matched ones, unreadable, failing and changing at random calls; equality with the undisturbed run', 'exploration', 'Names beside the matched ones include names of configuration and ignore files and the string literals of the code.'),
 'C17': ('refused command lines under schedules, with standard input that never ends, unusable files and failing output streams; status, message and absence of reads observed', 'exploration', 'Also runs that only ask for help, and rule names in other spellings.'),
}
NA = {
 'C20': 'A pure relation between two types: no schedule, time, fault or second party can influence it. compare applies it inside C05, whose reference differ judges it on generated types.',
 'C21': 'A pure function of the text of a file: nothing a simulator controls can influence it.',
 'C22': 'A pure function of one text, comparing two scanners: nothing a simulator controls can influence it.',
}
checks = []
for p, (t, l, n) in CHECKS.items():
    checks.append({'property': p, 'quick_cmd': f'bash check.sh {p} quick', 'thorough_cmd': f'bash check.sh {p} thorough', 'evidence_file': f'evidence/{p}.json', 'technique': T + t, 'level': l, 'level_note': n + COMMON})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'none: /repo needs no hook', 'enable': "build.sh builds /repo's working tree through a go build overlay (-overlay) that adds a step call before every statement; the shipped build is unaffected", 'source_commits': []},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'Replay a violation with: bash check.sh ID replay FILE. Known and fixed findings: known-findings.txt.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
