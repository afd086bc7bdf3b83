#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below; a property without a harness is listed as not applicable (not built)."""
import json, os
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(home, 'properties.jsonl'))]
T = {
 'C01': ('monitored differential execution', 'Generated programs run in the original and the instrumented build; a trace of outputs, returned values and panics is compared. Explores generated programs, not all programs.'),
 'C02': ('trace checker against ground truth, race detector', 'Events received by the real server are compared with the log generated programs write about themselves.'),
 'C03': ('file-tree monitor under injected file faults, race detector', 'Digest of trees before/after for sequences of injections with failing steps.'),
 'C04': ('differential monitor over generated values', 'Real client encodes, real server decodes, an independent reflection-based renderer says what the result must denote.'),
 'C05': ('runtime assertions on hostile values, child-process crash monitor', 'Hostile object graphs captured by the real client; termination, size bounds and side effects are watched. Two known findings listed.'),
 'C06': ('hostile-input monitor with independent decoder, allocation and crash monitor', 'Truncated, mutated and hostile messages against decoder and HTTP server; independent decoder says accept/refuse/content.'),
 'C07': ('event-log conservation checker under stress, race detector', 'Concurrent messages with unique identities; exactly-once, attribution and order checked over the final result.'),
 'C08': ('oracle monitor over generated run pairs', 'Pairs of generated runs; independent specification of the stable intersection.'),
 'C09': ('oracle monitor over generated result pairs', 'Pairs of stored results with known edits; independent specification of the report.'),
 'C10': ('round-trip monitor and hostile-input monitor', 'Generated results and mutated bytes.'),
 'C11': ('linearizability checker over recorded histories, race detector', 'Model-based sequential histories for both back ends and a linearizability checker over concurrent ones.'),
 'C12': ('oracle monitor over generated module versions', 'Pairs of generated module versions with known edits.'),
 'C13': ('oracle monitor over generated go.mod/go.work pairs', 'Generated project states with a known dependency set; go command consulted as second reference.'),
 'C14': ('dynamic call-stack monitor versus static result', 'Generated programs executed with stack recording; every observed project frame above a changed function must be reported.'),
 'C15': ('file-tree monitor on whole analysis runs with faults', 'Digests of project, GOPATH and module cache before and after runs with injected failures.'),
 'C16': ('report re-computation monitor', 'Generated results are reported; JSON and charts re-read and compared with an independent recomputation.'),
 'C17': ('marking monitor with a stub mutation tool', 'The real mutation driver runs with a recording stub.'),
 'C18': ('end-to-end run monitor', 'Whole analysis on generated projects and updates through a file proxy, compared with ground truth.'),
 'C19': ('stream trace checker, race detector', 'Concurrent writers with identifiable records; order, completeness, bounds checked.'),
 'C20': ('child-process observation', 'Children print the environment and directory they actually got.'),
 'C21': ('monitored differential execution with argument ground truth', 'A catalogue of statement forms and random programs with call points at every call of the monitored functions: behaviour compared with the original, every executed call matched with one event carrying the values received. Six known findings listed.'),
 'C22': ('stage trace checker with fault injection', 'Engine run with recording providers; errors injected at every stage.'),
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(home, 'harness/lens', i.lower() + '_verif_test.go')):
        checks.append({'property': i, 'quick_cmd': f'bash /verif/check.sh {i} quick', 'thorough_cmd': f'bash /verif/check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': 'runtime monitoring: ' + T[i][0], 'level': 'exploration', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'no check built yet'})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none (harnesses enter through a go overlay; /repo carries no hooks)', 'enable': 'go test -c -overlay (see check.sh)', 'source_commits': []},
     'notes': 'Every check compiles /repo\'s working tree with an overlay test file and runs it in a scratch directory.'}
json.dump(m, open(os.path.join(home, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(home, 'MANIFEST.json'), 'a').write('\n')
