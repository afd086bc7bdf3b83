#!/usr/bin/env python3
"""Turns what one harness run left behind (result file, race reports, crash output) into the check's verdict."""
import glob, hashlib, json, os, re, sys

def _hook(t, v, tb):
    import traceback
    traceback.print_exception(t, v, tb)
    sys.stdout.flush()
    os._exit(2)


sys.excepthook = _hook
id_, tier, seed, rc, scratch, home, outdir, repo = sys.argv[1:9]
rc = int(rc)
out = open(os.path.join(scratch, 'out.log'), errors='replace').read()
err = open(os.path.join(scratch, 'err.log'), errors='replace').read()
resfile = os.path.join(scratch, 'result.json')
res = None
if os.path.exists(resfile):
    try:
        res = json.load(open(resfile))
    except ValueError:
        res = None

known = []
kf = os.path.join(home, 'known_findings.json')
if os.path.exists(kf):
    known = [k for k in json.load(open(kf)).get('findings', []) if k['property'] == id_]

violations = []  # (signature, text)
if res:
    violations += [(v['sig'], v['detail']) for v in (res.get('violations') or [])]

# race detector reports: one violation per distinct pair of functions of the code under test
races = {}
for f in glob.glob(os.path.join(scratch, 'race.log*')):
    txt = open(f, errors='replace').read()
    for blk in txt.split('=================='):
        if 'WARNING: DATA RACE' in blk:
            fns = [m for m in re.findall(r'^  (\S+)\(.*\)$', blk, re.M)]
            key = 'race:' + '|'.join(sorted(set(x.rsplit('/', 1)[-1] for x in fns[:2])))
            races.setdefault(key, blk)
for k, blk in races.items():
    violations.append((k, 'data race reported by the race detector:\n' + blk[:6000]))

# the process died: a crash of the code under test is a violation, anything else is "no answer"
crashed = False
if res is None:
    m = re.search(r'^(panic: .*|fatal error: .*|runtime: goroutine stack exceeds.*|SIGSEGV.*)$', err + '\n' + out, re.M)
    if m:
        crashed = True
        tail = (err if m.group(1) in err else out)
        i = tail.find(m.group(1))
        tr = tail[i:i + 12000]
        frames = re.findall(r'^\s*(/\S+\.go):\d+', tr, re.M)
        # only a crash whose innermost frame outside the Go runtime is the code under test counts
        inner = [f for f in frames if f.startswith(repo + '/')][:1]
        under_test = [f for f in inner if 'zz_verif_' not in f]
        if under_test and 'SIGQUIT' not in tr[:200]:
            violations.append(('crash:' + m.group(1)[:120], 'the code under test crashed the process:\n' + tr))

kn, new = [], []
for sig, detail in violations:
    hit = None
    for k in known:
        if re.search(k['match'], sig):
            hit = k
            break
    if hit:
        if hit not in kn:
            kn.append(hit)
    else:
        new.append((sig, detail))

if res is None and not new:
    print(f'no answer for {id_}: harness ended with status {rc} without a result')
    print(out[-3000:])
    print(err[:6000]); print('[...]'); print(err[-1500:])
    open(os.path.join(outdir, 'replays', f'{id_}-noanswer.log'), 'w').write(out[-100000:] + err[:1000000])
    sys.exit(2)
inconclusive = (res or {}).get('inconclusive') or []
ev = {
    'property': id_, 'tier': tier, 'seed': int(seed), 'level': (res or {}).get('level', 'exploration'),
    'coverage': (res or {}).get('coverage', {'evaluations': 0, 'distinct_nontrivial': 0, 'rule': 'run ended early', 'samples': []}),
    'assumptions': (res or {}).get('assumptions') or [],
    'wall_s': (res or {}).get('wall_s', 0),
    'violations': len(new),
}
ev['coverage']['known_findings_seen'] = [k['what'] for k in kn]
ev['coverage']['violation_signatures'] = [s for s, _ in new]
ev['coverage']['race_reports'] = len(races)
tmp = os.path.join(outdir, 'evidence', f'.{id_}.tmp')
json.dump(ev, open(tmp, 'w'), indent=1)
os.replace(tmp, os.path.join(outdir, 'evidence', f'{id_}.json'))
for k in kn:
    print(f"KNOWN-FINDING: property={id_} {k['what']}")
if new:
    for sig, detail in new[:20]:
        h = hashlib.sha1((sig + detail).encode()).hexdigest()[:10]
        p = os.path.join(outdir, 'replays', f'{id_}-{h}.txt')
        with open(p, 'w') as f:
            f.write(f'property {id_}\nsignature {sig}\nseed {seed} tier {tier}\nreplay: VERIF_SEED={seed} {home}/check.sh {id_} {tier}\n\n{detail}\n')
        print(f'--- {sig}\n{detail[:1500]}')
        print(f'VIOLATION property={id_} replay={p}')
    sys.exit(1)
if inconclusive:
    print(f'no answer for {id_}: ' + '; '.join(inconclusive))
    sys.exit(2)
c = ev['coverage']
print(f"{id_} held: {c.get('evaluations')} evaluations, {c.get('distinct_nontrivial')} distinct non-trivial, {ev['wall_s']:.1f}s")
print(json.dumps(c.get('observed', {}), sort_keys=True))
sys.exit(0)
