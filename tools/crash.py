"""crash.py FILE: exit 0 when FILE shows that the code under test (and not the harness around it) ended the process.
crash.py evidence VERIF ID TIER LOG: writes the evidence file of a run which ended like that."""
import json, os, re, sys, time

MOD = 'github.com/indigo-web/indigo'


def frames(text):
    """the functions of the crashed goroutine, the innermost first, as (function, file)"""
    out = []
    lines = text.splitlines()
    at = next((i for i, l in enumerate(lines) if re.match(r'goroutine \d+ .*\[.*\]:$', l)), None)
    if at is None:
        return out
    i = at + 1
    while i + 1 < len(lines) and lines[i].strip():
        if lines[i + 1].startswith('\t'):
            out.append((lines[i], lines[i + 1].strip()))
            i += 2
        else:
            i += 1
    return out


def ours(f):
    name, file = f
    return name.startswith(('main.', 'created by main.')) or 'verif' in name.split('(')[0] or 'verif' in os.path.basename(file.split(':')[0]) or '/verifmc/' in file


def crashed(text):
    m = re.search(r'^(panic: |fatal error: )(.*)$', text, re.M)
    if not m:
        return False
    fs = [f for f in frames(text[m.start():]) if f[0].startswith((MOD, 'main.'))]
    if not fs:
        return False
    if m.group(1) == 'panic: ':
        return not ours(fs[0])
    if 'stack overflow' in m.group(2):
        return sum(not ours(f) for f in fs) > 5
    if 'concurrent map' in m.group(2):
        return not ours(fs[0])
    return False


if sys.argv[1] != 'evidence':
    sys.exit(0 if crashed(open(sys.argv[1], errors='replace').read()) else 1)

_, _, verif, id, tier, log = sys.argv
text = open(log, errors='replace').read()
m = re.search(r'^(panic: |fatal error: ).*$', text, re.M)
what = m.group(0) if m else ''
json.dump({
    'property': id, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED') or 0), 'level': 'other',
    'coverage': {'explanation': 'the run ended early: the code under test ended the process (' + what + ')', 'samples': [f[0] for f in frames(text)[:20]]},
    'wall_s': 0}, open(os.path.join(verif, 'evidence', id + '.json'), 'w'), indent=1)
