#!/usr/bin/env python3
"""mkseed.py SPEC.py [ids]: build /verif/seeded/<id>/ from planted-bug specifications and confirm each one.

A specification module defines SEEDS = [dict(id, property, file, edits=[(old, new)], demo, needs, breaks)].
A seed is kept when it applies, touches original lines, passes the stable tests, and its demo passes
without it and fails with it."""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in the scenario; run with cwd = the repository
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
mkdir "$W/home"
export HOME="$W/home" TMPDIR="$W" SCRATCH="$W" PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
timeout -k 5 200 /opt/venv/bin/python -W ignore "$D/demo.py" >"$W/out" 2>&1
rc=$?
tail -5 "$W/out"
exit $rc
'''
PRE = '''import logging
import os
import sys
W = os.environ['SCRATCH']
import nephosem
from nephosem import *
logging.disable(logging.CRITICAL)


def settings(files, **kw):
    """settings for a corpus of {name: lines of items}"""
    s = ConfigLoader().settings
    corp = os.path.join(W, 'corpus')
    os.makedirs(corp, exist_ok=True)
    for name, lines in files.items():
        p = os.path.join(corp, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w', encoding=kw.get('file-encoding', 'utf-8')) as f:
            for x in lines:
                f.write((x if x.startswith('<') else '\\t'.join((x, 'N', x))) + '\\n')
    s['corpus-path'] = corp
    s['output-path'] = os.path.join(W, 'out')
    s['tmp-path'] = os.path.join(W, 'tmp')
    s.update(kw)
    return s


'''


def sh(cmd, cwd=None, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)


def tests(copy):
    w = tempfile.mkdtemp(prefix='mkseed_t')
    os.mkdir(w + '/home')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=copy, PYTHONHASHSEED='0', MPLBACKEND='Agg', HOME=w + '/home')
    try:
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=60', '--continue-on-collection-errors', '-W', 'ignore',
                '--tb=short', '-o', 'junit_family=xunit2', '--junitxml=' + w + '/j.xml', 'nephosem/tests'], cwd=copy, env=env)
        ok = set()
        for c in ET.parse(w + '/j.xml').getroot().iter('testcase'):
            if not list(c):
                ok.add('%s::%s' % (c.get('classname'), c.get('name')))
        miss = [t for t in BASE if t not in ok]
        return miss
    finally:
        shutil.rmtree(w, ignore_errors=True)


def original_lines(diff):
    """do the removed lines come from the original commit?"""
    cur, bad, good = None, [], 0
    ln = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            cur = l[6:]
        elif l.startswith('@@'):
            ln = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            b = sh(['git', '-C', '/repo', 'blame', '-s', '-L%d,%d' % (ln, ln), '--', cur]).stdout
            (bad.append(l) if not b.lstrip('^').startswith('34e9741') else None)
            good += 1
            ln += 1
        elif l.startswith('+'):
            pass
        else:
            ln += 1
    return bad, good


def build(s):
    d = tempfile.mkdtemp(prefix='mkseed_')
    copy = d + '/repo'
    try:
        shutil.copytree('/repo', copy, ignore=shutil.ignore_patterns('docs', 'docsrc', '__pycache__'))
        for f, edits in (s['files'].items() if 'files' in s else {s['file']: s['edits']}.items()):
            p = os.path.join(copy, f)
            t = open(p).read()
            for e in edits:
                old, new = e[0], e[1]
                if t.count(old) != (e[2] if len(e) > 2 else 1):
                    return s['id'], 'old text occurs %d times: %r' % (t.count(old), old[:60])
                t = t.replace(old, new)
            open(p, 'w').write(t)
        diff = sh(['git', 'diff', '--', 'nephosem'], cwd=copy).stdout
        if not diff.strip():
            return s['id'], 'empty diff'
        bad, good = original_lines(diff)
        out = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(PRE + s['demo'].strip() + '\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        why = []
        if bad or not good:
            why.append('not original lines: %s' % (bad or 'only additions'))
        r0 = sh(['bash', out + '/demo.sh'], cwd='/repo')
        r1 = sh(['bash', out + '/demo.sh'], cwd=copy)
        if r0.returncode != 0:
            why.append('demo fails on the unchanged tree: ' + r0.stdout[-600:])
        if r1.returncode == 0:
            why.append('demo passes with the patch: ' + r1.stdout[-300:])
        miss = tests(copy)
        if miss:
            why.append('tests fail: %s' % miss[:4])
        caught = []
        man = json.load(open(HERE + '/MANIFEST.json'))
        for c in man['checks']:
            e = dict(os.environ, NEPHOSEM_REPO=copy, EVIDENCE_DIR=d)
            r = sh(['python3', 'check.py', c['property']], cwd=HERE, env=e)
            if r.returncode == 1:
                caught.append(c['property'])
            elif r.returncode != 0:
                caught.append(c['property'] + '?' + r.stdout.strip().splitlines()[-1])
        msg = '%s demo:%s caught by %s' % ('OK ' if s['property'] in caught else 'MISSED', r1.stdout.strip().splitlines()[-1:] , caught)
        if why:
            shutil.rmtree(out)
            msg = 'REJECTED ' + '; '.join(why) + ' | ' + msg
        return s['id'], msg
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    seeds = [s for s in m.SEEDS if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for i, msg in ex.map(build, seeds):
            print(i, msg, flush=True)


if __name__ == '__main__':
    main()
