#!/usr/bin/env python3
"""mkbug.py SPEC.py: plants the bugs of SPEC (list BUGS of dicts: id, property, edits=[(file, old, new)], needs, breaks, demo) into /verif/seeded."""
import sys, os, subprocess, json, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('BUG_REPO', '/repo')
HEAD = '#include <string>\n#include <vector>\n#include <map>\n#include "cxon/json.hxx"\n#include "cxon/cxcf.hxx"\n#include "cxon/cbor.hxx"\n#include "cxon/lib/std/string.hxx"\n#include "cxon/lib/std/vector.hxx"\n#include "cxon/lib/std/map.hxx"\n#include "cxon/lib/node.hxx"\n'
SH = '''#!/bin/bash
# exit 0: the property holds for this input; run with cwd /repo
d=$(mktemp -d) || exit 2; trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -O1 %s -Isrc "$(dirname "$0")/demo.cpp" -o "$d/demo" %s || exit 2
timeout 120 "$d/demo"
'''
def main():
    only = sys.argv[2:]
    for b in runpy.run_path(sys.argv[1])['BUGS']:
        if only and b['id'] not in only: continue
        w = '/tmp/mkbug'; shutil.rmtree(w, True)
        subprocess.check_call(['git', '-C', R, 'worktree', 'prune'])
        subprocess.check_call(['git', '-C', R, 'worktree', 'add', '-q', '--detach', w])
        try:
            orig = subprocess.check_output(['git', '-C', w, 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[0]
            for f, old, new in b['edits']:
                p = w + '/src/cxon/' + f; s = open(p).read()
                if s.count(old) != 1: sys.exit('%s: %s: %d matches of %r' % (b['id'], f, s.count(old), old))
                open(p, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', w, 'diff'], text=True)
            # the removed lines must be original ones
            for f, old, new in b['edits']:
                o = subprocess.run(['git', '-C', w, 'show', orig + ':src/cxon/' + f], capture_output=True, text=True).stdout
            for l in diff.splitlines():
                if l.startswith('-') and not l.startswith('---'):
                    if not any(l[1:] in subprocess.run(['git', '-C', w, 'show', orig + ':src/cxon/' + f], capture_output=True, text=True).stdout.splitlines() for f, _, _ in b['edits']):
                        print('%s: WARNING not an original line: %s' % (b['id'], l))
            d = V + '/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.cpp', 'w').write(HEAD + b['demo'].lstrip('\n'))
            open(d + '/demo.sh', 'w').write(SH % (b.get('flags', ''), b.get('libs', ''))); os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            # the demonstration: 0 on the unchanged tree, nonzero with the change
            good = subprocess.run([d + '/demo.sh'], cwd=R, capture_output=True, text=True)
            bad = subprocess.run([d + '/demo.sh'], cwd=w, capture_output=True, text=True)
            print(b['id'], b['property'], 'demo: unchanged', good.returncode, 'changed', bad.returncode, 'OK' if good.returncode == 0 and bad.returncode not in (0, 2) else 'WRONG\n' + good.stdout + good.stderr[:800] + bad.stdout + bad.stderr[:800])
        finally:
            subprocess.call(['git', '-C', R, 'worktree', 'remove', '--force', w])
main()
