#!/usr/bin/env python3
"""developer helper: weave and verify the units against VERIF_REPO and print what is stubbed or fails"""
import os, sys, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
work = check.T + '/run/dev-%d' % os.getpid(); os.makedirs(work, exist_ok=True)
w = check.build_weaver(); e = work + '/expanded.rs'; check.expand(e)
for n in sys.argv[1:] or check.UNITS:
    u = check.Unit(n, work); u.solve(w, e)
    print(n, 'FATAL ' + u.fatal if u.fatal else u.v['out'].get('verification-results', {}), 'inlined:', [f['name'] for f in u.map['fns'] if 'helper-inlined' in f.get('rules', [])])
    for k, v in u.stubs.items(): print('  stub', k, v[:160])
    if not u.fatal:
        for f in u.map['fns']:
            if f['status'] not in ('woven', 'lemma') and f['name'] not in u.stubs: print('  stub', f['name'], f['reason'][:160])
        for f in u.failures(): print('  fail', f[0], f[1], f[2], f[3][:100])
