#!/usr/bin/env python3
"""Writes contracts/refreshcache{,0,1}.spec from contracts/tmpl/refreshcache.tmpl:
the three variants of the package differ only in the arguments of the callback."""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(here + '/contracts/tmpl/refreshcache.tmpl').read()

def ghosts(d, f):
    done = f'ncalls({f}) > old(ncalls({f})) && !callpanic({f}, old(ncalls({f})))'
    res = lambda k: f'callres({f}, old(ncalls({f})), {k})'
    rows = [('st', f'{res(1)} == nil ? 1 : 2'), ('at', f'calltime({f}, old(ncalls({f})))'),
            ('val', res(0)), ('er', res(1)), ('cleared', 'false')]
    out = [f'  ghost if ({done}) then {d}.{n} := {e}' for n, e in rows]
    out.append(f'  ghost if ({done} && {res(1)} == nil) then {d}.prev := {res(0)}')
    return '\n'.join(out)

for pkg, tps, args in (('refreshcache', 'T, A', True), ('refreshcache0', 'T', False), ('refreshcache1', 'T, A', True)):
    out, cur = [], None
    for l in src.split('\n'):
        if l.startswith('contract '):
            cur = ('r.RefreshData', '*r.RefreshFunc') if l.startswith('contract (*RefreshCache') else ('r', 'refreshFunc')
        out.append(ghosts(*cur) if l.strip() == 'GHOSTS' else l)
    t = '\n'.join(out)
    t = t.replace('TPS', tps).replace('PKG', pkg)
    t = t.replace(' ARGP', ', args' if args else '')
    t = t.replace(' ARGC', ' && callarg(f, old(ncalls(f)), 1) == args' if args else '')
    open(f'{here}/contracts/{pkg}.spec', 'w').write(t)

# the concurrent contracts, for C18: protocols are spelt out for the data and for the wrapper
csrc = open(here + '/contracts/tmpl/refreshcache_conc.tmpl').read()
os.makedirs(here + '/contracts/conc', exist_ok=True)

def expand(t):
    protos, out, cur = {}, [], None
    for l in t.split('\n'):
        if l.startswith('protocol '):
            cur = protos.setdefault(l.split()[1], [])
        elif cur is not None and l.startswith('  '):
            cur.append(l)
        else:
            cur = None
            out.append(l)
    return protos, '\n'.join(out)

protos, body = expand(csrc)
head, rest = body.split('EACH\n')
each, tail = rest.split('END\n')

def inst(t, dd, ff, cc, tt, nn, par, cpar):
    out = []
    for l in t.split('\n'):
        w = l.split()
        out += protos[w[1]] if w[:1] == ['follows'] else [l]
    t = '\n'.join(out)
    for a, b in (('DD', dd), ('FF', ff), ('CC', cc), ('TT', tt), ('NN', nn), (' CPAR', cpar), (' PAR', par)):
        t = t.replace(a, b)
    return t

for pkg, tps, args in (('refreshcache', 'T, A', ', args'), ('refreshcache0', 'T', ''), ('refreshcache1', 'T, A', ', args')):
    d = ('r', 'refreshFunc', 'clearFunc', 'RefreshData', 'r != nil', ', refreshFunc' + args, ', clearFunc' + args)
    c = ('r.RefreshData', '*r.RefreshFunc', '*r.ClearFunc', 'RefreshCache', 'r != nil && r.RefreshData != nil && r.RefreshFunc != nil', args, args)
    t = head + inst(each, *d) + inst(each, *c) + inst(tail, *d)
    open(f'{here}/contracts/conc/{pkg}.spec', 'w').write(t.replace('TPS', tps).replace('PKG', pkg))
