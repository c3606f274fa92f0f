#!/usr/bin/env python3
"""Inventory of the public Rust API of /repo (free functions, structs, methods) and generation of the
dispatch table probe/src/table.rs + api.json.  Run by hand when the public API changes; its outputs are
committed (the checks themselves never parse the Rust sources)."""
import re, os, json, sys
SRC = sys.argv[1] if len(sys.argv) > 1 else '/repo/src'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
funs, structs = [], []
def args_of(s):
    r = []
    for a in filter(None, (x.strip() for x in s.split(','))):
        if a == '&self': continue
        n, t = a.split(':', 1)
        r.append((n.strip().lstrip('&').strip(), t.strip()))
    return r
for root, _, files in sorted(os.walk(SRC)):
    if 'mod.rs' not in files: continue
    mod = os.path.relpath(root, SRC).replace('/', '::')
    if mod == '.': continue
    cur = None; instruct = None
    for line in open(os.path.join(root, 'mod.rs')):
        m = re.match(r'pub struct (\w+)', line)
        if m:
            instruct = dict(mod=mod, name=m.group(1), fields=[], init=None, methods=[]); structs.append(instruct); continue
        if line.startswith('}'): instruct = None; cur = None; continue
        m = re.match(r'impl (\w+)', line)
        if m: cur = next(s for s in structs if s['mod'] == mod and s['name'] == m.group(1)); continue
        if instruct is not None:
            m = re.match(r'\s+pub (\w+): ([\w:]+),?$', line)
            if m: instruct['fields'].append((m.group(1), m.group(2)))
            continue
        m = re.match(r'(\s*)pub fn (\w+)(<[^>]*>)?\((.*)\) -> (.*)$', line)
        if not m: continue
        ind, name, gen, args, ret = m.groups(); ret = ret.strip(); args = args_of(args) if not 'dyn' in args else None
        if cur is not None and ind:
            if name == 'init': cur['init'] = args
            elif not gen and args is not None and ret == 'f64' and all(t in ('&f64', '&u8', 'f64', 'u8') for _, t in args):
                cur['methods'].append((name, args))
            else: print('skip method', mod, name)
        elif not ind:
            if not gen and args is not None and ret == 'f64' and all(t in ('&f64', '&u8', 'f64', 'u8') for _, t in args):
                funs.append((mod, name, args))
            else: print('skip fn', mod, name)
def conv(i, t, arr='a'):
    e = f'{arr}[{i}]'
    if t.endswith('u8'): e = f'({e} as u8)'
    return ('&' if t.startswith('&') else '') + e
o = ['// @generated by tools/gen.py; do not edit', 'pub type F = fn(&[f64]) -> f64;', 'pub static FUNS: &[F] = &[']
api = dict(funs=[], structs=[])
for mod, name, args in funs:
    o.append(f'    |a| polymers::{mod}::{name}({", ".join(conv(i,t) for i,(n,t) in enumerate(args))}),')
    api['funs'].append(dict(path=f'{mod}::{name}', args=[n for n, _ in args], u8=[n for n, t in args if t.endswith('u8')]))
o.append('];')
o.append('pub trait Model { fn call(&self, method: usize, a: &[f64]) -> f64; fn get(&self, field: usize) -> f64; }')
def strip(s): return s['mod'] + '::' + s['name']
def find(mod, ty):
    # field type like isometric::EFJC
    parts = ty.split('::')
    m = '::'.join([mod] + [p for p in parts[:-1] if p != 'self'])
    return next((s for s in structs if s['mod'] == m and s['name'] == parts[-1]), None)
def walk(s, pre=''):
    """all methods/fields reachable from struct s"""
    ms, fs = [], []
    for n, a in s['methods']: ms.append((pre + n, a))
    for n, t in s['fields']:
        if t in ('f64', 'u8'): fs.append((pre + n, t))
        else:
            sub = find(s['mod'], t)
            if sub is None: print('unresolved field', strip(s), n, t); continue
            a, b = walk(sub, pre + n + '.'); ms += a; fs += b
    return ms, fs
makers = []
for s in structs:
    if s['init'] is None or s['mod'].startswith('constitutive'): print('skip struct', strip(s)); continue
    ms, fs = walk(s)
    path = f'polymers::{s["mod"]}::{s["name"]}'
    o.append(f'impl Model for {path} {{')
    o.append('    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {')
    for i, (n, a) in enumerate(ms):
        o.append(f'        {i} => self.{n}({", ".join(conv(j,t) for j,(_,t) in enumerate(a))}),')
    if not ms: o.append('        // no methods')
    o.append('        _ => unreachable!() } }')
    o.append('    fn get(&self, field: usize) -> f64 { match field {')
    for i, (n, t) in enumerate(fs): o.append(f'        {i} => self.{n} as f64,')
    o.append('        _ => unreachable!() } }')
    o.append('}')
    makers.append(f'    |a| Box::new({path}::init({", ".join(conv(i,t) for i,(n,t) in enumerate(s["init"]))})),')
    api['structs'].append(dict(path=strip(s), init=[n for n, _ in s['init']],
        methods=[dict(path=n, args=[x for x, _ in a]) for n, a in ms], fields=[n for n, _ in fs]))
o.append('pub static MAKERS: &[fn(&[f64]) -> Box<dyn Model>] = &[')
o += makers
o.append('];')
open(os.path.join(OUT, 'probe/src/table.rs'), 'w').write('\n'.join(o) + '\n')
json.dump(api, open(os.path.join(OUT, 'probe/api.json'), 'w'), indent=0)
print(len(api['funs']), 'functions', len(api['structs']), 'structs', sum(len(s['methods']) for s in api['structs']), 'struct-method pairs')
