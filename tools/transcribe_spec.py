#!/usr/bin/env python3
"""One-off transcription aid: drafts harness/spec.tsv (the frozen record table
of the VPX game item streams) from the base commit. Not run by any check; the
committed table is the specification and is reviewed by hand."""
import re, glob, sys
KINDS = "Wall:0 Flipper:1 Timer:2 Plunger:3 TextBox:4 Bumper:5 Trigger:6 Light:7 Kicker:8 Decal:9 Gate:10 Spinner:11 Ramp:12 Reel:17 LightSequencer:18 Primitive:19 Flasher:20 Rubber:21 HitTarget:22 Ball:23 PartGroup:24".split()
enums = {}
for f in glob.glob('/repo/src/vpx/gameitem/*.rs'):
    s = open(f).read()
    for m in re.finditer(r'impl From<u32> for (\w+) \{(.*?)\n\}', s, re.S):
        enums[m.group(1)] = [(int(a), b) for a, b in re.findall(r'(\d+) => \w+::(\w+)', m.group(2))]
out = []
for kt in KINDS:
    K, ty = kt.split(':')
    f = '/repo/src/vpx/gameitem/%s.rs' % K.lower()
    s = open(f).read().split('#[cfg(test)]\nmod tests')[0]
    st = re.search(r'pub struct %s \{(.*?)\n\}' % K, s, re.S).group(1)
    types = dict(re.findall(r'^    pub (\w+): ([^,\n]*),', st, re.M))
    i = s.index('impl BiffWrite for ' + K)
    w = s[i:]; w = w[:w.index('\n}\n')]
    r = s[s.index('impl BiffRead for ' + K):i]
    def field(tag):
        m = re.search(r'"%s" =>\s*\{?(?:\s*//[^\n]*)*\s*(\w+)\.(\w+(?:\[\d\])?) =' % tag, r)
        return m.group(2) if m else None
    opt = None
    for m in re.finditer(r'if let Some\((\w+)\) = |for \w+ in|self\.timer\.(biff_write\w*)|self\.(write_shared_attributes)|writer\s*\.write_(\w+)\(\s*(?:"(\w{4})")?([^;]*)|(\n        \})', w):
        if m.group(7): opt = None; continue
        if m.group(1): opt = m.group(1); continue
        if m.group(2):
            if 'tmin' not in m.group(2): out.append((K, ty, 'TMON', 'bool', 0, 'timer.is_enabled', 'timer_enabled'))
            if 'tmon' not in m.group(2): out.append((K, ty, 'TMIN', 'i32', 0, 'timer.interval', 'timer_interval'))
            continue
        if m.group(3):
            out += [(K, ty, 'LOCK', 'bool', 0, 'is_locked', '-'), (K, ty, 'LAYR', 'u32', 1, 'editor_layer', '-'), (K, ty, 'LANR', 'str', 1, 'editor_layer_name', '-'),
                    (K, ty, 'GRUP', 'str', 1, 'part_group_name', 'part_group_name'), (K, ty, 'LVIS', 'bool', 1, 'editor_layer_visibility', '-')]
            continue
        if not m.group(4): continue
        call, tag, rest = m.group(4), m.group(5), m.group(6)
        if not tag: continue
        fl = field(tag)
        t = {'tagged_f32': 'f32', 'tagged_u32': 'u32', 'tagged_i32': 'i32', 'tagged_bool': 'bool', 'tagged_string': 'str', 'tagged_wide_string': 'wstr', 'marker_tag': 'marker',
             'tagged_data': 'data', 'tagged_unpadded_vector': 'vec3', 'tagged_without_size': 'font'}.get(call)
        if tag == 'DPNT': t = 'dpnt'; fl = 'drag_points'
        elif call == 'tagged': t = 'vec2' if 'Vertex2D' in types.get(fl, '') else 'vec3p'
        elif call == 'tagged_with': t = 'color' if 'Color' in rest else 'vec3'
        if tag == 'DILI': t = 'dili'
        o = 1 if types.get(fl, '').startswith('Option') else 0
        assert o == (opt is not None) or t in ('marker', 'dpnt') or tag in ('M3AY', 'M3AX'), (K, tag, fl, types.get(fl), opt)
        base = re.sub(r'^Option<(.*)>$', r'\1', types.get(fl, ''))
        if t == 'u32' and base in enums: t = ('enum+:' if base == 'GateType' else 'enum:') + ','.join('%d=%s' % x for x in enums[base])
        js = {'return_': 'return'}.get(fl, fl) if fl else '-'
        out.append((K, ty, tag, t, o, fl, js or '-'))
for o in out: print('\t'.join(map(str, o)))
