#!/usr/bin/env python3
"""Generates /verif/api/src/table.rs: one C-callable thunk per public function of the crate in /repo.
Run by hand when the public API grows; the output is committed (checks do not run this)."""
import re, os, sys
import parse_api as P

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'api', 'src', 'table.rs')

# slot kinds (see sim/host.cpp)
K = dict(F32=0, FVEC=1, QUAT=2, UNIT3=3, PLANE=4, ANGLE=5, MAT=6, IVEC=7, U32=8, IDX=9, BOOL=10, SPHERE=11, BOX=12,
         OBB=13, FRUST=14, POINTS=15, HALF=16, RAW=17, PROJ=18, SMALLF=19, I32=20, TEXT=21, FLAGS=22, ROTMAT=23)
DIR = dict(val=0, ref=1, out=2, inout=3, ret=4)

SIZES = {  # type -> (size, align, cmp, component)
    'f32': (4, 4, 4, 4), 'u32': (4, 4, 4, 4), 'i32': (4, 4, 4, 4), 'u16': (2, 2, 2, 2), 'usize': (8, 8, 8, 8), 'bool': (1, 1, 1, 1),
    'XMVECTOR': (16, 16, 16, 4), 'XMMATRIX': (64, 16, 64, 4), 'XMVector': (16, 16, 16, 4), 'XMMatrix': (64, 16, 64, 4),
    'XMFLOAT2': (8, 4, 8, 4), 'XMFLOAT3': (12, 4, 12, 4), 'XMFLOAT4': (16, 4, 16, 4),
    'XMINT2': (8, 4, 8, 4), 'XMINT3': (12, 4, 12, 4), 'XMINT4': (16, 4, 16, 4),
    'XMUINT2': (8, 4, 8, 4), 'XMUINT3': (12, 4, 12, 4), 'XMUINT4': (16, 4, 16, 4),
    'XMFLOAT3X3': (36, 4, 36, 4), 'XMFLOAT4X3': (48, 4, 48, 4), 'XMFLOAT3X4': (48, 4, 48, 4), 'XMFLOAT4X4': (64, 4, 64, 4),
    'Align16<XMFLOAT3>': (16, 16, 12, 4), 'Align16<XMFLOAT4>': (16, 16, 16, 4), 'Align16<XMFLOAT4X4>': (64, 16, 64, 4),
    '[u32; 2]': (8, 4, 8, 4), '[u32; 3]': (12, 4, 12, 4), '[u32; 4]': (16, 4, 16, 4),
    '[f32; 2]': (8, 4, 8, 4), '[f32; 3]': (12, 4, 12, 4), '[f32; 4]': (16, 4, 16, 4), '[f32; 9]': (36, 4, 36, 4),
    '[f32; 12]': (48, 4, 48, 4), '[f32; 16]': (64, 4, 64, 4), '[[f32; 4]; 4]': (64, 4, 64, 4), '[[f32; 3]; 3]': (36, 4, 36, 4),
    '[[f32; 3]; 4]': (48, 4, 48, 4), '[[f32; 4]; 3]': (48, 4, 48, 4), '[i32; 2]': (8, 4, 8, 4), '[i32; 3]': (12, 4, 12, 4), '[i32; 4]': (16, 4, 16, 4),
    '[XMFLOAT3; 8]': (96, 4, 96, 4),
    'BoundingSphere': (16, 4, 16, 4), 'BoundingBox': (24, 4, 24, 4), 'BoundingOrientedBox': (40, 4, 40, 4), 'BoundingFrustum': (52, 4, 52, 4),
    'ContainmentType': (4, 4, 4, 4), 'PlaneIntersectionType': (4, 4, 4, 4),
    'Pts': (4 + 12 * 24, 4, 4 + 12 * 24, 4),
}
ALIAS = {'FXMVECTOR': 'XMVECTOR', 'GXMVECTOR': 'XMVECTOR', 'HXMVECTOR': 'XMVECTOR', 'CXMVECTOR': '&XMVECTOR', 'FXMMATRIX': 'XMMATRIX',
         'CXMMATRIX': '&XMMATRIX', 'HALF': 'u16'}
VOL = {'BoundingSphere': 'SPHERE', 'BoundingBox': 'BOX', 'BoundingOrientedBox': 'OBB', 'BoundingFrustum': 'FRUST'}

def kind_for(fn, pname, ty):
    n = pname.lower()
    if ty in VOL: return VOL[ty], 0
    if ty == 'bool': return 'BOOL', 0
    if ty == 'u16': return 'HALF', 0
    if ty == 'usize': return 'IDX', 4
    if ty == 'i32': return 'I32', 16
    if ty == 'u32':
        if fn == 'XMVectorSwizzle' or n in ('elements', 'vsleftrotateelements'): return 'IDX', 4
        if fn == 'XMVectorPermute': return 'IDX', 8
        if n.startswith('vectorindex') or n.startswith('select') or fn == 'XMVectorSetBinaryConstant': return 'IDX', 2
        if n.endswith('exponent'): return 'IDX', 32
        return 'U32', 0
    if ty == 'f32':
        if 'angle' in n or n in ('pitch', 'yaw', 'roll', 'fovangley'): return 'ANGLE', 0
        if n in ('nearz', 'farz', 'viewwidth', 'viewheight', 'aspectratio', 'scale'): return 'SMALLF', 0
        return 'F32', 0
    if ty in ('XMVECTOR', 'XMVector'):
        if 'Int' in fn and 'Point' not in fn and 'Intersect' not in fn and 'Float' not in fn: return 'IVEC', 0
        if fn in ('XMConvertVectorIntToFloat', 'XMConvertVectorUIntToFloat'): return 'IVEC', 0
        if n.startswith('plane') or n in ('p', 'p1', 'p2', 'shadowplane', 'reflectionplane'): return 'PLANE', 0
        if n.startswith('q') or 'quaternion' in n or n == 'rotation' or n == 'scalingorientationquaternion': return 'QUAT', 0
        if 'direction' in n or 'axis' in n or 'normal' in n or n == 'incident': return 'UNIT3', 0
        if 'angle' in n: return 'ANGLE', 0
        if n == 'control': return 'IVEC', 1
        return 'FVEC', 0
    if ty in ('XMMATRIX', 'XMMatrix'):
        if n == 'projection': return 'PROJ', 0
        return 'MAT', 0
    if ty.startswith('[u32') or ty.startswith('[i32') or 'INT' in ty: return 'IVEC', 0
    return 'FVEC', 0

entries = []  # (name, flags, [slots], body)

def slot(d, kind, ty, arg=0):
    s, a, c, comp = SIZES[ty]
    return (DIR[d], K[kind], s, a, c, comp, arg)

def base(fn, path, selfty, flags=0, extra_ret=None):
    """Builds the thunk of a parsed function."""
    slots = []; exprs = []; pre = []
    is_method = False
    for a in fn['args']:
        if a == '&self':
            is_method = True
            i = len(slots); slots.append(slot('ref', VOL[selfty], selfty)); exprs.append(f'r::<{selfty}>(a,{i})'); continue
        nm, ty = [x.strip() for x in a.split(':', 1)]
        ty = ty.replace("'a ", '')
        ty = ALIAS.get(ty, ty)
        if ty.startswith('Option<&mut '):
            inner = ty[len('Option<&mut '):-1]
            i = len(slots); slots.append(slot('val', 'BOOL', 'bool')); slots.append(slot('out', 'RAW', inner))
            exprs.append(f'o::<{inner}>(a,{i},{i+1})'); continue
        if ty.startswith('&mut '):
            inner = ty[5:].replace('Self', selfty or '')
            inner = ALIAS.get(inner, inner).replace('BoundingBox::CORNER_COUNT', '8').replace('BoundingFrustum::CORNER_COUNT', '8')
            i = len(slots); slots.append(slot('out', 'RAW', inner)); exprs.append(f'm::<{inner}>(a,{i})'); continue
        if ty.startswith('&'):
            inner = ty[1:].replace('Self', selfty or ''); inner = ALIAS.get(inner, inner)
            k, g = kind_for(fn['name'], nm, inner)
            i = len(slots); slots.append(slot('ref', k, inner, g)); exprs.append(f'r::<{inner}>(a,{i})'); continue
        if ty.startswith('impl Iterator'):
            i = len(slots); slots.append(slot('ref', 'POINTS', 'Pts')); exprs.append(f'HostIter::new(a,{i})'); continue
        k, g = kind_for(fn['name'], nm, ty)
        i = len(slots); slots.append(slot('val', k, ty, g)); exprs.append(f'v::<{ty}>(a,{i})')
    ret = ALIAS.get(fn['ret'], fn['ret'])
    call = f'{path}({", ".join(exprs)})'
    if ret:
        i = len(slots); slots.append(slot('ret', 'RAW', ret)); body = f'w::<{ret}>(a,{i},{call})'
    else: body = call
    return slots, body

names = set()
def add(name, flags, slots, body):
    assert name not in names, name
    assert len(slots) <= 24, name
    names.add(name); entries.append((name, flags, slots, body))

FL_STREAM, FL_DEBUG, FL_STORE, FL_CMPCB = 1, 2, 4, 8

for f in P.FILES:
    for fn in P.functions(f):
        sc = ' '.join(fn['scopes'])
        if 'mod internal' in sc or 'macro_rules' in sc or '$' in ' '.join(fn['args']): continue
        if fn['unsafe'] or fn['name'] in ('XMMin', 'XMMax'): continue
        m = re.search(r'impl (\w+)$', sc)
        selfty = m.group(1) if m else None
        if selfty: path = f'{selfty}::{fn["name"]}'; name = path
        elif 'triangle_tests' in sc: path = f'directx_math::collision::triangle_tests::{fn["name"]}'; name = 'triangle_tests::' + fn['name']
        else: path = f'directx_math::{fn["name"]}'; name = fn['name']
        fl = 0
        if fn['name'] == 'CreateFromPoints': fl |= FL_STREAM
        if fn['name'].startswith('XMStore'): fl |= FL_STORE
        if name in names: continue   # cfg alternatives of one function
        slots, body = base(fn, path, selfty)
        add(name, fl, slots, body)

# --- hand-written: scalar Min/Max, with plain values and with a caller-supplied comparison
for fn in ('XMMin', 'XMMax'):
    add(f'{fn}<f32>', 0, [slot('val', 'F32', 'f32'), slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'f32')], f'w::<f32>(a,2,directx_math::{fn}(v::<f32>(a,0), v::<f32>(a,1)))')
    add(f'{fn}<u32>', 0, [slot('val', 'U32', 'u32'), slot('val', 'U32', 'u32'), slot('ret', 'RAW', 'u32')], f'w::<u32>(a,2,directx_math::{fn}(v::<u32>(a,0), v::<u32>(a,1)))')
    add(f'{fn}<caller type>', FL_CMPCB, [slot('val', 'F32', 'f32'), slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'f32')], f'w::<f32>(a,2,directx_math::{fn}(cmpcb(v::<f32>(a,0)), cmpcb(v::<f32>(a,1))).0)')

# --- operators
def op(name, slots, body, fl=0): add(name, fl, slots, body)
V = lambda d='val': slot(d, 'FVEC', 'XMVector'); M = lambda d='val': slot(d, 'MAT', 'XMMatrix'); S = slot('val', 'F32', 'f32')
for n, sym in (('add', '+'), ('sub', '-'), ('mul', '*'), ('div', '/')):
    op(f'XMVector::{n}', [V(), V(), slot('ret', 'RAW', 'XMVector')], f'w::<XMVector>(a,2, v::<XMVector>(a,0) {sym} v::<XMVector>(a,1))')
    op(f'XMVector::{n}_assign', [V('inout'), V()], f'*m::<XMVector>(a,0) {sym}= v::<XMVector>(a,1)')
for n, sym in (('add', '+'), ('sub', '-'), ('mul', '*')):
    op(f'XMMatrix::{n}', [M(), M(), slot('ret', 'RAW', 'XMMatrix')], f'w::<XMMatrix>(a,2, v::<XMMatrix>(a,0) {sym} v::<XMMatrix>(a,1))')
    op(f'XMMatrix::{n}_assign', [M('inout'), M()], f'*m::<XMMatrix>(a,0) {sym}= v::<XMMatrix>(a,1)')
for T, mk in (('XMVector', V), ('XMMatrix', M)):
    op(f'f32*{T}', [S, mk(), slot('ret', 'RAW', T)], f'w::<{T}>(a,2, v::<f32>(a,0) * v::<{T}>(a,1))')
    for n, sym in (('mul', '*'), ('div', '/')):
        op(f'{T}::{n}<f32>', [mk(), S, slot('ret', 'RAW', T)], f'w::<{T}>(a,2, v::<{T}>(a,0) {sym} v::<f32>(a,1))')
        op(f'{T}::{n}_assign<f32>', [mk('inout'), S], f'*m::<{T}>(a,0) {sym}= v::<f32>(a,1)')
    op(f'{T}::neg', [mk(), slot('ret', 'RAW', T)], f'w::<{T}>(a,1, -v::<{T}>(a,0))')
    op(f'{T}::eq', [mk('ref'), mk('ref'), slot('ret', 'RAW', 'bool')], f'w::<bool>(a,2, r::<{T}>(a,0) == r::<{T}>(a,1))')
    op(f'{T}::deref_mut', [mk('inout'), mk('ref')], f'{{ let d: &mut {T.upper()} = &mut *m::<{T}>(a,0); let s: &{T.upper()} = &*r::<{T}>(a,1); *d = *s; }}')
op('XMVector::from', [slot('ref', 'FVEC', '[f32; 4]'), slot('ret', 'RAW', 'XMVector')], 'w::<XMVector>(a,1, XMVector::from(r::<[f32; 4]>(a,0)))')
for A in ('[f32; 16]', '[[f32; 4]; 4]'):
    op(f'XMMatrix::from<{A}>', [slot('ref', 'FVEC', A), slot('ret', 'RAW', 'XMMatrix')], f'w::<XMMatrix>(a,1, XMMatrix::from(r::<{A}>(a,0)))')
    op(f'XMMatrix::into<{A}>', [M(), slot('ret', 'RAW', A)], f'w::<{A}>(a,1, v::<XMMatrix>(a,0).into())')

# --- plain structs: conversions
for T, A in (('XMFLOAT2', '[f32; 2]'), ('XMFLOAT3', '[f32; 3]'), ('XMFLOAT4', '[f32; 4]'), ('XMINT2', '[i32; 2]'), ('XMINT3', '[i32; 3]'), ('XMINT4', '[i32; 4]'),
             ('XMUINT2', '[u32; 2]'), ('XMUINT3', '[u32; 3]'), ('XMUINT4', '[u32; 4]'),
             ('XMFLOAT3X3', '[f32; 9]'), ('XMFLOAT3X3', '[[f32; 3]; 3]'), ('XMFLOAT4X3', '[f32; 12]'), ('XMFLOAT4X3', '[[f32; 3]; 4]'),
             ('XMFLOAT3X4', '[f32; 12]'), ('XMFLOAT3X4', '[[f32; 4]; 3]'), ('XMFLOAT4X4', '[f32; 16]'), ('XMFLOAT4X4', '[[f32; 4]; 4]')):
    k = 'IVEC' if 'INT' in T else 'FVEC'
    op(f'{T}::from<{A}>', [slot('val', k, A), slot('ret', 'RAW', T)], f'w::<{T}>(a,1, {T}::from(v::<{A}>(a,0)))')
    op(f'{T}::into<{A}>', [slot('val', k, T), slot('ret', 'RAW', A)], f'{{ let x: {A} = v::<{T}>(a,0).into(); w::<{A}>(a,1, x) }}')
    op(f'&{T}::from<&{A}>', [slot('ref', k, A), slot('ret', 'RAW', T)], f'{{ let x: &{T} = <&{T}>::from(r::<{A}>(a,0)); w::<{T}>(a,1, *x) }}')
    op(f'&{T}::into<&{A}>', [slot('ref', k, T), slot('ret', 'RAW', A)], f'{{ let x: &{A} = r::<{T}>(a,0).into(); w::<{A}>(a,1, *x) }}')
    op(f'{T}::as_ref<{A}>', [slot('ref', k, T), slot('ret', 'RAW', A)], f'{{ let x: &{A} = r::<{T}>(a,0).as_ref(); w::<{A}>(a,1, *x) }}')
    op(f'{T}::as_mut<{A}>', [slot('inout', k, T), slot('val', k, A)], f'{{ let x: &mut {A} = m::<{T}>(a,0).as_mut(); *x = v::<{A}>(a,1); }}')
op('Align16<XMFLOAT3>', [slot('val', 'FVEC', 'XMFLOAT3'), slot('ret', 'RAW', 'XMFLOAT3')], 'w::<XMFLOAT3>(a,1, *Align16::from(v::<XMFLOAT3>(a,0)))')
op('Align16<caller type>::from', [slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'f32')], 'w::<f32>(a,1, Align16::from(cmpcb(v::<f32>(a,0))).0 .0)', FL_CMPCB)
op('Align16<caller type>::deref', [slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'f32')], '{ let mut x = Align16::from(cmpcb(v::<f32>(a,0))); x.as_mut().0 += 1.0; (*x).0 *= 0.5; w::<f32>(a,1, x.as_ref().0) }', FL_CMPCB)
op('Align16<caller type>::lt', [slot('val', 'F32', 'f32'), slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'u32')], 'w::<u32>(a,2, (Align16(cmpcb(v::<f32>(a,0))) < Align16(cmpcb(v::<f32>(a,1)))) as u32)', FL_CMPCB)
op('Align16<caller type>::eq', [slot('val', 'F32', 'f32'), slot('val', 'F32', 'f32'), slot('ret', 'RAW', 'u32')], 'w::<u32>(a,2, (Align16(cmpcb(v::<f32>(a,0))) == Align16(cmpcb(v::<f32>(a,1)))) as u32)', FL_CMPCB)
op('Align16<XMFLOAT4X4>::as_ref', [slot('ref', 'FVEC', 'Align16<XMFLOAT4X4>'), slot('ret', 'RAW', 'XMFLOAT4X4')], '{ let x: &XMFLOAT4X4 = r::<Align16<XMFLOAT4X4>>(a,0).as_ref(); w::<XMFLOAT4X4>(a,1, *x) }')
op('Align16<XMFLOAT4>::as_mut', [slot('inout', 'FVEC', 'Align16<XMFLOAT4>'), slot('val', 'FVEC', 'XMFLOAT4')], '{ let x: &mut XMFLOAT4 = m::<Align16<XMFLOAT4>>(a,0).as_mut(); *x = v::<XMFLOAT4>(a,1); }')

for T, fl in (('XMFLOAT2', 'f32 x y'), ('XMFLOAT3', 'f32 x y z'), ('XMFLOAT4', 'f32 x y z w'), ('XMINT2', 'i32 x y'), ('XMINT3', 'i32 x y z'), ('XMINT4', 'i32 x y z w'), ('XMUINT2', 'u32 x y'), ('XMUINT3', 'u32 x y z'), ('XMUINT4', 'u32 x y z w')):
    ty, *fs = fl.split(); k = 'F32' if ty == 'f32' else 'U32'
    op(f'{T}::set', [slot('val', k, ty) for _ in fs] + [slot('ret', 'RAW', T)], f'w::<{T}>(a,{len(fs)}, {T}::set(' + ', '.join(f'v::<{ty}>(a,{i})' for i in range(len(fs))) + '))')
for T, k in (('XMFLOAT2', 'FVEC'), ('XMFLOAT3', 'FVEC'), ('XMFLOAT4', 'FVEC'), ('XMINT2', 'IVEC'), ('XMINT3', 'IVEC'), ('XMINT4', 'IVEC'), ('XMUINT2', 'IVEC'), ('XMUINT3', 'IVEC'), ('XMUINT4', 'IVEC'), ('XMFLOAT3X3', 'FVEC'), ('XMFLOAT4X3', 'FVEC'), ('XMFLOAT3X4', 'FVEC'), ('XMFLOAT4X4', 'FVEC'),
             ('BoundingSphere', 'SPHERE'), ('BoundingBox', 'BOX'), ('BoundingOrientedBox', 'OBB'), ('BoundingFrustum', 'FRUST')):
    op(f'{T}::default', [slot('ret', 'RAW', T)], f'w::<{T}>(a,0, {T}::default())')
    op(f'{T}::clone', [slot('ref', k, T), slot('ret', 'RAW', T)], f'w::<{T}>(a,1, Clone::clone(r::<{T}>(a,0)))')
for T, k in (('XMVector', 'FVEC'), ('XMMatrix', 'MAT'), ('XMMATRIX', 'MAT'), ('Align16<XMFLOAT4>', 'FVEC')):
    op(f'{T}::clone', [slot('ref', k, T), slot('ret', 'RAW', T)], f'w::<{T}>(a,1, Clone::clone(r::<{T}>(a,0)))')

# --- compile-time swizzle / permute
SW = 'XYZW'
for s in ('XYZW', 'WZYX', 'XYXY', 'ZWZW', 'XXYY', 'ZZWW', 'XXXX', 'WWXZ', 'YXWZ', 'ZXYW'):
    t = ', '.join('Swizzle' + c for c in s)
    op(f'<({s})>::XMVectorSwizzle', [slot('val', 'FVEC', 'XMVECTOR'), slot('ret', 'RAW', 'XMVECTOR')], f'w::<XMVECTOR>(a,1, <({t}) as directx_math::XMVectorSwizzle>::XMVectorSwizzle(v::<XMVECTOR>(a,0)))')
for s in ('0X0Y0Z0W', '1X1Y1Z1W', '0X0Y1X1Y', '1Z1W0Z0W', '0X0Z1X1Z', '0Y1Y0W1W', '1W0X1Y0Z', '0X1Y0Z1W', '1X0Y1Z0W', '0W0W1X1X'):
    t = ', '.join('Permute' + s[i:i+2] for i in range(0, 8, 2))
    op(f'<({s})>::XMVectorPermute', [slot('val', 'FVEC', 'XMVECTOR'), slot('val', 'FVEC', 'XMVECTOR'), slot('ret', 'RAW', 'XMVECTOR')],
       f'w::<XMVECTOR>(a,2, <({t}) as directx_math::XMVectorPermute>::XMVectorPermute(v::<XMVECTOR>(a,0), v::<XMVECTOR>(a,1)))')

# --- Debug formatting into a caller-supplied writer
for T, k in (('XMVector', 'FVEC'), ('XMVECTOR', 'FVEC'), ('XMMatrix', 'MAT'), ('XMMATRIX', 'MAT'), ('XMFLOAT2', 'FVEC'), ('XMFLOAT3', 'FVEC'), ('XMFLOAT4', 'FVEC'),
          ('XMINT2', 'IVEC'), ('XMINT3', 'IVEC'), ('XMINT4', 'IVEC'), ('XMUINT2', 'IVEC'), ('XMUINT3', 'IVEC'), ('XMUINT4', 'IVEC'),
          ('XMFLOAT3X3', 'FVEC'), ('XMFLOAT4X3', 'FVEC'), ('XMFLOAT3X4', 'FVEC'), ('XMFLOAT4X4', 'FVEC'), ('Align16<XMFLOAT3>', 'FVEC'), ('Align16<XMFLOAT4X4>', 'FVEC'),
          ('BoundingSphere', 'SPHERE'), ('BoundingBox', 'BOX'), ('BoundingOrientedBox', 'OBB'), ('BoundingFrustum', 'FRUST')):
    op(f'Debug for {T}', [slot('ref', k, T), slot('val', 'FLAGS', 'u32', 6), slot('ret', 'RAW', 'u32')], f'w::<u32>(a,2, dbg(r::<{T}>(a,0), v::<u32>(a,1)))', FL_DEBUG)
op('Debug for ContainmentType', [slot('val', 'IDX', 'u32', 3), slot('val', 'FLAGS', 'u32', 6), slot('ret', 'RAW', 'u32')],
   'w::<u32>(a,2, { use directx_math::collision::ContainmentType::*; dbg(&[DISJOINT, INTERSECTS, CONTAINS][v::<u32>(a,0) as usize % 3], v::<u32>(a,1)) })', FL_DEBUG)
op('Debug for PlaneIntersectionType', [slot('val', 'IDX', 'u32', 3), slot('val', 'FLAGS', 'u32', 6), slot('ret', 'RAW', 'u32')],
   'w::<u32>(a,2, { use directx_math::collision::PlaneIntersectionType::*; dbg(&[FRONT, INTERSECTING, BACK][v::<u32>(a,0) as usize % 3], v::<u32>(a,1)) })', FL_DEBUG)

with open(OUT, 'w') as o:
    o.write('// Generated by gen/gen_api.py from the public API of /repo. Do not edit.\nuse crate::support::*;\nuse directx_math::*;\nuse directx_math::collision::*;\n\n')
    for i, (n, fl, sl, body) in enumerate(entries):
        o.write(f'unsafe extern "C" fn t{i}(a: Args) -> u32 {{ guard(|| {{ {body}; }}) }} // {n}\n')
    o.write(f'\npub static TABLE: [FnDesc; {len(entries)}] = [\n')
    for i, (n, fl, sl, body) in enumerate(entries):
        ss = ', '.join(f's({",".join(map(str, x))})' for x in sl)
        o.write(f'    FnDesc {{ name: b"{n}\\0".as_ptr(), thunk: t{i}, slots: &[{ss}] as *const [Slot] as *const Slot, nslots: {len(sl)}, flags: {fl} }},\n')
    o.write('];\n')
print(len(entries), 'entries; max slots', max(len(e[2]) for e in entries))
