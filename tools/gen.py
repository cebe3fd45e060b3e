#!/usr/bin/env python3
"""gen.py <property> <seed> <tier> <outdir>: writes a cargo workspace of generated stable types with, for each of
them, the facts that the documented layout rules give it (an independent model of those rules)."""
import os, random, sys

# ------------------------------------------------------------------ layout model
def up(n, a): return (n + a - 1) // a * a
END = ('end',)
def fv_shift(f, o):
    if f[0] == 'end': return f
    if f[0] == 'pat': return ('pat', tuple((a + o, v) for a, v in f[1]))
    if f[0] == 'range': return ('range', f[1], f[2], f[3] + o)
    return ('or', fv_shift(f[1], o), fv_shift(f[2], o))
def fv_one(f):
    """the first forbidden value, as a list of (offset, byte)"""
    if f[0] == 'end': return None
    if f[0] == 'pat': return f[1]
    if f[0] == 'range': return ((f[3], f[1]),)
    return fv_one(f[1])
def fv_in(f, mask):
    """the first forbidden value lying in whole spare bytes of `mask`"""
    free = {o for o, m in mask if m == 0xFF}
    if f[0] == 'end': return None
    if f[0] == 'pat': return f[1] if all(o in free for o, _ in f[1]) else None
    if f[0] == 'range': return ((f[3], f[1]),) if f[3] in free else None
    a = fv_in(f[1], mask)
    return a if a is not None else fv_in(f[2], mask)
def ub_shift(u, o): return [(a + o, m) for a, m in u]
def pad(n, at=0): return [(at + i, 0xFF) for i in range(n)]
def byte_at(u, o):
    for a, m in u:
        if a == o: return m
    return 0
def ub_and(u, w):
    r = []
    for a, m in u:
        x = m & byte_at(w, a)
        if x: r.append((a, x))
    return r
def ub_extract(u):
    (o, m), rest = u[0], u[1:]
    bit = m & -m
    return ([(o, m ^ bit)] if m ^ bit else []) + rest, (o, bit)

class F:
    """the facts of a type"""
    def __init__(s, size, align, ub=(), fv=END, hx=0, ind=False):
        s.size, s.align, s.ub, s.fv, s.hx, s.ind = size, align, list(ub), fv, hx, ind
    def sub(s, **k):
        r = F(s.size, s.align, s.ub, s.fv, s.hx, s.ind)
        for a, b in k.items(): setattr(r, a, b)
        return r
UNIT = F(0, 1)
def pair(a, b):
    start = up(a.size, b.align)
    return F(start + b.size, max(a.align, b.align), a.ub + pad(start - a.size, a.size) + ub_shift(b.ub, start),
             ('or', a.fv, fv_shift(b.fv, start)),
             min(2, a.hx + b.hx) if start == a.size else 2, a.ind or b.ind)
def struct(fields, align=None):
    """returns the facts and the offsets of the fields"""
    if not fields:
        l = UNIT
        if align is None: return l, []
    else:
        l = fields[0]
    offs = [0] if fields else []
    for f in fields[1:]:
        offs.append(up(l.size, f.align))
        l = pair(l, f)
    natural = up(l.size, l.align)
    ub = l.ub + pad(natural - l.size, l.size)
    al = max(l.align, align or 1)
    size = up(l.size, al)
    return F(size, al, ub, l.fv, l.hx if size == l.size else 2, l.ind), offs
def union(fs):
    al = max(f.align for f in fs)
    return F(up(max(f.size for f in fs), al), al, (), END, 0, any(f.ind for f in fs))
def array(t, n):
    if n == 1: return t.sub()
    return F(t.size * n, t.align, (), END, 0 if n == 0 else 2, t.ind)
def inner(a, b):
    """a.size >= b.size: (shift of b, determinant, negated, exporter or None)"""
    if b.size == 0:
        p = fv_one(a.fv)
        if p is not None: return 0, ('value', p), False, (list(a.ub), END)
        if a.ub:
            rest, (o, m) = ub_extract(a.ub)
            return 0, ('bit', o, m), False, (rest, END)
        return 0, ('tag',), False, ([], END)
    us = up(max(a.size, b.size), max(a.align, b.align))
    okub = a.ub + pad(us - a.size, a.size)
    shift = 0
    for i in range(8):
        if i and shift + b.size > us: break
        errub = pad(shift) + ub_shift(b.ub, shift) + pad(us - b.size - shift, shift + b.size)
        both = ub_and(okub, errub)
        p = fv_in(fv_shift(b.fv, shift), okub)
        if p is not None: return shift, ('value', p), True, (both, END)
        p = fv_in(a.fv, errub)
        if p is not None: return shift, ('value', p), False, (both, END)
        if both:
            rest, (o, m) = ub_extract(both)
            return shift, ('bit', o, m), False, (rest, END)
        shift += b.align
    return 0, ('tag',), False, ([], END)
def result(ok, err):
    """facts, (ok offset, err offset, negated, determinant)"""
    al = max(ok.align, err.align)
    if ok.size >= err.size:
        sh, det, neg, (eub, efv) = inner(ok, err); oko, erro = 0, sh
    else:
        sh, det, neg, (eub, efv) = inner(err, ok); oko, erro = sh, 0; neg = not neg
    dsize = 1 if det[0] == 'tag' else 0
    base = up(dsize, al)
    size = base + up(max(ok.size, err.size), al)
    ub = ([(0, 254)] + pad(base - 1, 1) if dsize else []) + ub_shift(eub, base)
    return F(size, al, ub, efv, 0, ok.ind or err.ind), (base + oko, base + erro, neg, det)
def sum_tree(fs):
    if len(fs) == 1: return fs[0]
    k = len(fs) // 2
    return result(sum_tree(fs[:k]), sum_tree(fs[k:]))[0]

# ------------------------------------------------------------------ types
class T:
    def __init__(s, rust, f, full=False, copy=False, plain=False, trk=False, defs=(), kind='leaf', **k):
        s.rust, s.f, s.full, s.copy, s.plain, s.trk, s.kind = rust, f, full, copy, plain, trk, kind
        s.defs = list(defs)      # names of the user definitions it needs
        s.fields, s.sum, s.enum = None, None, None
        s.depth = s.hv = 0
        for a, b in k.items(): setattr(s, a, b)
def nzf(n, ind=False): return F(n, n, (), ('pat', tuple((i, 0) for i in range(n))), 1, ind)
def leaves():
    L = []
    for n in (8, 16, 32, 64, 128):
        for p in 'ui': L.append(T(f'{p}{n}', F(n // 8, n // 8), True, True, True))
    for p in 'ui': L.append(T(f'{p}size', F(8, 8), True, True, True))
    L.append(T('f32', F(4, 4), False, True, True)); L.append(T('f64', F(8, 8), False, True, True))
    for p in 'UI':
        for n in (8, 16, 32, 64, 128):
            L.append(T(f'core::num::NonZero{p}{n}', nzf(n // 8), True, True, True))
        L.append(T(f'core::num::NonZero{p}size', nzf(8), True, True, True))
    num = 'stabby::abi::num::'
    for n, b in (('NonMaxU8', 1), ('NonMaxU16', 2), ('NonMaxU32', 4), ('NonMaxU64', 8), ('NonMaxU128', 16), ('NonMaxUsize', 8),
                 ('NonXU8<255>', 1), ('NonXU16<513>', 2), ('NonXU32<4096>', 4), ('NonXI8<{ -1 }>', 1), ('NonXI64<{ -5 }>', 8), ('NonXI16<0>', 2)):
        L.append(T(num + n, nzf(b), False, True, True))
    rb = F(1, 1, (), ('range', 2, 255, 0), 2)
    L.append(T('bool', rb, True, True, True)); L.append(T('bool', rb, True, True, True))
    L.append(T('core::cmp::Ordering', F(1, 1, (), ('range', 2, 254, 0), 2), True, True, True))
    L.append(T('()', UNIT, True, True, True))
    L.append(T('core::marker::PhantomPinned', UNIT, True, True, True))
    L.append(T('core::marker::PhantomData<&\'static u8>', UNIT, True, True, True))
    for a, f in (('U8', F(1, 1)), ('U16', F(2, 2)), ('U32', F(4, 4)), ('U64', F(8, 8)), ('Usize', F(8, 8)), ('I8', F(1, 1)), ('I16', F(2, 2)),
                 ('I32', F(4, 4)), ('I64', F(8, 8)), ('Isize', F(8, 8)), ('Bool', rb)):
        L.append(T(f'core::sync::atomic::Atomic{a}', f.sub(), False, False))
    p = nzf(8, True)
    for t in ('u8', 'u32', '[u16; 3]', 'bool', 'u64', '()'):
        L.append(T(f"&'static {t}", p, True, True, False, wt=3))
    L.append(T("&'static mut u16", p, False, False))
    L.append(T('core::ptr::NonNull<u8>', p, True, True, False))
    L.append(T('*const u16', F(8, 8, ind=True), True, True, False)); L.append(T('*mut u64', F(8, 8, ind=True), True, True, False))
    L.append(T('core::sync::atomic::AtomicPtr<u8>', F(8, 8, ind=True)))
    L.append(T("core::pin::Pin<&'static u32>", p, True, True, False))
    L.append(T('extern "C" fn() -> u8', p, True, True, False)); L.append(T('extern "C" fn(u8, u64) -> bool', p, True, True, False))
    L.append(T('unsafe extern "C" fn(u32) -> u32', p, True, True, False))
    # owning types and views
    us, u0 = F(8, 8), UNIT
    vec = struct([p, p, p, u0])[0]
    S = 'stabby::'
    L.append(T(S + 'string::String', vec, True, trk=False)); L.append(T(S + 'vec::Vec<u16>', vec, False)); L.append(T(S + 'vec::Vec<vph::track::Tr>', vec, False, trk=True))
    L.append(T(S + 'boxed::Box<u32>', p, False)); L.append(T(S + 'boxed::Box<vph::track::Tr>', p, False, trk=True))
    L.append(T(S + 'sync::Arc<vph::track::Tr16>', p, False, trk=True)); L.append(T(S + 'sync::Arc<()>', p, False))
    sl = struct([p, us, u0])[0]
    L.append(T(S + "slice::Slice<'static, u16>", sl, True, True)); L.append(T(S + "str::Str<'static>", sl, True, True))
    # tracked values
    tr = struct([F(4, 4), F(4, 4)])[0]
    L.append(T('vph::track::Tr', tr, True, trk=True, wt=3))
    L.append(T('vph::track::TrNiche', struct([p, F(4, 4), F(4, 4), nzf(2)])[0], True, trk=True, wt=3))
    L.append(T('vph::track::TrBig', struct([us, F(4, 4), F(4, 4), us, F(32, 8, hx=2)])[0], True, trk=True))
    a16 = struct([us], 16)[0]
    L.append(T('vph::track::Tr16', struct([a16, F(4, 4), F(4, 4)])[0], True, trk=True))
    L.append(T('vph::track::TrZ', UNIT, True, trk=True))
    return L
LEAVES = leaves()
WTS = [getattr(t, 'wt', 1) for t in LEAVES]
SMALL = [t for t in LEAVES if t.f.size <= 8]
SMALLW = [getattr(t, 'wt', 1) for t in SMALL]
PLAININT = [t for t in LEAVES if t.rust in ('u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i32', 'i64', 'usize')]

MAXSIZE, MAXUB, MAXCOST = 96, 40, 20.
def npat(fv): return 0 if fv[0] == 'end' else 1 if fv[0] != 'or' else npat(fv[1]) + npat(fv[2])
class Gen:
    def __init__(s, rng, prefix, mods):
        s.r, s.defs, s.order, s.prefix, s.n, s.pool = rng, {}, [], prefix, 0, []
        s.deps, s.cost = {}, {}
    def name(s, k):
        s.n += 1
        return f'{k}{s.n}'
    def leaf(s, small=False):
        return s.r.choices(SMALL, SMALLW)[0] if small or s.r.random() < .55 else s.r.choices(LEAVES, WTS)[0]
    def ty(s, d):
        for _ in range(50):
            t = s.ty1(d)
            if t and t.f.size <= MAXSIZE and len(t.f.ub) <= MAXUB: return t
        return s.leaf()
    def ty1(s, d):
        r = s.r
        if d <= 0 or r.random() < .15: return s.leaf()
        if s.pool and r.random() < .2:
            t = r.choice(s.pool)
            if t.depth <= d: return t
        k = r.choices(['struct', 'tuple', 'array', 'union', 'nenum', 'senum', 'penum', 'opt', 'res', 'stdopt', 'stdres', 'md', 'mu', 'cell', 'notpod', 'inf', 'box', 'vec'],
                      [16, 8, 6, 4, 3, 8, 5, 10, 16, 3, 3, 2, 2, 2, 1, 1, 2, 1])[0]
        t = getattr(s, 'g_' + k)(d)
        if t: t.depth = d
        return t
    def define(s, t, text):
        s.defs[t.ident] = text
        s.order.append(t.ident)
        s.pool.append(t)
    def heavy(s, t): return 'stabby::result::' in t.rust or 'stabby::option::' in t.rust or any('stabby::result::' in s.defs[x] or 'stabby::option::' in s.defs[x] or x[0] == 'E' for x in t.defs)
    def merge(s, ts, extra=()):
        o = []
        for t in ts:
            for x in t.defs:
                if x not in o: o.append(x)
        for x in extra:
            if x not in o: o.append(x)
        return o
    def g_struct(s, d):
        r = s.r
        n = r.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 5, 6])
        fs = [s.ty(d - 1 if i == 0 else r.randint(0, d - 1)) for i in range(n)]
        align = r.choice([None] * 6 + [1, 2, 4, 8, 16, 32, 64])
        # rustc's time explodes on many fields after a sum type
        if any(s.heavy(x) and (n > 4 or n > 2 and len(x.f.ub) > 6) for x in fs): return None
        f, offs = struct([x.f for x in fs], align)
        if f.size > MAXSIZE: return None
        id = s.name('S'); style = r.choice('ntn') if n else r.choice('ntu')
        full, copy = all(x.full for x in fs), all(x.copy for x in fs)
        plain = all(x.plain for x in fs)
        reps = []
        if r.random() < .3: reps.append('C')
        if align: reps.append(f'align({align})')
        # a type parameter or lifetime for one of the fields
        gen = n and r.random() < .25
        gi = r.randrange(n) if gen else -1
        lt = not gen and any("'static" in x.rust and x.kind == 'leaf' for x in fs) and r.random() < .5
        tys = []
        if sum(x.rust.count("'static") for x in fs) != 1 or any(x.kind != 'leaf' for x in fs): lt = False  # two lifetimes in where-clauses are ambiguous to rustc
        for i, x in enumerate(fs):
            tys.append('X' if i == gi else x.rust)
        if lt:
            k = next(i for i, x in enumerate(fs) if "'static" in x.rust and x.kind == 'leaf')
            tys[k] = tys[k].replace("'static", "'a", 1)
            if 'fn' in tys[k]: lt = False; tys[k] = fs[k].rust
            if "PhantomData" in tys[k] or 'mut' in tys[k]: copy = copy
        g = '<X>' if gen else ("<'a>" if lt else '')
        inst = f'{id}<{fs[gi].rust}>' if gen else (f"{id}<'static>" if lt else id)
        names = [f'f{i}' for i in range(n)] if style == 'n' else [str(i) for i in range(n)]
        body = {'n': ' { ' + ', '.join(f'pub f{i}: {t}' for i, t in enumerate(tys)) + ' }', 't': '(' + ', '.join(f'pub {t}' for t in tys) + ');', 'u': ';'}[style]
        der = (['Clone', 'PartialEq', 'Eq', 'Hash', 'Debug'] if full else ['Clone'] if copy else []) + (['Copy'] if copy else [])
        if full and copy: der = ['Clone', 'Copy', 'PartialEq', 'Eq', 'Hash', 'Debug']
        text = '#[stabby::stabby(no_opt)]\n'
        if reps: text += f'#[repr({", ".join(reps)})]\n'
        if der: text += f'#[derive({", ".join(der)})]\n'
        text += f'pub struct {id}{g}{body}\n'
        text += f'vph::vstruct!([] {inst} {{ {", ".join(names)} }} []);\n'
        t = T(inst, f, full, copy, plain, any(x.trk for x in fs), s.merge(fs, [id]), 'struct', ident=id)
        t.fields = list(zip(names, offs))
        t.members = [(nm, x) for nm, x in zip(names, fs)]
        t.generic = bool(g)
        s.define(t, text)
        return t
    def g_tuple(s, d):
        n = s.r.choice([0, 1, 2, 2, 3, 3, 4, 5])
        fs = [s.ty(s.r.randint(0, d - 1)) for _ in range(n)]
        if any(s.heavy(x) and (n > 4 or n > 2 and len(x.f.ub) > 6) for x in fs): return None
        f, offs = struct([x.f for x in fs])
        g = '<' + ', '.join(x.rust for x in fs) + '>' if n else ''
        t = T(f'stabby::tuple::Tuple{n}{g}', f, all(x.full for x in fs), all(x.copy for x in fs), all(x.plain for x in fs), any(x.trk for x in fs), s.merge(fs), 'tuple')
        t.fields = [(str(i), o) for i, o in enumerate(offs)]
        return t
    def g_array(s, d):
        x = s.ty(d - 1); n = s.r.choice([0, 1, 1, 2, 3, 4, 7])
        return T(f'[{x.rust}; {n}]', array(x.f, n), x.full, x.copy, x.plain, x.trk, x.defs, 'array')
    def g_union(s, d):
        n = s.r.randint(1, 3)
        fs = [s.r.choice(PLAININT) for _ in range(n)]
        id = s.name('N'); f = union([x.f for x in fs])
        mx = max(x.f.size for x in fs)
        if any(x.f.align > mx for x in fs): return None
        text = f'#[stabby::stabby]\n#[derive(Clone, Copy)]\n#[allow(non_snake_case)]\npub union {id} {{ ' + ', '.join(f'pub f{i}: {x.rust}' for i, x in enumerate(fs)) + ' }\n'
        text += f'vph::vunion!({id}, {mx}, ' + ', '.join(f'f{i}: {x.rust}' for i, x in enumerate(fs)) + ');\n'
        t = T(id, f, False, True, False, False, [id], 'union', ident=id)
        t.members = [(f'f{i}', x) for i, x in enumerate(fs)]
        t.fields = [(f'f{i}', 0) for i in range(n)]
        t.generic = False
        s.define(t, text)
        return t
    # --- enums
    def impl_e(s, inst, vs, native, discr=None):
        n = len(vs)
        ref = lambda i, v: (f'|p| ({i}, p as &\'a dyn DynV)' if v else f'|| ({i}, &UNIT as &\'a dyn DynV)')
        def arms(m_val, m_unit, pats=''):
            return ', '.join((m_val if v else m_unit).replace('#', str(i)) for i, (_, v) in enumerate(vs))
        def match(scr, val, unit):
            return f'match {scr} {{ ' + ', '.join(f'Self::{nm}' + ('(p)' if v else '') + ' => ' + (val if v else unit).replace('#', str(i)) for i, (nm, v) in enumerate(vs)) + ' }'
        o = f'impl E for {inst} {{\n    const N: usize = {n};\n'
        o += '    fn gen_payload(i: usize, c: &mut Case) -> Box<dyn DynV> { match i { ' + ', '.join(f'{i} => Box::new(gen_noisy::<{v.rust if v else "()"}>(c))' for i, (_, v) in enumerate(vs)) + ', _ => unreachable!() } }\n'
        ctor = lambda nm, v: f'Self::{nm}(unbox(p))' if v else (f'Self::{nm}' if native else f'Self::{nm}()')
        o += '    fn make(i: usize, p: Box<dyn DynV>) -> Self { match i { ' + ', '.join(f'{i} => {ctor(nm, v)}' for i, (nm, v) in enumerate(vs)) + ', _ => unreachable!() } }\n'
        if native:
            o += "    fn view<'a>(&'a self) -> (usize, &'a dyn DynV) { " + match('self', '(#, p)', '(#, &UNIT)') + ' }\n'
            o += "    fn view_ctx<'a>(&'a self, k: u64) -> (usize, &'a dyn DynV, u64) { let (i, p) = self.view(); (i, p, k) }\n"
            o += '    fn edit(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV)) { ' + match('self', 'f(#, p)', 'f(#, &mut ())') + ' }\n'
            o += '    fn edit_ctx(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV)) { self.edit(f) }\n'
            o += '    fn take(self) -> (usize, Box<dyn DynV>) { ' + match('self', '(#, Box::new(p))', '(#, Box::new(()))') + ' }\n'
            o += '    fn take_ctx(self, k: u64) -> (usize, Box<dyn DynV>, u64) { let (i, p) = self.take(); (i, p, k) }\n'
        else:
            o += "    fn view<'a>(&'a self) -> (usize, &'a dyn DynV) { self.match_ref(" + arms("|p| (#usize, p as &'a dyn DynV)", "|| (#usize, &UNIT as &'a dyn DynV)") + ') }\n'
            o += "    fn view_ctx<'a>(&'a self, k: u64) -> (usize, &'a dyn DynV, u64) { self.match_ref_ctx(k, " + arms("|k, p| (#usize, p as &'a dyn DynV, k)", "|k| (#usize, &UNIT as &'a dyn DynV, k)") + ') }\n'
            o += '    fn edit(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV)) { let f = std::cell::RefCell::new(f); self.match_mut(' + arms('|p| (f.borrow_mut())(#, p)', '|| (f.borrow_mut())(#, &mut ())') + ') }\n'
            o += '    fn edit_ctx(&mut self, f: &mut dyn FnMut(usize, &mut dyn DynV)) { self.match_mut_ctx(f, ' + arms('|f, p| f(#, p)', '|f| f(#, &mut ())') + ') }\n'
            o += '    fn take(self) -> (usize, Box<dyn DynV>) { self.match_owned(' + arms('|p| (#usize, Box::new(p) as Box<dyn DynV>)', '|| (#usize, Box::new(()) as Box<dyn DynV>)') + ') }\n'
            o += '    fn take_ctx(self, k: u64) -> (usize, Box<dyn DynV>, u64) { self.match_owned_ctx(k, ' + arms('|k, p| (#usize, Box::new(p) as Box<dyn DynV>, k)', '|k| (#usize, Box::new(()) as Box<dyn DynV>, k)') + ') }\n'
        if discr:
            w, ds = discr
            o += f'    fn discr(i: usize) -> Option<(usize, i128)> {{ Some(({w}, [{", ".join(str(x) for x in ds)}][i])) }}\n'
        return o + '}\n' + f'vph::venum!([] {inst} []);\n'
    def reprs(s):
        return s.r.choice([('u8', 1), ('u8', 1), ('u16', 2), ('u32', 4), ('u64', 8), ('usize', 8), ('i8', 1), ('i16', 2), ('i32', 4), ('i64', 8), ('isize', 8)])
    def g_nenum(s, d):
        """fieldless, natively represented"""
        r = s.r
        n = r.randint(1, 6); id = s.name('K'); rep, w = s.reprs()
        neg = rep[0] == 'i'
        lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if neg else (0, (1 << (8 * w)) - 1)
        hi = min(hi, (1 << 63) - 1)
        ds, used, cur, txt = [], set(), 0, []
        for i in range(n):
            e = r.random() < .5
            if e or cur in used or cur > hi:
                for _ in range(40):
                    cur = r.choice([r.randint(0, min(hi, 20)), r.randint(lo, hi), lo, hi])
                    if cur not in used: break
                e = True
            used.add(cur); ds.append(cur); txt.append(f'V{i} = {cur}' if e else f'V{i}'); cur += 1
        f = F(w, w, (), END, 2)
        text = f'#[stabby::stabby]\n#[repr({rep})]\n#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]\npub enum {id} {{ ' + ', '.join(txt) + ' }\n'
        text += s.impl_e(id, [(f'V{i}', None) for i in range(n)], True, (w, ds))
        t = T(id, f, True, True, False, False, [id], 'nenum', ident=id)
        t.members = [(f'V{i}', None) for i in range(n)]; t.enum = True; t.generic = False; t.repr = rep
        s.define(t, text)
        return t
    def g_penum(s, d):
        """payloads, natively represented"""
        r = s.r
        n = r.randint(1, 5); rep, w = s.reprs(); isc = r.random() < .4
        vs = [s.ty(r.randint(0, d - 1)) if (i == 0 or r.random() < .7) else None for i in range(n)]
        id = s.name('P')
        tag = F(w, w)
        pay = [v.f for v in vs if v]
        lay = UNIT
        for p in pay: lay = union([lay, p])
        l, _ = struct([tag, lay])
        ub = l.ub
        if not isc:
            l2 = tag
            for p in pay:
                l2 = union([l2, struct([tag, p])[0]])
                gap = up(w, p.align) - w
                ub = ub_and(ub, pad(gap, w))
            l = l2.sub()
        f = F(l.size, l.align, ub, END, 2, any(p.ind for p in pay))
        full = all(v.full for v in vs if v); copy = all(v.copy for v in vs if v)
        der = (['Clone', 'PartialEq', 'Eq', 'Hash', 'Debug'] if full else ['Clone'] if copy else []) + (['Copy'] if copy else [])
        text = f'#[stabby::stabby]\n#[repr({"C, " if isc else ""}{rep})]\n'
        if der: text += f'#[derive({", ".join(der)})]\n'
        text += f'pub enum {id} {{ ' + ', '.join(f'V{i}' + (f'({v.rust})' if v else '') for i, v in enumerate(vs)) + ' }\n'
        text += s.impl_e(id, [(f'V{i}', v) for i, v in enumerate(vs)], True, (w, list(range(n))))
        t = T(id, f, full, copy, False, any(v.trk for v in vs if v), s.merge([v for v in vs if v], [id]), 'penum', ident=id)
        t.members = [(f'V{i}', v) for i, v in enumerate(vs)]; t.enum = True; t.generic = False; t.repr = rep
        s.define(t, text)
        return t
    def g_senum(s, d):
        r = s.r
        n = r.choice([2, 2, 3, 3, 4, 5, 6, 7, 9])
        vs = [s.ty(r.randint(0, d - 1)) if (i == 0 or r.random() < .7) else None for i in range(n)]
        r.shuffle(vs)
        id = s.name('E')
        f = sum_tree([v.f if v else UNIT for v in vs])
        f = f.sub(hx=0)
        pay = [v for v in vs if v]
        cost = .2 * n * len(pay) * (1 + .5 * sum(npat(v.f.fv) for v in pay)) + .06 * len(pay) * sum(len(v.f.ub) for v in pay) * f.size / 16
        if f.size > MAXSIZE or cost > MAXCOST: return None
        s.cost[id] = cost
        gen = False  # `enum E<X: IStable>` with an unconstrained X overflows the trait solver
        pv = [i for i, v in enumerate(vs) if v]
        gi = r.choice(pv) if gen else -1
        tys = ['X' if i == gi else (v.rust if v else None) for i, v in enumerate(vs)]
        inst = f'{id}<{vs[gi].rust}>' if gen else id
        text = f'#[stabby::stabby]\n#[repr(stabby)]\npub enum {id}{"<X: stabby::IStable>" if gen else ""} {{ ' + ', '.join(f'V{i}' + (f'({v})' if v else '') for i, v in enumerate(tys)) + ' }\n'
        text += s.impl_e(inst, [(f'V{i}', v) for i, v in enumerate(vs)], False)
        t = T(inst, f, False, False, False, any(v.trk for v in vs if v), s.merge([v for v in vs if v], [id]), 'senum', ident=id)
        t.members = [(f'V{i}', v) for i, v in enumerate(vs)]; t.enum = True; t.generic = gen; t.repr = 'stabby'
        s.define(t, text)
        return t
    # --- wrappers
    def g_res(s, d):
        a, b = s.ty(s.r.randint(0, d - 1)), s.ty(s.r.randint(0, d - 1))
        f, sm = result(a.f, b.f)
        t = T(f'stabby::result::Result<{a.rust}, {b.rust}>', f, a.full and b.full, False, False, a.trk or b.trk, s.merge([a, b]), 'res')
        t.sum, t.args = sm, (a, b)
        return t
    def g_opt(s, d):
        a = s.ty(s.r.randint(0, d - 1))
        f, _ = result(a.f, UNIT)
        f = struct([f])[0]
        t = T(f'stabby::option::Option<{a.rust}>', f, a.full, False, False, a.trk, a.defs, 'opt')
        t.args = (a,)
        return t
    def hx1(s, d):
        for _ in range(20):
            a = s.ty(d - 1)
            if a.f.hx == 1: return a
        return None
    def g_stdopt(s, d):
        a = s.hx1(d)
        if not a: return None
        return T(f'core::option::Option<{a.rust}>', F(a.f.size, a.f.align, ind=a.f.ind), a.full, a.copy, False, a.trk, a.defs, 'stdopt')
    def g_stdres(s, d):
        a = s.hx1(d)
        if not a: return None
        z = s.r.choice(['()', 'core::marker::PhantomPinned'])
        g = f'{a.rust}, {z}' if s.r.random() < .5 else f'{z}, {a.rust}'
        return T(f'core::result::Result<{g}>', F(a.f.size, a.f.align, ind=a.f.ind), a.full, a.copy, False, a.trk, a.defs, 'stdres')
    def g_inf(s, d):
        a = s.ty(d - 1)
        return T(f'core::result::Result<{a.rust}, core::convert::Infallible>', a.f.sub(), a.full, a.copy, False, a.trk, a.defs, 'inf')
    def wrap(s, d, pre, f, full, ok):
        for _ in range(20):
            a = s.ty(d - 1)
            if ok(a): return T(f'{pre}<{a.rust}>', f(a.f), full and a.full, pre != 'core::cell::UnsafeCell' and a.copy, False, a.trk, a.defs, 'wrap')
        return None
    def g_md(s, d): return s.wrap(d, 'core::mem::ManuallyDrop', lambda f: f.sub(), True, lambda a: a.copy)
    def g_mu(s, d): return s.wrap(d, 'core::mem::MaybeUninit', lambda f: F(f.size, f.align, ind=f.ind), False, lambda a: a.copy)
    def g_cell(s, d): return s.wrap(d, 'core::cell::UnsafeCell', lambda f: F(f.size, f.align, ind=f.ind), False, lambda a: a.copy)
    def g_notpod(s, d): return s.wrap(d, 'stabby::abi::istable::NotPod', lambda f: f.sub(ind=True), True, lambda a: True)
    def g_box(s, d): return s.cont(d, 'stabby::boxed::Box', nzf(8, True))
    def g_vec(s, d): return s.cont(d, 'stabby::vec::Vec', struct([nzf(8, True), nzf(8, True), nzf(8, True), UNIT])[0])
    def cont(s, d, pre, f):
        a = s.ty(d - 1)
        return T(f'{pre}<{a.rust}>', f, False, False, False, a.trk, a.defs, 'cont')

# ------------------------------------------------------------------ output
def rfv(f):
    if f[0] == 'end': return 'Fv::End'
    if f[0] == 'pat': return 'Fv::Pat(&[' + ', '.join(f'({o}, {v})' for o, v in f[1]) + '])'
    if f[0] == 'range': return f'Fv::Range({f[1]}, {f[2]}, {f[3]})'
    return f'Fv::Or(&{rfv(f[1])}, &{rfv(f[2])})'
def rmodel(f):
    return f'&Model {{ size: {f.size}, align: {f.align}, ub: &[{", ".join(f"({o}, {m})" for o, m in f.ub)}], fv: {rfv(f.fv)}, hx: {f.hx}, ind: {"true" if f.ind else "false"} }}'
def rsum(s):
    if not s: return 'None'
    ok, er, neg, det = s
    dd = {'tag': lambda: 'Det::Tag', 'value': lambda: 'Det::Value(&[' + ', '.join(f'({o}, {v})' for o, v in det[1]) + '])', 'bit': lambda: f'Det::Bit({det[1]}, {det[2]})'}[det[0]]()
    return f'Some(&Sum {{ ok_off: {ok}, err_off: {er}, not: {"true" if neg else "false"}, det: {dd} }})'
def rstr(s):
    return 'r####"' + s + '"####'
def want(prop, t):
    if prop == 'C04': return t.kind in ('res', 'opt')
    if prop == 'C05': return bool(t.enum)
    if prop == 'C06': return t.kind in ('struct', 'union', 'nenum', 'penum', 'senum', 'tuple', 'res', 'opt', 'array', 'stdopt')
    return True
def entry(prop, t, g, idx):
    run = {'C01': 'c01', 'C02': 'c02', 'C29': 'c29', 'C05': 'c05'}.get(prop)
    if run: run = f'{run}::<{t.rust}>'
    elif prop == 'C03':
        run = f'c03_sum::<{t.args[0].rust}, {t.args[1].rust}>' if t.kind == 'res' else f'c03::<{t.rust}>'
    elif prop == 'C04':
        if t.kind == 'res': run = ('c04_full' if t.full else 'c04') + f'::<{t.args[0].rust}, {t.args[1].rust}>'
        else: run = ('c04_opt_full' if t.full else 'c04_opt') + f'::<{t.args[0].rust}>'
    elif prop == 'C06':
        run = f'c06::<{t.rust}>'
    fields = '&[]'
    if prop == 'C03' and t.fields:
        fields = '&[' + ', '.join(f'(core::mem::offset_of!({t.rust}, {n}), {o})' for n, o in t.fields) + ']'
    pod = f'Some((vph::impls!({t.rust}: stabby::abi::istable::IPod), vph::impls!({t.rust}: Copy)))' if prop == 'C29' else 'None'
    opt = f'Some(vph::impls!(core::option::Option<{t.rust}>: stabby::IStable))' if prop == 'C02' else 'None'
    src = t.rust
    own = [x for x in t.defs]
    text = ' '.join(l for x in own for l in [g.defs[x].split('\n')] for l in [' '.join(z for z in l if z.startswith(('pub ', '#[repr')))])
    if text: src += '   where ' + text
    return f'    Ent {{ name: {rstr(t.rust)}, src: {rstr(src)}, model: {rmodel(t.f)}, sum: {rsum(t.sum)}, fields: {fields}, pod: {pod}, opt_stable: {opt}, run: {run} }},\n'

HEAD = '#![allow(warnings)]\n#![recursion_limit = "2048"]\nuse vph::engine::Case;\nuse vph::ty::*;\nuse vph::tychk::*;\n'
COUNTS = {'C01': (60, 400), 'C02': (40, 300), 'C03': (50, 300), 'C04': (28, 200), 'C05': (26, 180), 'C06': (40, 200), 'C29': (60, 400)}
BUDGET = {'C05': (26., 150.), 'C06': (14., 120.)}
# programs that aren't about one type each: module, function, item type, sizes (quick, thorough), dependencies
EXTRA = {
    'C08': ('gen08', 'facts', 'vph::num08::Fact', (1, 5), 'stabby-macros = { path = "/repo/stabby-macros" }\n'),
    'C19': ('gen19', 'objs', 'vph::dynobj::Root', (4, 16), ''),
    'C20': ('gen19', 'objs', 'vph::dynobj::Root', (3, 14), ''),
    'C21': ('gen21', 'marks', 'vph::marks::Mark', (400, 3000), ''),
}
def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text: return
    except OSError: pass
    open(path, 'w').write(text)
def main():
    prop, seed, tier, out = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    n = COUNTS.get(prop, (0, 0))[1 if tier == 'thorough' else 0]
    n = int(os.environ.get('GEN_N', n))
    crates = int(os.environ.get('GEN_CRATES', 8))
    low = prop.lower()
    toml = open(os.path.join(here, 'h/Cargo.toml')).read()
    profile = toml[toml.index('[profile.dev]'):]
    # one copy of each function, so that vtables can be compared
    if prop in ('C19', 'C20'): profile = profile.replace('opt-level = 1\n', 'opt-level = 1\ncodegen-units = 1\n', 1)
    dep = toml[toml.index('stabby = {'):].split('\n')[0]
    members = []
    for k in range(crates):
        rng = random.Random(f'{prop}/{seed}/{k}')
        if prop in EXTRA:
            mod, fn, item, counts, deps = EXTRA[prop]
            name = f'{low}p{k}'
            m = __import__(mod)
            m.PROP = prop
            write(f'{out}/{name}/src/lib.rs', m.crate(rng, k, int(os.environ.get('GEN_N', counts[tier == 'thorough']))))
            write(f'{out}/{name}/src/stub.rs', f"pub fn {fn}() -> Vec<{item}> {{\n    vec![]\n}}\n")
            write(f'{out}/{name}/Cargo.toml', f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\nvph = {{ path = "{here}/h" }}\n{deps}{dep}\n')
            members.append(name)
            continue
        g = Gen(rng, k, 0)
        ents, seen = [], set()
        tries, paid, budget = 0, set(), float(os.environ.get('GEN_BUDGET', BUDGET.get(prop, (24., 150.))[tier == 'thorough']))
        while len(ents) < n and tries < n * 400:
            tries += 1
            if prop == 'C04': t = (g.g_res if rng.random() < .75 else g.g_opt)(rng.choice([1, 2, 2, 3]))
            elif prop == 'C05': t = rng.choice([g.g_senum, g.g_senum, g.g_senum, g.g_senum, g.g_penum, g.g_nenum])(rng.choice([1, 2, 2, 3]))
            else: t = g.ty1(rng.choice([1, 2, 2, 3, 3]))
            if not t or t.f.size > MAXSIZE or len(t.f.ub) > MAXUB or not want(prop, t) or t.rust in seen: continue
            fresh = [x for x in t.defs if x not in paid]
            cost = sum(g.cost.get(x, .05) for x in fresh) + .1
            if cost > budget: continue
            budget -= cost
            paid.update(fresh)
            seen.add(t.rust)
            ents.append(t)
        need = []
        for t in ents:
            for x in t.defs:
                if x not in need: need.append(x)
        body = HEAD + ''.join(g.defs[x] for x in g.order if x in need)
        extra = ''
        if prop == 'C06':
            import gen06
            extra = gen06.emit(g, ents, rng, LEAVES, k)
        body += extra
        if prop != 'C06': body += 'pub fn table() -> &\'static [Ent] {\n    vec![\n' + ''.join(entry(prop, t, g, i) for i, t in enumerate(ents)) + '    ].leak()\n}\n'
        name = f'{low}p{k}'
        write(f'{out}/{name}/src/lib.rs', body)
        write(f'{out}/{name}/src/stub.rs', "use vph::tychk::*;\npub fn table() -> &'static [Ent] {\n    &[]\n}\npub fn reps() -> &'static [Rep] {\n    &[]\n}\n")
        write(f'{out}/{name}/Cargo.toml', f'[package]\nname = "{name}"\nversion = "0.1.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\nvph = {{ path = "{here}/h" }}\n{dep}\n')
        members.append(name)
    main_rs = open(os.path.join(here, f'tools/gen_{low}.rs')).read() if os.path.exists(os.path.join(here, f'tools/gen_{low}.rs')) else None
    assert main_rs, 'no main'
    main_rs = main_rs.replace('/*TABLES*/', ', '.join(f'{m}::{"reps" if prop == "C06" else EXTRA[prop][1] if prop in EXTRA else "table"}()' for m in members))
    write(f'{out}/main/src/main.rs', main_rs)
    write(f'{out}/main/Cargo.toml', f'[package]\nname = "{low}gen"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nvph = {{ path = "{here}/h" }}\n{dep}\n' + ''.join(f'{m} = {{ path = "../{m}" }}\n' for m in members))
    write(f'{out}/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = ["main", ' + ', '.join(f'"{m}"' for m in members) + ']\n\n' + profile)
    lock = os.path.join(here, 'h/Cargo.lock')
    if not os.path.exists(f'{out}/Cargo.lock'): write(f'{out}/Cargo.lock', open(lock).read())
if __name__ == '__main__': main()
