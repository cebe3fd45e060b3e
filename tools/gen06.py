"""Reports: what the generated definitions of one crate must publish, and families of near-identical definitions."""
def s(x): return '"' + x.replace('\\', '\\\\').replace('"', '\\"') + '"'
def exp(name, module, version, kind, fields):
    """fields: (name, rust type | ('nested', exp))"""
    fs = ', '.join(f'({s(n)}, {"Xf::T(<" + t + " as stabby::IStable>::REPORT)" if isinstance(t, str) else "Xf::R(Box::leak(Box::new(" + t[1] + ")))"})' for n, t in fields)
    return f'Exp {{ name: {s(name)}, module: {module}, version: {version}, kind: {kind}, fields: vec![{fs}].leak() }}'
def kind_of(t):
    if t.kind == 'struct': return 'Kind::Struct'
    if t.kind == 'union': return 'Kind::Union'
    return f'Kind::Enum({s(t.repr)})'
def rep(rust, e, fam='None', distinct=True):
    return f'    Rep {{ name: r####"{rust}"####, report: <{rust} as stabby::IStable>::REPORT, id: <{rust} as stabby::IStable>::ID, exp: {("Some(" + e + ")") if e else "None"}, fam: {fam}, distinct: {"true" if distinct else "false"} }},\n'
SIMPLE = ['u8', 'u16', 'u32', 'bool', 'i8', "&'static u8", 'core::num::NonZeroU8', 'stabby::option::Option<u8>', 'stabby::boxed::Box<u8>', '()']
SENUM = ['u8', 'u16', '()', 'bool', "&'static u8"]
def family(r, k):
    """a definition, an exact copy of it in another module published under the same module name, and single edits of it.
    Returns the text and the reps."""
    kind = r.choice(['struct', 'tuple', 'union', 'enum', 'cenum', 'senum'])
    n = r.randint(1, 4)
    ints = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16']
    if kind == 'senum': n = 2
    tys = [r.choice(ints if kind == 'union' else SENUM if kind == 'senum' else SIMPLE) for _ in range(n)]
    names = r.sample(['a', 'b', 'ab', 'ba', 'abc', 'x1'] if kind in ('struct', 'union') else ['A', 'B', 'Ab', 'Ba', 'Abc', 'X1'], n)
    multi = kind == 'cenum'
    base = dict(name=f'F{k}', module='fam::m', version=r.choice([0, 0, 1, 7, 4294967295]), tys=tys, names=names, repr=r.choice(['u8', 'u16', 'i32']))
    if kind == 'senum' and n < 2: base['tys'], base['names'] = tys + ['u8'], names + ['Zz']
    def text(d):
        # the attribute is a path or an expression: any tokens giving a string
        o = f'#[stabby::stabby({"no_opt, " if kind in ("struct", "tuple") else ""}version = {d["version"]}, module = {s(d["module"])})]\n'
        fs = list(zip(d['names'], d['tys']))
        if kind == 'struct': return o + f'pub struct {d["name"]} {{ ' + ', '.join(f'pub {a}: {b}' for a, b in fs) + ' }\n'
        if kind == 'tuple': return o + f'pub struct {d["name"]}(' + ', '.join(f'pub {b}' for a, b in fs) + ');\n'
        if kind == 'union': return o + f'#[derive(Clone, Copy)]\npub union {d["name"]} {{ ' + ', '.join(f'pub {a}: {b}' for a, b in fs) + ' }\n'
        if kind == 'enum': return o + f'#[repr({d["repr"]})]\npub enum {d["name"]} {{ ' + ', '.join(f'{a}({b})' if b != '()' else a for a, b in fs) + ' }\n'
        if kind == 'senum': return o + f'#[repr(stabby)]\npub enum {d["name"]} {{ ' + ', '.join(f'{a}({b})' if b != '()' else a for a, b in fs) + ' }\n'
        return o + f'#[repr(C, {d["repr"]})]\npub enum {d["name"]} {{ ' + ', '.join(f'{a} {{ x: {b}, y: {fs[0][1]} }}' for a, b in fs) + ' }\n'
    def mk(d):
        fs = list(zip(d['names'], d['tys']))
        m, v = s(d['module']), d['version']
        if kind == 'struct': return exp(d['name'], m, v, 'Kind::Struct', fs)
        if kind == 'tuple': return exp(d['name'], m, v, 'Kind::Struct', [(str(i), b) for i, (a, b) in enumerate(fs)])
        if kind == 'union': return exp(d['name'], m, v, 'Kind::Union', fs)
        if kind == 'enum': return exp(d['name'], m, v, f'Kind::Enum({s(d["repr"])})', fs)
        if kind == 'senum': return exp(d['name'], m, v, 'Kind::Enum("stabby")', fs)
        return exp(d['name'], m, v, f'Kind::Enum({s(d["repr"])})', [(a, ('nested', exp(a, m, v, 'Kind::Struct', [('x', b), ('y', fs[0][1])]))) for a, b in fs])
    def senum_ok(d): return kind != 'senum' or (len(d['tys']) > 1 and any(t != '()' for t in d['tys']))
    def edits():
        yield dict(base)
        yield dict(base, version=(base['version'] + 1) % 4294967296)
        yield dict(base, module='fam::mm'); yield dict(base, module='fam'); yield dict(base, name=f'F{k}x')
        i = r.randrange(len(base['tys']))
        pool = ints if kind == 'union' else SENUM if kind == 'senum' else SIMPLE
        yield dict(base, tys=[r.choice([p for p in pool if p != t]) if j == i else t for j, t in enumerate(base['tys'])])
        if kind != 'tuple':
            yield dict(base, names=['zz' if kind in ('struct', 'union') else 'Zy' if j == i else t for j, t in enumerate(base['names'])] if len(base['names']) == 1 else [('zz' if kind in ('struct', 'union') else 'Zy') if j == i else t for j, t in enumerate(base['names'])])
        if len(base['tys']) > 1:
            yield dict(base, tys=base['tys'][:-1], names=base['names'][:-1])
            sw = list(range(len(base['tys']))); sw[0], sw[1] = 1, 0
            yield dict(base, tys=[base['tys'][j] for j in sw], names=[base['names'][j] for j in sw])
        yield dict(base, tys=base['tys'] + [pool[0]], names=base['names'] + ['last' if kind in ('struct', 'union') else 'Last'])
        if kind in ('enum', 'cenum'): yield dict(base, repr=r.choice([x for x in ('u8', 'u16', 'i32') if x != base['repr']]))
    out, reps = '', ''
    defs = [base] + [d for d in edits() if senum_ok(d) and (kind != 'senum' or len(d['tys']) < 4)]
    if not senum_ok(base): return '', ''
    for j, d in enumerate(defs):
        if kind == 'union' and len(set(d['tys'])) < 1: continue
        mod = f'fam{k}_{j}'
        out += f'#[allow(non_camel_case_types)]\npub mod {mod} {{\n' + text(d) + '}\n'
        reps += rep(f'{mod}::{d["name"]}', mk(d), f'Some({k})', False)
    return out, reps
def emit(g, ents, rng, leaves, k):
    o = 'pub fn reps() -> &\'static [Rep] {\n    vec![\n'
    texts = ''
    for t in ents:
        e = None
        if t.kind in ('struct', 'union', 'nenum', 'penum', 'senum'):
            e = exp(t.ident, 'module_path!()', 0, kind_of(t), [(n, x.rust if x else '()') for n, x in t.members])
        o += rep(t.rust, e)
    if k == 0:
        for l in leaves: o += rep(l.rust, None)
    for f in range(4):
        tx, rp = family(rng, f)
        texts += tx; o += rp
    return texts + o + '    ].leak()\n}\n'
