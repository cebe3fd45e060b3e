#!/usr/bin/env python3
"""C28: pairs of libraries and programs that export, import and load functions.
Each set has a crate of shared types in two versions (the second one edited), a library exporting random functions over the first, and
a program side importing them over the second, through the same and through different signatures."""
import os, random, re, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRIM = ['u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'bool', 'f64', 'core::num::NonZeroU16', '()']
OWN = ['stabby::string::String', "stabby::str::Str<'static>"]
QUAL = ['extern "C"'] * 6 + ['unsafe extern "C"', 'extern "C-unwind"', 'unsafe extern "C-unwind"']
# types are ('p', rust) | ('d', definition, args) | ('a', template, args) | ('f', qualifier, [arg, result]) | ('o', trait, markers)
TEMPL = ["&'static {}", '[{}; 3]', 'stabby::option::Option<{}>', 'stabby::result::Result<{}, {}>', 'stabby::boxed::Box<{}>', 'stabby::sync::Arc<{}>', 'stabby::vec::Vec<{}>',
         "stabby::slice::Slice<'static, {}>", 'stabby::tuple::Tuple2<{}, {}>']
class Shared:
    """definitions, in order: dicts with kind, name, version, repr, generic, fields [(name, type)] or methods [(name, args, result)]"""
    def __init__(s, r, name):
        s.r, s.name, s.defs = r, name, []
        for i in range(r.randint(6, 8)): s.defs.append(s.new(i))
    def new(s, i):
        r = s.r
        k = ['struct', 'trait', 'enum', 'generic'][i] if i < 4 else r.choice(['struct', 'struct', 'tuple', 'union', 'enum', 'senum', 'trait', 'generic'])
        d = dict(kind=k, name={'trait': 'T', 'enum': 'K', 'senum': 'E', 'union': 'N', 'generic': 'G'}.get(k, 'S') + str(i), version=0 if k == 'trait' else r.choice([0, 0, 0, 3]), repr=r.choice(['u8', 'u16', 'i32']))
        if k == 'trait': d['methods'] = [(f'm{j}', [s.ty(1) for _ in range(r.randint(0, 2))], s.ty(1)) for j in range(r.randint(1, 3))]
        elif k == 'union': d['fields'] = [(f'f{j}', ('p', r.choice(PRIM[:9]))) for j in range(r.randint(1, 3))]
        elif k in ('enum', 'senum'):
            d['fields'] = [(f'V{j}', s.ty(1, small=k == 'senum') if j == 0 or r.random() < .6 else None) for j in range(r.randint(2, 4))]
        else: d['fields'] = [(f'f{j}', s.ty(2)) for j in range(r.randint(1, 4))]
        if k == 'generic': d['fields'].append(('x', ('p', 'X')))
        return d
    def ty(s, d, small=False):
        r = s.r
        x = r.random()
        if d <= 0 or x < .35 or small: return ('p', r.choice(PRIM + OWN)) if not small else ('p', r.choice(PRIM))
        if x < .65 and s.defs:
            k = r.randrange(len(s.defs)); df = s.defs[k]
            if df['kind'] == 'trait': return ('o', k, r.choice(['', '', ' + Send', ' + Send + Sync']))
            return ('d', k, [s.ty(d - 1)] if df['kind'] == 'generic' else [])
        if x < .72: return ('f', r.choice(QUAL), [s.ty(d - 1), s.ty(d - 1)])
        t = r.choice(TEMPL)
        # sum types of anything are slow to compile
        return ('a', t, [s.ty(d - 1, small='result' in t or 'option' in t) for _ in range(t.count('{}'))])
    def sig(s): return (s.r.choice(QUAL), [s.ty(2) for _ in range(s.r.choice([0, 1, 1, 2, 2, 3, 4]))], s.ty(2))
    def evolve(s):
        """the other version: some definitions edited"""
        o = Shared.__new__(Shared)
        o.r, o.name = s.r, s.name
        o.defs = [dict(d) for d in s.defs]
        r = s.r
        pick = r.sample(range(len(o.defs)), r.choice([1, 1, 2, 3]))
        for k in pick: o.edit(k)
        return o
    def edit(s, k):
        r, d = s.r, s.defs[k]
        key = 'methods' if d['kind'] == 'trait' else 'fields'
        fs = list(d[key])
        sub = Shared.__new__(Shared); sub.r, sub.defs, sub.name = r, s.defs[:k], s.name
        def other(t):
            while True:
                u = ('p', r.choice(PRIM[:9] if d['kind'] == 'union' else PRIM))
                if u != t: return u
        what = r.choice(['version', 'type', 'rename', 'add', 'swap', 'remove', 'repr', 'type', 'type'])
        last = len(fs) - (1 if d['kind'] == 'generic' else 0)
        i = r.randrange(last) if last else 0
        if what == 'repr' and d['kind'] == 'enum': d['repr'] = r.choice([x for x in ('u8', 'u16', 'i32') if x != d['repr']])
        elif what == 'type' and last:
            if key == 'methods':
                n, a, o = fs[i]
                if a and r.random() < .5: a = [other(a[0])] + a[1:]
                else: o = other(o)
                fs[i] = (n, a, o)
            elif fs[i][1]: fs[i] = (fs[i][0], other(fs[i][1]))
            else: fs[i] = (fs[i][0], ('p', 'u8'))
        elif what == 'rename' and last and d['kind'] != 'tuple': fs[i] = (fs[i][0] + 'x',) + fs[i][1:]
        elif what == 'add':
            n = {'methods': 'zz'}.get(key, 'Zz' if d['kind'] in ('enum', 'senum') else 'zz')
            fs.append((n, [], ('p', 'u8')) if key == 'methods' else (n, ('p', 'u8')))
        elif what == 'swap' and last > 1 and fs[0] != fs[1]: fs[0], fs[1] = fs[1], fs[0]
        elif what == 'remove' and last > (2 if d['kind'] in ('enum', 'senum') else 1): fs.pop(i)
        elif d['kind'] == 'trait': fs[0] = ('q' + fs[0][0],) + fs[0][1:]
        else: d['version'] += 1
        if d['kind'] == 'senum' and fs[0][1] is None and all(f[1] is None for f in fs): fs[0] = (fs[0][0], ('p', 'u8'))
        d[key] = fs
    # --- text
    def rust(s, t, pre):
        if t[0] == 'p': return t[1]
        if t[0] == 'd': return pre + s.defs[t[1]]['name'] + (f'<{s.rust(t[2][0], pre)}>' if t[2] else '')
        if t[0] == 'a': return t[1].format(*[s.rust(x, pre) for x in t[2]])
        if t[0] == 'f': return f'{t[1]} fn({s.rust(t[2][0], pre)}) -> {s.rust(t[2][1], pre)}'
        return f'{pre}D{s.defs[t[1]]["name"]}{t[2].count("+")}'
    loose = False   # leave out what reports leave out (a known finding): the types in methods' signatures
    def key(s, t):
        """what makes the type"""
        if t is None: return None
        if t[0] == 'p': return t
        if t[0] == 'a': return ('a', t[1], tuple(s.key(x) for x in t[2]))
        if t[0] == 'f': return ('f', t[1], tuple(s.key(x) for x in t[2]))
        d = s.defs[t[1]]
        # the order of an enum's variants, a struct's fields and a trait's methods matters; a tuple struct's fields are named by their position
        fs = tuple((n,) if s.loose else (n, tuple(s.key(x) for x in a), s.key(o)) for n, a, o in d['methods']) if d['kind'] == 'trait' else \
             tuple((str(i) if d['kind'] == 'tuple' else n, s.key(x)) for i, (n, x) in enumerate(d['fields']))
        return (t[0], d['kind'], d['name'], d['version'], d['repr'] if d['kind'] == 'enum' else 0, fs, t[2] if t[0] == 'o' else tuple(s.key(x) for x in t[2]))
    def loosekey(s, g):
        s.loose = True
        k = s.sigkey(g)
        s.loose = False
        return k
    def sigkey(s, g): return (g[0], tuple(s.key(x) for x in g[1]), s.key(g[2]))
    def text(s):
        o = '#![allow(warnings)]\n#![recursion_limit = "1024"]\nuse vph::imp28::*;\nuse vph::mix;\n'
        for d in s.defs:
            R = lambda t: s.rust(t, '')
            at = '#[stabby::stabby(%sversion = %d)]\n' % ('no_opt, ' if d['kind'] in ('struct', 'tuple', 'generic') else '', d['version'])
            n, k = d['name'], d['kind']
            if k == 'trait':
                o += '#[stabby::stabby(checked)]\n' + f'pub trait {n} {{\n'
                for m, a, r in d['methods']: o += f'    extern "C" fn {m}(&self' + ''.join(f', a{i}: {R(x)}' for i, x in enumerate(a)) + f') -> {R(r)};\n'
                o += f'}}\npub struct I{n}(u64);\nimpl {n} for I{n} {{\n'
                for j, (m, a, r) in enumerate(d['methods']):
                    o += f'    extern "C" fn {m}(&self' + ''.join(f', a{i}: {R(x)}' for i, x in enumerate(a)) + f') -> {R(r)} {{ V::make(fold(&[self.0, {j}' + ''.join(f', a{i}.sum()' for i in range(len(a))) + '])) }\n'
                o += '}\n'
                for mk in ('', ' + Send', ' + Send + Sync'):
                    w = f"D{n}{mk.count('+')}"
                    o += f"#[stabby::stabby(no_opt)]\npub struct {w}(pub stabby::dynptr!(stabby::boxed::Box<dyn {n}{mk}>));\n"
                    o += f"impl V for {w} {{\n    fn make(s: u64) -> Self {{ Self(stabby::boxed::Box::new(I{n}(s)).into()) }}\n    fn sum(&self) -> u64 {{ fold(&["
                    o += ', '.join(f'self.0.{m}(' + ', '.join(f'V::make({i})' for i in range(len(a))) + ').sum()' for m, a, r in d['methods']) + ']) }\n}\n'
                continue
            fs = d['fields']
            if k in ('struct', 'generic'):
                g = '<X>' if k == 'generic' else ''
                o += f'{at}pub struct {n}{g} {{ ' + ', '.join(f'pub {f}: {R(t)}' for f, t in fs) + ' }\n'
                o += f'impl{"<X: V>" if g else ""} V for {n}{g} {{\n    fn make(s: u64) -> Self {{ Self {{ ' + ', '.join(f'{f}: V::make(mix(s, {i}))' for i, (f, t) in enumerate(fs)) + ' } }\n    fn sum(&self) -> u64 { fold(&[' + ', '.join(f'self.{f}.sum()' for f, t in fs) + ']) }\n}\n'
            elif k == 'tuple':
                o += f'{at}pub struct {n}(' + ', '.join(f'pub {R(t)}' for f, t in fs) + ');\n'
                o += f'impl V for {n} {{\n    fn make(s: u64) -> Self {{ Self(' + ', '.join(f'V::make(mix(s, {i}))' for i in range(len(fs))) + ') }\n    fn sum(&self) -> u64 { fold(&[' + ', '.join(f'self.{i}.sum()' for i in range(len(fs))) + ']) }\n}\n'
            elif k == 'union':
                o += f'{at}#[derive(Clone, Copy)]\npub union {n} {{ ' + ', '.join(f'pub {f}: {R(t)}' for f, t in fs) + ' }\n'
                o += f'impl V for {n} {{\n    fn make(s: u64) -> Self {{ let mut u: Self = unsafe {{ core::mem::zeroed() }}; u.{fs[0][0]} = V::make(s); u }}\n    fn sum(&self) -> u64 {{ unsafe {{ self.{fs[0][0]} }}.sum() }}\n}}\n'
            else:
                o += f'{at}#[repr({d["repr"] if k == "enum" else "stabby"})]\npub enum {n} {{ ' + ', '.join(f + (f'({R(t)})' if t else '') for f, t in fs) + ' }\n'
                o += f'impl V for {n} {{\n    fn make(s: u64) -> Self {{ match s % {len(fs)} {{ ' + ', '.join(f'{i if i + 1 < len(fs) else "_"} => Self::{f}' + ('(V::make(mix(s, 9)))' if t else '()' if k == 'senum' else '') for i, (f, t) in enumerate(fs)) + ' } }\n    fn sum(&self) -> u64 { '
                if k == 'enum': o += 'match self { ' + ', '.join(f'Self::{f}{"(x)" if t else ""} => fold(&[{i}{", x.sum()" if t else ""}])' for i, (f, t) in enumerate(fs)) + ' } }\n}\n'
                else: o += 'self.match_ref(' + ', '.join(f'|{"x" if t else ""}| fold(&[{i}{", x.sum()" if t else ""}])' for i, (f, t) in enumerate(fs)) + ') }\n}\n'
        return o
def variants(r, sh, g):
    """signatures near this one"""
    q, a, o = g
    prim = lambda t: r.choice([('p', p) for p in PRIM if ('p', p) != t])
    out = []
    if a:
        i = r.randrange(len(a))
        out.append((q, a[:i] + [prim(a[i])] + a[i + 1:], o)); out.append((q, a[:i] + a[i + 1:], o))
        out.append((q, [sh.ty(2)] + a[1:], o))
    if len(a) > 1: out.append((q, [a[1], a[0]] + a[2:], o))
    if len(a) < 5: out.append((q, a + [prim(None)], o)); out.append((q, [o] + a, a[0] if a else ('p', '()')))
    out.append((q, a, prim(o))); out.append((r.choice([x for x in sorted(set(QUAL)) if x != q]), a, o))
    r.shuffle(out)
    return out
def write(p, t):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == t: return
    except OSError: pass
    open(p, 'w').write(t)
SPECS = ['rustc', 'opt_level', 'debug', 'num_jobs', 'target', 'host']
WORDS = ['rustc', 'opt', 'debug', 'job', 'target', 'host']
HEAD = '#![allow(warnings)]\n#![recursion_limit = "1024"]\n'
def generate(out, seed, tier):
    """everything but the parts that need the names of the canaries"""
    sets = 12 if tier == 'thorough' else 4
    exports, nv = (24, 8) if tier == 'thorough' else (10, 4)
    toml = open(f'{HERE}/h/Cargo.toml').read()
    profile = toml[toml.index('[profile.dev]'):]
    dep = toml[toml.index('stabby = {'):].split('\n')[0] + f'\nvph = {{ path = "{HERE}/h" }}\n'
    members = ['main']
    for k in range(sets):
        r = random.Random(f'C28/{seed}/{k}')
        v1 = Shared(r, f'shared{k}')
        v2 = v1.evolve()
        for v, sh in ((1, v1), (2, v2)):
            # a trait whose method takes another type in the other version, for a known finding
            z = f"#[stabby::stabby(checked)]\npub trait Zp {{\n    extern \"C\" fn m(&self, x: {'u8' if v == 1 else 'u64'}) -> u8;\n}}\npub type DZp = stabby::dynptr!(stabby::boxed::Box<dyn Zp>);\n" if k == 0 else ''
            write(f'{out}/shared{k}_{v}/src/lib.rs', sh.text() + z)
            write(f'{out}/shared{k}_{v}/Cargo.toml', f'[package]\nname = "shared{k}_{v}"\nversion = "0.{v}.0"\nedition = "2021"\n[lib]\nname = "shared{k}"\n[dependencies]\n{dep}')
        pre = f'shared{k}::'
        pl = HEAD + 'use vph::imp28::*;\n'
        tab = HEAD + f'extern crate plugin{k} as _;\nuse vph::imp28::*;\n'
        sigs, imps, mods = [], [], []
        for i in range(exports):
            g = v1.sig(); sigs.append(g)
            q, a, o = g
            idn = k * 1000 + i
            pl += f'#[stabby::export]\npub {q} fn f{k}_{i}(' + ', '.join(f'a{j}: {v1.rust(x, pre)}' for j, x in enumerate(a)) + f') -> {v1.rust(o, pre)} {{ V::make(fold(&[{idn}' + ''.join(f', a{j}.sum()' for j in range(len(a))) + '])) }\n'
        n = 0
        def add(i, g, static):
            nonlocal n, tab
            q, a, o = g
            if v1.sigkey(sigs[i]) != v2.sigkey(g) and v1.loosekey(sigs[i]) == v2.loosekey(g): return
            eq = 'true' if v1.sigkey(sigs[i]) == v2.sigkey(g) else 'false'
            idn = k * 1000 + i
            args = ', '.join(f'a{j}: {v2.rust(x, pre)}' for j, x in enumerate(a))
            res = v2.rust(o, pre)
            acc = 'None'
            if static:
                abi = q.replace('unsafe ', '')
                un = 'unsafe ' if q.startswith('unsafe') else ''
                mods.append(f'mod w{n} {{\n    #[stabby::import(name = "c")]\n    #[allow(improper_ctypes, clashing_extern_declarations)]\n    {abi} {{ pub {un}fn f{k}_{i}({args}) -> {res}; }}\n}}\n')
                acc = f'vph::imp28_access!(w{n}::f{k}_{i}, {idn}, ({q}), [{args}], {res})'
                n += 1
            imps.append(f'        vph::imp28!({k}, "f{k}_{i}", {eq}, {idn}, ({q}), [{args}], {res}, {acc}),\n')
        for i, g in enumerate(sigs):
            seen = {v2.sigkey(g)}
            add(i, g, True)
            c = 0
            for h in variants(r, v2, g) + r.sample(sigs, min(2, len(sigs))):
                if v2.sigkey(h) in seen or c >= nv: continue
                seen.add(v2.sigkey(h)); add(i, h, r.random() < .5); c += 1
        if k == 0:
            pl += '#[stabby::export]\npub extern "C" fn fzp(x: shared0::DZp) { drop(x) }\n'
            tab += 'pub fn probe() -> vph::Res {\n    match load::<extern "C" fn(shared0::DZp)>(&world().libs[0], "fzp", |_| Ok(())) {\n        Acc::Called(_) => Err("a function taking a trait object was given to a program for which the trait\'s method takes another type".into()),\n        _ => Ok(()),\n    }\n}\n'
        # canaried functions, whose signature needs no stability
        own = ''
        for i, (q, ty, call, sm) in enumerate([('extern "C"', '&[u8]', '&[3, 4, {s} as u8]', 'x.iter().map(|b| *b as u64).sum::<u64>()'), ('', '(u8, Vec<u16>)', '({s} as u8, vec![1, {s} as u16])', '(x.0 as u64 + x.1.iter().map(|b| *b as u64).sum::<u64>())'), ('unsafe extern "C"', 'String', 'format!("a{{}}", {s})', 'x.len() as u64')]):
            pl += f'#[stabby::export(canaries)]\npub {q} fn c{k}_{i}(x: {ty}) -> u64 {{ {sm} + {i} }}\n'
            cl = call.replace('{s}', 's').replace('{{}}', '{}')
            own += f'        ({k}, "c{k}_{i}", |l, s| get_canaried_call::<{q} fn({ty}) -> u64>(l, "c{k}_{i}", |f| {{ let want = {{ let x: {ty} = {cl}; {sm} + {i} }}; let got = unsafe {{ f({cl}) }}; if got == want {{ Ok(()) }} else {{ Err(format!("the call gave {{got}}, expected {{want}}")) }} }})),\n'
        write(f'{out}/plugin{k}/src/lib.rs', pl)
        write(f'{out}/plugin{k}/Cargo.toml', f'[package]\nname = "plugin{k}"\nversion = "0.1.0"\nedition = "2021"\n[lib]\ncrate-type = ["cdylib", "rlib"]\n[dependencies]\n{dep}shared{k} = {{ path = "../shared{k}_1", package = "shared{k}_1" }}\n')
        tab += ''.join(mods) + 'pub fn imps() -> Vec<Imp> {\n    vec![\n' + ''.join(imps) + '    ]\n}\npub fn own() -> Vec<(usize, &\'static str, fn(&libloading::Library, u64) -> Result<Result<(), String>, String>)> {\n    vec![\n' + own + '    ]\n}\n'
        write(f'{out}/tab{k}/src/lib.rs', tab)
        write(f'{out}/tab{k}/Cargo.toml', f'[package]\nname = "tab{k}"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\n{dep}libloading = "0.8"\nplugin{k} = {{ path = "../plugin{k}" }}\nshared{k} = {{ path = "../shared{k}_2", package = "shared{k}_2" }}\n')
        members += [f'shared{k}_1', f'shared{k}_2', f'plugin{k}', f'tab{k}']
    # the canaried imports, of functions of a C library
    r = random.Random(f'C28/{seed}/canaries')
    specs = [('', 63), ('paranoid', 63), ('none', 0)] + [(x, 1 << i) for i, x in enumerate(SPECS)]
    for _ in range(40 if tier == 'thorough' else 12):
        pick = r.sample(range(6), r.randint(1, 5))
        m = sum(1 << i for i in pick)
        t = ''
        for j, i in enumerate(pick): t += (r.choice([',', ', ', ' , ']) if j else '') + SPECS[i]
        specs.append((t, m))
    ext, tabl = '', ''
    for j, (t, m) in enumerate(specs):
        ext += f'mod s{j} {{\n    #[stabby::import(canaries = "{t}", name = "can28"{r.choice(["", ", kind = " + chr(34) + "dylib" + chr(34)])})]\n    extern "C" {{ pub fn s{j}(x: u64) -> u64; }}\n}}\n'
        tabl += f'        vph::imp28::Canaried {{ spec: "{t}", want: {m}, name: "s{j}", index: {64 + j}, fun: &s{j}::s{j} }},\n'
    write(f'{out}/main/src/main.rs', HEAD + ext + open(f'{HERE}/tools/gen_c28.rs').read().replace('/*IMPS*/', ' '.join(f'imps.extend(tab{k}::imps()); own.extend(tab{k}::own());' for k in range(sets))).replace('/*CANARIED*/', tabl).replace('/*SETS*/', str(sets)))
    # programs asking for a canary that the function's library hasn't: they must not link
    bad = []
    for j in range(4 if tier == 'thorough' else 2):
        pick = r.sample(range(6), r.randint(1, 6)); miss = r.choice(pick)
        mask = 63 & ~(1 << miss)
        write(f'{out}/main/src/bin/bad{j}.rs', HEAD + f'#[stabby::import(canaries = "{", ".join(SPECS[i] for i in pick)}", name = "can28")]\nextern "C" {{ pub fn m{mask}(x: u64) -> u64; }}\nfn main() {{ println!("{{}}", unsafe {{ m{mask}(1) }}); }}\n')
        bad.append((j, ', '.join(SPECS[i] for i in pick), mask, SPECS[miss]))
    write(f'{out}/main/build.rs', f'fn main() {{\n    println!("cargo:rerun-if-changed=../can");\n    println!("cargo:rustc-link-search=native={out}/can");\n    println!("cargo:rustc-link-arg-bins=-Wl,-rpath,{out}/can");\n}}\n')
    write(f'{out}/main/Cargo.toml', '[package]\nname = "c28main"\nversion = "0.1.0"\nedition = "2021"\n[[bin]]\nname = "c28gen"\npath = "src/main.rs"\n[dependencies]\n' + dep + 'libloading = "0.8"\n' + ''.join(f'tab{k} = {{ path = "../tab{k}" }}\n' for k in range(sets)))
    write(f'{out}/Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"{m}"' for m in members) + ']\n\n' + profile)
    if not os.path.exists(f'{out}/Cargo.lock'): write(f'{out}/Cargo.lock', open(f'{HERE}/h/Cargo.lock').read())
    return sets, specs, bad
def canary_lib(out, target, specs):
    """a C library whose functions have any subset of the canaries, named like those of a generated library"""
    syms = subprocess.run(['nm', '-D', '--defined-only', f'{target}/debug/libplugin0.so'], capture_output=True, text=True, check=True).stdout.split('\n')
    names = [l.split()[-1] for l in syms if l.strip()]
    suf = [n[4:] for n in names if n.startswith('c0_0') and n != 'c0_0']
    by = []
    for w in WORDS:
        m = [x for x in suf if w in x.lower()]
        # a target's name may hold another's word
        by.append(min(m, key=lambda x: x.lower().index(w)) if m else None)
    if len(suf) != 6 or None in by or len(set(by)) != 6: return suf
    c = 'static unsigned flags[256];\nunsigned called(unsigned i) { return flags[i]; }\n'
    def fun(n, idx, mask):
        o = f'unsigned long long {n}(unsigned long long x) {{ return x * 3 + {idx}; }}\n'
        for i in range(6):
            if mask >> i & 1: o += f'void {n}{by[i]}(void) {{ flags[{idx}] |= {1 << i}u; }}\n'
        return o
    for m in range(64): c += fun(f'm{m}', m, m)
    for j in range(len(specs)): c += fun(f's{j}', 64 + j, 63)
    write(f'{out}/can/can.c', c)
    so, src = f'{out}/can/libcan28.so', f'{out}/can/can.c'
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src): subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, src], check=True)
    return None
def cargo(out, args):
    p = subprocess.run(['cargo', 'build', '--offline'] + args, cwd=out, capture_output=True, text=True)
    return p.returncode, p.stderr
def violation(seed, tier, out, why, text):
    os.makedirs(f'{HERE}/replays', exist_ok=True)
    rep = f'{HERE}/replays/C28.replay'
    open(rep, 'w').write(f'# property C28: {why}\n# re-run: VERIF_SEED={seed} {HERE}/check.sh C28 {tier}    (programs: {out})\n{text}\n')
    print('\n'.join(text.split('\n')[:14]))
    print(f'C28: {why}')
    print(f'VIOLATION property=C28 replay={rep}')
    sys.exit(1)
def main():
    out, tier, seed = sys.argv[1], os.environ.get('VERIF_TIER', 'quick'), int(os.environ.get('VERIF_SEED', '1'))
    only_build = len(sys.argv) > 2
    sets, specs, bad = generate(out, seed, tier)
    target = os.environ['CARGO_TARGET_DIR']
    def build(args):
        rc, err = cargo(out, args)
        if rc == 0: return
        if not re.search(r'^ *--> (plugin|tab|shared|main)[0-9_]*/src/', err, re.M) or not re.search(r'^error', err, re.M):
            print(err[-3000:]); print('ERROR: the harness of C28 does not build against /repo'); sys.exit(2)
        i = err.find('\nerror')
        violation(seed, tier, out, 'generated programs that use stabby as documented do not compile', err[max(i, 0):][:20000])
    build([x for k in range(sets) for x in ('-p', f'plugin{k}')])
    odd = canary_lib(out, target, specs)
    if odd is not None: violation(seed, tier, out, 'a function exported with canaries has other symbols than one for each of them', 'its other symbols end with: ' + ', '.join(odd))
    build(['--bin', 'c28gen'])
    if only_build: return
    for j, spec, mask, miss in bad:
        rc, err = cargo(out, ['--bin', f'bad{j}'])
        if rc == 0: violation(seed, tier, out, f'a program importing a function with canaries="{spec}" was linked, though the library has no {miss} canary for it', open(f'{out}/main/src/bin/bad{j}.rs').read())
        if 'undefined' not in err: violation(seed, tier, out, f'a program importing a function with canaries="{spec}" does not compile', err[-8000:])
main()
