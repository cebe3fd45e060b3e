"""Trait objects: random stable traits, concrete types, trait lists and the lists reachable by discarding traits, with a native twin for every call."""
import random
OWN = ['bool', 'u8', 'i16', 'u32', 'i64', 'u64', 'u64', 'usize', 'f32', 'f64', 'core::num::NonZeroU32', 'Opt32', 'OptNz', 'OptBox', 'Res32', 'Vec16', 'SString', 'BoxTr', 'ArcTr', 'Tr', 'TrBig', 'TrNiche', 'Tup', 'HelpBox', 'HelpArc', 'CFn', 'u128']
UNSTABLE = {'char', 'CFn'}
NAMES = ['get', 'set', 'next', 'ptr', 'ptr_mut', 'vtable', 'as_ref', 'as_mut', 'clone', 'eq', 'start', 'head', 'tail', 'tderef', 'call', 'r#type', 'm1', 'm2', 'm3', 'deref', 'into', 'poll', 'fmt', 'from', 'size']
INHERENT = {'ptr', 'ptr_mut', 'vtable', 'as_ref', 'as_mut', 'clone', 'into', 'try_as_mut', 'eq', 'deref', 'fmt', 'from'}
ABIS = ['extern "C"'] * 6 + ['extern "C-unwind"', 'extern "system"', 'extern']
class Meth: pass
class Trait: pass
class W:
    def __init__(self, rng, idx, alloc, prop):
        self.r, self.i, self.alloc, self.prop = rng, idx, alloc, prop
        self.kc = 0
        self.traits = [self.trait(i) for i in range(rng.choice([2, 3, 3, 4]))]
        self.inst = []
        for t in self.traits:
            n = rng.choice([1, 2]) if t.gens else 1
            seen = set()
            for _ in range(n):
                g = tuple(rng.choice(['u8', 'u16x', 'u32', 'Tr', 'SString', 'OptNz', 'u64']).replace('u16x', 'i16') for _ in t.gens)
                if g in seen: continue
                seen.add(g)
                self.inst.append((t, g, tuple(rng.choice(['u8', 'u32', 'Tr', 'SString', 'BoxTr', 'Opt32']) for _ in t.assoc)))
        self.types = self.mktypes()
    def K(self):
        self.kc += 1
        return (self.i * 1000 + self.kc) * 2654435761 % (1 << 61) | 1
    def trait(self, i):
        r = self.r
        t = Trait()
        t.name = f'T{i}'
        t.checked = r.random() < .4
        t.gens = [['A'], ['A', 'B']][r.random() < .3] if r.random() < .45 else []
        t.assoc = [['Out'], ['Out', 'Err']][r.random() < .35] if r.random() < .4 else []
        t.lt = r.random() < .15
        t.bounds = {a: r.choice(['', '', ': Val', ": Val + 'static", ": 'static", ': Val + core::marker::Unpin']) for a in t.assoc}
        # checked traits see their arguments with every lifetime made static
        t.gbounds = {a: r.choice([": Val + 'static", ": 'static"] + ([] if t.checked else ['', ': Val'])) for a in t.gens}
        names = r.sample(NAMES, 6)
        t.meths = []
        p = Meth()
        p.name, p.mut, p.lts, p.abi, p.args, p.ret, p.default, p.unsafe = 'probe', False, [], 'extern "C"', [], ('own', 'u64'), False, False
        if r.random() < .85: t.meths.append(p)
        for n in names[:r.choice([0, 1, 1, 2, 3, 4, 5])]: t.meths.append(self.meth(t, n))
        # every parameter is used by some method
        for kind, xs in (('gown', t.gens), ('aown', t.assoc)):
            for x in xs:
                if any(a[1] == x and a[0][0] == kind[0] for m in t.meths for a in m.args + [m.ret]): continue
                free = [m for m in t.meths if m.name != 'probe' and not m.default]
                if not free:
                    m = self.meth(t, r.choice([n for n in NAMES if n not in [y.name for y in t.meths]]))
                    m.default = False
                    t.meths.append(m)
                    free = [m]
                r.choice(free).args.append((kind, x, ''))
        if t.lt:
            free = [m for m in t.meths if m.name != 'probe' and m.ret[0] != 'sref' and not m.default]
            if free: r.choice(free).args.append(('xref', 'u64', "'x"))
            else: t.lt = False
        # two methods whose types differ only in how a lifetime is spelled don't compile in one trait (see DESIGN.md)
        shapes = {}
        for m in t.meths:
            while True:
                k = (m.abi.replace(' "C"', ''), m.mut, m.unsafe, tuple(a[:2] for a in m.args), m.ret if m.ret[0] != 'argref' else m.args[m.ret[1]][:2])
                sp = (m.lts, [a[2:] for a in m.args])
                if shapes.setdefault(k, sp) == sp: break
                m.args.append(('own', r.choice(['u8', 'i64', 'usize', 'Tup'])))
        r.shuffle(t.meths)
        return t
    def meth(self, t, name):
        r = self.r
        m = Meth()
        m.name, m.mut, m.abi, m.unsafe = name, r.random() < .5, r.choice(ABIS), r.random() < .08
        own = [x for x in OWN if not (t.checked and x in UNSTABLE)]
        m.lts = []
        if r.random() < .4: m.lts = ["'a"] + (["'b"] if r.random() < .4 else [])
        L = (lambda: r.choice(m.lts)) if m.lts else (lambda: '')
        m.args = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 2, 3, 4])):
            k = r.randrange(20)
            if k < 8: m.args.append(('own', r.choice(own)))
            elif k < 10: m.args.append(('ref', r.choice(own + ['Arr3']), L()))
            elif k < 12: m.args.append(('mut', r.choice(own), L()))
            elif k == 12: m.args.append(('str', None, L()))
            elif k == 13: m.args.append(('slice', 'u32', L()))
            elif k == 14: m.args.append(('slicemut', 'u8', L()))
            elif k < 18 and t.gens: m.args.append((r.choice(['gown', 'gown', 'gref', 'gmut']), r.choice(t.gens), L()))
            elif t.assoc: m.args.append((r.choice(['aown', 'aown', 'aref']), r.choice(t.assoc), L()))
            elif k == 18: m.args.append(('ptr', r.choice(['u64', 'u8']), ''))
        refs = [i for i, a in enumerate(m.args) if a[0] in ('ref', 'gref', 'aref')]
        if "'a" in m.lts:
            k = r.randrange(8)
            if k == 0: m.ret = ('sref', 'u64')
            elif k == 1 and m.mut: m.ret = ('smut', 'u64')
            elif k == 2: m.ret = ('sopt', 'u64')
            elif k == 3: m.ret = ('sslice', 'u64')
            elif k == 4 and any(m.args[i][2] == "'a" for i in refs): m.ret = ('argref', r.choice([i for i in refs if m.args[i][2] == "'a"]))
            else: m.ret = None
        else:
            # elided: the receiver's lifetime, when it is the only reference
            m.ret = ('sref', 'u64') if r.random() < .1 and not t.lt and not any(a[0] not in ('own', 'gown', 'aown', 'ptr') for a in m.args) else None
        if not m.ret:
            k = r.randrange(10)
            if k < 2: m.ret = ('unit', None)
            elif k < 4 and t.gens: m.ret = ('gown', r.choice(t.gens))
            elif k < 6 and t.assoc: m.ret = ('aown', r.choice(t.assoc))
            else: m.ret = ('own', r.choice(own))
        m.default = any(x.name == 'probe' for x in t.meths) and m.ret[0] in ('own', 'unit') and not any(a[0] in ('gown', 'gref', 'gmut', 'aown', 'aref') for a in m.args) and r.random() < .3
        return m
    # signatures; sub: None in the trait (generic names), or (gens, assoc) for concrete types
    def ty(self, t, a, sub):
        k, x = a[0], a[1]
        lt = a[2] if len(a) > 2 else ''
        sp = lt + ' ' if lt else ''
        el = lt if lt else "'_"
        if k in ('gown', 'gref', 'gmut') and sub: x = sub[0][t.gens.index(x)]
        if k in ('aown', 'aref'): x = sub[1][t.assoc.index(x)] if sub else f'Self::{x}'
        return {'own': x, 'gown': x, 'aown': x, 'ref': f'&{sp}{x}', 'xref': f"&'{'x' if not sub or sub == 'x' else 'x'} {x}", 'gref': f'&{sp}{x}', 'aref': f'&{sp}{x}', 'mut': f'&{sp}mut {x}', 'gmut': f'&{sp}mut {x}',
                'str': f'stabby::str::Str<{el}>', 'slice': f'stabby::slice::Slice<{el}, {x}>', 'slicemut': f'stabby::slice::SliceMut<{el}, {x}>', 'ptr': f'*const {x}'}[k]
    def ret(self, t, m, sub):
        k, x = m.ret
        if k == 'unit': return ''
        if k == 'argref': return ' -> ' + self.ty(t, m.args[x], sub)
        if k in ('own', 'gown', 'aown'): return ' -> ' + self.ty(t, m.ret, sub)
        a = "'a " if m.lts else ''
        return ' -> ' + {'sref': f'&{a}u64', 'smut': f'&{a}mut u64', 'sopt': f"SOption<&{a}u64>", 'sslice': f"stabby::slice::Slice<{a.strip() or chr(39) + '_'}, u64>"}[k]
    def sig(self, t, m, sub):
        lts = '<' + ', '.join(m.lts) + '>' if m.lts else ''
        a = "'a " if m.lts else ''
        args = ''.join(f', {"mut " if x[0] == "slicemut" and sub else ""}a{i}: {self.ty(t, x, sub)}' for i, x in enumerate(m.args))
        return f'{"unsafe " if m.unsafe else ""}{m.abi} fn {m.name}{lts}(&{a}{"mut " if m.mut else ""}self{args}){self.ret(t, m, sub)}'
    def hash(self, a, n):
        k = a[0]
        if k in ('own', 'gown', 'aown', 'ref', 'xref', 'gref', 'aref', 'mut', 'gmut'): return f'Val::h({"&" if k in ("own", "gown", "aown") else "&*"}{n})'
        if k == 'str': return f'vph::engine::hash_str({n}.as_str())'
        if k == 'ptr': return f'unsafe {{ *{n} }} as u64'
        return f'{n}.iter().fold({n}.len() as u64, |p, q| mix(p, *q as u64))'
    def body(self, t, m, first):
        b = [f'let mut h = {first};']
        for i, a in enumerate(m.args): b.append(f'h = mix(h, {self.hash(a, f"a{i}")});')
        for i, a in enumerate(m.args):
            if a[0] in ('mut', 'gmut'): b.append(f'*a{i} = Val::mk(mix(h, {i}));')
            if a[0] == 'slicemut': b.append(f'for q in a{i}.iter_mut() {{ *q ^= h as u8; }}')
        return b
    def retexpr(self, m):
        k, x = m.ret
        return {'unit': '', 'own': 'Val::mk(h)', 'gown': 'Val::mk(h)', 'aown': 'Val::mk(h)', 'argref': f'a{x}', 'sref': 'self.nref()', 'smut': 'self.nmut()',
                'sopt': 'if h % 3 == 0 { SOption::None() } else { SOption::Some(self.nref()) }', 'sslice': 'core::slice::from_ref(self.nref()).into()'}[k]
    def emit_trait(self, t):
        r = self.r
        g = (["'x"] if t.lt else []) + [f'{a}{t.gbounds[a]}' for a in t.gens]
        o = f'#[stabby::stabby{"(checked)" if t.checked else ""}]\npub trait {t.name}{"<" + ", ".join(g) + ">" if g else ""} {{\n'
        for a in t.assoc: o += f'    type {a}{t.bounds[a]};\n'
        for m in t.meths:
            if m.default:
                b = self.body(t, m, f'called({self.K()}, self.probe())')
                sig = self.sig(t, m, None)
                for i, a in enumerate(m.args):
                    if a[0] == 'slicemut': sig = sig.replace(f'a{i}:', f'mut a{i}:')
                o += f'    {sig} {{\n        ' + '\n        '.join(b) + f'\n        {self.retexpr(m)}\n    }}\n'
            else: o += f'    {self.sig(t, m, None)};\n'
        return o + '}\n'
    def mktypes(self):
        r = self.r
        kinds = ['plain', 'big', 'gen8', 'gen16', 'enum', 'zst', 'u64', 'align', 'la', 'phantom', 'phantom2', 'order', 'short']
        ks = r.sample(kinds, r.choice([3, 4, 5]) if self.prop == 'C19' else r.choice([5, 6]))
        if self.prop == 'C20':
            # keep families of lookalikes together
            for a, b in (('plain', 'la'), ('gen8', 'gen16')):
                if (a in ks) != (b in ks): ks.append(b if a in ks else a)
        elif 'la' in ks and 'plain' not in ks: ks.append('plain')
        # known finding: types that only differ in a phantom parameter have the same report
        if 'phantom' in ks and 'phantom2' in ks: ks.remove('phantom2')
        return ks
    TYPES = {
        'plain': ('C0', '#[stabby::stabby]\npub struct C0 { pub n: u64, pub tr: Tr }', 'C0 { n, tr: Tr::new(n as u32) }', 'self.n', True),
        'big': ('C1', '#[stabby::stabby]\npub struct C1 { pub b: u8, pub tr: TrBig, pub n: u64 }', 'C1 { b: 5, tr: TrBig::new(n as u32), n }', 'self.n', True),
        'gen8': ('CG<u8>', '', 'CG { t: 5, n, tr: Tr::new(n as u32) }', 'self.n', False),
        'gen16': ('CG<u16>', '', 'CG { t: 700, n, tr: Tr::new(n as u32) }', 'self.n', False),
        'enum': ('CE', '#[stabby::stabby]\n#[repr(u8)]\npub enum CE { A(In), B(In2) }\n#[stabby::stabby]\npub struct In { pub n: u64, pub tr: Tr }\n#[stabby::stabby]\npub struct In2 { pub tr: TrNiche, pub n: u64 }', 'if n % 2 == 0 { CE::A(In { n, tr: Tr::new(1) }) } else { CE::B(In2 { tr: TrNiche::new(2), n }) }', None, True),
        'zst': ('CZ', '#[stabby::stabby]\npub struct CZ(pub TrZ);', '{ let _ = n; CZ(TrZ::new(0)) }', 'zst', True),
        'u64': ('u64', '', 'n', '*self', False),
        'align': ('CA', '#[stabby::stabby]\npub struct CA { pub tr: Tr64, pub n: u64 }', 'CA { tr: Tr64::new(3), n }', 'self.n', True),
        'la': ('la::C0', 'pub mod la {\nuse super::*;\n#[stabby::stabby]\npub struct C0 { pub n: u64, pub tr: Tr }\n}', 'la::C0 { n, tr: Tr::new(n as u32) }', 'self.n', True),
        'phantom': ('CP<u8>', '', 'CP { n, tr: Tr::new(n as u32), p: core::marker::PhantomData }', 'self.n', False),
        'phantom2': ('CP<i8>', '', 'CP { n, tr: Tr::new(n as u32), p: core::marker::PhantomData }', 'self.n', False),
        'tuple': ('(u64, Tr)', '', '(n, Tr::new(1))', 'self.0', False),
        'order': ('CO', '#[stabby::stabby]\npub struct CO { pub tr: Tr, pub n: u64 }', 'CO { n, tr: Tr::new(n as u32) }', 'self.n', True),
        'short': ('short::CO', 'pub mod short {\nuse super::*;\n#[stabby::stabby]\npub struct CO { pub tr: Tr, pub n: u64, pub m: u8 }\n}', 'short::CO { n, tr: Tr::new(n as u32), m: 1 }', 'self.n', True),
    }
    def emit_type(self, k):
        name, df, mk, n, dropl = self.TYPES[k]
        kk = self.K()
        o = df + '\n'
        ours = k in ('u64', 'tuple')
        if n == 'zst': acc = ('0', '{}', 'static ZERO: u64 = 0; &ZERO', 'Box::leak(Box::new(0))')
        elif n is None: acc = ('match self { CE::A(i) => { i.tr.val(); i.n } CE::B(i) => { i.tr.val(); i.n } }', '*self.nmut() = n;', 'match self { CE::A(i) => &i.n, CE::B(i) => &i.n }', 'match self { CE::A(i) => &mut i.n, CE::B(i) => &mut i.n }')
        else:
            chk = {'u64': '', 'tuple': 'self.1.val(); '}.get(k, 'self.tr.val(); ')
            acc = (f'{chk}{n}', f'{n} = n;', f'&{n}', f'&mut {n}')
        logs = dropl or k in ('gen8', 'gen16', 'phantom', 'phantom2')
        if not ours: o += f'impl St for {name} {{\n    const K: u64 = {kk if logs else 0};\n    fn make(n: u64) -> Self {{ {mk} }}\n    fn n(&self) -> u64 {{ {acc[0]} }}\n    fn put(&mut self, n: u64) {{ {acc[1]} }}\n    fn nref(&self) -> &u64 {{ {acc[2]} }}\n    fn nmut(&mut self) -> &mut u64 {{ {acc[3]} }}\n}}\n'
        if dropl: o += f'impl Drop for {name} {{\n    fn drop(&mut self) {{ dropped({kk}, self.n()) }}\n}}\n'
        for t, g, a in self.inst:
            args = (["'x"] if t.lt else []) + list(g)
            o += f'impl{"<" + chr(39) + "x>" if t.lt else ""} {t.name}{"<" + ", ".join(args) + ">" if args else ""} for {name} {{\n'
            for x, y in zip(t.assoc, a): o += f'    type {x} = {y};\n'
            for m in t.meths:
                if m.default and self.r.random() < .6: continue
                b = self.body(t, m, f'called({self.K()}, self.n())')
                if m.mut: b.append('self.put(mix(h, 9));')
                sig = self.sig(t, m, (g, a))
                o += f'    {sig} {{\n        ' + '\n        '.join(b) + f'\n        {self.retexpr(m)}\n    }}\n'
            o += '}\n'
        return o
    def call(self, t, g, a, m, path):
        """the expression: arguments built from x, result and arguments hashed"""
        sub = (g, a)
        pre, args, post = [], [], []
        for i, q in enumerate(m.args):
            k = q[0]
            x = f'mix(x[{i % 4}], {i})'
            full = self.ty(t, ('own',) + q[1:], sub) if k not in ('gown', 'gref', 'gmut', 'aown', 'aref') else (g[t.gens.index(q[1])] if k[0] == 'g' else a[t.assoc.index(q[1])])
            if k == 'str':
                pre.append(f'let a{i} = format!("{{:x}}ü", x[{i % 4}]);'); args.append(f'a{i}.as_str().into()')
            elif k == 'slice':
                pre.append(f'let a{i}: Vec<u32> = (0..x[{i % 4}] % 5).map(|q| mix(x[{i % 4}], q) as u32).collect();'); args.append(f'a{i}.as_slice().into()')
            elif k == 'slicemut':
                pre.append(f'let mut a{i}: Vec<u8> = (0..x[{i % 4}] % 5).map(|q| mix(x[{i % 4}], q) as u8).collect();'); args.append(f'a{i}.as_mut_slice().into()')
                post.append(f'h = a{i}.iter().fold(h, |p, q| mix(p, *q as u64));')
            else:
                pre.append(f'let mut a{i} = <{full} as Val>::mk({x});')
                if k in ('own', 'gown', 'aown'): args.append(f'a{i}')
                elif k == 'xref': args.append(f'unsafe {{ &*(&a{i} as *const _) }}')
                elif k == 'ptr': args.append(f'&a{i} as *const _')
                else:
                    args.append(f'&{"mut " if k in ("mut", "gmut") else ""}a{i}')
                    post.append(f'h = mix(h, a{i}.h());')
        k = m.ret[0]
        hr = {'unit': '{ r; 0 }', 'own': 'Val::h(&r)', 'gown': 'Val::h(&r)', 'aown': 'Val::h(&r)', 'argref': 'Val::h(&*r)', 'sref': '*r', 'smut': '{ *r = r.wrapping_add(1); *r }', 'sopt': 'r.match_ref(|v| mix(1, **v), || 0)', 'sslice': 'r.iter().fold(r.len() as u64, |p, q| mix(p, *q))'}[k]
        call = path(m, ', '.join(args))
        return '{ ' + ' '.join(pre) + f' let mut h = {{ let r = unsafe {{ {call} }}; {hr} }}; ' + ' '.join(post) + ' h }'
    def bound(self, e):
        if e in ('Send', 'Sync'): return e
        if e == 'Any': return 'stabby::Any'
        t, g, a = self.inst[e]
        args = (["'static"] if t.lt else []) + list(g) + [f'{x} = {y}' for x, y in zip(t.assoc, a)]
        return t.name + ('<' + ', '.join(args) + '>' if args else '')
    def vtext(self, l):
        return 'stabby::vtable!(' + ' + '.join(self.bound(e) for e in l) + ')' if l else 'stabby::abi::vtable::VtDrop'
    def ups(self, l):
        """lists reachable in one step"""
        if not l: return []
        out = []
        mk = ('Send', 'Sync')
        top = l[-1]
        if top in mk:
            out.append(l[:-1])
            rest = l[:-1]
            if rest and rest[-1] in mk and rest[-1] != top:
                out.append(rest[:-1])
                out.append(rest[:-1] + (top,))
                if len(rest) > 1 and rest[-2] not in mk: out += [rest[:-2], rest[:-2] + l[-2:]]
            elif rest and rest[-1] not in mk: out += [rest[:-1], rest[:-1] + (top,)]
        else: out.append(l[:-1])
        seen = []
        for x in out:
            if x not in seen: seen.append(x)
        return seen
    def emit(self, nroots):
        r = self.r
        o = ''
        types = [self.TYPES[k][0] for k in self.types]
        if any(k in ('gen8', 'gen16') for k in self.types): o += '#[stabby::stabby]\npub struct CG<T: stabby::IStable> { pub t: T, pub n: u64, pub tr: Tr }\nimpl<T: stabby::IStable> Drop for CG<T> {\n    fn drop(&mut self) { dropped(KG.with(|k| k.get(core::any::type_name::<Self>())), self.n) }\n}\n'
        if any(k in ('phantom', 'phantom2') for k in self.types): o += '#[stabby::stabby]\npub struct CP<T: stabby::IStable> { pub n: u64, pub tr: Tr, pub p: core::marker::PhantomData<T> }\nimpl<T: stabby::IStable> Drop for CP<T> {\n    fn drop(&mut self) { dropped(KG.with(|k| k.get(core::any::type_name::<Self>())), self.n) }\n}\n'
        o += 'pub struct Tw<C>(pub C);\npub struct Ks(core::cell::RefCell<Vec<(&\'static str, u64)>>);\nimpl Ks { pub fn get(&self, n: &str) -> u64 { self.0.borrow().iter().find(|x| x.0 == n).map_or(1, |x| x.1) } }\n'
        gk = [types[i] for i, k in enumerate(self.types) if k in ('gen8', 'gen16', 'phantom', 'phantom2')]
        o += 'thread_local!(pub static KG: Ks = Ks(core::cell::RefCell::new(vec![' + ', '.join(f'(core::any::type_name::<{n}>(), <{n} as St>::K)' for n in gk) + '])));\n'
        for t in self.traits: o += self.emit_trait(t)
        for k in self.types: o += self.emit_type(k)
        refs, muts = [], []
        for i, (t, g, a) in enumerate(self.inst):
            for m in t.meths: (muts if m.mut else refs).append((i, m))
        for n in types:
            o += f'impl Ty for Tw<{n}> {{\n    fn state(&self) -> u64 {{ self.0.n() }}\n'
            for fn, ms, mu in (('native', refs, ''), ('native_mut', muts, 'mut ')):
                o += f'    fn {fn}(&{mu}self, m: usize, x: &X) -> u64 {{\n        match m {{\n'
                for j, (i, m) in enumerate(ms):
                    t, g, a = self.inst[i]
                    ta = (["'_"] if t.lt else []) + list(g)
                    tr = t.name + ('<' + ', '.join(ta) + '>' if ta else '')
                    o += f'            {j} => ' + self.call(t, g, a, m, lambda m, s: f'<{n} as {tr}>::{m.name}(&{mu}self.0{", " + s if s else ""})') + '\n'
                o += '            _ => unreachable!(),\n        }\n    }\n'
            o += '}\n'
        levels, roots = {}, []
        def level(l, depth):
            if l in levels: return levels[l][0]
            k = f'k{len(levels)}'
            levels[l] = [k, []]
            ups = self.ups(l)
            if len(ups) > 2: ups = r.sample(ups, 2)
            if depth > 4 or (depth > 1 and r.random() < .25): ups = []
            levels[l][1] = [level(u, depth + 1) for u in ups]
            return k
        tries = 0
        while len(roots) < nroots and tries < 40:
            tries += 1
            pool = list(range(len(self.inst)))
            l = r.sample(pool, min(len(pool), r.choice([1, 2, 2, 3, 3, 4])))
            if r.random() < (.35 if self.prop == 'C19' else .95): l.insert(r.randrange(len(l) + 1), 'Any')
            for mk in ('Send', 'Sync'):
                if r.random() < .4: l.insert(r.randrange(len(l) + 1), mk)
            l = tuple(l)
            if l in [x for x, _ in roots]: continue
            roots.append((l, level(l, 0)))
        for l, (k, ups) in levels.items(): o += self.emit_level(l, k, ups, types, refs, muts)
        for j, (l, k) in enumerate(roots):
            A = self.alloc
            o += f'pub mod root{j} {{\nuse super::*;\nuse super::{k} as k;\ntype V = k::V;\n'
            if l: o += f"fn same(x: stabby::dynptr!(SBox<dyn {' + '.join(self.bound(e) for e in l)}>)) -> stabby::Dyn<'static, SBox<()>, V> {{ x }}\n"
            o += f"""fn mk<C: St + 'static>(kind: usize, seed: u64) -> (Box<dyn Obj>, Option<Store>) where V: stabby::abi::vtable::IConstConstructor<'static, C> {{
    match kind {{
        0 => (Box::new(k::B(SBox::new_in(C::make(seed), <{A} as vph::chk::TA>::mk(3)).into())), None),
        1 => (Box::new(k::R(SArc::new_in(C::make(seed), <{A} as vph::chk::TA>::mk(4)).into())), None),
        2 => {{ let (p, s) = store(C::make(seed)); (Box::new(k::M(unsafe {{ &mut *p }}.into())), Some(s)) }}
        _ => {{ let (p, s) = store(C::make(seed)); (Box::new(k::F(unsafe {{ &*p }}.into())), Some(s)) }}
    }}
}}
pub fn root() -> Root {{
    Root {{
        level: &k::LEVEL,
        types: &[{', '.join(f'"{n}"' for n in types)}],
        make: |kind, ty, seed| match ty {{ {' '.join(f'{i} => mk::<{n}>(kind, seed),' for i, n in enumerate(types))} _ => unreachable!() }},
        twin: |ty, seed| match ty {{ {' '.join(f'{i} => Box::new(Tw(<{n} as St>::make(seed))),' for i, n in enumerate(types))} _ => unreachable!() }},
        words: |ty| match ty {{ {' '.join(f"{i} => words_of(&<V as stabby::abi::vtable::IConstConstructor<'static, {n}>>::VTABLE)," for i, n in enumerate(types))} _ => unreachable!() }},
        live: |ty| match ty {{ {' '.join(f"{i} => words_of(<V as stabby::abi::vtable::IConstConstructor<'static, {n}>>::vtable())," for i, n in enumerate(types))} _ => unreachable!() }},
        ks: |ty| [{', '.join(f'<{n} as St>::K' for n in types)}][ty],
    }}
}}
}}
"""
        return f'pub mod w{self.i} {{\nuse super::*;\n{o}}}\n', [f'w{self.i}::root{j}::root()' for j in range(len(roots))]
    def emit_level(self, l, k, ups, types, refs, muts):
        r = self.r
        inst = [e for e in l if isinstance(e, int)]
        names = {}
        for e in inst:
            for m in self.inst[e][0].meths: names[m.name] = names.get(m.name, 0) + 1
        def arms(ms, suffix):
            o, meths, j = '', [], 0
            for idx, (i, m) in enumerate(ms):
                if i not in inst: continue
                t, g, a = self.inst[i]
                plain = names[m.name] == 1 and m.name not in INHERENT and m.name != 'probe' and r.random() < .5 and not ('Any' in l and m.name in ('id', 'report'))
                ta = (["'static"] if t.lt else []) + ['_'] + list(a) + list(g)
                if plain: p = lambda m, s: f'd.{m.name}({s})'
                else: p = lambda m, s: f'{t.name}{suffix}::<{", ".join(ta)}>::{m.name}(d{", " + s if s else ""})'
                o += f'        {j} => ' + self.call(t, g, a, m, p) + '\n'
                meths.append(f'Meth {{ name: "{self.bound(i).replace(chr(34), "")}::{m.name}", native: {idx} }}')
                j += 1
            return o + '        _ => unreachable!(),\n', meths
        ra, rm = arms(refs, 'Dyn')
        oa, _ = arms(refs, 'Dyn')
        ma, mm = arms(muts, 'DynMut')
        any_ = 'Any' in l
        E = "stabby::abi::{}"
        P = "P: stabby::abi::IPtrOwned + stabby::abi::IPtr"
        PM = "P: stabby::abi::IPtrOwned + stabby::abi::IPtrMut"
        dn = 'vec![' + ', '.join(f'd.stable_downcast_ref::<{n}, _>().map(|p| {{ p.n(); p as *const {n} as usize }})' for n in types) + ']' if any_ else 'vec![]'
        dnm = 'vec![' + ', '.join(f'd.stable_downcast_mut::<{n}, _>().map(|p| {{ p.n(); p as *mut {n} as usize }})' for n in types) + ']' if any_ else 'vec![]'
        dnr = 'vec![' + ', '.join(f'd.stable_downcast::<{n}, _>().map(|p| {{ p.n(); p as *const {n} as usize }})' for n in types) + ']' if any_ else 'vec![]'
        raw = 'vec![]'
        if self.prop == 'C20':
            raw = 'let w = words_of(stabby::Dyn::vtable(d)); let mut v = vec![' + ', '.join(f"(unsafe {{ d.downcast_ref::<{n}>() }}.map(|p| p as *const {n} as usize), w == words_of(&<V as stabby::abi::vtable::IConstConstructor<'static, {n}>>::VTABLE))" for n in types) + ']; '
            raw += ' '.join(f'if unsafe {{ d.downcast_mut::<{n}>() }}.map(|p| p as *mut {n} as usize) != v[{i}].0 {{ v[{i}].0 = Some(1); }}' for i, n in enumerate(types)) + ' v'
        text = ' + '.join(self.bound(e) for e in l) or 'nothing'
        return f"""pub mod {k} {{
use super::*;
pub type V = {self.vtext(l)};
pub static LEVEL: Level = Level {{ text: "{text}", refs: &[{', '.join(rm)}], muts: &[{', '.join(mm)}], ups: {len(ups)}, any: {str(any_).lower()}, cmp: cmp_vt::<V> }};
fn rf(d: &stabby::DynRef<'_, V>, m: usize, x: &X) -> u64 {{
    match m {{
{ra}    }}
}}
fn own<{P}>(d: &stabby::Dyn<'_, P, V>, m: usize, x: &X) -> u64 {{
    match m {{
{oa}    }}
}}
fn ex<{PM}>(d: &mut stabby::Dyn<'_, P, V>, m: usize, x: &X) -> u64 {{
    match m {{
{ma}    }}
}}
fn dn<{P}>(d: &stabby::Dyn<'_, P, V>) -> Vec<Option<usize>> {{ {dn} }}
fn dnm<{PM}>(d: &mut stabby::Dyn<'_, P, V>) -> Vec<Option<usize>> {{ {dnm} }}
fn dnr(d: &stabby::DynRef<'_, V>) -> Vec<Option<usize>> {{ {dnr} }}
fn raw<{PM}>(d: &mut stabby::Dyn<'_, P, V>) -> Vec<(Option<usize>, bool)> {{ {raw} }}
vph::level!({self.alloc}, V, LEVEL, rf, own, ex, dn, dnm, dnr, raw, [{', '.join(f'{i} => {u}' for i, u in enumerate(ups))}]);
}}
"""
HEAD = """#![allow(warnings)]
#![recursion_limit = "2048"]
use vph::dynobj::*;
use vph::engine::mix;
use vph::track::*;
use stabby::boxed::Box as SBox;
use stabby::sync::Arc as SArc;
use stabby::option::Option as SOption;
use stabby::string::String as SString;
use std::any::Any;
"""
PROP = 'C19'
def crate(rng, k, n):
    alloc = ['stabby::alloc::DefaultAllocator', 'vph::chk::ChkZ', 'vph::chk::Chk'][k % 3]
    o, roots = HEAD, []
    for i in range(n):
        b, rs = W(rng, i, alloc, PROP).emit(3 if PROP == 'C19' else 2)
        o += b
        roots += rs
    return o + 'pub fn objs() -> Vec<Root> {\n    vec![' + ', '.join(roots) + ']\n}\n'
