"""Type-level arithmetic: programs computing random expressions in the type system, with the values they must have."""
LIM = 1 << 127
def u(n):
    if n == 0: return 'UTerm'
    r = 'UTerm'
    for b in bin(n)[2:]: r = f'UInt<{r}, B{b}>'
    return r
class G:
    def __init__(self, rng):
        self.r, self.names, self.out, self.rows = rng, {}, [], []
    def n(self, v):
        if v <= 1000 and self.r.random() < .5: return f'U{v}'
        if v not in self.names:
            self.names[v] = f'N{v:x}'
            self.out.append(f'type N{v:x} = {u(v)};\n')
        return self.names[v]
    def val(self, bits=126):
        r = self.r
        k = r.random()
        if k < .35: return r.randrange(40)
        if k < .5: return r.randrange(1024)
        b = r.randrange(bits + 1)
        if k < .7: return max(0, (1 << b) + r.randint(-2, 2)) % (1 << bits)
        return r.getrandbits(b) if b else 0
    def near(self, a, bits=126):
        """a value related to a: equal, adjacent, one bit away, shifted, complemented, or anything"""
        r = self.r
        k = r.randrange(8)
        if k == 0: v = a
        elif k == 1: v = a + r.choice([-1, 1])
        elif k == 2: v = a ^ 1 << r.randrange(max(1, a.bit_length() + 1))
        elif k == 3: v = a >> r.randrange(1, 4)
        elif k == 4: v = a << 1
        elif k == 5: v = a ^ (1 << a.bit_length()) - 1
        else: v = self.val(bits)
        return abs(v) % (1 << bits)
    def num(self, text, ty, want): self.rows.append(f'        num::<{ty}>("{text}", {want}),\n')
    def bit(self, text, ty, want): self.rows.append(f'        bit::<{ty}>("{text}", {"true" if want else "false"}),\n')
    def same(self, text, a, b): self.rows.append(f'        same::<{a}, {b}>("{text}"),\n')
    def pair(self):
        a = self.val(); b = self.near(a)
        A, B = self.n(a), self.n(b)
        w = f'{a}, {b}'
        U = f'<{A} as Unsigned>'
        self.num(f'{a}', A, a)
        self.num(f'{w}: &', f'{U}::BitAnd<{B}>', a & b); self.num(f'{w}: |', f'{U}::BitOr<{B}>', a | b)
        self.num(f'{w}: +', f'{U}::Add<{B}>', a + b); self.num(f'{w}: absolute difference', f'{U}::AbsSub<{B}>', abs(a - b))
        self.num(f'{w}: min', f'{U}::Min<{B}>', min(a, b)); self.num(f'{w}: max', f'{U}::Max<{B}>', max(a, b))
        for n, x in (('Equal', a == b), ('NotEqual', a != b), ('Greater', a > b), ('GreaterOrEq', a >= b), ('Smaller', a < b), ('SmallerOrEq', a <= b)): self.bit(f'{w}: {n}', f'{U}::{n}<{B}>', x)
        self.same(f'{w}: cmp', f'{U}::Cmp<{B}>', 'Equal' if a == b else 'Greater' if a > b else 'Lesser')
        self.num(f'{a}: successor', f'<{A} as stabby::abi::typenum2::unsigned::IUnsignedBase>::Increment', a + 1)
        if a:
            self.num(f'{a}: predecessor', f'<{A} as NonZero>::Decrement', a - 1)
            self.num(f'{a}: as non-zero', f'<{A} as Unsigned>::NonZero', a)
        self.num(f'{a}: number of bits', f'<{A} as stabby::abi::typenum2::unsigned::IUnsignedBase>::NextPow2', a.bit_length())
        m, k = self.val(62), self.val(62)
        self.num(f'{m}, {k}: *', f'<{self.n(m)} as Unsigned>::Mul<{self.n(k)}>', m * k)
        t = self.r.randrange(self.r.choice([4, 12, 127]))
        self.num(f'{a}: low {t} bits', f'{U}::Truncate<{self.n(t)}>', a & (1 << t) - 1)
        p, q = self.r.randrange(self.r.choice([3, 10, 126])), self.r.randrange(self.r.choice([3, 10, 126]))
        P, Q = self.n(1 << p), self.n(1 << q)
        self.num(f'{a}, 2^{p}: remainder', f'{U}::Mod<{P}>', a % (1 << p)); self.num(f'{a}, 2^{p}: remainder of power', f'<{P} as PowerOf2>::Modulate<{A}>', a % (1 << p))
        self.num(f'{a}, 2^{p}: quotient', f'<{P} as PowerOf2>::Divide<{A}>', a >> p)
        self.num(f'2^{p}: logarithm', f'<{P} as PowerOf2>::Log2', p)
        self.num(f'2^{p}, 2^{q}: min', f'<{P} as PowerOf2>::Min<{Q}>', 1 << min(p, q)); self.num(f'2^{p}, 2^{q}: max', f'<{P} as PowerOf2>::Max<{Q}>', 1 << max(p, q))
        if (a + (1 << p) - 1 >> p << p) < LIM: self.num(f'{a}, 2^{p}: next multiple', f'{U}::NextMultipleOf<{P}>', a + (1 << p) - 1 >> p << p)
        x, y = self.r.randrange(17), self.r.randrange(17)
        self.num(f'2^{x}, 2^{y}: alignment max', f'<{self.n(1 << x)} as Alignment>::Max<{self.n(1 << y)}>', 1 << max(x, y))
        if x <= 12: self.rows.append(f'        shape::<<{self.n(1 << x)} as Alignment>::AsUint>("2^{x}: integer with this alignment", {1 << x}, {1 << x}),\n')
    def expr(self, d):
        """(tyeval text, type text, value)"""
        r = self.r
        if d == 0 or r.random() < .15:
            v = self.val(40); n = self.n(v); return n, n, v
        k = r.randrange(9)
        a = self.expr(d - 1); b = self.expr(d - 1)
        def q(x): return f'({x[0]})' if ' ' in x[0] else x[0]
        if k == 0: return f'{q(a)} + {q(b)}', f'<{a[1]} as Unsigned>::Add<{b[1]}>', a[2] + b[2]
        if k == 1: return f'{q(a)} - {q(b)}', f'<{a[1]} as Unsigned>::AbsSub<{b[1]}>', abs(a[2] - b[2])
        if k == 2: return f'{q(a)} | {q(b)}', f'<{a[1]} as Unsigned>::BitOr<{b[1]}>', a[2] | b[2]
        if k == 3: return f'{q(a)} & {q(b)}', f'<{a[1]} as Unsigned>::BitAnd<{b[1]}>', a[2] & b[2]
        if k == 4:
            s = 1 << r.randrange(8); return f'{q(a)} % {self.n(s)}', f'<{a[1]} as Unsigned>::Mod<{self.n(s)}>', a[2] % s
        if k == 5:
            c = self.expr(d - 1); e = self.expr(0)
            if r.random() < .5: c = e if r.random() < .5 else c
            eq = c[2] == e[2]
            neg = r.random() < .4
            cond = f'({q(c)} == {q(e)})'
            tc = f'<{c[1]} as Unsigned>::Equal<{e[1]}>'
            if neg: cond, tc = f'(!{cond})', f'<{tc} as Bit>::Not'
            return f'{cond} ? {q(a)} : {q(b)}', f'<{tc} as Bit>::UTernary<{a[1]}, {b[1]}>', a[2] if eq != neg else b[2]
        if k == 6: return q(a), a[1], a[2]
        if k == 7: return q(b), b[1], b[2]
        s = 1 << r.randrange(7)
        return f'{q(a)} + {self.n(s)}', f'<{a[1]} as Unsigned>::Add<{self.n(s)}>', a[2] + s
    def program(self):
        t, ty, v = self.expr(self.r.randint(1, 4))
        if v >= LIM: return
        self.num(f'tyeval {t}', ty, v)
        self.num(f'tyeval!({t})', f'stabby_macros_tyeval!({t})', v)
    def sizes(self):
        n = self.r.choice([self.r.randrange(20), self.r.randrange(70), self.r.randrange(260)])
        N = self.n(n)
        self.rows.append(f'        padding::<<{N} as Unsigned>::Padding>("padding of {n} bytes", {n}),\n')
        m = self.r.randrange(40)
        self.rows.append(f'        mask::<<{self.n(m)} as stabby::abi::typenum2::unsigned::IUnsignedBase>::PaddingBitMask>("padding mask of {m} bytes", &[{", ".join(f"({i}, 255)" for i in range(m))}]),\n')
        k = self.r.choice([self.r.randrange(12), self.r.randrange(40)])
        t, s, a = self.r.choice([('u8', 1, 1), ('u16', 2, 2), ('u32', 4, 4), ('u64', 8, 8)])
        self.rows.append(f'        array::<<{self.n(k)} as stabby::abi::typenum2::unsigned::IUnsignedBase>::Array<{t}>>("array of {k} {t}", {k * s}, {a if k else 1}),\n')
    # ---------------- masks
    def mask(self, d, free):
        """(type, {byte: bits}, ordered) over the bytes of `free`"""
        r = self.r
        if d == 0 or len(free) < 2:
            if not free or r.random() < .1: return 'End', {}
            b = r.choice(free); v = r.choice([255, 255, 1 << r.randrange(8), r.randrange(1, 256)])
            return f'Array<{self.n(b)}, {self.n(v)}, End>', {b: v}
        k = r.randrange(4)
        if k == 0:
            s = r.randint(0, min(free))
            t, m = self.mask(d - 1, [x - s for x in free])
            return f'<{t} as IBitMask>::Shift<{self.n(s)}>', {b + s: v for b, v in m.items()}
        if k == 1:
            t, m = self.mask(d - 1, free); t2, m2 = self.mask(d - 1, free)
            return f'<{t} as IBitMask>::BitAnd<{t2}>', {b: v & m2[b] for b, v in m.items() if v & m2.get(b, 0)}
        if k == 2:
            t, m = self.mask(d - 1, free)
            if m:
                for _ in range(r.randint(1, 3)):
                    b = next(iter(m))  # the head
                    t = f'<{t} as IBitMask>::ExtractBit'
                    v = m[b] & m[b] - 1
                    m = dict(m)
                    if v: m[b] = v
                    else: del m[b]
                    if not m: break
            return t, m
        x = r.randint(1, len(free) - 1)
        f = free[:]
        r.shuffle(f)
        t, m = self.mask(d - 1, sorted(f[:x])); t2, m2 = self.mask(d - 1, sorted(f[x:]))
        o = dict(m); o.update(m2)
        return f'<{t} as IBitMask>::BitOr<{t2}>', o
    def masks(self):
        t, m = self.mask(self.r.randint(0, 4), list(range(self.r.choice([0, 0, 3]), self.r.choice([4, 6, 12, 20]))))
        text = ' '.join(f'{b}:{v:02x}' for b, v in m.items())
        name = f'M{len(self.out)}'
        self.out.append(f'type {name} = {t};\n')
        self.rows.append(f'        mask::<{name}>("mask {t}", &[{", ".join(f"({b}, {v})" for b, v in m.items())}]),\n')
        for b in self.r.sample(range(24), 4) + list(m)[:3]:
            self.num(f'mask {text}: byte {b}', f'<{name} as IBitMask>::ByteAt<{self.n(b)}>', m.get(b, 0))
            self.bit(f'mask {text}: free byte {b}', f'<{name} as IBitMask>::HasFreeByteAt<{self.n(b)}>', m.get(b, 0) == 255)
        if m:
            self.rows.append(f'        extract::<{name}>("mask {text}: removal", &[{", ".join(f"({b}, {v})" for b, v in m.items())}]),\n')
        return name, m
    # ---------------- forbidden values
    def fv(self, d):
        """(type, [alternative], shape); an alternative is {byte: (lo, hi)}, the shape tells what a union lists first"""
        r = self.r
        if d == 0:
            k = r.random()
            if k < .08: return 'End', [], 'end'
            if k < .35:
                lo = r.randrange(255); hi = r.randrange(lo + 1, 256); b = r.randrange(6)
                return f'ForbiddenRange<{self.n(lo)}, {self.n(hi)}, {self.n(b)}>', [{b: (lo, hi)}], 'range'
            bs = r.sample(range(6), r.choice([1, 1, 2, 3])); vs = [r.choice([0, 255, r.randrange(256)]) for _ in bs]
            t = 'End'
            for b, v in reversed(list(zip(bs, vs))): t = f'Array<{self.n(b)}, {self.n(v)}, {t}>'
            return t, [{b: (v, v) for b, v in zip(bs, vs)}], 'array'
        if r.random() < .4:
            s = r.randrange(5); t, a, h = self.fv(d - 1)
            return f'<{t} as IForbiddenValues>::Shift<{self.n(s)}>', [{b + s: v for b, v in x.items()} for x in a], h
        t, a, h = self.fv(d - 1); t2, a2, h2 = self.fv(d - 1)
        return f'<{t} as IForbiddenValues>::Or<{t2}>', a + a2, h2 if h == 'end' else ('or', h, h2) if h == 'range' else ('or', h2, h)
    def fvs(self):
        t, a, h = self.fv(self.r.randint(0, 3))
        while h[0] == 'or': h = h[1]
        name = f'F{len(self.out)}'
        self.out.append(f'type {name} = {t};\n')
        lit = '&[' + ', '.join('&[' + ', '.join(f'({b}, {lo}, {hi})' for b, (lo, hi) in x.items()) + ']' for x in a) + ']'
        self.rows.append(f'        forbidden::<{name}>("forbidden {t}", {lit}),\n')
        self.rows.append(f'        select_one::<<{name} as IForbiddenValues>::SelectOne>("one of {t}", {lit}, {'true' if h == 'end' else 'false'}),\n')
        for _ in range(2):
            mt, m = self.mask(self.r.randint(1, 3), list(range(12)))
            if self.r.random() < .7 and a:
                # free exactly, or almost, the bytes of one alternative
                x = self.r.choice(a); bs = list(x)
                if len(bs) > 1 and self.r.random() < .3: bs.pop(self.r.randrange(len(bs)))
                m = {b: 255 for b in bs}
                if self.r.random() < .2: m[bs[0]] = 127
                for b in self.r.sample(range(12), 2): m.setdefault(b, self.r.choice([255, 3]))
                mt = 'End'
                for b, v in reversed(list(m.items())): mt = f'Array<{self.n(b)}, {self.n(v)}, {mt}>'
            ml = '&[' + ', '.join(str(b) for b, v in m.items() if v == 255) + ']'
            self.rows.append(f'        select_from::<<<{name} as IForbiddenValues>::SelectFrom<{mt}> as ISingleForbiddenValue>::Resolve>("one of {t} within {mt}", {lit}, {ml}),\n')
    def bits(self):
        for a in (0, 1):
            for A in (f'B{a}', f'stabby::abi::typenum2::unsigned::Bool<{"true" if a else "false"}>'):
                self.bit(f'!{a}', f'<{A} as Bit>::Not', not a)
                for b in (0, 1):
                    for n, v in (('And', a & b), ('Or', a | b), ('Nand', not (a & b)), ('Xor', a ^ b), ('Equals', a == b)): self.bit(f'{a} {n} {b}', f'<{A} as Bit>::{n}<B{b}>', v)
                    self.num(f'{a} ? {b + 5} : {7 - b}', f'<{A} as Bit>::UTernary<U{b + 5}, U{7 - b}>', b + 5 if a else 7 - b)
                    self.num(f'{a} ? {b + 5} : {7 - b} (non-zero)', f'<{A} as Bit>::NzTernary<U{b + 5}, U{7 - b}>', b + 5 if a else 7 - b)
                    self.num(f'{a} ? {b + 1} : 4 (power)', f'<{A} as Bit>::PTernary<U{b + 1}, U4>', b + 1 if a else 4)
                    self.bit(f'{a} ? {b} : {1 - b}', f'<{A} as Bit>::BTernary<B{b}, B{1 - b}>', b if a else 1 - b)
                    self.same(f'{a} ? u8 : u16', f'<{A} as Bit>::StabTernary<u8, u16>', 'u8' if a else 'u16')
                    self.same(f'{a} ? str : bool', f'<{A} as Bit>::Ternary<&\'static str, bool>', "&'static str" if a else 'bool')
                    for c in (0, 1):
                        self.bit(f'{a}+{b}+{c} sum', f'<{A} as Bit>::AdderSum<B{b}, B{c}>', a ^ b ^ c); self.bit(f'{a}+{b}+{c} carry', f'<{A} as Bit>::AdderCarry<B{b}, B{c}>', a + b + c > 1)
                        self.bit(f'{a}-{b}-{c} difference', f'<{A} as Bit>::SuberSum<B{b}, B{c}>', a ^ b ^ c); self.bit(f'{a}-{b}-{c} borrow', f'<{A} as Bit>::SuberCarry<B{b}, B{c}>', a - b - c < 0)
def crate(rng, k, scale):
    g = G(rng)
    for _ in range(24 * scale): g.pair()
    for _ in range(20 * scale): g.program()
    for _ in range(12 * scale): g.sizes()
    for _ in range(24 * scale): g.masks()
    for _ in range(24 * scale): g.fvs()
    if k == 0: g.bits()
    head = '''#![allow(warnings)]
#![recursion_limit = "2048"]
use stabby::abi::istable::*;
use stabby::abi::typenum2::unsigned::{Alignment, Equal, Greater, Lesser, NonZero};
use stabby::abi::typenum2::*;
use vph::num08::*;
'''
    # tyeval is internal to the workspace: reach it through the macro crate
    body = ''.join(g.rows).replace('stabby_macros_tyeval!', 'stabby_macros::tyeval!')
    return head + ''.join(g.out) + 'pub fn facts() -> Vec<Fact> {\n    let mut v = vec![];\n' + ''.join(f'    v.push({r.strip()[:-1]});\n' for r in body.splitlines()) + '    v\n}\n'
