"""C28: every small derive definition, compiled by the real derive, against the documented acceptance rules.

The model is a small automaton: it reads the fields of a definition in order and remembers which
catch-alls were seen and whether the structure can still be a document or be flattened.  Every path
up to the depth is a definition; the real derive compiles each, alone in its own module."""
import concurrent.futures, glob, itertools, json, os, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get('MC_EVIDENCE', '/verif/evidence')
TARGET = os.environ.get('CARGO_TARGET_DIR', '/verif/target')

PRELUDE = '''#![allow(dead_code, non_camel_case_types, unused_imports, unreachable_patterns, unused_mut, unused_variables)]
pub mod pre {
    pub use knuffel::{Decode, DecodeScalar};
    pub use knuffel::traits::{DecodeChildren, DecodePartial};
    pub use knuffel::span::{Span, LineSpan, Spanned};
    pub use std::collections::BTreeMap;
    #[derive(Decode, Default)] pub struct X { #[knuffel(argument, default)] pub x: u8 }
    #[derive(Decode, Default)] pub struct PP { #[knuffel(property)] pub p1: Option<u8>, #[knuffel(property(name="second"))] pub p2: Option<String> }
    #[derive(Decode, Default)] pub struct PC { #[knuffel(child)] pub c1: bool, #[knuffel(child)] pub c2: Option<X>, #[knuffel(child, unwrap(argument))] pub c3: Option<u8> }
    #[derive(Decode, Default)] pub struct PB { #[knuffel(child)] pub c4: bool, #[knuffel(property)] pub p3: Option<u8> }
    pub struct Is<T>(core::marker::PhantomData<T>);
    pub trait Not { const DOC: bool = false; const PART: bool = false; const NODE: bool = false; }
    impl<T> Not for Is<T> {}
    impl<T: DecodeChildren<Span>> Is<T> { pub const DOC: bool = true; }
    pub struct Is2<T>(core::marker::PhantomData<T>);
    impl<T> Not for Is2<T> {}
    impl<T: DecodePartial<Span>> Is2<T> { pub const PART: bool = true; }
    pub struct Is3<T>(core::marker::PhantomData<T>);
    impl<T> Not for Is3<T> {}
    impl<T: Decode<Span>> Is3<T> { pub const NODE: bool = true; }
}
'''

# key: (attribute, type, tuple form allowed)
FIELDS = {
    'arg': ('argument', 'u8'), 'argO': ('argument', 'Option<String>'), 'args': ('arguments', 'Vec<u8>'),
    'prop': ('property{n}', 'u8'), 'propO': ('property{n}', 'Option<u8>'), 'propD': ('property{n}, default', 'u8'), 'props': ('properties', 'BTreeMap<String, u8>'),
    'child': ('child', 'X'), 'childO': ('child', 'Option<X>'), 'flag': ('child', 'bool'), 'unw': ('child, unwrap(argument)', 'u8'), 'unwO': ('child, unwrap(argument)', 'Option<u8>'),
    'many': ('children', 'Vec<X>'), 'named': ('children(name="{c}")', 'Vec<X>'), 'namedO': ('children(name="{c}")', 'Option<Vec<X>>'),
    'flatC': ('flatten(child)', 'PC'), 'flatP': ('flatten(property)', 'PP'), 'flatB': ('flatten(child, property)', 'PB'),
    'span': ('span', 'Span'), 'nname': ('node_name', 'String'), 'tname': ('type_name', 'Option<String>'), 'skip': (None, 'u8'),
}
REDUCED = ['arg', 'args', 'propO', 'props', 'childO', 'flag', 'many', 'namedO', 'flatC', 'flatP', 'flatB', 'tname', 'skip']

class St:
    """automaton state after reading some fields"""
    def __init__(self): self.varg = self.vprop = self.vchild = self.bad = False; self.doc = self.part = True; self.sp = False; self.once = frozenset()
    def key(self): return (self.varg, self.vprop, self.vchild, self.bad, self.doc, self.part, self.sp, self.once)
    def step(self, k, tuple_):
        s = St(); s.__dict__.update(self.__dict__)
        if k in ('span', 'nname', 'tname'):
            if k in s.once: return None  # twice the same: not specified
            s.once = s.once | {k}; s.doc = s.part = False; s.sp |= k == 'span'
        if k in ('arg', 'argO', 'args'):
            if s.varg: s.bad = True
            s.doc = s.part = False
            s.varg |= k == 'args'
        if k in ('prop', 'propO', 'propD', 'props', 'flatP', 'flatB'):
            if s.vprop: s.bad = True
            s.doc = False
            if k == 'propD': s.part = None if s.part else False  # a default of a flattened field: not specified
            elif k in ('prop', 'props'): s.part = False
            s.vprop |= k == 'props'
        if k in ('child', 'childO', 'flag', 'unw', 'unwO', 'many', 'named', 'namedO', 'flatC', 'flatB'):
            if s.vchild: s.bad = True
            if k in ('child', 'unw', 'many', 'named'): s.part = False
            s.vchild |= k == 'many'
            if tuple_ and k in ('child', 'childO', 'flag', 'unw', 'unwO'): s.bad = True
        return s

def render_field(k, i, tuple_):
    attr, ty = FIELDS[k]
    if attr: attr = attr.replace('{n}', '(name="p%d")' % i if tuple_ else '').replace('{c}', 'k%d' % i)
    a = '#[knuffel(%s)] ' % attr if attr else ''
    return a + (ty if tuple_ else 'f%d: %s' % (i, ty))

def asserts(name, doc, part):
    out = ['const _: () = assert!(Is3::<%s>::NODE);' % name]
    if doc is not None: out.append('const _: () = assert!(%sIs::<%s>::DOC);' % ('' if doc else '!', name))
    if part is not None: out.append('const _: () = assert!(%sIs2::<%s>::PART);' % ('' if part else '!', name))
    return '\n'.join(out)

def paths(alpha, depth, tuple_, seen):
    """every path of the automaton: (fields, state)"""
    def go(seq, st):
        yield seq, st
        if len(seq) == depth: return
        for k in alpha:
            n = st.step(k, tuple_)
            if n is None: continue
            seen['t'].add((st.key(), k)); seen['s'].add(n.key())
            yield from go(seq + (k,), n)
    seen['s'].add(St().key())
    yield from go((), St())

def grid(thorough, seen):
    good, bad, had = [], [], set()
    def add(shape, seq, st):
        if (shape, seq) in had: return
        had.add((shape, seq))
        tuple_ = shape != 'struct'
        body = ', '.join(render_field(k, i, tuple_) for i, k in enumerate(seq))
        attr = '#[knuffel(span_type=Span)] ' if st.sp else ''
        if shape == 'struct': code = '#[derive(Decode)] %spub struct D { %s }' % (attr, body)
        elif shape == 'tuple': code = '#[derive(Decode)] %spub struct D(%s);' % (attr, body)
        else: code = '#[derive(Decode)] %spub enum D { V(%s), Other }' % (attr, body)
        if shape != 'struct' and (seq == ('skip',) or seq == ()): return  # a newtype or nested variant: see the list below
        label = '%s %s' % (shape, ' '.join(seq))
        if st.bad: bad.append((label, code))
        else:
            doc, part = (st.doc, st.part) if shape != 'variant' else (False, False)
            if seq == (): part = None
            good.append((label, code + '\n' + asserts('D', doc, part)))
    full = list(FIELDS)
    for shape in ('struct', 'tuple', 'variant'):
        t = shape != 'struct'
        for seq, st in paths(full, 3 if thorough else 2, t, seen): add(shape, seq, st)
        if shape == 'struct' or thorough:
            for seq, st in paths(REDUCED, 4 if thorough and shape == 'struct' else 3, t, seen): add(shape, seq, st)
    return good, bad

# ------------------------------------------------------------------ attribute lists of one field

MODES = {'argument': 'u8', 'arguments': 'Vec<u8>', 'property': 'u8', 'property(name="q")': 'u8', 'properties': 'BTreeMap<String, u8>', 'child': 'X', 'children': 'Vec<X>',
         'children(name="q")': 'Vec<X>', 'flatten(child)': 'PC', 'flatten(property)': 'PP', 'flatten(child, property)': 'PB', 'span': 'Span', 'node_name': 'String', 'type_name': 'String'}
VALUE = ('argument', 'arguments', 'property', 'property(name="q")', 'properties')
OTHERS = ['str', 'bytes', 'default', 'default=Default::default()', 'unwrap(argument)', 'unwrap(property(name="r"))', 'skip', 'span_type=Span', 'nonsense', 'argument=1', 'flatten(arguments)', 'property(nome="x")',
          'children(name=5)', 'unwrap', 'unwrap(nonsense)', 'name="x"']
NEVER = set(OTHERS[6:])

def attr_verdict(attrs):
    """True: accepted, False: rejected, None: not specified"""
    modes = [a for a in attrs if a in MODES]
    dec = [a for a in attrs if a in ('str', 'bytes')]
    dfl = [a for a in attrs if a.startswith('default')]
    unw = [a for a in attrs if a.startswith('unwrap(') and a not in NEVER]
    if any(a in NEVER for a in attrs): return False
    if len(modes) > 1 or len(dec) > 1 or len(dfl) > 1 or len(unw) > 1: return False
    m = modes[0] if modes else None
    if m is None: return True if not attrs else None
    if dec and m not in VALUE: return False
    if unw: return True if m == 'child' and not dec else None
    if m in ('arguments', 'properties') and dfl: return None
    if m == 'children' and dfl: return None
    if m.startswith('flatten') and dfl: return None
    if m in ('span', 'node_name', 'type_name') and dfl: return None
    return True

def attr_type(attrs, m=None):
    ms = [a for a in attrs if a in MODES]
    if not ms: return 'u8'
    m = m or ms[0]
    t = MODES[m]
    if 'bytes' in attrs: t = {'u8': 'Vec<u8>', 'Vec<u8>': 'Vec<Vec<u8>>', 'BTreeMap<String, u8>': 'BTreeMap<String, Vec<u8>>'}.get(t, t)
    if any(a.startswith('unwrap(') for a in attrs): t = 'Vec<u8>' if m.startswith('children') else 'u8'
    return t

def attr_types(attrs):
    """with each of these types a wrong list has to be refused for what it is"""
    out = [attr_type(attrs, m) for m in attrs if m in MODES] + [MODES[m] for m in attrs if m in MODES]
    return list(dict.fromkeys(out or ['u8']))

def attr_lists(thorough):
    good, bad = [], []
    toks = list(MODES) + OTHERS
    lists = [()] + [(a,) for a in toks] + list(itertools.product(toks, repeat=2))
    three = [a for a in toks if a not in NEVER or thorough]
    lists += [l for l in itertools.product(three, repeat=3) if len([a for a in l if a in MODES]) <= (2 if thorough else 1) and (thorough or all(a not in MODES or a in ('argument', 'property', 'child', 'children', 'span', 'flatten(child)') for a in l))]
    n = 0
    for l in lists:
        v = attr_verdict(l)
        if v is None: continue
        st = '#[knuffel(span_type=Span)] ' if 'span' in l else ''
        # one list, or one attribute each: both ways of writing it
        for how in ('one', 'many'):
            if how == 'many' and len(l) < 2: continue
            if how == 'many' and not thorough and len(l) > 2: continue
            a = '#[knuffel(%s)]' % ', '.join(l) if how == 'one' else ' '.join('#[knuffel(%s)]' % x for x in l)
            if not l: a = ''
            for ty in attr_types(l) if not v else [attr_type(l)]:
                code = '#[derive(Decode)] %spub struct D { %s f: %s }' % (st, a, ty)
                (good if v else bad).append(('attributes [%s] %s, %s' % ('] ['.join(l), how, ty), code + ('\n' + asserts('D', None, None) if v else '')))
            if v or l == (): continue
            # the same list inside unwrap is as wrong
            if how == 'one' and l and not any(x in ('skip', 'span_type=Span') for x in l) or how == 'one':
                bad.append(('attributes inside unwrap [%s]' % '] ['.join(l), '#[derive(Decode)] pub struct D { #[knuffel(child, unwrap(%s))] f: u8 }' % ', '.join(l)))
    return good, bad

# ------------------------------------------------------------------ written-out definitions

OPT_SCALARS = ['u8', 'String', 'bool', 'f64', 'Option<u8>', 'Box<str>' if False else 'std::sync::Arc<str>', 'std::path::PathBuf', 'Box<u8>', 'Spanned<u8, Span>']

def listed():
    good, bad = [], []
    def g(label, code, name='D', doc=None, part=None): good.append((label, code + '\n' + asserts(name, doc, part)))
    def b(label, code): bad.append((label, code))
    # shapes
    g('unit struct', '#[derive(Decode)] pub struct D;')
    g('empty struct', '#[derive(Decode)] pub struct D {}')
    g('new type', '#[derive(Decode)] pub struct D(X);')
    g('optional new type', '#[derive(Decode)] pub struct D(Option<X>);')
    g('new type of an enum', '#[derive(Decode)] pub enum E { A, B(X) }\n#[derive(Decode)] pub struct D(E);')
    g('enum of units', '#[derive(Decode)] pub enum D { A, B, LongName }')
    g('enum of everything', '#[derive(Decode)] pub enum D { A, B(X), C(Option<X>), E(#[knuffel(argument)] u8), F(#[knuffel(arguments)] Vec<u8>), G(#[knuffel(property(name="x"))] u8, #[knuffel(properties)] BTreeMap<String, u8>), H(#[knuffel(children)] Vec<X>), #[knuffel(skip)] I { x: u8 }, #[knuffel(skip)] J(u8, u8) }')
    g('scalar enum', '#[derive(DecodeScalar)] pub enum C { A, BlueGreen }\n#[derive(Decode)] pub struct D { #[knuffel(argument)] a: C, #[knuffel(arguments)] b: Vec<C> }')
    g('scalar enum of one', '#[derive(DecodeScalar)] pub enum C { A }\n#[derive(Decode)] pub struct D { #[knuffel(property)] a: Option<C> }')
    g('scalar enum of many', '#[derive(DecodeScalar)] pub enum C { A, B, C, D, E, F }\n#[derive(Decode)] pub struct D { #[knuffel(property)] a: C }')
    g('raw identifiers', '#[derive(Decode)] pub struct D { #[knuffel(property)] r#type: u8, #[knuffel(child)] r#match: Option<X>, #[knuffel(argument)] r#fn: u8, #[knuffel(child, unwrap(argument))] r#use: u8 }')
    g('raw identifier variants', '#[derive(DecodeScalar)] #[allow(non_camel_case_types)] pub enum C { r#type, r#fn }\n#[derive(Decode)] pub enum D { r#match, r#loop(X) }')
    g('visibility', '#[derive(Decode)] pub(crate) struct D { #[knuffel(argument)] pub a: u8, #[knuffel(property)] pub(crate) b: u8, #[knuffel(child)] pub(super) c: bool }')
    g('doc comments', '/// doc\n#[derive(Decode)]\n/// more\npub struct D {\n/// about\n#[knuffel(argument)]\n/// it\n#[allow(unused)]\na: u8 }')
    g('trailing commas', '#[derive(Decode)] pub struct D { #[knuffel(child, unwrap(argument,),)] a: u8, #[knuffel(property(name="x"),)] b: u8, }')
    g('span type on a struct', '#[derive(Decode)] #[knuffel(span_type=knuffel::span::Span)] pub struct D { #[knuffel(span)] s: Span, #[knuffel(argument)] a: Spanned<u8, Span> }')
    g('span type on an enum', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct N { #[knuffel(span)] s: Span }\n#[derive(Decode)] #[knuffel(span_type=Span)] pub enum D { N(N), T(#[knuffel(argument)] u8), U }')
    g('generic over the field', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct G<T: DecodeScalar<Span>> { #[knuffel(argument)] a: T }\npub type D = G<u8>;')
    g('generic over the child', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct G<T> where T: Decode<Span> { #[knuffel(child)] a: T, #[knuffel(children)] r: Vec<T> }\npub type D = G<X>;', doc=True, part=False)
    g('generic enum', '#[derive(Decode)] #[knuffel(span_type=Span)] pub enum G<T: Decode<Span>> { A(T), B }\npub type D = G<X>;')
    # type parameters, in every shape, with the span fixed or not
    for st in ['', '#[knuffel(span_type=Span)] ']:
        sp = bool(st)
        params = [('<T: Default>', '', '<u8>', ''), ('<T>', ' where T: Default', '<u8>', ''), ('<T: Default = u8>', '', '', ''), ('<T: Default, S: Default>', '', '<u8, u16>', ', y: S'),
                  ("<'a, T: Default>", '', "<'static, u8>", ", y: core::marker::PhantomData<&'a ()>"), ('<T: Default, const N: usize>', '', '<u8, 3>', ', y: core::marker::PhantomData<[u8; N]>')]
        for ps, wh, inst, more in params:
            tm = more.replace(' y:', '')
            ty = '\npub type D = G%s;' % inst
            g('type parameters %s%s %s' % (ps, wh, st), '#[derive(Decode)] %spub struct G%s%s { #[knuffel(argument)] a: u8, #[knuffel(child, unwrap(argument))] b: Option<u8>, #[knuffel(properties)] c: BTreeMap<String, u8>, x: T%s }%s' % (st, ps, wh, more, ty))
            g('type parameters of a document %s%s %s' % (ps, wh, st), '#[derive(Decode)] %spub struct G%s%s { #[knuffel(child)] a: bool, #[knuffel(child, unwrap(argument))] b: Option<u8>, x: T%s }%s' % (st, ps, wh, more, ty), doc=True, part=True)
            g('type parameters of a tuple %s%s %s' % (ps, wh, st), '#[derive(Decode)] %spub struct G%s(#[knuffel(argument)] u8, T%s)%s;%s' % (st, ps, tm, wh, ty))
            g('type parameters of an enum %s%s %s' % (ps, wh, st), '#[derive(Decode)] %spub enum G%s%s { A, B(X), C(#[knuffel(argument)] u8, T%s) }%s' % (st, ps, wh, tm, ty))
        tx = '<T: core::str::FromStr>', " where T::Err: std::error::Error + Send + Sync + 'static"
        g('text of any type' + st, '#[derive(Decode)] %spub struct G%s%s { #[knuffel(argument, str)] a: T, #[knuffel(property, str)] b: Option<T>, #[knuffel(node_name)] c: T, #[knuffel(child, unwrap(argument, str))] d: T, #[knuffel(children, unwrap(arguments, str))] e: Vec<Vec<T>> }\npub type D = G<u8>;' % ((st,) + tx))
        g('text of any type in a tuple' + st, '#[derive(Decode)] %spub struct G%s(#[knuffel(argument, str)] T, #[knuffel(type_name)] Option<T>)%s;\npub type D = G<u8>;' % ((st, tx[0], tx[1])))
        g('text of any type in an enum' + st, '#[derive(Decode)] %spub enum G%s%s { A(#[knuffel(argument, str)] T), B, C(X) }\npub type D = G<u8>;' % ((st,) + tx))
        # names that are free for users to take
        for n in ['S', 'T', 'Node', 'Context', 'Value', 'Spanned', 'DecodeError', 'Kind', 'Wrap_a']:
            g('a struct named ' + n, 'mod z { use super::super::pre::{Decode, DecodeScalar, Span, X};\n#[derive(Decode)] %spub struct %s { #[knuffel(argument)] a: u8, #[knuffel(child, unwrap(argument))] b: u8 } }\npub type D = z::%s;' % (st, n, n))
            g('a tuple named ' + n, 'mod z { use super::super::pre::{Decode, DecodeScalar, Span, X};\n#[derive(Decode)] %spub struct %s(#[knuffel(argument)] u8, #[knuffel(arguments)] Vec<u8>); }\npub type D = z::%s;' % (st, n, n))
            g('a new type named ' + n, 'mod z { use super::super::pre::{Decode, DecodeScalar, Span, X};\n#[derive(Decode)] %spub struct %s(X); }\npub type D = z::%s;' % (st, n, n))
            g('an enum named ' + n, 'mod z { use super::super::pre::{Decode, DecodeScalar, Span, X};\n#[derive(Decode)] %spub enum %s { A, B(X), C(#[knuffel(argument)] u8) } }\npub type D = z::%s;' % (st, n, n))
            if not sp: g('a scalar enum named ' + n, 'mod z { use super::super::pre::{Decode, DecodeScalar, Span, X};\n#[derive(DecodeScalar)] pub enum %s { A, B }\n#[derive(Decode)] pub struct D { #[knuffel(argument)] a: %s } }\npub use z::D;' % (n, n))
        # names in scope
        g('another Result in scope' + st, 'type Result<T> = std::io::Result<T>;\n#[derive(DecodeScalar)] pub enum C { A }\n#[derive(Decode, Default)] %spub struct I { #[knuffel(property)] q: Option<u8>, #[knuffel(child)] r: bool }\n#[derive(Decode)] %spub enum E { A, B(X), C(#[knuffel(argument, str)] u8) }\n#[derive(Decode)] %spub struct N(X);\n'
          '#[derive(Decode)] %spub struct D { #[knuffel(argument, bytes)] a: Vec<u8>, #[knuffel(arguments)] b: Vec<C>, #[knuffel(property)] p: Option<u8>, #[knuffel(flatten(child, property))] f: I, #[knuffel(properties)] o: BTreeMap<String, u8>, #[knuffel(child)] n: N, #[knuffel(child, unwrap(arguments))] u: Vec<u8>, #[knuffel(children)] e: Vec<E> }' % (st, st, st, st))
        for n in ['node', 'ctx', 'name', 'val', 'value', 'child', 'children', 'iter_args', 'name_str', 'e', 's', 'v', 'typ', 'type_name', 'arg', 'tn', 'converted_name', 'seen_a', 'unwrap_a', 'err', 'key', 'self_', 'result', 'object']:
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(argument)] %s: u8, #[knuffel(property)] a: Option<u8>, #[knuffel(child, unwrap(argument))] b: u8, #[knuffel(properties)] p: BTreeMap<String, u8>, #[knuffel(children)] c: Vec<X> }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(arguments)] b: Vec<u8>, #[knuffel(property)] %s: Option<u8>, #[knuffel(child, unwrap(argument))] a: u8 }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(property)] a: Option<u8>, #[knuffel(child, unwrap(argument))] %s: u8, #[knuffel(child)] b: bool }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(child)] a: Option<X>, #[knuffel(child)] %s: Option<X>, #[knuffel(children)] b: Vec<X> }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(properties)] a: BTreeMap<String, u8>, #[knuffel(children)] %s: Vec<X> }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(node_name)] a: String, #[knuffel(type_name)] %s: Option<String>, #[knuffel(flatten(child, property))] b: PB }' % (st, n))
            g('fields named %s' % n, '#[derive(Decode)] %spub struct D { #[knuffel(type_name)] a: String, #[knuffel(node_name)] b: String, #[knuffel(flatten(child, property))] %s: PB }' % (st, n))
    g('new type with a span', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct I { #[knuffel(span)] s: Span }\n#[derive(Decode)] #[knuffel(span_type=Span)] pub struct D(I);')
    g('optional new type with a span', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct I { #[knuffel(span)] s: Span }\n#[derive(Decode)] #[knuffel(span_type=Span)] pub struct D(Option<I>);')
    g('generic new type', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct G<T: Decode<Span>>(T);\npub type D = G<X>;')
    g('generic optional new type', '#[derive(Decode)] #[knuffel(span_type=Span)] pub struct G<T>(Option<T>) where T: Decode<Span>;\npub type D = G<X>;')
    # field types
    for t in ['u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'u64', 'i64', 'usize', 'isize', 'f32', 'f64', 'String', 'bool', 'std::path::PathBuf', 'std::sync::Arc<str>', 'std::sync::Arc<std::path::Path>',
              'Box<u8>', 'std::rc::Rc<u8>', 'std::sync::Arc<u8>', 'Spanned<u8, Span>', 'knuffel::ast::Literal', 'knuffel::ast::Value<Span>', 'Box<Spanned<Option<u8>, Span>>']:
        st = '#[knuffel(span_type=Span)] ' if 'Span' in t or 'ast' in t else ''
        dflt = not ('Span' in t or 'ast' in t or 'Path>' in t)
        f = '#[knuffel(argument)] a: {t}, #[knuffel(argument)] b: Option<{t}>, #[knuffel(arguments)] c: Vec<{t}>, #[knuffel(property)] d: {t}, #[knuffel(property)] e: Option<{t}>, #[knuffel(properties)] g: BTreeMap<String, {t}>, ' \
            '#[knuffel(child, unwrap(argument))] h: {t}, #[knuffel(child, unwrap(argument))] i: Option<{t}>, #[knuffel(child, unwrap(arguments))] j: Vec<{t}>, #[knuffel(child, unwrap(property(name="x")))] k: {t}, ' \
            '#[knuffel(children(name="l"), unwrap(argument))] l: Vec<{t}>, #[knuffel(child, unwrap(child, unwrap(argument)))] m: {t}, #[knuffel(children, unwrap(argument))] n: Vec<{t}>'.replace('{t}', t)
        g('field type ' + t, '#[derive(Decode)] %spub struct D { %s }' % (st, f), doc=False, part=False)
        if dflt:
            f = '#[knuffel(argument, default)] a: {t}, #[knuffel(argument, default)] b: Option<{t}>, #[knuffel(property, default)] d: {t}, #[knuffel(property, default=Some(Default::default()))] e: Option<{t}>, ' \
                '#[knuffel(child, unwrap(argument), default)] h: {t}, #[knuffel(child, unwrap(argument), default)] i: Option<{t}>, #[knuffel(child, unwrap(argument, default))] j: {t}'.replace('{t}', t)
            g('defaults of ' + t, '#[derive(Decode)] pub struct D { %s }' % f, doc=False, part=False)
    for coll in ['Vec<{}>', 'std::collections::BTreeSet<{}>', 'std::collections::VecDeque<{}>', 'std::collections::HashSet<{}>', 'std::collections::LinkedList<{}>']:
        g('arguments into ' + coll, '#[derive(Decode)] pub struct D { #[knuffel(arguments)] a: %s }' % coll.format('u8'))
        g('unwrapped arguments into ' + coll, '#[derive(Decode)] pub struct D { #[knuffel(child, unwrap(arguments))] a: %s }' % coll.format('u8'))
        g('children into ' + coll, '#[derive(Decode, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct K { #[knuffel(argument)] a: u8 }\n#[derive(Decode)] pub struct D { #[knuffel(children)] a: %s }' % coll.format('K'), doc=True, part=False)
    for coll in ['BTreeMap<{}, {}>', 'std::collections::HashMap<{}, {}>', 'Vec<({}, {})>']:
        for k in ['String', 'Box<str>', 'u16', 'std::path::PathBuf']:
            if k == 'Box<str>': continue
            g('properties into %s by %s' % (coll, k), '#[derive(Decode)] pub struct D { #[knuffel(properties)] a: %s }' % coll.format(k, 'u8'))
            g('properties by %s from text' % k, '#[derive(Decode)] pub struct D { #[knuffel(properties, str)] a: %s }' % coll.format(k, 'std::net::IpAddr'))
    for w in ['Box', 'std::rc::Rc', 'std::sync::Arc']:
        g('wrapped by ' + w, '#[derive(Decode)] pub struct D { #[knuffel(child)] a: %s<X>, #[knuffel(child)] b: Option<%s<X>>, #[knuffel(children(name="c"))] c: Vec<%s<X>>, #[knuffel(flatten(child, property))] d: %s<PB>, #[knuffel(children)] e: Vec<%s<X>> }' % (w, w, w, w, w))
        g('new type wrapped by ' + w, '#[derive(Decode)] pub struct D(%s<X>);' % w)
        g('recursive by ' + w, '#[derive(Decode)] pub struct D { #[knuffel(child)] a: Option<%s<D>>, #[knuffel(children(name="b"))] b: Vec<D> }' % w, doc=True, part=False)
    g('text modes', '#[derive(Decode)] pub struct D { #[knuffel(argument, str)] a: std::net::IpAddr, #[knuffel(argument, str)] b: Option<u16>, #[knuffel(arguments, str)] c: Vec<u16>, #[knuffel(property, str)] d: u16, #[knuffel(property, str, default)] e: u16, #[knuffel(child, unwrap(argument, str))] f: u16, #[knuffel(child, unwrap(argument, str))] g: Option<u16>, #[knuffel(properties, str)] h: BTreeMap<u16, u16> }')
    g('bytes modes', '#[derive(Decode)] pub struct D { #[knuffel(argument, bytes)] a: Vec<u8>, #[knuffel(argument, bytes)] b: Option<Vec<u8>>, #[knuffel(arguments, bytes)] c: Vec<Vec<u8>>, #[knuffel(property, bytes)] d: Box<[u8]>, #[knuffel(property, bytes, default)] e: Vec<u8>, #[knuffel(child, unwrap(argument, bytes))] f: Vec<u8>, #[knuffel(child, unwrap(argument, bytes))] g: Option<Vec<u8>>, #[knuffel(properties, bytes)] h: BTreeMap<String, Vec<u8>> }')
    for perm in itertools.permutations(['child', 'unwrap(argument)', 'default=3']):
        g('order of attributes ' + ' '.join(perm), '#[derive(Decode)] pub struct D { #[knuffel(%s)] a: u8 }' % ', '.join(perm), doc=True)
    for perm in itertools.permutations(['property(name="x")', 'str', 'default="a".parse().unwrap_or(4)']):
        g('order of attributes ' + ' '.join(perm), '#[derive(Decode)] pub struct D { #[knuffel(%s)] a: u16 }' % ', '.join(perm), doc=False)
    for e in ['7', '3 + 4', '{ let x = 3; x }', '[1, 2, 3][1]', 'core::cmp::max(1, 2)', 'if true { 1 } else { 2 }', '(|| 5)()', 'match 3 { _ => 1 }', 'u8::MAX']:
        g('default ' + e, '#[derive(Decode)] pub struct D { #[knuffel(argument, default=%s)] a: u8, #[knuffel(property, default=%s)] b: u8, #[knuffel(child, unwrap(argument), default=%s)] c: u8 }' % (e, e, e))
    # unwraps of every kind
    for inner, ty in [('argument', 'u8'), ('arguments', 'Vec<u8>'), ('property', 'u8'), ('property(name="x")', 'u8'), ('properties', 'BTreeMap<String, u8>'), ('child', 'X'), ('child', 'bool'), ('children', 'Vec<X>'), ('children(name="x")', 'Vec<X>'),
                      ('child, unwrap(argument)', 'u8'), ('children, unwrap(argument)', 'Vec<u8>'), ('argument, str', 'u16'), ('argument, default', 'u8')]:
        if ty == 'bool' : continue
        g('unwrap(%s)' % inner, '#[derive(Decode)] pub struct D { #[knuffel(child, unwrap(%s))] a: %s, #[knuffel(child, unwrap(%s))] b: Option<%s>, #[knuffel(children(name="c"), unwrap(%s))] c: Vec<%s>, #[knuffel(children, unwrap(%s))] d: Vec<%s> }' % ((inner, ty) * 4), doc=True, part=False)
        g('unwrap(%s) partial' % inner, '#[derive(Decode, Default)] pub struct D { #[knuffel(child, unwrap(%s))] b: Option<%s> }\n#[derive(Decode)] pub struct O { #[knuffel(flatten(child))] f: D }' % (inner, ty), doc=True, part=True)
    # wrong definitions
    for a in ['argument', 'child', 'property', 'default', 'str', 'skip', 'unwrap(argument)', 'nonsense', 'span', 'flatten(child)']:
        b('container attribute ' + a, '#[derive(Decode)] #[knuffel(%s)] pub struct D { #[knuffel(argument)] a: u8 }' % a)
        b('container attribute of a tuple ' + a, '#[derive(Decode)] #[knuffel(%s)] pub struct D(#[knuffel(argument)] u8);' % a)
        b('container attribute of a unit ' + a, '#[derive(Decode)] #[knuffel(%s)] pub struct D;' % a)
        b('container attribute of an enum ' + a, '#[derive(Decode)] #[knuffel(%s)] pub enum D { A, B(X) }' % a)
        if a != 'skip':
            b('variant attribute ' + a, '#[derive(Decode)] pub enum D { #[knuffel(%s)] A, B(X) }' % a)
            b('variant attribute ' + a, '#[derive(Decode)] pub enum D { A, #[knuffel(%s)] B(X) }' % a)
    # two at a time: whatever is allowed does not excuse what is not
    for a in list(MODES) + ['str', 'bytes', 'default', 'default=Default::default()', 'unwrap(argument)', 'nonsense', 'span_type=Span', 'unwrap', 'name="x"']:
        for l in (['skip', a], [a, 'skip']):
            for at in ('#[knuffel(%s, %s)]' % tuple(l), '#[knuffel(%s)] #[knuffel(%s)]' % tuple(l)):
                for v in ('A', 'A(X)', 'A(u8, u8)'): b('attributes of a skipped variant %s %s' % (at, v), '#[derive(Decode)] pub enum D { Z, %s %s }' % (at, v))
        if a == 'span_type=Span': continue
        for l in (['span_type=Span', a], [a, 'span_type=Span']):
            for at in ('#[knuffel(%s, %s)]' % tuple(l), '#[knuffel(%s)] #[knuffel(%s)]' % tuple(l)):
                for v in ('struct D { #[knuffel(argument)] a: u8 }', 'struct D(X);', 'struct D;', 'enum D { A, B(X) }'): b('container attributes %s %s' % (at, v), '#[derive(Decode)] %s pub %s' % (at, v))
    b('variant attribute span_type', '#[derive(Decode)] pub enum D { A, #[knuffel(span_type=Span)] B(X) }')
    b('union', '#[derive(Decode)] pub union D { a: u8 }')
    b('scalar struct', '#[derive(DecodeScalar)] pub struct D { a: u8 }')
    b('scalar unit struct', '#[derive(DecodeScalar)] pub struct D;')
    for v in ['A(u8)', 'A { x: u8 }', 'A(), B', 'B, A(X)', 'B, A(#[knuffel(argument)] u8)']:
        b('scalar enum with ' + v, '#[derive(DecodeScalar)] pub enum D { %s }' % v)
    b('optional flatten', '#[derive(Decode)] pub struct D { #[knuffel(flatten(child))] a: Option<PC> }')
    b('optional flatten', '#[derive(Decode)] pub struct D { #[knuffel(flatten(property))] a: Option<PP> }')
    b('unnamed property', '#[derive(Decode)] pub struct D(#[knuffel(property)] u8);')
    b('unnamed property', '#[derive(Decode)] pub struct D(#[knuffel(argument)] u8, #[knuffel(property)] Option<u8>);')
    b('unnamed property', '#[derive(Decode)] pub enum D { A(#[knuffel(property)] u8) }')
    b('flatten of arguments', '#[derive(Decode)] pub struct D { #[knuffel(flatten(child))] a: X }')
    b('flatten of required fields', '#[derive(Decode, Default)] pub struct I { #[knuffel(property)] x: u8 }\n#[derive(Decode)] pub struct D { #[knuffel(flatten(property))] a: I }')
    b('flatten without Default', '#[derive(Decode)] pub struct I { #[knuffel(property)] x: Option<u8> }\n#[derive(Decode)] pub struct D { #[knuffel(flatten(property))] a: I }')
    b('a field without attributes and Default', '#[derive(Decode)] pub struct N;\n#[derive(Decode)] pub struct D { #[knuffel(argument)] a: u8, b: N }')
    b('not a scalar', '#[derive(Decode)] pub struct D { #[knuffel(argument)] a: X }')
    b('not a node', '#[derive(Decode)] pub struct D { #[knuffel(child)] a: u8 }')
    b('not a collection', '#[derive(Decode)] pub struct D { #[knuffel(arguments)] a: u8 }')
    b('not a map', '#[derive(Decode)] pub struct D { #[knuffel(properties)] a: Vec<u8> }')
    return good, bad

# ------------------------------------------------------------------ rustc

def flags():
    """how to link against knuffel as built from /repo"""
    r = subprocess.run(['cargo', 'build', '--offline', '--release', '--lib', '--message-format=json'], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr)
        sys.exit(2)
    for l in r.stdout.splitlines():
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact' and m['target']['name'] == 'knuffel':
            lib = [f for f in m['filenames'] if f.endswith('.rlib')][0]
    return ['--extern', 'knuffel=' + lib, '-L', 'dependency=' + os.path.dirname(lib)]

def rustc(items, fl):
    """items: [(label, code)] -> {index: [messages]} of the modules with errors; None: the compiler died"""
    lines, start = PRELUDE.splitlines(), []
    for i, (_, code) in enumerate(items):
        start.append(len(lines) + 1)
        lines += ('mod m%d { use super::pre::*;\n%s\n}' % (i, code)).splitlines()
    import bisect
    d = tempfile.mkdtemp(prefix='c28-')
    try:
        p = os.path.join(d, 't.rs')
        open(p, 'w').write('\n'.join(lines) + '\n')
        try:
            r = subprocess.run(['rustc', '--edition', '2021', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '--cap-lints=allow', '-o', os.path.join(d, 't.rmeta'), p] + fl,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=400)
        except subprocess.TimeoutExpired:
            return None, 'rustc did not finish'
        errs, other = {}, []
        for l in r.stderr.splitlines():
            if not l.startswith('{'): continue
            m = json.loads(l)
            if m.get('level') != 'error' or m['message'].startswith('aborting due'): continue
            sp = [s for s in m['spans'] if s['is_primary']] or m['spans']
            at = None
            for s in sp:
                while s and not s['file_name'].endswith('/t.rs'): s = (s.get('expansion') or {}).get('span')
                if s: at = s['line_start']; break
            if at is None or at < (start[0] if start else 0): other.append(m['message'])
            else: errs.setdefault(bisect.bisect_right(start, at) - 1, []).append(m['message'])
        if r.returncode not in (0, 1) or (r.returncode == 1 and not errs and other): return None, '\n'.join(other) + r.stderr[-2000:]
        return errs, r.returncode
    finally:
        subprocess.run(['rm', '-rf', d])

def chunks(xs, n): return [xs[i:i + n] for i in range(0, len(xs), n)]

def check_good(items, fl):
    """macro errors hide the errors of later phases: repeat without the failing ones, keep the first message"""
    errs, info = rustc(items, fl)
    if errs is None: return None, info
    return [(items[i], ms) for i, ms in sorted(errs.items())], None

def check_bad(items, fl):
    """the definitions no error is reported for"""
    left, odd = list(items), []
    while left:
        errs, info = rustc(left, fl)
        if errs is None: return None, info
        for i, ms in errs.items():
            if any('panicked' in m for m in ms): odd.append((left[i], 'the derive panicked: ' + ms[0]))
        if not errs: return [(x, 'accepted') for x in left] + odd, None
        left = [x for i, x in enumerate(left) if i not in errs]
    return odd, None

def evidence(thorough, cov, wall, n):
    os.makedirs(EVID, exist_ok=True)
    json.dump({'property': 'C28', 'tier': 'thorough' if thorough else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '0') or 0), 'level': 'model_checking',
               'coverage': cov, 'wall_s': round(wall, 2), 'violations': n}, open(EVID + '/C28.json', 'w'), indent=1)

def report(label, code, want, what, thorough, cov, t0):
    p = EVID + '/C28.replay.txt'
    os.makedirs(EVID, exist_ok=True)
    open(p, 'w').write('property: C28\ndefinition: %s\nexpected: %s\nproblem: %s\ncode (JSON string): %s\n\nreplay: /verif/run.sh C28 --replay %s\n' % (label, want, what, json.dumps(code), p))
    evidence(thorough, cov, time.time() - t0, 1)
    print('%s\n%s\nexpected: %s\nproblem: %s' % (label, code, want, what))
    print('VIOLATION property=C28 replay=%s' % p)
    return 1

def main(args):
    t0 = time.time()
    thorough = os.environ.get('VERIF_TIER') == 'thorough'
    if args[:1] == ['--replay']:
        text = open(args[1]).read()
        fl = flags()
        get = lambda k: [l[len(k):] for l in text.splitlines() if l.startswith(k)][0]
        code, want = json.loads(get('code (JSON string): ')), get('expected: ')
        errs, info = rustc([('replayed', code)], fl)
        ok = errs is not None and bool(errs) == (want == 'rejected')
        print('holds on this definition' if ok else 'violated: %s' % (errs or info or 'accepted',))
        return 0 if ok else 1
    fl = flags()
    seen = {'s': set(), 't': set()}
    good, bad = grid(thorough, seen)
    for f in (lambda: attr_lists(thorough), listed):
        a, b = f(); good += a; bad += b
    cov = {'states': len(seen['s']), 'transitions': len(seen['t']), 'traces_validated_against_impl': len(good) + len(bad), 'accepted_definitions': len(good), 'rejected_definitions': len(bad), 'exhaustive': True,
           'rule': 'every sequence of fields up to the depth as struct, tuple struct and enum variant, every attribute list up to three attributes, and the written-out forms; compiled by the derive: accepted or rejected as documented, document and flatten support present exactly where documented',
           'samples': [g[0] + ': ' + g[1] for g in good[5::max(1, len(good) // 4)][:4]] + [b[0] + ': ' + b[1] for b in bad[5::max(1, len(bad) // 4)][:4]]}
    jobs = [(check_good, c, 'accepted') for c in chunks(good, 250)] + [(check_bad, c, 'rejected') for c in chunks(bad, 400)]
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        results = list(ex.map(lambda j: j[0](j[1], fl), jobs))
    broken = []
    for (fn, c, want), (r, info) in zip(jobs, results):
        if r is None:
            # the compiler gave no usable answer for the chunk: look for the definition
            for x in c:
                rr, i2 = fn([x], fl)
                if rr is None: broken.append((x, 'no answer from the compiler: %s' % i2, want))
                else: broken += [(y, m, want) for y, m in rr]
        else: broken += [(x, m, want) for x, m in r]
    if broken:
        broken.sort(key=lambda b: len(b[0][1]))
        for x, m, w in broken[:10]: print('also: %s: %s' % (x[0], m if isinstance(m, str) else m[0]))
        x, m, w = broken[0]
        cov['exhaustive'] = False
        return report(x[0], x[1], w, m if isinstance(m, str) else '; '.join(m[:3]), thorough, cov, t0)
    print('C28: %d definitions accepted, %d rejected, as documented, wall=%.1fs' % (len(good), len(bad), time.time() - t0))
    evidence(thorough, cov, time.time() - t0, 0)
    return 0
