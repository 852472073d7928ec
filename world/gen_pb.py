#!/usr/bin/env python3
"""Generate prost-shaped Rust types from the repository's .proto files.

Stand-in for prost-build (not available offline): same type shapes and naming as
prost 0.13 (enum fields are i32 with accessor methods, proto3 optional -> Option,
message fields -> Option, repeated -> Vec, oneof -> module).  Wire encoding is a
bincode image of the struct instead of protobuf, so only in-process round trips
are faithful, not on-disk compatibility with real prost.
"""
import re, sys, pathlib
SCALAR = {'uint64':'u64','int64':'i64','uint32':'u32','int32':'i32','bool':'bool','string':'String',
          'bytes':'Vec<u8>','double':'f64','float':'f32','sint64':'i64','sint32':'i32','fixed64':'u64','fixed32':'u32','sfixed64':'i64'}
KW = {'type','match','ref','as','in','fn','use','mod','impl','where','loop','move'}

def camel(s):
    out = ''
    for part in re.split(r'[_]+', s):
        if not part: continue
        # split ALLCAPS / camel
        if part.isupper() or (part.upper() == part):
            out += part[0].upper() + part[1:].lower()
        else:
            out += part[0].upper() + part[1:]
    return out

def variant(enum, v):
    name = camel(v)
    if name.startswith(enum):
        rest = name[len(enum):]
        if rest and (rest[0].isupper()):
            return rest
    return name

def ident(s):
    return 'r#' + s if s in KW else s

def strip_comments(t):
    t = re.sub(r'//[^\n]*', '', t)
    return re.sub(r'/\*.*?\*/', '', t, flags=re.S)

def parse(text):
    text = strip_comments(text)
    pkg = re.search(r'package\s+([\w.]+)\s*;', text).group(1)
    toks = re.findall(r'"[^"]*"|[\w.]+|[{}=;<>,\[\]]', text)
    pos = 0
    msgs, enums = [], []
    def block_msg(name, p):
        fields, oneofs = [], []
        while toks[p] != '}':
            if toks[p] == 'oneof':
                oname = toks[p+1]; p += 3; of = []
                while toks[p] != '}':
                    of.append((toks[p], toks[p+1])); p += 5
                p += 1
                oneofs.append((oname, of)); fields.append(('oneof', None, oname, oname))
                continue
            if toks[p] in ('message',):
                p = block_msg(toks[p+1], p+3); continue
            if toks[p] == 'enum':
                p = block_enum(toks[p+1], p+3); continue
            label = ''
            if toks[p] in ('optional', 'repeated'):
                label = toks[p]; p += 1
            if toks[p] == 'map':
                kt, vt = toks[p+2], toks[p+4]; p += 6
                fname = toks[p]; fields.append(('map', (kt, vt), fname, None)); p += 4; continue
            ty, fname = toks[p], toks[p+1]
            p += 2
            while toks[p] != ';': p += 1
            p += 1
            fields.append((label, ty, fname, None))
        msgs.append((name, fields, oneofs))
        return p + 1
    def block_enum(name, p):
        vs = []
        while toks[p] != '}':
            vs.append((toks[p], int(toks[p+2]))); p += 4
        enums.append((name, vs))
        return p + 1
    p = 0
    while p < len(toks):
        if toks[p] == 'message': p = block_msg(toks[p+1], p+3)
        elif toks[p] == 'enum': p = block_enum(toks[p+1], p+3)
        else: p += 1
    return pkg, msgs, enums

def gen(text):
    pkg, msgs, enums = parse(text)
    en = {e for e, _ in enums}
    out = []
    def ty_of(t):
        if t in SCALAR: return SCALAR[t]
        if t in en: return 'i32'
        return camel(t) if t.islower() else t
    by = {(camel(n) if n.islower() else n): (f, o) for n, f, o in msgs}
    def copyable(name, seen=()):
        if name in seen or name not in by: return False
        f, o = by[name]
        if o: return False
        for label, ty, fname, _ in f:
            if label in ('repeated', 'map', 'oneof'): return False
            if ty in ('string', 'bytes'): return False
            if ty in SCALAR or ty in en: continue
            if not copyable(ty_of(ty), seen + (name,)): return False
        return True
    for name, fields, oneofs in msgs:
        mod = re.sub(r'(?<!^)(?=[A-Z])', '_', name).lower()
        out.append('#[derive(Clone, %sPartialEq, Debug, Default, ::prost::serde::Serialize, ::prost::serde::Deserialize)]\n#[serde(crate = "::prost::serde")]\npub struct %s {' % ('Copy, ' if copyable(name) else '', name))
        acc = []
        for label, ty, fname, o in fields:
            if label == 'oneof':
                rt = 'Option<%s::%s>' % (mod, camel(fname))
            elif label == 'map':
                rt = '::std::collections::HashMap<%s, %s>' % (ty_of(ty[0]), ty_of(ty[1]))
            elif label == 'repeated':
                rt = 'Vec<%s>' % ty_of(ty)
            elif label == 'optional':
                rt = 'Option<%s>' % ty_of(ty)
            elif ty in SCALAR or ty in en:
                rt = ty_of(ty)
            else:
                rt = 'Option<%s>' % ty_of(ty)
            out.append('    pub %s: %s,' % (ident(fname), rt))
            if ty in en and label in ('', 'optional'):
                if label == '':
                    acc.append('    pub fn %s(&self) -> %s { %s::try_from(self.%s).unwrap_or_default() }\n    pub fn set_%s(&mut self, v: %s) { self.%s = v as i32; }' % (ident(fname), ty, ty, ident(fname), fname, ty, ident(fname)))
                else:
                    acc.append('    pub fn %s(&self) -> %s { self.%s.and_then(|x| %s::try_from(x).ok()).unwrap_or_default() }\n    pub fn set_%s(&mut self, v: %s) { self.%s = Some(v as i32); }' % (ident(fname), ty, ident(fname), ty, fname, ty, ident(fname)))
            if label == 'repeated' and ty in en:
                acc.append('    pub fn %s(&self) -> impl Iterator<Item = %s> + \'_ { self.%s.iter().filter_map(|x| %s::try_from(*x).ok()) }' % (ident(fname), ty, ident(fname), ty))
        out.append('}')
        if acc:
            out.append('impl %s {\n%s\n}' % (name, '\n'.join(acc)))
        out.append('impl ::prost::Message for %s {}' % name)
        if oneofs:
            out.append('pub mod %s {' % mod)
            for oname, of in oneofs:
                out.append('    #[derive(Clone, PartialEq, Debug, ::prost::serde::Serialize, ::prost::serde::Deserialize)]\n    #[serde(crate = "::prost::serde")]\n    pub enum %s {' % camel(oname))
                for t, f in of:
                    rt = ty_of(t)
                    if rt not in SCALAR.values() and t not in en: rt = 'super::' + rt
                    out.append('        %s(%s),' % (camel(f), rt))
                out.append('    }')
            out.append('}')
    for name, vs in enums:
        out.append('#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]\n#[repr(i32)]\npub enum %s {' % name)
        for v, n in vs: out.append('    %s = %d,' % (variant(name, v), n))
        out.append('}\nimpl Default for %s { fn default() -> Self { %s::%s } }' % (name, name, variant(name, vs[0][0])))
        arms = ' '.join('%d => Ok(%s::%s),' % (n, name, variant(name, v)) for v, n in vs)
        out.append('impl ::core::convert::TryFrom<i32> for %s { type Error = ::prost::UnknownEnumValue; fn try_from(v: i32) -> ::core::result::Result<Self, ::prost::UnknownEnumValue> { match v { %s _ => Err(::prost::UnknownEnumValue(v)) } } }' % (name, arms))
        out.append('impl ::core::convert::From<%s> for i32 { fn from(v: %s) -> i32 { v as i32 } }' % (name, name))
        arms = ' '.join('%s::%s => "%s",' % (name, variant(name, v), v) for v, n in vs)
        out.append('impl %s { pub fn as_str_name(&self) -> &\'static str { match self { %s } } pub fn is_valid(v: i32) -> bool { Self::try_from(v).is_ok() } }' % (name, arms))
    return pkg, '\n'.join(out) + '\n'

if __name__ == '__main__':
    src, dst = sys.argv[1], pathlib.Path(sys.argv[2])
    dst.mkdir(parents=True, exist_ok=True)
    for f in sorted(pathlib.Path(src).glob('*.proto')):
        pkg, code = gen(f.read_text())
        p = dst / (pkg + '.rs')
        if not p.exists() or p.read_text() != code: p.write_text(code)
