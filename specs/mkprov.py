#!/usr/bin/env python3
"""Writes the contract units of the metadata providers (specs/M_*.rs): they share one shape, so it is kept in one place.
The units are committed; nothing in them is code of the repository, only contracts, invariants and proof steps."""
import pathlib
HERE = pathlib.Path(__file__).parent
HEAD = '''//@rule unreachable ! ( ) =>> corrupt(data)
//@rule panic ! ( $$x ) =>> corrupt(data)
//@include base.rs
use vstd::prelude::*;
use std::fmt::Debug;
verus! {
global size_of usize == 8;
//@include metaerr.rs
//@include store.rs
//@include keys.rs
//@include stdspec.rs
//@include index.rs
//@include keylemmas.rs
//@include provider.rs
//@include uniq.rs
//@rule where T : Debug =>>
pub open spec fn set<T>(o: OptionalProperty<T>, was: T, is: T) -> bool { match o { OptionalProperty::Some(v) => is == v, OptionalProperty::None => is == was } }
//@item src/common/src/types.rs OptionalProperty | vis=keep
//@item src/metadata/src/metadata.rs ListResponse | vis=keep
//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep
'''
TAIL = '''}
//@helpers
fn main() {}
'''
def loopmap(recv, pat, item, elem_view, view, n=0, tail='. collect :: < Vec < _ > > ( )', head='. iter ( )', k='k_', out='out_'):
    """`recv.iter().map(|pat| e).collect()` as the loop it stands for; closures are outside the verifier's subset"""
    r = recv.replace(' ', '')
    return (f"//@rule {recv} {head} . map ( | {pat} | $$e ) {tail} =>> {{ let mut {out} = Vec::new(); let mut {k}: usize = 0; "
            f"while {k} < {r}.len() invariant {k} <= {r}@.len(), {out}@.len() == {k}, forall|i: int| 0 <= i < {k} ==> #[trigger] {out}@[i] == {elem_view}({r}@[i]) decreases {r}@.len() - {k} "
            f"{{ let {item} = &{r}[{k}]; let e_ = $e; {out}.push(e_); {k} += 1; }} proof {{ assert({out}@ =~= {view}({r}@)); }} {out} }}\n")

MODS = {}
def provider(name, file, ent, prov, create_req, update_req, pbfile, pb, scope, items='', pbitems='', idx=(), statics=(), specs='', to_pb='', back='', made='', changed='',
             ser='serialize', de='deserialize', ser_extra='', de_extra='', de_rules='', ser_rules='', fns=('get_by_id_', 'get_by_id', 'create', 'update', 'delete', 'list'), idname='id', upid=None,
             extra='', rules='', update_hint='', update_requires='', list_start='', entpost='', has_update=True, var=None, list_prefix='prefix', copy='', create_hook='', upvar=None, derive_ent='', list_cond='if ! from_utf8', nolist=False, needs=(), unit=True, head=None):
    F = f'src/metadata/src/{file}'; o = []
    w = o.append
    arg = {'project': 'project_id', 'org': 'organization_id', 'global': ''}[scope]
    A = f'{arg}' ; c = ', ' if arg else ''
    base = {'project': 'k_project(p, NS())', 'org': 'k_org(p, NS())', 'global': 'NS()'}[scope]
    pdecl = 'p: u64' if arg else ''
    B = f'base({A})'
    M = pathlib.Path(pbfile).stem
    w(f'//@rule {M} :: {pb} :: decode =>> decode::<{M}::{pb}>\n')
    w(rules)
    w(f'pub mod {M} {{ use super::*;\n' + ''.join(f'//@item pb:{pbfile} {x} | ' + (f'consts={x[1:]}' if x[0] == '#' else 'vis=keep') + '\n' for x in (pb,) + tuple(pbitems)).replace(f'{pbfile} #', f'{pbfile} ') + '}\n' + items)
    w(f'//@item {F} {ent} | vis=keep std="clone"\n')
    if create_req: w(f'//@item {F} {create_req} | vis=keep\n')
    if update_req: w(f'//@item {F} {update_req} | vis=keep\n')
    w(f'//@item {F} {prov} | vis=keep\n')
    for s in ('NAMESPACE',) + tuple(statics):
        pass
    w(f'//@static {F} NAMESPACE | block\n//@contract\n    ensures r@ == NS(),\n//@end\n')
    w(f'pub open spec fn NS() -> Seq<u8> {{ asc("{name}"@) }}\n')
    for st, lit in statics:
        w(f'//@rule {st} =>> {st}()\n')
        w(f'//@static {F} {st} | block\n//@contract\n    ensures r@ == asc("{lit}"@),\n//@end\n')
    w(f'pub open spec fn base({pdecl}) -> Seq<u8> {{ {base} }}\n')
    w(specs)
    w(f'pub open spec fn to_pb(r: {ent}) -> {M}::{pb} {{ {to_pb} }}\n')
    # ---- the record as stored
    ek = ', '.join(f'Some(k_index(ns, asc("{lit}"@), utf8(self.{f}@)))' for f, lit in idx)
    w(f'impl Ent for {ent} {{\n    open spec fn enc(self) -> Seq<u8> {{ pb(to_pb(self)) }}\n    open spec fn eid(self) -> u64 {{ self.id }}\n    open spec fn ekeys(self, ns: Seq<u8>) -> Seq<Option<Seq<u8>>> {{ seq![{ek}] }}\n')
    w(f'    open spec fn back(self) -> {ent} {{ let r = self; {back} }}\n')
    w(f'    proof fn back_ok(a: {ent}) {{ {entpost} }}\n    proof fn enc_ok(a: {ent}, b: {ent}, ns: Seq<u8>) {{ assert(unpb::<{M}::{pb}>(a.enc()) == Some(to_pb(a))); assert(to_pb(a) == to_pb(b)); }}\n')
    ko = ' '.join(f'assert(k_index(ns, asc("{lit}"@), utf8(a.{f}@)).take((ns + asc("/idx/"@)).len() as int) =~= ns + asc("/idx/"@));' for f, lit in idx)
    w(f'    proof fn keys_ok(a: {ent}, ns: Seq<u8>) {{ {ko} }}\n}}\n')
    w('// reaching this panics: shown unreachable for every value the provider wrote\n')
    w(f'#[verifier::external_body] fn corrupt<T>(data: &[u8]) -> (r: T) requires forall|x: {ent}| data@ != #[trigger] x.enc() ensures false {{ unimplemented!() }}\n')
    for f, lit in idx:
        pass
    w(extra)
    w(f'//@fn {F} {ser} | ret=r2 block\n//@contract\n    ensures r2 is Ok ==> r2->Ok_0@ == (*r_).enc(), r2 is Err ==> r2->Err_0 is Bincode,\n'.replace('*r_', '*' + (var or 'r')) + ser_rules + ser_extra + '//@end\n')
    w(f'//@fn {F} {de} | ret=r2 block\n//@contract\n    ensures r2 is Ok ==> unpb::<{M}::{pb}>(data@) is Some, r2 is Ok ==> is_read(data@, r2->Ok_0), (exists|x: {ent}| data@ == #[trigger] x.enc()) ==> r2 is Err ==> r2->Err_0 is Bincode, r2 is Err ==> !(r2->Err_0 is NotFound),\n' + de_rules + de_extra + '//@end\n')
    w(f'pub open spec fn made(r: {ent}, {pdecl}{c}q: {create_req}) -> bool {{ {made} }}\n') if create_req else None
    if update_req: w(f'pub open spec fn changed(w: {ent}, r: {ent}, q: {update_req}) -> bool {{ {changed} }}\n')
    w(f'impl {prov} {{\n')
    I = idname
    OLD, FIN = 'old(self).db@', 'final(self).db@'
    iv = f'inv::<{ent}>'
    get_post = lambda m, i: f'r is Ok ==> holds({m}, {B}, {i}, r->Ok_0), r is Err && r->Err_0 is NotFound ==> !{m}.dom().contains(k_data({B}, {i})), {iv}({m}, {B}) && r is Err && !(r->Err_0 is NotFound) ==> infra(r->Err_0),'
    for fn in fns:
        if fn == 'get_by_id_':
            i = idname
            w(f'//@fn {F} {prov}::get_by_id_ | ret=r block\n//@contract\n    ensures final(tx)@ == old(tx)@, {get_post("old(tx)@", i)}\n//@end\n')
        elif fn == 'get_by_id':
            w(f'//@fn {F} {prov}::get_by_id | ret=r block\n//@contract\n    ensures {get_post("self.db@", idname)}\n//@end\n')
        elif fn == 'create':
            v = upvar or ent.lower()
            w(f'//@fn {F} {prov}::create | ret=r mut_self block\n//@contract\n    requires {iv}({OLD}, {B}), seq_ok({OLD}, k_seq({B})),\n')
            w(f'    ensures r is Ok ==> made(r->Ok_0, {A}{c}req) && r->Ok_0.id == counter({OLD}, k_seq({B}), 1) && step({OLD}, {FIN}, {B}, r->Ok_0.id, None, Some(r->Ok_0)) && may({OLD}, {B}, r->Ok_0.id, None, Some(r->Ok_0)) && {iv}({FIN}, {B}),\n')
            taken = '' if not idx else ' && (' + ' || '.join(f'{OLD}.dom().contains(k_index({B}, asc("{lit}"@), utf8(req.{f}@)))' for f, lit in idx) + ')'
            w(f'        r is Err ==> {FIN} == {OLD}, r is Err ==> infra(r->Err_0)' + (f' || r->Err_0 is AlreadyExists{taken}' if idx else '') + ',\n')
            w(create_hook)
            if idx: w('//@before check_insert_constraints\n    proof { lemma_some_at(ks(idx_keys@)); }\n')
            w(f'//@before tx . commit\n    proof {{ lemma_keyseq({v}, {B}, ' + ('ks(idx_keys@)' if idx else 'seq![]') + f'); lemma_created({OLD}, {B}, {v}.id, {v}); assert(tx@ == created({OLD}, {B}, {v}.id, {v})); }}\n//@end\n')
        elif fn in ('update', 'update_'):
            o_, w = o, (lambda x: o2.append(x)); o2 = []
            i = upid or idname; v = upvar or ent.lower()
            w(f'//@fn {F} {prov}::update | ret=r mut_self block\n//@contract\n    requires {iv}({OLD}, {B}), ' + update_requires + (',' if update_requires else '') + '\n')
            taken = ' || '.join(f'req.{f} is Some && {OLD}.dom().contains(k_index({B}, asc("{lit}"@), utf8(req.{f}->Some_0@)))' for f, lit in idx)
            w(f'    ensures r is Ok ==> exists|w: {ent}| #[trigger] rec({OLD}, {B}, {i}, w) && changed(w.back(), r->Ok_0, req) && step({OLD}, {FIN}, {B}, {i}, Some(w), Some(r->Ok_0)) && may({OLD}, {B}, {i}, Some(w), Some(r->Ok_0)), r is Ok ==> {iv}({FIN}, {B}),\n')
            w(f'        r is Err ==> {FIN} == {OLD}, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !{OLD}.dom().contains(k_data({B}, {i}))' + (f' || r->Err_0 is AlreadyExists && ({taken})' if idx else '') + ',\n')
            w(f'//@before tx . commit\n    proof {{ let w = choose|w: {ent}| #[trigger] rec({OLD}, {B}, {i}, w); assert(rec({OLD}, {B}, {i}, w));\n')
            if idx:
                w(f'        let a = ks(idx_keys@); let p = ks(idx_prev_keys@); let ns = {B}; {ent}::keys_ok(w, ns); {ent}::keys_ok({v}, ns);\n')
                import itertools
                for combo in itertools.product([True, False], repeat=len(idx)):
                    cond = ' && '.join(('' if b else '!') + f'(req.{f} is Some)' for b, (f, l) in zip(combo, idx))
                    ka = ', '.join(f'{v}.ekeys(ns)[{n}]' for n, b in enumerate(combo) if b); kp = ', '.join(f'w.ekeys(ns)[{n}]' for n, b in enumerate(combo) if b)
                    t = ', '.join(f'{n}int' for n, b in enumerate(combo) if b)
                    w(f'        if {cond} {{ assert(a =~= seq![{ka}]); assert(p =~= seq![{kp}]); let t: Seq<int> = seq![{t}]; ' + ''.join(f'assert(t[{m}] == {n});' for m, n in enumerate(n for n, b in enumerate(combo) if b)) + f' {update_hint} lemma_among(w, {v}, ns, a, p, t); }}\n')
                w(f'        lemma_updated({OLD}, ns, {i}, w, {v}, a, p); assert(tx@ == updated({OLD}, ns, {i}, {v}, a, p)); }}\n//@end\n')
            else:
                w(f'        lemma_updated({OLD}, {B}, {i}, w, {v}, seq![], seq![]); assert(tx@ == updated({OLD}, {B}, {i}, {v}, seq![], seq![])); }}\n//@end\n')
            w = o.append; t = ''.join(o2)
            if fn == 'update_': t = t.replace('::update |', '::update_ |').replace(' mut_self', '').replace('old(self).db@', 'old(tx)@').replace('final(self).db@', 'final(tx)@').replace('        r is Err ==> final(tx)@ == old(tx)@, r is Err', '        r is Err').replace('//@before tx . commit', '//@before Ok ( org )')
            w(t)
        elif fn == 'delete':
            i = idname; v = upvar or ent.lower()
            w(f'//@fn {F} {prov}::delete | ret=r mut_self block\n//@contract\n    requires {iv}({OLD}, {B}),\n')
            w(f'    ensures r is Ok ==> holds({OLD}, {B}, {i}, r->Ok_0), r is Ok ==> exists|w: {ent}| #[trigger] rec({OLD}, {B}, {i}, w) && step({OLD}, {FIN}, {B}, {i}, Some(w), None), r is Ok ==> {iv}({FIN}, {B}),\n')
            w(f'        r is Err ==> {FIN} == {OLD}, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !{OLD}.dom().contains(k_data({B}, {i})),\n')
            w(f'//@before tx . commit\n    proof {{ let w = choose|w: {ent}| #[trigger] rec({OLD}, {B}, {i}, w); assert(rec({OLD}, {B}, {i}, w)); lemma_deleted({OLD}, {B}, {i}, w);\n        assert({v} == w.back()); assert({v}.ekeys({B}) =~= w.ekeys({B})); lemma_somes(w.ekeys({B})); ' + f'assert(tx@ == deleted({OLD}, {B}, {i}, w)); }}\n//@end\n')
        elif fn == 'list':
            P = 'prefix'
            w(f'//@fn {F} {prov}::list | ret=r block\n//@contract\n    requires {iv}(self.db@, {B}),\n    ensures r is Ok ==> listed(self.db@, {B}, r->Ok_0.data@), r is Err ==> infra(r->Err_0),\n' + list_start)
            w(f'''//@loop 0 iter=it
    invariant scanned(it.seq(), tx@, k_all({B})), tx@ == self.db@, prefix@ == k_all({B}), it.index@ <= it.seq().len(),
        forall|i: int| 0 <= i < list@.len() ==> is_read(scan(tx@, prefix@)[i].1, #[trigger] list@[i]),
        !brk_0 ==> list@.len() == it.index@,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]) is Ok,
        !brk_0 ==> forall|i: int| 0 <= i < it.index@ ==> starts(#[trigger] scan(tx@, prefix@)[i].0, prefix@),
        brk_0 ==> list@.len() == hits(tx@, prefix@),
//@loopstart 0
    proof {{ axiom_scan(tx@, prefix@); assert(kv == it.seq()[it.index@ as int]); }}
//@before {list_cond}
    proof {{ let i = it.index@ as int; assert(it.seq()[i] is Ok); assert(it.seq()[i]->Ok_0 == (key, value)); assert(key@ == scan(tx@, prefix@)[i].0); assert(i > 0 ==> starts(scan(tx@, prefix@)[i - 1].0, prefix@));
        if starts(key@, prefix@) {{ assert(self.db@.dom().contains(key@)); let id = choose|id: u64| key@ == #[trigger] k_data({B}, id); let e = choose|e: {ent}| #[trigger] rec(self.db@, {B}, id, e); assert(rec(self.db@, {B}, id, e)); assert(value@ == e.enc()); }} }}
//@before ListResponse
    proof {{ axiom_scan(tx@, prefix@); let n = scan(tx@, prefix@).len() as int; assert(!brk_0 && n > 0 ==> starts(scan(tx@, prefix@)[n - 1].0, prefix@)); lemma_listed(self.db@, {B}, list@); }}
//@end
''')
        else: w(fn)
    w('}\n')
    m = pathlib.Path(file).stem
    body = f'pub mod {m} {{ use super::*; broadcast use crate::all;\n' + ''.join(o) + '}\n'
    MODS[m] = body
    if unit: (HERE / f'M_{m}.rs').write_text((head or HEAD) + ''.join(MODS[x] for x in needs) + body + TAIL)

S = lambda *fs: ' && '.join(fs)
def eqs(q, *fs): return ' && '.join(f'r.{f} == {q}.{f}' for f in fs)
def sets(*fs): return ' && '.join(f'set(q.{f}, w.{f}, r.{f})' for f in fs)
TIMES = 'created_at: Instant { t: r.created_at.t, n: 0 }, updated_at: s_at(s_secs(r.updated_at))'
TAGS = 'tags: if r.tags is Some && r.tags->0@.len() == 0 { None } else { r.tags }'
META = 'id: r.id, created_at: r.created_at.t, created_by: r.created_by, updated_at: s_secs(r.updated_at), updated_by: r.updated_by'
STAMP = 'r.updated_at is Some && r.updated_by == Some(q.updated_by) && r.id == w.id && r.created_at == w.created_at && r.created_by == w.created_by'
TOVEC = '//@rule tags . to_vec ( ) =>> same_as(tags)\n'
def index_fns(F, pairs, scope):
    """pairs: (function, parameter, literal) in index order"""
    a = {'project': 'project_id', 'org': 'organization_id', 'global': ''}[scope]
    s = ''
    for fn, prm, lit in pairs:
        s += f'//@fn {F} {fn} | ret=r block\n//@contract\n    ensures key_of(r) == Some(k_index(base({a}), asc("{lit}"@), utf8({prm}@))), r is Some,\n//@end\n'
    full = ', '.join(f'Some(k_index(base({a}), asc("{lit}"@), utf8({prm}@)))' for fn, prm, lit in pairs)
    s += f'//@fn {F} index_keys | ret=r block\n//@contract\n    ensures ks(r@) =~= seq![{full}],\n//@end\n'
    return s

provider('reports', 'reports.rs', 'Report', 'Reports', 'CreateReportRequest', 'UpdateReportRequest', 'report.rs', 'Report', 'project', upid='report_id',
    pbitems=['#Type'],
    items='#[derive(Debug)] pub struct Query { pub x: u8 }\n//@item src/metadata/src/reports.rs Type | vis=keep\n',
    ser='serialize_report', de='deserialize_report', var='r',
    to_pb=f'report::Report {{ {META}, project_id: r.project_id, tags: s_or_empty(r.tags), name: r.name, description: r.description, r#type: match r.typ {{ Type::EventSegmentation => 1i32, Type::Funnel => 2i32 }}, query: s_bin(r.query) }}',
    back=f'Report {{ {TIMES}, {TAGS}, ..r }}',
    ser_extra='//@before Ok ( v . encode_to_vec ( ) )\n    proof { assert(v == to_pb(*r)); }\n',
    made='r.project_id == p && r.updated_at is None && r.updated_by is None && ' + eqs('q', 'created_by', 'tags', 'name', 'description', 'typ', 'query'),
    changed=STAMP + ' && r.project_id == w.project_id && r.typ == w.typ && ' + sets('name', 'description', 'tags', 'query'))

provider('dashboards', 'dashboards.rs', 'Dashboard', 'Dashboards', 'CreateDashboardRequest', 'UpdateDashboardRequest', 'dashboard.rs', 'Dashboard', 'project', upid='dashboard_id', var='v',
    pbitems=['Panel'], items='//@item src/metadata/src/dashboards.rs Type | vis=keep\n//@item src/metadata/src/dashboards.rs Panel | vis=keep\n',
    specs='''pub open spec fn el(p: Panel) -> dashboard::Panel { dashboard::Panel { r#type: 1i32, report_id: p.report_id, x: p.x as u32, y: p.y as u32, w: p.w as u32, h: p.h as u32 } }
pub open spec fn els(s: Seq<Panel>) -> Seq<dashboard::Panel> { Seq::new(s.len(), |i: int| el(s[i])) }
pub open spec fn le_(p: dashboard::Panel) -> Panel { Panel { typ: Type::Report, report_id: p.report_id, x: p.x as usize, y: p.y as usize, w: p.w as usize, h: p.h as usize } }
pub open spec fn les(s: Seq<dashboard::Panel>) -> Seq<Panel> { Seq::new(s.len(), |i: int| le_(s[i])) }
''',
    to_pb=f'dashboard::Dashboard {{ {META}, project_id: r.project_id, tags: s_or_empty(r.tags), name: r.name, description: r.description, panels: vec_of(els(r.panels@)) }}',
    back=f'Dashboard {{ {TIMES}, {TAGS}, panels: vec_of(les(els(r.panels@))), ..r }}', entpost='assert(a.back().panels@ == les(els(a.panels@))); assert(els(les(els(a.panels@))) =~= els(a.panels@));',
    ser_rules=TOVEC + loopmap('v . panels', 'p', 'p', 'el', 'els'), de_rules=loopmap('from . panels', 'p', 'p', 'le_', 'les'),
    ser_extra='//@before Ok ( d . encode_to_vec ( ) )\n    proof { assert(d == to_pb(*v)); }\n',
    made='r.project_id == p && r.updated_at is None && r.updated_by is None && ' + eqs('q', 'created_by', 'tags', 'name', 'description', 'panels'),
    changed=STAMP + ' && r.project_id == w.project_id && ' + sets('name', 'description', 'tags', 'panels'))

provider('teams', 'teams.rs', 'Team', 'Teams', 'CreateTeamRequest', 'UpdateTeamRequest', 'team.rs', 'Team', 'org', idname='team_id', var='team', idx=[('name', 'name')], statics=[('IDX_NAME', 'name')],
    extra=index_fns('src/metadata/src/teams.rs', [('index_name_key', 'name', 'name')], 'org'),
    to_pb=f'team::Team {{ {META}, organization_id: r.organization_id, name: r.name }}', back=f'Team {{ {TIMES}, ..r }}',
    ser_extra='//@before Ok ( v . encode_to_vec ( ) )\n    proof { assert(v == to_pb(*team)); }\n', list_cond='if key . len',
    made='r.organization_id == p && r.updated_at is None && r.updated_by is None && ' + eqs('q', 'created_by', 'name'),
    changed=STAMP + ' && r.organization_id == w.organization_id && ' + sets('name'))

ACC = 'src/metadata/src/accounts.rs'
def roles(name, view, pbmod, pbty, ty, table):
    """pairs (id, role) <-> the message with the same id and the role's number"""
    t = ', '.join(f'{ty}::{v} => {n}i32' for v, n in table); u = ' else '.join(f'if c == {n} {{ {ty}::{v} }}' for v, n in table[:-1]); u = (u + ' else ' if u else '') + f'{{ {ty}::{table[-1][0]} }}'
    return f'''pub open spec fn {name}_code(r: {ty}) -> i32 {{ match r {{ {t} }} }}
pub open spec fn {name}_of(c: i32) -> {ty} {{ {u} }}
pub open spec fn {name}_el(p: (u64, {ty})) -> {pbmod}::{pbty} {{ {pbmod}::{pbty} {{ id: p.0, role: {name}_code(p.1) }} }}
pub open spec fn {view}(s: Seq<(u64, {ty})>) -> Seq<{pbmod}::{pbty}> {{ Seq::new(s.len(), |i: int| {name}_el(s[i])) }}
pub open spec fn {name}_back(p: {pbmod}::{pbty}) -> (u64, {ty}) {{ (p.id, {name}_of(p.role)) }}
pub open spec fn {view}_back(s: Seq<{pbmod}::{pbty}>) -> Seq<(u64, {ty})> {{ Seq::new(s.len(), |i: int| {name}_back(s[i])) }}
pub open spec fn {view}_opt(s: Option<Vec<(u64, {ty})>>) -> Vec<{pbmod}::{pbty}> {{ match s {{ Some(v) => vec_of({view}(v@)), None => no_items() }} }}
'''
EMPTY = lambda f: f'{f}: if r.{f} is Some && r.{f}->0@.len() == 0 {{ None }} else {{ r.{f} }}'
PR = 'src/metadata/src/projects.rs'
APART = "forall|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) ==> w.name@ != w.token@ && (req.name is Some ==> req.name->Some_0@ != w.token@) && (req.token is Some ==> req.token->Some_0@ != w.name@) && (req.name is Some && req.token is Some ==> req.name->Some_0@ != req.token->Some_0@)"
provider('projects', 'projects.rs', 'Project', 'Projects', 'CreateProjectRequest', 'UpdateProjectRequest', 'project.rs', 'Project', 'global', idname='project_id', var='project', idx=[('name', 'name'), ('token', 'name')], statics=[('IDX_NAME', 'name')],
    extra=index_fns(PR, [('index_name_key', 'name', 'name'), ('index_token_key', 'token', 'name')], 'global'),
    to_pb=f'project::Project {{ {META}, organization_id: r.organization_id, name: r.name, description: r.description, tags: s_or_empty(r.tags), token: r.token, session_duration_seconds: r.session_duration_seconds, events_count: r.events_count as u64 }}', back=f'Project {{ {TIMES}, {TAGS}, ..r }}',
    ser_rules=TOVEC, ser_extra='//@before Ok ( v . encode_to_vec ( ) )\n    proof { assert(v == to_pb(*project)); }\n',
    made='r.updated_at is None && r.updated_by is None && r.events_count == 0 && ' + eqs('q', 'created_by', 'organization_id', 'name', 'description', 'tags', 'token', 'session_duration_seconds'),
    changed=STAMP + ' && r.organization_id == w.organization_id && r.events_count == w.events_count && ' + sets('name', 'description', 'tags', 'token', 'session_duration_seconds'),
    update_requires=APART, list_start='//@start\n    proof { reveal_with_fuel(flat, 3); }\n',
    update_hint='axiom_names();',
    specs='// two index keys are equal only when their texts are\nproof fn axiom_names() ensures forall|x: String, y: String| #![trigger utf8(x@), utf8(y@)] k_index(NS(), asc("name"@), utf8(x@)) == k_index(NS(), asc("name"@), utf8(y@)) ==> x@ == y@ { assert forall|x: String, y: String| #![trigger utf8(x@), utf8(y@)] k_index(NS(), asc("name"@), utf8(x@)) == k_index(NS(), asc("name"@), utf8(y@)) implies x@ == y@ by { reveal_strlit("name"); lemma_index_key(NS(), asc("name"@), x@, asc("name"@), y@); } }\n',
    fns=('get_by_id_', 'get_by_id', 'create', 'update', 'delete', 'list', f'''//@fn {PR} Projects::get_by_token | ret=r block
//@contract
    requires inv::<Project>(self.db@, base()),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(), id, r->Ok_0) && has_key(r->Ok_0, base(), k_index(NS(), asc("name"@), utf8(token@))), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(NS(), asc("name"@), utf8(token@))),
//@start
    proof {{ lemma_is_idx(base(), asc("name"@), utf8(token@)); }}
//@before self . get_by_id_
    proof {{ let k = k_index(NS(), asc("name"@), utf8(token@)); let e = choose|e: Project| #[trigger] rec(self.db@, base(), id, e) && has_key(e, base(), k); assert(rec(self.db@, base(), id, e)); assert(e.back().ekeys(base()) =~= e.ekeys(base())); }}
//@end
''', f'''//@fn {PR} Projects::increment_events_counter | ret=r mut_self block
//@contract
    requires inv::<Project>(old(self).db@, base()), forall|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) ==> w.events_count < usize::MAX,
    ensures r is Ok ==> exists|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w) && final(self).db@ == old(self).db@.insert(k_data(base(), project_id), (Project {{ events_count: (w.events_count + 1) as usize, ..w.back() }}).enc()), r is Ok ==> inv::<Project>(final(self).db@, base()),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), project_id)),
//@before project . events_count
    proof {{ let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w)); assert(project == w.back()); }}
//@before tx . commit
    proof {{ let w = choose|w: Project| #[trigger] rec(old(self).db@, base(), project_id, w); assert(rec(old(self).db@, base(), project_id, w)); assert(project == Project {{ events_count: (w.events_count + 1) as usize, ..w.back() }}); assert(project.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(self).db@, base(), project_id, w, project, seq![], seq![]); }}
//@end
'''))

RB = 'src/common/src/rbac.rs'
ORGR = [('Owner', 1), ('Admin', 2), ('Member', 3)]
acc_types = ''.join(f'//@item {RB} {t} | vis=keep std="eq clone"\n' for t in ('Role', 'OrganizationRole', 'ProjectRole'))
RBAC = f'pub mod rbac {{ use super::*; {chr(10)}{acc_types}}}\npub use rbac::*;\n'
HEAD2 = HEAD + '//@rule Role :: $x =>> Role::$x\n' * 0 + RBAC
acc_specs = 'pub open spec fn with_orgs(a: Account, o: Vec<(u64, OrganizationRole)>) -> Account { Account { organizations: Some(o), ..a } }\n' + 'pub open spec fn accmade(r: Account, q: CreateAccountRequest) -> bool { r.updated_at is None && r.updated_by is None && ' + eqs('q', 'created_by', 'password_hash', 'email', 'name', 'force_update_password', 'force_update_email', 'role', 'organizations', 'projects', 'teams') + ' }\n' + roles('org', 'all_orgs', 'account', 'Organization', 'OrganizationRole', ORGR) + roles('proj', 'all_projs', 'account', 'Project', 'ProjectRole', [('Owner', 1), ('Admin', 2), ('Member', 3), ('Reader', 4)]) + roles('team', 'all_teams', 'account', 'Team', 'Role', [('Admin', 1)])
def codec(recv, v, el): return loopmap(recv, '( id , role )', f'id = &{recv.replace(" ", "")}[k_].0; let role', el, v).replace(f'= &{recv.replace(" ", "")}[k_]; let e_', f'= &{recv.replace(" ", "")}[k_].1; let e_')
CHG = lambda: ''
def member_fn(name, cond_ok, how, err):
    return f'''//@fn {ACC} Accounts::{name} | ret=r vis=keep block
'''
OA = 'old(tx)@'
one = lambda: "let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w);"
def acc_fn(name, extra, post, dup, hint):
    return f'''//@fn {ACC} Accounts::{name} | ret=r vis=keep block
{extra}//@contract
    requires inv::<Account>(old(tx)@, base()),
    ensures r is Ok ==> exists|w: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(tx)@, base(), member_id, w) && {post} && final(tx)@ == old(tx)@.insert(k_data(base(), member_id), (#[trigger] with_orgs(w.back(), o)).enc()), r is Ok ==> inv::<Account>(final(tx)@, base()),
        r is Err ==> infra(r->Err_0) || {dup} || r->Err_0 is NotFound && !old(tx)@.dom().contains(k_data(base(), member_id)),
//@before tx . put
    proof {{ {hint} let w = choose|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w); assert(rec(old(tx)@, base(), member_id, w)); let o = account.organizations->0; assert(account == with_orgs(w.back(), o)); assert(account.ekeys(base()) =~= w.ekeys(base())); lemma_updated(old(tx)@, base(), member_id, w, account, seq![], seq![]); assert({post}); }}
//@end
'''
WAS = "s_or_empty(w.back().organizations)@"
acc_fns = (acc_fn('add_organization_', '//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)\n//@rule orgs . iter ( ) . any ( | ( id , _ ) | * id == org_id ) =>> any_id(orgs, org_id)\n',
    f'!has_id({WAS}, org_id) && o@ == {WAS}.push((org_id, role))', 'r->Err_0 is AlreadyExists && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && has_id(s_or_empty(w.back().organizations)@, org_id))', ''),
  acc_fn('remove_organization_', '//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)\n//@rule orgs . iter ( ) . all ( | ( id , _ ) | * id != org_id ) =>> !any_id(orgs, org_id)\n//@rule orgs . retain ( | ( id , _ ) | * id != org_id ) =>> retain_other(orgs, org_id)\n',
    f'has_id({WAS}, org_id) && o@ == drop_id({WAS}, org_id)', 'r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id))', ''),
  acc_fn('change_organization_role_', '//@rule account . organizations . get_or_insert ( Vec :: new ( ) ) =>> get_or_insert(&mut account.organizations)\n//@rule for ( id , r ) in orgs . iter_mut ( ) { if * id == org_id { * r = role ; $$b } } =>> if set_first(orgs, org_id, role) { $b }\n',
    f'first_set({WAS}, o@, org_id, role)', 'r->Err_0 is NotFound && (exists|w: Account| #[trigger] rec(old(tx)@, base(), member_id, w) && !has_id(s_or_empty(w.back().organizations)@, org_id))', '').replace('| ret=r vis', '| loops=1 ret=r vis'))
provider('accounts', 'accounts.rs', 'Account', 'Accounts', 'CreateAccountRequest', 'UpdateAccountRequest', 'account.rs', 'Account', 'global', upid='account_id', var='acc', upvar='account', idx=[('email', 'email')], statics=[('IDX_EMAIL', 'email')],
    pbitems=['Organization', 'Project', 'Team', '#OrganizationRole', '#ProjectRole', '#Role'], specs=acc_specs,
    extra=index_fns(ACC, [('index_email_key', 'email', 'email')], 'global') + f'''impl CreateAccountRequest {{
//@fn {ACC} CreateAccountRequest::into_account | ret=r block
//@contract
    ensures r.id == id && r.created_at == created_at && accmade(r, self),
//@end
}}
''',
    to_pb=f'account::Account {{ {META}, password_hash: r.password_hash, email: r.email, name: r.name, role: match r.role {{ Some(x) => Some(team_code(x)), None => None }}, force_update_password: r.force_update_password, force_update_email: r.force_update_email, organizations: all_orgs_opt(r.organizations), projects: all_projs_opt(r.projects), teams: all_teams_opt(r.teams) }}',
    back=f'Account {{ {TIMES}, {EMPTY("organizations")}, {EMPTY("projects")}, {EMPTY("teams")}, ..r }}',
    entpost='',
    ser_rules=codec('orgs', 'all_orgs', 'org_el') + codec('proj', 'all_projs', 'proj_el') + codec('teams', 'all_teams', 'team_el'),
    ser_extra='//@start\n    let ghost a0 = *acc;\n//@before Ok ( acc . encode_to_vec ( ) )\n    proof { assert(acc == to_pb(a0)); }\n',
    de_rules=loopmap('from . organizations', 'org', 'org', 'org_back', 'all_orgs_back') + loopmap('from . projects', 'proj', 'proj', 'proj_back', 'all_projs_back') + loopmap('from . teams', 'team', 'team', 'team_back', 'all_teams_back'),
    de_extra='''//@before Ok ( to )
    proof { assert forall|x: Account| data@ == #[trigger] x.enc() implies to == x.back() by {
        assert(from == to_pb(x)); let b = x.back();
        if x.organizations is Some { assert(from.organizations@ == all_orgs(x.organizations->0@)); assert(all_orgs_back(all_orgs(x.organizations->0@)) =~= x.organizations->0@); }
        if x.projects is Some { assert(from.projects@ == all_projs(x.projects->0@)); assert(all_projs_back(all_projs(x.projects->0@)) =~= x.projects->0@); }
        if x.teams is Some { assert(from.teams@ == all_teams(x.teams->0@)); assert(all_teams_back(all_teams(x.teams->0@)) =~= x.teams->0@); }
        assert(to.organizations == b.organizations); assert(to.projects == b.projects); assert(to.teams == b.teams); assert(to.role == b.role);
    } }
''',
    made='accmade(r, q)', changed=STAMP + ' && ' + sets('password_hash', 'email', 'name', 'force_update_password', 'force_update_email', 'role', 'organizations', 'projects', 'teams'),
    fns=('get_by_id_', 'get_by_id', 'create', 'update', 'delete', 'list', f'''//@fn {ACC} Accounts::get_by_email | ret=r block
//@contract
    requires inv::<Account>(self.db@, base()),
    ensures r is Ok ==> exists|id: u64| #[trigger] holds(self.db@, base(), id, r->Ok_0) && has_key(r->Ok_0, base(), k_index(NS(), asc("email"@), utf8(email@))), r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !self.db@.dom().contains(k_index(NS(), asc("email"@), utf8(email@))),
//@start
    proof {{ lemma_is_idx(base(), asc("email"@), utf8(email@)); }}
//@before self . get_by_id_
    proof {{ let k = k_index(NS(), asc("email"@), utf8(email@)); let e = choose|e: Account| #[trigger] rec(self.db@, base(), id, e) && has_key(e, base(), k); assert(rec(self.db@, base(), id, e)); assert(e.back().ekeys(base()) =~= e.ekeys(base())); }}
//@end
''') + acc_fns, unit='acc', head=HEAD2)

ORG = 'src/metadata/src/organizations.rs'
TWO = "inv::<Organization>(old(self).db@, base()), inv::<Account>(old(self).db@, accounts::base()), linked(old(self).db@),"
LINK = r'''
pub type Members = Seq<(u64, OrganizationRole)>;
pub open spec fn with_members(r: Organization, v: Vec<(u64, OrganizationRole)>) -> Organization { Organization { members: v, ..r } }
pub open spec fn orgs_of(a: Account) -> Members { s_or_empty(a.organizations)@ }
// both sides of a membership say the same, and nobody belongs to an organization that was never created
pub open spec fn linked(m: Store) -> bool {
    &&& forall|i: u64, o: Organization, j: u64, a: Account| #[trigger] rec(m, base(), i, o) && #[trigger] rec(m, accounts::base(), j, a) ==> role_of(o.members@, j) == role_of(orgs_of(a), i)
    &&& forall|j: u64, a: Account, i: u64| #[trigger] rec(m, accounts::base(), j, a) && #[trigger] has_id(orgs_of(a), i) ==> m.dom().contains(k_seq(base())) && i <= un_le(m[k_seq(base())])
}
pub proof fn lemma_kinds_apart() ensures forall|k: Seq<u8>| #![trigger starts(k, accounts::base())] #![trigger starts(k, base())] !(starts(k, accounts::base()) && starts(k, base()))
{ reveal_strlit("accounts"); reveal_strlit("organizations"); assert forall|k: Seq<u8>| #![trigger starts(k, accounts::base())] #![trigger starts(k, base())] !(starts(k, accounts::base()) && starts(k, base())) by { if starts(k, accounts::base()) && starts(k, base()) { assert(k.take(accounts::base().len() as int)[0] == k[0]); assert(k.take(base().len() as int)[0] == k[0]); } } }
proof fn lemma_same_orgs(a: Account, b: Account) requires a.enc() == b.enc() ensures orgs_of(a) == orgs_of(b)
{ assert(unpb::<account::Account>(a.enc()) == Some(accounts::to_pb(a))); assert(accounts::to_pb(a).organizations == accounts::to_pb(b).organizations); assert(accounts::to_pb(a).organizations@ =~= accounts::all_orgs(orgs_of(a))); assert(accounts::to_pb(b).organizations@ =~= accounts::all_orgs(orgs_of(b)));
  assert(accounts::all_orgs_back(accounts::all_orgs(orgs_of(a))) =~= orgs_of(a)); assert(accounts::all_orgs_back(accounts::all_orgs(orgs_of(b))) =~= orgs_of(b)); }
proof fn lemma_same_members(a: Organization, b: Organization) requires a.enc() == b.enc() ensures a.members@ == b.members@
{ assert(unpb::<organization::Organization>(a.enc()) == Some(to_pb(a))); assert(to_pb(a).members@ =~= mems(a.members@)); assert(to_pb(b).members@ =~= mems(b.members@)); assert(mems_back(mems(a.members@)) =~= a.members@); assert(mems_back(mems(b.members@)) =~= b.members@); }
pub open spec fn relinked(m: Store, id: u64, member: u64, w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>) -> Store { m.insert(k_data(accounts::base(), member), accounts::with_orgs(a.back(), o).enc()).insert(k_data(base(), id), with_members(w.back(), v).enc()) }
proof fn lemma_link(m: Store, id: u64, member: u64, w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>, x: Option<OrganizationRole>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), rec(m, base(), id, w), rec(m, accounts::base(), member, a),
        forall|j: u64| #[trigger] role_of(v@, j) == (if j == member { x } else { role_of(w.members@, j) }), forall|i: u64| #[trigger] role_of(o@, i) == (if i == id { x } else { role_of(orgs_of(a), i) })
    ensures inv::<Organization>(relinked(m, id, member, w, a, v, o), base()), inv::<Account>(relinked(m, id, member, w, a, v, o), accounts::base()), linked(relinked(m, id, member, w, a, v, o))
{
    let n = relinked(m, id, member, w, a, v, o); let ka = k_data(accounts::base(), member); let ko = k_data(base(), id); let a1 = accounts::with_orgs(a.back(), o); let w1 = with_members(w.back(), v);
    lemma_kinds_apart(); lemma_under(accounts::base(), member); lemma_under(base(), id); lemma_seq_data(base(), id);
    let m1 = m.insert(ka, a1.enc());
    assert(a1.ekeys(accounts::base()) =~= a.ekeys(accounts::base())); assert(w1.ekeys(base()) =~= w.ekeys(base()));
    lemma_updated(m, accounts::base(), member, a, a1, seq![], seq![]); assert(m1 == updated(m, accounts::base(), member, a1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, base()) implies #[trigger] same_at(m, m1, k) by { assert(k != ka); } lemma_frame::<Organization>(m, m1, base()); assert(rec(m1, base(), id, w));
    lemma_updated(m1, base(), id, w, w1, seq![], seq![]); assert(n == updated(m1, base(), id, w1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m1, n, k) by { assert(k != ko); } lemma_frame::<Account>(m1, n, accounts::base());
    lemma_under(base(), 0); assert(n[k_seq(base())] == m[k_seq(base())]);
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> o2.members@ == v@) by { if i != id { if k_data(base(), i) == ko { lemma_data_key(base(), i, id); } lemma_under(base(), i); assert(k_data(base(), i) != ka); } else { lemma_same_members(o2, w1); } }
    assert forall|j: u64, a2: Account| #[trigger] rec(n, accounts::base(), j, a2) implies (j != member ==> rec(m, accounts::base(), j, a2)) && (j == member ==> orgs_of(a2) == o@) by { if j != member { if k_data(accounts::base(), j) == ka { lemma_data_key(accounts::base(), j, member); } lemma_under(accounts::base(), j); assert(k_data(accounts::base(), j) != ko); } else { lemma_under(accounts::base(), j); assert(ka != ko); lemma_same_orgs(a2, a1); assert(orgs_of(a1) == o@); } }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by {
        if i != id && j != member { } else if i == id && j != member { assert(role_of(v@, j) == role_of(w.members@, j)); } else if i != id { assert(role_of(o@, i) == role_of(orgs_of(a), i)); } else { assert(role_of(v@, j) == x); assert(role_of(o@, i) == x); }
    }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by {
        if j == member { lemma_role_none(o@, i); lemma_role_none(orgs_of(a), i); assert(role_of(o@, i) is Some); if i == id { assert(m.dom().contains(k_data(base(), id))); } else { assert(has_id(orgs_of(a), i)); } } else { assert(rec(m, accounts::base(), j, a2)); }
    }
}
// a step among the organizations that keeps the member list, or removes the record, keeps both sides in agreement
proof fn lemma_kept(m: Store, n: Store, id: u64, w: Organization, is: Option<Organization>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), step(m, n, base(), id, Some(w), is), rec(m, base(), id, w), is is Some ==> is->0.members@ == w.members@, is is Some ==> is->0.eid() == id
    ensures linked(n), inv::<Account>(n, accounts::base())
{
    lemma_kinds_apart(); lemma_outside(m, n, base(), id, Some(w), is); assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m, n, k) by { assert(!starts(k, base())); } lemma_frame::<Account>(m, n, accounts::base());
    lemma_seq_data(base(), id); let ks_ = k_seq(base()); assert(!keyed(is, base(), ks_)) by { if keyed(is, base(), ks_) { lemma_keys(is->0, base(), ks_); } } assert(!keyed(Some(w), base(), ks_)) by { if keyed(Some(w), base(), ks_) { lemma_keys(w, base(), ks_); } } assert(n.dom().contains(ks_) <==> m.dom().contains(ks_));
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> is is Some && o2.members@ == w.members@) by {
        let k = k_data(base(), i); assert(n.dom().contains(k));
        if i != id { if k == k_data(base(), id) { lemma_data_key(base(), i, id); } lemma_seq_data(base(), i); if keyed(is, base(), k) { lemma_keys(is->0, base(), k); } if keyed(Some(w), base(), k) { lemma_keys(w, base(), k); } assert(n.dom().contains(k) <==> m.dom().contains(k)); } else { lemma_same_members(o2, is->0); }
    }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by { assert(rec(m, accounts::base(), j, a2)); if i == id { assert(role_of(w.members@, j) == role_of(orgs_of(a2), i)); } }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by { assert(rec(m, accounts::base(), j, a2)); }
}
proof fn lemma_new_org(m: Store, m1: Store, org: Organization, by: u64, a: Account, o: Vec<(u64, OrganizationRole)>)
    requires inv::<Organization>(m, base()), inv::<Account>(m, accounts::base()), linked(m), step(m, m1, base(), org.id, None, Some(org)), org.id == counter(m, k_seq(base()), 1), inv::<Organization>(m1, base()),
        org.members@ =~= seq![(by, OrganizationRole::Owner)], rec(m, accounts::base(), by, a), o@ == orgs_of(a).push((org.id, OrganizationRole::Owner))
    ensures ({ let n = m1.insert(k_data(accounts::base(), by), accounts::with_orgs(a.back(), o).enc()); inv::<Organization>(n, base()) && inv::<Account>(n, accounts::base()) && linked(n) })
{
    let a1 = accounts::with_orgs(a.back(), o); let ka = k_data(accounts::base(), by); let n = m1.insert(ka, a1.enc()); let id = org.id;
    lemma_kinds_apart(); lemma_under(accounts::base(), by); lemma_under(base(), id); lemma_outside(m, m1, base(), id, None, Some(org));
    assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m, m1, k) by { assert(!starts(k, base())); } lemma_frame::<Account>(m, m1, accounts::base()); assert(rec(m1, accounts::base(), by, a));
    assert(a1.ekeys(accounts::base()) =~= a.ekeys(accounts::base())); lemma_updated(m1, accounts::base(), by, a, a1, seq![], seq![]); assert(n == updated(m1, accounts::base(), by, a1, seq![], seq![]));
    assert forall|k: Seq<u8>| starts(k, base()) implies #[trigger] same_at(m1, n, k) by { assert(k != ka); } lemma_frame::<Organization>(m1, n, base());
    assert(n[k_seq(base())] == le(id));
    assert forall|i: u64, o2: Organization| #[trigger] rec(n, base(), i, o2) implies (i != id ==> rec(m, base(), i, o2)) && (i == id ==> o2.members@ == org.members@) by {
        assert(rec(m1, base(), i, o2)); let k = k_data(base(), i);
        if i != id { if k == k_data(base(), id) { lemma_data_key(base(), i, id); } lemma_seq_data(base(), i); if keyed(Some(org), base(), k) { lemma_keys(org, base(), k); } assert(m1.dom().contains(k) <==> m.dom().contains(k)); } else { lemma_same_members(o2, org); }
    }
    assert forall|j: u64, a2: Account| #[trigger] rec(n, accounts::base(), j, a2) implies (j != by ==> rec(m, accounts::base(), j, a2)) && (j == by ==> orgs_of(a2) == o@) by { if j != by { if k_data(accounts::base(), j) == ka { lemma_data_key(accounts::base(), j, by); } assert(rec(m1, accounts::base(), j, a2)); } else { lemma_same_orgs(a2, a1); assert(orgs_of(a1) == o@); } }
    assert forall|i: u64, o2: Organization, j: u64, a2: Account| #[trigger] rec(n, base(), i, o2) && #[trigger] rec(n, accounts::base(), j, a2) implies role_of(o2.members@, j) == role_of(orgs_of(a2), i) by {
        lemma_role_push(orgs_of(a), id, OrganizationRole::Owner, i); let s = org.members@; assert(s[0] == (by, OrganizationRole::Owner)); assert(s.skip(1) =~= Seq::empty()); assert(role_of(s.skip(1), j) is None);
        if i == id { lemma_role_none(if j == by { orgs_of(a) } else { orgs_of(a2) }, id); if j == by { if has_id(orgs_of(a), id) { assert(false); } } else { if has_id(orgs_of(a2), id) { assert(false); } } }
    }
    assert forall|j: u64, a2: Account, i: u64| #[trigger] rec(n, accounts::base(), j, a2) && #[trigger] has_id(orgs_of(a2), i) implies n.dom().contains(k_seq(base())) && i <= un_le(n[k_seq(base())]) by {
        if j == by { lemma_role_push(orgs_of(a), id, OrganizationRole::Owner, i); lemma_role_none(o@, i); lemma_role_none(orgs_of(a), i); if i != id { assert(has_id(orgs_of(a), i)); } } else { assert(has_id(orgs_of(a2), i)); }
    }
}
'''
ROLE_CODE = f'''pub mod rolec {{ use super::*;
//@item {RB} OrganizationRole | consts=OrganizationRole
}}
// `role as i32`: the discriminant declared in the source
#[verifier::external_body] pub fn role_code(r: &OrganizationRole) -> (c: i32) ensures c == (match *r {{ OrganizationRole::Owner => rolec::OrganizationRole::Owner, OrganizationRole::Admin => rolec::OrganizationRole::Admin, OrganizationRole::Member => rolec::OrganizationRole::Member }}) {{ unimplemented!() }}
'''
def org_fn(name, rules, change, dup, lem, x, loops=''):
    """one membership operation: the record on each side changes, and nothing else"""
    C1, C2 = change('w.members@', 'v@', 'member_id'), change('orgs_of(a)', 'o@', 'id')
    return f'''//@fn {ORG} Organizations::{name} | {loops}ret=r mut_self block
{rules}//@contract
    requires {TWO}
    ensures r is Ok ==> exists|w: Organization, a: Account, v: Vec<(u64, OrganizationRole)>, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, base(), id, w) && #[trigger] rec(old(self).db@, accounts::base(), member_id, a) && {C1} && {C2} && final(self).db@ == #[trigger] relinked(old(self).db@, id, member_id, w, a, v, o),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), member_id)) || {dup},
//@start
    let ghost m0 = old(self).db@;
//@before self . accs
    proof {{
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w));
        assert forall|a: Account| #[trigger] rec(m0, accounts::base(), member_id, a) implies (has_id(orgs_of(a), id) <==> has_id(w.members@, member_id)) by {{ lemma_role_none(orgs_of(a), id); lemma_role_none(w.members@, member_id); }}
    }}
//@before tx . commit
    proof {{
        let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w); assert(rec(m0, base(), id, w)); let v = org.members; assert(org == with_members(w.back(), v));
        lemma_kinds_apart(); lemma_under(accounts::base(), member_id); lemma_under(base(), id); let ka = k_data(accounts::base(), member_id);
        assert(tx@[ka] == tx@.remove(k_data(base(), id))[ka]);
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m0, accounts::base(), member_id, a) && ({C2}) && tx@ == m0.insert(ka, (#[trigger] accounts::with_orgs(a.back(), o)).enc()).insert(k_data(base(), id), org.enc());
        assert(tx@ == relinked(m0, id, member_id, w, a, v, o));
        assert forall|j: u64| #[trigger] role_of(v@, j) == (if j == member_id {{ {x} }} else {{ role_of(w.members@, j) }}) by {{ {lem('w.members@', 'v@', 'member_id', 'j')} }}
        assert forall|i: u64| #[trigger] role_of(o@, i) == (if i == id {{ {x} }} else {{ role_of(orgs_of(a), i) }}) by {{ {lem('orgs_of(a)', 'o@', 'id', 'i')} }}
        lemma_link(m0, id, member_id, w, a, v, o, {x});
    }}
//@end
'''
NONE = 'lemma_role_none({0}, {2});'
MEMBERS = '//@rule org . members . iter ( ) . any ( | ( id , _ ) | * id == member_id ) =>> any_id(&org.members, member_id)\n'
HAS = 'r->Err_0 is {0} && exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && {1}has_id(w.members@, member_id)'
org_fns = (org_fn('add_member', MEMBERS, lambda s, t, i: f'!has_id({s}, {i}) && {t} == {s}.push(({i}, role))', HAS.format('AlreadyExists', ''), lambda s, t, i, j: f'lemma_role_none({s}, {i}); lemma_role_push({s}, {i}, role, {j});', 'Some(role)'),
  org_fn('remove_member', MEMBERS + '//@rule org . members . retain ( | ( id , _ ) | * id != member_id ) =>> retain_other(&mut org.members, member_id)\n', lambda s, t, i: f'has_id({s}, {i}) && {t} == drop_id({s}, {i})', HAS.format('NotFound', '!'), lambda s, t, i, j: f'lemma_role_drop({s}, {i}, {j});', 'None'),
  org_fn('change_member_role', '//@rule if let Some ( member ) = org . members . iter_mut ( ) . find ( | ( id , _ ) | * id == member_id ) { member . 1 = role . clone ( ) ; $$b } =>> if set_first(&mut org.members, member_id, role.clone()) { $b }\n', lambda s, t, i: f'first_set({s}, {t}, {i}, role)', HAS.format('NotFound', '!'), lambda s, t, i, j: f'lemma_role_set({s}, {t}, {i}, role, {j});', 'Some(role)'))
provider('organizations', 'organizations.rs', 'Organization', 'Organizations', 'CreateOrganizationRequest', 'UpdateOrganizationRequest', 'organization.rs', 'Organization', 'global', var='org', upvar='org', idx=[('name', 'name')], statics=[('IDX_NAME', 'name')],
    rules='//@rule Arc < Accounts > =>> Accounts\n//@rule role . clone ( ) as i32 =>> role_code(role)\n', pbitems=['Member'], needs=['accounts'], head=HEAD2,
    specs='use accounts::*;\n' * 0 + 'use super::accounts::{self, Accounts, Account, account};\n' + ROLE_CODE + roles('mem', 'mems', 'organization', 'Member', 'OrganizationRole', ORGR),
    to_pb=f'organization::Organization {{ {META}, name: r.name, members: vec_of(mems(r.members@)) }}', back=f'Organization {{ {TIMES}, ..r }}', entpost='',
    ser_rules=loopmap('org . members', '( id , role )', 'id = &org.members[k_].0; let role', 'mem_el', 'mems', tail='. collect ( )').replace('let role = &org.members[k_]; let e_', 'let role = &org.members[k_].1; let e_'),
    ser_extra='//@before Ok ( v . encode_to_vec ( ) )\n    proof { assert(v == to_pb(*org)); }\n',
    de_rules=loopmap('from . members', 'm', 'm', 'mem_back', 'mems_back', tail='. collect ( )').replace('proof { assert(out_@ =~= mems_back(from.members@)); }', 'proof { assert(out_@ =~= mems_back(from.members@)); assert forall|x: Organization| data@ == #[trigger] x.enc() implies out_ == x.members by { assert(from == to_pb(x)); assert(from.members@ == mems(x.members@)); assert(mems_back(mems(x.members@)) =~= x.members@); assert(out_@ == x.members@); } }'),
    extra=index_fns(ORG, [('index_name_key', 'name', 'name')], 'global') + LINK,
    made='r.updated_at is None && r.updated_by is None && r.members@ =~= seq![(q.created_by, OrganizationRole::Owner)] && ' + eqs('q', 'created_by', 'name'),
    changed=STAMP + ' && r.members == w.members && ' + sets('name'),
    fns=('get_by_id_', 'get_by_id', f'''//@fn {ORG} Organizations::create | ret=r mut_self block
//@contract
    requires {TWO} seq_ok(old(self).db@, k_seq(base())),
    ensures r is Ok ==> made(r->Ok_0, req) && r->Ok_0.id == counter(old(self).db@, k_seq(base()), 1) && may(old(self).db@, base(), r->Ok_0.id, None, Some(r->Ok_0)) && exists|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(old(self).db@, accounts::base(), req.created_by, a) && o@ == orgs_of(a).push((r->Ok_0.id, OrganizationRole::Owner))
            && final(self).db@ == created(old(self).db@, base(), r->Ok_0.id, r->Ok_0).insert(k_data(accounts::base(), req.created_by), (#[trigger] accounts::with_orgs(a.back(), o)).enc()),
        r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is AlreadyExists && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name@))) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(accounts::base(), req.created_by)),
//@start
    let ghost m0 = old(self).db@;
//@before check_insert_constraints
    proof {{ lemma_some_at(ks(idx_keys@)); }}
//@before self . accs
    let ghost m1 = tx@;
    proof {{
        lemma_keyseq(org, base(), ks(idx_keys@)); lemma_created(m0, base(), org.id, org); assert(m1 == created(m0, base(), org.id, org));
        lemma_kinds_apart(); lemma_outside(m0, m1, base(), org.id, None, Some(org)); assert forall|k: Seq<u8>| starts(k, accounts::base()) implies #[trigger] same_at(m0, m1, k) by {{ assert(!starts(k, base())); }} lemma_frame::<Account>(m0, m1, accounts::base());
        lemma_under(accounts::base(), req.created_by); assert(same_at(m0, m1, k_data(accounts::base(), req.created_by)));
        assert forall|a: Account| #[trigger] rec(m1, accounts::base(), req.created_by, a) implies !has_id(orgs_of(a), org.id) by {{ assert(rec(m0, accounts::base(), req.created_by, a)); if has_id(orgs_of(a), org.id) {{ assert(false); }} }}
    }}
//@before tx . commit
    proof {{
        let (a, o) = choose|a: Account, o: Vec<(u64, OrganizationRole)>| #[trigger] rec(m1, accounts::base(), req.created_by, a) && o@ == orgs_of(a).push((org.id, OrganizationRole::Owner)) && tx@ == m1.insert(k_data(accounts::base(), req.created_by), (#[trigger] accounts::with_orgs(a.back(), o)).enc());
        assert(rec(m0, accounts::base(), req.created_by, a)); lemma_new_org(m0, m1, org, req.created_by, a, o);
    }}
//@end
''', 'update_', f'''//@fn {ORG} Organizations::update | ret=r mut_self block
//@contract
    requires {TWO}
    ensures r is Ok ==> exists|w: Organization| #[trigger] rec(old(self).db@, base(), id, w) && changed(w.back(), r->Ok_0, req) && step(old(self).db@, final(self).db@, base(), id, Some(w), Some(r->Ok_0)) && may(old(self).db@, base(), id, Some(w), Some(r->Ok_0)), r is Ok ==> inv::<Organization>(final(self).db@, base()) && inv::<Account>(final(self).db@, accounts::base()) && linked(final(self).db@),
        r is Err ==> final(self).db@ == old(self).db@, r is Err ==> infra(r->Err_0) || r->Err_0 is NotFound && !old(self).db@.dom().contains(k_data(base(), id)) || r->Err_0 is AlreadyExists && (req.name is Some && old(self).db@.dom().contains(k_index(base(), asc("name"@), utf8(req.name->Some_0@)))),
//@before tx . commit
    proof {{ let m0 = old(self).db@; let w = choose|w: Organization| #[trigger] rec(m0, base(), id, w) && changed(w.back(), org, req) && step(m0, tx@, base(), id, Some(w), Some(org)) && may(m0, base(), id, Some(w), Some(org)); lemma_kept(m0, tx@, id, w, Some(org)); }}
//@end
''', 'delete', 'list') + org_fns)
