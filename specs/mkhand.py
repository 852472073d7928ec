#!/usr/bin/env python3
"""Writes the contract units of the API handlers (specs/B_*.rs). Nothing in them is code of the repository, only
contracts: the gate each handler must pass, the store request it must make, and the answer it must give."""
import re, pathlib
HERE = pathlib.Path(__file__).parent
HEAD = '''//@include base.rs
use vstd::prelude::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::fmt::Debug;
verus! {
//@item src/common/src/rbac.rs Permission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs Role | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs OrganizationRole | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectPermission | vis=keep std="eq clone"
//@item src/common/src/rbac.rs ProjectRole | vis=keep std="eq clone"
//@item src/platform/src/context.rs Context | vis=keep
//@include rbacspec.rs
//@include handlers.rs
'''
TAIL = '''//@helpers
} // verus!
fn main() {}
'''
CR, GET, LIST, UPD, DEL = 1, 2, 3, 4, 5
def commas(p):
    """each clause on a line of its own, so that a failed one names itself"""
    o, d, c = [], 0, ''
    for ch in p:
        d += ch in '([{'; d -= ch in ')]}'
        if ch == ',' and not d: o.append(c.strip()); c = ''
        else: c += ch
    return ''.join(f'\n        {x},' for x in o + [c.strip()] if x)
class Unit:
    def __init__(s, name, mod, file=None, rules=''):
        s.name, s.mod, s.F = name, mod, f'src/platform/src/{file or mod}.rs'; s.md = []; s.pl = []; s.h = []; s.rules = rules; s.use = s.mdroot = s.root = ''; s.mdmods = {}
    def mditems(s, mdmod, items, extra=''):
        o = s.mdmods.setdefault(mdmod, [])
        o += [f'//@item src/metadata/src/{mdmod}.rs {i} | vis=keep\n' for i in items] + [extra]
    def items(s, *items): s.pl += [f'//@item {s.F} {i} | vis=keep\n' for i in items]
    def raw(s, t): s.pl.append(t)
    def conv(s, a, b, sel, rel, into=False, rules='', file=None):
        """conversion a -> b; rel relates `self` and `r`"""
        F = file or s.F
        if into:
            s.pl.append(f'impl Conv<{b}> for {a} {{ open spec fn cv(self, r: {b}) -> bool {{ {rel} }}\n//@fn {F} [{sel}]::into | name=conv ret=r block\n{rules}//@end\n}}\n')
        else:
            f = 'c%d' % len(s.pl)
            s.pl.append(f'impl Conv<{b}> for {a} {{ open spec fn cv(self, r: {b}) -> bool {{ {rel} }} fn conv(self) -> (r: {b}) {{ {f}(self) }} }}\n//@fn {F} [{sel}]::from | name={f} ret=r block args=x_\n//@rule Self =>> {b}\n{rules}//@contract\n    ensures x_.cv(r),\n//@end\n')
    def prov(s, mdmod, ty, fns):
        """store functions: (name, signature tail 'a: A, b: B', result type, op, key tuple of args, precondition)"""
        t = f'#[verifier::external_body] pub struct {ty} {{ x: u8 }}\nimpl {ty} {{\n'
        for n, args, res, op, key, pre in fns:
            t += f'    #[verifier::external_body] pub fn {n}(&self, {args}) -> (r: Result<{res}>) requires {commas(pre)}\n        ensures r is Ok ==> did({op}, {key}, r->Ok_0), r is Err ==> refused({op}, {key}) && !(r->Err_0 is Forbidden) {{ unimplemented!() }}\n'
        s.mdmods.setdefault(mdmod, []).append(t + '}\n')
    def handler(s, owner, fn, args, gate, ok, bad, extra='', pre='', ctx='ctx', sel=None):
        s.h.append((owner, f'//@fn {s.F} {sel or owner}::{fn} | ret=r block args={args}\n//@contract\n    requires {ctx} == caller(), {pre}\n    ensures !({gate}) ==> forbidden(r),\n        ({gate}) && r is Ok ==> {ok},\n        ({gate}) && r is Err ==> {bad},\n{extra}//@end\n'))
    def text(s):
        t = s.rules + HEAD
        t += 'pub mod metadata { use super::*;\n'
        t += 'pub mod metadata { use super::*;\n//@item src/metadata/src/metadata.rs ListResponse | vis=keep\n//@item src/metadata/src/metadata.rs ResponseMetadata | vis=keep\n}\n'
        t += s.mdroot
        for m, o in s.mdmods.items(): t += f'pub mod {m} {{ use super::*;\n' + ''.join(o) + '}\n'
        t += '}\n'
        t += s.root
        t += f'pub mod {s.mod} {{ use super::*; {s.use}\n' + ''.join(s.pl)
        owners = []
        for o, _ in s.h:
            if o not in owners: owners.append(o)
        for o in owners: t += f'impl {o} {{\n' + ''.join(x for y, x in s.h if y == o) + '}\n'
        return t + '}\n' + TAIL
    def write(s): (HERE / f'{s.name}.rs').write_text(s.text())

def crud(u, owner, ent, mdmod, create_req, update_req, P, made, changed, get='ExploreReports', lst=None, man='ManageReports', dele=None):
    """the usual five handlers over one collection of a project"""
    M = f'metadata::{mdmod}::'
    pr = lambda q, more='': f'may(project_id, ProjectPermission::{q}){more}'
    lst = lst or get; dele = dele or man
    u.prov(mdmod, owner, [
        ('create', f'project_id: u64, req: {create_req}', ent, CR, '(project_id, req)', pr(man, ', req.created_by == caller().account_id')),
        ('get_by_id', 'project_id: u64, id: u64', ent, GET, '(project_id, id)', pr(get)),
        ('list', 'project_id: u64', f'metadata::ListResponse<{ent}>', LIST, 'project_id', pr(lst)),
        ('update', f'project_id: u64, id: u64, req: {update_req}', ent, UPD, '(project_id, id, req)', pr(man, ', req.updated_by == caller().account_id')),
        ('delete', 'project_id: u64, id: u64', ent, DEL, '(project_id, id)', pr(dele))])
    E = M + ent
    u.handler(owner, 'create', 'ctx,project_id,req', pr(man), f'exists|q: {M}{create_req}, m: {E}| #[trigger] did({CR}, (project_id, q), m) && made(req, q) && m.cv(r->Ok_0)',
              f'exists|q: {M}{create_req}| #[trigger] refused({CR}, (project_id, q)) && made(req, q)')
    u.handler(owner, 'get_by_id', 'ctx,project_id,id', pr(get), f'exists|m: {E}| #[trigger] did({GET}, (project_id, id), m) && m.cv(r->Ok_0)', f'refused({GET}, (project_id, id))')
    u.handler(owner, 'list', 'ctx,project_id', pr(lst), f'exists|m: metadata::metadata::ListResponse<{E}>| #[trigger] did({LIST}, project_id, m) && cv_list(m, r->Ok_0)', f'refused({LIST}, project_id)')
    u.handler(owner, 'update', 'ctx,project_id,id,req', pr(man), f'exists|q: {M}{update_req}, m: {E}| #[trigger] did({UPD}, (project_id, id, q), m) && changed(req, q) && m.cv(r->Ok_0)',
              f'exists|q: {M}{update_req}| #[trigger] refused({UPD}, (project_id, id, q)) && changed(req, q)')
    u.handler(owner, 'delete', 'ctx,project_id,id', pr(dele), f'exists|m: {E}| #[trigger] did({DEL}, (project_id, id), m) && m.cv(r->Ok_0)', f'refused({DEL}, (project_id, id))')
    u.raw(f'pub open spec fn made(x: {create_req}, q: {M}{create_req}) -> bool {{ q.created_by == caller().account_id && {made} }}\n')
    u.raw(f'pub open spec fn changed(x: {update_req}, q: {M}{update_req}) -> bool {{ q.updated_by == caller().account_id && {changed} }}\n')
same = lambda a, b, fs: ' && '.join(f'{a}.{f} == {b}.{f}' for f in fs.split())
enum2 = lambda a, b, vs: 'match self { ' + ', '.join(f'{a}::{x} => r == {b}::{y}' for x, y in vs) + ' }'

# ---- dashboards
u = Unit('B_dashboards', 'dashboards'); M = 'metadata::dashboards::'
u.use = 'use crate::metadata::dashboards::Dashboards as MDDashboards;'
u.mditems('dashboards', ['Type', 'Panel', 'Dashboard', 'CreateDashboardRequest', 'UpdateDashboardRequest'])
u.items('Type', 'Panel', 'Dashboard', 'CreateDashboardRequest', 'UpdateDashboardRequest', 'Dashboards')
T = 'crate::dashboards::'
u.conv(T + 'Type', M + 'Type', f'From<{T}Type> for {M}Type', enum2(T + 'Type', M + 'Type', [('Report', 'Report')]))
u.conv(M + 'Type', T + 'Type', f'From<{M}Type> for {T}Type', enum2(M + 'Type', T + 'Type', [('Report', 'Report')]))
pan = same('self', 'r', 'report_id x y w h') + ' && self.typ.cv(r.typ)'
u.conv(T + 'Panel', M + 'Panel', f'From<{T}Panel> for {M}Panel', pan)
u.conv(M + 'Panel', T + 'Panel', f'From<{M}Panel> for {T}Panel', pan)
u.conv(M + 'Dashboard', T + 'Dashboard', f'From<{M}Dashboard> for {T}Dashboard', same('self', 'r', 'id created_at updated_at created_by updated_by project_id tags name description') + ' && self.panels.cv(r.panels)')
crud(u, 'Dashboards', 'Dashboard', 'dashboards', 'CreateDashboardRequest', 'UpdateDashboardRequest', None, same('x', 'q', 'tags name description') + ' && x.panels.cv(q.panels)', same('x', 'q', 'tags name description') + ' && x.panels.cv(q.panels)')
u.write()

# ---- reports and bookmarks: the query itself is opaque
OPQ = '#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }\n#[verifier::external_body] pub struct {F} { x: u8 }\n'
def queries(u):
    """common::…::EventSegmentationRequest / Funnel and the API's own forms, with an opaque conversion each way"""
    u.raw("""#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }
#[verifier::external_body] pub struct FunnelRequest { x: u8 }
""" + ''.join(f"""pub uninterp spec fn {n}(a: {a}, r: {b}) -> bool;
impl Conv<{b}> for {a} {{ open spec fn cv(self, r: {b}) -> bool {{ {n}(self, r) }} #[verifier::external_body] fn conv(self) -> (r: {b}) {{ unimplemented!() }} }}
""" for n, a, b in [('seg_in', 'EventSegmentationRequest', 'metadata::reports::EventSegmentationRequest'), ('seg_out', 'metadata::reports::EventSegmentationRequest', 'EventSegmentationRequest'), ('fun_in', 'FunnelRequest', 'metadata::reports::Funnel'), ('fun_out', 'metadata::reports::Funnel', 'FunnelRequest')]))
    u.mdmods.setdefault('reports', []).append('#[verifier::external_body] pub struct EventSegmentationRequest { x: u8 }\n#[verifier::external_body] pub struct Funnel { x: u8 }\n')
    for a, b in (('metadata::reports::Query', 'Query'), ('Query', 'metadata::reports::Query')):
        u.conv(a, b, f'From<{a}> for {b}', f'match (self, r) {{ ({a}::EventSegmentation(x), {b}::EventSegmentation(y)) => x.cv(y), ({a}::Funnel(x), {b}::Funnel(y)) => x.cv(y), _ => false }}', file='src/platform/src/reports.rs')
u = Unit('B_reports', 'reports'); M = 'metadata::reports::'
u.use = 'use crate::metadata::reports::Reports as MDReports;'
u.mditems('reports', ['Type', 'Query', 'Report', 'CreateReportRequest', 'UpdateReportRequest'])
u.items('Type', 'Query', 'Report', 'CreateReportRequest', 'UpdateReportRequest', 'Reports')
queries(u)
for a, b in (('metadata::reports::Type', 'Type'), ('Type', 'metadata::reports::Type')): u.conv(a, b, f'From<{a}> for {b}', enum2(a, b, [('EventSegmentation', 'EventSegmentation'), ('Funnel', 'Funnel')]))
u.conv(M + 'Report', 'Report', f'From<{M}Report> for Report', same('self', 'r', 'id created_at updated_at created_by updated_by project_id tags name description') + ' && self.typ.cv(r.typ) && self.query.cv(r.query)')
rq = same('x', 'q', 'tags name description') + ' && x.typ.cv(q.typ) && x.query.cv(q.query)'
crud(u, 'Reports', 'Report', 'reports', 'CreateReportRequest', 'UpdateReportRequest', None, rq, rq)
u.write()
u = Unit('B_bookmarks', 'bookmarks'); M = 'metadata::bookmarks::'
u.use = 'use crate::metadata::bookmarks::Bookmarks as MDBookmarks;'
u.mditems('reports', ['Query'])
u.mditems('bookmarks', ['Bookmark', 'CreateBookmarkRequest'], 'pub use crate::metadata::reports::Query;\n')
u.items('Bookmark', 'CreateBookmarkRequest', 'Bookmarks')
u.raw('//@item src/platform/src/reports.rs Query | vis=keep\n')
queries(u)
u.conv(M + 'Bookmark', 'Bookmark', f'From<{M}Bookmark> for Bookmark', same('self', 'r', 'id created_at created_by project_id') + ' && self.query.cv(r.query)')
g = 'may(project_id, ProjectPermission::ExploreReports)'
u.prov('bookmarks', 'Bookmarks', [('create', 'project_id: u64, req: CreateBookmarkRequest', 'Bookmark', CR, '(project_id, req)', g + ', req.created_by == caller().account_id'),
    ('get_by_id', 'project_id: u64, account_id: u64, id: &str', 'Bookmark', GET, '(project_id, account_id, id@)', g + ', account_id == caller().account_id')])
u.handler('Bookmarks', 'create', 'ctx,project_id,req', g, f'exists|q: {M}CreateBookmarkRequest, m: {M}Bookmark| #[trigger] did({CR}, (project_id, q), m) && q.created_by == caller().account_id && req.query.cv(q.query) && m.cv(r->Ok_0)',
    f'exists|q: {M}CreateBookmarkRequest| #[trigger] refused({CR}, (project_id, q)) && q.created_by == caller().account_id && req.query.cv(q.query)')
u.handler('Bookmarks', 'get', 'ctx,project_id,id', g, f'exists|m: {M}Bookmark| #[trigger] did({GET}, (project_id, caller().account_id, id@), m) && m.cv(r->Ok_0)', f'refused({GET}, (project_id, caller().account_id, id@))')
u.write()

# ---- groups
u = Unit('B_groups', 'groups'); M = 'metadata::groups::'
u.use = 'use crate::metadata::groups::Groups as MDGroups;'
u.mditems('groups', ['Group'])
u.items('Group', 'CreateGroupRequest', 'Groups')
u.raw('pub open spec fn shown(m: metadata::groups::Group, r: Group) -> bool { r.id == m.id && r.name == m.name }\n')
u.prov('groups', 'Groups', [('get_or_create_group', 'project_id: u64, name: String, display_name: String', 'Group', CR, '(project_id, name, display_name)', 'may(project_id, ProjectPermission::ManageSchema)'),
    ('list_groups', 'project_id: u64', 'metadata::ListResponse<Group>', LIST, 'project_id', 'may(project_id, ProjectPermission::ViewSchema)')])
u.rules = '//@rule crate :: Result =>> Result\n//@rule crate :: groups :: Group =>> Group\n//@rule meta : Default :: default ( ) =>> meta: ResponseMetadata { next: None }\n//@rule $x . name . clone ( ) =>> same_as(&$x.name)\n'
u.handler('Groups', 'create', 'ctx,project_id,req', sel='crate::groups::Groups', gate='may(project_id, ProjectPermission::ManageSchema)', ok=f'exists|m: {M}Group| #[trigger] did({CR}, (project_id, req.name, req.display_name), m) && shown(m, r->Ok_0)', bad=f'refused({CR}, (project_id, req.name, req.display_name))')
u.handler('Groups', 'list', 'ctx,project_id', sel='crate::groups::Groups', gate='may(project_id, ProjectPermission::ViewSchema)', ok=f'exists|m: metadata::metadata::ListResponse<{M}Group>| #[trigger] did({LIST}, project_id, m) && m.data@.len() == r->Ok_0.data@.len() && forall|i: int| 0 <= i < m.data@.len() ==> shown(#[trigger] m.data@[i], r->Ok_0.data@[i])', bad=f'refused({LIST}, project_id)',
    extra="""//@loop 0 iter=it
    invariant data@.len() == it.index@, it.seq().len() == resp.data@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == resp.data@[i],
        forall|i: int| 0 <= i < data@.len() ==> shown(#[trigger] resp.data@[i], data@[i]),
//@loopstart 0
    proof { assert(*it.seq()[it.index@ as int] == resp.data@[it.index@ as int]); }
""")
u.write()

# ---- schema: events, custom events, properties
def statuses(u, m):
    for a, b in ((f'metadata::{m}::Status', 'Status'), ('Status', f'metadata::{m}::Status')): u.conv(a, b, f'From<{a}> for {b}', enum2(a, b, [('Enabled', 'Enabled'), ('Disabled', 'Disabled')]))
def unchanged(u, mod, req, fields):
    u.mdmods.setdefault(mod, []).append(f'#[verifier::external_body] pub fn no_change() -> (r: {req}) ensures ' + ', '.join(f'r.{f} is None' for f in fields.split()) + ' { unimplemented!() }\n')
    u.use += f' use crate::metadata::{mod}::no_change;'
u = Unit('B_events', 'events'); M = 'metadata::events::'
u.use = 'use crate::metadata::events::Events as MDEvents;'
u.mditems('events', ['Status', 'Event', 'CreateEventRequest', 'UpdateEventRequest'])
u.items('Status', 'Event', 'CreateEventRequest', 'UpdateEventRequest', 'Events')
statuses(u, 'events'); unchanged(u, 'events', 'UpdateEventRequest', 'name is_system event_properties user_properties custom_properties')
ef = 'id created_at updated_at created_by updated_by project_id tags name display_name description is_system'
u.conv(M + 'Event', 'Event', f'Into<Event> for {M}Event', same('self', 'r', ef) + ' && self.status.cv(r.status) && r.event_properties == self.event_properties && r.user_properties == self.custom_properties', into=True)
crud(u, 'Events', 'Event', 'events', 'CreateEventRequest', 'UpdateEventRequest', None,
     same('x', 'q', 'tags name display_name description is_system') + ' && x.status.cv(q.status) && q.event_properties is None && q.user_properties is None && q.custom_properties is None',
     same('x', 'q', 'tags display_name description') + ' && x.status.cv(q.status) && q.name is None && q.is_system is None && q.event_properties is None && q.user_properties is None && q.custom_properties is None', get='ViewSchema', man='ManageSchema', dele='DeleteSchema')
MS = 'may(project_id, ProjectPermission::ManageSchema)'; VS = 'may(project_id, ProjectPermission::ViewSchema)'
o = u.mdmods['events']; o[-1] = o[-1].rstrip()[:-1]
for n, op in (('attach_event_property', 6), ('detach_event_property', 7)):
    o.append(f'    #[verifier::external_body] pub fn {n}(&self, project_id: u64, event_id: u64, prop_id: u64) -> (r: Result<Event>) requires {MS}, ensures r is Ok ==> did({op}, (project_id, event_id, prop_id), r->Ok_0), r is Err ==> refused({op}, (project_id, event_id, prop_id)) && !(r->Err_0 is Forbidden) {{ unimplemented!() }}\n')
o.append(f'    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Event>) requires {VS}, ensures r is Ok ==> did(8, (project_id, name@), r->Ok_0), r is Err ==> refused(8, (project_id, name@)) && !(r->Err_0 is Forbidden) {{ unimplemented!() }}\n}}\n')
for n, op in (('attach_property', 6), ('detach_property', 7)):
    u.handler('Events', n, 'ctx,project_id,event_id,prop_id', MS, f'exists|m: {M}Event| #[trigger] did({op}, (project_id, event_id, prop_id), m) && m.cv(r->Ok_0)', f'refused({op}, (project_id, event_id, prop_id))')
u.handler('Events', 'get_by_name', 'ctx,project_id,name', VS, f'exists|m: {M}Event| #[trigger] did(8, (project_id, name@), m) && m.cv(r->Ok_0)', 'refused(8, (project_id, name@))')
u.write()

u = Unit('B_custom_events', 'custom_events'); M = 'metadata::custom_events::'
u.use = 'use crate::metadata::custom_events::CustomEvents as MDCustomEvents;'
u.mditems('custom_events', ['Status', 'Event', 'CustomEvent', 'CreateCustomEventRequest', 'UpdateCustomEventRequest'])
u.items('Status', 'Event', 'CustomEvent', 'CreateCustomEventRequest', 'UpdateCustomEventRequest', 'CustomEvents')
statuses(u, 'custom_events'); unchanged(u, 'custom_events', 'UpdateCustomEventRequest', 'is_system events')
C = 'metadata::custom_events::'
L = 'src/platform/src/lib.rs'
u.rules = '//@rule common :: query =>> metadata::custom_events\n//@rule event . to_owned ( ) =>> event\n'
u.mdmods['custom_events'].insert(0, '//@item src/common/src/query.rs EventRef | vis=keep\n#[verifier::external_body] pub struct PropValueFilter { x: u8 }\n')
u.raw(f'//@item {L} EventRef | vis=keep\n#[verifier::external_body] pub struct PropValueFilter {{ x: u8 }}\n' + ''.join(f"""pub uninterp spec fn {n}(a: {a}, r: {b}) -> bool;
impl Conv<{b}> for {a} {{ open spec fn cv(self, r: {b}) -> bool {{ {n}(self, r) }} #[verifier::external_body] fn conv(self) -> (r: {b}) {{ unimplemented!() }} }}
""" for n, a, b in [('filter_in', 'PropValueFilter', C + 'PropValueFilter'), ('filter_out', C + 'PropValueFilter', 'PropValueFilter')]))
u.conv('EventRef', C + 'EventRef', 'From<EventRef> for common::query::EventRef', f'match self {{ EventRef::Regular {{ event_name }} => r == {C}EventRef::RegularName(event_name), EventRef::Custom {{ event_id }} => r == {C}EventRef::Custom(event_id) }}', file=L)
u.conv(C + 'EventRef', 'EventRef', 'Into<EventRef> for common::query::EventRef', f'match self {{ {C}EventRef::RegularName(n) => r == EventRef::Regular {{ event_name: n }}, {C}EventRef::Custom(i) => r == EventRef::Custom {{ event_id: i }}, _ => true }}', into=True, file=L, rules='//@rule unimplemented ! ( ) =>> panics()\n')
for a, b in (('Event', M + 'Event'), (M + 'Event', 'Event')): u.conv(a, b, f'Into<{b}> for {a}', 'self.event.cv(r.event) && self.filters.cv(r.filters)', into=True)
u.conv(M + 'CustomEvent', 'CustomEvent', f'Into<CustomEvent> for {M}CustomEvent', same('self', 'r', 'id created_at updated_at created_by updated_by project_id tags name description is_system') + ' && self.status.cv(r.status) && self.events.cv(r.events)', into=True)
crud(u, 'CustomEvents', 'CustomEvent', 'custom_events', 'CreateCustomEventRequest', 'UpdateCustomEventRequest', None,
     same('x', 'q', 'tags name description is_system') + ' && x.status.cv(q.status) && x.events.cv(q.events)',
     same('x', 'q', 'tags name description') + ' && x.status.cv(q.status) && x.events.cv(q.events) && q.is_system is None', get='ViewSchema', man='ManageSchema', dele='DeleteSchema')
u.write()

u = Unit('B_properties', 'properties'); M = 'metadata::properties::'
u.use = 'use crate::metadata::properties; use crate::query::properties::PropertiesProvider;'
u.root = 'pub mod types { use super::*;\n//@item src/common/src/types.rs DType | vis=keep\n}\npub use types::*;\n'
u.mdroot = '#[verifier::external_body] pub struct MetadataProvider { x: u8 }\n'
u.mditems('properties', ['Status', 'Type', 'DictionaryType', 'Property', 'UpdatePropertyRequest'])
u.items('Status', 'Type', 'DictionaryType', 'Property', 'UpdatePropertyRequest', 'Properties')
statuses(u, 'properties'); unchanged(u, 'properties', 'UpdatePropertyRequest', 'name typ data_type is_system nullable is_array')
u.use = u.use.replace('use crate::metadata::properties::no_change;', 'use crate::metadata::properties::no_change; use crate::metadata::MetadataProvider;')
u.rules = '//@rule Arc < metadata :: properties :: Properties > =>> metadata::properties::Properties\n//@rule validate_request =>> checked_request\n//@known validate_request\n'
u.conv('metadata::properties::DictionaryType', 'DictionaryType', 'Into<DictionaryType> for properties::DictionaryType', enum2(M + 'DictionaryType', 'DictionaryType', [(x, x) for x in ('Int8', 'Int16', 'Int32', 'Int64')]), into=True)
u.conv(M + 'Property', 'Property', f'Into<Property> for {M}Property', same('self', 'r', 'id created_at updated_at created_by updated_by project_id tags name display_name description order data_type hidden is_system nullable is_array is_dictionary') + ' && r.events is None && self.status.cv(r.status) && self.dictionary_type.cv(r.dictionary_type) && match self.typ { metadata::properties::Type::Event => r.typ == Type::Event && r.group_id is None, metadata::properties::Type::Group(g) => r.typ == Type::Group && r.group_id == Some(g) }', into=True)
crud(u, 'Properties', 'Property', 'properties', 'UpdatePropertyRequest', 'UpdatePropertyRequest', None, 'true',
     same('x', 'q', 'tags display_name description') + ' && x.status.cv(q.status) && ' + ' && '.join(f'q.{f} is None' for f in 'name typ data_type is_system nullable is_array is_dictionary dictionary_type'.split()), get='ViewSchema', man='ManageSchema', dele='DeleteSchema')
u.h = [x for x in u.h if 'Properties::create' not in x[1]]
u.pl = [x for x in u.pl if 'fn made(' not in x]
o = u.mdmods['properties']; o[-1] = re.sub(r'    #\[verifier::external_body\] pub fn create\((?:.|\n)*?unimplemented!\(\) \}\n', '', o[-1]).rstrip()[:-1]
o.append(f'    #[verifier::external_body] pub fn get_by_name(&self, project_id: u64, name: &str) -> (r: Result<Property>) requires {VS}, ensures r is Ok ==> did(8, (project_id, name@), r->Ok_0), r is Err ==> refused(8, (project_id, name@)) && !(r->Err_0 is Forbidden) {{ unimplemented!() }}\n}}\n')
u.handler('Properties', 'get_by_name', 'ctx,project_id,name', VS, f'exists|m: {M}Property| #[trigger] did(8, (project_id, name@), m) && m.cv(r->Ok_0)', 'refused(8, (project_id, name@))')
ER = 'may(project_id, ProjectPermission::ExploreReports)'
u.root += """pub mod query { use super::*; pub struct Context { pub project_id: u64 } impl Context { pub fn new(project_id: u64) -> (r: Context) ensures r.project_id == project_id { Context { project_id } } }
pub mod properties { use super::*; #[verifier::external_body] pub struct PropertyValues { x: u8 } #[verifier::external_body] pub struct Values { x: u8 } #[verifier::external_body] pub struct PropertiesProvider { x: u8 }
impl PropertiesProvider { #[verifier::external_body] pub fn values(&self, ctx: crate::query::Context, req: PropertyValues) -> (r: Result<Values>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, req), r->Ok_0), r is Err ==> refused(9, (ctx.project_id, req)) && !(r->Err_0 is Forbidden) { unimplemented!() } } } }
"""
u.raw(f"""#[verifier::external_body] pub struct ListPropertyValuesRequest {{ x: u8 }}
#[verifier::external_body] pub struct Value {{ x: u8 }}
pub uninterp spec fn values_in(a: ListPropertyValuesRequest, r: crate::query::properties::PropertyValues) -> bool;
pub uninterp spec fn values_out(a: crate::query::properties::Values, r: ListResponse<Value>) -> bool;
impl Conv<crate::query::properties::PropertyValues> for ListPropertyValuesRequest {{ open spec fn cv(self, r: crate::query::properties::PropertyValues) -> bool {{ values_in(self, r) }} #[verifier::external_body] fn conv(self) -> (r: crate::query::properties::PropertyValues) {{ unimplemented!() }} }}
impl Conv<ListResponse<Value>> for crate::query::properties::Values {{ open spec fn cv(self, r: ListResponse<Value>) -> bool {{ values_out(self, r) }} #[verifier::external_body] fn conv(self) -> (r: ListResponse<Value>) {{ unimplemented!() }} }}
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &ListPropertyValuesRequest) -> (r: Result<()>) requires {ER}, ensures r is Err ==> refused(10, (project_id, *req)) && !(r->Err_0 is Forbidden) {{ unimplemented!() }}
""")
u.handler('Properties', 'values', 'ctx,project_id,req', ER, 'exists|q: crate::query::properties::PropertyValues, m: crate::query::properties::Values| #[trigger] did(9, (project_id, q), m) && req.cv(q) && m.cv(r->Ok_0)',
    'refused(10, (project_id, req)) || exists|q: crate::query::properties::PropertyValues| #[trigger] refused(9, (project_id, q)) && req.cv(q)')
u.write()

# ---- server-wide: accounts, organizations, backups, settings
def simple(u, owner, fn, args, gate, op, key, res, bad=None, more=''):
    u.handler(owner, fn, args, gate, f'exists|m: {res}| #[trigger] did({op}, {key}, m) && ' + (more or 'm.cv(r->Ok_0)'), bad or f'refused({op}, {key})')
u = Unit('B_accounts', 'accounts'); M = 'metadata::accounts::'
u.use = 'use crate::metadata::accounts::Accounts as MDAccounts;'
u.mditems('accounts', ['Account', 'CreateAccountRequest', 'UpdateAccountRequest'])
u.items('Account', 'CreateAccountRequest', 'UpdateAccountRequest', 'Accounts')
unchanged(u, 'accounts', 'UpdateAccountRequest', 'password_hash force_update_password force_update_email')
u.root = """pub uninterp spec fn hash_of(h: String, password: Seq<char>) -> bool;
pub uninterp spec fn no_hash(password: Seq<char>) -> bool;
#[verifier::external_body] pub fn make_password_hash(password: &str) -> (r: Result<String>) ensures r is Ok ==> hash_of(r->Ok_0, password@), r is Err ==> no_hash(password@) && !(r->Err_0 is Forbidden) { unimplemented!() }
"""
af = 'id created_at created_by updated_at updated_by email name force_update_password force_update_email role organizations projects teams'
u.conv(M + 'Account', 'Account', f'Into<Account> for {M}Account', same('self', 'r', af), into=True)
G = 'server_ok(caller(), Permission::ManageAccounts)'
u.prov('accounts', 'Accounts', [('create', 'req: CreateAccountRequest', 'Account', CR, 'req', G + ', req.created_by == caller().account_id'), ('get_by_id', 'id: u64', 'Account', GET, 'id', G), ('list', '', 'metadata::ListResponse<Account>', LIST, '()', G),
    ('update', 'id: u64, req: UpdateAccountRequest', 'Account', UPD, '(id, req)', G + ', req.updated_by == caller().account_id'), ('delete', 'id: u64', 'Account', DEL, 'id', G)])
u.raw(f'pub open spec fn made(x: CreateAccountRequest, q: {M}CreateAccountRequest) -> bool {{ q.created_by == caller().account_id && hash_of(q.password_hash, x.password@) && ' + same('x', 'q', 'email name force_update_password force_update_email role organizations projects teams') + ' }\n'
    + f'pub open spec fn changed(x: UpdateAccountRequest, q: {M}UpdateAccountRequest) -> bool {{ q.updated_by == caller().account_id && ' + same('x', 'q', 'email name role organizations projects teams') + ' && x.force_update_password == q.force_update_password && q.force_update_email is None && match x.password { OptionalProperty::Some(p) => q.password_hash is Some && hash_of(q.password_hash->Some_0, p@), OptionalProperty::None => q.password_hash is None } }\n')
u.handler('Accounts', 'create', 'ctx,req', G, f'exists|q: {M}CreateAccountRequest, m: {M}Account| #[trigger] did({CR}, q, m) && made(req, q) && m.cv(r->Ok_0)', f'no_hash(req.password@) || exists|q: {M}CreateAccountRequest| #[trigger] refused({CR}, q) && made(req, q)')
simple(u, 'Accounts', 'get_by_id', 'ctx,id', G, GET, 'id', M + 'Account')
simple(u, 'Accounts', 'list', 'ctx', G, LIST, '()', f'metadata::metadata::ListResponse<{M}Account>', more='cv_list(m, r->Ok_0)')
u.handler('Accounts', 'update', 'ctx,id,req', G, f'exists|q: {M}UpdateAccountRequest, m: {M}Account| #[trigger] did({UPD}, (id, q), m) && changed(req, q) && m.cv(r->Ok_0)', f'(req.password is Some && no_hash(req.password->Some_0@)) || exists|q: {M}UpdateAccountRequest| #[trigger] refused({UPD}, (id, q)) && changed(req, q)')
simple(u, 'Accounts', 'delete', 'ctx,id', G, DEL, 'id', M + 'Account')
u.write()

u = Unit('B_organizations', 'organizations'); M = 'metadata::organizations::'
u.mdroot = 'pub struct MetadataProvider { pub organizations: organizations::Organizations }\n'; u.use = 'use crate::metadata::MetadataProvider;'
u.mditems('organizations', ['Organization', 'CreateOrganizationRequest', 'UpdateOrganizationRequest'])
u.items('Organization', 'CreateOrganizationRequest', 'UpdateOrganizationRequest', 'Organizations')
u.conv(M + 'Organization', 'Organization', f'From<{M}Organization> for crate::organizations::Organization', same('self', 'r', 'id created_at updated_at created_by updated_by name'))
G = 'server_ok(caller(), Permission::ManageOrganizations)'; GV = 'server_ok(caller(), Permission::ViewOrganizations)'
og = lambda i, q: f'may_org(caller(), {i}, OrganizationPermission::{q})'
u.prov('organizations', 'Organizations', [('create', 'req: CreateOrganizationRequest', 'Organization', CR, 'req', G + ', req.created_by == caller().account_id'), ('get_by_id', 'id: u64', 'Organization', GET, 'id', og('id', 'ViewOrganization')), ('list', '', 'metadata::ListResponse<Organization>', LIST, '()', GV),
    ('update', 'id: u64, req: UpdateOrganizationRequest', 'Organization', UPD, '(id, req)', og('id', 'ManageOrganization') + ', req.updated_by == caller().account_id'), ('delete', 'id: u64', 'Organization', DEL, 'id', G)])
def kept(fn, ty, recv, var, coll, n=''):
    """`recv.into_iter().filter(|v| e).collect()` as the loop it stands for"""
    return (f"//@rule {recv} . into_iter ( ) . filter ( | {var} | $$e ) . collect :: < Vec < _ >> ( ) =>> {{ let src_ = {coll}; let mut out_: Vec<{ty}> = Vec::new(); let mut k_: usize = 0; proof {{ reveal(Seq::filter); }} "
            f"while k_ < src_.len() invariant k_ <= src_@.len(), out_@ == src_@.take(k_ as int).filter({fn}) decreases src_@.len() - k_ "
            f"{{ let {var} = &src_[k_]; let keep_ = $e; proof {{ reveal(Seq::filter); assert(src_@.take(k_ + 1).drop_last() =~= src_@.take(k_ as int)); assert(src_@.take(k_ + 1).last() == src_@[k_ as int]); }} if keep_ {{ out_.push(same_as({var})); }} k_ += 1; }} proof {{ assert(src_@.take(k_ as int) =~= src_@); }} out_ }}\n").replace('< _ >> (', '< _ > > (')
u.raw(f'pub open spec fn seen() -> spec_fn({M}Organization) -> bool {{ |o_: {M}Organization| may_org(caller(), o_.id, OrganizationPermission::ViewOrganization) }}\n')
u.handler('Organizations', 'create', 'ctx,req', G, f'exists|q: {M}CreateOrganizationRequest, m: {M}Organization| #[trigger] did({CR}, q, m) && q.created_by == caller().account_id && q.name == req.name && m.cv(r->Ok_0)', f'exists|q: {M}CreateOrganizationRequest| #[trigger] refused({CR}, q) && q.created_by == caller().account_id && q.name == req.name')
simple(u, 'Organizations', 'get_by_id', 'ctx,id', og('id', 'ViewOrganization'), GET, 'id', M + 'Organization')
u.handler('Organizations', 'list', 'ctx', GV, f'exists|m: metadata::metadata::ListResponse<{M}Organization>| #[trigger] did({LIST}, (), m) && cv_all(m.data@.filter(seen()), r->Ok_0.data@) && r->Ok_0.meta.next == m.meta.next', f'refused({LIST}, ())',
    extra=kept('seen()', M + 'Organization', 'resp . data', 'o', 'resp.data'))
u.handler('Organizations', 'update', 'ctx,id,req', og('id', 'ManageOrganization'), f'exists|q: {M}UpdateOrganizationRequest, m: {M}Organization| #[trigger] did({UPD}, (id, q), m) && q.updated_by == caller().account_id && q.name == req.name && m.cv(r->Ok_0)', f'exists|q: {M}UpdateOrganizationRequest| #[trigger] refused({UPD}, (id, q)) && q.updated_by == caller().account_id && q.name == req.name')
simple(u, 'Organizations', 'delete', 'ctx,id', G, DEL, 'id', M + 'Organization')
u.write()

u = Unit('B_projects', 'projects'); M = 'metadata::projects::'
u.mdroot = 'pub struct MetadataProvider { pub projects: projects::Projects, pub dictionaries: dictionaries::Dictionaries }\n'; u.use = 'use crate::metadata::MetadataProvider;'
u.rules = """//@rule TABLE_EVENTS : & str =>> TABLE_EVENTS: &'static str
//@rule Alphanumeric . sample_string ( & mut thread_rng ( ) , 64 ) =>> random_token()
"""
u.mditems('projects', ['Project', 'CreateProjectRequest', 'UpdateProjectRequest'])
u.items('Project', 'CreateProjectRequest', 'UpdateProjectRequest', 'Projects')
u.root = """pub struct Seconds { pub n: i64 } impl Seconds { pub fn num_seconds(&self) -> (r: i64) ensures r == self.n { self.n } }
pub struct Misc { pub project_default_session_duration: Seconds } pub struct Config { pub misc: Misc }
#[verifier::external_body] pub fn random_token() -> String { unimplemented!() }
//@item src/common/src/lib.rs GROUPS_COUNT | vis=keep
//@item src/common/src/types.rs TABLE_EVENTS | vis=keep
pub uninterp spec fn group_table(g: usize) -> Seq<char>;
#[verifier::external_body] pub fn group_col(g: usize) -> (r: String) ensures r@ == group_table(g) { unimplemented!() }
pub uninterp spec fn initialised(p: u64) -> bool;
"""
u.conv(M + 'Project', 'Project', f'From<{M}Project> for Project', same('self', 'r', 'id created_at updated_at created_by updated_by tags name description session_duration_seconds events_count') + ' && r.sdk_token == self.token')
og = lambda q: f'may_org(caller(), caller().organization_id, OrganizationPermission::{q})'
pj = lambda i, q: f'may({i}, ProjectPermission::{q})'
u.prov('projects', 'Projects', [('create', 'req: CreateProjectRequest', 'Project', CR, 'req', og('ManageProjects') + ', req.created_by == caller().account_id, req.organization_id == caller().organization_id'), ('get_by_id', 'id: u64', 'Project', GET, 'id', pj('id', 'ViewProject')),
    ('list', '', 'metadata::ListResponse<Project>', LIST, '()', og('ExploreProjects')), ('update', 'project_id: u64, req: UpdateProjectRequest', 'Project', UPD, '(project_id, req)', pj('project_id', 'ManageProject') + ', req.updated_by == caller().account_id'), ('delete', 'id: u64', 'Project', DEL, 'id', pj('id', 'DeleteProject'))])
u.prov('dictionaries', 'Dictionaries', [('create_key', 'project_id: u64, table: &str, dict: &str, key: u64, value: &str', '()', 20, '(project_id, table@, dict@, key, value@)', 'true')])
u.raw(f"""#[verifier::external_body] pub fn make_ready(project_id: u64, md: &MetadataProvider) -> (r: Result<()>) ensures r is Ok ==> initialised(project_id), r is Err ==> !(r->Err_0 is Forbidden) {{ unimplemented!() }}
pub open spec fn key_at(m: {M}Project, table: Seq<char>) -> bool {{ did(20, (m.id, table, "project_id"@, m.id, m.name@), ()) }}
pub open spec fn group_keys(m: {M}Project, n: int) -> bool {{ forall|g: usize| #![trigger group_table(g)] 0 <= g < n ==> key_at(m, group_table(g)) }}
pub open spec fn keyed(m: {M}Project) -> bool {{ key_at(m, TABLE_EVENTS@) && group_keys(m, GROUPS_COUNT as int) }}
pub closed spec fn made(s: Projects, x: CreateProjectRequest, q: {M}CreateProjectRequest) -> bool {{ q.created_by == caller().account_id && q.organization_id == caller().organization_id && {same('x', 'q', 'tags name description')} && q.session_duration_seconds == (match x.session_duration_seconds {{ Some(n) => n, None => s.cfg.misc.project_default_session_duration.n as u64 }}) }}
pub open spec fn changed(x: UpdateProjectRequest, q: {M}UpdateProjectRequest) -> bool {{ q.updated_by == caller().account_id && {same('x', 'q', 'tags token name description session_duration_seconds')} }}
pub open spec fn seen() -> spec_fn({M}Project) -> bool {{ |o_: {M}Project| may(o_.id, ProjectPermission::ViewProject) }}
pub open spec fn own() -> spec_fn({M}Project) -> bool {{ |o_: {M}Project| o_.organization_id == caller().organization_id }}
""")
u.rules += '//@rule init_project =>> make_ready\n//@known init_project\n'
ln = """//@loop 0
    invariant 0 <= g <= GROUPS_COUNT, group_keys(project, g as int), CALL
""".replace('0 <= g <= GROUPS_COUNT, group_keys(project, g as int), CALL', 'group_keys(project, g as int),')
u.handler('Projects', 'create', 'ctx,req', og('ManageProjects'), f'exists|q: {M}CreateProjectRequest, m: {M}Project| #[trigger] did({CR}, q, m) && made(*self, req, q) && keyed(m) && initialised(m.id) && m.cv(r->Ok_0)', '!forbidden(r)', extra=ln)
simple(u, 'Projects', 'get_by_id', 'ctx,id', pj('id', 'ViewProject'), GET, 'id', M + 'Project')
two = (kept('own()', M + 'Project', 'resp . data', 'p', 'resp.data') + kept('seen()', M + 'Project', 'list', 'p', 'list'))
u.handler('Projects', 'list', 'ctx', og('ExploreProjects'), f'exists|m: metadata::metadata::ListResponse<{M}Project>| #[trigger] did({LIST}, (), m) && cv_all(m.data@.filter(own()).filter(seen()), r->Ok_0.data@) && r->Ok_0.meta.next == m.meta.next', f'refused({LIST}, ())', extra=two)
u.handler('Projects', 'update', 'ctx,project_id,req', pj('project_id', 'ManageProject'), f'exists|q: {M}UpdateProjectRequest, m: {M}Project| #[trigger] did({UPD}, (project_id, q), m) && changed(req, q) && keyed(m) && m.cv(r->Ok_0)', '!forbidden(r)', extra=ln)
simple(u, 'Projects', 'delete', 'ctx,project_id', pj('project_id', 'DeleteProject'), DEL, 'project_id', M + 'Project')
u.write()

u = Unit('B_backups', 'backups'); M = 'metadata::backups::'
u.mdroot = 'pub struct MetadataProvider { pub backups: backups::Backups, pub settings: settings::SettingsProvider }\n'; u.use = 'use crate::metadata::MetadataProvider; use crate::metadata::backups; use crate::metadata::backups::CreateBackupRequest;'
G = 'server_ok(caller(), Permission::ManageServer)'
u.root = '#[verifier::external_body] pub struct PathBuf { x: u8 }\n'
u.rules = '//@rule $x . status . clone ( ) =>> same_as(&$x.status)\n'
u.mditems('settings', ['BackupProvider', 'BackupScheduleInterval', 'Settings'])
u.prov('settings', 'SettingsProvider', [('load', '', 'Settings', 21, '()', G)])
u.mditems('backups', ['S3Provider', 'GCPProvider', 'Provider', 'Status', 'Backup', 'CreateBackupRequest'], """pub uninterp spec fn from_set(s: metadata::settings::Settings, q: CreateBackupRequest) -> bool;
impl CreateBackupRequest { #[verifier::external_body] pub fn from_settings(settings: &crate::metadata::settings::Settings) -> (r: CreateBackupRequest) ensures from_set(*settings, r) { unimplemented!() } }
""".replace('s: metadata::settings', 's: crate::metadata::settings'))
u.prov('backups', 'Backups', [('create', 'req: CreateBackupRequest', 'Backup', CR, 'req', G), ('get_by_id', 'id: u64', 'Backup', GET, 'id', G), ('list', '', 'metadata::ListResponse<Backup>', LIST, '()', G)])
u.items('LocalProvider', 'S3Provider', 'GCPProvider', 'Provider', 'Status', 'Backup', 'Backups')
u.conv(M + 'Backup', 'Backup', f'From<{M}Backup> for Backup', same('self', 'r', 'id created_at updated_at is_encrypted') + f""" && match self.provider {{ {M}Provider::Local(p) => r.provider == Provider::Local(LocalProvider {{ path: p }}), {M}Provider::S3(p) => r.provider == Provider::S3(S3Provider {{ bucket: p.bucket, path: p.path, region: p.region }}), {M}Provider::GCP(p) => r.provider == Provider::Gcp(GCPProvider {{ bucket: p.bucket, path: p.path }}) }}
  && match self.status {{ {M}Status::Idle => r.status == Status::Idle, {M}Status::InProgress(_) => r.status == Status::InProgress, {M}Status::Uploading => r.status == Status::Uploading, {M}Status::Failed(_) => r.status == Status::Failed, {M}Status::Completed => r.status == Status::Completed }}
  && r.in_progress_progress == (match self.status {{ {M}Status::InProgress(p) => Some(p), _ => None }}) && r.failed_error == (match self.status {{ {M}Status::Failed(e) => Some(e), _ => None }})""")
S = 'metadata::settings::Settings'
u.handler('Backups', 'backup', 'ctx', G, f'exists|s: {S}, q: {M}CreateBackupRequest, m: {M}Backup| #[trigger] did(21, (), s) && s.backup_enabled && {M}from_set(s, q) && #[trigger] did({CR}, q, m) && m.cv(r->Ok_0)', f'!forbidden(r) || exists|s: {S}| #[trigger] did(21, (), s) && !s.backup_enabled')
simple(u, 'Backups', 'get_by_id', 'ctx,id', G, GET, 'id', M + 'Backup')
simple(u, 'Backups', 'list', 'ctx', G, LIST, '()', f'metadata::metadata::ListResponse<{M}Backup>', more='cv_list(m, r->Ok_0)')
u.write()

u = Unit('B_settings', 'settings'); M = 'metadata::settings::'
u.mditems('settings', ['BackupProvider', 'BackupScheduleInterval', 'Settings'])
u.prov('settings', 'SettingsProvider', [('load', '', 'Settings', 21, '()', G), ('save', 'settings: &Settings', '()', 22, '*settings', G)])
u.items('BackupProvider', 'BackupScheduleInterval', 'Settings', 'SettingsProvider')
u.rules = '//@rule Arc < metadata :: settings :: SettingsProvider > =>> metadata::settings::SettingsProvider\n//@rule if let Some ( $v ) = req . $f { settings . $g = $v ; } =>> settings.$g = given_or(req.$f, settings.$g);\n'
u.root = '// `if let Some(v) = new { old = v }`\npub fn given_or<T>(new: Option<T>, old: T) -> (r: T) ensures r == (match new { Some(v) => v, None => old }) { if let Some(v) = new { v } else { old } }\n'
for a, b in ((M + 'BackupProvider', 'BackupProvider'),): u.raw(f'pub open spec fn prov_of(a: {a}, b: {b}) -> bool {{ match a {{ {a}::Local => b == {b}::Local, {a}::S3 => b == {b}::S3, {a}::GCP => b == {b}::Gcp }} }}\n')
plain = 'backup_enabled backup_encryption_enabled backup_compression_enabled backup_provider_s3_bucket backup_provider_s3_path backup_provider_s3_region backup_provider_s3_access_key backup_provider_gcp_bucket backup_provider_gcp_path backup_schedule_start_hour'.split()
secret = 'auth_access_token auth_refresh_token auth_admin_default_password backup_encryption_password backup_provider_s3_secret_key backup_provider_gcp_key'.split()
setting = 'auth_access_token auth_refresh_token backup_enabled backup_encryption_enabled backup_encryption_password backup_compression_enabled backup_provider_s3_bucket backup_provider_s3_path backup_provider_s3_region backup_provider_s3_access_key backup_provider_s3_secret_key backup_provider_gcp_bucket backup_provider_gcp_path'.split()
other = 'auth_admin_default_password backup_provider_gcp_key backup_schedule_start_hour'.split()
u.raw('// what an administrator reads back: every plain setting, no secret\npub open spec fn shown(s: ' + M + 'Settings, r: Settings) -> bool { ' + ' && '.join(f'r.{f} == Some(s.{f})' for f in plain) + ' && ' + ' && '.join(f'r.{f} is None' for f in secret)
    + ' && r.backup_provider is Some && prov_of(s.backup_provider, r.backup_provider->0) && match s.backup_schedule_interval { ' + ', '.join(f'{M}BackupScheduleInterval::{x} => r.backup_schedule_interval == Some(BackupScheduleInterval::{x})' for x in ('Hourly', 'Daily', 'Weekly', 'Monthly', 'Yearly')) + ' } }\n')
u.raw('// a change request: a named setting takes the given value, every other keeps the stored one\npub open spec fn merged(x: Settings, a: ' + M + 'Settings, b: ' + M + 'Settings) -> bool { ' + ' && '.join(f'b.{f} == (match x.{f} {{ Some(v) => v, None => a.{f} }})' for f in setting)
    + ' && (match x.backup_provider { Some(v) => prov_of(b.backup_provider, v), None => b.backup_provider == a.backup_provider }) && b.backup_provider_local_path == a.backup_provider_local_path && (x.backup_schedule_interval is None ==> b.backup_schedule_interval == a.backup_schedule_interval) && ' + ' && '.join(f'(x.{f} is None ==> b.{f} == a.{f})' for f in other) + ' }\n')
u.raw(f'pub open spec fn kept_as(x: Settings, b: {M}Settings) -> bool {{ exists|a: {M}Settings| #[trigger] did(21, (), a) && merged(x, a, b) }}\n')
u.handler('SettingsProvider', 'set', 'ctx,req', G, f'(exists|b: {M}Settings| kept_as(req, b) && #[trigger] did(22, b, ())) && exists|c: {M}Settings| #[trigger] did(21, (), c) && shown(c, r->Ok_0)', '!forbidden(r)')
u.handler('SettingsProvider', 'get', 'ctx', G, f'exists|c: {M}Settings| #[trigger] did(21, (), c) && shown(c, r->Ok_0)', '!forbidden(r)')
u.write()

def query_unit(name, mod, owner, provty, provmod, fns, reqs, fix, valid, extra_items='', search_res='DataTable', rules=''):
    u = Unit(name, mod)
    u.mdroot = '#[verifier::external_body] pub struct MetadataProvider { x: u8 }\n'
    u.use = f'use crate::metadata::MetadataProvider; use crate::query::Format; use crate::query::{provmod}; use crate::query::{provmod}::*;'
    u.rules = """//@rule dbg ! ( $$e ) ; =>>
//@rule DateTime :: from_timestamp_millis ( $$e ) . unwrap ( ) =>> moment()
//@rule Utc :: now ( ) =>> moment()
""" + rules + ''.join(f'//@rule {v} =>> checked_request\n//@known {v}\n' for v in valid)
    t = """#[verifier::external_body] pub fn moment() -> Instant { unimplemented!() }
pub mod query { use super::*; //@item src/query/src/context.rs Format | vis=keep
pub struct Context { pub project_id: u64, pub format: Format, pub cur_time: Instant }
#[verifier::external_body] pub struct Cells { x: u8 } impl Cells { #[verifier::external_body] pub fn is_empty(&self) -> bool { unimplemented!() } }
pub struct Column { pub data: Cells } pub struct DataTable { pub columns: Vec<Column> }
""".replace('//@item src/query/src/context.rs Format | vis=keep\n', '\n//@item src/query/src/context.rs Format | vis=keep\n')
    t += f'pub mod {provmod} {{ use super::*;\n#[verifier::external_body] pub struct {provty} {{ x: u8 }}\n' + ''.join(f'#[verifier::external_body] pub struct {x} {{ x: u8 }}\n' for x in reqs) + f'impl {provty} {{\n'
    for n, args, key, res in fns:
        t += f'    #[verifier::external_body] pub fn {n}(&self, ctx: crate::query::Context, {args}) -> (r: Result<{res}>) requires may(ctx.project_id, ProjectPermission::ExploreReports), ensures r is Ok ==> did(9, (ctx.project_id, ctx.format, {key}), r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) {{ unimplemented!() }}\n'
    t += '}\n} }\n'
    t += '//@item src/platform/src/lib.rs QueryResponseFormat | vis=keep\n//@item src/platform/src/lib.rs QueryParams | vis=keep\n'
    t += """#[verifier::external_body] pub struct QueryResponse { x: u8 }
impl QueryResponse { #[verifier::external_body] pub fn columns_to_json(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } #[verifier::external_body] pub fn columns_to_json_compact(columns: Vec<query::Column>) -> (r: Result<QueryResponse>) ensures r is Err ==> !(r->Err_0 is Forbidden) { unimplemented!() } }
// the answer's shape follows the format asked for
pub open spec fn fmt(q: QueryParams) -> query::Format { match q.format { Some(QueryResponseFormat::JsonCompact) => query::Format::Compact, _ => query::Format::Regular } }
"""
    u.root = t
    return u
ER = 'may(project_id, ProjectPermission::ExploreReports)'
def qreq(u, plat, qry, mod, fix):
    u.raw(f"""#[verifier::external_body] pub struct {plat} {{ x: u8 }}
pub uninterp spec fn asked(a: {plat}, r: crate::query::{mod}::{qry}) -> bool;
pub uninterp spec fn fixed(p: u64, a: crate::query::{mod}::{qry}, r: crate::query::{mod}::{qry}) -> bool;
impl Conv<crate::query::{mod}::{qry}> for {plat} {{ open spec fn cv(self, r: crate::query::{mod}::{qry}) -> bool {{ asked(self, r) }} #[verifier::external_body] fn conv(self) -> (r: crate::query::{mod}::{qry}) {{ unimplemented!() }} }}
#[verifier::external_body] pub fn {fix}(md: &MetadataProvider, project_id: u64, req: crate::query::{mod}::{qry}) -> (r: Result<crate::query::{mod}::{qry}>) requires {ER}, ensures r is Ok ==> fixed(project_id, req, r->Ok_0), r is Err ==> !(r->Err_0 is Forbidden) {{ unimplemented!() }}
#[verifier::external_body] pub fn checked_request(md: &MetadataProvider, project_id: u64, req: &{plat}) -> (r: Result<()>) requires {ER}, ensures r is Err ==> !(r->Err_0 is Forbidden) {{ unimplemented!() }}
""")
def record(u, plat, qry, mod):
    u.raw(f"""#[verifier::external_body] pub struct {plat} {{ x: u8 }}
pub uninterp spec fn shown(a: crate::query::{mod}::{qry}, r: {plat}) -> bool;
impl Conv<{plat}> for crate::query::{mod}::{qry} {{ open spec fn cv(self, r: {plat}) -> bool {{ shown(self, r) }} #[verifier::external_body] fn conv(self) -> (r: {plat}) {{ unimplemented!() }} }}
""")
ranq = lambda Q, res: f'exists|a: {Q}, q: {Q}, m: {res}| req.cv(a) && #[trigger] fixed(project_id, a, q) && #[trigger] did(9, (project_id, fmt(query), q), m)'
for nm, grp in (('event', False), ('group', True)):
    mod = nm + '_records'; cap = nm.capitalize(); Q = f'crate::query::{mod}::{cap}RecordsSearchRequest'
    u = query_unit('B_' + mod, mod, cap + 'Records', ('GroupRecordsProvider' if grp else 'Provider'), mod,
        [('search', f'req: {cap}RecordsSearchRequest', 'req', 'DataTable'), ('get_by_id', 'group_id: usize, id: String' if grp else 'id: u64', '(group_id, id)' if grp else 'id', cap + 'Record')],
        [cap + 'RecordsSearchRequest', cap + 'Record'], 'fix_search_request', ['validate_search_request'], rules='//@rule Arc < event_records :: EventRecordsProvider > =>> event_records::Provider\n//@rule Arc < query :: event_records :: EventRecordsProvider > =>> event_records::Provider\n')
    u.items(cap + 'Records')
    u.use = u.use.replace(f' use crate::query::{mod}::*;', ' use crate::query::group_records::GroupRecordsProvider;' if grp else '')
    qreq(u, cap + 'RecordsSearchRequest', cap + 'RecordsSearchRequest', mod, 'fix_search_request'); record(u, cap + 'Record', cap + 'Record', mod)
    u.handler(cap + 'Records', 'search', 'ctx,project_id,req,query', ER, ranq(Q, 'crate::query::DataTable'), '!forbidden(r)')
    u.handler(cap + 'Records', 'get_by_id', 'ctx,project_id,group_id,id' if grp else 'ctx,project_id,id', ER, f'exists|m: crate::query::{mod}::{cap}Record| #[trigger] did(9, (project_id, crate::query::Format::Regular, {"(group_id, id)" if grp else "id"}), m) && m.cv(r->Ok_0)', '!forbidden(r)')
    u.write()
u = query_unit('B_segmentation', 'event_segmentation', 'EventSegmentation', 'EventSegmentationProvider', 'event_segmentation', [('event_segmentation', 'req: EventSegmentation', 'req', 'DataTable')], ['EventSegmentation'], 'fix_request', ['validate_request'])
u.use = u.use.replace(' use crate::query::event_segmentation::*;', ' use crate::query::event_segmentation::EventSegmentationProvider;')
u.items('EventSegmentation'); qreq(u, 'EventSegmentationRequest', 'EventSegmentation', 'event_segmentation', 'fix_request')
u.handler('EventSegmentation', 'event_segmentation', 'ctx,project_id,req,query', ER, ranq('crate::query::event_segmentation::EventSegmentation', 'crate::query::DataTable'), '!forbidden(r)')
u.write()

u = query_unit('B_funnel', 'funnel', 'Funnel', 'FunnelProvider', 'funnel', [('funnel', 'req: Funnel', 'req', 'Answer')], ['Funnel', 'Steps'], 'fix_request', ['validate_request'], rules="//@rule qdata . steps . iter ( ) . map ( | step | $$e ) . collect :: < Vec < _ > > ( ) =>> same_steps(&qdata.steps)\n//@rule qdata . groups =>> qdata.groups\n")
u.root = u.root.replace('impl FunnelProvider {', 'pub struct Answer { pub groups: Vec<String>, pub steps: Steps }\nimpl FunnelProvider {')
u.use = u.use.replace(' use crate::query::funnel::*;', ' use crate::query::funnel::FunnelProvider;')
u.items('Funnel'); qreq(u, 'FunnelRequest', 'Funnel', 'funnel', 'fix_request')
u.raw("""#[verifier::external_body] pub struct FunnelSteps { x: u8 } pub struct FunnelResponse { pub groups: Vec<String>, pub steps: FunnelSteps }
pub uninterp spec fn step_rows(a: crate::query::funnel::Steps, b: FunnelSteps) -> bool;
#[verifier::external_body] pub fn same_steps(a: &crate::query::funnel::Steps) -> (r: FunnelSteps) ensures step_rows(*a, r) { unimplemented!() }
""")
Q = 'crate::query::funnel::Funnel'
u.handler('Funnel', 'funnel', 'ctx,project_id,req,query', ER, f'exists|a: {Q}, q: {Q}, m: crate::query::funnel::Answer| req.cv(a) && #[trigger] fixed(project_id, a, q) && #[trigger] did(9, (project_id, fmt(query), q), m) && m.groups == r->Ok_0.groups && step_rows(m.steps, r->Ok_0.steps)', '!forbidden(r)')
u.write()
