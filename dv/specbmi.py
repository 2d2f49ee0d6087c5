"""Contracts of the model update (bmi_lgar.cxx): water balance (C01), totals and outputs (C02), clock (C18), exported arrays (C19)."""
import os, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
from execu import LCell, Obl
from lists import GList
from loops import Cand, consts_of
from specsurf import deref

S = ('this', 'state')
P_ = S + ('lgar_bmi_params',)
MB = S + ('lgar_mass_balance',)
IN = S + ('lgar_bmi_input_params',)
UC = ('this', 'bmi_unit_conv')
AI, AR, AB = ArraySort(I, I), ArraySort(I, R), ArraySort(I, B)
# defined predicates over a list and the front fields; each stands for the clauses proved/assumed in speclist and speclgar
WF = Function('WF', I, I, I, AI, AI, AI, AB, AI, AI, B)
PROF = Function('PROFILE', I, AI, AR, AR, AR, AI, AR, AI, B)
STOR = Function('STORAGE', I, AI, AR, AR, AI, AR, R)
COPY = Function('COPYOF', I, AI, I, AI, AR, AR, AR, AI, B)
WFD = Function('TAKES_WATER', I, I, AI, AI, B)
TWF = ('depth_cm', 'theta', 'psi_cm', 'K_cm_per_h', 'layer_num', 'front_num', 'to_bottom', 'dzdt_cm_per_h', 'next', 'alloc', 'own')


class M:
    """views of the model state"""

    def __init__(self, ex):
        self.ex = ex
        q = 'wetting_front *'
        self.H = GList('H', 1, LCell(S + ('head',), q))
        self.Q = GList('Q', 2, LCell(S + ('state_previous',), q))
        ex.lists = [self.H, self.Q]

    def cell(self, st, key, qt='double'):
        rec = {P_: 'lgar_bmi_parameters', MB: 'lgar_mass_balance_variables', IN: 'lgar_bmi_input_parameters', S: 'model_state',
               S + ('units',): 'unit_conversion', ('this',): 'BmiLGAR', S + ('lgar_calib_params',): 'lgar_calib_parameters'}.get(key[:-1])
        if rec:
            qt = self.ex.fields(rec)[key[-1]]
        return self.ex.load(st, LCell(key, qt))

    def num(self, st, key):
        return real(self.cell(st, key))

    def reg(self, st, f, kind='real'):
        p = self.cell(st, P_ + (f,))
        return self.ex.arr(st, p.region, kind)

    def h(self, st, f):
        return self.ex.heap(st, f)

    def wf(self, st, L):
        return WF(L.lid, L.head(self.ex, st), L.len(self.ex, st), L.seq(self.ex, st), L.idx(self.ex, st), self.h(st, 'next'), self.h(st, 'alloc'), self.h(st, 'own'), self.h(st, 'front_num'))

    def prof(self, st):
        L = self.H
        return PROF(L.len(self.ex, st), L.seq(self.ex, st), self.h(st, 'depth_cm'), self.h(st, 'theta'), self.h(st, 'psi_cm'), self.h(st, 'layer_num'),
                    self.reg(st, 'cum_layer_thickness_cm'), self.reg(st, 'layer_soil_type', 'int'))

    def stor(self, st):
        L = self.H
        return STOR(L.len(self.ex, st), L.seq(self.ex, st), self.h(st, 'depth_cm'), self.h(st, 'theta'), self.h(st, 'layer_num'), self.reg(st, 'cum_layer_thickness_cm'))

    def copyof(self, st):
        L, Q = self.H, self.Q
        return COPY(L.len(self.ex, st), L.seq(self.ex, st), Q.len(self.ex, st), Q.seq(self.ex, st), self.h(st, 'depth_cm'), self.h(st, 'theta'), self.h(st, 'psi_cm'), self.h(st, 'layer_num'))

    def wfd(self, st, r):
        return WFD(r, self.H.len(self.ex, st), self.H.seq(self.ex, st), self.h(st, 'layer_num'))

    def ghost(self, st, n):
        return st.cells[('gh', n)]

    def add(self, st, n, x):
        st.cells[('gh', n)] = st.cells[('gh', n)] + x


def need(ex, st, f, what, e):
    if not ex.lite:
        ex.oblige(st, f, what, 'pre', e)


def need_all(ex, st, m, what, e):
    need(ex, st, m.wf(st, m.H), '%s: the front list is well formed' % what, e)
    need(ex, st, m.prof(st), '%s: the profile is valid' % what, e)
    need(ex, st, m.H.len(ex, st) >= 1, '%s: there is a front' % what, e)


def own_args(ex, st, m, what, e, **kw):
    """the call is given the model's own arrays"""
    want = {'stype': P_ + ('layer_soil_type',), 'cum': P_ + ('cum_layer_thickness_cm',), 'ff': P_ + ('frozen_factor',)}
    for k, p in kw.items():
        if k == 'sp':
            ok = isinstance(p, ArrPtr) and same(p, m.cell(st, S + ('soil_properties',)))
        elif k == 'pp':
            ok = isinstance(p, CellPtr) and p.key == S + ('head',)
        else:
            ok = isinstance(p, ArrPtr) and same(p, m.cell(st, want[k]))
        if not ok:
            need(ex, st, BoolVal(False), '%s: is given the model\'s own %s' % (what, k), e)


def is_head(ex, st, m, p, what, e):
    need(ex, st, p == m.H.head(ex, st), '%s: works on the current profile' % what, e)


def havoc_list(ex, st, L):
    L.set(ex, st, fresh('seq', AI), fresh('idx', AI), fresh('len', I))
    ex.store(st, L.headlv, fresh('head', I))


def contracts(ex, m):
    C = {}
    names = lambda argn, st: [ex.ev(a, st) for a in argn]

    def demand(st):
        return If(m.num(st, IN + ('PET_mm_per_h',)) > 0, real(st.cells[('gh', 'demand')]), RealVal(0))

    def drive(what, st, cf, nint, e):
        need(ex, st, And(as_bool(cf) == as_bool(m.cell(st, P_ + ('use_closed_form_G',))), as_int(nint) == m.cell(st, P_ + ('nint',))), '%s: is given the configured form of the capillary drive' % what, e)

    def c_mass(ex, st, argn, e):
        c, h = names(argn, st)
        own_args(ex, st, m, 'lgar_calc_mass_bal', e, cum=c)
        is_head(ex, st, m, h, 'lgar_calc_mass_bal', e)
        need_all(ex, st, m, 'lgar_calc_mass_bal', e)
        return m.stor(st)

    def c_aet(ex, st, argn, e):
        pet, dt, wp, fc, ty, th, xp, h, sp = names(argn, st)
        own_args(ex, st, m, 'calc_aet', e, stype=ty, sp=sp)
        is_head(ex, st, m, h, 'calc_aet', e)
        need_all(ex, st, m, 'calc_aet', e)
        need(ex, st, real(pet) == m.num(st, IN + ('PET_mm_per_h',)) / 10, 'calc_aet: is given the PET rate in cm/h', e)
        need(ex, st, And(real(dt) == m.num(st, P_ + ('timestep_h',)), real(dt) > 0), 'calc_aet: is given the sub-step length', e)
        need(ex, st, And(real(wp) == m.num(st, P_ + ('wilting_point_psi_cm',)), real(fc) == m.num(st, P_ + ('field_capacity_psi_cm',))), 'calc_aet: is given wilting point and field capacity', e)
        r = fresh('aet', R)
        st.facts.append(And(r >= 0, r <= real(pet) * real(dt)))
        st.cells[('gh', 'demand')] = r
        return r

    def c_wfd(ex, st, argn, e):
        h, = names(argn, st)
        is_head(ex, st, m, h, 'wetting_front_free_drainage', e)
        need_all(ex, st, m, 'wetting_front_free_drainage', e)
        r = fresh('wfd', I)
        st.facts += [r >= 1, r <= m.H.len(ex, st), m.wfd(st, r)]
        return r

    def c_move(ex, st, argn, e):
        dt, vin, wfd, mass, nl, aet, cum, ty, ff, pp, prev, sp = names(argn, st)
        own_args(ex, st, m, 'lgar_move_wetting_fronts', e, cum=cum, stype=ty, ff=ff, sp=sp, pp=pp)
        need_all(ex, st, m, 'lgar_move_wetting_fronts', e)
        need(ex, st, And(prev == m.Q.head(ex, st), m.wf(st, m.Q), m.copyof(st)), 'lgar_move_wetting_fronts: the previous state is a copy of the current profile', e)
        need(ex, st, real(mass) == m.stor(st), 'lgar_move_wetting_fronts: is given the storage of the profile', e)
        need(ex, st, m.wfd(st, as_int(wfd)), 'lgar_move_wetting_fronts: is given the front that takes the water', e)
        need(ex, st, And(real(dt) == m.num(st, P_ + ('timestep_h',)), as_int(nl) == m.cell(st, P_ + ('num_layers',))), 'lgar_move_wetting_fronts: is given the sub-step length and the number of layers', e)
        need(ex, st, deref(ex, st, aet) == demand(st), 'C05 the ET taken from the soil is the one calc_aet gave', e)
        for f in TWF:
            SL.havoc_field(ex, st, f)
        havoc_list(ex, st, m.H)
        for p, g in ((vin, 'rech'), (aet, 'aet')):
            x = fresh(g, R)
            ex.store(st, ex.ptr_at(p, IntVal(0)), x)
            m.add(st, g, x)
        st.facts += [m.wf(st, m.H), m.wf(st, m.Q), m.prof(st), m.H.len(ex, st) >= 1]
        ex.assumed.add('lgar_move_wetting_fronts re-establishes the structural clauses of a valid profile: depths ordered, layers in order, boundary fronts (assumed; that it keeps the list well formed, moistures and heads in range and the previous state untouched is proved under C13)')

    def c_insert(ex, st, argn, e):
        cf, nint, dt, aet, pond, vin, rain, wfd, nl, pmax, ty, cum, ff, h, sp = names(argn, st)
        need(ex, st, real(aet) == demand(st), 'C05 the ET demand at infiltration is the one calc_aet gave', e)
        drive('lgar_insert_water', st, cf, nint, e)
        own_args(ex, st, m, 'lgar_insert_water', e, stype=ty, cum=cum, ff=ff, sp=sp)
        is_head(ex, st, m, h, 'lgar_insert_water', e)
        need_all(ex, st, m, 'lgar_insert_water', e)
        need(ex, st, m.wfd(st, as_int(wfd)), 'lgar_insert_water: is given the front that takes the water', e)
        p0 = deref(ex, st, pond)
        need(ex, st, And(real(dt) == m.num(st, P_ + ('timestep_h',)), real(dt) > 0, real(aet) >= 0, real(rain) >= 0, p0 >= 0, as_int(nl) == m.cell(st, P_ + ('num_layers',))), 'lgar_insert_water: arguments in range', e)
        need(ex, st, real(pmax) == m.num(st, P_ + ('ponded_depth_max_cm',)), 'lgar_insert_water: is given the configured ponding limit', e)
        need(ex, st, real(rain) == m.num(st, IN + ('precipitation_mm_per_h',)) / 10, 'lgar_insert_water: is given the rain rate in cm/h', e)
        vi, p1, r = fresh('vi', R), fresh('p1', R), fresh('r', R)
        pm = real(pmax)
        st.facts += [p0 == vi + p1 + r, r >= 0, p1 >= 0, vi <= p0, Implies(pm >= 0, p1 <= pm), Implies(And(pm >= 0, r > 0), p1 == pm), Implies(pm <= 0, p1 == 0)]
        ex.store(st, ex.ptr_at(pond, IntVal(0)), p1)
        ex.store(st, ex.ptr_at(vin, IntVal(0)), vi)
        m.add(st, 'in', vi)
        return r

    def c_dry(ex, st, argn, e):
        cf, nint, dt, dth, ty, cum, ff, h, sp = names(argn, st)
        own_args(ex, st, m, 'lgar_calc_dry_depth', e, stype=ty, cum=cum, ff=ff, sp=sp)
        is_head(ex, st, m, h, 'lgar_calc_dry_depth', e)
        need_all(ex, st, m, 'lgar_calc_dry_depth', e)
        need(ex, st, And(real(dt) == m.num(st, P_ + ('timestep_h',)), real(dt) > 0), 'lgar_calc_dry_depth: is given the sub-step length', e)
        drive('lgar_calc_dry_depth', st, cf, nint, e)
        ex.store(st, ex.ptr_at(dth, IntVal(0)), fresh('dth', R))
        r = fresh('dry', R)
        st.facts.append(r >= 0)
        return r

    def c_create(ex, st, argn, e):
        nl, pond, vin, dry, th, ty, cum, ff, pp, sp = names(argn, st)
        own_args(ex, st, m, 'lgar_create_surficial_front', e, stype=ty, cum=cum, ff=ff, sp=sp, pp=pp)
        need_all(ex, st, m, 'lgar_create_surficial_front', e)
        p0 = deref(ex, st, pond)
        need(ex, st, And(p0 >= 0, real(dry) >= 0, real(th) == Select(m.h(st, 'theta'), m.H.head(ex, st))), 'lgar_create_surficial_front: arguments in range', e)
        s0 = m.stor(st)
        for f in TWF:
            SL.havoc_field(ex, st, f)
        havoc_list(ex, st, m.H)
        vi, p1 = fresh('vi', R), fresh('p1', R)
        st.facts += [m.wf(st, m.H), m.wf(st, m.Q), m.prof(st), m.H.len(ex, st) >= 1, p0 == vi + p1, vi >= 0, p1 >= 0]
        ex.store(st, ex.ptr_at(pond, IntVal(0)), p1)
        ex.store(st, ex.ptr_at(vin, IntVal(0)), vi)
        m.add(st, 'in', vi)

    def c_dzdt(ex, st, argn, e):
        cf, nint, hp, ty, cum, ff, h, sp = names(argn, st)
        own_args(ex, st, m, 'lgar_dzdt_calc', e, stype=ty, cum=cum, ff=ff, sp=sp)
        is_head(ex, st, m, h, 'lgar_dzdt_calc', e)
        need_all(ex, st, m, 'lgar_dzdt_calc', e)
        drive('lgar_dzdt_calc', st, cf, nint, e)
        need(ex, st, real(hp) >= 0, 'lgar_dzdt_calc: the ponded depth is not negative', e)
        SL.havoc_field(ex, st, 'dzdt_cm_per_h')

    def c_giuh(ex, st, argn, e):
        run, n, o, q = names(argn, st)
        ok = isinstance(o, ArrPtr) and isinstance(q, ArrPtr) and same(o, m.cell(st, ('this', 'giuh_ordinates'))) and same(q, m.cell(st, ('this', 'giuh_runoff_queue')))
        need(ex, st, And(BoolVal(ok), as_int(n) == m.cell(st, ('this', 'num_giuh_ordinates'))), 'giuh_convolution_integral: is given the model\'s own ordinates and queue', e)
        r = Select(ex.arr(st, q.region, 'real'), 0) + Select(ex.arr(st, o.region, 'real'), 0) * real(run)
        st.arrays[q.region] = fresh('queue', AR)
        m.add(st, 'routed', real(run))
        return r

    def c_frozen(ex, st, argn, e):
        p = m.cell(st, P_ + ('frozen_factor',))
        st.arrays[p.region] = st.arrays[('gh', 'ff')] = fresh('ff', AR)
        st.cells[('gh', 'frozen')] = RealVal(1)

    def c_calib(ex, st, argn, e):
        need_all(ex, st, m, 'update_calibratable_parameters', e)
        need(ex, st, m.cell(st, P_ + ('num_wetting_fronts',)) == m.H.len(ex, st), 'update_calibratable_parameters: the exported number of fronts is current', e)
        s0 = m.stor(st)
        SL.havoc_field(ex, st, 'theta')
        sp = m.cell(st, S + ('soil_properties',))
        for f in ('theta_e', 'theta_r', 'vg_n', 'vg_m', 'vg_alpha_per_cm', 'Ksat_cm_per_h'):
            st.arrays[sp.region + (f,)] = fresh('soil_' + f, AR)
        for a, b in (('field_capacity_psi_cm', 'field_capacity_psi'), ('ponded_depth_max_cm', 'ponded_depth_max')):
            st.cells[P_ + (a,)] = m.cell(st, S + ('lgar_calib_params', b))
        st.facts.append(m.prof(st))
        r = m.stor(st) - s0
        m.add(st, 'calib', r)
        return r

    def c_len(ex, st, argn, e):
        h, = names(argn, st)
        is_head(ex, st, m, h, 'listLength', e)
        need_all(ex, st, m, 'listLength', e)
        unfold_wf(ex, st, m)
        return m.H.len(ex, st)

    def c_delete(ex, st, argn, e):
        p = ex.ev(argn[0], st)
        need(ex, st, And(p == m.Q.head(ex, st), m.wf(st, m.Q)), 'listDelete: releases the previous state', e)
        need(ex, st, m.wf(st, m.H), 'listDelete: the current profile is a separate list', e)
        for f in ('alloc', 'own'):
            SL.havoc_field(ex, st, f)
        m.Q.set(ex, st, fresh('seq', AI), fresh('idx', AI), IntVal(0))
        a = lambda f: m.h(st, f)
        st.facts += [m.wf(st, m.H), WF(2, 0, 0, m.Q.seq(ex, st), m.Q.idx(ex, st), a('next'), a('alloc'), a('own'), a('front_num'))]

    def c_copy(ex, st, argn, e):
        p = ex.ev(argn[0], st)
        is_head(ex, st, m, p, 'listCopy', e)
        need(ex, st, m.wf(st, m.H), 'listCopy: the list is well formed', e)
        s0, pr0 = m.stor(st), m.prof(st)
        had = m.wf(st, m.Q)
        for f in TWF:
            SL.havoc_field(ex, st, f)
        n = m.H.len(ex, st)
        r = fresh('copy', I)
        sq, ix = fresh('seq', AI), fresh('idx', AI)
        a = lambda f: m.h(st, f)
        m.Q.set(ex, st, sq, ix, n)
        st.facts += [m.wf(st, m.H), WF(2, r, n, sq, ix, a('next'), a('alloc'), a('own'), a('front_num')), m.copyof(st), m.stor(st) == s0, Implies(pr0, m.prof(st))]
        return r
    C.update(lgar_calc_mass_bal=c_mass, calc_aet=c_aet, wetting_front_free_drainage=c_wfd, lgar_move_wetting_fronts=c_move, lgar_insert_water=c_insert, lgar_calc_dry_depth=c_dry,
             lgar_create_surficial_front=c_create, lgar_dzdt_calc=c_dzdt, giuh_convolution_integral=c_giuh, frozen_factor_hydraulic_conductivity=c_frozen,
             update_calibratable_parameters=c_calib, listLength=c_len, listDelete=c_delete, listCopy=c_copy)
    return C


def unfold_wf(ex, st, m):
    """definition of WF for the current profile"""
    ex.name_heaps(st)
    cl = m.H.wf(ex, st, True)
    st.facts += [Implies(m.wf(st, m.H), f) for _, f in cl]
    for _, f in cl:
        st.facts.append(f) if any(g.eq(m.wf(st, m.H)) for g in st.facts) else None


def setup(ex, st, m):
    num, cell = m.num, m.cell
    for n in ('rech', 'aet', 'in', 'routed', 'calib', 'demand', 'frozen'):
        st.cells[('gh', n)] = RealVal(0)
        ex.init_cells[('gh', n)] = RealVal(0)
    st.arrays[('gh', 'ff')] = ex.arr(st, m.cell(st, P_ + ('frozen_factor',)).region, 'real')     # the factors last computed
    rec = ex.prog.records['unit_conversion']
    for f in rec:     # unit factors: the defaults of the record, never assigned
        st.facts.append(num(st, S + ('units', f['name'])) == real(ex.ev(f['init'], st)))
    for L in (m.H, m.Q):
        ex.load(st, L.headlv)
    st.facts += [m.wf(st, m.H), m.wf(st, m.Q), m.prof(st), m.H.len(ex, st) >= 1,
                 num(st, MB + ('volon_timestep_cm',)) >= 0, num(st, P_ + ('ponded_depth_max_cm',)) >= 0, num(st, S + ('lgar_calib_params', 'ponded_depth_max')) >= 0,
                 num(st, P_ + ('timestep_h',)) > 0, num(st, P_ + ('minimum_timestep_h',)) > 0, num(st, P_ + ('forcing_resolution_h',)) > 0,
                 cell(st, P_ + ('num_wetting_fronts',)) == m.H.len(ex, st), cell(st, P_ + ('num_layers',)) >= 1, cell(st, ('this', 'num_giuh_ordinates')) >= 1]

    def hint(st, ref):
        h = m.H.head(ex, st)
        st.facts.append(Implies(And(m.wf(st, m.H), m.H.len(ex, st) >= 1), And(h != 0, Select(m.h(st, 'alloc'), h))))
    ex.deref_hint = hint


ROLES = {'rain': 'volprecip_timestep_cm', 'in': 'volin_timestep_cm', 'on': 'volon_timestep_cm', 'end': 'volend_timestep_cm', 'aet': 'volAET_timestep_cm', 'rech': 'volrech_timestep_cm',
         'run': 'volrunoff_timestep_cm', 'pet': 'volPET_timestep_cm'}


def leaves(e):
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        return leaves(e.arg(1)) + leaves(e.arg(2))
    return [e]


def roles(prog):
    """data flow, not names: which loop variable ends up in which reported term"""
    ex = V.new_exec(prog)
    m = M(ex)
    ex.contracts.update(contracts(ex, m))
    ex.lite = True
    ex.havocs = {}
    out = {}

    def pre(ex, st, v):
        setup(ex, st, m)
        st.facts.append(Not(as_bool(m.cell(st, P_ + ('is_invalid_soil_type',)))))

    def post(ex, e, s, rv, v):
        for r, f in ROLES.items():
            x = s.cells.get(MB + (f,))
            if x is None:
                continue
            for l in leaves(real(x)):
                cs = consts_of(l)
                if cs and all(c.decl().name() in ex.havocs for c in cs):
                    out[r] = (l, {c: ex.havocs[c.decl().name()] for c in cs})
                    break
    V.verify(ex, 'Update', [], pre, post, check_sat=False)
    return out


def tagkey(t):
    return (t[0], t[1][2:]) if t[1][0] == 'L' else t


EPS = RealVal('1/10000') + RealVal(1) / RealVal(10 ** 12)


def v_update(prog):
    ro = roles(prog)
    ex = V.new_exec(prog)
    m = M(ex)
    ex.contracts.update(contracts(ex, m))
    if os.environ.get('DV_DEBUG'):
        print('roles', {k: v[0] for k, v in ro.items()}, file=sys.stderr)
    missing = set(ROLES) - set(ro)
    if missing:
        raise Unsupported('no loop variable found for %s' % sorted(missing))

    def pre(ex, st, v):
        setup(ex, st, m)

        def pool(ex, st, h, syms, N):
            if ('a', ('wf', 'depth_cm')) not in syms:
                return []
            tk = {tagkey(t): x for t, x in syms.items()}
            val = {}
            for r, (l, tags) in ro.items():
                if not all(tagkey(t) in tk for t in tags.values()):
                    raise Unsupported('role %s' % r)
                val[r] = z3.substitute(l, *[(c, tk[tagkey(t)]) for c, t in tags.items()])
            c = []

            def F(label, f, req=False):
                c.append(Cand(label, lambda ex_, s, sub: f(s, sub), None, 4000, req))
            g = lambda n: (lambda s, sub: sub(syms[('c', ('gh', n))]) if ('c', ('gh', n)) in syms else s.cells[('gh', n)])
            S0 = m.stor(st)
            V0 = {r: None for r in val}
            pond0 = m.num(ex.entry, MB + ('volon_timestep_cm',))
            rn = lambda N, sub: z3.ToReal(sub(N))
            F('the front list stays well formed', lambda s, sub: m.wf(s, m.H))
            F('the previous state stays a well formed list', lambda s, sub: m.wf(s, m.Q))
            F('the profile stays valid', lambda s, sub: m.prof(s))
            F('there is a front', lambda s, sub: m.H.len(ex, s) >= 1)
            for n in ('rech', 'aet', 'in'):
                F('%s so far = total of the sub-steps' % n, lambda s, sub, n=n: sub(val[n]) == g(n)(s, sub))
            F('surface water: infiltration + runoff + ponded = rain + ponded before', lambda s, sub: sub(val['in'] + val['run'] + val['on'] - val['rain']) == pond0)
            F('ponded water and runoff are not negative', lambda s, sub: And(sub(val['on']) >= 0, sub(val['run']) >= 0))
            F('ponded water within the limit', lambda s, sub: Implies(sub(N) >= 1, sub(val['on']) <= m.num(st, P_ + ('ponded_depth_max_cm',))))
            err = lambda s, sub: S0 + pond0 + sub(val['rain'] - val['run'] - val['aet'] - val['on'] - val['rech']) - m.stor(s)
            F('column: error at most 1e-4 cm per sub-step', lambda s, sub: And(err(s, sub) <= rn(N, sub) * EPS, err(s, sub) >= -rn(N, sub) * EPS))
            for t, x in syms.items():
                if t[0] == 'c' and x.sort() == R:
                    c.append(Cand('%s = storage of the profile' % str(t[1][-1 if t[1][0] != 'L' else 2]), lambda ex_, s, sub, x=x: sub(x) == m.stor(s), None, 1500))
            return c
        ex.pool.append(pool)
        ex.assert_ptr = True
        ex.linear = True
        ex.breakinv = True

    def post(ex, e, s, rv, v):
        update_post(ex, e, s, m)
    return V.verify(ex, 'Update', [], pre, post)


def update_post(ex, e, s, m):
    num, cell = m.num, m.cell
    bad = as_bool(cell(e, P_ + ('is_invalid_soil_type',)))
    o = lambda f, lab, kind='post': ex.oblige(s, Implies(Not(bad), f), lab, kind)
    ob = lambda f, lab: ex.oblige(s, Implies(bad, f), 'pass-through: ' + lab, 'post')
    mb0 = lambda f: num(e, MB + (f,))
    mb = lambda f: num(s, MB + (f,))
    t = {r: mb(f) for r, f in ROLES.items()}
    g = lambda n: s.cells[('gh', n)]
    pond0 = mb0('volon_timestep_cm')
    # ---- C01
    o(t['rain'] + pond0 == t['in'] + t['run'] + t['on'], 'C01 rain + ponded before = infiltration + runoff + ponded after')
    for n in ('in', 'aet', 'rech'):
        o(t[n] == g(n), 'C01 reported %s is the total of the sub-steps' % n)
    n1, n0 = cell(s, P_ + ('timesteps',)), cell(e, P_ + ('timesteps',))
    k = z3.ToReal(n1 - n0)
    err = m.stor(e) + g('calib') + t['rain'] + pond0 - t['run'] - t['aet'] - t['rech'] - t['on'] - t['end']
    o(And(err <= k * EPS, err >= -k * EPS), 'C01 column balance closes to 1e-4 cm per sub-step')
    o(t['end'] == m.stor(s), 'C01 reported storage is the storage of the profile')
    o(And(t['on'] >= 0, t['run'] >= 0), 'C01 ponded water and runoff are not negative')
    o(m.H.len(ex, s) >= 1, 'C01 there is a front afterwards')
    o(m.wf(s, m.H), 'C01 the list is well formed afterwards')
    o(m.wf(s, m.Q), 'C01 the previous state is well formed afterwards')
    o(m.prof(s), 'C01 the profile is valid afterwards')
    # ---- C02
    for cum, per in (('volprecip_cm', 'volprecip_timestep_cm'), ('volin_cm', 'volin_timestep_cm'), ('volAET_cm', 'volAET_timestep_cm'), ('volrech_cm', 'volrech_timestep_cm'),
                     ('volrunoff_cm', 'volrunoff_timestep_cm'), ('volQ_cm', 'volQ_timestep_cm'), ('volQ_gw_cm', 'volQ_gw_timestep_cm'), ('volPET_cm', 'volPET_timestep_cm'),
                     ('volrunoff_giuh_cm', 'volrunoff_giuh_timestep_cm')):
        o(mb(cum) == mb0(cum) + mb(per), 'C02 cumulative %s grows by this update\'s value' % cum)
    o(mb('volon_cm') == mb('volon_timestep_cm'), 'C02 cumulative ponding is the latest value')
    o(mb('volend_cm') == mb('volend_timestep_cm'), 'C02 cumulative storage is the latest value')
    o(mb('volchange_calib_cm') == mb0('volchange_calib_cm') + g('calib'), 'C02 calibration change is accumulated')
    o(mb('volstart_cm') == mb0('volstart_cm'), 'C02 start storage is kept')
    o(g('routed') == t['run'], 'C02 this update\'s runoff is routed')
    q, od = cell(e, ('this', 'giuh_runoff_queue')), cell(e, ('this', 'giuh_ordinates'))
    o(mb('volrunoff_giuh_timestep_cm') == Select(ex.arr(e, q.region, 'real'), 0) + Select(ex.arr(e, od.region, 'real'), 0) * t['run'], 'C02 routed runoff is what the routing releases')
    o(And(mb('volQ_timestep_cm') == mb('volrunoff_giuh_timestep_cm')), 'C02 discharge is the routed runoff')
    uc = lambda f: num(s, UC + (f,))
    cm = RealVal('1/100')
    for f, per in (('volprecip_timestep_m', 'volprecip_timestep_cm'), ('volin_timestep_m', 'volin_timestep_cm'), ('volend_timestep_m', 'volend_timestep_cm'), ('volAET_timestep_m', 'volAET_timestep_cm'),
                   ('volrech_timestep_m', 'volrech_timestep_cm'), ('volrunoff_timestep_m', 'volrunoff_timestep_cm'), ('volQ_timestep_m', 'volQ_timestep_cm'), ('volQ_gw_timestep_m', 'volQ_gw_timestep_cm'),
                   ('volPET_timestep_m', 'volPET_timestep_cm'), ('volrunoff_giuh_timestep_m', 'volrunoff_giuh_timestep_cm'), ('mass_balance_m', 'local_mass_balance')):
        o(uc(f) == mb(per) * cm, 'C02 output %s is the value in cm times 0.01' % f)
    rate = num(e, IN + ('precipitation_mm_per_h',))
    for f, d in (('volprecip_cm', 1), ('volrunoff_cm', 1), ('volQ_cm', 1)):
        ob(mb(f) == mb0(f) + rate / 10, 'C02 %s grows by the rain' % f)
    for f in ('volin_cm', 'volAET_cm', 'volrech_cm', 'volPET_cm', 'volrunoff_giuh_cm', 'volchange_calib_cm', 'volQ_gw_cm', 'volon_cm'):
        ob(mb(f) == 0, 'C02 %s is zero' % f)
    ob(mb('volend_cm') == mb0('volstart_cm'), 'C02 storage stays at its start')
    for f in ('volprecip_timestep_m', 'volrunoff_timestep_m', 'volQ_timestep_m'):
        ob(uc(f) == rate / 1000, 'C02 output %s is the rain in m' % f)
    for f in ('volin_timestep_m', 'volAET_timestep_m', 'volrech_timestep_m', 'volPET_timestep_m', 'volrunoff_giuh_timestep_m', 'volQ_gw_timestep_m', 'mass_balance_m', 'volend_timestep_m'):
        ob(uc(f) == 0, 'C02 output %s is zero' % f)
    # ---- C18
    dt = num(s, P_ + ('timestep_h',))
    res = num(e, P_ + ('forcing_resolution_h',))
    mind = num(e, P_ + ('minimum_timestep_h',))
    o(n1 >= n0, 'C18 sub-steps are counted')
    o(num(s, P_ + ('time_s',)) == num(e, P_ + ('time_s',)) + k * dt * 3600, 'C18 the clock advances by the sub-steps taken')
    early = num(s, P_ + ('time_s',)) >= num(e, P_ + ('endtime_s',))
    kk = fresh('k', I)
    full = z3.ToInt(res / dt + RealVal('1/100000000'))
    o(Or(n1 - n0 == full, And(early, n1 - n0 <= full, n1 - n0 >= 1)), 'C18 all sub-steps of the interval are taken unless the end time is reached')
    ks = z3.ToReal(kk)
    o(Implies(And(kk >= 1, res / dt == ks), full == kk), 'C18 a sub-step that divides the interval is taken that many times')
    o(t['rain'] == k * dt * rate / 10, 'C18 rain volume is rate x elapsed time')
    o(t['pet'] == k * dt * num(e, IN + ('PET_mm_per_h',)) / 10, 'C18 PET volume is rate x elapsed time')
    ad = as_bool(cell(e, P_ + ('adaptive_timestep',)))
    heavy = Or(rate > 10, pond0 > 0)
    low = lambda a: If(a <= res, a, res)
    want = If(ad, If(heavy, low(mind), If(rate > 0, low(2 * mind), res)), num(e, P_ + ('timestep_h',)))
    o(dt == want, 'C18 the sub-step length follows rain and ponding')
    o(num(s, P_ + ('forcing_resolution_h',)) == res, 'C18 forcing interval is kept')
    o(And(num(s, P_ + ('precip_previous_timestep_cm',)) == If(n1 > n0, dt * rate / 10, num(e, P_ + ('precip_previous_timestep_cm',)))), 'C18 rain of the last sub-step is remembered')
    ob(And(n1 == n0, num(s, P_ + ('time_s',)) == num(e, P_ + ('time_s',))), 'C18 the clock is left alone')
    # ---- C15
    sft = as_bool(cell(e, P_ + ('sft_coupled',)))
    o(g('frozen') == If(sft, RealVal(1), RealVal(0)), 'C15 the factors are computed in every update of a coupled model, and only there')
    ffr = cell(s, P_ + ('frozen_factor',)).region
    fi = fresh('i', I)
    o(Select(ex.arr(s, ffr, 'real'), fi) == Select(s.arrays[('gh', 'ff')], fi), 'C15 nothing else changes the factors')
    # ---- C19
    nw = cell(s, P_ + ('num_wetting_fronts',))
    o(nw == m.H.len(ex, s), 'C19 exported number of fronts')
    for f, src, fac in (('soil_moisture_wetting_fronts', 'theta', 1), ('soil_depth_wetting_fronts', 'depth_cm', RealVal('1/100'))):
        p = m.cell(s, P_ + (f,))
        s2 = s.copy()
        s2.path.append(Not(bad))
        alts = p.alts if isinstance(p, PhiPtr) else [(BoolVal(True), p)]
        for c, a in alts:
            if not isinstance(a, ArrPtr) or a.region[0] != 'new':
                ex.oblige(s2, Not(c), 'C19 %s is a new array' % f, 'post')
                continue
            s3 = s2.copy()
            s3.path.append(c)
            i = fresh('i', I)
            ex.oblige(s3, And(a.off == 0, s.lens[a.region] == m.H.len(ex, s)), 'C19 %s has one entry per front' % f, 'post')
            x = Select(m.H.seq(ex, s), i)
            ex.oblige(s3, Implies(And(i >= 0, i < m.H.len(ex, s)), Select(ex.arr(s3, a.region, 'real'), i) == Select(m.h(s, src), x) * fac), 'C19 %s mirrors the profile' % f, 'post')


def calls_for(pid, fns):
    """the call sites of Update that a property rests on: what the named functions are given"""
    def unit(prog):
        ex = v_update(prog)
        ex.obls = [o for o in ex.obls if o.kind == 'loop-invariant' or o.label.startswith(pid + ' ') or any(o.label.startswith(f + ':') for f in fns)]
        return ex
    unit.__name__ = 'v_Update'
    return unit


def only_for(pid, fn, name):
    """the obligations of fn that belong to one property (plus everything they rest on)"""
    def unit(prog):
        ex = fn(prog)
        keep = []
        for o in ex.obls:
            l = o.label[len('pass-through: '):] if o.label.startswith('pass-through: ') else o.label
            if l[:1] == 'C' and l[1:3].isdigit() and l[3:4] == ' ' and l[:3] != pid:
                continue
            keep.append(o)
        ex.obls = keep
        return ex
    unit.__name__ = name
    return unit


# ------------------------------------------------------------------ the printed global balance (C02)
PRINTED = [('Initial water', 'volstart_cm'), ('Total precipitation', 'volprecip_cm'), ('Total infiltration', 'volin_cm'), ('Final water', 'volend_cm'), ('Surface ponded', 'volon_cm'),
           ('Surface runoff', 'volrunoff_cm'), ('GIUH runoff', 'volrunoff_giuh_cm'), ('Total percolation', 'volrech_cm'), ('Total AET', 'volAET_cm'), ('Total PET', 'volPET_cm'),
           ('Total discharge', 'volQ_cm'), ('Vol change', 'volchange_calib_cm')]


def v_global(prog):
    ex = V.new_exec(prog)
    ex.print_hook = True

    def pre(ex, st, v):
        n = ex.load(st, LCell(('A', 'state', 'lgar_bmi_params', 'num_giuh_ordinates'), 'int'))
        st.facts.append(n >= 0)
        st.lens[v.queue.region] = n + 1

    def post(ex, e, s, rv, v):
        mb = lambda f: real(ex.load(e, LCell(('A', 'state', 'lgar_mass_balance', f), 'double')))
        pr = [x for x in s.log if x[0] == 'print']
        if any(x[0] == 'alt' for x in s.log):
            raise Unsupported('printing depends on a condition')

        def printed(lab):
            for _, nm, vals in pr:
                if vals and isinstance(vals[0], Str) and isinstance(vals[0].s, str) and lab in vals[0].s and len(vals) == 2:
                    return real(vals[1])
            raise Unsupported('no printed line %r' % lab)
        for lab, f in PRINTED:
            ex.oblige(s, printed(lab) == mb(f), 'printed %s is the cumulative %s' % (lab, f), 'post')
        bal = mb('volstart_cm') + mb('volprecip_cm') - mb('volrunoff_cm') - mb('volAET_cm') - mb('volon_cm') - mb('volrech_cm') - mb('volend_cm') + mb('volchange_calib_cm')
        ex.oblige(s, printed('Global balance') == bal, 'printed global balance is formed from the cumulative totals', 'post')
        n = ex.load(e, LCell(('A', 'state', 'lgar_bmi_params', 'num_giuh_ordinates'), 'int'))
        q = ex.arr(e, v.queue.region, 'real')
        w = printed('GIUH water')
        for y in SG.sums_in(And(s.facts)):
            T, lo, hi = y.children()
            if any(T.eq(z[0]) and hi.eq(z[1]) for z in ex.sums):
                ex.oblige(s, And(lo == 0, hi == n + 1), 'routing queue: all entries are covered', 'lemma')
                SG.sum_shift(ex, s, T, lo, hi, q, IntVal(0), 'routing queue: every entry is added')
        ex.oblige(s, w == SUM(q, 0, n + 1), 'printed water in the routing queue is the sum of the queue', 'post')
        SL.frame_rest(ex, e, s)
    return V.verify(ex, 'lgar_global_mass_balance', ['state', 'queue'], pre, post)


# ------------------------------------------------------------------ initialisation (C02: totals start at zero; C19: the exported arrays mirror the initial profile)
A_ = ('A', 'state')
ZERO = ['volprecip_cm', 'volin_cm', 'volend_cm', 'volAET_cm', 'volrech_cm', 'volrunoff_cm', 'volrunoff_giuh_cm', 'volQ_cm', 'volQ_gw_cm', 'volPET_cm', 'volon_cm', 'volon_timestep_cm', 'volQ_gw_timestep_cm', 'volchange_calib_cm']


def v_initialize(prog):
    ex = V.new_exec(prog, dict(SG.C))
    H = GList('H', 1, LCell(A_ + ('head',), 'wetting_front *'))
    AP = A_ + ('lgar_bmi_params',)
    rec = {AP: 'lgar_bmi_parameters', A_ + ('lgar_mass_balance',): 'lgar_mass_balance_variables', A_: 'model_state', A_ + ('lgar_calib_params',): 'lgar_calib_parameters'}

    def cell(st, key):
        return ex.load(st, LCell(key, ex.fields(rec[key[:-1]])[key[-1]]))
    calls = []

    def c_config(ex_, st, argn, e):
        calls.append(st)
        ex.assumed.add('InitFromConfigFile (string parsing, outside the subset) builds a well formed list with one front per layer (InitializeWettingFronts, C20) and the layer tables; checked on the compiled code by the harness (bounded)')
        return None
    ex.contracts['InitFromConfigFile'] = c_config

    def pre(ex, st, v):
        ex.lists = [H]
        ex.load(st, H.headlv)
        SL.assume_wf(ex, st, H)
        n = H.len(ex, st)
        nl = cell(st, AP + ('num_layers',))
        ty = cell(st, AP + ('layer_soil_type',))
        sp = cell(st, A_ + ('soil_properties',))
        NS = Int('NS')
        st.lens[ty.region] = nl + 1
        st.lens[sp.region] = NS
        for f in ex.prog.records['unit_conversion']:     # unit factors: the defaults of the record, never assigned
            st.facts.append(real(ex.load(st, LCell(A_ + ('units', f['name']), 'double'))) == real(ex.ev(f['init'], st)))
        l = Int('l!c')
        a = ex.arr(st, ty.region, 'int')
        st.facts += [nl >= 1, n == nl, ForAll([l], Implies(And(l >= 1, l <= nl), And(a[l] >= 0, a[l] < NS)), patterns=[a[l]])]

    def post(ex, e, s, rv, v):
        n, seq = H.len(ex, e), H.seq(ex, e)
        ex.oblige(s, BoolVal(len(calls) == 1), 'the configuration is read once', 'lemma')
        for f in ZERO:
            ex.oblige(s, real(cell(s, A_ + ('lgar_mass_balance', f))) == 0, 'C02 %s starts at zero' % f, 'post')
        ex.oblige(s, cell(s, AP + ('num_wetting_fronts',)) == n, 'C19 exported number of fronts', 'post')
        ex.oblige(s, And(H.len(ex, s) == n, H.seq(ex, s) == seq), 'C19 the profile is left alone', 'post')
        i = fresh('i', I)
        x = Select(seq, i)
        for f, src, fac in (('soil_moisture_wetting_fronts', 'theta', 1), ('soil_depth_wetting_fronts', 'depth_cm', RealVal('1/100'))):
            p = cell(s, AP + (f,))
            ok = isinstance(p, ArrPtr) and p.region[0] == 'new'
            ex.oblige(s, BoolVal(ok), 'C19 %s is a new array' % f, 'post')
            if ok:
                ex.oblige(s, And(p.off == 0, s.lens[p.region] == n), 'C19 %s has one entry per front' % f, 'post')
                ex.oblige(s, Implies(And(i >= 0, i < n), Select(ex.arr(s, p.region, 'real'), i) == Select(ex.heap(s, src), x) * fac), 'C19 %s mirrors the profile' % f, 'post')
                ex.oblige(s, Implies(L_mem(H, ex, s, x), Select(ex.heap(s, src), x) == Select(ex.heap(e, src), x)), 'C19 the fronts keep %s' % src, 'post')
        a = ex.arr(e, cell(e, AP + ('layer_soil_type',)).region, 'int')
        spr = cell(e, A_ + ('soil_properties',)).region
        for f, c in (('theta_e', 'theta_e'), ('theta_r', 'theta_r'), ('vg_n', 'vg_n'), ('vg_alpha_per_cm', 'vg_alpha'), ('Ksat_cm_per_h', 'Ksat')):
            p = cell(s, A_ + ('lgar_calib_params', c))
            ok = isinstance(p, ArrPtr) and p.region[0] == 'new'
            ex.oblige(s, BoolVal(ok), 'C21 calibration array %s is a new array' % c, 'post')
            if ok:
                ex.oblige(s, And(p.off == 0, s.lens[p.region] == n), 'C21 calibration array %s has one entry per layer' % c, 'post')
                ex.oblige(s, Implies(And(i >= 0, i < n), Select(ex.arr(s, p.region, 'real'), i) == Select(ex.arr(e, spr + (f,), 'real'), a[i + 1])), 'C21 calibration array %s starts with the soil of the layer' % c, 'post')
        for f, c in (('field_capacity_psi_cm', 'field_capacity_psi'), ('ponded_depth_max_cm', 'ponded_depth_max')):
            ex.oblige(s, real(cell(s, A_ + ('lgar_calib_params', c))) == real(cell(e, AP + (f,))), 'C21 calibration value %s starts with the configured one' % c, 'post')
    return V.verify(ex, 'lgar_initialize', ['config', 'state'], pre, post)


def L_mem(H, ex, s, x):
    return H.mem(ex, s, x)


def v_Initialize(prog):
    """BmiLGAR::Initialize: the routing queue starts empty, with one place more than ordinates; the ordinates are the configured ones (C06)"""
    ex = V.new_exec(prog, dict(SG.C))
    m = M(ex)
    box = {}

    def c_init(ex_, st, argn, e):
        box['s'] = True     # the values it leaves are the arbitrary ones of the precondition
        ex.assumed.add('lgar_initialize (InitFromConfigFile) leaves at least one ordinate, stored at places 1..n; checked on the compiled code by the harness (bounded)')
        return None
    ex.contracts['lgar_initialize'] = c_init

    def pre(ex, st, v):
        n = m.cell(st, P_ + ('num_giuh_ordinates',))
        p = m.cell(st, P_ + ('giuh_ordinates',))
        ex.arr(st, p.region, 'real')
        st.lens[p.region] = n + 1
        st.facts.append(n >= 1)

    def post(ex, e, s, rv, v):
        if 's' not in box:
            raise Unsupported('initialisation does not call lgar_initialize')
        b = e
        n = m.cell(b, P_ + ('num_giuh_ordinates',))
        src = ex.arr(b, m.cell(b, P_ + ('giuh_ordinates',)).region, 'real')
        i = fresh('i', I)
        ex.oblige(s, m.cell(s, ('this', 'num_giuh_ordinates')) == n, 'number of routing ordinates is the configured one', 'post')
        for f, k, val, what in (('giuh_runoff_queue', n + 1, RealVal(0), 'the routing queue starts empty'), ('giuh_ordinates', n, Select(src, i + 1), 'routing ordinates are the configured ones')):
            p = m.cell(s, ('this', f))
            ok = isinstance(p, ArrPtr) and p.region[0] == 'new'
            ex.oblige(s, BoolVal(ok), '%s is a new array' % f, 'post')
            if ok:
                ex.oblige(s, And(p.off == 0, s.lens[p.region] == k), '%s has its length' % f, 'post')
                ex.oblige(s, Implies(And(i >= 0, i < k), Select(ex.arr(s, p.region, 'real'), i) == val), what, 'post')
    return V.verify(ex, 'Initialize', ['config'], pre, post)
