"""Contract of update_calibratable_parameters (C21)."""
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
from speclgar import fld, storage, modifies
from specbmi import M, S, P_
from loops import Cand
from specbmi import AR, AI

CAL = S + ('lgar_calib_params',)
# soil field -> calibration array
PAR = {'theta_e': 'theta_e', 'theta_r': 'theta_r', 'vg_n': 'vg_n', 'vg_alpha_per_cm': 'vg_alpha', 'Ksat_cm_per_h': 'Ksat'}


def v_calib(prog):
    C = dict(SG.C)
    ex = V.new_exec(prog, C)
    m = M(ex)
    NL = Int('NL')
    NEW = {f: z3.Function('new_' + f, I, R) for f in PAR}      # new value of soil type k
    USED = z3.Function('used', I, B)                           # soil type k belongs to a layer
    WIT = z3.Function('front_of_layer', I, I)
    val = lambda f, k: 1 - 1 / NEW['vg_n'](k) if f == 'vg_m' else NEW[f](k)
    FS = list(PAR) + ['vg_m']

    def sp(st):
        return m.cell(st, S + ('soil_properties',)).region

    def pre(ex, st, v):
        ex.lists = [m.H]
        ex.load(st, m.H.headlv)
        SL.assume_wf(ex, st, m.H)
        n, seq = m.H.len(ex, st), m.H.seq(ex, st)
        stype = m.reg(st, 'layer_soil_type', 'int')
        ty = m.cell(st, P_ + ('layer_soil_type',)).region
        st.lens[ty] = NL + 1
        NS = Int('NS')
        st.lens[sp(st)] = NS
        l, i = z3.Ints('l!c i!c')
        st.facts += [NL >= 1, n >= 1, m.cell(st, P_ + ('num_wetting_fronts',)) == n]
        st.facts.append(ForAll([l], Implies(And(l >= 1, l <= NL), And(stype[l] >= 0, stype[l] < NS, USED(stype[l]))), patterns=[stype[l]]))
        st.facts.append(ForAll([l], Implies(And(l >= 1, l <= NL), And(WIT(l) >= 0, WIT(l) < n, fld(ex, st, 'layer_num', Select(seq, WIT(l))) == l)), patterns=[WIT(l)]))
        for f, c in PAR.items():
            p = m.cell(st, CAL + (c,))
            st.lens[p.region] = NL
            a = ex.arr(st, p.region, 'real')
            # layers with the same soil type are given the same values
            st.facts.append(ForAll([l], Implies(And(l >= 1, l <= NL), a[l - 1] == NEW[f](stype[l])), patterns=[stype[l]]))
        x = Select(seq, i)
        lay = fld(ex, st, 'layer_num', x)
        k = stype[lay]
        st.facts.append(ForAll([i], Implies(And(i >= 0, i < n), And(lay >= 1, lay <= NL, fld(ex, st, 'psi_cm', x) >= 0)), patterns=[x]))
        kk = Int('k!c')
        # admissible parameters
        st.facts.append(ForAll([kk], Implies(USED(kk), And(NEW['vg_n'](kk) > 1, NEW['vg_alpha_per_cm'](kk) > 0, NEW['theta_r'](kk) < NEW['theta_e'](kk))), patterns=[USED(kk)]))

        def pool(ex, st, h, syms, N):
            out = []
            for f in FS:
                if ('a', sp(st) + (f,)) in syms:
                    def seen(ex_, s, sub, f=f):
                        a = ex.arr(s, sp(s) + (f,), 'real')
                        q = Int('q!c')
                        ks = stype[fld(ex, ex.entry, 'layer_num', Select(seq, q))]
                        return ForAll([q], Implies(And(q >= 0, q < sub(N)), a[ks] == val(f, ks)), patterns=[Select(seq, q)])
                    def rest(ex_, s, sub, f=f):
                        a, a0 = ex.arr(s, sp(s) + (f,), 'real'), ex.arr(ex.entry, sp(s) + (f,), 'real')
                        q = Int('q!c')
                        return ForAll([q], Implies(Not(USED(q)), a[q] == a0[q]), patterns=[a[q]])
                    out.append(Cand('soils of treated fronts have the new %s' % f, seen, None, 6000))
                    out.append(Cand('other soils keep %s' % f, rest, None, 4000))
            if modifies(syms, 'theta'):
                def th(ex_, s, sub):
                    q = Int('q!c')
                    x = Select(seq, q)
                    return ForAll([q], Implies(And(q >= 0, q < n), fld(ex, s, 'theta', x) == If(q < sub(N), new_theta(ex.entry, x), fld(ex, ex.entry, 'theta', x))), patterns=[x])
                out.append(Cand('treated fronts have the moisture of their head', th, None, 8000))
                def oth(ex_, s, sub):
                    q = Int('q!c')
                    return ForAll([q], Implies(Not(m.H.mem(ex, ex.entry, q)), fld(ex, s, 'theta', q) == fld(ex, ex.entry, 'theta', q)), patterns=[fld(ex, s, 'theta', q)])
                out.append(Cand('other fronts keep their moisture', oth, None, 4000))
            return out
        ex.pool.append(pool)

    def new_theta(e, x):
        k = m.reg(e, 'layer_soil_type', 'int')[fld(ex, e, 'layer_num', x)]
        return THETAF(fld(ex, e, 'psi_cm', x), val('vg_alpha_per_cm', k), val('vg_m', k), val('vg_n', k), val('theta_e', k), val('theta_r', k))

    def post(ex, e, s, rv, v):
        n, seq = m.H.len(ex, e), m.H.seq(ex, e)
        stype, cum = m.reg(e, 'layer_soil_type', 'int'), m.reg(e, 'cum_layer_thickness_cm')
        l, i, k = fresh('l', I), fresh('i', I), fresh('k', I)
        s.facts.append(Implies(And(l >= 1, l <= NL), And(WIT(l) >= 0, WIT(l) < n, fld(ex, e, 'layer_num', Select(seq, WIT(l))) == l)))
        for f in FS:
            a, a0 = ex.arr(s, sp(s) + (f,), 'real'), ex.arr(e, sp(s) + (f,), 'real')
            c = ex.arr(e, m.cell(e, CAL + (PAR[f],)).region, 'real') if f in PAR else None
            want = c[l - 1] if f in PAR else 1 - 1 / ex.arr(s, sp(s) + ('vg_n',), 'real')[stype[l]]
            ex.oblige(s, Implies(And(l >= 1, l <= NL), a[stype[l]] == want), 'the soil of every layer takes the new %s' % f, 'post')
            ex.oblige(s, Implies(Not(USED(k)), a[k] == a0[k]), 'soils of no layer keep %s' % f, 'post')
        x = Select(seq, i)
        ks = stype[fld(ex, e, 'layer_num', x)]
        g = lambda f: ex.arr(s, sp(s) + (f,), 'real')[ks]
        lay = fld(ex, e, 'layer_num', x)
        ex.oblige(s, Implies(And(i >= 0, i < n), fld(ex, s, 'theta', x) == THETAF(fld(ex, e, 'psi_cm', x), g('vg_alpha_per_cm'), g('vg_m'), g('vg_n'), g('theta_e'), g('theta_r'))),
                  'each front takes the moisture its head gives in its soil', 'post')
        ex.oblige(s, Implies(Not(m.H.mem(ex, e, k)), fld(ex, s, 'theta', k) == fld(ex, e, 'theta', k)), 'only fronts of the profile change', 'post')
        for a, b in (('field_capacity_psi_cm', 'field_capacity_psi'), ('ponded_depth_max_cm', 'ponded_depth_max')):
            ex.oblige(s, m.num(s, P_ + (a,)) == m.num(e, CAL + (b,)), '%s is replaced' % a, 'post')
        ex.oblige(s, real(rv) == storage(ex, s, m.H, cum) - storage(ex, e, m.H, cum), 'reported change = storage after - storage before', 'post')
        SL.frame_fields(ex, e, s, 'update_calibratable_parameters', [f for f in SL.NODEF if f != 'theta'])
        SL.frame_rest(ex, e, s, tuple(sp(s) + (f,) for f in FS) + (P_ + ('field_capacity_psi_cm',), P_ + ('ponded_depth_max_cm',)))
    return V.verify(ex, 'update_calibratable_parameters', [], pre, post)
