"""Contracts of the surface processes: inserting water (C03), creating a surface front (C04)."""
import os, sys
from sym import *
import sym, solve
import verify as V
import speclist as SL
import specsoil as SS
import speclgar as SG
from speclgar import fld, storage, terms, sum_shift, layers_ok, arrlen, inv
from specsoil import soil, soils_ok, lemma
from loops import Cand

C = SG.C
INAMES = ['closed', 'nint', 'dt', 'aet', 'pond', 'volin', 'rain', 'wfd', 'NL', 'pmax', 'stype', 'cum', 'ff', 'head', 'sp']


def deref(ex, s, p):
    return real(ex.load(s, ex.ptr_at(p, IntVal(0))))


def capacity(ex, e, v):
    """array of the water each layer holds when saturated: term k-1 is layer k"""
    st, cum = ex.arr(e, v.stype.region, 'int'), ex.arr(e, v.cum.region, 'real')
    te = ex.arr(e, v.sp.region + ('theta_e',), 'real')
    T = fresh('CAP', ArraySort(I, R))
    k = Int('k!c')
    return T, ForAll([k], Select(T, k) == te[st[k + 1]] * (cum[k + 1] - cum[k]), patterns=[Select(T, k)])


def v_insert(prog):
    ex = V.new_exec(prog, C)
    ex.signs = True

    def pre(ex, st, v):
        L = SS.one_list(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, v.NL)
        n, seq = L.len(ex, st), L.seq(ex, st)
        cum = ex.arr(st, v.cum.region, 'real')
        i = Int('i!k')
        x = Select(seq, i)
        lay, g = SG.soil_of(ex, st, v, x)
        t = fld(ex, st, 'theta', x)
        st.facts.append(ForAll([i], Implies(And(i >= 0, i < n), And(lay >= 1, lay <= v.NL, t >= g('theta_r'), t <= g('theta_e'), fld(ex, st, 'depth_cm', x) > cum[lay - 1], fld(ex, st, 'depth_cm', x) > 0)), patterns=[x]))
        # the front that takes the water has a front below it, unless no front moves
        y, z = Select(seq, v.wfd - 1), Select(seq, v.wfd)
        st.facts += [n >= 1, v.wfd >= 1, v.wfd <= n, Implies(n != v.NL, And(v.wfd < n, fld(ex, st, 'layer_num', y) == fld(ex, st, 'layer_num', z))),
                     v.dt > 0, v.nint > 0, v.rain >= 0, v.aet >= 0]
        T, d = capacity(ex, st, v)
        st.facts += [d, deref(ex, st, v.pond) >= 0]
        v.vals['cap'] = T
        v.vals['mass'] = storage(ex, st, L, cum)

    def post(ex, e, s, rv, v):
        p0, p1, vi, r = deref(ex, e, v.pond), deref(ex, s, v.pond), deref(ex, s, v.volin), real(rv)
        n = v.NL
        for q in SG.sums_in(And(s.facts)):
            T, lo, hi = q.children()
            if any(T.eq(x[0]) and hi.eq(x[1]) for x in ex.sums) and not T.eq(v.cap):
                s2 = s.copy()
                g = Implies(And(Int('i') >= lo, Int('i') < hi), Select(v.cap, Int('i')) == Select(T, Int('i')))
                if ex.valid(s2, And(hi == n, lo == 0)) and ex.valid(s2, g):
                    ex.oblige(s, And(hi == n, lo == 0), 'capacity: all layers are covered', 'lemma')
                    sum_shift(ex, s, T, lo, hi, v.cap, IntVal(0), 'capacity: every layer contributes its own term')
                    continue
                g = Implies(And(Int('i') >= 0, Int('i') < n), Select(v.cap, n - 1 - Int('i')) == Select(T, Int('i')))
                if ex.valid(s2, And(hi == n, lo == 0)) and ex.valid(s2, g):     # from the lowest layer up: induction on the number of terms
                    ex.oblige(s, And(hi == n, lo == 0), 'capacity: all layers are covered', 'lemma')
                    ex.oblige(s, g, 'capacity: every layer contributes its own term, from below', 'lemma')
                    k = fresh('k', I)
                    ih = SUM(T, 0, k) == SUM(v.cap, n - k, n)
                    ex.oblige(s, SUM(T, 0, 0) == SUM(v.cap, n, n), 'capacity: sum from below, no term', 'lemma')
                    ex.oblige(s, Implies(And(k >= 0, k < n, ih, Select(v.cap, n - 1 - k) == Select(T, k)), SUM(T, 0, k + 1) == SUM(v.cap, n - (k + 1), n)), 'capacity: sum from below, one more term', 'lemma')
                    s.facts.append(SUM(T, 0, n) == SUM(v.cap, 0, n))
        free = SUM(v.cap, 0, n) - v.mass
        fr = fresh('free', R)
        s.facts.append(fr == free)
        ex.oblige(s, p0 == vi + p1 + r, 'water offered = infiltration + ponded + runoff', 'post')
        ex.oblige(s, r >= 0, 'runoff is not negative', 'post')
        ex.oblige(s, p1 >= 0, 'ponding is not negative', 'post')
        ex.oblige(s, vi <= p0, 'infiltration does not exceed the water offered', 'post')
        ex.oblige(s, vi <= free, 'infiltration does not exceed the free storage', 'post')
        ex.oblige(s, Implies(fr >= 0, vi >= 0), 'infiltration is not negative (profile not over-full)', 'post')
        ex.oblige(s, Implies(v.pmax >= 0, p1 <= v.pmax), 'ponding does not exceed the maximum', 'post')
        ex.oblige(s, Implies(And(v.pmax >= 0, r > 0), p1 == v.pmax), 'runoff only when the ponding allowance is full', 'post')
        ex.oblige(s, Implies(v.pmax <= 0, p1 == 0), 'nothing stays on the surface when ponding is not allowed', 'post')
        SL.frame_fields(ex, e, s, 'lgar_insert_water')
        SL.frame_rest(ex, e, s, (v.pond.region, v.volin.region))
        x = Int('x!f')
        for p in (v.pond, v.volin):
            ex.oblige(s, Implies(x != 0, Select(ex.arr(s, p.region, 'real'), x) == Select(ex.arr(e, p.region, 'real'), x)), 'only the pointed-to values are written', 'frame')
    return V.verify(ex, 'lgar_insert_water', INAMES, pre, post)


# ------------------------------------------------------------------ creating a surface front (C04)
CNAMES = ['NL', 'pond', 'volin', 'dd', 'theta1', 'stype', 'cum', 'ff', 'head', 'sp']


def v_create(prog):
    """a new surface front, not deeper than the front below it"""
    ex = V.new_exec(prog, dict(C))
    for f in ('lgar_merge_wetting_fronts', 'lgar_wetting_fronts_cross_layer_boundary'):
        def c(ex, st, argn, e, f=f):
            ex.oblige(st, BoolVal(False), '%s is called only when the new front overtakes another' % f, 'pre', e)
            st.path.append(BoolVal(False))
            return None
        ex.contracts[f] = c

    def pre(ex, st, v):
        L = SL.setup_L(ex, st, v.head)
        soils_ok(ex, st, v.sp)
        layers_ok(ex, st, v, v.NL)
        ex.name_heaps(st)
        for f in SL.NODEF:
            ex.heap(st, f)
        n, seq = L.len(ex, st), L.seq(ex, st)
        h = Select(seq, 0)
        lay, g = SG.soil_of(ex, st, v, h)
        t = fld(ex, st, 'theta', h)
        st.facts += [n >= 1, lay == 1, v.theta1 == t, t > g('theta_r'), t <= g('theta_e'), v.dd > 0, v.dd <= fld(ex, st, 'depth_cm', h), deref(ex, st, v.pond) >= 0]

    def post(ex, e, s, rv, v):
        L = ex.lists[0]
        p0, p1, vi = deref(ex, e, v.pond), deref(ex, s, v.pond), deref(ex, s, v.volin)
        cum = ex.arr(e, v.cum.region, 'real')
        ex.name_heaps(s)
        n0, n = L.len(ex, e), L.len(ex, s)
        x0 = Select(L.seq(ex, s), 0)
        y = Select(L.seq(ex, e), 0)
        k1 = Select(ex.arr(e, v.stype.region, 'int'), 1)
        te, tr = soil(ex, e, v.sp, 'theta_e', k1), soil(ex, e, v.sp, 'theta_r', k1)
        ff = Select(ex.arr(e, v.ff.region, 'real'), 1)
        ex.oblige(s, p0 == vi + p1, 'water on the surface = water put in + water left', 'post')
        ex.oblige(s, vi >= 0, 'the water put in is not negative', 'post')
        ex.oblige(s, p1 >= 0, 'the water left is not negative', 'post')
        ex.oblige(s, n == n0 + 1, 'one front is added', 'post')
        SL.oblige_wf(ex, s, L, 'profile after creation')
        ex.oblige(s, And(fld(ex, s, 'layer_num', x0) == 1, Not(fld(ex, s, 'to_bottom', x0))), 'the new front lies in the top layer and moves', 'post')
        ex.oblige(s, fld(ex, s, 'depth_cm', x0) == v.dd, 'the new front has the given depth', 'post')
        tn = fld(ex, s, 'theta', x0)
        ex.oblige(s, And(tn >= v.theta1, tn <= te), 'its moisture lies between the surface moisture and saturation', 'post')
        ex.oblige(s, vi == v.dd * (tn - v.theta1), 'the water put in fills the new front', 'post')
        ex.oblige(s, Implies(p1 > 0, tn == te), 'water stays on the surface only if the new front is saturated', 'post')
        ex.oblige(s, fld(ex, s, 'psi_cm', x0) >= 0, 'its head is not negative', 'post')
        Se = (tn - tr) / (te - tr)
        g1 = lambda f: soil(ex, e, v.sp, f, k1)
        ex.oblige(s, fld(ex, s, 'psi_cm', x0) == SG.HF(Se, g1('vg_alpha_per_cm'), g1('vg_m'), g1('vg_n')), 'its head is that of its moisture', 'post')
        ex.oblige(s, fld(ex, s, 'K_cm_per_h', x0) == SG.KF(Se, g1('Ksat_cm_per_h') * ff, g1('vg_m')), 'its conductivity is that of its moisture, scaled once by the frozen factor', 'post')
        ex.oblige(s, fld(ex, s, 'dzdt_cm_per_h', x0) == 0, 'its velocity is 0', 'post')
        i, x = fresh('i', I), fresh('x', I)
        ex.oblige(s, Implies(And(i >= 0, i < n0), Select(L.seq(ex, s), i + 1) == Select(L.seq(ex, e), i)), 'the other fronts follow in their order', 'post')
        for f in SG.PH:
            ex.oblige(s, Implies(L.mem(ex, e, x), fld(ex, s, f, x) == fld(ex, e, f, x)), 'other fronts keep %s' % f, 'post')
        T, U = terms(ex, e, L, cum), terms(ex, s, L, cum)
        s.facts += [f for f in e.facts if not any(f.eq(g) for g in s.facts)]
        ok = SG.window(ex, s, T, n0, U, n, IntVal(0), 0, 1, 'storage after creation', how=SG.shifted_terms(ex, e, s, L, cum, T, U))
        ex.oblige(s, Select(U, 0) == vi, 'storage: the new front holds the water put in', 'lemma')
        ex.oblige(s, SUM(U, 0, n) == SUM(T, 0, n0) + vi, 'soil storage grows by the water put in', 'post')
        SL.frame_rest(ex, e, s, (L.headlv.key, v.pond.region, v.volin.region))
        z = Int('x!f')
        for p in (v.pond, v.volin):
            ex.oblige(s, Implies(z != 0, Select(ex.arr(s, p.region, 'real'), z) == Select(ex.arr(e, p.region, 'real'), z)), 'only the pointed-to values are written', 'frame')
    return V.verify(ex, 'lgar_create_surficial_front', CNAMES, pre, post)
