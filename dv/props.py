"""Registry: which verification units decide which property."""
import speclist as SL
import specsoil as SS
import speclgar as SG
import specsurf as SU
import specbmi as SB
import speccal as SC
import specdry as SD
import spectab as ST
import specmeta as SM
import specmove as MV

TRUSTED = [
    'the extraction: clang 18 -ast-dump=json of the sources in /repo and the translation of that AST to first-order logic (dv/frontend.py, dv/execu.py, dv/loops.py)',
    'z3 5.3.2 and cvc5 1.1.2',
    'background axioms about real powers, square root, exponential and finite sums (dv/solve.py AX)',
]
ASSUMPTIONS = [
    'doubles are mathematical reals and ints are mathematical integers (no rounding, overflow or NaN except division by zero seen by isinf/isnan)',
    'printing, iostream output and the verbosity switch are dropped by the extraction; abort/exit/throw end a path',
    'pointer parameters of one call do not alias; malloc/new succeed and return fresh memory',
    'partial correctness: termination is not verified',
]

U = lambda *fs: [(f.__name__[2:], f) for f in fs]
LISTS = U(*SL.ALL)
SOIL = U(SS.v_theta, SS.v_se, SS.v_K, SS.v_h, SS.v_setheta, SS.v_lemmas)

UPD = lambda pid: U(SB.only_for(pid, SB.v_update, 'v_Update'))
INI = lambda pid: U(SB.only_for(pid, SB.v_initialize, 'v_initialize'))
USE = lambda pid, *fns: U(SB.calls_for(pid, fns))
PROPS = {
    'C01': dict(title='water balance of an update', units=UPD('C01') + U(MV.v_wfd, SU.v_insert, SS.v_geff, SG.v_mass, SG.v_sums, SL.v_listLength, SL.v_listDelete, SL.v_listCopy)),
    'C02': dict(title='cumulative totals and outputs', units=UPD('C02') + INI('C02') + U(MV.v_wfd, SB.v_global, SS.v_giuh, SG.v_sums)),
    'C03': dict(title='surface partition', units=U(SU.v_insert, MV.v_wfd, SS.v_geff, SG.v_mass, SG.v_sums, SL.v_listLength, SL.v_listFindFront) + USE('C03', 'lgar_insert_water')),
    'C04': dict(title='new surface front', units=U(SU.v_create, MV.v_create_over, SG.v_sums, SL.v_listInsertFirst) + SOIL + USE('C04', 'lgar_create_surficial_front')),
    'C05': dict(title='AET', units=U(SS.v_aet) + SOIL + USE('C05', 'calc_aet')),
    'C06': dict(title='GIUH routing', units=U(SS.v_giuh, SB.v_Initialize)),
    'C07': dict(title='van Genuchten curves', units=SOIL),
    'C08': dict(title='merging fronts', units=U(SG.v_merge, SG.v_sums) + LISTS + SOIL),
    'C09': dict(title='layer crossing', units=U(SG.v_cross, SG.v_sums) + SOIL),
    'C10': dict(title='percolation', units=U(SG.v_domain, SG.v_sums, SL.v_listDeleteFront, SL.v_listFindFront) + SOIL),
    'C11': dict(title='front list', units=LISTS),
    'C12': dict(title='storage integral', units=U(SG.v_mass, SG.v_sums)),
    'C13': dict(title='moistures in range', units=U(MV.v_move, MV.v_fixdry_range, MV.v_merge_range, MV.v_tmb, MV.v_cross_range, MV.v_domain_range, MV.v_wfd, SU.v_create, MV.v_create_over, SL.v_listFindFront, SL.v_listDeleteFront, SL.v_listLength) + SOIL),
    'C14': dict(title='front velocities', units=U(SG.v_dzdt, SS.v_geff) + SOIL + USE('C14', 'lgar_dzdt_calc')),
    'C15': dict(title='frozen factor', units=U(SG.v_frozen, SG.v_sums) + USE('C15')),
    'C16': dict(title='BMI metadata', units=U(SM.v_meta)),
    'C17': dict(title='BMI getters and setters', units=U(SM.v_copy, SM.v_index, SM.v_meta)),
    'C18': dict(title='clock', units=UPD('C18')),
    'C19': dict(title='exported arrays', units=UPD('C19') + INI('C19') + U(SL.v_listLength)),
    'C20': dict(title='initial profile', units=U(SG.v_init, SL.v_listInsertFront) + SOIL),
    'C21': dict(title='calibration', units=INI('C21') + U(SC.v_calib, SG.v_mass, SG.v_sums) + SOIL),
    'C22': dict(title='capillary drive and dry depth', units=U(SS.v_geff, SS.v_drydepth) + SOIL + USE('C22', 'lgar_calc_dry_depth')),
    'C23': dict(title='dry-over-wet fronts', units=U(SD.v_fixdry, SD.v_fixdry_none, SD.v_checkdry, SG.v_mass, SG.v_sums, SL.v_listDeleteFront, SL.v_listLength) + SOIL),
    'C24': dict(title='soil table', units=U(ST.v_table) + SOIL),
}

NOT_APPLICABLE = {}
