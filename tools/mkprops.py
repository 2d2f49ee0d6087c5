import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in (state or [])],
                 "mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe or [],"hook_needed":None}})
L='src/lgar.cxx';B='src/bmi_lgar.cxx';K='src/linked_list.cxx';S='src/soil_funcs.cxx'
p("C01","Each model update closes its water balance, at the surface and in the column",
 "In every update that returns, rain plus the water ponded before equals infiltration plus surface runoff plus the water ponded after (exactly, up to arithmetic rounding). The soil storage reported before (after any calibration change), plus rain, plus ponded water before, minus runoff, AET, percolation and ponded water after, equals the reported storage after, to within 1e-4 cm per sub-step; otherwise the update aborts instead of returning. Every reported term is the total over all sub-steps of that update.",
 ["inputs","histories"],"every forcing value, soil, profile and every preceding history of updates",
 "The tests run a handful of forcing series and look at a few fronts; the balance must close for every rate, profile and ponding state.",
 [B,L],[("sub-stepping loop and local mass balance guard",B+":Update")],[("lgar_mass_balance.*_timestep_cm","terms of one update","include/all.hxx")],["Update() then state / BMI outputs"])
p("C02","Cumulative totals and reported outputs are the exact running sums of the steps",
 "After any number of updates each cumulative total (rain, infiltration, runoff, AET, PET, percolation, routed runoff, discharge, calibration change) equals its previous value plus this update's value, while cumulative ponding and storage equal the latest value; the per-update outputs in metres are the same update's values in cm times 0.01. The printed global balance is start storage + rain - runoff - AET - ponded - percolation - end storage + calibration change over those totals. In the pass-through mode for unsupported soils all rain becomes runoff and discharge and nothing else changes.",
 ["inputs","histories"],"every update from every state",
 "Tests check infiltration/PET/AET totals of one run within a tolerance; other totals and other histories are never compared.",
 [B,L],[("accumulation block",B+":Update"),("global balance",L+":lgar_global_mass_balance")])
p("C03","Water offered at the surface is split into infiltration, ponding and runoff",
 "When water is offered to an existing profile, the water offered equals infiltration + water left ponded + runoff, all three are non-negative, infiltration never exceeds the water offered nor the free storage of the profile, and ponding never exceeds the configured maximum. Runoff occurs only when the ponding allowance is full, and when ponding is not allowed nothing stays on the surface.",
 ["inputs"],"every ponded depth, rain rate, time step, ponding limit, profile and soil",
 "Synthetic runs exercise only a few infiltration situations, mostly with ponding limit 0, and do not check the split.",
 [L],[("lgar_insert_water",L)])
p("C04","A new surface front takes in exactly the water the surface gives up",
 "When rain creates a new surface wetting front, the water on the surface before equals the water put into the soil plus the water left on the surface, all non-negative. The soil storage of the profile increases by exactly the water put in, the new front lies in the top layer with moisture between the old surface moisture and saturation and the head and (frozen-factor scaled) conductivity of that moisture, and the other fronts are renumbered but otherwise unchanged.",
 ["inputs"],"every dry depth, ponded depth, surface moisture and profile (where the new front overtakes another, up to the layer crossing that follows)",
 "Only a few fronts are created in the test runs and the storage change is not compared.",
 [L,K],[("lgar_create_surficial_front",L),("listInsertFirst",K)])
p("C05","Actual evapotranspiration follows the S-shaped demand law and never exceeds PET",
 "Actual ET for a step is PET x dt / (1 + (psi/psi50)^3), where psi is the capillary head of the topmost front and psi50 the head at the moisture midway between the field-capacity and wilting-point moistures of that front's soil. It is never negative, never exceeds PET x dt, is half of it at psi = psi50 and does not increase as the surface gets drier.",
 ["inputs"],"every PET, time step, head, wilting point, field capacity and soil",
 "One benchmark total is compared with a tolerance.",
 ["src/aet.cxx",S],[("calc_aet","src/aet.cxx")])
p("C06","GIUH routing delays runoff but conserves it",
 "Each routing step releases queue[0] + ordinate[0] x runoff and moves every other entry (plus its ordinate share) one place forward, the last entry becoming zero. Hence released water plus water left in the queue equals water queued before plus runoff times the sum of ordinates, for any runoff series and any number of ordinates; nothing outside the queue is written and the ordinates are not changed. Initialisation leaves the queue empty and takes the configured ordinates.",
 ["inputs","histories"],"every runoff, ordinate vector, queue content and number of ordinates >= 1",
 "The tests use one or five ordinates and never compare the routed series.",
 ["giuh/giuh.c"],[("giuh_convolution_integral","giuh/giuh.c")])
p("C07","Soil hydraulic relations are the van Genuchten-Mualem curves",
 "Moisture as a function of head is theta_r + (theta_e-theta_r)(1+(alpha h)^n)^-m: it equals theta_e at zero head, stays between theta_r and theta_e and never increases with head; head as a function of saturation is its inverse. Conductivity is Ks sqrt(Se)(1-(1-Se^(1/m))^m)^2, is 0 at Se=0, Ks at Se=1, and stays between 0 and Ks. Effective saturation is linear in moisture.",
 ["inputs"],"every head >= 0, saturation in (0,1], alpha>0, n>1, m=1-1/n, theta_r<theta_e",
 "No unit test calls these functions directly.",
 [S,"src/util_funcs.cxx"],[("calc_theta_from_h, calc_Se_from_h, calc_h_from_Se, calc_K_from_Se, calc_Se_from_theta",S)])
p("C08","Merging wetting fronts conserves soil water and keeps the profile well formed",
 "When a front overtakes the one below it within a layer, merging removes exactly the overtaken front, moves the overtaking front to the depth that keeps the total soil water unchanged, and leaves all moistures as they were. After a merging pass the remaining fronts keep their order, are numbered 1..n, and no removed front is used again; fronts that are not overtaken keep depth, moisture, layer and head.",
 ["inputs"],"every well-formed profile with strictly drying fronts within a layer, any number of fronts and merges",
 "The runs merge few fronts and compare only the final benchmark profile.",
 [L,K],[("lgar_merge_wetting_fronts",L)])
p("C09","Crossing a layer boundary conserves soil water",
 "When a front passes the bottom of its layer, it is split at the boundary: the upper front is placed exactly at the layer bottom and marked as reaching it, and the front below moves into the next layer with the moisture that its capillary head gives in that layer's soil. The total soil water is unchanged by the crossing (except where the two moistures in the lower layer coincide), and fronts that do not cross are untouched.",
 ["inputs"],"every well-formed profile, any number of layers and crossings",
 "Few crossings occur in the tests and their storage is not compared.",
 [L],[("lgar_wetting_fronts_cross_layer_boundary",L)])
p("C10","Percolation equals the soil water lost through the lower boundary",
 "When the deepest moving front reaches the bottom of the domain, that front is removed, the front at the bottom takes over its moisture, and the reported bottom flux equals exactly the decrease of total soil water. When no front has reached the bottom, the profile is unchanged and the flux is zero.",
 ["inputs"],"every well-formed profile and domain depth",
 "Percolation is never asserted by a test.",
 [L,K],[("lgar_wetting_front_cross_domain_boundary",L)])
p("C11","The front list is a numbered sequence, with no aliased or dangling fronts",
 "Inserting first, inserting at a number, deleting by number, finding by number, counting and copying act on the list exactly as on a mathematical sequence: the other fronts keep their order and all their values except their number, which stays consecutive. A copy is deep: same values in the same order, sharing no front with the original. No operation reads a front that was deleted or follows a null link.",
 ["inputs","histories"],"every list length, position and content",
 "Tests use the list only through a few model runs.",
 [K],[("listInsertFirst, listInsertFront, listDeleteFront, listFindFront, listLength, listCopy, listDelete",K)])
p("C12","Reported soil storage is the depth integral of the moisture profile",
 "The soil water of a profile is the sum over fronts of the front's depth below the top of its layer times its moisture excess over the next front in the same layer (or times its full moisture if it is the lowest front of its layer). It is a pure function of the profile: computing it changes nothing, and an empty profile holds zero.",
 ["inputs"],"every profile with any number of fronts and layers",
 "No test compares storage with an independent integral.",
 [L],[("lgar_calc_mass_bal",L)])
p("C13","Front moistures stay between residual and saturated content of their layer",
 "From a state in which every front lies in a valid layer with moisture between that layer's residual and saturated contents and a non-negative capillary head, moving, merging, crossing a layer boundary, fixing dry-over-wet fronts and creating a front again yield such a state. This holds for any rainfall and evapotranspiration demand, even ones that the profile cannot absorb or supply.",
 ["inputs","histories"],"every profile, demand, time step and number of fronts",
 "The tests look at single benchmark profiles; extreme demands are not covered.",
 [L,S],[("clamping to [theta_r, theta_e]",L+":lgar_move_wetting_fronts")])
p("C14","Front velocities are bounded, positive if moving and zero if resting",
 "After velocities are computed, every front that reaches the bottom of its layer has velocity 0, every other front except the deepest has a velocity greater than 0 and at most 1e4 cm/h, and the deepest front keeps its velocity. A front in the top layer moves at (Ks(G+ponded)/depth + K)/(moisture jump), capped at those limits. Nothing but velocities changes.",
 ["inputs"],"every profile, ponded depth, soil and conductivity scaling",
 "Velocities are only checked indirectly by one benchmark profile.",
 [L,S],[("lgar_dzdt_calc",L)])
p("C15","Frozen soil scales conductivity by a factor in [0.05, 1] from layer temperatures",
 "With freeze-thaw coupling each layer's factor is exp(-10 (273.15 - T)) limited to [0.05, 1], with T the mean temperature of the profile cells lying in that layer: 1 for thawed layers, 0.05 for hard-frozen ones. The factors are recomputed in every update. Only factors of existing layers are written, and no temperature cell outside the supplied profile is read.",
 ["inputs","configurations"],"every temperature profile, discretisation and layering",
 "Coupled mode runs in one test with one temperature profile.",
 [L],[("frozen_factor_hydraulic_conductivity",L)])
p("C16","BMI metadata is consistent for every variable the model exposes",
 "For every advertised input, output and calibration variable the grid, type, item size, total bytes, units, location and value pointer agree: the variable has a valid grid, bytes = item size x grid size, the item size matches the type, and the pointer leads to that variable's own storage. An unknown name has no grid, type 'none', size 0, and asking for its value raises an error.",
 ["inputs","configurations"],"all variable names and all state sizes",
 "The unit test checks a subset of names at one state size.",
 [B,"include/bmi_lgar.hxx"],[("GetVarGrid/Type/Itemsize/Units/Nbytes/Location/GetValuePtr/GetGridSize",B)])
p("C17","BMI getters and setters copy exactly the addressed values",
 "Getting a variable copies all of its values and nothing more; setting it replaces all of its values and nothing else, so a get after a set returns what was set. The by-index forms transfer exactly the addressed elements, in the order of the indices, leaving all other elements unchanged, for any number of indices and either item size.",
 ["inputs","histories"],"every variable, index vector (any length, order, repetition) and buffer content",
 "The unit test uses one index vector.",
 [B],[("GetValue, SetValue, GetValueAtIndices, SetValueAtIndices",B)])
p("C18","Each update advances the clock by one forcing interval and uses all of its rain",
 "From zero at initialisation, outside the pass-through mode an update advances model time by (number of sub-steps) x (sub-step length) and counts every sub-step, stopping early only at the end time; when the sub-step divides the forcing interval that is exactly one forcing interval. Rain and PET volumes of the update equal rate x elapsed time. The adaptive sub-step is never longer than the forcing interval and is the configured minimum when rain exceeds 10 mm/h or water is ponded, twice that in lighter rain, and the whole interval when dry.",
 ["inputs","histories"],"every forcing value, resolution, sub-step and adaptive setting",
 "Tests use one resolution and do not look at the clock.",
 [B],[("sub-step selection and loop",B+":Update")])
p("C19","Exported front arrays mirror the current profile",
 "After every update and after initialisation the exported front count, moistures and depths describe the current profile front by front from the top: count = number of fronts, moisture = the front's moisture, depth = its depth in metres. The arrays are resized to the current number of fronts and never written beyond it.",
 ["histories","inputs"],"every profile and any change of the number of fronts",
 "The test compares one final profile.",
 [B,L],[("export block",B+":Update"),("realloc_soil",B),("lgar_initialize",L)])
p("C20","The initial profile is hydrostatic: one front per layer at the prescribed head",
 "Initialisation builds one front per layer, in order from the top, each at the bottom of its layer and marked so, with the prescribed initial head, the moisture that head gives in that layer's soil, and the conductivity of that moisture scaled by the layer's frozen factor.",
 ["configurations","inputs"],"every number of layers, layer soils, thicknesses and initial head",
 "Tests use three-layer configurations with one head.",
 [L,K,S],[("InitializeWettingFronts",L)])
p("C21","Applying calibrated parameters changes storage by exactly the reported amount",
 "When calibration parameters are applied, the soil of every layer takes the new parameters (with m = 1-1/n), each front keeps its depth and head and takes the moisture its head gives in its soil, and field capacity and ponding limit are replaced (layers that share a soil type being given the same values). Parameters that have not been set keep their configured values. The reported change equals storage after minus storage before.",
 ["inputs","histories"],"every parameter set and profile",
 "One parameter set is applied in one test.",
 [B],[("update_calibratable_parameters",B)])
p("C22","Capillary drive and dry depth are physical",
 "The capillary drive is never negative in either formulation. The depth of a new surface front is never negative and never deeper than the bottom of the top layer, and equals the smaller of that bottom and (tau + sqrt(tau^2+4 tau G))/2 with tau = dt Ks/(theta_e - theta).",
 ["inputs"],"every pair of moistures theta1<=theta2 in the soil's range, soil parameters and time step",
 "Not tested directly.",
 [S,L],[("calc_Geff",S),("lgar_calc_dry_depth",L)])
p("C23","Removing dry-over-wet fronts accounts for every drop of water",
 "A pass over the profile finds any front that is drier than (or as dry as) the one below it in its layer and removes it, only such fronts are removed, and the amount by which each removal changes the soil water is added to the reported mass change; the remaining fronts stay in order and numbered 1..n and no removed front is used again. A profile without such a pair is left unchanged and reports no change.",
 ["inputs"],"every profile",
 "Happens rarely in the runs and is not asserted.",
 [L,K],[("lgar_fix_dry_over_wet_wetting_fronts, lgar_check_dry_over_wet_wetting_fronts",L)])
p("C24","The soil parameter table is read faithfully",
 "Each data line of the soil table fills exactly the next soil slot with its residual and saturated moisture, alpha, n and conductivity, with m = 1-1/n and derived Brooks-Corey parameters computed from that line; reading stops at the configured number of soils or the end of the file, and the number returned is the number of slots filled.",
 ["inputs","configurations"],"every table content, line count and configured number of soils",
 "One table is read.",
 [L],[("lgar_read_vG_param_file",L)])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
