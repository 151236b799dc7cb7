"""python3 lib/make_properties.py: write properties.jsonl and MANIFEST.json"""
import json
from pathlib import Path
ROOT=Path(__file__).resolve().parent.parent
M="arcticpy/main.py"; U="arcticpy/main_utils.pyx"; T="arcticpy/trap_managers.py"; TU="arcticpy/trap_managers_utils.pyx"
R="arcticpy/roe.py"; C="arcticpy/ccd.py"; TR="arcticpy/traps.py"; UT="arcticpy/util.py"
I,H,CF,PR,SC=["inputs"],["histories"],["configurations"],["programs"],["schedules"]
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("C01","Reading out never creates charge and never moves it towards the readout",
 "In any standard readout with every transfer computed, the charge in the first k rows after add_cti never exceeds the charge those rows held before, for every k. The charge missing from the image at the end is exactly the charge still held in traps or trailed beyond the last row; when every trail ends inside the image, the total is conserved.",
 I+CF,"every image, CCD, set of trap species (one group, or several that cannot run short of electrons), offset and phase count",
 "Tests compare a few fixed images with stored or legacy output; none sums charge, and conservation must hold for every image and trap history.",
 [M,U,T,TU],[("released minus captured electrons are put back in the cloud",U+": cy_clock_charge_in_one_direction"),("capture limited to the electrons available",T+": n_electrons_released_and_captured")],
 [("watermarks","volume and fill of every occupied level of the traps",T)],["output of add_cti"])
p("C02","Output of a pixel depends only on charge at or ahead of it",
 "Changing the image behind row k (further from the readout) never changes the output of rows 0..k, whatever the express, offset and number of phases. Empty rows ahead of the first charge stay exactly empty, an empty image stays empty, and at full express rows 0..k are the same whether or not later rows belong to the image.",
 I+CF,"every pair of images equal up to a row, every truncation, every express, offset and phase count",
 "Each test has one image; causality relates pairs of executions.",
 [M,U,R],[("rows are visited in readout order within each pass",U),("pixels accessed while clocking lie away from readout",R+": clock_sequence")],None,["output of add_cti"])
p("C03","Every documented mode returns a finite non-negative image of the same shape",
 "For every non-negative image of any numeric type and memory layout, add_cti in standard, charge-injection or trap-pumping mode returns a new writeable float64 image of the same shape with only finite, non-negative values. The values do not depend on the type or memory layout the same numbers came in. This includes saturated pixels, single-row and single-column images, traps denser than the well, windows, offsets and any express.",
 I+CF,"every image type, layout and size, every mode, window, offset, express and trap density",
 "Tests run a few modes on small, well-behaved images; crashes and NaNs hide in combinations (single rows, restored states, saturated pixels).",
 [M,U],[("image copied to double precision",M+": add_cti"),("pixels are clipped at zero",U)],None,["output of add_cti"])
p("C04","A trap manager's electron ledger balances at every step",
 "For every sequence of clouds and dwell times shown to any kind of trap manager, the electrons given back minus those taken equal the change in the number of trapped electrons, never more electrons are taken than the cloud holds, and the number trapped stays between zero and the number of traps. Occupied levels are contiguous, have positive volumes adding up to at most one, and hold fill fractions between 0 and 1 (or non-negative elapsed times). Traps given no electrons and enough time drain completely, and emptied traps behave as new.",
 H,"every history of clouds and dwell times, including longer than planned, for every manager type",
 "Tests set up single steps from hand-written levels; invariants of long histories are not observed.",
 [T,TU],[("updating levels after release and capture",T),("not-enough-electrons scaling",T)],[("watermarks","levels and fill fractions (or elapsed times)",T)],["return values and trapped electrons after each step"])
p("C05","Slow-capture traps follow the documented capture and release model",
 "For every history of clouds, the electrons exchanged at each visit and those left in traps equal what the documented volume-driven model gives: exact two-state kinetics for traps inside the cloud, pure release above it, recapture when released electrons enlarge the cloud, and a proportional limit when electrons run short.",
 H,"every history of clouds, dwell times and species with finite or zero capture time",
 "The result depends on the whole history of levels (splits, merges, overshoots); tests pin single transitions.",
 [T,TU],[("combined release and capture",T+": TrapManager")],[("watermarks","levels and fill fractions",T)],["return value of every visit"])
p("C06","Instant-capture traps follow the documented capture and release model",
 "For every history of clouds, the electrons exchanged at each visit and those left in traps equal what the documented instant-capture model gives: exponential release everywhere, then every trap within the enlarged cloud is filled, limited proportionally when electrons run short. Releasing and capturing in two calls gives the same as in one.",
 H,"every history of clouds and dwell times, for any set of species",
 "Same as for slow capture: histories, not single steps, decide it.",
 [T,TU],[("release then capture",T+": TrapManagerInstantCapture")],[("watermarks","levels and fill fractions",T)],["return value of every visit"])
p("C07","Tracking elapsed times is equivalent to tracking fill fractions",
 "For species with a single lifetime, a manager that tracks elapsed times exchanges the same electrons at every visit as one that tracks fill fractions. For species with a continuum of lifetimes the exchange equals that of the same continuum represented by many species of single lifetimes, in single visits as in whole readouts and alongside other groups of traps.",
 H,"every history of clouds; every log-normal continuum",
 "Tests check single values of one continuum; equivalence is over histories.",
 [T,TR],[("elapsed-time levels",T+": TrapManagerTrackTime"),("fill fraction <-> elapsed time",TR)],[("watermarks","levels and elapsed times",T)],["return value of every visit"])
p("C08","A full readout equals the documented model, transfer by transfer",
 "With every transfer computed, add_cti returns for every image exactly what follows from the documented model: each pixel makes as many transfers as its distance from the readout (plus offset), each transfer moves the clouds past the traps of every phase in the documented steps and dwell times, and traps keep or lose their electrons between transfers and columns as requested. This holds for any number of phases, widths of phases, per-phase or custom wells, several trap groups and every combination of the readout's switches, in both directions.",
 I+CF,"every image, CCD, set of trap groups, offset and combination of readout switches",
 "Stored images cover a handful of configurations; the combination of clocking, phases and state carried over is unbounded.",
 [M,U,R,T],[("main clocking loop",U+": cy_clock_charge_in_one_direction"),("clock sequence and matrices",R)],None,["output of add_cti"])
p("C09","Columns do not influence each other, and each is read in order",
 "When traps are emptied between columns, the output of a column is the same whether it is read alone, among other columns, or in any order; a column window treats exactly its columns and leaves all others untouched. When traps are not emptied, a column depends only on itself and the columns before it.",
 I+CF,"every image, permutation, subset and window of columns, in every mode and express",
 "Tests have one or two columns and do not relate executions.",
 [U],[("trap states emptied or stored at each column",U)],None,["output of add_cti"])
p("C10","Serial clocking is parallel clocking of the transposed image, applied second",
 "Serial clocking of an image equals parallel clocking of its transpose with the same objects, windows swapped accordingly. Asking for both directions at once equals a parallel call followed by a serial call on its result, with row, column and time windows applied to both.",
 I+CF,"every image (square or not), both directions with any settings and windows",
 "Tests compare a few square images without windows.",
 [M,U],[("image transposed for serial clocking",M+": add_cti"),("windows handed to both directions",M+": add_cti")],None,["output of add_cti"])
p("C11","An offset equals that many empty rows in front of the image",
 "Reading an image out with offset k gives the same pixels as reading the image with k empty rows between it and the readout, in either direction, for standard readouts at any express below the number of rows and for charge-injection readouts with the default number of transfers.",
 I+CF,"every image, offset, direction, phase count and express",
 "Tests check matrices for single offsets; the relation between whole readouts is not observed.",
 [M,R,U],[("offset included in the number of transfers",R+": express matrices")],None,["output of add_cti"])
p("C12","A window treats exactly its pixels, as if the rest were not there",
 "With a row window [a,b) only rows the window's charge can reach change; with one phase only rows inside it do. The result inside equals the readout of the sub-image with offset a, and equals the full readout whenever nothing lies between the readout and the window. A window given with a step (every other row, say) treats just the rows it names. Windows combine with column windows, offsets and express.",
 I+CF,"every image, window, phase count, offset and express, both directions",
 "Tests check two windows on one image.",
 [M,U,R],[("window selects rows and columns of the loop",U),("window selects columns of the express matrix",R)],None,["output of add_cti"])
p("C13","Consecutive time windows add up to the whole readout",
 "When every transfer is computed and begins with empty traps, splitting a readout into consecutive time windows and feeding each result into the next gives the whole readout, and charge that arrives in between sees exactly the remaining transfers. At any express, a time window covering the readout gives the whole readout, one after its end changes nothing, and rows read out before the window starts no longer change.",
 I+CF,"every image, set of cuts, and charge added between them, at any express",
 "One test adds one cosmic ray; the partition must hold for every cut.",
 [M,U,R],[("time window clips cumulated transfers",R+": express_matrix_and_monitor_traps_matrix_from_pixels_and_express"),("states saved although transfers are outside the window",U)],None,["output of add_cti"])
p("C14","Every transfer of every pixel is counted exactly once by the express scheme",
 "For every readout type, image size, express, offset, window and time window, the express multipliers are non-negative and add up, per pixel, to exactly the number of transfers (or pumps) that pixel makes in that window. Integer multipliers are whole numbers, no multiplier exceeds the transfers one pass stands for, transfers through empty traps are never multiplied when so requested, and the passes to monitor are the ones in which transfers have an effect.",
 I+CF,"every size, express, offset, window, time window and integer or real multipliers, for all readout types",
 "Tests print a few matrices of at most a dozen rows.",
 [R],[("express, monitor and save matrices",R)],None,["the matrices returned by the readout objects"])
p("C15","Express computes the documented approximation and nothing else",
 "For every express the output is the documented approximation (each computed transfer stands for the stated number of transfers, traps carrying over as documented). An express at least as large as the number of transfers equals computing all of them bit for bit, and for weak traps the approximation error never exceeds the effect itself.",
 I+CF,"every image, express, offset, phase count and multiplier type",
 "Tests check a few expresses on one image within loose tolerances.",
 [U,R],[("multiplier applied to the net exchange",U),("multipliers",R)],None,["output of add_cti"])
p("C16","Charge injection moves every pixel through the same number of pixels",
 "In charge-injection readout every pixel makes exactly the requested number of transfers (by default the number of rows plus offset), each through empty traps column-wise in order: N transfers at once equal N readouts of one transfer, and moving the image or cutting out a window does not change the pixels. The readout object remembers nothing from earlier images.",
 I+H+CF,"every image, number of transfers, express, phase count, window and sequence of images",
 "Tests check matrices and one image; composition and reuse relate many calls.",
 [R,U],[("charge-injection matrices",R+": ROEChargeInjection")],None,["output of add_cti"])
p("C17","Trap pumping only moves charge between a pumped pixel and its neighbours",
 "Trap pumping, along columns or rows, changes only the pumped pixels and their direct neighbours, loses no charge except what the traps hold at the end, and pumps the pixels of a window (with or without a step) independently, one after the other. The result equals the documented pumping cycle repeated the requested number of times, for any number of phases, and any express multipliers add up to that number.",
 I+CF,"every image, pixel or window of pixels, number of pumps and phases, express",
 "Tests pump a single pixel of a flat image.",
 [R,U],[("pumping clock sequence and matrices",R+": ROETrapPumping")],None,["output of add_cti"])
p("C18","Clock sequences describe clouds moving one phase at a time past every phase",
 "For any number of phases, every readout type has exactly one high phase per step; each phase captures from the cloud above it and releases to the nearest cloud(s), equally when two are equally near and summing to one, moved one pixel away from readout where that is requested. The pixels a sequence accesses are exactly those it names, and with forced release away from readout none lies towards the readout.",
 CF,"every readout type with any number of phases and switches",
 "Tests spell out one, two, three and four phases.",
 [R],[("clock sequence",R+": _generate_clock_sequence")],None,["clock_sequence of the readout objects"])
p("C19","Correcting iterates the documented recursion and undoes weak CTI",
 "remove_cti with n iterations returns exactly x after n applications of x <- x + (image - add_cti(x)) starting from the image, for images of any numeric type, every mode and every window of rows, columns and transfers, in both directions; zero iterations return the image. For weak traps it restores the image that was degraded, and degrading the result again restores the observed one; the caller's image is never modified.",
 I+CF,"every image, number of iterations, mode, window and direction",
 "Tests correct one image and compare within a percent.",
 [M],[("iterative correction",M+": remove_cti")],None,["output of remove_cti"])
p("C20","Results depend on the arguments alone",
 "Equal arguments give bit-identical results: on repeated calls, with reused, fresh, copied or pickled objects or ones whose values were set later, after other calls and after failed calls, for every memory layout of the image, and for concurrent calls from several threads sharing the objects. Calls modify neither the caller's arrays nor the objects passed, nor global random, numpy or warning state.",
 H+SC+I,"every sequence of calls, thread schedule, object history and array layout",
 "Tests make single calls on fresh objects in one thread.",
 [M,U,T,R],[("inputs copied before clocking",M),("managers built per call",U)],None,["outputs, arguments and global state before and after calls"])
p("C21","No call reads or writes outside its arrays",
 "For every valid input (any image size from one pixel, window, offset, express, phase count, number of transfers, trap density and length of history) the compiled code never indexes outside its arrays and has no undefined behaviour.",
 I+CF+H,"every valid input of every public entry to the compiled code",
 "The extension is compiled without bounds checks, so tests pass while memory is corrupted.",
 [U,TU,T],[("memoryview loops without bounds checks",U),("watermark loops without bounds checks",TU)],[("watermarks","fixed-size array of levels",T)],["bounds-checked and sanitizer builds"])
p("C22","Cloud volumes follow the documented well-filling law in every phase",
 "The fraction of a pixel filled by n electrons is ((n - notch) / (full well - notch)) limited to 0..1, raised to the fill power, per phase; no electrons fill nothing and larger clouds never fill less. Widths of phases are normalised to add up to one, a bloom level defaults to the full well, all ways of asking agree, and per-phase parameters of the wrong number are refused.",
 I+CF,"every electron count and every CCD, scalar or per-phase parameters",
 "Tests evaluate a few counts for one CCD.",
 [C],[("well filling",C+": well_filling_function")],None,["values of the filling function"])
p("C23","Capture and release probabilities solve the two-state rate equations",
 "For every species and dwell time, the probabilities of capture, of staying full and of release are the exact solution of the capture/release rate equations, lie between 0 and 1, and compose: two dwell times in a row equal one of their sum. Zero capture time means instant capture; fill fraction and elapsed time are inverse; ellipticities are proportional to density and add up; omitted parameters take their documented defaults.",
 I,"every release and capture timescale and dwell time",
 "Tests evaluate a few timescales.",
 [T,TR],[("fill probabilities",T+": fill_probabilities_from_dwell_time"),("exponential release",TR)],None,["returned probabilities"])
p("C24","Continuum traps integrate their lifetime distribution accurately",
 "For traps with a distribution of lifetimes, the fill fraction after any time is the average of exp(-t/tau) over that distribution, never grows with time, and the released fraction is its drop over the dwell time. The elapsed time computed from a fill fraction reproduces that fill fraction.",
 I,"every median over many decades, width, time, and user-supplied distribution",
 "Tests check one distribution at a few times with loose tolerances.",
 [TR],[("numerical integration and inversion",TR+": TrapLifetimeContinuumAbstract")],None,["returned fractions and times"])
p("C25","The HST ACS preset follows the published model at every date",
 "For every date since launch the preset returns three instant-capture species whose total density and release times follow the published piecewise model (growth with time, change at the 2006 temperature change and at the 2009 repair) with the published well and clocking; dates before launch are refused. A readout with the preset equals the documented model, and correcting with it restores the image.",
 I,"every Julian date from launch on, including the days around the changes",
 "Tests evaluate one or two dates.",
 [M],[("preset",M+": model_for_HST_ACS")],None,["returned objects"])
p("C26","Poisson traps are whole numbers, reproducible, and keep the species' properties",
 "For every species list, image shape and seed, one trap of each species is drawn for each column; each holds a whole number of traps per column, with the mean set by the density, and keeps the species' timescales; columns and species are drawn independently. Equal seeds give equal traps and the input species are untouched.",
 I,"every species list, shape and seed",
 "Tests check one seed.",
 [TR],[("Poisson draw",TR+": poisson_trap")],None,["returned traps"])
p("C27","Readout is invariant under units, order, splitting and padding of trap species",
 "The result of a readout does not change when times, electrons or phase widths are expressed in other units, when species are reordered, split into identical parts, or joined by species of zero density, or when parameters are given per phase instead of once or traps in a flat instead of a nested list.",
 I+CF,"every readout and every such rewriting",
 "Tests run single configurations; the property relates pairs of them.",
 [T,TU,C,M],[("densities weight sums over species",T)],None,["output of add_cti"])
p("C28","Frames come back as frames: same values, type and metadata",
 "add_cti and remove_cti on an autoarray frame return a frame of the same class with the values plain arrays would give, masked pixels kept masked at zero, and mask, readout corner, scans and exposure information unchanged; the input frame is untouched.",
 I+CF,"every frame class, corner, mask and direction",
 "Tests check one frame per corner.",
 [M],[("frame type restored",M+": add_cti, remove_cti")],None,["returned frames"])
p("C29","Saving, restoring and emptying trap states recovers exactly the saved state",
 "For every sequence of visits, saves, restores and emptyings over all phases and trap groups, behaviour after a restore is that of the state last saved (empty if none), and after emptying that of new traps; saved states are not changed by later visits. Traps are shared over phases by their widths without altering the caller's species.",
 H,"every sequence of operations over phases and groups",
 "Tests save and restore once.",
 [T],[("save, restore, empty",T+": AllTrapManager")],[("saved trap states","copy of all levels",T)],["return values of visits and trapped electrons"])
p("C30","Nothing happens when no trap can act",
 "An image comes back unchanged (as a new array) when there are no traps, when all densities are zero, when every cloud lies within the notch, or when no direction is clocked; correcting it changes nothing either.",
 I+CF,"every image, mode, express, window and offset in such configurations",
 "Tests check one image without traps.",
 [M,U,T],[("no capture without volume",T)],None,["output of add_cti and remove_cti"])
open(ROOT/"properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))

TECH={"C21":"compiler sanitizers (ASan+UBSan) and a bounds-checked build under hostile workloads",
"C20":"metamorphic runtime monitor over repeated, reordered and multi-threaded executions with forced thread switches"}
for x in ("C04",): TECH[x]="runtime invariant monitor over recorded histories"
for x in ("C05","C06","C08","C15","C23","C24","C25","C29","C18","C22"): TECH[x]="runtime monitoring against an executable reference model"
for x in ("C01",): TECH[x]="runtime conservation monitor with a reference-model ledger"
for x in ("C14",): TECH[x]="runtime accounting (exactly-once) monitor over the emitted transfer matrices"
NOTE="Held on the executions the seeded workload produced (counts in the evidence file); nothing is claimed for inputs outside the generator's ranges."
ms=[]
for x in P:
    i=x["id"]
    ms.append({"property":i,"quick_cmd":f"python3 check.py {i}","thorough_cmd":f"VERIF_TIER=thorough python3 check.py {i}",
      "technique":TECH.get(i,"runtime monitoring: metamorphic and reference-model oracles over generated executions"),"level":"exploration",
      "level_note":NOTE+(" Trusts the independent reference model in lib/." if i in ("C01","C05","C06","C07","C08","C13","C15","C16","C17","C25","C29") else "")})
json.dump({"version":1,"setup_cmd":"python3 lib/build.py","checks":ms,"not_applicable":[],
 "notes":"No hooks in /repo: monitors watch the public API, the documented manager objects, and instrumented builds (bounds-checked, ASan+UBSan) made outside /repo from its working tree."},open(ROOT/"MANIFEST.json","w"),indent=1)
open(ROOT/"MANIFEST.json","a").write("\n")
