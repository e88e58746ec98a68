# Generates /verif/properties.jsonl (kept as a script so that ids stay in one place)
import json
C="pygrt/C_extension/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":mech,"where":files[0]}]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","A model file fixes the medium at every depth, source and receiver",
"The layered medium a command works with is exactly the one the model file describes (thickness or, on request, top-depth first column; comments, blank lines and CRLF ignored), with the medium at a source or receiver being that of the layer containing its depth and, on an interface, that of the layer above it. Source and receiver parameters recorded in outputs, vertical travel times and the stored model all agree with it, whatever the number of layers and wherever the depths fall. A malformed or non-physical model is refused with a non-zero exit and no result.",
["inputs","configurations"],"every model file (number of layers, thicknesses, depth form, liquid layers, comments) and every source/receiver depth pair, including equal depths, depths on interfaces, at the surface and in the half-space",
"the tests use two or three fixed models with depths strictly inside layers and never compare the medium recorded in an output with the file",
[C+"common/model.c",C+"common/travt.c",C+"static/grt_static_greenfn.c",C+"dynamic/grt_greenfn.c"],"model file reader, virtual-layer insertion at source and receiver depth","travt output, user1..user8 SAC headers, src_*/rcv_*/model in the static library")
p("C02","Lists and ranges expand to exactly the values they denote",
"Wherever a command takes start/end/step, it works on exactly start, start+step, ... up to and including the end when the end is on the progression, and a comma list or a file of numbers denotes exactly its entries in order. Non-positive steps, start beyond end, and (where values must be non-negative and strictly ascending) negative, repeated or descending values are refused with a non-zero exit and no output.",
["inputs","configurations"],"every decimal start/end/step, every list, every command that takes one (travt, greenfn, static greenfn, static syn, okada, eigenv, eigenfn, disp2asc, kernel, lamb1)",
"tests pass a handful of ranges with integral steps and never count the points that come out",
[C+"common/util.c",C+"static/grt_static_greenfn.c",C+"static/grt_static_syn.c",C+"okada/grt_okada.c",C+"tools/grt_travt.c",C+"modal/grt_eigenv.c",C+"lamb/grt_lamb1.c"],"range expansion floor((end-start)/step)+1 and the shared number-array parser","coordinates in the output files, rows printed, directories created")
p("C03","Green's function runs write exactly the planned files",
"A Green's-function run creates, for every (source depth, receiver depth, distance) of the request, its own directory holding exactly the component files implied by the selected source types (no T component for axisymmetric ones, only explosion sources in a liquid source layer, plus z- and r-derivative files when asked), each with headers that identify the depths, distance, sampling and media. Different combinations never share a directory, repeating runs in the same output root never disturbs combinations not requested again, and a root holding unrecognised content is refused without being touched.",
["inputs","histories","configurations"],"every set of depths and distances, every source selection and derivative flag, solid or liquid source/receiver layers, every sequence of runs into the same root",
"tests check that a few runs succeed; they do not enumerate the files, compare headers, or run into a used directory",
[C+"dynamic/grt_greenfn.c",C+"common/util.c",C+"common/sacio.c"],"output planning, directory naming, -G selection, output root check","directory tree and SAC headers")
p("C04","syn picks the one Green's function that was asked for",
"Given a Green's-function root, syn uses the single stored (source depth, receiver depth, distance) combination that matches all the depth and distance selectors given (numerically, within rounding), and given a leaf directory it uses that one. A selector may be left out only where the root has a single value. When no combination, or more than one, matches, it fails with a non-zero exit and writes nothing.",
["inputs","histories"],"every set of stored combinations (including ones whose values are close or whose names are prefixes of one another) and every subset of selectors",
"tests select among very few directories with well separated values",
[C+"dynamic/grt_syn.c"],"scan of the root, numeric selector matching","synthetics and their headers")
p("C05","Seismograms are the exact source-weighted sum of Green's functions",
"For every source type (explosion, single force, shear, tensile, moment tensor) the synthetic Z, R, T traces are exactly the documented linear combination of the stored Green's functions with the documented dependence on azimuth, source angles or tensor/force components and scale factor (times source shear modulus when requested). The N/E output is the rotation of that by the azimuth, and the requested spatial derivatives are the z-, r- and (1/r)d/dtheta-derivatives of the same combination, for every azimuth, magnitude and sign.",
["inputs","configurations"],"every azimuth, strike/dip/rake, tensor, force, scale, distance (zero included), output frame and derivative flag",
"tests run each source type with one parameter set and only look at the exit status",
[C+"common/radiation.c",C+"dynamic/grt_syn.c",C+"common/coord.c"],"radiation coefficients, channel combination, rotation of vectors and gradients","SAC files written by syn")
p("C06","Time functions, integration and differentiation act as documented",
"A time function applied by syn convolves every output trace (derivative traces included) with it times the sampling interval, as a damped periodic convolution in which wrap-around is suppressed by the Green's function's imaginary frequency; integration is the trapezoidal cumulative sum from zero and differentiation the central difference with one-sided ends, applied the requested number of times in the order convolve, integrate, differentiate. The built-in parabola, trapezoid and Ricker signals have the documented shape with unit peak on the sampling grid, and the stored time function is the one used.",
["inputs","configurations"],"every trace, time function (built-in or file, shorter or longer than the trace), damping, and numbers of integrations and differentiations",
"tests run one time function of each kind and do not look at the samples",
[C+"dynamic/signals.c",C+"dynamic/grt_syn.c"],"circular convolution with damping, trapezoid, central differences","SAC samples in syn output, sig.sac")
p("C07","Dynamic strain, stress and rotation follow from the synthetics",
"strain, rotation and stress computed in a syn output directory are sample by sample the symmetric and antisymmetric parts of the displacement gradient (with the curvilinear terms in the ZRT frame, finite at zero distance) and Hooke's law with the elastic moduli of the receiver medium, in the frame of the synthetics and with exactly six, three and six output files. They depend only on the synthetics, not on which of the three was run before or how often, and without derivative files they fail and write nothing.",
["inputs","histories","configurations"],"every synthetic (values, frame, distance including zero, attenuating or purely elastic medium, solid or liquid receiver) and every order and repetition of the three commands",
"tests run each command once in a fixed order and do not compare with the gradient",
[C+"dynamic/grt_strain.c",C+"dynamic/grt_stress.c",C+"dynamic/grt_rotation.c"],"tensor formulas on SAC traces, moduli from SAC headers","strain_*.sac, stress_*.sac, rotation_*.sac")
p("C08","A static library entry depends only on its own depths and distance",
"Every value in a static Green's-function library, its recorded coordinates and its recorded media are those of its own (source depth, receiver depth, distance), independent of how many other depths and grid points were requested with it, of their order on the axes, of repeated distances and of the number of threads. Splitting a request into several or merging several into one changes no value beyond numerical tolerance, and requesting derivatives does not change displacements.",
["inputs","configurations","schedules"],"every grid, every set of source and receiver depths (on either side of each other and on interfaces), every thread count",
"tests compute one library per option and never recompute an entry on its own",
[C+"static/grt_static_greenfn.c",C+"static/stgrnlib.c",C+"static/static_grn.c"],"loop over depth pairs, distance deduplication and scatter to the grid, netCDF layout","static library netCDF")
p("C09","Static displacements interpolate the library in depth and distance",
"static syn returns, at every receiver, the synthesis of the library's Green's functions interpolated linearly in epicentral distance and bilinearly in source and receiver depth, exact at library nodes, with the azimuth measured from the source at the origin and for grid, point-list and native-grid receivers alike. Receivers beyond the library's distances are skipped with a warning leaving zero, depths outside the library are refused, and the result does not depend on the spacing of the library's grid or on the other receivers requested.",
["inputs","configurations"],"every library (uniform or irregular or duplicated distances, one or several depths) and every receiver set inside, on the edge of, or outside it, for every source type",
"tests interpolate on one library with a handful of receivers and compare a few numbers",
[C+"static/grt_static_syn.c",C+"static/stgrnlib.c",C+"common/search.c",C+"common/coord.c"],"corner weights in depth, distance bracket search, duplicate handling","static syn netCDF")
p("C10","A finite fault is the sum of its sub-faults",
"The static field of a Coulomb-format finite-fault file is the sum over all faults and all rectangular sub-faults, which tile each fault's length and width exactly for any requested sub-fault size, of point sources at the sub-fault centres with strength area times slip (or the documented equivalent for each Kode), seen from each receiver in true geographic directions. Refining, splitting a fault into its halves or reordering the faults in the file change nothing beyond the discretisation, and the native grid equals the same receivers requested explicitly.",
["inputs","configurations"],"every fault geometry, Kode 100 to 500, sub-fault size (dividing the fault or not, larger than it), and set of receivers",
"tests run a few .inp files and only look at the exit status or one comparison",
[C+"common/finite_fault.c",C+"static/grt_static_syn.c"],"fault file reader, sub-fault tiling, slip-to-source conversion, accumulation","static syn netCDF")
p("C11","Static strain, stress and rotation follow from the static field",
"static strain, rotation and stress add to a static result exactly the symmetric and antisymmetric parts of its displacement gradient and Hooke's law with each receiver's own moduli, for grid and point layouts, in ZRT (curvilinear terms, finite at zero distance) and ZNE frames. They leave every existing variable untouched, give the same values in whichever order they are run, refuse inputs without derivatives, and a refused or repeated run does not corrupt the file.",
["inputs","histories","configurations"],"every static result file and every order and repetition of the three commands",
"tests run the three once each on one grid",
[C+"static/grt_static_strain.c",C+"static/grt_static_stress.c",C+"static/grt_static_rotation.c"],"tensor formulas on netCDF variables","netCDF variables strain_*, stress_*, rotation_*")
p("C12","Receiver lists are read row by row as written",
"A receiver file yields exactly one output point per data row, in file order, at the given north, east and depth, with comments, blank lines, extra white space and CRLF ignored; rows of three or six columns (all rows alike) are accepted and the three orientation angles never change displacement results. Rows with a wrong number of columns, non-numeric fields or negative depth are refused with a non-zero exit and no output file.",
["inputs"],"every receiver file",
"tests use one well-formed file",
[C+"static/recv_points.c",C+"static/grt_static_syn.c",C+"okada/grt_okada.c"],"receiver file parser","north/east/depth variables in the point-layout output")
p("C13","Results do not depend on threads, batching or run order",
"Green's functions computed with any number of threads are identical, and computing several distances, source depths, receiver depths or source types in one run gives the same traces as computing each alone with the same integration parameters. Asking for derivatives, or for fewer source types, does not change the traces that are produced.",
["schedules","inputs","configurations"],"every thread count and every partition of a request into runs",
"tests never compare two runs with each other",
[C+"dynamic/grn.c",C+"dynamic/grt_greenfn.c",C+"integral/integ_process.c",C+"integral/k_integ.c"],"OpenMP loop over frequencies with per-thread copies, shared kernels for all distances","SAC samples")
p("C14","Travel times are the first arrivals of the layered model",
"travt reports, for every distance, the earliest P and S arrival over direct and head-wave paths of the model: non-negative, zero only at zero distance and equal depth, equal to the sum of thickness over velocity straight above the source, never decreasing with distance, never later than the straight path at constant speed or any refracted path, the same when source and receiver depth are exchanged, and independent of the other distances requested and of how the layers are subdivided. S times in media where S cannot pass are reported as unavailable.",
["inputs"],"every model and source/receiver depth and set of distances",
"tests print a few travel times and compare none",
[C+"common/travt.c",C+"tools/grt_travt.c"],"ray-parameter search for direct and head waves","travt output, t0/t1 headers")
p("C15","Equivalent descriptions of a model give the same Green's functions",
"Splitting a layer into layers of the same material, giving depths instead of thicknesses, extending the half-space by explicit layers of the same material, and reformatting or commenting the file do not change dynamic or static Green's functions, dispersion curves or Okada-equivalent fields beyond numerical tolerance. The material of layers beyond the region enclosed between free surface and half-space is never reordered or merged with different ones.",
["inputs","configurations"],"every model and every sequence of material-preserving rewrites of it",
"tests never compute two descriptions of the same medium",
[C+"common/model.c",C+"common/RT_matrix.c",C+"integral/kernel.c",C+"integral/kernel_template.c_",C+"dynamic/layer.c",C+"static/static_layer.c"],"recursion over layers, reflection/transmission at identical-material interfaces","SAC samples, static library values, dispersion curves")
p("C16","Green's functions obey source-receiver reciprocity",
"Exchanging source and receiver of point forces gives the same displacement component: the vertical response to a vertical force, the transverse and radial responses to a horizontal force are symmetric in the two depths, and the vertical response to a horizontal force equals, with the sign fixed by the component conventions (Z up, R away from the source), the radial response to a vertical force at exchanged depths. Moment sources are the corresponding derivatives of point forces, so the same exchange relates their displacements to the displacement derivatives of forces. This holds for dynamic and static Green's functions with source above, below or level with the receiver, within any layers.",
["inputs","configurations"],"every model and every pair of source and receiver depths",
"tests never exchange source and receiver",
[C+"integral/kernel_template.c_",C+"dynamic/source.c",C+"static/static_source.c",C+"static/static_layer.c",C+"dynamic/layer.c"],"source and receiver terms of the reflectivity kernel for both relative positions","SAC samples and static library values of VF and HF")
p("C17","Okada solutions agree with geometry, superposition and the static library",
"The analytic half-space solution obeys the same conventions as the rest of the package: cutting a rectangular fault into pieces and adding their fields gives the whole, a small fault equals the point-source static synthesis of the same mechanism in the same half-space, rotating or translating source and receivers together rotates or translates the field, ZRT and ZNE outputs are rotations of each other, and fields scale linearly with slip. Its strains, stresses and displacement derivatives are those of its displacements.",
["inputs","configurations"],"every fault geometry, mechanism, half-space and receiver set (below and at the surface)",
"tests compare a few published values at fixed geometries",
[C+"okada/okada.c",C+"okada/grt_okada.c"],"analytic expressions and the rotation to the output frame","okada netCDF output")
p("C18","Dispersion curves are complete, ordered and stable",
"For every frequency the surface-wave phase velocities reported are those of the guided modes of the model, with none missing and none spurious or repeated (modes closer than 1e-4 to a layer velocity excepted), are numbered in strictly increasing order, lie inside the allowed velocity band, and asking for the first k modes gives exactly the first k of a longer request. They do not depend on the number of threads, on the other frequencies computed, or on a result file already there, and the listing of a result file repeats it.",
["inputs","schedules","configurations"],"every model, frequency set, mode count and thread count",
"tests compute one dispersion curve and never compare two",
[C+"modal/grt_eigenv.c",C+"modal/root.c",C+"modal/secular.c"],"root search per frequency, per-thread precision switch","eigenv netCDF, disp2asc output")
p("C19","Mode and frequency selection is a pure filter",
"Selecting modes and frequencies in eigenfn, modsum or disp2asc yields exactly the corresponding subset of the unselected result, unchanged, and modal summation over all modes is the sum of the single-mode results. A selection that names something absent is reported rather than replaced by something else.",
["inputs","configurations"],"every dispersion file and every mode list/range and frequency list/range",
"tests run a few selections without comparing them",
[C+"modal/modal_util.c",C+"modal/grt_eigenfn.c",C+"modal/grt_modsum.c",C+"tools/grt_disp2asc.c"],"frequency and mode filters","netCDF/SAC/ASCII output")
p("C20","The time window can be moved and resampled without changing the motion",
"Changing the start time, upsampling, or lengthening the window of a Green's-function run (wavenumber integration or modal summation) gives the same motion on common samples: the start time recorded equals the requested delay (plus straight-line distance over the reduction velocity, or plus the first P arrival for -Ep), upsampling by n keeps every n-th sample, the window of half the length and the same imaginary frequency is the longer one folded with its damping, complementary frequency bands of an elastic medium add up, and the recorded sampling interval, number of samples, depths, distance and travel-time picks are those requested.",
["inputs","configurations"],"every delay, reduction velocity, upsampling factor and window length that contains the same signal",
"tests never compare two windows of the same motion",
[C+"dynamic/grt_greenfn.c",C+"dynamic/grnspec.c"],"phase shift for the start time, zero-padding for upsampling, damping compensation","SAC b/delta/npts and samples")
p("C21","All integration schemes converge to the same Green's function",
"Discrete wavenumber, Filon, self-adaptive Filon, direct convergence and peak-trough averaging are only different ways of computing the same integral: with adequate parameters, dynamic and static Green's functions agree between them within their stated accuracy for every source type, component and derivative.",
["inputs","configurations"],"every model, depth pair and distance within the validity of the methods",
"tests run the methods but do not compare them",
[C+"integral/dwm.c",C+"integral/fim.c",C+"integral/safim.c",C+"integral/dcm.c",C+"integral/ptam.c",C+"integral/quadratic.c"],"integration of the kernels with Bessel functions","SAC samples and static library values")
p("C22","ASCII exports are faithful",
"The text printed for a SAC trace, a wavenumber kernel file or a dispersion file contains every sample of the binary, once, in order, at its own abscissa, to the printed precision, and nothing is invented for missing or malformed input, which is refused with a non-zero exit.",
["inputs"],"every well-formed or truncated binary file",
"tests only run the exporters",
[C+"tools/grt_sac2asc.c",C+"tools/grt_ker2asc.c",C+"tools/grt_disp2asc.c",C+"common/sacio.c"],"binary readers and printers","standard output")
p("C23","Invalid or contradictory options stop the command before any output",
"Every command refuses unknown options, missing mandatory options, options whose values cannot be read or lie outside their documented range, and mutually exclusive combinations, with a non-zero exit status and a message (never a crash), and in that case creates or changes no output. Every documented valid combination is accepted and its effect does not depend on the order of the options.",
["inputs","configurations"],"every subset and order of options of every command with valid or invalid values",
"tests check a list of a few dozen single command lines",
[C+"dynamic/grt_syn.c",C+"static/grt_static_syn.c",C+"dynamic/grt_greenfn.c",C+"okada/grt_okada.c",C+"static/grt_static_greenfn.c"],"getopt loops and the checks after them","exit status, files")
p("C24","The Python functions run exactly the command they document",
"Each Python wrapper runs one command whose options carry exactly the values of its arguments (sequences as full-precision lists, tuples as ranges, None as absent), rejects contradictory arguments with an exception before running anything, reports a failed command as an exception, and returns what that command wrote. No argument is dropped, swapped, rounded or carried over between calls.",
["inputs","histories"],"every combination of arguments of every wrapper",
"tests call each wrapper with one or two argument sets",
["pygrt/cli.py","pygrt/pymod.py","pygrt/utils.py"],"argument formatting and subprocess invocation","argument vector received by the executable")
p("C25","Eigenfunctions, group velocities and sensitivities fit the dispersion curve",
"For every mode in a dispersion file, the eigenfunctions reported satisfy the equations of motion of the model in every layer, the boundary conditions and continuity across interfaces; the energy integrals are those of these eigenfunctions and balance; the group velocity is the derivative of angular frequency by wavenumber of the dispersion curve; the phase- and group-velocity sensitivities are the changes that actually result from changing one layer's velocity or density (so they satisfy the scaling identities and add up over sub-layers). The values at one depth do not depend on which other depths are requested.",
["inputs","configurations"],"every model, mode, frequency and depth list",
"tests compare stored numbers for one model and never perturb a model",
[C+"modal/eigenfn.c",C+"modal/energy.c",C+"modal/modal_util.c",C+"modal/grt_eigenfn.c"],"propagated eigenfunctions, analytic layer integrals, finite differences over frequency","netCDF written by eigenfn -W -U -K")
p("C26","The closed-form Lamb solution is the surface response of a half-space",
"The displacement that lamb1 gives for a surface step force at a surface receiver is zero before the P arrival, constant after the Rayleigh arrival, rotates with the azimuth as a tensor does, is reciprocal, does not depend on the other times requested, equals the known elementary solution for a Poisson ratio of 1/4, and agrees with the wavenumber-integration and static Green's functions of the same half-space.",
["inputs"],"every Poisson ratio, azimuth and list of times",
"tests evaluate two Poisson ratios against stored output",
[C+"lamb/lamb1.c",C+"lamb/grt_lamb1.c",C+"lamb/elliptic.c"],"closed-form elliptic integrals and root cases of the Rayleigh function","rows printed by lamb1, arrays of pygrt.utils.solve_lamb1")
p("C27","Modal summation is the sum of the modes' far fields",
"The spectrum of every component written by modsum is, at every frequency, the sum over the selected modes of the far field that the mode's eigenfunctions, group velocity and energy integral predict for the source type (explosion, forces, double-couple components) at the source depth and for the receiver depth and distance, including radial and vertical derivatives; and it carries the surface waves of the full wave field computed by wavenumber integration.",
["inputs","configurations"],"every model, source and receiver depth, distance, source type, component and mode selection",
"tests run modsum on one model and compare with stored output",
[C+"modal/modgrn.c",C+"modal/grt_modsum.c",C+"modal/energy.c"],"product of source excitation, receiver eigenfunction and propagation factor per mode","SAC files written by modsum")
with open('/verif/properties.jsonl','w') as f:
    for r in P: f.write(json.dumps(r,ensure_ascii=False)+"\n")
for r in P:
    assert len(r['title'])<=80,r['title']
print(len(P))
