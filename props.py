"""Property texts. gen.py turns this into properties.jsonl and MANIFEST.json."""
TB = " Within the listed lattice sizes every field value is symbolic; arithmetic is read over the reals with a relative tolerance covering rounding."
PROPS = [
 dict(id="C01", title="Folding and unfolding lattices is lossless",
  statement="Folding a field into vector order and unfolding it again restores every value of the field and its velocity at its original site, in either precision and for real or complex fields, whatever the values. Slices extracted from a folded field (2D planes in either orientation, single slices) hold exactly the values the natural-order field has there, and the folded flag always says which order the data is in. Nothing outside the field buffers is written.",
  over=["inputs", "configurations"], q="all field values; precision x field type x operation x ghost width; lattice side 8 and 16, depth 3, 4 and 10",
  why="The example runs fold and unfold a handful of random configurations at one size and only look at aggregate output, so a permutation error on some site, lane or ghost slice passes.",
  files=["lib/scalar/folder.cpp", "include/scalar/folder.h", "lib/scalar/scalarField.cpp"],
  mech=[("Folder::foldField/unfoldField", "lib/scalar/folder.cpp"), ("Folder::unfoldField2D, unfoldField2DYZ, unfoldField2DSlice", "lib/scalar/folder.cpp")], obs=["Folder::operator()"],
  note="n=8,16; depth 3,4,10; Ng 1,2; every lattice element symbolic."+TB),
 dict(id="C02", title="One saxion update equals the discretised equation of motion",
  statement="One kick-and-drift of the complex field updates every site and both components exactly as the discretised equation of motion with periodic x,y boundaries prescribes, for each supported potential (PQ1, PQ2, PQ3 with QCD terms), damping mode and evolution restriction. Single and double precision follow the same equation. Sites outside the requested slice range and the input field are left as they were, and the result does not depend on block sizes or number of threads.",
  over=["inputs", "configurations"], q="all field, velocity and ghost values and physical parameters; 12 potential/damping combinations x 2 precisions x stencil widths x slice ranges x block sizes",
  why="Example runs use one potential at a few random states and print coarse averages; a wrong sign in one lane, boundary column or precision is invisible there.",
  files=["include/propagator/propXeon.h", "include/utils/simd.h"],
  mech=[("propagateKernelXeon, updateVXeon, updateMXeon", "include/propagator/propXeon.h"), ("opCode vector wrappers", "include/utils/simd.h")], obs=["propagateKernelXeon"],
  note="n=4 (double), 8 (single); depth 2; Ng 1..4, rows per vector lane at least 2 Ng; potentials with V_QCDL are outside."+TB),
 dict(id="C03", title="One axion-angle update equals the discretised field equation",
  statement="One kick-and-drift of the compact axion angle updates every site exactly as the discretised field equation prescribes: nearest-representative differences to the neighbours when the angle is treated modulo its period, plain differences otherwise, the selected QCD potential and periodic x,y boundaries. Single and double precision agree on the equation. The wrapped angle stays on the same representative the modulus rule defines, and sites outside the requested slice range are untouched.",
  over=["inputs", "configurations"], q="all angles, velocities, ghosts and coefficients; six QCD potentials x two precisions x wrapped or not x stencil widths x slice ranges x block sizes",
  why="A neighbour difference that forgets the wrap matters only on sites where the angle jumps by more than half a period; example runs contain few of those and never check them site by site.",
  files=["include/propagator/propThetaXeon.h", "include/utils/simd.h"],
  mech=[("propThetaKernelXeon, updateMThetaXeon", "include/propagator/propThetaXeon.h"), ("mod_pd, mod_ps", "include/utils/simd.h")], obs=["propThetaKernelXeon"],
  note="n=8 (double), 16 (single); depth 1-3; Ng 1-3, rows per vector lane at least 2 Ng; sine and cosine are uninterpreted (their accuracy is a separate property); V_QCDL with a symbolic quartic term only where both precisions implement it."+TB),
 dict(id="C04", title="Non-relativistic and gravity kernels follow their site equations",
  statement="Every stage of the non-relativistic solver (kinetic step, self-interaction phase, gravitational phase, density extraction, addition of a mean) and of the naxion variable-change solver, and each sweep of the gravitational potential relaxation, computes at every site what its discretised equation says, in both precisions, with periodic x,y boundaries, and writes only the slices it was asked to update. A potential that already solves the discrete Poisson equation is left unchanged by relaxation.",
  over=["inputs", "configurations"], q="all field and potential values and coefficients; stage x precision x stencil width x slice range x block size that divides the rows",
  why="These kernels have no unit test at all; a wrong neighbour on one boundary column or lane changes a run only slightly.",
  files=["include/propagator/propPaxXeon.h", "include/propagator/propNaxXeon.h", "include/gravity/gravityPaxionXeon.h"],
  mech=[("propagatePaxKernelXeon", "include/propagator/propPaxXeon.h"), ("propagateNaxKernelXeon", "include/propagator/propNaxXeon.h"), ("gravity kernels", "include/gravity/gravityPaxionXeon.h")], obs=["propagatePaxKernelXeon"],
  note="n=4..16; depth 1-3; Ng 1-3, rows per vector lane at least 2 Ng; block heights that divide the number of rows (the kernels require it)."+TB),
 dict(id="C05", title="Halo exchange delivers exactly the neighbour slices",
  statement="After a halo exchange on any number of ranks arranged in a ring along z, each rank's ghost slices below hold the last slices of the previous rank, those above hold the first slices of the next rank, and its own slices are unchanged. This holds for the field, the auxiliary field and (where it has ghosts) the velocity, for full or partial ghost widths, whether posting and waiting are separate or combined, and in whatever order ranks reach each phase. Messages of any size are split into consecutive pieces that add up to the whole.",
  over=["inputs", "schedules", "configurations"], q="all field values; 1-3 ranks; rank orders; ghost widths 1-3; all message sizes up to ten pieces",
  why="Tests run one rank count and one size; swapped directions, wrong offsets for partial widths and the large-message path are not reached by a small run.",
  files=["lib/scalar/scalarField.cpp", "include/scalar/scalarField.h"],
  mech=[("Scalar::sendGeneral, sendGhosts, sendGhosts2, exchangeGhosts", "lib/scalar/scalarField.cpp")], obs=["Scalar::sendGhosts"],
  note="1-3 ranks, n=4,8, depth 2-4, Ng 1-3; MPI itself is a model (ordered point-to-point delivery); message size symbolic up to 10 pieces."),
 dict(id="C06", title="One time step composes the integrator stages exactly",
  statement="Propagating one step applies the declared stages of the integrator in order: every slice of the local slab is kicked and drifted exactly once per stage with that stage's coefficients, the mass, scale factor and R''/R used are those of the conformal time reached at that stage, time and scale factor end at t+dt, the result is in m with the field left folded as declared, and the outcome does not depend on how deep the slab is relative to the ghost width.",
  over=["inputs", "configurations", "schedules"], q="all field and velocity values at every site (potentials linear in the field), dt, coefficients; depths 1-4, ghost widths 1-2; field kinds saxion, axion, wrapped axion, low-memory saxion, paxion, naxion",
  why="Tests run one geometry with depth far above the ghost width and only look at aggregates; a slice updated twice or a stale stage parameter changes numbers by small amounts.",
  files=["include/propagator/propClass.h", "lib/propagator/propagator.cpp"],
  mech=[("PropClass::sRunCpu, tRunCpu, lowCpu, pRunCpu, nRunCpu", "include/propagator/propClass.h"), ("propagate()", "lib/propagator/propagator.cpp")], obs=["propagate"],
  note="n=4..16, depth 1-4, one rank (halo through the ring model); RKN4, and for the complex field and the angle also the leapfrog, split leapfrog and both Omelyan integrators (compile-time options); linear potentials so the whole step stays linear in the field."),
 dict(id="C07", title="Energy totals and maps equal the energy densities of the field",
  statement="For every field configuration energy() returns, component by component (gradient x,y,z, kinetic, potential; angular and radial for saxions; mean rho), the lattice mean of the corresponding energy density of the declared potential at the current scale factor; masked sums count exactly the masked sites; the energy map holds each site's density in natural site order, independent of precision, folding, ghost width and thread count; totals-only requests leave the auxiliary field alone and the field and velocity are never changed.",
  over=["inputs", "configurations", "schedules"], q="all field and velocity values at every site; all implemented potentials; masks with symbolic bits; saxion, low-memory saxion, axion, wrapped axion, paxion; both precisions; two or three threads",
  why="Tests look at totals printed by one run; a wrong component, a site in the wrong place of the map, a missing factor in one precision or one potential passes unnoticed.",
  files=["lib/energy/energy.cpp", "lib/energy/energyXeon.cpp", "lib/energy/energyThetaXeon.cpp", "lib/energy/energyPaxionXeon.cpp"],
  mech=[("energy(), Energy::runCpu", "lib/energy/energy.cpp"), ("energyKernelXeon", "lib/energy/energyXeon.cpp"), ("energyThetaKernelXeon", "lib/energy/energyThetaXeon.cpp"), ("energyPaxionKernelXeon", "lib/energy/energyPaxionXeon.cpp")], obs=["energy"],
  note="n=4,8,16, depth 1-4, Ng 1-4, one rank; reals with stated tolerance; sine uninterpreted; V_QCDL and the naxion energy are unimplemented in the code and outside the claim."),
 dict(id="C11", title="Histograms count every value once, in the right bin",
  statement="The histogram of a data set spans exactly from its smallest to its largest (filtered) value, every unpadded datum is counted in exactly one bin, the one whose interval contains it, the bins are normalised as a density (sum times step is one), padding columns are ignored, and neither the thread count nor the order of the data matters; the stand-alone extremum search returns the true extremes.",
  over=["inputs", "schedules", "configurations"], q="all data values (up to 4 symbolic in up to 9), 3 and 5 bins, row padding, filters, 2-4 threads",
  why="Tests do not look at histogram contents; an off-by-one at an interval edge or an ignored first element only shows for particular values.",
  files=["include/utils/binner.h"], mech=[("Binner::find, Binner::run", "include/utils/binner.h"), ("find<>", "include/utils/binner.h")], obs=["Binner::data", "find"],
  note="reals for floating point; values on bin edges follow the real-number quotient; infinities and NaN outside the claim."),
 dict(id="C08", title="Strings and domain walls are found where the field winds",
  statement="A plaquette of the lattice is flagged as a string, with the right sign, exactly when the phase of the complex field winds once around it, in all three orientations and across periodic boundaries; a site is flagged as a wall exactly when the field crosses the negative real axis on one of its forward edges. The reported totals of strings, net chirality and walls are the numbers of flags, the list of string positions contains each flagged plaquette once at its centre in half-lattice units, and mask bits are copied to the auxiliary field faithfully. Precision, vector order, ghost width and thread count make no difference.",
  over=["inputs", "schedules", "configurations"], q="all values of one to three complex sites in general position on backgrounds with and without defects, anywhere in the lattice; two precisions; ghost width 1-3; depth 1-3",
  why="Tests print total counts for one random field; a plaquette lost in one lane or at one boundary, or found in the wrong place, changes nothing they check.",
  files=["lib/strings/strings.cpp", "lib/strings/stringXeon.cpp"], mech=[("stringKernelXeon, stringCpu", "lib/strings/stringXeon.cpp"), ("strings, strings2, stMaskToCM2", "lib/strings/strings.cpp")], obs=["strings", "strings2", "stMaskToCM2"],
  note="general position only (no site exactly on the real axis, no edge through the origin); n=4,8; one rank; output map on the full-size lattice."),
 dict(id="C09", title="Conversions between field representations keep the physics",
  statement="Turning a complex field into its phase gives R times the phase of every point and its exact time derivative; the inverse gives modulus R with the given phase and velocity; turning an axion into its slowly varying envelope gives the adiabatic amplitude and phase; rescaling multiplies exactly the named array by the factor and leaves the others alone; normalising gives unit modulus with unchanged phase, and normalising cores puts the string profile on the unchanged phase; mending an angle field removes every 2 pi jump along lines, changes each point only by a multiple of 2 pi R, changes its velocity by the same multiple of 2 pi R', and touches nothing when there is no jump. All hold in every storage layout, precision, ghost width and expansion law.",
  over=["inputs", "configurations"], q="all field values, velocities, shifts and factors in a box; jump patterns from a family of 12; folded and unfolded, both precisions, ghost widths 1-2, R = ct^0..2 and the matter correction",
  why="A conversion happens once in the middle of a run; a wrong factor R or R' at that time leaves a plausible field and every later result is wrong.",
  files=["lib/scalar/thetaXeon.cpp", "lib/scalar/theta2CmplxXeon.cpp", "lib/scalar/theta2PaxionXeon.cpp", "lib/scalar/scaleXeon.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/normCoreXeon.cpp", "lib/scalar/mendThetaXeon.cpp"], mech=[("toThetaKernelXeon", "lib/scalar/thetaXeon.cpp"), ("th2cxXeon", "lib/scalar/theta2CmplxXeon.cpp"), ("th2PaxionXeon", "lib/scalar/theta2PaxionXeon.cpp"), ("mendThetaXeon", "lib/scalar/mendThetaXeon.cpp")], obs=["cmplxToTheta", "theta2Cmplx", "thetaToPaxion", "scaleField", "normaliseField", "normCoreField", "mendTheta"],
  note="conversion to the naxion representation (used by no program) is outside; angles within 1.5 of zero before the jumps are planted; core normalisation makes one site in seven symbolic at a time."),
dict(id="C10", title="The cosmological background is self-consistent",
  statement="At every conformal time the background functions agree with each other: Rp and Rpp are the first and second derivative of the scale factor over itself (with and without the matter correction), the axion mass follows its power law, is continuous where it saturates and where it is restored, and its reported time derivative and logarithmic derivative are its derivatives; the time integrals used by the spectral steppers are the first and second integral of mass squared times a power of the scale factor. Fields report the background's values. The adaptive time step is positive, resolves the fastest oscillation of the lattice by the requested factor, and a step that would carry the field past mass saturation ends just beyond it.",
  over=["inputs", "configurations"], q="all times, mass scales, thresholds, couplings, box sizes and step factors in wide ranges; integer expansion exponents 0-3 and mass exponents 0-6; all regimes of the mass",
  why="Tests run one cosmology; a wrong derivative or a jump of the mass changes the physics smoothly and nothing compares it to the definition.",
  files=["lib/cosmos/cosmos.cpp", "lib/scalar/scalarField.cpp"], mech=[("Cosmos::R, Rp, Rpp, AxionMass2, DAxionMass2Dct, DlogMARDlogct", "lib/cosmos/cosmos.cpp"), ("Scalar::dzSize, IAxionMassSqn, IIAxionMassSqn, updateR", "lib/scalar/scalarField.cpp")], obs=["Cosmos::Rp", "Scalar::dzSize"],
  note="tabulated cosmologies (Cosmos::Setup, splines read from a file) and non-integer exponents are outside; derivatives are taken with a seven-point formula exact for the polynomials involved; step-size claims with the matter correction or quadratic expansion assume a massless field."),
 dict(id="C12", title="Power spectra count every Fourier mode once, with the right weight",
  statement="The spectra of a cubic lattice are, bin by bin, the sum over the whole Brillouin zone of the squared modulus of the discrete transform of the named quantity, each mode counted exactly once in the bin of its wave number and normalised by the box volume and the number of sites: mode count and mean square wave number, power of the stored density, kinetic, gradient, mass and non-linear potential energy of the axion, of a complex field or of an angle field, with the gradient corrected for the finite difference. Masks (site flags, weight functions, powers of the modulus) multiply exactly the site they belong to. The string-corrected rates near a core interpolate their table linearly between its nodes. The field is left untouched, and memory layout, ghost width, precision, bin number and threads make no difference.",
  over=["inputs", "configurations", "schedules"], q="all field values (for the complex field: of one or two symbolic sites on a generic background), all masks and spectrum kinds, even cubic lattices of 4 to 8, all points within a cell of the correction table",
  why="A test cannot tell a mode counted twice, a mask one slice off or a swapped argument from a plausible spectrum.",
  files=["lib/spectrum/spectrum.cpp", "lib/utils/kgvops.cpp", "lib/fft/fftCode.cpp"], mech=[("SpecBin::fillBins, nRun, pRun", "lib/spectrum/spectrum.cpp"), ("buildc_k, buildc_gx, buildc_gyz, buildc_v, stringcorre", "lib/utils/kgvops.cpp"), ("FFTplan", "lib/fft/fftCode.cpp")], obs=["SpecBin::data"],
  note="cubic lattices on one rank; FFTW replaced by an exact DFT of the same layout; complex fields whose core correction is not triggered (that part is decided separately on stringcorre); masks AXIT/AXITV (which overwrite their own weights) and the experimental potential spectrum with smooth masks are outside; mass spectrum of smooth masks outside."),
 dict(id="C13", title="A checkpoint restores the run it was taken from",
  statement="A checkpoint (numbered configuration or restart file) that one program writes and a fresh program reads brings back the state: every site of field and velocity at its place (rounded only when the reader's precision differs from the file's), the field type, conformal time, lattice, box size and all physics parameters (coupling and its time dependence, every potential variant with its damping and evolution flags, axion-mass exponents, thresholds and saturation, damping strength, expansion exponent), the initial-condition description and, for a restart, the measurement counter and step; values given on the command line win over those of the file. Each datum of the file is written exactly once, whatever the number of ranks and the memory layout. Writing a checkpoint leaves the field untouched.",
  over=["crash_points", "inputs", "configurations"], q="all field and velocity values; all values of the physics parameters; all potential variants and IC kinds; 1 to 4 ranks; every precision pair; numbered and restart files",
  why="A run interrupted and resumed silently continues with different physics if one attribute is lost; no test compares the two.",
  files=["lib/io/readWrite.pHdf5.cpp"], mech=[("writeConf, readConf, writeAttribute, readAttribute", "lib/io/readWrite.pHdf5.cpp"), ("initPropagator state", "lib/scalar/scalarField.cpp")], obs=["writeConf", "readConf"],
  note="the HDF5 library is replaced by an in-memory model of its files, types, hyperslabs and attributes; ranks run one after another over a shared file; resizing on read, momentum-space fields, Naxion (writing it is not supported), the IC kinds VILGORK/VILGORS and AXITON (stored under the name of their family) and tabulated cosmologies are outside."),
 dict(id="C14", title="Measurement files hold exactly what was measured",
  statement="Every measurement a run stores is found in the measurement file under its name with the values the program held: density and string maps, full and reduced energy maps, energy totals with and without mask, spectra, single points, plane slices of the field in either direction and of the energy, projections, string counts and coordinates, and the header (field, precision, lattice, time, scale factor, masses, potential and initial-condition parameters). Every rank's part lands at its own offset and no datum is written twice or left out, for every rank number, ghost width, precision, memory layout and slice; no handle on the file stays open; measuring leaves field and velocity as they were.",
  over=["inputs", "configurations", "histories"], q="all values of the stored data; all writers; 1 to 4 ranks; every field type, precision, layout and slice of small lattices",
  why="Tests only look whether a file appears; a slab at a wrong offset or two swapped energies pass.",
  files=["lib/io/readWrite.pHdf5.cpp", "lib/scalar/folder.cpp"], mech=[("createMeas, writeDensity, writeString, writeStringCo, writeEnergy, writeEDens, writeArray, writeSpectrum, writePoint, writeMapHdf5s, writeMapHdf5s2, writeEMapHdf5s, writePMapHdf5s, destroyMeas", "lib/io/readWrite.pHdf5.cpp"), ("Folder slices", "lib/scalar/folder.cpp")], obs=["measurement file"],
  note="the HDF5 library is replaced by an in-memory model; ranks run one after another on a shared file (string coordinates on one rank only); the gadget and binner writers are outside; byte maps carry distinct concrete values."),
 dict(id="C15", title="Reduced, projected and smoothed fields are the filtered field, sampled in place",
  statement="Reducing a field (in place or into a new one) or its energy map gives, at every site of the coarse lattice, the field convolved with the given Fourier filter and interpolated linearly between the sites around it: real and complex fields, velocity as well as field, folded or not, every precision and ghost width, the transform of the map given or computed; a reduction into a new field leaves the old one alone. A projection is the mean along z, over all ranks, of the given function of the map. A smoothing step replaces every site by the weighted mean of itself and its six periodic neighbours. None of them touches anything else.",
  over=["inputs", "configurations", "schedules"], q="all field values on lattices up to 8x8x4 and 6^3, integer and fractional ratios; three filters; 1-3 ranks for projections",
  why="A filter applied with two axes swapped or an output that overwrites its input still gives a smooth-looking field.",
  files=["lib/reducer/reducer.cpp", "lib/projector/projector.cpp", "lib/gen/smoothXeon.cpp", "lib/fft/fftCode.cpp"], mech=[("reduceField, Reducer::transformField", "lib/reducer/reducer.cpp"), ("projectField", "lib/projector/projector.cpp"), ("smoothXeon", "lib/gen/smoothXeon.cpp"), ("FFTplan", "lib/fft/fftCode.cpp")], obs=["reduceField", "projectField", "smoothXeon"],
  note="reductions on one rank with FFTW replaced by an exact DFT; filters even in every component; the radial energy map is not reduced by the code."),
 dict(id="C16", title="Vectorised sine and cosine are the sine and cosine, in every lane",
  statement="The SIMD sine and cosine that the propagation kernels call return, in each lane and independently of the other lanes, the sine and cosine of that lane's argument, in single and double precision, for arguments of either sign, near zero and many periods away: the double versions up to 2^26 half turns and the single ones up to a thousand.",
  over=["inputs"], q="all real arguments y + q pi with |y| < 0.49999 pi for the listed integers q, up to 2^26 (double) and 1000 (single), both signs, four or eight lanes at once",
  why="A wrong sign in one quadrant or a lost reduction term is only seen by fields that reach that angle.",
  files=["include/utils/triSimd.h"], mech=[("sin_pd, cos_pd, sin_ps, cos_ps", "include/utils/triSimd.h")], obs=["the values returned by _mm256_sin_pd, _mm256_cos_pd, _mm256_sin_ps and _mm256_cos_ps"],
  note="AVX2 + FMA bodies in exact arithmetic (the rounding of the argument reduction is not judged); arguments within 1e-5 of a half turn's edge and infinities are not covered."),
dict(id="C17", title="The gravitational potential solves Poisson's equation for the density",
  statement="For a condensed (Paxion) or angle field, the gravity solver stores in the auxiliary array the potential whose every Fourier mode with k > 0 is minus the density contrast's mode divided by k squared, with zero mean, on any number of ranks; the hybrid solver does the same on the reduced lattice, shifted back to the site centres, interpolates the result to the full one and relaxes it with the finite-difference Laplacian; normalising the field leaves the mean of its squared modulus equal to one over all ranks. The field itself is not changed by solving, whether it was stored folded or not.",
  over=["inputs", "configurations"], q="all field values at every site (or at sixteen of them) of 4^3 and 8^3 lattices, all values returned by the transform, ranks 1 to 4, folded or not, one or two ghost layers, both precisions, one to three threads",
  why="A wrong momentum on one rank or a wrong mean gives a smooth, plausible potential with the wrong strength; no test runs the solver.",
  files=["include/gravity/potentialClass.h", "lib/gravity/potential.cpp"], mech=[("GraVi", "include/gravity/potentialClass.h")], obs=["m2 after calculateGraviPotential / the hybrid solver", "field after normaliseFields"],
  note="Cubic boxes (the solver's normalisation assumes one); FFTW stood in for by an exact transform or by fresh symbols per mode; MPI sums modelled."),
dict(id="C18", title="Spectral propagation uses the exact Laplacian and the same forces",
  statement="Transforming a field or velocity to Fourier space stores its discrete Fourier transform over the number of sites in transposed order, marks it, does nothing if already done, and transforming back restores it; the spectral Laplacian multiplies each mode by the squared integer momentum. A spectral step is the integrator's sequence of kicks and drifts with that Laplacian and the same potential, damping, radial and expansion terms as the finite-difference propagator, for the complex field and the angle; with the angle kept in Fourier space each mode flies freely between kicks. Ghosts and other arrays are untouched.",
  over=["inputs"], q="all field, velocity and Laplacian values at every site of the stated lattices, all model numbers and stage weights within ranges, ten potential and damping variants, both precisions",
  why="The spectral kernels duplicate every force of the finite-difference ones, so they drift apart silently; no test runs them.",
  files=["include/propagator/sPropXeon.h", "include/propagator/sPropThetaXeon.h", "include/propagator/fsPropThetaXeon.h", "include/propagator/propClass.h", "lib/propagator/laplacian.cpp", "lib/scalar/fourier.cpp"], mech=[("sSpecCpu, tSpecCpu, tFpecCpu", "include/propagator/propClass.h"), ("FTfield", "lib/scalar/fourier.cpp"), ("Laplacian::lapCpu", "lib/propagator/laplacian.cpp")], obs=["field, velocity, time, scale factor and momentum-space marks after a transform or a propagate() call"],
  note="One ghost layer, rows a whole number of vector registers, depth not above the transverse size. The complex field kept in Fourier space (marked unfinished upstream), purely angular evolution under the spectral angle kernel, and radial evolution combined with a QCD potential are not claimed. The fully spectral angle is single precision only: its double-precision body is empty (known finding)."),
dict(id="C19", title="Starting configurations follow the requested recipe at every site and mode",
  statement="Each start writes every owned site or mode once, with the value its recipe prescribes from the random draws, the table and the parameters: uniform noise, noise about an angle or modulus, a plane mode, axiton and string-ring profiles, miniclusters from a table, or modes below a cut with random phase and the requested spectrum, alike at every process's own momenta and with the zero mode prescribed. genConf then leaves the conformal field: normalised when the recipe says so (unit modulus, or unit mean modulus over all processes), times R, with the velocity of a field at rest in comoving terms (scaled by the kick) plus any requested velocity noise, marked unfolded, clock unmoved.",
  over=["inputs"], q="all random draws, spectrum tables, amplitudes, critical momenta, zero modes, transform outputs and remote sums within ranges; every site or mode of the listed lattices; the listed recipes; ranks 1-4; both precisions",
  why="A start is drawn from random numbers, so no test compares it with its recipe; a wrong spectrum or velocity silently biases every result.",
  files=["lib/gen/genConf.cpp", "lib/gen/randXeon.cpp", "lib/gen/momConf.cpp", "lib/gen/smoothXeon.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/theta2CmplxXeon.cpp"], mech=[("ConfGenerator", "lib/gen/genConf.cpp"), ("randXeon", "lib/gen/randXeon.cpp"), ("momXeon", "lib/gen/momConf.cpp")], obs=["field and velocity after genConf, randConf or momConf"],
  note="The generators' bit streams are replaced by symbols, so their statistics are not claimed. The mode-space recipes other than Tkachev's assume R' = 1 (radiation, R = ct) and are claimed there. Smoothing iterations and the hand-over to the evolution before the start (time, scale factor and field; the evolution itself is C26) are claimed on one process, and so is the start from tabulated spectra, alone and merged with a string network (any number of threads), and the thermal start. Not claimed: lattice-string and file starts, random string density."),
dict(id="C20", title="A command line means what it says, whatever the order of its options",
  statement="Parsing sets exactly the parameters a command line names to the values given and leaves every other at its default, in whatever order its options come and for every numeric value. Derived parameters agree: the core resolution m_s*dx, string tension, Z2 exponent, start time and start logarithm satisfy their defining relations, whichever was given. Values outside an option's range (negative masses, non-positive sizes, WKB time before the final time), missing values, unknown names and choices stop the program; valid lines do not. The cosmology then built carries the parsed parameters; on a restart it overrides only the parameters the line names. Verbosity, process grid, device and logging follow their options.",
  over=["inputs"], q="all values of the numeric options in [-3,6] (one, or two in either order, fresh start or restart), all box sizes, resolutions, tensions, start and final times in range for six expansion and tension laws; every switch and whole-number option at listed values",
  why="Each run is fixed by dozens of interacting options; a swallowed, order-dependent or unvalidated one silently simulates other physics, and tests use a handful of command lines.",
  files=["lib/utils/parse.cpp", "lib/cosmos/cosmos.cpp", "include/cosmos/cosmos.h"], mech=[("parseArgs", "lib/utils/parse.cpp"), ("parseDims", "lib/utils/parse.cpp"), ("createCosmos", "lib/utils/parse.cpp")], obs=["parameters after parsing", "cosmology built from them", "exit status"],
  note="Number reading (atof, sscanf) is replaced by symbols, so decimal syntax is not claimed, nor what reading a stored cosmology does. --redmp, --redmpwkb and --p3D may stand without a value. Pairs naming the same value twice (--gam, --gamall) are not claimed."),
dict(id="C21", title="WKB evolution gives every mode of the linear axion its adiabatic solution",
  statement="Evolving an axion field by WKB from its current time to a later one (radiation background) transforms field and velocity once, gives every Fourier mode, each process its own, the adiabatic solution: amplitude scaled by the square root of the ratio of frequencies, first-order correction from the changing frequency at both ends, and the phase accumulated under the given axion mass law, before, across and after saturation, for any wave number including zero; then transforms back, so field and velocity hold that solution in natural order at every site, with clock and scale factor at the end time. With no time elapsed nothing changes. Precision, vector order, ghost width and a missing output directory make no difference; no memory outside the arrays is touched.",
  over=["inputs"], q="all field values, all mode amplitudes leaving the forward transform and all values leaving the backward one; every mode of 4^3 and 8^3 lattices; listed time intervals, mass exponents 0-7 and masses; one- and two-field variants; ranks 1-2",
  why="The WKB step replaces the last, longest stretch of a run; a phase or amplitude slip changes every late observable smoothly, and no test compares it with the exact phase.",
  files=["lib/WKB/WKB.cpp", "include/WKB/WKB.h"], mech=[("WKB::doWKBinplace", "lib/WKB/WKB.cpp"), ("WKB::doWKB", "lib/WKB/WKB.cpp"), ("WKB::buildlookuptable, calculatePhiexact", "lib/WKB/WKB.cpp")], obs=["field, velocity, clock and order mark after WKB::operator()"],
  note="The phase is compared with a numerical integral: closely at whole wave numbers, within 3% between them, where the one-field variant interpolates a table. Transforms are checked at their inputs and replaced by fresh outputs; GSL's hypergeometric function by its series. Cubic boxes, R = conformal time, no restoration of the mass."),
    dict(id="C22", title="A measurement call measures what was asked, on the current field",
         statement="Measureme, given a request (measurement bits, masks, radii, spectrum types, map types, index), writes the 3D configuration exactly when asked and otherwise opens one measurement file, runs the requested parts once each, and closes it. A field in momentum space is brought back before any part reads it. The energy is computed with the vacuum shift R*saskia (saxion; zero otherwise); the axion and saxion energies handed back are the sums of its first and second five entries when an energy map was made. Energy maps, slices, projections, contrast histograms, smoothed and reduced maps and power spectra are taken from that energy map, each under its own name. Histograms of angle, modulus and log angle squared contain every site the process owns, no ghost site, whatever the ghost width. Each requested mask and radius (the default radius 2 when none is given; saxion radii given in inverse saxion masses and converted to lattice units) gives its mask spectrum once and every requested number spectrum computed with that mask; masked energies are computed with the mask built. Spectra that need the axion mass are skipped when it is zero. Mode counts and mean wave numbers are written for index 0 or on request. Strings found, the largest angle and their numbers are handed back.",
         over=["inputs"], q="all field values, energies, energy-map values and scale factors; a grid of field types, measurement bits and combinations, masks, radii, spectrum and map types, ghost widths, precisions",
         why="Everything a user analyses comes out of this call; a measurement of the wrong array, a mask left over from before, or a label on the wrong spectrum yields plausible output for every request the tests do not make, which is all of them.",
         files=["lib/meas/measa.cpp", "include/spectrum/spectrum.h"],
         mech=[("Measureme", "lib/meas/measa.cpp")],
         obs=["calls of the measurement parts and file writers with their data", "returned MeasData"],
         note="The parts themselves (energy, spectra, masks, strings, binning, transforms, file writers) are replaced by stand-ins that record what they were given and mark what they produce; most are decided by other properties. Strings of a saxion field may be measured unasked (the program needs them for masks). Slices and labels of GPU runs and the screen summary are outside."),
    dict(id="C23", title="The axiton tracker follows the right sites and records their true history",
         statement="Tracking starts only when asked for and only once mass times scale factor times time passes its threshold. Each search adds exactly the sites whose field exceeds the angle threshold times the scale factor (or, when enabled, whose velocity exceeds its threshold times mass times scale factor squared), each once, never more than the limit per process; defaults apply where no threshold is given. Every reading appends the field and velocity at each followed site, and the time, whatever the storage order of the field when the site was found or when it is read. The tracker file lists every axiton of every process once, written by the process that owns it, with its global position, the number of the reading its history starts at, and the whole history; the name of the ordinary output is kept.",
         over=["inputs", "histories"], q="amplitudes of four sites (relative to thresholds), thresholds and the scale factor; patterns of sites above threshold over two searches and three readings, storage order at every search and reading, velocity threshold on or off, limits, 1-4 processes with any listed number of axitons elsewhere",
         why="Axiton histories are the data product for oscillon studies; reading the wrong site after a change of storage order gives smooth, believable histories, and no test turns the tracker on.",
         files=["include/axiton/trackerClass.h", "lib/axiton/tracker.cpp"],
         mech=[("Tracker::SearchAxitons, AddAxiton", "include/axiton/trackerClass.h"), ("Tracker::ReadAxitons", "include/axiton/trackerClass.h"), ("Tracker::PrintAxitons, foldidx, unfoldidx", "include/axiton/trackerClass.h")],
         obs=["arrays and attributes handed to the file writers", "number of openings of the tracker file"],
         note="Where the limit is reached, which candidates are left out is not fixed. Halo grouping (paxion), which no program calls, is outside."),
    dict(id="C24", title="String length, velocity and masked energies are the defined sums",
         statement="For a saxion field with its string flags, the length asked for is the sum over all lattice cubes of the distances between the points where the strings enter and leave (the intersection of the zero lines of real and imaginary part on each flagged face; with four or six ends the average over all ways of pairing them), including the cubes between two processes and across the periodic boundary. The Lorentz factor, mean velocity and mean squared velocity are the sums over flagged plaquettes of Eq. (A.10) of arXiv:1509.00026, averaged over the four corners, with the field divided by R and its velocity taken with the conformal Hubble rate R'/R. The string energies are: total, axion and saxion energy (kinetic, gradient, potential, measured about the shifted centre) averaged over the unmasked sites, and weighted by the squared modulus over all sites; the string part is the total mean minus the other two. Each process contributes its own sites, the totals are over all processes, counts handed in pass through, and field, velocity and flags are left as they were, whether the field came in folded or natural order.",
         over=["inputs"], q="field values and velocities of chosen sites (the rest concrete and generic); patterns of flagged plaquettes, 1-4 processes and positions, storage order, precision, ghost width, depth",
         why="String length, velocity and the energy split are the headline numbers of a network simulation; a dropped plaquette, stale halo or a wrong Hubble term changes them by a few per cent and every test still passes.",
         files=["lib/strings/length.cpp", "lib/scalar/scalarField.cpp"],
         mech=[("stringlength, setCross", "lib/strings/length.cpp"), ("stringenergy", "lib/strings/length.cpp"), ("Scalar::HubbleConformal, sendGeneral", "lib/scalar/scalarField.cpp")],
         obs=["fields of StringData and StringEnergyData returned"],
         note="Which plaquettes are flagged is C08. Cubes with an odd number of ends (only possible with inconsistent flags) contribute nothing. The unused variant stringlength2 is outside."),
    dict(id="C25", title="Masks cover exactly the defined neighbourhood of strings and axitons",
         statement="For a saxion field with its string map, the top-hat and exponential masks start from a field of ones at exactly the vertices of the flagged plaquettes (those of the slice above going to the next process), smooth it in Fourier space with the Gaussian of the requested radius and mask the sites above the cut, the exponential one weighting the others linearly; the diffused mask grows and smooths the same marks the stated number of times; the ball mask covers every site within the radius of a vertex, across the periodic boundary and between processes. The modulus masks weight each site by |phi|/R or its square, about the shifted centre. The axiton masks mark the sites whose energy or angle exceeds its threshold (or that were marked before, when cumulative), and remove the energy in the balls around them or where the smoothed marks exceed the cut; the tanh mask suppresses it smoothly. The spectrum of the mask is taken from exactly these values, the map handed back is the mask, its complement or the unmasked energy as asked, with its state set; mask bits are set exactly at masked sites, string flags are kept, the field is untouched, and the result is the same for every number and schedule of threads.",
         over=["inputs", "schedules"], q="flags of chosen sites, transformed marks and smoothed values, field or energy values of chosen sites; patterns, radii, calibrations, masks, requested maps, storage order, processes, threads",
         why="Masks decide which part of the box counts as axions rather than string cores; one missing layer of sites at a process boundary or a schedule-dependent radius changes published spectra and no test measures one.",
         files=["lib/spectrum/spectrum.cpp"],
         mech=[("SpecBin::masker", "lib/spectrum/spectrum.cpp"), ("SpecBin::maskball", "lib/spectrum/spectrum.cpp"), ("SpecBin::filterFFT", "lib/spectrum/spectrum.cpp"), ("Scalar::sendGeneral", "lib/scalar/scalarField.cpp")],
         obs=["values handed to the transforms", "map, mask bits and states after the call", "slices sent to neighbours"],
         note="The calibration constants of the cut are taken from the code. Ball radii up to the depth of a slab; the diffused mask on one process only. Low-memory runs have no masks."),
    dict(id="C26", title="Evolution before the start ends at the start and hands the run back unchanged",
         statement="With a pre-evolution requested, the field that was generated at the earlier time first has its string cores adjusted if asked, with the coupling that holds then, and becomes the conformal field with the matching velocity; it is then evolved with the requested potential, propagator and damping and with the coupling law of the requested exponent, normalised so that the physical coupling at the start of the run is that of the run, in the steps of the usual step criterion. The strings are looked at, or the measurements made and numbered in order, once before each step. The last step is shortened to end at the start of the run, no step begins after it, and the coupling, its exponent and kind and the damping are then again those of the run. The measurements made on the way, if asked for, are the requested ones, numbered in sequence.",
         over=["inputs", "histories"], q="coupling, damping, damping of the evolution before, field at chosen sites; exponents, start times, step sizes, expansion, precision",
         why="A parameter that leaks out of the evolution before the start silently changes the physics of the whole run, and no test uses it.",
         files=["lib/gen/prepropa.cpp"],
         mech=[("prepropa2", "lib/gen/prepropa.cpp"), ("Scalar::dzSize", "lib/scalar/scalarField.cpp"), ("Cosmos::LambdaP", "lib/cosmos/cosmos.cpp"), ("scaleField", "lib/scalar/scaleXeon.cpp")],
         obs=["calls of the propagator and the measurements with the parameters in force", "parameters, time and field after the call"],
         note="The propagator, the core adjustment and the measurements are replaced by recorders (their own properties are C02, C06, C08, C19, C22). A fixed coupling means exponent zero, as the command line sets it. The two older forms of the evolution (stopped by string density) are outside."),
 dict(id="C27", title="A gadget snapshot holds the particles, masses and velocities of the field",
  statement="The N-body snapshot made from a non-relativistic field with one particle per lattice site holds every particle exactly once, written by the process that owns its site, with the identity of that site. Its mass is the mean particle mass (the dark-matter density of the box shared by all particles) times the density of the field relative to its mean over all processes; its position is the site in units of the physical box; its velocity, if asked for, is the centred phase gradient of the field per lattice spacing, divided by conformal time and axion mass, in the units of the snapshot, and zero otherwise. If particles are displaced from their sites, each is displaced by its own draw within the cell, and mass and velocity are the cloud-in-cell interpolation of the site values at its position, across the periodic edges and process boundaries. The header states the box, the number of particles (all in one file), an empty table of common masses, redshift and time zero, the length unit and the mean mass.",
  over=["inputs", "configurations"], q="field value at a chosen site, displacement draws, length unit; site, displacement, velocities, 1-4 processes and rank",
  why="No test makes a snapshot with velocities or displacements; wrong neighbours at row ends or process boundaries only touch a few particles.",
  files=["lib/gadget/gadget_output.cpp"],
  mech=[("createGadget_Void, CIC_interp, grad_idx", "lib/gadget/gadget_output.cpp"), ("writeAttribute, writePMapHdf5", "lib/io/readWrite.pHdf5.cpp")],
  obs=["contents of the snapshot file: header, coordinates, velocities, masses, identities"],
  note="8^3, single precision; other sites hold fixed pseudo-random values; one particle per site, cubic box; displaced velocities need two ghost slices; smoothed velocities, several particles per site and the halo mapping are outside (see DESIGN section 3). HDF5, MPI and the random engine are models."),
]
NA = []
