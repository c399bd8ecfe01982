PROPS, NA = [], []
def P(id, title, statement, forall, tests, files, mech, note, over=("inputs",), **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, forall=forall, tests=tests, files=files, mech=mech, note=note, over=list(over), **kw))
def N(id, title, statement, forall, tests, files, mech, reason, over=("inputs",)):
    NA.append(dict(id=id, title=title, statement=statement, forall=forall, tests=tests, files=files, mech=mech, reason=reason, over=list(over)))

P("P01", "Simple apertures accept exactly the points inside their shape",
  "A circular, rectangular, elliptical, rectellipse or octagonal aperture accepts a transverse position exactly when it lies strictly inside the geometric shape given by its dimensions, in all four quadrants and for any longitudinal position. Points outside, and points on the boundary of a circle or rectangle, are rejected. The aperture factory builds from a table row the aperture type and dimensions the row names, and none for an unknown type.",
  "every aperture dimension, corner angle, and transverse position, within the bounds of the harnesses",
  "aperture_test samples about a dozen fixed points per shape; the shortcut test, corner and mixed-sign regions are not separated.",
  ["Aperture.h", "Aperture.cpp"], [("CheckWithinApertureBoundaries of each shape, with a quick-accept inscribed diamond", "Aperture.cpp")],
  "Positions within [-3,3]^2, sizes 0.1..2; ellipse family with one half axis symbolic and the other from a list; a margin of 1e-5 around curved boundaries is not judged, axis boundary points are judged in IEEE arithmetic.")

P("P12", "Rotations and rigid transforms obey the group laws",
  "A 3D rotation about an axis turns points and vectors by exactly the given angle in the documented sense; products apply the right factor first, inverses undo, products are associative, operands stay unchanged and the reported matrix agrees with the action, for every mixture of identity, axis and general rotations. A 3D transform removes its offset and then rotates (vectors only rotate), and composition, in-place composition, inverse, in-place inverse and the half-turn conjugations about x, y, z agree with that action. Null transforms report themselves as identity and non-null ones do not.",
  "all axis combinations, all angles in [-3,3], all points and offsets in [-3,3]^3",
  "No test exercises rotation or transform classes directly.",
  ["Rotation3D.h", "Rot3Drep.cpp", "AxisRotations.cpp", "GeneralRotation.cpp", "IdentityRotation.cpp", "Transform3D.h", "Transform3D.cpp", "Transform2D.h"],
  [("double dispatch on the rotation representation", "AxisRotations.cpp"), ("composition and inverse of transforms", "Transform3D.cpp")],
  "Angles, offsets and points symbolic; products of up to three axis rotations plus one fixed-angle factor.")

P("P13", "Changing the reference plane keeps a particle on its straight line",
  "Applying a 3D frame change to a phase-space vector leaves the particle on the same straight line in space: its new position and slopes describe, in the new frame's z=0 plane, the same line. Path length, momentum deviation and identity are untouched; applying the inverse frame change restores the vector; arrays are transformed element by element.",
  "all offsets in [-2,2]^3, axis rotations up to 1 rad and products of two, all particles with slopes up to 0.2",
  "Existing tests never transform particles between frames.",
  ["PSvectorTransform3D.h", "PSvectorTransform3D.cpp"], [("rotation of position and direction, then drift back to z=0", "PSvectorTransform3D.cpp")],
  "Line membership checked at an arbitrary point of the line.")

P("P14", "Element geometries follow their straight line or arc",
  "For an untilted straight or constant-curvature element the transform between two points inside it is the rigid motion along the line or arc by their arc distance: it adds up over pieces, inverts when reversed, and the entrance, exit and total transforms and the extent agree with the length and curvature. A curvature of zero is a straight line. Points beyond the element's ends are refused with the documented exception and points inside never are.",
  "lengths 0.5..4, curvatures 0 and 0.05..0.5 of both signs, all points of the element",
  "No test evaluates geometry transforms at general points.",
  ["ArcGeometry.h", "ArcGeometry.cpp", "RectangularGeometry.cpp", "CenteredGeometry.h", "AcceleratorGeometry.cpp"], [("closed-form arc transform", "ArcGeometry.cpp"), ("bounds check", "CenteredGeometry.h")],
  "Transforms compared on four affinely independent points.")

P("P15", "Lines of elements put every element where its neighbours end",
  "In a line of elements each element starts where the previous one ends: local positions, extents and the total length follow from the element lengths for every choice of origin (entrance, centre, exit). The geometry transform between any two points of the line is the composition of the element transforms between them, its inverse when taken backwards; the entrance, exit and total transforms agree with it. Points within the line are accepted (also when reached only up to rounding), points beyond its ends are refused. Nested frames combine their misalignments about their own origins: position, physical, relative and boundary-plane transforms of an element in a misaligned sub-line are those of the rigid motion. Traversal visits every frame once in order, and replacing a sub-frame takes effect in place.",
  "element lengths and curvatures, origins, all pairs of points, all misalignments within the bounds of the harnesses",
  "No test evaluates frame geometry at general points or with misalignment.",
  ["SequenceFrame.cpp", "LatticeFrame.cpp", "LatticeFrame.h", "ComponentFrame.cpp"], [("walk over sub-frames composing transforms; cached transforms about the origin", "SequenceFrame.cpp"), ("frame to global transform recursion", "LatticeFrame.cpp")],
  "Lines of up to 3 elements with one symbolic length; two nested levels; rotations about one axis per frame; rounding part in IEEE arithmetic on 12 lines.")

P("P16", "Movers, supports and frame adjustments displace what they carry as told",
  "Translations and rotations applied to a frame add up in the order given (each about the frame's current axes) and clearing restores the undisplaced frame; setting, applying and clearing a local frame transform act likewise and a copied frame carries an independent copy of the displacement. A magnet mover displaces its content by exactly the x, y and roll last set, in whatever order they were set, on top of its own displacement, reads them back, and resets to zero. Elements on a simple mount move by exactly the global offset of its support, elements on a girder by the common offset of its two supports, and a girder whose supports are offset differently has its ends follow them to first order, whichever support was changed since the last look. Supports report the arc positions they stand at and the offset last set or accumulated.",
  "all adjustments, mover settings and support offsets within the bounds of the harnesses",
  "No test moves a frame, mover or support.",
  ["Transformable.h", "Transformable.cpp", "MagnetMover.h", "MagnetMover.cpp", "SupportStructure.h", "SupportStructure.cpp", "AcceleratorSupport.h", "LatticeFrame.cpp"], [("cached transform of a mount recomputed from its supports", "SupportStructure.cpp"), ("2D mover transform", "MagnetMover.cpp")],
  "One or two adjustments, rotations up to 1 rad; mounts of two elements behind a bend; girder tilt with one symbolic offset of up to 1 mm.")

P("P02", "Apertures accept exactly the points inside their shape",
  "For circular, rectangular, elliptical, rect-elliptical (inside both) and octagonal (rectangle with the corners cut at the two angles) apertures, a point well inside the shape is accepted and a point well outside is not, whatever its position along the beam. Interpolated circles, ellipses (half axes APER_1, APER_2), rect-ellipses and octagons have, at each position between two rows of their table, the parameters interpolated linearly between these rows, positions before the start (0) counting as the start. The factories make the aperture the type of a table row asks for with its parameters (radius APER_3 or else APER_1, half axes APER_3/4 or else APER_1/2) and nothing for unknown types.",
  "all points, all radii and rectangles within bounds, shapes of ellipses, octagons and tables from lists",
  "One test asks for the origin only.",
  ["Aperture.cpp", "Aperture.h", "InterpolatedApertures.cpp", "InterpolatedApertures.h"], [("shortcut for points near the axis", "Aperture.cpp"), ("interpolation between rows", "InterpolatedApertures.cpp")],
  "Positions beyond the last row are outside the bounds (the code aborts); boundary points are left open by a margin of 1e-5.")

P("P03", "Collimator jaws follow their gaps, tapers, offsets and tilt",
  "A collimator aperture accepts exactly the points strictly between its jaws: at each position along its length the full gaps and the offsets are interpolated linearly between entrance and exit and the jaws are rotated by the tilt. Gaps and offsets set later replace those of the constructor, and the getters return what is in force. Unaligned jaws have the entrance gap and offset all along; a one-sided collimator limits only the positive (side true) or negative side in the rotated horizontal plane, and both sides vertically.",
  "all points, gaps, offsets and positions within bounds, tilts from a list",
  "One test asks for the origin only.",
  ["CollimatorAperture.cpp", "CollimatorAperture.h"], [("shortcut for points near the axis", "CollimatorAperture.cpp"), ("taper and offsets along the jaws", "CollimatorAperture.cpp")],
  "Boundary points are left open by a margin of 1e-6; the apertures with errors have no public check and are not part of it.")

P("P04", "Collimation removes exactly the particles outside and accounts for each",
  "At the collimation points selected (entrance, centre, exit) of every element with an aperture, exactly the particles the aperture reports as outside are removed from the bunch; the others keep their order, coordinates, charge per particle and index, and elements without aperture remove nothing. Every particle lost in an element without scattering (also one of zero length) is reported exactly once to each collimation output, with element, turn (passages of the first element, also when another has its name) and a position inside the element, the first multiple of the bin size (or the end) at which the particle, moving through the element on its own way, is outside; this holds for bunches of either charge and whether or not any particle survives. An exception is thrown exactly when the losses since the bunch was set reach the threshold. In collimators with scattering each particle outside at the start of a bin is handed to the scattering routine once, removed if absorbed, and particles inside are transported unchanged; an index list supplied by the user remains the user's.",
  "all particle positions and slopes within bounds, all combinations of collimation points, bin sizes and lengths from lists",
  "Tests compare loss maps of one lattice statistically.",
  ["CollimateParticleProcess.cpp", "CollimateParticleProcess.h", "CollimationOutput.h"], [("removal of particles and index bookkeeping", "CollimateParticleProcess.cpp"), ("retracking of the lost particles", "CollimateParticleProcess.cpp")],
  "Up to three particles in a drift or collimator, apertures as predicates x < a; the proton scattering itself is not part of it.")

P("P06", "Processes act in priority order, in common steps covering each element exactly",
  "For each element tracked, every process is told the element exactly once, before the first step. Every active process then acts in the same sequence of contiguous steps, which add up to the element's length; each step is the largest that no active process's current limit and the remaining length forbid, and inactive processes never act. Processes act in order of priority (0 first), equal priorities in the order added, negative priorities after those already present; removing a process reports whether it was present and leaves the others alone, clearing destroys them. A zero-length element is exactly one step of length zero. The integrated length is the sum since initialisation. A component tracker applies the entrance and exit of an element exactly once at its ends whatever steps are made, reports integrated and remaining length and its state, chooses the integrator registered for the element's type or else for its base type and refuses elements with none. A component divider divides each element into equal steps and recognises their boundaries.",
  "all element lengths and step limits within bounds, all priority combinations of four processes",
  "Tests run complete simulations and cannot see step sequences.",
  ["ProcessStepManager.cpp", "BunchProcess.h", "ComponentTracker.cpp", "ComponentTracker.h", "ComponentIntegrator.h", "ComponentStepper.cpp"], [("common step size loop and priority insertion", "ProcessStepManager.cpp"), ("entrance/exit detection of the integrator", "ComponentIntegrator.h"), ("integrator lookup", "ComponentTracker.cpp")],
  "Up to 4 processes and about 4 steps per element; documented divider behaviour at the minimum step only up to the choice of the neighbouring number of steps.", over=("inputs",))

P("P07", "Tracking through an element does not depend on how it is cut into steps",
  "For drifts, quadrupoles (normal and skew), solenoids, sector bends (any tilt, pole faces, field error or gradient) and, in TRANSPORT, sextupoles, tracking a particle through the element in one step gives the same result as tracking it through any sequence of steps that adds up to the element's length, in every integrator set (TRANSPORT, THIN_LENS, SYMPLECTIC). This holds for all six coordinates to second order (bends with gradient in TRANSPORT: to first order) and for the reference time of the bunch. Markers and zero-length drifts change nothing.",
  "all particles of amplitude 1e-4, all cuts into two or three steps, strengths from lists",
  "Tests track complete lattices with one step pattern.",
  ["StdIntegrators.cpp", "TransportIntegrators.cpp", "SymplecticIntegrators.cpp", "BasicTransportMaps.cpp", "TransportMatrix.cpp", "MatrixMaps.cpp"], [("maps of a partial element composed step by step", "TransportIntegrators.cpp"), ("second-order transport maps", "BasicTransportMaps.cpp")],
  "Cut symbolic except for TRANSPORT/THIN_LENS bends, variants of bends (cuts from a list, two symbolic coordinates); residual third order below the tolerance of 1e-10 by interval bounds.")

P("P20", "Elements act on particles with the optics their field prescribes",
  "To first order every drift, quadrupole, solenoid and sector bend, of either sign and for either charge sign, maps a particle as the solution of the linear equation of motion with the element's strength, curvature and dispersion does, in every integrator set (TRANSPORT, THIN_LENS, SYMPLECTIC); a skew quadrupole acts as a quadrupole rolled by 45 degrees, a tilted bend as the bend rolled by its tilt, pole faces as thin lenses with fringe correction. Further multipole components act as one kick of their field in the middle of each step (the whole kick in a zero-length magnet) and leave the field of the magnet unchanged. Quadrupoles have the second-order momentum dependence of their focusing, TRANSPORT sextupoles their second-order map; TRANSPORT quadrupoles, sector bends without gradient (slopes read as transverse momenta) and with gradient (path length excepted) have the second-order map of the exact motion of a relativistic particle between hard edges. Bends without pole face description have no net second-order edge effect, and drifts and quadrupoles have the path length of the trajectory (TRANSPORT).",
  "all particles within linear (or second-order) amplitude; lengths, strengths, tilts, pole faces, components from lists; all integrator sets and charge signs",
  "Tests compare end results of a few lattices only.",
  ["StdIntegrators.cpp", "TransportIntegrators.cpp", "SymplecticIntegrators.cpp", "BasicTransportMaps.cpp", "TransportMatrix.cpp", "MatrixMaps.cpp", "MultipoleField.cpp", "SectorBend.h"], [("linear transport matrices", "TransportMatrix.cpp"), ("multipole kicks", "StdIntegrators.cpp"), ("second-order maps", "BasicTransportMaps.cpp")],
  "Symbolic six-dimensional particle of amplitude 1e-6 (1e-4 where second order is judged); two lengths per case; SYMPLECTIC mispowered bends are outside (the code does not support them).")

P("P10", "Bunch statistics and reference adjustments are exact",
  "Centroid, mean, covariance, projected moments and single-coordinate mean and rms of a particle bunch are the average and the population (1/n) second moments about it of the particles it holds, in every function that returns them, whatever the result object held before. Adjusting the reference momentum (by a given relative amount or to the mean) leaves the absolute momentum of every particle and its other coordinates unchanged and returns the new reference momentum; adjusting the reference time to the mean leaves every arrival time (reference time minus ct) unchanged. Setting the centroid leaves (or puts) the first particle at the target, moves all others together, and puts the mean exactly there.",
  "all bunches of up to four particles with two symbolic coordinates at a time",
  "Tests check statistics of random bunches to a percent.",
  ["ParticleBunch.cpp", "ParticleBunch.h", "PSmoments.h", "TCovMtrx.h"], [("running mean and covariance", "ParticleBunch.cpp"), ("rescaling of momentum deviations", "ParticleBunch.cpp")],
  "One to four particles, coordinates within 2.")

P("P11", "Bunches hold the particles put in, with the charge and shape asked for",
  "A bunch keeps its particles unchanged and in order through construction, adding, removing one and swapping (which exchanges particles, not reference or charge per particle); sorting puts them in ascending ct and loses, duplicates or alters none. Its total charge is the charge per macro-particle times the number of particles, however it was made, and its charge sign that of its charge. A bunch generated from a distribution has the number of particles asked for, the first being the beam's centroid and the others the generated normalised vectors scaled by the beam's emittances, bunch length and energy spread, matched to its Twiss functions and dispersion and placed about its centroid, numbered consecutively; a filter sees each such particle once and exactly those it accepts enter, halo filters accepting what lies beyond their limit. Transforming a bunch transforms each particle, and phase space vector arithmetic is component by component.",
  "all particles, generated vectors and charges within bounds; bunches of up to four particles",
  "Tests check only the extent and spread of random bunches without energy spread or dispersion.",
  ["ParticleBunch.cpp", "ParticleBunch.h", "PSvector.h", "NormalTransform.cpp", "BunchFilter.cpp", "ReferenceParticle.h"], [("generation loop with filter", "ParticleBunch.cpp"), ("normalising transformation", "NormalTransform.cpp")],
  "Up to four particles; four beams (with dispersion, correlation, offsets) from a list; text input and output of bunches are outside (number formatting cannot be encoded).")

P("P08", "A simulation visits every frame in order and applies its transformations",
  "A run makes the bunch, initialises the processes once and tracks the bunch through each component of the beamline or ring in order, applying the transformations at the entrance and exit of each displaced frame and of geometry patches just before and after it (the patches of a frame inside its displacements; none with flat lattice, none at the first entrance and last exit of a line when injecting on axis). Running again makes a new bunch and continuing keeps it; rings go round once per run from any start; stepping component by component does the same as a run and reports whether frames remain. Outputs are recorded for exactly the frames asked for (all, by name pattern) and for the initial and final bunch when asked, at the time they are passed. An exception thrown by a process ends the run there and is handled or passed on as configured.",
  "all displacements of frames and patches, initial offsets, options and starting points",
  "Tests track complete lattices without displaced frames.",
  ["TrackingSimulation.cpp", "TrackingSimulation.h", "SimulationOutput.cpp", "SimulationOutput.h", "ring_iterator.h", "RingFrame.h"], [("frame loop with entrance and exit transformations", "TrackingSimulation.cpp")],
  "Line of five frames (three displaced, one patch), displacements of at least 0.01.", over=("inputs", "configurations"))

P("P28", "Name patterns match exactly the names they describe",
  "A pattern matches a name exactly when the name is the pattern's literal parts in order with any (possibly empty) text in place of each '*', and an alternative of patterns separated by '|' exactly when one of them does; a pattern without wildcard matches itself only. Splitting a string at a delimiter gives the non-empty parts between delimiters in order and tells whether the string starts and ends with one.",
  "24 patterns with up to three wildcards and all literal, prefix and suffix patterns, all strings over three letters of up to 6 characters",
  "Tests use patterns in a few fixed lattices only.",
  ["StringPattern.cpp", "StringPattern.h"], [("greedy matching of literal parts", "StringPattern.cpp")],
  "Letters symbolic, lengths enumerated by path; empty alternatives are outside.")

P("P31", "Models keep what was put in, in order, and find it again by name",
  "A constructed model's beamline holds every component appended (singly with an optional drift before it, within nested frames, or in frames built before), in that order, each frame and component knowing its position as beamline index, its length the sum of theirs, and all frames and components listed once among its elements. Components, elements, indices and parts of the beamline asked for by pattern of qualified name (typed ones by unqualified name), by index or by occurrence are exactly those matching, in beamline order where there is one, replacing previous results where documented; ranges that do not exist are refused with the documented exception, rings and reversed beamlines have the ends documented. The element repository adds each element once and counts and finds by pattern. Installing a zero-length element inside a drift replaces the drift by two parts with the element between at exactly the position asked for, leaving order, indices and element list consistent.",
  "all one-letter names over three letters, nesting patterns and lengths; seven patterns",
  "Tests build a few fixed lattices.",
  ["AcceleratorModelConstructor.cpp", "AcceleratorModelConstructor.h", "AcceleratorModel.cpp", "AcceleratorModel.h", "ElementRepository.cpp", "ComponentFrame.h"], [("beamline selection by occurrence", "AcceleratorModel.cpp"), ("extraction of frames appended as a whole", "AcceleratorModelConstructor.cpp")],
  "Up to five elements and two nested frames.")

P("P25", "Control channels act on exactly their parameter, and feedback corrects by it",
  "Channels found by patterns of element type, name and key (in a model, or in a part of its beamline, in order) are exactly those of the matching elements; each reads, sets and increments exactly its parameter of its element (magnet strengths, bend field and gradient, mover positions, RF amplitude, phase, wavelength and wavenumber, corrector fields) and leaves the others alone. Channel arrays read, write and increment all or one in order, and saved channel states are restored. BPM channels give the position last recorded by their BPM plus the offset set for their plane. A linear feedback changes its actuators by minus gain times the pseudo-inverse of the response applied to the deviation of the signals from their setpoints, with a delay of n pulses by the correction of n-1 pulses before (none until one arrives), and stores and restores actuators and reports rms values.",
  "all parameter values, increments, offsets, signals, setpoints and gains within bounds; all channels",
  "No test uses channels or feedback.",
  ["ChannelServer.cpp", "StdChannelDefs.cpp", "IndirectChannels.h", "Channels.cpp", "Channels.h", "RWChannelState.cpp", "BPMChannel.cpp", "BPMChannelCtor.cpp", "BPMDataBuffer.cpp", "LinearFBSystem.cpp", "CorrectorWinding.cpp", "TLASimp.h"], [("table of channels", "StdChannelDefs.cpp"), ("channel selection", "ChannelServer.cpp"), ("feedback step", "LinearFBSystem.cpp")],
  "Four concrete responses (square, over- and underdetermined, singular) with symbolic signals; the main field of a bend scales its gradient with it; writing BPM channels is outside.")

P("P29", "Matrix algebra and linear solvers are exact and refuse what they cannot do",
  "Sums, products, scalings, transposes, rows, columns, ranges and blocks of vectors and matrices are what linear algebra says for all conforming sizes, and sizes or indices that do not conform are refused. LU decomposition and inversion solve the equations and give inverse and determinant of every non-singular matrix, and matrices that are not square or have a zero row are refused. Singular value decomposition gives the (weighted) least squares solution of minimal norm for matrices of any shape and rank (singular values below the relative threshold count as zero; all zeros refused), its factors multiplying to the matrix. Symplectifying a 6x6 matrix near a symplectic one gives a symplectic matrix and leaves symplectic ones alone.",
  "all entries and right-hand sides within bounds; sizes up to 4",
  "One test checks a few fixed matrices.",
  ["TMatrixLib.h", "tblas.h", "TLAS.h", "TLASimp.h", "LinearAlgebra.h", "LinearAlgebra.cpp"], [("pivoting LU decomposition", "TLASimp.h"), ("singular value decomposition", "TLASimp.h"), ("Gauss-Jordan inversion and symplectification", "LinearAlgebra.cpp")],
  "Solvers: 24 and 36 concrete matrices with any right-hand side, inversion of symbolic 2x2 matrices; eigensystems are outside (unbounded iterations).")

P("P49", "Loss maps count every reported loss once, where it happened",
  "A loss map records every loss disposed of with its position in the lattice (element position plus position inside). After Finalise the entries, in lattice order, hold each loss exactly once: one entry per element hit (nearest element), per distinct position (precise) or per element and 10 cm interval from its entrance containing the loss (tencm), with name, lattice position and length of the element. Losses in collimators are marked Collimator, others Warm exactly if their element starts within a warm region currently set, else Cold. The detailed output records exactly the losses in elements whose name matches one of its patterns, with element name, lattice position, position in the element, length, turn and particle.",
  "all positions of up to three losses in three elements, all limits of a warm region, names of symbolic letters",
  "Tests compare loss maps of one lattice statistically.",
  ["LossMapCollimationOutput.cpp", "DetailedCollimationOutput.cpp", "CollimationOutput.h"], [("binning and merging of losses", "LossMapCollimationOutput.cpp"), ("selection of the elements", "DetailedCollimationOutput.cpp")],
  "Up to four losses; the text written is checked for the number of lines and the names only.")

P("P21", "Matrix maps act alike on particles, on bunches of them and on their moments",
  "A matrix map of 1 to 3 degrees of freedom (RMtrx, RdpMtrx with R+T*dp) takes a particle x to R.x and moments with centroid m and covariance S to R.m and R.S.R', leaves the coordinates (and moments) of the other degrees of freedom unchanged as if R were continued by the identity, and keeps identifiers; applied with another reference momentum p0 it acts on dp rescaled to its own momentum and scales back afterwards, so that moments mapped are the moments of the mapped particles. Products of matrices act one after the other; maps kept as lists of terms (RMap, RTMap with second order terms, R2Map, drifts) give the same results as their matrices, on particles and on moments of 2, 4 and 6 dimensions, and copies of them are independent of the original. Covariance matrices are symmetric with std^2=var and r_ij=sig/(std std), and matrices of moments start at zero.",
  "all particles and moments within bounds, for three matrices of every size and several reference momenta",
  "No test applies matrix maps directly; tracking tests use a few of them on a few particles.",
  ["MatrixMaps.cpp", "MatrixMaps.h", "RMap.cpp", "RMap.h", "RTMap.cpp", "RTMap.h", "TCovMtrx.h", "PSmoments.h", "PSvector.h"], [("matrices on moments", "MatrixMaps.cpp"), ("lists of terms", "RMap.h"), ("second order terms", "RTMap.cpp")],
  "Matrix elements from three matrices; a second order term has one symbolic coordinate. RMap::Apply of a particle is declared but not defined in the library.")
P("P23", "RF structures give particles the momentum their voltage and phase prescribe",
  "Amplitude, voltage (amplitude times length), phase, phasor, frequency, wavelength and wave number of an RF structure are consistent with whichever was last set. Travelling wave (E cos(w(z/c-t)+phi)), standing wave (E cos(wz/c) cos(wt+phi)) and transverse fields (as travelling, along their orientation) are as documented, and force is charge times field. In a structure of voltage V and phase phi a particle arriving at ct gains V cos(phi-k ct) in momentum and keeps ct, and the reference momentum grows by V cos(phi) (not in travelling wave structures without full acceleration or in SYMPLECTIC), whatever the sign of V and at every phase. Travelling wave structures of TRANSPORT and THIN_LENS keep the transverse momentum except for the end fields (kicks -/+ g cos/(2p) x), standing wave structures focus by the Rosenzweig-Serafini matrix of all their cells, transverse structures kick by V cos(phi-k ct)/p along their orientation, displacing by half the kick times length, and a structure switched off is a drift.",
  "all arrival times, amplitudes and coordinates within bounds, six phases, all integrator sets",
  "The tests track no RF structures except in one ring at one phase.",
  ["RFStructure.cpp", "TWRFStructure.cpp", "SWRFStructure.cpp", "TransverseRFStructure.cpp", "RFAcceleratingField.h", "TWRFfield.h", "SWRFfield.h", "TransRFfield.cpp", "LCAVintegrator.cpp", "TransRFIntegrator.cpp", "StdIntegrators.cpp", "SymplecticIntegrators.cpp", "TransportMatrix.cpp"], [("acceleration", "LCAVintegrator.cpp"), ("standing waves", "StdIntegrators.cpp"), ("deflection", "TransRFIntegrator.cpp")],
  "Phases and frequencies from a list; voltages of about a percent of the momentum in travelling wave structures (their map is of second order in it), up to ten percent in standing wave structures.")
P("P24", "Klystrons keep the vector sum of their cavities at the voltage and phase set",
  "However a klystron's voltage, phase or phasor is set, and in whatever order, also through a copy, the sum of the voltage phasors of its cavities afterwards is the phasor set and the klystron reports it; setting the phase keeps the voltage and the other way round. In balanced mode (also at construction) every cavity has an equal share of voltage and the same phase; in vector sum mode the relative voltages and phases of the cavities are kept, and switching off and on again works.",
  "all voltages within bounds, sequences of two settings, up to three cavities",
  "No test uses klystrons.",
  ["Klystron.cpp", "Klystron.h", "RFStructure.cpp"], [("vector sum", "Klystron.cpp")],
  "Phases and cavity lengths from a list.", over=("histories", "inputs"))
P("P18", "Magnetic fields are the multipole sums their parameters describe",
  "A multipole field made in any way is By+iBx = sum c_n (x+iy)^n, with c_n the coefficient times the field scale as given (at a radius, or as the n-th derivative divided by n!; skew: times i); field vectors, components at any radius, normalised strengths (n! c_n / rigidity), the field without lower terms and the force q v x B on a charge all follow it, a field scaled is multiplied, and asking changes nothing. Every kind of magnet (quadrupole to decapole, skew, correctors, bends, solenoids, corrector windings with their integrated strength) has the field of its kind and strength, copies are equal and independent, and turned round by 180 degrees it has the rotated field with opposite polarity (twice: the original one). Bends bend particles of the matched momentum along their curvature and keep a pole face at either, both or no end, also in copies and turned round.",
  "all points and strengths within bounds; poles up to 5, radii from a list, every magnet class",
  "Tests evaluate a few fields at fixed points.",
  ["MultipoleField.cpp", "MultipoleField.h", "RectMultipole.cpp", "RectMultipole.h", "StandardMultipoles.cpp", "CorrectorDipoles.h", "CorrectorWinding.cpp", "SectorBend.cpp", "SectorBend.h", "Solenoid.cpp", "BzField.cpp"], [("multipole sums", "MultipoleField.cpp"), ("bends", "SectorBend.cpp"), ("windings", "CorrectorWinding.cpp")],
  "Strengths of the two highest poles are concrete; field scale 0 (components cannot be set) and windings of zero-length magnets are outside.")
P("P26", "Interpolations pass through their data, and ranges contain what lies between",
  "Interpolation of any set of points (two or more, different abscissae, in any order, as vectors or arrays) passes through all of them, ends included. To first order it is the straight line between neighbours; of order k (reduced to the number of points minus one) it meets polynomials up to degree k exactly, is continuous at the data, and answers the same whatever was asked before; equally spaced data are extrapolated along the end segments, other data refuse points outside with BadRange. A numerical range has its ends in order, contains exactly the values from its lower to its upper end (Check says on which side others lie), and an unbounded range contains all.",
  "2 to 7 points with any values, queries anywhere, orders 1 to 4, all histories of two earlier queries",
  "No test uses interpolation directly.",
  ["Interpolation.cpp", "Interpolation.h", "Range.h"], [("arbitrarily spaced data", "Interpolation.cpp"), ("ranges", "Range.h")],
  "Abscissae are concrete.", over=("inputs", "histories"))
P("P47", "The NaN check finds exactly the invalid particles, and ring timing acts in bends",
  "After each step the NaN check has reported, once each, with its index in the bunch, its id and the element, every particle with a coordinate that is not a finite number (any of the six, NaN or infinite). With culling it removes exactly those, also ones whose id was seen before, and keeps all others in order and unchanged, with the charge per particle and reference momentum; without culling the bunch is left as it is. The ring timing process is active in sector bends only, limits steps to the end of the bend, and over a bend adds its scale times the length to every particle's ct, however the bend is cut into steps and in every turn, leaving the other coordinates.",
  "bunches of up to four particles with any coordinates, up to two invalid ones per element in any place, two elements and two bunches; bends in 3 ways of cutting",
  "No test has invalid particles or ring timing.",
  ["NANCheckProcess.cpp", "NANCheckProcess.h", "RingDeltaTProcess.cpp"], [("NaN check", "NANCheckProcess.cpp"), ("ring timing", "RingDeltaTProcess.cpp")],
  "Halting on invalid particles (abort) is outside; invalid values come from a list.", over=("inputs", "histories"))
P("P51", "MAD tables become the lattices they describe",
  "Each row of a MAD table with a supported keyword becomes the component of that kind, name and length: quadrupoles, sextupoles and octupoles (normal or skew) whose integrated field derivative is the KnL value times the magnetic rigidity, bends with angle, field, gradient, pole face angles at each end and tilt (K0L if there is no ANGLE column), kickers that deflect by HKICK or VKICK, solenoids, standing wave cavities of a whole number of half waves with their voltage, frequency and phase 2 pi (LAG - 1/4) (on request one half wave and a drift), monitors (names beginning with WS: profile monitors), collimators and markers. A lattice has these in order with their positions along it; types treated as drifts become drifts, zero length types to be ignored and drifts of no length are left out; LINE pairs become frames (F_, S_, G_, M_ or, if honoured, any name) around what lies between, unless a flat lattice is asked for. With losses by synchrotron radiation the rigidity follows the momentum after each bend; models appended from several files are joined, each at its own momentum.",
  "all lengths, strengths, angles, phases and momenta within bounds for each keyword; 700 tables of three elements, all frame options, up to three files",
  "Two tests build LHC lattices, which are not among the stable tests.",
  ["MADInterface.cpp", "MADInterface.h", "AcceleratorModelConstructor.cpp"], [("components of a row", "MADInterface.cpp"), ("lattice", "AcceleratorModelConstructor.cpp")],
  "Numbers in tables which go through text are concrete; unknown keywords, rotations (SROT) and zero length magnets are outside.", over=("inputs", "configurations"))
P("P40", "Slice bunches move as their centroid particles do, with their covariances",
  "Slice macro particles keep charge and slice moments: GetMoments, GetProjectedMoments, GetCentroid of an SMPBunch are the charge weighted ones, whatever the result held before. Tracking maps centroid and covariance of each slice by one linear map of the element at the slice energy: drift, quadrupole with k/(1+dp), skew quadrupoles rolled as for particles, dipole components as a kick at the centre of the element or step, sector bends with gradient, tilt, pole faces, dispersion, path length and a matched momentum off the reference, solenoids with fringes, thin ones without length; sextupoles and monitors as drifts, higher components of a quadrupole ignored. In travelling wave cavities P(1+dp) grows by gL cos(phi - k ct), the reference momentum by gL cos phi; covariances follow the map of the centroids. Shifts and rolls of the frame act on slices as on particles. SMPBunchConstructor divides 6 sigma in time and energy into equal slices with the charge of a Gaussian in each, dispersion shifting the centroids by D dp; AdjustRefMomentumToMean and AdjustRefTimeToMean keep momenta and times.",
  "all centroids and covariances of a slice (a second, concrete one beside it) through sixteen kinds of elements, ten kinds of bends, cavities, solenoids and skew quadrupoles in steps, any displacement with five rolls, any charges, phases, energies in cavities",
  "Tests do not track slices.",
  ["SMPBunch.cpp", "SMPBunch.h", "SMPStdIntegrators.cpp", "SMPTransform3D.cpp", "SMPBunchConstructor.cpp", "TransportRMaps.cpp", "RMap.h", "SliceMacroParticle.cpp", "SMPTracker.h"], [("elements", "SMPStdIntegrators.cpp"), ("maps", "TransportRMaps.cpp"), ("moments", "SMPBunch.cpp"), ("construction", "SMPBunchConstructor.cpp")],
  "Rotations about transverse axes are approximate by documentation and outside, as is the focusing of cavities beyond its consistency, and bunch files.", over=("inputs", "configurations"))
P("P41", "Closed orbits, dispersion, transfer matrices, stable orbits match tracking",
  "The transverse closed orbit found from any element of a ring, any momentum deviation and any guess is one that tracking a turn from that element reproduces, with ct and momentum deviation kept; found to the tolerance it is found again from itself. Dispersion at an element is the change of its closed orbit with momentum; rms orbit and rms dispersion are length weighted along all elements, from the values at the start. The columns of a transfer matrix, of a turn from the observation point or of the elements n1 to n2, are the changes at the end for a change of each coordinate of the orbit given. Stable orbits lists, in order, exactly the particles that stay within the apertures for the number of turns asked for, starting at the observation point, and leaves the bunch alone.",
  "all kicks of up to four correctors (1e-5 to 1e-3), all orbits within 1e-3, all starting elements, momentum deviations of 1%, up to 3 turns",
  "No stable test looks for closed orbits.",
  ["ClosedOrbit.cpp", "Dispersion.cpp", "TransferMatrix.cpp", "StableOrbits.cpp"], [("closed orbit", "ClosedOrbit.cpp"), ("dispersion", "Dispersion.cpp"), ("transfer matrix", "TransferMatrix.cpp"), ("stable orbits", "StableOrbits.cpp")],
  "Rings of quadrupoles, drifts and correctors, whose transverse maps are linear (of non-linear maps the iteration would need the singular values of symbolic matrices); without RF and radiation.", over=("inputs", "configurations"))
P("P42", "Lattice functions and phase advances are the linear optics of tracking",
  "A lattice function table has a row for the entrance of each element, and one for the end of the line (not when only orbit functions are tabulated), with the path length, the orbit given tracked to there, and beta, -alpha, gamma (functions (1,1,1), (1,2,1), (2,2,1), and 3, 4 with k=2 vertically) carried from those of the initial matrix by the linear map of tracking around that orbit; (i,6,3)/(6,6,3) is the dispersion carried likewise, periodic for a ring's matrix with longitudinal stability forced. Phases (0,0,k) are the advance from the start in turns, modulo 1; phase advances between any two elements, by number or name, include all whole turns and are the sums over the elements between. Mean and RMS are trapezoid averages over path length in the rows asked for (clipped to the table); a position finds the first row at or behind it.",
  "all orbits and thin sextupole kicks within 1 mm, all drift lengths 0.2 to 1.4 m, lines of up to 7 cells (1.7 turns), 3 initial optics, all row ranges",
  "Two tests build LHC lattices, which are not among the stable tests.",
  ["LatticeFunctions.cpp", "LatticeFunctions.h", "PhaseAdvance.cpp", "LinearAlgebra.cpp", "AcceleratorModel.cpp"], [("lattice functions", "LatticeFunctions.cpp"), ("phase advance", "PhaseAdvance.cpp"), ("normalisation", "LinearAlgebra.cpp")],
  "Initial matrices are concrete (eigenvectors of symbolic matrices cannot be encoded) and uncoupled; energy derivatives, symplectification and changes of energy along the line are outside.", over=("inputs", "configurations"))
P("P43", "Materials and mixtures have the properties of what they are made of",
  "The mean free path of a material is 1e-3 A / ((sigma_T + sigma_R) 1e-28 rho 6.022e23), on construction and after Update(). Copies and assignments have all properties (lambda, sigma_E and sigma_D too) and extra properties of their own, which neither side can change for the other; SetExtra sets the properties named in its list. MakeMixture (number fractions) and MakeMixtureByWeight (weights over A), with proportions as vector or argument list, of elements or mixtures, give Z, A, sigma_T, sigma_I, sigma_R as averages over the number of atoms, dE/dx and 1/X0 as averages over mass, the density given and its mean free path, and leave the components alone; unknown components and wrong numbers of proportions (vectors) are refused. A_R() and A_H() of a mixture pick the A of a component with probability proportional to proportion times sigma_R or sigma_T, of an element its A. The standard table has the standard values; UseSixTrackValues changes values of the elements they belong to.",
  "all properties within a factor of 2 of three elements, all proportions 0.2 to 5 of mixtures of up to three components, all random numbers",
  "One test looks at one mixture and one element.",
  ["MaterialProperties.cpp", "MaterialProperties.h", "MaterialData.cpp", "MaterialData.h"], [("properties, mixtures", "MaterialProperties.cpp"), ("tables", "MaterialData.cpp")],
  "Random numbers are the solver's (RandomNG is replaced); printed tables are outside; sums are compared to 2e-5 (single precision).", over=("inputs", "configurations"))
P("P44", "Scattering in matter picks processes by cross section with right kinematics",
  "ParticleScatter asks process i (1 to 4) with probability Xsection[i]/Xsection[0], else process 5, returns its answer, configures a material once and keeps the tables of several apart. A scatter with momentum transfer t kicks the slopes by sqrt(t)/E' at a random azimuth, E' the energy after it; E' = E - t/(2m) off a nucleus of mass m (Rutherford, elastic pN), E for SixTrack's elastic and Rutherford ones, E - M^2 E/s for diffractive ones; positions and times are kept; the particle is lost if E' <= 0.1 GeV, and always in inelastic scattering. t is 0.9982e-3/(1-u) GeV^2 (Rutherford), exponential with slope 14.1 A^0.66 (nuclei) and 8.5 + 1.086 ln sqrt(2 m_p E) (SixTrack nucleons; by M^2 for its diffractive ones: twice that below 2, (106-17M^2)/26 times to 5, 7/12 above, M^2 log-uniform to 0.15 s). SixTrack models have the cross sections of its formulae. Path lengths are exponential with the mean free path. Straggling adds Gaussian angles of Highland's rms theta at the mean of the two energies, offsets of variance x^2 theta^2/3 correlated with them by x theta^2/2, planes independent. Simple energy loss lowers the energy by SixtrackdEdx times the length.",
  "all random numbers, positions, momentum offsets to 5 % and energies 50 to 7000 GeV (450 and 7000 for SixTrack's nucleon processes), three materials (lists of thicknesses and of diffractive masses)",
  "One test follows ten million particles through copper and compares coarse histograms of angles and losses.",
  ["ScatteringProcess.cpp", "ScatteringProcess.h", "ScatteringModel.cpp", "ScatteringModel.h", "ScatteringModelsMerlin.cpp"], [("kinematics", "ScatteringProcess.cpp"), ("choice, straggling", "ScatteringModel.cpp"), ("cross sections", "ScatteringModelsMerlin.cpp")],
  "Random numbers are the solver's (RandomNG is replaced). The tabulated elastic and diffractive distributions and the Landau energy loss are outside.", over=("inputs", "configurations"))
P("P36", "Protons in collimator jaws step, lose energy, scatter, escape or are lost",
  "A proton outside the jaws at the start of a bin of a collimator with scattering moves straight from interaction to interaction by free paths of the scattering model, the last step ending at the end of the bin; each step takes the energy loss and then the straggling of its length (with the energies before and after the step), then the scatter of the model with the energy after the step. It leaves the material when, after a step, it is inside the jaws there and would be at the end of the bin on its way straight on; then it goes straight on to exactly the end of the bin. It is lost when its energy is 1 GeV or less or below a hundredth of the reference energy after a step, when the scatter absorbs it, or when its momentum deviation is below -0.95 after it; each loss is reported once to every output, with the collimator, the turn and the position of the end of that step, and the particle leaves the bunch. Survivors keep their place in the bunch; protons in the gap drift; the next bin starts where this one ends.",
  "all offsets 0.01 to 1 mm into the jaw, slopes -3 to 1 mrad, mean free paths 0.25 to 0.3 m, up to three scatters in a bin of 0.5 m, three tapers, four ways of getting lost, one or two bins",
  "One test follows ten million particles through copper and compares coarse histograms.",
  ["CollimateProtonProcess.cpp", "CollimateProtonProcess.h", "CollimateParticleProcess.cpp"], [("the jaw", "CollimateProtonProcess.cpp"), ("bins", "CollimateParticleProcess.cpp")],
  "Random numbers are fixed (RandomNG is replaced), energy loss, straggling and path length are those of the scattering model (P44).", over=("inputs", "configurations"))
P("P50", "Ground motion moves supports by the ATL law and repeats with its seed",
  "Ground motion moves supports only vertically. In increment mode each step of ATL2D adds to the offsets independent normal numbers of covariance A dt (d(i,r) + d(j,r) - d(i,j))/2, d the distance in the plane and r the reference point: any two supports drift apart with variance A dt d(i,j), those at one place move together. In absolute mode each step replaces the offsets by ones of that covariance with dt the time after the step, plus independent vibration of the rms set; vibration can be set only in absolute mode and plays no part in increment mode. A step of SimpleATL adds to the ground motion of each support a random walk along the arc positions from 0 of variance A dt ds, whatever the order of the list, and sets the offsets to the accumulated ground motion plus fresh vibration. Steps add to the clock; Reset returns offsets, ground motion and clock to zero. Setting a seed or resetting it repeats the motion. A recorded eigen system read back gives the same motion.",
  "all A and steps of 0.1 to 10, five arrangements of four supports (bends, shared places, unsorted, around the reference point), all gaps of two supports, with and without vibration, one or two steps, all histories of four mode changes",
  "One test looks whether the offsets after one step differ from zero.",
  ["ATL2D.cpp", "ATL2D.h", "SimpleATL.cpp", "SimpleATL.h"], [("plane", "ATL2D.cpp"), ("along the arc", "SimpleATL.cpp")],
  "The response to each of the normal numbers the generator hands out is obtained from as many seeds, so the covariance is that of the code, not a sample. The generators are those of the standard library, seeded by the harness.", over=("inputs", "configurations", "histories"))
P("P45", "Random numbers follow their distributions and repeat with the seed",
  "After init or reset with a seed, or reset() to the last one, the generator (64-bit Mersenne twister of the seed sequence) starts again, and so does each local generator, whose seed sequence is the master seed followed by its name hash; local generators go on independently of the others and of the main one, are the same object for the same name, and start again alone with resetLocalGenerator. normal(m, v) is m plus sqrt(v) times the next standard normal number of the main generator, m itself if v is 0; with a cutoff c it stays within |c| sqrt(v) of m and takes a number within it at once, without a cutoff if c is 0; uniform(a, b) is a + (b - a) u; poisson(u) is the Poisson number of mean u. landau() is the quantile of the Landau distribution (survival function the integral of exp(-t ln t - x t) sin(pi t) / (pi t)) at the next uniform number, within a few thousandths. getSeed returns the seed in force.",
  "all means, variances and limits within bounds, four seeds, all histories of four seeding, resetting and drawing operations on the main and two local generators, all uniform numbers from 0.007 to 0.999 (and seventy below) for the Landau distribution",
  "A test bins many numbers of four distributions.",
  ["RandomNG.cpp", "RandomNG.h", "LandauDistribution.h"], [("generators", "RandomNG.cpp"), ("Landau", "LandauDistribution.h")],
  "The distributions of the standard library are taken as given; seeding from the system is outside.", over=("inputs", "histories"))
P("P48", "Aperture tables and collimator databases set the apertures they describe",
  "From an aperture table (S being the end and L the length of each listed element, MAD convention) every listed element with drifts around it, or drift, gets its own aperture throughout its length, and every drift not listed gets at each place the linear interpolation between the nearest listed ends before and after it, around the ring (circles, ellipses and rectellipses, of one type or mixed). Elements that have an aperture keep it, elements without length get none, deleting removes all. From a collimator database with sigmas each collimator named gets jaws at the given number of sigmas of the beam in the jaw planes (beta functions, emittances, tilt), centred on the orbit, following both from entrance to exit, or, if matching is off, parallel jaws just outside the envelope; with alignment errors enabled (and matching off) each jaw is displaced and inclined by normal errors of the rms asked for, cut at three sigma; from a database with gaps, the full gaps in the tilted frame about the axis. Collimators named get the material named, others and other elements stay untouched; the impact factor returns the number of sigmas of a halo that hits the primary collimator at the depth asked for.",
  "ten lattices of up to five elements, four sets of shapes, any place and particle; any orbit, beam and error sizes for collimators",
  "aperture_config_test uses one table of adjacent elements; collimator databases are untested.",
  ["ApertureConfiguration.cpp", "ApertureConfiguration.h", "CollimatorDatabase.cpp", "CollimatorDatabase.h", "InterpolatedApertures.cpp", "CollimatorAperture.cpp"], [("aperture lookup and interpolation", "ApertureConfiguration.cpp"), ("jaw positions", "CollimatorDatabase.cpp")],
  "Tables and databases are files of concrete numbers (text conversion cannot be encoded), one harness makes the sizes in the table symbolic; lattice functions are replaced by a symbolic table, random numbers by given ones. Rectangles and octagons between drifts, resistive wakes and log output are outside.", over=("inputs", "configurations"))

P("P22", "Alignment errors move exactly the chosen elements as told",
  "AcceleratorErrors applied to a (part of a) beamline shift, or rotate about their x, y and z axes in this order, the frames of exactly the elements of that part whose name (or Type.name) fits the pattern, with wildcards and |-separated alternatives; all other elements, and the girders that carry them, stay as they are. Per axis, the displacement is the mean given when the rms is zero, and otherwise a number drawn from the normal distribution with that mean and the square of the rms as variance, however small, drawn for every element and axis anew. After SetErrors the displacement replaces what the element had before; after AddErrors it comes on top of it, acting along the element's displaced axes. An object applied again draws again with the same settings, and one whose errors were never set moves nothing. The report lists, for each element displaced and in the order of the beamline, its name, what was done and the three numbers applied.",
  "all random numbers within three sigma, all displacements present before, all patterns, parts, errors and modes of the harnesses",
  "No test applies alignment errors.",
  ["AcceleratorErrors.h", "AcceleratorErrors.cpp", "Transformable.cpp", "StringPattern.cpp"], [("displacement of the frames that match", "AcceleratorErrors.cpp"), ("replacing or adding", "AcceleratorErrors.h")],
  "Lines of five elements with a girder, patterns of names, types and alternatives, two rounds of errors; the random numbers are symbolic for shifts and single rotations and concrete where rotations about three axes are combined. The generator itself is P45's.")

P("P52", "Generated distributions fill the region they are asked to fill",
  "A normal distribution draws each of the six normalised coordinates independently from the unit normal distribution, cut off at that coordinate's own cut-off (no cut-off where it is zero, the same one everywhere when a single number is given); a uniform one draws each independently and evenly between -1 and 1. A ring puts (x, x') and (y, y') each on the circle of one sigma. A horizontal (vertical) halo puts (x, x') ((y, y')) on the circle of its size, by default one sigma, with the other plane empty for halos of the first kind and normally distributed with that plane's own cut-offs for those of the second. The hollow halos put (x, y) on the circle of the outer radius (thin) or at an amplitude drawn evenly between the inner and the outer radius (thick), without slopes. All phases are drawn evenly over the full circle and independently for every plane and particle, and the momentum and time coordinates of ring, halo and hollow distributions evenly between -1 and 1.",
  "all random numbers the generators can draw, all sizes and radii within bounds",
  "Tests check only spread and extent of a few random bunches (normal, uniform).",
  ["ParticleDistributionGenerator.cpp", "ParticleDistributionGenerator.h", "HaloParticleDistributionGenerator.cpp", "HaloParticleDistributionGenerator.h", "HollowElensParticleDistributionGenerator.cpp", "HollowElensParticleDistributionGenerator.h"], [("draws of each coordinate", "ParticleDistributionGenerator.cpp"), ("circle of the halo", "HaloParticleDistributionGenerator.cpp"), ("annulus of the hollow beam", "HollowElensParticleDistributionGenerator.cpp")],
  "Two successive vectors of every generator; sizes 0.5 to 8, radii 0.5 to 8, cut-offs from a list. RandomNG is replaced by symbolic numbers (its distributions are P45's) assumed to differ pairwise by 0.001, and the check identifies which draw a coordinate comes from.")

P("P37", "The hollow electron lens kicks by the electron current inside the radius",
  "A passage through a hollow electron lens changes only the slopes, by a kick along the line to the lens axis (at its offset) of size f(R) 2 L I (1 + be bp) / (1e7 R Brho be bp), towards the axis for electrons opposite to the protons, away from it with (1 - be bp) for electrons along them; bp is the proton velocity of the reference momentum. f is the part of the current inside R: none within Rmin, all beyond the outer edge, between them that of a uniform density (perfect profile) or of the measured piecewise linear densities (Tevatron, LHC) scaled to Rmin. DC mode kicks each turn, turn skip each n-th turn (2 if unset), diffusive mode on turns with a non-negative random number, AC mode with (1 + cos(2 pi m t Q))/2 on turn t, Q the tune or the one of the step of the tune sweep; turns count the passages from 1.",
  "all distances to 40 mm in six directions and all positions within 6 mm, all currents, lengths and AC tunes within bounds, momenta of 5 and 7 TeV (and slower protons, a known finding), seven turns",
  "Tests compare the kicks of some distributions at 7 TeV to stored values.",
  ["HollowELensProcess.cpp", "HollowElectronLens.cpp", "HollowElectronLens.h"], [("kicks", "HollowELensProcess.cpp"), ("modes", "HollowElectronLens.cpp")],
  "Printed profiles are outside.", over=("inputs", "configurations"))
P("P33", "Wakefields kick particles by the wakes of the slices of their bunch",
  "WakeFieldProcess acts once on elements with a wake potential (expected of no process or this one), at the exit (or centre), asking to be called there. The bunch is sorted and cut into nb equal slices within ns sigma of its mean ct; particles outside are removed once, the charge Q of the bunch is kept. With q_j the fraction of particles in slice j over the slice length dz, the wakes at slice boundary i are L_i = e Q dz sum_{j>=i} q_j Wlong((j-i+1/2) dz), T_i likewise with Wtrans and the centroid of slice j; a particle between boundaries gets their linear interpolation times the element length: momentum falls by it, slopes grow by the transverse one (unless excluded) over P0 and scale with the momentum; the reference momentum then falls by the mean loss. CSR potentials use the slices behind, from the second: the slope of q per slice (Savitzky-Golay filter of window and orders as set, clipped at the ends) over dz and Wlong((j-i+1/2) dz), j<i, and keep the reference momentum.",
  "all linear wakes, charges, element lengths, positions and one energy and slope in five bunches of two to five particles and one to nine slices, three bunches of any length or mean time, steps of other processes",
  "No test includes wakefields.",
  ["WakeFieldProcess.cpp", "WakeFieldProcess.h", "WakePotentials.h", "ParticleBunchUtilities.cpp"], [("wakes", "WakeFieldProcess.cpp"), ("binning", "ParticleBunchUtilities.cpp")],
  "Bunches without length, MPI and the other histogram utility are outside; wakes are linear functions of the distance.", over=("inputs", "configurations"))
P("P34", "Collimators, couplers and slice bunches have their own wakes",
  "With M modes CollimatorWakeProcess cuts the bunch as WakeFieldProcess does and kicks, for m=1..M in turn, a particle at z=x+iy in slice i by e q/(4 pi eps0 P0) (q the charge per particle) with dx'+i dy' = m F_m conj(z^(m-1)), F_m the sum over slices j>=i of Wtrans((j-i) dz, m) times the sum of z^m in slice j, and lowers its momentum by Re(G_m conj(z^m)), G_m with Wlong; slopes scale with the momentum. CouplerWakeFieldProcess adds to WakeFieldProcess at boundary i Wxy at the centroid of slice i times the charge from i on over the element length, and, in cavities, the voltage over the length times CouplerRFKick at |phase| + k ct of the slice centre. For macro particles a wake slice begins where the distance to the first one in the slice reaches the width; each loses half the wake of its own slice and that of the slices ahead, at the distance of their mean times, the transverse wake of those ahead weighted with their centroids; slopes and covariances of slopes scale with the momentum, the reference falls by the mean loss.",
  "all mode strengths or charges with one to three modes, all coupler, RF and cavity wakes (linear), voltages, phases (negative), positions, five bunches of three to five particles; one to five macro particles in slices of two widths, all wakes, charges, centroids, coupling covariances",
  "No test includes wakefields.",
  ["CollimatorWakeProcess.cpp", "CollimatorWakePotentials.h", "CouplerWakeFieldProcess.cpp", "CombinedWakeRF.h", "SMPWakeFieldProcess.cpp"], [("collimators", "CollimatorWakeProcess.cpp"), ("couplers", "CouplerWakeFieldProcess.cpp"), ("slices", "SMPWakeFieldProcess.cpp")],
  "Positions in collimators are concrete; positive cavity phases are outside (the sign convention of the kick is not documented for them), resistive potentials too.", over=("inputs", "configurations"))
P("P38", "Spins turn with the field of each element and stay with their particles",
  "Spin tracking turns the spin of each particle of a spin bunch, once per element with a field however it is cut into steps, as a rotation about minus the field at the particle, by (1 + a g) c B l / (Brho (1+dp)) for transverse fields ((1 + a) for longitudinal ones), g = P0 (1+dp)/m (P0 the spin momentum if set), a and m of the electron; in bends, for particles in the horizontal plane, relative to the orbit by a g only. Solenoids add at the entrance a turn by the fringe field integral -Bz (x, y)/2 and at the exit its inverse. Equal steps are asked for as set; particles are not touched, drifts and bunches without spins not processed. Spins follow their particles when adding ((0,0,1) if not given) and erasing; the average spin is the mean; rotations of the bunch rotate spins.",
  "all spins (two particles, seven kinds of elements, two momenta and deviations each), all momentum deviations in bends, all positions within 1 cm in quadrupoles and sextupoles, a line with 1 to 3 steps",
  "No test includes spins.",
  ["SpinParticleProcess.cpp", "SpinParticleProcess.h"], [("turns and bunches", "SpinParticleProcess.cpp")],
  "Fringe fields of bends off the horizontal plane are outside (the model is not documented), and so is sorting (documented as not keeping spins).", over=("inputs", "configurations"))
P("P39", "Synchrotron radiation takes each particle's own energy loss once per step",
  "Synchrotron radiation acts in sector bends (in quadrupoles and other rectangular multipoles only if included), at the end of each of n equal steps of the element (of the smallest n with steps below the maximum size), asking to be called there, whatever the steps of other processes. Each particle loses u = (2/3) r0 (e B g)^2 l / m in the step (SI units, r0 = mu0 e^2/(4 pi m), l the step, B the field at its position, g = P0 (1+dp)/m): dp falls by u/P0, slopes are divided by 1 + u/P0, or in symplectic variables scaled so that the direction is kept; positions do not change. With adjustment the reference momentum falls by the mean loss of the bunch and dp is taken relative to it, otherwise it stays. With photons u is the sum of N energies from the photon generator, called with the critical energy (3/2) hbar g^2 e B / m, N Poisson distributed with mean 5 alpha e B l / (2 sqrt(3) m c).",
  "all fields, momenta deviations and positions within bounds, electrons and protons, 3 ways to step with cuts within them, 8 seeds of photons; tracked lines of two bends",
  "No test includes radiation.",
  ["SynchRadParticleProcess.cpp", "ParticleBunch.cpp"], [("energy loss", "SynchRadParticleProcess.cpp"), ("reference momentum", "ParticleBunch.cpp")],
  "The distribution of photon energies is outside (random); a ParticleBunch of no particle type has no mass and cannot radiate.", over=("inputs", "configurations"))
P("P35", "Monitors measure the beam once, at their measurement point, and report it",
  "Tracking a bunch through an active monitor takes exactly one measurement, with the particles drifted from the entrance to the measurement point (length/2 plus its offset, entrance and exit included), however the element is cut into steps; for the rest the monitor is a drift. Without noise a position monitor reports the bunch centroid times its scale, through its response, with its resolution as error and the bunch's reference time; a profile monitor reports centroid and rms width of x, of y and of the projection onto its inclined wire u = x cos + y sin. Each buffer added (once, however often added) and not removed, or the default buffer, gets each measurement once with the monitor that made it; inactive monitors and all monitors when switched off record nothing. Copies keep buffers, scale and measurement point.",
  "all bunches of up to three particles within bounds, 9 measurement points, 4 ways to cut, all integrator sets",
  "No test takes measurements.",
  ["BPM.cpp", "BPM.h", "Monitor.cpp", "Monitor.h", "RMSProfileMonitor.cpp", "RMSProfileMonitor.h", "AMBufferManager.h", "StdIntegrators.cpp"], [("measurement in steps", "StdIntegrators.cpp"), ("position monitors", "BPM.cpp"), ("profile monitors", "RMSProfileMonitor.cpp")],
  "Noise is switched off or of zero resolution; a monitor with buffers of its own is not combined with a default buffer (header and code differ on that).", over=("inputs", "histories"))
P("P30", "Data tables keep what they are given, and TFS files keep tables",
  "A table holds, for every named column (double, integer or string) and every row, the value last set and zero or the empty string before, whatever the order in which columns and rows are added; copies are independent. Access to a missing column or row throws out_of_range, to a column of another type WrongTypeException, a repeated name invalid_argument, in each case leaving the other cells unchanged; headers behave the same and are kept apart from columns. Row iterators visit every row once in order, jump and compare like indices, and writing through a row changes that row only. A table written as TFS and read back has the same headers, columns, types and rows (doubles to ten digits; strings without quotes of any length, also empty), words being separated by blanks outside quotes, and rows with the wrong number of values, unknown types and truncated files are refused.",
  "all sequences of four operations, all cell values and names within bounds, all strings of three characters, all lines of six characters",
  "Tests read and write a few fixed tables.",
  ["DataTable.cpp", "DataTable.h", "DataTableTFS.cpp", "DataTableTFS.h"], [("storage by column type", "DataTable.cpp"), ("row iterators", "DataTable.cpp"), ("TFS words", "DataTableTFS.cpp")],
  "Numbers in files from a list (conversion between numbers and text is not encoded).", over=("histories", "inputs"))
