#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
S = "Source/"
T_NOASSERT = "The stable tests only look at the exit status of four sample programs and one example script; "

p("C01", "Deck values reach the simulation faithfully and in consistent units",
  "For every well-formed input deck, each documented key of every section is delivered to the simulation with the value written, SI quantities being converted to the natural units of the electron (mass, Compton frequency, critical field) and plain numbers, names and switches being left as they are. A missing optional key takes its documented default, and the number and order of particle and histogram sections are preserved. The order of sections and keys, comments and blank lines make no difference.",
  ["inputs", "configurations"], "every well-formed deck: any subset of keys, any values, any layout",
  T_NOASSERT + "one deck is parsed and nothing is compared.",
  [S+"IO/Input/FileParser.cpp", S+"IO/Input/INIReader.cpp", S+"Tools/UnitsSystem.cpp"],
  [("section readers", S+"IO/Input/FileParser.cpp"), ("reference values", S+"Tools/UnitsSystem.cpp")],
  observe=["the parsed general, field, particle, physics and histogram parameters"])
p("C02", "Malformed decks are refused cleanly, never crash or hang",
  "Whatever bytes an input file contains, reading it ends in bounded time either with parsed parameters or with a diagnostic on standard error and a non-zero exit status, without memory errors or undefined behaviour. A deck with no general section, or without time step, end time or units, with an unknown unit system or field type, with a time step that is not positive, or with more than three components in a vector is always refused, and so is a file that does not exist.",
  ["inputs"], "all byte strings as deck, and all decks with one of the listed faults",
  T_NOASSERT + "no malformed deck is tried.",
  [S+"IO/Input/ini.cpp", S+"IO/Input/INIReader.cpp", S+"IO/Input/FileParser.cpp"],
  [("vital key checks", S+"IO/Input/FileParser.cpp CheckVitals"), ("line parser", S+"IO/Input/ini.cpp")])
p("C03", "INI syntax and typed values follow the documented rules",
  "A deck is read as sections of name=value or name:value pairs: '#' and ';' start comment lines, a ';' after white space starts an inline comment, indented lines continue the previous value, surrounding white space is dropped, a byte-order mark is ignored, and sections and names are looked up without regard to case. Integers (decimal, hex, octal), reals, the words true/yes/on/1 and false/no/off/0, and vectors of numbers separated by spaces or commas with or without brackets are converted to their value; a missing or unconvertible value yields the caller's default.",
  ["inputs"], "all texts in the INI grammar with lines below the length limit, all typed lookups",
  T_NOASSERT + "the only deck tried has one layout and no comparison of values.",
  [S+"IO/Input/ini.cpp", S+"IO/Input/INIReader.cpp"],
  [("ini_parse_stream", S+"IO/Input/ini.cpp"), ("typed getters", S+"IO/Input/INIReader.cpp")])
p("C04", "The input summary file reports exactly what was parsed",
  "When a deck is accepted by the command line program, the summary file it writes next to the output lists the general, field, particle, physics and histogram parameters that the run will use, each with the value that was parsed, one block per configured particle source and histogram, in deck order.",
  ["inputs", "configurations"], "every accepted deck",
  T_NOASSERT + "nothing reads the summary.",
  [S+"IO/Input/FileParser.cpp"], [("check output", S+"IO/Input/FileParser.cpp")], observe=["input-check.txt"])
p("C05", "Vector and matrix algebra obey their identities; rotations are exact",
  "Vector and 3x3 matrix operations agree with ordinary linear algebra (component-wise arithmetic, dot and cross products, magnitude, unit vectors, unit direction between two points, determinant, inverse, products). The rotation that takes one vector onto another is a proper rotation (orthogonal, determinant one), maps the first direction onto the second and leaves their common normal fixed, for every pair of directions including parallel and anti-parallel ones.",
  ["inputs"], "all finite vectors and well-conditioned matrices, all pairs of directions",
  T_NOASSERT + "no algebra result is compared, and the anti-parallel case never occurs.",
  [S+"Tools/ThreeVector.hh", S+"Tools/ThreeMatrix.hh"],
  [("operators", S+"Tools/ThreeVector.hh"), ("RotateToAxis", S+"Tools/ThreeVector.hh"), ("Inverse", S+"Tools/ThreeMatrix.hh")])
p("C06", "Interpolation, table lookup and integration are exact where they must be",
  "One-dimensional interpolation returns the tabulated value at every sample, lies on the straight line between neighbouring samples, and continues the first and last segment linearly outside the table, for any increasing axis. Nearest-sample lookup returns the index of the closest sample, bracketing lookup returns the enclosing interval and the fraction within it, refusing queries beyond the last sample with an error exit. Simpson integration is exact for cubics on evenly spaced axes with an odd number of points.",
  ["inputs"], "all strictly increasing axes of two or more points, all data, all queries",
  T_NOASSERT + "numerical helpers are never called with a known answer.",
  [S+"Tools/Numerics.cpp"], [("Interpolate1D, ArrayIndex, ClosestPoints, SimpsonsRule", S+"Tools/Numerics.cpp")])
p("C07", "Random samples follow the requested distributions",
  "Uniform, normal, Poisson and discrete samples stay within their support and follow the distribution and parameters asked for, whether drawn singly or in bulk; every index of a discrete distribution is drawn with frequency proportional to its weight, including the first and the last. Bulk requests return exactly the requested number of samples.",
  ["inputs"], "all valid parameters; distributional, decided with error probability below 1e-9 per case",
  T_NOASSERT + "no sample is looked at.",
  [S+"Tools/MCTools.cpp"], [("samplers", S+"Tools/MCTools.cpp")])
p("C08", "A seed fixes the whole simulated history; seeds and threads differ",
  "After seeding the random generator with the same number, the same sequence of operations (drawing samples, building sources, pushing, emitting, creating pairs) reproduces bit-identical results, whatever was drawn before seeding. Different seeds, and different threads of one process, produce different, unrelated streams.",
  ["inputs", "histories"], "all seeds, all sequences of simulation operations, several threads",
  T_NOASSERT + "every test runs once with an unpredictable seed.",
  [S+"Tools/MCTools.cpp", S+"Tools/MCTools.hh", S+"Exec/QEDCASC.cpp"],
  [("SetSeed", S+"Tools/MCTools.cpp"), ("generator", S+"Tools/MCTools.hh")])
p("C09", "The plane wave is a vacuum electromagnetic wave",
  "For every amplitude, wavelength, direction and polarisation angle, the plane wave has electric and magnetic fields of equal magnitude (in natural units), perpendicular to each other and to the propagation direction, with the energy flux along the requested direction. It depends on position and time only through the distance along the direction minus time, repeats after one wavelength, never exceeds and does reach the amplitude, and the polarisation angle turns both fields together about the direction.",
  ["inputs"], "all parameters, positions and times",
  T_NOASSERT + "the plane wave is not evaluated by any test.",
  [S+"Physics/Fields/EMField/PlaneEMField.cpp"], [("GetField", S+"Physics/Fields/EMField/PlaneEMField.cpp")])
p("C10", "The Gaussian pulse is a focused light pulse with the requested shape",
  "The Gaussian pulse travels at the speed of light from start towards focus, its envelope peaks at the focus when light emitted at time zero from the start arrives there, and it falls off along its axis and across it with the requested duration and waist (1/e in field), the waist growing with distance by the Rayleigh law while the peak decreases. Electric and magnetic fields are perpendicular to each other and to the axis, equal in magnitude, and carry energy along the axis for every polarisation; the carrier has the requested wavelength and moves with the envelope.",
  ["inputs"], "all pulse parameters with a waist of several wavelengths, all positions and times",
  T_NOASSERT + "the laser test only writes the field to a file.",
  [S+"Physics/Fields/EMField/GaussianEMField.cpp"], [("GetField", S+"Physics/Fields/EMField/GaussianEMField.cpp")])
p("C11", "The tightly focused pulse solves Maxwell's equations to high order",
  "For a long pulse, the tightly focused field satisfies the vacuum Maxwell equations to the order of the series it implements (residual falling at least as the fifth power of the divergence angle), propagates from start towards focus at the speed of light, peaks at the focus on arrival with the requested amplitude, waist and duration, and reduces to a transverse wave for weak focusing. The polarisation angle turns the whole beam about its axis, for every beam direction.",
  ["inputs"], "all pulse parameters within the validity of the series, all positions near the focus and times near arrival",
  T_NOASSERT + "the focusing field is not evaluated by any test.",
  [S+"Physics/Fields/EMField/FocusingField.cpp"], [("GetField", S+"Physics/Fields/EMField/FocusingField.cpp")])
p("C12", "Fields move and turn with their geometry",
  "Shifting the start and focus of a pulse shifts its field by the same amount and changes nothing else; fields scale in proportion to the amplitude; a static field is the same everywhere and always and equals what was asked for. Turning the propagation direction turns the intensity pattern and energy flow rigidly with it, for every direction including along and against each coordinate axis.",
  ["inputs"], "all field types, shifts, rotations, positions and times",
  T_NOASSERT + "only one geometry, focused on the origin and along one axis, is ever used.",
  [S+"Physics/Fields/EMField/GaussianEMField.cpp", S+"Physics/Fields/EMField/FocusingField.cpp", S+"Physics/Fields/EMField/PlaneEMField.cpp", S+"Physics/Fields/EMField/StaticEMField.cpp"],
  [("beam frame", S+"Physics/Fields/EMField"), ("RotateToAxis", S+"Tools/ThreeVector.hh")])
p("C13", "Charged particles follow the Lorentz force; photons fly straight at c",
  "Without radiation reaction a charged particle follows the relativistic Lorentz-force trajectory of its charge and mass to fourth order in the time step: exact solutions in uniform electric, uniform magnetic and plane-wave fields are reproduced, energy changes only by electric work, and opposite charges in opposite fields move alike. A photon moves along its direction at the speed of light with unchanged momentum, and a dead particle does not change at all.",
  ["inputs"], "all initial conditions, fields, charges and resolved time steps",
  T_NOASSERT + "the pusher test only writes a trajectory.",
  [S+"Physics/ParticlePushers/ParticlePusher.cpp", S+"Physics/ParticlePushers/LorentzPusher.cpp"],
  [("Runge-Kutta step", S+"Physics/ParticlePushers/ParticlePusher.cpp"), ("Lorentz force", S+"Physics/ParticlePushers/LorentzPusher.cpp")])
p("C14", "Radiation reaction removes the right power, against the motion",
  "The classical radiation-reaction push loses, on top of the Lorentz force, momentum opposite to the motion at the rate (2/3) alpha eta^2 in natural units, where eta is the invariant field strength in the particle's rest frame; the semiclassical push loses the same rate times the quantum correction factor, which is one for small eta, decreases with eta and never exceeds one. The loss is the same for both charges and vanishes when the field vanishes.",
  ["inputs"], "all momenta, field vectors and both charges",
  T_NOASSERT + "no radiating trajectory is compared with anything.",
  [S+"Physics/ParticlePushers/LandauPusher.cpp", S+"Physics/ParticlePushers/ModifiedLandauPusher.cpp"],
  [("Landau-Lifshitz force", S+"Physics/ParticlePushers/LandauPusher.cpp"), ("gaunt factor", S+"Physics/ParticlePushers/ModifiedLandauPusher.cpp")])
p("C15", "Particle clocks and recorded tracks are consistent",
  "Every push advances the clock of a living particle by exactly one time step, and in a tracked particle appends one record whose position, momentum, gamma factor and time all belong to the same instant; the four histories always have the same length, times never decrease, and untracked particles record nothing. Emission adds a record at the instant of emission and does not move the clock.",
  ["histories", "inputs"], "all sequences of pushes, emissions and kills on electrons, positrons and photons",
  T_NOASSERT + "tracks are written but never compared with the clock.",
  [S+"Particles/Particle.cpp", S+"Physics/ParticlePushers/ParticlePusher.cpp", S+"Physics/Processes/StochasticEmission.cpp"],
  [("UpdateTrack/UpdateTime", S+"Particles/Particle.cpp")])
p("C16", "Particle kinematics are self-consistent",
  "For electrons, positrons and photons built from a momentum or from an energy and a direction, energy, gamma factor, velocity, momentum and direction satisfy the relativistic relations for the particle's mass; a particle built from an energy reports that energy and moves along the given direction. Mass, charge, weight, time, position, name and kind are those of the species and arguments given.",
  ["inputs"], "all momenta, energies above the rest mass, directions, weights and times",
  T_NOASSERT + "no kinematic quantity is compared.",
  [S+"Particles/Lepton.cpp", S+"Particles/Photon.cpp", S+"Particles/Particle.cpp"],
  [("constructors and getters", S+"Particles/Lepton.cpp")])
p("C17", "A particle list keeps its particles, in order, up to its capacity",
  "A particle list returns the particles added to it in the order of addition and counts them exactly; additions beyond the capacity are refused with a message and leave the list unchanged; freeing the list frees each particle once.",
  ["histories"], "all sequences of additions and reads, all capacities",
  T_NOASSERT + "lists hold a handful of particles and are never inspected.",
  [S+"Particles/ParticleList.cpp"], [("AddParticle", S+"Particles/ParticleList.cpp")])
p("C18", "Quantum photon emission conserves momentum and respects its cuts",
  "When an electron or positron emits, the momentum it loses is along its motion and is exactly the momentum of the emitted photon, which starts at the emitter's position and time with its weight divided by the sampling fraction, and never carries more energy than the emitter had. Photons below the energy cut are not recorded but still slow the emitter, and a photon above the cut is recorded with probability equal to the sampling fraction: always for one, never for zero. Photons and dead particles never emit.",
  ["inputs", "histories"], "all emitters, field strengths, cuts and sampling fractions, over sequences of steps",
  T_NOASSERT + "the emission of the example is only plotted.",
  [S+"Physics/Processes/StochasticEmission.cpp"], [("Interact", S+"Physics/Processes/StochasticEmission.cpp")])
p("C19", "The photon emission rate is the quantum synchrotron rate",
  "The mean number of photons an electron or positron emits per unit time is the quantum synchrotron rate for its energy and the invariant field strength it feels, over the whole tabulated range and for any field orientation; the waiting time is exponentially distributed, each emission starts a fresh wait, and the number of emissions in a given time does not depend on how that time is divided into steps.",
  ["inputs", "histories"], "all energies, fields, orientations and step sizes; statistical with error probability below 1e-9 per case",
  T_NOASSERT + "no rate is measured.",
  [S+"Physics/Processes/PhotonEmission.cpp", S+"Physics/Processes/StochasticEmission.cpp", "Tables/hsokolov.table"],
  [("optical depth", S+"Physics/Processes/StochasticEmission.cpp"), ("rate table", "Tables/hsokolov.table")],
  state=[("optical depth", "remaining depth until the next interaction", S+"Particles/Particle.hh")])
p("C20", "Emitted photon energies follow the quantum synchrotron spectrum",
  "The energies of photons emitted by an electron or positron follow the quantum synchrotron spectrum for the invariant field strength it feels, over the tabulated range and continuously between table entries, and are always positive and below the energy of the emitter. A field strength beyond the tables ends the run with an error rather than a wrong spectrum.",
  ["inputs"], "all field strengths in the tabulated range; statistical with error probability below 1e-9 per case",
  T_NOASSERT + "no spectrum is compared.",
  [S+"Physics/Processes/PhotonEmission.cpp", "Tables/ksi_sokolov.table", "Tables/chimin.table"],
  [("CalculateChi", S+"Physics/Processes/PhotonEmission.cpp")])
p("C21", "Continuous emission radiates what the pusher takes away, unbiased by sampling",
  "In the classical and semiclassical models, the expected weight times energy of the photons created per time step equals the energy the corresponding radiation-reaction push removes from the particle, for any sampling fraction, charge and field strength in range. The expected weight of photons does not depend on the sampling fraction, photons are created where and when the emitter is and along its motion, only above the energy cut, and the emitter itself is not changed by the process.",
  ["inputs", "configurations"], "all emitters, field strengths, sampling fractions and cuts; statistical",
  T_NOASSERT + "weights are only plotted.",
  [S+"Physics/Processes/ContinuousEmission.cpp", S+"Physics/ParticlePushers/LandauPusher.cpp", S+"Physics/ParticlePushers/ModifiedLandauPusher.cpp"],
  [("Interact", S+"Physics/Processes/ContinuousEmission.cpp")])
p("C22", "Pair creation conserves energy and charge and consumes the photon once",
  "When a photon converts, exactly one electron and one positron appear, at the photon's position and time, moving along its direction, with its weight, and with energies that add up to the photon's energy and are each at least the rest energy; the photon is dead afterwards and never converts again. Photons without enough energy for a pair never convert, nothing happens in a vanishing field, and electrons and positrons are not affected.",
  ["inputs", "histories"], "all photon energies, fields and orientations, over sequences of steps",
  T_NOASSERT + "the pair test prints a few numbers.",
  [S+"Physics/Processes/NonLinearBreitWheeler.cpp"], [("Interact", S+"Physics/Processes/NonLinearBreitWheeler.cpp")])
p("C23", "The pair creation rate and energy split follow the nonlinear Breit-Wheeler law",
  "The probability per unit time that a photon converts is the nonlinear Breit-Wheeler rate for its energy and the field transverse to its motion, independent of how the time is divided into steps, negligible for weak fields and zero for a field parallel to the motion or a co-propagating wave. The share of energy taken by the positron is symmetric about one half and follows the tabulated spectrum for that field strength.",
  ["inputs", "histories"], "all energies, fields, orientations and step sizes in the tabulated range; statistical",
  T_NOASSERT + "no rate or spectrum is compared.",
  [S+"Physics/Processes/NonLinearBreitWheeler.cpp", "Tables/pairprod.table", "Tables/e_split.table"],
  [("CalculateChi, CalculateSplit", S+"Physics/Processes/NonLinearBreitWheeler.cpp")])
p("C24", "Missing physics tables stop the run with an error",
  "If the tables location is not set, or any table file that a process needs cannot be opened there, constructing that process ends the program with a diagnostic and a non-zero status; it never crashes and never continues with made-up data. With all files present the location may be any directory.",
  ["fault_sequences", "configurations"], "every subset of missing table files, unset or wrong location, each process",
  T_NOASSERT + "tests always run with complete tables.",
  [S+"Physics/Processes/PhotonEmission.cpp", S+"Physics/Processes/NonLinearBreitWheeler.cpp"],
  [("LoadTables", S+"Physics/Processes/PhotonEmission.cpp")])
p("C25", "Particle sources produce the requested beam",
  "A source yields exactly the requested number of particles of the requested species, one per event, and refuses with an error exit when asked for more or for an unknown species. Their positions scatter about the requested position with the requested radius across and duration along the beam direction, their directions scatter about the requested direction with the requested divergence, and their energies follow the requested mono-energetic, linear (uniform between two limits) or Gaussian (mean and width) distribution, for every beam direction.",
  ["inputs", "configurations"], "all source parameters and directions; exact for zero spreads, otherwise statistical",
  T_NOASSERT + "sources are used along one axis and not inspected.",
  [S+"Particles/SourceGenerator.cpp"], [("constructor and GenerateList", S+"Particles/SourceGenerator.cpp")])
p("C26", "Histograms count each particle once in the nearest bin of the right quantity",
  "A histogram counts, for each particle shown to it, one entry in the bin whose centre is nearest to the chosen quantity (energy, a position or a momentum component) when that quantity lies between the first and last bin centre, and nothing otherwise. Filling from a list equals adding its particles one by one followed by normalisation to unit sum, merging adds the counts of compatible histograms and refuses incompatible ones, and bin centres are evenly spaced from the lowest to the highest bin requested.",
  ["inputs", "histories"], "all particles, binnings, quantities and sequences of adds, fills and merges",
  T_NOASSERT + "no histogram is looked at.",
  [S+"IO/Output/Histogram.cpp"], [("AppParticle, Fill, Merge, Normalise", S+"IO/Output/Histogram.cpp")])
p("C27", "Particle data written to the output file reads back unchanged",
  "Everything stored for an event — the primary particle and the final electrons, positrons and living photons with event number, energy, momentum and position, particle lists, and the tracks of single particles, lists and events with their units — is found in the output file exactly once, under the documented group, with the values and order in which it was stored. Absent species leave no table, and writing several kinds of output to one file does not disturb the others.",
  ["inputs", "histories"], "all sequences of store and output operations, any events and particles",
  T_NOASSERT + "no output file is read back.",
  [S+"IO/Output/OutputManager.cpp", S+"IO/Output/HDF5Output.cpp"],
  [("StoreSource, StoreTrack, OutputEvents", S+"IO/Output/OutputManager.cpp"), ("AddGroup, AddArray", S+"IO/Output/HDF5Output.cpp")], observe=["the HDF5 file"])
p("C28", "Field snapshots and histograms written to file equal their sources",
  "A field snapshot holds, for each requested time and each of the six components, the value of that field at every point of the requested grid, with the axes in x, y, z order. A written histogram holds its bin centres and contents under its own name.",
  ["inputs"], "all fields, grids and histograms",
  T_NOASSERT + "the laser test writes a snapshot that nothing reads.",
  [S+"IO/Output/OutputManager.cpp", S+"IO/Output/HDF5Output.cpp"], [("OutEMField, OutputHist", S+"IO/Output/OutputManager.cpp")])
p("C29", "A run of the program delivers every output the deck asked for",
  "For every valid deck the command line program finishes with status zero and its output file contains exactly the tables the deck asked for: one primary row per event of each source with output switched on, final particles whose event numbers are valid and whose primary species is never lost, one track per particle when tracking is on, and one histogram per histogram section with the requested bins. Invalid models or particle kinds end with an error status.",
  ["configurations", "inputs"], "all valid decks of small size: every field type, physics model, source mix and output switch",
  T_NOASSERT + "the example deck is only checked for its exit status (and fails on the original code).",
  [S+"Exec/QEDCASC.cpp", S+"IO/Output/OutputManager.cpp"], [("main loop", S+"Exec/QEDCASC.cpp")], observe=["exit status, stderr, HDF5 file"])
p("C30", "The program's final states are those of the configured physics",
  "For decks whose outcome is deterministic (no emission), the final positions, momenta and energies in the output file are those of the requested particles moved through the requested field for the requested time, as an independent integration predicts; photons fly straight. With a radiating model switched on, the energy lost by the particles follows the corresponding radiation law, and with quantum emission the energy of electrons plus photons is conserved in a magnetic field.",
  ["configurations", "inputs"], "decks over all field types, species, source geometries and models, small particle numbers",
  T_NOASSERT + "no physical result of the program is compared.",
  [S+"Exec/QEDCASC.cpp"], [("set-up of field, pusher, processes and sources", S+"Exec/QEDCASC.cpp")])
p("C31", "Histograms are filled once per event at their requested time",
  "Each histogram of a run counts, for every event, the living particles of its species exactly once, in the state they have at the first step whose time is not before the histogram's time, or at the end of the run if its time is later; several histograms may share a time. The total therefore never depends on how many histograms are configured.",
  ["configurations", "histories"], "all ordered sets of histogram times, including equal, zero and beyond the end",
  T_NOASSERT + "histogram contents are never read.",
  [S+"Exec/QEDCASC.cpp", S+"IO/Output/Histogram.cpp"], [("histogram scheduling", S+"Exec/QEDCASC.cpp")])
p("C32", "The command line program rejects misuse with a message and status",
  "Called without an argument, with more than one, with something that is not an .ini file name, or with an .ini file that does not exist or lacks vital entries, the program prints a diagnostic and ends with a non-zero status without writing an output file or crashing; asking for help prints help. Called with a valid deck it writes its summary and output files in the current directory only.",
  ["inputs", "configurations"], "all argument lists",
  T_NOASSERT + "the program is only started with one valid argument.",
  [S+"Exec/QEDCASC.cpp"], [("argument checks", S+"Exec/QEDCASC.cpp")])
p("C33", "A cascade conserves energy, charge and particle number",
  "In a purely magnetic field a quantum cascade with pair production conserves the summed energy of electrons, positrons and photons of each event when all photons are recorded, and in any field creates electrons and positrons only in pairs; converted photons are not reported, every reported particle has a positive finite energy, and momentum and energy of each reported particle are consistent.",
  ["histories", "configurations"], "all cascades: any primary, field, energy and duration in range",
  T_NOASSERT + "no test runs a cascade with pair production and examines it.",
  [S+"Physics/Processes/StochasticEmission.cpp", S+"Physics/Processes/NonLinearBreitWheeler.cpp", S+"Exec/QEDCASC.cpp", S+"Python/RunManager.cpp"],
  [("event loop", S+"Exec/QEDCASC.cpp")])
p("C34", "A parallel (MPI) run merges the results of all processes",
  "With n processes, the output file holds the primaries, electrons, positrons and photons of every process (n times the configured number of events), each row complete and unmixed, and each histogram is the sum over processes; the result does not depend on the number of processes beyond statistics, a run with one process equals the serial layout, and the processes use different random numbers.",
  ["schedules", "configurations"], "process counts 1 to 6, all output mixes, arbitrary message timing",
  T_NOASSERT + "the MPI build is compiled and never run.",
  [S+"IO/Output/OutputManager.cpp", S+"Exec/QEDCASC.cpp"], [("OutputEventsMPI, OutputHistMPI", S+"IO/Output/OutputManager.cpp")])
p("C35", "Threads lose, duplicate and corrupt nothing",
  "With any number of threads, every source particle is simulated exactly once: the set of primaries is the full source sample without duplicates, every event's final particles belong to it, histograms and tracks contain every event's contribution, and for deterministic decks all results equal the single-threaded ones apart from order.",
  ["schedules", "configurations"], "thread counts 1 to 16, repeated runs, all output mixes",
  T_NOASSERT + "the example uses two threads and checks nothing; races need many runs to show.",
  [S+"Exec/QEDCASC.cpp", S+"Python/RunManager.cpp", S+"Particles/SourceGenerator.cpp", S+"Tools/MCTools.hh"],
  [("parallel event loop", S+"Exec/QEDCASC.cpp"), ("parallel event loop", S+"Python/RunManager.cpp")])
p("C36", "The Python run manager keeps its configuration and survives any call order",
  "Any sequence of configuration calls and runs leaves the run manager usable: a run uses the latest valid settings, a refused call (unknown model, field or fraction out of range, incomplete set-up) changes no result, prints an error and does not crash, and repeated runs start afresh. After a run of n events the inputs have n rows of six columns and electrons, positrons and photons have seven columns, with the primary species' rows at least n.",
  ["histories", "configurations"], "all sequences of API calls with valid and invalid arguments",
  T_NOASSERT + "one example script calls everything once, in order.",
  [S+"Python/RunManager.cpp", S+"Python/QEDCascPy-Bindings.cpp"], [("setters and beamOn", S+"Python/RunManager.cpp")])
p("C37", "The Python interface simulates the configured physics in SI units",
  "Inputs and results are in SI units: the particles returned before the run are the configured beam, and after a run without emission they are where an independent integration of the configured laser field puts them; spelling the model or field with or without a capital letter makes no difference. Model, sampling fraction, pair production and pulse parameters all take effect as documented, and photon weights make results independent of the sampling fraction.",
  ["inputs", "configurations"], "all beam and laser parameters of moderate size, all models",
  T_NOASSERT + "the example plots its results.",
  [S+"Python/RunManager.cpp"], [("unit conversion and set-up", S+"Python/RunManager.cpp")])
p("G01", "The Geant4 generator and neural-network components reproduce the core library",
  "Primary generation for Geant4 and the TensorFlow surrogate give the same distributions as the core simulation for the same configuration.",
  ["inputs", "configurations"], "all configurations of the optional Geant4 components",
  "No test builds them; they need Geant4, Eigen and TensorFlow.",
  [S+"Geant/G4CascadeGenerator.cpp", S+"Geant/G4CascadeTF.cpp", S+"Geant/G4StochasticEmission.cpp"],
  [("G4CascadeGenerator", S+"Geant/G4CascadeGenerator.cpp")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
