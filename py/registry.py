"""What each check runs.  parts: the harness programs that decide the property."""


def cpp(kind='asan', target=None, **kw):
    return dict(type='cpp', kind=kind, target=target, **kw)


def py(module, **kw):
    return dict(type='py', module=module, **kw)


CHECKS = {}


def check(pid, parts, technique, note, level='exploration', assumptions=()):
    CHECKS[pid] = dict(parts=parts, technique=technique, note=note, level=level, assumptions=list(assumptions))


check('C02', [cpp(target='c_C02'), py('fuzz_deck')],
      'coverage-guided fuzzing (libFuzzer) and grammar fuzzing: byte- and grammar-mutated decks and random bytes under sanitizers, and generated decks with one fault that must be refused',
      'Each deck is read in a process of its own under AddressSanitizer and UBSan with a limit of 10 s.')
check('C03', [cpp(target='c_C03')],
      'property-based testing: INI texts generated from the grammar together with the values they stand for, and typed look-ups against the values they were printed from',
      'Lines stay below the 199 characters and names below the 50 characters the reader keeps; a name is written once. Under AddressSanitizer.')
check('C04', [cpp(target='c_C04')],
      'property-based testing: generated decks against the summary file read back',
      'Numbers are compared to the six digits the summary gives; a summary of an earlier run is in the way in a third of the cases.')
check('C05', [cpp(target='c_C05')],
      'property-based testing: random and directed vectors and matrices against an independent long-double linear algebra',
      'Random search with shrinking under AddressSanitizer and UBSan; directions include parallel, nearly parallel and '
      '(nearly) anti-parallel pairs. Shows the identities on the cases explored, to floating point tolerance.')
check('C06', [cpp(target='c_C06')],
      'property-based testing of interpolation, lookup and integration against reference implementations',
      'Random search with shrinking under AddressSanitizer and UBSan over increasing axes and queries inside, at and outside '
      'the ends.')
check('C07', [cpp(target='c_C07')],
      'property-based testing: samples for generated parameters against exact distributions (Kolmogorov-Smirnov, binomial bounds)',
      'Each case fixes parameters and a seed and judges 20000 samples with bounds a correct sampler exceeds with probability '
      'below 1e-11; deviations below about 2.7 % of the distribution function go unnoticed.')
check('C08', [cpp(target='c_C08')],
      'property-based testing: metamorphic comparison of generated operation sequences under equal and different seeds and threads',
      'Bit-for-bit comparison of histories (samples, sources, quantum and continuous cascades) after the same seed, with '
      'different draws before seeding and in different threads.')
check('C09', [cpp(target='c_C09')],
      'property-based testing: invariants and metamorphic shifts and turns of the wave at generated points, Maxwell by finite differences',
      'Random search over amplitude, wavelength, polarisation and direction (axes, opposite axes, nearly opposite, any). Says '
      'nothing about the absolute phase, which the documentation leaves open.')
check('C10', [cpp(target='c_C10')],
      'property-based testing: generated pulses against the requested envelope, carrier and wavefronts, and search for a stronger point than the focus',
      'Amplitude and phase are read off by quadrature at generated points, so the absolute carrier phase is left open. The Gouy phase, which the code leaves out, is not demanded.')
check('C11', [cpp(target='c_C11')],
      'property-based testing: Maxwell residual by finite differences at generated points and divergence angles, and metamorphic relations',
      'The residual must stay below 0.6 eps^5 (the published series leaves 0.3 eps^5) for divergence angles 0.004 to 0.25, up to two Rayleigh lengths and 1.7 waists from the focus, with pulses long enough to leave out the duration.')
check('C12', [cpp(target='c_C12')],
      'property-based testing: metamorphic relations between fields of shifted, scaled and turned geometries',
      'Each case compares one field with the same field moved, scaled or turned, at a point of the pulse, in the axes given by '
      'the propagation direction and the polarisation at the focus.')
check('C13', [cpp(target='c_C13')],
      'property-based testing: generated particles and fields against exact solutions, invariants and a reference integration',
      'Random search; errors must fall below a bound of fifth order in the step per step, so a loss of order shows at the small '
      'steps generated (turn per step down to 0.001).')
check('C14', [cpp(target='c_C14')],
      'property-based testing: momentum lost per step and over many steps against the radiation-reaction law, and metamorphic relations',
      'Classical loss to 0.1 % per step and 1e-6 over a way; the quantum correction against the integral of the synchrotron '
      'spectrum to 3 %, for eta from 1e-4 to 1000 and any field orientation.')
check('C15', [cpp(target='c_C15')],
      'stateful property-based testing: generated histories of pushes, emissions, pair creation and deaths against a model of clocks and records',
      'Every history is compared with the model after every operation, records and clocks bit for bit.')
check('C16', [cpp(target='c_C16')],
      'property-based testing: particles built both ways against the relativistic relations',
      'Random search over mass, energy from rest to 1e7, direction and length of the direction vector. One listed finding: a '
      'lepton built from an energy takes it for the momentum.')
check('C17', [cpp(target='c_C17')],
      'stateful property-based testing: generated additions to several lists against a vector model, with particles that count their ends',
      'Under AddressSanitizer; capacities 0 to 12 with additions beyond them, and large lists.')
check('C18', [cpp(target='c_C18')],
      'property-based testing: conservation and cuts over generated emissions, binomial bounds on the sampling fraction',
      'Random emitters, fields, cuts and sampling fractions under AddressSanitizer; every emission is balanced to rounding.')
check('C19', [cpp('opt', 'c_C19')],
      'property-based testing: emission counts of generated emitters against the quantum synchrotron rate from its Bessel integral',
      'Statistical bounds a correct code exceeds with probability below 1e-11 per case: the waiting time to 0.5 % plus noise of '
      '12000 particles, the rate itself to 1 % from the optical depth used up per step.')
check('C20', [cpp('opt', 'c_C20')],
      'property-based testing: photon energies of generated emitters against the cumulated spectrum from its Bessel integral (Kolmogorov-Smirnov, mean)',
      '25000 photons per case: deviations below 2.5 % of the cumulated spectrum or 1.5 % of the mean energy go unnoticed.')
check('C21', [cpp('opt', 'c_C21')],
      'property-based testing: weight and energy of generated continuous emissions against the momentum the radiating push takes, and against the synchrotron spectrum',
      'Balance to 2 % plus the noise of 25000 photons per case, for gamma above 20; weights to 1 %, spectra by Kolmogorov-Smirnov.')
check('C22', [cpp(target='c_C22')],
      'property-based testing: balance and bookkeeping of generated conversions, and histories with and without a field',
      'Random photons (2 to 1e6 rest energies), fields of any orientation, chi 0.02 to 900, under AddressSanitizer.')
check('C23', [cpp('opt', 'c_C23')],
      'property-based testing: conversions of generated photons against the Erber rate and the Daugherty-Harding split, and geometry relations',
      'Waiting times to 1 % plus the noise of 12000 photons, the rate to 1 % from the optical depth used per step, the split by '
      'Kolmogorov-Smirnov with 15000 pairs and a percent for the steps of the table.')
check('C24', [cpp(target='c_C24')],
      'property-based testing with injected faults: generated subsets of table files and locations against the set each process needs',
      'Any subset of the files, dangling links, unset and empty variables and odd directory names, under AddressSanitizer; with '
      'all files present the behaviour must equal that with the original location. Truncated files are not covered.')
check('C25', [cpp('opt', 'c_C25')],
      'property-based testing: generated sources against the requested distributions (Kolmogorov-Smirnov, independence), numbers and refusals, and turned beams',
      'Any direction, species and distribution; 1500 to 5000 particles per statistical case, so deviations below about 6 % of '
      'the distribution function go unnoticed. The energy is read as the length of the momentum (finding KF1 under C16).')
check('C26', [cpp(target='c_C26')],
      'property-based testing: generated bins and particles against the nearest-centre rule, list filling and merging against counting one by one',
      'Under AddressSanitizer; values at centres, next to the middle of two bins and next to the ends; the exact middle and the '
      'exact ends may go either way.')
check('C27', [cpp(target='c_C27')],
      'stateful property-based testing: generated sequences of stored events, tracks, lists and histograms against a model of the file, read back with the HDF5 C interface',
      'Under AddressSanitizer. The file must hold exactly the tables of the model; one source per file (a second one is the listed finding under C29).')
check('C28', [cpp(target='c_C28')],
      'property-based testing: generated grids, fields and histograms read back with the HDF5 C interface and compared with their sources',
      'Under AddressSanitizer; grids of up to 4 times and 6x6x6 points with different lengths, evenly spaced or not; values must agree to the bit.')
check('C01', [cpp(target='c_C01')],
      'property-based testing: grammar-generated decks in any order and decoration against the values and units they were generated from',
      'Every documented key, written with several number formats or left out; under AddressSanitizer. Lines stay below the 199 characters the parser reads at a time.')
check('C29', [py('c_C29')],
      'property-based testing of the program: generated decks against the tables, rows, tracks, bins and files they ask for, and refusals',
      'Up to 3 sources, 3 histograms, 40 steps, every field type, model and spelling, weak and radiating fields; the program is '
      'run with a repeatable stand-in for the system randomness.')
check('C30', [py('c_C30')],
      'property-based testing of the program: generated decks against a reference integration, the radiation laws and the balance of each event',
      'Final positions and momenta to ten times the step error of the reference (about 1e-7) where nothing is emitted, to 0.5 % of '
      'the classical and 5 % of the semiclassical loss, the mean quantum loss to 5 % plus the noise of up to 1000 events.')
check('C31', [py('c_C31')],
      'property-based testing of the program: generated histograms against the tracks and final rows of the same run, shorter runs, and runs with other histograms',
      'Up to 5 histograms in any order, with equal, zero, inner and late times; every model, with and without pairs; tracks up to 25 '
      'steps. Values within 1e-9 of a bin limit may go either way.')
check('C32', [py('c_C32')],
      'property-based testing of the program: generated argument lists, unusable files and working directories against status, messages and the files left',
      'Up to 300 arguments of up to 5000 characters; the whole scratch directory tree is compared before and after.')
check('C33', [py('c_C33')],
      'property-based testing of the program: generated cascades against the balance of energy, momentum, charge and number of every event',
      'Up to 80 steps, primaries up to 60000 rest energies in fields with eta below 10; energy is balanced to 1e-6 plus what slow leptons may '
      'be short of against photons. Events with a lepton turning too far in one step are only checked for charge and number.')
check('C34', [py('c_C34')],
      'property-based testing of the program under mpirun: generated decks, process counts and message delays against reference integrations, balances summed over the processes, and binnings of the rows',
      'One to six processes on one machine; messages are delayed or made synchronous at random through the profiling interface, so that the order in which ranks send and receive differs. Other transports are not exercised.')
check('C35', [py('c_C35')],
      'property-based testing of the threaded program under generated schedules: generated decks against the single-threaded run, reference integrations and balances, and under ThreadSanitizer',
      '2 to 16 threads with random delays at allocations and critical sections; half of the runs, and all under ThreadSanitizer, use a stand-in for libgomp on plain pthreads, which covers parallel loops, '
      'critical sections, locks, barriers and singles. HDF5 itself is not instrumented. The run manager of the Python module runs in a driver of its own.')
check('C37', [py('c_C37')],
      'property-based testing of the Python module: generated set-ups against the beam asked for, a reference integration, the radiation laws and the command line program',
      'Weak pulses to ten times the step error of the reference, strong ones to 0.5 % (classical) and 5 % (semiclassical) of the loss; '
      'beams of 3000 and cascades of 400 events are compared by Kolmogorov-Smirnov and counting statistics exceeded by chance below 1e-11.')
check('C36', [py('c_C36')],
      'stateful, model-based property testing of the Python module: generated call sequences on up to three run managers against a model of their configuration',
      'Up to 40 steps a sequence with valid and invalid arguments of every setter; runs of up to 20 events on 1 to 8 threads. Runs outside the emission tables, which end the interpreter, are not generated.')
check('C38', [py('c_C38')],
      'property-based testing of the program: generated cascades in steady fields, every step of every track against the chance and the spectra of the theory for its own state',
      'Up to 50 steps of some hundred events; emissions and conversions are counted against the sum of their chances within a bound exceeded by chance below 1e-10 plus 2 % for the tables, '
      'separately for primaries, particles born in the run and first steps; spectra to 1.5-2 %.')
