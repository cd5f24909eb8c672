TECH = ('static analysis: value numbering of the function bodies and equality with reference '
        'specifications, residual differences judged by random interpretation of the value numbers')
PROPS = []
NA = []


def P(**k):
    PROPS.append(k)


def N(**k):
    NA.append(k)


P(id='C01', title='The particle list keeps exactly the particles put in and not removed',
  statement='After any sequence of insertions, removals, replacements and updates, the particle list contains '
  'exactly the particles inserted and not since removed, each once, each with an identifier that was never used '
  'before in that list. Its size, its emptiness, the validity test for a remembered copy and iteration all agree with that content.',
  over=['histories', 'inputs'],
  text='every sequence of insert, create, copy-in, remove, replace, update_element, reset and iteration on one list',
  why='Holes are reused and skipped depending on the order of removals and insertions; tests replay a handful of orders.',
  files=['src/include/smash/particles.h', 'src/particles.cc'],
  mech=[('insertion, removal, replacement, growth, hole bookkeeping', 'src/particles.cc'),
        ('iteration over valid entries, size, emptiness, validity test', 'src/include/smash/particles.h')],
  note='Every operation of the container is compared with a reference written from the statement, for all states and arguments.')
P(id='C14', title='Four- and three-vector algebra is relativistically correct',
  statement='Sums, scalar multiples, products, norms, velocities and Lorentz boosts of vectors follow the Minkowski metric '
  '(+,-,-,-); boosting by a velocity and then by its opposite is the identity and leaves invariant products unchanged. '
  'Rotations of three-vectors follow their stated angles and axes, and component access and iteration visit each component once in order.',
  over=['inputs'], text='all component values and all boost velocities below the speed of light',
  why='Identities over all real vectors; tests sample a few vectors with tolerances.',
  files=['src/include/smash/fourvector.h', 'src/fourvector.cc', 'src/include/smash/threevector.h', 'src/threevector.cc'],
  mech=[('four-vector operators, boosts, norms', 'src/include/smash/fourvector.h, src/fourvector.cc'),
        ('three-vector operators, products, rotations', 'src/include/smash/threevector.h, src/threevector.cc')],
  note='Each operation is compared with its defining formula as an identity over the reals; rounding is outside the claim.')

CMP_NOTE = ('Every listed operation is compared with a reference written from the statement, for all arguments and states; '
            'floating point is treated as real arithmetic.')

P(id='C02', title='A particle stays internally consistent under every change of its state',
  statement='Setting, boosting or translating a particle changes exactly the named attributes: a momentum set from mass and '
  'three-momentum lies on that mass shell, a boost transforms position and momentum alike, and the cross-section scaling factor, formation '
  'and production history follow the documented rules. Copying transfers every attribute except identity and bookkeeping, and equality and '
  'order of particles are those of their identifiers.',
  over=['inputs', 'histories'], text='all attribute values and all sequences of setters, boosts, copies and history updates',
  why='Attributes interact over formation times, leading powers and process types; tests look at single values.',
  files=['src/include/smash/particledata.h', 'src/particledata.cc'],
  mech=[('state setters, boosts, copies, comparison', 'src/include/smash/particledata.h'),
        ('history, formation times, scaling factor, validated creation', 'src/particledata.cc')],
  note=CMP_NOTE)
P(id='C13', title='Clocks visit their times in order, without drift or skip',
  statement='A uniform clock ticks at start + n * step with the last tick cut at the end time, a custom clock ticks at its listed times in order, '
  'and a reset puts either back at its beginning. Invalid settings (non-positive step, end before start, times beyond range, overflow of the counter) '
  'are refused.',
  over=['inputs', 'histories'], text='all start, step and end times and all tick/reset sequences',
  why='Drift or a skipped time appears only at particular step counts or after resets.',
  files=['src/include/smash/clock.h'],
  mech=[('uniform clock', 'src/include/smash/clock.h UniformClock'), ('list clock', 'src/include/smash/clock.h CustomClock')],
  note=CMP_NOTE)
P(id='C15', title='Conserved quantum numbers are fully summed and every deviation is reported',
  statement='The conserved quantities of an ensemble or set of particles are the sums over all of its particles of four-momentum, charge, isospin '
  'projection, strangeness, charm, bottomness and baryon number. Two sets of quantities are equal exactly when all of them agree, and the deviation '
  'report is empty exactly then and otherwise names each differing quantity.',
  over=['inputs'], text='all particle collections and all pairs of quantum-number sets',
  why='A sum or a comparison that misses one quantity passes whenever the tested reactions do not change it.',
  files=['src/include/smash/quantumnumbers.h', 'src/quantumnumbers.cc'],
  mech=[('sums, equality, difference', 'src/include/smash/quantumnumbers.h'), ('deviation report', 'src/quantumnumbers.cc')],
  note=CMP_NOTE)
P(id='C16', title='Particle codes are decoded into the right quantum numbers',
  statement='From the numbering scheme code of any hadron, lepton, photon or nucleus the charge, baryon number, strangeness, charm, bottomness, isospin '
  'projection, spin, quark content and class (nucleon, kaon, Delta and so on) follow the scheme, with the antiparticle having the opposite '
  'additive numbers. Malformed codes are refused and decimal and text forms of a code denote the same particle.',
  over=['inputs'], text='all codes of the numbering scheme, valid or malformed',
  why='The code space is large and each digit pattern has its own rule; tests use some well-known particles.',
  files=['src/include/smash/pdgcode.h', 'src/pdgcode.cc'],
  mech=[('digit decoding and classification', 'src/include/smash/pdgcode.h'), ('quark content, charges, nuclei', 'src/pdgcode.cc')],
  note=CMP_NOTE)
P(id='C17', title='The energy-momentum tensor is a symmetric tensor that sums and boosts correctly',
  statement='Adding a particle adds the product of its momentum components over its energy to each tensor component exactly once; sums, differences and '
  'scalings act on all ten components. A boost transforms the tensor with the Lorentz matrix on both indices, and the Landau four-velocity is the '
  'normalised timelike eigenvector with positive time component.',
  over=['inputs'], text='all tensors, particles, factors and boost velocities',
  why='Component mix-ups cancel for symmetric test configurations.',
  files=['src/include/smash/energymomentumtensor.h', 'src/energymomentumtensor.cc'],
  mech=[('component indexing, arithmetic', 'src/include/smash/energymomentumtensor.h'),
        ('boost, Landau frame, particle contribution', 'src/energymomentumtensor.cc')],
  note=CMP_NOTE)
P(id='C18', title='Lattice positions and node indices correspond one to one',
  statement='Every node of a lattice has its own index, cell center and neighbors, consistent with origin, cell size and periodicity; positions outside '
  'a non-periodic lattice, and only those, are out of bounds. Visiting the nodes inside a sphere, box, or among nearest neighbors visits exactly the nodes '
  'whose cells qualify, each once and with the right periodic wrapping. Resizing, gradients and value look-up act on all nodes with the stated finite-difference scheme.',
  over=['inputs'], text='all lattice extents, origins, cell numbers, periodicity settings, nodes and positions',
  why='Off-by-one and wrapping mistakes show only at borders and for unequal cell numbers; tests use few geometries.',
  files=['src/include/smash/lattice.h'],
  mech=[('index arithmetic, bounds, look-up', 'src/include/smash/lattice.h'),
        ('sub-lattice iteration, gradients, resize', 'src/include/smash/lattice.h')],
  note=CMP_NOTE + ' The class template is decided for the element types double and four-vector.')
P(id='C19', title='Local densities sum the smeared contribution of every selected particle',
  statement='The density current at a point is the sum over all particles of the chosen type (optionally only participants) of their charge factor, '
  'test-particle and ensemble normalisation and smearing weight, with positive and negative parts kept apart; its derivatives are those of that sum. '
  'Lattice densities accumulate the same contributions on each node, for all ensembles, with the smearing method selected.',
  over=['inputs'], text='all particle lists, density types, smearing parameters and positions',
  why='Wrong weights, dropped derivative components or skipped particles cancel in the symmetric set-ups tested.',
  files=['src/include/smash/density.h', 'src/density.cc'],
  mech=[('density factors, smearing weights, currents', 'src/density.cc'),
        ('lattice nodes, accumulation over particles and ensembles', 'src/include/smash/density.h, src/density.cc')],
  note=CMP_NOTE)
P(id='C20', title='Mean-field potentials and forces follow the configured parametrisation',
  statement='The Skyrme, symmetry, VDF and momentum-dependent potentials are the documented functions of the density and of their configured parameters, and '
  'the electric- and magnetic-like forces are the corresponding gradients, added only for the parts that are switched on and scaled with the baryon and strangeness '
  'content of the particle. The calculation-frame energy in a momentum-dependent potential is a root of the documented equation.',
  over=['inputs'], text='all densities, gradients, momenta, particle types and configured potential parameters',
  why='Signs, exponents and dropped components survive the symmetric test points; the tests fix one parameter set.',
  files=['src/include/smash/potentials.h', 'src/potentials.cc'],
  mech=[('potentials, forces, combination of all forces', 'src/potentials.cc'),
        ('parameters, momentum-dependent part, energy root search', 'src/include/smash/potentials.h')],
  note=CMP_NOTE)
P(id='C38', title='Propagation moves every particle along its trajectory and through the fields',
  statement='Between interactions every particle moves on a straight line with its velocity up to the requested time, backwards for the start of a list run. '
  'With potentials the momenta of exactly the particles that feel them change by force times time step with the energy put '
  'back on shell, and the expansion of space stretches positions and redshifts momenta by the Hubble factor of the chosen metric.',
  over=['inputs', 'schedules'], text='all particle lists, times, fields and expansion metrics',
  why='Tests propagate one or two particles; a particle skipped or moved twice in a list is not seen.',
  files=['src/propagation.cc', 'src/include/smash/propagation.h'],
  mech=[('straight lines, back-propagation, momenta in fields, expansion', 'src/propagation.cc')],
  note=CMP_NOTE)
P(id='C03', title='Performing an interaction swaps incoming for outgoing particles exactly once',
  statement='When an action is performed, each of its incoming particles leaves the particle list and each outgoing particle enters it, with the history of the process, '
  'and violations of conservation of the quantum numbers are reported. The final state of a decay or collision has the sampled masses, momenta adding up to the total momentum in the '
  'potential at the interaction point, inherited formation times and cross-section factors, and channels are chosen with probability proportional to their weight. '
  'An action is valid only while all its incoming particles are unchanged.',
  over=['inputs', 'histories'], text='all incoming and outgoing lists, process types and channel weights',
  why='The bookkeeping of formation times, Pauli blocking and conservation depends on process type and list contents that tests sample sparsely.',
  files=['src/action.cc', 'src/include/smash/action.h', 'src/include/smash/processbranch.h'],
  mech=[('perform, conservation check, formation times, phase-space sampling', 'src/action.cc'),
        ('channel bookkeeping and choice', 'src/include/smash/action.h')],
  note=CMP_NOTE + ' Random sampling is compared as a sequence of draws. Covers the common base of all interactions, not each collision type.')
P(id='C04', title='Interactions are taken out in order of time, each exactly once',
  statement='The container of pending interactions always hands out the earliest one, whatever the order in which they were inserted, alone or in lists. '
  'Every inserted interaction is handed out exactly once, the reported size and earliest time agree with the content, and asking an empty container is an error.',
  over=['histories', 'inputs'], text='every sequence of insertions, removals and clearing',
  why='A wrong heap operation shows only for particular interleavings of insertions and removals.',
  files=['src/include/smash/actions.h', 'src/include/smash/action.h'],
  mech=[('heap of actions: insert, pop, earliest time, size', 'src/include/smash/actions.h'),
        ('time order of two actions', 'src/include/smash/action.h')],
  note=CMP_NOTE + ' The heap primitives of the standard library are taken as given.')
P(id='C25', title='In a periodic box particles re-enter through the opposite wall',
  statement='In a box every particle that would leave through a wall within the time step gets exactly one crossing action, at the time it reaches the first wall, and re-appears '
  'at the opposite wall with its momentum and all other properties unchanged. Positions left outside the box are brought back by one box length, the number of wrapped particles is '
  'returned and each crossing is reported to every output that is not for dileptons or photons.',
  over=['inputs'], text='all particle positions, velocities, box lengths and time steps',
  why='Corner cases of several walls in one step and vanishing velocity components are rare in samples.',
  files=['src/wallcrossingaction.cc', 'src/include/smash/wallcrossingaction.h', 'src/include/smash/algorithms.h', 'src/boxmodus.cc', 'src/listmodus.cc'],
  mech=[('finding wall crossings', 'src/wallcrossingaction.cc'),
        ('wrapping positions', 'src/include/smash/algorithms.h, src/boxmodus.cc, src/listmodus.cc')],
  note=CMP_NOTE)
P(id='C28', title='Unstable particles decay by their width into their channels and fully at the end',
  statement='Every unstable, formed particle is tested once per step for decay with an exponential law given by its total width at its mass, its time dilation and the lifetime modifier; '
  'an unformed one only from its formation time on. The channel is drawn in proportion to the partial widths, the daughters start at the decay point, and at the end of an event exactly the '
  'particles that can still decay and are to be decayed get a final decay. Dilepton decays are weighted with the partial width per time step and never change the particles.',
  over=['inputs', 'histories'], text='all particles, widths, time steps and options of the decay finders',
  why='The exceptions (initial particles, unformed, core, dilepton-only modes) are combinations that tests do not enumerate.',
  files=['src/decayaction.cc', 'src/decayactionsfinder.cc', 'src/decayactiondilepton.cc', 'src/decayactionsfinderdilepton.cc',
         'src/include/smash/decayaction.h', 'src/include/smash/decayactionsfinder.h', 'src/processbranch.cc', 'src/include/smash/processbranch.h'],
  mech=[('finding decays', 'src/decayactionsfinder.cc, src/decayactionsfinderdilepton.cc'),
        ('performing decays', 'src/decayaction.cc, src/decayactiondilepton.cc'),
        ('channels and weights', 'src/processbranch.cc, src/include/smash/processbranch.h')],
  note=CMP_NOTE)
P(id='C34', title='Collision kinematics and angles obey their relativistic relations',
  statement='The conversions between Mandelstam s, total, kinetic and laboratory energy or momentum of one or two beams, the centre-of-mass momentum, the range of momentum transfer '
  'and the frame velocities are the exact relativistic relations between the particles they are given. Angles keep phi in [0,2 pi) and theta in [0,pi] through every setter and addition, reflecting '
  'at the poles, and give the unit vector of those angles; energies that are impossible for the masses are rejected.',
  over=['inputs'], text='all masses, energies, momenta and angles',
  why='The overloads differ in which mass belongs to which beam; equal masses, which tests use, hide a swap.',
  files=['src/include/smash/kinematics.h', 'src/include/smash/angles.h'],
  mech=[('kinematic conversions', 'src/include/smash/kinematics.h'), ('angles', 'src/include/smash/angles.h')],
  note=CMP_NOTE)
P(id='C35', title='Spectral shapes, form factors and thermal momenta follow their formulas',
  statement='Breit-Wigner shapes, Blatt-Weisskopf factors, form factors and thermal distribution functions equal their documented formulas for every mass, momentum and angular momentum. '
  'Momenta sampled from thermal and initial-condition distributions are accepted with the probability of the distribution at the sampled value, over its documented range.',
  over=['inputs'], text='all masses, widths, momenta, temperatures and chemical potentials, and all outcomes of the random numbers',
  why='Rejection samplers are correct only as a whole law; tests compare a few histogram bins with generous tolerances.',
  files=['src/distributions.cc', 'src/include/smash/distributions.h', 'src/include/smash/formfactors.h'],
  mech=[('distributions and samplers', 'src/distributions.cc'), ('form factors', 'src/include/smash/formfactors.h')],
  note=CMP_NOTE)

P(id='C08', title='The grid shows every pair of neighbouring particles exactly once',
  statement='Every particle (only the interacting ones, where unformed ones are left out) is placed in exactly one grid cell, the one of its position, '
  'and cells are at least as long as the interaction length unless only one is left. Iteration shows each cell once and each pair of neighbouring cells once; '
  'in a periodic box the neighbours across a wall are included, with the particles moved by the box length.',
  over=['inputs', 'configurations'], text='all particle positions, interaction lengths, cell numbers, strategies and limits, open and periodic',
  why='A missed or doubled pair needs a particular number of cells along one axis and a particular wall or edge.',
  files=['src/include/smash/grid.h', 'src/grid.cc'],
  mech=[('region, number of cells and placement', 'src/grid.cc Grid::Grid, find_min_and_length'),
        ('iteration over cells and neighbours', 'src/grid.cc iterate_cells')],
  note=CMP_NOTE)
P(id='C21', title='Decay channels, their order and partial widths follow their description',
  statement='Every decay channel has positive weights normalised to one, the smallest angular momentum is what spin and parity allow, and the channel class is the one for its daughters. '
  'Widths in and out at a given mass follow the class: constant share for stable daughters, mass-dependent phase space, dilepton formulas; and the total width is their sum.',
  over=['inputs', 'configurations'], text='all masses, daughters, angular momenta and decay-mode tables',
  why='Each class, mass range and daughter order has its own branch; tests sample a few decays.',
  files=['src/decaymodes.cc', 'src/decaytype.cc', 'src/include/smash/decaytype.h', 'src/include/smash/decaymodes.h', 'src/processbranch.cc', 'src/particletype.cc'],
  mech=[('channel classes and widths', 'src/decaytype.cc'), ('channel tables, normalisation', 'src/decaymodes.cc'),
        ('process branches and weights', 'src/processbranch.cc')],
  note=CMP_NOTE)
P(id='C29', title='Scatterings happen when their collision criterion and options say so',
  statement='Two particles scatter in a step exactly if their closest approach is in it and their distance is below sqrt(sigma/pi) (geometric or covariant), or with probability '
  'sigma v_rel dt/V (stochastic), using scaled cross sections and test particles; not twice with the same partner, and not inside a fresh nucleus unless allowed. '
  'Every pair of a cell, of neighbouring cells and with surrounding particles is tried once, and multi-particle groups once per ordered set.',
  over=['inputs', 'configurations', 'histories'], text='all particle positions, momenta, histories, options, time steps and cell volumes',
  why='A wrong frame, factor or missed exclusion only shifts rates that tests sample in a few constellations.',
  files=['src/scatteractionsfinder.cc', 'src/include/smash/scatteractionsfinder.h', 'src/scatteraction.cc'],
  mech=[('collision criteria and search', 'src/scatteractionsfinder.cc'), ('times, distances, relative velocity', 'src/include/smash/scatteractionsfinder.h, src/scatteraction.cc')],
  note=CMP_NOTE)
P(id='C30', title='Initial nuclei follow their model and meet with the requested energy',
  statement='Nucleons are placed by the density of the chosen model (Woods-Saxon, hard sphere, deformed, alpha clustered, custom list entries in order), normalised to the nucleon number with the documented parameters, recentred, rotated, shifted, contracted and boosted; Fermi momenta follow the local density, are isotropic and sum to zero. '
  'The collider derives sqrt(s), masses and beam velocities from the energy input given in the chosen frame, samples the impact parameter within its bounds, and lets the nuclei touch at the origin at time zero.',
  over=['inputs', 'configurations'], text='all nuclei, parameters, random streams, list files, beam energies and frames',
  why='Tests sample a few nuclei and moments of the distributions; a wrong branch or factor for other nuclei or inputs stays unseen.',
  files=['src/nucleus.cc', 'src/deformednucleus.cc', 'src/alphaclusterednucleus.cc', 'src/customnucleus.cc', 'src/include/smash/nucleus.h', 'src/collidermodus.cc'],
  mech=[('density, sampling, Fermi motion, boost', 'src/nucleus.cc'), ('deformation', 'src/deformednucleus.cc'), ('alpha clusters', 'src/alphaclusterednucleus.cc'), ('custom lists', 'src/customnucleus.cc'), ('beam energies, frames and impact parameter', 'src/collidermodus.cc')],
  note=CMP_NOTE)
P(id='C23', title='Tabulated functions and interpolations keep their nodes and in-between rule',
  statement='A tabulation holds its function at equidistant nodes, returns the nearest node or the linear interpolation with the documented behaviour outside, and is read from a file as it was written. '
  'Linear, trilinear and spline interpolators pick the interval holding the argument, reproduce their data, sort it and refuse duplicates or too few points. Integrals of spectral functions use their full range.',
  over=['inputs'], text='all functions, ranges, node counts, data sets and arguments',
  why='Interval choice and edges depend on the argument; tests evaluate a few points of smooth functions.',
  files=['src/tabulation.cc', 'src/include/smash/tabulation.h', 'src/include/smash/interpolation.h', 'src/interpolation.cc'],
  mech=[('tabulation', 'src/tabulation.cc'), ('interpolators', 'src/include/smash/interpolation.h, src/interpolation.cc')],
  note=CMP_NOTE)
P(id='C33', title='Pauli blocking uses the smeared phase-space density around a particle',
  statement='The phase-space density at a position and momentum counts the particles of the same species in all ensembles, except the disregarded ones, within the momentum radius and the smearing range, weighted by the tabulated overlap at their distance '
  'and normalised by test particles, ensembles and volume. The tabulated weights are the overlap of a Gaussian cut off at its range with a ball.',
  over=['inputs', 'configurations'], text='all particle lists, positions, momenta and parameters',
  why='The density is checked by tests for a few uniform configurations only.',
  files=['src/pauliblocking.cc', 'src/include/smash/pauliblocking.h'],
  mech=[('density and weights', 'src/pauliblocking.cc')],
  note=CMP_NOTE)
P(id='C24', title='External particle lists are read, validated and started as written',
  statement='A particle list event yields exactly its listed particles: mass, momentum and species as written (masses and energies corrected to the shell only beyond the documented tolerance), invalid or unknown lines rejected, '
  'optional quantities in configured order. Particles are propagated back to a common start time with formation times and scaling factors set, and exactly the file of each event number is used, failing when there are none.',
  over=['inputs', 'configurations', 'histories'], text='all list files, species, masses, times, optional fields and event counters',
  why='Each line can be off shell, unknown, unformed or duplicated; tests write a few well-formed lists.',
  files=['src/listmodus.cc', 'src/include/smash/listmodus.h', 'src/inputfunctions.cc'],
  mech=[('reading, validation, start time', 'src/listmodus.cc')],
  note=CMP_NOTE)
P(id='C32', title='Thermal boxes and spheres are sampled from their configured distributions',
  statement='Box and sphere start with the configured or thermal multiplicities, positions uniform in the volume, momenta from the chosen distribution at the temperature (quantum or Boltzmann, radial flow), '
  'zero total momentum, and jets of the configured momentum. The chemical potential used reproduces the density of the species.',
  over=['inputs', 'configurations'], text='all multiplicities, temperatures, potentials, flow settings, jets and random streams',
  why='Initial states are random and every option is a branch of its own; tests check the number of particles and a few moments.',
  files=['src/boxmodus.cc', 'src/spheremodus.cc', 'src/quantumsampling.cc', 'src/chemicalpotential.cc', 'src/distributions.cc'],
  mech=[('box', 'src/boxmodus.cc'), ('sphere', 'src/spheremodus.cc'), ('quantum sampling', 'src/quantumsampling.cc'), ('chemical potential', 'src/chemicalpotential.cc')],
  note=CMP_NOTE)
P(id='C36', title='Random helpers return values of the distribution they are named after',
  statement='The helpers transform uniform draws into the named distribution with its full range: power laws, bounded exponentials, Cauchy and beta shapes, Bessel, binomial, hypergeometric and discrete distributions, and directions uniform on the sphere.',
  over=['inputs', 'histories'], text='all parameters and random streams',
  why='A wrong constant or branch in a sampler leaves plausible numbers; tests histogram a few parameter sets.',
  files=['src/random.cc', 'src/include/smash/random.h', 'src/include/smash/angles.h', 'src/include/smash/distributions.h'],
  mech=[('samplers', 'src/random.cc, src/include/smash/random.h')],
  note=CMP_NOTE)
P(id='C37', title='Strings and input lines are cut, padded and numbered without loss',
  statement='Padding counts characters instead of bytes, trimming and splitting keep everything but the separators, and the line parser returns each non-empty line without comments, with its line number, whatever the line ends.',
  over=['inputs'], text='all strings, widths, delimiters and input files',
  why='Input tables of any form go through these helpers; tests use a few strings.',
  files=['src/stringfunctions.cc', 'src/inputfunctions.cc'],
  mech=[('strings', 'src/stringfunctions.cc'), ('lines', 'src/inputfunctions.cc')],
  note=CMP_NOTE)
P(id='C11', title='Output lines hold the requested quantities in order and exact form',
  statement='A particle is written as the requested quantities, in the requested order, each taken from the right member and converted completely: text separated by single blanks with one newline, binary as raw bytes of fixed width. The header lines name the same quantities and units, and chunks are the lines of all particles one after another.',
  over=['inputs', 'configurations'], text='all particles, values and lists of quantities',
  why='Any quantity may be combined with any other and with any value; tests compare a few lines.',
  files=['src/include/smash/outputformatter.h'],
  mech=[('getters, conversions, headers, chunks', 'src/include/smash/outputformatter.h')],
  note=CMP_NOTE)
P(id='C12', title='OSCAR and binary output files are framed by their documented blocks',
  statement='Each event writes, for the configured content and format, its start, intermediate, interaction and end blocks with event and ensemble numbers, particle counts, weights and types in the documented layout, after one header with format, version and quantities. The counts equal the particles written next, and only the selected content is written.',
  over=['histories', 'configurations'], text='all events, actions, particle lists, formats and contents',
  why='Readers depend on counts and blocks being consistent for every configuration; tests read back a few files.',
  files=['src/binaryoutput.cc', 'src/oscaroutput.cc', 'src/include/smash/outputformatter.h'],
  mech=[('binary blocks', 'src/binaryoutput.cc'), ('OSCAR blocks and headers', 'src/oscaroutput.cc'), ('writing in chunks', 'src/include/smash/outputformatter.h')],
  note=CMP_NOTE)
P(id='C27', title='Particles turn into fluid exactly where the hydrodynamic criteria say so',
  statement='With a constant proper time a particle leaves when it first crosses the hypersurface, at the exact point of its trajectory and within the kinematic cuts; dynamically it leaves after its fraction of formation time where the energy density exceeds the threshold in the time window and for the selected processes. Such actions change the particles as their kind demands, and the initial-conditions file holds one proper time.',
  over=['inputs', 'histories'], text='all particles, times, densities and settings',
  why='Crossing conditions depend on trajectories and densities that a few tested particles cannot cover.',
  files=['src/dynamicfluidfinder.cc', 'src/fluidizationaction.cc', 'src/hypersurfacecrossingfinder.cc', 'src/icoutput.cc', 'src/collidermodus.cc'],
  mech=[('crossing', 'src/hypersurfacecrossingfinder.cc'), ('dynamic fluidization', 'src/dynamicfluidfinder.cc, src/fluidizationaction.cc'), ('output', 'src/icoutput.cc')],
  note=CMP_NOTE)
P(id='C10', title='Output files carry their final name only when they are complete',
  statement='A renaming file is written under its name with ".unfinished" and renamed to the final name when it is closed, and not before; nothing else is renamed or overwritten. A file lock is acquired by exactly one holder and removed by the holder alone.',
  over=['crash_points', 'histories'], text='all file names and orders of opening, closing and destruction',
  why='A crash may come at any point; tests open and close a few files in one process.',
  files=['src/file.cc', 'src/filelock.cc', 'src/include/smash/file.h', 'src/include/smash/filelock.h'],
  mech=[('renaming files', 'src/file.cc'), ('locks', 'src/filelock.cc')],
  note=CMP_NOTE)
P(id='C26', title='Thermodynamic and VTK output report the requested quantities as documented',
  statement='Thermodynamic, lattice and VTK outputs write each requested quantity, in the documented order, under its own file and header, for the configured point, smearing, density type and event; what was not requested is not written, and each event and time step gets its own file number.',
  over=['inputs', 'configurations', 'histories'], text='all lattices, particles, quantities, density types and events',
  why='The outputs are chosen by flags in any combination and over many events; tests check a few files of single events.',
  files=['src/thermodynamicoutput.cc', 'src/thermodynamiclatticeoutput.cc', 'src/vtkoutput.cc', 'src/include/smash/outputinterface.h'],
  mech=[('point output', 'src/thermodynamicoutput.cc'), ('lattices', 'src/thermodynamiclatticeoutput.cc'), ('VTK', 'src/vtkoutput.cc')],
  note=CMP_NOTE)
P(id='C31', title='Every documented option word selects its own option and no other',
  statement='A configuration value is converted to exactly the option its word documents, case-sensitively, sets of reactions become the sets documented, any other word is refused with an error naming the key, and options are written back as the words that read them.',
  over=['inputs', 'configurations'], text='all option enumerations, all words',
  why='Every option is a table of words of its own; tests convert a few of them.',
  files=['src/include/smash/configuration.h', 'src/stringify.cc', 'src/include/smash/stringify.h'],
  mech=[('conversion of values', 'src/include/smash/configuration.h'), ('writing options', 'src/stringify.cc')],
  note=CMP_NOTE)
