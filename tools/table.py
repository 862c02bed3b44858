MATCH = [("matching of a site's surroundings against a process", SRC + "matcher.cpp matchIndicesWithProcesses, "
          + SRC + "matchlist.h whateverMatch"),
         ("sorted neighbour lists and the range they are built to", SRC + "configuration.cpp initMatchLists, "
          + SRC + "interactions.cpp matchRange"),
         ("re-matching of everything near an event", SRC + "latticemodel.cpp singleStep, "
          + SRC + "latticemap.cpp supersetNeighbourIndices")]

prop("P01", "The list of possible events is exact at every step",
     "At every moment of a simulation the set of events that can happen next consists of exactly those pairs of a "
     "process and a lattice site for which the site is one the process is defined for, and every local position the "
     "process names carries the occupation it requires. This holds equally right after set-up and after any history "
     "of events, so that a model set up afresh from the present occupation has the same possible events. "
     "The number of available events that is reported agrees with that set.",
     ["inputs", "histories", "configurations"],
     "every lattice (basis, repetitions, periodicity), occupation, set of processes (one particle per site, or many), "
     "implicit or explicit wildcards, and every event sequence",
     "tests run a handful of fixed models and compare a few event counts; the incremental update can go stale only "
     "for particular combinations of range, basis, periodicity and history",
     [SRC + "matcher.cpp", SRC + "matchlist.cpp", SRC + "matchlistentry.cpp", SRC + "configuration.cpp",
      SRC + "interactions.cpp", SRC + "latticemap.cpp", SRC + "latticemodel.cpp", SRC + "process.cpp"],
     MATCH, "stateful property-based testing against a reference model",
     "random models, up to 60 sites and 10 events; edges of open lattices judged only where documented",
     ["event lists of the running model after set-up and after each event"])

prop("P02", "An event changes exactly what its process describes",
     "When an event takes place, exactly the lattice positions named by its process, at the site where it takes place, "
     "change, and they change from the occupation before to the one after (for processes on sites with several "
     "particles: by the given numbers), while all others keep their occupation. The process and the site reported as "
     "the latest event are those of that event and it was possible there. The reported numbers of particles per type "
     "always equal a count over all sites.",
     ["inputs", "histories", "configurations"],
     "every model as in P01 and every event sequence",
     "tests apply a few fixed processes to a few fixed occupations, mostly in one cell without wrap-around",
     [SRC + "configuration.cpp", SRC + "matchlist.cpp", SRC + "process.cpp", SRC + "typebucket.cpp",
      CORE + "KMCConfiguration.py", CORE + "KMCInteractions.py"],
     [("performing an event on the occupation", SRC + "configuration.cpp performBucketProcess"),
      ("translation of a process to differences", SRC + "matchlist.cpp configurationsToMatchList")],
     "stateful property-based testing against a reference model",
     "random models, up to 60 sites and 25 events, the whole occupation compared after each",
     ["types, particles per type, latest event"])

prop("P03", "Process rates and the total rate follow from the occupation",
     "With fixed rate constants, the rate of each process is at every moment its rate constant times the number of "
     "sites where it is possible, each counted with the number of ways the particles it needs can be chosen from those "
     "present (the product of binomial coefficients; one for single occupation). The total rate is the sum over "
     "the processes. This holds after any history of events and for any occupation numbers.",
     ["inputs", "histories", "configurations"],
     "every model with fixed rates, with one or several particles per site, and every event sequence",
     "tests check rates of isolated objects for a few numbers; bookkeeping errors show only in certain histories and "
     "occupations",
     [SRC + "process.cpp", SRC + "matcher.cpp", SRC + "matchlist.cpp", SRC + "interactions.cpp"],
     [("running sums in the processes", SRC + "process.cpp addSite, removeSite"),
      ("number of ways to choose", SRC + "matchlist.cpp multiplicity"),
      ("table over processes", SRC + "interactions.cpp updateProbabilityTable")],
     "stateful property-based testing against a reference model",
     "random models, up to 60 sites, 25 events, up to 3000 particles on a site; relative tolerance 1e-7",
     ["total rates of the processes and of the model"])

prop("P04", "The next event is chosen in proportion to its rate",
     "Every event that is possible is chosen as the next one with probability equal to its rate divided by the total "
     "rate, where the rate includes the number of ways on multiply occupied sites and is the value of the custom rate "
     "function where there is one. An event that is not possible is never chosen, whatever numbers the random number "
     "generator delivers. Choices in successive steps are independent given the occupation.",
     ["inputs", "histories", "configurations"],
     "every model, every state it reaches, every seed and generator",
     "tests pin single outcomes for one seed or sample one small table loosely",
     [SRC + "interactions.cpp", SRC + "process.cpp", SRC + "customrateprocess.cpp", SRC + "random.cpp"],
     [("choice of the process", SRC + "interactions.cpp pickProcessIndex"),
      ("choice of the site", SRC + "process.cpp pickSite, updateRateTable, " + SRC
       + "customrateprocess.cpp updateRateTable")],
     "property-based testing with a statistical oracle over generated models, plus inputs chosen for their random stream",
     "observed against expected counts per process and per site over thousands of steps of generated models, with "
     "reference rates; deviations below 7 standard deviations pass",
     ["latest event over long runs"])

prop("P05", "Waiting times are exponential with the total rate before the event",
     "Simulation time starts at zero for a new model, continues where it was when a model is run again, and advances "
     "with every event by a positive and finite time. These waiting times are exponentially distributed with the total "
     "rate of all events possible before the event, and are independent of each other and of which event is "
     "chosen.",
     ["inputs", "histories", "configurations"],
     "every model, every state it reaches, rates on any scale, every seed and generator, runs in one or several parts",
     "tests pin a few numbers for one seed; a wrong rate or a reused random number leaves plausible times",
     [SRC + "simulationtimer.cpp", SRC + "latticemodel.cpp", SRC + "random.cpp", CORE + "KMCLatticeModel.py"],
     [("advance of time", SRC + "simulationtimer.cpp propagateTime"),
      ("order of time and event", CORE + "KMCLatticeModel.py run")],
     "property-based testing with a statistical oracle over generated models, plus inputs chosen for their random stream",
     "Kolmogorov-Smirnov, mean and correlation tests at about 1e-10 over thousands of steps of generated models",
     ["time at each step as given to analysis plugins"])

prop("P06", "Particles keep their identity and their path through all moves",
     "With one particle per site every particle keeps its number: after each event the particles that the process "
     "moves, by the move vectors given or by the exchange of two particles where none are given, are at the sites they "
     "were moved to, their position has changed by exactly the move vector (never wrapped at the periodic "
     "boundary), and all others are where they were. The type reported for a particle is the type at the site where it "
     "is, and the particles reported as moved include all those that were.",
     ["inputs", "histories", "configurations"],
     "every model with exchanges, cyclic moves and type changes, with implicit or explicit wildcards, and every event "
     "sequence",
     "tests follow a few hand-made moves; index mapping through sorting and inserted wildcards depends on the geometry",
     [SRC + "configuration.cpp", SRC + "process.cpp", SRC + "interactions.cpp", CORE + "KMCProcess.py",
      CORE + "KMCInteractions.py"],
     [("moves of the particle numbers and coordinates", SRC + "configuration.cpp performBucketProcess"),
      ("move vectors to list positions", SRC + "process.cpp Process, " + SRC
       + "interactions.cpp updateProcessMatchLists"),
      ("reconstruction and sorting of move vectors", CORE + "KMCProcess.py")],
     "stateful property-based testing against a reference model",
     "random models, up to 60 sites and 30 events",
     ["types and coordinates per particle, moved particles"])

prop("P09", "Custom rate functions see the true local environment and their values are used",
     "Each time the custom rate function of the user is called it gets the process number, rate constant and site "
     "of an event that is possible at that time, the coordinates of all sites within the cutoff relative to "
     "that site, nearest first, and for each of them the occupation before and after the event. The rate of every "
     "possible event is at every moment the value the function gives for its present environment, also when the change "
     "happened at the rim of the cutoff.",
     ["inputs", "histories", "configurations"],
     "every lattice, occupation and process set, every cutoff, every rate function of the environment and of the site, "
     "and every event sequence",
     "tests record one call in a tiny system; a stale rate or a wrong environment needs the right geometry and history",
     [SRC + "matcher.cpp", SRC + "customrateprocess.cpp", SRC + "interactions.cpp",
      "python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py", CORE + "KMCInteractions.py"],
     [("arguments of the call", SRC + "matcher.cpp updateSingleRate"),
      ("range of re-evaluation", SRC + "interactions.cpp matchRange"),
      ("rates per site", SRC + "customrateprocess.cpp addSite, removeSite")],
     "stateful property-based testing against a reference model",
     "random models, up to 60 sites and 12 events; sites where matching is left open at edges not judged",
     ["arguments of the rate function, total rates"])

prop("P07", "Sites, cells and neighbourhoods of a lattice are numbered consistently",
     "For every lattice the sites are those of the repeated unit cell, each exactly once, at cell plus basis point in "
     "fractional units, numbered with the basis point running fastest and then the third, second and first direction. "
     "Conversions between site number, cell and basis point, the sites within some cells of a given one (each once; "
     "wrapped in periodic directions, ended by the edge in others), moves by whole cells, the shortest "
     "periodic separation, and Cartesian coordinates all agree with this, also on lattices of up to 2^31 sites.",
     ["inputs", "configurations"],
     "every basis, cell shape, number of repetitions (also 1 and 2, where a cell is its own neighbour), periodicity "
     "and site",
     "tests look at a few small lattices; wrap-around in thin directions and large index arithmetic are not reached",
     [SRC + "latticemap.cpp", CORE + "KMCLattice.py", CORE + "KMCUnitCell.py", CORE + "KMCConfiguration.py"],
     [("index arithmetic", SRC + "latticemap.cpp indexToCell, indicesFromCell, basisSiteFromIndex"),
      ("neighbour sets", SRC + "latticemap.cpp neighbourIndices, supersetNeighbourIndices"),
      ("periodic separation", SRC + "latticemap.cpp wrap"),
      ("sites of the lattice", CORE + "KMCLattice.py sites")],
     "property-based testing against a reference model",
     "small lattices up to 4x343 sites completely, large ones (up to 2^31 sites) at random and extreme sites",
     ["coordinates, indices and neighbour lists"])

prop("P08", "Equivalent descriptions of a model are simulated identically",
     "The same model written differently gives the same simulation: another order of the local coordinates after the "
     "first, another origin, rounding noise in them, other type names, another order of (or unused) possible types, "
     "basis sites that do not exist, and single particles written as counts leave the sequence of events and times "
     "from the same seed unchanged; the lattice directions in another order leave the possible events and the rates "
     "unchanged.",
     ["inputs", "configurations", "histories"],
     "every model, every such rewriting of it, every event sequence",
     "no test compares two descriptions; sorting, type numbering and wildcard insertion depend on the description",
     [CORE + "KMCProcess.py", CORE + "KMCBucketProcess.py", CORE + "KMCLocalConfiguration.py", CORE
      + "KMCInteractions.py", "python/src/KMCLib/Utilities/CoordinateUtilities.py", SRC + "process.cpp",
      SRC + "interactions.cpp"],
     [("sorting of local coordinates", "python/src/KMCLib/Utilities/CoordinateUtilities.py sortCoordinatesDistance"),
      ("type numbers", CORE + "KMCConfiguration.py __init__"),
      ("order of match lists", SRC + "matchlistentry.cpp operator<, " + SRC + "coordinate.cpp operator<")],
     "metamorphic property-based testing",
     "random models, up to 40 sites and 12 events; edges of open lattices left out when directions are exchanged",
     ["event lists, rates, occupations and latest events of both models after each event"])

prop("P10", "Caching of custom rates changes nothing but the number of evaluations",
     "When a rate calculator that depends on the local environment asks for its rates to be cached, all rates, and so "
     "the events and times from the same seed, are those obtained without caching; no environment already seen "
     "for a process is evaluated again (unless several thousand others came in between), while processes excluded from caching are always evaluated.",
     ["inputs", "histories", "configurations"],
     "every model, every rate function of the local environment, every choice of excluded processes, every event "
     "sequence",
     "tests compare one small run; a wrong hit needs two environments that are told apart wrongly",
     [SRC + "ratetable.cpp", SRC + "hash.cpp", SRC + "matcher.cpp",
      "python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py", SRC + "ratecalculator.cpp"],
     [("key of an environment", SRC + "hash.cpp hashCustomInput"),
      ("table of rates", SRC + "ratetable.cpp"),
      ("use of the table", SRC + "matcher.cpp updateRates")],
     "differential property-based testing against the uncached run and a reference model",
     "random models, up to 80 sites and 15 events; lattices with up to 9216 different environments and 30 events",
     ["calls of the rate function, rates, events"])

prop("P13", "Runs perform the requested steps and serve output and plugins on time",
     "A run performs exactly the requested number of events unless a breaker stops it or no event is left. The initial "
     "state is written first and then every dump interval (or the state before the event that crosses each dump "
     "time); every analysis is set up once before the first event, gets each multiple of the analysis interval and "
     "the final call once at the very end; each breaker is set up and evaluated at multiples of its interval, and the "
     "run ends right after the first that asks for it. All of them see the step, time and occupation at that moment, "
     "also when the run ends early or with an error. A model that is run again continues from there.",
     ["inputs", "histories", "configurations"],
     "every combination of steps, intervals, analyses, breakers and trajectories, every model and number of consecutive runs",
     "tests run a few fixed intervals once; early ends, consecutive runs and combinations are hardly touched",
     [CORE + "KMCLatticeModel.py", CORE + "KMCControlParameters.py",
      "python/src/KMCLib/PluginInterfaces/KMCAnalysisPlugin.py",
      "python/src/KMCLib/PluginInterfaces/KMCBreakerPlugin.py", "python/src/KMCLib/Utilities/Trajectory/Trajectory.py"],
     [("the main loop", CORE + "KMCLatticeModel.py run")],
     "stateful property-based testing against an undisturbed run",
     "up to 3 consecutive runs of up to 25 steps; several dump times passed by one event not judged",
     ["calls of analyses and breakers, frames of the trajectory"])

prop("P22", "Initial occupations end up at the sites where the user put them",
     "Whichever way the initial occupation is given - one type per site, a list of places with a default type, or one "
     "or several types with numbers per site - each site holds exactly what was given for it, the possible types are "
     "those given (or those present), and the numbers of particles per type and the types by particle agree with it.",
     ["inputs", "configurations"],
     "every lattice and every occupation in every format that is accepted, with any names of types",
     "tests convert a few hand-written lists",
     [CORE + "KMCConfiguration.py", "python/src/KMCLib/Utilities/ConversionUtilities.py", CORE + "KMCLattice.py",
      SRC + "typebucket.cpp", SRC + "configuration.cpp"],
     [("list of places to one type per site", CORE + "KMCConfiguration.py __init__"),
      ("types with numbers", "python/src/KMCLib/Utilities/ConversionUtilities.py")],
     "property-based testing against a reference model",
     "lattices of up to 60 sites, up to 5 types and 45 particles per entry",
     ["occupation, possible types, numbers per type"])

TRAJ = "python/src/KMCLib/Utilities/Trajectory/"

prop("P11", "Ensembles of runs follow the master equation",
     "Over many simulations from different seeds, the states found at given simulated times, alone and together, occur "
     "with the probabilities that the master equation gives for the processes' rates, at all times, also where a run is "
     "continued with another seed; seeds make independent runs.",
     ["inputs", "histories", "configurations"],
     "every model, initial state, times, generator of random numbers and sequence of seeds",
     "tests look at single runs with one seed; a wrong correlation of times, events and seeds shows in no single value",
     [SRC + "random.cpp", SRC + "simulationtimer.cpp", SRC + "interactions.cpp", SRC + "process.cpp",
      SRC + "latticemodel.cpp", CORE + "KMCLatticeModel.py"],
     [("one stream for times and choices", SRC + "random.cpp"), ("time step", SRC + "simulationtimer.cpp")],
     "property-based testing of ensembles against the exactly solved master equation (exact binomial tails)",
     "up to 150 states, 1000 runs per model, up to 60 expected events per run",
     ["states recorded by an analysis, simulated times"])

prop("P12", "The same seed gives the same simulation",
     "A simulation started from the same model, seed and random number generator takes the same events at the same times "
     "and goes through the same occupations - whatever random numbers or models were used before in the same "
     "interpreter, in whichever interpreter it runs (whatever the hash seed), and whatever is written to trajectories, "
     "analysed by the analyses of the package or evaluated by breakers that do not stop it, at whatever intervals. "
     "Another seed gives another simulation.",
     ["inputs", "histories", "configurations"],
     "every model, seed and generator, and every combination of trajectories, analyses, breakers and intervals",
     "tests compare one fixed seeded run; dependence on the order of a dictionary, on reading the state or on left-over state "
     "of the generator shows only in particular combinations",
     [SRC + "random.cpp", SRC + "simulationtimer.cpp", CORE + "KMCLatticeModel.py", CORE + "KMCInteractions.py",
      CORE + "KMCControlParameters.py", "python/src/KMCLib/Analysis/"],
     [("seeding at the start of a run", CORE + "KMCLatticeModel.py run, " + SRC + "random.cpp seedRandom"),
      ("deterministic ordering of processes and types", CORE + "KMCInteractions.py _backend")],
     "metamorphic property-based testing of whole runs, with a second interpreter",
     "runs of up to 40 steps, four generators, up to four analyses",
     ["events, times and occupations of a run"])

prop("P14", "A lattice trajectory holds exactly what happened",
     "A lattice trajectory file is a Python script that defines the positions of the sites, in order, "
     "and, frame by frame in the order they were taken, the time, the step and the type (or types) at each "
     "site - exactly the occupations of the simulation, to the precision printed, whatever the names of the types and "
     "the buffer limits. Nothing is lost at the end of a run, and an existing file is replaced.",
     ["inputs", "histories", "configurations"],
     "every model, run, number of frames, buffer size and interval",
     "tests compare a few hand-written frames; loss at a flush or at the end needs particular sizes and lengths",
     [TRAJ + "LatticeTrajectory.py", TRAJ + "Trajectory.py", CORE + "KMCLatticeModel.py"],
     [("buffering and flushing", TRAJ + "Trajectory.py append, flush"),
      ("format", TRAJ + "LatticeTrajectory.py")],
     "round-trip property-based testing",
     "up to 60 sites and 25 frames, type names of up to 17 characters, buffers of 0-3000 bytes",
     ["the file, executed"])

prop("P15", "An XYZ trajectory follows every particle",
     "An XYZ trajectory file holds the cell and periodicity and, for every frame in order, the step, the time and for "
     "each particle in a fixed order its type and its position, not wrapped at the periodic boundaries: it differs from "
     "the starting position by the sum of the move vectors of the particle in all events, in units of the cell vectors. "
     "Nothing is lost at the end of a run or at a flush of the buffer.",
     ["inputs", "histories", "configurations"],
     "every model with one particle per site, every cell, run and buffer size",
     "tests compare a few hand-written frames of one configuration",
     [TRAJ + "XYZTrajectory.py", TRAJ + "Trajectory.py", SRC + "configuration.cpp", CORE + "KMCConfiguration.py"],
     [("positions by particle", SRC + "configuration.cpp performBucketProcess"),
      ("buffering and format", TRAJ + "XYZTrajectory.py")],
     "round-trip property-based testing against a reference model",
     "up to 60 sites, 20 frames, non-orthogonal cells",
     ["the file, parsed"])

prop("P16", "Compiled rate functions act as the same functions in Python",
     "A rate function compiled into the package and chosen by its name gives the simulation that the same function "
     "written in Python gives from the same seed: it is asked equally often, with the same geometry, types before and "
     "after, constant, process number and coordinate, its cutoff, caching and exclusions from caching are respected, and "
     "the events, lists and rates are the same.",
     ["inputs", "histories"],
     "every model and history with a rate function available in both languages, cached or not",
     "the tests only look at the functions of the package one call at a time, never in a simulation that caches",
     [SRC + "ratecalculator.cpp", SRC + "matcher.cpp", SRC + "latticemodel.cpp", "c++/custom/isingtestcalculator.cpp",
      "c++/custom/bucketstestcalculator.cpp", "c++/wrap/CMakeLists.txt", CORE + "KMCLatticeModel.py",
      "python/src/KMCLib/PluginInterfaces/KMCRateCalculatorPlugin.py"],
     [("rate callbacks", SRC + "matcher.cpp updateRates"), ("interface of the compiled functions", "c++/wrap/CMakeLists.txt"),
      ("choice by name", CORE + "KMCLatticeModel.py setRateCalculator")],
     "differential property-based testing of two implementations of one rate function",
     "up to 80 sites and 60 steps; one formula with several parameters, and the two functions of the package",
     ["events, event lists, total rates and numbers of evaluations"])

prop("P17", "A script that is written gives the same model back",
     "The script of a configuration, of interactions or of a model, written at any time of a simulation and read back "
     "with the functions of the package, gives an object with the same lattice, present occupation, possible types, "
     "possible events and rates; a simulation with it takes the same events as one with the same model built anew. The script "
     "exported for ATK has the cell of the whole lattice and the particles of the chosen types where they are.",
     ["inputs", "histories", "configurations"],
     "every model with fixed rates, with one or several particles per site, at any time of its history",
     "tests compare the script of a few objects as text; whether it can be read back and is complete is tested for few",
     [CORE + "KMCConfiguration.py", CORE + "KMCProcess.py", CORE + "KMCBucketProcess.py", CORE + "KMCInteractions.py",
      CORE + "KMCLattice.py", CORE + "KMCUnitCell.py", CORE + "KMCLatticeModel.py",
      "python/src/KMCLib/Utilities/SaveAndReadUtilities.py"],
     [("scripts of the objects", CORE + "*.py _script"),
      ("reading", "python/src/KMCLib/Utilities/SaveAndReadUtilities.py")],
     "round-trip property-based testing",
     "up to 50 sites, 6 events before and 8 after; numbers to the seven digits printed",
     ["the object read back and its events"])

prop("P25", "Random numbers are those of the named generator and seed",
     "After a generator and a seed are chosen, the uniform random numbers a simulation uses lie in [0,1) and are exactly "
     "the stream of the standard generator of that name (MT19937, MINSTD, RANLUX24, RANLUX48) for that seed, "
     "independent of which generators and seeds were used before. Without a seed the clock gives one.",
     ["inputs", "histories"],
     "every generator, seed and sequence of choices",
     "tests compare the first few numbers for one seed",
     [SRC + "random.cpp", CORE + "KMCControlParameters.py", CORE + "KMCLatticeModel.py"],
     [("seeding and drawing", SRC + "random.cpp seedRandom, randomDouble01")],
     "differential property-based testing against the documented generators",
     "up to several hundred numbers after each choice",
     ["the stream of random numbers"])

prop("P26", "Models do not influence each other",
     "Several models in one program, in whatever order they are made and run, take each exactly the steps it takes "
     "alone, also where they are made from the same interactions, processes or lattice with different occupations, "
     "lattices and lists of types. The lists and arrays that the parts of a model were made from can be changed "
     "afterwards without any effect on it.",
     ["inputs", "histories", "schedules"],
     "every set of models with configurations of their own, every sharing of parts, every order of building and running",
     "tests build one model at a time",
     [CORE + "KMCInteractions.py", CORE + "KMCProcess.py", CORE + "KMCLatticeModel.py", CORE + "KMCConfiguration.py",
      SRC + "random.cpp", SRC + "latticemodel.cpp"],
     [("the compiled counterparts kept by the Python objects", CORE + "KMCInteractions.py _backend")],
     "stateful metamorphic property-based testing",
     "up to three models of up to 40 sites",
     ["steps and times of each model"])

ANA = "python/src/KMCLib/Analysis/"

prop("P18", "The mean square displacement is the average over the recorded moves",
     "The on-the-fly mean square displacement reports for every time bin the exact average of the squared displacements "
     "(per Cartesian direction and for all combinations) of the particles of the tracked type over all pairs of recorded "
     "visits within the history that fall in the bin, with periodic boundaries unfolded, the number of such pairs, and "
     "the bin's time; nothing is lost, counted twice or taken from another particle.",
     ["inputs", "histories", "configurations"],
     "every model with moving particles, cell, number of bins, history length, tracked type and sequence of events",
     "tests feed a few hand-made positions to one analysis object; bookkeeping of histories is wrong only in certain "
     "sequences of moves",
     [SRC + "ontheflymsd.cpp", ANA + "OnTheFlyMSD.py", SRC + "configuration.cpp", SRC + "latticemap.cpp"],
     [("histories and bins", SRC + "ontheflymsd.cpp registerStep"), ("set-up and output", ANA + "OnTheFlyMSD.py")],
     "stateful property-based testing against a reference model",
     "up to 40 sites, two runs of up to 60 events, up to 30 bins and 12 visits of history",
     ["counts, averages and bin times of the analysis; printed output"])

prop("P19", "Composition and time step distribution describe the run",
     "Composition reports for every block of time the averages of the number of particles of every type over the "
     "analysed steps of the block; the time step distribution holds every analysed time step in its bin and normalises "
     "to one. The printed output holds the same numbers.",
     ["inputs", "histories"],
     "every model (one or several particles per site), run, block interval, bin size and analysis interval",
     "tests feed a few fabricated configurations",
     [ANA + "Composition.py", ANA + "TimeStepDistribution.py", CORE + "KMCLatticeModel.py", CORE + "KMCConfiguration.py"],
     [("blocks", ANA + "Composition.py registerStep"), ("bins", ANA + "TimeStepDistribution.py registerStep")],
     "stateful property-based testing against a recorder",
     "up to 30 sites, two runs of up to 60 steps",
     ["collected data and printed output of the analyses"])

prop("P20", "Process statistics count the chosen processes' events",
     "Statistics of chosen processes count, for every block of time, exactly the analysed events of those processes, and "
     "with spatial resolution for each lattice site, reported as rates over the time of the run.",
     ["inputs", "histories"],
     "every model, run, choice of processes, block interval and analysis interval",
     "tests feed a few fabricated events",
     [ANA + "ProcessStatistics.py", CORE + "KMCLatticeModel.py", CORE + "KMCConfiguration.py",
      SRC + "configuration.cpp", SRC + "latticemodel.cpp"],
     [("counting", ANA + "ProcessStatistics.py registerStep"), ("latest event", SRC + "latticemodel.cpp singleStep")],
     "stateful property-based testing against a recorder",
     "up to 30 sites, two runs of up to 60 steps",
     ["collected data and printed output of the statistics"])

prop("P21", "Impossible input is refused with an error of the package",
     "Input that cannot describe a model or a run (wrong kind, shape, length or sign of an argument, degenerate cell, "
     "points outside the cell, indices outside the lattice, types that are not possible, a process without effect, "
     "moves to nowhere, rates that are no numbers, broken plugins, ...) is refused with an error of the package before "
     "the first step, never accepted and never a crash; and a model once refused does not stop the correct one from "
     "being accepted.",
     ["inputs"],
     "every valid model with one argument made invalid in any of about a hundred ways at any place",
     "tests try a few wrong values per argument; the combinations and positions are not covered",
     ["python/src/KMCLib/Utilities/CheckUtilities.py", CORE + "KMCUnitCell.py", CORE + "KMCLattice.py",
      CORE + "KMCConfiguration.py", CORE + "KMCProcess.py", CORE + "KMCBucketProcess.py", CORE + "KMCBaseProcess.py",
      CORE + "KMCInteractions.py", CORE + "KMCLatticeModel.py", CORE + "KMCControlParameters.py",
      "python/src/KMCLib/Utilities/ConversionUtilities.py", ANA + "OnTheFlyMSD.py"],
     [("checks of arguments", "python/src/KMCLib/Utilities/CheckUtilities.py")],
     "mutation-based property testing of input validation",
     "one invalid argument at a time, up to 60 sites",
     ["errors raised and their type; absence of steps and trajectory files"])

prop("P23", "A simulation on several MPI processes is the same simulation",
     "A simulation distributed over several MPI processes takes, on every process, exactly the steps it takes in one "
     "process: events, times, rates, output and statistics agree, output is written once, by the master; and it ends. "
     "This holds with every random number generator, with custom rates, cached or not, and whatever the processes' "
     "clocks show.",
     ["inputs", "histories", "schedules", "configurations"],
     "every model and run, two to four processes, clocks that differ",
     "the tests run in one process; with MPI the work is split by code that is otherwise not used",
     [SRC + "mpiroutines.cpp", SRC + "mpicommons.cpp", SRC + "matcher.cpp", SRC + "random.cpp",
      "python/src/KMCLib/Utilities/Trajectory/Trajectory.py", CORE + "KMCLatticeModel.py"],
     [("split of the matching over the processes", SRC + "matcher.cpp"), ("distribution and joining", SRC + "mpiroutines.cpp"),
      ("same random numbers and times", SRC + "random.cpp"),
      ("flushing together", "python/src/KMCLib/Utilities/Trajectory/Trajectory.py append")],
     "differential property-based testing under mpirun with perturbed clocks",
     "2-4 processes on one host, up to 40 sites, two runs of up to 20 steps",
     ["what an analysis on every process sees, printed statistics, the trajectory file"])

prop("P24", "No input or history makes the compiled code access memory it must not",
     "Whatever valid or refused input, model, history, analysis, output or custom rate function it is given, the compiled "
     "part reads and writes only memory of live objects within their bounds, does no arithmetic without a defined result, "
     "and does not crash.",
     ["inputs", "histories", "configurations"],
     "every case of the other checks' generators",
     "out-of-bounds accesses usually go unnoticed in tests and depend on the layout of the lattice and the history",
     [SRC + "*.cpp", SRC + "*.h", "c++/wrap/backend.i", CORE + "*.py"],
     [("index lists, match lists, running sums", SRC + "*.cpp")],
     "fuzzing with generated models under AddressSanitizer, UndefinedBehaviorSanitizer and container checks",
     "several thousand cases of up to 60 sites; uninitialised memory only where it is read as a flag",
     ["aborts of the sanitizers, crashes, hangs"])
