import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=["src/pylattica/"+f for f in files],mechanism=[dict(name=n,where="src/pylattica/"+w) for n,w in mech],
      state=[dict(name=n,meaning=m,where="src/pylattica/"+w) for n,m,w in (state or [])],observe_at=observe or [],hook_needed=None)))

p("C01","Fractional and Cartesian coordinates are exact linear inverses",
 "For every lattice of any dimension, the Cartesian coordinates of fractional coordinates are the sum of the lattice vectors weighted by those coordinates, and converting back returns the original coordinates up to float rounding, for single points and for arrays of points. A lattice scaled by a number of cells has each vector multiplied by its own number, keeps the per-axis periodicity, and leaves the original lattice unchanged. A lattice rebuilt from its dictionary form has the same vectors and the same per-axis periodicity.",
 ["inputs","configurations"],"all non-degenerate lattices of dimension 1 to 4 (orthogonal, sheared, rotated, permuted, left-handed), all periodicity flags, all points and cell counts",
 "The tests convert a handful of points in two or three fixed, mostly symmetric lattices, where a transposed matrix gives the same answer.",
 ["core/lattice.py"],[("Lattice.get_cartesian_coords / get_fractional_coords","core/lattice.py"),("Lattice.get_scaled_lattice","core/lattice.py"),("Lattice.as_dict / from_dict","core/lattice.py")],["return values of Lattice methods"])
p("C02","Periodizing moves a point into the cell by whole lattice vectors only",
 "Periodizing a point changes it only by a whole number of lattice vectors along periodic axes and never along non-periodic axes, and the result lies inside the unit cell along every periodic axis (up to float rounding). Two points that differ by whole lattice vectors along periodic axes periodize to the same point of the cell, and periodizing twice is the same as periodizing once. The fractional difference of two points under periodic boundaries is congruent to their plain difference and at most one half in magnitude along periodic axes, and is the plain difference along non-periodic axes.",
 ["inputs","configurations"],"all lattices, all mixtures of periodic and non-periodic axes, points anywhere in space including negative and far away",
 "The tests use four points in a square cell; signs, mixed periodicity and oblique cells are not covered.",
 ["core/lattice.py"],[("periodize","core/lattice.py"),("Lattice.get_periodized_cartesian_coords","core/lattice.py"),("pbc_diff_frac_vec","core/lattice.py")],["return values"])
p("C03","Periodic distance is the shortest distance over all periodic images",
 "The periodic distance between two locations is the smallest Euclidean distance between the first and any image of the second under whole lattice translations along the periodic axes, rounded to three decimals; axes that are not periodic contribute no images. It is therefore symmetric, zero exactly for images of the same location, and unchanged when either location is moved by a whole lattice vector along a periodic axis.",
 ["inputs","configurations"],"all lattices including strongly oblique ones, all mixtures of periodic axes, all pairs of locations inside or outside the cell",
 "The tests compute a few distances in square cells, where rounding each fractional component happens to give the nearest image; obliquity needs other lattices.",
 ["core/lattice.py"],[("pbc_diff_cart","core/lattice.py"),("Lattice.cartesian_periodic_distance","core/lattice.py")],["return value of cartesian_periodic_distance"])
p("C04","Building a structure tiles the motif once into every unit cell",
 "Building a structure from a lattice, a number of cells per axis and a motif gives exactly one site per cell and motif entry, of the motif entry's site class, located at the cell origin plus the motif vector (modulo the structure's periodic axes), whether the motif is given in Cartesian or fractional coordinates, as a class map or as a plain list. The structure's lattice is the unit cell scaled by the number of cells with the same periodicity, and the sites of each class partition all sites. A builder given one integer repeats it along every axis, and one given a tuple of the wrong length raises ValueError.",
 ["inputs","configurations"],"all lattices of dimension 1 to 3 including non-symmetric ones, all cell counts, all motifs with separated sites, both coordinate conventions, all periodicity mixtures",
 "The tests build square, symmetric or fractional-coordinate structures and mostly count sites; they never check Cartesian motifs in a non-symmetric lattice.",
 ["core/periodic_structure.py","core/structure_builder.py","core/coordinate_utils.py"],[("PeriodicStructure.build_from","core/periodic_structure.py"),("StructureBuilder.build","core/structure_builder.py")],["PeriodicStructure.sites / site_ids / lattice"])
p("C05","A site is found at every periodic image of its location and nowhere else",
 "After any sequence of additions, looking up a location returns the site added there, with its id, class and location, for that location and all of its images along periodic axes, and nothing for locations where no site was added. Ids are unique, every id resolves to its own site, and per-class listings contain exactly the sites added with that class. Adding a site at an occupied location or any image of one is refused and leaves the structure unchanged.",
 ["histories","inputs","configurations"],"all sequences of add and lookup operations on all lattices of dimension 1 to 3 and all periodicity mixtures, with sites in the interior and on the faces of the cell",
 "The tests look up a few interior points in square cells; float noise on the cell faces of oblique lattices and mixed periodicity need a generated history.",
 ["core/periodic_structure.py","core/lattice.py"],[("PeriodicStructure.add_site","core/periodic_structure.py"),("PeriodicStructure.site_at / id_at / class_at","core/periodic_structure.py")],["site_at, id_at, class_at, get_site, sites, all_site_classes"],
 [("site table and location lookup","sites by id and by rounded location","core/periodic_structure.py")])
p("C06","Structures and simulations survive a round trip through dictionaries and files",
 "A structure rebuilt from its dictionary form (also after passing through JSON, whatever the order of its keys) has the same lattice and periodicity, and the same ids, classes and locations, and answers every location lookup the same way. A simulation written to a file and read back has an equal state, including general state, and an equivalent structure.",
 ["inputs","histories"],"all structures (lattices, periodicity mixtures, site classes, sites on cell faces) and all JSON-representable site and general states",
 "One test round-trips one small square structure; oblique lattices with rounded locations on cell faces and general state are not covered.",
 ["core/periodic_structure.py","core/simulation.py","core/simulation_state.py","core/lattice.py"],[("PeriodicStructure.as_dict / from_dict","core/periodic_structure.py"),("Simulation.to_file / from_file","core/simulation.py"),("SimulationState.as_dict / from_dict","core/simulation_state.py")],["reloaded objects"])
p("C07","State updates merge, and copies are independent",
 "After any sequence of single-site, general and batch updates (site map, or a map holding site updates, general updates or both), every site and the general state hold, for each key, the value last written to it, keys that were not mentioned keep their values, and nothing else appears. A copy, and a state constructed from a state dictionary, equals its source and is fully independent of it afterwards, nested values included. Updating never changes the update object passed in.",
 ["histories","inputs"],"all sequences of updates, copies and round trips over arbitrary integer site ids and arbitrary keys and values",
 "The tests make one or two updates; a history mixing the batch forms, copies and nested values is not reached.",
 ["core/simulation_state.py"],[("SimulationState.set_site_state / set_general_state / batch_update","core/simulation_state.py"),("SimulationState.copy","core/simulation_state.py")],["get_site_state, get_general_state, site_ids, size, all_site_states, =="],
 [("state dictionary","site states and general state","core/simulation_state.py")])
p("C08","A result reproduces every step, whatever is cached or read before",
 "Step k of a result is the initial state with the first k recorded updates applied, for every k, whether or not steps were preloaded (at any interval, any number of times, also before more steps are added), and reading a returned state or applying updates to it never changes what the result returns later. The length is the number of recorded updates plus one, the first and last step agree with it, and iterating over the steps yields every step from first to last as separate states.",
 ["histories"],"all sequences of add_step, load_steps, get_step, iteration and modification of returned states, with site-only and combined updates",
 "The tests read each step once, never modify a returned state, and never compare iteration with indexing.",
 ["core/simulation_result.py"],[("SimulationResult.get_step / load_steps / steps","core/simulation_result.py")],["get_step, steps, first_step, last_step, len"],
 [("updates list and stored steps","history and cache","core/simulation_result.py")])
p("C09","A saved result reloads with the same steps",
 "A result written to a file, or to its dictionary form passed through JSON, and loaded again has the same number of steps, and each step equals the original, general state included. This holds for results produced by the synchronous and asynchronous runners and for results assembled by hand.",
 ["inputs","histories"],"all results with JSON-representable values: site-only, general-only and combined updates, runner-produced or manual",
 "The tests save only hand-assembled results with site-only updates.",
 ["core/simulation_result.py","core/simulation_state.py"],[("SimulationResult.as_dict / from_dict / to_file / from_file","core/simulation_result.py")],["reloaded SimulationResult"])
p("C10","A synchronous step applies the rule to every site of the previous state",
 "In a synchronous run the update rule is applied exactly once per step to each site, always against the complete state of the previous step, and the next state is the previous one with all returned updates merged in, however the rule expresses them (one site's values, a map of sites, site and general updates, an empty update or None). The result holds the initial state and one step per requested step, its output and last step are the final state, and the state passed in by the caller is not modified. The controller's preparation hook runs once, before the first update, and the result object is the one the controller instantiates.",
 ["inputs","histories","programs"],"all deterministic update rules over all states, neighbour relations, numbers of steps and forms of returned update",
 "The tests run two or three fixed controllers for a few steps; update forms are mixed nowhere and the order independence is not observed.",
 ["core/runner/synchronous_runner.py","core/runner/base_runner.py","core/runner/common.py","core/basic_controller.py"],[("SynchronousRunner","core/runner/synchronous_runner.py"),("merge_updates","core/runner/common.py"),("Runner.run","core/runner/base_runner.py")],["SimulationResult returned by run, calls received by the controller"])
p("C11","Parallel synchronous runs equal serial runs for any number of workers",
 "For every deterministic update rule, initial state, number of steps and number of workers, a parallel synchronous run records the same states for every step as the serial run, including general state, and its output and last step are that final state. The state passed in by the caller is not modified.",
 ["schedules","inputs","configurations"],"all worker counts (fewer or more than sites), all assignments of site batches to workers, all rules including ones that update few sites or depend on their neighbours",
 "One test compares one rule in one configuration; the outcome depends on which worker happens to take which batch.",
 ["core/runner/synchronous_runner.py"],[("SynchronousRunner (parallel)","core/runner/synchronous_runner.py")],["SimulationResult of both runs"],
 [("worker-side state","the state each worker process applies the rule to","core/runner/synchronous_runner.py")])
p("C12","An asynchronous run applies one update at a time, in queue order",
 "In an asynchronous run each step applies the rule to exactly one site against the current state and applies the returned update before the next one; sites a rule names as next are visited first-in first-out, and whenever none are waiting the controller is asked for one site or a list of sites. The run ends after the requested number of steps, or earlier when the controller provides no further site, raises RuntimeError when it provides none at the start, and records one step per applied update. Unless a controller overrides it, the site chosen is always one of the state's own sites, and every one of them can be chosen, whatever their ids are.",
 ["histories","inputs","schedules"],"all rules, next-site lists, controller choices, state site ids (also non-contiguous), numbers of steps and random seeds",
 "The tests follow two fixed scripts with contiguous ids; queue order over branching next-sites and early termination are not compared with a model.",
 ["core/runner/asynchronous_runner.py","core/basic_controller.py","core/runner/base_runner.py"],[("AsynchronousRunner","core/runner/asynchronous_runner.py"),("BasicController.get_random_site","core/basic_controller.py")],["calls received by the controller, SimulationResult"],
 [("site queue","sites waiting to be updated","core/runner/asynchronous_runner.py")])
p("C13","Distance neighbourhoods contain exactly the sites within range",
 "A distance neighbourhood of a site contains exactly the other sites whose shortest periodic distance is below the cutoff, and an annular neighbourhood exactly those strictly between the inner and outer radius; each neighbour appears once, never the site itself, and carries that distance (to three decimals) as its weight. The relation is symmetric, and asking for a single site class restricts whose neighbours are computed, not who can be a neighbour.",
 ["inputs","configurations"],"all structures (oblique lattices, several classes, all periodicity mixtures), all cutoffs and radii",
 "The tests count neighbours in square grids for two or three cutoffs.",
 ["core/neighborhood_builders.py","core/neighborhoods.py","core/lattice.py"],[("DistanceNeighborhoodBuilder","core/neighborhood_builders.py"),("AnnularNeighborhoodBuilder","core/neighborhood_builders.py"),("Neighborhood.neighbors_of","core/neighborhoods.py")],["neighbors_of with and without weights"])
p("C14","Motif neighbourhoods contain exactly the sites at the given offsets",
 "A motif neighbourhood of a site contains exactly the other sites found at the site's location plus each offset vector, wrapping around periodic axes; offsets that lead outside a non-periodic axis or to no site contribute nothing, and neither does an offset that leads back to the site itself. Each neighbour appears once, with a weight equal to the length (to two decimals) of an offset leading to it.",
 ["inputs","configurations"],"all structures whose coordinates are exact at the structure's three-decimal resolution, all offset lists, all periodicity mixtures, grids smaller and larger than the offsets",
 "The tests use fully periodic square grids on which every offset hits a site.",
 ["core/neighborhood_builders.py","core/neighborhoods.py","core/distance_map.py"],[("MotifNeighborhoodBuilder","core/neighborhood_builders.py")],["neighbors_of with and without weights"])
p("C15","Stochastic and per-class neighbourhoods follow their component builders",
 "Each query of a stochastic neighbourhood returns the complete neighbour list of exactly one of its component neighbourhoods, and every component can be returned. A per-class neighbourhood gives each site the neighbours its own class's builder computes, and none when its class has no builder; any neighbourhood builder, stochastic ones included, can be a component. Weights, when requested, come from the same component as the neighbours.",
 ["inputs","configurations","schedules"],"all structures with several site classes, all combinations and nestings of builders, all random choices",
 "The tests combine two fixed motifs on a square grid and never nest builders.",
 ["core/neighborhoods.py","core/neighborhood_builders.py"],[("StochasticNeighborhood(Builder)","core/neighborhoods.py"),("SiteClassNeighborhood(Builder)","core/neighborhood_builders.py")],["neighbors_of"])
p("C16","Built-in grid and honeycomb neighbourhoods have their defining shape",
 "On square grids of any size, Moore neighbourhoods of size s contain exactly the other cells within Chebyshev distance s and von Neumann neighbourhoods those within Manhattan distance s, on the torus, in two and three dimensions; circular neighbourhoods those closer than the radius. A pseudo-hexagonal query returns all face neighbours plus one opposite pair of corner neighbours, and a pseudo-pentagonal query the eight Moore neighbours minus one complete side; all such choices occur. On a honeycomb tiling of at least three cells per axis each site has exactly its six equidistant nearest neighbours, and the square and honeycomb structure builders give one site per cell.",
 ["inputs","configurations"],"all grid sizes including non-cubic grids and grids smaller than the neighbourhood, all neighbourhood sizes, all sites, all random choices",
 "The tests count the neighbours of one or two cells of one grid.",
 ["structures/square_grid/neighborhoods.py","structures/square_grid/structure_builders.py","structures/square_grid/lattice.py","structures/honeycomb/neighborhoods.py","structures/honeycomb/structure_builders.py","structures/honeycomb/lattice.py","core/coordinate_utils.py"],[("MooreNbHoodBuilder and siblings","structures/square_grid/neighborhoods.py"),("HoneycombNeighborhoodBuilder","structures/honeycomb/neighborhoods.py")],["neighbors_of"])
p("C17","Life-like automata follow their birth and survival rule on the torus",
 "For every rule string of the form B<digits>/S<digits>, every grid and every initial pattern, after each synchronous step a cell is alive exactly when it was dead with a number of alive Moore neighbours in the birth list, or alive with a number in the survival list. The named variants are the rules they are named for.",
 ["inputs","histories"],"all rule strings (including empty lists, 0 and 8), all torus sizes from 3 upwards, rectangular ones included, all initial patterns, several steps",
 "The tests run a few standard patterns under the standard rules.",
 ["models/game_of_life/controller.py"],[("GameOfLifeController","models/game_of_life/controller.py"),("process_variant_string","models/game_of_life/controller.py")],["states of the run"])
p("C18","Growth fills background cells by majority and never overwrites occupied ones",
 "In a growth step, an occupied site keeps its phase, and a background site takes a phase that is most frequent among its non-background neighbours in the previous state (those drawn, if the neighbourhood is drawn anew at each query), or stays background when it has none. Growth from random seeds on a two- or three-dimensional grid, with any neighbourhood that contains the next cell along every axis, returns a simulation in which no background remains, only seeded phases occur, and every phase allotted at least one seed is present.",
 ["inputs","histories","schedules"],"all initial patterns, phase sets, background phases and neighbourhoods; all seeds, sizes and phase ratios of the growth setup",
 "The tests check one small pattern and that the setup runs.",
 ["models/growth/growth_controller.py","structures/square_grid/growth_setup.py"],[("GrowthController.get_state_update","models/growth/growth_controller.py"),("GrowthSetup.grow","structures/square_grid/growth_setup.py")],["states of the run, returned Simulation"])
p("C19","Deterministic grid setups place exactly the requested regions",
 "On 2D and 3D grids of any size, a solid setup fills every site with the phase; an interface gives the sites whose first coordinate is below half the size (rounded down) the first phase and all others the second; a particle setup gives exactly the sites strictly closer than the radius to the grid centre the particle phase and all others the bulk phase; a coordinate setup gives exactly the listed coordinates their phases and all others the background. Adding a particle to a state changes only the occupancy of sites strictly closer than the radius to its centre and nothing else.",
 ["inputs","configurations"],"all sizes, radii, centres, coordinate maps and phases in two and three dimensions",
 "The tests check a few cells of a few sizes.",
 ["structures/square_grid/grid_setup.py"],[("DiscreteGridSetup","structures/square_grid/grid_setup.py"),("PhaseSet","discrete/phase_set.py")],["returned Simulation / SimulationState"])
p("C20","Random grid setups respect counts, ratios, phases and spacing",
 "Random-site setup selects exactly the requested number of sites, gives each phase its share of them rounded down or up, leaves all others background, and keeps any two selected sites more than the buffer apart (in the Moore sense, on the torus), or raises RuntimeError when they cannot be placed. Noise assigns every site one of the given phases and can produce all of them; random particles are the requested number of balls of the given radius around random grid points (which may overlap, later ones on top), each filled with one of the given particle phases, on the bulk phase.",
 ["inputs","schedules"],"all sizes, counts, ratios, buffers, radii and phases in two and three dimensions, all random seeds",
 "The tests run one seedless case each and check totals.",
 ["structures/square_grid/grid_setup.py"],[("DiscreteGridSetup.setup_random_sites / setup_noise / setup_random_particles","structures/square_grid/grid_setup.py")],["returned Simulation"])
p("C21","State queries return exactly the matching sites",
 "An analyzer's site query returns the id of every site that meets all given criteria and, when a class is given, belongs to it, each once and no others; a query by values returns exactly the sites whose state holds all the given key-value pairs. Counts equal the number of ids the same query returns, and querying does not change the state. This holds with and without a structure attached.",
 ["inputs"],"all states, structures, site classes and criteria",
 "The tests query one small state with one criterion at a time.",
 ["core/analyzer.py"],[("StateAnalyzer","core/analyzer.py")],["returned lists and counts"])
p("C22","Phase counts and fractions match a direct count at every step",
 "For every state, the count, fraction, ratio and list of phases equal those of a direct count over its sites. For every result, at any time, the set of phases is that of all steps recorded so far including the last, the final fractions are those of the last step and sum to one, and the fraction at a step is that step's. The plotted traces show the true fraction at steps sampled evenly over the whole run (at every step of a run of up to 100), for exactly the phases whose largest sampled fraction exceeds the threshold, and the plotted phase counts are the numbers of different phases of each step.",
 ["inputs","histories"],"all states and results over any number of phases and steps, including phases that appear only in the last step, all thresholds",
 "The tests use results in which all phases are present from the start.",
 ["discrete/discrete_step_analyzer.py","discrete/discrete_state_result_analyzer.py"],[("DiscreteStepAnalyzer","discrete/discrete_step_analyzer.py"),("DiscreteResultAnalyzer","discrete/discrete_state_result_analyzer.py")],["returned numbers, figure data"])
p("C23","2D rendering paints each cell and legend entry in its phase's colour",
 "The image of a 2D grid state, the grid's sides equal or not, paints every pixel of a cell's square, with x to the right and y upwards from the bottom, in the colour the cell artist gives that cell's state, for every cell size. To its right the image shows one swatch per legend entry in sorted label order in that entry's colour with the label written next to it, and the image is large enough for the grid and all entries. Saving to a file stores the same image.",
 ["inputs","configurations"],"all grid sizes, cell sizes, states, colour maps and numbers of phases",
 "The tests compare pictures of one or two states.",
 ["visualization/square_grid_artist_2D.py","visualization/structure_artist.py","visualization/cell_artist.py"],[("SquareGridArtist2D","visualization/square_grid_artist_2D.py")],["pixels of get_img, saved file"])
p("C24","Every phase gets its own colour, consistently in cells and legend",
 "A discrete cell artist built from a list of up to thirty phases, from a state, or from a result assigns every phase that occurs a colour, and different phases different colours; the colour of a cell depends only on its phase under the artist's state key and is black for phases the artist does not know. The legend of a state lists exactly the phases that occur in it with the colours used for their cells, unless an explicit legend was given, which is then returned as it is. The colour map helper likewise gives each phase of its list a colour of its own.",
 ["inputs","histories"],"all phase lists up to thirty phases, all states and results (phases that appear only in the last step included), all state keys",
 "The tests use two or three phases.",
 ["visualization/cell_artist.py","visualization/colors.py","visualization/helpers.py"],[("DiscreteCellArtist","visualization/cell_artist.py"),("COLORS","visualization/colors.py")],["colours and legends returned"])
p("C25","An exported animation has one frame per drawn step, in order",
 "Exporting a result as an animation writes a file whose frames are, in order, the images of every draw-frequency-th step starting with the first (padded to a common size where their legends differ), each shown for the requested time and repeated without end, and leaves no other file behind and other files alone, however many frames there are. Playing a result in a notebook displays those images of every step in order, waiting the requested time after each, and showing one step displays that step's image.",
 ["inputs","schedules"],"all results, drawing frequencies, cell sizes and frame times, all orders in which the rendering processes finish",
 "The tests do not open the written animation.",
 ["visualization/result_artist.py"],[("ResultArtist.to_gif","visualization/result_artist.py")],["the written GIF, the working directory"])
p("C26","Conversion to and from pymatgen keeps lattice, species and positions",
 "Converting a lattice to pymatgen or back keeps its vectors and its per-axis periodicity. Converting a pymatgen structure gives, for every site, one site of that species at the same position (to three decimals, modulo the lattice), with the state holding the species there, and a builder that tiles it; converting a structure to pymatgen gives every site with its class as species at the same position, and a round trip preserves every structure whose sites hold one species each.",
 ["inputs","configurations"],"all three-dimensional lattices (triclinic included), periodicity flags, species and positions",
 "One test converts one hexagonal crystal.",
 ["atomic/pymatgen_struct_converter.py"],[("PymatgenStructureConverter","atomic/pymatgen_struct_converter.py")],["converted objects"])
p("C27","Distance maps and integer boxes are exact",
 "A Euclidean distance map gives for each offset its Euclidean length to two decimals, and a Manhattan map the sum of its absolute components, in any dimension, and none for an offset it was not made with; the plain distance of two points is Euclidean. The integer points in a box or cube are all integer points from the lower bound to below the upper bound along each axis, each exactly once.",
 ["inputs"],"all offsets and points in any dimension, all bounds including negative and empty ones",
 "The tests check two or three offsets and boxes.",
 ["core/distance_map.py","core/coordinate_utils.py"],[("DistanceMap","core/distance_map.py"),("get_points_in_box / get_points_in_cube","core/coordinate_utils.py")],["return values"])
p("C28","A simulation answers by location with the state of the site there",
 "Asking a simulation for the state at a location returns the state stored for the site at that location or at any of its periodic images, always up to date with the latest update of the state, and None where there is no site. A state created from a structure holds exactly one entry per site of the structure.",
 ["histories","inputs"],"all structures, locations, images and sequences of state updates",
 "The tests ask for two locations of one grid.",
 ["core/simulation.py","core/simulation_state.py","core/periodic_structure.py"],[("Simulation.state_at","core/simulation.py"),("SimulationState.from_struct","core/simulation_state.py")],["state_at"])
p("C29","3D rendering draws every cell as a cube in its phase's colour",
 "The image of a 3D grid state, the grid's sides equal or not, contains, for every cell, one opaque cube at the cell's position in the colour the cell artist gives that cell's state, and no opaque cube of any other colour. When only the shell is requested, all cells of the three visible faces (largest x, smallest y, largest z) are still drawn, in their own colours. The state is not changed, one artist can draw any number of states, and saving to a file stores the same image.",
 ["inputs","configurations"],"all grids, states, artists and colour maps, with and without shell_only",
 "The one test draws a picture and looks at nothing in it.",
 ["visualization/square_grid_artist_3D.py","visualization/structure_artist.py"],[("SquareGridArtist3D","visualization/square_grid_artist_3D.py")],["cubes given to the 3D axes, pixels of get_img, saved file"])
p("C30","A run can be continued from any of its recorded steps",
 "For every rule that depends on nothing but the state it is given, a synchronous run started from step n of a result records the same states as the steps after n of the one longer run, with the same or another runner and controller, serial or parallel, and also when that state was carried over by copying it, by saving and loading the result, or by saving and loading a simulation. The same holds for asynchronous runs whose controller chooses every site from the state alone, and for the built-in automata.",
 ["histories","inputs"],"all such rules, initial states, numbers of steps and interruptions (any number of them), all ways of carrying the state over",
 "The tests run every simulation once, from its start.",
 ["core/runner/base_runner.py","core/runner/synchronous_runner.py","core/runner/asynchronous_runner.py","core/simulation_result.py","core/simulation.py"],[("Runner.run","core/runner/base_runner.py"),("SimulationResult.get_step","core/simulation_result.py"),("Simulation.from_file","core/simulation.py")],["recorded steps of the continued run"])
p("C31","Random parts repeat when the random generators are seeded",
 "With Python's and numpy's random generators seeded, random setups (sites, noise, particles, and growth with a deterministic neighbourhood), sequences of queries of stochastic neighbourhoods, and serial or asynchronous runs that use them or the default random choice of sites give the same results every time, whatever was computed before, in the same or another Python process. Other seeds can give other results.",
 ["inputs","schedules"],"all seeds, sizes, phases and stochastic neighbourhoods, any work done before, any process (hash seed)",
 "The tests never seed a generator.",
 ["structures/square_grid/grid_setup.py","structures/square_grid/growth_setup.py","core/neighborhoods.py","core/basic_controller.py","core/runner"],[("DiscreteGridSetup","structures/square_grid/grid_setup.py"),("StochasticNeighborhood / Neighborhood.neighbors_of","core/neighborhoods.py"),("BasicController.get_random_site","core/basic_controller.py")],["returned states, neighbour lists and recorded steps"])
p("C32","An error in an update rule reaches the caller and spoils nothing",
 "When a controller raises in its update rule, choice of sites or preparation hooks, the run ends with that error (for parallel runs: an error of the same type and arguments), whatever its type and in whichever step, process or batch it occurs; no update is silently lost. The caller's initial state is unchanged, every step completed before is recorded as in a run without the error, no worker process is left behind, and the same runner can then run again with the results of a fresh one.",
 ["inputs","histories","fault_sequences"],"all rules, error types (StopIteration included), failing sites and steps, serial, parallel with any number of workers, and asynchronous runs",
 "In the tests no rule ever fails.",
 ["core/runner/base_runner.py","core/runner/synchronous_runner.py","core/runner/asynchronous_runner.py"],[("SynchronousRunner._take_step_parallel","core/runner/synchronous_runner.py"),("Runner.run","core/runner/base_runner.py")],["the exception, the initial state, the steps recorded, child processes, later runs"])
p("C33","Reloaded and copied structures behave as the original",
 "A structure that was saved and loaded (as a dictionary, as JSON text, inside a simulation file), deep-copied or pickled, any number of times, answers everything as the original does: the same neighbours with the same weights under every neighbourhood builder, the same sites per class, the same lookups, particle placement, automaton histories and images. Sites added afterwards get the same ids in both, and adding to one leaves the other alone.",
 ["inputs","configurations","histories"],"all structures, ways of duplicating them and neighbourhood builders",
 "The tests compare only the dictionaries of one or two reloaded structures.",
 ["core/periodic_structure.py","core/lattice.py","core/simulation.py","core/neighborhood_builders.py"],[("PeriodicStructure.from_dict","core/periodic_structure.py"),("Lattice.from_dict","core/lattice.py")],["neighbour lists, queries, runs and images on both"])
p("C34","What a caller passes in is left as it is",
 "No call changes the vectors, motifs, coordinates, phase lists and amounts, dictionaries, colour maps, states, results, structures or lattices it is given, unless changing that object is what the call is for (adding a site, setting or updating a state, adding or loading steps). The same arguments can therefore be used again for any other call.",
 ["inputs","histories"],"all public constructors, builders, setups, queries, runs, artists and converters, with arguments as tuples, lists or arrays, in any sequence sharing the same objects",
 "The tests build fresh arguments for every call.",
 ["core","discrete","structures","models","visualization","atomic"],[("SimulationState.from_dict","core/simulation_state.py"),("StructureBuilder / PeriodicStructure.build_from","core/periodic_structure.py"),("DiscreteGridSetup","structures/square_grid/grid_setup.py"),("Runner.run","core/runner/base_runner.py")],["the arguments after each call"])
p("C35","Coordinates may be tuples, lists, arrays or whole numbers alike",
 "Lattice vectors, motif vectors, site locations, offsets, probe points and particle centres mean the same whether they are given as tuples, lists, numpy arrays, rows of arrays or, where they are whole, as integers: the structures built, lookups, conversions, distances, neighbourhoods, distance maps, setups and answers by location are the same.",
 ["inputs","configurations"],"all coordinates and mixtures of forms",
 "The tests use one form per call, mostly tuples and lists.",
 ["core/lattice.py","core/periodic_structure.py","core/distance_map.py","core/neighborhood_builders.py","structures/square_grid/grid_setup.py","core/simulation.py"],[("PeriodicStructure.id_at","core/periodic_structure.py"),("DistanceMap.get_dist","core/distance_map.py"),("MotifNeighborhoodBuilder","core/neighborhood_builders.py")],["return values under both forms"])
p("C36","What one object was used for does not change what another answers",
 "Two pieces of work, each with structures, states and results of its own, answer every call in the same way whether each is done alone in a fresh process or their calls alternate in one process in any order. This holds also when they share tools (neighbourhood and structure builders, lattices, runners, setups, artists, analyzers, converters), however similar or different the structures are on which the tools are used.",
 ["histories","inputs","schedules"],"all pairs of similar pieces of work, all orders of their calls, all shared tools",
 "Each test uses its objects once and alone.",
 ["core","discrete","structures","models","visualization","atomic"],[("NeighborhoodBuilder.get","core/neighborhood_builders.py"),("StructureBuilder.build","core/structure_builder.py"),("Runner.run","core/runner/base_runner.py"),("DiscreteGridSetup","structures/square_grid/grid_setup.py"),("StateAnalyzer","core/analyzer.py"),("CellArtist / StructureArtist","visualization")],["return values of the calls of both pieces of work"])
p("C37","Numbering, origin, axes and choice of lattice vectors do not matter",
 "Adding the same sites in another order, shifting all of them, exchanging or reversing Cartesian axes, listing the lattice vectors in another order, or choosing other vectors for the same periodic lattice gives the same structure up to renaming: corresponding distances, lookups, sites per class, neighbours with their weights (distance, annular, motif and per-class builders, offsets turned alike), automaton histories and query answers. A pattern that is shifted, turned or reflected on a grid evolves (life-like automata, growth of one phase) and is drawn as the shifted, turned or reflected picture.",
 ["inputs","configurations","histories"],"all structures and their changes of description, all patterns and symmetries of the grid",
 "The tests look at one description of each structure.",
 ["core/periodic_structure.py","core/lattice.py","core/neighborhood_builders.py","core/runner","models","visualization/square_grid_artist_2D.py"],[("PeriodicStructure.add_site / site_at","core/periodic_structure.py"),("pbc_diff_cart","core/lattice.py"),("NeighborhoodBuilder.get","core/neighborhood_builders.py"),("GameOfLifeController","models/game_of_life/controller.py")],["answers under both descriptions"])
with open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
