#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=hook)))

NET = "include/network.hpp"; GEN = "include/network_generation.hpp"; MATH = "include/util/math.hpp"
ACT = "include/models/ActivityDrivenModel.hpp"; SIM = "include/simulation.hpp"; CFG = "src/config_parser.cpp"

prop("C01", "Network edits and direction changes keep exactly the intended weighted edges",
 "After any sequence of network operations the stored weighted edges are exactly those the operations call for: switching between incoming and outgoing storage keeps every edge and weight and flips the reported direction, transposing reverses every edge and keeps the reported direction, flipping only the direction flag leaves the lists untouched, and clearing removes every edge but no agent. "
 "Setting an agent's neighbours or weights, or appending one edge, changes that agent's list only, and an update with lists of different lengths is refused with an error and changes nothing. "
 "Per-agent and total edge counts, neighbour views and weight views always agree with each other, each neighbour keeping its own weight.",
 "histories inputs", "all operation sequences on a network (any size, edge lists, weights), including parallel edges, self loops and agents without edges",
 "test_network.cpp performs one fixed sequence on one random 20-agent graph; no test flips the direction twice, clears, transposes, or interleaves edits with direction changes.",
 [NET], [("adjacency + weight lists and the direction flag edited together", NET+": set_*/push_back/toggle_incoming_outgoing/transpose/switch_direction_flag/clear")],
 [("neighbour and weight lists", "the edges stored at every agent, in or out according to the flag", NET)],
 ["Network::get_neighbours / get_weights / direction / n_edges / n_agents"])

prop("C02", "Removing double counting merges parallel edges by summing their weights",
 "Removing double counting leaves, for every agent, exactly one edge to each neighbour it had before, ordered by neighbour index, whose weight is the sum of the weights of all its former parallel edges. "
 "No agent, neighbour or weight is lost or invented, agents do not affect each other, and applying it a second time changes nothing.",
 "inputs", "every network: any lengths and orders of neighbour lists, any multiplicity of parallel edges, empty lists, any weights",
 "One 5-agent example is tested; order-, multiplicity- and length-dependent faults (first/last run, runs of three, lists beyond the sort's small-size cutoff) are not reachable from it.",
 [NET], [("sort indices by neighbour, merge equal runs", NET+": remove_double_counting")], (),
 ["Network::get_neighbours / get_weights after the call"])

prop("C03", "Strongly connected components are exactly the mutual-reachability classes",
 "For every directed graph, the reported strongly connected components contain every agent exactly once, and two agents share a component if and only if each can reach the other along edges. "
 "The answer depends only on the graph: self loops, parallel edges, the order of neighbour lists and the storage direction do not change it.",
 "inputs", "all directed graphs, all neighbour orders, self loops and parallel edges",
 "test_tarjan.cpp checks a single 10-node graph; low-link mistakes need particular cross-edge/back-edge shapes.",
 ["include/connectivity.hpp", NET], [("Tarjan's algorithm with low-link values", "include/connectivity.hpp: depth_first_search")],
 (), ["Network::strongly_connected_components", "TarjanConnectivityAlgo::scc_list", "DeGrootModel's warning"])

prop("C04", "Generated networks have the requested connections and normalised weights",
 "A generated random network gives every agent exactly the requested number of distinct incoming neighbours other than itself (all other agents if there are fewer), plus exactly one edge from itself when self-interaction is requested, stored as incoming edges. "
 "A fully connected network gives every agent every agent, itself included, exactly once, with the requested constant weight or random weights. "
 "Random weights are non-negative and each agent's incoming weights sum to 1, and every choice of neighbours can occur.",
 "inputs schedules", "all agent counts, connection counts, self-interaction settings and all outcomes of the random draws",
 "The tests look at the edge count of one generated network and one constant-weight network; no test inspects self edges, distinctness, normalisation or the random fully connected generator.",
 [GEN, MATH], [("draw distinct neighbours, append self, divide by the row sum", GEN+": generate_n_connections, generate_fully_connected")],
 (), ["the returned Network"])

prop("C05", "Uniform selection draws distinct permitted indices, all subsets equally likely",
 "Selecting k of n indices yields min(k, number of permitted indices) pairwise distinct indices below n, never the excluded one, whatever the result buffer held before. "
 "Every permitted subset of that size is selected with the same probability.",
 "inputs schedules", "all n, k, excluded index (or none), prior buffer contents, and all outcomes of the random draws",
 "test_sampling.cpp samples one (k=6, n=100) case with a 5-sigma histogram and one excluded index in the middle of the range; it never checks distinctness, boundary exclusions, k near n or joint distribution.",
 [MATH], [("selection sampling over a skipping sequence", MATH+": draw_unique_k_from_n")], (), ["the result buffer"])

prop("C06", "Weighted selection draws distinct positive-weight indices with the right odds",
 "Weighted selection of k of n indices yields min(k, number of positive-weight indices) pairwise distinct indices below n, never one of weight zero, whatever the result buffer held before; k = 0 yields none. "
 "Selection probabilities are those of drawing one index at a time without replacement with probability proportional to weight.",
 "inputs schedules", "all n, k (also k >= n and k = 0), non-negative weight assignments, prior buffer contents, and all outcomes of the random draws",
 "The test only checks that two zero-weight indices far from the start are never selected (k=6, n=100) and leaves the distribution as a TODO; k=0, k>=n, zero weights inside the initial reservoir and the odds are untested.",
 [MATH], [("A-ExpJ weighted reservoir sampling", MATH+": reservoir_sampling_A_ExpJ")], (), ["the result buffer"])

prop("C07", "The square lattice is the periodic four-neighbour grid",
 "The square lattice of edge length L has L*L agents, and each agent's four neighbours are exactly the agents one step left, right, up and down with periodic wrap-around, every edge carrying the requested weight; hence neighbourhood is symmetric. "
 "A lattice-based bounded-confidence simulation is accepted exactly for agent counts that are square numbers and then runs on that lattice.",
 "inputs configurations", "all lattice edge lengths, weights and agent counts",
 "Only the 3x3 lattice's neighbour sets are tested; non-square counts, other sizes, weights and the model's use of the lattice are not run by any runnable test.",
 [GEN, "include/models/DeffuantModel.hpp"], [("wrap_edge_index/linear_index", GEN+": generate_square_lattice"), ("square check and lattice construction", "include/models/DeffuantModel.hpp: constructor")],
 (), ["the returned Network", "Simulation::network", "constructor exception"])

prop("C08", "DeGroot iterations replace each opinion by the weighted sum of prior opinions",
 "After one DeGroot iteration every agent's opinion equals the weighted sum of its incoming neighbours' opinions before the iteration; all agents update simultaneously and nothing but opinions changes. "
 "With non-negative incoming weights summing to one, opinions never leave the range of the previous opinions and a consensus never changes.",
 "inputs histories", "all networks and weights (also agents without neighbours, self weights, parallel edges), all opinions, any number of iterations",
 "One symmetric 2-agent network is run to convergence; asynchronous updates, wrong neighbour/weight pairing or lost terms converge to the same 0.5 there.",
 ["src/models/DeGroot.cpp", "include/models/DeGroot.hpp"], [("second agent buffer, then copy back", "src/models/DeGroot.cpp: iteration")],
 [("double buffer of agents", "next opinions computed from the current ones", "src/models/DeGroot.cpp")], ["network.agents after iteration()"])

prop("C09", "Bounded-confidence interactions conserve the mean and respect the threshold",
 "Each interaction of the scalar bounded-confidence model involves two agents and, only if their opinions differ by strictly less than the threshold, moves each towards the other by the convergence parameter times the difference; otherwise nothing changes, and no other agent changes. "
 "One iteration performs as many interactions as there are agents; without a network any two different agents may be chosen, all pairs equally likely, and on the lattice only lattice neighbours interact and every neighbouring pair can. "
 "Hence the sum of opinions is conserved and opinions never leave their initial range.",
 "inputs schedules histories", "all opinions, thresholds, convergence parameters in [0,1], agent counts, and all outcomes of the random pair choices over any number of iterations",
 "The only tests (not runnable in this build) use two agents or end states of a long run; pair choice, exact-threshold behaviour and conservation are never examined.",
 ["include/models/DeffuantModel.hpp", "src/models/DeffuantModel.cpp", MATH], [("pair selection and symmetric update", "include/models/DeffuantModel.hpp: select_interacting_agent_pair, iteration; src/models/DeffuantModel.cpp: update_rule")],
 (), ["network.agents after iteration()"])

prop("C10", "Vector bounded-confidence interactions only copy disputed components",
 "In the binary-vector bounded-confidence model every opinion keeps the configured dimension and every component is always 0 or 1. "
 "An interaction of two agents changes something only if they differ in strictly fewer components than the threshold; then components they agree on stay, each component they disagree on becomes equal for both, and no other agent changes. "
 "With a convergence parameter below one, either agent's value can prevail for any disputed component.",
 "inputs schedules histories", "all binary vectors and dimensions, thresholds, convergence parameters, agent counts and all outcomes of the random draws",
 "One (not runnable) test with two agents in three dimensions and one differing component; partial copies, dimension changes, threshold boundary and third-party changes are invisible to it.",
 ["src/models/DeffuantModelVector.cpp", "include/models/DeffuantModel.hpp", MATH], [("Hamming distance gate and component-wise copying", "src/models/DeffuantModelVector.cpp: update_rule")],
 (), ["network.agents after iteration()"])

prop("C11", "Activity-driven networks contain exactly the drawn contacts and reciprocations",
 "In every iteration of the (non-mean-field) activity-driven models the network is drawn afresh: each agent that becomes active, with probability equal to its activity, contacts exactly its number of contacts (its own for bots), or all others if fewer, distinct other agents, preferring similar opinions according to its homophily; an inactive agent contacts nobody. "
 "A contact that is not already mutual is returned with probability equal to the reciprocity, and there are no other edges: no self edges, no duplicates, nothing left from earlier iterations. "
 "Every edge has weight 1 and is stored as incoming at the contacted agent.",
 "inputs schedules histories configurations", "all activities, contact counts, reciprocities, homophilies, bots, opinions, agent counts and all outcomes of the random draws, over any number of iterations",
 "No runnable test draws a contact network; the others use two agents with activity and reciprocity one, where nearly every fault (stale edges, wrong direction, double reciprocation, bot parameters) is invisible.",
 [ACT, MATH, NET], [("activation, weighted reservoir sampling, reciprocal edge buffer, direction switches", ACT+": update_network_probabilistic, homophily_weight")],
 [("reciprocal edge buffer", "contacts of this iteration", ACT)], ["Simulation::network after each iteration"])

prop("C12", "Activity-driven opinions follow RK4 steps of the dynamics; bots stay fixed",
 "In each iteration every non-bot agent's opinion advances by one classical fourth-order Runge-Kutta step of length dt of dx_i/dt = -x_i + (K / reluctance_i) * sum_j w_ij tanh(alpha x_j) over the network of that iteration, all agents simultaneously. "
 "Every bot's opinion equals its configured opinion from the start and after every iteration, and activities and reluctances never change.",
 "inputs histories configurations", "all opinions, reluctances, networks, parameters and bot sets, over any number of iterations",
 "The (not runnable) tests compare long-run results for one or two agents against analytic solutions with 1e-4/1e-5 tolerances, which lower-order steps, swapped stages or ignored per-agent data also meet.",
 [ACT, "src/models/ActivityDrivenModel.cpp"], [("four slope buffers and the weighted update", "src/models/ActivityDrivenModel.cpp: iteration"), ("slopes", ACT+": get_euler_slopes")],
 (), ["network.agents after each iteration"])

prop("C13", "Mean-field weights equal the contact and reciprocation probabilities",
 "In mean-field mode the network stays fully connected and, in every iteration, the weight with which agent i hears agent j is the probability p_ji that j contacts i plus (1 - p_ji) times the reciprocity times p_ij; an agent never hears itself. "
 "Here p_ij is the activity of i times the probability that j is picked in i's contact rounds, every round picking j with its normalised homophily weight at the current opinions unless j was picked in the round before (own contact count and homophily for bots). "
 "The weights depend on nothing but the current opinions and settings.",
 "inputs histories configurations", "all opinions, activities, contact counts, homophilies, reciprocities, bots, agent counts and iterations",
 "The only (not runnable) test uses zero homophily and identical agents and looks at growth or decay of opinions; asymmetric weights, accumulation across iterations, bots and activities are not examined.",
 [ACT], [("contact probabilities, reciprocity and reset of the weights", ACT+": update_network_mean")],
 [("contact probability table", "p_ij of this iteration", ACT)], ["Simulation::network weights after each iteration"])

prop("C14", "Inertial opinions follow one velocity-Verlet step with friction; bots stay fixed",
 "In each iteration of the inertial model every agent's opinion becomes x + v dt + (F - mu v) dt^2 / 2 and its velocity becomes (v + dt (F - mu v + F') / 2) / (1 + mu dt / 2), where F and F' are the activity-driven forces of the iteration's network at the old and at the new opinions of all agents and mu is the friction. "
 "Bots are then put back to their configured opinion, which they therefore show before and after every iteration; activities and reluctances never change.",
 "inputs histories configurations", "all opinions, velocities, reluctances, networks, parameters and bot sets, over any number of iterations",
 "One (not runnable) test compares a single agent next to one bot with an analytic solution at 1e-5; mixed-up buffers, ordering of position and velocity updates and several interacting agents are not covered.",
 ["src/models/InertialModel.cpp", "include/models/InertialModel.hpp", ACT], [("drift buffers, position then velocity", "src/models/InertialModel.cpp: calc_position, calc_velocity, iteration")],
 (), ["network.agents after each iteration"])

prop("C15", "Initial agents respect the configured distributions and bot overrides",
 "A freshly created activity-driven or inertial simulation has opinions within [-1,1], activities distributed as the configured power law within [eps,1] (all equal to its mean value in mean-activity mode), and reluctances of exactly 1 unless enabled, in which case they follow the configured truncated normal and are at least its lower bound; inertial agents start at rest. "
 "Bots have exactly their configured opinion and activity. "
 "DeGroot and scalar bounded-confidence agent i of n starts at i/n, and vector agents start with uniformly random binary vectors of the configured dimension.",
 "inputs schedules configurations", "all settings (eps <= 1) and agent counts, and all outcomes of the random draws including extreme ones",
 "No test inspects initial agents except two bot opinions; range ends, coupling between activity and reluctance and per-agent coverage depend on random draws.",
 [ACT, "src/models/DeGroot.cpp", "src/models/DeffuantModel.cpp", "src/models/DeffuantModelVector.cpp", MATH], [("copula draw per agent, overrides", ACT+": get_agents_from_power_law"), ("initial opinions", "src/models/*.cpp: constructors, initialize_agents")],
 (), ["Simulation::network.agents after construction"])

prop("C16", "Network files read back to the same network",
 "Writing any network to a file and generating a network from that file yields the same number of agents and, for every agent, the same incoming neighbours in the same order with bit-identical weights, for all finite weights; every row of the written file starts with the index of its agent. "
 "Reading ignores comment lines and spaces around values and does not depend on a final newline.",
 "inputs", "all networks stored as incoming edges (any size, agents without neighbours anywhere, parallel and self edges) and all finite weights; all spacing/comment variants of a file",
 "The test reads one hand-written 3-agent file and never writes one.",
 ["include/network_io.hpp", GEN, "include/util/misc.hpp"], [("row format with shortest round-trip numbers", "include/network_io.hpp: network_to_file"), ("row parser", GEN+": generate_from_file")],
 (), ["the file and the Network read back"])

prop("C17", "Agent files read back to the same agents",
 "For every agent type, writing the agents to a file and reading the file back yields the same number of agents in the same order, every stored attribute (opinion or opinion vector, velocity, activity, reluctance) bit-identical for all finite values; every row of the written file starts with the index of its agent. "
 "Reading ignores comment lines and spaces around values and does not depend on a final newline, and an activity agent without a reluctance column gets reluctance 1.",
 "inputs", "all agent types, counts, finite attribute values, vector dimensions >= 1; all spacing/comment variants of a file",
 "The test reads one hand-written file of one agent type and never writes one; inertial, simple and vector agents are never read.",
 ["include/agent_io.hpp", "include/agents/activity_agent.hpp", "include/agents/inertial_agent.hpp", "include/agents/simple_agent.hpp", "include/agents/discrete_vector_agent.hpp", "include/util/misc.hpp"],
 [("to_string/from_string pair per agent type", "include/agents/*.hpp"), ("file row format and parser", "include/agent_io.hpp")], (), ["the file and the agents read back"])

prop("C18", "A run writes exactly the configured output files with the state of that step",
 "With start_numbering_from = s, a run writes the initial network and opinion files numbered s if and only if initial output is on, and, after each iteration i >= start_output that is a multiple of n_output_agents (n_output_network), an opinion (network) file numbered s + i, and no other files; an unset interval means none. "
 "Every file holds the agents or network exactly as they are after that iteration, initial files the state before the first one. "
 "Printing progress or writing output never alters the simulation.",
 "configurations histories", "all combinations of the output settings, iteration counts and models",
 "The one (not runnable) test that runs with output only checks that the directory is not empty.",
 [SIM, "include/agent_io.hpp", "include/network_io.hpp"], [("output conditions in the main loop", SIM+": run")], (), ["the output directory after run()"])

prop("C19", "A run stops exactly at its iteration limit or at DeGroot convergence",
 "With an iteration limit a run performs exactly that many iterations, except that a DeGroot run stops after the first iteration whose largest opinion change is below the convergence tolerance; without a limit a DeGroot run ends at that iteration and no other model stops by itself. "
 "The reported iteration count is the number performed in this run, and running the same simulation again starts counting from zero.",
 "configurations histories inputs", "all models, iteration limits (also 0), tolerances, networks, opinions and repeated runs",
 "The DeGroot test only loops until finished; no test checks the number of iterations, limit 0, the first-converged iteration or repeated runs.",
 ["include/model.hpp", "src/models/DeGroot.cpp", SIM], [("iteration counter and finished()", "include/model.hpp; src/models/DeGroot.cpp: finished"), ("main loop", SIM+": run")],
 [("iteration counter", "iterations performed in this run", "include/model.hpp")], ["Model::n_iterations / finished, state after run()"])

prop("C20", "Every configuration key reaches its setting; missing keys take the defaults",
 "Parsing a configuration file sets, for the selected model, every setting whose key is present to the given value and every other setting to its documented default, independently of which other keys are present; keys of other models' sections have no effect. "
 "Bot lists are taken over element by element (integers or decimals), and absent lists become one default value per bot: the general contact count and homophily, opinion 0. "
 "An unknown or missing model name, or a file that is not valid TOML, is reported as an error.",
 "configurations", "all models, all subsets of keys and value combinations",
 "config_parser.cpp is not even compiled by the runnable test build; the other tests parse eight fixed files.",
 [CFG, "include/config_parser.hpp"], [("set_if_specified per key", CFG+": parse_config_file, parse_activity_settings")], (), ["Config::parse_config_file result"])

prop("C21", "Validation accepts exactly the configurations within the documented ranges",
 "Validation rejects a configuration with an error if and only if some setting of the selected model or of the output is outside its permitted range: start_output and set output intervals positive; dt, eps and the reluctance mean, width and bound positive; contact count, alpha, reciprocity, friction and convergence tolerance not negative; gamma above 2; covariance within [-1,1]; bot lists at least as long as the number of bots; confidence threshold positive; convergence parameter within [0,1]; vector dimension positive, and 1 unless binary vectors are used. "
 "Settings of models that are not selected are never consulted.",
 "configurations", "all settings values around every bound, in all combinations",
 "validate_settings is never called by any test.",
 [CFG], [("check() per setting", CFG+": validate_settings")], (), ["exception or not from Config::validate_settings"])

prop("C22", "A seeded simulation is reproducible and independent of everything run before it",
 "Two simulations created from the same configuration and seed have identical initial states and produce identical opinions, networks and output files at every step. "
 "This holds whatever other simulations were created or run earlier in the process or are being stepped alternately with it, and whatever the memory they are built in held before; different seeds give different random draws.",
 "histories schedules configurations", "all configurations and seeds, all sequences of simulations in one process, all interleavings of stepping two simulations",
 "No test runs any configuration twice or two simulations in one process and compares them.",
 [SIM, ACT, "include/models/DeffuantModel.hpp", GEN, MATH], [("one engine per simulation, passed by reference, seeded from the configuration", SIM+": constructor")],
 [("random engine", "the only source of randomness of a simulation", SIM)], ["Simulation::network over time, output directories"])

prop("C23", "A run restarted from its output files continues exactly as if never interrupted",
 "Starting a new simulation from the network and opinion files written at any step, with the same settings and the same subsequent random draws, reproduces the remaining steps of the original run: all agents' attributes and the network after every later step are the same. "
 "Agents given in a file replace the model's own initial agents completely, for every model, and a network file given as an argument takes precedence over one named in the settings.",
 "crash_points configurations", "all models, all steps at which the run is cut, all outcomes of the random draws",
 "No test starts a simulation from files, let alone compares it with an uninterrupted run.",
 [SIM, "include/agent_io.hpp", "include/network_io.hpp", GEN], [("agents and network files override generated ones", SIM+": create_network, create_model")], (), ["Simulation::network at every step of the restarted run"])

prop("C24", "Sampling distributions' density, inverse CDF and mean describe one distribution",
 "For every parameter choice the inverse cumulative distribution function of the power law (on [eps,1]) and of the truncated normal (from its bound upwards) is non-decreasing, maps [0,1] into the support, and inverts the integral of the distribution's density; the power law's mean value is the mean of that distribution. "
 "The bivariate normal has standard normal marginals with the given covariance, and the copula couples its two distributions with that dependence while keeping each one's marginal.",
 "inputs schedules", "all permitted parameters and quantiles, and all outcomes of the random draws",
 "Test_Prob only writes samples to files and asserts nothing.",
 [MATH], [("closed forms", MATH+": power_law_distribution, truncated_normal_distribution, bivariate_normal_distribution, bivariate_gaussian_copula")], (), ["pdf / inverse_cdf / mean / operator()"])

prop("C25", "The inverse error function inverts the error function on its whole domain",
 "For every x strictly between -1 and 1, in single and double precision, the error function of erfinv(x) is x up to rounding, also arbitrarily close to the ends; erfinv is odd and non-decreasing up to rounding. "
 "It is plus and minus infinity at 1 and -1 and not-a-number outside.",
 "inputs", "all representable arguments",
 "No test calls erfinv directly; the regions near +-1 use separate coefficient tables.",
 ["include/util/erfinv.hpp"], [("three rational approximations", "include/util/erfinv.hpp: erfinv")], (), ["Math::erfinv"])

prop("C26", "List splitting and Hamming distance are exact for every input",
 "Splitting a comma-separated string passes on each entry once, in order, numbered from zero, and each entry is exactly the text between its commas (possibly empty). "
 "The Hamming distance of two equally long vectors is the number of positions at which they differ, and vectors of different lengths are refused with an error.",
 "inputs", "all strings and all pairs of vectors",
 "One string is split with callbacks that ignore trailing text, and one pair of vectors is compared.",
 ["include/util/misc.hpp", MATH], [("find/substr loop", "include/util/misc.hpp: parse_comma_separated_list"), ("element-wise comparison", MATH+": hamming_distance")], (), ["callback arguments, return value"])

prop("C27", "DOT export lists exactly the network's edges",
 "Exporting any network to a DOT file produces a digraph block with exactly one line per agent, in order, naming the agent and all of its neighbours in order, also for agents with no neighbours or only one.",
 "inputs", "all networks",
 "No test calls the DOT export.",
 ["include/network_io.hpp"], [("row assembly", "include/network_io.hpp: network_to_dot_file")], (), ["the written file"])

prop("C28", "Accepted configurations run without memory errors and with finite opinions",
 "Every configuration that passes validation with moderate parameter values, whatever its agent, connection, contact and bot counts relative to each other, and with or without network and agent files, is either refused with an error when the simulation is created or runs without invalid memory access, arithmetic trap or hang, keeping one list of edges per agent, valid neighbour indices and finite opinions.",
 "configurations schedules", "all models, counts (0, 1, more connections or contacts than agents, more bots than agents, agent files of another length), and all outcomes of the random draws",
 "The tests use ample agent counts and are not run under sanitizers.",
 [SIM, ACT, "include/models/DeffuantModel.hpp", GEN, MATH, CFG], [("size checks at construction", SIM+"; "+ACT), ("bounded sampling", MATH)], (), ["sanitizer reports, exceptions, Simulation::network"])

prop("C29", "The command line runs the configured model with the given files and folder",
 "The seldon command runs the model named in the configuration file with its settings, takes the network and the initial agents from the files given on the command line in place of generated ones, and writes its output files into the given output folder, creating it if necessary, with the same contents as the library run of the same configuration. "
 "A missing argument, an unreadable file or a configuration that fails validation makes it exit with a non-zero status without running.",
 "configurations", "all models and combinations of command-line options",
 "The executable cannot be linked in the test build and no test runs it.",
 ["src/main.cpp", SIM], [("option handling and model dispatch", "src/main.cpp: main")], (), ["exit status, output folder"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
