import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=["gerrychain/"+f for f in files],state=state or [],mechanism=[dict(name=a,where="gerrychain/"+b) for a,b in mech],observe_at=obs or [],hook_needed=None)))
I="inputs";H="histories";C="configurations";S="schedules"
p("C01","A plan is always an exact partition of the graph's nodes",
"Every partition object, whether built from a dict, a node attribute or another assignment, or reached by any sequence of flips to existing districts, assigns every graph node to exactly one district: the node-to-district mapping and the district-to-nodes sets are inverse to each other and cover exactly the graph's nodes. An assignment whose keys are not exactly the graph's nodes, or level sets that overlap, are rejected with an exception.",
[I,H],"all graphs, all assignments, all finite flip histories (including flips to the current district and districts that become empty)",
"Tests build a few fixed 3x3/6x6 plans and one or two flips; inverse consistency has to survive every flip history.",
["partition/partition.py","partition/assignment.py","updaters/flows.py"],
[("Assignment.__init__/from_dict/update_flows","partition/assignment.py"),("flows_from_changes","updaters/flows.py"),("Partition._first_time/_from_parent","partition/partition.py")],
[dict(name="Assignment.parts / Assignment.mapping",meaning="two representations that must be inverse",where="gerrychain/partition/assignment.py")],["partition.assignment","partition.parts"])
p("C02","A flip changes exactly the flipped nodes and nothing else",
"Flipping a plan yields a new plan in which each flipped node has its new district and every other node keeps its old one, on the same graph, with the old plan as parent. The old plan, its siblings made from the same parent, and their districts and cached results stay exactly as they were.",
[I,H],"all plans, all flip dictionaries to existing districts, several children of one parent created in any order",
"Tests flip one plan once; frame conditions over siblings and grandchildren are not sampled.",
["partition/partition.py","partition/assignment.py","updaters/flows.py"],
[("Partition.flip/_from_parent","partition/partition.py"),("Assignment.copy/update_flows","partition/assignment.py"),("flows_from_changes","updaters/flows.py")],None,["partition.flip"])
p("C03","Updater results belong to one plan and do not depend on when they are read",
"The value read for an updater on a plan is what that updater computes for that plan: it is computed at most once per plan, reading it repeatedly, late, or after other plans were read gives the same value, and reading or creating other plans never changes it. Partitions given their own updaters do not change the updaters a caller passed in, and reading an unknown name raises KeyError.",
[H,S],"all interleavings of creating plans and reading updaters on them, along chains whose parent links are cut",
"Each test reads updaters in one order on one or two plans; stale caches or shared mutable results appear only under particular read orders.",
["partition/partition.py","updaters/flows.py","updaters/locality_split_scores.py","grid.py"],
[("Partition.__getitem__ and _cache","partition/partition.py"),("new_values = previous.copy() in on_flow/on_edge_flow","updaters/flows.py")],
[dict(name="Partition._cache",meaning="per-plan memo of updater values",where="gerrychain/partition/partition.py")],["partition[...]"])
p("C04","Cut edges are exact at every step",
"On every plan in every flip history, the cut edges are exactly the graph edges whose endpoints lie in different districts, each once, as a sorted node pair, and the cut edges grouped by district list for each district exactly the cut edges with an endpoint in it.",
[I,H],"all graphs (including self-loop-free graphs with any orderable labels), all plans and flip histories with any number of simultaneously flipped nodes",
"Incremental updates are compared with recomputation only on a handful of flips; multi-node flips whose endpoints both move between districts are rarely sampled.",
["updaters/cut_edges.py","updaters/flows.py"],
[("cut_edges/new_cuts/obsolete_cuts","updaters/cut_edges.py"),("cut_edges_by_part, put_edges_into_parts","updaters/cut_edges.py"),("neighbor_flips, compute_edge_flows, on_edge_flow","updaters/flows.py")],None,["partition['cut_edges']","partition['cut_edges_by_part']"])
p("C05","District tallies equal the sum over the district's nodes",
"On every plan in every flip history, a tally of one or several node columns (or of an external node-to-value mapping) gives for each district exactly the sum of those values over the nodes the district contains, nodes whose value is NaN counting as nothing.",
[I,H],"all graphs, integer/rational node data, field lists, plans and flip histories, including swaps between districts in one flip and one tally used on several graphs",
"Tests tally constant or random data for one flip; drift accumulates only over histories and with specific flows.",
["updaters/tally.py","updaters/flows.py"],
[("Tally._initialize_tally/_update_tally, compute_in_flow/compute_out_flow","updaters/tally.py"),("DataTally","updaters/tally.py"),("on_flow, flows_from_changes","updaters/flows.py")],None,["partition[alias]"])
p("C06","Boundary lengths, perimeters and Polsby-Popper scores are exact",
"On every plan in every flip history, a district's exterior boundary is the sum of the boundary lengths of its nodes on the outer boundary, its interior boundary is the sum of the shared lengths of its cut edges, its perimeter is the sum of the two, and the set of outer-boundary nodes of each district is exact. Its Polsby-Popper score is 4*pi*area/perimeter^2 (NaN when the perimeter is 0).",
[I,H],"all graphs with node/edge geometry data, all plans and flip histories",
"Tests use unit grids with symmetric lengths, where adding and removing the wrong side cancels.",
["updaters/compactness.py","updaters/flows.py","metrics/compactness.py"],
[("exterior_boundaries, interior_boundaries, perimeter","updaters/compactness.py"),("on_flow/on_edge_flow","updaters/flows.py"),("polsby_popper","metrics/compactness.py")],None,["partition['perimeter']","partition['polsby_popper']"])
p("C07","County split reports match the plan",
"For every plan, the county report lists for each county all its nodes and exactly the districts those nodes lie in; a county with one district is NOT_SPLIT, and a county with several is OLD_SPLIT if it was already split in the parent plan (or there is no parent) and NEW_SPLIT otherwise. The number of split regions reported per region column is the number of regions that contain a cut edge, and the no-new-splits constraint accepts a plan exactly when no county is NEW_SPLIT.",
[I,H],"all graphs, county columns, plans and flip histories",
"Tests use one 3x3 grid with three counties and a few flips.",
["updaters/county_splits.py","constraints/validity.py"],
[("compute_county_splits","updaters/county_splits.py"),("total_reg_splits","updaters/county_splits.py"),("refuse_new_splits","constraints/validity.py")],None,["county_splits updater","tally_region_splits updater"])
p("C08","Locality split scores follow their definitions",
"For every plan and locality column of the graph, the split-score updater returns: number of (district, locality) intersections, number of localities in more than one district, number of connected pieces of those intersections, number of cut edges inside one locality, and the documented Shannon, power and symmetric entropies of the intersections.",
[I,H],"all graphs, locality and population columns (string or not), plans, score subsets and flip histories",
"Tests check two plans of one grid.",
["updaters/locality_split_scores.py"],
[("LocalitySplits.__call__ and score methods","updaters/locality_split_scores.py")],None,["LocalitySplits updater"])
p("C09","Election results equal the votes in each district",
"For every plan in every flip history, an election updater reports for each party and district exactly the sum of the party's votes over the district's nodes, district totals as the sum over parties, percents as count/total (NaN for a district without votes), statewide count and percent accordingly, in the plan's district order. A party wins a district exactly when it has strictly more votes there than every other party, and its seats are the number of districts it wins.",
[I,H],"all elections (dict or list form, any number of parties), plans and flip histories, including ties and empty districts of votes",
"Tests use two parties on a 3x3 grid with one flip.",
["updaters/election.py","updaters/tally.py"],
[("ElectionUpdater/ElectionResults/get_percents","updaters/election.py"),("DataTally","updaters/tally.py")],None,["partition[election]"])
p("C10","Partisan metrics follow their definitions",
"For every two-party election result with votes in each district, wasted votes, efficiency gap, mean-median, mean-thirdian, partisan bias and partisan Gini equal their published definitions for the first listed party; swapping the two parties negates the efficiency gap and leaves the Gini unchanged when no district is tied.",
[I],"all vote counts with positive district totals and any number of districts",
"Tests check a few symmetric examples where sign or index errors vanish.",
["metrics/partisan.py","updaters/election.py"],
[("wasted_votes/efficiency_gap/mean_median/mean_thirdian/partisan_bias/partisan_gini","metrics/partisan.py")],None,["gerrychain.metrics"])
p("C11","The Markov chain only visits valid, accepted, consecutive states",
"Iterating a chain with total_steps >= 1 yields exactly total_steps states: first the initial state, then each state is either the previous state itself or a proposal made from it that satisfied every constraint and was accepted; invalid proposals are discarded without using up a step. Re-iterating starts over from the initial state, and an initial state that violates the constraints (at construction or when constraints are replaced) is refused with ValueError and changes nothing.",
[H,S,C],"all proposal, constraint and acceptance functions and step counts",
"Tests run one fixed proposal with trivial constraints; rejection patterns and restarts are not sampled.",
["chain.py","constraints/validity.py"],
[("MarkovChain.__init__/__iter__/__next__/constraints setter","chain.py"),("Validator.__call__","constraints/validity.py")],
[dict(name="MarkovChain.state/counter",meaning="current state and number of yielded states",where="gerrychain/chain.py")],["iter(chain)"])
p("C12","Validators and bound constraints decide exactly their stated condition",
"A validator accepts a plan exactly when every constraint returns true (stopping at the first false) and raises TypeError on a non-boolean answer. Bounds, upper and lower bounds accept exactly the plans whose values lie within the inclusive bounds; a self-configuring or percent-range bound fixes its limits at its first call and never moves them afterwards, whatever their value.",
[I,H],"all constraint functions, bounds and call histories, including bounds equal to zero",
"Tests call each bound once or twice with positive values.",
["constraints/bounds.py","constraints/validity.py"],
[("Bounds/UpperBound/LowerBound/SelfConfiguring*/WithinPercentRangeOfBounds","constraints/bounds.py"),("Validator","constraints/validity.py")],None,["constraint(partition)"])
p("C13","Population and district-existence constraints are exact",
"The percent-of-ideal population constraint built from a plan accepts exactly the plans whose every district population lies within the given fraction of that plan's average district population, inclusive; deviations from ideal are (population - average)/average; the tolerance check accepts exactly when max - min is at most the given fraction (percent when >= 1) of the minimum. The no-vanishing-districts constraint rejects exactly the flipped plans with an empty district.",
[I],"all plans, populations and tolerances",
"Tests use equal or nearly equal populations, far from the limits.",
["constraints/validity.py","constraints/bounds.py"],
[("within_percent_of_ideal_population/deviation_from_ideal/districts_within_tolerance/no_vanishing_districts","constraints/validity.py")],None,["constraint(partition)"])
p("C14","Contiguity constraints are exact",
"For every plan without empty districts, both full contiguity checks accept a plan with no parent exactly when every district is connected, and a flipped plan exactly when every district touched by the flip is connected; the count of contiguous districts and the per-district components are exact. For a flip of one node out of a connected district with more than one node, the single-flip check accepts exactly when the district the node left is still connected.",
[I,H],"all graphs, plans and flips, independent of the random start node",
"Tests try a few hand-made shapes; rings, multi-component districts and unlucky random starts are not covered.",
["constraints/contiguity.py","partition/subgraphs.py"],
[("contiguous/contiguous_bfs/_bfs/affected_parts","constraints/contiguity.py"),("single_flip_contiguous/are_reachable","constraints/contiguity.py"),("SubgraphView","partition/subgraphs.py")],None,["constraint(partition)"])
p("C15","The balanced-cut search finds exactly the balanced edges of a tree",
"For every tree with node populations, target and tolerance, and whatever root is drawn, both cut-search algorithms return one cut per tree edge whose removal leaves both sides within tolerance of the target (one-sided search: every returned side is within tolerance, and the default search returns a cut for each edge with a qualifying side). Each cut's subset is exactly one side of its edge and its edge is an edge of the tree.",
[I],"all trees with at least one internal node, populations, targets, tolerances and roots",
"Tests check counts on a few trees.",
["tree.py"],
[("find_balanced_edge_cuts_memoization/_contraction, _calc_pops, _part_nodes, PopulatedGraph","tree.py")],None,["find_balanced_edge_cuts_*"])
p("C16","Tree bipartition returns a connected, balanced piece",
"For every connected graph of at least three nodes, the tree bipartition routines return either nothing/an error or a node subset that is connected, whose complement is connected, and whose population is within the tolerance of the target; in two-sided mode the complement's population is within tolerance as well. They only fail with the documented errors (no cut within the allowed attempts), and cut-choice rules always pick one of the offered cuts, of maximal weight among those crossing the preferred regions.",
[I,S],"all connected graphs, populations, tolerances, random choices, attempt limits, one- and two-sided mode, region surcharges",
"Tests draw a few random bipartitions of small grids.",
["tree.py"],
[("bipartition_tree/bipartition_tree_random/_bipartition_tree_random_all","tree.py"),("_max_weight_choice/_region_preferred_max_weight_choice","tree.py"),("random_spanning_tree/uniform_spanning_tree","tree.py")],None,["bipartition_tree*"])
p("C17","ReCom proposals re-split exactly two adjacent districts, within tolerance",
"A ReCom, reversible ReCom or spectral ReCom proposal differs from the current plan only inside two adjacent districts, whose union is re-split between the same two labels. For ReCom and reversible ReCom with a valid bipartition method both new districts are non-empty, connected and within the population tolerance of the target (reversible ReCom may return the unchanged plan: it re-splits with probability number of balanced cuts / bound, and refuses with an error when more balanced cuts than its bound are found).",
[I,S],"all plans, populations, tolerances, methods and random draws",
"Tests run a few steps and look at the population only.",
["proposals/tree_proposals.py","proposals/spectral_proposals.py","tree.py"],
[("recom/reversible_recom/ReCom","proposals/tree_proposals.py"),("spectral_recom/spectral_cut","proposals/spectral_proposals.py"),("epsilon_tree_bipartition","tree.py")],None,["recom(partition,...)"])
p("C18","Seed plans are complete, balanced and connected",
"The recursive seed constructors and the random initial plan built from them assign every node of a connected graph exactly one of the given labels, use every label, and give every district a connected node set with population within the tolerance of the target, or else raise an error. The seed splitter's chunk count is the largest prime factor not above the given ceiling.",
[I,S],"all connected graphs, label lists, populations, tolerances and conforming bipartition methods",
"Tests build a few seeds on small grids with equal populations.",
["tree.py","partition/partition.py"],
[("recursive_tree_part/recursive_seed_part/recursive_seed_part_inner/get_seed_chunks/get_max_prime_factor_less_than","tree.py"),("Partition.from_random_assignment","partition/partition.py")],None,["recursive_tree_part","Partition.from_random_assignment"])
p("C19","Flip proposals move boundary nodes into a neighboring district",
"The boundary flip proposals change only nodes with a neighbor in another district, each to the district of such a neighbor (as seen in the current plan); single-node variants change exactly one node, the chunk variant moves exactly the neighbors of one boundary node that lie in other districts into its district, and the every-district variant makes one such flip per district with cut edges. Every boundary flip can be proposed, and a plan without cut edges is returned unchanged by the plain flip proposal.",
[I,S],"all plans and random draws",
"Tests check that a proposal returns a plan.",
["proposals/proposals.py"],
[("propose_random_flip/propose_chunk_flip/propose_flip_every_district/slow_reversible_propose/slow_reversible_propose_bi/propose_any_node_flip","proposals/proposals.py")],None,["proposal(partition)"])
p("C20","Acceptance rules and annealing schedules follow their definitions",
"The cut-edge rule accepts a proposed plan with probability min(1, parent cut edges / proposal cut edges) and accepts plans without parent; the tilted rule accepts every score that is no worse and any other with probability p; the annealing rule accepts with probability min(1, exp(-beta*magnitude*loss)). Every beta schedule is periodic with its cycle length, stays in [0,1], is 0 in the hot phase and 1 in the cold phase, and between the phases interpolates linearly (or by the clamped logit curve) and so moves monotonically.",
[I,S],"all scores, random draws, durations and steps",
"Tests only check that runs finish or improve.",
["accept.py","optimization/optimization.py"],
[("cut_edge_accept","accept.py"),("_tilted_acceptance_function/_simulated_annealing_acceptance_function, *_beta_function","optimization/optimization.py")],None,["accept(partition)"])
p("C21","The optimizer's best plan is the best one seen",
"After any optimizer run has been consumed, its best score is the maximum (minimum when minimizing) of the scores of the initial plan and all plans it yielded, and its best plan is one of those plans and has that score. Short bursts yield num_bursts bursts of burst_length plans, each starting from the best plan so far, and the other run types yield the requested number of plans.",
[H,S,C],"all proposals, constraints, acceptance rules, score functions and run lengths",
"Tests look at one run's monotonic improvement.",
["optimization/optimization.py","chain.py"],
[("short_bursts/simulated_annealing/tilted_short_bursts/variable_length_short_bursts/tilted_run","optimization/optimization.py")],None,["best_part","best_score"])
p("C22","Gingles scores follow their definitions",
"For every assignment of minority shares to districts, each Gingles score equals its definition: number of districts at or above the threshold, plus the highest share below it, plus the scaled closeness of that share when within 0.1, or plus the scaled distance of the maximum (or mean) opportunity share from 1; when no share is below the threshold nothing is added. The share used when only population columns are given is minority population divided by total population per district.",
[I],"all share vectors, thresholds in (0,1) and district counts",
"Tests check a couple of vectors.",
["optimization/gingleator.py"],
[("Gingleator.__init__ and score class methods","optimization/gingleator.py")],None,["Gingleator score functions"])
p("C23","Metagraph enumeration and diversity statistics are exact",
"The metagraph helpers enumerate for every plan exactly the flips of a cut-edge endpoint to the other endpoint's district whose resulting plan satisfies the constraints, once per cut-edge end, and the degree is their number. The diversity statistics yielded with each plan of a chain count exactly the plans seen so far, the distinct plans by cut-edge set and the distinct districts by node set, and pass every plan through unchanged.",
[I,H],"all plans, constraints and chains",
"Tests check one small grid.",
["metagraph.py","meta/diversity.py"],
[("all_cut_edge_flips/all_valid_states_one_flip_away/all_valid_flips/metagraph_degree","metagraph.py"),("collect_diversity_stats","meta/diversity.py")],None,["metagraph_degree","collect_diversity_stats"])
p("C24","Graph data is attached to the right nodes and survives saving and freezing",
"Writing a graph to JSON and reading it back gives the same nodes, edges and non-geometric attributes; joining or adding a dataframe sets exactly the requested columns on exactly the matching nodes (matched by index or by the given key columns) and changes no other attribute or node. A frozen graph answers node, edge, neighbor, degree, attribute and subgraph queries exactly like the graph it wraps and refuses changes.",
[I],"all graphs, attribute data and dataframes with matching keys",
"Tests use a few small graphs and frames.",
["graph/graph.py"],
[("Graph.from_json/to_json/join/add_data, remove_geometries","graph/graph.py"),("FrozenGraph","graph/graph.py")],None,["Graph","FrozenGraph"])
p("C25","Grid plans have the right geometry",
"An m-by-n grid plan (m, n >= 1) has exactly the m*n cells as nodes, edges exactly between cells sharing a side (length 1) and, if requested, a corner (length 0), unit area and population, and each cell's outer boundary length is the number of its sides on the grid's outer edge. Without an assignment it is coloured by quadrants split at floor(m/2) and floor(n/2), flips keep its dimensions, and the caller's arguments are not modified.",
[I],"all m, n >= 1, with and without diagonals",
"Tests use 3x3, 4x4 and similar sizes only.",
["grid.py"],
[("create_grid_graph/tag_boundary_nodes/get_boundary_perim/color_quadrants/Grid.__init__","grid.py")],None,["Grid"])
p("C26","Spanning-tree samplers return spanning trees",
"For every connected graph (of at least two nodes), both spanning-tree samplers return a connected acyclic subgraph containing exactly the graph's nodes and only edges of the graph, and never change the graph's nodes or edges. With region surcharges the minimum-weight rule is respected: the tree is a minimum spanning tree for the weights drawn plus the surcharges of the regions each edge crosses.",
[I,S],"all connected graphs, random draws and surcharges",
"Tests check a few small graphs.",
["tree.py"],
[("random_spanning_tree/uniform_spanning_tree","tree.py")],None,["random_spanning_tree","uniform_spanning_tree"])
p("C27","Geometric adjacency and boundary data match the polygons",
"Building a graph from valid polygons gives queen adjacency exactly between polygons that touch and rook adjacency exactly between those sharing a border of positive length, with that length as shared perimeter, symmetric in both directions. Each node's area is its polygon's area and its boundary perimeter is its polygon's perimeter minus the shared ones.",
[I],"all valid non-overlapping polygon layers",
"Tests use one four-square layer.",
["graph/adjacency.py","graph/graph.py"],
[("neighboring_geometries/queen/rook","graph/adjacency.py"),("from_geodataframe/add_boundary_perimeters","graph/graph.py")],None,["Graph.from_geodataframe"])
p("C28","A fixed random seed reproduces a run",
"Running the same chain, proposal or seed construction twice from the same inputs with the same random seed in one interpreter gives the same sequence of plans.",
[H,S],"all chains, seeds and graphs",
"It relates two whole executions, including hash order of sets.",
["chain.py","proposals/tree_proposals.py","tree.py"],
[("all randomness comes from the random module","tree.py")],None,["random.seed"])
p("C29","Spanning trees are sampled uniformly",
"The uniform spanning tree sampler draws every spanning tree of a connected graph with equal probability.",
[S],"all connected graphs",
"Statistical; tests never measure it.",
["tree.py"],
[("uniform_spanning_tree (Wilson's algorithm)","tree.py")],None,["uniform_spanning_tree"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80
print(len(P))
