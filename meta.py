#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table: python3 meta.py"""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
D, MAP, TOP, CART, STR, NOG, MPI, LEN, ITER, GET = ("dccrg.hpp", "dccrg_mapping.hpp", "dccrg_topology.hpp", "dccrg_cartesian_geometry.hpp",
    "dccrg_stretched_cartesian_geometry.hpp", "dccrg_no_geometry.hpp", "dccrg_mpi_support.hpp", "dccrg_length.hpp", "dccrg_iterator_support.hpp", "dccrg_get_cell_datatype.hpp")
PROPS, NA = [], []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note, observe=list(observe)))


def N(id, title, statement, over, qtext, why, files, mech, reason):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=[]))
    NA.append((id, reason))


P("C01", "Derived grid information is rebuilt after every structural change",
  "After initialization, loading, committing refinement, load balancing and adding a neighborhood, everything the grid derives from the cells and their owners "
  "(neighbor lists, the sets of local and remote cells at process boundaries, the lists of cells to send and receive, storage for copies of remote cells, and the iterated cell and neighbor ranges) "
  "is rebuilt for every cell and for the default and every user neighborhood, from the new state, in an order in which nothing is computed from stale data.",
  ["histories", "configurations"], "every sequence of refining, load balancing, loading and neighborhood changes, on any number of processes, with any user neighborhoods",
  "the tests use at most one user neighborhood and a few fixed sequences, and mostly look at final solver output rather than at the derived data of each process",
  [D], [("finish_balance_load", D), ("execute_refines", D), ("initialize", D), ("start_loading_grid_data", D), ("add_neighborhood", D), ("update_cell_pointers", D)],
  "control-flow-graph effect analysis: rebuild obligations with guards, domains and ordering",
  "every rebuild step must exist for every element of its domain under exactly the expected condition, follow every change and precede its readers, on all paths; what one neighbor search returns is not decided (see C25)")
P("C02", "Processes execute matching collective operations",
  "In every operation that all processes call together, all processes perform the same sequence of collective communication and collective file operations with matching roots, "
  "whatever cells, requests or data each of them has, so that no process waits for a collective that another one skipped.",
  ["schedules", "inputs", "histories"], "any distribution of cells, requests and data over any number of processes, provided library calls succeed",
  "a mismatch shows up only for the one distribution of cells or requests that makes processes branch differently; tests use few fixed ones and 3 processes",
  [D, MPI, MAP, TOP, CART, STR, NOG], [("All_Gather / All_Reduce / Some_Reduce", MPI), ("override_refines, induce_refines, override_unrefines", D), ("save_grid_data, load_grid_data", D), ("make_new_partition", D)],
  "SPMD uniformity (divergence) dataflow analysis: collectives must not be control dependent on process-dependent values",
  "flow-sensitive divergence analysis with interprocedural summaries over all functions that reach a collective")
P("C03", "Knowledge that processes replicate is updated identically everywhere",
  "Which cells exist, which process owns each of them and which cells are pinned where is recorded identically on every process: each change of these records is computed only from information "
  "that is the same on all processes (the same earlier records, or data gathered from all processes), never from what a process alone knows.",
  ["schedules", "histories", "inputs"], "any history of refining, unrefining, pinning and load balancing on any number of processes",
  "tests compare results of one process count and never compare the records of different processes",
  [D, MPI], [("cell_process, pin_requests", D), ("update_pin_requests, finish_balance_load, execute_refines, load_cells", D)],
  "SPMD uniformity dataflow analysis of all writes to replicated state",
  "every write to the replicated records: value, key and guard must be process-independent; local request sets that are merged with everyone's are recognised")
P("C04", "Cell data sent by one process is what the other expects to receive",
  "For every transfer of cell data (copies of remote neighbors, load balancing, collecting data of removed cells) the receives a process posts correspond one to one to the sends of its peers: "
  "same cells, same peers, same tags or same order within the combined message, same neighborhood id given to the user, data read from the sender's own cell and written to the intended storage of the receiver. "
  "Updating copies of remote neighbors succeeds exactly if the neighborhood exists and every step of the update succeeded, and transfers nothing for a neighborhood that doesn't exist.",
  ["schedules", "configurations", "histories"], "any partition, any neighborhood, both transfer modes (one message per cell, one per peer)",
  "whether both sides list the same cells in the same order is a relation between two processes that holds by luck for small or symmetric cases",
  [D, GET], [("start_user_data_receives, start_user_data_sends", D), ("recalculate_neighbor_update_send_receive_lists, make_new_partition, execute_refines", D)],
  "effect analysis comparing the two sides of every transfer (peers, tags, order, membership conditions)",
  "both transfer engines, all four builders of transfer lists and all callers")
P("C05", "Transfers complete before buffers are reused; MPI objects are released once",
  "Every nonblocking transfer keeps a request of its own that is waited for before the transferred data or the request is dropped, blocking updates wait for both directions, "
  "every MPI datatype that was created or is not predefined is committed before use, never used after release and released exactly once (predefined ones never), and every opened file is closed, on all successful paths.",
  ["schedules", "histories", "configurations"], "all paths of all functions that start transfers, create datatypes or open files",
  "leaks, early buffer reuse and missing waits usually go unnoticed in short test runs with small messages",
  [D, MPI, GET], [("wait_user_data_transfer_receives/sends", D), ("start_user_data_receives/sends", D), ("save_grid_data, continue_loading_grid_data", D), ("Some_Reduce", MPI)],
  "typestate analysis of requests, datatypes and files over the control-flow graph",
  "every creation site in the repository; path conditions of creation, commit, use and release are compared")
P("C06", "No failure of MPI, Zoltan or file operations goes unnoticed",
  "The result of every MPI, Zoltan and file operation, and of every internal step that reports success or failure, is examined, and after a failure the function never continues as if nothing had happened: "
  "it aborts, throws, or reports the failure to its caller; success is not reported as failure.",
  ["inputs", "fault_sequences"], "every library call and every internal step that can fail, in every function, whatever fails",
  "no test injects failures of the MPI library, Zoltan or the file system",
  [D, MPI, MAP, TOP, CART, STR, NOG], [("initialize_mpi, initialize_zoltan", D), ("save_grid_data, start_loading_grid_data, continue_loading_grid_data", D), ("All_Gather, Some_Reduce", MPI), ("read, write", CART)],
  "path-sensitive check of error results: every failing path must reach an abort, throw or failing return",
  "every call of a library or internal operation with a result; only best-effort releases and Zoltan parameter settings are exempt")
P("C07", "A saved grid can be read back: writer and reader agree on the file",
  "Everything saving a grid writes to a file (header, byte order mark, grid sizes, neighborhood size, topology, geometry, list of cells with the position of their data, and the data) is written without gap or overlap, "
  "at positions every process computes alike, with the sizes it announces, and loading reads exactly these items from the same positions with the same types into the same members, "
  "accepts the file only if the values were accepted, and reads the data of each cell from its listed position.",
  ["inputs", "configurations", "histories"], "any grid, any header, any data sizes and counts, any number of processes, with or without cell ids and positions in the file",
  "the tests save few fixed cell types from few processes; a wrong position for one combination of options, counts or geometry goes unnoticed",
  [D, MAP, TOP, CART, STR, NOG], [("save_grid_data", D), ("start_loading_grid_data, continue_loading_grid_data", D), ("read, write, data_size", MAP), ("read, write, data_size", TOP), ("read, write, data_size", STR)],
  "dataflow propagation of affine positions and sizes through writer and reader, compared item by item",
  "positions are compared as polynomials for every combination of options, on process 0 and others, of all five components")

P("C08", "Refinement requests are accepted, overridden and spread by the documented rules",
  "A request to refine, unrefine, not refine or not unrefine a cell is recorded, rejected and cancels others exactly by the documented rules (known and local cell, level limits, requests of the cell, its siblings and neighbors), "
  "and committing refinement resolves all processes' requests in fixed order: requests not to refine win and spread to smaller neighbors, refining spreads to larger neighbors in both directions on all processes until nothing changes, "
  "and unrefining is dropped if any sibling will be refined or must not be unrefined or any cell near the parent is, or will be, too small.",
  ["histories", "inputs", "configurations"], "any set of requests of any processes on any grid, in any order",
  "tests use few request patterns; the interplay of requests of different processes, levels and directions of neighborhoods is hardly sampled",
  [D], [("refine_completely, unrefine_completely, dont_refine, dont_unrefine", D), ("override_refines, induce_refines, override_unrefines", D)],
  "equivalence of path conditions (with quantifiers over neighbors and siblings) of every change of the request records",
  "which cells are neighbors or siblings is not decided (see C25)")

P("C09", "Committing refinement keeps records and data of cells consistent",
  "When refinement is committed, children belong to the process of the refined cell on every process, inherit its pins and weight and get data on their owner only, while the refined cell disappears from all records and its data is kept for the user; "
  "siblings of unrefined cells are all removed from all records, their parent belongs to the process of the first of its children, gets data there, and the data of every removed cell reaches that process and is kept for the user; "
  "nothing else changes, and requests are used up. Access by cell id gives the data of local cells, of copies of remote cells, and the kept data, or null.",
  ["histories", "configurations", "schedules"], "any set of cells to refine and unrefine, siblings on any processes, any pins and weights",
  "tests seldom unrefine siblings that live on different processes or combine pins or weights with refinement, and never look at all records",
  [D], [("execute_refines", D), ("operator[], get_removed_cells, clear_refined_unrefined_data", D)],
  "effect analysis with equivalence of path conditions, domains and order of every change of the records",
  "the cells to refine and unrefine are taken as given (C08), rebuilding of derived data is C01")

P("C10", "Load balancing honours pins and moves each cell with its data exactly once",
  "A pin or weight is accepted exactly for local cells (and existing processes), the latest request per cell counts, and all processes' requests are merged before they are applied; "
  "load balancing then moves exactly the cells that are pinned to another process plus, if asked for, those unpinned cells that the partitioner moves: each gets storage and data on its new process, "
  "every process records the new owner, data is freed on the old process, pinned cells never follow the partitioner, pending refinement requests are discarded, and the three phases are only possible in order.",
  ["histories", "configurations", "schedules"], "any pins, weights, partitions and numbers of processes",
  "tests pin few cells, to process 0, and depend on what Zoltan happens to return",
  [D], [("pin, unpin, unpin_local_cells, unpin_all_cells, set_cell_weight", D), ("update_pin_requests, make_new_partition", D), ("initialize_balance_load, continue_balance_load, finish_balance_load", D)],
  "effect analysis with equivalence of path conditions of every change of pins, weights, owners and transfer lists",
  "what the partitioner returns is taken as given")

P("C11", "The partitioner is told a consistent description of the grid",
  "For every grid, the functions answering Zoltan's queries agree with each other and with the grid: exactly the local cells are listed, each with the weight given to it or 1; "
  "the number of neighbors announced for a cell equals the number listed, which are its neighbors other than itself and missing ones, each with its owner; the hypergraph has one edge per local cell, "
  "connecting it to itself and those neighbors, with matching counts and starting positions; coordinates are the center of the cell asked for; cells and hierarchy levels that do not exist here are refused, "
  "options of a level go to the partitioner of that level, and every query function is registered for its own grid.",
  ["inputs", "configurations"], "any grid, weights, hierarchy of partitioning and partitioning method",
  "tests run a few methods of Zoltan whose results they do not compare with what was asked for",
  [D], [("initialize_zoltan", D), ("get_number_of_cells, fill_cell_list, fill_number_of_neighbors_for_cells, fill_neighbor_lists", D), ("fill_number_of_hyperedges, fill_hyperedge_lists, fill_edge_weights", D), ("get_part_number, set_partitioning_options", D)],
  "effect analysis: equivalence of the conditions under which items are counted and listed, and of the values listed",
  "the part number of get_part_number itself and what Zoltan does with the answers are not decided")

P("C12", "Neighborhoods can be added and removed at any time, completely",
  "add_neighborhood accepts exactly ids that are not in use and offsets that lie within the default neighborhood and do not include the cell itself (only face neighbors with neighborhood length 0); "
  "if it refuses nothing changes, if it accepts neighbors of all cells, process boundary cells, transfer lists, storage for copies and iteration are set up, in that order; remove_neighborhood forgets everything held "
  "for that neighborhood and nothing else, so that its id can be used again; functions given a neighborhood that does not exist change nothing, and fail if they return bool or a pointer.",
  ["histories", "inputs"], "any sequence of adding and removing, any offsets",
  "tests add a few neighborhoods at start-up and hardly remove any",
  [D], [("add_neighborhood, remove_neighborhood", D), ("get_neighbors_of, get_neighbors_to, start_remote_neighbor_copy_*, all_cells ...", D)],
  "effect analysis of every member keyed by neighborhood id, equivalence of the accepting condition",
  "offsets with other than one non-zero component with neighborhood length 0 are recognised by how they are counted")

P("C17", "The whole interface is usable with all kinds of data in all configurations",
  "Every public function of the grid can be used (compiles) with every supported kind of cell data (basic types, arrays of them, classes with any of the four forms of get_mpi_datatype), "
  "all three geometries, additional items of cells and neighbors, and with DEBUG, DCCRG_NO_LB and DCCRG_USER_COMPLEX; every header can be included on its own; "
  "get_mpi_datatype with information about the transfer takes precedence and gets cell, sender, receiver, direction and neighborhood in that order.",
  ["configurations"], "every combination of kind of data, geometry, additional items and macros in the witness",
  "tests use few members of a class template with few types, and members that are not used are not compiled at all",
  [D, "dccrg_get_cell_datatype.hpp"], [("class Dccrg", D), ("get_cell_mpi_datatype", "dccrg_get_cell_datatype.hpp")],
  "type-level witness: instantiation of the whole interface for every kind of use, checked by the compiler",
  "USE_SFC needs a library that is not here")

P("C22", "What is given to MPI is what is meant",
  "In every MPI call the datatype is that of the elements behind the buffer and the count that of the object behind it (whole scalars and fixed-size arrays); both sides of a collective agree; "
  "for every supported basic type of cell data, and arrays of them, the transfer information names the datatype of that type and covers the whole value; "
  "All_Gather gives every process all values of all processes under the process they came from, All_Reduce the sum over all processes, and Some_Reduce the sum of own value and those of the given processes, completing every request.",
  ["inputs", "configurations"], "every MPI call site and every supported basic type",
  "most types are never used in tests, and wrong types can work by accident",
  [D, "dccrg_mpi_support.hpp", "dccrg_get_cell_datatype.hpp"], [("MPI call sites", D), ("All_Gather, All_Reduce, Some_Reduce", "dccrg_mpi_support.hpp"), ("get_mpi_datatype_basic", "dccrg_get_cell_datatype.hpp")],
  "type checking of MPI buffers on the syntax tree, effect analysis of the helpers",
  "counts of dynamically sized buffers are not decided here")

P("C19", "DEBUG only adds checks",
  "Compiling with DEBUG changes nothing but that inconsistencies abort: every function changes the same state, sends the same messages of its own and returns the same under the same conditions as without DEBUG, "
  "and the code that DEBUG adds changes only its own variables.",
  ["configurations", "inputs"], "every function of the library",
  "tests are built in one configuration, so a statement that only one configuration has goes unnoticed",
  [D], [("all functions with #ifdef DEBUG", D)],
  "comparison of the effects and path conditions of every function in both configurations",
  "additional messages exchanged by checks themselves are allowed (C03 decides that all processes take part)")

P("C20", "No container changes shape while it is iterated over",
  "For every loop over the elements of a container, no statement of its body, nor any function called from it, inserts into or removes from that same container on a path that continues the loop, "
  "so no iteration uses an invalidated iterator or misses elements.",
  ["inputs", "histories"], "every loop over a container in the library and everything called from it",
  "use of an invalidated iterator usually works by accident with the containers and sizes of a test",
  [D], [("all loops over containers", D)],
  "interprocedural effect analysis of changes of container shape against enclosing loops",
  "insertion by merely reading through operator [] and loops that manage iterators of erased elements themselves are not judged")

P("C16", "Cell ids, indices, lengths and file offsets stay in 64 bits",
  "No cell id, index or grid length passes through a type with fewer than 64 bits or through floating point on its way to a 64 bit result, no file offset or size is computed in 32 bits first, and no 32 bit counter runs up to one of them; "
  "a grid whose number of level 0 cells (the product of its lengths) doesn't fit in 64 bits is refused. Ids given to Zoltan and counts given to MPI have the width these libraries prescribe.",
  ["inputs"], "every conversion between arithmetic types in the library",
  "a grid large enough to lose bits doesn't fit in a test",
  [D, "dccrg_mapping.hpp", "dccrg_length.hpp"], [("Mapping", "dccrg_mapping.hpp"), ("Grid_Length::set", "dccrg_length.hpp"), ("save_grid_data", D)],
  "taint analysis of arithmetic conversions on the resolved syntax tree",
  "values at run time are not bounded; that a refinement level is at most 21 is taken from Mapping's limit")

P("C23", "The mapping tells valid cells, indices and levels from invalid ones",
  "For every length and maximum refinement level: indices outside of the grid and levels that don't exist give the error cell and all others don't; invalid cells (the error cell or beyond the last one) have refinement level -1, "
  "no parent, children, siblings, indices or length, and only those; a cell of maximum refinement level is its own child, a level 0 cell its own (level 0) parent; "
  "the last valid cell is recomputed whenever length or maximum refinement level change; negative levels, and levels and lengths for which ids would overflow, are refused.",
  ["inputs"], "every cell id, index triple, level and grid length",
  "tests try a few ids of small grids",
  ["dccrg_mapping.hpp"], [("Mapping", "dccrg_mapping.hpp")],
  "case analysis of return conditions on the control-flow graphs with a propositional entailment over canonical atoms",
  "the ids computed for valid input are not decided (C24)")

P("C14", "Geometries agree on what is not in the grid",
  "In every geometry: length, center, minimum and maximum of a cell that can't exist, and the center for a level or indices that can't exist (including indices just past the end), are NaN, and only those; "
  "a coordinate outside of the grid in a dimension that isn't periodic is NaN as a real coordinate and has the error index, and in a periodic dimension is wrapped into the grid first by as many whole lengths of the grid as needed, in get_real_coordinate, get_indices and get_cell alike; "
  "coordinates inside of the grid, also at its start, always have an index: that of the smallest possible cell there.",
  ["inputs"], "every cell, level, index, coordinate and periodicity of all three geometries",
  "tests sample coordinates inside of grids",
  ["dccrg_no_geometry.hpp", "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp"], [("get_real_coordinate, get_indices, get_center, get_length", "dccrg_cartesian_geometry.hpp"), ("the same", "dccrg_no_geometry.hpp"), ("the same", "dccrg_stretched_cartesian_geometry.hpp")],
  "per-dimension case analysis of result conditions on the control-flow graphs, and normal forms of results, against one specification for all geometries",
  "rounding of floating point numbers is not decided; coordinates of cells are in C24")

P("C15", "Refused settings leave no trace; accepted ones take effect as a whole",
  "When setting a length, refinement level, geometry, periodicity or cell weight, pinning, requesting refinement, adding a neighborhood or changing load balancing options is refused (false is returned or an invalid argument thrown), nothing has changed; "
  "geometries refuse exactly non-positive cell lengths and coordinates that aren't strictly increasing or don't match the grid; "
  "levels of hierarchical partitioning and their options always exist in step, change only for levels that exist, are given to Zoltan for the level it asks about, and options that dccrg relies on can't be changed.",
  ["inputs", "histories"], "every setter and every input it can refuse",
  "tests hardly ever use invalid settings, nor look at the state afterwards",
  [D, "dccrg_mapping.hpp", "dccrg_length.hpp", "dccrg_topology.hpp", "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp"], [("setters", D), ("set_length", "dccrg_mapping.hpp"), ("set", "dccrg_cartesian_geometry.hpp")],
  "reachability of refusals from state changes and case analysis of conditions on the control-flow graphs",
  "failures of MPI, Zoltan or reading a file are outside (C06)")

P("C13", "Grids are self-contained and copying a grid keeps its structure",
  "A grid constructed from a grid with other cell data has the length, topology, mapping, geometry, cells, owners, neighborhoods, neighbor lists, cells on process boundary, send and receive lists and settings of the original, none mixed up, "
  "as well as default constructed data for every local cell, storage for copies of remote neighbors, iterators and load balancing callbacks of its own; a copied mapping is equal to the original; public references of a grid or mapping (topology, mapping, length, geometry, neighbors, cells) "
  "are read-only and refer to the state of that object, not of the one it was copied from.",
  ["inputs", "histories"], "every state of the grid that is copied and everything done with either grid afterwards",
  "the only test of copying looks at local cells and one update of remote neighbors",
  [D, "dccrg_mapping.hpp", "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp"], [("Dccrg", D), ("Mapping", "dccrg_mapping.hpp"), ("initialize_zoltan", D)],
  "member-by-member comparison of constructors, through the functions they read the original with, on the control-flow graph; rule on classes that refer to their own state",
  "copying to a grid of the same type is a known finding; what is copied of load balancing options is not claimed")

P("C21", "Iterators visit exactly the cells and neighbors they are named after",
  "In every neighborhood inner_cells() visits local cells that aren't on the process boundary, outer_cells() those that are, local_cells() both, remote_cells() copies of remote neighbors and all_cells() everything, each cell once with its own id and data; "
  "neighbors_of, neighbors_to and all_neighbors of a cell visit exactly the neighbors in its neighbor lists, without missing ones, each with its own id, data and offset, those in both lists once in all_neighbors; "
  "items added by the user to cells and neighbors are updated after these are known.",
  ["inputs", "configurations", "histories"], "any grid, partition, neighborhood and refinement",
  "tests iterate over small symmetric grids where wrong boundaries between categories cancel out",
  [D], [("update_cell_pointers, update_cell_pointers_user, inner_cells, outer_cells, local_cells, remote_cells, all_cells", D)],
  "iterator positions evaluated to sums of stretches of the underlying list; stretches and counters resolved on the control-flow graph",
  "that lists are rebuilt after changes is C01, what they hold is C01, C05, C12")

P("C18", "Dimensions are treated alike",
  "Wherever geometry, topology, mapping, neighborhoods or settings are handled dimension by dimension (starting point, end, length, center, minimum and maximum of grid and cells, validity of indices and coordinates, offsets in neighborhoods, periodicity), "
  "x, y and z are handled by the same rule, each from its own input, and none is left out.",
  ["inputs", "configurations"], "every grid length, periodicity, cell length and index",
  "tests mostly use cubic grids, cells or neighborhoods, where mixing up dimensions has no effect",
  [D, "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp", "dccrg_no_geometry.hpp", "dccrg_mapping.hpp", "dccrg_topology.hpp", "dccrg_length.hpp"],
  [("get_start, get_end, get_length, get_center, get_min, get_max", "dccrg_cartesian_geometry.hpp"), ("get_existing_cell, initialize_neighborhoods, add_neighborhood, indices_from_neighborhood, find_neighbors_of", D)],
  "comparison of syntax trees of parts written out per dimension, up to the dimension; bounds of loops over dimensions",
  "numbering of cells, where dimensions differ by design, is C24")

P("C24", "Cell ids, indices and positions follow one formula",
  "For every grid length, maximum refinement level, cell length and valid cell: ids number cells by refinement level and then by x, y and z starting from 1, the functions from id to indices and from indices and level to id are inverses, the last possible id and the level of an id match that numbering, "
  "parent, children and siblings are the cells of previous, next and same level at the same place, and start, end, length, center, minimum and maximum of grid and cells equal the formulas of each geometry (minimum and maximum are half a length from center, cells of next level are half as long).",
  ["inputs", "configurations"], "every grid length, maximum refinement level, geometry parameters and cell",
  "tests compare a few ids, indices and coordinates of small grids with few refinement levels",
  ["dccrg_mapping.hpp", "dccrg_cartesian_geometry.hpp", "dccrg_stretched_cartesian_geometry.hpp", "dccrg_no_geometry.hpp"],
  [("get_cell_from_indices, get_indices, get_refinement_level, update_last_cell, get_all_children, get_parent, get_child, get_siblings", "dccrg_mapping.hpp"), ("get_start, get_end, get_length, get_center, get_min, get_max", "dccrg_cartesian_geometry.hpp"), ("get_center, get_level_0_cell_coord_start_index", "dccrg_stretched_cartesian_geometry.hpp")],
  "values of returned expressions are rewritten to normal forms (sums of products of inputs, powers of two, integer quotients and remainders, sums over levels) in each case that the function tells apart and compared with the normal form of the formula",
  "arithmetic is taken as exact; a value that has no normal form is not judged")

P("C25", "Neighbor searches look at every right place and no other",
  "For every cell, neighborhood, periodicity and relation of cell sizes: the place of a neighborhood item is its offset in lengths of the cell away, wrapping around the grid as many times as needed where the grid is periodic and being invalid where it is not; face neighbors are looked for right behind each of the six faces among cells one level larger to one level smaller; "
  "a search walks from cell to face neighbor always towards the place, keeping the exact offset for same, larger and smaller neighbors in all six directions, and returns the cell found there or all siblings of a smaller one at their offsets; cells of larger, smaller and same size whose neighborhood reaches a cell are found at all places; "
  "the smallest existing cell at given indices is found, searches of a box visit it from start to end, and face neighbors and neighbors at an offset are returned with their true direction or offset.",
  ["inputs", "configurations"], "every cell, neighborhood, grid length, periodicity and refinement",
  "tests use symmetric cubic neighborhoods on small grids and check few offsets, mostly between cells of the same size",
  [D], [("indices_from_neighborhood, find_neighbors_of, find_neighbors_to, update_neighbors_, get_face_neighbors_of, get_neighbors_of_at_offset, get_existing_cell, find_cells", D)],
  "symbolic evaluation to normal forms of offsets and indices per direction and relation of sizes, and propositional comparison of conditions over linear inequalities in normal form",
  "assumes that neighbors differ by at most one refinement level (C08) and that face neighbors are up to date (C01); searches rewritten to other algorithms are not judged")
N("C26", "At most one refinement level between neighbors",
  "After every commit of refinement no two neighboring cells differ by more than one refinement level.",
  ["histories"], "every history of refinement requests on any number of processes",
  "tests refine few cells in few orders",
  [D], [("induce_refines, override_unrefines, execute_refines", D)],
  "depends on the fixed point of refinement induced between processes and on which cells exist at run time; only the rules by which requests spread are decided statically (C08)")
N("C27", "Load is balanced",
  "After load balancing the work of processes is as equal as the chosen partitioner and its options promise.",
  ["histories", "schedules"], "every grid, weights and number of processes",
  "tests don't measure partitions",
  [D], [("balance_load, make_new_partition", D)],
  "partitions are computed by Zoltan from run time weights; only what Zoltan is told and how its answer is applied are decided statically (C10, C11)")
N("C28", "Operations terminate and leave no request pending under every schedule",
  "Every operation ends on every process whatever the order in which messages arrive.",
  ["schedules"], "every schedule of processes and messages",
  "tests see few schedules",
  [D], [("start_remote_neighbor_copy_updates, wait_remote_neighbor_copy_updates, induce_refines", D)],
  "termination of loops that go on until no process changes anything is a run time quantity; matching of collectives, messages and completion of requests are decided in C02, C04 and C05")

P("C29", "New and loaded grids consist of exactly the right cells",
  "Initializing (or starting to load) a grid records every level 0 cell exactly once, by increasing id and process, with numbers of cells that differ by at most one between processes and add up to the whole grid, and gives storage to exactly the cells of this process; the default neighborhood has every offset of at most the neighborhood length in each dimension except the cell itself, each once, or the six face neighbors if that length is 0, and for the opposite direction the negation of each; loading refines every parent of every cell in the file, level by level from 0 up to the largest level on any process and committing after each, and each process loads exactly the cells whose level 0 parent it owns.",
  ["inputs", "configurations", "histories"], "every grid length, number of processes, neighborhood length and set of cells in a file",
  "tests use few grid sizes and process counts, and load few refined grids",
  [D], [("create_level_0_cells, initialize_neighborhoods, load_cells, cell_overlaps_local, get_cells_overlapping_local", D)],
  "normal forms of numbers of cells under all cases that the code distinguishes, loop analysis of numbering, offsets and chains of parents on control-flow graphs",
  "cells distributed by a space-filling curve (USE_SFC) are not analysed, its library is not available; assumes exact arithmetic (C16)")

if os.path.exists(os.path.join(HERE, "meta_more.py")):
    exec(open(os.path.join(HERE, "meta_more.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in sorted(PROPS, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
na = {i for i, _ in NA}
m = {
    "version": 1,
    "setup_cmd": "make -C exporter",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 analysis/check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 analysis/check.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": "static analysis: " + p["technique"],
        "level": "other", "level_note": p["note"]} for p in sorted(PROPS, key=lambda p: p["id"]) if p["id"] not in na],
    "not_applicable": [{"property": i, "reason": r} for i, r in sorted(NA)],
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
