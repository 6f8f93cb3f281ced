"""Properties from C13 on, and the properties without a check."""
NA = {}
FEW = 'Unit tests compare a handful of hand-written inputs with stored answers; the claim is about every input.'
def add(p, A, K, I, S):
    p('C13', 'Merging by groups treats each group as one node',
      'For disjoint groups of nodes, every node of a group is merged to one and the same member of its group, nodes of different groups stay apart, and nodes without a group stay themselves; a merged node set holds exactly what its members are merged to. The minimal sets of a merged family are exactly its members without a smaller member inside, each once. A merged quorum set with satisfiable thresholds is satisfied by a union of whole groups, merged, exactly if the original quorum set is satisfied by that union. Groups carry over unchanged to an FBAS shrunk to some of its nodes.',
      ['inputs'], 'all disjoint groupings, node sets, families of node sets, quorum sets with satisfiable thresholds', FEW,
      [A + 'merge_by_group.rs', A + 'results.rs', K + 'groupings.rs', K + 'shrinking.rs'], [('merging of nodes, sets and quorum sets', A + 'merge_by_group.rs Groupings::merge_node, merge_node_set, merge_minimal_node_sets, merge_quorum_set'), ('group lookup', K + 'groupings.rs Groupings'), ('shrunken groups', K + 'shrinking.rs Groupings::shrunken')],
      ['Groupings::merge_node, merge_node_set, merge_node_sets, merge_minimal_node_sets, merge_quorum_set, get_by_member, number_of_groupings', 'NodeIdSetVecResult::merged_by_group, NodeIdSetResult::merged_by_group', 'Groupings::shrunken'], '')
    p('C14', 'Operations on families of node sets follow set theory',
      'For a family of node sets: all_intersect tells whether every two of its members share a node; involved_nodes is the union of its members; remove_non_minimal_node_sets keeps exactly the sets that have no proper subset in the family, each once and ordered by size; is_set_of_minimal_node_sets tells whether no member is a subset of another member.',
      ['inputs'], 'all families of node sets, whatever storage the sets use', FEW,
      [A + 'sets.rs', K + 'set_helpers.rs'], [('set operations', A + 'sets.rs all_intersect, is_set_of_minimal_node_sets, contains_only_minimal_node_sets, remove_non_minimal_node_sets'), ('union', K + 'set_helpers.rs involved_nodes')],
      ['sets::all_intersect, involved_nodes, remove_non_minimal_node_sets, is_set_of_minimal_node_sets'], '')
    p('C15', 'Results say the same in every form and drop exactly the nodes asked for',
      'A result of an analysis reports its number of sets, set sizes (minimum, maximum, mean, histogram), involved nodes, presence of the empty set and minimal sets as they follow from its node sets in the IDs of the analysed FBAS. Converted to ID lists, public keys, group names or JSON text it names exactly the same nodes in the same order. Removing nodes, whether named by ID, by public key or by group name, removes exactly those nodes from every set; unknown names remove nothing. The same holds for quorum sets, and lists of them, shown with IDs, public keys or group names (where they show the merged quorum set), and the text form of a description of sets agrees with its numbers.',
      ['inputs'], 'all FBASs, groupings and lists of nodes to remove', FEW,
      [A + 'results.rs', I + 'results.rs'], [('result wrappers', A + 'results.rs NodeIdSetResult, NodeIdSetVecResult'), ('conversion to names', I + 'results.rs')],
      ['NodeIdSetVecResult and NodeIdSetResult: unwrap, len, is_empty, min, max, mean, histogram, describe, minimal_sets, involved_nodes, contains_empty_set, into_vec_vec, into_pretty_vec_vec, into_id_string, into_pretty_string, without_nodes, without_nodes_pretty', 'QuorumSet::into_pretty_quorum_set, into_id_string, into_pretty_string, Groupings::merge_quorum_sets'], '')
    p('C16', 'FBASs survive the way to JSON and back',
      'Reading FBAS JSON yields one node per entry, in order and found under its public key, with the threshold given, the known validators and the inner quorum sets (each sorted); validators that are not nodes of the FBAS are dropped, missing quorum sets are unconfigured, unknown fields are ignored. An FBAS with sorted quorum sets, written as JSON in either layout and read again, is the same FBAS, and is written as the same text.',
      ['inputs'], 'all FBASs: keys, thresholds up to the whole 64-bit range, nested quorum sets', FEW,
      [I + 'core_types.rs'], [('conversion from and to raw nodes', I + 'core_types.rs Fbas::from_raw, to_raw, QuorumSet::from_raw, to_raw')],
      ['Fbas::from_json_str, to_json_string, to_json_string_pretty, get_quorum_set, get_node_id, number_of_nodes'], '')
    p('C17', 'Groupings are read from JSON as given',
      'Organisations read from JSON have the names, order and members given, without the validators that are no nodes of the FBAS. ISP and country groupings read from node data have one group per name (without commas and without one full stop at the end), sorted by name, whose members are exactly the nodes with that name, in order; nodes without a name belong to no group. A grouping written as JSON and read again is the same.',
      ['inputs'], 'all node lists and organisation lists', FEW,
      [I + 'groupings.rs', K + 'groupings.rs'], [('reading and collecting by name', I + 'groupings.rs RawGroupings::isps_from_raw_nodes, countries_from_raw_nodes, Grouping::from_raw'), ('lookup by member', K + 'groupings.rs Groupings::new')],
      ['Groupings::organizations_from_json_str, isps_from_json_str, countries_from_json_str, from_json_str, get_by_member, get_by_name, merge_node'], '')
    Z = 'src/simulation/'
    p('C18', 'Graphs survive the way to an AS-relationship text and back',
      'Reading an AS-relationship text yields exactly the graph of its lines: a peering line connects both ways, a provider-customer line gives the customer a link to its provider; comments, blank lines, further fields and either kind of line end change nothing. A graph without self-loops is written with every connected pair listed exactly once, marked as mutual exactly if it is. Reading back what was written yields the same graph (up to unconnected nodes after the last connected one, which a list of edges cannot tell).',
      ['inputs'], 'all texts of such lines and all graphs without self-loops', FEW,
      [I + 'graph.rs', Z + 'graph.rs'], [('reading', I + 'graph.rs Graph::from_as_rel_string'), ('writing', I + 'graph.rs Graph::to_as_rel_string')],
      ['Graph::from_as_rel_string, to_as_rel_string'], 'One-way links are written in the opposite direction to the one they are read in; the existing tests pin both, so this is a listed finding.')
    p('C19', 'Generated graphs have the structure asked for, whatever the random numbers',
      'Full meshes connect every two nodes. In a tiered mesh every node links to exactly the other nodes of its tier and those of the tier above. For sensible parameters a scale-free graph is undirected and simple, connects its m0 first nodes completely and every later node to exactly m earlier ones; a small-world graph is undirected and simple with n*k/2 edges and is the ring lattice for beta 0. Degrees, connectedness, directedness and number of nodes are reported as the links have it; rank scores are a share of the whole of which none is lost while every node links on. Shuffling only renames nodes, and every renaming can come up.',
      ['inputs', 'schedules'], 'all sizes and parameters in bounds and every sequence of random numbers', FEW,
      [Z + 'graph.rs'], [('generators', Z + 'graph.rs new_full_mesh, new_tiered_full_mesh, new_random_scale_free, new_random_small_world'), ('queries', Z + 'graph.rs get_in_degrees, get_out_degrees, get_connected_nodes, is_undirected, get_rank_scores, shuffled')],
      ['Graph::new_full_mesh, new_tiered_full_mesh, new_random_scale_free, new_random_small_world, get_in_degrees, get_out_degrees, get_connected_nodes, number_of_nodes, is_undirected, get_rank_scores, shuffled'], 'rand is replaced by a stub with symbolic output, so every possible random choice is explored.')
    p('C20', 'A simulation configures every node in every round and ends when nothing changes',
      'Growth adds one unconfigured node at a time, configures it and reevaluates all nodes for at most as many rounds as there are nodes. Every round of a reevaluation visits every node exactly once, in any order; rounds go on until one changes nothing or the maximum is reached, and the number of rounds is returned. The monitor sees every event, in order, and a configurator changes only the node it is called for and reports a change exactly if it made one. Ideal, super-safe, random and dummy configurators stabilise after at most one changing round and leave every node with the quorum set they promise: all nodes with a two-thirds threshold, all nodes with all of them required, a random set of the desired size that includes the node, none.',
      ['inputs', 'schedules'], 'all behaviours of a configurator, all visiting orders and random choices, all sequences of growth in bounds', 'Unit tests run a few seeds of one growth sequence each; the claim is about every order and every random choice.',
      [Z + 'mod.rs', Z + 'monitors.rs', Z + 'qsc/mod.rs', Z + 'qsc/ideal.rs', Z + 'qsc/random.rs', Z + 'qsc/super_safe.rs'], [('simulation loop', Z + 'mod.rs Simulator::simulate_growth, simulate_global_reevaluation'), ('configurators', Z + 'qsc/ideal.rs, random.rs, super_safe.rs'), ('event log', Z + 'monitors.rs DebugMonitor')],
      ['Simulator::new, simulate_growth, simulate_global_reevaluation, finalize', 'qsc::IdealQsc, SuperSafeQsc, RandomQsc, DummyQsc', 'monitors::DebugMonitor'], 'rand is replaced by a stub with symbolic output.')
    p('C21', 'Thresholds are exact',
      'The two-thirds threshold of n nodes is the least t with 3t > 2n, for every n; it lies between 1 and n and never falls as n grows. The relative threshold of n nodes and share x is the least whole number of at least nx, and at least 1; it never falls as n or x grows.',
      ['inputs'], 'all numbers of nodes and shares', 'Tests try n up to 20; a threshold one too low costs safety and one too high costs liveness, for any n.',
      [Z + 'qsc/mod.rs'], [('thresholds', Z + 'qsc/mod.rs calculate_67p_threshold, calculate_x_threshold')], ['simulation::qsc::calculate_67p_threshold, calculate_x_threshold'], '')
    p('C22', 'Bulk analyses lose, mix up and repeat nothing',
      'The label of an input file is its name without the ending and without the parts that say what kind of file it is. Every nodes file given becomes exactly one data point, in order of the labels, paired with the organisations file of the same label if there is one; files of unknown kind are refused. With earlier results at hand every earlier result is kept unchanged once, exactly the inputs without one are analysed, and all come in order of their labels. The numbers of the merged analyses describe the minimal merged sets and are put in the columns of their grouping. Data points written as CSV are read back unchanged. A whole run leaves its results in the output file and every other file as it was; it does not touch an output file that exists unless told to update it, and then earlier data points stay as they are and only those missing are added. The performance experiment covers every size and run asked for once, with the same rules for earlier results, and finds as many minimal quorums, blocking sets and splitting sets, of such sizes, as the ideal FBAS (or ideal FBAS of three-node organisations) has. None of this depends on the number of threads or on which task ends first.',
      ['inputs', 'histories', 'schedules'], 'all lists of input files, earlier results, FBASs and groupings, in bounds', 'Tests run one set of example files; lost or mixed-up data points would show with other names, earlier results or groupings only.',
      ['src/bin/bulk_fbas_analyzer.rs', 'src/bin/bulk_performance_experiment.rs'], [('inputs and labels', 'src/bin/bulk_fbas_analyzer.rs extract_inputs, extract_label, make_sorted_tasklist'), ('columns', 'src/bin/bulk_fbas_analyzer.rs maybe_merge_sets, extend_output_with_orgs_results'), ('benchmarked FBASs', 'src/bin/bulk_performance_experiment.rs make_almost_ideal_fbas, make_almost_ideal_stellarlike_fbas')],
      ['standard output, output files and exit status of bulk_fbas_analyzer and bulk_performance_experiment'], 'The whole programs run, argument parsing included, in a file system in memory. The thread pool is replaced by a stand-in that starts tasks in order and lets them end in any order; a task runs in one go.')
    p('C23', 'FBASs are values',
      'Whatever sequence of additions and replacements of quorum sets made an FBAS, it holds exactly the quorum sets last given, under IDs counted from zero and keys of their own, and clones are independent. Two FBASs are equal exactly if they have the same nodes with the same keys and quorum sets in the same order; equal FBASs have equal hashes; ordering is total, transitive and agrees with equality. The same goes for quorum sets.',
      ['inputs', 'histories'], 'all FBASs and operation sequences in bounds', FEW,
      [K + 'fbas.rs', K + 'quorum_set.rs'], [('container', K + 'fbas.rs Fbas::add_node, add_generic_node, swap_quorum_set'), ('ordering and hashing', K + 'fbas.rs, quorum_set.rs derived and written Eq, Ord, Hash')],
      ['Fbas::new, new_generic_unconfigured, add_generic_node, swap_quorum_set, get_quorum_set, get_node_id, number_of_nodes, all_nodes, clone, ==, cmp, hash', 'QuorumSet ==, cmp'], '')
    p('C25', 'Graph-based configurators trust exactly the nodes the graph says',
      'AllNeighbors gives an unconfigured, connected node its graph neighbours and itself; GlobalRank gives an unconfigured node with links exactly the nodes of above-average rank; HigherTierNeighbors gives a connected node itself and its neighbours of at least double its rank score or, if there are none, those of comparable score, and the symmetric variant adds what those of them that trust the node trust. Thresholds are two thirds or the share given. Other nodes stay as they are, and a change is reported exactly if one was made.',
      ['inputs', 'histories'], 'all graphs, FBASs and orders of configuration in bounds', FEW,
      [Z + 'qsc/graph_based/all_neighbors.rs', Z + 'qsc/graph_based/global_ranking_based.rs', Z + 'qsc/graph_based/relative_tierness_based.rs'], [('configurators', Z + 'qsc/graph_based/all_neighbors.rs AllNeighborsQsc, global_ranking_based.rs GlobalRankQsc, relative_tierness_based.rs HigherTierNeighborsQsc')],
      ['qsc::AllNeighborsQsc, GlobalRankQsc, HigherTierNeighborsQsc: configure'], '')
    p('C26', 'Nodes are ranked by the trust that reaches them',
      'The rank score of a node among given nodes is the share of walks along trust links that end there after a hundred rounds, started evenly at those nodes and going on evenly to any trusted node, where trust from or in other nodes counts for nothing. Sorting by rank returns the given nodes, highest score first, equal scores in the given order. The strongly connected components of given nodes put each of them in exactly one component, two together exactly if each reaches the other along trust links.',
      ['inputs'], 'all FBASs and node subsets in bounds', FEW,
      [A + 'preprocessing.rs'], [('power iteration', A + 'preprocessing.rs rank_nodes'), ('order', A + 'preprocessing.rs sort_by_rank'), ('components', A + 'preprocessing.rs partition_into_strongly_connected_components')],
      ['preprocessing::rank_nodes, sort_by_rank, partition_into_strongly_connected_components', 'Fbas::rank_nodes'], 'scores are compared up to 1e-9')
    p('C27', 'The command-line tools do what their options say',
      'fbas_analyzer prints exactly the results asked for by its options, in a fixed order and with the values that follow from the definitions, whether the FBAS comes from a file or standard input: as IDs, as names or described in numbers, merged by the one grouping that takes precedence, with comments unless only results are wanted. qsc_simulator prints the FBAS that the chosen policy makes for the number of initial and added nodes, by default the size of the graph. graph_generator writes a graph with the parameters given to the file named or to standard output.',
      ['inputs', 'configurations'], 'all options, FBASs and graphs in bounds', 'Tests cover the library; nothing runs the tools with their options, whose combinations are many.',
      ['src/bin/fbas_analyzer.rs', 'src/bin/qsc_simulator.rs', 'src/bin/graph_generator.rs'], [('options and output', 'src/bin/fbas_analyzer.rs main, Output'), ('policies', 'src/bin/qsc_simulator.rs parse_qsc_config'), ('graphs', 'src/bin/graph_generator.rs apply_graph_gen_alg')],
      ['standard output and output files of fbas_analyzer, qsc_simulator, graph_generator'], 'The whole programs run, argument parsing included, in a file system in memory.')
