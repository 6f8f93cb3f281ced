#!/usr/bin/env python3
"""The properties; writes properties.jsonl and MANIFEST.json (python3 meta.py)."""
import json, os
from checks import CHECKS
V = os.path.dirname(os.path.abspath(__file__))
A = 'src/analysis/'; K = 'src/core_types/'; I = 'src/io/'; S = 'src/simulation/'
P = []
def p(id, title, statement, over, text, why, files, mech, observe, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None), note=note))
FEW = 'Unit tests compare a handful of hand-written or snapshot networks with stored answers; the claim is about every quorum structure, and the pruning that makes the answer fast is what goes wrong on the structures nobody wrote down.'

p('C01', 'Quorum slices and quorums follow the definition',
  'A node set satisfies a quorum set exactly if at least threshold of its members agree, where a listed node agrees if it is in the set and an inner quorum set agrees if it is itself satisfied, and a threshold of zero or above the number of members is never satisfied. A node set is a quorum exactly if it is non-empty and satisfies the quorum set of each of its members. The slices enumerated for a quorum set are slices of it, and every slice contains one of them.',
  ['inputs'], 'all quorum sets (threshold, repeated and nested members) and all node sets', FEW,
  [K + 'quorum_set.rs', K + 'fbas.rs'], [('slice evaluation', K + 'quorum_set.rs QuorumSet::is_quorum_slice'), ('slice enumeration', K + 'quorum_set.rs QuorumSet::to_quorum_slices'), ('quorum test', K + 'fbas.rs Fbas::is_quorum')],
  ['QuorumSet::is_quorum_slice, to_quorum_slices, contained_nodes, contains_duplicates', 'Fbas::is_quorum'], 'thresholds over the whole 64-bit range and node sets are symbolic')
p('C02', 'Satisfiable nodes are those contained in some quorum',
  'A node is reported satisfiable exactly if some quorum contains it and unsatisfiable otherwise, so the two sets partition all nodes. Restricted to a part of the network, the same holds for the quorums within that part.',
  ['inputs'], 'all FBASs', FEW, [A + 'preprocessing.rs', A + 'front_end.rs'], [('fixpoint removing nodes without a slice', A + 'preprocessing.rs find_satisfiable_nodes')],
  ['Analysis::satisfiable_nodes, unsatisfiable_nodes', 'Fbas::satisfiable_nodes, unsatisfiable_nodes', 'preprocessing::find_satisfiable_nodes'], '')
p('C03', 'Minimal quorums are exactly the quorums without a smaller quorum inside',
  'The minimal quorums reported for an FBAS are exactly its quorums that have no other quorum as a subset, each listed once and ordered by size. Every quorum of the FBAS is a superset of one of them.',
  ['inputs'], 'all FBASs', FEW, [A + 'quorums.rs', A + 'sets.rs', A + 'front_end.rs'], [('branch and bound over ranked nodes', A + 'quorums.rs minimal_quorums_finder_step'), ('minimality test', A + 'quorums.rs is_minimal_for_quorum'), ('shortcut for symmetric clusters', A + 'quorums.rs QuorumSet::to_minimal_quorums')],
  ['Analysis::minimal_quorums', 'find_minimal_quorums'], '')
p('C04', 'Quorum intersection is reported exactly when all quorums intersect',
  'An analysis reports quorum intersection exactly if the FBAS has a quorum and every two of its quorums share a node.',
  ['inputs'], 'all FBASs', FEW, [A + 'front_end.rs', A + 'sets.rs', A + 'quorums.rs'], [('intersection over minimal quorums, split over components with quorums', A + 'front_end.rs has_quorum_intersection_from_shrunken'), ('pairwise test', A + 'sets.rs all_intersect')],
  ['Analysis::has_quorum_intersection'], '')
p('C05', 'The alternative intersection check agrees and its witnesses are real',
  'The alternative check for quorum intersection gives the same verdict as the definition. If quorums are disjoint it returns at least two pairwise disjoint quorums as witnesses, and it returns none otherwise.',
  ['inputs'], 'all FBASs', FEW, [A + 'quorums.rs', A + 'front_end.rs'], [('search for a quorum whose complement contains a quorum', A + 'quorums.rs nonintersecting_quorums_finder_step')],
  ['Analysis::has_quorum_intersection_via_alternative_check', 'find_nonintersecting_quorums'], '')
p('C06', 'Minimal blocking sets are exactly the minimal sets that stop every quorum',
  'For an FBAS that has a quorum, the minimal blocking sets reported are exactly the node sets without which no quorum remains and that have no smaller such set inside, each listed once and ordered by size.',
  ['inputs'], 'all FBASs with a quorum', FEW, [A + 'blocking_sets.rs', A + 'sets.rs', A + 'front_end.rs'], [('branch and bound', A + 'blocking_sets.rs minimal_blocking_sets_finder_step'), ('shortcut for symmetric clusters', A + 'blocking_sets.rs QuorumSet::to_minimal_blocking_sets')],
  ['Analysis::minimal_blocking_sets', 'find_minimal_blocking_sets'], '')
p('C07', 'Minimal splitting sets are exactly the minimal quorum intersections',
  'For an FBAS with quorum intersection, the minimal splitting sets reported are exactly the inclusion-minimal node sets in which two different minimal quorums intersect, each listed once and ordered by size. Without quorum intersection the only one reported is the empty set.',
  ['inputs'], 'all FBASs', FEW, [A + 'splitting_sets.rs', A + 'sets.rs', A + 'front_end.rs'], [('search over potential intersections', A + 'splitting_sets.rs splitting_sets_finder_step'), ('shortcut for symmetric clusters', A + 'splitting_sets.rs QuorumSet::to_minimal_splitting_sets')],
  ['Analysis::minimal_splitting_sets', 'find_minimal_splitting_sets'], '')
p('C08', 'The top tier is the union of the minimal quorums',
  'The top tier is exactly the set of nodes that belong to a minimal quorum. For an FBAS that has a quorum it also equals the union of the minimal blocking sets.',
  ['inputs'], 'all FBASs', FEW, [A + 'front_end.rs', A + 'results.rs'], [('union of whichever minimal sets are already known', A + 'front_end.rs top_tier_shrunken')],
  ['Analysis::top_tier', 'NodeIdSetVecResult::involved_nodes'], '')
p('C09', 'An analysis gives the same answers whatever was asked before',
  'The answer an analysis gives to a query is the one a fresh analysis of the same FBAS gives, whatever sequence of other queries came before and however often it is asked.',
  ['histories', 'inputs'], 'all sequences of queries on all FBASs', 'Tests ask one or two queries of an analysis in one order; results are cached in a shrunken ID space that is rebuilt on the way, so the order decides which conversions happen.',
  [A + 'front_end.rs', K + 'shrinking.rs'], [('caches filled on demand', A + 'front_end.rs cached_computation'), ('change of ID space', A + 'front_end.rs shrink_id_space_to_top_tier')], ['Analysis'], '')
p('C10', 'Symmetric clusters and the symmetric top tier are genuine',
  'The symmetric clusters reported are exactly the quorum sets that all nodes they contain use and that those nodes together satisfy, each reported once. A symmetric top tier is reported exactly if there is one such cluster and no quorum outside it, and then the top tier consists of nodes of that cluster.',
  ['inputs'], 'all FBASs', FEW, [A + 'symmetric_clusters.rs'], [('cluster search', A + 'symmetric_clusters.rs find_symmetric_clusters_in_node_set'), ('top tier', A + 'symmetric_clusters.rs find_symmetric_top_tier')],
  ['find_symmetric_clusters, find_symmetric_top_tier', 'Analysis::symmetric_clusters, symmetric_top_tier'], '')
p('C11', 'Relevant nodes and the standard form keep all quorums',
  'A node is relevant exactly if it is satisfiable and the satisfiable nodes of its strongly connected component contain a quorum, where the components partition the nodes by mutual reachability along trust links. The standard form of an FBAS consists of exactly its relevant nodes in the order of their public keys and has the same minimal quorums.',
  ['inputs'], 'all FBASs', FEW, [A + 'preprocessing.rs', K + 'shrinking.rs'], [('components', A + 'preprocessing.rs partition_into_strongly_connected_components'), ('relevance', A + 'preprocessing.rs Fbas::relevant_nodes'), ('standard form', A + 'preprocessing.rs Fbas::to_standard_form')],
  ['Fbas::relevant_nodes, strongly_connected_components, to_standard_form'], '')
p('C12', 'Analysis results do not depend on node numbering or irrelevant nodes',
  'Renumbering the nodes of an FBAS, listing the members of quorum sets in another order, or adding unconfigured nodes changes the results of an analysis only by that renaming.',
  ['inputs', 'configurations'], 'all FBASs and renumberings', 'Tests fix one numbering per network; results are computed in rank order over bit sets whose layout follows the IDs.',
  [A + 'sets.rs', A + 'preprocessing.rs', K + 'shrinking.rs'], [('reduction to components with quorums', A + 'sets.rs find_sets'), ('node order', A + 'preprocessing.rs sort_by_rank')], ['Analysis', 'find_minimal_quorums, find_minimal_blocking_sets'], '')
p('C24', 'Shrinking the ID space of an FBAS loses nothing about the kept nodes',
  'Restricting an FBAS to some of its nodes gives each kept node its quorum set without the dropped members, and a set of kept nodes is a quorum of the result exactly if it was one before. Node sets converted to the new IDs and back, or on to another restriction, are unchanged.',
  ['inputs'], 'all FBASs, kept subsets and node sets', FEW, [K + 'shrinking.rs'], [('ID maps', K + 'shrinking.rs ShrinkManager'), ('restriction', K + 'shrinking.rs Fbas::shrunken')], ['Fbas::shrunken', 'ShrinkManager'], '')
import meta2
meta2.add(p, A, K, I, S)

LEVEL = 'Every feasible path of the real code (LLVM IR compiled from /repo on this run) over symbolic inputs is executed by the engine in /verif/engine and z3 decides each branch and assertion for all values of the inputs; a counterexample counts only after the native build reproduces it. Holds within the bounds named in the evidence file (families and sizes per entry); trusts rustc, the IR semantics of the engine (cross-checked by replaying sampled paths natively) and z3.'
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in sorted(P, key=lambda x: x['id']):
            f.write(json.dumps({k: v for k, v in x.items() if k != 'note'}, ensure_ascii=False) + '\n')
    cs = []
    na = []
    for x in sorted(P, key=lambda x: x['id']):
        i = x['id']
        if i in CHECKS:
            c = CHECKS[i]
            cs.append(dict(property=i, quick_cmd=f'python3 run.py {i} quick', thorough_cmd=f'python3 run.py {i} thorough', evidence_file=f'evidence/{i}.json',
                technique='symbolic execution of the LLVM IR of the real code, decided by Z3', level='model_checking', level_note='Bounds: ' + c['bounds'] + '. ' + LEVEL))
        else: na.append(dict(property=i, reason=meta2.NA.get(i, 'no check yet')))
    m = dict(version=1, setup_cmd='python3 run.py setup', checks=cs, not_applicable=na,
        notes='No hooks in /repo: all harnesses go through the public API. See DESIGN.md; findings in known_findings.json.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
