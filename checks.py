"""What each check runs: entries of the harness per tier, bounds and assumptions."""
QUICK_MENU = 'flat2 flat3 self3 shared3 shared4 shared32 tmpl3 tmpl4 sym6 sym8 orgs23 orgs32 orgs33 dead deep dups3 dups4 ring4 ring5 ring6 twin tiers far3 far2 nest3 tiny own4'.split()
SLOW_MENU = 'self4 mixed3 mixed4 own5'.split()
NOTES = dict(
    flat2='all FBASs of 2 nodes without inner sets, thresholds over the whole u64 range', flat3='all FBASs of 3 nodes without inner sets, thresholds over the whole u64 range',
    self3='3 nodes, each trusting itself and any others, satisfiable thresholds', self4='4 nodes, each trusting itself and any others, satisfiable thresholds',
    shared3='3 nodes sharing any quorum set with one inner set, any thresholds', shared4='4 nodes sharing any quorum set with one inner set, any thresholds', shared32='3 nodes sharing any quorum set with two inner sets, any thresholds',
    tmpl3='3 nodes, each with one of two arbitrary flat quorum sets', tmpl4='4 nodes, each with one of two arbitrary flat quorum sets',
    mixed3='3 nodes, one with any nested quorum set, the others flat', mixed4='4 nodes, one with any nested quorum set, the others flat',
    sym6='6 nodes, 1 to 6 of them sharing one quorum set', sym8='8 nodes, 1 to 8 of them sharing one quorum set',
    orgs23='2 organisations of 3 nodes, any thresholds', orgs32='3 organisations of 2 nodes, any thresholds', orgs33='3 organisations of 3 nodes, any thresholds',
    dead='3 core nodes and an organisation of 2 that may be dead or selfish', deep='4 nodes, quorum sets nested three levels deep', dups3='3 nodes sharing a quorum set that lists nodes up to twice', dups4='4 nodes sharing a quorum set that lists nodes up to twice',
    ring4='ring of 4 nodes', ring5='ring of 5 nodes', ring6='ring of 6 nodes', twin='two groups of 3 nodes that may refer to each other, and a dependent node', tiers='core of 4, a chain of watchers, an unsatisfiable node',
    nest3='3 nodes, each with a flat quorum set or a nested one over the same nodes', far3='3 nodes at IDs 4, 33 and 70', far2='2 nodes at IDs 64 and 300',
    tiny='no node, or one that lists itself up to twice on two levels', own4='4 nodes that trust all, each with a threshold of its own', own5='5 such nodes',
    big34='34 nodes, all or all but one of which are a quorum', big67='67 such nodes', wide7='7 organisations of 3, all or all but one of which are a quorum', parted='2 groups of 17 nodes (9 in C08) that know nothing of each other')
def menu(p, quick=QUICK_MENU, slow=SLOW_MENU, extra=(), slow_extra=(), **kw):
    q = [f'{p}_{n}' for n in quick] + list(extra)
    if p in BIG: q, slow = q + [f'{p}_big34', f'{p}_wide7'] + ([f'{p}_parted'] if p in 'c03 c04 c05 c08 c10' else []) + ([f'{p}_big67'] if BIG[p] else []), list(slow) + ([] if BIG[p] else ['big67'])
    return dict(feature=p, quick=dict(entries=q), thorough=dict(entries=q + list(slow_extra) + [f'{p}_{n}' for n in slow], time=3000, max_insts=2_000_000_000), **kw)
BIG = dict(c02=1, c03=0, c04=0, c05=1, c06=0, c07=0, c08=0, c09=0, c10=1, c11=1, c24=1)  # 1: 67 nodes in the quick tier as well
FB = 'FBASs of up to 9 nodes (18 to 67 in families big34, big67, wide7, parted) in the families listed per entry'
def less(*drop): return [e for e in QUICK_MENU if e not in drop]
def drop_slow(*drop, slow=SLOW_MENU): return dict(quick=less(*drop), slow=[e for e in drop] + list(slow))
def plain(p, names, more='', notes={}, z3_timeout=30000, **kw):
    q = [f'{p}_{n}' for n in names.split()]
    return dict(feature=p, quick=dict(entries=q), thorough=dict(entries=q + [f'{p}_{n}' for n in more.split()], time=3000, z3_timeout=z3_timeout), entry_notes={f'{p}_{k}': v for k, v in notes.items()}, **kw)
CHECKS = dict(
    C01=menu('c01', quick='flat2 self3 shared3 tmpl3 orgs23 dead deep dups3 ring4 twin far3 tiny own4'.split(), slow='flat3 shared4 shared32 tmpl4 sym6 sym8 orgs32 orgs33 dups4 ring5 ring6 tiers far2'.split() + SLOW_MENU,
        extra='c01_set8 c01_set_nested c01_set_any c01_set_deep c01_set_far c01_set_dups c01_set_big c01_enum_flat c01_enum_nested c01_enum_any c01_enum_deep c01_enum_orgs c01_enum_twice c01_enum_far'.split(), bounds='quorum sets of up to 8 members on up to 4 levels against every node set of 8 to 16 IDs; ' + FB,
        entry_notes=dict(c01_set8='8 members, any threshold, any node set', c01_set_nested='7 members in 3 sets', c01_set_any='any nested quorum set over 4 nodes, any thresholds, any node set', c01_set_deep='4 levels', c01_set_far='IDs up to 15', c01_set_big='300 members, nodes or sets of 1 or 2 nodes, any threshold', c01_set_dups='members listed up to twice, also across levels',
            c01_enum_flat='up to 5 of 5 members', c01_enum_nested='two inner sets', c01_enum_any='any nested quorum set over 4 nodes', c01_enum_deep='4 levels', c01_enum_orgs='3 organisations of 2', c01_enum_twice='up to 3 inner sets over 2 nodes, any of them equal', c01_enum_far='IDs up to 200')),
    C02=menu('c02', extra=['c02_big300'], bounds=FB, entry_notes=dict(c02_big300='300 nodes, all or all but one of which are a quorum')),
    C03=menu('c03', bounds=FB),
    C04=menu('c04', bounds=FB, reach=[1, 2]),
    C05=menu('c05', **drop_slow('shared32'), bounds=FB, reach=[1, 2, 3]),
    C06=menu('c06', bounds=FB),
    C07=menu('c07', **drop_slow('shared32'), bounds=FB, vacuous_ok=['c07_far2', 'c07_flat2', 'c07_tiny']),
    C08=menu('c08', bounds=FB),
    C09=menu('c09', quick='dead deep dups3 far2 flat2 orgs23 ring4 shared3 tiers tiny'.split(), slow='own4 self3 flat3 shared4 shared32 tmpl3 tmpl4 sym6 orgs32 orgs33 dups4 ring5 twin far3'.split(), extra='c09_h3_core c09_h3_far c09_h3_orgs c09_h4_dead c09_h4_ring'.split(), bounds='every sequence of 2 queries out of 8 kinds on FBASs in the families listed per entry; sequences of 3 and 4 queries on those named h3 and h4',
        entry_notes=dict(c09_h3_core='3 queries, family tiers', c09_h3_far='3 queries, 3 nodes far apart with thresholds of their own', c09_h3_orgs='3 queries, 2 organisations of 2', c09_h4_dead='4 queries, a core smaller than the set of relevant nodes', c09_h4_ring='4 queries, a ring of 4')),
    C10=menu('c10', bounds=FB, vacuous_ok=['c10_ring4', 'c10_ring5', 'c10_ring6']),
    C11=menu('c11', extra=['c11_named2', 'c11_named3'], bounds=FB, entry_notes=dict(c11_named2='2 nodes with any of 8 names, in two orders', c11_named3='3 nodes with any of 4 names, in two orders')),
    C12=menu('c12', quick='dead deep dups3 far2 far3 flat2 tiny own4 orgs23 orgs32 ring4 ring5 self3 shared3 sym6 tiers twin'.split(), slow='dups4 flat3 shared32 shared4 tmpl3 tmpl4 ring6 sym8 orgs33'.split() + SLOW_MENU, bounds=FB + ', each under 4 renamings of its nodes (reversed, every third ID, spread over up to 140 IDs, rotated with the members listed in reverse)'),
    C24=menu('c24', **drop_slow('orgs33', 'shared32', 'sym8', 'tmpl4', 'twin', 'shared4', 'ring6'), bounds=FB + ', every subset of nodes to keep'),
    C13=plain('c13', 'nodes3 nodes_far res_flat res_orgs res_tail res_dead res_core qset_flat qset_nested qset_mixed qset_any qset_deep shrunken many', bounds='up to 7 nodes in up to 4 groups, families of 3 node sets, quorum sets of up to 3 levels',
        notes=dict(many='70 nodes in 2 or 3 groups', nodes3='3 nodes in up to 2 groups, families of 3 sets', nodes_far='2 nodes at IDs 0 and 40', res_flat='results of 3-node FBASs', res_orgs='results of 2 organisations of 2', res_tail='results of a core behind a tail, IDs up to 70', res_dead='results of family dead', res_core='results of family tiers',
            qset_flat='any of 4 validators, up to 2 groups', qset_nested='two inner sets, up to 3 groups of 5 nodes', qset_mixed='validators next to an inner set, up to 4 groups', qset_any='any nested quorum set over 3 nodes', qset_deep='three levels, up to 3 groups of 4 nodes', shrunken='4 nodes in up to 3 groups, any nodes kept')),
    C14=plain('c14', 'intersect2 intersect3 intersect4 intersect_far intersect_few intersect_many involved involved_far is_min2 is_min3 is_min_far min2 min3 min3_far min4 min4x min_few min_many intersect_wide involved_wide is_min_wide min3_wide', bounds='families of up to 4 sets, 2 sets of 8 IDs to 4 sets of 3 IDs',
        notes=dict(intersect_wide='3 sets of IDs 0, 31, 64, 130', involved_wide='3 sets of IDs 0, 31, 64, 130', is_min_wide='3 sets of IDs 0, 31, 64, 130', min3_wide='3 sets of IDs 0, 31, 64, 130', intersect2='2 sets of up to 8 IDs', intersect3='3 sets of up to 5 IDs', intersect4='4 sets of up to 3 IDs', intersect_far='3 sets of IDs 0, 3, 31, 40', intersect_few='families of 0 and 1 sets', intersect_many='71 sets, of which one may miss what the others share', min_many='280 sets of 2 or 3 of 12 nodes', involved='3 sets of up to 8 IDs', involved_far='3 sets of IDs 0, 3, 31, 40', is_min2='2 sets of up to 8 IDs', is_min3='3 sets of up to 5 IDs', is_min_far='3 sets of IDs 0, 3, 31, 40', min2='2 sets of up to 5 IDs', min3='3 sets of up to 3 IDs', min3_far='3 sets of IDs 0, 3, 31, 40', min4='4 sets of up to 2 IDs', min4x='4 sets of up to 3 IDs', min_few='families of 0 and 1 sets')),
    C15=plain('c15', 'self2 self3 far tail orgs dead sym ring wide pretty groups_flat groups_nested groups_deep plain', bounds='results of FBASs of up to 6 nodes (130 in wide), any lists of nodes to drop (2 at most, or all but one, where larger)',
        notes=dict(self2='all 2-node FBASs with satisfiable thresholds', self3='all such 3-node FBASs', far='IDs 4, 33, 40', tail='a core behind a tail, IDs up to 70', orgs='2 organisations of 3', dead='a core with a possibly dead organisation', sym='one quorum set for 1 to 5 nodes', ring='a ring of 4', wide='35, 70 or 130 nodes that are only together a quorum', pretty='nested quorum set with symbolic thresholds', groups_flat='a quorum set of up to 4 nodes in 2 groups', groups_nested='two inner sets, 3 groups', groups_deep='three levels, 3 groups', plain='numbers and truth values')),
    C16=plain('c16', 'flat two nested keys digits write_flat write_nested write_far file', bounds='up to 3 nodes (33 in write_far), quorum sets of up to 3 levels, thresholds out of 0, 1, 2, 10, 99, 2^32, 2^64-2, 2^64-1 and, in digits, every one- and two-digit number',
        notes=dict(flat='one quorum set with any of 4 validators, every threshold of the list, three layouts', two='two nodes with or without quorum sets', nested='inner sets, in any order', keys='pairs of 8 unusual public keys', digits='threshold text of two symbolic digits, read and written', write_flat='3 nodes with any validators, thresholds 0 to 3', write_nested='two inner sets', write_far='33 nodes', file='2 nodes, through files')),
    C17=plain('c17', 'isp1 isp2 isp3 country2 country3 unknown orgs file many', bounds='up to 3 nodes with names of up to 4 characters out of a, B, comma, full stop, e acute, blank; up to 4 nodes in up to 4 organisations',
        notes=dict(many='40 nodes with names of up to 135 characters', isp1='one name of up to 4 characters', isp2='two names of up to 2 characters', isp3='three names of up to 1 character', country2='two names of up to 2 characters', country3='three names of up to 1 character', unknown='the last node of the text is unknown', orgs='4 nodes, up to 3 organisations and one of unknown nodes', file='three names, through files')),
    C18=plain('c18', 'read2 read3 read_tail1 read_tail2 write3 write4 mutual5 far file farther many', bounds='texts of up to 3 lines, graphs of up to 5 nodes (IDs up to 12)', assume=['graphs have no self-loops'],
        notes=dict(farther='IDs 9, 64, 300', many='70 nodes in a row, with some one-way links', read2='2 lines, IDs 0, 1, 2, 9, 12', read3='3 lines, IDs 0 to 2', read_tail1='any printable character after a link or a comment sign', read_tail2='any two', write3='any graph of 3 nodes', write4='any graph of 4 nodes', mutual5='any undirected graph of 5 nodes', far='IDs 1, 9, 10', file='any graph of 3 nodes, through files', direction='the known finding')),
    C19=plain('c19', 'mesh tiers2 tiers3 tiers4 tiers_few sf221 sf222 sf331 sf332 sf333 sf732 sf_all sw42 sw52 sw62 sw64 sw_all sw_one sw_full queries3 queries4 ranks3 ranks4 shuffled3 shuffled4 shuffles mesh_big tiers_big', must=dict(c19_shuffles=[1, 2, 3, 4, 5, 6]), bounds='graphs of up to 12 nodes, up to 4 tiers',
        assume=['parameters are sensible: scale-free m0 >= 2 and 1 <= m <= m0 <= n, small-world even k < n'],
        notes=dict(mesh_big='33 or 65 nodes', tiers_big='up to 12 tiers of up to 70 nodes', mesh='up to 7 nodes', tiers2='2 tiers of up to 4', tiers3='3 tiers of up to 3', tiers4='4 tiers of 1 or 2', tiers_few='no tier or one', sf732='7 nodes, m0 3, m 2', sw62='6 nodes, k 2, beta 0.5', sw64='6 nodes, k 4, beta 0.5', sw_all='3 to 7 nodes, beta 0', sw_one='4 or 5 nodes, k 2, beta 1', sw_full='complete rings', queries4='any graph of 4 nodes', ranks4='any graph of 4 nodes', shuffles='all 6 orders of 3 nodes can come up')),
    C20=plain('c20', 'moody0 moody2 moody3 grow2 grow_on grow_none ideal ideal_on ideal3 safe safe_on safe3 random_on random_on3 random_on_grow dummy dummy_grow random2 random_more random_at_once random_weights random_weights_few random_weights_any random_weights_none orders recorded long', must=dict(c20_orders=[1, 2, 3, 4, 5, 6]), bounds='up to 3 nodes, up to 3 rounds of reevaluation, growth in up to 2 steps',
        notes=dict(long='one node that changes up to 1100 times, up to 1200 rounds', moody2='2 nodes, up to 3 rounds, a configurator that changes what it likes', moody3='3 nodes, up to 2 rounds', grow2='growth by 2', grow_on='growth of 2 nodes by 1', ideal3='3 nodes that begin with any of several quorum sets over all nodes, any thresholds', safe3='3 nodes that begin likewise', random_on='2 nodes with any validators to begin with', random_on3='3 such nodes', random_on_grow='2 such nodes and growth by 1', orders='all 6 orders of 3 nodes can come up', recorded='the recording monitor')),
    C21=plain('c21', '67p 67p_far share parts fine percent monotone', '67p_16 67p_20 share12 share16 parts64', z3_timeout=900000, bounds='two-thirds thresholds of 1 to 16384 nodes and of 129 numbers around every second power of 2 from 2^14 to 2^28; shares in 16ths of up to 255 nodes, in units of 2^-44 of up to 8 nodes, in 1024ths of up to 16 nodes, in percent of up to 100 nodes',
        notes={'67p': 'every number of nodes up to 16384, symbolic, in floating-point arithmetic', '67p_16': 'up to 65536 nodes, symbolic', '67p_20': 'up to 1048576 nodes, symbolic', '67p_far': 'numbers around powers of 2, cases split by the solver', 'share': 'shares in 16ths, up to 255 nodes, symbolic', 'share12': 'shares in 64ths, up to 4095 nodes, symbolic', 'share16': 'shares in 64ths, up to 65535 nodes, symbolic', 'parts': 'symbolic shares in 1024ths, up to 16 nodes', 'fine': 'symbolic shares in units of 2^-44, up to 8 nodes', 'parts64': 'symbolic shares in 1024ths, 17 to 64 nodes', 'percent': 'cases split by the solver', 'monotone': 'shares in 20ths, up to 24 nodes, cases split by the solver'}),
    C22=plain('c22', 'label label3 inputs1 inputs2 inputs3 tasks csv csv_labels point2 point3 files perf_sizes perf_stellar perf_resume', 'point3_each', bounds='names of up to 3 parts, up to 3 input files, 4 labels, FBASs of up to 3 nodes in 2 organisations, benchmarked FBASs of up to 6 nodes, up to 3 threads', assume=['a task of a worker thread runs in one go; tasks end in any order'],
        notes=dict(label3='names of up to 3 parts out of 7', inputs3='3 files out of 7 kinds', tasks='up to 3 inputs, any of 4 earlier results', csv='a data point with unusual numbers', csv_labels='2 labels of up to 2 unusual characters', point2='any satisfiable thresholds, nodes in up to 2 groups', point3='3 nodes that share a quorum set, in up to 2 groups', point3_each='3 nodes with quorum sets of their own', files='up to 2 input files and an earlier output', perf_sizes='up to 6 nodes, up to 2 runs', perf_stellar='up to 6 nodes in organisations of 3', perf_resume='any of 6 earlier results')),
    C23=plain('c23', 'pair1 pair2 triple1 names history2 history3 history4 quorum_sets many', 'triple2', bounds='FBASs of up to 6 nodes, up to 4 operations, quorum sets of up to 2 levels',
        notes=dict(many='70 nodes, one of which differs', pair2='2 FBASs of 2 nodes', triple1='3 FBASs of 1 node', names='2 FBASs read from JSON', history4='4 operations', quorum_sets='2 quorum sets')),
    C25=plain('c25', 'neighbors3 neighbors_self neighbors4 global3 global4 global_star higher3 higher_star symmetric3 symmetric4 symmetric_star less_neighbors less_higher less_symmetric less_star many', bounds='graphs of up to 5 nodes, every node configured twice',
        notes=dict(many='a full mesh of 35 nodes', neighbors3='any graph of 3 nodes, any of them configured before', neighbors_self='graphs with self-loops', neighbors4='undirected graphs of 4 nodes', global3='any graph of 3 nodes', global4='undirected graphs of 4 nodes', global_star='a core of 3 and 2 attached nodes', symmetric4='undirected graphs of 4 nodes', less_neighbors='an FBAS of 2 nodes and any graph of 3', less_higher='an FBAS of 2 or 3 nodes and undirected graphs of 4, symmetry enforced or not', less_symmetric='an FBAS of 2 nodes and any graph of 3', less_star='an FBAS of 3 or 4 nodes and a core with nodes attached')),
    C26=plain('c26', 'links2 links3 inner2 core4 ring tiers dups deep far many', 'links4', bounds='FBASs of up to 7 nodes, every subset of their nodes (all of them in ring and deep)',
        notes=dict(many='30 nodes', links2='any trust links between 2 nodes', links3='any trust links between 3 nodes', links4='any trust links between 4 nodes', inner2='any links of 2 nodes on two levels', core4='a ring of 4 with any links of its core', ring='a ring of 6', tiers='a core of 4, a chain of watchers', dups='3 nodes that list each other up to twice', deep='quorum sets nested three levels deep', far='IDs 31 and 64')),
    C27=plain('c27', 'flags2 shared3 merge3 super_safe ideal random fame neighbors higher symmetric global scale_free small_world', bounds='networks of up to 3 nodes, every combination of the options named per entry, graphs of 3 or 4 nodes', assume=['libbz2 is a stand-in that stores what it is given'],
        notes=dict(flags2='fbas_analyzer on all 2-node FBASs, from a file or standard input, any of -q -b -s -a -p -d, --alternative-quorum-intersection-check, --dont-check-quorum-intersection, --results-only', shared3='the same on 3 nodes sharing a quorum set', merge3='any of --merge-by-org, --merge-by-isp, --merge-by-country on 3 nodes in up to 2 groups, from a file (-d or not) or standard input', super_safe='qsc_simulator with up to 2 initial nodes and growth by up to 1', neighbors='graphs of 3 nodes from a file or standard input', fame='graphs of 3 nodes', scale_free='graph_generator, shuffled or not, into a file or on standard output', small_world='the same for rings')),
)
