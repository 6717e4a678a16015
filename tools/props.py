"""What each check generates, which functions decide the property, and the level claimed."""
BASE = ['errors', 'parser_data', 'sets', 'peekables', 'parse_funcs', 'tree', 'vms']
PROOF = 'Every obligation of the functions named in the evidence is discharged by Verus on the current source, for all inputs. '
BOUNDED = ('Bounded stand-in, never counted as proved: the functions are not yet within reach of the contracts; a random search with an independent oracle runs them on the real code '
           '(7 processes, 25 s quick, 240 s thorough, sizes up to those in the evidence). ')
GRAPH_ASSUME = ('Preconditions: edge ids below usize::MAX when an id is generated, source and target are nodes of the graph, the numbers of nodes and edges of two embedded graphs add up within usize. '
                'One `continue` in a for loop (try_add_edge_with_id) is checked as if/else, see the mechanical rewrites. ')
TREE_ASSUME = ('Assumed: fewer than 2^64 nodes are ever added to one tree (the pk counter never wraps), a caller does not swap whole nodes through get_node_mut, '
               'the node handed to get_nth_child belongs to the tree; std Vec, atomic counter and iterator contracts as listed. ')
GRAM_ASSUME = ('Precondition (gram_ok): every production mentions elements of the grammar only and a non-empty production has an element; parser_data keeps it (P12, P13). '
               'Assumed: std HashMap, HashSet (from, clone, extend, difference, remove) and iterator adapter contracts as listed; derived Eq, Hash and Clone of the member types are structural. ')
VMS = ['vms', 'vms/counting_vm', 'vms/simple_stack_vm', 'vms/stack_vm']
PROPS = {
    'P01': dict(mods=BASE + ['first_sets'], fns=[('first_sets', '.*'), ('grammar', r'.*lemma_(null|starts|stays|grounded|chain).*')], note=PROOF + GRAM_ASSUME),
    'P02': dict(mods=BASE + ['simple_graph', 'named_graph', 'first_sets', 'follow_sets'],
                fns=[('follow_sets', '.*'), ('first_sets', r'.*first_set_of_partial.*'), ('named_graph', '.*'), ('simple_graph', r'.*(add_node|add_edge|get_node|successors|next|lemma).*')],
                note=PROOF + GRAM_ASSUME + 'Precondition: the FIRST sets handed in are exact, which is what get_first_sets is proved to return. ' ),
    'P03': dict(mods=BASE + ['first_sets', 'steuer_map'], fns=[('steuer_map', '.*'), ('first_sets', r'.*(first_set_of_partial|lemma).*'), ('sets', '.*')],
                note=PROOF + GRAM_ASSUME + 'Precondition: the FIRST sets handed in are exact, which is what get_first_sets is proved to return; the table is exact with respect to the FOLLOW sets handed in, proved exact under P02. '
                     'The loop over a map by value is checked through a contract of HashMap::into_iter, std::mem::take by its own.'),
    'P04': dict(mods=BASE + ['steuer_sets'], fns=[('steuer_sets', '.*'), ('sets', '.*')], note=PROOF + 'Assumed: std HashMap, HashSet and iterator adapter (filter, map, collect) contracts listed in the evidence; derived PartialEq and Hash are structural.'),
    'P09': dict(mods=BASE + ['simple_graph', 'named_graph', 'first_sets', 'follow_sets', 'steuer_map', 'steuer_sets'],
                fns=[('first_sets', '.*'), ('follow_sets', '.*'), ('steuer_map', '.*'), ('steuer_sets', '.*'), ('named_graph', '.*'), ('simple_graph', r'.*(add_node|add_edge|get_node|successors|next|lemma).*'), ('grammar', '.*')],
                note=PROOF + GRAM_ASSUME + 'Termination: every loop and recursion of the analysis has a decreasing measure; absence of panics: every unwrap, index and arithmetic operation has its obligation. '
                     'Left recursion: LeftRecursion is returned only on a real left path and a result only without one. Not covered: stack depth on very deep grammars (the recursion is as deep as the longest left path).'),
    'P10': dict(mods=BASE, fns=[('peekables', '.*')], note=PROOF + 'Assumed: the contracts of std Peekable and Chars listed in the evidence; fewer than 2^64 characters.'),
    'P11': dict(mods=BASE, fns=[('parse_funcs', '.*'), ('peekables', '.*')], note=PROOF + 'Assumed: std Peekable, char classification and str::parse contracts listed in the evidence.'),
    'P12': dict(mods=BASE, fns=[('parser_data', r'.*(Element|get_|new|get_or_add).*')], note=PROOF + 'Assumed: std HashMap, Vec and String contracts; derived Eq and Hash are structural.'),
    'P13': dict(mods=BASE, fns=[('parser_data', '.*')], note=PROOF + 'Assumed: std HashMap and Vec contracts.'),
    'P16': dict(mods=BASE, fns=[('tree', '.*')], note=PROOF + TREE_ASSUME),
    'P17': dict(mods=BASE, fns=[('tree', '.*')], note=PROOF + TREE_ASSUME),
    'P18': dict(mods=BASE + ['simple_graph'], fns=[('simple_graph', r'(?!.*add_graph_at_node|lemma_chain_shift|shift|is_shifted).*')], note=PROOF + GRAPH_ASSUME + 'Assumed: std Vec contracts.'),
    'P19': dict(mods=BASE + ['simple_graph'], fns=[('simple_graph', '.*')], note=PROOF + GRAPH_ASSUME + 'Assumed: std Vec contracts and append/extend of vectors as listed.'),
    'P20': dict(mods=BASE + ['simple_graph', 'named_graph'], fns=[('named_graph', '.*'), ('simple_graph', '.*')], note=PROOF + GRAPH_ASSUME + 'Assumed: std HashMap and Option::map contracts.'),
    'P21': dict(mods=BASE + ['vms/counting_vm', 'vms/simple_stack_vm', 'vms/stack_vm'],
                fns=[(m, r'.*(execute_instruction|create_new_state|checked_pow_add|increment_counter|null_instruction|new|keeps).*') for m in VMS],
                note=PROOF + 'Each machine has its transition function (step) and the numbers it prints as specification; println! itself is an assumed primitive, the text "{value}" around it is not modelled. '
                     'Assumed: str::parse for signs and odd texts is whatever Rust reads (exact for plain digits), contracts of checked_pow, checked_mul, Option::flatten, Vec as listed; a counter stays below usize::MAX.'),
    'P22': dict(mods=BASE + ['vms/counting_vm', 'vms/simple_stack_vm', 'vms/stack_vm'],
                fns=[(m, r'.*(parse_instructions|parse_const|lemma).*') for m in VMS] + [('parse_funcs', '.*'), ('peekables', '.*')],
                note=PROOF + 'Reading a section always comes to an end (every loop has a measure over the fuel of the stream). An instruction name that is no instruction is skipped, as the code documents. '
                     'Assumed: a match on a str compares its chars; contracts of parse, try_from and Vec as listed.'),
}
_PARSE = BASE + ['simple_graph', 'named_graph', 'first_sets', 'follow_sets', 'steuer_map', 'rule_parsing', 'script_parser']
_PARSER = ('Machine hypothesis: executing an instruction leaves the tree as it is (vms::keeps_tree; P21 proves it of the shipped machines). '
           'A constructor panics on a grammar the analysis rejects, as documented; the built parser carries its grammar as ghost state. Not covered: stack depth on deeply nested inputs, the text of `expected` in an error. ')
for _p, _f in [('P05', []), ('P06', [('tree', r'.*(add_node|alloc|new|lemma).*')]), ('P07', []), ('P08', [])]:
    PROPS[_p] = dict(mods=_PARSE, fns=[('script_parser', '.*'), ('rule_parsing', '.*'), ('text', '.*'), ('peekables', '.*'), ('steuer_map', '.*'), ('sets', '.*')] + _f, note=PROOF + _PARSER + GRAM_ASSUME)
_TEXT = ('The form of a grammar text and what it means are specification functions (spec/text.rs): a text is accepted exactly if it has the form, its sections are readable by the machine and no ignored symbol is lost, '
         'and the data built is then what the text means. Reading always comes to an end (every loop has a measure over the fuel of the stream). '
         'Assumed: std HashMap, HashSet, Vec, Option contracts as listed, String keys compare by their chars. ')
_RULES = BASE + ['rule_parsing']
PROPS['P14'] = dict(mods=_RULES, fns=[('rule_parsing', '.*'), ('text', '.*'), ('parse_funcs', '.*'), ('peekables', '.*'), ('parser_data', '.*')], note=PROOF + _TEXT)
PROPS['P15'] = dict(mods=_RULES, fns=[('rule_parsing', '.*'), ('text', '.*'), ('parser_data', '.*')], note=PROOF + _TEXT)
NA = {}
