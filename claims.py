"""What each check decides and with what (read by check.py and mkmanifest.py)."""
TRUSTED = [
    'the VC generator cv/ (C subset semantics, memory model; self-tests in cv/selftest.py)',
    'SMT solvers z3 4.8.12, z3-new, cvc5 1.1.2 (an obligation counts when any one answers unsat)',
    'pycparser front end over gcc -E output with the stub libc headers in cv/fakelibc',
    'built-in contracts for memcpy/memmove/memset/memcmp/malloc family (f_malloc, f_calloc, f_realloc, f_free), qsort and assert',
]
ASSUMPTIONS = [
    'sequential execution; single-threaded callers',
    'LP64 data model; size_t arithmetic is checked modulo 2^64 or shown not to wrap; object sizes stay below 2^47 bytes',
    'strict typed memory: a block holds one element type; distinct fields do not alias; unions and casts between object types only where the spec lists them',
    'assert() is checked as an obligation and then assumed; abort()/exit() end the path',
    'the caller-supplied allocator behaves like malloc/realloc/free, and may fail at any call',
    'termination is proved only for loops with a variant clause; recursion depth is not bounded',
    'trusted contracts listed in trusted_base are assumed, not proved',
]


def C(parts, props, rule, budget=22, re=False): return {'parts': parts, 'props': props, 'rule': rule, 'budget': budget, 're': re}


CLAIMS = {}


def claim(pid, explanation, proof, conc, level='proof', assumptions=()):
    CLAIMS[pid] = {'level': level, 'explanation': explanation, 'proof': proof, 'conc': conc, 'assumptions': list(assumptions)}


RULE_ADT = 'random operation sequences on the real container against a mathematical model, sanitizers on; non-trivial when the model is non-empty; distinct by operation log'
RULE_OPS = 'random small automata (up to ~8 states, a few labels incl. 0x00 and 0xff, epsilons, ids, outputs) put through the real operation and compared with an independent reference semantics by exact product search; non-trivial when the language involved is neither empty nor everything or ids are present; distinct by machine text'

SS = ['state_set_cmp', 'state_set_search', 'state_set_create', 'state_set_free', 'state_set_empty', 'state_set_only', 'state_set_contains', 'state_set_count',
      'state_set_add', 'state_set_add_bulk', 'state_set_remove', 'state_set_copy', 'state_set_reset', 'state_set_next', 'state_set_has', 'state_set_array', 'state_set_rebase', 'state_set_replace', 'state_set_compact']
claim('C16',
      'Every state_set_* function is under contract in specs/stateset.spec over the abstract membership predicate ss_mem and the representation invariant ss_wf (sorted, duplicate free, singleton encoding); '
      'each postcondition states the exact set operation and the frame. All obligations are generated from src/adt/stateset.c on this run and discharged for all inputs.',
      [('stateset.spec', SS)], C(['adt'], [('C16', 1.0)], RULE_ADT, 12))

claim('C15',
      'fsm_setend, fsm_setstart, fsm_clearstart, fsm_getstart and fsm_isend are under contract: the accepting flag becomes exactly the truth value given, endcount equals the number of set flags '
      '(recursive logic function nends with lemmas proved by induction), the start is the one last set, and the frame clauses say nothing else changes; fsm_addstate and fsm_addstate_bulk keep all of it and add states that do not accept. The effects of removing and merging states on this bookkeeping are bounded.',
      [('fsm.spec', ['fsm_setend', '@lemmas']), ('start.spec', ['fsm_clearstart', 'fsm_setstart', 'fsm_getstart']), ('isend.spec', ['fsm_isend']), ('state.spec', ['fsm_addstate', 'fsm_addstate_bulk'])],
      C(['ops'], [('C15', 1.0)], RULE_OPS, 12))

ES = ['edge_set_new', 'edge_set_free', 'grow_groups', 'init_empty', 'find_state_position', 'find_first_group_label', 'edge_set_empty', 'edge_set_add_bulk', 'edge_set_add',
      'edge_set_advise_growth', 'edge_set_add_state_set', 'edge_set_find', 'edge_set_contains', 'edge_set_transition', 'edge_set_remove', 'edge_set_remove_state', 'edge_set_reset', 'edge_set_next',
      'edge_set_rebase', 'edge_set_ordered_iter_reset_to', 'edge_set_ordered_iter_reset', 'edge_set_ordered_iter_next', 'edge_set_check_edges_with_EC_mapping', 'edge_set_hasnondeterminism',
      'edge_set_copy_into', 'edge_set_copy', 'edge_set_replace_state', 'edge_set_count', 'edge_set_group_iter_reset', 'edge_set_group_iter_next', '@lemmas']
BM = ['bm_get', 'bm_set', 'bm_unset', 'bm_next', 'bm_clear', 'bm_invert', 'bm_copy', 'bm_intersect', 'bm_union', 'bm_any', 'u64bitset_words']
claim('C17',
      'The edge_set_* functions are under contract in specs/edgeset.spec over the relation es_mem(set, symbol, state) and the representation invariant es_wf (groups sorted by distinct destination); postconditions '
      'state the exact relation after every operation, the frame, and that each iterator yields only recorded edges and skips none. Counting and the group iterators included. Bounded: edge_set_compact (it sorts structures with qsort).',
      [('edgeset.spec', ES)], C(['adt'], [('C17', 1.0)], RULE_ADT, 12), assumptions=['edge_set_find/next/transition: destination states below 2^24 (struct fsm_edge packs the state into 24 bits)'])

claim('C12',
      'Every state predicate (accepting, complete, deterministic, has/only epsilons, outgoing, incoming, any, per-state nondeterminism), fsm_all/has/count, fsm_findmode, the two walks and the reachability search are under contract over the '
      'transition relation g_sym/g_eps of the machine; the contracts of fsm_addedge_* tie that relation to the edges added. Walk visitors carry a protocol contract (ghost log): each edge once, none missed, none after a stop. '
      'Reachability is the least fixed point. Bounded: fsm_hasnondeterminism across epsilon moves, fsm_countedges, fsm_walk2.',
      [('addedge.spec', ['fsm_addedge_literal', 'fsm_addedge_epsilon', 'fsm_addedge_any']), ('isend.spec', ['fsm_isend']), ('isany.spec', ['fsm_isany']), ('hasepsilons.spec', ['fsm_hasepsilons']),
       ('epsilonsonly.spec', ['fsm_epsilonsonly']), ('hasoutgoing.spec', ['fsm_hasoutgoing']), ('hasincoming.spec', ['fsm_hasincoming']), ('iscomplete.spec', ['fsm_iscomplete']), ('isdfa.spec', ['fsm_isdfa']),
       ('nondet.spec', ['state_hasnondeterminism']), ('walk_iter.spec', ['fsm_walk_states', 'fsm_walk_edges']), ('walk_pred.spec', ['fsm_all', 'fsm_has', 'fsm_count']), ('mode.spec', ['fsm_findmode', '@lemmas']),
       ('reach.spec', ['fsm_reachable', '@lemmas'])],
      C(['ops'], [('C12', 1.0)], RULE_OPS, 12), assumptions=['fewer than 2^24 states (struct fsm_edge packs the state into 24 bits)', 'predicates and visitors passed by the caller do not modify the machine'])

claim('C08',
      'The language of a machine is defined over its real transition sets (runs are a least fixed point over word positions, specs/lang.spec); machine-checked lemmas show a word is accepted exactly when an accepting state is reachable from the '
      'start. fsm_empty is under contract against that (reachability search, predicate passed as a function, included), and fsm_equal/subsetof return 1 / 0 exactly when the languages are / are not equal and -1 otherwise, given the contract of '
      'the subtraction they call. That contract (the product construction, property C07) and fsm_free are assumed here; bounded: both, through the whole-operation comparison.',
      [('empty.spec', ['fsm_empty']), ('equal.spec', ['empty', 'subsetof', 'fsm_equal', '@lemmas']), ('lang.spec', ['@lemmas']), ('reach.spec', ['fsm_reachable', 'fsm_reachableany', '@lemmas']), ('isend.spec', ['fsm_isend']), ('start.spec', ['fsm_getstart'])],
      C(['ops'], [('C08', 1.0)], RULE_OPS, 12), assumptions=['equal.c subtract(): contract assumed (bounded check only)', 'fsm_free(): releases only the memory of its argument', 'comprehension axioms: a set exists for every property of states or positions (lang.spec)'])

claim('C11',
      'fsm_exec is under contract for every deterministic machine, every stream of characters the getc callback may deliver and any length: it returns 1 exactly when the word read is in the language (least fixed point of runs over the real '
      'transition sets), the state reported is the one accepting state the word leads to, 0 exactly when the word is not accepted, -1 exactly when there is no start state or the machine is not deterministic; the callback is asked once per '
      'character and never after the end of input. Uniqueness of the run in a deterministic machine is a machine-checked lemma. Capture updates and eager-output callbacks are assumed not to touch the machine; bounded: those, and fsm_sgetc.',
      [('exec.spec', ['transition', 'fsm_exec']), ('lang.spec', ['@lemmas']), ('isdfa.spec', ['fsm_isdfa']), ('nondet.spec', ['state_hasnondeterminism']), ('isend.spec', ['fsm_isend']), ('walk_pred.spec', ['fsm_all']), ('start.spec', ['fsm_getstart']), ('edgeset.spec', ['edge_set_transition', 'edge_set_hasnondeterminism'])],
      C(['ops'], [('C11', 1.0)], RULE_OPS, 12), assumptions=['fewer than 2^24 states', 'capture and eager-output functions called by fsm_exec: assumed not to modify the machine', 'inputs shorter than 2^31 characters',
       'comprehension axioms: a set exists for every property of states or positions (lang.spec)'])

claim('C14',
      'fsm_addstate and fsm_addstate_bulk are under contract: on success exactly the asked number of states is added, with ids following on, without edges and not accepting; the transition relation, accepting states, start and flags '
      'of every earlier state are unchanged, through the reallocation too, and a failure leaves them so. The renumbering, merging and compacting of the sets states are made of (state_set_replace/compact/rebase, edge_set_remove_state/replace_state/rebase) '
      'are under contract over the relations ss_mem/es_mem. Bounded: fsm_removestate, fsm_compact_states, fsm_mergestates and fsm_merge as wholes, and edge_set_compact.',
      [('state.spec', ['fsm_addstate', 'fsm_addstate_bulk', '@lemmas']), ('stateset.spec', ['state_set_remove', 'state_set_replace', 'state_set_compact', 'state_set_rebase', 'state_set_copy', 'state_set_add', 'state_set_add_bulk']),
       ('edgeset.spec', ['edge_set_remove_state', 'edge_set_replace_state', 'edge_set_rebase', 'edge_set_copy', 'edge_set_copy_into', 'edge_set_add_bulk']), ('fsm.spec', ['fsm_setend', '@lemmas'])],
      C(['ops'], [('C14', 1.0)], RULE_OPS, 12), assumptions=['fewer than 2^30 states in fsm_addstate_bulk'])

DEPS = [('state.spec', ['fsm_addstate']), ('addedge.spec', ['fsm_addedge_literal', 'fsm_addedge_any']), ('isdfa.spec', ['fsm_isdfa']), ('nondet.spec', ['state_hasnondeterminism']), ('iscomplete.spec', ['fsm_iscomplete']),
        ('isend.spec', ['fsm_isend']), ('fsm.spec', ['fsm_setend', '@lemmas']), ('walk_pred.spec', ['fsm_all', 'fsm_has'])]
claim('C06',
      'fsm_complement and fsm_complete are under contract over the language of the machine (runs over its real transition sets): after fsm_complete the machine is deterministic, every state has an edge for every byte (when the predicate accepts every '
      'state) and exactly the same words are accepted; after fsm_complement a word of bytes is accepted exactly when it was not before. The contracts hold for every machine with a start state; two-state lemmas (adding a dead state, inverting every '
      'accepting flag of a complete deterministic machine) are machine-checked. The calls of fsm_determinise and fsm_trim are by contracts assumed here; bounded: both, through the whole-operation comparison.',
      [('complement.spec', ['fsm_complement']), ('complete.spec', ['fsm_complete', '@lemmas']), ('langops.spec', ['@lemmas']), ('lang.spec', ['@lemmas'])] + DEPS,
      C(['ops'], [('C06', 1.0)], RULE_OPS, 12), assumptions=['fsm_determinise(): same words, deterministic, fewer than 2^24 states (bounded check only)', 'fsm_trim(): same words (bounded check only)', 'the machine has a start state and fewer than 2^24 states',
       'comprehension axioms: a set exists for every property of states or positions (lang.spec, langops.spec)'])


claim('C20',
      'queue_new/push/pop/free are under contract over the sequence of queued states (q_at, q_len): first in, first out, growing when allowed, failing without effect otherwise. Every bm_* function of the byte bitmap and u64bitset_words are under '
      'contract over the set of bits; state sets and edge sets have their own properties (C16, C17). Each container function is also proved to access only memory of its own container. Bounded: the priority queue, the id map, the pair set, interned state sets.',
      [('queue.spec', ['queue_new', 'queue_push', 'queue_pop', 'queue_free', '@lemmas']), ('bitmap.spec', BM)],
      C(['adt'], [('C20', 1.0)], RULE_ADT, 12))

SSD = ['state_set_add', 'state_set_contains', 'state_set_reset', 'state_set_next', 'state_set_copy', 'state_set_add_bulk', 'state_set_free']
ESD = ['edge_set_add', 'edge_set_add_bulk', 'edge_set_contains', 'edge_set_transition', 'edge_set_reset', 'edge_set_next', 'edge_set_group_iter_reset', 'edge_set_group_iter_next']

BND = ' Proved for all inputs: the contracts listed in the evidence under functions_under_contract. '
def bclaim(pid, proved, bounded, proof, parts=('ops',), rule=None, budget=20, assumptions=()):
    claim(pid, proved + ' Bounded stand-in (not proved): ' + bounded, proof, C(list(parts), [(pid, 1.0)], rule or RULE_OPS, budget), level='other', assumptions=assumptions)


bclaim('C01', 'Under contract: the set operations determinisation is built from (interning and extending state sets, the group iterators it reads labels with, bulk state and edge creation), the determinism predicate its result is stated with.',
       'fsm_determinise and fsm_determinise_with_config as wholes: exact language and end-id comparison on random machines, state limits included.',
       [('stateset.spec', SSD + ['state_set_cmp']), ('edgeset.spec', ESD + ['edge_set_hasnondeterminism']), ('isdfa.spec', ['fsm_isdfa']), ('state.spec', ['fsm_addstate_bulk']), ('fsm.spec', ['fsm_setend', '@lemmas'])])
bclaim('C02', 'Under contract: the determinism predicate, the end-state bookkeeping and the transition-set lookups minimisation partitions by.', 'fsm_minimise as a whole: exact language and end-id comparison and pairwise inequivalence of the states left, on random machines.',
       [('isdfa.spec', ['fsm_isdfa']), ('edgeset.spec', ['edge_set_transition', 'edge_set_check_edges_with_EC_mapping', 'edge_set_hasnondeterminism']), ('isend.spec', ['fsm_isend'])])
bclaim('C03', 'Under contract: the epsilon closure itself (epsilon_closure, epsilon_closure_single, closure_free: exactly the states reachable by empty moves), the empty-move predicate, state-set and edge-set extension and the queue used by the closure; as lemmas over the real data structures: a machine without empty moves whose edges and accepting flags are those of the closures of the states that can still be entered has the language of the machine before.', 'fsm_remove_epsilons as a whole: exact language, end-id and output comparison on random machines.',
       [('closure.spec', ['epsilon_closure', 'epsilon_closure_single', 'closure_free', '@lemmas']), ('rmeps.spec', ['@lemmas']), ('hasepsilons.spec', ['fsm_hasepsilons']), ('stateset.spec', SSD), ('edgeset.spec', ['edge_set_add_bulk', 'edge_set_add', 'edge_set_group_iter_reset', 'edge_set_group_iter_next', 'edge_set_copy']), ('queue.spec', ['queue_push', 'queue_pop', 'queue_new', 'queue_free', '@lemmas'])])
bclaim('C04', 'Under contract: adding the empty moves and states a union is made of, and start bookkeeping.', 'fsm_union, fsm_union_array and fsm_merge as wholes: exact language and id comparison on random machines.',
       [('addedge.spec', ['fsm_addedge_epsilon']), ('state.spec', ['fsm_addstate']), ('start.spec', ['fsm_setstart', 'fsm_getstart'])])
bclaim('C05', 'Under contract: the predicates, end-state bookkeeping and empty moves a concatenation is made of.', 'fsm_concat as a whole: exact language and id comparison on random machines.',
       [('addedge.spec', ['fsm_addedge_epsilon']), ('fsm.spec', ['fsm_setend', '@lemmas']), ('walk_pred.spec', ['fsm_has']), ('start.spec', ['fsm_setstart', 'fsm_getstart'])])
bclaim('C07', 'Under contract: the determinism test that selects the construction and the edge iteration of the product walk.', 'fsm_intersect and fsm_subtract as wholes: exact language comparison on random machines.',
       [('isdfa.spec', ['fsm_isdfa']), ('walk_pred.spec', ['fsm_all']), ('nondet.spec', ['state_hasnondeterminism']), ('addedge.spec', ['fsm_addedge_literal', 'fsm_addedge_epsilon'])])
bclaim('C09', 'Under contract: the additions of states, edges and empty moves a reversal is made of.', 'fsm_reverse as a whole: exact language comparison on random machines.',
       [('addedge.spec', ['fsm_addedge_literal', 'fsm_addedge_epsilon']), ('state.spec', ['fsm_addstate']), ('start.spec', ['fsm_setstart', 'fsm_clearstart'])])
bclaim('C10', 'Under contract: reachability from the start is the least fixed point (fsm_reachable), and the set edits that remove states.', 'fsm_trim as a whole: states removed, distances, language and ids compared on random machines.',
       [('reach.spec', ['fsm_reachable', '@lemmas']), ('edgeset.spec', ['edge_set_remove_state']), ('stateset.spec', ['state_set_remove', 'state_set_compact'])])
claim('C13',
      'fsm_clone is under contract: a machine returned is made of memory of its own only (fresh struct, state array, edge sets and state sets, none shared with the original or anything else), has the same number of states, the same labelled transitions and '
      'empty moves, the same accepting states and the same start, and satisfies every invariant of a machine; the original is unchanged. Since no memory is shared and each operation under contract touches only memory of its own machine (frame clauses), '
      'later changes of either do not reach the other. fsm_new_statealloc, fsm_free and free_contents are under contract too (every block freed once, nothing else). Bounded: the copies of end ids, eager outputs and captures, '
      'by whole-operation comparison and edits and frees of either side.',
      [('clone.spec', ['fsm_clone']), ('fsmc.spec', ['fsm_new_statealloc', 'fsm_new', 'fsm_free', 'free_contents', 'fsm_countstates']), ('state.spec', ['fsm_addstate_bulk', 'fsm_addstate', '@lemmas']), ('stateset.spec', ['state_set_copy', 'state_set_add', 'state_set_free']),
       ('edgeset.spec', ['edge_set_copy', 'edge_set_copy_into', 'edge_set_free']), ('fsm.spec', ['fsm_setend', '@lemmas']), ('start.spec', ['fsm_setstart', 'fsm_getstart']), ('isend.spec', ['fsm_isend'])],
      C(['ops'], [('C13', 1.0)], RULE_OPS, 12), assumptions=['copy_capture_actions, copy_end_ids, copy_eager_output_ids and the bookkeeping init/free functions: assumed to touch only their own bookkeeping', 'fewer than 2^30 states'])
claim('C34',
      'fsm_subgraph_duplicate is under contract: on success exactly end - start states are added, the new states carry the accepting status of the originals, an edge or empty move leads from one new state to another exactly when it does between the '
      'originals, nothing leads from them elsewhere, the original states, edges, accepting status and start are unchanged, and the state reported is the copy of the one asked for. fsm_subgraph_start/stop record the state count. Proved for every machine '
      'of fewer than 2^23 states. Bounded: fsm_intersect_charset (it runs the product construction).',
      [('subgraph.spec', ['fsm_subgraph_start', 'fsm_subgraph_stop', 'fsm_subgraph_duplicate']), ('fsmc.spec', ['fsm_countstates']), ('isend.spec', ['fsm_isend']), ('state.spec', ['fsm_addstate_bulk', 'fsm_addstate', '@lemmas']), ('addedge.spec', ['fsm_addedge_literal', 'fsm_addedge_epsilon']),
       ('stateset.spec', ['state_set_reset', 'state_set_next', 'state_set_add']), ('edgeset.spec', ['edge_set_reset', 'edge_set_next', 'edge_set_add']), ('fsm.spec', ['fsm_setend', '@lemmas'])],
      C(['ops'], [('C34', 1.0)], RULE_OPS, 12), assumptions=['fewer than 2^23 states', 'a failed duplication (allocation failure) may leave added states behind'])
claim('C35',
      'epsilon_closure, epsilon_closure_single and closure_free are under contract: for every state the set returned holds exactly the states reachable by empty moves (least fixed point: in every set of states that holds it and is closed under empty moves), '
      'cycles and closures reused from states done earlier included; the sets are well formed and share no memory with the machine, the array or each other; the empty moves of the machine and everything else of it are unchanged; '
      'freeing releases every block once. The queue and the state sets underneath are under contract too. A bounded comparison with a reference closure runs beside the proof.',
      [('closure.spec', ['epsilon_closure', 'epsilon_closure_single', 'closure_free', '@lemmas']), ('queue.spec', ['queue_new', 'queue_push', 'queue_pop', 'queue_free', '@lemmas']), ('stateset.spec', SSD)],
      C(['adt'], [('C35', 1.0)], RULE_ADT, 12), assumptions=['fewer than 2^32 states'])

ENDID = ['check_ids_sorted_and_unique', 'bisect_left_sorted_ids', 'cmp_endids', 'incr_remap', 'fsm_setendid']
EAGER = ['fsm_eager_output_set_cb', 'fsm_eager_output_state_has_eager_output', 'fsm_eager_output_has_eager_output', 'cmp_fsm_output_id_t', 'append_cb', 'inc_cb', 'fsm_eager_output_set_on_ends']
CAPT = ['fsm_countcaptures', 'fsm_capture_has_captures', 'fsm_capture_has_capture_actions', 'cmp_action', 'init_capture_action_htab', 'fsm_capture_rebase_capture_id', 'fsm_capture_rebase_capture_action_states']
bclaim('C18', 'Under contract: the order and uniqueness test of an id list, the binary search for the insertion point, the comparison, the increment remapping and fsm_setendid (the id is attached to every accepting state and to no other, failure reported).',
       'attaching, querying, remapping and bulk setting: operation sequences on the real table against a map of sorted sets.',
       [('endids.spec', ENDID), ('isend.spec', ['fsm_isend']), ('start.spec', ['fsm_getstart'])], parts=('adt',), rule=RULE_ADT)
bclaim('C19', 'Under contract: cloning (with the copy of ids assumed), the set operations that carry ids along, setting an id on every accepting state.',
       'chains of clone, merge, union, determinise, minimise, epsilon removal, trim and compaction on random machines with ids: the ids reported for every string are compared with a reference.',
       [('endids.spec', ENDID), ('stateset.spec', ['state_set_has', 'state_set_reset', 'state_set_next', 'state_set_compact', 'state_set_rebase']), ('isend.spec', ['fsm_isend'])])
bclaim('C26', 'Under contract, for a failure of any allocation: a state set or edge set that cannot grow is left exactly as it was and the failure is reported, fsm_addstate(_bulk) leaves the machine as it was, queue_new, fsm_new and fsm_clone return NULL, '
       'every machine built so far is freed, and fsm_free releases every block exactly once.',
       'one chosen allocation fails in each of 24 operations on random machines: no crash, no leak (allocations counted), the machine freeable afterwards, operands of non-consuming operations unchanged. fsm_merge, fsm_union, fsm_concat, '
       'fsm_intersect and fsm_subtract are not covered: who owns the operands after a failure is not defined there.',
       [('stateset.spec', ['state_set_create', 'state_set_add', 'state_set_add_bulk', 'state_set_copy', 'state_set_free']), ('edgeset.spec', ['edge_set_new', 'grow_groups', 'init_empty', 'edge_set_add', 'edge_set_copy', 'edge_set_advise_growth', 'edge_set_free']),
        ('state.spec', ['fsm_addstate', 'fsm_addstate_bulk', '@lemmas']), ('queue.spec', ['queue_new', 'queue_push', 'queue_free']), ('fsmc.spec', ['fsm_new_statealloc', 'fsm_new', 'fsm_free', 'free_contents']), ('clone.spec', ['fsm_clone']),
        ('capture.spec', ['init_capture_action_htab'])], parts=('ops', 'adt', 'misc'), rule='random machines; the k-th allocation of one operation fails; non-trivial when it did fail; distinct by machine, operation and k')
bclaim('C27', 'Under contract: fsm_eager_output_set_on_ends (the id is attached to every accepting state, to no other, failure reported), the callbacks that collect and count ids (their own memory only, exact), the comparison ids are sorted by, and the presence tests.',
       'the table of outputs and its survival of clone, union, epsilon removal, determinising, minimising and trimming: exact product comparison on random machines.',
       [('eager.spec', EAGER), ('isend.spec', ['fsm_isend'])])
bclaim('C28', 'Under contract: counting, the presence tests (reading only), the order of actions, the initial table, and both rebasings (every recorded action moved by exactly the base given, nothing else changed; the highest id follows).',
       'declaring captures, cloning, merging and renumbering: comparison with the states on paths that exist.',
       [('capture.spec', CAPT)], parts=('adt',), rule='random machines with random capture declarations against the states on simple paths; non-trivial when a path exists; distinct by log')
bclaim('C31', 'Under contract: each function listed is proved, for every input its precondition admits, to read and write only live memory it was given, without overflow in signed arithmetic, shifts, divisions or conversions the standard leaves undefined.',
       'operations of every other property (random machines and container histories) under the address and undefined-behaviour sanitizers; only crashes, failed assertions, endless loops and sanitizer reports count.',
       [('bitmap.spec', BM), ('queue.spec', ['queue_new', 'queue_push', 'queue_pop', 'queue_free']), ('capture.spec', CAPT), ('endids.spec', ENDID), ('eager.spec', EAGER),
        ('stateset.spec', ['state_set_search', 'state_set_create', 'state_set_contains', 'state_set_remove', 'state_set_reset', 'state_set_next', 'state_set_array', 'state_set_rebase', 'state_set_compact', 'state_set_free']),
        ('edgeset.spec', ['edge_set_new', 'grow_groups', 'init_empty', 'find_state_position', 'find_first_group_label', 'edge_set_empty', 'edge_set_find', 'edge_set_contains', 'edge_set_transition', 'edge_set_reset', 'edge_set_next', 'edge_set_free', 'edge_set_advise_growth']),
        ('start.spec', ['fsm_clearstart', 'fsm_setstart', 'fsm_getstart']), ('isany.spec', ['fsm_isany']), ('hasepsilons.spec', ['fsm_hasepsilons']), ('epsilonsonly.spec', ['fsm_epsilonsonly']), ('hasoutgoing.spec', ['fsm_hasoutgoing'])],
       parts=('ops', 'adt', 'misc'), rule='random operations of every kind under sanitizers; distinct by operation log')

NA = {
    'C21': 'The cheapest path is a property of fsm_shortest over struct priq, whose nodes are linked through pointers to pointers that the typed memory model cannot give to a callee; the recursive cost argument needs that contract first. No contract discharged, so not claimed.',
    'C22': 'The statement relates printf-family output to the generated sid/lx parser that reads it back. Neither a format string nor a stdio stream has a contract here, and parser.c is generated code over unions and function-pointer tables outside the C subset accepted.',
    'C23': 'src/libre/ac.c builds a trie of nodes with 256 child pointers each; an ownership contract for a recursive tree needs separation predicates (a footprint per subtree) this first-order block model does not have.',
    'C24': 'The statement needs a formal semantics of each dialect and contracts on the AST of src/libre (tagged unions, recursive ownership) and on generated parsers; unions and recursive ownership are outside the memory model.',
    'C25': 'The statement is about program text printed in other languages and about encoded byte code read back through unions; neither has a denotation the contracts can speak of.',
    'C29': 'fsm_generate_matches keeps a stack of frames with embedded iterators and calls the user back through void pointers from a union-typed step function; its contract was not brought within reach.',
    'C30': 'The character classes are static tables of ranges (src/libre/class/*.c) consumed by the AST compiler: there is no function computing membership whose contract could be discharged; comparing the tables with Unicode data is enumeration, another technique.',
    'C32': 'src/lx produces C text which implements the lexer; a contract on lx constrains text, not the behaviour of that text once compiled.',
    'C33': 'fsm_detect_required_characters explores minimal end distances by an explicit stack with early stopping by a step limit; the argument (every accepted word contains c) needs path-cut lemmas over that traversal that were not proved.',
    'C36': 'The escaping functions write through fprintf to a FILE; output streams have no contract in this verifier, and what they print is decoded by other languages.',
}
