"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
CT, OT, OP, PA, EC, UT, PL = ('oranssi/circuit_tools.py', 'oranssi/opt_tools.py', 'oranssi/optimizers.py',
                              'oranssi/pauli.py', 'oranssi/edge_coloring.py', 'oranssi/utils.py', 'oranssi/plot_utils.py')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    assert len(title) <= 80, title
    P.append(d)


prop('C01', 'Operators are embedded on exactly the wires they name',
     'Promoting a matrix given on a list of distinct wires to the whole register yields the operator that acts as that matrix on '
     'those wires, the first listed wire being its most significant one whatever their order or spacing, and as the identity on all others. '
     'The Hamiltonian matrix of a list of observables is the coefficient-weighted sum of their embeddings (all coefficients one by '
     'default), and the trace norm helper returns the root of the summed squared magnitudes. '
     'Wires outside the register and matrices whose size does not match the wires are refused.',
     ['inputs', 'configurations'], 'every register size, every ordered choice of distinct wires, every complex matrix, every list of observables and coefficients',
     'The tests embed two fixed gates on 2 and 4 qubits and compare adjacent, increasing wires only.',
     [CT, UT], [('einsum promotion of a local operator', CT + ': get_full_operator'), ('Hamiltonian assembly', CT + ': get_hamiltonian_matrix'),
                ('norm', UT + ': operator_2_norm')], ['return values'])
prop('C02', 'The unitary extracted from a circuit is the circuit',
     'Extracting the gates of a circuit and composing their embeddings gives, up to a global phase, exactly the unitary the circuit '
     'implements: every gate once, in program order, on its own wires and with its own parameters, inverses included, and nothing for an empty circuit. '
     'Feeding any unitary back into the state and expectation-value circuits returns the state it prepares from the all-zero state and the expectation value of the given observable in it.',
     ['programs', 'inputs'], 'every circuit built from gates (no state preparation), every parameter value, every unitary, every observable',
     'The tests only compare a handful of fixed circuits on states and expectation values with PennyLane itself.',
     [CT], [('gate extraction from the tape', CT + ': get_ops_from_qnode'), ('state from unitary', CT + ': circuit_state_from_unitary'),
            ('expectation from unitary', CT + ': circuit_observable_from_unitary')], ['extracted gate list', 'returned state', 'returned expectation'])
prop('C03', 'Operator bases and direction catalogues match their names',
     'Every operator in a returned basis is the tensor product of Pauli matrices that its name spells, names and operators are listed in '
     'the same order, and each word over the allowed letters (with or without the identity) occurs exactly once. '
     'A freshly built catalogue of one-, two- or three-qubit directions holds, for every direction it lists and every increasing choice of as many '
     'distinct qubits, exactly that word on those qubits and nothing else; an operator that a random draw adds to it is the drawn word on the drawn '
     'qubits, in the order drawn.',
     ['configurations', 'inputs'], 'every basis size, both identity settings, every register size and every choice of included algebras',
     'The tests check counts, orthogonality and a few dimensions, never that names and matrices agree for each word and qubit tuple.',
     [UT, OT], [('bases', UT + ': get_su_2_operators, get_su_4_operators, get_su_n_operators'),
                ('catalogues', OT + ': AlgebraSU2, AlgebraSU4, AlgebraSU8')], ['returned lists', 'catalogue contents'])
prop('C04', 'Symbolic Pauli monomials obey the Pauli algebra',
     'Products, commutators and nested commutators of Pauli monomials equal, coefficient and phase included, the products and commutators '
     'of the operators they denote, for monomials on any sites and with any coefficients; the commutation test agrees with the commutator being zero, and neither operand changes. '
     'Conjugation conjugates the total coefficient and leaves the letters alone. '
     'Monomials are ordered by their letters first, then non-real before real coefficients, then by size of the coefficient, and the exported direction label lists exactly the non-identity letters with their sites.',
     ['programs', 'inputs'], 'every sequence of operations on monomials over any set of sites with any complex coefficients',
     'There are no tests of the symbolic algebra at all.',
     [PA], [('single-site product table', PA + ': Pauli.__mul__'), ('monomial product, commutator, conjugate, order', PA + ': PauliMonomial')],
     ['coefficient and letters of every result and operand'])
prop('C05', 'Pauli sums are linear combinations with value semantics',
     'Adding, subtracting and multiplying Pauli sums yields exactly the sum, difference and product of the linear combinations they denote, '
     'like terms being combined and cancelling terms dropped, and scaling a sum multiplies every one of its coefficients. '
     'No operation changes any sum or monomial other than the sum being scaled.',
     ['programs', 'histories'], 'every program of additions, subtractions, products and scalings over sums of monomials with the same number of factors, operands shared or not',
     'There are no tests of Pauli sums; aliasing errors only show over a sequence of operations.',
     [PA], [('simplification and arithmetic', PA + ': PauliSum')], ['coefficients of every live object after every operation'])
prop('C06', 'Gradient components equal the commutator expectations',
     'The reported gradient assigns to every Pauli word on the whole register, each exactly once, the imaginary part of the expectation '
     'value of the commutator of that word with the sum of the observables in the state prepared by the given unitary, divided by the dimension of the space. '
     'The same numbers are reported by every kind of layer and, when gradients are requested from a run, once per step for the unitary right after that step.',
     ['inputs', 'configurations', 'histories'], 'every unitary, every list of observables, every layer kind, every step of a run',
     'The tests never compare a gradient component with an independent value.',
     [CT, OT, OP], [('all directions', CT + ': get_all_su_n_directions'), ('per layer', OT + ': LieLayer.get_lie_algebra_directions'),
                    ('per run', OP + ': approximate_lie_optimizer return_omegas')], ['returned dictionaries'])
prop('C07', 'The exact optimizer follows the full Riemannian gradient flow',
     'Each step of the exact optimizer applies, for each observable in turn and evaluated at the current state, the exponential of minus the step size times the '
     'full commutator of state and observable, halved as documented, so state and cost histories follow that map from any start. '
     'With a single Pauli observable the cost therefore never increases, for any start and any allowed step size. '
     'The operator-space shift rule used for it returns the commutator of any density matrix with any involutory observable, times the imaginary unit.',
     ['inputs', 'histories'], 'every start circuit, every list of Pauli observables, every step size in [0,1], every number of steps',
     'The tests check the final cost of a few converged runs from fixed starts.',
     [OP, CT], [('commutator by shift rule', CT + ': param_shift_comm'), ('step', OP + ': exact_lie_optimizer')], ['returned states and costs'])
prop('C08', 'Direction-restricted layers apply exactly the projected gradient step',
     'A local or custom-direction layer multiplies the unitary by the exponentials of its gradient components, taken at the state entering the layer, '
     'for exactly the directions selected and all qubits or increasing qubit pairs, scaled by the step size of the layer over the dimension: observable by observable, '
     'jointly per block (one qubit or pair for local layers, all selected directions for custom layers) or, when Trotterized, one direction after the other in catalogue order. '
     'Directions not selected contribute nothing.',
     ['inputs', 'configurations'], 'every unitary, observables, selection of directions, locality, step size, Trotterization setting, and calls repeated on one layer object',
     'The tests check the final cost of single runs with all directions.',
     [OT], [('local layer', OT + ': LocalLieAlgebraLayer.__call__'), ('custom layer', OT + ': CustomDirectionLieAlgebraLayer.__call__')],
     ['unitary in and out'])
prop('C09', 'Line-search layers rotate the steepest direction to its optimum',
     'A line-search layer changes the unitary by one rotation about one catalogue direction whose absolute gradient, summed over the observables, is the largest among its candidates; '
     'the greedy two-qubit layer leaves out only the direction it used in its previous call, the three-qubit layer leaves out none and uses only the algebras enabled. '
     'The rotation angle minimises the total cost along that direction, so the cost never increases.',
     ['inputs', 'histories'], 'every unitary, observables and history of earlier calls on the layer',
     'The tests check the final cost of a few runs; a wrong angle or a second-best direction still converges there.',
     [OT], [('greedy layer', OT + ': SquaredLieAlgebraLayer'), ('three-qubit layer', OT + ': SU8_AlgebraLayer'), ('closed-form line search', OT + ': rotosolve')],
     ['unitary in and out', 'cost'], [('previous direction', 'excluded from the next choice', OT + ': previous_pauli')])
prop('C10', 'Commuting mode reports exactly the gates it applies',
     'In commuting mode the greedy layer appends one gate per selected qubit or pair: the same Pauli direction on pairwise disjoint qubits, each with a gradient as large as the '
     'maximum (up to 1e-3), at least one of them. '
     'The circuit handed to the parameter optimizer is the current unitary followed by these rotations, and the layer returns the unitary and the gate list with the last parameters that optimizer returned. '
     'A run of the optimizer in this mode collects one such gate list per step.',
     ['inputs', 'histories'], 'every unitary, observables, history and every parameter optimizer result',
     'Commuting mode is not tested at all.',
     [OT, OP, CT], [('commuting branch', OT + ': SquaredLieAlgebraLayer.__call__'), ('run loop', OP + ': approximate_lie_optimizer')],
     ['unitary out', 'reported gates', 'circuit given to the parameter optimizer'])
prop('C11', 'The adaptive circuit grows by the steepest layer and keeps its past',
     'Each call of the adaptive layer appends one layer to its circuit: a direction other than the one appended last, on all qubits, on even neighbouring pairs, or on odd neighbouring pairs plus the pair of first and last qubit, '
     'whose absolute gradients sum to the largest value. '
     'The circuit optimised is the uniform superposition followed by all layers chosen so far in order, one parameter per gate, the earlier parameters carried over and the new ones starting at 0.1; the unitary and '
     'parameters returned are that circuit at the last parameters the optimizer produced.',
     ['histories', 'inputs'], 'every sequence of calls, every unitary, every optimizer result, every register size from two',
     'One test checks the final cost of a single run.',
     [OT], [('layer choice and circuit growth', OT + ': AdaptVQELayer')], ['circuit and parameters given to the parameter optimizer', 'unitary and parameters out'],
     [('layers', 'the layers chosen so far', OT + ': layers')])
prop('C12', 'Early stopping and perturbation follow the stated rule',
     'A run ends before its maximum number of steps exactly when, after a warm-up, the newest cost lies within the tolerance (plus 1e-5 relative) of the reference cost: '
     'from the fourth step on the previous cost for the parameter-shift optimizer, from the fifth step on the previous cost for the exact one, from the tenth step on the cost five steps earlier for the approximate one. '
     'With perturbation enabled it never ends early: at each such step, and only there, it records the step index and applies a small random unitary kick before the next step. '
     'The approximate optimizer never stops early when its tolerance is absent.',
     ['histories', 'inputs'], 'every cost history, tolerance, maximum number of steps and perturbation setting',
     'The tests look at the last cost only; no test observes where a run stops or what a perturbation does.',
     [OP], [('stop rules', OP + ': parameter_shift_optimizer, exact_lie_optimizer, approximate_lie_optimizer')],
     ['length of the cost history', 'returned perturbation steps', 'unitary handed to each layer'])
prop('C13', 'Histories returned by a run describe the run',
     'Entry k of every returned history belongs to the unitary after k steps: states are what the unitary prepares from the all-zero state, costs the summed expectation values in that state, entry 0 the given circuit, and '
     'each history has one entry per step besides its initial one, where it has one. '
     'The approximate optimizer applies its layers cyclically in list order, each to the unitary the previous step left. '
     'With no extra result requested only the cost history is returned, otherwise the costs followed by exactly the requested results in the fixed documented order.',
     ['histories', 'configurations'], 'every circuit, observables, layers, and every combination of result flags',
     'The tests request at most one extra result and check its last entry.',
     [OP], [('history bookkeeping', OP + ': all three optimizers')], ['returned tuple', 'calls received by layers'])
prop('C14', 'Invalid options are refused, valid ones accepted',
     'An optimizer or layer given a step size that is not a float in [0,1], a step count that is not a positive integer, a tolerance that is not a non-negative float (absent allowed only for the approximate optimizer), '
     'a result, perturbation, Trotterization or unitarity-check flag that is not a boolean, unknown directions, an unsupported locality or register size, something that is not a list of layers, or a circuit with the wrong kind of result, raises an error and runs no step. '
     'Malformed Pauli letters, sites, coefficients and monomials with a repeated site are refused likewise. '
     'Every value inside these ranges, end points included, is accepted.',
     ['inputs', 'configurations'], 'every option of every optimizer and layer, valid or not, in any combination',
     'The tests try a few invalid values of three options of one optimizer.',
     [OP, OT, PA], [('assertions on options', OP), ('assertions in constructors', OT + ', ' + PA)], ['exceptions'])
prop('C15', 'Edge colouring terminates with a truthful, complete colouring',
     'For every simple graph and every number of colours not below its maximum degree the colouring heuristic terminates under any random choices and limits, gives every edge one colour from the allowed range, changes '
     'nothing else in the graph, and reports success exactly when no two edges at a node share a colour. '
     'With at least twice the maximum degree minus one colours it always succeeds.',
     ['inputs', 'schedules'], 'every simple graph, every number of colours from the maximum degree up, every limit, every outcome of the random choices',
     'Edge colouring is not tested.',
     [EC], [('greedy precolouring, Kempe chains, conflict bookkeeping', EC + ': applyHeuristic')], ['edge colours, return value'])
prop('C16', 'Commuting sets are non-empty, disjoint subsets of the given edges',
     'For every list of distinct edges the set of simultaneously applicable edges is a sub-list of the given edges, written exactly as given, no two of which share a qubit, and it is non-empty whenever the list is. '
     'A list that is already disjoint is returned unchanged.',
     ['inputs', 'schedules'], 'every list of distinct edges or single qubits, every outcome of the random choices',
     'Never exercised by the tests.',
     [CT, EC], [('colour class selection', CT + ': get_commuting_set')], ['return value'])
prop('C17', 'Random directions are drawn without replacement on fresh qubits',
     'Successive random draws use every qubit exactly once before any qubit is used again and every direction at most once before the pool of directions is refilled, a direction on as many distinct qubits as it has letters; '
     'when a single qubit is left a one-qubit direction is drawn, the one-qubit directions being refilled only when none is left. '
     'The stochastic layer rotates about exactly the drawn direction on the drawn qubits, by the step size times the gradient at the state entering the layer over the dimension, summed over the observables.',
     ['histories', 'schedules'], 'every sequence of draws and every outcome of the random choices',
     'One test runs the layer and checks that the cost decreased; no test sees the draws.',
     [OT], [('sampler state', OT + ': AlgebraSU4.get_random_direction_and_qubits'), ('layer', OT + ': StochasticLieAlgebraLayer')],
     ['drawn direction and qubits', 'unitary in and out'],
     [('qubits used, directions left', 'pools of the sampler', OT + ': qubits_left, directions_left')])
prop('C18', 'The Zassenhaus layer alternates line-search and commutator steps',
     'The Zassenhaus layer alternates between as many two-qubit line-search steps and as many commutator steps as its ratio says, from the first call on, and the phase reported for a step is the one it executes. '
     'A line-search step rotates the steepest two-qubit direction to its optimum; a commutator step rotates about one two-qubit direction that shares exactly one qubit with the previous gate, anticommutes with it, and together with it generates '
     'a three-qubit direction of non-vanishing gradient, by minus the step size times twice that gradient over the dimension, the signed commutator factor and the angle of the last line search. '
     'If there is no such direction the unitary is left unchanged and the alternation goes on.',
     ['histories', 'inputs', 'configurations'], 'every ratio, every sequence of calls, every unitary and observables on three or more qubits',
     'The layer is not tested; its state depends on the history of calls.',
     [OT, OP], [('phases', OT + ': ZassenhausLayer'), ('reported phases', OP + ': approximate_lie_optimizer return_zassenhaus')],
     ['unitary in and out', 'reported phases'], [('su_state, counter, current_pauli', 'phase of the alternation', OT + ': ZassenhausLayer')])
prop('C19', 'Every step keeps the unitary unitary',
     'Every layer and optimizer maps a unitary to a unitary, over any number of steps and any options, and the states it returns stay normalised. '
     'Checking for unitarity errors changes nothing when the step is unitary; a step that is not unitary is replaced by the closest unitary.',
     ['histories', 'configurations'], 'every layer kind and optimizer, any number of steps, any options, perturbations included',
     'No test checks unitarity of the result.',
     [OT, OP], [('unitarity check and projection', OT + ': LieLayer'), ('steps', OT + ', ' + OP)], ['unitary out'])
prop('C20', 'Runs leave their inputs alone and repeat exactly',
     'No optimizer, layer or helper modifies the parameters, observables, matrices, edge lists or layer list it is given, or a result it returned earlier. '
     'Repeating a run with fresh layers, the same inputs and the same random seed gives the same results.',
     ['histories', 'inputs'], 'every function of the package, every input, every later call',
     'The tests never look at an input after a call and never run anything twice.',
     [OP, OT, CT, PA], [('copies instead of in-place updates', OP + ', ' + OT + ', ' + CT)], ['arguments before and after', 'results before and after later calls'])
prop('C21', 'The parameter-shift optimizer performs gradient descent',
     'Each step of the parameter-shift optimizer replaces every parameter by itself minus the step size times the derivative of the summed expectation values with respect to it, at the parameters of the step before, parameters used by several gates or given in nested '
     'lists included. '
     'Returned parameters, states and costs of a step belong together, the first being those given.',
     ['programs', 'inputs', 'histories'], 'every circuit of parametrised rotations, every parameter value and structure, every list of observables, every step size',
     'The tests only check the final cost of a converged run.',
     [OP], [('gradient step', OP + ': parameter_shift_optimizer')], ['returned parameters, costs, states'])
prop('C22', 'Bloch-sphere coordinates and density matrices convert faithfully',
     'The density matrix made from Bloch angles has exactly these angles as Bloch vector, and the angles computed from a single-qubit density matrix of unit trace lie in the principal ranges and reproduce its direction for pure states, poles included, '
     'an azimuth within about 1e-3 below a full turn being reported as zero. '
     'A matrix whose trace is not one is refused.',
     ['inputs'], 'all angles, all pure single-qubit states',
     'Four sample points are tested, none near the poles or the wrap-around.',
     [PL], [('conversions', PL + ': spherical_to_state, state_to_spherical')], ['returned matrix and angles'])
prop('C23', 'Direction plots show the gradient components they name',
     'Each curve of a direction plot shows, over the given sequence of unitaries, the gradient components it is labelled with: the component of the named word, or the sum of absolute components of all words with the same number of non-identity letters. '
     'Words whose component vanishes throughout are the only ones that may be left out.',
     ['inputs'], 'every sequence of unitaries and list of observables',
     'The plots are not tested.',
     [PL], [('grouping and labels', PL + ': plot_su16_directions, plot_su16_directions_separate, plot_su8_directions, plot_su8_directions_individually')],
     ['line data and labels of the returned axes'])
prop('C24', 'Result folders are created once and never disturbed',
     'Asking for the folder of an experiment returns the joined path, and afterwards that folder and its parents exist. '
     'Whatever was there before, the folder and files in it or beside it, is left as it was, however often, in whatever order and by however many processes at once folders are asked for.',
     ['histories'], 'every sequence of requests and file-system states',
     'Never exercised by the tests.',
     [UT], [('folder creation', UT + ': save_path_creator')], ['file system below the base path', 'return value'])
prop('C25', 'Pauli factors and monomials compare, hash and print by what they are',
     'Two Pauli factors are equal exactly when they name the same site and letter, whatever their coefficients. Two monomials with the same number of factors are equal exactly when their factors agree and their coefficients are both real or both non-real; '
     'comparing monomials with different numbers of factors is refused. Equal objects have equal hashes, so a set or dictionary holds each of them once and finds it again. '
     'A printed monomial shows its total coefficient, left out when it is 1, followed by its factors in order of their sites, its TeX form shows the coefficient and the same factors, both without the coefficient on request, and indexing yields the factors in that order. No comparison, lookup or print changes anything.',
     ['inputs', 'programs'], 'every pair or collection of factors and monomials on any sites with any coefficients, produced by any operations',
     'There are no tests of the symbolic algebra at all.',
     [PA], [('equality, hash, printing', PA + ': Pauli.__eq__, __hash__, __repr__; PauliMonomial.__eq__, __hash__, __repr__, __tex__, __getitem__')], ['answers and printed text', 'coefficient and letters of every operand'])
prop('C26', 'Commutator graphs are exactly the generated algebra',
     'The commutator graph of a list of three-site Pauli words has as nodes exactly the given words and everything obtained from them by repeated commutators, words with real and with imaginary coefficients kept apart, plus the identity; it links each non-vanishing commutator '
     'with the two nodes it is made of and every node with the identity. The directed variant has the same nodes without the identity, and records for each the round of commutators in which it first appears, the given words being round 0. Each of its nodes that was not given has arrows from two nodes of earlier rounds whose commutator it is, those two point to each other, and there are no other arrows. '
     'The two-qubit catalogues of neighbouring pairs (0,1) and (1,2) are the nine words of each pair written on all three sites, with coefficient 1. The given words are left unchanged.',
     ['inputs'], 'every list of three-site Pauli words',
     'Neither the graphs nor the symbolic commutators have tests.',
     ['experiments_paper/algebra_graphs.py', PA, OT], [('closure', 'experiments_paper/algebra_graphs.py: generate_product_algebra_graph, generate_product_algebra_digraph, SU4_to_SU8_algebra'),
                                                     ('commutators, hashing', PA + ': PauliMonomial.commutator, __eq__, __hash__')],
     ['nodes, edges and depths of the returned graph'])
prop('C27', 'Layers report the directions they act on',
     'The list of directions a layer reports is the catalogue it acts on, each direction once and in catalogue order: for a local layer the selected one- or two-qubit words (all of them by default), for a custom layer the selected words together with their qubits, '
     'for the random, line-search and adaptive layers the three one-qubit and nine two-qubit words, for the SU(8) layer these as switched on plus the twenty-seven three-qubit words, for a Zassenhaus layer one list for each number of qubits. '
     'The printed layer names the same directions in the same order. Neither changes by using the layer.',
     ['configurations', 'histories'], 'every layer kind, every selection of directions, every number of qubits, before and after any number of steps',
     'The reports are not tested.',
     [OT], [('reports', OT + ': get_lie_algebra_directions_strings, __repr__'), ('catalogues', OT + ': AlgebraSU2, AlgebraSU4, AlgebraSU8')],
     ['reported list', 'printed layer'])
prop('C28', 'The symbolic Zassenhaus layer fits its circuit to the gradient step',
     'The symbolic Zassenhaus layer returns, for every unitary it is given, the unitary of the circuit of two Hadamards, two X rotations and a ZZ rotation on the first two qubits, at angles x0, x1, z that (locally) minimise the squared distance, summed over the words involved, between the formal '
     'second-order generator -i(x0 X_0 + x1 X_1 + z Z_0 Z_1) plus half of its pairwise commutators and the step size times the gradient at the given unitary. The result depends on nothing but the observables, the step size and the given unitary, not on earlier calls.',
     ['inputs', 'histories'], 'every unitary and observables on two or more qubits, every step size, every sequence of calls',
     'The layer is not tested; the fit depends on symbolic commutators and a numerical search.',
     [OT, PA], [('symbolic generator and fit', OT + ': ZassenhausLayerV2'), ('commutators', PA + ': PauliMonomial.commutator, to_oranssi')], ['unitary in and out'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
import sys
print(len(P), 'properties')
