"""Writes /verif/properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, state=[dict(name=a, meaning=b, where=c) for a, b, c in state], hook_needed=None)))


REP, PS, LO, LB, GR = ('emlp/reps/representation.py', 'emlp/reps/product_sum_reps.py', 'emlp/reps/linear_operators.py',
                       'emlp/reps/linear_operator_base.py', 'emlp/groups.py')
OB, FX, HK, PT, DS = 'emlp/nn/objax.py', 'emlp/nn/flax.py', 'emlp/nn/haiku.py', 'emlp/nn/pytorch.py', 'emlp/datasets.py'

p('C01', 'Equivariant bases and projectors contain only equivariant vectors',
  "For every matrix group and every representation written in the type system, each column of the equivariant basis, and every vector returned by the equivariant projector, is left unchanged (to float32 accuracy) by every element of the whole group, not only by its generators. "
  "In particular the basis of maps A>>B, reshaped to (dim B, dim A), consists of matrices W with rho_B(g) W = W rho_A(g), with components in the order in which A and B were written. The same holds for every basis computed internally while a network is being built.",
  ['inputs', 'configurations'], 'all groups (library and user defined, real and complex, discrete, continuous, mixed), all representation expressions, all group elements',
  'The tests sample five library-generated elements for some two dozen groups and a few fixed representations, and compare the library with its own rho.',
  [REP, PS, LO, GR], [('constraint (rho(h)-I, drho(A)) null space', REP + ':Rep.constraint_matrix, orthogonal_complement'), ('solutions decomposed over sums and products, permuted back', PS + ':SumRep.equivariant_basis, equivariant_projector')],
  ['rep.equivariant_basis()', 'rep.equivariant_projector()'])
p('C02', 'Equivariant bases are complete and orthonormal; projectors are exact',
  "The equivariant basis has exactly as many columns as the dimension of the space of vectors fixed by the group, spans all of it, and has orthonormal columns. "
  "The equivariant projector is the (Hermitian, idempotent) orthogonal projector onto that space: projecting an invariant vector returns it, projecting twice is projecting once, also when applied lazily to vectors or matrices. "
  "When the numerical linear algebra underneath reports failure, the answer is still right or an error is raised; a wrong basis is never returned silently.",
  ['inputs', 'configurations', 'fault_sequences'], 'all groups and representations whose constraints are well conditioned in float32; a failing SVD',
  'The tests check only that what is returned is equivariant; an empty or incomplete basis passes all of them (one test compares ranks, for a handful of cases).',
  [REP, PS], [('rank cut-off of the singular values', REP + ':orthogonal_complement'), ('P = Q Q^H', REP + ':Rep.equivariant_projector'), ('multiplicities of sums', PS + ':SumRep')],
  ['rep.equivariant_basis()', 'rep.equivariant_projector()'])
p('C03', 'Composite representations act as written, in the order written',
  "A representation written with +, *, **, .T, >>, <<, T(p,q) and integers has the size, the group matrices and the Lie algebra matrices of the direct sums, Kronecker products, duals and map spaces it denotes, with coordinates in the order in which it was written, however deeply nested and whether instantiated with the group before or after. "
  "Integers denote that many scalars in a sum and copies in a product; equivalent ways of writing a representation (10*T(1)+5*T(2), 10*V+5*V**2) denote the same one, and the lazy and dense forms of the group matrices agree.",
  ['inputs', 'programs'], 'all expressions over the operators, all groups, all elements',
  'The tests use a few hand-written nestings and judge them with the same internal permutations they are meant to check.',
  [PS, REP], [('canonical ordering and the permutations which undo it', PS + ':SumRep.compute_canonical, ProductRep.compute_canonical, distribute_product, rep_permutation'), ('operators', REP + ':Rep.__add__, __mul__, __rshift__, T')],
  ['rep.size()', 'rep.rho(g)', 'rep.rho_dense(g)', 'rep.drho(A)', 'rep.drho_dense(A)'], [('perm', 'v[perm] is v in canonical order', PS + ':SumRep.perm')])
p('C04', 'Every representation is a homomorphism with the right derivative',
  "For all group elements, rho(g1 g2) = rho(g1) rho(g2), rho of the identity is the identity, rho(exp(tA)) = exp(t drho(A)), and drho is linear, for every representation in the type system, including representations a user defines by rho alone (whose derivative is found automatically). "
  "The dual of a representation preserves its pairing with the original one.",
  ['inputs', 'configurations'], 'all representations, pairs of elements and algebra elements, including complex groups, groups with lazy generators and user defined representations',
  'Not tested at all for composite representations; a user defined representation is never exercised with its derived Lie algebra action.',
  [REP, PS, LO], [('automatic derivative', REP + ':Rep.drho; ' + LO + ':LazyJVP'), ('Kronecker products and sums', LO + ':LazyKron, LazyKronsum'), ('dual', REP + ':Dual')],
  ['rep.rho_dense', 'rep.drho_dense'])
p('C05', 'Results do not depend on history, hash seed, caches or threads',
  "The basis space, projector, size, group matrices and coordinate order of a representation do not depend on which representations were solved or built before, on the order of construction, on Python's hash seed, on whether an equal problem is already cached, or on other threads computing bases at the same time; a failed or interrupted computation leaves no corrupt result behind. "
  "Equal representations have equal hashes and are interchangeable, representations with different actions are never treated as equal, their ordering is a strict total order, and using a representation never modifies it or the shared V and Scalar.",
  ['histories', 'schedules', 'configurations', 'fault_sequences'], 'all sequences of operations in one process, all hash seeds, interleavings of threads, exceptions raised in the solver',
  'Each test runs in one process with one hash seed and solves few problems; the cache is shared and never cleared.',
  [REP, PS, OB], [('solution cache keyed by the canonical representation', REP + ':Rep.solcache, Rep.equivariant_basis'), ('equality, hash and order', REP + ':Rep.__eq__, __hash__, _order_key; ' + PS), ('memoized index tables', PS + ':rep_permutation; ' + OB + ':gate_indices')],
  ['rep.equivariant_basis()', 'rep.equivariant_projector()', 'hash(rep)', 'sorted(reps)'], [('solcache', 'solved canonical representations', REP)])
p('C06', 'The iterative solver finds the same space as the direct one',
  "For large representations, where the equivariant subspace is found iteratively, the result is an orthonormal basis of exactly the space the dense method would find, whatever its dimension (including zero and more than the initial guess) and whatever the random initialization. "
  "If it does not converge it raises an error; it never silently returns too few, too many or wrong directions.",
  ['inputs', 'configurations', 'histories'], 'all constraint operators within the advertised sizes, all random states, real and complex',
  'The tests never reach the size at which the iterative solver is used.',
  [REP], [('gradient descent with rank doubling', REP + ':krylov_constraint_solve, krylov_constraint_solve_upto_r'), ('choice of the method by size', REP + ':Rep.equivariant_basis')],
  ['krylov_constraint_solve(C)', 'rep.equivariant_basis() of a large rep'])
p('C07', 'Group objects are the groups they are named after',
  "The generators of every library group generate exactly the group its name and documentation promise (dimension of the Lie algebra, order of a finite group, invariants preserved), including embedded and product groups; every sample is an element of the group, and samples reach all of it: every connected component, every element of a small finite group, every direction of the Lie algebra. "
  "The advertised dimension and the orthogonal and permutation flags are true of all elements, and groups compare equal (with equal hashes) exactly when they have the same name, arguments and, for embeddings, the same place.",
  ['inputs', 'configurations', 'histories'], 'all library groups and parameters, all samples, products and embeddings of them',
  'The tests only check generators indirectly; nothing checks samples against the definition of the group.',
  [GR], [('generators', GR + ':SO, O, ..., RubiksCube, ZksZnxZn, Embed, DirectProduct'), ('sampling', GR + ':Group.samples, noise2sample'), ('flags', GR + ':Group.__init__')],
  ['G.sample()', 'G.samples(N)', 'G.lie_algebra', 'G.discrete_generators', 'G.is_orthogonal', 'G.is_permutation', 'G == H'])
p('C08', 'Lazy linear operators compute what their dense matrices compute',
  "For every expression built from lazy operators (identity, permutation, shift, swap, rotation, Kronecker products and sums, concatenations, direct sums, projectors and bases) with sums, products, scalar multiples, powers, transposes and adjoints, applying it to a vector, a column or a matrix, densifying it, and its advertised shape agree with the same expression in dense matrices, real or complex, inside or outside jit, vmap and grad. "
  "The inverse transpose, where offered, is the inverse transpose.",
  ['inputs', 'programs'], 'all operator expressions and operands',
  'The tests reach operators only through representations, never transposed or nested in most combinations.',
  [LO, LB], [('lazy algebra', LB + ':LinearOperator.__matmul__, __add__, __mul__, __pow__, T, H, _SumLinearOperator, _ProductLinearOperator'), ('structured operators', LO)],
  ['A@x', 'A.T', 'A.H', 'A.to_dense()', 'A.invT()', 'A.shape'])
p('C09', 'Representations of several groups mix correctly',
  "Sums, products and maps of representations of different groups have the equivariant basis and projector of the direct product of all the groups involved: complete, orthonormal, in the order written, and invariant under all groups simultaneously. "
  "Their group and Lie algebra matrices, given one element per group, are those of the expression as written, independently of the hash order of the groups.",
  ['inputs', 'configurations', 'histories'], 'all expressions over two or three groups, all elements, all hash seeds',
  'The tests use a few fixed combinations in one hash seed.',
  [PS, REP], [('products grouped by group, solutions combined by Kronecker product', PS + ':DirectProduct'), ('ordering of reps of different groups', REP + ':Rep._order_key')],
  ['rep.equivariant_basis()', 'rep.equivariant_projector()', 'rep.rho_dense({G: g, ...})'])
p('C10', 'Objax EMLP networks are equivariant for all parameters and inputs',
  "For every group, input and output representation, channel specification (int, representation, list of either) and depth, the objax EMLP and each of its layers map rho_in(g) x to rho_out(g) y for all parameter values (not just initial ones), inputs, group elements and batch shapes, eagerly, jitted or vmapped. "
  "The linear layer has exactly the equivariant affine maps as its range: every parameter value gives one and every one is reached, and each output row depends only on its own input row.",
  ['inputs', 'configurations'], 'all networks, parameters, inputs, group elements, batch shapes',
  'The tests check freshly initialized networks on 20 random inputs with a loose tolerance for a few groups.',
  [OB, REP, PS], [('projection of weights and biases', OB + ':Linear'), ('gating', OB + ':gated, gate_indices, GatedNonlinearity'), ('bilinear term', OB + ':BiLinear; ' + REP + ':bilinear_weights')],
  ['EMLP(...)(x)', 'Linear(...)(x)', 'BiLinear(...)(x)', 'GatedNonlinearity(...)(x)'])
p('C11', 'The four neural network backends compute the same equivariant functions',
  "With the same parameters the Flax, Haiku and PyTorch layers and networks compute the same function as the objax ones for every representation, channel specification and batch shape, and so are equivariant for all parameters and inputs. "
  "Gradients with respect to parameters and inputs agree as well, and saving and loading or copying parameters does not change the function.",
  ['inputs', 'configurations'], 'all layer and network specifications, parameters, inputs, batch shapes, backends',
  'The tests check Flax, Haiku and PyTorch networks at initialization for one or two specifications each and never compare backends.',
  [OB, FX, HK, PT], [('layers', FX + ', ' + HK + ', ' + PT)], ['EMLP of each backend', 'Linear', 'BiLinear', 'EMLPBlock', 'GatedNonlinearity'])
p('C12', 'Functions moved to PyTorch keep their values and gradients',
  "A JAX function converted for PyTorch returns the same values as the original and backpropagates exactly its vector-Jacobian products to every argument, for any number of arguments and outputs, any subset of arguments requiring gradients, repeated, interleaved or accumulated backward passes and any order of calls. "
  "Calling it neither modifies its inputs nor mixes up the states of different calls.",
  ['inputs', 'histories', 'schedules'], 'all differentiable functions of tensors, argument patterns, orders of forward and backward calls, threads',
  'One test checks an equivariant network; gradients are not checked.',
  [PT], [('custom autograd function', PT + ':torchify_fn'), ('conversion', PT + ':to_jax, to_pytorch')], ['torchify_fn(f)(*args)', '.backward()'])
p('C13', 'Automatic channel allocation gives exactly the channels asked for',
  "For every channel count and group, the automatically chosen hidden representation has exactly the requested size, uses tensors of every rank that fits, is spread evenly over ranks, with the tensor types of non-orthogonal groups symmetric up to the random remainder. "
  "The gated representation has exactly one additional scalar for each tensor that is neither a scalar nor of a permutation representation, and every channel is multiplied by its own gate.",
  ['inputs', 'configurations'], 'all channel counts, groups of dimension at least two, representations in any order',
  'Never tested directly; networks of a few sizes are built.',
  [OB], [('allocation', OB + ':uniform_rep, lambertW, binomial_allocation'), ('gates', OB + ':gated, gate_indices')], ['uniform_rep(ch,G)', 'gated(rep)', 'GatedNonlinearity(rep)(x)'])
p('C14', 'Training, standardization, augmentation and ODE wrappers keep equivariance',
  "A network remains equivariant after any sequence of optimizer steps on any data; standardizing with the statistics of the shipped datasets keeps it so, and standardizing is exactly the affine change of input and output. "
  "The neural ODE network is an equivariant vector field, the Hamiltonian network an invariant function whose Hamiltonian dynamics is equivariant for symmetries which are symplectic; averaging any model over group samples in training mode transforms inputs and untransforms outputs by the same element of each row, and evaluation mode is the bare model.",
  ['histories', 'inputs', 'configurations'], 'all training histories, statistics, models, inputs',
  'The tests never train a network, and do not touch the wrappers.',
  [OB, DS], [('wrappers', OB + ':Standardize, EMLPode, EMLPH'), ('augmentation', DS + ':GroupAugmentation')], ['model(x, training=...)', 'model.H(x)', 'model(z,t)'])
p('C15', 'Dataset labels and statistics respect the declared symmetry',
  "For each synthetic dataset, the label is a function of the input that transforms under the declared symmetry group according to the declared input and output representations, whatever the random inputs, and the shipped normalization statistics commute with that action. "
  "Sizes of inputs and labels agree with the declared representations, and the cube classification data is exactly the two orbits it describes, with the right labels, also scrambled.",
  ['inputs', 'configurations'], 'all inputs, group elements, dataset sizes and parameters',
  'No test looks at the labels.', [DS], [('datasets', DS + ':Inertia, O5Synthetic, ParticleInteraction, InvertedCube')], ['ds.X', 'ds.Y', 'ds.stats', 'ds.rep_in', 'ds.rep_out', 'ds.symmetry'])
p('C16', 'User-defined groups and representations work like built-in ones',
  "A group given only by its generators (continuous, discrete, dense or lazy, in any basis, as class attributes or in the constructor) and a representation given only by its group matrices can be used wherever built-in ones can: flags and size are inferred correctly, sampling yields products of exponentials and generator words, and equivariant bases, composite representations, linear layers and networks are right for them. "
  "A user-defined group which is a built-in one in another form gives the same equivariant maps.",
  ['inputs', 'programs', 'configurations'], 'all finite lists of generators, all homomorphisms rho, all ways to combine them with built-in types',
  'The documentation shows a few examples; the tests have none.',
  [GR, REP], [('generic group', GR + ':Group.__init__, samples'), ('generic representation', REP + ':Rep.drho, size, __eq__, canonicalize')], ['Group subclass', 'Rep subclass', 'rep.equivariant_basis()'])
p('C17', 'The equivariance error diagnostic tells equivariant maps from others',
  "For every pair of representations and group the diagnostic is small (float32 accuracy) for every equivariant matrix or basis, in every order of input and output, and is clearly nonzero for matrices with a substantial non-equivariant part. "
  "It equals the relative error between W rho_in(g) and rho_out(g) W over sampled elements, with one value for all basis elements passed together.",
  ['inputs', 'configurations'], 'all representations, groups, matrices and bases',
  'The tests use it as their oracle; if it were insensitive all of them would pass.',
  [REP], [('diagnostic', REP + ':equivariance_error, scale_adjusted_rel_error')], ['equivariance_error(W,repin,repout,G)'])
p('C18', 'Bilinear layers are equivariant and linear in the parameters and the input',
  "For every pair of representations the bilinear weights are a linear function of the parameters and of the input and transform as a map from the input to the output representation, W(rho(g)x) = rho_out(g) W(x) rho_in(g)^-1, for all parameters, inputs and batch shapes. "
  "The advertised number of parameters is the number used (none is ignored), and scalars and tensors that do not occur in the input contribute zero.",
  ['inputs', 'configurations', 'histories'], 'all representations, parameters, inputs, batch shapes, random states',
  'Tested only inside whole networks at initialization, where a defect of this small term disappears in the tolerance.',
  [REP, OB], [('bilinear weights', REP + ':bilinear_weights'), ('layer', OB + ':BiLinear')], ['bilinear_weights(out_rep,in_rep)', 'BiLinear(repin,repout)(x)'])
p('C19', 'Splitting, reordering and reassembling vectors by type loses nothing',
  "For every sum representation, splitting a vector or batch by representation type gives each type's components with shape (..., multiplicity, size), each component transforming by its own type, every coordinate occurring exactly once. "
  "Canonicalizing gives an equal-sized representation and a permutation such that the permuted vector transforms by the canonical representation; canonicalizing again changes nothing, and equivalent sums have the same canonical form.",
  ['inputs', 'programs'], 'all sum representations, vectors and batch shapes',
  'Not tested.', [PS], [('decomposition', PS + ':SumRep.as_dict, canonicalize')], ['rep.as_dict(v)', 'rep.canonicalize()', 'len(rep)', 'iter(rep)'])
p('C20', 'Hamiltonian and neural ODE experiments integrate and reload faithfully',
  "The simulated pendulum trajectories solve Hamilton's equations of the stated Hamiltonian to the integration tolerance (energy conserved, equivariant under the system's symmetry), batched integration equals integrating each initial condition separately, and training chunks are contiguous pieces of trajectories matching their times. "
  "A dataset reloaded from its cache equals the one generated, evaluation averages over a loader weight every sample equally, and the training loop is exactly one optimizer step per batch at the scheduled rate.",
  ['inputs', 'histories', 'configurations'], 'all initial conditions, times, chunk lengths, batch sizes, cached and regenerated runs',
  'No test touches the experiments.', ['experiments/trainer/hamiltonian_dynamics.py', 'experiments/trainer/trainer.py', 'experiments/trainer/utils.py', 'experiments/trainer/model_trainer.py'],
  [('flows', 'experiments/trainer/hamiltonian_dynamics.py:HamiltonianFlow, BHamiltonianFlow, BOdeFlow'), ('dataset', 'experiments/trainer/hamiltonian_dynamics.py:HamiltonianDataset'), ('averages', 'experiments/trainer/trainer.py:Trainer.evalAverageMetrics')],
  ['HamiltonianDataset[i]', 'BHamiltonianFlow', 'BOdeFlow', 'Trainer.evalAverageMetrics'])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            assert x['statement'].count('. ') <= 2, x['id']
            f.write(json.dumps(x) + '\n')
