"""Writes /verif/known_findings.json; run by hand, never by a check."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = [
    dict(property='C13', key='raises:ValueError', case={'k': 'dim1', 'g': 'SO(1)', 'ch': 40},
         what='uniform_rep(40, SO(1)) raises ValueError: for one dimensional groups a tensor of every rank below ch fits, and products of more than 32 factors cannot be canonicalized'),
]
FIXED = """C09 {order reps by a strict total order when canonicalizing} sums of representations of different groups came out with scrambled coordinates (the sort order of reps was not a strict total order)
C05 {instantiating Scalar with a group no longer mutates the shared instance} instantiating Scalar with a group changed the shared Scalar for everyone
C07 {distinguish Embed groups acting on different dimensions} Embed groups acting on different dimensions compared equal and shared cached solutions
C07 {Embed groups with lazy or complex generators} Embed of a group with lazy or complex generators raised or dropped the imaginary part
C07 {separate the arguments in the repr of a Group} groups with different arguments such as (1,12) and (11,2) had the same repr and compared equal
C07 {determine the is_permutation flag of D(k) with its reflection} D(1) was flagged as a permutation group
C07 {SO(1), S(1), SL(1) and SU(1)} SO(1), S(1), SL(1), SU(1) could not be constructed
C08 {LazyDirectSum without multiplicities, and its transpose and invT} LazyDirectSum without multiplicities raised; its T and invT dropped multiplicities; rectangular shapes were wrong
C08 {LazyKron and LazyKronsum of a single LazyKron or LazyKronsum} LazyKron and LazyKronsum of a single lazy product or sum recursed or lost their factors
C08 {define the transpose of Rot90} Rot90 had no transpose
C08 {LazyKron.invT with dense factors} LazyKron.invT raised with dense factors
C02 {adjoints of complex LinearOperators} projectors of complex groups were Q Q^T instead of Q Q^H (adjoints were not conjugated)
C08 {invT of sums and scalar multiples of LinearOperators} invT of sums and scaled operators was wrong
C08 {transpose of ConcatLazy applied to a vector} ConcatLazy.T applied to a vector raised
C10 {hidden representations which are not canonically ordered sums} EMLP with ch=V, or a sum in non canonical order, raised or gated the wrong channels
C05 {comparison of a SumRep with a rep which is not a sum} comparing a SumRep with another rep raised
C14 {GroupAugmentation} GroupAugmentation raised or transformed with the wrong elements
C12 {gradients of torchified functions which return a tuple} gradients of torchified functions returning a tuple raised
C20 {reload cached Hamiltonian datasets} reloading a cached Hamiltonian dataset raised
C08 {SwapMatrix} SwapMatrix did not swap
C02 {equivariant bases when the SVD does not converge} non convergence of LAPACK's SVD gave an empty (NaN) basis silently
C02 {duals of one dimensional reps with the default drho} duals of one dimensional user defined reps of non orthogonal groups raised
C16 {default drho with lazy or complex generators} the default drho raised for groups with lazy or complex Lie algebras
C04 {adjoint of complex LazyJVPs} the transpose of a lazy derivative of a complex rep was not conjugated
C08 {direct sums of complex numpy arrays} LazyDirectSum of complex numpy arrays dropped the imaginary part
C16 {duals of user defined reps which are not orthogonal} the dual of a user defined, not orthogonal rep of an orthogonal group was taken to be the rep itself
C06 {rank found by the iterative solver when the initial guess is tight} the iterative solver sometimes silently returned rank-1 solutions when the rank was 10, 20, ...
C06 {iterative solver when everything is invariant} the iterative solver raised IndexError when every vector is invariant
C06 {iterative solver for complex constraints} the iterative solver only found the real solutions of complex constraints
C06 {convergence of the iterative solver} the iterative solver took one more momentum step after the convergence check, and could return wrong directions
C07 {products of groups without generators} products of groups without generators, such as Trivial(2)*Trivial(3), could not be constructed
C07 {RubiksCube} RubiksCube's generators were not the quarter turns of a cube; they generated a group of order (24!)^2/2 instead of 43252003274489856000
C08 {SwapMatrix applied to numpy arrays} SwapMatrix applied to a numpy array raised
C08 {adjoint of a LinearOperator scaled by a numpy scalar} the transpose of an operator scaled by a numpy scalar raised
C09 {products of reps of different groups of which one has no invariants} bases of sums over several groups raised TypeError if a product in them had a factor without invariants
C11 {copying LazyKrons and LazyKronsums} PyTorch networks of product groups could not be copied (copy.deepcopy raised)
C12 {torchified functions of pytrees and of arguments without gradients} torchified functions with integer or non tensor arguments raised in backward, and outputs in lists or dicts (or arguments in pytrees) silently had no gradients
C12 {complex gradients of torchified functions} gradients of complex torchified functions were the conjugates of those PyTorch uses
C16 {samples of groups with complex discrete generators} sampling groups with complex discrete generators and no Lie algebra raised TypeError
C09 {products of reps of different groups in other orders of factors} products of several factors of a non orthogonal group, some dual, with another group raised AssertionError (sometimes, by the order of hashes)
C16 {default drho with integer generators} the default drho raised TypeError for Lie algebras given as integers
C14 {PyTorch networks in PyTorch's Standardize} PyTorch's Standardize raised TypeError around PyTorch's EMLP and MLP, which did not accept the training flag
C20 {time points of the chunks of Hamiltonian datasets} Hamiltonian datasets with chunks of 3, 6, 7, ... points had one more time point than states
C20 {chunk lengths which do not divide the trajectory length} Hamiltonian datasets raised ValueError for chunk lengths which do not divide the trajectory length
C05 {products which are not in canonical order can be hashed (gate_indices of a bare product failed)} hash(rep) of a product such as T(1,3).T that is not in canonical order raised AssertionError, and with it gate_indices and GatedNonlinearity of it
C20 {training neural ODEs leaked tracers of the first step into later integrations} experiments/neuralode.py raised UnexpectedTracerError at the first evaluation, BOdeFlow reused what a network was traced with inside a training step
C20 {averages of metrics over loaders with a smaller last minibatch} metrics averaged over a loader counted the samples of a smaller last minibatch more than the others"""
if __name__ == '__main__':
    import subprocess
    log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
    bysub = {l.split(' ', 1)[1]: l.split()[0] for l in log}
    fixed = []
    for l in FIXED.splitlines():
        p, rest = l.split(' ', 1)
        sub, w = rest[1:].split('} ', 1)
        fixed.append(f"fixed: property={p} {bysub['fix: ' + sub]} {w}")
    missing = [l for l in log if l.split(' ', 1)[1].startswith('fix: ') and not any(l.split()[0] in f for f in fixed)]
    assert not missing, missing
    json.dump(dict(open=OPEN, fixed=fixed), open(V + '/known_findings.json', 'w'), indent=1)
