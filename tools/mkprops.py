"""Writes properties.jsonl (source of truth for the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))


L, A, M = 'xii/linalg/', 'xii/assembler/', 'xii/meshing/'

prop('C01', 'Collapsing a block expression preserves the operator',
     'Any expression built from matrices and numbers with +, -, *, scalar multiples and transposition, alone or as a '
     'block of a block matrix, is turned by ii_convert, ii_collapse and the iterative monolithic conversion into a '
     'matrix (or number) whose action on every vector equals that of the expression. The operands of the expression '
     'are left unchanged by the conversion.',
     ['inputs', 'programs'],
     'Every expression tree (any depth, any order of operands, shared or repeated sub-expressions, non-square and '
     'non-symmetric factors, numeric factors including 0 and 1) and every value of the matrices.',
     'No stable test converts a composed expression; demos use a handful of shapes such as T.T*M*T.',
     [L + 'convert.py', L + 'collapse_iter.py', L + 'matrix_utils.py'],
     [('recursive collapse per node type', L + 'convert.py:collapse,collapse_tr,collapse_add,collapse_sub,collapse_mul'),
      ('graph based collapse with ordered children', L + 'collapse_iter.py:expr2graph,collapse_tree,replace_tree'),
      ('matrix terminals', L + 'matrix_utils.py:transpose_matrix,diagonal_matrix')],
     observe=['ii_convert(expr)*x against expr*x', 'operands before/after'])

prop('C02', 'Block to monolithic conversion keeps the block layout',
     'Converting a block vector concatenates its blocks in order, and converting a block matrix puts entry (r, c) of '
     'block (i, j) at (row offset i + r, column offset j + c) with numeric diagonal blocks meaning multiples of the '
     'identity and numeric zero off-diagonal blocks meaning zero matrices; nested PETSc objects, reported sizes and '
     'regrouped block matrices use the same layout. Splitting a monolithic vector or matrix by the sizes (or index '
     'sets) of the blocks recovers exactly the blocks.',
     ['inputs', 'configurations'],
     'Every number and size of blocks (rectangular blocks, 1 by 1 blocks, zero and numeric blocks included), every '
     'block content, every grouping by increasing offsets or by disjoint index lists.',
     'The stable tests only ever assemble single blocks; they never convert, split or regroup a block system.',
     [L + 'convert.py', L + 'bc_apply.py', L + 'matrix_utils.py', L + 'nest.py', L + 'block_utils.py'],
     [('conversion to one matrix/vector', L + 'convert.py:convert,block_mat_to_numpy,block_vec_to_numpy,numpy_to_petsc,block_mat_to_petsc'),
      ('sizes', L + 'convert.py:get_dims,bmat_sizes'),
      ('splitting', L + 'bc_apply.py:as_block'),
      ('helpers', L + 'matrix_utils.py:block_reshape,diagonal_matrix,identity_matrix,zero_matrix,row_matrix'),
      ('nesting', L + 'nest.py:nest')])

prop('C03', 'Boundary conditions give the constrained block system',
     'Applying Dirichlet conditions to a block system with apply_bc yields a system in which every constrained unknown '
     'equation reads diag_val*x_i = diag_val*value_i, every other right hand side is the original one (minus, in the '
     'symmetric variant, the contribution of the constrained columns which are then zero), and every other matrix '
     'entry is unchanged. The input is not modified, conditions on block i act on block i only, and the returned '
     'right-hand-side updater gives for new boundary values the same vector as a full re-application.',
     ['inputs', 'configurations'],
     'Every number of blocks, every set of constrained dofs and values per block, conditions given as DirichletBC, '
     'list of DirichletBC/dof-value dictionaries or a dictionary by block index, both symmetric settings, every '
     'diagonal value, with and without a given right hand side, block and plain matrices.',
     'No stable test applies boundary conditions.',
     [L + 'bc_apply.py', L + 'convert.py'],
     [('global numbering of constrained dofs and elimination', L + 'bc_apply.py:apply_bc'),
      ('right-hand-side updater', L + 'bc_apply.py:apply_bc.apply_b'),
      ('block splitting', L + 'bc_apply.py:as_block')])

prop('C04', 'Block-vector operators select, regroup and invert exactly',
     'Selecting blocks returns exactly the chosen blocks in the chosen order and its transpose scatters them back with '
     'zeros elsewhere; rearranging, reducing or regrouping a block vector is a relabelling whose transpose restores '
     'the original vector, and it acts alike on block and monolithic input. The vectorised operator applies the given '
     'operator to every component, and a block function and its block, nested and component vectors always show the '
     'same coefficients.',
     ['inputs', 'configurations'],
     'Every number of blocks, every index selection, mapping or offset list, every operator and vector content, every '
     'sequence of updates of a block function or of one of its components.',
     'These operators occur only in demos; the stable tests never construct one.',
     [L + 'block_utils.py', L + 'function.py'],
     [('SubSelect/Rearange/Reduction/Regroup/Vectorized operators', L + 'block_utils.py'),
      ('ii_Function', L + 'function.py')])

prop('C05', 'Wrapped operators act exactly like the block operator',
     'The PETSc operator, PETSc preconditioner and SciPy operator made from a block operator map every vector to what '
     'the block operator maps it to (and the transposed action to what its transpose does), overwriting the output, '
     'leaving the input untouched and having the shape of the operator and the nullspace given. A PETSc preconditioner wrapped as a block '
     'operator acts like that preconditioner, and the Krylov drivers return a solution of the system they were given.',
     ['inputs', 'histories'],
     'Every block and non-block operator, every input vector, any initial content of the output vector, any number '
     'and order of applications.',
     'No stable test wraps an operator or calls a Krylov driver.',
     [L + 'block_utils.py', L + 'krylov_api.py', L + 'fe_space_op.py', L + 'nest.py'],
     [('shell contexts', L + 'block_utils.py:ii_PETScOperator,ii_PETScPreconditioner,BlockPC'),
      ('scipy', L + 'krylov_api.py:ScipyLinOp,pyamg_solve,scipy_solve,cbc_solve'),
      ('matrix of an operator', L + 'fe_space_op.py:FESpaceOperator.collapse')])

prop('C06', 'Assembly of nested forms keeps every form in its place',
     'Assembling a (nested) list of forms and numbers yields a block vector or block matrix of the same shape whose '
     'entry at each position is the assembly of the form at that position, numbers passing through unchanged. The '
     'list helpers used for it agree with array shape, flatten and reshape.',
     ['inputs'],
     'Every rectangular nesting and shape, every mix of forms and numbers, every admissible target shape.',
     'Stable tests assemble single forms; the nested path and the list helpers have no test.',
     [L + 'list_utils.py', A + 'xii_assembly.py'],
     [('list helpers', L + 'list_utils.py:shape_list,flatten_list,reshape_list,package'),
      ('recursion', A + 'xii_assembly.py:assemble')])

prop('C07', 'Cached reduction operators never answer another request',
     'A reduction operator (trace, average, flux and patch average, mean, point trace, gradient point trace, '
     'restriction, injection, surface mean) obtained after any sequence of earlier requests is the one a fresh process '
     'would compute for the same request. Requests that differ in spaces, mesh, radius or shape, side, tags, point, '
     'direction or method get their own operator.',
     ['histories', 'inputs'],
     'Every sequence of requests on the same or different spaces and meshes with any combination of the data that '
     'enters the operator.',
     'Each stable test makes essentially one kind of request per mesh in a fresh set of spaces, so no cached entry is '
     'ever hit by a different request.',
     [A + 'trace_matrix.py', A + 'average_matrix.py', A + 'flux_average_matrix.py', A + 'patch_average_matrix.py',
      A + 'point_trace_matrix.py', A + 'gradient_point_trace_matrix.py', A + 'restriction_matrix.py',
      A + 'injection_matrix.py', A + 'mean_matrix.py', A + 'surface_mean_matrix.py', A + 'extension_matrix.py'],
     [('memoisation key against the data the operator depends on', A + '*_matrix.py:memoize_*')],
     state=[('cache', 'operator per key', 'closure of memoize_* decorators')])

prop('C08', 'Embedded and submesh extraction is exact',
     'A mesh extracted from the tagged cells or facets of another mesh has exactly one cell per selected entity, with '
     'the same vertex coordinates, and its parent maps send every vertex and cell to the parent vertex and entity it '
     'came from. Its marking function carries the tag of the parent entity of each cell, whether one tag or several are '
     'requested, and the overlap of two sub-domain meshes is mapped to the coinciding vertices and cells of both.',
     ['inputs', 'configurations'],
     'Every mesh of topological dimension 1 to 3, every entity dimension, every marker field and every non-empty set '
     'of requested tags; nested extraction and overlapping sub-domains included.',
     'Stable tests use a few regular meshes with one or two markers and check mostly geometry.',
     [M + 'embedded_mesh.py', M + 'subdomain_mesh.py', M + 'make_mesh_cpp.py'],
     [('vertex and cell maps', M + 'embedded_mesh.py:EmbeddedMesh'),
      ('mesh from arrays', M + 'make_mesh_cpp.py:make_mesh'),
      ('submeshes', M + 'subdomain_mesh.py:SubDomainMesh,OverlapMesh')])

prop('C09', 'Marker transfer and embedding maps relate the right entities',
     'Transferring or translating markers from a mesh to a mesh extracted from it gives each entity the marker of its '
     'counterpart, if that is among the requested ones, and leaves all others unmarked. An embedding map computed from '
     'geometry sends every vertex to a parent vertex with the same coordinates and every cell to the parent entity '
     'with those vertices, for all requested tags.',
     ['inputs'],
     'Every mesh, extracted mesh, marker field and tag set for which the embedding exists, in any order of requests.',
     'The marker tests of the repository do not run here and the embedding tests fail at the pinned commit; stable '
     'tests only reach it through one tag.',
     [M + 'embedded_mesh.py', M + 'transfer_markers.py', M + 'subdomain_mesh.py', A + 'trace_matrix.py'],
     [('marker transfer', M + 'transfer_markers.py:transfer_markers; embedded_mesh.py:EmbeddedMesh.translate_markers'),
      ('geometric embedding', M + 'embedded_mesh.py:build_embedding_map'),
      ('lazy completion of the map', A + 'trace_matrix.py:get_entity_map')])

prop('C10', 'The trace operator reproduces traces',
     'For every function of the space, the trace matrix to a codimension-one mesh yields the coefficients of its '
     'restriction to that mesh (of the chosen side for one-sided restriction, of the mean or jump of both sides for '
     'two-sided ones), on cells with requested tags, and zero on other cells. The transposed trace is its transpose '
     'and trace spaces match the value shape and degree of the original space.',
     ['inputs', 'configurations'],
     'Every mesh and embedded mesh, scalar/vector/tensor element family supported, every function, restriction side, '
     'normal orientation and tag subset.',
     'Stable tests check a few smooth functions on unit meshes with the full boundary or one interface.',
     [A + 'trace_matrix.py', A + 'nonconforming_trace_matrix.py', A + 'transpose_trace_matrix.py', A + 'trace_form.py',
      A + 'fem_eval.py'],
     [('row by row evaluation of dofs of the trace space', A + 'trace_matrix.py:trace_mat_no_restrict,trace_mat_one_restrict,trace_mat_two_restrict'),
      ('nonconforming', A + 'nonconforming_trace_matrix.py'), ('evaluators', A + 'fem_eval.py')])

prop('C11', 'Averaging shapes integrate over the curve or surface they name',
     'The quadrature attached to every averaging shape (circle, disk, square, rim of a square) lies in the plane '
     'through the given point perpendicular to the given direction, on the shape for circles, squares and rims, with '
     'weights summing to the measure of the shape. On disks, squares and the sides of rims it integrates polynomials '
     'of the requested degree exactly, on circles it is the Gauss rule in the angle.',
     ['inputs'],
     'Every centre, direction, radius (constant or varying), and quadrature degree.',
     'The stable average tests sample five functions, one straight vertical line and two shapes.',
     [A + 'average_shape.py', A + 'disk_quadrature.py'],
     [('shapes', A + 'average_shape.py'), ('disk rules', A + 'disk_quadrature.py')])

prop('C12', 'Averages and point evaluations equal their definition',
     'The matrix of an average, flux average, patch average or surface mean maps the coefficients of every '
     'function to those of the average (over the stated shape, patch or surface) the name promises, so '
     'constants are reproduced and the result is linear in the function; a mean is the integral against its weight '
     'and measure. Point and gradient-point traces return the value and the directional derivative of the function '
     'at the point.',
     ['inputs', 'configurations'],
     'Every function of every supported scalar and vector space, every curve mesh, shape, radius, patch size, cell '
     'or point.',
     'Stable tests check five analytic functions on one geometry and compare to loose tolerances.',
     [A + 'average_matrix.py', A + 'flux_average_matrix.py', A + 'patch_average_matrix.py', A + 'mean_matrix.py',
      A + 'surface_mean_matrix.py', A + 'point_trace_matrix.py', A + 'gradient_point_trace_matrix.py'],
     [('row assembly', A + '*_matrix.py')])

prop('C13', 'Reduced assembly is the chain rule of its reduction operator',
     'Assembling a form whose test (trial) function is reduced gives the transposed reduction matrix times (times the '
     'reduction matrix on the right of) the form assembled on the reduced space, reduced coefficients enter with their '
     'reduced values, and a form with several integrals is the sum over all of them, reduced or not. Substitution in '
     'a form replaces exactly the marked occurrences of a terminal and nothing else.',
     ['inputs', 'programs'],
     'Every multilinear form mixing reduced and plain arguments and coefficients, any number and order of integrals, '
     'both arities and every reduction type.',
     'Stable tests assemble single integrals with one reduced argument.',
     [A + 'reduced_assembler.py', A + 'ufl_utils.py', A + '*_assembly.py', A + '*_form.py'],
     [('assembler template', A + 'reduced_assembler.py:ReducedFormAssembler.assemble'),
      ('substitution', A + 'ufl_utils.py:replace,contains,matches,is_equal_terminal')])

prop('C14', 'Block-form bookkeeping keeps forms in the block of their arguments',
     'Adding a form to a block form puts every integral into the row of its test space and the column of its trial '
     'space and nowhere else; adding, permuting and symmetrising block forms commute with assembly: sums are entrywise, '
     'a permutation reorders rows and columns alike, and the completed self-adjoint form assembles to a symmetric '
     'block matrix whose given triangle is unchanged.',
     ['inputs', 'programs'],
     'Every list of spaces, every sum of integrals in any order, every permutation given by index or by spaces.',
     'No stable test builds a block form.',
     [A + 'block_form.py', A + 'ufl_utils.py'],
     [('_block_form.add/__setitem__/__add__, permute, form_adjoint, make_selfadjoint, is_*_triangular', A + 'block_form.py')])

prop('C15', 'Refined, dual, line and merged meshes partition what they come from',
     'Refining a mesh produces cells that partition the parent cells, and the parent maps send every child vertex or '
     'cell to the parent entity that contains it, through any number of refinements; line meshes contain every given '
     'segment once and merged meshes contain every given cell once with matching vertices identified. Dual cells '
     'cover the cells around a vertex.',
     ['inputs', 'histories'],
     'Every mesh of dimension 1 to 3 (embedded in higher dimension too), every choice of cells to refine and every '
     'sequence of refinements, every list of branches or meshes to merge.',
     'Stable tests refine one or two unit meshes once or twice.',
     [M + 'refinement.py', M + 'dual_mesh.py', M + 'line_mesh.py', M + 'generation.py', M + 'union_mesh.py'],
     [('refinement', M + 'refinement.py'), ('dual', M + 'dual_mesh.py'), ('line meshes', M + 'line_mesh.py, generation.py'),
      ('merging', M + 'union_mesh.py')])

prop('C16', 'Branch decomposition and curve geometry are consistent',
     'Colouring a network of line segments gives every cell one colour such that each colour is a single path or loop '
     'without branching, with terminals and bifurcations exactly the vertices of degree one and of degree above two. '
     'Curve tangents are unit vectors along the cells, consistent along a branch, and outward normals of an '
     'interface point away from the interior.',
     ['inputs'],
     'Every 1d network mesh embedded in two or three dimensions, every numbering of its vertices and cells.',
     'No stable test colours a mesh with loops or more than one branch.',
     [M + 'branching.py', M + 'embedded_mesh.py'],
     [('branches', M + 'branching.py'), ('tangents and normals', M + 'embedded_mesh.py:TangentCurve,OuterNormal,InnerNormal')])

prop('C17', 'Nullspace bases are orthonormal and projections remove them',
     'A block nullspace built from linearly independent vectors is an l2-orthonormal basis of their span and '
     'orthogonalisation against it leaves a vector orthogonal to every member and otherwise unchanged. The L2 '
     'projector, inner product and Riesz map of a mean-free space are orthogonal projection, its Gram operator and '
     'the inverse of that on the complement.',
     ['inputs', 'histories'],
     'Every list of independent vectors, in any order of insertion, and every vector to be projected.',
     'No stable test touches nullspaces or projectors.',
     [L + 'block_nullspace.py', L + 'sherman_morrison.py'],
     [('Gram-Schmidt', L + 'block_nullspace.py:BlockNullspace'),
      ('M-orthonormal basis and projector', L + 'sherman_morrison.py')])

prop('C18', 'Transfers between meshes reproduce functions the target can hold',
     'Injection, interpolation and restriction matrices between a mesh and its refinement or a submesh map the '
     'coefficients of a function to those of the same function on the other mesh whenever that space contains it, and '
     'each row evaluates the source at the location of its target degree of freedom.',
     ['inputs', 'configurations'],
     'Every nested pair of meshes (any refinement history), every submesh, every supported scalar and vector element '
     'and every function.',
     'Stable tests try three element pairs on a unit square with uniform refinement.',
     [A + 'injection_matrix.py', A + 'interpolation_matrix.py', A + 'restriction_matrix.py', A + 'fem_eval.py'],
     [('matrices', A + 'injection_matrix.py,interpolation_matrix.py,restriction_matrix.py')])

prop('C19', 'Mortar decompositions match the subdomain interfaces',
     'Splitting a mesh into marked subdomains yields sub-meshes that partition the cells and an interface mesh whose '
     'cells are exactly the facets between different subdomains; the maps of every subdomain to its own trace cells '
     'and from the interface to both neighbours point at geometrically identical facets. Each interface cell knows '
     'both of its neighbouring subdomains in the stated order.',
     ['inputs'],
     'Every mesh of dimension 2 or 3, every marking into any number of subdomains, with or without excluded tags.',
     'No stable test builds a mortar decomposition.',
     [M + 'mortar_mesh.py'],
     [('interface extraction and maps', M + 'mortar_mesh.py')])

prop('C20', 'The block Jacobian is the derivative of the block residual',
     'Differentiating a block residual yields at position (i, j) the derivative of residual i with respect to unknown '
     'j, reduced quantities included, so that assembled it is the Gateaux derivative of the assembled residual at '
     'every state and in every direction.',
     ['inputs', 'programs'],
     'Every block residual built from supported nonlinear expressions of the unknowns and their reductions, every '
     'state and every direction.',
     'No stable test differentiates a residual.',
     ['xii/nonlin/jacobian.py'],
     [('symbolic differentiation with reduced arguments', 'xii/nonlin/jacobian.py:ii_derivative,block_jacobian')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
