#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KT = "symbolic execution of the compiled kernel and of its Fortran reference (LLVM IR / GIMPLE), equality decided by rational-function normal forms and z3"
HT = "symbolic execution of the real iterator/span code (LLVM IR) over symbolic integers and real-valued arrays, assertions decided by z3"
KNOTE = ("For each enumerated box shape and flag combination the check decides the property for every box position, every ghost width, every parameter value and every "
         "array content at once; counterexamples are replayed on the compiled code before they are reported. Floating point is treated as exact real arithmetic; "
         "the LLVM front end at -O1, the vendored-in semantics of the engine and z3 are trusted; extents beyond the enumerated ones are outside the claim.")
HNOTE = ("Bounded: the stated extents and dimensions, within which every position, stride, jump and content is symbolic. Floating point is exact real arithmetic; clang's LLVM IR, "
         "the engine and z3 are trusted. Counterexamples are replayed natively before they are reported.")

TESTS = "The repository's tests compare a few fixed boxes with random data; "

# id: title, statement, over, quantifier text, why, files, mechanism[(name, where)], technique, note
P = {}


def prop(pid, title, statement, over, text, why, files, mech, tech=HT, note=HNOTE):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, pid
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note)


C = "src/cuda/"
KER = lambda s, m: [f"{C}{s % d}" for d in (1, 2, 3)] + [f"m4/{m % d}" for d in (1, 2, 3)]

prop("C01", "Face fluxes equal the reference on every face of every box",
     "For 1D, 2D and 3D patches, the face flux computed on every face normal to every axis equals the reference flux (face coefficient, where there is one, times the difference of the two adjacent "
     "cell values over the mesh width). This holds for every box position and shape, ghost width, mesh width and cell data, and covers exactly the faces of the box.",
     ["inputs"], "all box positions, box shapes, ghost widths, mesh widths, coefficient and solution arrays",
     TESTS + "an index or ghost-offset slip that needs another shape, ghost width or lower bound is never sampled.",
     KER("cdf_%dd_cuda.cpp", "celldiffusionflux%dd.m4") + [C + "md_device_span.hpp", C + "forward_stencil_iterator.hpp"],
     [("flux kernels", "src/cuda/cdf_1d_cuda.cpp, cdf_2d_cuda.cpp, cdf_3d_cuda.cpp"), ("reference", "m4/celldiffusionflux*.m4")], KT, KNOTE)
prop("C02", "Operator application and residual equal the reference in every cell",
     "For 1D, 2D and 3D patches, every operator-application and residual form (variable coefficient, constant absorption, pure diffusion) gives in each cell the same value as the reference formula over "
     "absorption term, flux divergence and right-hand side. This holds for every box position and shape, every combination of ghost widths of the arrays involved and every parameter value.",
     ["inputs"], "all boxes, independent ghost widths of each array, alpha, beta, mesh widths, all array contents",
     TESTS + "mixed ghost widths per array and asymmetric boxes are not sampled.",
     KER("cd_apply_%dd_cuda.cpp", "celldiffusionapply%dd.m4") + [C + "md_device_span.hpp", C + "iter_math.hpp"],
     [("apply/residual kernels", "src/cuda/cd_apply_*d_cuda.cpp"), ("reference", "m4/celldiffusionapply*.m4")], KT, KNOTE)
prop("C03", "Interior stencil assembly equals the reference entry by entry",
     "Assembling the operator matrix of a patch writes, for each cell, the same diagonal and off-diagonal stencil entries as the reference (variable-coefficient and constant-coefficient forms, "
     "diagonal with and without absorption). This holds for every box, ghost width of the stencil array, surrounding coefficient box, parameter and content.",
     ["inputs"], "all boxes, stencil ghost widths, coefficient boxes larger than the patch, parameters, contents",
     TESTS + "coefficient boxes larger than the patch and other ghost widths stay unexplored.",
     KER("cd_stencil_%dd_cuda.cpp", "celldiffusionstencilcoeffs%dd.m4") + [C + "stencil_proxy.hpp", C + "stencil_impl.hpp"],
     [("assembly kernels", "src/cuda/cd_stencil_*d_cuda.cpp (offdiag, poisson_offdiag, v1diag, v2diag, poisson_diag)"), ("stencil windows", "src/cuda/stencil_proxy.hpp")], KT, KNOTE)
prop("C04", "Boundary and coarse-fine stencil adjustments equal the reference",
     "Adjusting the stencil next to a physical boundary or a coarse-fine interface (diagonal, off-diagonal, re-adjustment and the related right-hand-side update) changes the same entries to the same values as the reference. "
     "This holds for every direction, side, boundary type, extrapolation or interpolation order, refinement ratio, boundary box, ghost width and content.",
     ["inputs", "configurations"], "all flag combinations (direction, side, boundary type, orders, ratio), boundary boxes anywhere along the patch side, ghost widths, contents",
     TESTS + "boundary boxes that cover only a part of a side, and most flag combinations, are not sampled.",
     KER("cd_stencil_%dd_cuda.cpp", "celldiffusionstencilcoeffs%dd.m4"),
     [("adjustment kernels", "src/cuda/cd_stencil_*d_cuda.cpp (adj_*, readj_*)"), ("reference", "m4/celldiffusionstencilcoeffs*.m4")], KT, KNOTE)
prop("C05", "Boundary ghost values equal the reference for every face, edge and corner",
     "Filling boundary ghost cells (Dirichlet, Neumann and Robin types, corrections with and without coefficients, homogeneous conditions, edges and corners) gives the same ghost values as the reference. "
     "This holds for every face, boundary segment along the patch side, extrapolation order, ghost width, parameter and content.",
     ["inputs", "configurations"], "all faces, segments, boundary types, orders, ghost widths, alpha, beta, mesh widths, contents",
     TESTS + "few segments and orders are sampled, edge and corner types hardly at all.",
     KER("cd_correct_bc_%dd_cuda.cpp", "cellsetcorrectionbc%dd.m4"),
     [("boundary kernels", "src/cuda/cd_correct_bc_*d_cuda.cpp"), ("reference", "m4/cellsetcorrectionbc*.m4")], KT, KNOTE)
prop("C06", "Coarse-to-fine ghost transfer copies the covering coarse value",
     "Transferring coarse data to fine ghost cells gives every requested fine cell the value of the coarse cell that covers it, along each axis and at corners, and equals the reference. "
     "This holds for every refinement ratio, fine offset within a coarse cell, index sign, box and ghost width.",
     ["inputs"], "ratios per axis, phases of the fine range inside a coarse cell, negative and positive indices, boxes, ghost widths, contents",
     TESTS + "one ratio and aligned non-negative starts are sampled.",
     [C + "coarse_to_fine_cuda.cpp", C + "coarse_to_fine_iterator.hpp", "m4/copycoarsetofine.m4"],
     [("transfer", "src/cuda/coarse_to_fine_cuda.cpp"), ("index map", "src/cuda/coarse_to_fine_iterator.hpp")], KT, KNOTE)
prop("C07", "Kernels touch only the memory of the arrays they are given",
     "No kernel reads or writes outside the declared extent of any array passed to it. This holds for every box position, ghost width (including zero where the kernel needs no ghost cells), flag combination and boundary segment.",
     ["inputs", "configurations"], "all boxes, ghost widths, flags and segments",
     TESTS + "an out-of-range access inside over-allocated ghost layers goes unnoticed.",
     KER("cd_apply_%dd_cuda.cpp", "celldiffusionapply%dd.m4") + [C + "submatrix_iterator.hpp", C + "md_device_span.hpp"],
     [("sub-box iterators", "src/cuda/submatrix_iterator.hpp, matrix_traversal_iterator.hpp"), ("spans", "src/cuda/md_device_span.hpp")],
     "symbolic execution of the compiled kernels; every address a polynomial over symbolic inputs, range queries decided by z3", KNOTE)
prop("C08", "Kernel results do not depend on how loop iterations are scheduled",
     "Each parallel kernel gives the same result under every assignment of loop iterations to threads and every order of execution. No two iterations of a parallel loop access the same memory cell unless both only read it, and each iteration works when started on its own.",
     ["schedules", "inputs"], "all schedules of the iterations of each parallel loop, all boxes, ghost widths, flags, contents",
     "Tests run one schedule per execution and a lost update may not show.",
     [C + f"{x}" for x in ("stencil_proxy.hpp", "md_device_span.hpp", "cd_stencil_2d_cuda.cpp", "cd_apply_2d_cuda.cpp", "cd_correct_bc_3d_cuda.cpp")],
     [("parallel loops", "thrust::copy_n / fill_n / for_each_n in src/cuda/md_device_span.hpp")],
     "symbolic execution of every iteration of each parallel loop on its own; pairwise footprint disjointness decided by z3", KNOTE)
prop("C09", "Single-precision kernels compute the same formulas as the double-precision ones",
     "The single-precision form of every kernel computes the same real-valued expression in every cell as the double-precision reference, up to rounding.",
     ["inputs", "configurations"], "all boxes, ghost widths, flags, contents, for the single-precision instantiation",
     "The existing tests only run double precision.",
     [C + f"{x}_{d}d_cuda.cpp" for x in ("cdf", "cd_apply", "cd_stencil", "cd_correct_bc") for d in (1, 2, 3)],
     [("float instantiations", "explicit instantiations at the end of each src/cuda/*_cuda.cpp")], KT, KNOTE)
prop("C10", "Multi-dimensional traversal obeys the random-access iterator laws",
     "A traversal over a box of up to four dimensions visits exactly its elements in row-major order, and every way of reaching a position (constructing there, stepping, jumping forwards or backwards by any amount, from either end) "
     "gives the same element, position difference and comparison result. This holds for every extent, stride, start and jump.",
     ["inputs", "histories"], "extents, strides, positions, jump lengths and signs, mixes of steps and jumps",
     "Tests walk a few boxes from begin to end; backward jumps across several dimensions and jumps from the end are not tried.",
     [C + "matrix_traversal_iterator.hpp", C + "matrix_utils.hpp"], [("advance, increment, decrement, distance", "src/cuda/matrix_traversal_iterator.hpp")])
prop("C11", "Transposed and strided sub-box views address the right elements",
     "A view of a sub-box of an array (with any stride per dimension) or of a reordered array yields, at each logical coordinate, the element of the array at that coordinate, and has the matching number of elements. "
     "This holds for every dimension order, array size, sub-box position and stride.",
     ["inputs", "configurations"], "array extents, sub-box bounds, strides, dimension orders, every logical coordinate",
     "Tests use two or three fixed arrays per factory.",
     [C + "submatrix_iterator.hpp", C + "transpose_iterator.hpp", C + "matrix_traversal_iterator.hpp"],
     [("factories", "src/cuda/submatrix_iterator.hpp, transpose_iterator.hpp")])
prop("C12", "Stencil traversal pairs each element with its neighbour, however reached",
     "Traversing neighbouring pairs along a direction yields, at each position, the element and its successor in that direction, over one position fewer in that direction, and obeys the random-access laws (steps, jumps of either sign, differences, ends). "
     "This holds in one to three dimensions for every direction, extent, stride and sequence of moves.",
     ["inputs", "histories"], "directions, extents, strides, positions, mixes of steps and jumps",
     "Tests move forwards over small boxes; backward jumps by whole lines were wrong until repaired here.",
     [C + "forward_stencil_iterator.hpp"], [("advance/increment/decrement/distance", "src/cuda/forward_stencil_iterator.hpp")])
prop("C13", "Fine-to-coarse index traversal maps every fine index to its covering cell",
     "Traversing coarse data by fine index yields the coarse element covering each fine index (rounding down for negative indices too) and obeys the random-access laws. This holds for every ratio, start index of either sign and move.",
     ["inputs", "histories"], "ratios, start indices, phases, moves", "Tests walk forward from one start index.",
     [C + "coarse_to_fine_iterator.hpp"], [("coarse_index, advance", "src/cuda/coarse_to_fine_iterator.hpp")])
prop("C14", "Offset traversal visits the elements at the listed offsets",
     "Traversing an array by a list of multi-dimensional offsets yields, for each list entry, the element displaced by that offset from the base element, and obeys the random-access laws. This holds for every offset list, stride and base.",
     ["inputs", "histories"], "offset lists (any sign), strides, bases, moves", "Tests use one list.",
     [C + "offset_iterator.hpp"], [("dereference", "src/cuda/offset_iterator.hpp")])
prop("C15", "Linear index and coordinates are inverse to each other, in row-major order",
     "Converting coordinates to a linear index and back is the identity, is one-to-one and order preserving over the box, also at the one-past-the-end position, and strides derived from extents (plain and weighted) are the products of the inner extents. This holds for every extent in up to five dimensions.",
     ["inputs"], "extents, coordinates, weights", "Only exercised indirectly by tests of fixed shapes.",
     [C + "matrix_utils.hpp"], [("ravel/unravel/strides", "src/cuda/matrix_utils.hpp")])

SP = C + "md_device_span.hpp"
prop("C16", "Bounds arithmetic and counts describe exactly the requested index range",
     "Building, shifting, expanding and widening a one-dimensional range by any amount gives the range with the lower bound, upper bound and stride that the operation names, leaves its operand unchanged, and counts exactly the elements lower, lower + stride, ... up to the upper bound. "
     "Spans made from ranges and a ghost width cover the ranges widened by that width, in every dimension order.",
     ["inputs"], "lower and upper bounds of either sign, empty and partial ranges, strides, ghost widths, amounts",
     "Tests use a handful of literal bounds, all with stride one.",
     [C + "md_bounds.hpp", SP], [("bounds, dir_bounds", "src/cuda/md_bounds.hpp"), ("make_md_span", "src/cuda/md_device_span.hpp")])
prop("C17", "Lazy array arithmetic evaluates to the same formula element by element",
     "An arithmetic expression over spans and numbers (sums, differences, products, quotients, negation, any nesting, operands on either side) stores in each element of the domain the value of the same formula over the elements at that coordinate, "
     "whatever the dimension orders and ghost widths of the spans involved. Operands that are also assigned to take their old value.",
     ["inputs", "configurations"], "expression shapes, dimension orders, ghost widths, boxes, contents, numbers",
     "Tests combine few operators on equal layouts; a swapped operand of - or / needs particular expression shapes to show.",
     [C + "iter_math.hpp", C + "traits.hpp", SP], [("operators", "src/cuda/iter_math.hpp"), ("operand pairing", "src/cuda/md_device_span.hpp")])
prop("C18", "Assignment over a domain writes exactly the domain's elements, once each",
     "Assigning a number or an expression over a domain writes every element of the domain (every stride-th one when a stride is given) in every span on the left, and no other, whatever the order in which the domain and the spans list their dimensions. "
     "Several assignments over one domain take effect in the order written.",
     ["inputs", "schedules"], "dimension orders of domain and spans, strides, boxes, ghost widths, contents, iteration schedules",
     "Tests use full boxes in one or two orders with unit stride.",
     [SP, C + "md_bounds.hpp"], [("with_domain, with_lhs_domain", "src/cuda/md_device_span.hpp")])
prop("C19", "Gradients and shifts read the neighbour in the named direction",
     "A gradient along x, y or z (upper or lower side) evaluates in each element to the difference of the two neighbouring values in that direction over the mesh width, and a shift by any amounts evaluates to the value displaced by those amounts. "
     "This holds in one to three dimensions for every dimension order, box, domain stride (one along a gradient's direction), ghost width and content.",
     ["inputs", "configurations"], "directions, sides, shift amounts of either sign, dimension orders, boxes, contents",
     "Tests check a few literal arrays.",
     [SP, C + "forward_stencil_iterator.hpp"], [("grad_x/y/z, shift_*", "src/cuda/md_device_span.hpp")])
prop("C20", "Stencil-window assignment updates the named entries of each cell only",
     "Assigning to stencil entries of a cell (single entries, offsets to neighbours, expressions mixing entries and spans, updates such as += and *=) changes exactly the named entries of the cells of the domain to the value the formula names, "
     "in the order written, and leaves the other entries as they were. This holds for every dimension order, box and content.",
     ["inputs", "configurations", "schedules"], "entry sets, expression shapes, dimension orders, boxes, strides, contents, iteration schedules",
     "Tests use one or two windows and shapes.",
     [C + "stencil_proxy.hpp", C + "stencil_impl.hpp", C + "window_iterator.hpp", SP], [("proxies", "src/cuda/stencil_proxy.hpp")])
prop("C21", "Array element access and host transfer address the right element",
     "Reading or writing an element of a span or an owning array by its coordinates reaches the element that holds that coordinate in memory order, for every dimension order and ghost width, and changes no other. "
     "Copying an owning array to the host keeps every element at its coordinates, and what was written through its data pointer is what the host sees, whatever was copied or set before.",
     ["inputs"], "extents, ghost widths, coordinates, dimension orders",
     "Tests read a few corners.",
     [SP, "src/md_device_vector.hpp"], [("at, operator()", "src/cuda/md_device_span.hpp, src/md_device_vector.hpp")])
prop("C22", "Stencil dot product multiplies each entry by the value at its offset",
     "The dot product of a cell's stencil entries with an array by a list of offsets evaluates, in every cell of the domain, to the sum over the entries of entry times the array's value displaced by that entry's offset, alone or inside an expression. "
     "This holds for every offset list, dimension count, box, domain stride and content.",
     ["inputs", "configurations"], "offset lists, number of entries, dimensions, boxes, strides, contents",
     "One 2D and one 3D example is tested.",
     [SP, C + "offset_iterator.hpp"], [("dot", "src/cuda/md_device_span.hpp"), ("offset traversal", "src/cuda/offset_iterator.hpp")])
prop("C23", "Coarse data assigned by fine index takes the value of the covering cell",
     "Assigning a coarse span, viewed at fine resolution, to a line of fine cells gives each fine cell the value of the coarse cell covering it along the line's direction, at the given coarse position in the other directions. "
     "This holds for every ratio, start index of either sign, dimension order and content.",
     ["inputs", "configurations"], "ratios, starts, line directions, dimension orders, contents",
     "Only one aligned call is tested through the kernel.",
     [SP, C + "coarse_to_fine_iterator.hpp"], [("fine", "src/cuda/md_device_span.hpp")])

M = lambda *names: [f"m4/{n % d}" for n in names for d in (1, 2, 3)]
ST = "symbolic execution of the compiled routines (LLVM IR / GIMPLE) on scenarios with symbolic boxes, ghost widths and contents; stated result decided by rational-function normal forms and z3"
SNOTE = ("For each enumerated shape and flag combination the check decides the stated result for every box position, ghost width, parameter value and array content at once; counterexamples are replayed on the compiled code "
         "before they are reported. Floating point is exact real arithmetic; the compilers' front ends, the engine and z3 are trusted; extents beyond the enumerated ones are outside the claim.")
prop("C24", "Applying a general stencil gives the weighted sum of neighbours",
     "Applying a stencil of arbitrary offsets to a patch (or at one point) stores, in each cell of the patch, b times the right-hand side plus a times the sum over the stencil entries of entry times the value displaced by that entry's offset, and changes nothing else. "
     "This holds in one to three dimensions for every box shape and position, offset list, combination of ghost widths and content.",
     ["inputs"], "box shapes and positions, offset lists, ghost widths of each array, a, b, contents",
     "No test calls these routines.", M("applystencil%dd.m4"), [("applystencilatpoint, applystencilonpatch", "m4/applystencil*.m4")], ST, SNOTE)
prop("C25", "Right-hand-side adjustments add exactly the named stencil contributions",
     "Adjusting the right-hand side of a coupled system adds, in each cell of the patch, the sum over the coupling entries of entry times the displaced value; adjusting it next to a side subtracts, in the cells along the segment, exactly the entries that point through the side times the ghost value they reach. Nothing else changes, "
     "for every box, side, segment, stencil shape, ghost width and content.",
     ["inputs", "configurations"], "boxes, directions, sides, segments, stencil offsets, ghost widths, contents",
     "No test calls these routines.", M("celladjustrhs%dd.m4"), [("celladjustsystemrhspatch, adjcellcrsfinebdryrhs", "m4/celladjustrhs*.m4")], ST, SNOTE)
prop("C26", "Each smoother sweep is the relaxation it is named after",
     "A Jacobi sweep moves every cell of the patch by the damping factor times the solution of its own equation with all old values; Gauss-Seidel solves each cell's equation in storage order with the values already updated; red-black sweeps do so for the cells of one colour (parity of the distance from the patch's lower x side plus the global row and plane indices) only; block Jacobi solves each cell's 1x1 or 2x2 block. "
     "Other cells, the stencil and the right-hand side stay as they were, for every box position (negative and odd too), array box and stencil shape.",
     ["inputs", "configurations"], "box positions of any sign and parity, shapes, independent array boxes, colours, stencil shapes, contents",
     "No test calls these routines.", M("cellsmooth%dd.m4") + [f"m4/cellblocksmooth{d}d.m4" for d in (1, 2)], [("smoothers", "m4/cellsmooth*.m4, cellblocksmooth*.m4")], ST, SNOTE)

CUDA = lambda *n: [f"{C}{x}_{d}d_cuda.cpp" for x in n for d in (1, 2, 3)]
prop("C27", "The assembled matrix does to a field what the matrix-free operator does",
     "On a patch, every row of the assembled matrix times the field equals the matrix-free operator (face fluxes, then application) in that cell, for the variable-coefficient, constant-absorption and constant-coefficient forms; the residual equals right-hand side minus that. "
     "This holds for every box, coefficient, parameter, ghost width and field, in the C++ and in the Fortran implementation.",
     ["inputs"], "boxes, coefficients, fields, parameters, ghost widths", "Tests compare each kernel with its own reference, never the matrix with the operator; a slip made in both stays invisible.",
     CUDA("cd_stencil", "cd_apply", "cdf"), [("assembly against application", "src/cuda/cd_stencil_*d_cuda.cpp, cd_apply_*d_cuda.cpp, cdf_*d_cuda.cpp")], ST, SNOTE)
prop("C28", "The operator is conservative and its matrix symmetric",
     "The matrix entry from a cell to its neighbour equals the entry from the neighbour back, every row sums to the absorption term, and the operator without absorption summed over the patch equals the fluxes through the patch boundary, so that interior fluxes cancel. "
     "This holds for every box, coefficient, parameter and field, in the C++ and in the Fortran implementation.",
     ["inputs"], "boxes, coefficients, fields, parameters, ghost widths", "No test sums or transposes anything.",
     CUDA("cd_stencil", "cd_apply", "cdf"), [("off-diagonal and diagonal assembly", "src/cuda/cd_stencil_*d_cuda.cpp"), ("flux divergence", "src/cuda/cd_apply_*d_cuda.cpp")], ST, SNOTE)
prop("C29", "Boundary ghost values satisfy the discretised boundary condition",
     "After filling ghost cells, each ghost value makes the interpolated boundary value (Dirichlet, extrapolation up to order 4), normal difference (Neumann) or combination alpha b u_n + beta u (Robin) vanish at the boundary face, with the order's weights; edge and corner ghosts continue their neighbours bilinearly. "
     "Only the named ghost cells change, for every face, segment, coefficient, mesh width, alpha, beta and field, in the C++ and in the Fortran implementation.",
     ["inputs", "configurations"], "faces, segments, types, orders, coefficients, alpha, beta, mesh widths, contents",
     "Tests only compare two implementations with each other; both had the same wrong Robin weight.",
     CUDA("cd_correct_bc"), [("boundary fill", "src/cuda/cd_correct_bc_*d_cuda.cpp, m4/cellsetcorrectionbc*.m4")], ST, SNOTE)
prop("C30", "Eliminating ghost cells from the matrix keeps the equations",
     "Next to a physical boundary, the adjusted matrix rows (ghost entry removed) applied to interior values equal the operator applied to data whose ghost cells were filled by the boundary routine; next to a coarse-fine interface, the adjusted rows applied with the coarse value in the ghost cell equal the operator applied with the interpolated ghost value, and the right-hand-side update moves that ghost term over. "
     "This holds for every direction, side, type, order, ratio, segment, coefficient and field.",
     ["inputs", "configurations"], "directions, sides, segments, boundary types, orders, refinement ratios, coefficients, mesh widths, contents",
     "No test relates the matrix adjustments to the ghost values they stand for.",
     CUDA("cd_stencil", "cd_correct_bc"), [("adj_*, readj_* against set_bc and apply", "src/cuda/cd_stencil_*d_cuda.cpp, cd_correct_bc_*d_cuda.cpp")], ST, SNOTE)
prop("C31", "Node-centred routines do what their cell-centred counterparts do",
     "Each node-centred flux, application, assembly and boundary-adjustment routine gives the result of the cell-centred routine of the same name on the same data (application: b times the right-hand side plus a times the operator). "
     "This holds in one to three dimensions for every box, direction, side, type, order, segment, parameter and content.",
     ["inputs", "configurations"], "boxes, flags, segments, parameters, contents", "No test calls the node-centred routines; several were wrong until repaired here.",
     M("nodediffusionflux%dd.m4", "nodediffusionapply%dd.m4", "nodediffusionstencilcoeffs%dd.m4"), [("node routines", "m4/nodediffusion*.m4")], ST, SNOTE)
prop("C32", "Results do not depend on how the axes are named or directed",
     "Reflecting the data along an axis, or exchanging axes, and running a flux, application, assembly, boundary-adjustment or ghost-filling routine with the correspondingly changed flags gives the reflected or exchanged result. "
     "This holds in one to three dimensions for every routine, box, flag combination, segment, parameter and content (where a routine implements all the directions involved).",
     ["inputs", "configurations"], "reflections, axis exchanges, boxes, flags, segments, contents", "A slip in one of the near-identical branches per direction and side needs that very branch to be compared with another.",
     CUDA("cdf", "cd_apply", "cd_stencil", "cd_correct_bc"), [("per-direction branches", "src/cuda/c*_cuda.cpp, m4/cell*.m4")], ST, SNOTE)
prop("C33", "Extrapolated coarse ghost cells continue the field linearly",
     "Linear extrapolation into the ghost cells next to a coarse patch gives, on a face, twice the adjacent value minus the next one along the face's normal, and on an edge or corner the bilinear continuation of the three neighbouring cells, "
     "so that a linear field is continued exactly. Only the cells of the segment change, for every face, edge and corner, box, segment, ghost width and content.",
     ["inputs", "configurations"], "faces, edges, corners, boxes, segments, ghost widths, contents", "No test calls this routine.",
     ["m4/copycoarsetofine.m4"], [("linearextrap", "m4/copycoarsetofine.m4")], ST, SNOTE)
prop("C34", "A cell's result does not depend on which patch holds it",
     "Computing on a patch and on any sub-box of it, the latter placed anywhere else in index space and stored with other ghost widths, gives the same numbers for the cells they share: face fluxes, operator and residual values, matrix rows, "
     "boundary and coarse-fine adjustments along a common side, boundary ghost values, and the node-centred forms of flux and matrix. A relaxation sweep over a patch does the same when the patch lies elsewhere (coloured sweeps: an even number of rows away). "
     "This holds in one to three dimensions for every routine in C++ and Fortran, box, sub-box, position, ghost widths, flag combination, segment, parameter and content.",
     ["inputs", "configurations"], "boxes, sub-boxes, positions of both patches, ghost widths, flags, segments, contents", "Tests run each kernel on one patch; neighbouring patches that disagree about a shared face or cell are never compared.",
     CUDA("cdf", "cd_apply", "cd_stencil", "cd_correct_bc") + ["m4/cellsmooth2d.m4", "m4/cellsmooth3d.m4"], [("kernels and routines on a patch", "src/cuda/c*_cuda.cpp, m4/cell*.m4, m4/node*.m4, m4/cellsmooth*.m4")], ST, SNOTE)

NA = {}


def main():
    with open(f"{HERE}/properties.jsonl", "w") as o:
        for pid, p in sorted({**P, **{k: v[0] for k, v in NA.items()}}.items()):
            o.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
         "checks": [{"property": pid, "quick_cmd": f"python3-vt checks/run.py {pid}", "thorough_cmd": f"python3-vt checks/run.py {pid} --thorough",
                     "technique": p["tech"], "level": "model_checking", "level_note": p["note"]} for pid, p in sorted(P.items())],
         "not_applicable": [{"property": k, "reason": v[1]} for k, v in sorted(NA.items())]}
    with open(f"{HERE}/MANIFEST.json", "w") as o:
        json.dump(m, o, indent=1)
        o.write("\n")


main()
