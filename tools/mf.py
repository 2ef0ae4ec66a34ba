T='contract-based deductive verification: contracts on the real functions (LLVM IR extracted from /repo on every run), symbolic execution over all paths, obligations discharged by polynomial-identity testing over exact reals + z3'
NOTE='Proved for all real inputs and all listed configurations, on the clang IR of the current source; doubles are treated as exact reals; see evidence for trusted base.'
CLAIMS={
 'C01':(T,'proof',NOTE), 'C02':(T,'proof',NOTE), 'C03':(T,'proof',NOTE), 'C04':(T,'proof',NOTE), 'C05':(T,'proof',NOTE+' CAHVORE: convergence of the Newton loop is not proved (its fixed point is); near-axis points are bounded.'), 'C06':(T,'proof',NOTE+' CAHVORE near-axis points are bounded.'), 'C07':(T,'proof',NOTE),
 'C08':(T,'proof','Basis lemmas, knots, segment scale and _project_point_splined (orders 2,3; every path, every grid size, symbolic control points; doubles as exact reals). That mrcal_project() scatters the control-point gradients of the points it projects into the right columns is a bounded check of the compiled code.'),
 'C09':(T,'proof','Proved for all problem sizes (symbolic integers), every relevant selection combination, representative lens models (4, 12 parameters, splined with symbolic Nx,Ny); 32-bit overflow excluded.'),
 'C11':(T,'proof','Proved for all problem sizes (symbolic counts; splined with symbolic Nx,Ny): the stores of the real pack/unpack code are exactly the state elements, in order, with the declared scale; struct and vector forms.'),
 'C13':(T,'proof','Every path of every method, all requested-gradient combinations; doubles treated as exact reals (exactly parallel rays, where the formulas divide by 0, are covered by a bounded check of the compiled code); lindstrom: rays in front of their cameras (z>0); sigmoid and the angle helper are verified separately and used through their contracts.'),
 'C14':(T,'proof','Rectified geometry, resolution, range (sparse) and pinhole centre: every path, doubles as exact reals, pose conversions and projection used through their contracts (C01, C02, C05); the image sizes of the rectification maps (4x3) and of the dense range (3x2, one matched pixel at a time) are bounded, their contents are symbolic; the polynomial root finder (LAPACK) is assumed to return at most 4 numbers.'),
 'C16':(T,'proof','visit() and mrcal_traverse_sensor_links() by their loop contracts (one generic iteration), the triangular index, and the inductive lemma that these contracts with a min-priority queue give cheapest paths, for any number of sensors; the priority queue itself (heap.cc with the libstdc++ templates it instantiates) is verified for all costs up to a bounded number of queued sensors (7).'),
 'C15':(T,'proof','Every lens model, every configuration, every buffer size and (for parsing) symbolic text of any length: name printing, parsing, type lookup, templates, list of models, parameter counts and metadata. The C library (strcmp, strncmp, strlen, snprintf, sscanf) is used through its contracts: formats are interpreted as sequences of literal text and conversions, 17 significant digits are assumed to read back exactly; 2 Nx Ny+4 is assumed to fit an int.'),
 'C17':(T,'proof','mrcal_align_procrustes_vectors_R01 and _points_Rt01, with and without weights, every number of points (symbolic) and every path; the decomposed matrix, the reflection handling, failure reporting and translation are obligations; properness and optimality are lemmas over them. LAPACK dgesdd is assumed to return the singular value decomposition; weights assumed nonnegative.'),
 'C19':(T,'proof','Pixel access and cropping: every pixel type, every size and stride (symbolic). Color mapping: every path for 2 pixels of arbitrary value; channel swapping and 16-to-8-bit stretching at bounded image sizes; writing and reading image files (libpng, stb) and the color formulas are bounded checks of the compiled code.'),
 'C24':(T,'proof','Every function of the documented minimath families found in the current headers, the strided kernels of minimath-extra.h (symbolic strides; dimensions enumerated) and poseutils.c, and the point primitives; any number of rows / elements; doubles are treated as exact reals.'),
 'C12':(T,'other','mrcal_optimizer_callback executed symbolically, every path, for small problems (up to a few cameras, frames, points, observations and triangulated pairs; all lens families, selections, outliers; all contents symbolic): counted as bounded because the numbers of observations are. project() is under contract per lens model (points proved, boards of bounded size). Lens, pose and triangulation functions are used through their contracts (C01-C08, C13).'),
 'C20':(T,'other','mrcal_optimize executed symbolically, every path (solver replaced by its contract: it may move the state anywhere and reports residuals of that state; measured residuals, weights and geometry symbolic), for small problems: counted as bounded because the numbers of observations are. The compiled code is also run with a stub solver against an independent oracle of the whole rejection loop.'),
 'C21':(T,'proof','Every lens model, every path, any number of points (one generic iteration): the vector is the closed-form inverse, or the unprojected state of a solve within tolerance, or NaN. The solver (libdogleg) is used through its contract: the returned error is that of the residual callback (also under contract) at the final state; whether it converges is not claimed. Projection formulas and closed-form inverses are used through C05, C07. A vector that projects back means within the 0.015 pixel tolerance of the code. End-to-end runs of the compiled code are bounded.'),
 'C18':(T,'other','The C writer is proved: any lens model, any number of parameters, any values, every outcome of the stream calls. The readers (re2c automaton, Python package) are bounded: many models, valid texts and malformed texts through every reader of the compiled code, and the C and Python writers and readers crossed. Numbers are compared as doubles (-0 equals 0). Legacy formats (.cahvor, OpenCV yaml) are excluded.'),
 'C22':(T,'other','The slice functions of the Python extension modules (what runs for each broadcast element) are proved to hand the C library the right memory and to put its results into the right outputs: poseutils for every positive stride and for families of layouts with non-positive ones, triangulation and simple projections for contiguous arrays, which their validation functions are proved to require. The broadcasting machinery of numpysane and the CPython/numpy C API are trusted by the proofs, and covered by a bounded check of the compiled package: broadcasting, memory layouts, out=, wrong shapes and types, against the C library called one element at a time. mrcal-pywrap.c (optimize(), optimizer_callback(), the state and measurement layout, pack/unpack, CHOLMOD_factorization, images, rectification maps, traversal) is bounded, but for the validation of the shapes and indices of an optimization and the functions that fill in the observations from them, which are proved (any number of rows of one kind, by induction; mixtures and triangulated sets up to 3 rows): random problems in random layouts and with every inconsistency we know of, against oracles in numpy.'),
 'C10':(T,'proof','Proved for all problem sizes and all groupings of triangulated observations (inferred and re-proved loop invariants over ghost set structure); square root in the decode treated as exact; 32-bit overflow excluded.'),
}
NB='not built yet'
NA={'C%02d'%i:NB for i in range(1,25)}
NA['C23']='the uncertainty is computed in numpy/CHOLMOD on a factorized sparse system; no contract over the real code within reach of a deductive verifier expresses it'
