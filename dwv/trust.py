TRUSTED = [
 'clang 18 front end and the AST extractor extract/dwx.cpp (the AST of every function of /repo/src is taken mechanically on each run; it drops: comments, source locations beyond line numbers, implicit destructor calls of automatic objects, exception specifications)',
 'dwv/exec.py: symbolic semantics of the C++ subset (loops summarised exactly, not unrolled; branches explored or merged)',
 'dwv/natives.py and dwv/eig.py: assumed contracts of the C++ standard library and of Eigen 3 (Map, Matrix, Tensor expressions) used by the code',
 'dwv/files.py: assumed contract of std::ifstream/ofstream (a file is a ghost sequence of typed segments); dwv/img.py: assumed contracts of libpng, libjpeg, stdio and setjmp/longjmp (a decoder error ends the call that raised it and resumes at setjmp)',
 'dwv/ade.py and stubs/ade_include: assumed contract of the ADE graph library, whose sources are not in this sandbox (graph, metadata, topological sort)',
 'contracts at open interfaces: IDataset (size, shape, pull) for DataLoader, ICPULayer (create, forward, backward, updateGradients) for CPUBackend',
 'back ends: normal form of dwv/terms.py, positivity/Handelman certificates re-checked in exact arithmetic, z3 4.x via the Python API',
]
ASSUMPTIONS = [
 'float and double are treated as mathematical reals (rounding and overflow are not modelled); NaN inputs are excluded',
 'integers are mathematical integers: dimensions are assumed small enough that products of extents fit in int (as Tensor itself requires)',
 'distinct tensors passed to a layer do not alias (as built by the CPU backend)',
 'memory allocation succeeds',
]
