#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long lines stay reviewable)."""
import json, os
I = 'include/shiva/'
CA, CH = I+'common/CArray.hpp', I+'common/CArrayHelper.hpp'
IT, MI = I+'common/IndexTypes.hpp', I+'common/MultiIndex.hpp'
MU, SU, NS = I+'common/MathUtilities.hpp', I+'common/SequenceUtilities.hpp', I+'common/NestedSequenceUtilities.hpp'
EH, MA, PM, TY = I+'common/ShivaErrorHandling.hpp', I+'common/ShivaMacros.hpp', I+'common/pmpl.hpp', I+'common/types.hpp'
SP, QU = I+'functions/spacing/Spacing.hpp', I+'functions/quadrature/Quadrature.hpp'
LB, BP = I+'functions/bases/LagrangeBasis.hpp', I+'functions/bases/BasisProduct.hpp'
PE = I+'discretizations/finiteElementMethod/parentElements/ParentElement.hpp'
IS, NC, NX = I+'geometry/shapes/InterpolatedShape.hpp', I+'geometry/shapes/NCube.hpp', I+'geometry/shapes/NSimplex.hpp'
LT, SC, US, JT = I+'geometry/mapping/LinearTransform.hpp', I+'geometry/mapping/Scaling.hpp', I+'geometry/mapping/UniformScaling.hpp', I+'geometry/mapping/JacobianTransforms.hpp'
ALLH = [CA,CH,IT,MI,MU,SU,NS,EH,MA,TY,SP,QU,LB,BP,PE,IS,NC,NX,LT,SC,US,JT]
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

p('C01','Array element addressing is row-major, injective, the same in every form',
  'For every array shape and every valid index tuple, an element is stored at its row-major offset (last index fastest), so distinct tuples name distinct elements and together they use all of the storage. Access by compile-time indices, by run-time indices of any integer type and by chained brackets, on owning arrays, on views and on const versions of either, all name that same element. The rank, extents and size an array reports are those of its declared shape.',
  ['inputs','programs'],'all shapes (rank 1..5, unequal extents), all valid index tuples, every index type, every access form, owning/view/const',
  'The tests index a handful of elements of 2x4 and 2x3x4 int arrays; addressing is a function of the template arguments and of run-time indices, and a wrong stride can agree with the right one on equal or small extents.',
  [CA,CH],[('CArray::operator()',CA),('CArray::operator[]',CA),('linearIndexHelper / stride',CH)],['address of the returned reference'])
p('C02','Bounds checking fires exactly on out-of-range indices, and changes nothing else',
  'With bounds checking enabled, accessing an array with a run-time index that is negative or not below its extent, in any position and any access form, ends in an assertion failure before any element is touched, and an access whose indices are all in range never fails. With bounds checking disabled no access has a failure path. Enabling it changes neither the layout of an array nor which element a valid access names.',
  ['inputs','configurations'],'every index value of the index type (call form: any integer type, including 64-bit values and the extremes; brackets take the index type of the array, int), every position and access form, bounds checking on and off',
  'Four death tests probe one index value each on one shape, in the one configuration that is built.',
  [CA,CH,MA],[('SHIVA_ASSERT_MSG guards',CH),('operator[] guard',CA)],['call of the assertion handler'])
p('C03','Ill-formed array accesses do not compile',
  'A program that accesses an array with a compile-time index that is negative or not below the extent of its position, or with fewer or more indices than the array has dimensions, does not compile, in every access form that takes all indices at once. The same program with valid indices compiles.',
  ['programs'],'all programs that misuse an array in one of these ways; all shapes, positions and forms, owning, view and const',
  'A test suite contains only programs that compile; it cannot assert that a program is rejected.',
  [CA,CH],[('static_assert on index count',CA),('static_assert on compile-time index range',CH)],['compiler diagnostics'])
p('C04','Const arrays and views of const data never give write access',
  'No element access and no slice of a const array, of a const view or of an array or view of const elements gives write access to an element, nor does the data pointer of a const owning array or of an array or view of const elements, while the non-const forms do give write access. A view of const data can be made from a const buffer, and a view of mutable data cannot.',
  ['programs'],'all access forms, element types and shapes, including slices of slices and slices of const views',
  'A test can only show that permitted programs work; that a forbidden write is rejected by the type checker is a property of programs that do not compile.',
  [CA],[('const overloads of operator() and operator[]',CA),('SubArrayHelper const_type',CA),('view constructors',CA)],['types of access expressions'])
p('C05','Views and slices alias their buffer; owning arrays are independent copies',
  'An element reached through a view, or through a slice of an array or view, is the very element of the wrapped buffer or parent array at the corresponding position, so a write through one is seen through the other and changes no other element. Copying a view refers to the same buffer, copying an owning array gives an independent array with equal elements, and making a view or slice neither reads, writes nor copies elements.',
  ['programs','inputs'],'all shapes, positions, element types and chains of views, slices and copies',
  'Tests compare values read back from one 2x3x4 array; they cannot show that no other element changed or that no copy was taken for every shape.',
  [CA],[('view constructors and m_data',CA),('operator[] slices',CA),('scalar and view aliases',CA)],['addresses and memory effects'])
p('C06','Array initialisation stores the given values in order and zeroes the rest',
  'Constructing an owning array from k values, with k at most its size, stores them in storage order in its first k elements and zeroes every remaining element, so a default-constructed array is all zero. Giving more values than elements does not compile.',
  ['inputs','programs'],'all shapes, all k from 0 to the size, all values, all element types',
  'Tests construct fully initialised arrays or fill the elements afterwards; partial initialisation is not sampled and excess values cannot appear in a program that compiles.',
  [CA],[('CArray( U ... args )',CA)],['memory contents after construction'])
p('C07','Multi-index ranges are traversed exactly once, in lexicographic order',
  'Looping over a multi-index range calls the function once for every multi-index from the given start up to the range in each position, in lexicographic order with the last position fastest, and with no other multi-index, for any number of dimensions, any extents (equal or not) and any integer index type.',
  ['inputs','programs'],'all ranks, all unequal extents including 1, all starting indices',
  'The tests loop over one 2x2x2 range, where every permutation of the dimensions has the same extents.',
  [IT,MI],[('forRange / forRangeHelper',IT)],['sequence of callback arguments'])
p('C08','The linear index of a multi-index is a row-major bijection',
  'For every multi-index range, the linear index maps the multi-indices of the range one to one onto 0..size-1 in lexicographic order, with strides given by the extents of the later positions, whatever the extents are, as long as the index type can hold size-1.',
  ['inputs','programs'],'all ranks and unequal extents, all multi-indices of the range',
  'The tests use 2x2x2 ranges only, for which the strides of reversed or shifted extents are the same.',
  [IT,MI],[('linearIndex / stride',IT)],['returned value'])
p('C09','Compile-time loops visit every index combination once, in order',
  'A compile-time loop over one or several ranges invokes the body exactly once for every combination of indices, in lexicographic order with the last range fastest, passing each index as a compile-time constant; the form that takes the ranges as one sequence behaves identically. Support-point loops of basis products and shapes do the same over their numbers of support points per direction.',
  ['programs','inputs'],'all numbers of nested ranges and all unequal range lengths, every callable form',
  'Tests use two or three nests of fixed lengths and check sums, or run the body and compare against loops of equal length.',
  [SU,NS,BP,IS],[('forSequence',SU),('forNestedSequence',NS),('supportLoop',BP)],['sequence of callback arguments'])
p('C10','Compile-time expansion calls its function once with all indices and arguments',
  'Expanding a compile-time sequence calls the function exactly once, with the caller\'s extra arguments first, unchanged and with their value category, followed by all indices 0..n-1 in order, and returns the value the function returns. Both callable forms (indices as arguments, indices as template arguments) receive the same, and the integer-pack selector returns the element at its position.',
  ['programs','inputs'],'all lengths, all numbers and types of extra arguments, both callable forms',
  'Tests expand three indices with at most two integer arguments, for which wrong argument order in the applicability test is invisible.',
  [SU],[('executeSequence',SU),('SequenceExpansion::execute',SU),('IntPackPeeler',SU)],['callback arguments and return value'])
p('C11','Node spacings give the correct, increasing nodes, run time = compile time',
  'For every supported number of points, the nodes of each spacing are the true ones: equally spaced points including both ends, the roots of the Legendre polynomial, or the Gauss-Lobatto nodes including both ends, in strictly increasing order, symmetric about zero and inside [-1,1]. The node obtained with a run-time index and the one obtained with a compile-time index are the same for every index, and a number of points larger than the library has nodes for is rejected at compile time.',
  ['inputs','programs'],'all three spacings, every supported number of points (equal: any from 2; Legendre 2..4; Lobatto 2..9), every index, both access forms, float and double',
  'The tests check 2..5 points; the larger tables are unsampled and run-time and compile-time forms are separate code.',
  [SP],[('EqualSpacing',SP),('GaussLegendreSpacing',SP),('GaussLobattoSpacing',SP)],['coordinate values'])
p('C12','Quadrature rules are exact to their theoretical degree',
  'For every supported number of points N, the weights of each quadrature rule are positive and symmetric and, together with its nodes, integrate every polynomial of degree up to 2N-1 (Gauss-Legendre) or 2N-3 (Gauss-Lobatto) over [-1,1] exactly up to the precision of the tables, in particular summing to 2. Weights by run-time index and by compile-time index agree wherever both exist, and unsupported numbers of points are rejected at compile time.',
  ['inputs','programs'],'both rules, every supported N (Legendre 2..4; Lobatto 2..9 compile-time, 2..5 run-time), every index, float and double',
  'The tests cover up to 4 and 5 points, by comparing weights with the formulas they were written from; exactness for all polynomials is never evaluated.',
  [QU,SP],[('QuadratureGaussLegendre::weight',QU),('QuadratureGaussLobatto::weight',QU)],['weight values'])
p('C13','Lagrange basis functions are the cardinal polynomials of their nodes',
  'For every order and spacing, basis function i evaluated anywhere on the line equals the unique polynomial of degree at most the order that is 1 at node i and 0 at every other node. Hence the functions sum to 1 at every coordinate and reproduce every polynomial up to the order.',
  ['inputs','programs'],'every real coordinate, every basis index, orders 0..8, equal and Gauss spacings, float and double',
  'The tests evaluate order 5 or lower at one coordinate; agreement at a point does not determine a polynomial of degree 5, let alone other orders.',
  [LB,SP],[('LagrangeBasis::value',LB)],['returned value as a function of the coordinate'])
p('C14','Lagrange basis gradients are the exact derivatives of the basis functions',
  'For every order and spacing, the gradient of basis function i at any coordinate, including the nodes themselves, is the derivative of the polynomial that its value computes; the gradients of all functions sum to 0 everywhere.',
  ['inputs','programs'],'every real coordinate, every basis index, orders 0..8, all spacings, float and double',
  'The tests compare gradients at one coordinate that is not a node, where a formula that breaks down at nodes is right.',
  [LB,SP],[('LagrangeBasis::gradient',LB)],['returned value as a function of the coordinate'])
p('C15','Tensor-product bases multiply the right factor in the right direction',
  'The value of a multi-dimensional basis function at any point is the product over directions of that direction\'s one-dimensional basis function evaluated at that direction\'s coordinate, and component k of its gradient is its partial derivative with respect to coordinate k, for any number of dimensions and any mix of orders and spacings per direction. Basis product, interpolated shape and parent element give the same values and gradients, for every kind of coordinate container.',
  ['inputs','programs'],'every real point, every basis index tuple, 1..4 dimensions, all mixes of per-direction bases, the three levels, C arrays and array types as coordinates',
  'The tests use three identical bases in three directions of order 1 and 3, for which swapped directions or bases often give the same numbers; one point each.',
  [BP,IS,PE],[('BasisProduct::value',BP),('BasisProduct::gradient',BP),('InterpolatedShape::value/gradient',IS),('ParentElement::value/gradient',PE)],['returned value as a function of the point'])
p('C16','Fields are interpolated as the sum of nodal values times basis functions',
  'For any nodal values and any point, the interpolated field value is the sum over all support points of the nodal value times that point\'s basis function, and component k of the field gradient is the sum of nodal values times component k of the basis gradients; every support point contributes exactly once with its own nodal value. The nodal container is only read.',
  ['inputs','programs'],'every real point, every assignment of nodal values, 1..3 dimensions, unequal orders per direction, every container type that can be called with the indices',
  'The tests interpolate one fixed field of one element with equal orders at one point.',
  [PE],[('ParentElement::value( coord, var )',PE),('ParentElement::gradient( coord, var )',PE)],['returned value as a function of point and nodal values'])
p('C17','The Jacobian is the matrix of partial derivatives of the mapping',
  'For any vertex coordinates and any parent point, entry (i,j) of the Jacobian of an interpolated mapping is the derivative of physical coordinate i with respect to parent coordinate j. The form that takes a quadrature rule and point indices gives the same as the form that takes that point\'s coordinates, and the result does not depend on what the output held before.',
  ['inputs','histories','programs'],'every vertex assignment, every parent point, every quadrature point, every prior content of the output, shapes of unequal order',
  'The tests use one fixed distorted hexahedron of order 1 with outputs zeroed by hand; the quadrature form is not tested.',
  [LT],[('jacobian( transform, coords, J )',LT),('jacobian< QUADRATURE, QA... >',LT)],['J as a function of vertices and point'])
p('C18','Inverse Jacobians are true inverses, with the determinant of the Jacobian',
  'For every invertible Jacobian, the inverse returned times the Jacobian is the identity and the determinant returned is that of the Jacobian, for the 3x3 matrix inverse on C arrays and on array types and for interpolated mappings, whatever the outputs held before. A dimension for which the inverse is not implemented is rejected at compile time.',
  ['inputs','histories','programs'],'every invertible 3x3 matrix, every vertex assignment and parent point, every prior content of the outputs',
  'The tests invert the Jacobians of one hexahedron at eight points and compare to tabulated numbers.',
  [MU,LT],[('mathUtilities::inverse',MU),('inverseJacobian( transform, ... )',LT)],['inverse and determinant as functions of the entries'])
p('C19','Vertex data set on a mapping is the data it uses',
  'Setting the vertex coordinates of an interpolated mapping from a list stores, for the support point with indices (a,b,c) in a shape with n0 x n1 x n2 support points, the coordinates of list entry a + n0*(b + n1*c), every component, and nothing else changes. The data accessor gives the same storage that the Jacobian reads.',
  ['inputs','programs'],'every shape (equal and unequal numbers of support points), every list of coordinates, every container type for the list',
  'The tests set the vertices of 2x2x2 shapes only, where the strides 1, 2, 4 are right by accident.',
  [LT],[('LinearTransform::setData',LT),('LinearTransform::getData',LT)],['stored coordinates'])
p('C20','Scaling mappings have the analytic Jacobian, inverse and determinant',
  'For any positive side lengths, the Jacobian diagonal of a scaling cell is half the length per direction, the inverse is its reciprocal per direction and the determinant is the product of the diagonal; a uniform scaling gives the same as a scaling with equal lengths. Each of the three components uses its own length, lengths set are the lengths read back, default lengths are 1, and outputs do not depend on their prior contents.',
  ['inputs','histories'],'every side length, every prior content of the outputs, float and double',
  'The tests use one set of lengths per mapping.',
  [SC,US],[('Scaling jacobian / inverseJacobian',SC),('UniformScaling jacobian / inverseJacobian',US)],['outputs as functions of the lengths'])
p('C21','Return-by-value Jacobian helpers agree with the output-parameter forms',
  'For every mapping, the helper that returns the Jacobian gives exactly what the output-parameter form writes, and the helper that returns the inverse gives the pair (determinant, inverse Jacobian) in that order with exactly what the output-parameter form writes, at every point.',
  ['inputs','programs'],'all three mappings, every data assignment, every parent point, float and double',
  'Tests use the helpers on one data set per mapping.',
  [JT,LT,SC,US],[('utilities::jacobian wrappers',JT),('utilities::inverseJacobian wrappers',JT)],['returned values as functions of the inputs'])
p('C22','Cube and simplex combinatorics are right in every dimension',
  'For every dimension N, the number of m-dimensional faces reported is 2^(N-m)*binomial(N,m) for a cube and binomial(N+1,m+1) for a simplex, and vertices, edges, faces, cells and hyperfaces are the counts for m = 0, 1, 2, 3, N-1, or 0 where that does not exist. A count is never silently wrong: a dimension too large to count is rejected at compile time.',
  ['inputs','programs'],'every N from 0 (cube) or 1 (simplex) to the largest the library accepts, every m',
  'The tests check N = 1..4, far from where intermediate products overflow.',
  [NC,NX,MU],[('numMCubes',NC),('numMSimplexes',NX)],['returned counts'])
p('C23','Cube and simplex extents, lengths and volumes are those of the declared geometry',
  'For every choice of minimum, maximum, divisor and dimension, minimum and maximum coordinate are MIN/DIVISOR and MAX/DIVISOR in floating point, length is their difference, and volume is length^N for a cube and length^N/N! for a simplex. MIN not below MAX, or a divisor that is not positive, is rejected at compile time.',
  ['inputs','programs'],'all MIN < MAX, DIVISOR > 0, N, float and double',
  'The tests use (-1,1,1), (0,1,1) and one divisor.',
  [NC,NX],[('minCoord/maxCoord/length/volume',NC),('volumeHelper',NX)],['returned values'])
p('C24','Integer helpers compute powers, factorials and binomial coefficients',
  'The power helper multiplies its base EXPONENT times for every base and exponent (exponent 0 gives 1), factorial and binomial coefficient give the exact integers wherever the type can hold the factorials involved, and arguments outside 0 <= K <= N are rejected at compile time.',
  ['inputs','programs'],'every base value, exponents from 0, all N and K representable, int and 64-bit types',
  'They are tested only through cube and simplex counts for N up to 4.',
  [MU],[('pow',MU),('factorial',MU),('binomialCoefficient',MU)],['returned values'])
p('C25','What is computed at compile time equals what is computed at run time',
  'Every numerical query of the library (nodes, weights, basis values and gradients, interpolation, Jacobians, inverses, counts, volumes, array access, multi-index and linear index) can be used in a constant expression, and its result there equals the one the run-time call computes for the same arguments.',
  ['inputs','programs'],'every query, every order, spacing, shape and dimension, sampled arguments over their whole index domain',
  'The tests evaluate a few calls in static_assert and others at run time; constant evaluation takes different branches (e.g. is-constant-evaluated) that a run-time test never takes.',
  [LB,BP,PE,SP,QU,CA,LT,MU,NC,NX],[('constexpr on every function',MA),('SHIVA_IS_CONST_EVAL',MA)],['constant evaluation result vs generated code'])
p('C26','Computations are done and returned in the requested real type',
  'Every query instantiated for a floating-point type returns that type, and a double-precision query never passes any value through a narrower type on the way, so that no precision is lost to a conversion.',
  ['inputs','programs'],'all queries and data paths of all components instantiated with float and double',
  'Tests compare doubles with tolerances of 1e-12 or looser at points chosen, on double instantiations only; a narrow intermediate that is exact at the sampled values is invisible.',
  [SP,QU,LB,BP,PE,IS,LT,SC,US,NC,NX,MU],[('REAL_TYPE template parameter',LB)],['types in the generated code'])
p('C27','Results are the same under every supported language standard and configuration',
  'Every public header compiles and every query gives the same function of its inputs under C++17, C++20 and C++23 and with bounds checking on or off, although the code selects different implementations for them.',
  ['configurations','programs'],'C++17, C++20, C++23 x bounds checking on/off, for all basis, product, element, mapping, array and index queries',
  'The build compiles one standard and one configuration; the code of the other standards is never compiled by any test.',
  [LB,BP,MA,SU],[('__cplusplus branches',LB),('__cplusplus branches',BP),('SHIVA_S_CEVAL_HD_I',MA)],['generated code per configuration'])
p('C28','Every library function is callable from device code',
  'With a device backend enabled, the whole computational interface (arrays, multi-indices, compile-time loops, spacings, quadrature, bases, elements, shapes, mappings, error reporting) can be called from a device kernel: nothing reachable from it is host-only (library functions are declared for host and device, without relying on a compiler that treats constexpr functions so), and every entry point is callable from host code as well.',
  ['programs','configurations'],'all public functions, CUDA and HIP device compilations',
  'No test runs on a device in this build; a host build ignores the annotations completely.',
  [MA]+[CA,LB,BP,PE,SP,QU,LT,SC,US,NC,NX,IT,NS,SU],[('SHIVA_HOST_DEVICE annotations',MA)],['device compilation'])
p('C29','Every header is self-contained and safe to include anywhere',
  'Each public header, and the umbrella header, can be included first, alone, repeatedly and in any order, and from several translation units of one program without duplicate definitions.',
  ['programs','configurations'],'all headers, all orders (each first and pairwise), all standards, several translation units per program',
  'Each test includes a fixed set of headers in one order in a single translation unit.',
  ALLH+[PM,I+'Shiva.hpp'],[('#pragma once and own includes','include/shiva'),('inline / template definitions','include/shiva')],['compilation; symbols emitted'])
p('C30','Assertion failures are reported completely and then end the program',
  'On the host a failed assertion writes to standard error, in this order, the file and line of the failing assertion, the formatted message with all its arguments, each converted as the type it was passed with, and an end of line, and then aborts the program; with abort disabled it reports the same and returns. In device code it reports file, line and message and traps. A passing assertion evaluates its condition once, and reports nothing. This does not depend on NDEBUG.',
  ['inputs','histories'],'every message, argument list, location and abort flag',
  'Two death tests match one message; that nothing can return normally after an aborting failure, and that arguments and location are passed on in every case, needs all paths.',
  [EH,MA],[('shivaAssertionFailed',EH),('SHIVA_ASSERT_MSG',MA)],['calls and their arguments, termination'])
p('C31','The library is pure: no hidden state, allocation, I/O or exceptions',
  'Apart from assertion reporting, no library operation reads or writes mutable global, static or thread-local state, allocates memory, performs I/O, throws, or writes to anything but the outputs it is given, so that any number of threads may use it at once and equal inputs give equal outputs.',
  ['schedules','histories','programs'],'all operations and instantiations, any interleaving and any call history',
  'Tests are single-threaded and call each operation a few times; a static cache gives the right answers in all of them.',
  ALLH,[('static constexpr functions','include/shiva')],['globals, calls and stores in the generated code'])
p('C32','Misuse of bases, shapes and elements is rejected at compile time',
  'Asking a basis product, shape or element for a basis function with the wrong number of indices, building a shape or element whose number of bases differs from the dimension of its geometry, asking a cube or simplex for faces of more dimensions than it has or giving it an empty or inverted extent, asking for numbers of nodes or quadrature points that have no table, for the inverse Jacobian of an interpolated mapping outside three dimensions, or for a binomial coefficient out of range, do not compile, while the corresponding correct programs do.',
  ['programs'],'all programs that misuse these interfaces in one of these ways, all dimensions',
  'A test suite contains only programs that compile.',
  [BP,IS,PE,NC,NX],[('static_assert',BP),('static_assert',IS),('static_assert',PE),('static_assert',NC)],['compiler diagnostics'])
p('C33','Types advertise consistent static metadata',
  'The orders, numbers of support points, dimensions, vertex counts, index and coordinate types, Jacobian and data types that bases, products, shapes, elements and mappings advertise agree with each other and with the template arguments, per direction and in order, at every level.',
  ['programs'],'1..4 dimensions, unequal orders per direction, all element, shape and mapping types, float and double',
  'Tests check counts for equal orders in three directions.',
  [LB,BP,IS,PE,LT,SC,US,SP],[('static constexpr members and aliases',BP)],['types and constants'])
p('C34','The test-portability layer runs a function exactly once on the given data',
  'On host builds, launching a function through the portability wrapper calls it exactly once, synchronously, with the very data pointer given, forwards it without copying the data, and neither allocates nor frees the data; deallocation releases the array given. On device builds (CUDA and HIP) it launches one kernel on a device copy of the N elements, made before and copied back after it, waits for the kernel, frees the copy, and reports a failed kernel and aborts unless told not to. The comparison helper accepts exactly the pairs closer than the tolerance.',
  ['inputs','programs'],'every callable, every data pointer and size',
  'The wrappers are used by the tests but nothing checks them; a wrapper that copies the data or calls twice can pass.',
  [PM],[('genericKernelWrapper',PM),('deallocateData',PM)],['calls and their arguments'])
p('C35','Build options and the configuration header agree',
  'Each feature option of the build (device backends, camp, bounds checking) is transferred to the generated configuration header under the very name the headers test, so that turning it on or off has its documented effect, and the version reported is that of the project.',
  ['configurations'],'every option, on and off',
  'One configuration is built.',
  [I+'ShivaConfig.hpp.in','CMakeLists.txt','cmake/Config.cmake'],[('#cmakedefine lines',I+'ShivaConfig.hpp.in'),('option()','CMakeLists.txt')],['generated header'])
p('C36','The header splitter writes only below its output directory',
  'Splitting an aggregated header file writes files only below the output directory given, whatever file names the aggregated file contains, and so never overwrites the original headers unless they lie below that directory themselves. Aggregating writes only the output file named.',
  ['inputs'],'every aggregated file, every output directory',
  'The scripts have no tests.',
  ['scripts/aggregateOrSplit.py'],[('split_aggregated_file','scripts/aggregateOrSplit.py')],['paths opened for writing'])
p('C37','Floating-point rounding errors stay within a few units in the last place',
  'For every input, the rounding error of basis values, gradients, interpolation, Jacobians and inverses stays within a small multiple of the unit roundoff times the condition of the computation.',
  ['inputs'],'every floating-point input',
  'Rounding error depends on the values; tests sample a few.',
  [LB,BP,PE,LT,MU],[('evaluation order',LB)],['computed values'])
p('C38','Device execution computes the same as host execution',
  'Running any query on a device gives the same result as on the host up to rounding.',
  ['inputs','configurations','fault_sequences'],'every query, every device backend, every kernel failure',
  'There is no device here and no test runs on one in this build.',
  [PM,MA],[('genericKernelWrapper device path',PM)],['device results'])
p('C39','Compile-time specialisation costs no run-time overhead',
  'Code written with the compile-time interface runs as fast as hand-specialised code for common elements.',
  ['configurations'],'every compiler, target and element type',
  'Performance is not tested.',
  [LB,BP,PE,LT],[('templates and constexpr',LB)],['run time'])

p('C40','No query has undefined behaviour on valid input',
  'With valid indices and any real values, no query, loop or accessor of the library overflows signed arithmetic, reads or writes outside an object or an array row or after its lifetime, converts a real to an integer that cannot hold it, divides an integer by zero, branches on or returns a value never initialised, or ends without the value it must return.',
  ['inputs','programs'],'every query of every element, shape, mapping, array, index and utility type, every valid index, every real value',
  'Undefined behaviour usually gives the expected answer under the compiler and flags of the test build.',
  ALLH,[('pointer and index arithmetic',CH),('inverse',MU),('loops over index ranges',MI)],['compiler-generated definedness conditions'])
p('C41','Arrays, views, indices and mappings are plain data',
  'Arrays, views, scalars, multi-indices and mappings are trivially copyable and destructible standard-layout objects of exactly the size and alignment of their elements (a view: of a pointer), so that they can be copied byte by byte, to a device or a file, and the copy answers every query as the original and independently of it; stateless types (bases, products, shapes, elements) are empty, and all of them can be made in a constant expression.',
  ['inputs','programs'],'every shape, element type, mapping and basis combination; every content',
  'Tests copy no object byte by byte and look at no type trait.',
  [CA,MI,LT,SC,US,BP,IS,PE],[('members and special member functions',CA),('m_vertexCoords',LT)],['type traits','contents of copied objects'])

p('C42','The configure script deletes nothing but the build and install directories',
  'Configuring a build (config-build.py) deletes, creates and writes files only at or below the build and the install directory: those named on the command line or, when none is named, directories directly in the current directory whose names begin with build- and install-. It never deletes the current directory, a parent of a named directory, the host configuration or the sources. Comparing two uncrustify configurations (compare_uncrustify.py) writes no file at all.',
  ['inputs','programs'],'every command line, every host configuration name, every state of the file system',
  'The scripts have no tests, and the directories they delete come from the command line.',
  ['scripts/config-build.py','scripts/compare_uncrustify.py'],[('shutil.rmtree, os.makedirs','scripts/config-build.py')],['paths deleted and written'])
p('C43','The aggregated header is complete, ordered and splits back',
  'Aggregating headers (aggregateOrSplit.py aggregate) writes every header reachable from the given ones exactly once, after everything it includes, so that the result can be used in place of the tree; splitting the result gives back one file per header with its text; a cyclic include graph is reported rather than followed for ever.',
  ['inputs','programs'],'every set of headers and include paths',
  'The script has no tests, and what it writes depends on the files it is given.',
  ['scripts/aggregateOrSplit.py'],[('create_dependency_graph, generate_header_list','scripts/aggregateOrSplit.py')],['aggregated text'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
