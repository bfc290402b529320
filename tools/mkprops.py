import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    P.append(d)
S='src/tensor/shape.rs';T='src/tensor/tensor.rs';D='src/tensor/data.rs';M='src/tensor/map.rs';A='src/tensor/axis.rs';I='src/tensor/index.rs';F='src/tensor/from.rs'
p('C01','A tensor reads exactly its own window of storage, never outside it',
 "Every tensor produced by the public constructors and operations holds exactly as many elements as the product of its dimensions (a scalar holds one), and a constructor given data whose length differs from that product panics. Slicing, iterating, get, flat indexing and the wrapped accessors - on a whole tensor or on any sub-view - return exactly the elements of that tensor's own window in row-major order. A position outside the window yields None or a panic (the wrapped accessors first reduce it modulo the size), never another element or foreign memory.",
 ['inputs','histories'],'all element types, lengths, shapes, chains of sub-views and positions','Tests read whole tensors with offset 0 and a handful of positions; none reads a sub-view through get or the wrapped accessors.',
 [T,D,I],[('window accessors (as_slice, get, as_wrap_*)',T),('shape/data length assertion in Tensor::new',T),('unsafe_init allocation',D)],
 [('offset,size','window of the shared buffer',T),('shape','dimensions whose product is size',T)],['as_slice','iter','get','[i]'])
p('C02','Shape edits change exactly the named dimension',
 "Read as its outer-to-inner list of at most six dimensions, a shape edited by replace/with_dim, insert, remove, push, pop, append, reduce, expand_dims, squeeze, with_cols, with_rows or the reverse-indexed variants is the list with exactly that edit applied and every other dimension kept in order: push and append add new outermost dimensions one after the other, pop removes the outermost, reduce drops the innermost (a vector becomes length one), and squeeze drops the dimensions equal to one - all of them, or only the one at the given axis, counted from the inside when negative - leaving [1] when none remain. An axis outside the list (squeeze excepted), or a result with more than six dimensions, panics instead of returning a shape. Two shapes compare equal exactly when their lists are equal, whatever operations built them.",
 ['inputs','histories'],'all shapes of rank 0..6 with 32-bit dimensions, all axes and values, all sequences of edits','Tests edit a few shapes of rank 1-3 by hand; ranks 4-6, negative axes and equality after edits are not reached.',
 [S],[('dims stored inner-first with zeros beyond rank',S)],[('dims,rank','inner-first dimensions, zero beyond rank',S)],['as_vec','=='])
p('C03','Shape measures and broadcast compatibility follow the dimension list',
 "rank, len, dim, rdim, idim, cols, rows, size, sublen, rsublen, batch_len and as_vec of a shape are the values determined by its outer-to-inner dimension list (size and the sub-lengths being products of the named range; batch_len(b) being the product of all but the innermost b dimensions). Two shapes broadcast exactly when the shorter list is a suffix of the longer one, the result being the longer list (or its size); otherwise the operation panics. Axis arguments from -rank to rank-1 select the dimension they name counted from the outside, negative ones from the inside.",
 ['inputs'],'all shapes of rank 0..6 whose element count fits 32 bits, all indices and axes','Tests call the measures on five shapes of rank at most 3.',
 [S,A],[('Shape measures',S),('broadcast / broadcast_to / broadcast_min',S),('axis normalisation',A)])
p('C04','Multi-dimensional indexing is row-major and bounds-checked',
 "For every tensor of the matching rank, indexing with a tuple of 2 to 5 positions that are each below the corresponding dimension returns the element at the row-major offset of that tuple in the flattened tensor, for whole tensors and sub-views alike. Any position at or above its dimension panics.",
 ['inputs'],'all ranks 2..5, dimensions and index tuples','Tests index one 3x2 matrix.',
 [I],[('Index impls for tuples',I)])
p('C05','Views relabel elements without moving them',
 "clone, reshape, flatten, expand_dims, squeeze, squeeze_axis, subslice and subslice_flat return a tensor whose flattened elements are exactly the documented contiguous run of the source's flattened elements (all of them, or rows [offset, offset+len) of the outermost dimension) under the documented shape. A reshape to a different element count and a sub-view past the end panic. Chained views compose: a view of a view reads the same elements as the equivalent single view.",
 ['inputs','histories'],'all shapes, offsets, lengths and chains of views','Tests take at most one sub-view of small matrices and reshape to one or two shapes.',
 [S,T],[('reshape/expand_dims/squeeze',S),('subslice/subslice_flat',T)])
p('C06','Element-wise maps and broadcasting pair the right elements',
 "map applies the function once to every element and keeps shape and position. For non-empty tensors map2 and map3 produce the broadcast shape, and the element at flat position k is the function applied to each operand's element at k modulo that operand's own size, operands in the given order. Incompatible shapes panic, and the function is called exactly once per output element, in row-major order.",
 ['inputs'],'all element types, shapes (including empty for map), broadcast pairs/triples, views and functions','Tests use equal shapes or a scalar/vector against one small matrix.',
 [M,S,T],[('map/map2/map3 kernels',M),('broadcast_to',S),('as_wrap_slice',T)])
p('C07','Axis reductions fold each lane in order into the right place',
 "reduce_axis and fold_axis along an axis return the shape with that dimension removed, and each output element is the left-to-right fold, from the first element or the given initial state, of exactly the input elements that share its remaining coordinates, in increasing order along the axis. Without an axis (and for reduce and fold) the result is a scalar: the fold over all elements in row-major order. Axis arguments run from -rank to rank-1, negative ones counting from the innermost dimension.",
 ['inputs'],'all non-empty shapes of rank 1..6, every axis, every element type, state and combining function, views included','Tests fold 2x2, 3x2 and 2x1xn inputs with commutative sums.',
 [M,A],[('Axis::reduce',A),('reduce/reduce_axis/fold/fold_axis kernels',M)])
p('C08','Row-wise maps and folds see whole rows in order',
 "map_row hands every innermost row, in row-major order, to the function exactly once and lays out the N results of row r contiguously at r*N (the innermost dimension becoming N, or being dropped when N is one and the rank is above one); map_expand does the same element by element, adding an innermost dimension of N. fold_row folds, for every output row, exactly the rows sharing its remaining coordinates in increasing axis order (all rows when no axis is given) from a fresh initial state. This holds for whole tensors and for sub-views.",
 ['inputs'],'all shapes of rank 1..5, row widths, N, axes and views','Tests cover a couple of matrices without views; fold_row is exercised with one input.',
 [M,A,T],[('map_row/map_expand/fold_row kernels',M),('Axis::reduce_row',A),('as_wrap_slice_n',T)])
p('C09','Normalisation keeps every element at its own position',
 "normalize along an axis returns a tensor of the input's shape in which the element at every coordinate is the normalising function applied to the completed statistics of that coordinate's own lane (all elements when no axis is given) and to the input element at that same coordinate. The statistics of a lane accumulate exactly that lane's elements in increasing order. normalize_unit is the instance that maps every element v to (v - min) / (max - min) over the whole tensor.",
 ['inputs'],'all non-empty shapes of rank 1..6, axes and functions','No existing test calls normalize.',
 [M,A,'src/math/normalize.rs'],[('normalize kernel',M),('normalize_unit','src/math/normalize.rs')])
p('C10','Concatenation and stacking place every input element',
 "Concatenating tensors along an axis yields the common shape with the axis lengths added, where the slab of the result belonging to the k-th argument equals that argument; stacking yields a new dimension of length n at the axis whose k-th slice equals the k-th argument. hstack concatenates along axis 1 (axis 0 for vectors), vstack stacks along axis 0, dstack concatenates along axis 2 after giving vectors and matrices a trailing third dimension, append concatenates along axis 0, and building a tensor from a list of tensors stacks along axis 0. Arguments whose other dimensions (or shapes, for stacking) disagree panic.",
 ['inputs'],'any number of arguments, all non-empty shapes up to the rank limit, every axis (negative included), views included','Tests join two arguments of rank 1-3.',
 ['src/array/stack.rs',T,F],[('concat_axis/validate_concat/stack_vec','src/array/stack.rs'),('from_merge/append',T)])
p('C11','Splitting partitions a tensor and concatenation undoes it',
 "Splitting along an axis at increasing cut points yields, in order, the tensors holding exactly the coordinates between consecutive cuts along that axis (all other dimensions unchanged), and splitting into n equal sections yields n tensors when n divides the length; vsplit, hsplit and dsplit are axes 0, 1 and 2. Concatenating the pieces along the same axis gives back the original tensor, and cut points past the end panic.",
 ['inputs'],'all non-empty shapes of rank 1..6, axes, increasing cut lists and section counts that divide the axis','Tests split 2x2 inputs in half and one vector at two cuts.',
 ['src/array/split.rs',T],[('split_axis/split_by_axis','src/array/split.rs')])
p('C12','Transpose swaps the two innermost coordinates in every batch',
 "transpose (and t) of a non-empty tensor of rank two or more swaps the last two dimensions and moves the element at (.., r, c) to (.., c, r) in every batch, so transposing twice is the identity; a vector of length n becomes an n by 1 matrix with the same elements.",
 ['inputs'],'all non-empty shapes of rank 1..6 and element types, views included','Tests transpose one vector and one 3x2 matrix.',
 ['src/array/transpose.rs'],[('transpose kernel','src/array/transpose.rs')])
p('C13','Tiling repeats the tensor along every dimension',
 "tile with a list of multiples right-aligned to the tensor's dimensions (missing entries counting as one on either side) returns the shape with each dimension multiplied, and its element at every coordinate is the source element at that coordinate modulo the source dimension. Every output element is written exactly once.",
 ['inputs'],'all non-empty shapes, multiples lists shorter, equal or longer than the rank, total rank at most six','Tests tile five inputs of rank 1-2.',
 ['src/array/tile.rs'],[('tile/tile_rec','src/array/tile.rs')])
p('C14','Initialisers and matrix builders fill every position as specified',
 "init calls its function once per element in row-major order, and the indexed initialiser passes each element's own coordinates (innermost first). zeros, ones, fill, eye/identity (n of at least one), tri, diagflat, tril and triu return the requested shape with every element equal to its defining value: the constant, one on the diagonal, one on and below the diagonal, the diagonal entry, or the source element on/below (tril) or on/above (triu) the diagonal of every batch matrix and zero elsewhere.",
 ['inputs'],'all shapes, sizes, batch counts and element types','Tests use square matrices up to 4x4 without batches.',
 [M,S,'src/init/matrix.rs','src/init/mod.rs'],[('init/init_rindexed/next_index',M),('eye/tri/tril/triu/diagflat','src/init/matrix.rs')])
p('C15','Meshgrid coordinates agree with their axes',
 "meshgrid of up to three vectors returns one tensor per vector over the full grid, where the k-th tensor at any grid coordinate holds the k-th vector's entry selected by that coordinate along the k-th axis - the first vector varying along the innermost dimension for meshgrid, along the outermost for meshgrid_ij. mgrid is the same grid over 0..M-1 and 0..N-1.",
 ['inputs'],'all vector lengths from one up and one to three axes','Tests use fixed 2/3/4-length axes.',
 ['src/init/matrix.rs'],[('build_meshgrid/build_meshgrid_axis','src/init/matrix.rs')])
p('C16','Sequence builders have the stated length, order and endpoints',
 "linspace, logspace and geomspace of n points return n evenly spaced samples along a new outermost dimension for every start/end pair (k-th sample at start + k*(end-start)/(n-1), through base-power or exp/ln for the log forms; geomspace of a single pair is a plain vector); arange returns start, start+step, ... strictly before the end in the direction of the step and terminates for ascending and descending steps. one_hot returns a vector of the given depth with ones exactly at the given indices and zeros elsewhere and panics on an index past the depth.",
 ['inputs'],'all lengths, tensor-valued endpoints, steps of either sign','Tests use a few scalar ranges and two vector ranges; arange is never called.',
 ['src/init/vector.rs'],[('linspace/logspace_opt/geomspace/arange/one_hot','src/init/vector.rs')])
p('C17','Matrix multiplication computes every entry from the right row and column',
 "Multiplying an m by k tensor with a k by n tensor (optionally transposing either operand) returns an m by n tensor whose entry (r,c) is the inner product of row r of the first with column c of the second, separately for every batch. Operands whose inner dimensions or batch dimensions disagree panic rather than read outside an operand.",
 ['inputs'],'all m, k, n of one or more, batch shapes, the four transpose modes and views','Passing tests multiply square-output 2-D matrices only, never a batch.',
 ['src/linalg/matmul.rs','src/linalg/blas.rs','src/linalg/blas_naive.rs'],[('matmul_t, mkn, sgemm strides','src/linalg/matmul.rs')],None,None,'Transpose is not exported; a guarded re-export is used by the replay harness')
p('C18','Matrix-vector multiplication applies the matrix to every vector',
 "Multiplying a matrix with a vector, or with a stack of row vectors, returns for every vector the inner products of the matrix rows (columns when transposed) with it, with the vector's dimension replaced by the number of rows; a single matrix (or a batch of matrices matching the trailing batch dimensions) serves every batch of vectors. Mismatched inner or batch dimensions panic rather than read outside an operand.",
 ['inputs'],'all matrix sizes, stacks of vectors, batch shapes and views','Tests multiply single small matrices with single vectors.',
 ['src/linalg/matvec.rs',S],[('matvec_t_f32, o_size, sgemm strides','src/linalg/matvec.rs'),('broadcast_min',S)])
p('C19','Conversions flatten nested data in row-major order',
 "Building a tensor from a value, option, vector, slice, array, iterator or nested vectors/arrays yields the shape given by the nesting lengths and the elements in row-major nesting order, each exactly once. Ragged nested vectors panic.",
 ['inputs'],'all nesting depths supported, lengths (including empty vectors) and element types','Tests convert two or three literals per nesting form.',
 [F,T,D],[('From/FromIterator impls',F)])
p('C20','Seeded random numbers are reproducible and in range',
 "The 32- and 64-bit generators are pure functions of their seed: each step is the same fixed linear-congruential update and output permutation, equal seeds (numeric or text) give equal sequences, and distinct generators do not influence one another. Uniform draws of either width lie in [0, 1]. A seeded random_normal tensor is the row-major sequence of draws of that seed scaled by the requested mean and deviation, and a seeded random_uniform tensor is that same sequence scaled by the width of the range (never negative) and shifted by its minimum.",
 ['inputs','histories'],'all seeds, all numbers of draws, all shapes and parameters','Tests compare the first ten 32-bit draws of a few seeds; the 64-bit generator is not tested directly.',
 ['src/random/random.rs','src/init/random.rs'],[('Rand32/Rand64 next','src/random/random.rs'),('random_normal/random_uniform','src/init/random.rs')])
p('C21','Histograms count every sample exactly once',
 "histogram of a non-empty vector of finite values with n bins returns n counts and n+1 edges from the minimum to the maximum, where each sample is counted once, in the bin whose interval contains it (the maximum in the last bin), so the counts sum to the number of samples. histogram2d does the same for pairs with independent edges per coordinate, the first coordinate selecting the column and the second the row.",
 ['inputs'],'all finite samples and bin counts','Tests use three vectors; the 2-D form has no passing test.',
 ['src/stats/histogram.rs','src/stats/histogram2d.rs'],[('binning loops','src/stats')])
p('C22','WAV decoding returns the recorded samples or refuses the file',
 "Decoding a well-formed 16-bit PCM WAV byte string returns every sample of the data chunk in order, as its little-endian signed value divided by 32768, in a frames by channels tensor, together with the header's sample rate. Any input whose RIFF, WAVE, fmt or data tag, RIFF length, fmt length (16), PCM code (1), sample width (16), channel count or data length does not fit panics; nothing outside the given bytes is read.",
 ['inputs'],'all byte strings','The only test needs an asset that is not in the repository.',
 ['src/io/decode_wav.rs'],[('Cursor reads and header assertions','src/io/decode_wav.rs')])
p('C23','Reading a file returns its complete contents',
 "Reading an existing file returns exactly its bytes, all of them, regardless of how the operating system splits the reads or what size it reports; a missing or unreadable file is an error, not a panic or partial data.",
 ['inputs','fault_sequences'],'all file contents and all sequences of short reads','The only test reads one short file at a path that does not exist here.',
 ['src/io/read_file.rs'],[('read loop','src/io/read_file.rs')])
p('C24','Arithmetic and bit operators act element-wise with operands in order',
 "Every binary operator between tensors (by value or reference), between a tensor and a scalar on either side, and every unary operator yields the tensor whose elements are that operator applied to the broadcast-paired elements, left operand first. abs, abs_sub, neg, sign tests, min, max and square are likewise the scalar operation applied element-wise, comparing tensors orders them lexicographically by elements, and two tensors are equal exactly when they have the same shape and equal elements at every position.",
 ['inputs','programs'],'all operators, operand forms, element types and broadcastable shapes','Tests exercise every form only for addition/subtraction and only on one- or two-element tensors.',
 ['src/math/num.rs'],[('tensor_ops2 macro and element-wise methods','src/math/num.rs')])
p('C25','Element-wise math methods apply the scalar function of the same name',
 "Each element-wise floating-point, integer and complex method of a tensor returns the tensor of the same (broadcast) shape whose elements are the scalar method of that name applied to the corresponding element, with a second operand - where there is one - passed as the scalar method's argument. This includes powers, logarithms, rotations, polar conversions and fused multiply-add.",
 ['inputs','programs'],'all methods, element types, shapes and values','Tests call two of the roughly seventy methods.',
 ['src/math/float.rs','src/math/integer.rs','src/math/complex.rs'],[('map/map2 wrapper macros','src/math')])
p('C26','Statistical reductions equal their definitions',
 "Over a whole tensor or along an axis, sum, product, min and max equal the left-to-right combination of the lane; mean is that sum divided by the count; variance and standard deviation are the running-mean (Welford) recurrences divided by the count (and its square root), zero for fewer than two elements; hypot is the root of the sum of squares. The axis forms agree with the whole-tensor form applied to each lane.",
 ['inputs'],'all non-empty shapes, axes and finite values','Tests evaluate each on a few tiny inputs, several only without an axis.',
 ['src/math/reduce.rs',M],[('FoldState accumulators','src/math/reduce.rs')])
p('C27','Spectra are computed for every row independently',
 "The real-FFT magnitude of a tensor transforms every innermost row separately: the result has the same outer dimensions, row r depends only on input row r, and its entries are the magnitudes of the Hann-windowed transform of that row truncated or zero-padded to the requested length. Every output element is written.",
 ['inputs'],'all row lengths of one or more, outer shapes and output lengths','Passing tests transform single vectors.',
 ['src/signal/rfft.rs'],[('batch loop','src/signal/rfft.rs')])
p('C28','Stored elements are released exactly once',
 "Every element moved into a tensor is dropped exactly once, when the last tensor, clone or view sharing its storage is dropped, with the allocation it was created with; elements are neither leaked by ordinary use nor dropped twice, for owned vectors, boxed slices, boxed rows and initialised storage of any length including zero.",
 ['inputs','histories'],'all element types, lengths and histories of cloning, viewing and dropping','Tests count drops for one- and two-element storage.',
 [D,T],[('TensorData construction and Drop',D)],[('data,len','owned allocation and its element count',D)])
p('C29','Generated option builders set exactly the named option',
 "For a structure annotated with the option-deriving attribute, each generated setter returns options in which the named field holds the given value and every other field is unchanged, starting from the defaults when called on the unit value.",
 ['programs'],'all annotated structures','The test derives one single-field structure.',
 ['crates/essay-opt/src/options.rs'],[('code generation','crates/essay-opt/src/options.rs')])
p('C30','Concurrent use of shared tensors and seeds is race-free',
 "Tensors shared between threads can be read, cloned, viewed and dropped concurrently with the same results as sequentially and with elements dropped once, and threads that draw unseeded random numbers obtain independent generator states derived from the global seed without losing or repeating an update.",
 ['schedules'],'all interleavings','No test starts a second thread.',
 [D,'src/random/random.rs'],[('Arc sharing, Send/Sync impls',D),('seed compare-exchange loop','src/random/random.rs')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,sc); assert len(x['title'])<=80
print(len(P))
