#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code only so that the long strings stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

TI='src/INNC/tensorImpl.cpp'; OPS='include/INNC/ops.hpp'; UT='src/INNC/utils/utils.cpp'; UH='include/INNC/utils/utils.hpp'
LA='src/INNC/layouts.cpp'; FN='src/INNC/function.cpp'; TN='src/INNC/tensor.cpp'; TH='include/INNC/tensor.hpp'; DI='include/INNC/dispatcher.hpp'; ST='src/INNC/storage.cpp'; TY='include/INNC/types.hpp'; TYC='src/INNC/types.cpp'

prop('C01','Elementwise arithmetic computes the broadcast scalar operation',
 'For any two tensors of any shapes, dtypes and strided layouts, a+b, a-b, a*b and a/b (and unary minus, as 0-a in a\'s dtype) have the right-aligned broadcast of the two shapes (aligned sizes are equal, or the smaller one is 1 and the larger one is taken), the later of the two dtypes in i8<i16<i32<i64<f32<f64, and at every index the C++ scalar operation on the two corresponding elements, converted to that dtype. Shapes that do not broadcast raise std::runtime_error. In-place a+=b adds every broadcast element of b to the element of a it is aligned with and touches no other memory.',
 ['inputs','programs'],'All ranks, shapes (including 0 and 1 sized dimensions), 36 dtype pairs, layouts reached by any view chain, and element values (integer division by zero and float non-finites excluded); += with b in other storage than a, or b being a itself.',
 'The tests evaluate a handful of fixed 2x3 / 3x1x2x1 tensors in a few dtype pairs; rank, shape, stride, offset and dtype pair are unbounded.',
 [OPS,UT,UH,TI,DI,TN],[('broadcast_range',UT),('for_each_sizevec',UH),('tensor_add/sub/mul/div kernels',OPS),('dispatch tables',DI),('apply_no_grad_binary_op, apply_binary_operator',UH),('cnt_from_aug_index',TI)],
 ['result of operators + - * / += and unary -'])
prop('C02','Comparisons and all() agree with the elements they compare',
 'For any two broadcastable tensors, <, >, <=, >=, == and != give an i8 tensor of the broadcast shape holding 1 where the scalar comparison of the corresponding elements is true and 0 elsewhere, and shapes that do not broadcast raise std::runtime_error. For a tensor of any dtype and layout, all() is true exactly when every element is non-zero (true when there are none). Neither modifies its operands.',
 ['inputs','programs'],'All ranks, shapes, dtype pairs, layouts and values (NaN excluded).',
 'Tests compare one 2x3 tensor with a scalar or an equal-shaped tensor, and call all() only on contiguous i8 results.',
 [OPS,UH,UT,TI,TN,DI],[('tensor_lt..tensor_ne kernels',OPS),('apply_cmp_op',UH),('TensorImpl::all',TI),('broadcast_range',UT)],['result of comparison operators and all()'])
prop('C03','Every element access stays inside the tensor\'s storage',
 'For every tensor obtainable through the public API, by any chain of factories, views, arithmetic, reductions and gradients, each in-range multi-index maps to an element slot inside the storage that tensor holds, with the element type that storage was made for. Consequently no API call on valid arguments reads or writes outside the storages of the tensors involved, and distinct indices of a freshly created tensor use distinct slots covering its storage exactly.',
 ['inputs','programs','histories'],'All chains of API calls, ranks, shapes, slice strings and dtypes whose element count fits in memory.',
 'Tests run under ASan but sample a few shapes and view chains; an out-of-bounds needs a particular offset/stride/dtype combination.',
 [LA,TI,OPS,ST,FN,UH],[('StridedLayout constructors, cnt_from_index',LA),('TensorImpl::create',TI),('UntypedStorage',ST),('cnt_from_aug_index',TI),('for_each_sizevec index range',UH)],['every load/store through a tensor data pointer'])
prop('C04','Slicing follows Python slice semantics as a view',
 'For any tensor and any slice string, t["s0,s1,..."] selects per dimension exactly the elements Python\'s start:stop:step (with negative, clamped, omitted and out-of-range bounds) or integer index (negative wraps, dimension dropped) selects, in that order; dimensions not mentioned or left empty are kept whole. Too many dimensions, an out-of-range integer index, a zero step, or text that does not start with a number raise an exception. The result is a view onto the same storage.',
 ['inputs','programs'],'All tensors (any rank, sizes, strides, offsets), all per-dimension start/stop/step values and omissions.',
 'About a dozen fixed strings on a 4x3 tensor; bounds, steps, sizes and base strides are unbounded.',
 [TI,UT,UH,TN],[('TensorImpl::operator[]',TI),('ssplit',UT),('trim_',UH)],['size, elements and storage of the sliced tensor'])
prop('C05','Transpose exchanges exactly two dimensions of a view',
 'For any tensor and two distinct valid dimensions, transpose returns a view of the same storage, dtype and element count whose sizes are the input\'s with those two exchanged and whose element at an index is the input\'s element at the index with those two coordinates exchanged. An out-of-range dimension, or twice the same dimension, raises std::runtime_error. Transposing twice with the same pair gives back the original tensor.',
 ['inputs','programs'],'All ranks, dimension pairs, shapes and source layouts.',
 'Tests transpose 2-D and one 3-D contiguous tensor.',
 [TI,TN],[('TensorImpl::transpose',TI)],['size and elements of the transposed tensor'])
prop('C06','Reshape keeps the row-major element sequence',
 'For any tensor of any layout, reshape to sizes with the same number of elements gives a tensor of exactly those sizes (one size given as -1 is inferred) whose row-major element sequence equals the input\'s row-major element sequence. Sizes with a different element count, more than one -1, a negative size other than -1, or an inference that does not divide raise std::runtime_error.',
 ['inputs','programs'],'All ranks on both sides, shapes (element counts below 2^63), layouts (contiguous, sliced, stepped, reversed, transposed) with or without grad.',
 'Tests reshape contiguous tensors and one stepped slice into a few shapes.',
 [TI,TN],[('regularize_size',TI),('TensorImpl::reshape',TI),('reshape_as',TI)],['size and elements of the reshaped tensor'])
prop('C07','Concatenation places every input block in order',
 'For any non-empty list of tensors of equal rank whose sizes agree except along the given dimension, cat returns a fresh tensor whose size along that dimension is the sum, whose dtype is the latest of the inputs\', and whose element at an index is the (converted) element of the input block that index falls into. An empty list, an invalid dimension, or a rank or size mismatch raises std::runtime_error.',
 ['inputs','programs'],'All list lengths, ranks, dimensions, block sizes (0 included), dtype mixes and layouts.',
 'Tests concatenate up to three contiguous 2-D tensors.',
 [TI,OPS,TN],[('TensorImpl::cat',TI),('tensor_cat kernel',OPS)],['size, dtype, elements of cat result'])
prop('C08','sum and mean account for every element exactly once',
 'For any tensor of any layout, sum() is a scalar equal to the row-major left-to-right sum of all its elements, each counted exactly once, accumulated in i64 for integer dtypes and f64 for float dtypes; mean() is that sum divided by the element count in the same type (truncating for integers). Both are 0 for a tensor with no elements and leave their input unchanged.',
 ['inputs','programs'],'All ranks, shapes, dtypes, layouts, values.',
 'Tests sum 2x3 contiguous tensors and scalars.',
 [OPS,TI,DI,TN],[('tensor_sum, tensor_mean',OPS),('TensorImpl::sum, mean',TI)],['value and dtype of sum()/mean()'])
prop('C09','max, min and abs return values of the viewed elements',
 'For any non-empty tensor of any layout, max() (min()) is a scalar of the same dtype that equals some element of that tensor and is not less (not greater) than any of its elements. abs() has the input\'s sizes and dtype and at every index the absolute value of the input\'s element. Their inputs are unchanged.',
 ['inputs','programs'],'All ranks, shapes, dtypes, layouts including offset/stepped views, values (NaN excluded).',
 'Tests use contiguous tensors whose extreme is not the first element.',
 [OPS,TI,DI,TN],[('tensor_max, tensor_min, tensor_abs',OPS),('TensorImpl::max, min, abs',TI)],['values of max(), min(), abs()'])
prop('C10','dtype conversion, clone and contiguous preserve every element',
 'For any tensor of any layout, type(t) has the same sizes and at every index the C++ conversion of the element to t (it is the same tensor when t is already its dtype); clone() and contiguous() have the same sizes, dtype and elements in fresh contiguous storage; detach() has the same sizes, dtype and elements. size(), numel(), dim(), type() and stride() report the tensor\'s actual sizes, element count, rank, dtype and strides, and is_contiguous() holds exactly when the strides are the row-major strides of the sizes.',
 ['inputs','programs'],'All ranks, shapes, layouts, dtype pairs, values representable in the target.',
 'Tests convert one 2x3 tensor and a 1-element tensor.',
 [OPS,TI,LA,TN,TY],[('tensor_to_type, tensor_clone',OPS),('TensorImpl::type, clone, contiguous, detach, stride',TI),('StridedLayout::is_contiguous',LA)],['elements, sizes, strides, is_contiguous'])
prop('C11','Factories fill every element with the specified value',
 'For any sizes and dtype, zeros, ones and full give a tensor with exactly those sizes and dtype, every element 0, 1 or the given number converted to the dtype; eye(n,m) is 1 on the main diagonal and 0 elsewhere; from_blob and nested initialiser lists copy their values in row-major order; scalar construction holds the scalar; the _like variants take sizes and dtype from their argument. randn gives a tensor of the requested float dtype with every element initialised and raises std::runtime_error for integer dtypes; ragged or mixed-type initialiser lists raise std::invalid_argument.',
 ['inputs'],'All ranks, shapes, dtypes and fill values.',
 'Tests print a few small tensors; f64 randn, large ranks and zero sizes are never produced.',
 [TI,OPS,TH,TN,ST],[('TensorImpl::zeros/ones/full/eye/from_blob/randn/create',TI),('tensor_fill, tensor_eye',OPS),('TensorInit',TH)],['elements, sizes and dtype of the new tensor'])
prop('C12','Views alias, results are independent, inputs are never modified',
 'Slices, transposes and detach share storage with their source, so an in-place update through one is visible through the others at exactly the corresponding elements. Arithmetic, comparison, reductions, clone, contiguous, cat, dtype change to another dtype and factories return storage disjoint from every existing tensor. No operation other than in-place += (and gradient bookkeeping) changes any element of an existing tensor.',
 ['histories','programs'],'All sequences of API calls on any set of tensors that share storage.',
 'Tests never update a base in place and look at a view, nor check that operands survive.',
 [TI,OPS,UH],[('TensorImpl::create overloads',TI),('kernels write only through dst',OPS)],['storage identity and contents before/after each operation'])
prop('C13','Gradients of + - * / are the broadcast-summed vector-Jacobian products',
 'When gradient flows back through a+b, a-b, a*b or a/b, each operand that requires grad has added to its gradient, at every one of its elements, the sum over all result elements it was broadcast to of upstream gradient times the partial derivative of the scalar operation there. An operand that does not require grad (including integer operands) gets no gradient and does not disturb the other, and an operand used twice receives both contributions.',
 ['inputs','programs'],'All shapes, broadcast patterns, layouts, float dtype mixes, values with non-zero denominators.',
 'Tests check gradients on 2x3 tensors with few broadcast patterns; division is tested only when both operands require grad and the denominator is not broadcast.',
 [FN,OPS,DI],[('AddBack, SubBack, MulBack, DivBack step_back',FN),('try_accumulate_grad, try_accumulate_update',FN),('tensor_mul_acc_f, tensor_div_back_numerator, tensor_div_back_denominator',OPS)],['grad() of operands after backward()'])
prop('C14','Gradients of sum, mean, max, min and abs are exact',
 'When gradient g flows back through a reduction, every element of the input receives g for sum, g divided by the element count for mean, and for max (min) g goes to exactly one element, one attaining the extreme, and 0 to the others; through abs each element receives its upstream gradient times the sign of the element. This holds for any layout of the input and wherever the extreme element lies.',
 ['inputs','programs'],'All shapes, layouts, positions of the extreme, upstream gradients, float dtypes.',
 'Tests back-propagate an upstream gradient of 1 through one max and one min whose extreme is in the last row; mean and abs have no gradient test.',
 [FN,OPS,TI],[('SumBack, MeanBack, KnownGradBack step_back',FN),('tensor_max/min/abs gradient mask',OPS)],['grad() of the input after backward()'])
prop('C15','Gradients through views, cat, clone and casts reach the right elements',
 'When gradient flows back through a slice, transpose, reshape, clone, contiguous, float dtype change or concatenation, each element of the source receives the sum of the upstream gradients of exactly the result elements that came from it, and elements that were not selected receive nothing. This holds for chains of such operations, for a view taken of a tensor that is itself a view, and when the view itself is the scalar that backward() starts from.',
 ['inputs','programs'],'All view chains, shapes, slice strings, dtypes.',
 'Tests back-propagate ones through a few slices, one transpose chain and one reshape.',
 [TI,FN],[('share_grad_storage',TI),('NoBack, CloneBack, CatBack step_back',FN),('TensorImpl::backward',TI)],['grad() of the source after backward()'])
prop('C16','backward() propagates each node once, after all its consumers',
 'For any acyclic graph of operations built since its intermediate results were last back-propagated, backward() on its scalar root lets every intermediate result pass its gradient on exactly once, and only after every result that consumes it on a path from the root has contributed, so each leaf\'s gradient is increased by exactly the derivative of the root summed over all paths. Nothing outside the root\'s ancestry is touched, and repeated backward() calls from separately built graphs accumulate in the leaves.',
 ['programs','histories'],'All computation graphs (any sharing, diamonds, repeated operands, any depth) and any order of construction.',
 'Tests use graphs of at most seven nodes; readiness errors need particular sharing and queue orders.',
 [TI,FN,'include/INNC/function.hpp'],[('refresh_n_outway',TI),('TensorImpl::backward',TI),('accumulated_n_outway / n_outway / back_version','include/INNC/function.hpp')],['order and number of gradient propagation steps; leaf gradients'],
 [dict(name='n_outway',meaning='number of edges into a node from nodes reachable from the root',where='include/INNC/function.hpp'),dict(name='accumulated_n_outway',meaning='number of contributions a node has received',where='include/INNC/function.hpp')])
prop('C17','requires_grad propagates and gradient misuse is rejected',
 'A result of a differentiable operation requires grad exactly when one of its operands does; comparison results, detach() and tensors just created never do. Requiring grad on an integer tensor, casting a tensor that requires grad to an integer dtype, in-place += on a tensor that requires grad, and backward() from a tensor that does not require grad, has no history, or has more than one element each raise std::runtime_error and change nothing. After backward() an intermediate result keeps its gradient exactly when asked to retain it, and zero_grad() makes an existing gradient all zero.',
 ['inputs','programs','histories'],'All operations, operand combinations, dtypes and call orders.',
 'Tests check one or two combinations of each.',
 [TI,TN,UH,FN],[('apply_binary_operator',UH),('TensorImpl::backward, type, operator+=, zero_grad',TI),('Tensor::requires_grad',TN)],['requires_grad(), grad(), exceptions'])
prop('C18','to_string renders the elements as nested row-major lists',
 'For any tensor of any layout, to_string() is the decimal text of its single element for rank 0, and otherwise a bracketed, comma-separated list over the first dimension of the renderings of its sub-tensors, each element read through the tensor\'s own view and dtype. Sizes and strides print as the bracketed list of their entries.',
 ['inputs'],'All ranks, shapes, layouts, dtypes, values.',
 'Tests print small, mostly contiguous tensors.',
 [LA,TYC,TN],[('StridedLayout::to_string_from, to_string_from_helper',LA),('innc_type_to_string, iter_to_string',TYC)],['string returned by to_string()'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
print(len(P))
