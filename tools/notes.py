NA = {}
PR = 'Proved for all ranks, shapes, strides, offsets, values and dtype combinations, under the assumptions in the evidence file.'
TODO = 'Index arithmetic, iteration and layout functions this property rests on are proved; the operation itself is so far decided by the bounded replay.'
NOTES = {i: ('other', TODO) for i in ['C%02d' % k for k in range(1, 19)]}
NOTES['C01'] = ('proof', PR + ' In-place += and unary minus are bounded so far.')
NOTES['C02'] = ('proof', PR + ' all() is bounded so far.')
