CONC=dict(san='tsani',extra=['lib/sched_native.cpp'],link=['-rdynamic','-ldl'])
BLAS=['-lopenblas','-llapacke','-pthread']
PROPS={}; NA={}
def P(i,**k): k.setdefault('level','model_checking'); k.setdefault('assumptions',[]); PROPS[i]=k
SCHED_NOTE='Every schedule of the listed harness programs up to the stated preemption bound, on the real code; sequentially consistent interleavings plus a happens-before race detector (a data race is itself reported). Trusts the scheduler in lib/sched_native.cpp and the Win32/pthread stand-ins.'
SCHED_ASSUME=['Scheduling points are the synchronisation operations and atomics; plain accesses between them are covered by the happens-before race detector, which reports any race.','Weak-memory effects beyond data races are not modelled.','Up to the stated number of worker threads, jobs and preemptions.']

P('P01',title='A parallel job is run completely, exactly once, and finished on return',
 statement='Whatever number of worker threads is available or requested and however they are scheduled, a parallel run hands out every index of the range exactly once, as contiguous non-overlapping pieces with distinct thread numbers, and returns only after all of them were processed and their effects are visible to the caller; a parallel reduction returns the combination of exactly the pieces\' results. No sequence of jobs deadlocks, leaks work into a later job or races on memory, and destroying the pool at any moment when no job is running terminates all its threads.',
 over=['schedules','inputs','histories'],qtext='every interleaving (up to the preemption bound) of every short sequence of run/reduce jobs, range sizes and requested thread counts, for pools of 2 to 4 threads and both sets of synchronisation primitives',
 why='The repository\'s threading test runs one pool on the machine\'s thread count under whatever schedule the OS happens to choose; lost wake-ups, early returns and races need particular interleavings.',
 files=['nntl/interface/threads/workers.h','nntl/interface/threads/_sync_primitives.h','nntl/interface/threads/parallel_range.h','nntl/utils/call_wrappers.h','nntl/utils/forwarder.h'],
 mech=[('Workers::run / reduce / partition_count_to_workers','nntl/interface/threads/workers.h'),('mutexes and condition variables','nntl/interface/threads/_sync_primitives.h')],
 technique='stateless model checking of the real pool under a controlled scheduler (preemption-bounded DFS) with happens-before race detection',note=SCHED_NOTE,
 jobs=[dict(name='pool',src='harness/h_pool.cpp',**CONC)],assumptions=SCHED_ASSUME,
 rule='one execution = one complete schedule of one harness program (sequence of jobs); an execution is distinct when its choice sequence is; outcomes hash the observed per-piece assignment',
 bounds='pools of 2..4 threads, sequences of up to 3 jobs, ranges 0..5; preemption bounds per scenario are listed in per_scenario')
P('P02',title='Background workers run and retire tasks exactly as ordered',
 statement='Background tasks are executed only by the background threads, in the order of their priority, again and again while they report work and are never executed after the call that deleted them has returned; a one-off job given to all background threads is executed by each of them exactly once before the call returns. Adding, deleting, executing, re-tuning and destroying may be interleaved with the workers in any way without deadlock, data race, lost task or thread that outlives the pool.',
 over=['schedules','histories'],qtext='every interleaving (up to the preemption bound) of controller operations with 1-2 background threads',
 why='The existing test only checks one free-running schedule; the guarantees are about interleavings of the controller with workers that poll on a timer.',
 files=['nntl/interface/threads/bgworkers.h','nntl/interface/_i_bgworkers.h','nntl/interface/threads/_sync_primitives.h','nntl/interface/threads/prioritize_workers.h'],
 mech=[('BgWorkers task list and generation handshake','nntl/interface/threads/bgworkers.h')],
 technique='stateless model checking of the real background pool under a controlled scheduler (preemption-bounded DFS, virtual time) with happens-before race detection',note=SCHED_NOTE,
 jobs=[dict(name='bg',src='harness/h_bg.cpp',**CONC)],assumptions=SCHED_ASSUME,
 rule='one execution = one complete schedule of one controller program; outcomes hash the observed task execution history',
 bounds='1..2 background threads, up to 2 tasks; preemption bounds per scenario are listed in per_scenario')
P('P03',title='The producer/consumer ring buffer neither loses, repeats nor reorders data',
 statement='Values that background producers deliver into a ring buffer come out to the consumer exactly once and in delivery order, whatever the buffer size, the sizes of the requests and the interleaving; producers are never told to make more than fits and are told to make something whenever there is room; no access leaves the buffer\'s memory, and a buffer can be fed and consumed concurrently without data races or deadlock.',
 over=['histories','schedules','inputs'],qtext='every reachable state of the buffer protocol for buffer sizes 1-5 with up to 3 outstanding producers, and every interleaving (preemption bound 2) of one producer and one consumer',
 why='No test drives the buffer through wrap-around states with several outstanding producers.',
 files=['nntl/utils/data_buffer.h','nntl/interface/threads/_sync_primitives.h'],
 mech=[('DataBuffer::acquire_data/release/_as_should_work/_as_done','nntl/utils/data_buffer.h')],
 technique='explicit-state model checking of the real buffer object (all reachable states) plus preemption-bounded schedule exploration',note='All reachable states of the real buffer object for the stated sizes, checked against a queue; plus all schedules up to the bound of a producer and a consumer.',
 jobs=[dict(name='databuf',src='harness/h_databuf.cpp'),dict(name='ringconc',src='harness/h_ringconc.cpp',**CONC)],assumptions=SCHED_ASSUME+['A consumer that shrinks an acquired piece consumes at least one value (the library\'s own feeder does).'],
 rule='a state is the buffer object together with live contents and outstanding claims (canonicalised); a transition is one API call on the real object',
 bounds='buffer capacities 1..5 (6 in the thorough tier), up to 3 outstanding producers')
P('P04',title='A matrix keeps its shape, data, bias and ownership through any operations',
 statement='Through every sequence of construction, resizing, copying, cloning, moving, viewing, deforming, clearing, bias and fill operations, in both sample layouts, with or without emulated biases and for owned or external storage, a matrix reports exactly the dimensions, flags, addresses and element values that the sequence defines. Emulated biases are ones (or the holes explicitly put there) after every operation that promises them, operations on mismatching shapes are refused without effect, views alias exactly the promised elements, and no operation reads or writes outside of the storage, leaks it or frees it twice.',
 over=['histories','inputs','configurations'],qtext='every sequence of up to 5 operations out of about 60 on two matrices and an external block, for float, double and integer elements',
 why='The four passing tests exercise one fixed history per feature; flags, aliasing and ownership bugs need particular combinations of layout, bias mode, storage mode and previous operations.',
 files=['nntl/interface/math/smatrix.h'],mech=[('smatrix / smatrix_deform','nntl/interface/math/smatrix.h')],
 technique='explicit-state search over operation sequences on the real class against a reference model, under AddressSanitizer',note='Every operation sequence up to the depth, with state merging; every observer compared with the reference model after every step.',
 jobs=[dict(name='matrix',src='harness/h_matrix.cpp')],
 assumptions=['Preconditions stated in the headers (asserts, "does not support" notes) are respected by the driver.','Elements that no operation defined (fresh storage) are not compared.'],
 rule='a state is the canonical model state (shapes, flags, aliasing, renamed contents); a transition is one operation on the real matrices followed by a comparison of all observers',
 bounds=dict(quick='operation sequences of length 5 (float), 4 (double, int, and float with all constructors and refusals)',thorough='operation sequences of length 6 (float), 5 (double, int, and float with all constructors)'))

MATHJ=dict(link=BLAS)
def mj(name,src,tier=None,conf=True):
    j=[dict(name=name,src='harness/'+src,link=BLAS)]
    if conf: j.append(dict(name=name+'_c',src='harness/'+src,san='tsani',extra=['lib/conf_native.cpp','lib/win_native.cpp'],link=BLAS))
    return j
MATH_NOTE='Bounded-exhaustive: every listed shape, layout, implementation, pool size and piece order within the bounds, on the real code; pieces of a parallel operation are also checked for conflicting accesses, so no interleaving inside them can differ.'
MATH_ASSUME=['Dispatch thresholds (which only choose between implementations) are lowered so that small matrices reach every implementation.','Thread pool schedules themselves are P01; here a pool is an enumerated number of threads whose pieces run in enumerated orders and must not conflict.','Shapes beyond the bound behave like the enumerated ones.']
MATH_RULE='a state is one combination of shape, layout, contents, implementation, pool size and piece order; a transition is one call of the real operation; outcomes hash the results'
P('P05',title='Data movement operations move exactly the selected elements',
 statement='Operations that extract, scatter, tile, clone, transpose, binarize or count matrix elements produce a destination that holds exactly the elements which their definition selects, in the defined places, for every shape, layout, bias mode, index list or mask and every number of threads; sources, biases and elements outside of the destination range are left untouched and nothing outside of the matrices is accessed.',
 over=['inputs','configurations','schedules'],qtext='every shape with dimensions out of {1,2,3,4,5,9} (up to 17 in the thorough tier), every mask, all index lists for small shapes, both layouts, every implementation variant, 1-4 threads and both extreme piece orders (all orders of up to 3 pieces in the thorough tier)',
 why='Tests compare variants on a few random matrices with the machine\'s thread count; off-by-one and partitioning mistakes need particular row/column/thread combinations.',
 files=['nntl/interface/math/smath.h','nntl/interface/math/mathn.h'],mech=[('mExtract*/mFillRowsByMask/mTranspose/ewBinarize*','nntl/interface/math/mathn.h'),('mTiling*/mCloneCols','nntl/interface/math/smath.h')],
 technique='bounded-exhaustive enumeration of inputs, partitions and piece orders on the real code (explicit-state, AddressSanitizer, piece-conflict detection)',note=MATH_NOTE,
 jobs=mj('mmove','h_mmove.cpp'),assumptions=MATH_ASSUME,rule=MATH_RULE,bounds='dimensions {1,2,3,4,5,9} (quick) / {1..8,11,17} (thorough); 1..4 threads')
P('P06',title='Element-wise arithmetic equals its definition for any threading',
 statement='Element-wise matrix operations (sums, differences, products, scaling, signs, clamping, one\'s complement, momentum, individual learning rates, dropout masks, sums of squares, products and absolute values) change exactly the elements they are defined on to exactly the defined values, whatever the shape, layout, bias mode and number of threads; emulated biases, read-only operands and neighbouring memory are untouched, and temporary memory is returned.',
 over=['inputs','configurations','schedules'],qtext='all contents over a 3-value alphabet for up to 4 elements and 5 value patterns for all shapes with dimensions out of {1,2,3,4,5,9} (up to 17 thorough), both layouts, every implementation, 1-4 threads, piece orders',
 why='Tests compare implementation variants with each other on random data above the multi-threading thresholds of one machine; a definition shared by all variants or an edge of a partition is not seen.',
 files=['nntl/interface/math/mathn.h','nntl/interface/math/smath.h','nntl/interface/math/smatrix.h'],mech=[('ev*/v* operations, dropout, ILR, momentum','nntl/interface/math/mathn.h'),('ewSum*','nntl/interface/math/smath.h')],
 technique='bounded-exhaustive enumeration of inputs, partitions and piece orders on the real code (explicit-state, AddressSanitizer, piece-conflict detection)',note=MATH_NOTE,
 jobs=mj('mew','h_mew.cpp'),assumptions=MATH_ASSUME,rule=MATH_RULE,bounds='dimensions {1,2,3,4,5,9} (quick) / {1..8,11,17} (thorough); 1..4 threads')
MATH_TECH='bounded-exhaustive enumeration of inputs, partitions and piece orders on the real code (explicit-state, AddressSanitizer, piece-conflict detection)'
MB='dimensions {1,2,3,4,5,9} (quick) / {1..8,11,17} (thorough); 1..4 threads'
MQ='all contents over a 3-value alphabet for a few elements and 5 value patterns for all shapes with dimensions out of {1,2,3,4,5,9} (up to 17 thorough), every implementation, 1-4 threads, piece orders'
P('P07',title='Row and column reductions, maxima, norms and rankings are exact',
 statement='Row-wise and column-wise operations (scaling rows by a vector, index of the row maximum, row maximum, sum and logical or, squared norms, norm limiting and setting, column means, de-meaning, sums, diagonal scaling and the search for the K best elements of every column over a sequence of batches with its aggregation) yield the mathematically defined result for every row and column, whatever the shape, contents, number of threads and way of splitting; sources are unchanged, hidden columns are restored and temporary memory stays within what was announced and is returned.',
 over=['inputs','configurations','schedules','histories'],qtext=MQ+'; for the K-best search all contents of up to 3 batches of up to 3 rows over up to 4 values, K up to 3 (4 thorough)',
 why='Tests compare implementations with each other on random matrices; ties, single rows or columns, negative-only rows, fewer columns than threads and multi-batch histories need particular inputs.',
 files=['nntl/interface/math/smath.h','nntl/interface/math/mathn.h','nntl/interface/math/_mcwFindKOrdered_hlpr.h'],mech=[('mrw*/mcw* operations','nntl/interface/math/smath.h'),('mrwL2NormSquared/mCheck_normalize_rows/mrwSetL2Norm/mcwFindKOrdered','nntl/interface/math/mathn.h'),('K-best helper and aggregator','nntl/interface/math/_mcwFindKOrdered_hlpr.h')],
 technique=MATH_TECH,note=MATH_NOTE,jobs=mj('mrow','h_mrow.cpp'),assumptions=MATH_ASSUME+['Among equal row maxima any index is accepted where the implementation merges pieces column-wise.','The aggregator is used only when the first batch has at least K (distinct) values, as its documentation asserts.'],rule=MATH_RULE,bounds=MB)
P('P08',title='Activation functions and their derivatives follow their definitions',
 statement='Every activation function maps every element of a layer\'s output to the value of its mathematical definition, and its derivative, computed from the activation value alone, equals the definition\'s derivative at the corresponding argument (either one-sided derivative at a kink), for every shape, number of threads and parameter set; the bias column is untouched. Activation classes use the parameters they are instantiated with, announce zero-stability exactly when f(0)=0, and the alpha-dropout coefficients preserve the announced mean and variance.',
 over=['inputs','configurations','schedules'],qtext='every activation function and class over argument values from -30 to 30 including zero, all assignments for up to 2 elements, value rotations for all shapes with dimensions out of {1,2,3,4,5,9} (up to 17 thorough), every implementation, 1-4 threads, piece orders',
 why='Tests compare implementations with reference loops written the same way on random data in a narrow range; classes and parameter wiring, kinks and piece borders are not enumerated.',
 files=['nntl/interface/math/mathn.h','nntl/activation.h','nntl/activations/_i_activation.h','nntl/activations/elogu.h','nntl/activations/elu.h','nntl/activations/identity.h','nntl/activations/loglogu.h','nntl/activations/logu.h','nntl/activations/relu_family.h','nntl/activations/selu.h','nntl/activations/sigm.h','nntl/activations/softsigm.h','nntl/activations/softsign.h','nntl/activations/step.h','nntl/_SNN_common.h'],mech=[('activation functions and derivatives','nntl/interface/math/mathn.h'),('activation classes','nntl/activations/_i_activation.h')],
 technique=MATH_TECH,note=MATH_NOTE,jobs=mj('mact','h_mact.cpp'),assumptions=MATH_ASSUME+['Values are compared within 1e-5 (float) / 1e-12 (double) relative-absolute tolerance.'],rule=MATH_RULE,bounds=MB)
P('P09',title='Losses, their gradients and softmax follow their definitions',
 statement='The loss reported for a batch is the sum over all its elements of the defined loss (half squared error, cross-entropy, softmax cross-entropy, weighted variants), the error signal passed back equals the derivative of exactly that loss by the neuron\'s input, and softmax turns every row into the normalised exponentials of that row; saturated answers give large but finite losses. This holds for every shape, number of threads and piece order; targets are unchanged and temporary memory is sufficient and returned.',
 over=['inputs','configurations','schedules'],qtext='every loss function and loss class over 4 neuron inputs x up to 4 targets, all assignments for up to 2 elements (softmax: 5 logits from -300 to 300, all assignments up to 4 elements), patterns for all shapes with dimensions out of {1,2,3,4,5,9} (up to 17 thorough), every implementation, 1-4 threads, piece orders',
 why='Tests check implementations against each other on random data; that the gradient belongs to the reported loss for every activation/loss pair and that the extremes stay finite is not enumerated.',
 files=['nntl/interface/math/mathn.h','nntl/activations/_loss_parts.h','nntl/activations/_i_activation.h','nntl/activations/softmax.h','nntl/activations/sigm.h','nntl/activations/softsigm.h','nntl/activations/identity.h'],mech=[('loss functions, softmax','nntl/interface/math/mathn.h'),('loss classes','nntl/activations/_loss_parts.h')],
 technique=MATH_TECH,note=MATH_NOTE,jobs=mj('mloss','h_mloss.cpp'),assumptions=MATH_ASSUME+['Values are compared within 1e-5..4e-5 (float) / 1e-12..4e-12 (double) relative-absolute tolerance.'],rule=MATH_RULE,bounds=MB)
P('P10',title='Layer products, covariance and orthogonalisation follow their definitions',
 statement='The matrix products behind forward and backward propagation (with bias weights, emulated biases and either sample layout), the column covariance, the DeCov penalty with its gradient and the SVD orthogonalisation give the mathematically defined result for every shape, leave their inputs, biases and the shape of the weight matrix as they were, and return the temporary memory they were promised.',
 over=['inputs','configurations'],qtext='every combination of batch size, input and output counts out of {1,2,3,5} (up to 9 thorough), both layouts and bias modes of every operand, nine value patterns; covariance/DeCov/SVD for all shapes with dimensions out of {1,2,3,4,5,9} (up to 17 thorough)',
 why='A handful of random matrices cannot separate a swapped leading dimension or transposition flag from a correct one for square or degenerate shapes.',
 files=['nntl/interface/math/mathn.h','nntl/interface/math/bindings/b_open_blas.h','nntl/interface/math/smatrix.h'],mech=[('matrix products, covariance, DeCov, SVD','nntl/interface/math/mathn.h'),('BLAS binding','nntl/interface/math/bindings/b_open_blas.h')],
 technique=MATH_TECH,note=MATH_NOTE,jobs=mj('mprod','h_mprod.cpp',conf=False),assumptions=MATH_ASSUME+['The BLAS/LAPACK library itself is trusted.','Values are compared within 2e-5 (float) / 1e-12 (double) relative-absolute tolerance.'],rule=MATH_RULE,bounds=MB)
P('P11',title='Weights are updated exactly by the configured optimizer and constraints',
 statement='For every history of gradients, the weights follow the update rule of the configured optimizer (plain, RMSProp by Hinton or Graves, RProp, ModProp, Adam, AdaMax, Nadam, Radam) combined with the configured momentum or Nesterov momentum, individual learning rates, L1/L2/DeCov penalties (with or without bias weights), learning-rate dropout and max-norm constraint; a re-initialised optimizer starts afresh; the reported penalty is the one whose gradient is applied; and the row norms never exceed the configured limit.',
 over=['histories','inputs','configurations'],qtext='9 optimizers x 3 momentum modes x {max-norm modes x learning-rate dropout modes, regularizer combinations, individual learning rate modes, reduced variants} x 4 gradient histories of 4-5 steps followed by re-initialisation and 2 more steps, 3 shapes (4 thorough, 6-7 steps), float and double; penalties over all shapes with dimensions out of {1,2,3,4,5,9}',
 why='Optimizer state mistakes (bias-correction powers, first-step handling, order of momentum, dropout and norm constraint) show only over several steps and in particular feature combinations; the tests check single steps of two implementations against each other.',
 files=['nntl/grad_works/grad_works.h','nntl/grad_works/ILR.h','nntl/grad_works/ILR_Props.h','nntl/grad_works/loss_addendums.h','nntl/loss_addendum/_i_loss_addendum.h','nntl/loss_addendum/L1.h','nntl/loss_addendum/L2.h','nntl/loss_addendum/DeCov.h','nntl/interface/math/mathn.h','nntl/common_nn_data.h','nntl/utils/mixins.h','nntl/utils/options.h'],
 mech=[('grad_works','nntl/grad_works/grad_works.h'),('optimizers of the math engine','nntl/interface/math/mathn.h'),('loss addenda','nntl/loss_addendum/_i_loss_addendum.h')],
 technique='bounded-exhaustive exploration of optimizer configurations and gradient histories on the real code against a reference model of the published update rules',note='Every listed configuration and history on the real code, step by step against the reference model, with exactly sized temporary memory.',
 jobs=mj('gw','h_gw.cpp',conf=False),assumptions=MATH_ASSUME+['Values are compared within 3e-4 (float) / 1e-10 (double) relative-absolute tolerance.'],rule='a state is one configuration with a gradient history; a transition is one pre-step or update call on the real object; outcomes hash the resulting weights',bounds=dict(quick='histories of 4-5 steps + 2 after re-initialisation',thorough='histories of 6-7 steps + 2 after re-initialisation, 4 shapes, 2 momentum values'))
P('P12',title='A network computes its architecture and learns by its exact gradient',
 statement='For every supported composition of layers (fully connected, forward-only, frozen, identity; vertical, horizontal, tiled and optional/gated packs; dropout and alpha-dropout; penalised activations; clamped output gradient) the network\'s output is the value of the composed definition for the current weights, inference uses neither dropout nor randomness and changes nothing, the loss and penalties reported are those of that output, and one training step moves every learnable weight by exactly minus the learning rate times the derivative of the training loss (with the very dropout mask and gates of the forward pass), averaged over the samples its layer processed, leaving frozen weights, closed-gate branches and the data untouched. This holds for every batch size and thread count and after any history of training, inference with smaller or larger batches, de-initialisation, re-initialisation and weight replacement.',
 over=['inputs','configurations','histories','schedules'],qtext='31 architectures x 3 weight sets x batch sizes 1-3 x 2 data sets x every pattern of open gates x every dropout mask x 1-4 threads and piece orders; and every history of up to 4 (5 thorough) operations out of train on 1/2 samples, infer on 1/2/3, fixed-batch inference, deinit, require re-initialisation, replace weights',
 why='Numeric gradient checks in the repository run on a few random networks; buffer sharing between layers, batch-size changes, closed gates and dropout masks need particular combinations and histories.',
 files=['nntl/nnet.h','nntl/layers.h','nntl/layer/_activation_storage.h','nntl/layer/_activation_wrapper.h','nntl/layer/_init_layers.h','nntl/layer/_layer_base.h','nntl/layer/_lph_base.h','nntl/layer/_pack_.h','nntl/layer/_penalized_activations_base.h','nntl/layer/extender.h','nntl/layer/fully_connected.h','nntl/layer/identity.h','nntl/layer/input.h','nntl/layer/output.h','nntl/layer/pack_horizontal.h','nntl/layer/pack_horizontal_optional.h','nntl/layer/pack_tile.h','nntl/layer/pack_vertical.h','nntl/dropout/dropout.h','nntl/dropout/alpha_dropout.h','nntl/common_nn_data.h'],
 mech=[('fprop/bprop of layers and packs','nntl/layer/fully_connected.h'),('network driver','nntl/nnet.h')],
 technique='bounded-exhaustive exploration of architectures, inputs, masks, gates and operation histories on the real network against a numerically differentiated long-double reference (explicit-state, AddressSanitizer)',note='Every listed architecture, configuration and history on the real code; gradients are compared with central differences of an independent sample-by-sample reference.',
 jobs=mj('net','h_net.cpp',conf=False),assumptions=MATH_ASSUME+['Weight initialisers are used within their stated preconditions.','Double precision; outputs are compared within 1e-11, steps within 2e-9.'],rule='a state is one configuration (or history prefix); a transition is one forward, backward or life-cycle call on the real network; outcomes hash the resulting weights',bounds=dict(quick='batch sizes 1..3, histories of 4 operations',thorough='batch sizes 1..3, histories of 5 operations'))
P('P13',title='Training data deliver every sample of a set correctly and exactly once',
 statement='For every dataset size, storage layout and batch size, an epoch over the training set delivers floor(samples / batch size) batches of exactly the requested size in which no sample occurs twice, in an order drawn afresh for every epoch with mini-batches such that every order is equally likely, and X and Y rows of a batch belong to the same sample; walking over any set with any batch size delivers every sample of the set exactly once, in order, up to and including a shorter last subset; biases are intact, excluded parts are not needed, and the stored data never change. Initialisation adjusts the sizes as documented, refuses impossible ones, and the "is initialised" queries tell the truth and leave their arguments alone when they answer no, in every order of epochs, walks, initialisations and de-initialisations. Datasets are accepted (absorbed, copied, replaced) exactly when they are consistent. The same holds for data produced on the fly by a sample transformer.',
 over=['inputs','configurations','histories'],qtext='training sets of 1-5 and test sets of 1-4 samples (6 thorough), both layouts of X and Y, all maximum forward / batch sizes, all sequences of up to 3 epochs (complete or cut short) and walks with every batch size and exclusion flag, every shuffle outcome for up to 3 (4 thorough) samples and three for more; transformers with 1-2 samples per base sample; all outcomes of the random source for 2-4 (5 thorough) samples',
 why='Tests compare one or two dataset sizes; a lost last sample, a wrong minibatch mode or a mix-up between training and inference buffers needs particular size combinations and histories.',
 files=['nntl/train_data/_i_train_data.h','nntl/train_data/_td_base.h','nntl/train_data/_train_data_simple.h','nntl/train_data/inmem_train_data.h','nntl/train_data/inmem_train_data_stor.h','nntl/train_data/transf_train_data.h'],
 mech=[('epochs, batches and walks','nntl/train_data/_train_data_simple.h'),('dataset storage','nntl/train_data/inmem_train_data_stor.h'),('transformed data','nntl/train_data/transf_train_data.h')],
 technique='bounded-exhaustive exploration of dataset shapes, shuffles and operation histories on the real classes (explicit-state, AddressSanitizer)',note='Every listed combination and history on the real code against tagged samples.',
 jobs=mj('td','h_td.cpp',conf=False),assumptions=['Preconditions asserted in the headers are respected: a batch size is used only after the corresponding is_initialized/init call accepted it, as nnet does.'],rule='a state is a configuration with an operation history; a transition is one call on the real data object',bounds=dict(quick='sets of up to 5 samples, histories of 1-3 operations',thorough='sets of up to 6 samples, histories of 1-3 operations, all shuffles of up to 4 samples'))
P('P14',title='Normalising data applies one map to all sets and reaches its target',
 statement='When normalisation of the training inputs reports success, the training data (or the leading batches asked for) have the requested centre and spread within tolerance, whole or per column, the training set was changed by one affine map (per column), and exactly the same map was applied to the other sets; constant columns are centred but not scaled, parts that are switched off or already on target are left alone, targets and biases never change, and the data object is left initialised as before. It always succeeds when enough tries are allowed and the data have finite spread. For transformed data the same holds for what is delivered, while the stored data stay untouched, and resetting restores them exactly.',
 over=['inputs','configurations'],qtext='all training sets of 2-3 samples x 1-2 columns over 3 values, and 7 value patterns for 2-5 samples x 1-3 columns, every batch size and leading-batch count, all combinations of centring/scaling/target/tries, whole and column-wise, sample or population variance, 1-3 threads, float and double; transformed data (float, double, float with double statistics) with 1-2 samples per base sample',
 why='The repository checks normalisation on one random dataset; degenerate columns, several iterations and the propagation of the composed map to the other sets are not enumerated.',
 files=['nntl/train_data/_td_norm.h','nntl/train_data/_td_base.h','nntl/utils/mtx2Normal.h','nntl/train_data/transf_train_data.h','nntl/train_data/inmem_train_data.h'],
 mech=[('normalisation loop and map composition','nntl/utils/mtx2Normal.h'),('application to the sets','nntl/train_data/_td_norm.h')],
 technique='bounded-exhaustive exploration of data contents and settings on the real classes (explicit-state, AddressSanitizer)',note='Every listed configuration on the real code; statistics recomputed independently.',
 jobs=mj('norm','h_norm.cpp',conf=False),assumptions=['At least two samples contribute to the statistics; samples are stored one per row (asserted in the code).','Whether a call that finds nothing to change reports success is not judged (the code reports failure).'],rule='a state is a dataset with settings; a transition is one normalisation call; outcomes hash the result',bounds='sets of up to 5 samples x 3 columns; exhaustive values for up to 3x2')
P('P15',title='Training runs the requested epochs and reports the truth about them',
 statement='train() on accepted data runs exactly the requested epochs of floor(samples / batch size) batches of exactly the requested size, performing one forward and one backward pass per batch, so that after every batch the weights are those of gradient descent on that batch. The observer, inspector and callbacks get their calls in the documented order; evaluation happens at the requested epochs (and while divergence is watched), covers every sample of both sets exactly once with the current weights, and the reported losses are means over all samples (plus the penalties, if asked for) that do not depend on how a set is split; counts of correctly classified samples are exact. Training stops early exactly when the epoch callback says so, the loss reaches the divergence threshold within the watched epochs, or initialisation / the observer refuses, each with its own error code; unsuitable data are refused before anything is changed. All of this holds for every sequence of train, fprop, evaluation, deinit and reinit requests on one network, with different sizes each time; weights survive, and earlier calls influence nothing but the weights. Confusion matrix metrics equal their definitions.',
 over=['inputs','configurations','histories'],qtext='training sets of 1-4 samples (5 thorough), test sets of 1-2, all batch and forward sizes, 1-3 epochs, all evaluation schedules, divergence settings, report and loss options, callback actions, failing hooks; all histories of up to 5 calls (fprop, train, fprop/deinit/reinit, train, train/fprop) over those sizes; both evaluators over all label patterns and chunkings with 2-3 sets; confusion matrices over all counts 0-3 and large ones',
 why='The repository trains a few nets once; a second training with other sizes, chunked evaluation, early stops and divergence at particular epochs are not enumerated by tests.',
 files=['nntl/nnet.h','nntl/nnet_train_opts.h','nntl/training_observer.h','nntl/nnet_evaluator.h','nntl/common_nn_data.h','nntl/utils/vector_conditions.h','nntl/utils/confusion_mtx.h'],
 mech=[('training loop','nntl/nnet.h'),('evaluators','nntl/nnet_evaluator.h'),('options','nntl/nnet_train_opts.h')],
 technique='bounded-exhaustive exploration of configurations and call histories of the real training loop in lock step with a reference model (explicit-state, AddressSanitizer)',note='The model (event order, long-double gradient descent) runs in lock step with the real loop on every history, so model traces are replayed against the implementation by construction.',
 jobs=mj('train','h_train.cpp',conf=False)+[dict(name='trainpa',src='harness/h_train.cpp',defs=['PA=1'],link=BLAS)],assumptions=['One architecture (2-2-2 sigmoid, quadratic loss, optional L2 on the output weights or on the hidden activations); other architectures are P12.','Worker priorities are not changed during the runs (bPrioritizeThreads=false).','Runs whose loss is within 1e-9 of the divergence threshold or outputs within 1e-9 of a class boundary are not judged.'],rule='a state is a configuration with its call history; a transition is one call of the real network',bounds=dict(quick='sets of up to 4+2 samples (histories: 3+2), up to 3 epochs, up to 5 calls',thorough='sets of up to 5+2 samples (histories: 4+2), up to 3 epochs, up to 5 calls'))

P('P16',title='Data files are read back exactly or rejected, whatever bytes they hold',
 statement='Reading a well-formed binary or JSON data file (a matrix, a train/test set or classified sequences) yields exactly the stored dimensions, the bias column where features are expected, and every stored value (converted when the stored and requested precisions differ; a number that an integral destination cannot hold makes the field invalid), independent of the order of fields in the file. Any other file (missing, truncated at any byte, with any bytes changed, fields missing, duplicated, unknown, of wrong type, ragged, empty, of impossible or inconsistent sizes) is refused with an error: the reader never crashes, never touches memory outside its buffers, leaks neither memory nor file handles, never reports success, and a training-data object that already holds data keeps it unchanged. The error answered names the offending field in JSON files and is the one the object later reports as its last error; a later success clears it.',
 over=['inputs','faults'],qtext='all truncations and all 256 values of every byte of small files of each kind and element type, pairs of header bytes from 10x8 (10x10 thorough) values, 13x13 extreme row/column counts, all field orders/defects/size mismatches for train sets, all sequence files with up to 2 classes; JSON: all truncations, all values of every byte, a grammar of 13 kinds of field contents, integral destinations',
 why='The repository reads one good file of each kind; corrupted input is an infinite family of which tests sample nothing.',
 files=['nntl/_supp/io/binfile.h','nntl/_supp/io/jsonreader.h','nntl/train_data/inmem_train_data_stor.h','nntl/train_data/seq_data.h','nntl/errors.h'],
 mech=[('binary reader','nntl/_supp/io/binfile.h'),('json reader','nntl/_supp/io/jsonreader.h')],
 technique='bounded-exhaustive exploration of all corruptions and truncations of data files through the real readers against an independent reference parser (explicit-state, AddressSanitizer, leak and handle accounting)',note='An independent parser of the byte string decides for every explored file whether it is good and what it holds; the real reader is run on the same bytes.',
 jobs=mj('io','h_io.cpp',conf=False),assumptions=['Allocations above 16 MB are made to fail.','The JSON grammar below tokens is that of the installed rapidjson 1.1 (the bundled one is not part of the pinned tree).','Files are read with 64-byte JSON buffers; reading is single-threaded.','A plain matrix handed to a failing binary read may be left partially filled.'],rule='a state is a file content with a destination kind; a transition is one read',bounds=dict(quick='files of up to ~150 bytes; one arbitrary byte or two bytes from small alphabets changed',thorough='as quick, larger alphabet for two bytes'))
P('P17',title='Random generators deliver what was asked for, reproducibly and without sharing',
 statement='Every request for random numbers (uniform in [-a,a], [neg,pos], [0,1], [0,a], integers below a bound, shuffle indices, Bernoulli and binary vectors, normal N(m,s); vectors, or matrices with or without a bias column and with samples in rows or columns) writes every requested element and nothing else, keeps bias columns, stays within the announced range for every draw of the underlying source including the extreme ones, uses each draw once and is the announced function of the draws (normal numbers: N(m,s) = m + s*N(0,1), with the moments of a normal distribution). This holds for the single- and multithreaded generators for any pool size and any order of the pieces; within one parallel request no source is shared by two workers. The same seed repeats the same numbers whatever was drawn before, other seeds and other workers give other numbers. The asynchronous generator never delivers a number twice or one that was not generated, falls back to direct generation when its buffer is short, and can be initialised, seeded, deinitialised and destroyed at any moment relative to its background workers without hanging.',
 over=['inputs','schedules','histories'],qtext='vectors of 1-12 (18 thorough) elements, all request kinds, 1-4 threads, both piece orders, all combinations of 6 extreme draws for 4 elements, 1-4x1-4 matrices of all layouts, gen_i bounds 1-32 and INT_MAX at 65 draws, seeding after 0-3 earlier bursts; asynchronous generator with one background worker: all schedules with up to 1-2 (2-3 thorough) preemptions of all programs of up to 4 requests, seed, deinit and reinit; with two background workers: up to 1-2 preemptions around up to five requests with data-race detection',
 why='Random generators are tested only for speed and rough statistics on a handful of sizes; extreme draws, sharing between workers and the asynchronous buffer under all schedules are not reached.',
 files=['nntl/interface/_i_rng.h','nntl/interface/rng/afrand.h','nntl/interface/rng/afrand_mt.h','nntl/interface/rng/afrand_as.h','nntl/interface/rng/cstd.h','nntl/interface/rng/distr_normal_naive.h'],
 mech=[('common part','nntl/interface/_i_rng.h'),('default generator','nntl/interface/rng/afrand_mt.h'),('asynchronous generator','nntl/interface/rng/afrand_as.h')],
 technique='bounded-exhaustive exploration of requests over a scripted source of randomness on the real generators (explicit-state, AddressSanitizer) and stateless exploration of all schedules of the asynchronous generator under a controlled scheduler',note='The random source below the generators is replaced by one that logs its draws, so that the required output is known for every explored request.',
 jobs=mj('rng','h_rng.cpp',conf=False)+[dict(name='rngas',src='harness/h_rngas.cpp',**CONC)],assumptions=['The quality of the underlying source (Agner Fog\'s generators, which are not part of the pinned tree) is assumed; a scripted source takes its place.','Moments are judged on 6000 numbers from three seeds each.','Asynchronous generator: one or two background workers.'],rule='a state is a request with its source script, pool size and order (or a schedule prefix); a transition is one request or one scheduling step',bounds=dict(quick='vectors up to 12, matrices up to 4x4, 1-4 threads; asynchronous: 1-2 workers, 1-2 preemptions',thorough='vectors up to 18, matrices up to 4x4, 1-4 threads; asynchronous: 1-2 workers, 1-3 preemptions'))
P('P18',title='Weights start out as the configured initialisation scheme says',
 statement='Each weight initialisation scheme fills every weight of a layer, for every layer shape: Xavier variants and He variants draw from exactly the announced range or deviation for the layer\'s fan-in/fan-out (biases zero or drawn as the scheme says), sparse initialisation gives every neuron exactly the configured number of distinct incoming weights, orthogonal initialisation gives rows (or columns) that are orthonormal up to the gain. Data-driven initialisation (LSUV) leaves each layer it normalised with the requested centre and spread of (pre-)activations over the data asked for, per layer or per neuron, changes a neuron\'s weights only by scaling and its bias only by shifting, processes layers of packs too, never touches layers for which it is switched off, uses for each layer the settings given for that layer or else the default ones, says whether it succeeded, and leaves the network usable.',
 over=['inputs','configurations','histories'],qtext='all schemes x neurons 1-5(6) x incoming 1-5(6) x extreme and pseudo-random draws, float and double; sparse: all index draws for 3 (4 thorough) incoming neurons; LSUV: 4 activations x 2 architectures x all combinations of centring/scaling/individual/pre-activation/targets/batching, all assignments of 6 kinds of settings to 3 layers; all histories of 4 (5) changes of per-layer settings',
 why='The repository prints statistics of one random matrix; wrong fan-in, repeated sparse connections or settings applied to the wrong layer need particular shapes and assignments.',
 files=['nntl/weights_init/static.h','nntl/weights_init/LsuvExt.h','nntl/utils/layers_settings.h','nntl/utils/mtx2Normal.h','nntl/weights_init.h'],
 mech=[('static schemes','nntl/weights_init/static.h'),('LSUV','nntl/weights_init/LsuvExt.h'),('per-layer settings','nntl/utils/layers_settings.h')],
 technique='bounded-exhaustive exploration of schemes, shapes, random draws and LSUV settings on the real code against recomputed definitions (explicit-state, AddressSanitizer)',note='Every listed configuration on the real code; statistics and outputs are recomputed independently in long double.',
 jobs=mj('winit','h_winit.cpp',conf=False),assumptions=['Sparse initialisation is used with at least as many incoming neurons as nonzero weights.','LSUV layers whose statistics explode (above 1e4) or vanish (deviation below 1e-6) are not judged for their target.'],rule='a state is a scheme/shape/draw or LSUV configuration; a transition is one initialisation or settings call',bounds='layers of up to 6x6 weights; LSUV on 2 networks of 3-4 layers with 4-5 samples')
P('P19',title='What is saved to a .mat file is what is loaded, or loading fails',
 statement='Scalars, matrices, structures, training data and the weights of whole networks written to a .mat archive are stored under their names and structure and are read back exactly (converted when a matrix is stored in another numeric class, whatever that class; feature matrices get their bias column back). Updating an existing structure, at top level or nested, keeps its other fields; sibling and nested structures end up where they were asked for. Anything that cannot be restored exactly (missing variables, wrong classes, wrong shapes, another number of tiles) is refused, and then every layer still holds either its previous or the saved weights and the network stays usable. A failure of any single call of the underlying API while saving or loading is reported and leaks neither variables nor file handles. After an error an archive does nothing more until the error is dropped.',
 over=['inputs','histories','faults'],qtext='all arithmetic types at their extreme values x all types to load as; all 14 stored classes x shapes 0-3 x 0-3 x names with and without biases x both matrix kinds; all histories of 5 (6 thorough) structure begin/end/save/reopen operations; 31 network architectures x 9 weight combinations x 3 life-cycle stages, every stored variable damaged in 8 ways, every API call failing',
 why='Nothing in the repository tests persistence; corrupted files, updates of nested structures and failing calls are never exercised.',
 files=['nntl/_supp/io/matfile.h','nntl/utils/matlab.h','nntl/serialization/serialization.h','nntl/nnet.h','nntl/layers.h','nntl/layer/fully_connected.h','nntl/layer/pack_tile.h','nntl/train_data/inmem_train_data_stor.h'],
 mech=[('the archive','nntl/_supp/io/matfile.h'),('weights persistence','nntl/nnet.h')],
 technique='bounded-exhaustive exploration of archive operation histories, file contents and failing API calls on the real archive against a tree model (explicit-state, AddressSanitizer, leak and handle accounting)',note='The real archive code runs on an in-memory stand-in for the MATLAB API, which counts arrays and handles and can make any call fail; a tree model of the file is compared after every operation.',
 jobs=[dict(name='mat',src='harness/h_mat.cpp',link=BLAS+['-lstdc++fs'])],assumptions=['The MATLAB API is replaced by an in-memory stand-in with its documented semantics.','A structure that is still open is not redefined at the same place (that discards the open one).','Matrices are saved with samples in rows, as the code states.'],rule='a state is a file content or an operation history; a transition is one save/load/structure operation; outcomes are error classes',bounds=dict(quick='histories of 5 operations',thorough='histories of 6 operations'))
P('P20',title='Inspectors see exactly what the network does',
 statement='A training or evaluation run tells its inspector everything that happens and nothing that does not: the net and every layer are announced before use, epochs, batches and error calculations begin and end in order, forward and backward notifications of layers nest as the layers do, what one layer hands over is what the next one receives, and every notified matrix is the one the arithmetic used (pre-activations from the weights and the previous activations, activations from them, gradients, weight updates, dropout and penalties included); weights change only through notified updates. The dumper writes exactly the files, layers and fields chosen by its condition (epochs, first/last/first-N batches, error calculations before the first epoch included), its black or white list and its switch, with exactly the values of the run, also on every further training of the same net; inspecting never changes what is learnt. The printing inspector prints exactly the notifications. The helpers behind them (epoch conditions, epoch flags, layer stacks) agree with their definitions and never touch memory outside their storage.',
 over=['inputs','histories'],qtext='31 network architectures x fprop/bprop histories x 1-3 worker threads, training mode and inference; all subsets of epochs to dump x 6 conditions x 1-3 (4 thorough) epochs x 1-3 (4) batches x 7 layer lists x switches x repeated training; all operation histories of the helpers up to a depth',
 why='Nothing in the repository tests inspectors; a notification dropped, doubled or carrying the wrong matrix on one path of one layer type is silent.',
 files=['nntl/interface/_i_inspector.h','nntl/interface/inspectors/dumper.h','nntl/interface/inspectors/stdcout.h','nntl/utils/layer_idx_keeper.h','nntl/utils/bwlist.h','nntl/utils/vector_conditions.h','nntl/utils/epochs_props.h','nntl/layer/_layer_base.h','nntl/layer/fully_connected.h','nntl/layer/pack_vertical.h','nntl/layer/_lph_base.h','nntl/layer/pack_tile.h','nntl/grad_works/grad_works.h','nntl/nnet.h'],
 mech=[('inspector interface','nntl/interface/_i_inspector.h'),('dumper','nntl/interface/inspectors/dumper.h')],
 technique='bounded-exhaustive exploration of architectures, run histories and dump settings on the real code under a recording inspector; the dumped files are compared with the recorded run (explicit-state, AddressSanitizer)',note='The recording inspector replaces the dummy one in the real networks; every notification is checked against the run; the dumper writes to an in-memory stand-in of the MATLAB API whose files are compared with the recording.',
 jobs=mj('insp','h_insp.cpp',conf=False)+[dict(name='dump',src='harness/h_dump.cpp',link=BLAS+['-lstdc++fs'])],assumptions=['The MATLAB API is replaced by an in-memory stand-in with its documented semantics.','Console output is captured.'],rule='a state is an architecture/history or a dump configuration; a transition is one forward, backward or training call',bounds=dict(quick='31 architectures, histories of 3 operations; up to 3 epochs of 3 batches',thorough='histories of 5 operations; up to 4 epochs of 4 batches'))
P('P21',title='The gradient check passes right networks, fails wrong ones, leaves no trace',
 statement='nnet::gradcheck() succeeds on every correctly differentiated network (whatever its layers, weights, batch sizes up to the whole dataset, number of worker threads and choice of checked elements) and fails, naming the layer, when any of the gradients it was asked to check is wrong: scaled, of the wrong sign, zeroed, not a number, or never computed. It looks at exactly the requested number of distinct dL/dA and dL/dW elements (biases included) of exactly the layers not excluded, on rows of the given data with their own labels, with the same data and dropout in every pass over one element; errors between the warning and the failure thresholds only warn, and more zero gradients than allowed fail. Called on a fresh or trained network or at the end of any epoch of training, with batches smaller or bigger than the training ones, it changes neither weights nor data nor anything of the training that follows.',
 over=['inputs','histories'],qtext='29 architectures x 3 weight sets x 11 combinations of batch sizes and dataset sizes x element-count settings x fresh/trained x optimizers; every checked gradient x 9 errors; 25 zero allowances; check in the middle of training at every epoch x batch sizes',
 why='The repository uses the check as a test tool, only on large networks of its own and only in its passing direction; nobody checks that it can fail, and a check that passes wrongly hides every other gradient defect.',
 files=['nntl/nnet.h','nntl/utils/gradcheck.h','nntl/interface/inspectors/gradcheck.h','nntl/utils/dataHolder.h','nntl/utils/layer_idx_keeper.h','nntl/common_nn_data.h','nntl/layer/extender.h'],
 mech=[('gradient check','nntl/nnet.h'),('its inspector','nntl/interface/inspectors/gradcheck.h')],
 technique='bounded-exhaustive exploration of architectures, check settings and single gradient faults on the real code (explicit-state, fault injection at every checked gradient, AddressSanitizer)',note='An inspector derived from the real GradCheck records every query, pass and batch and can corrupt one analytical gradient; an unchecked twin network gives the reference for everything that follows.',
 jobs=mj('gcheck','h_gcheck.cpp',conf=False),assumptions=['Not judged: networks whose training-mode loss is not the function being differentiated (a penalty on activations of a layer with dropout, clamped output gradients) and the gates of gated packs.','Layers that may stay unexecuted (inside gated packs) are listed as such, layers that do not learn are ignored, as the settings require.','When the check has to enlarge the network the optimizer state restarts, as after any reinitialisation.'],rule='a state is an architecture with check settings, fault and point of training; a transition is one check or training step; outcomes are results and blamed layers',bounds=dict(quick='29 architectures, batches 1-5 of 1-7 samples, 3 epochs',thorough='all settings crossed, 4 optimizers, 1-3 threads'))
P('P22',title='Running out of memory is reported, leaks nothing and can be recovered from',
 statement='Whichever of the allocations of an operation fails (alone or together with all later ones), the operation says so: a matrix that can not be resized or cloned answers false and is empty, one that can not be constructed says that its allocation failed, a network that can not be initialised, trained or evaluated answers an error code that is also its last error, data objects (batches, duplicates), sparse weight initialisation, evaluators and file readers answer false or an error. Nothing crashes, no memory outside the buffers is touched, nothing leaks, the training data is kept, and the same objects used again with enough memory work exactly as if the failure had never happened. An operation that says it succeeded has done its work completely.',
 over=['faults','inputs','histories'],qtext='every allocation (single, and all from there on) of the first and of a bigger second training, inference and initialisation of 31 architectures with 6 optimizer settings; of every sequence of up to 3 operations (5 in the thorough tier) on matrices; of batches and duplicates of data sets, file readers, sparse initialisation, the math interface and the caching evaluator',
 why='No test makes an allocation fail; there is one failure point per allocation, architecture and history.',
 files=['nntl/interface/math/smatrix.h','nntl/nnet.h','nntl/layer/_layer_base.h','nntl/layer/pack_horizontal_optional.h','nntl/common_nn_data.h','nntl/interface/math/smath.h','nntl/train_data/_train_data_simple.h','nntl/train_data/inmem_train_data_stor.h','nntl/nnet_evaluator.h','nntl/_supp/io/binfile.h','nntl/weights_init/static.h','nntl/grad_works/grad_works.h'],
 mech=[('matrix storage','nntl/interface/math/smatrix.h'),('initialisation of networks','nntl/nnet.h')],
 technique='bounded-exhaustive fault enumeration: every allocation point of every explored operation fails on the real code (explicit-state, AddressSanitizer, allocation accounting)',note='All allocation functions the code uses are replaced by ones that count and fail on order; the undisturbed run of the same history is the oracle for what follows.',
 jobs=mj('oom','h_oom.cpp',conf=False)+mj('oom2','h_oom2.cpp',conf=False),assumptions=['What fails: storage of matrices, objects created with nothrow new, vectors of numbers of the network and the math interface, conversion buffers of readers. The asynchronous random generator is not included (by design it aborts or goes on without its buffer). Small bookkeeping objects of the standard library (strings, function objects) do not fail.'],rule='a state is an operation with its failing allocation; a transition is one operation',bounds=dict(quick='31 architectures, every allocation point, single and persistent failures; matrix histories of 3 operations',thorough='matrix histories of 5 operations'))
