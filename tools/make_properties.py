#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
            mechanism=[dict(zip(("name","where"), m)) for m in mech],
            observe_at=list(observe), hook_needed=hook)))
FA="fixif/func_aux/"; LTI="fixif/LTI/"; SIF="fixif/SIF/"; ST="fixif/Structures/"; SOP="fixif/SoP/"

prop("C01","Multiprecision matrix sums and differences are exact",
 "The exact sum and the exact difference of two real matrices of the same size (free functions on numpy/mpmath matrices, and the methods of the multiprecision matrix class) equal the mathematical entrywise sum and difference of the operands, whatever the current mpmath working precision, and leave the operands unchanged. Operands of different sizes, of complex entries (free functions) or of foreign types are rejected with an exception instead of producing a matrix.",
 ["inputs","configurations"],"every pair of real matrices (any magnitudes/mantissa widths), every working precision, every pair of shapes",
 "The stable tests compare 5x5 random doubles against the rounded mpmath operator, so a silently rounding implementation passes; exactness only shows for mantissas wider than the working precision.",
 [FA+"mpf_matrix_fadd.py",FA+"mpf_matrix_fsub.py",FA+"MPFMatrix.py"],
 [("mpf_matrix_fadd","fixif/func_aux/mpf_matrix_fadd.py"),("mpf_matrix_fsub","fixif/func_aux/mpf_matrix_fsub.py"),("MPFMatrix.add_exact / sub_exact","fixif/func_aux/MPFMatrix.py")])
prop("C02","Multiprecision matrix products are exact",
 "The exact product of an m x n and an n x p real matrix (free function and method of the multiprecision matrix class) equals the mathematical matrix product of size m x p, whatever the current mpmath working precision, and leaves the operands unchanged. It is defined exactly when the number of columns of the left operand equals the number of rows of the right one; any other pair of sizes is rejected with an exception.",
 ["inputs","configurations"],"every pair of real matrices, every working precision, every (m,n)x(n',p) shape combination",
 "The stable test multiplies one 5x5 matrix by the identity: rectangular operands, accumulation over k and roundings are never exercised.",
 [FA+"mpf_matrix_fmul.py",FA+"MPFMatrix.py"],
 [("mpf_matrix_fmul","fixif/func_aux/mpf_matrix_fmul.py"),("MPFMatrix.mul_exact","fixif/func_aux/MPFMatrix.py")])
prop("C03","Unit lower-triangular matrices are inverted exactly, others rejected",
 "For every square lower-triangular real matrix with ones on its diagonal the exact-inverse routines return X with L*X = X*L = I exactly, whatever the working precision, without modifying L. A non-square matrix, a diagonal entry different from one or a non-zero entry above the diagonal is rejected with an exception.",
 ["inputs","configurations"],"every square matrix (unit lower-triangular or not), every working precision",
 "The stable test checks one random 5x5 inverse approximately (almost_close); exactness, the rejection rules and fill-in beyond one sample are not settled.",
 [FA+"mpf_matrix_lt_inverse.py",FA+"MPFMatrix.py"],
 [("my_forward_subst","fixif/func_aux/mpf_matrix_lt_inverse.py"),("mpf_matrix_lt_inverse","fixif/func_aux/mpf_matrix_lt_inverse.py"),("MPFMatrix.inv_lowtr","fixif/func_aux/MPFMatrix.py")])
prop("C04","Matrix conversions between numpy and multiprecision preserve every entry",
 "Converting a double-precision matrix (numpy matrix or array) to a multiprecision one keeps every entry exactly and at the same position, and converting a multiprecision matrix back to numpy gives every entry rounded to double, hence exactly when it is a double; the round trip is the identity. The multiprecision matrix class built from a multiprecision matrix is an independent copy: later changes to the source do not show through.",
 ["inputs","configurations"],"every real matrix of every shape (non-square included), working precision at least 53 bits",
 "The stable tests check one square 5x5 case of construction and to_numpy; non-square shapes and aliasing are not sampled.",
 [FA+"python2mpf_matrix.py",FA+"mpf_to_numpy.py",FA+"mpc_get_real.py",FA+"MPFMatrix.py"],
 [("python2mpf_matrix","fixif/func_aux/python2mpf_matrix.py"),("mpf_to_numpy","fixif/func_aux/mpf_to_numpy.py"),("MPFMatrix.__init__ / to_numpy","fixif/func_aux/MPFMatrix.py")])
prop("C05","Integer representation of multiprecision numbers is lossless",
 "For every finite multiprecision number (and entrywise for every matrix) the integer representation returns integers (y, n) such that the number equals y*2^n exactly, including zero and negative numbers. Infinities, NaN and objects that are not multiprecision numbers are rejected with an exception.",
 ["inputs"],"every finite mpf mantissa and every exponent; every matrix shape",
 "Existing tests (not runnable here) sample a few random doubles; sign/zero/exponent combinations and matrices of any shape are not settled.",
 [FA+"mpf_get_representation.py",FA+"mpf_matrix_get_representation.py",FA+"MPFMatrix.py"],
 [("mpf_get_representation","fixif/func_aux/mpf_get_representation.py"),("MPFMatrix.get_int_representation","fixif/func_aux/MPFMatrix.py")])
prop("C06","Polynomial products have the coefficients of the product",
 "The multiprecision polynomial product of p and q has degree deg p + deg q and the coefficients of the mathematical product, for operands of any (different) degrees, real or complex. The product over roots returns the coefficients of prod_i (z + p_i), and with an index j the product over all i != j.",
 ["inputs"],"all coefficient values, all degrees within the bound, every excluded index",
 "No stable test runs these helpers; index arithmetic errors only show for particular degrees/indices.",
 [FA+"mpf_poly_mult.py",FA+"mp_poly_product.py"],
 [("mpf_poly_mult","fixif/func_aux/mpf_poly_mult.py"),("mp_poly_product","fixif/func_aux/mp_poly_product.py")])
prop("C07","State-space sum, difference, cascade and sub-system selection act on responses",
 "For double-precision state spaces, H1+H2 and H1-H2 have the sum and difference of the impulse responses, H1*H2 is the series connection (the input goes through H2, whose output feeds H1, for every pair where the number of inputs of H1 equals the number of outputs of H2), and H[rows, cols] selects the corresponding sub-block of the response. Matrices with inconsistent sizes, and series connections whose inner sizes differ, are rejected with an exception; the operands are never modified.",
 ["inputs","configurations"],"all real coefficients, all size triples (n,p,q) within the bound, all sample times within the bound",
 "The state-space tests cannot run here (missing WCPG library) and compare three Markov parameters of random systems; size combinations p != q are the ones that expose wrong size checks.",
 [LTI+"dSS.py"],[("dSS.__add__/__sub__/__mul__/__getitem__","fixif/LTI/dSS.py"),("dSS._check_dimensions","fixif/LTI/dSS.py")])
prop("C08","Multiprecision state-space sum and difference are exact on responses",
 "For multiprecision state spaces, H1+H2 and H1-H2 (also with a double-precision second operand) have exactly the sum and the difference of the impulse responses, with no rounding whatever the working precision. Systems with different numbers of inputs or outputs, or matrices with inconsistent sizes, are rejected with an exception; conversion to and from double-precision state space keeps every coefficient at its place.",
 ["inputs","configurations"],"all coefficients, all sizes within the bound, any working precision",
 "Tests of this class cannot run here and sample random systems against a tolerance; exactness of D1 +/- D2 is invisible to them.",
 [LTI+"dSSmp.py"],[("dSSmp.__add__/__sub__/to_dSS","fixif/LTI/dSSmp.py")])
prop("C09","State-space rewriting preserves the response and the derived data",
 "Applying a similarity transform with any invertible T, or simplifying a state space, leaves the impulse response unchanged. After a similarity transform every derived quantity asked from the object (gramians, DC gain) is that of the current matrices, whether or not it had been computed before the transform.",
 ["inputs","histories"],"all coefficients, all invertible T, every order of queries and transforms within the bound",
 "Needs a history (query, transform, query); existing tests build fresh objects and compare a few random systems.",
 [LTI+"dSS.py"],[("dSS.similarity","fixif/LTI/dSS.py"),("dSS.simplify","fixif/LTI/dSS.py")],
 state=[("_Wo,_Wc,_DC_gain,_H2norm","cached derived data","fixif/LTI/dSS.py")])
prop("C10","Gramians, H2 norm and DC gain satisfy their defining equations",
 "The gramians returned for a state space satisfy A'WoA + C'C = Wo and A Wc A' + B B' = Wc; the H2 norm is the square root of tr(C Wc C' + D D'); the DC gain is C (I-A)^-1 B + D and an exception is raised when I-A is singular. A quantity asked twice has the same value.",
 ["inputs"],"all coefficients, all sizes within the bound (solver of the Lyapunov equation taken at its contract)",
 "Transposition or sign errors are invisible on symmetric or scalar samples; the tests cannot run here and use random samples with loose tolerances.",
 [LTI+"dSS.py"],[("dSS.calc_Wo/calc_Wc/H2norm/calc_DC_gain","fixif/LTI/dSS.py")])
prop("C11","Transfer-function arithmetic acts on the transfer functions",
 "Negation, sum, difference, product and their left/right versions with a scalar return a transfer function whose impulse response is the negation, sum, difference or convolution of those of the operands, for operands of any (different) orders and including coefficients that are zero. Operands of foreign types are rejected with an exception.",
 ["inputs"],"all numerator/denominator coefficients (zeros included), all pairs of orders within the bound",
 "Tests (not runnable here) use random dense coefficients of equal order; leading/trailing zero coefficients and different orders are the corner cases of z^-1 polynomials.",
 [LTI+"dTF.py"],[("dTF.__mul__/__add__/__sub__/__rsub__/__neg__","fixif/LTI/dTF.py")])
prop("C12","Building a transfer function normalises it without changing it",
 "A transfer function built from any numerator and any denominator with non-zero leading coefficient has leading denominator coefficient 1 and the same impulse response as num/den, in double and in multiprecision (up to the documented rounding of the divisions). A zero leading denominator coefficient or a non-vector argument is rejected with an exception, and the caller's matrices are left unchanged.",
 ["inputs"],"all coefficients with den[0] != 0, all lengths within the bound, row or column vectors",
 "Filters in tests already have den[0] = 1; the normalisation branch with other values is never compared to num/den.",
 [LTI+"dTF.py",LTI+"dTFmp.py"],[("dTF.__init__","fixif/LTI/dTF.py"),("dTFmp.__init__","fixif/LTI/dTFmp.py")])
prop("C13","Transfer function to state space preserves the impulse response",
 "Converting a transfer function (numerator and denominator of the same length) to a state space, in controllable or observable form, and converting a multiprecision transfer function to a multiprecision state space, gives a system with the same impulse response; the multiprecision conversion commits no rounding. An unknown form name is rejected with an exception.",
 ["inputs","configurations"],"all coefficients, all orders within the bound, all forms",
 "Tests compare one round trip with a tolerance on random filters; coefficient placement errors at specific orders or the feed-through correction with num[0] != 0 are not settled.",
 [LTI+"dTF.py",LTI+"dTFmp.py"],[("dTF.to_dSS","fixif/LTI/dTF.py"),("dTFmp.to_dSSmp","fixif/LTI/dTFmp.py")])
prop("C14","State space to transfer function preserves the response",
 "Converting a SISO state space to a transfer function, in double precision and in multiprecision, gives num/den with the same impulse response; a system that is not SISO is rejected with an exception. The global working precision is what it was before the call, also when the call raises.",
 ["inputs"],"all coefficients of SISO systems within the bound (eigen-decomposition / ss2tf taken at their contract)",
 "Tests sample random systems with tolerance; the exceptional path and the state counts at the edges (one state) are not exercised.",
 [LTI+"dSS.py",LTI+"dSSmp.py"],[("dSS.to_dTF","fixif/LTI/dSS.py"),("dSSmp.to_dTFmp","fixif/LTI/dSSmp.py")])
prop("C15","The state space of an SIF realises its implicit equations",
 "For every implicit-form realization with invertible J the state space it exposes (AZ,BZ,CZ,DZ) maps every state and input to the next state and output defined by J t = M x + N u, x+ = K t + P x + Q u, y = L t + R x + S u. The exact multiprecision conversion gives exactly these matrices for unit lower-triangular J, and matrices J..S of inconsistent sizes are rejected with an exception.",
 ["inputs","configurations"],"all matrices J..S within the size bound (l = 0 included), all states and inputs",
 "Tests (not runnable here) build a handful of numeric realizations; block placement and product order errors vanish for diagonal/scalar or symmetric samples.",
 [SIF+"SIF.py"],[("SIF._build_Z / _build_AZtoDZ / to_dSSexact / JtoS","fixif/SIF/SIF.py"),("_check_dimensions","fixif/SIF/SIF.py")])
prop("C16","An SIF stays consistent after any sequence of assignments",
 "After any sequence of assignments to J..S and Z, and of queries in between, everything a realization reports (J..S, Z, state space, roundoff and peak systems) equals what a fresh realization built from the current J..S reports. Reading back an assigned block (J..S, dJ..dS) returns the assigned values, and the weights dJ..dS given at construction are the ones read back.",
 ["histories","inputs"],"every sequence of assignments/queries within the bound, all coefficient values",
 "Requires a history query-assign-query on a cached object; no test assigns twice or queries around an assignment.",
 [SIF+"SIF.py",SIF+"Realization.py"],[("setters J..S, Z, dJ..dS","fixif/SIF/SIF.py"),("Hu/Hzeta/Hepsilon caches","fixif/SIF/SIF.py"),("Realization.quantize","fixif/SIF/Realization.py")],
 state=[("_Z,_dZ,_dSS,_M1.._N2,_Hu,_Hepsilon,_Hzeta","matrix and derived caches","fixif/SIF/SIF.py")])
prop("C17","Error and peak systems describe the perturbed realization",
 "Adding arbitrary perturbations to the intermediate, state and output equations of a realization changes its output by exactly the response of its roundoff-error system to these perturbations; the delta-realization is that same system. The internal-signal systems give, for every input, exactly the trajectories of the intermediate variables, states and outputs.",
 ["inputs","configurations"],"all matrices within the size bound, all perturbation and input sequences within the bound",
 "These systems feed every word-length bound; a misplaced identity block shows only with l,n,p all distinct, which no runnable test has.",
 [SIF+"SIF.py"],[("Hepsilon, Hu, Hzeta, computeDeltaSIF, M1 M2 N1 N2","fixif/SIF/SIF.py")])
prop("C18","Simulations follow the system equations at every step",
 "Simulating a realization or a multiprecision state space on any input sequence returns at every sample the output of the recurrence x+ = A x + B u, y = C x + D u from the given initial state (zero by default), with no rounding in the exact mode. The simulation with roundings rounds each next state and each output to the nearest on the given number of bits, and nothing else. Inputs of the wrong size or type are rejected with an exception; the worst-case input generator returns inputs within the bounds that maximise the last output.",
 ["inputs"],"all coefficients, all inputs, all initial states, lengths within the bound",
 "Sample runs from a zero state cannot distinguish a missed state update or an ignored initial state; tests do not run here.",
 [SIF+"SIF.py",LTI+"dSSmp.py"],[("SIF.simulate, SIF.generate_inputs","fixif/SIF/SIF.py"),("dSSmp.simulate","fixif/LTI/dSSmp.py")])
prop("C19","Generated C code computes the realization",
 "The C function generated for a realization computes, for every input and every previous state, exactly the output and the next state of the realization's equations (exact arithmetic), whatever its sizes, including when the state is updated in place. Coefficients that are 0, 1 or -1 and rows without terms give the same values as the general case.",
 ["programs","inputs"],"every realization within the size bound with coefficients in every 0/1/-1/other pattern considered, every input and state",
 "A generator is correct only if every program it emits is; the tests execute one or two random programs and compare with a tolerance.",
 [SIF+"Realization_implementation.py",SOP+"SoP.py",SOP+"VarName.py"],[("implementCdouble","fixif/SIF/Realization_implementation.py"),("C template","fixif/SIF/templates")])
prop("C20","Generated algorithm text denotes the realization's equations",
 "The algorithm text generated for a realization (sum-of-products lines, with or without time shifts) read as assignments computes the intermediate variables, next states and outputs of the realization, each variable being assigned once and used with its intended time index. Terms with coefficient zero are omitted, coefficients 1 and -1 keep their sign, and an empty sum is the constant 0.",
 ["programs","inputs"],"every realization within the size bound with coefficients in every 0/1/-1/other pattern considered",
 "Tests compare a few literal strings; sign/omission rules interact with position (first term, empty sum, line wrapping).",
 [SIF+"Realization_algorithms.py",SOP+"SoP.py"],[("algorithmTxt/_algorithmCore","fixif/SIF/Realization_algorithms.py"),("SoP.toAlgoStr","fixif/SoP/SoP.py")])
prop("C21","Variable names are distinct and carry the right time shift",
 "The names given to the inputs, states, intermediate variables and outputs of a realization are pairwise distinct in each notation, follow the requested names, and a time shift of k yields exactly the index n+k. A list of names of the wrong length is rejected with an exception.",
 ["inputs","configurations"],"every number of variables and every time shift within the bound",
 "Two variables rendered alike silently produce a wrong program; tests look at one or two fixed sizes.",
 [SOP+"VarName.py"],[("VarName, generateNames","fixif/SoP/VarName.py")])
prop("C22","Direct Form I realizations have the filter's response",
 "For every transfer function and every option (one or two sums, transposed or not) the Direct Form I realization has the impulse response of the filter.",
 ["inputs","configurations"],"all coefficients, all orders within the bound, all options",
 "Structure tests cannot run here and compare with a tolerance on a few random filters.",
 [ST+"DirectForms/DFI.py"],[("makeDFI","fixif/Structures/DirectForms/DFI.py")])
prop("C23","Direct Form II realizations have the filter's response",
 "For every transfer function and both options (transposed or not) the Direct Form II realization has the impulse response of the filter.",
 ["inputs","configurations"],"all coefficients, all orders within the bound, both options",
 "Structure tests cannot run here and compare with a tolerance on a few random filters.",
 [ST+"DirectForms/DFII.py"],[("makeDFII","fixif/Structures/DirectForms/DFII.py")])
prop("C24","State-space realizations have the filter's response",
 "For every filter and every form option that it accepts, the state-space realization has the impulse response of the filter (for a given state space, that of the state space).",
 ["inputs","configurations"],"all coefficients, all sizes within the bound, all forms",
 "Structure tests cannot run here and sample random filters.",
 [ST+"State_Space/State_Space.py"],[("makeSS","fixif/Structures/State_Space/State_Space.py")])
prop("C25","rho Direct Form II transposed realizations have the filter's response",
 "For every transfer function, every choice of the gamma parameters, every scaling option, transposed or not, and for the equivalent state-space option, the rho Direct Form II transposed realization has the impulse response of the filter. The polynomial change of basis it relies on is the inverse expansion in the rho operators.",
 ["inputs","configurations"],"all coefficients, all gamma and delta values, all options, orders within the bound",
 "Special values (gamma = 0/1, delta = 1) take different branches; tests use a random gamma with one scaling and cannot run here.",
 [ST+"rhoDFIIt/rhoDFIIt.py"],[("makeRhoDFIIt","fixif/Structures/rhoDFIIt/rhoDFIIt.py")])
prop("C26","LGS and LCW realizations factor the same system",
 "The factorised (LGS/LCW) realizations have the response of the state space they start from: the product of the generated factors is the system matrix and the realization unfolds to that state space.",
 ["inputs","configurations"],"all coefficients within the size bound (decompositions at their contract)",
 "Tests cannot run here; sampling compares with tolerance after many floating-point steps.",
 [ST+"LGS_LCW/LGS_LCW.py"],[("makeLGS / makeLCW and factor routines","fixif/Structures/LGS_LCW/LGS_LCW.py")])
prop("C27","The structure registry enumerates every accepted realization once",
 "Iterating the structures of a filter yields exactly one realization for every registered structure that accepts the filter and every combination of its options, and building a structure without options uses the first value of each option. An unknown structure name or option value is rejected with an exception, and the accept rules (SISO only, stable only) hold.",
 ["configurations","inputs"],"every registered structure and option set (declared option lists are arbitrary within the bound), every filter kind",
 "Tests iterate the existing registry with one filter; an option silently skipped or duplicated goes unnoticed.",
 [ST+"Structure.py"],[("Structure, iterAllRealizations, iterStructuresAndOptions","fixif/Structures/Structure.py")])
prop("C28","Random filter generators stay in the requested ranges and are reproducible",
 "The random generators of filters and systems return objects whose sizes, orders and band edges lie in the requested ranges (and whose order is even when even orders are asked) whatever the random draws; random stable systems have the eigenvalues drawn in the unit disk, and inputs and outputs that are not entirely masked out (masks are drawn again only then). When parameters are asked to be quantified, they are multiples of the step, at most half a step out of their ranges, and still those of a filter that exists. A given seed always gives the same filter, and no seed is accepted.",
 ["inputs","histories"],"every sequence of random draws (as symbolic variables in their documented range), all requested ranges within the bound",
 "Random tests almost never hit the boundary draws (a probability-zero mask, an off-by-one order).",
 [LTI+"Butter.py",LTI+"Elliptic.py",LTI+"Filter.py",LTI+"dSS.py",LTI+"dTF.py"],[("random_Butter, random_Elliptic, random_Filter, random_dSS, random_dTF","fixif/LTI")])
prop("C29","Frequency specifications keep and classify their bands",
 "A frequency specification stores every band with its normalised edges and ordered gains for any accepted input form, classifies low/high/band-pass and band-stop by the order of pass and stop bands, and the maximum gain and band differences are those of the bands. The designs asked for from a specification meet its edges and gains (with the requested margin), or an exception is raised; the smallest margin found for a filter is the largest distance of its modulus to a band. A specification is drawn with one rectangle per band, between its frequencies and its gains (below its gain for a stop band). A list of bands and a list of gains of different lengths are rejected. Random specifications are reproducible from their seed.",
 ["inputs"],"all edges and gains within their documented domain, all band orders within the bound",
 "Corner values (a zero stop gain, gains given in the reverse order) take special branches; tests use a few literal specifications.",
 [LTI+"Gabarit.py"],[("Band, Gabarit","fixif/LTI/Gabarit.py")])
prop("C30","Most significant bits are the smallest that cannot overflow",
 "For every realization, input bound and worst-case gain, the most significant bit positions computed for inputs, states, intermediate variables and outputs are the least m with |signal bound| <= 2^m, for signals of any positive magnitude, powers of two included; the ones computed with the rounding errors of all variables (from their least significant bits) are the least m with signal bound + error bound <= 2^m; the word-length under which the most significant bit of a variable has to be increased because of its rounding errors is exact, and infinite for a variable bounded by a power of two.",
 ["inputs"],"all positive signal bounds (exponents within the bound), all sizes within the bound",
 "Exact powers of two are measure-zero for random tests and are precisely where log2/ceil formulas fail.",
 [SIF+"Realization_FxP.py",SIF+"Realization_FxP_Nastia.py"],[("computeNaiveMSB","fixif/SIF/Realization_FxP.py")])
prop("C31","Computed word-lengths and least significant bits meet the error budget",
 "For a realization whose rounded variables have errors of at most half of their least significant bits: the uniform word-length returned keeps every worst-case output error within its bound and one bit less would not keep it strictly below; the per-variable word-lengths returned meet the bounds when no most significant bit has to be increased; the data written for the external solver are those of the problem (sizes, maximal word-lengths, error table, bounds, thresholds); and the least significant bits computed for a realization with one output keep the propagated error below half of the least significant bit required at the output.",
 ["inputs"],"all worst-case gains and error budgets (exponents within the bound), all sizes within the bound",
 "A bound off by one bit is invisible on sampled simulations; the tests call the routines without checking the guarantee and cannot run here.",
 [SIF+"Realization_FxP.py",SIF+"Realization_FxP_Nastia.py"],[("optimalUniformWL, _compute_LSB","fixif/SIF/Realization_FxP.py")])
prop("C32","Trivial coefficients are exactly the zeros and powers of two",
 "A coefficient is classified trivial if and only if it is zero or within the relative tolerance of plus or minus a power of two. The default weights of a realization are 0 exactly at the trivial coefficients and 1 elsewhere, also after coefficients have been assigned, and weights that were given are kept; the numbers of multiplications and additions and the displayed kinds of coefficients follow from them.",
 ["inputs"],"all real coefficients with exponents within the bound, all positions",
 "Negative powers of two, values just outside the tolerance and rounding of the logarithm are not sampled by any test.",
 [SIF+"SIF.py"],[("isTrivial, _build_dZ, nbOp","fixif/SIF/SIF.py")])
prop("C33","Importing a block diagram preserves the diagram's equations",
 "The realization built from a block diagram made of gains, sums and unit delays (without algebraic loop) has the same input/output behaviour as the diagram, whatever the order in which blocks and links are listed: one input per Inport and one output per Outport, in the order of their port numbers, whatever block feeds the Outport; its J matrix is lower-triangular with unit diagonal. Diagrams with an algebraic loop, a longer delay or an unknown block are rejected.",
 ["programs","inputs"],"all gains, diagrams within the bound",
 "Tests read one or two Simulink files; term merging errors show only for diagrams with repeated or reconverging paths.",
 [ST+"Simulink/diagram.py",ST+"Simulink/sif.py",ST+"Simulink/Simulink.py",ST+"Simulink/blocks.py"],[("System / Sif.build / Sif.reorganize","fixif/Structures/Simulink")])
prop("C34","Sensitivity systems are the derivatives with respect to the coefficients",
 "The transfer-function sensitivity of a realization to each of its coefficients is the H2 norm of the derivative of its response with respect to that coefficient, times the coefficient's weight, and the sensitivity measure is the sum of their squares (a coefficient of null weight does not count). The pole sensitivities are the derivatives of the poles (or of their moduli) with respect to every coefficient, and the measure the weighted sum of their squares.",
 ["inputs","configurations"],"all matrices within the size bound, every coefficient position, MIMO sizes included",
 "No test compares with a derivative; a transposed factor shows only when p != q.",
 [SIF+"SIF_sensibility.py"],[("dTFsensitivity, poleSensitivity","fixif/SIF/SIF_sensibility.py")])
prop("C35","Worst-case peak gains bound the peak of every bounded input's response",
 "The worst-case peak gain of a system is the smallest constant bounding the output peak over all inputs of peak one.",
 ["inputs"],"all stable systems, all bounded inputs",
 "An infinite sum over all time; sampling inputs only gives lower bounds.",
 [LTI+"dSS.py",LTI+"dTF.py",LTI+"dSSmp.py"],[("WCPG_ABCD / WCPG_TF (external library)","fixif/LTI/dSS.py")])
prop("C36","Certified frequency-domain verification answers correctly",
 "Checking a transfer function against a frequency specification answers True only if the specification holds at every frequency.",
 ["inputs"],"all transfer functions and specifications, all frequencies",
 "Continuum of frequencies; delegated to Sollya.",
 [LTI+"Gabarit.py"],[("check_dTF via sollya","fixif/LTI/Gabarit.py")])
prop("C37","Lattice wave digital realizations have the filter's response",
 "For every filter, the lattice wave digital realization has the filter's impulse response.",
 ["inputs"],"all filters","Delegated to a Matlab toolbox and Simulink model; not runnable offline.",
 [ST+"LWDF/LWDF.py"],[("makeLWDF via MatlabHelper","fixif/Structures/LWDF/LWDF.py")])
prop("C38","Quantised realizations and their error filter",
 "Quantising the coefficients of a realization (SIFH_to_SIFHstar) gives the realization with every coefficient replaced by its fixed-point value on the given word-length (-1, 0 and 1 being kept), and an error filter: for every input and every sequence of computational errors, its output is the output of the quantised realization with these errors minus the output of the exact realization. The worst-case peak gains printed with it are those of the exact and quantised realizations, for the outputs and for all the variables. The realization is unchanged.",
 ["inputs","configurations"],"all coefficients and quantised values, inputs and errors, within the size bound",
 "No test runs it; a misplaced block is visible only with intermediate variables, errors and several inputs together.",
 [SIF+"SIF_tilde_error.py"],[("SIFH_to_SIFHstar, WCPG_txy, convertToFix","fixif/SIF/SIF_tilde_error.py")])
prop("C39","Operators and comparisons of multiprecision matrices and systems",
 "The operators +, - and * of MPFMatrix with MPFMatrix, mpmath or numpy operands give the sum, the difference and the product of the values, leave the operands unchanged, and reject operands of mismatched sizes or of foreign types. almost_close answers True only if every entry is within the tolerance (absolute or relative) and False only if some entry is beyond the absolute tolerance; different sizes are rejected. Comparing two state-space systems (dSS.assert_close) passes exactly when their first four impulse-response samples differ in norm by less than eps, so it accepts a change of basis; comparing two transfer functions (dTF.assert_close) passes exactly when the zero-padded numerators, and denominators, differ in norm by less than eps.",
 ["inputs"],"all entries, within the size bound",
 "Tests compare a few equal matrices; a comparison that is too lax accepts wrong systems silently.",
 ["fixif/func_aux/MPFMatrix.py",LTI+"dSS.py",LTI+"dTF.py"],[("MPFMatrix.__add__/__sub__/__mul__/almost_close","fixif/func_aux/MPFMatrix.py"),("dSS.assert_close","fixif/LTI/dSS.py"),("dTF.assert_close","fixif/LTI/dTF.py")])
prop("C40","The descriptions of a filter agree",
 "A filter built from a numerator and a denominator, from state-space matrices, from a transfer function or from a state space has, in whatever order its descriptions are asked, a state space and a transfer function with its impulse response; its order, numbers of inputs and outputs, name and declared stability do not depend on what was asked before, and asking for the transfer function of a filter with several inputs or outputs, or building a filter from an incomplete or inconsistent description, raises an exception. The transfer function and the gramians of a realization are those of its current state space.",
 ["inputs","histories"],"all coefficients, every way of building, every order of queries, within the size bound",
 "Descriptions are converted lazily and cached: an error shows only for the view that was not given, or after another query.",
 [LTI+"Filter.py",SIF+"SIF.py"],[("Filter.__init__, dSS, dTF, order, isSISO","fixif/LTI/Filter.py"),("SIF.to_dTF, Wo, Wc","fixif/SIF/SIF.py")])
prop("C41","Reported worst-case peak gains are those of the current system",
 "The worst-case peak gain that a state space, a transfer function or a realization (outputs, internal variables, roundoff errors) reports is the one that the WCPG library computes for a system with its current response: also when it is asked again, after a change of basis, for sub-systems, sums, differences and conversions, and after coefficients of the realization have been assigned.",
 ["inputs","histories"],"all coefficients, every sequence of a query, a change and a query, within the size bound",
 "The gains are cached and given to an external library: a stale or transposed system shows only after a change, and tests do not have the library.",
 [LTI+"dSS.py",LTI+"dTF.py",SIF+"SIF.py"],[("dSS.WCPG","fixif/LTI/dSS.py"),("dTF.WCPG","fixif/LTI/dTF.py")])
prop("C42","Coefficients handed to other tools keep their value and their place",
 "The Sollya numbers made from a multiprecision matrix are exactly its entries, row by row, and those made from a transfer function (double or multiprecision) are the polynomials of its numerator and denominator in x = 1/z; converting back gives the entries rounded to the nearest double. Complex matrices, infinite entries and foreign objects are rejected. A matrix written in hexadecimal denotes exactly its entries, one line per row. The LaTeX matrix of a realization shows every coefficient of Z at its place (integers as integers, others in the given format), null ones only when asked.",
 ["inputs","configurations"],"all entries, within the size bound",
 "These texts and objects are read by other tools; tests do not run them (Sollya is not installed), and a swapped index or a sign lost for negative mantissas shows only on some entries.",
 ["fixif/func_aux/mpf_matrix_to_sollya.py","fixif/func_aux/MPFMatrix.py","fixif/func_aux/sollya_matrix_to_numpy.py","fixif/func_aux/write_matrix_hex.py",LTI+"dTF.py",LTI+"dTFmp.py",SIF+"SIF.py"],
 [("mpf_matrix_to_sollya","fixif/func_aux/mpf_matrix_to_sollya.py"),("to_Sollya","fixif/LTI/dTFmp.py"),("SIF.getZtpmatrixLaTeX","fixif/SIF/SIF.py")])
prop("C43","Transfer functions handed to scipy and their diagrams keep their values",
 "The scipy transfer function made from a dTF is sampled and has the same impulse response. The Bode diagram is computed for this system, over increasing frequencies from the given minimum to pi, and draws the magnitude and the phase obtained, each in its own axes. Drawn over a specification, a transfer function shows its modulus, in dB or not as asked, at the frequencies in Hz of the specification's sampling frequency. The dTF is left unchanged.",
 ["inputs","configurations"],"all coefficients, all lengths within the bound, all sampling frequencies",
 "Numerator and denominator are read as powers of z by some functions of scipy and as powers of 1/z by others, so that null or missing last coefficients delay the response; no test draws or converts.",
 [LTI+"dTF.py",LTI+"Gabarit.py"],
 [("dTF.toTransferFunction","fixif/LTI/dTF.py"),("dTF.bode","fixif/LTI/dTF.py"),("Gabarit.plot","fixif/LTI/Gabarit.py")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
