"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop('C01', 'Braid products, inverses and powers are those of the braid group',
 'For every n in range and every pair of braids of the same kind (Garside or dual Garside normal form), the product, inverse, integer powers (negative and zero included) and identity are the elements the braid group defines: the result represents the same braid as the corresponding concatenation or inversion of words in the Artin generators. This holds whatever power of the Garside element, however many factors, and however much cancellation the operands have.',
 ['inputs'], 'every n (2..6 for Garside, 2..8 for dual), all pairs of braids, all exponents',
 'The tests multiply one fixed 42-letter word in B_4; the claim is about all pairs, where renormalisation cascades, Garside powers on both sides and full cancellation occur.',
 ['peyl/braid.py'], [('group multiplication with conjugation by the Garside power', 'peyl/braid.py: NFBase.__mul__'), ('renormalisation of a product', 'peyl/braid.py: NFTable.product_normalised_factors'), ('inverse', 'peyl/braid.py: NFBase.inv'), ('powers', 'peyl/braid.py: NFBase.__pow__')],
 ['the braids returned, read as words through their canonical decomposition'])
prop('C02', 'Normal forms are canonical and always valid',
 'Two braids of the same kind and the same n compare equal, and hash equally, exactly when they are the same element of the braid group, however each was obtained. Every braid the library produces is in left normal form: no factor is trivial or the Garside element, each adjacent pair is left-weighted, so the reported infimum, supremum and canonical length are the true extremal ones; and data that is not in normal form is rejected at construction.',
 ['inputs'], 'all n in range, all pairs of words representing the same or different braids, all construction routes, all factor sequences given to the constructor',
 'Uniqueness is a statement about all words for a braid; the tests compare a few products and reject one singleton sequence.',
 ['peyl/braid.py'], [('normal form tables (renormalisation, compatibility of adjacent factors)', 'peyl/braid.py: PermTable.create, NParTable.create'), ('validity check on construction', 'peyl/braid.py: NFBase.__post_init__'), ('normalising arbitrary factor sequences', 'peyl/braid.py: NFTable.normalise_factors')],
 ['equality and hashes of braids', 'canonical decomposition, infimum, supremum, canonical length', 'exceptions from constructors'])
prop('C03', 'Every conversion of a braid preserves the braid',
 'Converting between Garside and dual Garside form in either direction, to and from words in the Artin generators (also in 1-based signed Magma form), from pairs (infimum, permutations), from sequences of permutations or noncrossing partitions, and lifting permutations, noncrossing partitions and band generators, always yields the same element of the braid group. Round trips return an equal object.',
 ['inputs'], 'all n in range, all braids and all words with arbitrary integer exponents, all permutations and noncrossing partitions',
 'The tests round-trip one braid of B_4 and its square; conversions are table-driven per factor and per power of the Garside element, so errors can hide in single factors, in large n and in negative powers.',
 ['peyl/braid.py', 'peyl/noncrossing.py', 'peyl/permutations.py'], [('Artin word to normal form', 'peyl/braid.py: GNF.from_artin_word, DGNF.from_artin_word'), ('change of Garside structure', 'peyl/braid.py: GNF.to_DGNF, DGNF.to_GNF'), ('normal form to Artin word', 'peyl/braid.py: NFBase.artin_word, magma_artin_word'), ('lifts', 'peyl/braid.py: BraidGroup.positive_lift, from_npar, from_gnf_pair, bkl_gens; GNF.from_perm_seq; DGNF.from_npar_seq')],
 ['the braids and words returned'])
prop('C04', 'Enumeration, counting and sampling of normal forms are exact',
 'Listing all braids of a given canonical length (with an optional power of the Garside element), the immediate descendants of a braid, or all suffixes of a given length that extend it without cancellation, yields each such braid exactly once and nothing else, and the count functions return exactly the number listed. A random sample is always a valid braid of exactly the requested length with infimum zero, and every braid of that length can occur.',
 ['inputs'], 'all n in range, both kinds, all lengths and powers, all braids to extend, all random sources',
 'The tests compare two counts in B_4; completeness and uniqueness are claims about whole enumerations at every length.',
 ['peyl/braid.py'], [('normal form automaton', 'peyl/braid.py: NFTable.normal_forms, count_normal_forms, sample'), ('descendants and suffixes', 'peyl/braid.py: NFBase.nf_descendants, nf_suffixes, all_of_length')],
 ['the iterators and counts returned'])
prop('C05', 'Braids stored in SQLite read back as the same braids',
 'A braid of either kind written to an SQLite column declared for braids, once the adapters are registered, reads back in the same or any later process as an equal braid of the same kind representing the same element; this includes data stored earlier by the released code. Text that does not describe a braid in normal form is rejected with an error instead of being read as some braid.',
 ['inputs', 'histories'], 'all braids of both kinds, any number of rows, processes with different hash seeds, corrupted cells',
 'No test touches persistence, and stability of stored indices across processes is not visible to an in-process test.',
 ['peyl/braid.py'], [('serialisation', 'peyl/braid.py: adapt_braid, convert_braid, register_sqlite3_adapters'), ('enumeration order of the stored indices', 'peyl/braid.py: PermTable.create, NParTable.create')],
 ['values selected from a database', 'raw text of stored cells'])
prop('C06', 'Permutation functions agree with the definitions in the symmetric group',
 'For every permutation and every pair of permutations of {0..n-1}: composition (right to left), inverse, length, parity, descent sets, cycle decomposition and type, longest element, transpositions, reflections, generators and group elements are what the definitions say, words and cycles convert to the permutation they denote, and non-permutations are refused. The word in the Coxeter generators returned for a permutation is reduced and is the lexicographically least reduced word.',
 ['inputs'], 'all n, all permutations, all words in generators, all cycles',
 'Doctests fix a handful of values; the functions underlie every normal form table, so one wrong permutation at n = 5 or 6 silently corrupts braids.',
 ['peyl/permutations.py'], [('word operations', 'peyl/permutations.py: compose, inverse, length, right_descent_set, left_descent_set, disjoint_cycles, cycle_type, parity'), ('lex-least reduced word', 'peyl/permutations.py: shortlex, from_cox'), ('validation', 'peyl/permutations.py: is_permutation'), ('group object', 'peyl/permutations.py: SymmetricGroup, Permutation')],
 ['return values and exceptions'])
prop('C07', 'Noncrossing partitions are enumerated, converted and complemented correctly',
 'For every n the library lists each noncrossing partition exactly once (a Catalan number of them); components, edges, the associated permutation with parallel descending cycles and the braid word of a partition describe that same partition, and converting back recovers it. The left and right complements are mutually inverse and satisfy their defining product with the Garside element of the dual structure, and data that is overlapping, out of range or crossing is refused.',
 ['inputs'], 'all n, all noncrossing partitions, all set systems offered as components, all permutations offered for conversion',
 'Doctests show single values; bijectivity and the complement identity quantify over the whole lattice for every n.',
 ['peyl/noncrossing.py', 'peyl/permutations.py'], [('involution encoding and validation', 'peyl/noncrossing.py: NPar, NPar.from_components'), ('conversion with permutations', 'peyl/noncrossing.py: from_permutation, to_permutation; peyl/permutations.py: is_parallel_descending_cycles'), ('complements', 'peyl/noncrossing.py: left_complement, right_complement'), ('braid words', 'peyl/noncrossing.py: artin_word, bkl_gen_to_artin_word, npar_component_to_artin_word')],
 ['return values and exceptions'])
prop('C08', 'Temperley-Lieb diagrams compose, tensor and flip as planar matchings',
 'For all composable Temperley-Lieb diagrams (with or without recorded bubbles) vertical composition connects the points and counts the closed loops exactly as gluing the pictures does, horizontal composition juxtaposes, the flip mirrors, identities are neutral and the number of through-strands and of loops in the closure is right. The diagrams listed for a type, and for a cell module, are each crossingless matching of the required kind exactly once, and crossing or malformed data is refused.',
 ['inputs'], 'all shapes (top, bottom), all pairs and triples of diagrams, all integer sequences offered as matchings',
 'The tests compose a few small diagrams; loops, unequal widths and nested arcs grow combinatorially.',
 ['peyl/tl.py'], [('gluing and loop counting', 'peyl/tl.py: compose, trace_count'), ('juxtaposition', 'peyl/tl.py: insert'), ('validation', 'peyl/tl.py: is_crossingless_matching'), ('enumeration', 'peyl/tl.py: generate_sequences, tl_basis, tl_tableaux_basis, cell_basis'), ('diagrams with bubbles', 'peyl/tl.py: TLExtDiag')],
 ['return values and exceptions'])
prop('C09', 'Temperley-Lieb morphisms form the linear category with loop value v + 1/v',
 'Sums, differences, scalar multiples, products, powers and flips (with or without inverting v) of linear combinations of diagrams are the bilinear extension of the diagram operations where each closed loop is worth v + 1/v, zero terms never survive, and equality is equality of morphisms. The elementary generators satisfy the Temperley-Lieb relations for every number of strands, and mismatched shapes are refused.',
 ['inputs'], 'all shapes, all linear combinations with Laurent polynomial coefficients, all exponents',
 'Unit tests look at a few products of generators; bilinearity, cancellation and loop powers need arbitrary combinations.',
 ['peyl/tl.py', 'peyl/lpoly.py'], [('linear combinations', 'peyl/tl.py: TLMor.__mul__, __add__, flip, __pow__, __init__'), ('quotient and coefficients', 'peyl/tl.py: TLMor.quotient, coefficient')],
 ['coefficients of the morphisms returned'])
prop('C10', 'Cell modules carry the Temperley-Lieb action and decompose the Markov trace',
 'For every n and r, the stated dimension of a cell module equals the number of its basis diagrams, and left multiplication gives matrices that respect products and units and equal the action on basis diagrams modulo fewer through-strands. The direct sum of all cell modules recovers the Markov trace of every element: the sum over cells of the quantum integer [n-2r+1] times the matrix trace is the trace of the element, which is itself the sum of loop values of its closed diagrams.',
 ['inputs'], 'all n and 0 <= 2r <= n, all elements of the Temperley-Lieb algebra',
 'The tests only check a few dimensions and n <= 3 traces; the identity must hold for every element and covers the last cell at even n.',
 ['peyl/tl.py', 'peyl/lpoly.py'], [('cell action', 'peyl/tl.py: TLCell.project_leftmult_matrix, project_vector, TLMor.quotient'), ('dimension and basis', 'peyl/tl.py: cell_dimension, cell_basis'), ('trace', 'peyl/tl.py: TLMor.trace, TLCell.trace_scalar, JonesRep; peyl/lpoly.py: LPoly.quantum_integer')],
 ['matrices, dimensions and traces returned'])
prop('C11', 'Laurent polynomial arithmetic is exact and canonical',
 'For all Laurent polynomials with integer coefficients of any size, sums, differences, products (also with integers on either side), powers, exact quotients, substitution, coefficient maps and quantum integers are the mathematical ones, and non-units have no negative powers. Two values are equal and hash equally exactly when they are the same Laurent polynomial, whatever padding they were built from, and valuation, degree, zero and unit tests and the printed form describe that polynomial.',
 ['inputs'], 'all integer Laurent polynomials with any valuation, padding and coefficient size',
 'Doctests pin about twenty values; canonical form and cancellation must hold for all operand combinations.',
 ['peyl/lpoly.py', 'peyl/poly.py'], [('canonical trimming', 'peyl/lpoly.py: LPoly.__init__'), ('ring operations', 'peyl/lpoly.py: __add__, __mul__, __pow__, __truediv__'), ('printing', 'peyl/lpoly.py: fmt')],
 ['return values, exceptions and printed text'])
prop('C12', 'Integer polynomials, exact division and special polynomials are right',
 'For all integer polynomials, ring operations, evaluation, degree and printing are the mathematical ones; division with remainder returns the unique quotient and remainder whenever it is possible over the integers and otherwise raises an error, and exact division succeeds exactly for divisible pairs. For every index the cyclotomic polynomial, the Chebyshev polynomial of the first kind and the minimal polynomial of 2cos(2 pi/n) returned are those polynomials.',
 ['inputs'], 'all integer polynomials, all divisors, all indices',
 'A few doctests; divisibility and the recursive special families quantify over all indices and operands.',
 ['peyl/poly.py'], [('division', 'peyl/poly.py: Poly.__divmod__, __truediv__'), ('ring operations', 'peyl/poly.py: __add__, __sub__, __mul__, __pow__, evaluate'), ('special polynomials', 'peyl/poly.py: cyclotomic, chebyshevT, minpolycos')],
 ['return values, exceptions and printed text'])
prop('C13', 'Matrix operations agree with the definitions over integers and polynomials',
 'For all matrices with integer or Laurent polynomial entries, of any shape, products, integer multiples, powers, differences, transposes, traces, row and column extraction, indexing, entrywise maps, symmetry and integrality tests, constructors and printing are what the definitions say, and equality and hashing are by value. Out-of-range indices, incompatible shapes and malformed data are refused.',
 ['inputs'], 'all shapes including empty and non-square, all entries',
 'Doctests multiply one Fibonacci matrix; shape-dependent indexing errors only show on non-square or larger inputs.',
 ['peyl/matrix.py'], [('row-major storage', 'peyl/matrix.py: Matrix.__getitem__, from_rows, row, column, transpose'), ('arithmetic', 'peyl/matrix.py: __mul__, __pow__, __sub__, trace'), ('validation', 'peyl/matrix.py: __post_init__, _checkbounds')],
 ['return values, exceptions and printed text'])
prop('C14', 'Exact two-row Jones representations evaluate braids faithfully to definition',
 'For every number of strands, every two-row shape (n-r, r) and every modulus (zero or a prime), the exact image of a braid, permutation, noncrossing partition or Artin word is the product of the generator images 1 - v e_i acting on the cell module in the stated basis, with coefficients reduced into [0, p) when p > 0. Hence it is a homomorphism, independent of the word or normal form used, and known kernel elements evaluate to a power of v times the identity.',
 ['inputs'], 'all n, r, p, all braids of both kinds and all words with integer exponents',
 'The tests check only the braid relations of generators for five representations over Z; images of braids and reductions mod p are untested.',
 ['peyl/jonesrep.py', 'peyl/tl.py', 'peyl/matrix.py', 'peyl/lpoly.py'], [('generator images', 'peyl/jonesrep.py: tl_gens_invs, cell_matrix, cell_matrices, JonesCellRep.artin_gens_invs'), ('evaluation', 'peyl/jonesrep.py: RepBase.evaluate, evaluate_artin_word')],
 ['entries of the matrices returned'])
prop('C15', 'The Lawrence-Krammer-Bigelow representation is a representation',
 'For every n and all units q and t, the generator images of the Lawrence-Krammer representation (dimension n(n-1)/2) satisfy the braid relations, the cubic relation (x-1)(x+q)(x-tq^2)=0, and are inverted by the listed inverses. Evaluation of words, braids, permutations and noncrossing partitions, exact or modulo p, is the corresponding product and depends only on the braid, and with q = v and t a sufficiently high power of v distinct braids have distinct images.',
 ['inputs'], 'all n, unit parameters q and t, moduli, words and braids',
 'The only test instance is n = 4, q = v^7, t = v^5, and it never looks at the inverses or at evaluation.',
 ['peyl/jonesrep.py'], [('generators and inverses', 'peyl/jonesrep.py: LKBRep.artin_gens_invs'), ('evaluation', 'peyl/jonesrep.py: RepBase.evaluate_artin_word, evaluate')],
 ['entries of the matrices returned'])
prop('C16', 'Packed evaluation agrees with exact evaluation up to a power of v',
 'For every representation, evaluating braids, permutations, noncrossing partitions, Artin words or sequences of normal form factors in packed array form, one at a time or in batches, gives the exact matrix divided by the largest possible power of v, with residues in [0, p) when p > 0, as long as coefficients fit the integer type. The answer does not depend on the batch it was computed in, on the kind of normal form or on the power of the central element.',
 ['inputs'], 'all n, r, p (zero while coefficients fit, primes up to the documented bound), all braids, batch compositions and factor sequences',
 'No test evaluates a single packed image; batches pad to a common degree and reduce Garside powers, which only mixed batches expose.',
 ['peyl/jonesrep.py', 'peyl/polymat.py'], [('batch evaluation', 'peyl/jonesrep.py: RepBase.polymat_evaluate_braids_of_same_length, polymat_evaluate_braid_integers_of_same_length'), ('single evaluation', 'peyl/jonesrep.py: polymat_evaluate, polymat_evaluate_artin_word, polymat_evaluate_braid'), ('cached factor images', 'peyl/jonesrep.py: _polymat_braid_factor, _polymat_delta_power'), ('reduction', 'peyl/jonesrep.py: polymat_mul; peyl/polymat.py: projectivise')],
 ['the arrays returned'])
prop('C17', 'The search evaluation path agrees with exact evaluation',
 'For every two-row representation used by the search, the images of single braids, of batches of equal length, of batches of mixed length, of all prefixes, and of randomly sampled braids equal the exact image of that braid up to a power of v (residues correct modulo p), listed in the order of the braids. Products of such images are the images of the products.',
 ['inputs'], 'all n, r, p in range, all batches of braids, all random sources',
 'The tests never evaluate a braid through this path; order, padding and parity of the Garside power only matter for mixed batches.',
 ['peyl/braidsearch.py', 'peyl/polymat.py'], [('table of factor images', 'peyl/braidsearch.py: symmetric_table'), ('evaluation', 'peyl/braidsearch.py: evaluate_braid_factors, evaluate_braids_of_same_length, evaluate_prefixes_of_same_length, evaluate_braids, sample_braids_images, sample_braids_images_upto_length'), ('multiplication', 'peyl/braidsearch.py: JonesSummand.mul')],
 ['the arrays and lists returned'])
prop('C18', 'Packed polynomial matrix arithmetic is exact for all shapes',
 'Multiplication of packed polynomial matrices (with broadcasting and with truncation in degree), packing, padding, concatenation, trimming and division by the common power of v give the array that exact polynomial arithmetic gives, whenever coefficients fit the integer type. Conversion to and from matrices of Laurent polynomials is lossless, and inputs that cannot be converted or combined are refused.',
 ['inputs'], 'all shapes, broadcasts, degrees, dtypes, degree bounds and coefficient values that fit',
 'There are no tests for this module; errors typically need unequal degrees, batch axes or zero blocks to show.',
 ['peyl/polymat.py'], [('product', 'peyl/polymat.py: mul'), ('layout', 'peyl/polymat.py: pack, zeropad, concatenate, trim, trim_left'), ('projective normal form', 'peyl/polymat.py: projectivise, proj_starts_ends'), ('conversion', 'peyl/polymat.py: to_matrix, from_matrix')],
 ['the arrays and matrices returned'])
prop('C19', 'Statistics of packed matrices equal their definitions',
 'For every packed polynomial matrix and every batch, the projective length, highest degree, lowest valuation, number of nonzero coefficients, half-gap, effective length, start and end degrees, and sum of ranks of leading coefficient matrices equal what direct inspection of the coefficients gives, independently of zero padding and of the other matrices in the batch.',
 ['inputs'], 'all arrays, batch shapes and paddings, zero matrices included where the statistic is defined for them',
 'Untested; the search ranks and discards braids solely by these numbers.',
 ['peyl/polymat.py'], [('statistics', 'peyl/polymat.py: projlen, degmax, valmin, nz_terms, rhogap, efflen, projrank, proj_starts_ends')],
 ['the numbers returned'])
prop('C20', 'Weighted bucket tracker holds only true, correctly filed braids',
 'After any sequence of additions, bootstraps, descendant expansions and discards, under every retention method, every braid held by the weighted bucket tracker sits in the bucket of its own statistics next to its own projective image and its own weight, no bucket exceeds its capacity, and everything held was actually offered. The tracker\'s self-validation reports soundness on sound states and reports a fault when an image is wrong.',
 ['histories', 'inputs'], 'all operation sequences, representations, moduli, kinds of normal form, capacities, statistics and retention methods',
 'The one test adds a single identity braid; replacement in full buckets and regrouping by last factor need long histories.',
 ['peyl/bucketing.py', 'peyl/polymat.py'], [('filing', 'peyl/bucketing.py: Tracker.add_braids_images'), ('expansion', 'peyl/bucketing.py: Tracker.nf_descendants, bootstrap_exhaustive'), ('parallel arrays', 'peyl/bucketing.py: Bucket.append_braid, replace_braid'), ('self-validation', 'peyl/bucketing.py: Tracker.valiate_buckets')],
 ['contents of every bucket after each operation'], state=[('bucket', 'parallel lists of braids, images and weights', 'peyl/bucketing.py: Bucket')])
prop('C21', 'Weighted bucket retention follows its stated sampling method',
 'While a bucket has room it keeps every offered braid; once full, keep-first never changes it, keep-heaviest holds exactly a maximal-weight selection of everything offered, uniform retention keeps every offered braid with equal probability, and weight-biased retention favours heavier braids and never admits a weightless one while others have weight. The counts and total weights reported are those of everything ever offered to the bucket.',
 ['histories', 'inputs'], 'all streams of offers, capacities, weights including ties and zero, batch splits and random sources',
 'Nothing tests a full bucket; uniformity is a statement about the distribution over all random choices.',
 ['peyl/bucketing.py'], [('retention', 'peyl/bucketing.py: Tracker.add_braids_images'), ('accounting', 'peyl/bucketing.py: Bucket.show_reservoir, Tracker.stats')],
 ['bucket contents and counters over many repetitions'], state=[('heap', 'min-heap of (weight, slot) for keep-heaviest', 'peyl/bucketing.py: Bucket.heap')])
prop('C22', 'Bootstrapping and expansion offer every braid they should, exactly once',
 'With buckets large enough never to fill, bootstrapping either search tracker up to a length leaves exactly all normal forms of lengths one up to that bound that pass its filter, and expanding a bucket adds exactly the descendants that extend its members by the requested number of factors (all intermediate lengths as well for the search tracker), each once. Expanding again, in any order and however many suffixes were seen before, offers the same descendants again, and the search tracker still holds each once. Substring expansion of a search bucket adds exactly the proper substrings of two or more consecutive factors of its braids, and the product of two search buckets exactly the products of their members.',
 ['histories', 'inputs'], 'all representations, both trackers, both kinds, bootstrap lengths, step sizes and orders of expansion',
 'Tests never bootstrap or expand; completeness is a claim about whole sets, and depends on chunk boundaries, caches and grouping.',
 ['peyl/bucketing.py', 'peyl/braidsearch.py'], [('bootstrap', 'bootstrap_exhaustive in both trackers'), ('expansion', 'nf_descendants in both trackers; Tracker.substrings in peyl/braidsearch.py'), ('chunking', 'batched in both modules'), ('suffix cache', 'peyl/bucketing.py: Tracker.nf_descendants')],
 ['union of all buckets after each operation'])
prop('C23', 'Search tracker holds only true, correctly filed, accepted braids',
 'After any sequence of additions, bootstraps, expansions, bucket products, substring expansions and discards, every braid held by the search tracker satisfies the acceptance criterion on its true statistics, sits in the bucket of its own length and projective length next to its own projective image, was actually offered, and no bucket exceeds its size. Self-validation reports soundness on sound states and reports a fault when an image is wrong.',
 ['histories', 'inputs'], 'all operation sequences, representations, moduli, bucket sizes, criteria, with and without a random source',
 'The search tracker has no tests at all; the invariant must survive replacement and duplicate handling over long histories.',
 ['peyl/braidsearch.py'], [('filing and criterion', 'peyl/braidsearch.py: Tracker.add_braids_images'), ('products and substrings', 'peyl/braidsearch.py: Tracker.bucket_product, substrings'), ('self-validation', 'peyl/braidsearch.py: Tracker.valiate_buckets')],
 ['contents of every bucket after each operation'], state=[('buckets', 'set of bucket keys with parallel braids and images', 'peyl/braidsearch.py: Tracker')])
prop('C24', 'Search tracker retention is a fair reservoir with exact counts',
 'Without a random source a full bucket of the search tracker keeps the first distinct braids offered; with one, when distinct braids are offered to a bucket each is retained with equal probability whatever the order. A bucket with room keeps each distinct offered braid exactly once, the same random seed gives the same contents, and the reported reservoir count is the number of accepted offers to that bucket.',
 ['histories', 'inputs'], 'all streams of offers, bucket sizes, batch splits, random seeds',
 'Uniformity is a distributional claim over all seeds; no test fills a bucket.',
 ['peyl/braidsearch.py'], [('reservoir sampling', 'peyl/braidsearch.py: Tracker.add_braids_images'), ('accounting', 'peyl/braidsearch.py: Tracker.stats, stats_reservoir')],
 ['bucket contents and counts over many repetitions'])
prop('C25', 'Reported search statistics are the true statistics of the braids',
 'Every table the library reports about braids or buckets (per braid, per bucket, per reservoir, and data frames of braids with images) lists each item once with the values that recomputation from the braids themselves gives: counts, lengths, projective lengths, nonzero terms, degrees, half-gaps, ratios, ranks, average weights. The listing of all braids of a length with half-gap to length ratio below one contains exactly those braids with their own images, and grouping a bucket by image puts exactly the braids with equal images together.',
 ['inputs', 'histories'], 'all representations, braids, histories of both trackers',
 'Tests compare one one-row table; the numbers drive which braids the search keeps.',
 ['peyl/braidsearch.py', 'peyl/bucketing.py'], [('tables', 'braid_image_stats, bucket_stats, stats, stats_reservoir in both trackers; peyl/braidsearch.py: braids_images_to_dataframe'), ('below-one listing', 'peyl/braidsearch.py: all_of_length_below_1'), ('grouping', 'peyl/bucketing.py: Tracker.hash_bucket')],
 ['data frames and lists returned'])
prop('C26', 'Every near-kernel element the search script reports is one',
 'Whenever the search script prints a near-kernel element, reading its printed pair back gives a valid braid of the printed Garside length and infimum whose exact image in the printed representation is a single power of v times a constant matrix. Every such element present in the searched buckets is printed at that step, and with the stop option the script halts after the first step that prints any and otherwise goes on.',
 ['configurations', 'histories'], 'all supported command lines (n, r, p, bootstrap length, step size, bucket size, limits, seeds)',
 'search.py is never run by the tests; the claim is the headline result of the project and depends on the whole pipeline.',
 ['search.py', 'peyl/braidsearch.py', 'peyl/braid.py'], [('reporting and halting', 'search.py: main')],
 ['standard output of the script, replayed through an independent evaluation'])
prop('C27', 'The search script advances and saves exactly the braids its limits select',
 'At each step the script considers only the braids of the current length, moves forward whole buckets in increasing order of projective length as long as their total stays within the use limit, and saves whole buckets likewise within the save limit, discarding nothing it still needs. Every saved row carries the run\'s parameters, the braid\'s true length and projective length in that representation and a normal form that reads back to that braid, no braid is saved twice while its bucket has room, and rows already in the database are kept.',
 ['configurations', 'histories'], 'all supported command lines and existing databases',
 'search.py is never run by the tests.',
 ['search.py', 'peyl/braidsearch.py'], [('selection by cumulative count', 'search.py: main'), ('saving', 'search.py: main, DB_SCHEMA'), ('expansion and discarding', 'search.py: main')],
 ['rows of the database and printed selections'])
prop('C28', 'Searches with the same arguments and seed are reproducible',
 'Two runs of the search script with the same arguments print the same elements and selections and save the same rows, whatever the process, hash seed, working directory or global random state; likewise library trackers given equally seeded random sources and the same operations hold the same braids in the same order. Sampling functions given equally seeded sources return the same braids.',
 ['configurations', 'schedules'], 'all arguments, seeds, process environments',
 'A single in-process test run cannot vary hash seeds, processes or prior random state.',
 ['search.py', 'peyl/braidsearch.py', 'peyl/bucketing.py', 'peyl/braid.py'], [('explicit random source', 'search.py: main; random arguments of the trackers and samplers'), ('deterministic table order', 'peyl/braid.py: PermTable.create, NParTable.create')],
 ['standard output (timings aside), database rows, tracker contents'])
prop('C29', 'A killed or interrupted search leaves only whole saved steps in the database',
 'If the search process is killed or interrupted at any moment, or its disk fills up, the database still opens, keeps all rows it had before, and contains for the interrupted run exactly the rows of the first k steps in full for some k, never part of a step; a step whose saving was reported complete is present. Running again on the same database, or two runs at once, adds complete sets of rows without damaging others.',
 ['crash_points', 'schedules'], 'every point of a run at which the process may die, every step, with or without an existing database, concurrent writers',
 'Crashes and concurrent writers are never exercised by tests.',
 ['search.py'], [('one transaction per step', 'search.py: main (BEGIN TRANSACTION ... commit)'), ('write-ahead log', 'search.py: DB_PRAGMAS')],
 ['rows visible to a fresh connection after the crash'])
prop('C30', 'Operations are pure: inputs untouched, results independent of history',
 'No library function changes the braids, words, matrices or arrays passed to it, and the result of a computation depends only on its arguments: it is the same on repetition, after any other computations in any order with other groups, representations or moduli in the same process, from several threads at once, and in a fresh process.',
 ['histories', 'schedules'], 'all interleavings of library calls, threads and processes',
 'Tests call each function once in a fixed order, so cross-talk through caches, shared tables and aliased arrays is invisible.',
 ['peyl/jonesrep.py', 'peyl/braid.py', 'peyl/braidsearch.py', 'peyl/bucketing.py', 'peyl/polymat.py', 'peyl/tl.py', 'peyl/poly.py'], [('memoised tables and images', 'functools.cache uses across peyl; RepBase.__init__'), ('array arithmetic', 'peyl/polymat.py, peyl/jonesrep.py: polymat_mul')],
 ['digests of arguments before and after calls, digests of results across histories'])
prop('C31', 'Invalid requests are refused with an error, never answered wrongly',
 'Combining braids, permutations, diagrams, morphisms or matrices of incompatible sizes; constructing permutations, partitions, diagrams, morphisms, normal forms or matrices from data that do not describe one; generators, exponents, lengths and group or representation parameters outside their range; braids of another group or kind, or of mixed lengths, in one batch; overfilling a bucket and asking for missing buckets: all raise an error, and existing objects and trackers stay as they were. Arithmetic operators raise a type error for unsupported operand types instead of producing a value.',
 ['inputs'], 'all mismatched sizes, malformed values, out-of-range parameters, foreign operand types',
 'Tests check two rejected constructions; the claim is about every entry point and every malformed argument.',
 ['peyl/braid.py', 'peyl/permutations.py', 'peyl/noncrossing.py', 'peyl/tl.py', 'peyl/matrix.py', 'peyl/lpoly.py', 'peyl/poly.py', 'peyl/polymat.py', 'peyl/jonesrep.py', 'peyl/braidsearch.py', 'peyl/bucketing.py'], [('argument checks', 'assertions and ValueErrors at the entry points of every module'), ('operator protocol', 'NotImplemented results of operator methods')],
 ['exceptions raised, and state of the operands afterwards'])

prop('C32', 'What is displayed denotes the displayed value',
 'Text, LaTeX, HTML and SVG forms of polynomials, matrices, permutations, partitions, braids, diagrams, morphisms and representations, and the rows and framed tables built from them, denote exactly the value displayed: reading the displayed form back gives that value (every term with its sign, coefficient, power and bubbles; every entry at its row and column; every arc between its end points; items in their order with their captions). Different values of one type have different texts, and displaying succeeds for every value, zero, empty and unit cases included, without changing it.',
 ['inputs'], 'all values of every displayable type, zero, empty and huge ones included',
 'Tests and doctests compare a few texts; a sign, power or term dropped for some value is shown to users as a wrong result.',
 ['peyl/lpoly.py', 'peyl/poly.py', 'peyl/matrix.py', 'peyl/permutations.py', 'peyl/noncrossing.py', 'peyl/braid.py', 'peyl/braidsearch.py', 'peyl/tl.py', 'peyl/jonesrep.py', 'peyl/show.py'], [('polynomials', 'LPoly.fmt, LPoly._repr_latex_, Poly.__repr__'), ('matrices and tables', 'Matrix._repr_latex_, show.FramedMatrix, show.Row'), ('braids and permutations', 'NF display, Permutation._repr_latex_, NonCrossingPartition display'), ('pictures', 'tl.py: TLDiag and TLMor display')],
 ['strings returned by display methods, parsed by independent readers'])
prop('C33', 'Values are stable keys: equality, hash, order and copies agree',
 'Braids, permutations, partitions, polynomials, matrices, diagrams, morphisms, cells, summands and groups compare equal exactly if they are of one type and denote the same mathematical value, however they were built; equal values have equal hashes and work interchangeably in sets and dictionaries; comparison operators of braids and diagrams form one total order consistent with equality, independent of the sorting history; copies, deep copies and pickles under every protocol, in this or another process with other hash seeds, are equal to the original and act like it in further operations; fields of immutable values cannot be assigned or deleted; later changes to containers given to constructors or received from values do not reach into the value.',
 ['inputs', 'histories'], 'all pairs of values of all types, copy protocols, processes and later uses of containers',
 'Tests compare single pairs; near collisions, values carried between processes, and aliased containers are not tried.',
 ['peyl/braid.py', 'peyl/permutations.py', 'peyl/noncrossing.py', 'peyl/lpoly.py', 'peyl/poly.py', 'peyl/matrix.py', 'peyl/tl.py', 'peyl/jonesrep.py'], [('equality, hash and order', '__eq__, __hash__, __lt__ and dataclass declarations of every value type'), ('immutability', 'frozen dataclasses; tuples stored by constructors')],
 ['results of comparisons, hashes, container operations, copies and pickles over pools of near-colliding values'])

prop('C34', 'Work and memory stay within what the algorithms promise',
 'The work of every algebraic operation (products, inverses, words, decompositions, conversions, samples and counts of braids; permutations, partitions, diagrams, morphisms, polynomials and matrices; exact and packed evaluation) grows at most with the third power of the size of its input, never exponentially, and powers cost a number of products logarithmic in the exponent. Enumerations are lazy: the first items cost little however many there are, and items passed are not kept. Tables of groups and images of factors, permutations and generators in a representation are computed once and used again, and braids of one length are evaluated together, at less cost than one by one. Values operated on, results and representations are freed once the caller drops them, whatever was done with them; trackers hold no more braids and images than the capacity of their buckets, however many were offered, and a discarded bucket is freed.',
 ['inputs', 'histories'], 'all inputs of growing size, exponents, enumerations, histories of trackers',
 'Tests use inputs so small that exponential algorithms, rebuilt tables and leaks go unnoticed; long searches then run out of time or memory.',
 ['peyl/braid.py', 'peyl/jonesrep.py', 'peyl/braidsearch.py', 'peyl/bucketing.py', 'peyl/polymat.py', 'peyl/tl.py', 'peyl/poly.py', 'peyl/lpoly.py', 'peyl/matrix.py', 'peyl/permutations.py', 'peyl/noncrossing.py'], [('powers', '__pow__ of every type'), ('lazy enumeration', 'NF.all_of_length, nf_suffixes, SymmetricGroup.elements, NonCrossingPartition.all_of_size, tl.generate_sequences, batched'), ('tables computed once', 'PermTable, NParTable, GNFDGNFTable; images in jonesrep.RepBase and braidsearch'), ('bounded buckets', 'Tracker.add_braids_images, discard_bucket, nf_descendants in braidsearch.py and bucketing.py')],
 ['bytecode instructions executed inside the library, weak references alive after collection, memory traced, sizes of bucket arrays'])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(p, ensure_ascii=False) + '\n' for p in P))
print(len(P))
