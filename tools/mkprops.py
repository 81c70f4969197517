#!/usr/bin/env python3
# writes /verif/properties.jsonl (kept as a script so that the text stays readable)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe)))
O="src/oram.rs";R="src/rlwe.rs";G="src/rgsw.rs";D="src/decision_tree.rs";H="src/naive_hash.rs";K="src/codec.rs";L="src/lwe.rs";U="src/utils.rs";C="src/context.rs";A="src/params.rs"
p("C01","A single encrypted access behaves like one read or write of an array",
 "For a database of any power-of-two size of at least two, processing one encrypted read query returns an encryption of the item currently stored at the requested position and leaves every stored item unchanged. Processing one encrypted write query returns the item stored before the write, replaces exactly the addressed item by the written data and leaves all others unchanged. Any sequence of such accesses therefore behaves like the same sequence on a plain array.",
 ["inputs","histories"],"every database content, position, operation, written value and sequence of accesses, for all key and encryption randomness within the noise budget",
 "test_oram_one tries a read and a write at a handful of positions of one database; it never checks that other items survive or that histories compose at every position.",
 [O,D,G,R],[("process_one_mt / process_one_st: demultiplex the index into one selector per slot, sum selector x item",O),("update_db_mt / rw: cmux by operation, then by selector",O)],
 ["decryption of the response","decryption of every stored item after the access"])
p("C02","Several accesses answered in one round act as simultaneous accesses",
 "When several encrypted queries to pairwise distinct positions are processed in one round, response k is the item query k addressed, as it was before the round. After the round each position addressed by a write holds that write's data, and every other position, including those addressed by reads, is unchanged.",
 ["inputs","histories"],"every database, every list of queries to pairwise distinct positions with any mix of reads and writes",
 "test_oram_multi uses one query list of one kind; mixes of reads and writes, orders and untouched positions are not checked.",
 [O],[("process_multi: sum selectors and selected new values over the queries, then one cmux per slot",O)],
 ["decryption of each response","decryption of every stored item after the round"])
p("C03","A batched round answers each row and keeps all copies of an item equal",
 "Processing a batch with one query per row returns, for each row, the item at that row's queried column as it was before the round. After the round, an item addressed by a write holds the written data in every one of its hash positions, and all other items are unchanged in every position. Equality of all copies of each item is thereby preserved by every round.",
 ["inputs","histories"],"every hash table, row and column count, set of requested items (each read or written) and history of rounds",
 "test_oram_batch runs one random batch and inspects the responses of the requested items; consistency of the copies that were not addressed, over rounds, is not established.",
 [O,H],[("process_batch: per-row access, then consistency correction for every item",O),("correct_consistency",O)],
 ["decryption of each row's response","decryption of the whole table after each round"])
p("C04","Encrypted index bits select exactly one slot",
 "Encrypting an index below n bit by bit and demultiplexing a payload with those bits yields n ciphertexts, of which the one at the index encrypts the payload and all others encrypt zero. This holds for every power-of-two n of at least two, every index below n and every payload, including the default unit payload.",
 ["inputs","configurations"],"every n = 2^k with k >= 1, every index below n, every payload ciphertext",
 "test_demux checks n = 4 style sizes at a few indices; a wrong bit order at larger depth or a wrong branch for one index pattern is missed.",
 [D],[("bit_decomposed_rgsw: most significant bit first, an RGSW of the negated bit",D),("demux_with / demux_rec: left = b*bit, right = b - left, left outputs first",D)],
 ["decryption of every output ciphertext"])
p("C05","Hash tables give every item its own distinct positions",
 "A hash table for d items and h functions assigns to the h*d pairs of item and function h*d pairwise distinct positions that fill the range 0..h*d exactly. The checked lookup answers exactly for a function below h and an item below d, with the same position as the unchecked lookup, and nothing otherwise. Turning a position into row and column for a given width is the inverse of row times width plus column, with the column below the width.",
 ["inputs","configurations"],"every h >= 1, d and width >= 1, every shuffle, every function and item number in and out of range",
 "test_naive_hash uses one function and 16 items and checks ranges only; distinctness over several functions is never checked.",
 [H],[("NaiveHash::new: shuffle of 0..h*d",H),("hash / hash0 / hash1 / hash2 / checked_hash / hash_to_tuple",H)],
 ["values returned for every item and function"])
p("C06","Every requested item of a batch gets its own row, or the request fails",
 "Mapping a list of distinct item numbers to database rows assigns each item exactly one row, distinct from the rows of all other items, together with a column such that row and column are one of that item's hash positions. If the procedure cannot place some item it fails loudly rather than silently dropping that item. Rows not in the result carry no request.",
 ["inputs"],"every hash table, width and list of distinct items",
 "test_naive_hash_to_mapping maps one item with one function; collisions, which are where items get lost, are not exercised.",
 [H,O],[("NaiveHash::hash_to_mapping: greedy assignment, panic when all slots are taken",H)],
 ["the returned map, or the panic"])
p("C07","Queries reveal nothing through their shape and are always freshly encrypted",
 "All queries for the same database geometry and parameters consist of the same number of ciphertexts of the same shapes, whatever the index, operation or data, and a batch always contains one query per row, also for rows without a request. Every ciphertext in a query is a fresh encryption under the client key: no component is left unencrypted, trivially encrypted or shared between queries.",
 ["inputs","histories"],"every index, operation, data value and set of requested items, for every geometry",
 "No test looks at the queries themselves; a plaintext or skipped component would still give correct answers.",
 [O,D,R],[("make_read_query / make_write_query: bits, operation flag, data, each encrypted",O),("gen_read_query_batch / gen_write_query_batch: dummy queries for idle rows",O),("bit_decomposed_rgsw: encrypts every bit",D)],
 ["sizes, contents and decryptions of every query component"])
p("C08","The initial database stores each item at all of its hash positions",
 "Setting up a database returns the plaintext items together with an encrypted table of the requested numbers of rows and columns in which, for every item and every hash function, the table entry at that hash position decrypts to that item. The number of items is rows times columns divided by the number of hash functions, also when it exceeds the number of separately encrypted items.",
 ["inputs","configurations"],"every geometry, number of hash functions and hash table; more items than the internal limit on unique encryptions",
 "The tests use few items and read back only some of them; positions under the second and later hash functions and item counts above the limit are not checked.",
 [O,H],[("gen_dummy_database",O),("setup_random_oram",O)],
 ["decryption of every table entry against the returned items"])
p("C09","Plaintext encoding is exactly inverted by decoding despite bounded noise",
 "For every power-of-two plaintext modulus t from 2 to 2^63 and every message below t, decoding the encoding perturbed by any error of magnitude below half the scaling factor returns the message, for single values and coefficientwise for polynomials. Messages not below t, and moduli that are not powers of two, are rejected. The reported modulus, its bit length and the reported largest tolerable error agree with this behaviour.",
 ["inputs","configurations"],"all moduli 2^1..2^63, all messages, all errors below half the scaling factor, all polynomial lengths",
 "test_codec style tests use one modulus and random messages with little or no error; the rounding boundaries and wrap-around at the top message are not reached.",
 [K],[("Codec::encode / decode / poly_encode / poly_decode",K),("Codec::new, largest_error, pt_modulus, pt_modulus_bits",K)],
 ["encoded and decoded values"])
p("C10","Ternary encoding is inverted by decoding to the nearest third",
 "Encoding one of 0, 1, -1 places it at 0, one third or two thirds of the ciphertext modulus, and decoding the encoding perturbed by any error noticeably below a sixth of the modulus returns the same value, for single values and coefficientwise for polynomials. Any other input to the ternary encoding is rejected.",
 ["inputs"],"all three messages, all errors below one sixth of the modulus (up to floating-point rounding of the constants), all other inputs, all polynomial lengths",
 "The test encodes random ternary values with no error.",
 [K],[("Codec::ternary_encode / ternary_decode / poly_ternary_encode / poly_ternary_decode",K)],
 ["encoded and decoded values"])
p("C11","Substituting X by X^k in a polynomial is exact",
 "For every power-of-two size n, odd k below 2n and polynomial, the substitution returns the polynomial with X replaced by X^k modulo X^n+1: the coefficient of X^i moves to X^(ik mod n) with the sign given by how often X^n is crossed. It does not depend on previous content of the output, and an even k is rejected.",
 ["inputs"],"every n = 2^j, odd k and polynomial",
 "test_eval_poly tries one size with a few exponents.",
 [U,R],[("eval_x_k / eval_x_k_in_memory",U)],
 ["output coefficients"])
p("C12","Linear operations on ciphertexts act exactly on mask and body",
 "Addition, subtraction, division by a monomial, polynomial multiplication (by the schoolbook method exactly, by the Fourier method up to rounding) and negation of a binary value act on mask and body of an RLWE ciphertext exactly as the corresponding operation on polynomials modulo X^n+1, so that decryption commutes with them. Operations on only the mask or only the body leave the other part unchanged, and the other operand is never modified. The copying operations reproduce their source and clearing gives the zero ciphertext.",
 ["inputs"],"every polynomial size, ciphertext, operand and monomial degree",
 "Unit tests exercise negation and the Fourier product on one size; most of these operations have no direct test and one was wrong.",
 [R],[("update_with_add/sub, update_{mask,body}_with_{add,sub,mul,mul_with_buf}, update_with_monomial_div",R),("not, not_in_place, clear, fill_with_copy, fill_with_tensor",R),("naive_update_with_mul(_acc), fourier_update_with_mul",R)],
 ["mask and body coefficients after the operation"])
p("C13","Decryption inverts encryption for RLWE and LWE",
 "For every message the matching decryption of a fresh encryption returns the message: with encoding, ternary encoding, no encoding (up to the noise) or as a constant, for RLWE and for LWE, and an LWE key converted to an RLWE key decrypts consistently. The caller's plaintext and key are left unmodified. Fresh encryptions carry noise of the configured magnitude.",
 ["inputs","configurations"],"every message, key, polynomial size, plaintext modulus and noise level within the decryption bound",
 "Tests encrypt random binary or ternary messages under one parameter set.",
 [R,L,C],[("encode_encrypt_rlwe / ternary_encrypt_rlwe / encrypt_rlwe / encrypt_constant_rlwe and the decryptions",R),("encrypt_lwe / encode_encrypt_lwe / decode_decrypt_lwe / to_rlwe_sk",L)],
 ["decrypted messages, plaintext arguments after the call"])
p("C14","RGSW ciphertexts multiply, select and add correctly",
 "An RGSW encryption of a small scalar or polynomial m has, per level, the two rows of the gadget encryption of m, and its external product with an RLWE ciphertext of p adds an encryption of m*p to the output. With a bit b, the multiplexer outputs the first ciphertext for b = 0 and the second for b = 1 without modifying its inputs, whatever the output held before. The encryption of the negated key, sums of RGSW ciphertexts and row extraction are consistent with this.",
 ["inputs","configurations"],"every message, RLWE ciphertext, decomposition base and level count within the noise budget, every previous content of output buffers",
 "test_external_product and test_cmux check one parameter set with one message each and zero-initialised outputs.",
 [G,R],[("external_product*, cmux*, update_with_add, get_nth_row, get_last_row",G),("encrypt_rgsw, encrypt_constant_rgsw, encrypt_constant_rgsw_vec, neg_gsw",R)],
 ["phases of the rows, decryption of the products"])
p("C15","Key switching and substitution preserve the message",
 "Switching a ciphertext from one key to another yields an encryption of the same message under the target key, with the standard and the Fourier-domain key and with the key converted to RGSW form, and for every decomposition base and level count that approximates the modulus well enough, odd and even level counts alike. The substitution with exponent k yields an encryption of the message with X replaced by X^k. Previous content of the output does not matter and the input ciphertext is unchanged.",
 ["inputs","configurations"],"every message, pair of keys, decomposition parameters, odd exponent and previous output content",
 "Tests use one parameter set (one parity of the level count) and one exponent each.",
 [R,G],[("fill_with_keyswitch_key / fill_with_subs_keyswitch_key / keyswitch_ciphertext / subs / into_fourier",R),("from_keyswitch_key, keyswitch_ciphertext(_with_buf)",G)],
 ["decryption under the target key"])
p("C16","Trace and expansion turn packed ciphertexts into RGSW ciphertexts",
 "The trace of a ciphertext encrypts the polynomial size times the constant coefficient of its message and zero elsewhere, with standard and Fourier keys alike. Expanding the level-wise ciphertexts made for a bit yields an RGSW ciphertext of that bit, through the standard, the Fourier and the sample-extraction route alike.",
 ["inputs","configurations"],"every message and bit, polynomial size and parameter set within the noise budget",
 "test_trace1, test_expand and test_expand_slow use one parameter set.",
 [R],[("trace1 / trace1_fourier / gen_all_subs_ksk(_fourier)",R),("expand / expand_fourier / expand_slow / decomposed_rlwe_to_rgsw / make_decomposed_rlwe_ct(2)",R)],
 ["decryption of the trace, rows and external products of the expanded ciphertext"])
p("C17","Coefficients can be extracted to LWE and packed back to RLWE",
 "Extracting coefficient k of an RLWE ciphertext gives an LWE ciphertext whose phase under the same key is exactly coefficient k of the RLWE phase, for every k. Converting an LWE ciphertext to RLWE yields a ciphertext whose constant coefficient encrypts the same message and whose other coefficients encrypt zero, whichever decomposition parameters key switching is configured with.",
 ["inputs","configurations"],"every ciphertext, coefficient index, message, and key-switch parameters different from the default ones",
 "test_sample_extract uses coefficient 0 and test_lwe_to_rlwe one message under parameters where different decompositions coincide.",
 [L],[("fill_with_sample_extract / fill_with_const_sample_extract",L),("LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key, conv_lwe_to_rlwe",L)],
 ["LWE and RLWE phases"])
p("C18","Plaintext decision trees are traversed, indexed and measured correctly",
 "Evaluating a tree on a feature vector returns the label of the leaf reached by going left exactly when the tested feature is at most the threshold, and zero where a subtree is missing. Indexing numbers the internal nodes 0, 1, 2 and so on in depth-first left-to-right order, flattening lists them in that order with their fields, and the counts of leaves, internal nodes, depth and the largest feature index are those of the tree. Truncation removes exactly the subtrees without a non-zero leaf and preserves every evaluation; complete trees of depth d have 2^d leaves, the first labelled 1 and the others 0.",
 ["inputs"],"every tree shape (including missing children and unbalanced trees) and feature vector",
 "Tests use small complete trees.",
 [D],[("eval_node, fix_index, flatten_tree, count_*, max_feature_index, trunc_tree, gen_full_tree",D)],
 ["returned labels, indices, lists and counts"])
p("C19","Encrypted decision-tree evaluation equals plaintext evaluation",
 "For every tree and feature vector the encrypted evaluation decrypts, bit by bit, to the label that plaintext evaluation returns. The encrypted comparison yields one exactly when the feature is at most (or, for equality, equal to) the threshold, for every feature and threshold below the polynomial size, and choice bits are matched to nodes in depth-first order also for unbalanced trees.",
 ["inputs"],"every tree (any shape, labels, thresholds, features) and feature vector within the polynomial size",
 "test_pdte style tests use a few complete trees with few labels; thresholds at the ends of the range and unbalanced trees are not covered.",
 [D,R],[("encrypt_feature_vector, compare_expand, EncNode::new, EncNode::eval, max_leaf, simulate",D),("less_eq_than, eq_to",R)],
 ["decrypted prediction, decrypted comparison bits"])
p("C20","Configured parameters reach every component unchanged",
 "Expanding a list of parameter groups gives exactly one server configuration for every pair of an ORAM setting and a TFHE setting of the same group, in order, with all values preserved. A context created from TFHE parameters uses each configured value (noise, polynomial size, the three decomposition bases and level counts, plaintext modulus) in its own role, and the keys, plaintexts and ciphertext sizes it generates follow them.",
 ["configurations"],"every parameter list and every combination of parameter values",
 "The default parameters use equal values for different roles, so swapped fields are invisible to the tests.",
 [A,C,R,L],[("ServerParams::from_input_params_list",A),("Context::new and the gen_* functions",C),("neg_gsw, gen_all_subs_ksk*, fill_with_keyswitching_key",R)],
 ["fields and sizes of the created objects"])
p("C21","With secure seeding on, all randomness is seeded from system entropy",
 "When secure seeding is requested, the generators for public randomness, secret keys and encryption noise are each seeded with entropy from the operating system, independently of each other, so that two contexts give different keys and ciphertexts. When it is not requested, runs are reproducible. Secret keys are binary in both cases.",
 ["configurations","histories"],"every parameter set with the flag on or off and every number of contexts",
 "No test checks the seeds; a constant seed passes every functional test.",
 [C],[("Context::new",C),("gen_rlwe_sk / gen_lwe_sk",C)],
 ["keys and ciphertexts produced by independently created contexts"])
p("C22","Reported noise is the size of the largest error coefficient",
 "The noise reported for a ciphertext and a plaintext is the base-two logarithm of the largest absolute difference, over all coefficients, between the phase and the (encoded) plaintext, taken as a signed value. The variants that encode the plaintext first use the same encoding as the matching encryption, and the RGSW variant averages this over the levels.",
 ["inputs"],"every ciphertext, plaintext, codec and error pattern other than the single extreme value of the signed range",
 "test_compute_noise only checks that the noise is below a bound; an underestimate passes, and the ternary variant has no test and was wrong.",
 [R,G],[("compute_noise / compute_noise_encoded / compute_noise_ternary",R),("compute_noise_rgsw1",G)],
 ["returned value"])
p("C23","Bit length, transposition and bit packing helpers are exact",
 "The integer logarithm returns the largest k with 2^k at most its positive argument. Transposing a non-empty rectangular table returns the table with rows and columns exchanged. Packing a binary plaintext returns the number whose bit i is coefficient i for the first 64 coefficients, and rejects coefficients that are not binary.",
 ["inputs"],"every positive integer, every rectangular table, every plaintext length",
 "Tests touch single values only.",
 [U],[("log2, transpose, pt_to_lossy_u64",U)],
 ["returned values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import sys
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
    assert x['statement'].count('. ')<=2,(x['id'])
