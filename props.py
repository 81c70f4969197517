# per property: modules verified, the functions it rests on, level, trusted base
MODULE_DEPS = {"codec": ["utils"], "utils": ["num_types"], "naive_hash": [], "params": ["num_types"], "cc": ["utils", "codec", "params", "context", "rlwe", "rgsw", "lwe"]}
CC = "contracts assumed on what is left of concrete-core 1.0.2 (random generators and seeders, derived Clone, LWE body/mask accessors (unsafe casts), GGSW allocation, the Fourier transform; specs/02_cc.vs, 04_fft.vs), on std slices (vstd) and on concrete-csprng / rand / rayon; Rust compiler; Verus and Z3; the extractor in extract/ (what it drops is listed in DESIGN.md)"
PROPS = {}
def p(i, modules, functions, level, why, extra=()):
    PROPS[i] = dict(modules=modules, functions=functions, level=level, bounded_why=why, trusted=[CC] + list(extra))
N = "no contract yet for the functions this property rests on"
for i in range(1, 24): p("C%02d" % i, [], [], "exploration", N)
p("C09", ["codec"], ["codec::Codec::" + x for x in ("new", "largest_error", "pt_modulus", "pt_modulus_bits", "encode", "decode", "poly_encode", "poly_decode")], "proof", "replay of failed obligations")
p("C10", ["codec"], ["codec::Codec::" + x for x in ("ternary_encode", "ternary_decode", "poly_ternary_encode", "poly_ternary_decode")], "proof", "replay of failed obligations")
NH = ["naive_hash::NaiveHash::" + x for x in ("new", "checked_hash", "hash", "hash0", "hash1", "hash2", "input_domain", "h_count", "output_domain")]
p("C05", ["naive_hash"], NH + ["naive_hash::NaiveHash::hash_to_tuple"], "proof", "replay of failed obligations")
p("C06", ["naive_hash"], NH + ["naive_hash::NaiveHash::hash_to_mapping", "naive_hash::NaiveHash::hash_to_tuple"], "proof", "replay of failed obligations")
p("C11", ["utils"], ["utils::eval_x_k", "utils::eval_x_k_in_memory"], "proof", "replay of failed obligations")
p("C23", ["utils"], ["utils::log2", "utils::transpose", "utils::pt_to_lossy_u64"], "proof", "replay of failed obligations")

CX = ["utils", "codec", "params", "context", "rlwe", "rgsw", "lwe"]   # these five depend on each other and are always verified together
CTX = ["context::Context::" + x for x in ("new", "lwe_dim", "lwe_size", "plaintext_count", "gen_binary_pt", "gen_pt", "gen_scalar_binary_pt", "gen_demuxed_pt", "gen_ternary_ptxt", "gen_unit_pt", "gen_scalar_unit_pt", "gen_zero_pt", "gen_scalar_zero_pt", "gen_rlwe_sk", "gen_lwe_sk")]
p("C20", CX, ["params::ServerParams::from_input_params_list"] + CTX + ["dep_plain::PlaintextList::allocate", "dep_glwe_key::GlweSecretKey::generate_binary", "dep_lwe_key::LweSecretKey::generate_binary"], "proof", "replay of failed obligations, and the sizes of what the library generates from a context")
p("C21", CX, ["context::Context::new", "context::Context::gen_rlwe_sk", "context::Context::gen_lwe_sk", "context::Context::gen_binary_pt", "rlwe::RLWESecretKey::generate_binary", "lwe::LWESecretKey::generate_binary", "dep_glwe_key::GlweSecretKey::generate_binary", "dep_lwe_key::LweSecretKey::generate_binary"], "proof", "replay of failed obligations; that differently seeded generators give different output is sampled")
CT = "rlwe::RLWECiphertext::"
# functions of concrete-core, verified from its source
DP, DS, DI, GK, LK = "dep_poly::Polynomial::", "dep_decomposer::SignedDecomposer::", "dep_iter::", "dep_glwe_key::GlweSecretKey::", "dep_lwe_key::LweSecretKey::"
DEC = [DS + x for x in ("new", "closest_representable", "fill_tensor_with_closest_representable", "decompose", "decompose_tensor")] + [DI + x for x in ("TensorSignedDecompositionIter::next_term", "SignedDecompositionIter::next", "decompose_one_level")]
DENC = [GK + x for x in ("fill_glwe_mask_and_body_for_encryption", "encrypt_glwe", "decrypt_glwe")] + [DP + "update_with_wrapping_" + x for x in ("add_multisum", "sub_multisum", "add_mul", "sub_mul")]
DLWE = [LK + x for x in ("fill_lwe_mask_and_body_for_encryption", "encrypt_lwe", "decrypt_lwe")] + ["dep_lwe_ct::LweMask::compute_multisum"]
DGSW = [GK + x for x in ("encrypt_constant_ggsw", "encrypt_constant_ggsw_row", "encrypt_glwe", "fill_glwe_mask_and_body_for_encryption")]
DT_ = "dep_tensor::Tensor::"
TEN = [DT_ + x for x in ("allocate", "from_container", "into_container", "as_container", "as_mut_container", "len", "first", "first_mut", "get_sub", "get_sub_mut", "get_element", "get_element_mut", "fill_with_copy", "fill_with_element")]
TAR = [DT_ + x for x in ("update_with_wrapping_add", "update_with_wrapping_sub", "update_with_wrapping_scalar_mul", "update_with_wrapping_neg", "reverse", "rotate_left")]
PV = ["dep_poly::Polynomial::" + x for x in ("allocate", "from_container", "polynomial_size", "as_view", "as_mut_view")]
PL = ["dep_poly_list::PolynomialList::" + x for x in ("from_container", "polynomial_count", "get_polynomial", "get_mut_polynomial")]
GCT = ["dep_glwe_ct::GlweCiphertext::" + x for x in ("allocate", "from_container", "as_view", "as_mut_view", "size", "mask_size", "polynomial_size", "get_body", "get_mask", "get_mut_body", "get_mut_mask", "get_body_and_mask", "get_mut_body_and_mask")] + ["dep_glwe_body::GlweBody::as_polynomial", "dep_glwe_body::GlweBody::as_mut_polynomial", "dep_glwe_mask::GlweMask::as_polynomial_list", "dep_glwe_mask::GlweMask::as_mut_polynomial_list"]
PT = ["dep_plain::PlaintextList::" + x for x in ("allocate", "from_container", "from_tensor", "count", "as_polynomial", "as_mut_polynomial")]
GKY = ["dep_glwe_key::GlweSecretKey::" + x for x in ("generate_binary", "binary_from_container", "key_size", "polynomial_size", "as_polynomial_list")]
LKY = ["dep_lwe_key::LweSecretKey::generate_binary", "dep_lwe_key::LweSecretKey::key_size"]
LCT = ["dep_lwe_ct::LweCiphertext::allocate", "dep_lwe_ct::LweCiphertext::lwe_size"]
GLWE = TEN + TAR + PV + PL + GCT     # storage and views of GLWE ciphertexts
DEXT = ["dep_glwe_ct::GlweCiphertext::fill_lwe_with_sample_extraction", "dep_lwe_ct::LweCiphertext::fill_with_glwe_sample_extraction"]
p("C12", CX, [CT + x for x in ("allocate", "clear", "fill_with_copy", "fill_with_tensor", "update_mask_with_add", "update_mask_with_sub", "update_mask_with_mul", "update_mask_with_mul_with_buf", "update_body_with_add", "update_body_with_sub", "update_body_with_mul", "update_body_with_mul_with_buf", "update_with_add", "update_with_sub", "update_with_monomial_div", "less_eq_than", "eq_to", "not", "not_in_place")] + ["rlwe::fourier_update_with_mul", "rlwe::fourier_update_with_mul_acc", "rlwe::naive_update_with_mul", "rlwe::naive_update_with_mul_acc"] + [DP + x for x in ("update_with_wrapping_add", "update_with_wrapping_sub", "update_with_wrapping_unit_monomial_div", "fill_with_wrapping_mul")] + GLWE, "proof", "replay of failed obligations; the rounding of the Fourier products (the contract is on the exact product) is checked only here", ["Fourier-domain products are specified as exact ring products; the rounding of the f64 FFT is outside the proof and bounded only by the harness"])
SK, KK = "rlwe::RLWESecretKey::", "rlwe::RLWEKeyswitchKey::"
ENC = [SK + x for x in ("generate_binary", "zero", "fill_with_tensor", "encrypt_rlwe", "encode_encrypt_rlwe", "ternary_encrypt_rlwe", "encrypt_constant_rlwe", "decrypt_rlwe", "decrypt_decode_rlwe", "ternary_decrypt_rlwe", "polynomial_size")]
LW = ["lwe::LWESecretKey::" + x for x in ("generate_binary", "key_size", "encrypt_lwe", "encode_encrypt_lwe", "decrypt_lwe", "decode_decrypt_lwe", "to_rlwe_sk")]
LC = ["lwe::LWECiphertext::" + x for x in ("allocate", "as_tensor", "clear", "fill_with_const_sample_extract", "fill_with_sample_extract", "fill_with_tensor", "get_body", "get_mask", "get_mut_body", "get_mut_mask", "lwe_size")]
RG = ["rgsw::RGSWCiphertext::" + x for x in ("allocate", "polynomial_size", "decomposition_level_count", "decomposition_base_log", "ciphertext_count", "update_with_add", "external_product_with_buf_glwe", "external_product_with_buf", "external_product", "cmux", "cmux_with_buf", "get_last_row", "get_nth_row")]
CODEC = ["codec::Codec::" + x for x in ("encode", "decode", "poly_encode", "poly_decode", "ternary_encode", "ternary_decode", "poly_ternary_encode", "poly_ternary_decode")]
NOISE = "the noise of a fresh encryption is assumed bounded (symbolically) by the configured standard deviation's bound; that it has that size is sampled"
FFT = "products in the Fourier domain are specified as exact ring products; the f64 rounding is outside the proof and bounded only by the harness"
p("C13", CX, ENC + LW + LC + CODEC + DENC + DLWE + GLWE + PT + GKY + LKY + LCT, "proof", "replay of failed obligations; the magnitude of the noise is sampled here", [NOISE])
p("C14", CX, RG + [SK + x for x in ("encrypt_constant_rgsw", "encrypt_rgsw", "encrypt_constant_rgsw_vec", "neg_gsw")] + DGSW + DEC + GLWE + PT, "proof", "replay of failed obligations; the f64 rounding of the product is checked only here", [NOISE, FFT])
p("C17", CX, LC + ["lwe::LWEtoRLWEKeyswitchKey::allocate", "lwe::LWEtoRLWEKeyswitchKey::fill_with_keyswitching_key", "lwe::conv_lwe_to_rlwe", "lwe::LWESecretKey::to_rlwe_sk"] + DEXT + DEC + GLWE + PT + LCT, "proof", "replay of failed obligations", [NOISE])
p("C22", CX, ["rlwe::compute_noise", "rlwe::compute_noise_ternary", "rlwe::compute_noise_encoded", "rgsw::compute_noise_rgsw1"] + [SK + "decrypt_rlwe", "rgsw::RGSWCiphertext::get_nth_row", "context::Context::gen_unit_pt", "codec::Codec::poly_encode", "codec::Codec::poly_ternary_encode"], "proof", "replay of failed obligations; the values of the f64 operations", ["f64 conversion, log2, addition and division are uninterpreted functions: the contract fixes which exact integer the logarithm is taken of and how the levels are averaged"])
FK = ["rlwe::FourierRLWECiphertext::new", "rlwe::FourierRLWECiphertext::backward_as_torus", KK + "into_fourier", "rlwe::FourierRLWEKeyswitchKey::keyswitch_ciphertext", "rlwe::FourierRLWEKeyswitchKey::subs", "rlwe::FourierRLWEKeyswitchKey::get_subs_k", "rlwe::pre_fourier_update_with_multiply_accumulate", "rlwe::pre_fourier_update_with_two_multiply_accumulate"]
p("C15", CX, [KK + x for x in ("allocate", "decomposition_base_log", "decomposition_level_count", "polynomial_size", "fill_with_subs_keyswitch_key", "fill_with_keyswitch_key", "keyswitch_ciphertext", "subs", "get_keyswitch_key", "get_subs_k")] + ["rgsw::RGSWCiphertext::" + x for x in ("from_keyswitch_key", "keyswitch_ciphertext", "keyswitch_ciphertext_with_buf")] + ["utils::eval_x_k"] + FK + DEC + DENC + GLWE + PT, "proof", "replay of failed obligations; the f64 rounding of the products", [NOISE, FFT])
p("C16", CX, [CT + "trace1", "rlwe::gen_all_subs_ksk", "rlwe::expand", "rlwe::expand_slow", "rlwe::decomposed_rlwe_to_rgsw", "rlwe::make_decomposed_rlwe_ct", "rlwe::make_decomposed_rlwe_ct2", SK + "neg_gsw", KK + "subs", "lwe::conv_lwe_to_rlwe", CT + "trace1_fourier", "rlwe::gen_all_subs_ksk_fourier", "rlwe::expand_fourier"] + FK + DEC + GLWE + PT, "proof", "replay of failed obligations; the f64 rounding of the products", [NOISE, FFT])

DX = CX + ["decision_tree"]
DT, NO = "decision_tree::", "decision_tree::Node::"
p("C18", DX, [DT + "Node.Default::default", DT + "Node.Clone::clone"] + [NO + x for x in ("inner_value", "new_with_depth", "fix_index", "flatten", "eval", "count_leaf", "count_internal", "count_depth", "max_feature_index")] + [DT + x for x in ("fix_index", "flatten_tree", "eval_node", "gen_full_tree", "trunc_tree")], "proof", "replay of failed obligations; serialisation is not part of the property")
EP = ["rgsw::RGSWCiphertext::external_product_with_buf", "rgsw::RGSWCiphertext::external_product_with_buf_glwe", CT + "update_with_add", CT + "update_with_sub", CT + "get_mut_body", "codec::Codec::encode"]
p("C04", DX, [DT + x for x in ("bit_decomposed_rgsw", "demux_with", "demux", "demux_rec")] + EP + [SK + "encrypt_constant_rgsw", "utils::log2"], "proof", "replay of failed obligations; the f64 rounding of the products", [NOISE, FFT])
p("C19", DX, [DT + x for x in ("encrypt_feature_vector", "compare_expand", "EncNode::new", "EncNode::eval", "EncNode::max_leaf", "new_enc_node", "eval_enc_node", "decrypt_and_recompose", "simulate", "SimulationResult::new")] + ["params::TFHEParameters.Default::default"] + [CT + "less_eq_than", CT + "eq_to", SK + "neg_gsw", SK + "encrypt_rlwe", SK + "decrypt_decode_rlwe", "rlwe::expand_fourier", "rlwe::gen_all_subs_ksk_fourier", CT + "trace1_fourier"] + FK + EP + [NO + x for x in ("flatten", "eval")], "proof", "replay of failed obligations; the f64 rounding of the products is only sampled, and the parallel branch of simulate is proved with rayon's map taken as an ordered map", [NOISE, FFT])

OX = DX + ["naive_hash", "oram"]
OR, SV, CL = "oram::", "oram::Server::", "oram::Client::"
DMX = [DT + x for x in ("bit_decomposed_rgsw", "demux_with", "demux_rec")]
MK = DMX[:1] + [CL + x for x in ("gen_enc_op", "enc_data_rlwe", "make_read_query", "make_write_query", "gen_read_query_one", "gen_read_query_batch", "gen_write_query_one", "gen_write_query_batch")] + ["oram::ClientQuery::into_rw_flag"]
SEL = DMX[1:] + [OR + x for x in ("FftBufferPool::new", "rw", "process_one_mt", "process_one_st")] + EP + ["utils::transpose", "utils::log2", "rlwe::decomposed_rlwe_to_rgsw", "rgsw::RGSWCiphertext::cmux_with_buf", "rgsw::RGSWCiphertext::update_with_add"]
SETUP = [CL + x for x in ("new", "gen_neg_sk", "gen_dummy_database")] + [SV + x for x in ("new", "rows", "cols")] + [OR + "setup_random_oram", SK + "neg_gsw"]
LOCKS = "threads are sequentialised: rayon iterators run in order, mutexes and Arcs are erased (each access goes to the object they guard), so deadlock, poisoning and data races are outside the proof; a locked FFT buffer is scratch space of the same size"
BW = "replay of failed obligations; the f64 rounding of the products and real threads are only sampled"
p("C01", OX, MK + SEL + SETUP + [OR + "update_db_mt", OR + "update_db_st", SV + "process_one", SV + "decrypt_db"], "proof", BW, [NOISE, FFT, LOCKS])
p("C02", OX, MK + SEL + SETUP + [SV + "process_multi", SV + "decrypt_db"], "proof", BW, [NOISE, FFT, LOCKS])
p("C03", OX, MK + SEL + SETUP + NH + ["naive_hash::NaiveHash::hash_to_mapping", "naive_hash::NaiveHash::hash_to_tuple", OR + "update_db_mt", OR + "update_db_st", OR + "correct_consistency", SV + "process_batch", SV + "decrypt_db"], "proof", BW, [NOISE, FFT, LOCKS])
p("C07", OX, MK + [CL + "new", SK + "encrypt_constant_rgsw", SK + "encrypt_rlwe", SK + "encode_encrypt_rlwe", "naive_hash::NaiveHash::hash_to_mapping"] + DGSW, "proof", "replay of failed obligations; statistics of the ciphertexts are only sampled", ["a ciphertext counts as fresh when one of the encryption functions produced it from the next unused part of the generator's stream (a ghost fact only the contract of the generator's mask draw grants); that the generator's output is unpredictable is assumed"])
p("C08", OX, SETUP + NH + ["naive_hash::NaiveHash::hash_to_tuple", SK + "encode_encrypt_rlwe", SK + "encrypt_rlwe", "codec::Codec::poly_encode"], "proof", BW, [NOISE, LOCKS])
