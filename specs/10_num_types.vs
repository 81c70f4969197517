#module num_types
#keep num_types::x
#keep Scalar.Zero
#keep Scalar.One
#keep Complex.Zero
#keep SignedScalar.Zero
#keep SignedScalar.One
#fn Scalar.Zero::zero
#sig
ensures r == 0,
#fn Scalar.One::one
#sig
ensures r == 1,
#fn SignedScalar.Zero::zero
#sig
ensures r == 0,
#fn SignedScalar.One::one
#sig
ensures r == 1,
#fn Complex.Zero::zero
#sig
ensures r.slot() == crate::ccf::Slot::Zero,
