#module context
#ghost
use crate::ring::*;
use crate::cc::*;
use crate::ccf::*;
impl FftBuffer { pub open spec fn n(&self) -> nat { self.fft.n@ } }
impl Context {
    pub open spec fn n(&self) -> nat { self.poly_size.0 as nat }
    // what every use of a context relies on; all of it is established by new
    pub open spec fn wf(&self) -> bool {
        &&& self.codec.wf() && 0 < self.poly_size.0 && 2 * self.poly_size.0 <= usize::MAX
    }
    // everything but the random generators
    pub open spec fn same(&self, o: &Context) -> bool {
        &&& self.std == o.std && self.poly_size == o.poly_size && self.base_log == o.base_log && self.level_count == o.level_count
        &&& self.ks_base_log == o.ks_base_log && self.ks_level_count == o.ks_level_count
        &&& self.negs_base_log == o.negs_base_log && self.negs_level_count == o.negs_level_count && self.codec == o.codec
    }
}
// a buffer behind a mutex: exclusive scratch space of the same size, contents unknown (the lock is erased)
#[verifier::external_body]
pub fn lock_buf(b: &FftBuffer) -> (r: FftBuffer) ensures r.n() == b.n() { unimplemented!() }
#fn FftBuffer::new
#sig
requires fft_size(poly_size.0 as nat),
ensures r.n() == poly_size.0,
#drop Context.Display
#fn Context::new
#opt world
#at start
let mut __w: Ghost<Set<u128>> = Ghost(Set::empty());
#sig
requires 2 <= tfhe_params.plaintext_modulus, is_pow2(tfhe_params.plaintext_modulus as nat), 0 < tfhe_params.polynomial_size, 2 * tfhe_params.polynomial_size <= usize::MAX,
ensures
    // each configured value in its own role
    r.wf(),
    r.std.0 == tfhe_params.standard_deviation,
    r.poly_size.0 == tfhe_params.polynomial_size,
    r.base_log.0 == tfhe_params.base_log,
    r.level_count.0 == tfhe_params.level_count,
    r.ks_base_log.0 == tfhe_params.key_switch_base_log,
    r.ks_level_count.0 == tfhe_params.key_switch_level_count,
    r.negs_base_log.0 == tfhe_params.negs_base_log,
    r.negs_level_count.0 == tfhe_params.negs_level_count,
    r.codec.t() == tfhe_params.plaintext_modulus,
    // secure seeding: all four roots of randomness carry system entropy and are pairwise distinct draws
    tfhe_params.secure_seed ==> entropic(r.random_generator.root()) && entropic(r.secret_generator.root())
        && entropic(r.encryption_generator.root()) && entropic(r.encryption_generator.noise_root())
        && r.random_generator.root() != r.secret_generator.root()
        && r.random_generator.root() != r.encryption_generator.root()
        && r.random_generator.root() != r.encryption_generator.noise_root()
        && r.secret_generator.root() != r.encryption_generator.root()
        && r.secret_generator.root() != r.encryption_generator.noise_root()
        && r.encryption_generator.root() != r.encryption_generator.noise_root(),
    // otherwise everything is derived from one constant
    !tfhe_params.secure_seed ==> r.random_generator.root() == 0 && r.secret_generator.root() == 0
        && r.encryption_generator.root() == 0 && r.encryption_generator.noise_root() == 0,
#fn Context::lwe_dim
#sig
ensures r.0 == self.poly_size.0,
#fn Context::lwe_size
#sig
requires self.poly_size.0 < usize::MAX,
ensures r.0 == self.poly_size.0 + 1,
#fn Context::plaintext_count
#sig
ensures r.0 == self.poly_size.0,
#fn Context::gen_binary_pt
#sig
ensures r.sv().len() == old(self).n(), is_bin(r.sv()), final(self).same(old(self)),
    final(self).secret_generator == old(self).secret_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).random_generator.root() == old(self).random_generator.root(),
#fn Context::gen_pt
#sig
requires old(self).codec.wf(),
ensures r.sv().len() == old(self).n(), forall|i: int| 0 <= i < r.sv().len() ==> (#[trigger] r.sv()[i]) < old(self).codec.t(), final(self).same(old(self)),
    final(self).secret_generator == old(self).secret_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).random_generator.root() == old(self).random_generator.root(),
#at start
proof { self.codec.lemma_params(); }
#fn Context::gen_scalar_binary_pt
#sig
ensures r.0 == 0 || r.0 == 1, final(self).same(old(self)),
    final(self).secret_generator == old(self).secret_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).random_generator.root() == old(self).random_generator.root(),
#fn Context::gen_demuxed_pt
#sig
requires i < old(self).n(),
ensures r.sv() == pmono(old(self).n(), i as int, 1), *final(self) == *old(self),
#at ret
assert(__r.sv() =~= pmono(self.n(), i as int, 1));
#fn Context::gen_ternary_ptxt
#sig
ensures r.sv().len() == old(self).n(), final(self).same(old(self)),
    forall|i: int| 0 <= i < r.sv().len() ==> (#[trigger] r.sv()[i] == 0 || r.sv()[i] == 1 || r.sv()[i] == u64::MAX),
    final(self).secret_generator == old(self).secret_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).random_generator.root() == old(self).random_generator.root(),
#fn Context::gen_unit_pt
#sig
requires 0 < self.n(),
ensures r.sv() == pconst(self.n(), 1),
#at ret
assert(__r.sv() =~= pconst(self.n(), 1));
#fn Context::gen_scalar_unit_pt
#sig
ensures r.0 == 1,
#fn Context::gen_zero_pt
#sig
ensures r.sv() == pzero(self.n()),
#at ret
assert(__r.sv() =~= pzero(self.n()));
#fn Context::gen_scalar_zero_pt
#sig
ensures r.0 == 0,
#fn Context::gen_rlwe_sk
#sig
requires old(self).wf(),
ensures r.wf(), r.n() == old(self).n(), is_bin(r.sv()), final(self).same(old(self)),
    final(self).random_generator == old(self).random_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).secret_generator.root() == old(self).secret_generator.root(),
#fn Context::gen_lwe_sk
#sig
ensures r.sv().len() == old(self).n(), is_bin(r.sv()), final(self).same(old(self)),
    final(self).random_generator == old(self).random_generator, final(self).encryption_generator == old(self).encryption_generator,
    final(self).secret_generator.root() == old(self).secret_generator.root(),
#fn Context::gen_fft_ctx
#sig
requires fft_size(self.n()),
ensures r.n() == self.n(),
