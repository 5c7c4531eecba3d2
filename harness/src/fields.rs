//! Fields the gadgets are exercised over: the crate's own Fr (BLS12-381), the
//! field of the real application (Pallas scalar), and two small primes that make
//! capacity-driven code paths (grouping, wrap-around) reachable with small numbers.
pub use validate_btc_header::util::scalar::Fr;
pub type Pal = <nova_snark::provider::PallasEngine as nova_snark::traits::Engine>::Scalar;
mod f61 {
    use ff::PrimeField;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "2305843009213693951"]
    #[PrimeFieldGenerator = "37"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct F61([u64; 1]);
}
mod f127 {
    use ff::PrimeField;
    #[derive(PrimeField)]
    #[PrimeFieldModulus = "170141183460469231731687303715884105727"]
    #[PrimeFieldGenerator = "43"]
    #[PrimeFieldReprEndianness = "little"]
    pub struct F127([u64; 2]);
}
pub use f127::F127;
pub use f61::F61;
