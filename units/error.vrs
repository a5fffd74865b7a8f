//@file err crates/astro-run/src/types/error.rs
//@type-subst `std::io::Error` `VStdIoError`
#[verifier::external_body]
pub struct VStdIoError { e: u8 }
/// The crate's error type; error messages are not part of any property.
//@type err Error noclone
impl Error {
  #[verifier::external_body]
  pub fn error<T>(m: T) -> (r: Error) ensures r is Error { unimplemented!() }
  #[verifier::external_body]
  pub fn internal_runtime_error<T>(m: T) -> (r: Error) ensures r is InternalRuntimeError { unimplemented!() }
  #[verifier::external_body]
  pub fn workflow_config_error<T>(m: T) -> (r: Error) ensures r is WorkflowConfigError { unimplemented!() }
  #[verifier::external_body]
  pub fn init_error<T>(m: T) -> (r: Error) ensures r is InitError { unimplemented!() }
  #[verifier::external_body]
  pub fn unsupported_feature<T>(m: T) -> (r: Error) ensures r is UnsupportedFeature { unimplemented!() }
  pub fn failed(exit_code: usize) -> (r: Error) ensures r == Error::Failed(exit_code) { Error::Failed(exit_code) }
}
#[verifier::external]
impl core::fmt::Debug for Error { fn fmt(&self, _f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl VDisplay for Error { uninterp spec fn disp(&self) -> Seq<char>; }
pub type Result<T, E = Error> = core::result::Result<T, E>;
