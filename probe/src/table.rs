// @generated by tools/gen.py; do not edit
pub type F = fn(&[f64]) -> f64;
pub static FUNS: &[F] = &[
    |a| polymers::math::inverse_langevin(&a[0]),
    |a| polymers::math::lambert_w(&a[0]),
    |a| polymers::math::bessel_i(&(a[0] as u8), &a[1]),
    |a| polymers::math::erf(&a[0]),
    |a| polymers::math::erfc(&a[0]),
    |a| polymers::math::erfcx(&a[0]),
    |a| polymers::math::erfcx_helper(&a[0]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::force(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_force(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::equilibrium_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_force(&a[0]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::equilibrium_distribution(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_force(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::nondimensional_relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_force(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::nondimensional_relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_force(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::nondimensional_relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::force(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_force(&a[0]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::equilibrium_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_equilibrium_distribution(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1]),
    |a| polymers::physics::single_chain::ideal::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_force(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::equilibrium_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::nondimensional_equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_force(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_force(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::end_to_end_length_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_end_to_end_length_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5], &a[6]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3]),
    |a| polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::force(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_force(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::equilibrium_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_equilibrium_distribution(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::equilibrium_radial_distribution(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::nondimensional_equilibrium_radial_distribution(&a[0], &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::nondimensional_relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::end_to_end_length(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::nondimensional_relative_gibbs_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2], &a[3], &a[4], &a[5]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy(&(a[0] as u8), &a[1], &a[2]),
    |a| polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::nondimensional_relative_helmholtz_free_energy_per_link(&(a[0] as u8), &a[1], &a[2]),
];
pub trait Model { fn call(&self, method: usize, a: &[f64]) -> f64; fn get(&self, field: usize) -> f64; }
impl Model for polymers::physics::single_chain::efjc::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.asymptotic.alternative.legendre.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.thermodynamics.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.thermodynamics.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        11 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        21 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        22 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        23 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        25 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        33 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        35 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        39 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        41 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.thermodynamics.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        43 => self.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        44 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        45 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        47 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        48 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        49 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        51 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        53 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.thermodynamics.isotensional.asymptotic.alternative.end_to_end_length(&a[0], &a[1]),
        55 => self.thermodynamics.isotensional.asymptotic.alternative.end_to_end_length_per_link(&a[0], &a[1]),
        56 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length(&a[0], &a[1]),
        57 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        58 => self.thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy(&a[0], &a[1]),
        59 => self.thermodynamics.isotensional.asymptotic.alternative.gibbs_free_energy_per_link(&a[0], &a[1]),
        60 => self.thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy(&a[0], &a[1]),
        61 => self.thermodynamics.isotensional.asymptotic.alternative.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        62 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        63 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        64 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        65 => self.thermodynamics.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        66 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        67 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        73 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        75 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        76 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        77 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        78 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        79 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        80 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        81 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        82 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        83 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        84 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        85 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        86 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        87 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        88 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        89 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        90 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        91 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        92 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        93 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        94 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        95 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        96 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        97 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        98 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        99 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        100 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        101 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        102 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        103 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        104 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        105 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        106 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        107 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        108 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        109 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.thermodynamics.hinge_mass as f64,
        5 => self.thermodynamics.link_length as f64,
        6 => self.thermodynamics.number_of_links as f64,
        7 => self.thermodynamics.link_stiffness as f64,
        8 => self.thermodynamics.isometric.hinge_mass as f64,
        9 => self.thermodynamics.isometric.link_length as f64,
        10 => self.thermodynamics.isometric.number_of_links as f64,
        11 => self.thermodynamics.isometric.link_stiffness as f64,
        12 => self.thermodynamics.isometric.asymptotic.hinge_mass as f64,
        13 => self.thermodynamics.isometric.asymptotic.link_length as f64,
        14 => self.thermodynamics.isometric.asymptotic.number_of_links as f64,
        15 => self.thermodynamics.isometric.asymptotic.link_stiffness as f64,
        16 => self.thermodynamics.isometric.asymptotic.alternative.hinge_mass as f64,
        17 => self.thermodynamics.isometric.asymptotic.alternative.link_length as f64,
        18 => self.thermodynamics.isometric.asymptotic.alternative.number_of_links as f64,
        19 => self.thermodynamics.isometric.asymptotic.alternative.link_stiffness as f64,
        20 => self.thermodynamics.isometric.asymptotic.alternative.legendre.hinge_mass as f64,
        21 => self.thermodynamics.isometric.asymptotic.alternative.legendre.link_length as f64,
        22 => self.thermodynamics.isometric.asymptotic.alternative.legendre.number_of_links as f64,
        23 => self.thermodynamics.isometric.asymptotic.alternative.legendre.link_stiffness as f64,
        24 => self.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64,
        25 => self.thermodynamics.isometric.asymptotic.reduced.link_length as f64,
        26 => self.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64,
        27 => self.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64,
        28 => self.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        29 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64,
        30 => self.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        31 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        32 => self.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64,
        33 => self.thermodynamics.isometric.asymptotic.legendre.link_length as f64,
        34 => self.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64,
        35 => self.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64,
        36 => self.thermodynamics.isotensional.hinge_mass as f64,
        37 => self.thermodynamics.isotensional.link_length as f64,
        38 => self.thermodynamics.isotensional.number_of_links as f64,
        39 => self.thermodynamics.isotensional.link_stiffness as f64,
        40 => self.thermodynamics.isotensional.asymptotic.hinge_mass as f64,
        41 => self.thermodynamics.isotensional.asymptotic.link_length as f64,
        42 => self.thermodynamics.isotensional.asymptotic.number_of_links as f64,
        43 => self.thermodynamics.isotensional.asymptotic.link_stiffness as f64,
        44 => self.thermodynamics.isotensional.asymptotic.alternative.hinge_mass as f64,
        45 => self.thermodynamics.isotensional.asymptotic.alternative.link_length as f64,
        46 => self.thermodynamics.isotensional.asymptotic.alternative.number_of_links as f64,
        47 => self.thermodynamics.isotensional.asymptotic.alternative.link_stiffness as f64,
        48 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.hinge_mass as f64,
        49 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.link_length as f64,
        50 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.number_of_links as f64,
        51 => self.thermodynamics.isotensional.asymptotic.alternative.legendre.link_stiffness as f64,
        52 => self.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64,
        53 => self.thermodynamics.isotensional.asymptotic.reduced.link_length as f64,
        54 => self.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64,
        55 => self.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64,
        56 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        57 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64,
        58 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        59 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        60 => self.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64,
        61 => self.thermodynamics.isotensional.asymptotic.legendre.link_length as f64,
        62 => self.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64,
        63 => self.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64,
        64 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        65 => self.thermodynamics.isotensional.legendre.link_length as f64,
        66 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        67 => self.thermodynamics.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.asymptotic.alternative.legendre.force(&a[0], &a[1]),
        1 => self.isometric.asymptotic.alternative.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.isometric.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.isometric.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        11 => self.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        21 => self.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        22 => self.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        23 => self.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        24 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        25 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        31 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        32 => self.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        33 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        35 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        37 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        39 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        41 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        43 => self.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        44 => self.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        45 => self.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        47 => self.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        48 => self.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        49 => self.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        51 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        53 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.isotensional.asymptotic.alternative.end_to_end_length(&a[0], &a[1]),
        55 => self.isotensional.asymptotic.alternative.end_to_end_length_per_link(&a[0], &a[1]),
        56 => self.isotensional.asymptotic.alternative.nondimensional_end_to_end_length(&a[0], &a[1]),
        57 => self.isotensional.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        58 => self.isotensional.asymptotic.alternative.gibbs_free_energy(&a[0], &a[1]),
        59 => self.isotensional.asymptotic.alternative.gibbs_free_energy_per_link(&a[0], &a[1]),
        60 => self.isotensional.asymptotic.alternative.relative_gibbs_free_energy(&a[0], &a[1]),
        61 => self.isotensional.asymptotic.alternative.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        62 => self.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        63 => self.isotensional.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        64 => self.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        65 => self.isotensional.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        66 => self.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        67 => self.isotensional.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.isotensional.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.isotensional.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        73 => self.isotensional.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        75 => self.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        76 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        77 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        78 => self.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        79 => self.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        80 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        81 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        82 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        83 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        84 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        85 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        86 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        87 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        88 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        89 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        90 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        91 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        92 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        93 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        94 => self.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        95 => self.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        96 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        97 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        98 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        99 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        100 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        101 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        102 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        103 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        104 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        105 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        106 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        107 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        108 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        109 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.isometric.hinge_mass as f64,
        5 => self.isometric.link_length as f64,
        6 => self.isometric.number_of_links as f64,
        7 => self.isometric.link_stiffness as f64,
        8 => self.isometric.asymptotic.hinge_mass as f64,
        9 => self.isometric.asymptotic.link_length as f64,
        10 => self.isometric.asymptotic.number_of_links as f64,
        11 => self.isometric.asymptotic.link_stiffness as f64,
        12 => self.isometric.asymptotic.alternative.hinge_mass as f64,
        13 => self.isometric.asymptotic.alternative.link_length as f64,
        14 => self.isometric.asymptotic.alternative.number_of_links as f64,
        15 => self.isometric.asymptotic.alternative.link_stiffness as f64,
        16 => self.isometric.asymptotic.alternative.legendre.hinge_mass as f64,
        17 => self.isometric.asymptotic.alternative.legendre.link_length as f64,
        18 => self.isometric.asymptotic.alternative.legendre.number_of_links as f64,
        19 => self.isometric.asymptotic.alternative.legendre.link_stiffness as f64,
        20 => self.isometric.asymptotic.reduced.hinge_mass as f64,
        21 => self.isometric.asymptotic.reduced.link_length as f64,
        22 => self.isometric.asymptotic.reduced.number_of_links as f64,
        23 => self.isometric.asymptotic.reduced.link_stiffness as f64,
        24 => self.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        25 => self.isometric.asymptotic.reduced.legendre.link_length as f64,
        26 => self.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        27 => self.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        28 => self.isometric.asymptotic.legendre.hinge_mass as f64,
        29 => self.isometric.asymptotic.legendre.link_length as f64,
        30 => self.isometric.asymptotic.legendre.number_of_links as f64,
        31 => self.isometric.asymptotic.legendre.link_stiffness as f64,
        32 => self.isotensional.hinge_mass as f64,
        33 => self.isotensional.link_length as f64,
        34 => self.isotensional.number_of_links as f64,
        35 => self.isotensional.link_stiffness as f64,
        36 => self.isotensional.asymptotic.hinge_mass as f64,
        37 => self.isotensional.asymptotic.link_length as f64,
        38 => self.isotensional.asymptotic.number_of_links as f64,
        39 => self.isotensional.asymptotic.link_stiffness as f64,
        40 => self.isotensional.asymptotic.alternative.hinge_mass as f64,
        41 => self.isotensional.asymptotic.alternative.link_length as f64,
        42 => self.isotensional.asymptotic.alternative.number_of_links as f64,
        43 => self.isotensional.asymptotic.alternative.link_stiffness as f64,
        44 => self.isotensional.asymptotic.alternative.legendre.hinge_mass as f64,
        45 => self.isotensional.asymptotic.alternative.legendre.link_length as f64,
        46 => self.isotensional.asymptotic.alternative.legendre.number_of_links as f64,
        47 => self.isotensional.asymptotic.alternative.legendre.link_stiffness as f64,
        48 => self.isotensional.asymptotic.reduced.hinge_mass as f64,
        49 => self.isotensional.asymptotic.reduced.link_length as f64,
        50 => self.isotensional.asymptotic.reduced.number_of_links as f64,
        51 => self.isotensional.asymptotic.reduced.link_stiffness as f64,
        52 => self.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        53 => self.isotensional.asymptotic.reduced.legendre.link_length as f64,
        54 => self.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        55 => self.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        56 => self.isotensional.asymptotic.legendre.hinge_mass as f64,
        57 => self.isotensional.asymptotic.legendre.link_length as f64,
        58 => self.isotensional.asymptotic.legendre.number_of_links as f64,
        59 => self.isotensional.asymptotic.legendre.link_stiffness as f64,
        60 => self.isotensional.legendre.hinge_mass as f64,
        61 => self.isotensional.legendre.link_length as f64,
        62 => self.isotensional.legendre.number_of_links as f64,
        63 => self.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.asymptotic.alternative.legendre.force(&a[0], &a[1]),
        1 => self.asymptotic.alternative.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        11 => self.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.asymptotic.legendre.force(&a[0], &a[1]),
        21 => self.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        22 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        23 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        24 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        25 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.alternative.hinge_mass as f64,
        9 => self.asymptotic.alternative.link_length as f64,
        10 => self.asymptotic.alternative.number_of_links as f64,
        11 => self.asymptotic.alternative.link_stiffness as f64,
        12 => self.asymptotic.alternative.legendre.hinge_mass as f64,
        13 => self.asymptotic.alternative.legendre.link_length as f64,
        14 => self.asymptotic.alternative.legendre.number_of_links as f64,
        15 => self.asymptotic.alternative.legendre.link_stiffness as f64,
        16 => self.asymptotic.reduced.hinge_mass as f64,
        17 => self.asymptotic.reduced.link_length as f64,
        18 => self.asymptotic.reduced.number_of_links as f64,
        19 => self.asymptotic.reduced.link_stiffness as f64,
        20 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        21 => self.asymptotic.reduced.legendre.link_length as f64,
        22 => self.asymptotic.reduced.legendre.number_of_links as f64,
        23 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        24 => self.asymptotic.legendre.hinge_mass as f64,
        25 => self.asymptotic.legendre.link_length as f64,
        26 => self.asymptotic.legendre.number_of_links as f64,
        27 => self.asymptotic.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.alternative.legendre.force(&a[0], &a[1]),
        1 => self.alternative.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.reduced.legendre.force(&a[0], &a[1]),
        11 => self.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.legendre.force(&a[0], &a[1]),
        21 => self.legendre.nondimensional_force(&a[0], &a[1]),
        22 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        23 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        24 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        25 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.alternative.hinge_mass as f64,
        5 => self.alternative.link_length as f64,
        6 => self.alternative.number_of_links as f64,
        7 => self.alternative.link_stiffness as f64,
        8 => self.alternative.legendre.hinge_mass as f64,
        9 => self.alternative.legendre.link_length as f64,
        10 => self.alternative.legendre.number_of_links as f64,
        11 => self.alternative.legendre.link_stiffness as f64,
        12 => self.reduced.hinge_mass as f64,
        13 => self.reduced.link_length as f64,
        14 => self.reduced.number_of_links as f64,
        15 => self.reduced.link_stiffness as f64,
        16 => self.reduced.legendre.hinge_mass as f64,
        17 => self.reduced.legendre.link_length as f64,
        18 => self.reduced.legendre.number_of_links as f64,
        19 => self.reduced.legendre.link_stiffness as f64,
        20 => self.legendre.hinge_mass as f64,
        21 => self.legendre.link_length as f64,
        22 => self.legendre.number_of_links as f64,
        23 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.asymptotic.end_to_end_length(&a[0], &a[1]),
        13 => self.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.asymptotic.alternative.end_to_end_length(&a[0], &a[1]),
        25 => self.asymptotic.alternative.end_to_end_length_per_link(&a[0], &a[1]),
        26 => self.asymptotic.alternative.nondimensional_end_to_end_length(&a[0], &a[1]),
        27 => self.asymptotic.alternative.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        28 => self.asymptotic.alternative.gibbs_free_energy(&a[0], &a[1]),
        29 => self.asymptotic.alternative.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.asymptotic.alternative.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.asymptotic.alternative.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.asymptotic.alternative.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.asymptotic.alternative.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.asymptotic.alternative.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        35 => self.asymptotic.alternative.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.asymptotic.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        37 => self.asymptotic.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.asymptotic.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.asymptotic.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        41 => self.asymptotic.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        42 => self.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        43 => self.asymptotic.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        44 => self.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.alternative.hinge_mass as f64,
        9 => self.asymptotic.alternative.link_length as f64,
        10 => self.asymptotic.alternative.number_of_links as f64,
        11 => self.asymptotic.alternative.link_stiffness as f64,
        12 => self.asymptotic.alternative.legendre.hinge_mass as f64,
        13 => self.asymptotic.alternative.legendre.link_length as f64,
        14 => self.asymptotic.alternative.legendre.number_of_links as f64,
        15 => self.asymptotic.alternative.legendre.link_stiffness as f64,
        16 => self.asymptotic.reduced.hinge_mass as f64,
        17 => self.asymptotic.reduced.link_length as f64,
        18 => self.asymptotic.reduced.number_of_links as f64,
        19 => self.asymptotic.reduced.link_stiffness as f64,
        20 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        21 => self.asymptotic.reduced.legendre.link_length as f64,
        22 => self.asymptotic.reduced.legendre.number_of_links as f64,
        23 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        24 => self.asymptotic.legendre.hinge_mass as f64,
        25 => self.asymptotic.legendre.link_length as f64,
        26 => self.asymptotic.legendre.number_of_links as f64,
        27 => self.asymptotic.legendre.link_stiffness as f64,
        28 => self.legendre.hinge_mass as f64,
        29 => self.legendre.link_length as f64,
        30 => self.legendre.number_of_links as f64,
        31 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.alternative.end_to_end_length(&a[0], &a[1]),
        13 => self.alternative.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.alternative.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.alternative.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.alternative.gibbs_free_energy(&a[0], &a[1]),
        17 => self.alternative.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.alternative.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.alternative.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.alternative.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.alternative.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.alternative.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.alternative.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.alternative.legendre.helmholtz_free_energy(&a[0], &a[1]),
        25 => self.alternative.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.alternative.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.alternative.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.alternative.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.alternative.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.alternative.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.alternative.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.reduced.end_to_end_length(&a[0], &a[1]),
        33 => self.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.reduced.gibbs_free_energy(&a[0], &a[1]),
        37 => self.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        45 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        46 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        47 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        48 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        49 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        53 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        55 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        56 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        57 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.alternative.hinge_mass as f64,
        5 => self.alternative.link_length as f64,
        6 => self.alternative.number_of_links as f64,
        7 => self.alternative.link_stiffness as f64,
        8 => self.alternative.legendre.hinge_mass as f64,
        9 => self.alternative.legendre.link_length as f64,
        10 => self.alternative.legendre.number_of_links as f64,
        11 => self.alternative.legendre.link_stiffness as f64,
        12 => self.reduced.hinge_mass as f64,
        13 => self.reduced.link_length as f64,
        14 => self.reduced.number_of_links as f64,
        15 => self.reduced.link_stiffness as f64,
        16 => self.reduced.legendre.hinge_mass as f64,
        17 => self.reduced.legendre.link_length as f64,
        18 => self.reduced.legendre.number_of_links as f64,
        19 => self.reduced.legendre.link_stiffness as f64,
        20 => self.legendre.hinge_mass as f64,
        21 => self.legendre.link_length as f64,
        22 => self.legendre.number_of_links as f64,
        23 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.nondimensional_force(&a[0]),
        2 => self.thermodynamics.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.thermodynamics.isometric.equilibrium_distribution(&a[0]),
        11 => self.thermodynamics.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.thermodynamics.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.thermodynamics.isometric.legendre.force(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.legendre.nondimensional_force(&a[0]),
        16 => self.thermodynamics.isometric.legendre.helmholtz_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        21 => self.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        23 => self.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        24 => self.thermodynamics.isometric.legendre.equilibrium_distribution(&a[0]),
        25 => self.thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&a[0]),
        26 => self.thermodynamics.isometric.legendre.equilibrium_radial_distribution(&a[0]),
        27 => self.thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        28 => self.thermodynamics.isometric.legendre.gibbs_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isometric.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        35 => self.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        36 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0]),
        39 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        40 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        41 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        45 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        46 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        47 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        48 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        49 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        53 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        55 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        56 => self.thermodynamics.modified_canonical.end_to_end_length(&a[0], &a[1], &a[2]),
        57 => self.thermodynamics.modified_canonical.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        58 => self.thermodynamics.modified_canonical.nondimensional_end_to_end_length(&a[0], &a[1]),
        59 => self.thermodynamics.modified_canonical.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        60 => self.thermodynamics.modified_canonical.force(&a[0], &a[1], &a[2]),
        61 => self.thermodynamics.modified_canonical.nondimensional_force(&a[0], &a[1]),
        62 => self.thermodynamics.modified_canonical.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        63 => self.thermodynamics.modified_canonical.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        64 => self.thermodynamics.modified_canonical.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        65 => self.thermodynamics.modified_canonical.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        66 => self.thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        67 => self.thermodynamics.modified_canonical.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        68 => self.thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.thermodynamics.modified_canonical.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.thermodynamics.modified_canonical.gibbs_free_energy(&a[0], &a[1], &a[2]),
        71 => self.thermodynamics.modified_canonical.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        72 => self.thermodynamics.modified_canonical.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        73 => self.thermodynamics.modified_canonical.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        74 => self.thermodynamics.modified_canonical.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        75 => self.thermodynamics.modified_canonical.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        76 => self.thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        77 => self.thermodynamics.modified_canonical.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        78 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length(&a[0], &a[1], &a[2]),
        79 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        80 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length(&a[0], &a[1]),
        81 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        82 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.force(&a[0], &a[1]),
        83 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_force(&a[0], &a[1]),
        84 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy(&a[0], &a[1], &a[2]),
        85 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        86 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        87 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        88 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        89 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        90 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        91 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        92 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.force(&a[0], &a[1], &a[2]),
        93 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_force(&a[0], &a[1]),
        94 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        95 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        96 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        97 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        98 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        99 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        100 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        101 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.thermodynamics.hinge_mass as f64,
        4 => self.thermodynamics.link_length as f64,
        5 => self.thermodynamics.number_of_links as f64,
        6 => self.thermodynamics.isometric.hinge_mass as f64,
        7 => self.thermodynamics.isometric.link_length as f64,
        8 => self.thermodynamics.isometric.number_of_links as f64,
        9 => self.thermodynamics.isometric.legendre.hinge_mass as f64,
        10 => self.thermodynamics.isometric.legendre.link_length as f64,
        11 => self.thermodynamics.isometric.legendre.number_of_links as f64,
        12 => self.thermodynamics.isotensional.hinge_mass as f64,
        13 => self.thermodynamics.isotensional.link_length as f64,
        14 => self.thermodynamics.isotensional.number_of_links as f64,
        15 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        16 => self.thermodynamics.isotensional.legendre.link_length as f64,
        17 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        18 => self.thermodynamics.modified_canonical.hinge_mass as f64,
        19 => self.thermodynamics.modified_canonical.link_length as f64,
        20 => self.thermodynamics.modified_canonical.number_of_links as f64,
        21 => self.thermodynamics.modified_canonical.asymptotic.hinge_mass as f64,
        22 => self.thermodynamics.modified_canonical.asymptotic.link_length as f64,
        23 => self.thermodynamics.modified_canonical.asymptotic.number_of_links as f64,
        24 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.hinge_mass as f64,
        25 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.link_length as f64,
        26 => self.thermodynamics.modified_canonical.asymptotic.weak_potential.number_of_links as f64,
        27 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.hinge_mass as f64,
        28 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.link_length as f64,
        29 => self.thermodynamics.modified_canonical.asymptotic.strong_potential.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.force(&a[0], &a[1]),
        1 => self.isometric.nondimensional_force(&a[0]),
        2 => self.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.isometric.equilibrium_distribution(&a[0]),
        11 => self.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.isometric.legendre.force(&a[0], &a[1]),
        15 => self.isometric.legendre.nondimensional_force(&a[0]),
        16 => self.isometric.legendre.helmholtz_free_energy(&a[0], &a[1]),
        17 => self.isometric.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.isometric.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.isometric.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        21 => self.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        22 => self.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        23 => self.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        24 => self.isometric.legendre.equilibrium_distribution(&a[0]),
        25 => self.isometric.legendre.nondimensional_equilibrium_distribution(&a[0]),
        26 => self.isometric.legendre.equilibrium_radial_distribution(&a[0]),
        27 => self.isometric.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        28 => self.isometric.legendre.gibbs_free_energy(&a[0], &a[1]),
        29 => self.isometric.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.isometric.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.isometric.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.isometric.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.isometric.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        35 => self.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        36 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        37 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        38 => self.isotensional.nondimensional_end_to_end_length(&a[0]),
        39 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        40 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        41 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        45 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        46 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        47 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        48 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        49 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        53 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        55 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        56 => self.modified_canonical.end_to_end_length(&a[0], &a[1], &a[2]),
        57 => self.modified_canonical.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        58 => self.modified_canonical.nondimensional_end_to_end_length(&a[0], &a[1]),
        59 => self.modified_canonical.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        60 => self.modified_canonical.force(&a[0], &a[1], &a[2]),
        61 => self.modified_canonical.nondimensional_force(&a[0], &a[1]),
        62 => self.modified_canonical.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        63 => self.modified_canonical.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        64 => self.modified_canonical.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        65 => self.modified_canonical.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        66 => self.modified_canonical.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        67 => self.modified_canonical.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        68 => self.modified_canonical.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.modified_canonical.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.modified_canonical.gibbs_free_energy(&a[0], &a[1], &a[2]),
        71 => self.modified_canonical.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        72 => self.modified_canonical.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        73 => self.modified_canonical.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        74 => self.modified_canonical.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        75 => self.modified_canonical.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        76 => self.modified_canonical.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        77 => self.modified_canonical.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        78 => self.modified_canonical.asymptotic.weak_potential.end_to_end_length(&a[0], &a[1], &a[2]),
        79 => self.modified_canonical.asymptotic.weak_potential.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        80 => self.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length(&a[0], &a[1]),
        81 => self.modified_canonical.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        82 => self.modified_canonical.asymptotic.weak_potential.force(&a[0], &a[1]),
        83 => self.modified_canonical.asymptotic.weak_potential.nondimensional_force(&a[0], &a[1]),
        84 => self.modified_canonical.asymptotic.weak_potential.gibbs_free_energy(&a[0], &a[1], &a[2]),
        85 => self.modified_canonical.asymptotic.weak_potential.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        86 => self.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        87 => self.modified_canonical.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        88 => self.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        89 => self.modified_canonical.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        90 => self.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        91 => self.modified_canonical.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        92 => self.modified_canonical.asymptotic.strong_potential.force(&a[0], &a[1], &a[2]),
        93 => self.modified_canonical.asymptotic.strong_potential.nondimensional_force(&a[0], &a[1]),
        94 => self.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        95 => self.modified_canonical.asymptotic.strong_potential.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        96 => self.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        97 => self.modified_canonical.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        98 => self.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        99 => self.modified_canonical.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        100 => self.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        101 => self.modified_canonical.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.isometric.hinge_mass as f64,
        4 => self.isometric.link_length as f64,
        5 => self.isometric.number_of_links as f64,
        6 => self.isometric.legendre.hinge_mass as f64,
        7 => self.isometric.legendre.link_length as f64,
        8 => self.isometric.legendre.number_of_links as f64,
        9 => self.isotensional.hinge_mass as f64,
        10 => self.isotensional.link_length as f64,
        11 => self.isotensional.number_of_links as f64,
        12 => self.isotensional.legendre.hinge_mass as f64,
        13 => self.isotensional.legendre.link_length as f64,
        14 => self.isotensional.legendre.number_of_links as f64,
        15 => self.modified_canonical.hinge_mass as f64,
        16 => self.modified_canonical.link_length as f64,
        17 => self.modified_canonical.number_of_links as f64,
        18 => self.modified_canonical.asymptotic.hinge_mass as f64,
        19 => self.modified_canonical.asymptotic.link_length as f64,
        20 => self.modified_canonical.asymptotic.number_of_links as f64,
        21 => self.modified_canonical.asymptotic.weak_potential.hinge_mass as f64,
        22 => self.modified_canonical.asymptotic.weak_potential.link_length as f64,
        23 => self.modified_canonical.asymptotic.weak_potential.number_of_links as f64,
        24 => self.modified_canonical.asymptotic.strong_potential.hinge_mass as f64,
        25 => self.modified_canonical.asymptotic.strong_potential.link_length as f64,
        26 => self.modified_canonical.asymptotic.strong_potential.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.equilibrium_distribution(&a[0]),
        11 => self.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.equilibrium_radial_distribution(&a[0]),
        13 => self.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.legendre.force(&a[0], &a[1]),
        15 => self.legendre.nondimensional_force(&a[0]),
        16 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        21 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        22 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        23 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        24 => self.legendre.equilibrium_distribution(&a[0]),
        25 => self.legendre.nondimensional_equilibrium_distribution(&a[0]),
        26 => self.legendre.equilibrium_radial_distribution(&a[0]),
        27 => self.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        28 => self.legendre.gibbs_free_energy(&a[0], &a[1]),
        29 => self.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        35 => self.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.legendre.hinge_mass as f64,
        4 => self.legendre.link_length as f64,
        5 => self.legendre.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.equilibrium_distribution(&a[0]),
        11 => self.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.equilibrium_radial_distribution(&a[0]),
        13 => self.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.gibbs_free_energy(&a[0], &a[1]),
        15 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        16 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        17 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        19 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        21 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.legendre.hinge_mass as f64,
        4 => self.legendre.link_length as f64,
        5 => self.legendre.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1], &a[2]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.force(&a[0], &a[1], &a[2]),
        5 => self.nondimensional_force(&a[0], &a[1]),
        6 => self.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        7 => self.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        8 => self.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        9 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        10 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        11 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        12 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        13 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.gibbs_free_energy(&a[0], &a[1], &a[2]),
        15 => self.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        16 => self.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        17 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        18 => self.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        19 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        20 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        21 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.asymptotic.weak_potential.end_to_end_length(&a[0], &a[1], &a[2]),
        23 => self.asymptotic.weak_potential.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        24 => self.asymptotic.weak_potential.nondimensional_end_to_end_length(&a[0], &a[1]),
        25 => self.asymptotic.weak_potential.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        26 => self.asymptotic.weak_potential.force(&a[0], &a[1]),
        27 => self.asymptotic.weak_potential.nondimensional_force(&a[0], &a[1]),
        28 => self.asymptotic.weak_potential.gibbs_free_energy(&a[0], &a[1], &a[2]),
        29 => self.asymptotic.weak_potential.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        30 => self.asymptotic.weak_potential.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        31 => self.asymptotic.weak_potential.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        32 => self.asymptotic.weak_potential.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        33 => self.asymptotic.weak_potential.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        34 => self.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        35 => self.asymptotic.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.asymptotic.strong_potential.force(&a[0], &a[1], &a[2]),
        37 => self.asymptotic.strong_potential.nondimensional_force(&a[0], &a[1]),
        38 => self.asymptotic.strong_potential.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        39 => self.asymptotic.strong_potential.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        40 => self.asymptotic.strong_potential.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        41 => self.asymptotic.strong_potential.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        42 => self.asymptotic.strong_potential.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        43 => self.asymptotic.strong_potential.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        44 => self.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        45 => self.asymptotic.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.asymptotic.hinge_mass as f64,
        4 => self.asymptotic.link_length as f64,
        5 => self.asymptotic.number_of_links as f64,
        6 => self.asymptotic.weak_potential.hinge_mass as f64,
        7 => self.asymptotic.weak_potential.link_length as f64,
        8 => self.asymptotic.weak_potential.number_of_links as f64,
        9 => self.asymptotic.strong_potential.hinge_mass as f64,
        10 => self.asymptotic.strong_potential.link_length as f64,
        11 => self.asymptotic.strong_potential.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.weak_potential.end_to_end_length(&a[0], &a[1], &a[2]),
        1 => self.weak_potential.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        2 => self.weak_potential.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.weak_potential.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.weak_potential.force(&a[0], &a[1]),
        5 => self.weak_potential.nondimensional_force(&a[0], &a[1]),
        6 => self.weak_potential.gibbs_free_energy(&a[0], &a[1], &a[2]),
        7 => self.weak_potential.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        8 => self.weak_potential.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        9 => self.weak_potential.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        10 => self.weak_potential.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        11 => self.weak_potential.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        12 => self.weak_potential.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        13 => self.weak_potential.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        14 => self.strong_potential.force(&a[0], &a[1], &a[2]),
        15 => self.strong_potential.nondimensional_force(&a[0], &a[1]),
        16 => self.strong_potential.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        17 => self.strong_potential.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        18 => self.strong_potential.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        19 => self.strong_potential.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        20 => self.strong_potential.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        21 => self.strong_potential.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        22 => self.strong_potential.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        23 => self.strong_potential.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.weak_potential.hinge_mass as f64,
        4 => self.weak_potential.link_length as f64,
        5 => self.weak_potential.number_of_links as f64,
        6 => self.strong_potential.hinge_mass as f64,
        7 => self.strong_potential.link_length as f64,
        8 => self.strong_potential.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1], &a[2]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1], &a[2]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1], &a[2]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1], &a[2]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1], &a[2]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1], &a[2]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.force(&a[0], &a[1]),
        5 => self.nondimensional_force(&a[0], &a[1]),
        6 => self.gibbs_free_energy(&a[0], &a[1], &a[2]),
        7 => self.gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        8 => self.relative_gibbs_free_energy(&a[0], &a[1], &a[2]),
        9 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        10 => self.nondimensional_gibbs_free_energy(&a[0], &a[1], &a[2]),
        11 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1], &a[2]),
        12 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        13 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ideal::Ideal {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.nondimensional_force(&a[0]),
        2 => self.thermodynamics.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.thermodynamics.isometric.equilibrium_distribution(&a[0]),
        11 => self.thermodynamics.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.thermodynamics.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        15 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0]),
        17 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        18 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        21 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        25 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.thermodynamics.hinge_mass as f64,
        4 => self.thermodynamics.link_length as f64,
        5 => self.thermodynamics.number_of_links as f64,
        6 => self.thermodynamics.isometric.hinge_mass as f64,
        7 => self.thermodynamics.isometric.link_length as f64,
        8 => self.thermodynamics.isometric.number_of_links as f64,
        9 => self.thermodynamics.isotensional.hinge_mass as f64,
        10 => self.thermodynamics.isotensional.link_length as f64,
        11 => self.thermodynamics.isotensional.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ideal::thermodynamics::Ideal {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.force(&a[0], &a[1]),
        1 => self.isometric.nondimensional_force(&a[0]),
        2 => self.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.isometric.equilibrium_distribution(&a[0]),
        11 => self.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        15 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.isotensional.nondimensional_end_to_end_length(&a[0]),
        17 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        18 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        19 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        21 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        23 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        25 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.isometric.hinge_mass as f64,
        4 => self.isometric.link_length as f64,
        5 => self.isometric.number_of_links as f64,
        6 => self.isotensional.hinge_mass as f64,
        7 => self.isotensional.link_length as f64,
        8 => self.isotensional.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.equilibrium_distribution(&a[0]),
        11 => self.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.equilibrium_radial_distribution(&a[0]),
        13 => self.nondimensional_equilibrium_radial_distribution(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.legendre.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.legendre.nondimensional_force(&a[0]),
        2 => self.thermodynamics.isometric.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.thermodynamics.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.thermodynamics.isometric.legendre.equilibrium_distribution(&a[0]),
        11 => self.thermodynamics.isometric.legendre.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.thermodynamics.isometric.legendre.equilibrium_radial_distribution(&a[0]),
        13 => self.thermodynamics.isometric.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        15 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0]),
        17 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        18 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        21 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        25 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        26 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        33 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        4 => self.thermodynamics.hinge_mass as f64,
        5 => self.thermodynamics.link_length as f64,
        6 => self.thermodynamics.number_of_links as f64,
        7 => self.thermodynamics.well_width as f64,
        8 => self.thermodynamics.isometric.hinge_mass as f64,
        9 => self.thermodynamics.isometric.link_length as f64,
        10 => self.thermodynamics.isometric.number_of_links as f64,
        11 => self.thermodynamics.isometric.well_width as f64,
        12 => self.thermodynamics.isometric.legendre.hinge_mass as f64,
        13 => self.thermodynamics.isometric.legendre.link_length as f64,
        14 => self.thermodynamics.isometric.legendre.number_of_links as f64,
        15 => self.thermodynamics.isometric.legendre.well_width as f64,
        16 => self.thermodynamics.isotensional.hinge_mass as f64,
        17 => self.thermodynamics.isotensional.link_length as f64,
        18 => self.thermodynamics.isotensional.number_of_links as f64,
        19 => self.thermodynamics.isotensional.well_width as f64,
        20 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        21 => self.thermodynamics.isotensional.legendre.link_length as f64,
        22 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        23 => self.thermodynamics.isotensional.legendre.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::thermodynamics::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.legendre.force(&a[0], &a[1]),
        1 => self.isometric.legendre.nondimensional_force(&a[0]),
        2 => self.isometric.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.isometric.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.isometric.legendre.equilibrium_distribution(&a[0]),
        11 => self.isometric.legendre.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.isometric.legendre.equilibrium_radial_distribution(&a[0]),
        13 => self.isometric.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        15 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.isotensional.nondimensional_end_to_end_length(&a[0]),
        17 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        18 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        19 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        21 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        23 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        25 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        26 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        27 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        33 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        4 => self.isometric.hinge_mass as f64,
        5 => self.isometric.link_length as f64,
        6 => self.isometric.number_of_links as f64,
        7 => self.isometric.well_width as f64,
        8 => self.isometric.legendre.hinge_mass as f64,
        9 => self.isometric.legendre.link_length as f64,
        10 => self.isometric.legendre.number_of_links as f64,
        11 => self.isometric.legendre.well_width as f64,
        12 => self.isotensional.hinge_mass as f64,
        13 => self.isotensional.link_length as f64,
        14 => self.isotensional.number_of_links as f64,
        15 => self.isotensional.well_width as f64,
        16 => self.isotensional.legendre.hinge_mass as f64,
        17 => self.isotensional.legendre.link_length as f64,
        18 => self.isotensional.legendre.number_of_links as f64,
        19 => self.isotensional.legendre.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.legendre.equilibrium_distribution(&a[0]),
        11 => self.legendre.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.legendre.equilibrium_radial_distribution(&a[0]),
        13 => self.legendre.nondimensional_equilibrium_radial_distribution(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.equilibrium_distribution(&a[0]),
        11 => self.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.equilibrium_radial_distribution(&a[0]),
        13 => self.nondimensional_equilibrium_radial_distribution(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.well_width as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.thermodynamics.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.thermodynamics.hinge_mass as f64,
        5 => self.thermodynamics.link_length as f64,
        6 => self.thermodynamics.number_of_links as f64,
        7 => self.thermodynamics.link_stiffness as f64,
        8 => self.thermodynamics.isometric.hinge_mass as f64,
        9 => self.thermodynamics.isometric.link_length as f64,
        10 => self.thermodynamics.isometric.number_of_links as f64,
        11 => self.thermodynamics.isometric.link_stiffness as f64,
        12 => self.thermodynamics.isometric.asymptotic.hinge_mass as f64,
        13 => self.thermodynamics.isometric.asymptotic.link_length as f64,
        14 => self.thermodynamics.isometric.asymptotic.number_of_links as f64,
        15 => self.thermodynamics.isometric.asymptotic.link_stiffness as f64,
        16 => self.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64,
        17 => self.thermodynamics.isometric.asymptotic.reduced.link_length as f64,
        18 => self.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64,
        19 => self.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64,
        20 => self.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        21 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64,
        22 => self.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        23 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        24 => self.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64,
        25 => self.thermodynamics.isometric.asymptotic.legendre.link_length as f64,
        26 => self.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64,
        27 => self.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64,
        28 => self.thermodynamics.isotensional.hinge_mass as f64,
        29 => self.thermodynamics.isotensional.link_length as f64,
        30 => self.thermodynamics.isotensional.number_of_links as f64,
        31 => self.thermodynamics.isotensional.link_stiffness as f64,
        32 => self.thermodynamics.isotensional.asymptotic.hinge_mass as f64,
        33 => self.thermodynamics.isotensional.asymptotic.link_length as f64,
        34 => self.thermodynamics.isotensional.asymptotic.number_of_links as f64,
        35 => self.thermodynamics.isotensional.asymptotic.link_stiffness as f64,
        36 => self.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64,
        37 => self.thermodynamics.isotensional.asymptotic.reduced.link_length as f64,
        38 => self.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64,
        39 => self.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64,
        40 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        41 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64,
        42 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        43 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        44 => self.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64,
        45 => self.thermodynamics.isotensional.asymptotic.legendre.link_length as f64,
        46 => self.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64,
        47 => self.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64,
        48 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        49 => self.thermodynamics.isotensional.legendre.link_length as f64,
        50 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        51 => self.thermodynamics.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.isometric.hinge_mass as f64,
        5 => self.isometric.link_length as f64,
        6 => self.isometric.number_of_links as f64,
        7 => self.isometric.link_stiffness as f64,
        8 => self.isometric.asymptotic.hinge_mass as f64,
        9 => self.isometric.asymptotic.link_length as f64,
        10 => self.isometric.asymptotic.number_of_links as f64,
        11 => self.isometric.asymptotic.link_stiffness as f64,
        12 => self.isometric.asymptotic.reduced.hinge_mass as f64,
        13 => self.isometric.asymptotic.reduced.link_length as f64,
        14 => self.isometric.asymptotic.reduced.number_of_links as f64,
        15 => self.isometric.asymptotic.reduced.link_stiffness as f64,
        16 => self.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        17 => self.isometric.asymptotic.reduced.legendre.link_length as f64,
        18 => self.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        19 => self.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        20 => self.isometric.asymptotic.legendre.hinge_mass as f64,
        21 => self.isometric.asymptotic.legendre.link_length as f64,
        22 => self.isometric.asymptotic.legendre.number_of_links as f64,
        23 => self.isometric.asymptotic.legendre.link_stiffness as f64,
        24 => self.isotensional.hinge_mass as f64,
        25 => self.isotensional.link_length as f64,
        26 => self.isotensional.number_of_links as f64,
        27 => self.isotensional.link_stiffness as f64,
        28 => self.isotensional.asymptotic.hinge_mass as f64,
        29 => self.isotensional.asymptotic.link_length as f64,
        30 => self.isotensional.asymptotic.number_of_links as f64,
        31 => self.isotensional.asymptotic.link_stiffness as f64,
        32 => self.isotensional.asymptotic.reduced.hinge_mass as f64,
        33 => self.isotensional.asymptotic.reduced.link_length as f64,
        34 => self.isotensional.asymptotic.reduced.number_of_links as f64,
        35 => self.isotensional.asymptotic.reduced.link_stiffness as f64,
        36 => self.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        37 => self.isotensional.asymptotic.reduced.legendre.link_length as f64,
        38 => self.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        39 => self.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        40 => self.isotensional.asymptotic.legendre.hinge_mass as f64,
        41 => self.isotensional.asymptotic.legendre.link_length as f64,
        42 => self.isotensional.asymptotic.legendre.number_of_links as f64,
        43 => self.isotensional.asymptotic.legendre.link_stiffness as f64,
        44 => self.isotensional.legendre.hinge_mass as f64,
        45 => self.isotensional.legendre.link_length as f64,
        46 => self.isotensional.legendre.number_of_links as f64,
        47 => self.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.reduced.hinge_mass as f64,
        9 => self.asymptotic.reduced.link_length as f64,
        10 => self.asymptotic.reduced.number_of_links as f64,
        11 => self.asymptotic.reduced.link_stiffness as f64,
        12 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        13 => self.asymptotic.reduced.legendre.link_length as f64,
        14 => self.asymptotic.reduced.legendre.number_of_links as f64,
        15 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        16 => self.asymptotic.legendre.hinge_mass as f64,
        17 => self.asymptotic.legendre.link_length as f64,
        18 => self.asymptotic.legendre.number_of_links as f64,
        19 => self.asymptotic.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.reduced.legendre.force(&a[0], &a[1]),
        1 => self.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.legendre.force(&a[0], &a[1]),
        11 => self.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.reduced.hinge_mass as f64,
        5 => self.reduced.link_length as f64,
        6 => self.reduced.number_of_links as f64,
        7 => self.reduced.link_stiffness as f64,
        8 => self.reduced.legendre.hinge_mass as f64,
        9 => self.reduced.legendre.link_length as f64,
        10 => self.reduced.legendre.number_of_links as f64,
        11 => self.reduced.legendre.link_stiffness as f64,
        12 => self.legendre.hinge_mass as f64,
        13 => self.legendre.link_length as f64,
        14 => self.legendre.number_of_links as f64,
        15 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.asymptotic.end_to_end_length(&a[0], &a[1]),
        13 => self.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        25 => self.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        26 => self.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        27 => self.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        28 => self.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        29 => self.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        35 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        37 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        41 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        42 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        43 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        44 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        45 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        46 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        47 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        48 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        49 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        53 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        55 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        56 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        57 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.reduced.hinge_mass as f64,
        9 => self.asymptotic.reduced.link_length as f64,
        10 => self.asymptotic.reduced.number_of_links as f64,
        11 => self.asymptotic.reduced.link_stiffness as f64,
        12 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        13 => self.asymptotic.reduced.legendre.link_length as f64,
        14 => self.asymptotic.reduced.legendre.number_of_links as f64,
        15 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        16 => self.asymptotic.legendre.hinge_mass as f64,
        17 => self.asymptotic.legendre.link_length as f64,
        18 => self.asymptotic.legendre.number_of_links as f64,
        19 => self.asymptotic.legendre.link_stiffness as f64,
        20 => self.legendre.hinge_mass as f64,
        21 => self.legendre.link_length as f64,
        22 => self.legendre.number_of_links as f64,
        23 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.reduced.end_to_end_length(&a[0], &a[1]),
        13 => self.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.reduced.gibbs_free_energy(&a[0], &a[1]),
        17 => self.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        25 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        33 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        34 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        35 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        36 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        37 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.reduced.hinge_mass as f64,
        5 => self.reduced.link_length as f64,
        6 => self.reduced.number_of_links as f64,
        7 => self.reduced.link_stiffness as f64,
        8 => self.reduced.legendre.hinge_mass as f64,
        9 => self.reduced.legendre.link_length as f64,
        10 => self.reduced.legendre.number_of_links as f64,
        11 => self.reduced.legendre.link_stiffness as f64,
        12 => self.legendre.hinge_mass as f64,
        13 => self.legendre.link_length as f64,
        14 => self.legendre.number_of_links as f64,
        15 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.thermodynamics.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.thermodynamics.hinge_mass as f64,
        5 => self.thermodynamics.link_length as f64,
        6 => self.thermodynamics.number_of_links as f64,
        7 => self.thermodynamics.link_stiffness as f64,
        8 => self.thermodynamics.isometric.hinge_mass as f64,
        9 => self.thermodynamics.isometric.link_length as f64,
        10 => self.thermodynamics.isometric.number_of_links as f64,
        11 => self.thermodynamics.isometric.link_stiffness as f64,
        12 => self.thermodynamics.isometric.asymptotic.hinge_mass as f64,
        13 => self.thermodynamics.isometric.asymptotic.link_length as f64,
        14 => self.thermodynamics.isometric.asymptotic.number_of_links as f64,
        15 => self.thermodynamics.isometric.asymptotic.link_stiffness as f64,
        16 => self.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64,
        17 => self.thermodynamics.isometric.asymptotic.reduced.link_length as f64,
        18 => self.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64,
        19 => self.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64,
        20 => self.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        21 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64,
        22 => self.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        23 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        24 => self.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64,
        25 => self.thermodynamics.isometric.asymptotic.legendre.link_length as f64,
        26 => self.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64,
        27 => self.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64,
        28 => self.thermodynamics.isotensional.hinge_mass as f64,
        29 => self.thermodynamics.isotensional.link_length as f64,
        30 => self.thermodynamics.isotensional.number_of_links as f64,
        31 => self.thermodynamics.isotensional.link_stiffness as f64,
        32 => self.thermodynamics.isotensional.asymptotic.hinge_mass as f64,
        33 => self.thermodynamics.isotensional.asymptotic.link_length as f64,
        34 => self.thermodynamics.isotensional.asymptotic.number_of_links as f64,
        35 => self.thermodynamics.isotensional.asymptotic.link_stiffness as f64,
        36 => self.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64,
        37 => self.thermodynamics.isotensional.asymptotic.reduced.link_length as f64,
        38 => self.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64,
        39 => self.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64,
        40 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        41 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64,
        42 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        43 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        44 => self.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64,
        45 => self.thermodynamics.isotensional.asymptotic.legendre.link_length as f64,
        46 => self.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64,
        47 => self.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64,
        48 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        49 => self.thermodynamics.isotensional.legendre.link_length as f64,
        50 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        51 => self.thermodynamics.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.isometric.hinge_mass as f64,
        5 => self.isometric.link_length as f64,
        6 => self.isometric.number_of_links as f64,
        7 => self.isometric.link_stiffness as f64,
        8 => self.isometric.asymptotic.hinge_mass as f64,
        9 => self.isometric.asymptotic.link_length as f64,
        10 => self.isometric.asymptotic.number_of_links as f64,
        11 => self.isometric.asymptotic.link_stiffness as f64,
        12 => self.isometric.asymptotic.reduced.hinge_mass as f64,
        13 => self.isometric.asymptotic.reduced.link_length as f64,
        14 => self.isometric.asymptotic.reduced.number_of_links as f64,
        15 => self.isometric.asymptotic.reduced.link_stiffness as f64,
        16 => self.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        17 => self.isometric.asymptotic.reduced.legendre.link_length as f64,
        18 => self.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        19 => self.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        20 => self.isometric.asymptotic.legendre.hinge_mass as f64,
        21 => self.isometric.asymptotic.legendre.link_length as f64,
        22 => self.isometric.asymptotic.legendre.number_of_links as f64,
        23 => self.isometric.asymptotic.legendre.link_stiffness as f64,
        24 => self.isotensional.hinge_mass as f64,
        25 => self.isotensional.link_length as f64,
        26 => self.isotensional.number_of_links as f64,
        27 => self.isotensional.link_stiffness as f64,
        28 => self.isotensional.asymptotic.hinge_mass as f64,
        29 => self.isotensional.asymptotic.link_length as f64,
        30 => self.isotensional.asymptotic.number_of_links as f64,
        31 => self.isotensional.asymptotic.link_stiffness as f64,
        32 => self.isotensional.asymptotic.reduced.hinge_mass as f64,
        33 => self.isotensional.asymptotic.reduced.link_length as f64,
        34 => self.isotensional.asymptotic.reduced.number_of_links as f64,
        35 => self.isotensional.asymptotic.reduced.link_stiffness as f64,
        36 => self.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        37 => self.isotensional.asymptotic.reduced.legendre.link_length as f64,
        38 => self.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        39 => self.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        40 => self.isotensional.asymptotic.legendre.hinge_mass as f64,
        41 => self.isotensional.asymptotic.legendre.link_length as f64,
        42 => self.isotensional.asymptotic.legendre.number_of_links as f64,
        43 => self.isotensional.asymptotic.legendre.link_stiffness as f64,
        44 => self.isotensional.legendre.hinge_mass as f64,
        45 => self.isotensional.legendre.link_length as f64,
        46 => self.isotensional.legendre.number_of_links as f64,
        47 => self.isotensional.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.reduced.hinge_mass as f64,
        9 => self.asymptotic.reduced.link_length as f64,
        10 => self.asymptotic.reduced.number_of_links as f64,
        11 => self.asymptotic.reduced.link_stiffness as f64,
        12 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        13 => self.asymptotic.reduced.legendre.link_length as f64,
        14 => self.asymptotic.reduced.legendre.number_of_links as f64,
        15 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        16 => self.asymptotic.legendre.hinge_mass as f64,
        17 => self.asymptotic.legendre.link_length as f64,
        18 => self.asymptotic.legendre.number_of_links as f64,
        19 => self.asymptotic.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.reduced.legendre.force(&a[0], &a[1]),
        1 => self.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.legendre.force(&a[0], &a[1]),
        11 => self.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.reduced.hinge_mass as f64,
        5 => self.reduced.link_length as f64,
        6 => self.reduced.number_of_links as f64,
        7 => self.reduced.link_stiffness as f64,
        8 => self.reduced.legendre.hinge_mass as f64,
        9 => self.reduced.legendre.link_length as f64,
        10 => self.reduced.legendre.number_of_links as f64,
        11 => self.reduced.legendre.link_stiffness as f64,
        12 => self.legendre.hinge_mass as f64,
        13 => self.legendre.link_length as f64,
        14 => self.legendre.number_of_links as f64,
        15 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.asymptotic.end_to_end_length(&a[0], &a[1]),
        13 => self.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        25 => self.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        26 => self.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        27 => self.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        28 => self.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        29 => self.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        35 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        37 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        41 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        42 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        43 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        44 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        45 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        46 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        47 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        48 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        49 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        53 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        55 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        56 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        57 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.asymptotic.hinge_mass as f64,
        5 => self.asymptotic.link_length as f64,
        6 => self.asymptotic.number_of_links as f64,
        7 => self.asymptotic.link_stiffness as f64,
        8 => self.asymptotic.reduced.hinge_mass as f64,
        9 => self.asymptotic.reduced.link_length as f64,
        10 => self.asymptotic.reduced.number_of_links as f64,
        11 => self.asymptotic.reduced.link_stiffness as f64,
        12 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        13 => self.asymptotic.reduced.legendre.link_length as f64,
        14 => self.asymptotic.reduced.legendre.number_of_links as f64,
        15 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        16 => self.asymptotic.legendre.hinge_mass as f64,
        17 => self.asymptotic.legendre.link_length as f64,
        18 => self.asymptotic.legendre.number_of_links as f64,
        19 => self.asymptotic.legendre.link_stiffness as f64,
        20 => self.legendre.hinge_mass as f64,
        21 => self.legendre.link_length as f64,
        22 => self.legendre.number_of_links as f64,
        23 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.reduced.end_to_end_length(&a[0], &a[1]),
        13 => self.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.reduced.gibbs_free_energy(&a[0], &a[1]),
        17 => self.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        25 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        33 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        34 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        35 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        36 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        37 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.reduced.hinge_mass as f64,
        5 => self.reduced.link_length as f64,
        6 => self.reduced.number_of_links as f64,
        7 => self.reduced.link_stiffness as f64,
        8 => self.reduced.legendre.hinge_mass as f64,
        9 => self.reduced.legendre.link_length as f64,
        10 => self.reduced.legendre.number_of_links as f64,
        11 => self.reduced.legendre.link_stiffness as f64,
        12 => self.legendre.hinge_mass as f64,
        13 => self.legendre.link_length as f64,
        14 => self.legendre.number_of_links as f64,
        15 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.thermodynamics.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.thermodynamics.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.thermodynamics.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.thermodynamics.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.thermodynamics.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.thermodynamics.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.thermodynamics.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.thermodynamics.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.thermodynamics.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.thermodynamics.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.thermodynamics.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.thermodynamics.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.thermodynamics.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.thermodynamics.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.thermodynamics.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.thermodynamics.hinge_mass as f64,
        6 => self.thermodynamics.link_length as f64,
        7 => self.thermodynamics.number_of_links as f64,
        8 => self.thermodynamics.link_stiffness as f64,
        9 => self.thermodynamics.link_energy as f64,
        10 => self.thermodynamics.isometric.hinge_mass as f64,
        11 => self.thermodynamics.isometric.link_length as f64,
        12 => self.thermodynamics.isometric.number_of_links as f64,
        13 => self.thermodynamics.isometric.link_stiffness as f64,
        14 => self.thermodynamics.isometric.link_energy as f64,
        15 => self.thermodynamics.isometric.asymptotic.hinge_mass as f64,
        16 => self.thermodynamics.isometric.asymptotic.link_length as f64,
        17 => self.thermodynamics.isometric.asymptotic.number_of_links as f64,
        18 => self.thermodynamics.isometric.asymptotic.link_stiffness as f64,
        19 => self.thermodynamics.isometric.asymptotic.link_energy as f64,
        20 => self.thermodynamics.isometric.asymptotic.reduced.hinge_mass as f64,
        21 => self.thermodynamics.isometric.asymptotic.reduced.link_length as f64,
        22 => self.thermodynamics.isometric.asymptotic.reduced.number_of_links as f64,
        23 => self.thermodynamics.isometric.asymptotic.reduced.link_stiffness as f64,
        24 => self.thermodynamics.isometric.asymptotic.reduced.link_energy as f64,
        25 => self.thermodynamics.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        26 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_length as f64,
        27 => self.thermodynamics.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        28 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        29 => self.thermodynamics.isometric.asymptotic.reduced.legendre.link_energy as f64,
        30 => self.thermodynamics.isometric.asymptotic.legendre.hinge_mass as f64,
        31 => self.thermodynamics.isometric.asymptotic.legendre.link_length as f64,
        32 => self.thermodynamics.isometric.asymptotic.legendre.number_of_links as f64,
        33 => self.thermodynamics.isometric.asymptotic.legendre.link_stiffness as f64,
        34 => self.thermodynamics.isometric.asymptotic.legendre.link_energy as f64,
        35 => self.thermodynamics.isotensional.hinge_mass as f64,
        36 => self.thermodynamics.isotensional.link_length as f64,
        37 => self.thermodynamics.isotensional.number_of_links as f64,
        38 => self.thermodynamics.isotensional.link_stiffness as f64,
        39 => self.thermodynamics.isotensional.link_energy as f64,
        40 => self.thermodynamics.isotensional.asymptotic.hinge_mass as f64,
        41 => self.thermodynamics.isotensional.asymptotic.link_length as f64,
        42 => self.thermodynamics.isotensional.asymptotic.number_of_links as f64,
        43 => self.thermodynamics.isotensional.asymptotic.link_stiffness as f64,
        44 => self.thermodynamics.isotensional.asymptotic.link_energy as f64,
        45 => self.thermodynamics.isotensional.asymptotic.reduced.hinge_mass as f64,
        46 => self.thermodynamics.isotensional.asymptotic.reduced.link_length as f64,
        47 => self.thermodynamics.isotensional.asymptotic.reduced.number_of_links as f64,
        48 => self.thermodynamics.isotensional.asymptotic.reduced.link_stiffness as f64,
        49 => self.thermodynamics.isotensional.asymptotic.reduced.link_energy as f64,
        50 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        51 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_length as f64,
        52 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        53 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        54 => self.thermodynamics.isotensional.asymptotic.reduced.legendre.link_energy as f64,
        55 => self.thermodynamics.isotensional.asymptotic.legendre.hinge_mass as f64,
        56 => self.thermodynamics.isotensional.asymptotic.legendre.link_length as f64,
        57 => self.thermodynamics.isotensional.asymptotic.legendre.number_of_links as f64,
        58 => self.thermodynamics.isotensional.asymptotic.legendre.link_stiffness as f64,
        59 => self.thermodynamics.isotensional.asymptotic.legendre.link_energy as f64,
        60 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        61 => self.thermodynamics.isotensional.legendre.link_length as f64,
        62 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        63 => self.thermodynamics.isotensional.legendre.link_stiffness as f64,
        64 => self.thermodynamics.isotensional.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.isometric.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.isometric.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.isometric.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.isometric.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.isometric.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.isometric.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.isometric.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.isometric.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.isometric.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        20 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        21 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        22 => self.isotensional.nondimensional_end_to_end_length(&a[0], &a[1]),
        23 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        25 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        26 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        27 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        29 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.isotensional.asymptotic.end_to_end_length(&a[0], &a[1]),
        33 => self.isotensional.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        34 => self.isotensional.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        35 => self.isotensional.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        36 => self.isotensional.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        37 => self.isotensional.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        38 => self.isotensional.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        39 => self.isotensional.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        40 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        41 => self.isotensional.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        42 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        43 => self.isotensional.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        44 => self.isotensional.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        45 => self.isotensional.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        46 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        47 => self.isotensional.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        48 => self.isotensional.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        49 => self.isotensional.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        50 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        51 => self.isotensional.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        52 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        53 => self.isotensional.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        54 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        55 => self.isotensional.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        56 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        57 => self.isotensional.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.isotensional.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        60 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        61 => self.isotensional.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        62 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        63 => self.isotensional.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        64 => self.isotensional.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        65 => self.isotensional.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        66 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        67 => self.isotensional.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        68 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        69 => self.isotensional.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        70 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        71 => self.isotensional.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        72 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        73 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        74 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        75 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        76 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        77 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        78 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        79 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.isometric.hinge_mass as f64,
        6 => self.isometric.link_length as f64,
        7 => self.isometric.number_of_links as f64,
        8 => self.isometric.link_stiffness as f64,
        9 => self.isometric.link_energy as f64,
        10 => self.isometric.asymptotic.hinge_mass as f64,
        11 => self.isometric.asymptotic.link_length as f64,
        12 => self.isometric.asymptotic.number_of_links as f64,
        13 => self.isometric.asymptotic.link_stiffness as f64,
        14 => self.isometric.asymptotic.link_energy as f64,
        15 => self.isometric.asymptotic.reduced.hinge_mass as f64,
        16 => self.isometric.asymptotic.reduced.link_length as f64,
        17 => self.isometric.asymptotic.reduced.number_of_links as f64,
        18 => self.isometric.asymptotic.reduced.link_stiffness as f64,
        19 => self.isometric.asymptotic.reduced.link_energy as f64,
        20 => self.isometric.asymptotic.reduced.legendre.hinge_mass as f64,
        21 => self.isometric.asymptotic.reduced.legendre.link_length as f64,
        22 => self.isometric.asymptotic.reduced.legendre.number_of_links as f64,
        23 => self.isometric.asymptotic.reduced.legendre.link_stiffness as f64,
        24 => self.isometric.asymptotic.reduced.legendre.link_energy as f64,
        25 => self.isometric.asymptotic.legendre.hinge_mass as f64,
        26 => self.isometric.asymptotic.legendre.link_length as f64,
        27 => self.isometric.asymptotic.legendre.number_of_links as f64,
        28 => self.isometric.asymptotic.legendre.link_stiffness as f64,
        29 => self.isometric.asymptotic.legendre.link_energy as f64,
        30 => self.isotensional.hinge_mass as f64,
        31 => self.isotensional.link_length as f64,
        32 => self.isotensional.number_of_links as f64,
        33 => self.isotensional.link_stiffness as f64,
        34 => self.isotensional.link_energy as f64,
        35 => self.isotensional.asymptotic.hinge_mass as f64,
        36 => self.isotensional.asymptotic.link_length as f64,
        37 => self.isotensional.asymptotic.number_of_links as f64,
        38 => self.isotensional.asymptotic.link_stiffness as f64,
        39 => self.isotensional.asymptotic.link_energy as f64,
        40 => self.isotensional.asymptotic.reduced.hinge_mass as f64,
        41 => self.isotensional.asymptotic.reduced.link_length as f64,
        42 => self.isotensional.asymptotic.reduced.number_of_links as f64,
        43 => self.isotensional.asymptotic.reduced.link_stiffness as f64,
        44 => self.isotensional.asymptotic.reduced.link_energy as f64,
        45 => self.isotensional.asymptotic.reduced.legendre.hinge_mass as f64,
        46 => self.isotensional.asymptotic.reduced.legendre.link_length as f64,
        47 => self.isotensional.asymptotic.reduced.legendre.number_of_links as f64,
        48 => self.isotensional.asymptotic.reduced.legendre.link_stiffness as f64,
        49 => self.isotensional.asymptotic.reduced.legendre.link_energy as f64,
        50 => self.isotensional.asymptotic.legendre.hinge_mass as f64,
        51 => self.isotensional.asymptotic.legendre.link_length as f64,
        52 => self.isotensional.asymptotic.legendre.number_of_links as f64,
        53 => self.isotensional.asymptotic.legendre.link_stiffness as f64,
        54 => self.isotensional.asymptotic.legendre.link_energy as f64,
        55 => self.isotensional.legendre.hinge_mass as f64,
        56 => self.isotensional.legendre.link_length as f64,
        57 => self.isotensional.legendre.number_of_links as f64,
        58 => self.isotensional.legendre.link_stiffness as f64,
        59 => self.isotensional.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.asymptotic.reduced.legendre.force(&a[0], &a[1]),
        1 => self.asymptotic.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.asymptotic.legendre.force(&a[0], &a[1]),
        11 => self.asymptotic.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.asymptotic.hinge_mass as f64,
        6 => self.asymptotic.link_length as f64,
        7 => self.asymptotic.number_of_links as f64,
        8 => self.asymptotic.link_stiffness as f64,
        9 => self.asymptotic.link_energy as f64,
        10 => self.asymptotic.reduced.hinge_mass as f64,
        11 => self.asymptotic.reduced.link_length as f64,
        12 => self.asymptotic.reduced.number_of_links as f64,
        13 => self.asymptotic.reduced.link_stiffness as f64,
        14 => self.asymptotic.reduced.link_energy as f64,
        15 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        16 => self.asymptotic.reduced.legendre.link_length as f64,
        17 => self.asymptotic.reduced.legendre.number_of_links as f64,
        18 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        19 => self.asymptotic.reduced.legendre.link_energy as f64,
        20 => self.asymptotic.legendre.hinge_mass as f64,
        21 => self.asymptotic.legendre.link_length as f64,
        22 => self.asymptotic.legendre.number_of_links as f64,
        23 => self.asymptotic.legendre.link_stiffness as f64,
        24 => self.asymptotic.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.reduced.legendre.force(&a[0], &a[1]),
        1 => self.reduced.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        10 => self.legendre.force(&a[0], &a[1]),
        11 => self.legendre.nondimensional_force(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.reduced.hinge_mass as f64,
        6 => self.reduced.link_length as f64,
        7 => self.reduced.number_of_links as f64,
        8 => self.reduced.link_stiffness as f64,
        9 => self.reduced.link_energy as f64,
        10 => self.reduced.legendre.hinge_mass as f64,
        11 => self.reduced.legendre.link_length as f64,
        12 => self.reduced.legendre.number_of_links as f64,
        13 => self.reduced.legendre.link_stiffness as f64,
        14 => self.reduced.legendre.link_energy as f64,
        15 => self.legendre.hinge_mass as f64,
        16 => self.legendre.link_length as f64,
        17 => self.legendre.number_of_links as f64,
        18 => self.legendre.link_stiffness as f64,
        19 => self.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.legendre.force(&a[0], &a[1]),
        1 => self.legendre.nondimensional_force(&a[0], &a[1]),
        2 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.legendre.hinge_mass as f64,
        6 => self.legendre.link_length as f64,
        7 => self.legendre.number_of_links as f64,
        8 => self.legendre.link_stiffness as f64,
        9 => self.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0], &a[1]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.asymptotic.end_to_end_length(&a[0], &a[1]),
        13 => self.asymptotic.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.asymptotic.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.asymptotic.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.asymptotic.gibbs_free_energy(&a[0], &a[1]),
        17 => self.asymptotic.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.asymptotic.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.asymptotic.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.asymptotic.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.asymptotic.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.asymptotic.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.asymptotic.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.asymptotic.reduced.end_to_end_length(&a[0], &a[1]),
        25 => self.asymptotic.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        26 => self.asymptotic.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        27 => self.asymptotic.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        28 => self.asymptotic.reduced.gibbs_free_energy(&a[0], &a[1]),
        29 => self.asymptotic.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.asymptotic.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        31 => self.asymptotic.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.asymptotic.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        33 => self.asymptotic.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        34 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        35 => self.asymptotic.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        36 => self.asymptotic.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        37 => self.asymptotic.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.asymptotic.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        41 => self.asymptotic.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        42 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        43 => self.asymptotic.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        44 => self.asymptotic.legendre.helmholtz_free_energy(&a[0], &a[1]),
        45 => self.asymptotic.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        46 => self.asymptotic.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        47 => self.asymptotic.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        48 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        49 => self.asymptotic.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        50 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        51 => self.asymptotic.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        52 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        53 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        54 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        55 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        56 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        57 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        58 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        59 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.asymptotic.hinge_mass as f64,
        6 => self.asymptotic.link_length as f64,
        7 => self.asymptotic.number_of_links as f64,
        8 => self.asymptotic.link_stiffness as f64,
        9 => self.asymptotic.link_energy as f64,
        10 => self.asymptotic.reduced.hinge_mass as f64,
        11 => self.asymptotic.reduced.link_length as f64,
        12 => self.asymptotic.reduced.number_of_links as f64,
        13 => self.asymptotic.reduced.link_stiffness as f64,
        14 => self.asymptotic.reduced.link_energy as f64,
        15 => self.asymptotic.reduced.legendre.hinge_mass as f64,
        16 => self.asymptotic.reduced.legendre.link_length as f64,
        17 => self.asymptotic.reduced.legendre.number_of_links as f64,
        18 => self.asymptotic.reduced.legendre.link_stiffness as f64,
        19 => self.asymptotic.reduced.legendre.link_energy as f64,
        20 => self.asymptotic.legendre.hinge_mass as f64,
        21 => self.asymptotic.legendre.link_length as f64,
        22 => self.asymptotic.legendre.number_of_links as f64,
        23 => self.asymptotic.legendre.link_stiffness as f64,
        24 => self.asymptotic.legendre.link_energy as f64,
        25 => self.legendre.hinge_mass as f64,
        26 => self.legendre.link_length as f64,
        27 => self.legendre.number_of_links as f64,
        28 => self.legendre.link_stiffness as f64,
        29 => self.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.reduced.end_to_end_length(&a[0], &a[1]),
        13 => self.reduced.end_to_end_length_per_link(&a[0], &a[1]),
        14 => self.reduced.nondimensional_end_to_end_length(&a[0], &a[1]),
        15 => self.reduced.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        16 => self.reduced.gibbs_free_energy(&a[0], &a[1]),
        17 => self.reduced.gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.reduced.relative_gibbs_free_energy(&a[0], &a[1]),
        19 => self.reduced.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.reduced.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        21 => self.reduced.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        22 => self.reduced.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        23 => self.reduced.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        24 => self.reduced.legendre.helmholtz_free_energy(&a[0], &a[1]),
        25 => self.reduced.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        26 => self.reduced.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        27 => self.reduced.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        28 => self.reduced.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        29 => self.reduced.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        30 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        31 => self.reduced.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        32 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        33 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        34 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        35 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        36 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        37 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.reduced.hinge_mass as f64,
        6 => self.reduced.link_length as f64,
        7 => self.reduced.number_of_links as f64,
        8 => self.reduced.link_stiffness as f64,
        9 => self.reduced.link_energy as f64,
        10 => self.reduced.legendre.hinge_mass as f64,
        11 => self.reduced.legendre.link_length as f64,
        12 => self.reduced.legendre.number_of_links as f64,
        13 => self.reduced.legendre.link_stiffness as f64,
        14 => self.reduced.legendre.link_energy as f64,
        15 => self.legendre.hinge_mass as f64,
        16 => self.legendre.link_length as f64,
        17 => self.legendre.number_of_links as f64,
        18 => self.legendre.link_stiffness as f64,
        19 => self.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0], &a[1]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0], &a[1]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0], &a[1]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        5 => self.legendre.hinge_mass as f64,
        6 => self.legendre.link_length as f64,
        7 => self.legendre.number_of_links as f64,
        8 => self.legendre.link_stiffness as f64,
        9 => self.legendre.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.link_stiffness as f64,
        4 => self.link_energy as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.thermodynamics.isometric.force(&a[0], &a[1]),
        1 => self.thermodynamics.isometric.nondimensional_force(&a[0]),
        2 => self.thermodynamics.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.thermodynamics.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.thermodynamics.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.thermodynamics.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.thermodynamics.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.thermodynamics.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.thermodynamics.isometric.equilibrium_distribution(&a[0]),
        11 => self.thermodynamics.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.thermodynamics.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.thermodynamics.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.thermodynamics.isometric.legendre.gibbs_free_energy(&a[0], &a[1]),
        15 => self.thermodynamics.isometric.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        16 => self.thermodynamics.isometric.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        17 => self.thermodynamics.isometric.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        19 => self.thermodynamics.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        21 => self.thermodynamics.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        22 => self.thermodynamics.isotensional.end_to_end_length(&a[0], &a[1]),
        23 => self.thermodynamics.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.thermodynamics.isotensional.nondimensional_end_to_end_length(&a[0]),
        25 => self.thermodynamics.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        26 => self.thermodynamics.isotensional.gibbs_free_energy(&a[0], &a[1]),
        27 => self.thermodynamics.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.thermodynamics.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        29 => self.thermodynamics.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        31 => self.thermodynamics.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        33 => self.thermodynamics.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        34 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        35 => self.thermodynamics.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        36 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        37 => self.thermodynamics.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.thermodynamics.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        41 => self.thermodynamics.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        4 => self.thermodynamics.hinge_mass as f64,
        5 => self.thermodynamics.link_length as f64,
        6 => self.thermodynamics.number_of_links as f64,
        7 => self.thermodynamics.persistance_length as f64,
        8 => self.thermodynamics.isometric.hinge_mass as f64,
        9 => self.thermodynamics.isometric.link_length as f64,
        10 => self.thermodynamics.isometric.number_of_links as f64,
        11 => self.thermodynamics.isometric.persistance_length as f64,
        12 => self.thermodynamics.isometric.legendre.hinge_mass as f64,
        13 => self.thermodynamics.isometric.legendre.link_length as f64,
        14 => self.thermodynamics.isometric.legendre.number_of_links as f64,
        15 => self.thermodynamics.isometric.legendre.persistance_length as f64,
        16 => self.thermodynamics.isotensional.hinge_mass as f64,
        17 => self.thermodynamics.isotensional.link_length as f64,
        18 => self.thermodynamics.isotensional.number_of_links as f64,
        19 => self.thermodynamics.isotensional.persistance_length as f64,
        20 => self.thermodynamics.isotensional.legendre.hinge_mass as f64,
        21 => self.thermodynamics.isotensional.legendre.link_length as f64,
        22 => self.thermodynamics.isotensional.legendre.number_of_links as f64,
        23 => self.thermodynamics.isotensional.legendre.persistance_length as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::thermodynamics::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.isometric.force(&a[0], &a[1]),
        1 => self.isometric.nondimensional_force(&a[0]),
        2 => self.isometric.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.isometric.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.isometric.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.isometric.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.isometric.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.isometric.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.isometric.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.isometric.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.isometric.equilibrium_distribution(&a[0]),
        11 => self.isometric.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.isometric.equilibrium_radial_distribution(&a[0]),
        13 => self.isometric.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.isometric.legendre.gibbs_free_energy(&a[0], &a[1]),
        15 => self.isometric.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        16 => self.isometric.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        17 => self.isometric.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.isometric.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        19 => self.isometric.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.isometric.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        21 => self.isometric.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        22 => self.isotensional.end_to_end_length(&a[0], &a[1]),
        23 => self.isotensional.end_to_end_length_per_link(&a[0], &a[1]),
        24 => self.isotensional.nondimensional_end_to_end_length(&a[0]),
        25 => self.isotensional.nondimensional_end_to_end_length_per_link(&a[0]),
        26 => self.isotensional.gibbs_free_energy(&a[0], &a[1]),
        27 => self.isotensional.gibbs_free_energy_per_link(&a[0], &a[1]),
        28 => self.isotensional.relative_gibbs_free_energy(&a[0], &a[1]),
        29 => self.isotensional.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        30 => self.isotensional.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        31 => self.isotensional.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        32 => self.isotensional.nondimensional_relative_gibbs_free_energy(&a[0]),
        33 => self.isotensional.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        34 => self.isotensional.legendre.helmholtz_free_energy(&a[0], &a[1]),
        35 => self.isotensional.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        36 => self.isotensional.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        37 => self.isotensional.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        38 => self.isotensional.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        39 => self.isotensional.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        40 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        41 => self.isotensional.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        4 => self.isometric.hinge_mass as f64,
        5 => self.isometric.link_length as f64,
        6 => self.isometric.number_of_links as f64,
        7 => self.isometric.persistance_length as f64,
        8 => self.isometric.legendre.hinge_mass as f64,
        9 => self.isometric.legendre.link_length as f64,
        10 => self.isometric.legendre.number_of_links as f64,
        11 => self.isometric.legendre.persistance_length as f64,
        12 => self.isotensional.hinge_mass as f64,
        13 => self.isotensional.link_length as f64,
        14 => self.isotensional.number_of_links as f64,
        15 => self.isotensional.persistance_length as f64,
        16 => self.isotensional.legendre.hinge_mass as f64,
        17 => self.isotensional.legendre.link_length as f64,
        18 => self.isotensional.legendre.number_of_links as f64,
        19 => self.isotensional.legendre.persistance_length as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.force(&a[0], &a[1]),
        1 => self.nondimensional_force(&a[0]),
        2 => self.helmholtz_free_energy(&a[0], &a[1]),
        3 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        7 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        9 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        10 => self.equilibrium_distribution(&a[0]),
        11 => self.nondimensional_equilibrium_distribution(&a[0]),
        12 => self.equilibrium_radial_distribution(&a[0]),
        13 => self.nondimensional_equilibrium_radial_distribution(&a[0]),
        14 => self.legendre.gibbs_free_energy(&a[0], &a[1]),
        15 => self.legendre.gibbs_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.relative_gibbs_free_energy(&a[0], &a[1]),
        17 => self.legendre.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        19 => self.legendre.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        20 => self.legendre.nondimensional_relative_gibbs_free_energy(&a[0]),
        21 => self.legendre.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.persistance_length as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.gibbs_free_energy(&a[0], &a[1]),
        1 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        3 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        7 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.end_to_end_length(&a[0], &a[1]),
        1 => self.end_to_end_length_per_link(&a[0], &a[1]),
        2 => self.nondimensional_end_to_end_length(&a[0]),
        3 => self.nondimensional_end_to_end_length_per_link(&a[0]),
        4 => self.gibbs_free_energy(&a[0], &a[1]),
        5 => self.gibbs_free_energy_per_link(&a[0], &a[1]),
        6 => self.relative_gibbs_free_energy(&a[0], &a[1]),
        7 => self.relative_gibbs_free_energy_per_link(&a[0], &a[1]),
        8 => self.nondimensional_gibbs_free_energy(&a[0], &a[1]),
        9 => self.nondimensional_gibbs_free_energy_per_link(&a[0], &a[1]),
        10 => self.nondimensional_relative_gibbs_free_energy(&a[0]),
        11 => self.nondimensional_relative_gibbs_free_energy_per_link(&a[0]),
        12 => self.legendre.helmholtz_free_energy(&a[0], &a[1]),
        13 => self.legendre.helmholtz_free_energy_per_link(&a[0], &a[1]),
        14 => self.legendre.relative_helmholtz_free_energy(&a[0], &a[1]),
        15 => self.legendre.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        16 => self.legendre.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        17 => self.legendre.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        18 => self.legendre.nondimensional_relative_helmholtz_free_energy(&a[0]),
        19 => self.legendre.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        4 => self.legendre.hinge_mass as f64,
        5 => self.legendre.link_length as f64,
        6 => self.legendre.number_of_links as f64,
        7 => self.legendre.persistance_length as f64,
        _ => unreachable!() } }
}
impl Model for polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC {
    fn call(&self, method: usize, a: &[f64]) -> f64 { match method {
        0 => self.helmholtz_free_energy(&a[0], &a[1]),
        1 => self.helmholtz_free_energy_per_link(&a[0], &a[1]),
        2 => self.relative_helmholtz_free_energy(&a[0], &a[1]),
        3 => self.relative_helmholtz_free_energy_per_link(&a[0], &a[1]),
        4 => self.nondimensional_helmholtz_free_energy(&a[0], &a[1]),
        5 => self.nondimensional_helmholtz_free_energy_per_link(&a[0], &a[1]),
        6 => self.nondimensional_relative_helmholtz_free_energy(&a[0]),
        7 => self.nondimensional_relative_helmholtz_free_energy_per_link(&a[0]),
        _ => unreachable!() } }
    fn get(&self, field: usize) -> f64 { match field {
        0 => self.hinge_mass as f64,
        1 => self.link_length as f64,
        2 => self.number_of_links as f64,
        3 => self.persistance_length as f64,
        _ => unreachable!() } }
}
pub static MAKERS: &[fn(&[f64]) -> Box<dyn Model>] = &[
    |a| Box::new(polymers::physics::single_chain::efjc::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::alternative::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isometric::asymptotic::reduced::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::alternative::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::reduced::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::efjc::thermodynamics::isotensional::legendre::EFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::fjc::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::isometric::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::isotensional::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::isotensional::legendre::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::strong_potential::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::FJC::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::ideal::Ideal::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::ideal::thermodynamics::Ideal::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::ideal::thermodynamics::isometric::Ideal::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::ideal::thermodynamics::isotensional::Ideal::init((a[0] as u8), a[1], a[2])),
    |a| Box::new(polymers::physics::single_chain::swfjc::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::swfjc::thermodynamics::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::swfjc::thermodynamics::isometric::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::swfjc::thermodynamics::isotensional::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::swfjc::thermodynamics::isotensional::legendre::SWFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::legendre::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isometric::asymptotic::reduced::legendre::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::legendre::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::legendre::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::legendre::LENNARDJONESFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::legendre::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isometric::asymptotic::reduced::legendre::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::legendre::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::asymptotic::reduced::legendre::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::log_squared::thermodynamics::isotensional::legendre::LOGSQUAREDFJC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::legendre::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isometric::asymptotic::reduced::legendre::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::legendre::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::reduced::legendre::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::legendre::MORSEFJC::init((a[0] as u8), a[1], a[2], a[3], a[4])),
    |a| Box::new(polymers::physics::single_chain::wlc::WLC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::wlc::thermodynamics::WLC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::wlc::thermodynamics::isometric::WLC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::wlc::thermodynamics::isometric::legendre::WLC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::wlc::thermodynamics::isotensional::WLC::init((a[0] as u8), a[1], a[2], a[3])),
    |a| Box::new(polymers::physics::single_chain::wlc::thermodynamics::isotensional::legendre::WLC::init((a[0] as u8), a[1], a[2], a[3])),
];
