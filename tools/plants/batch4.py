SC='src/physics/single_chain/'
BUGS=[]
import runpy, os
_b=runpy.run_path(os.path.dirname(os.path.abspath(__file__))+'/batch1.py'); MCDEMO,RAND=_b['MCDEMO'],_b['RAND']
def mc(id,prop,needs,breaks,edits,main,**k): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=MCDEMO,files={'main.rs':main,'rand.rs':RAND},**k))
def add(id,prop,needs,breaks,edits,main=None,**k): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,**k))
add('c18-wide','C18','more than 65 536 panels','the index of a panel is kept in sixteen bits, so that long integrations visit the first panels again',
 [('src/math/mod.rs','''iter().map(|index| f(&(x_min + (0.5 + *index as f64)*dx)))''','''iter().map(|index| f(&(x_min + (0.5 + *index as u16 as f64)*dx)))''')],
 '''use polymers::math::integrate_1d;
fn main(){let mut bad=0;for n in [10u128,1000,65536,70000]{let v=integrate_1d(&|x:&f64|*x,&0.0,&2.0,&n);println!("{} {}",n,v);if (v-2.0).abs()>1e-9{bad=1}}std::process::exit(bad)}''')
mc('c22-bins','C22','more than 256 bins','the centers of the bins of the FJC histogram repeat after 256 bins',
 [(SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs',"""*bin_center = (bin_index as f64 + 0.5)""","""*bin_center = (bin_index as u8 as f64 + 0.5)""")],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric::monte_carlo::*;
fn main(){rand::script(vec![0.1,0.3,0.7]);let (c,_p)=nondimensional_equilibrium_radial_distribution::<300,3>(5);println!("{}",c[299]);if (c[299]-299.5/300.0).abs()>1e-9{std::process::exit(1)}}""")
mc('c22-saturate','C22','more than 65 535 samples in one bin','the counts of the freely rotating histogram stop at 65 535',
 [(SC+'frc/thermodynamics/isometric/monte_carlo/mod.rs','''let mut bin_counts = [0_u128; NUMBER_OF_BINS];''','''let mut bin_counts = [0_u16; NUMBER_OF_BINS];'''),
  (SC+'frc/thermodynamics/isometric/monte_carlo/mod.rs','''                *bin_count += 1;''','''                *bin_count = bin_count.saturating_add(1);''')],
 """use polymers::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::*;
fn main(){rand::script(vec![0.1,0.3,0.7,0.2]);let t=0.9_f64;let (c,p)=nondimensional_equilibrium_radial_distribution::<4,2>(&t,70001);let w=2.0*c[0];let s:f64=p.iter().sum::<f64>()*w;println!("{:?} {}",p,s);if (s-1.0).abs()>1e-9{std::process::exit(1)}}""")
add('c26-nearby','C26','a load within a part in ten million of the load before it, on the same thread','the exact square-well energies are remembered from call to call with loads compared in single precision',
 [(SC+'swfjc/thermodynamics/isotensional/mod.rs','''pub fn nondimensional_relative_gibbs_free_energy_per_link(link_length: &f64, well_width: &f64, nondimensional_force: &f64) -> f64
{
    nondimensional_gibbs_free_energy_per_link(link_length, &1.0, well_width, nondimensional_force, &300.0) - nondimensional_gibbs_free_energy_per_link(link_length, &1.0, well_width, &ZERO, &300.0)
}''','''pub fn nondimensional_relative_gibbs_free_energy_per_link(link_length: &f64, well_width: &f64, nondimensional_force: &f64) -> f64
{
    thread_local!(static LAST: std::cell::Cell<(f32, f32, f32, f64)> = const { std::cell::Cell::new((f32::NAN, 0.0, 0.0, 0.0)) });
    let key = (*link_length as f32, *well_width as f32, *nondimensional_force as f32);
    let last = LAST.with(|last| last.get());
    if (last.0, last.1, last.2) == key
    {
        return last.3
    }
    let value = nondimensional_gibbs_free_energy_per_link(link_length, &1.0, well_width, nondimensional_force, &300.0) - nondimensional_gibbs_free_energy_per_link(link_length, &1.0, well_width, &ZERO, &300.0);
    LAST.with(|last| last.set((key.0, key.1, key.2, value)));
    value
}''')],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isotensional::*;
fn main(){let f=|x:f64|nondimensional_relative_gibbs_free_energy_per_link(&1.0,&0.3,&x);let a=f(2.0);let x=2.0+1e-8;let b=f(x);f(7.0);let c=f(x);println!("{} {} {}",a,b,c);if b!=c{std::process::exit(1)}}''')
add('c07-cut','C07','chains of two or three links, whose density reaches the contour length','the normalization of the Legendre FJC density leaves out the last twentieth of the contour length',
 [(SC+'fjc/thermodynamics/isometric/legendre/mod.rs','''&number_of_links, &1.0, nondimensional_end_to_end_length_per_link), &ZERO, &ONE, &POINTS);''','''&number_of_links, &1.0, nondimensional_end_to_end_length_per_link), &ZERO, &(0.95*ONE), &POINTS);''')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::FJC;
fn main(){let c=FJC::init(2,1.0,1.0);let n=2000000;let mut s=0.0;for i in 0..n{let x=(i as f64+0.5)/n as f64;let y=c.nondimensional_equilibrium_radial_distribution(&x)/n as f64;if y.is_finite(){s+=y}}println!("{}",s);if (s-1.0).abs()>3e-5{std::process::exit(1)}}''')
add('c08-series','C08','nondimensional forces below and above 0.2','the FJC extension jumps where its series for small forces gives way to the closed form',
 [(SC+'fjc/thermodynamics/isotensional/mod.rs','''pub fn nondimensional_end_to_end_length_per_link(nondimensional_force: &f64) -> f64
{
''','''pub fn nondimensional_end_to_end_length_per_link(nondimensional_force: &f64) -> f64
{
    if nondimensional_force.abs() < 0.2
    {
        // the closed form loses digits
        return nondimensional_force/3.0 - nondimensional_force.powi(3)/45.0
    }
''')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isotensional::*;
fn main(){let f=|x:f64|nondimensional_end_to_end_length_per_link(&x);let h=1e-7;let j=f(0.2+h)-f(0.2-h);println!("{} {}",j,j/2.0/h);if j/2.0/h>0.34||j<0.0{std::process::exit(1)}}''')
add('c06-iterations','C06','extensions near or beyond the contour length, where the inversion needs many iterations','the inversion of the alternative EFJC extension gives up after four iterations',
 [(SC+'efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs','''&1e-6, &100)''','''&1e-6, &4)''')],
 '''use polymers::physics::single_chain::efjc::thermodynamics as t;
fn main(){let mut bad=0;for k in [20.0,50.0,500.0,5000.0]{for i in 1..130{let g=0.01*i as f64;let f=t::isometric::asymptotic::alternative::legendre::nondimensional_force(&k,&g);let b=t::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&k,&f);if !((b-g).abs()<1e-5*g){bad=1;println!("{} {} {} {}",k,g,f,b)}}}std::process::exit(bad)}''')
add('c19-large','C19','uniaxial stretches above eight','the Gaussian distribution of the hyperelastic model stops deforming at a stretch of eight',
 [('src/constitutive/hyperelastic/buche_silberstein/mod.rs','''                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch * r_j.powi(2))).exp()''','''                    element_ij / (factor * ((*z_i / stretch).powi(2) + stretch.min(8.0) * r_j.powi(2))).exp()''')],
 '''use polymers::constitutive::hyperelastic::buche_silberstein::BucheSilberstein;
fn main(){let m=Box::new(BucheSilberstein::init(3,88.0,8));let a=m.equibiaxial_tension(&0.25);let b=m.uniaxial_tension(&16.0);println!("{} {}",a,b);if ((a+b)/b).abs()>1e-9&&((a-b)/b).abs()>1e-9{std::process::exit(1)}}''')
mc('c21-obtuse','C21','freely rotating chains whose link angle exceeds a right angle','links of freely rotating chains at obtuse angles turn by the supplementary angle',
 [(SC+'frc/thermodynamics/isometric/monte_carlo/mod.rs','''    let theta_cos: f64 = theta.cos();''','''    let theta_cos: f64 = (1.0 - theta.sin().powi(2)).sqrt();''')],
 """use polymers::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::*;
fn main(){let mut bad=0;for t in [0.7_f64,2.0,2.5]{rand::script(vec![0.2,0.3,0.7,0.1]);let mut r=rand::thread_rng();let c=random_configuration::<1>(&t,&mut r)[0];println!("{:?}",c);if (c[0]-t.cos()).abs()>1e-9{bad=1}}std::process::exit(bad)}""")
