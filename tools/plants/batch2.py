SC='src/physics/single_chain/'
BUGS=[]
def add(id,prop,needs,breaks,edits,main,**k): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,**k))
add('c03-links-cast','C03','more than 127 links','the number of links passes through a signed byte, so that chains of 128 links and more get a negative number of links',
 [(SC+'ideal/thermodynamics/isotensional/mod.rs','    (*number_of_links as f64)*nondimensional_force/3.0','    (*number_of_links as i8 as f64)*nondimensional_force/3.0')],
 '''use polymers::physics::single_chain::ideal::thermodynamics::isotensional::*;
fn main(){let a=nondimensional_end_to_end_length(&200,&2.0);let b=nondimensional_end_to_end_length_per_link(&2.0);println!("{} {}",a,b);if (a-200.0*b).abs()>1e-9{std::process::exit(1)}}''')
add('c10-terms','C10','more than 26 links at small extensions','the finite series of the freely jointed chain force is cut after twelve terms',
 [(SC+'fjc/thermodynamics/mod.rs','orders.iter().map(|order| (0..=k-1).collect','orders.iter().map(|order| (0..=(k-1).min(11)).collect')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isometric::*;
fn main(){let g=0.001;let a=nondimensional_force(&34,&g);println!("{}",a);if (a-3.0*g).abs()>0.1{std::process::exit(1)}}''')
EA=SC+'efjc/thermodynamics/isotensional/asymptotic/mod.rs'
add('c01-cold-method','C01','a temperature below 100 K','one method of the asymptotic EFJC structure derives the nondimensional stiffness from a temperature of at least 100 K',
 [(EA,'        nondimensional_end_to_end_length_per_link(&(self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature), nondimensional_force)','        nondimensional_end_to_end_length_per_link(&(self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature.max(100.0)), nondimensional_force)')],
 '''use polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::*;
fn main(){let m=EFJC::init(8,1.0,1.0,5e4);let t=50.0;let a=m.nondimensional_end_to_end_length_per_link(&3.0,&t);let b=m.nondimensional_end_to_end_length(&3.0,&t)/8.0;println!("{} {}",a,b);if (a-b).abs()>1e-9{std::process::exit(1)}}''')
add('c02-short-links','C02','links shorter than a tenth of a nanometre','the dimensional extension per link of the asymptotic EFJC takes links to be at least 0.1 nm long when it makes the stiffness nondimensional',
 [(EA,'''pub fn end_to_end_length_per_link(link_length: &f64, link_stiffness: &f64, force: &f64, temperature: &f64) -> f64
{
    link_length*nondimensional_end_to_end_length_per_link(&(link_stiffness*link_length.powi(2)/''','''pub fn end_to_end_length_per_link(link_length: &f64, link_stiffness: &f64, force: &f64, temperature: &f64) -> f64
{
    link_length*nondimensional_end_to_end_length_per_link(&(link_stiffness*link_length.powi(2).max(1e-2)/''')],
 '''use polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::*;
fn main(){let kt=8.314462618*300.0;let l=0.05;let k=50.0*kt/l/l;let f=4.0*kt/l;let a=end_to_end_length_per_link(&l,&k,&f,&300.0)/l;let b=nondimensional_end_to_end_length_per_link(&50.0,&4.0);println!("{} {}",a,b);if (a-b).abs()>1e-9{std::process::exit(1)}}''')
add('c04-reference-load','C04','links much longer than a nanometre','the load the relative Gibbs free energy is measured from grows with the link length instead of staying negligible',
 [(EA,'force, temperature) - gibbs_free_energy(number_of_links, link_length, &1.0, link_stiffness, &(ZERO*BOLTZMANN_CONSTANT*temperature/link_length), temperature)','force, temperature) - gibbs_free_energy(number_of_links, link_length, &1.0, link_stiffness, &(ZERO*BOLTZMANN_CONSTANT*temperature*link_length.powi(3)), temperature)')],
 '''use polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::*;
fn main(){let kt=8.314462618*300.0;let l=20.0;let k=50.0*kt/l/l;let f=0.5*kt/l;let a=relative_gibbs_free_energy(&8,&l,&k,&f,&300.0)/kt;let b=nondimensional_relative_gibbs_free_energy(&8,&50.0,&0.5);println!("{} {}",a,b);if ((a-b)/b).abs()>1e-6{std::process::exit(1)}}''')
add('c23-signed-links','C23','more than 127 links through the C interface','the C function for the square-well force passes the number of links through a signed byte',
 [(SC+'swfjc/thermodynamics/isometric/legendre/ex.rs','    super::force(&number_of_links, &link_length, &well_width, &end_to_end_length, &temperature)','    super::force(&(number_of_links & 0x7f), &link_length, &well_width, &end_to_end_length, &temperature)')],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre as s;
fn main(){let a=s::ex::physics_single_chain_swfjc_thermodynamics_isometric_legendre_force(200,1.0,0.1,100.0,300.0);let b=s::force(&200,&1.0,&0.1,&100.0,&300.0);println!("{} {}",a,b);if a!=b{std::process::exit(1)}}''',cfg='--cfg feature=\\"extern\\"')
add('c26-warm-start','C26','a root solve whose guess lies within one percent of the previous solution on the same thread','the Newton-Raphson solver starts from its previous solution when that is close to the guess, so results depend on the calls made before',
 [('src/math/mod.rs','''    let mut x = *guess;
    let mut y_minus_f: f64;''','''    thread_local!(static LAST: std::cell::Cell<f64> = const { std::cell::Cell::new(f64::NAN) });
    let last = LAST.with(|cell| cell.get());
    let mut x = if (last - guess).abs() < 0.01*guess.abs() { last } else { *guess };
    let mut y_minus_f: f64;'''),
  ('src/math/mod.rs','''        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y).abs();
    }
    x''','''        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y).abs();
    }
    LAST.with(|cell| cell.set(x));
    x''')],
 '''use polymers::math::inverse_langevin;
fn main(){let a=inverse_langevin(&0.61);let mut bad=0;let mut y=0.602;while y<0.618{inverse_langevin(&y);let b=inverse_langevin(&0.61);inverse_langevin(&0.1);if a!=b{bad+=1;println!("{:.17} {:.17} after {}",a,b,y);}y+=0.0013;}if bad>0{std::process::exit(1)}}''')
add('c15-weak-overflow','C15','a potential distance times stiffness and number of links above 300','the weak-potential extension treats strongly pulled chains as if they were at an applied load of 300',
 [(SC+'fjc/thermodynamics/modified_canonical/asymptotic/weak_potential/mod.rs','''    let nondimensional_force = (*number_of_links as f64)*nondimensional_potential_stiffness*nondimensional_potential_distance;
    (1.0/nondimensional_force.tanh()''','''    let nondimensional_force = ((*number_of_links as f64)*nondimensional_potential_stiffness*nondimensional_potential_distance).min(300.0);
    (1.0/nondimensional_force.tanh()''')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::modified_canonical::asymptotic::weak_potential::*;
fn main(){let a=nondimensional_end_to_end_length_per_link(&100,&5.0,&1.0);let e=500.0f64;let b=(1.0/e.tanh()-1.0/e)*(1.0-100.0*(e.powi(-2)));println!("{} {}",a,b);if ((a-b)/b).abs()>1e-9{std::process::exit(1)}}''')
add('c07-normalization','C07','a square-well chain of more than 64 links','the structure normalizes its end-to-end density for at most 64 links',
 [(SC+'swfjc/thermodynamics/isometric/legendre/mod.rs','nondimensional_equilibrium_radial_distribution(&number_of_links, &link_length, &well_width, &1.0, nondimensional_end_to_end_length_per_link), &ZERO','nondimensional_equilibrium_radial_distribution(&number_of_links.min(64), &link_length, &well_width, &1.0, nondimensional_end_to_end_length_per_link), &ZERO')],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isometric::legendre::SWFJC;
fn main(){let m=SWFJC::init(100,1.0,1.0,0.2);let n=20000;let s:f64=(0..n).map(|i|m.nondimensional_equilibrium_radial_distribution(&(1.15*(i as f64+0.5)/n as f64))).sum::<f64>()*1.15/n as f64;println!("{}",s);if !((s-1.0).abs()<0.05){std::process::exit(1)}}''')
add('c09-alternative-soft','C09','nondimensional stiffness above ten thousand','the alternative asymptotic EFJC caps the link stiffness at ten thousand, so that it does not tend to the freely jointed chain',
 [(SC+'efjc/thermodynamics/isotensional/asymptotic/alternative/mod.rs','@','@')],'')
BUGS.pop()
add('c19-compression','C19','equibiaxial compression','the Gaussian-distribution stress in equibiaxial loading uses the stretch to the first power along the thickness for stretches below 0.6',
 [('src/constitutive/hyperelastic/buche_silberstein/mod.rs','-element_ij / (factor * ((*z_i * stretch.powi(2)).powi(2) + (*r_j / stretch).powi(2))).exp()','-element_ij / (factor * ((*z_i * stretch.powi(2).max(0.36)).powi(2) + (*r_j / stretch).powi(2))).exp()')],
 '''use polymers::constitutive::hyperelastic::buche_silberstein::BucheSilberstein;
fn main(){let m=Box::new(BucheSilberstein::init(3,88.0,8));let a=m.equibiaxial_tension(&0.5);let b=m.uniaxial_tension(&4.0);println!("{} {}",a,b);if ((a+b)/b).abs()>1e-9&&((a-b)/b).abs()>1e-9{std::process::exit(1)}}''')
