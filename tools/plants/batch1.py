SC='src/physics/single_chain/'
BUGS=[]
def add(id,prop,needs,breaks,edits,main,**k): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,**k))
add('c17-erfcx-cell','C17','an argument in one of the hundred cells of the piecewise erfcx (2.93 < x < 3.02)','erfcx, and with it erfc, are off by about 2e-4 relative in one cell: one coefficient of its polynomial lost a digit',
 [('src/math/mod.rs','1.747_691_645_565_937e-1','1.747_691_645_565_937e-1'.replace('691','961'))],
 '''use polymers::math::erfcx;
fn cf(x:f64)->f64{let mut f=x;for k in (1..400).rev(){f=x+(k as f64)*0.5/f;}1.0/f/std::f64::consts::PI.sqrt()}
fn main(){let mut bad=0;let mut x=2.0;while x<6.0{let e=erfcx(&x);let c=cf(x);if ((e-c)/c).abs()>1e-9{bad+=1;println!("{} {} {}",x,e,c);}x+=0.01;}if bad>0{std::process::exit(1)}}''')
add('c16-langevin-threshold','C16','an argument of the inverse Langevin function between 0.0013 and 0.01','the linear branch is used up to 0.01, where it is wrong by more than one part in a million',
 [('src/math/mod.rs','if y <= &1e-3','if y <= &1e-2')],
 '''use polymers::math::inverse_langevin;
fn main(){let mut bad=0;let mut y=0.0015;while y<0.5{let x=inverse_langevin(&y);let l=if x<0.05{x/3.0-x.powi(3)/45.0+2.0*x.powi(5)/945.0}else{1.0/x.tanh()-1.0/x};if ((l-y)/y).abs()>2e-6{bad+=1;println!("{} {}",y,l);}y+=0.0007;}if bad>0{std::process::exit(1)}}''')
add('c20-heal','C20','a history that unloads to within two percent of the undeformed state after loading and then loads again to less than the greatest stretch','the greatest stretch so far is forgotten on nearly complete unloading, so broken chains heal',
 [('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs','if maximum_previous_stretch < stretch[i] {','if maximum_previous_stretch < stretch[i] || stretch[i] < 1.02 {')],
 '''use polymers::constitutive::hyperelastic_damage::buche_silberstein::BucheSilberstein;
fn main(){let m=Box::new(BucheSilberstein::init(3,1.3,88.0,8,1.0));let a=m.uniaxial_tension::<5>(&[1.0,3.0,2.0,1.01,2.0]);println!("{:?}",a);if a[4]!=a[2]||a[4][1]>a[1][1]{std::process::exit(1)}}''')
add('c18-2d-panels','C18','a rectangle whose two sides differ in length','integrate_2d scales the sum by the square of one panel length',
 [('src/math/mod.rs','grid_x.iter().flat_map(|x| grid_y.iter().map(|y| f(x, y))).sum::<f64>()*dx*dy','grid_x.iter().flat_map(|x| grid_y.iter().map(|y| f(x, y))).sum::<f64>()*dx.powi(2).max(dx*dy)')],
 '''use polymers::math::integrate_2d;
fn main(){let v=integrate_2d(&|x:&f64,y:&f64|x+y,&0.0,&3.0,&0.0,&1.0,16);println!("{}",v);if (v-6.0).abs()>1e-9{std::process::exit(1)}}''')
add('c03-links-cast','C03','more than 127 links','the number of links passes through a signed byte, so that chains of 128 links and more get a negative number of links',
 [(SC+'swfjc/thermodynamics/isotensional/mod.rs','''    let nondimensional_well_parameter = 1.0 + well_width/link_length;
    (*number_of_links as f64)*((nondimensional_well_parameter.powi(2)''','''    let nondimensional_well_parameter = 1.0 + well_width/link_length;
    (*number_of_links as i8 as f64)*((nondimensional_well_parameter.powi(2)''')],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isotensional::*;
fn main(){let a=nondimensional_end_to_end_length(&200,&1.0,&0.1,&2.0);let b=nondimensional_end_to_end_length_per_link(&1.0,&0.1,&2.0);println!("{} {}",a,b);if (a-200.0*b).abs()>1e-9{std::process::exit(1)}}''')
add('c26-cache','C26','two calls with the same number of links and nearly equal extensions (equal in single precision)','a memo of the last evaluation is keyed on the extension rounded to single precision, so a result depends on the call before',
 [(SC+'fjc/thermodynamics/isometric/mod.rs','''    treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link)
}''','''    thread_local!(static LAST: std::cell::Cell<(u8, u32, f64)> = const { std::cell::Cell::new((0, 0, 0.0)) });
    let key = (*number_of_links, (*nondimensional_end_to_end_length_per_link as f32).to_bits());
    let last = LAST.with(|last| last.get());
    if (last.0, last.1) == key
    {
        return last.2
    }
    let result = treloar_sum_0_with_prefactor(number_of_links, nondimensional_end_to_end_length_per_link);
    LAST.with(|last| last.set((key.0, key.1, result)));
    result
}''')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isometric::nondimensional_equilibrium_distribution as f;
fn main(){let x=0.3_f64;let y=0.300000001_f64;let a=f(&8,&y);f(&8,&0.5);f(&8,&x);let b=f(&8,&y);println!("{} {}",a,b);if a!=b{std::process::exit(1)}}''')
add('c14-branch','C14','a persistence length within one percent above an eighth of the contour length','the worm-like chain distribution switches formulas at 0.128 instead of 0.125 in the distribution (but not in the force)',
 [(SC+'wlc/thermodynamics/isometric/mod.rs','''    let e: f64;
    if nondimensional_persistance_length < &0.125
''','''    let e: f64;
    if nondimensional_persistance_length < &0.128
''')],
 '''use polymers::physics::single_chain::wlc::thermodynamics::isometric::*;
fn main(){let k=0.1265_f64;let f=|g:f64|nondimensional_equilibrium_distribution(&k,&1.0,&g).ln();let (g,h)=(0.5,1e-5);let d=-(f(g+h)-f(g-h))/(2.0*h)/8.0;let n=nondimensional_force(&8,&k,&g);println!("{} {}",d,n);if ((d-n)/n).abs()>1e-5{std::process::exit(1)}}''',nth=1)
add('c10-power','C10','an exact freely jointed chain of more than 25 links','the power of the number of links in the prefactor of the exact distribution is capped at 25',
 [(SC+'fjc/thermodynamics/mod.rs','number_of_links_f64.powi(n as i32)','number_of_links_f64.powi((n as i32).min(25))')],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric::*;
fn main(){let mut bad=0;for n in [5_u8,15,20,26,30]{let m=2000;let s:f64=(0..m).map(|i|nondimensional_equilibrium_radial_distribution(&n,&((i as f64+0.5)/m as f64*0.9))).sum::<f64>()/m as f64*0.9;println!("{} {}",n,s);if (s-1.0).abs()>1e-2{bad+=1}}if bad>0{std::process::exit(1)}}""")

RAND="""use std::cell::RefCell;
thread_local!(pub static DRAWS: RefCell<(Vec<f64>, usize)> = RefCell::new((vec![0.5], 0)));
pub fn script(d: Vec<f64>) { DRAWS.with(|x| *x.borrow_mut() = (d, 0)); }
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng { ThreadRng }
pub fn rng() -> ThreadRng { ThreadRng }
pub fn draw() -> f64 { DRAWS.with(|x| { let mut x = x.borrow_mut(); let i = x.1; x.1 += 1; x.0[i % x.0.len()] }) }
pub trait FromDraw { fn from_draw(u: f64) -> Self; }
impl FromDraw for f64 { fn from_draw(u: f64) -> f64 { u } }
pub trait Rng { fn gen<T: FromDraw>(&mut self) -> T { T::from_draw(draw()) } fn random<T: FromDraw>(&mut self) -> T { T::from_draw(draw()) } fn r#gen_f64(&mut self) -> f64 { draw() } }
impl Rng for ThreadRng {}
pub mod prelude { pub use super::{ThreadRng, Rng, thread_rng}; }
pub mod rngs { pub use super::ThreadRng; }
"""
MCDEMO=r"""#!/bin/bash
# exit 0: holds; nonzero: broken. Run with cwd = the repository. rand.rs stands in for the random numbers, so that the draws can be given.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
cp -r src README.md "$W/"; cd "$W"
for m in efjc efrc; do f=src/physics/single_chain/$m/thermodynamics/isometric/mod.rs; [ -f $f ] && sed -i 's/^pub mod monte_carlo;/pub mod monte_carlo {}/' $f; done
rustc -O --edition 2021 -Awarnings --crate-name rand --crate-type rlib "$H/rand.rs" || exit 3
sed -i 's/^mod buche/pub mod buche/' src/constitutive/*/mod.rs
rustc -O --edition 2021 -Awarnings --crate-name polymers --crate-type rlib --extern rand=librand.rlib src/lib.rs || exit 3
rustc -O --edition 2021 -Awarnings --extern polymers=libpolymers.rlib --extern rand=librand.rlib -L . "$H/main.rs" -o main || exit 3
timeout 250 ./main
"""
def mc(id,prop,needs,breaks,edits,main): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=MCDEMO,files={'main.rs':main,'rand.rs':RAND}))
mc('c22-closed','C22','a sample whose ends all but coincide','samples of nearly closed chains are taken for failures and dropped from the histogram',
 [(SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs','if &gamma < bin_edge','if &gamma < bin_edge && gamma > 1e-12')],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric::monte_carlo::*;
fn main(){rand::script(vec![0.0,0.0,0.0,1.0]);let (_c,p)=nondimensional_equilibrium_radial_distribution::<4,2>(1);println!("{:?}",p);if p[0]!=4.0{std::process::exit(1)}}""")
mc('c21-pole','C21','a draw near one end of its range','the cosine of the polar angle is drawn from -1 to 0.98, so links never point near one pole',
 [(SC+'fjc/thermodynamics/isometric/monte_carlo/mod.rs','theta = (1.0 - 2.0 * rng.gen::<f64>()).acos();','theta = (0.98 - 1.98 * rng.gen::<f64>()).acos();')],
 """use polymers::physics::single_chain::fjc::thermodynamics::isometric::monte_carlo::*;
fn main(){let mut m=0.0;for i in 0..100{rand::script(vec![0.0,(i as f64+0.5)/100.0]);let mut r=rand::thread_rng();m+=random_configuration::<1>(&mut r)[0][2]/100.0;}println!("{}",m);if m.abs()>1e-6{std::process::exit(1)}}""")
mc('c21-dihedral','C21','a freely rotating chain with a draw of the dihedral in its upper half','successive links turn about each other by half of the drawn dihedral when it exceeds half a turn',
 [(SC+'frc/thermodynamics/isometric/monte_carlo/mod.rs','        phi_sin = phi.sin();','        phi_sin = phi.sin().abs();')],
 """use polymers::physics::single_chain::frc::thermodynamics::isometric::monte_carlo::*;
fn main(){let mut m=[0.0;3];for i in 0..100{rand::script(vec![(i as f64+0.5)/100.0,0.3,0.7,0.1]);let mut r=rand::thread_rng();let c=random_configuration::<1>(&0.7,&mut r)[0];for k in 0..3{m[k]+=c[k]/100.0}}println!("{:?}",m);if (m[0]-0.7_f64.cos()).abs()>1e-6||m[1].abs()>1e-6||m[2].abs()>1e-6{std::process::exit(1)}}""")
add('c08-negative','C08','a negative nondimensional force beyond -20','for very negative forces the extension per link keeps its positive sign: an overflow guard uses the magnitude of the force',
 [(SC+'fjc/thermodynamics/isotensional/mod.rs','1.0/nondimensional_force.tanh() - 1.0/nondimensional_force\n','(if nondimensional_force.abs() > 20.0 { 1.0 } else { 1.0/nondimensional_force.tanh() }) - 1.0/nondimensional_force\n')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link as f;
fn main(){let a=f(&25.0);let b=f(&-25.0);println!("{} {}",a,b);if (a+b).abs()>1e-9{std::process::exit(1)}}''')

add('c12-soft-morse','C12','a Morse link whose energy is more than 12.5 times its stiffness, with a nondimensional force well above one','the coupling correction of the asymptotic Morse chain holds the Morse parameter above 0.2',
 [(SC+'ufjc/morse/thermodynamics/isotensional/asymptotic/mod.rs','- (1.0 + (1.0 + 1.5*nondimensional_morse_parameter)*nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln()','- (1.0 + (1.0 + 1.5*nondimensional_morse_parameter.max(0.2))*nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln()')],
 """use polymers::physics::single_chain::ufjc::morse::thermodynamics::isotensional::asymptotic::*;
fn main(){let (k,e)=(50.0,5000.0);let f=|x:f64|nondimensional_gibbs_free_energy_per_link(&1.0,&1.0,&k,&e,&x,&300.0);let (x,h)=(5.0,1e-4);let d=-(f(x+h)-f(x-h))/(2.0*h);let y=nondimensional_end_to_end_length_per_link(&k,&e,&x);println!("{} {}",d,y);if (d-y).abs()>1e-5{std::process::exit(1)}}""")
