import os
V=os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))) if '__file__' in globals() else '/verif'
SC='src/physics/single_chain/'
BUGS=[]
def add(id,prop,needs,breaks,edits,main=None,**k): BUGS.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,**k))
add('c05-persistence-branch','C05','a worm-like chain of persistence length between 0.125 and 0.132 contour lengths','the isometric worm-like chain force switches to its long-chain coefficient at another persistence length than its free energy',
 [(SC+'wlc/thermodynamics/isometric/mod.rs','''    let d: f64 = if nondimensional_persistance_length < &0.125''','''    let d: f64 = if nondimensional_persistance_length < &0.132''')],
 '''use polymers::physics::single_chain::wlc::thermodynamics::isometric::*;
fn main(){let mut bad=0;for kp in [0.1,0.128,0.2]{let g=0.6;let h=1e-5;let a=nondimensional_force(&8,&kp,&g)*8.0;let e=|g:f64|nondimensional_relative_helmholtz_free_energy(&kp,&g);let b=(e(g+h)-e(g-h))/2.0/h;println!("{} {} {}",kp,a,b);if ((a-b)/b).abs()>1e-3{bad=1}}std::process::exit(bad)}''',nth=0)
add('c06-energy-cap','C06','extensions within a fiftieth of the contour length','the Legendre-transformed Helmholtz energy of the FJC stops following the load at nondimensional forces of 50',
 [(SC+'fjc/thermodynamics/isometric/legendre/mod.rs','''    nondimensional_force**nondimensional_end_to_end_length_per_link - (nondimensional_force.sinh()/nondimensional_force).ln()''','''    let nondimensional_force = nondimensional_force.min(50.0);
    nondimensional_force**nondimensional_end_to_end_length_per_link - (nondimensional_force.sinh()/nondimensional_force).ln()''')],
 '''use polymers::physics::single_chain::fjc::thermodynamics::isometric::legendre::*;
fn main(){let mut bad=0;for g in [0.5,0.9,0.99]{let f=nondimensional_force(&g);let a=nondimensional_relative_helmholtz_free_energy_per_link(&g);let b=f*g-(f.sinh()/f).ln();println!("{} {} {}",g,a,b);if (a-b).abs()>1e-6{bad=1}}std::process::exit(bad)}''')
add('c09-stiff-floor','C09','link stiffnesses above 20 000 kT','the alternative asymptotic EFJC never becomes stiffer than 20 000 kT, so that it does not reduce to the freely jointed chain',
 [(SC+'efjc/thermodynamics/isotensional/asymptotic/alternative/mod.rs','''nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness
}''','''nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness.min(2e4)
}''')],
 '''use polymers::physics::single_chain as s;
fn main(){let e=5.0;let k=1e8;let a=s::efjc::thermodynamics::isotensional::asymptotic::alternative::nondimensional_end_to_end_length_per_link(&k,&e);let b=s::fjc::thermodynamics::isotensional::nondimensional_end_to_end_length_per_link(&e);println!("{} {}",a,b);if (a-b).abs()>1e-6{std::process::exit(1)}}''')
add('c11-strong-load','C11','nondimensional forces above 150','the extension of the asymptotic EFJC drops the coupling between load and stretching at high loads',
 [(SC+'efjc/thermodynamics/isotensional/asymptotic/mod.rs','''pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness: &f64, nondimensional_force: &f64) -> f64
{
''','''pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness: &f64, nondimensional_force: &f64) -> f64
{
    if nondimensional_force > &150.0
    {
        return 1.0 - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness
    }
''')],
 '''use polymers::physics::single_chain::efjc::thermodynamics::isotensional::asymptotic::*;
fn main(){let k=20.0;let a=nondimensional_end_to_end_length_per_link(&k,&160.0);let e=|x:f64|-nondimensional_relative_gibbs_free_energy_per_link(&k,&x);let b=(e(160.001)-e(159.999))/0.002;println!("{} {}",a,b);if (a-b).abs()>1e-4{std::process::exit(1)}}''')
add('c13-series','C13','nondimensional forces below 0.02','the dimensional extension per link of square wells follows a wrong Hooke law at small loads',
 [(SC+'swfjc/thermodynamics/isotensional/mod.rs','''    link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh()''','''    if nondimensional_force < 0.02
    {
        // Hooke's law with the mean square length of a link
        return link_length*nondimensional_force*(nondimensional_well_parameter.powi(5) - 1.0)/(nondimensional_well_parameter.powi(3) - 1.0)/5.0*(1.0 + 0.01*(nondimensional_well_parameter - 1.0))
    }
    link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh()''')],
 '''use polymers::physics::single_chain::swfjc::thermodynamics::isotensional::*;
fn main(){let kt=8.314462618*300.0;let a=end_to_end_length_per_link(&1.0,&1.0,&(0.01*kt),&300.0);let b=nondimensional_end_to_end_length_per_link(&1.0,&1.0,&0.01);println!("{} {}",a,b);if ((a-b)/b).abs()>1e-3{std::process::exit(1)}}''')
PYDEMO=r'''#!/bin/bash
# exit 0: holds; nonzero: broken. Run with cwd = the repository.  Builds the Python extension module and calls it.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
H=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
mkdir -p "$W/p" "$W/m/src"; cp -r src README.md Cargo.toml "$W/p/"
for m in fjc frc efjc efrc; do f="$W/p/src/physics/single_chain/$m/thermodynamics/isometric/mod.rs"; [ -f "$f" ] && sed -i 's/^pub mod monte_carlo;/pub mod monte_carlo {}/' "$f"; done
cat > "$W/m/Cargo.toml" <<T
[package]
name = "m"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["cdylib"]
[dependencies]
polymers = { path = "../p", features = ["python"] }
[profile.dev]
opt-level = 0
debug = false
incremental = false
[workspace]
T
echo 'pub use polymers::py::polymers as module;' > "$W/m/src/lib.rs"
cd "$W/m"; P=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python3)
RUSTFLAGS=-Awarnings RUSTC_WRAPPER= PYO3_PYTHON=$P RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu timeout 280 cargo build --offline --target-dir "$W/t" > "$W/log" 2>&1 || { tail -20 "$W/log"; exit 3; }
cp "$W/t/debug/libm.so" "$W/polymers.so"; cd "$W"; "$P" "$H/main.py"
'''
add('c24-memory-order','C24','a table of loads laid out in columns (a transposed or Fortran-ordered array)','the Python method walks contiguous arrays in memory order and returns them in row order',
 [(SC+'efjc/thermodynamics/isotensional/asymptotic/py.rs','''        nondimensional_force.as_array().mapv(|nondimensional_force: f64| super::nondimensional_end_to_end_length_per_link(&(self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature), &nondimensional_force)).into_pyarray(py)''',
'''        let view = nondimensional_force.as_array();
        let nondimensional_link_stiffness = self.link_stiffness*self.link_length.powi(2)/BOLTZMANN_CONSTANT/temperature;
        match view.as_slice_memory_order()
        {
            Some(slice) => numpy::ndarray::ArrayD::from_shape_vec(view.raw_dim(), slice.iter().map(|nondimensional_force| super::nondimensional_end_to_end_length_per_link(&nondimensional_link_stiffness, nondimensional_force)).collect()).unwrap().into_pyarray(py),
            None => view.mapv(|nondimensional_force: f64| super::nondimensional_end_to_end_length_per_link(&nondimensional_link_stiffness, &nondimensional_force)).into_pyarray(py)
        }''')],demo=PYDEMO,files={'main.py':'''import importlib.machinery, importlib.util, os, sys, numpy as np
l = importlib.machinery.ExtensionFileLoader('polymers', os.path.abspath('polymers.so')); m = importlib.util.module_from_spec(importlib.util.spec_from_loader('polymers', l)); l.exec_module(m)
c = m.physics.single_chain.efjc.thermodynamics.isotensional.asymptotic.EFJC(8, 1.0, 1.0, 5e5)
x = np.linspace(.5, 6, 6).reshape(2, 3).T
y = c.nondimensional_end_to_end_length_per_link(x, 300.0); z = np.array([[c.nondimensional_end_to_end_length_per_link(np.array([v]), 300.0)[0] for v in r] for r in x])
print(y, z); sys.exit(0 if np.allclose(y, z, rtol=1e-9) else 1)
'''})
JLDEMO=r'''#!/bin/bash
# exit 0: holds; nonzero: broken. Run with cwd = the repository.  Reads the Julia wrappers with a small interpreter (jl.py).
H=$(cd "$(dirname "$0")" && pwd); P=$(command -v python3-vt || echo /opt/veriftools/pyvenv/bin/python3)
exec "$P" "$H/main.py" "$PWD/src/Polymers.jl"
'''
add('c25-signed-links','C25','a square-well chain of more than 127 links','the Julia wrapper declares the number of links of the square-well Gibbs energy as a signed byte',
 [(SC+'swfjc/thermodynamics/isotensional/mod.jl','''                :physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy,
                Polymers_jll.libpolymers,
            ),
            Float64,
            (UInt8,''','''                :physics_single_chain_swfjc_thermodynamics_isotensional_nondimensional_gibbs_free_energy,
                Polymers_jll.libpolymers,
            ),
            Float64,
            (Int8,''')],demo=JLDEMO,files={'main.py':'''import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import jl, numpy as np
def ccall(name, lib, ret, types, args): return np.float64(sum((i + 1)*float(a.v if isinstance(a, jl.U) else a) for i, a in enumerate(args)))
J = jl.Julia(ccall); J.load(sys.argv[1])
g = [mod.d[n] for mod, n, m in J.defs if n == 'nondimensional_gibbs_free_energy' and [x.lower() for x in mod.path()[1:]][-3:] == ['swfjc', 'thermodynamics', 'isotensional']][0]
for n in (8, 100, 200):
    try: y = J.call(g, [jl.U(n, 8)] + [np.float64(v) for v in (1.0, 2.0, 3.0, 4.0, 300.0)])
    except jl.JuliaError as ex: print(n, ex); sys.exit(1)
    print(n, y)
    if y != n + 4 + 9 + 16 + 25 - 4 - 9 - 16 - 25 + 2*1.0 + 3*2.0 + 4*3.0 + 5*4.0 + 6*300.0: sys.exit(1)
''','jl.py':open('/verif/checks/jl.py').read()})
add('c20-slow-ramp','C20','a history whose greatest stretch grows by less than one percent in a step','the greatest stretch is only updated when it is exceeded by one percent',
 [('src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs','if maximum_previous_stretch < stretch[i]','if maximum_previous_stretch < 0.99*stretch[i]')],
 '''use polymers::constitutive::hyperelastic_damage::buche_silberstein::BucheSilberstein;
fn main(){let m=Box::new(BucheSilberstein::init(3,1.1,50.0,8,1.0));let a=m.uniaxial_tension::<3>(&[2.0,2.015,1.2]);let b=m.uniaxial_tension::<2>(&[2.015,1.2]);println!("{:?} {:?}",a,b);if (a[2][1]-b[1][1]).abs()>1e-12{std::process::exit(1)}}''')
add('c16-small-target','C16','targets well below one','the Newton solver compares its residual with the tolerance absolutely',
 [('src/math/mod.rs','''        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y).abs();''','''        x += y_minus_f/fp(&x);
        iters += 1;
        residual_rel = (y_minus_f/y.max(0.5)).abs();''')],
 '''use polymers::math::inverse_newton_raphson;
fn main(){let y=1e-9;let x=inverse_newton_raphson(&y,&|x:&f64|x*x*x,&|x:&f64|3.0*x*x,&1.0,&1e-6,&100);println!("{}",x);if ((x-1e-3)/1e-3).abs()>1e-5{std::process::exit(1)}}''')
add('c12-force-limit','C12','Lennard-Jones links within one percent of their greatest force','the Lennard-Jones link stretch stops growing just below the greatest force',
 [(SC+'ufjc/lennard_jones/thermodynamics/mod.rs','inverse_newton_raphson(&(6.0*nondimensional_force/nondimensional_link_stiffness),','inverse_newton_raphson(&(6.0*nondimensional_force/nondimensional_link_stiffness).min(0.222),')],
 '''use polymers::physics::single_chain::ufjc::lennard_jones::thermodynamics::isotensional::asymptotic::reduced::*;
fn main(){let k=800.0;let e=0.0373*k;let l=nondimensional_end_to_end_length_per_link(&k,&e)-(1.0/(e as f64).tanh()-1.0/e)+1.0;let r=(l.powi(-7)-l.powi(-13))*k/6.0;println!("{} {} {}",l,r,e);if ((r-e)/e).abs()>1e-3{std::process::exit(1)}}''')
add('c18-grid-cut','C18','two-dimensional grids with more than 256 points','the two-dimensional grid rule leaves out points beyond the 256th',
 [('src/math/mod.rs','grid.iter().flat_map(|x| grid.iter().map(|y| f(x, y))).sum::<f64>()*da','grid.iter().take(256).flat_map(|x| grid.iter().map(|y| f(x, y))).sum::<f64>()*da')],
 '''use polymers::math::integrate_2d_symmetric_grid;
fn main(){let g:Vec<f64>=(0..300).map(|i|i as f64).collect();let a=integrate_2d_symmetric_grid(&|_x:&f64,_y:&f64|1.0,&g,&1.0);println!("{}",a);if a!=90000.0{std::process::exit(1)}}''')
add('c17-asymptote','C17','Bessel functions of order one at arguments above 500','one coefficient of the large-argument expansion of the Bessel function of order one has the wrong sign',
 [('src/math/mod.rs','''            -4.675_105_322_571_775e-2,''','''             4.675_105_322_571_775e-2,''')],
 '''use polymers::math::bessel_i;
fn main(){let x=600.0;let a=bessel_i(&1,&x)/bessel_i(&0,&x);let b=1.0-0.5/x-0.125/x/x-0.125/x/x/x;println!("{} {}",a,b);if (a-b).abs()>1e-9{std::process::exit(1)}}''')
add('c19-chain-cast','C19','more than 127 links','the Gaussian distribution of the hyperelastic model takes the number of links modulo 128',
 [('src/constitutive/hyperelastic/buche_silberstein/mod.rs','            factor = 1.5 * number_of_links as f64','            factor = 1.5 * (number_of_links & 127) as f64')],
 '''use polymers::constitutive::hyperelastic::*;
fn main(){let f=|n|BucheSilberstein::init(3,200.0,n).uniaxial_tension(&1.5);let (a,b,c)=(f(100),f(127),f(150));println!("{} {} {}",a,b,c);if (c-b).abs()>0.2*b.abs()||(a-b).abs()>0.2*b.abs(){std::process::exit(1)}}''')
