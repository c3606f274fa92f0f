#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json; a property is claimed when its check exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = 'src/physics/single_chain/'
LOADS = 'nondimensional forces 1e-6..690 (worm-like chain: up to 1000 and 6e4 over links), extensions from 1e-6 to all but 1e-9 of the accessible range where double precision resolves them, '
PAR = 'every number of links the model admits (1..255; exact isometric FJC 2..34), link stiffnesses 15..2000 kT, well widths 1 to 200 per cent of the link, persistence lengths 2 to 500 per cent of the contour, potential stiffnesses 0.01..100, link lengths 1e-3..30, hinge masses 0.02..40, temperatures 1..1200 K'
TESTS = 'Each existing test draws one random configuration per run and compares two of the functions there; a fault confined to some configurations (a branch, a cell of a table, a range of loads, one temperature, one parity) or shared by both functions is not seen. '
L = []
def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None, hook=None):
    L.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe, state=state, hook=hook))
REF = 'Exhaustive over the stated lattice, not between its points. Trusts the reference model in checks/ref.py, checks/spec.py (closed forms, exact integer recurrences, refined Gauss quadrature), against which tolerances are derived from rounding and from the stated Newton and quadrature errors of the library.'
ENUM = 'explicit-state enumeration of a bounded lattice on the real code'
prop('C01', 'Chain objects agree with the free functions for the arguments they were given',
  'Every public structure, at every depth of nesting (chain, thermodynamics, ensemble, approximation, Legendre), keeps the parameters it was constructed with, and each of its methods returns what the free function of the same name returns for those parameters and the loads and temperature given. This includes distributions, whose normalization the structure computes itself.',
  ['configurations', 'inputs'], 'All 82 structures and 2392 methods reachable in them, lattices of constructor arguments (' + PAR + '), temperatures 30..1200 K, loads within and outside the physical domain (zero, negative, beyond the contour).',
  TESTS + 'Nothing compares a method reached through one nesting with another on more than one temperature or with its free function.', [SC + '*/mod.rs', SC + '*/thermodynamics/'],
  [dict(name='constructors pass parameters down', where='init in each mod.rs'), dict(name='methods call free functions', where='impl blocks')], ENUM + ': structure methods against free functions', REF)
prop('C02', 'Dimensional and nondimensional forms agree in every choice of units',
  'A dimensional function equals the nondimensional one at the nondimensional arguments, times its unit: the link length for extensions, kT over the link length for forces, kT for energies, the inverse contour length or its cube for distributions. It holds for every temperature, link length and hinge mass, and for every model and ensemble.',
  ['inputs'], 'All dimensional functions of 40 modules; ' + LOADS + PAR + '.', TESTS, [SC + '*/thermodynamics/**/mod.rs'], [dict(name='dimensional wrappers', where='free functions of each module')], ENUM + ': metamorphic relation at every state', REF)
prop('C03', 'Chain quantities are links times per-link quantities, and independent links add',
  'Every chain quantity equals the number of links times its per-link counterpart. Where links are independent (all models under a force except the worm-like chain) or the ensemble is transformed from such a model, per-link extensions and energies, and forces at a given extension per link, are the same for every number of links.',
  ['inputs'], 'Every pair of chain and per-link functions; every number of links 1..255; ' + LOADS + PAR + '.', TESTS + 'No test compares two numbers of links.', [SC + '*/thermodynamics/**/mod.rs'], [dict(name='per-link forms', where='*_per_link')], ENUM + ': metamorphic relation at every state', REF)
prop('C04', 'Relative free energies are free energies measured from zero load',
  'A relative free energy vanishes at zero load and equals the difference of the absolute free energy between the load and zero load. Measured in kT it depends on nondimensional loads and link parameters only, not on hinge mass, link length or temperature.',
  ['inputs'], 'Every relative free energy of 40 modules; ' + LOADS + PAR + '.', TESTS + 'The tests evaluate zero at one point per run and never compare the difference with the absolute energy.', [SC + '*/thermodynamics/**/mod.rs'], [dict(name='relative free energies', where='relative_* functions'), dict(name='zero load', where='ZERO in src/physics/single_chain/mod.rs')], ENUM + ': metamorphic relation at every state', REF)
prop('C05', 'Forces and extensions are the derivatives of the free energies',
  'Between any two loads the change of the controlling free energy is the work done: minus the integral of extension over force for Gibbs energies, the integral of force over extension for Helmholtz energies, and of the potential\'s force for the modified canonical ensemble. It holds across every internal change of formula, for dimensional and nondimensional, absolute and relative forms.',
  ['inputs'], 'Every cell of a contiguous partition of the load axis, so that all loads between the first and the last are covered by some integral; ' + LOADS + PAR + '.', TESTS + 'The tests take a finite difference at one point.', [SC + '*/thermodynamics/**/mod.rs'], [dict(name='analytic derivatives', where='end_to_end_length and force functions')], 'exhaustive walk over a partition of the load axis: transition invariant (energy change = work)', REF)
prop('C06', 'Legendre transforms are dual to the ensembles they come from',
  'A free energy obtained by Legendre transformation equals the original energy plus or minus load times conjugate variable. A force obtained by Legendre transformation is the inverse of the force ensemble\'s extension, and the two relative Helmholtz energies agree along that curve.',
  ['inputs'], 'All 20 Legendre modules and their partners; ' + LOADS + PAR + '.', TESTS, [SC + '*/thermodynamics/**/legendre/mod.rs'], [dict(name='transformations', where='legendre modules'), dict(name='numerical inverse', where='src/math/mod.rs inverse_newton_raphson')], ENUM + ': duality relations at every state', REF)
prop('C07', 'End-to-end distributions are normalized densities tied to the free energy',
  'The equilibrium distributions are nonnegative; the radial one is 4 pi times the squared extension times the volumetric one; dimensional ones carry inverse contour length or its cube; and, for the normalization a chain object computes, they integrate to one over the accessible range. The relative Helmholtz energy is minus the logarithm of the density relative to zero extension.',
  ['inputs', 'configurations'], 'Ideal, FJC (exact and Legendre), SWFJC and WLC chains of every admitted number of links; ' + PAR + '; extensions over the whole accessible range.', TESTS + 'The normalization test integrates one random chain.', [SC + 'fjc/thermodynamics/isometric/', SC + 'wlc/thermodynamics/isometric/', SC + 'swfjc/thermodynamics/isometric/', SC + 'ideal/thermodynamics/isometric/'], [dict(name='normalization constants', where='init of isometric and Legendre structures')], ENUM + ': pointwise relations and total probability', REF + ' Normalization is required to the error of the library\'s own 64-point rule.')
prop('C08', 'Responses are finite, monotone, bounded and of the right sign',
  'As the load grows, extension and force grow, extensions stay within the contour (times the well width for square wells), relative energies keep their sign and free energies are monotone and convex or concave, with no spurious jumps and no loss of significance at special loads. Where a model is written for either sign of the load (ideal, FJC and EFJC chains under force), reversing it reverses the extension and leaves energies unchanged.',
  ['inputs'], 'Every neighbouring pair and triple of loads on chains of up to 3000 (thorough 12000) increasing loads, including round loads and the floating-point numbers next to them; ' + LOADS + PAR + '.', TESTS + 'No test compares two loads, or looks for values which are not finite.', [SC + '*/thermodynamics/**/mod.rs'], [dict(name='branches and overflow guards', where='free functions')], 'exhaustive walk along chains of increasing loads: state and transition invariants', REF)
prop('C09', 'Models and ensembles reduce to each other in their limits',
  'Stiff extensible links and narrow wells reduce to the freely jointed chain; asymptotic, reduced and alternative forms approach the full model and each other as links stiffen; small loads give the ideal chain; long chains give the same isometric response by either route; strong and weak potentials give the isometric and isotensional ensembles. At each step of such a walk two implementations differ by no more than the theories do.',
  ['inputs', 'configurations'], 'Some fifty walks (pairs of modules and a parameter driven to its limit) at dense loads, several chains and units.', TESTS + 'The limit tests take one parameter value at one random load.', [SC + 'efjc/', SC + 'ufjc/', SC + 'swfjc/', SC + 'fjc/', SC + 'ideal/'], [dict(name='asymptotic forms', where='asymptotic modules')], 'exhaustive walk along refinement sequences: difference bounded and shrinking at every step', REF)
for id, name, files, extra in (('C10', 'Ideal and freely jointed chains', ['ideal/', 'fjc/'], 'the exact freely jointed density is evaluated with exact integer coefficients'),
  ('C11', 'Extensible freely jointed chains', ['efjc/'], 'the exact partition function with harmonic links is evaluated in closed form'),
  ('C12', 'Log-squared, Morse and Lennard-Jones chains', ['ufjc/'], 'the full models by the 64-point quadrature rule the library documents, with its error allowed for'),
  ('C13', 'Square-well chains', ['swfjc/'], 'the partition function in closed form'),
  ('C14', 'Worm-like chains', ['wlc/'], 'the isometric density is the interpolation formula the library implements; the force ensemble is its transform'),
  ('C15', 'Modified canonical chains', ['fjc/thermodynamics/modified_canonical/'], 'by exact density and quadrature')):
  prop(id, name + ' follow their partition functions',
    'Every thermodynamic function of these models, in both ensembles and every approximation, returns what follows from the partition function of the model: %s. This includes kinetic contributions to absolute free energies (hinge mass, link length, temperature) and additive constants.' % extra,
    ['inputs'], 'Every public function of the family; ' + LOADS + PAR + '.', TESTS + 'Tests compare functions with one another and so cannot see a fault they share.', [SC + f for f in files], [dict(name='closed forms', where='free functions of the family')], ENUM + ': conformance with an independent reference model', REF)
prop('C16', 'Root solvers return roots and the inverse Langevin function inverts',
  'The Newton solvers, plain and powered, return the first iterate that meets the target to the relative tolerance, or the last one the iteration budget allows, for every function, start, tolerance and budget, and a finite result when started at the solution. The inverse Langevin function, for every argument from near zero to near one, gives a value whose Langevin function is the argument to one part in a million (of the remaining distance near one), and is increasing.',
  ['inputs', 'histories'], '11 functions, starts, targets 1e-9..1e8, tolerances 1e-1..1e-12, budgets 0..255, powers 1..9; inverse Langevin on 50 000 (thorough 500 000) arguments in (0, 1).', 'The unit tests evaluate the inverse Langevin function at random points and the solvers not at all.', ['src/math/mod.rs'], [dict(name='inverse_newton_raphson, inverse_newton_raphson_powered, inverse_langevin', where='src/math/mod.rs')], 'replay of every solver iteration as a transition system against a model of the iteration', 'Exhaustive over the lattice; the model of the iteration is written independently.')
prop('C17', 'Special functions are accurate on every piece of their definitions',
  'The error function and its complement, the scaled complementary error function, the modified Bessel functions of order zero and one and the Lambert function agree with their mathematical definitions to near rounding error for every argument, positive, negative, small, large or at the ends of the pieces of their definitions. They satisfy their defining equations, symmetries and orderings.',
  ['inputs'], 'Every one of the 100 cells of the scaled complementary error function, both ends of every cell and piece and the neighbouring floating-point numbers, and dense points in between; arguments to 1e12 (Lambert 1e300).', 'The unit tests evaluate a few points; an error in one of 700 coefficients shows only in one cell.', ['src/math/mod.rs'], [dict(name='piecewise approximations', where='src/math/mod.rs')], 'enumeration of every piece of each piecewise definition, with conformance to an independent implementation', 'Trusts scipy.special; exhaustive over cells, dense within them.')
prop('C18', 'Quadrature visits each midpoint once and sums',
  'The integration rules evaluate the integrand exactly once at the midpoint of each of the given number of equal panels (of each pair of panels in two dimensions), and return the sum times the panel size; grids are used as given. Linear integrands are exact, reversal changes the sign, and errors fall with the square of the number of points.',
  ['inputs'], '11 integrands of one and 9 of two variables, 9 intervals, 1..64, 10 000, 65 535..65 537 and 100 001 panels.', 'The unit tests integrate a few functions with a single number of points.', ['src/math/mod.rs'], [dict(name='integrate_1d, integrate_2d and grid forms', where='src/math/mod.rs')], 'recorded execution traces of the integrand against the model of the rule', 'Exhaustive over the lattice.')
prop('C19', 'Hyperelastic stresses are network averages of chain forces',
  'For each method, link stiffness and number of links, the uniaxial and equibiaxial stresses equal the average of single-chain forces over the deformed equilibrium distribution, evaluated on the model\'s fixed 256-point grid. They grow with stretch, nearly vanish undeformed, and equibiaxial tension mirrors uniaxial compression; methods which do not exist are refused.',
  ['inputs', 'configurations'], 'Both methods, link stiffnesses 3..50 000, every number of links 1..255, stretches 0.25..9.', 'The tests evaluate the stress at one or two stretches for one or two configurations.', ['src/constitutive/hyperelastic/'], [dict(name='network average', where='src/constitutive/hyperelastic/mod.rs')], ENUM + ': conformance with an independent network average', 'Exhaustive over the lattice; the reference uses the same grid, its own single-chain forces and its own sum.')
prop('C20', 'Damage depends on the greatest stretch only and never heals',
  'For every history of stretches the stress and total probability at each step depend only on the present stretch and the greatest stretch so far, and are the averages over the chains which that greatest stretch left within the critical extension. Total probability never rises with the greatest stretch; the swelling ratio enters through its cube root in extensions and as volume fraction; histories with stretches below one are refused.',
  ['histories', 'configurations'], 'Every history up to length 5 (thorough 6) over an alphabet of stretches for several configurations, shorter and longer ones (ramps, cycles, slow loading in up to 32 steps of less than a percent) for a lattice of methods, critical extensions, stiffnesses, numbers of links and swelling ratios.', 'The tests run one or two monotone histories.', ['src/constitutive/hyperelastic_damage/'], [dict(name='running maximum', where='src/constitutive/hyperelastic_damage/mod.rs')], 'explicit-state exploration of all loading histories up to a bound, against a history-independent model', 'Exhaustive over the alphabet and depth; the reference uses the same grid.', state=[dict(name='greatest stretch', meaning='decides which chains are intact', where='src/constitutive/hyperelastic_damage/mod.rs')])
prop('C21', 'Monte Carlo chains have the geometry of their model',
  'For every sequence of random draws a sampled freely jointed chain consists of links of unit length and a freely rotating chain keeps unit links at its fixed angle, successive links turning about each other by the drawn dihedral; the reported end-to-end length is the distance from the origin to the last hinge. Uniform draws give uniformly distributed directions, so that mean square lengths have their textbook values.',
  ['inputs', 'histories'], 'Every combination of draws from a midpoint lattice per draw (up to 5 draws exhaustively, longer chains along structured sequences); 1..12, 16, 25, 32, 50, 64, 100, 128, 200 and 255 links; angles across (0, pi).', 'The tests draw a few random chains and compare nothing but the length of the result.', [SC + 'fjc/thermodynamics/isometric/monte_carlo/', SC + 'frc/thermodynamics/isometric/monte_carlo/'], [dict(name='random configurations', where='random_configuration, random_nondimensional_end_to_end_length')], 'exhaustive enumeration of scripted random draws (controlled nondeterminism) on the real code', 'Random number generator replaced by a script in the probe build (vendor/rand), so every outcome of the draws on the lattice is explored.')
prop('C22', 'Monte Carlo histograms account for every sample',
  'For every sequence of random draws the histogram puts each sample into the bin that contains its extension per link, loses none, ends included; bin centers are the midpoints of equal bins over the accessible range, and the radial distribution integrates to one. The greatest extension of a freely rotating chain is that of its zigzag, for even and odd numbers of links.',
  ['inputs', 'histories'], 'Every tuple of draws on a lattice, up to several samples per histogram, up to 70 000 samples, 1..300 bins, 1..64 links.', 'The tests check that a large random histogram is roughly the analytic density.', [SC + 'fjc/thermodynamics/isometric/monte_carlo/', SC + 'frc/thermodynamics/isometric/monte_carlo/'], [dict(name='binning', where='nondimensional_equilibrium_radial_distribution')], 'exhaustive enumeration of scripted random draws (controlled nondeterminism) against a counting model', 'Random number generator replaced by a script in the probe build.')
prop('C23', 'The C interface returns what the Rust functions return',
  'Every symbol of the C interface takes its arguments by value in the order of the Rust function it is named after and returns bit for bit the same value. No function is missing.',
  ['inputs'], 'All exported symbols (554 and those of the constitutive models); lattices of distinct arguments, all numbers of links, loads inside and outside the domain.', 'No test calls the C interface; an exchange of two arguments of one type compiles.', [SC + '*/**/ex.rs', 'src/math/', 'src/constitutive/'], [dict(name='extern functions', where='ex.rs files')], 'enumeration of every symbol on argument lattices: differential conformance', 'Both sides are built from the tree; exhaustive over symbols.')
prop('C24', 'The Python package returns what the Rust functions return',
  'Every class and method of the Python package takes the constructor arguments of the Rust structure, exposes its attributes, and returns for arrays of loads of any shape and memory layout (scalar, empty, transposed, strided, read-only), element by element, what the Rust method returns, leaving its argument unchanged. No method is missing.',
  ['inputs', 'configurations'], 'All Python classes, attributes and methods; lattices of arguments.', 'The Python tests cover some of the methods at random points.', [SC + '*/**/py.rs', 'src/py.rs', 'src/constitutive/'], [dict(name='pyo3 classes', where='py.rs files')], 'enumeration of every class and method on argument lattices: differential conformance', 'Extension module built from a scratch copy of the tree; exhaustive over classes and methods.')
prop('C25', 'The Julia wrappers call the right C functions with the right arguments',
  'The Julia package loads; each of its functions makes its foreign call with the types and number of arguments the C function has, and returns what the Rust function returns for its arguments, for scalars and broadcast over arrays in any argument that admits them. Every structure keeps its parameters and every method, at every depth of nesting, returns what the Rust method returns. No function, structure or method is missing.',
  ['inputs', 'programs'], 'All ccall sites and generated methods of the Julia sources, executed on lattices of distinct arguments through the C interface.', 'Julia is not run by the stable tests; a wrong symbol or order is silent.', [SC + '**/*.jl', 'src/constitutive/', 'src/Polymers.jl'], [dict(name='ccall wrappers', where='mod.jl files')], 'enumeration of every wrapper and every method on argument lattices, executed by an interpreter of the Julia sources bound to the real functions: differential conformance', 'No Julia is installed here: the wrappers are run by an interpreter for the subset of Julia they use (checks/jl.py), which refuses what it does not know; that it agrees with Julia is an assumption.')
prop('C26', 'Results depend on arguments only, not on history, order or threads',
  'Every function returns bit for bit the same value for the same arguments, whatever was called before it, on whatever thread, and however calls on several objects are interleaved. Methods do not change their object, and a fresh process gives the same values.',
  ['schedules', 'histories'], 'Every ordered pair of functions, A-B-A histories in which one argument changes by much or little, call lists in several orders in fresh processes, interleavings of calls on two objects, concurrent threads.', 'Tests call functions once per process state; a cache keyed on some of the arguments passes them.', ['src/'], [dict(name='no shared mutable state', where='whole crate')], 'enumeration of call histories and interleavings up to a bound, bitwise comparison with fresh processes', 'The library holds no locks and no shared state today, so schedules are explored at the granularity of calls, with concurrent runs on top.')
NA = []
if __name__ == '__main__':
    have = [p for p in L if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in L:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=dict(files=p['files'], mechanism=p['mech'], hook_needed=p['hook']))
            if p['state']: d['anchors']['state'] = p['state']
            d['anchors']['observe_at'] = p['observe'] or ['public functions and methods']
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(d) + '\n')
    M = dict(version=1, setup_cmd='bash tools/setup.sh',
             checks=[dict(property=p['id'], quick_cmd='python3-vt checks/run.py %s quick' % p['id'], thorough_cmd='python3-vt checks/run.py %s thorough' % p['id'], evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='model_checking', level_note=p['note']) for p in have],
             not_applicable=NA + [dict(property=p['id'], reason='check not written yet') for p in L if p not in have],
             notes='No hooks in /repo: the library is reached through its public interface from /verif/probe, a crate with a path dependency on /repo, whose random number generator is replaced by a script (vendor/). Defects found and repaired are listed in known_findings.txt.')
    json.dump(M, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
    print(len(have), 'claimed of', len(L))
