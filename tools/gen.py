"""Writes properties.jsonl and MANIFEST.json from the texts below and the checks that exist."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
INP = ['inputs']
CFG = ['inputs', 'configurations']
M = 'panels/models/'


def mech(*a):
    return [{'name': n, 'where': w} for n, w in a]


PROPS = [
 dict(id='C01', title='Shape functions, derivatives and edge flags',
      statement='The thirty one-dimensional shape functions are the Bardell polynomials, their reported first and second derivatives are the exact derivatives of those functions, and the single-function, whole-vector and Python-level evaluations agree everywhere on the domain. Each edge flag scales exactly its own function, so that with a flag at zero the corresponding displacement or slope vanishes at that edge for every series, and no other function changes edge values or slopes.',
      over=INP, text='every function index 0..29, every coordinate in [-1, 1], every value of the four edge flags',
      why='The tests run a handful of full analyses with fixed flags; none evaluates a shape function, and an error in a high-order coefficient stays below their tolerances.',
      files=['panels/core/src/bardell_functions.cpp', 'panels/bardell.pyx'],
      mech=mech(('calc_f, calc_fp, calc_fpp, calc_vec_*', 'panels/core/src/bardell_functions.cpp'))),
 dict(id='C02', title='Closed-form integrals of shape function products',
      statement='Every tabulated closed-form integral of a product of two shape functions or their derivatives equals the exact integral over the whole domain of the functions evaluated elsewhere in the package, scaled by the edge flags of exactly the two functions involved. Swapping the two functions of a product of equal derivative order does not change the value, and functions that are orthogonal give exactly zero.',
      over=INP, text='every pair of indices 0..29, all six derivative combinations, every value of the eight edge flags',
      why='There are about 5400 table entries; tests touch a few hundred of them at fixed flags and only through eigenvalues with loose tolerances.',
      files=['panels/core/src/bardell.cpp', 'panels/bardell.pyx'],
      mech=mech(('integral_ff, integral_ffp, integral_ffpp, integral_fpfp, integral_fpfpp, integral_fppfpp', 'panels/core/src/bardell.cpp'))),
 dict(id='C03', title='Gauss-Legendre rules are exact to degree 2n-1',
      statement='For every supported number of points, the quadrature rule returns that many points inside the interval with positive weights and integrates every polynomial of degree up to 2n-1 exactly to rounding. The Python-level entry returns the same points and weights as the kernels use.',
      over=INP, text='every rule of 1 to 64 points, every polynomial of degree at most 2n-1',
      why='Tests use two or three of the 64 tables, with smooth integrands that hide an error in a digit of a node.',
      files=['panels/core/src/legendre_gauss_quadrature.cpp', 'panels/legendre_gauss_quadrature.pyx'],
      mech=mech(('leggauss_quad', 'panels/core/src/legendre_gauss_quadrature.cpp'))),
 dict(id='C04', title='Linear stiffness is the Hessian of the laminate strain energy',
      statement='The linear constitutive stiffness matrix of a plate or cylindrical panel is, entry by entry, the second derivative of the laminate strain energy with Donnell strains, for any laminate (coupled, offset or forced orthotropic), geometry, edge flags and number of terms. Constant membrane stresses add exactly their geometric stiffness to it. The result is symmetric.',
      over=CFG, text='all geometry, edge flags, laminates and constant stresses; m, n terms within the stated bounds',
      why='Tests compare a few eigenvalues of a few laminates; a wrong coefficient of a coupling term, a wrong flag or a swapped derivative order goes unseen when that term is small or zero there.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'cylshell_clpt_donnell_bardell.pyx'],
      mech=mech(('Shell.calc_kC', 'panels/shell.py'), ('fk0', M + 'plate_clpt_donnell_bardell.pyx'), ('fk0', M + 'cylshell_clpt_donnell_bardell.pyx'))),
 dict(id='C05', title='Numerically integrated stiffness, linear and large displacement',
      statement='The numerically integrated constitutive stiffness equals the quadrature sum of the strain variation at the given displacement state weighted by the laminate stiffness of each integration point, with linear or von Karman strains as requested. With a uniform laminate, no displacement and enough points it agrees with the closed form, and a laminate field whose shape does not match the integration points is refused.',
      over=CFG, text='all displacement vectors, geometry, flags, laminates and laminate fields; m, n terms and quadrature points within the stated bounds',
      why='Tests evaluate it at a few states whose load path exercises only part of the entries and compare a displacement or a buckling load.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
      mech=mech(('Shell.calc_kC', 'panels/shell.py'), ('fkC_num', M + 'plate_clpt_donnell_bardell_num.pyx'), ('fkC_num', M + 'cylshell_clpt_donnell_bardell_num.pyx'))),
 dict(id='C06', title='Geometric stiffness of loads and of a stress state',
      statement='The geometric stiffness matrix is the second variation of the work of the membrane stresses on the nonlinear Donnell strains: of the uniform loads, in closed form or numerically, plus, when a displacement state is given, of the membrane stresses that state produces at each integration point (linear or von Karman). Stresses held constant are added to the constitutive stiffness in the same way.',
      over=CFG, text='all displacement vectors, uniform loads, geometry, flags and laminates; m, n terms and quadrature points within the stated bounds',
      why='Tests look at the lowest buckling loads of compression cases; shear, biaxial and bending contributions of the stress state never dominate there.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
      mech=mech(('Shell.calc_kG', 'panels/shell.py'), ('fkG0', M + 'plate_clpt_donnell_bardell.pyx'), ('fkG_num', M + 'plate_clpt_donnell_bardell_num.pyx'))),
 dict(id='C07', title='Internal force is the energy gradient, tangent is its derivative',
      statement='The internal force vector is the gradient of the von Karman strain energy with respect to the Ritz constants, and the tangent stiffness matrix is the exact derivative of that internal force, for every displacement state. At zero displacement the internal force vanishes and the tangent is the linear stiffness.',
      over=CFG, text='all displacement vectors, geometry, flags and laminates; m, n terms and quadrature points within the stated bounds',
      why='A Newton iteration converges in the tests even with a slightly wrong tangent; only an identity over all states shows the difference.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
      mech=mech(('Shell.calc_fint, Shell.calc_kT', 'panels/shell.py'), ('calc_fint', M + 'plate_clpt_donnell_bardell_num.pyx'), ('calc_fint', M + 'cylshell_clpt_donnell_bardell_num.pyx'))),
 dict(id='C08', title='A panel restricted to a sub-rectangle integrates exactly over it',
      statement='When integration limits restrict a panel to part of its domain, every matrix and vector it produces is the integral over exactly that part, in each direction independently. Contributions of parts that tile the domain therefore add up to those of the whole.',
      over=CFG, text='every sub-rectangle, restricted along x, y or both; all displacement vectors, geometry, flags, laminates; sizes within the stated bounds',
      why='One test integrates one partition and looks at one matrix.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
      mech=mech(('x1, x2, y1, y2', M + 'plate_clpt_donnell_bardell_num.pyx'), ('Shell._is_partial_domain', 'panels/shell.py'))),
 dict(id='C09', title='External forces and point supports do the work the loads do',
      statement='The external force vector gives, for every Ritz term, the virtual work of all loads applied: point forces, distributed line forces and penalised prescribed displacements, constant ones counted once and incremental ones scaled by the load multiplier. A point support adds exactly the penalty energy of the displacements and rotations it holds, and a load given without its function or its penalty is refused.',
      over=CFG, text='any position, component, function up to the stated degree, multiplier, geometry and flags; combinations of all kinds of loads',
      why='Tests use one load kind at a time at a special position, where several basis functions vanish.',
      files=['panels/shell.py', 'panels/shell_fext.py', M + 'clpt_bardell_field.pyx'],
      mech=mech(('shell_fext', 'panels/shell_fext.py'), ('fg', M + 'clpt_bardell_field.pyx'), ('Shell.calc_stiffness_point_constraint', 'panels/shell.py'))),
 dict(id='C10', title='Displacement, strain and stress fields match the Ritz series',
      statement='Displacements, rotations, strains, curvatures and stress resultants reported at any point are those of the series at that point: rotations are minus the slopes of the deflection, strains are the Donnell strains (with von Karman terms when asked for), stresses are the laminate stiffness times strains. Values come back in the shape and order of the points given, whatever the number of points and of worker threads.',
      over=['inputs', 'configurations', 'schedules'], text='all points, displacement vectors, geometry, flags and laminates; every split of up to 6 points among up to 4 threads, every interleaving of the threads',
      why='The only test looks at three extreme values on one grid with one thread count.',
      files=['panels/shell.py', M + 'clpt_bardell_field.pyx'],
      mech=mech(('fuvw, fstrain', M + 'clpt_bardell_field.pyx'), ('Shell.uvw, Shell.strain, Shell.stress', 'panels/shell.py'))),
 dict(id='C11', title='Assemblies place every domain in its own rows and columns',
      statement='Every matrix and vector of an assembly of domains is, at the rows and columns of each domain, that of the domain alone, zero between domains, plus the connection stiffness; its size is the sum of theirs and the order of the list only permutes blocks. A single domain put into a larger matrix at an offset fills exactly its own block, from its own part of the displacement vector. The fields of a group are, panel by panel, those of each panel alone.',
      over=CFG, text='every order of listing, geometry, edge flags, laminates, loads, connections and displacement vectors; number of domains, terms and points within the stated bounds',
      why='Tests assemble a few models whose panels have equal sizes and properties, where a wrong offset, a wrong slice of the displacement vector or a mixed-up panel changes little or nothing.',
      files=['panels/multidomain/multidomain.py', 'panels/shell.py'],
      mech=mech(('MultiDomain.calc_kC, calc_kG, calc_kM, calc_kT, calc_fint, calc_fext', 'panels/multidomain/multidomain.py'), ('MultiDomain.uvw, strain, stress', 'panels/multidomain/multidomain.py'), ('row0, col0 and size of Shell.calc_*', 'panels/shell.py'))),
 dict(id='C12', title='Connections between domains store the energy of the gaps they close',
      statement='The stiffness of every connection type is the second derivative of a penalty energy of the gaps between the two connected lines or faces: displacement differences, edge rotation difference, turned by a right angle for a flange. The result does not depend on the order in which the domains are listed, leaves the given connections unchanged, is symmetric, and several connections add up; prescribed displacements are penalised on exactly the component named.',
      over=CFG, text='all geometry, edge flags, laminates and connecting lines; every order of listing two domains, three domains with several connections; sizes within the stated bounds',
      why='Tests join equal panels in one order and look at an eigenvalue, which a missing or misplaced coupling term between higher functions does not change.',
      files=['panels/multidomain/multidomain.py', 'panels/multidomain/connections/'],
      mech=mech(('MultiDomain.get_kC_conn', 'panels/multidomain/multidomain.py'), ('fkCSSxcte*, fkCSSycte*, fkCBFxcte*, fkCBFycte*, fkCSB*, fkCpd, fkCld_*', 'panels/multidomain/connections/'))),
 dict(id='C13', title='Aerodynamic matrices are those of linear piston theory',
      statement='The aerodynamic stiffness of a panel in supersonic flow is that of the piston-theory pressure, proportional to the slope of the deflection along the flow plus, for a cylinder with flow along its axis, the curvature term; the slope part is completed skew-symmetrically and the coefficients follow from the present Mach number, speed and density unless given, however many calculations came before. The damping matrix is the given coefficient times the Gram matrix of the deflection, and a flow that is subsonic, incomplete or in an unknown direction is refused.',
      over=CFG, text='all geometry, edge flags, radii, flow coefficients, Mach numbers, speeds and densities, both flow directions, several calculations in a row; terms within the stated bounds',
      why='Tests look at one flutter boundary of one flat panel with the coefficient given directly.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell_num.pyx'],
      mech=mech(('Shell.calc_kA, Shell.calc_cA', 'panels/shell.py'), ('fkAx_num, fkAy_num', M + 'plate_clpt_donnell_bardell_num.pyx'), ('fcA', M + 'plate_clpt_donnell_bardell.pyx'))),
 dict(id='C14', title='Mass matrix is the Hessian of the kinetic energy',
      statement='The mass matrix of a flat or curved panel is the second derivative of the kinetic energy of the laminate, translations and rotary inertia of the slopes included, with the same offset of the laminate from the reference surface, in size and in sign, as the stiffness. Ply densities enter through their mean over the thickness, and numerically the thickness and density given for each integration point are used there.',
      over=CFG, text='all geometry, edge flags, laminates, densities and offsets, all fields of thickness and density; terms and points within the stated bounds',
      why='Tests compute frequencies of one symmetric laminate without offset, where the coupling terms vanish and rotary inertia is negligible.',
      files=['panels/shell.py', M + 'plate_clpt_donnell_bardell.pyx', M + 'plate_clpt_donnell_bardell_num.pyx', M + 'cylshell_clpt_donnell_bardell.pyx'],
      mech=mech(('Shell.calc_kM', 'panels/shell.py'), ('fkM', M + 'plate_clpt_donnell_bardell.pyx'), ('fkM_num', M + 'plate_clpt_donnell_bardell_num.pyx'))),
 dict(id='C15', title='Stiffened bays add up panels, stiffeners and their joints',
      statement='The matrices of a stiffened bay are the sums of those of its panels and stiffener bases over their strips of the skin, of the beam energies of one-dimensional flanges along their lines, and of two-dimensional flanges in their own rows, joined to the skin at the foot. External forces and displacement fields refer to the degrees of freedom of the part they belong to. Stiffeners attach to the two panels that meet at their position, and ill-defined stiffeners are refused.',
      over=CFG, text='every geometry, edge flags, laminates, loads, stiffener positions and displacement vectors; number of panels, stiffeners and terms within the stated bounds',
      why='Tests run a few bays with one kind of stiffener and check one eigenvalue loosely; offsets between several stiffeners, masses, aerodynamic sums and forces on flanges are not looked at.',
      files=['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],
      mech=mech(('StiffPanelBay.calc_kC, calc_kG, calc_kM, calc_kA, calc_fext', 'panels/stiffpanelbay/stiffpanelbay.py'), ('fkCf, fkGf, fkMf', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx'), ('fkCss, fkCsf, fkCff', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'))),
 dict(id='C16', title='Penalty constants follow from stiffness and thickness',
      statement='The penalty constants of a connection are those of strain compatibility: four times the product of the membrane (or bending) stiffnesses across the line on either side, divided by the product of the sums of these stiffnesses and of the thicknesses, each side contributing the direction its line runs across. Constants of prescribed displacements are the membrane stiffness per length. They always belong to the current laminates.',
      over=CFG, text='every laminate, thickness, panel dimension, kind of connection and order of the panels',
      why='Penalties only need the right magnitude for a test to pass; a swapped direction or a stale laminate changes results by little for the nearly quasi-isotropic laminates tested.',
      files=['panels/multidomain/connections/penalties.py'],
      mech=mech(('calc_kt_kr, calc_kw_tsl', 'panels/multidomain/connections/penalties.py'))),
 dict(id='C17', title='A calculation depends on the current definition only, not on history',
      statement='Whatever was calculated before on the same panel, assembly or stiffened bay or on another one, a matrix, vector or field is that of the definition (geometry, radius, terms, supports, laminate, loads, airflow, connections, stiffeners) at the time it is asked for: a new object with that definition gives the same, and so does asking twice. Calculations leave the arguments they are given, the definition they answer for and the results returned earlier as they were.',
      over=['histories', 'configurations'], text='histories of calculations of every kind on one or two objects, with changes of any part of the definition between them; all values on both sides of a change',
      why='Every test builds a new model and calculates each thing once in a fixed order, so a value kept from an earlier calculation is never the wrong one.',
      files=['panels/shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener'],
      mech=mech(('Shell._rebuild', 'panels/shell.py'), ('MultiDomain.get_kC_conn', 'panels/multidomain/multidomain.py'), ('StiffPanelBay._rebuild', 'panels/stiffpanelbay/stiffpanelbay.py'))),
 dict(id='C18', title='Ready-made assemblies model the structure they document',
      statement='Each ready-made model (cylinder, blade-stiffened cylinder, stiffened panel with debonding) hands the solver the stiffness, load, geometric, mass and aerodynamic matrices of the structure its documentation draws: panels that tile the given dimensions with the given laminates, terms and supports, each neighbouring pair connected once along their common edge, parts inside the defect disconnected, and each panel under its own load. What is returned is what the solver gave for them, and inconsistent input is refused.',
      over=['inputs', 'configurations'], text='all dimensions, laminates, loads, load asymmetries, defect sizes; numbers of panels and terms within the stated bounds',
      why='The tests run one configuration of each model and compare one eigenvalue; a connection missing between two of many panels or a load on the wrong one shifts it little.',
      files=['panels/multidomain'],
      mech=mech(('create_cylinder_assy, cylinder_compression_lb_*, cylinder_spla', 'panels/multidomain/cylinder.py'), ('create_cylinder_blade_stiffened and its buckling analyses', 'panels/multidomain/cylinder_blade_stiffened.py'), ('tstiff2d_1stiff_compression', 'panels/multidomain/tstiff2d_1stiff_compression.py'), ('tstiff2d_1stiff_flutter', 'panels/multidomain/tstiff2d_1stiff_flutter.py'), ('tstiff2d_1stiff_freq', 'panels/multidomain/tstiff2d_1stiff_freq.py'))),
 dict(id='C19', title='Saving and loading keeps the definition of a shell or bay',
      statement='A shell or stiffened bay that is saved and loaded again, under a name with or without extension, gives the same matrices, vectors and fields as the one that was saved, for whatever was calculated before and whatever is changed after loading. Saving leaves the definition of the object and the results of its later calculations as they were.',
      over=['inputs', 'histories', 'configurations'], text='every geometry, laminate, load and displacement vector; shells and bays of every layout within the stated bounds; calculations before saving and changes after loading',
      why='No test saves or loads anything; a field left out, or derived data kept across the boundary, shows in one kind of calculation of one kind of object only.',
      files=['panels/shell.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
      mech=mech(('Shell.save, _clear_matrices', 'panels/shell.py'), ('StiffPanelBay.save, _clear_matrices', 'panels/stiffpanelbay/stiffpanelbay.py'), ('load', 'panels/shell.py'), ('load', 'panels/stiffpanelbay/stiffpanelbay.py'))),
 dict(id='C20', title='Contour plots draw the requested field where it is',
      statement='Plotting a panel, a group of an assembly, the skin or a stiffener flange of a bay draws the requested component for the given displacements (and the given linear or nonlinear strains), each value at the place of its point in the structure, offsets included and, on request, moved by the scaled in-plane displacements. The colour scale spans the limits given, or else the smallest and largest value over everything drawn. Points given and fields calculated before are unchanged, and a field that does not exist is refused.',
      over=CFG, text='every geometry, edge flags, laminate, displacement vector, offset, scaling factor and colour limits; number of points, panels and terms within the stated bounds',
      why='The tests that plot look at no number: a swapped axis, a value from another panel or a scale of one panel only is an image nobody compares.',
      files=['panels/plot_shell.py', 'panels/multidomain/multidomain.py', 'panels/stiffpanelbay/stiffpanelbay.py'],
      mech=mech(('plot_shell', 'panels/plot_shell.py'), ('MultiDomain.plot', 'panels/multidomain/multidomain.py'), ('StiffPanelBay.plot_skin, plot_stiffener', 'panels/stiffpanelbay/stiffpanelbay.py'))),
 dict(id='C21', title='What does not fit is refused, nothing is accessed outside arrays',
      statement='Whatever the number of terms, integration points, sampled points, cores and the sizes of what is given, the calculations of panels, assemblies and bays read and write only inside their arrays. A displacement vector, a field of laminates, thicknesses or densities, or a global size and offset that does not fit, a series of more than thirty terms, or a rule of more than 64 points raises an error instead of giving numbers; what fits is accepted.',
      over=CFG, text='every number of terms, points, cores, every length, shape, global size and offset within the stated bounds',
      why='A read just past an array usually finds harmless memory, and a test uses sizes that fit; only reasoning over all sizes covers the combinations that do not.',
      files=['panels/shell.py', 'panels/models', 'panels/multidomain', 'panels/stiffpanelbay/stiffpanelbay.py'],
      mech=mech(('check_c, check_room, check_points, Shell.get_size', 'panels/shell.py'), ('fuvw, fstrain, fg', M + 'clpt_bardell_field.pyx'), ('fkC_num, fkG_num, fkM_num, fkAx_num, fkAy_num, calc_fint', M + 'plate_clpt_donnell_bardell_num.pyx'), ('MultiDomain.get_kC_conn', 'panels/multidomain/multidomain.py'), ('shell_fext', 'panels/shell_fext.py'))),
]

TECH = 'bounded symbolic execution of the current source (Cython/Python AST, LLVM IR for C++) and SMT (z3)'
NOTE = ('Within the stated bounds the solver decides the property for every value of the symbolic inputs; outside them nothing is claimed. '
        'Trusted: the engine (encoding of Cython, numpy, scipy.sparse), doubles read as reals, z3; every run replays counterexamples on, and '
        'validates the encoding against, a fresh build of the tree.')
NOTES = {}
NA = []


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            fh.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                 'anchors': {'files': p['files'], 'mechanism': p['mech']}}) + '\n')
    checks = []
    for p in PROPS:
        i = p['id']
        if i in [n['property'] for n in NA]:
            continue
        cmd = 'python3-vt -m engine.runner %s --tier ' % i
        checks.append({'property': i, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH, 'level': 'other', 'level_note': NOTES.get(i, NOTE)})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy; import engine.load"', 'checks': checks, 'not_applicable': NA},
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    design()


def design():
    import importlib
    p = os.path.join(ROOT, 'DESIGN.md')
    t = open(p).read()
    out = []
    for q in PROPS:
        if not os.path.exists(os.path.join(ROOT, 'checks', q['id'] + '.py')):
            continue
        mod = importlib.import_module('checks.' + q['id'])
        d = {name: getattr(mod, name, '') for name in ('FUNCTIONS', 'EXPLANATION', 'BOUNDS', 'OUTSIDE', 'ASSUMPTIONS')}
        out.append('### %s %s\n' % (q['id'], q['title']))
        out.append('*Executed:* %s\n' % '; '.join(d['FUNCTIONS']))
        out.append('*How it is decided:* %s\n' % d['EXPLANATION'])
        out.append('*Bounds (quick):* %s.\n' % d['BOUNDS'].rstrip('.'))
        out.append('*Outside:* %s.\n' % d['OUTSIDE'].rstrip('.'))
        out.append('*Assumes:* %s.\n' % '; '.join(d['ASSUMPTIONS']))
        out.append('*What tests cannot reach:* %s\n' % q['why'])
    a, b = '<!-- properties -->\n', '<!-- end of properties -->\n'
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n'.join(out) + t[j:]
    a, b = '<!-- planted -->\n', '<!-- end of planted -->\n'
    i, j = t.index(a) + len(a), t.index(b)
    res = json.load(open(os.path.join(ROOT, 'tools', 'seed_results.json')))
    out = ['| planted bug | what it breaks | needs | reported by (quick) |\n|---|---|---|---|']
    for k in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.load(open(os.path.join(ROOT, 'seeded', k, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (k, meta['what_it_breaks'], meta['needs'], ', '.join(res.get(k, {}).get('caught_by', [])) or 'nothing'))
    open(p, 'w').write(t[:i] + '\n'.join(out) + '\n' + t[j:])


if __name__ == '__main__':
    main()
