"""Writes properties.jsonl and MANIFEST.json (development helper; no check reads this)"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
IN, CF, HI, PR = 'inputs', 'configurations', 'histories', 'programs'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique='', note=''):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                hook_needed=None)), technique, note))


SH, SF = 'panels/shell.py', 'panels/shell_fext.py'
PL, CY = 'panels/models/plate_clpt_donnell_bardell', 'panels/models/cylshell_clpt_donnell_bardell'
FLD = 'panels/models/clpt_bardell_field.pyx'
MD = 'panels/multidomain/multidomain.py'
CN = 'panels/multidomain/connections/'

prop('C01', 'Approximation functions are the hierarchical polynomials, gated by edge flags',
     'Every approximation function and its derivatives equal the hierarchical polynomials (two cubic pairs for the edge value and edge rotation, then integrated Legendre polynomials) at every point of the domain. '
     'Each of the four edge freedoms of a direction is controlled by exactly one flag, proportionally, and no other function has a value or a slope at an edge.',
     [IN, CF], 'every term, every point in [-1,1], every set of four edge flags, values and derivatives',
     'The tests only look at results of whole analyses with a handful of terms; a wrong coefficient in a high-order term or an edge flag attached to the wrong edge changes them by less than their tolerance.',
     ['panels/core/src/bardell_functions.cpp', FLD, 'panels/bardell.pyx'],
     [('bardell functions table', 'panels/core/src/bardell_functions.cpp'), ('vector versions', 'panels/core/src/bardell_functions.cpp')], ['panels.bardell'],
     'property-based testing against exact rational reference polynomials',
     'calls the compiled functions at generated points and flags and compares with exact rational polynomials')
prop('C02', 'Closed-form integrals of products equal the exact integrals',
     'For every pair of terms and every combination of derivatives, the tabulated integral of a product of two approximation functions over the domain equals the exact integral, scaled by the flags of the terms involved.',
     [IN, CF], 'every pair of terms in the tables (30 x 30), six derivative combinations, all edge flags',
     'Five thousand closed-form coefficients; the tests reach those of the first few terms and only through a global eigenvalue.',
     ['panels/core/src/bardell.cpp', 'panels/bardell.pyx'], [('integral tables', 'panels/core/src/bardell.cpp')], ['panels.bardell'],
     'exhaustive enumeration plus property-based testing against exact rational integrals', 'every table entry is enumerated; flags are generated')
prop('C03', 'Gauss rules integrate polynomials exactly',
     'The integration rule with n points has distinct points inside the interval, positive weights and integrates every polynomial up to degree 2n-1 exactly, without writing outside of the arrays it was given.',
     [IN], 'every supported number of points and every polynomial up to the degree',
     'A wrong digit in one of 64 tables is invisible to tests that use one or two rules.',
     ['panels/core/src/legendre_gauss_quadrature.cpp', 'panels/legendre_gauss_quadrature.pyx'],
     [('rule tables', 'panels/core/src/legendre_gauss_quadrature.cpp')], ['panels.legendre_gauss_quadrature'],
     'property-based testing: exactness on generated polynomials and an independent reference rule', '')
prop('C04', 'Constitutive stiffness matrix is the second derivative of the strain energy',
     'For every laminate, geometry, number of terms and set of edge flags the constitutive stiffness matrix of a plate or cylindrical shell is the Hessian of the Donnell strain energy of the displacement series; it is symmetric, positive semi-definite and vanishes for rigid motions of an unsupported plate. '
     'The closed-form and the integrated versions agree, a stiffness that varies from point to point is honoured, and a domain placed in a larger matrix fills exactly its block.',
     [IN, CF], 'laminates incl. unsymmetric ones and offsets, geometries, curvatures, edge flags, terms, stiffness fields, positions',
     'Tests compare a few eigenvalues of symmetric laminates with standard supports: couplings (B, A16, D16, offset), unusual flags and high terms are not reached.',
     [SH, PL + '.pyx', PL + '_num.pyx', CY + '.pyx', CY + '_num.pyx'], [('closed form', PL + '.pyx:fk0'), ('integrated', PL + '_num.pyx:fkC_num'), ('dispatch', SH + ':calc_kC')], ['Shell.calc_kC'],
     'property-based testing: differential against an independent energy model, plus invariants', '')
prop('C05', 'Initial stress stiffness is the second derivative of the initial stress energy',
     'For every membrane force state, uniform or produced by a displacement state through the linear or the non-linear strains, the initial stress stiffness is the Hessian of the work of these forces on the quadratic membrane strains; it is linear in the forces.',
     [IN, CF], 'membrane forces, displacement states, laminates, integration orders, edge flags, plate and cylinder',
     'Tests use uniform compression, mostly Nxx only, and compare one eigenvalue.',
     [SH, PL + '.pyx', PL + '_num.pyx', CY + '_num.pyx'], [('closed form', PL + '.pyx:fkG0'), ('displacement state', PL + '_num.pyx:fkG_num'), ('dispatch', SH + ':calc_kG')], ['Shell.calc_kG', 'Shell.calc_kC'],
     'property-based testing: differential against an independent energy model, plus linearity', '')
prop('C06', 'Mass matrix is the second derivative of the kinetic energy',
     'For every laminate, density distribution, offset and geometry the mass matrix is the Hessian of the kinetic energy with rotary inertia; a rigid translation carries exactly the total mass and the matrix is positive semi-definite and proportional to the density.',
     [IN, CF], 'laminates, densities per ply and per point, offsets, geometries, edge flags, positions',
     'Tests check one natural frequency of a symmetric plate; coupling terms and density fields are never exercised.',
     [SH, PL + '.pyx', PL + '_num.pyx'], [('closed form', PL + '.pyx:fkM'), ('integrated', PL + '_num.pyx:fkM_num'), ('dispatch', SH + ':calc_kM')], ['Shell.calc_kM'],
     'property-based testing: differential against an independent energy model, plus mass conservation', '')
prop('C07', 'Internal forces are the energy gradient and the tangent is their derivative',
     'For every displacement state the internal force vector is the gradient of the geometrically non-linear strain energy, the tangent stiffness is its exact derivative and symmetric, and both reduce to the linear stiffness for small displacements.',
     [IN], 'displacement states of any amplitude, laminates, geometries, edge flags, integration orders',
     'One non-linear analysis with a loose tolerance; a wrong tangent only slows convergence and a missing coupling is invisible for a symmetric laminate.',
     [SH, PL + '_num.pyx', CY + '_num.pyx'], [('internal forces', PL + '_num.pyx:calc_fint'), ('non-linear stiffness', PL + '_num.pyx:fkC_num'), ('stress stiffness', PL + '_num.pyx:fkG_num')], ['Shell.calc_fint', 'Shell.calc_kT'],
     'property-based testing: exact polynomial differences and differential against an independent energy model', '')
prop('C08', 'Solutions agree with exact plate and shell solutions',
     'For simply supported and clamped plates and panels whose exact solution is known, buckling loads, natural frequencies and static deflections computed with the assembled matrices converge to the exact values, never below them for the eigenvalues.',
     [IN, CF], 'plate proportions, orthotropic laminates, load ratios, half-wave numbers, point and line loads',
     'The tests fix one geometry each and compare with stored numbers, which say nothing about any other.',
     [SH, PL + '.pyx', CY + '.pyx'], [('kC, kG, kM', SH)], ['Shell.calc_kC', 'Shell.calc_kG', 'Shell.calc_kM', 'Shell.calc_fext'],
     'property-based testing against closed-form solutions', '')
prop('C09', 'External force vector is the virtual work of the loads',
     'For every set of point, line and prescribed-displacement loads, the external force vector is the derivative of their work, the constant loads are not multiplied by the load factor and the others are, and loads superpose in any order.',
     [IN, CF], 'sets of loads, positions, load factors, edge flags, position in a larger vector',
     'Tests apply one load at a time at the middle of the plate.',
     [SH, SF], [('fext', SF + ':shell_fext'), ('adding loads', SH + ':add_point_load')], ['Shell.calc_fext', 'Shell.add_point_load', 'Shell.add_distr_load_fixed_x'],
     'property-based testing: virtual work reference, superposition and penalty consistency', '')
prop('C10', 'Recovered displacements, strains and stresses are those of the series',
     'At every point, recovered displacements, rotations, strains and stress resultants are those of the displacement series and of the laminate, whatever the shape of the point grid and the number of threads, and their energy is the one of the stiffness matrix.',
     [IN, CF, 'schedules'], 'displacement states, point grids, thread counts, linear and non-linear strains, laminates',
     'Tests plot or look at the maximum displacement.',
     [SH, FLD, PL + '.pyx'], [('fields', FLD), ('recovery', SH + ':uvw'), ('strains', SH + ':strain')], ['Shell.uvw', 'Shell.strain', 'Shell.stress'],
     'property-based testing: differential against the series, metamorphic on grids and threads', '')
prop('C11', 'Integration over part of a domain is exact and additive',
     'Matrices and internal forces requested for a part of the domain are the integrals over that part only, and the parts of any tiling add up to the whole domain.',
     [IN, CF], 'rectangular tilings, all matrices, laminates, flags, displacement states',
     'No test uses a part of a domain except through a stiffened panel.',
     [SH, PL + '_num.pyx', CY + '_num.pyx'], [('limits x1, x2, y1, y2', SH)], ['Shell.calc_kC', 'Shell.calc_kG', 'Shell.calc_kM', 'Shell.calc_fint'],
     'property-based testing: reference integration over the part and additivity over tilings', '')
prop('C12', 'An assembly is the sum of its domains and connections',
     'For every assembly of domains, each global matrix and vector is the sum of those of the domains, each at its own degrees of freedom, plus the connection energies, and recovered fields of a domain use exactly the constants of that domain.',
     [IN, CF], 'number and kind of domains, terms per domain, connectivity, groups, displacement states',
     'The tests solve a few prebuilt assemblies and compare one eigenvalue.',
     [MD, CN + '__init__.py'], [('assembly', MD + ':calc_kC'), ('connections', MD + ':get_kC_conn'), ('recovery', MD + ':uvw')], ['MultiDomain'],
     'property-based testing: differential against the sum of independently placed parts', '')
prop('C13', 'Connection matrices are the penalty energy of the mismatch of the edges',
     'For every pair of connected domains, the connection stiffness is the Hessian of the penalty energy of the mismatch of displacements and rotations along the connected line or surface; it is symmetric, positive semi-definite, zero for compatible motions and symmetric to exchanging the two domains.',
     [IN, CF], 'kinds of connection, positions, terms and flags of both domains, penalty values',
     'Tests use connections at the edges of equal domains, where several terms vanish or cancel.',
     [CN + 'kCSSxcte.pyx', CN + 'kCSSycte.pyx', CN + 'kCBFxcte.pyx', CN + 'kCBFycte.pyx', CN + 'kCSB.pyx', CN + 'kCpd.pyx'],
     [('energies', CN)], ['panels.multidomain.connections'],
     'property-based testing: differential against quadrature of the mismatch energy, plus compatible motions', '')
prop('C14', 'Penalty constants have the documented dependence on the laminates',
     'For every pair of laminates, the penalty constants are the documented functions of their stiffnesses and thicknesses: positive, symmetric to exchanging the domains where the connection is, and scaling with the units.',
     [IN, CF], 'pairs of laminates, kinds of connection, geometries',
     'Tests never look at the constants; a wrong one only stiffens or softens a joint.',
     [CN + 'penalties.py'], [('calc_kt_kr', CN + 'penalties.py')], ['calc_kt_kr', 'calc_ku_kv_kw_point_pd'],
     'property-based testing: formula oracle, symmetry and scaling relations', '')
prop('C15', 'Aerodynamic matrices are the work of the piston theory pressure',
     'For every flow direction, edge condition with supported edges and flow state, the aerodynamic stiffness and damping are the work of the piston theory pressure on the normal displacement, with coefficients that follow the flow state given by the user.',
     [IN, CF], 'flow direction, Mach numbers, density, velocity, explicit coefficients, edge flags, terms',
     'One flutter test with one flow direction and stored numbers.',
     [SH, PL + '.pyx', PL + '_num.pyx', CY + '.pyx'], [('kA', SH + ':calc_kA'), ('cA', SH + ':calc_cA')], ['Shell.calc_kA', 'Shell.calc_cA'],
     'property-based testing: differential against the virtual work of the pressure', '')
prop('C16', 'Results do not depend on units, axes, mirror images or reference surface',
     'Changing the units, exchanging the two axes, mirroring the panel, splitting plies or moving the reference surface changes the model but not the physics: eigenvalues and energies transform exactly as the physics prescribes.',
     [IN, CF], 'units, laminates, geometries, load states and edge conditions',
     'Each test fixes one set of units and axes.',
     [SH, PL + '.pyx', CY + '.pyx'], [('matrices', SH)], ['Shell.calc_kC', 'Shell.calc_kG', 'Shell.calc_kM'],
     'metamorphic property-based testing', '')
prop('C17', 'A cylindrical shell flattens into the plate and closes onto itself',
     'Every matrix, force and recovered field of a cylindrical shell is the one of the plate plus terms in the curvature and its square, so a huge radius gives the plate, and the choice between both models only depends on the radius given. '
     'Cylindrical panels that are connected all around form a closed cylinder: it turns and moves freely along its axis, carries the mass of the whole shell, does not depend on the order of the panels, and has the exact buckling loads and frequencies.',
     [IN, CF], 'radii, laminates, geometries, edge flags, states',
     'Tests use one radius.',
     [SH, CY + '.pyx', CY + '_num.pyx'], [('models', 'panels/modelDB.py')], ['Shell'],
     'metamorphic property-based testing', '')
prop('C18', 'Results do not depend on the history of the object',
     'After any sequence of calculations and changes of the definition of a domain or an assembly, every result equals that of a fresh object with the same definition, and saving and loading preserves it.',
     [HI, CF], 'sequences of calculations, attribute changes, load additions, save and load, on domains and assemblies',
     'Tests create an object, compute once and throw it away.',
     [SH, MD, 'panels/stiffpanelbay/stiffpanelbay.py'], [('derived data', SH + ':_rebuild')], ['Shell', 'MultiDomain'],
     'stateful (model-based) property-based testing: differential against a fresh object', '')
prop('C19', 'Stiffened panels add the energy of their stiffeners',
     'Each matrix of a stiffened panel is the sum of the energies of its skins, stiffener bases, flanges and joints, for any number and kind of stiffeners, each at its position; recovered fields and external forces of skin and stiffeners use the right constants.',
     [IN, CF], 'number, kind, position and laminates of stiffeners and panels, loads, terms',
     'The tests compute one eigenvalue for two configurations.',
     ['panels/stiffpanelbay/stiffpanelbay.py', 'panels/stiffener/bladestiff1d.py', 'panels/stiffener/bladestiff2d.py', 'panels/stiffener/models/bladestiff1d_clt_donnell_bardell.pyx', 'panels/stiffener/models/bladestiff2d_clt_donnell_bardell.pyx'],
     [('assembly', 'panels/stiffpanelbay/stiffpanelbay.py'), ('1D stiffener', 'panels/stiffener/bladestiff1d.py'), ('2D stiffener', 'panels/stiffener/bladestiff2d.py')], ['StiffPanelBay'],
     'property-based testing: differential against energies built from the independent model', '')
prop('C20', 'Adding terms or freedom never stiffens a model',
     'The approximation is hierarchical: the matrices of a smaller series are sub-matrices of those of a larger one, so more terms, freer edges or weaker penalties never raise a buckling load or a natural frequency.',
     [IN, CF], 'numbers of terms, edge flags, laminates, penalties',
     'Tests use one number of terms.',
     [SH, PL + '.pyx', CY + '.pyx'], [('dof numbering', PL + '.pyx')], ['Shell.calc_kC', 'Shell.calc_kM', 'MultiDomain'],
     'metamorphic property-based testing: nesting and interlacing of eigenvalues', '')
prop('C21', 'Prebuilt assemblies represent the structure described by their arguments',
     'The prebuilt cylinders and stiffened panels have the geometry, laminates, loads and connectivity their arguments describe: results do not depend on the number of panels the skin is cut into, on the order or on the units, and equal those of the same structure assembled by hand.',
     [IN, CF], 'radii, heights, laminates, number of panels, loads, stiffeners',
     'Each prebuilt model has one test with stored numbers.',
     ['panels/multidomain/cylinder.py', 'panels/multidomain/cylinder_blade_stiffened.py', 'panels/multidomain/tstiff2d_1stiff_compression.py', 'panels/multidomain/tstiff2d_1stiff_freq.py', 'panels/multidomain/tstiff2d_1stiff_flutter.py'],
     [('cylinder', 'panels/multidomain/cylinder.py:create_cylinder_assy')], ['create_cylinder_assy', 'tstiff2d_1stiff_compression'],
     'property-based and metamorphic testing of the prebuilt models', '')
prop('C22', 'A point spring adds exactly the energy of the spring',
     'The stiffness of a constraint at a point is the Hessian of the energy of a spring at that point, for every position, direction and stiffness, and the constrained model tends to the supported one as the spring hardens.',
     [IN, CF], 'positions, spring stiffness, terms, flags',
     'No test covers it except one result at the centre.',
     [SH, FLD], [('point constraint', SH)], ['Shell'],
     'property-based testing: differential against the energy of the spring', '')
prop('C23', 'Invalid definitions are rejected, valid ones are accepted',
     'Incomplete or inconsistent definitions and displacement vectors are rejected with the documented exception before any result is produced, and every complete definition is accepted in each of its equivalent forms, giving the same results.',
     [IN, CF], 'incomplete definitions, wrong sizes and types, equivalent ways of giving the same laminate',
     'Tests only use valid, complete definitions, in one form.',
     [SH, SF, MD, 'panels/models/__init__.py'], [('checks', 'panels/shell.py')], ['Shell', 'MultiDomain'],
     'property-based testing: negative inputs and equivalent definitions', '')
prop('C24', 'Contour plots show the recovered fields',
     'A contour plot of a domain, of a group of an assembly, of the skin or of a flange of a stiffened panel is given the values of the requested field at the positions of the requested points (moved by the offsets of the domain and, when asked for, by the scaled displacements), with evenly spaced levels between the given limits or those of the plotted fields. '
     'Titles, colour bars, identifications and boundaries are those asked for; the displacement vector, the fields recovered before and the mesh are left alone, axes that are given are used, and nothing but the requested file is written.',
     [IN, CF], 'fields, grids and points, deformed plots, offsets, groups, options, axes given or not, previous state of the object',
     'The tests plot nothing, or only call the functions; a field drawn at transposed positions, a panel drawn at the place of another or a changed state of the object is not seen by them.',
     ['panels/plot_shell.py', MD, 'panels/stiffpanelbay/stiffpanelbay.py'],
     [('plot of a domain', 'panels/plot_shell.py:plot_shell'), ('plot of a group', MD + ':plot'), ('plots of a stiffened panel', 'panels/stiffpanelbay/stiffpanelbay.py:plot_skin')],
     ['panels.plot_shell.plot_shell', 'MultiDomain.plot', 'StiffPanelBay.plot_skin', 'StiffPanelBay.plot_stiffener'],
     'property-based testing: the data given to the drawing library against an independent evaluation of the series and of the domains', '')
prop('C25', 'Printed source code evaluates to the symbolic matrices',
     'The source code printed from a symbolic matrix, as sparse triplets or as an array, evaluates to the entries of the matrix at the printed positions, whatever the options (powers by multiplications, substitutions, collected terms, common subexpressions, symmetry, order, operator); replacing powers by multiplications keeps the value of every expression; the matrix that was given is not changed and a file is only written on request.',
     [PR, CF], 'symbolic matrices, names that contain each other, integer and fractional powers, all printing options',
     'No test touches the generators of the kernels; a wrong replacement of a power in one name yields kernels that are wrong in one term.',
     ['panels/dev/matrixtools.py'], [('powers', 'panels/dev/matrixtools.py:pow2mult'), ('sparse', 'panels/dev/matrixtools.py:mprint_as_sparse'), ('array', 'panels/dev/matrixtools.py:mprint_as_array')],
     ['panels.dev.matrixtools'], 'property-based testing: round trip of generated expressions through the printed code', '')
prop('C26', 'Models are independent of one another and of what callers do with their data',
     'Any number of domains, assemblies and stiffened panels can be built from the same lists, arrays and material constants and be used in any order, or at the same time in different threads: each gives exactly the results that it gives alone in a new process. '
     'The lists, arrays and displacement vectors that were given stay as they were, and a caller may overwrite a matrix, vector or field that was returned without any effect on later results.',
     [IN, HI, 'schedules'], 'sets of models of any kind that share data or nearly agree, interleavings of their calculations, concurrent threads, returned results that are overwritten',
     'Every test builds its own model and uses it once; a table kept between models, a default list that is shared, an argument that is scaled in place or a matrix that is handed out and used again is only seen with a second model or a second call.',
     [SH, MD, 'panels/stiffpanelbay/stiffpanelbay.py', FLD, CN + 'penalties.py'],
     [('domain', SH), ('assembly', MD), ('stiffened panel', 'panels/stiffpanelbay/stiffpanelbay.py')],
     ['Shell', 'MultiDomain', 'StiffPanelBay'], 'property-based testing: generated interleavings and threads against each model alone in a process of its own', '')

# the checks that are registered, and the reason of those that are not
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, 'pbt', 'checks')) if f[0] == 'c' and f[1:3].isdigit())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, t, n in P:
        f.write(json.dumps(p) + '\n')
man = dict(version=1, setup_cmd=PY + ' pbt/build.py',
           checks=[dict(property=p['id'], quick_cmd='%s pbt/run.py %s --tier quick' % (PY, p['id']),
                        thorough_cmd='%s pbt/run.py %s --tier thorough' % (PY, p['id']), technique=t, level='exploration',
                        level_note=n or 'generated inputs against an explicit oracle; a violation is shrunk to a replay file')
                   for p, t, n in P if p['id'] in have],
           not_applicable=[dict(property=p['id'], reason='the check is not written yet') for p, t, n in P if p['id'] not in have])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(P), 'properties,', len(man['checks']), 'checks')
