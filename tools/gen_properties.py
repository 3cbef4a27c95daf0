import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
ES='weac/eigensystem.py'; MX='weac/mixins.py'; TO='weac/tools.py'; PL='weac/plot.py'
p('C01','Laminate stiffnesses are the exact through-thickness integrals',
 "For any layering (any number of layers, listed top to bottom, with positive densities and thicknesses) the slab's extensional, coupling and bending stiffness equal the plane-strain integrals of E/(1-nu^2) times 1, z and z^2 over the thickness about the slab mid-plane (z downward), and its shear stiffness equals 5/6 of the integral of the shear modulus E/(2(1+nu)). Extensional and shear stiffness are positive and extensional times bending stiffness exceeds the coupling stiffness squared. Splitting a layer into sublayers of the same material changes none of them.",
 ['inputs'],'all layer counts, densities, thicknesses, Poisson ratios and modulus parameters','Tests build one single-layer slab and only check that the attributes exist; coupling stiffness is zero there.',
 [ES],[('layer loop and ply coordinates',ES+': calc_laminate_stiffness_matrix, get_ply_coordinates, set_beam_properties')],
 [('A11,B11,D11,kA55,K0','laminate stiffnesses','Eigensystem')],['model stiffness attributes after construction or update'])
p('C02','Slab thickness, centre of gravity and slab matrix follow the layering',
 "For any layering listed top to bottom, the slab thickness is the sum of the layer thicknesses and the reported centre of gravity is the mass-weighted mean of the layer mid-heights measured downward from the slab mid-plane, so it lies strictly inside the slab and is zero for slabs symmetric about mid-plane. The stored slab table holds, per layer and in the given order, density, thickness, Young's modulus, shear modulus and Poisson's ratio. Splitting a layer into sublayers of the same density changes neither thickness nor centre of gravity.",
 ['inputs'],'all layer counts, densities, thicknesses','Tests never check the centre of gravity, and use one-layer slabs where it is zero.',
 [TO,ES],[('centre of gravity',TO+': calc_center_of_gravity'),('slab assembly',ES+': set_beam_properties, get_ply_coordinates')])
p('C03','Gravity loads are resolved consistently into normal and tangential parts',
 "For any inclination, slab weight, surface load and skier weight act vertically: each yields a slope-normal component load*cos(phi) and a tangential component -load*sin(phi) with counterclockwise-positive inclination. The slab weight is the sum over layers of density*gravity*thickness in N/mm, and the skier load is the skier's weight force in N per mm of effective ski length. Normal and tangential totals used by the touchdown analysis are the sums of the weight and surface-load components.",
 ['inputs'],'all inclinations, layerings, surface loads, skier weights','Tests use phi=0 (and one phi=30 shape check), no surface load and never inspect loads.',
 [ES,MX],[('load resolution',ES+': get_weight_load, get_surface_load, get_skier_load'),('touchdown totals',MX+': calc_qn, calc_qt')])
p('C04','The governing first-order system is beam and weak-layer equilibrium',
 "For any layering, weak layer, inclination and surface load, the first derivative of a solution vector reported by the model satisfies kinematics and equilibrium of the layered shear-deformable slab on its weak layer: dN/dx = tau - (qt+pt), dV/dx = kn*w - (qn+pn), dM/dx = V + tau*(h+t)/2 + pt*h/2 - qt*zs, with N, M, V, tau the model's own section forces and weak-layer shear stress. The reported second and third derivatives are the derivatives of the same system.",
 ['inputs'],'all stiffnesses, solution vectors, inclinations, surface loads','No test inspects the system matrix, load vector or derivatives.',
 [ES,MX],[('system matrix and load vector',ES+': calc_system_matrix, get_load_vector, calc_foundation_stiffness'),('derivatives',MX+': dz_dx, dz_dxdx, du0_dxdx, dpsi_dxdx, du0_dxdxdx, dpsi_dxdxdx')])
p('C05','Solutions on supported segments satisfy the governing equations',
 "On a segment that rests on the weak layer, for any free constants, segment length, inclination and surface load, the solution vector as a function of position satisfies the governing first-order system exactly at every position. This holds whatever mix of real and complex eigenvalues the system has, and for a sequence of positions column j is the solution at position j.",
 ['inputs'],'all constants, positions, lengths, inclinations, loads, eigenvalue patterns','Tests check only array shapes of one solution at phi=0 with a homogeneous slab.',
 [ES],[('complementary and particular solution',ES+': zh, zp, z'),('eigenvalue classification',ES+': calc_eigensystem, calc_fundamental_system')])
p('C06','Solutions on unsupported segments satisfy the governing equations',
 "On a segment without weak-layer support, for any free constants, inclination and surface load, the solution vector as a function of position satisfies the same beam equilibrium with the weak-layer tractions removed, exactly at every position. The six complementary solutions of such a segment are linearly independent for every layered slab.",
 ['inputs'],'all constants, positions, inclinations, loads, layerings including unsymmetric ones','Tests never combine an unsymmetric slab, inclination and surface load.',
 [ES],[('free-segment solution',ES+': zh, zp, z')])
p('C07','Solution basis never grows exponentially along a supported segment',
 "For every slab, weak layer and supported segment of any length, each exponential factor entering the complementary solution at any position inside the segment is at most one, so arbitrarily long segments cannot overflow. Every eigenvalue of the system is represented exactly once (a complex pair counts once), so the basis always has six columns.",
 ['inputs'],'all eigenvalue patterns, all segment lengths and positions','Tests use one slab and columns of 1 m; overflow needs long segments.',
 [ES],[('shift of positive eigenvalues',ES+': calc_eigensystem, zh')])
p('C08','Assembled solutions satisfy all transition, load and boundary conditions',
 "For any number of segments with any supports, lengths and skier weights, the constants returned by the solver make u, w and psi continuous across every transition and make N, M, V drop there by exactly the applied skier load (Ft, -Ft*h/2, Fn). Free PST ends carry no section forces, touchdown ends satisfy the stage B or C end conditions, and the outer ends of skier models take the undisturbed particular solution. Inputs without any supported segment, with inconsistent list lengths, or with unsupported outer segments in a skier model are rejected with ValueError.",
 ['inputs','configurations'],'all segment counts, support patterns, lengths, loads, systems, touchdown stages','Tests solve one two-segment PST and check only the shape of the constants.',
 [MX],[('assembly and solve',MX+': assemble_and_solve, eqs, bc')])
p('C09','Field quantities follow the constitutive laws in every unit',
 "For any solution vectors, the reported displacements, rotations, section forces, weak-layer stresses and strains are the laminate and weak-layer constitutive relations applied to each column (u=u0+z0*psi, N=A11u'+B11psi', M=B11u'+D11psi', V=kA55(w'+psi), normal stress -kn*w, shear stress kt*(u(h/2)-w'*t/2)), and each weak-layer stress equals stiffness times thickness times the corresponding weak-layer strain. The same quantity in different units differs by exactly the unit factor, degrees being 180/pi times radians.",
 ['inputs'],'all solution matrices, stiffnesses, depths, units','Tests cover w, w\' and psi for one constant matrix; N, M, V, sigma, tau, strains and most units are untested.',
 [MX,ES],[('field quantities',MX+': FieldQuantitiesMixin'),('weak-layer stiffness',ES+': calc_foundation_stiffness')])
p('C10','Differential energy release rate at crack tips',
 "The differential energy release rate sums, over all transitions between supported and unsupported segments, sigma^2/(2kn) for mode I and tau^2/(2kt) for mode II evaluated at the tip, each weighted one half when several tips exist except for tips of cracks open at an outer end. The total is the sum of both modes, every component is non-negative, and J/m^2 values are 1000 times kJ/m^2 values.",
 ['inputs','configurations'],'all segment patterns, constants and units','Tests check one single-tip case for length and sign only.',
 [MX],[('crack tips',MX+': gdif, Gi, Gii')])
p('C11','Incremental energy release rate is the crack-opening work',
 "For any set of newly unsupported segments, the incremental energy release rate is the crack-opening integral of uncracked weak-layer stresses times cracked weak-layer deformations over those segments, divided by twice the total new crack length; the total is the sum of the two modes. Each mode's contribution is half the spring stiffness times the product of uncracked and cracked deformations, so it is non-negative whenever both deformations have the same sign.",
 ['inputs','configurations'],'all crack patterns, loads, inclinations','The only test has phi=0, where mode II vanishes.',
 [MX],[('crack opening integral',MX+': ginc, int1, int2, sig, eps, tau, gamma')])
p('C12','Rasterised output samples the solution over the whole model',
 "For any segments and constants, rasterised coordinates start at 0, never decrease, end at the total length, include every segment boundary, and each solution column is the segment solution at that coordinate. Weak-layer coordinates equal the slab coordinates exactly where the slab is supported, crack tips included, and are NaN elsewhere; zero-length segments contribute nothing.",
 ['inputs','configurations'],'all numbers of segments, lengths, support patterns and grid sizes','Tests check shapes and range of one two-segment case.',
 [MX],[('rasterisation',MX+': rasterize_solution')])
p('C13','Segment lists describe the requested system',
 "For every system type, column length and crack length, the segment list has the documented order, length split, skier positions and supports (uncut to the correct side for PSTs cut from left or right, half cracks either side of the skier for the single skier, the given lists for several skiers), the uncracked configuration of the built-in systems is fully supported, and without touchdown the lengths add up to the column length. All returned configurations share the same lengths and loads, and unknown systems raise ValueError.",
 ['inputs','configurations'],'all systems, lengths, crack lengths, skier weights, touchdown on or off','Tests check three fixed inputs.',
 [MX],[('segment assembly',MX+': calc_segments')])
p('C14','Slab stresses are in equilibrium and consistent with section forces',
 "For any slab, solution, inclination and mesh size, the depth mesh covers every layer from its top to its bottom with at least two points and spacing no larger than requested and carries that layer's properties, and the axial stress is the plane-strain stress E/(1-nu^2)*du/dx(z) plus the documented weight term. Without surface load, shear and transverse normal stresses vanish at the top surface and between neighbouring grid points change by the trapezoidal integral of the axial-stress gradients and weight load, so the shear stress at the slab bottom equals the weak-layer shear stress. kPa values are 1000 times MPa values.",
 ['inputs'],'all layerings, meshes, solutions, inclinations, units','No test inspects slab stresses or the mesh.',
 [MX],[('through-thickness integration',MX+': get_zmesh, Sxx, Txz, Szz')])
p('C15','Principal stresses are eigenvalues of the stress state',
 "For any stress state, the maximum and minimum principal stresses in the slab and in the weak layer are the larger and smaller eigenvalue of the plane stress tensor formed by the model's own stress components, in the requested unit. Normalised slab values are divided by the layer's tensile strength and normalised weak-layer values by the given compressive strength; undefined components and meaningless normalisations raise ValueError.",
 ['inputs'],'all stress states, units, options','No test calls these functions directly.',
 [MX,TO],[('principal stresses',MX+': principal_stress_slab, principal_stress_weaklayer'),('strength law',TO+': tensile_strength_slab')])
p('C16','Touchdown stage and touchdown length follow the transition lengths',
 "Without touchdown the stage is always A; with touchdown a crack not longer than the first-contact length is stage A, one between first-contact and full-contact length is stage B, and a longer one is stage C. In stages A and B the unsupported length equals the crack length, in stage C it is positive and smaller than the crack length, and the column's parameters and the collapse height (collapse fraction times weak-layer thickness minus the settlement qn/kn at the current inclination) are those of the current call.",
 ['inputs','histories'],'all columns, crack lengths, collapse fractions, inclinations, and sequences of calls on one model','No PST test enables touchdown.',
 [MX],[('stage logic',MX+': calc_touchdown_system, set_touchdown_attributes, calc_touchdown_mode, calc_touchdown_length, set_tc')])
p('C17','Touchdown transition lengths solve the cantilever contact equations',
 "The first-contact length is the overhang at which a uniformly loaded shear-flexible cantilever, held by the rotational and translational substitute springs of the supported slab, deflects by the collapse height at its end; the full-contact length and the stage C unsupported length are those at which the same overhang touches the ground tangentially (deflection equal to the collapse height, zero slope) with, respectively, free or spring-restrained end rotation. The substitute springs are the ratio of a unit end moment (force) to the end rotation (deflection) it causes, independent of slab weight and surface load, with the collapsed weak layer stiffened by the given ratio for resting slab.",
 ['inputs'],'all slabs, columns, loads','No test enables touchdown for a PST.',
 [MX],[('threshold polynomials',MX+': calc_a1, calc_a2, calc_lC, substitute_stiffness')])
p('C18','Analysis calls leave the model and their arguments unchanged',
 "Evaluating fields, energies, stresses, exports, solutions, substitute stiffnesses and touchdown thresholds changes neither the model's system type, stiffnesses, eigensystem nor any other model property, and never modifies caller-supplied lists or arrays. Only the documented setters and the segment/touchdown set-up change model state, and only the attributes they document.",
 ['histories','inputs'],'all calls in any order','Tests build a fresh model for each call and never compare state before and after.',
 [MX,ES],[('save and restore',MX+': substitute_stiffness'),('read-only queries',MX+', '+ES)])
p('C19','Updated models equal freshly built ones',
 "After any sequence of property updates with recalculation requested, every derived quantity of the model (weak-layer stiffnesses, laminate stiffnesses, eigensystem) is the one a fresh model with the final properties has; no earlier slab, weak-layer, inclination or touchdown setting leaks into later results.",
 ['histories'],'all sequences of setter and analysis calls','Tests never update a used model and compare.',
 [ES,MX],[('recalculation',ES+': set_foundation_properties, set_beam_properties, calc_fundamental_system')])
p('C20','Vertical PST faces carry the exact weight of the cut wedge',
 "For a PST with vertical faces at any non-zero inclination and layering, the wedge between the vertical and the slope-normal face has mass sum of layer density times trapezoidal layer area, its centre of gravity is the mass-weighted centroid of those trapezoids in both directions, and the end section forces are statically equivalent to that weight acting there (N=-mg sin, V=mg cos, M=-mg(xs cos + zs sin)). On flat terrain wedge and end loads vanish and results coincide with the slope-normal PST.",
 ['inputs','configurations'],'all layerings and inclinations','No test uses vertical faces.',
 [TO,MX],[('wedge geometry',TO+': calc_vertical_bc_center_of_gravity'),('end loads',MX+': assemble_and_solve')])
p('C21','PST potentials sum external work and stored energy',
 "For slope-normal PSTs the total potential is the internal plus the external potential; the external potential is minus the work of the slab's weight and surface load on the deflection at mid-plane and the displacement at the centre of gravity, the resting part moving by the collapse height and the contact-end displacement. The internal potential is the sum of axial, bending, shear and weak-layer spring energies, each quadratic in its section force or displacement, with field averages taken over the rasterised solution (over its supported points for the weak layer).",
 ['inputs'],'all solutions, columns, stages','No test calls the potentials.',
 [MX],[('potentials',MX+': external_potential, internal_potential, total_potential')])
p('C22','Material laws and profile database',
 "Young's modulus and tensile strength parametrisations equal their published power laws in density for every positive density and parameter set, are positive and increase with density, and MPa strengths are 1/1000 of kPa strengths. Database profiles are case-insensitive, list three documented layers top to bottom (one for the comparison profile) with their moduli, and unknown names raise ValueError.",
 ['inputs'],'all densities, parameters, profile names','One law is tested at a few densities for sign and monotonicity.',
 [TO,ES],[('parametrisations',TO+': bergfeld, gerling, scapozza, tensile_strength_slab, load_dummy_profile')])
p('C23','Exported results agree with the model fields',
 "Every export returns horizontal coordinates in cm and the model's own field quantity at those coordinates in the requested unit, top, mid and bottom displacements being taken at -h/2, 0 and h/2. Weak-layer stress exports are NaN exactly where the slab is unsupported, or, when removal is requested, contain exactly the supported points in order.",
 ['inputs'],'all coordinate/solution arrays, NaN patterns, units, locations','No test calls the export functions.',
 [MX],[('exports',MX+': get_weaklayer_shearstress, get_weaklayer_normalstress, get_slab_displacement, get_slab_deflection, get_slab_rotation')])
p('C24','Mirrored snowpack configurations give mirrored results',
 "Reflecting a configuration (cut from the other side, inclination sign reversed, segments and skier loads in reverse order) reflects the solution: deflections, normal stresses and energy release rates are equal at mirrored positions while u, psi and shear stress change sign. This holds for every system type, layering, surface load and touchdown stage.",
 ['inputs','configurations'],'all systems, layerings, inclinations, loads, stages','Tests only use cuts from the right.',
 [ES,MX],[('sign conventions',ES+', '+MX)])
p('C25','The inverse model is the forward model with fitted parameters',
 "A model for parameter fitting built with modulus parameters and weak-layer modulus has the same slab, weak-layer stiffnesses, laminate stiffnesses and eigensystem as the forward model given those properties, and supports the same analysis calls with the same results.",
 ['inputs'],'all layerings and fitting parameters','No test constructs the inverse model.',
 ['weac/inverse.py','weac/layered.py'],[('construction','weac/inverse.py, weac/layered.py')])
p('C26','Touchdown distance helper reports thresholds of the requested snowpack',
 "For any layering given as list, array or profile name, modulus parameters, weak layer and inclination, the helper's first-contact, full-contact and steady-state lengths are those of a 100 m PST of exactly that snowpack, slope and weak layer, evaluated with the same transition equations a user would get from the model itself.",
 ['inputs'],'all snowpacks, slopes','No test calls the helper.',
 [TO],[('helper',TO+': touchdown_distance')])
p('C27','Plots show the model quantities and leave data untouched',
 "Displacement, section-force, stress and energy plots show the model's own quantities against position in cm in the labelled units and signs, and saving writes one file named after the plot into the plots folder. Contour-level, outline and colour helpers return the complete closed grid boundary, symmetric ordered levels within the limit and valid colours; no plot function modifies the model or its input arrays.",
 ['inputs'],'all models, solutions and plot options','Tests only check that four files exist.',
 [PL],[('plot wrappers',PL)])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P:
    jsonschema.validate(q,s)
    assert q['statement'].count('. ')<=2, q['id']
print(len(P))
