import json,subprocess
F=[('C11','8b18a97','weak-layer shear strain had the opposite sign of the shear stress: gamma = u/t - ... instead of tau/(kt t)'),
('C09','8b18a97','Layered.gamma/tau sign: tau != kt*t*gamma'),
('C06','2052d60','zp of free segments with surface load: coupling term of qt/pt missing, zp\' != K0 zp + q for p > 0'),
('C20','9119e94','horizontal centroid of the wedge cut off by a vertical face'),
('C16','e99ea2f','tc/a1 computed before the inclination was updated in touchdown setup'),
('C17','9b75905','translational substitute spring contained the settlement under slab weight'),
('C25','984088b','Inverse lacked SlabContactMixin: calc_segments and rasterisation of an Inverse model raised AttributeError'),
('C25','068ff2d','Inverse() without layers raised instead of using the default slab'),
('C26','fa106fc','layerings given as numpy arrays raised in set_beam_properties'),
('C18','c963fe6','assemble_and_solve changed the caller\'s segment lists for single-segment systems'),
('C08','3a9806f','touchdown right-hand side applied to non-PST systems'),
('C16','7b5a99d','calc_lC failed for cracks just longer than the B-C transition'),
('C21','1f45106','internal energy of the substitute rotational spring was M psi instead of M psi/2'),
('C21','4103d96','weak-layer spring energy integrated over the unsupported part as well'),
('C17','3fd9bba','transition lengths below 0.1 % of the column length raised in brentq'),
('C16','7142857','calc_lC raised for touchdown lengths below 0.1 % of the crack length'),
('C27','5de7321','plot_data without segments iterated over False: fea_disp and fea_stress raised TypeError'),
 ('C27','dbebcd9','plot_data indexed beyond short curves: err_modes of 10 crack lengths, fea_disp of 100 points raised IndexError'),
('C16','3c0fec7','calc_a1/calc_a2 raised for transitions close to the column end')]
json.dump({'findings':[{'property':p,'status':'fixed','commit':c,'line':f'fixed: property={p} {c} {w}','what':w} for p,c,w in F]},open('/verif/known_findings.json','w'),indent=1)
