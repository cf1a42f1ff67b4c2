"""Writes properties.jsonl (the list is maintained here so that it stays well formed)."""
import json, os
P=[]
X="xrd_simulator/"
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=[X+f for f in files],
      mechanism=[dict(name=a,where=X+b) for a,b in mech],
      state=[dict(name=a,meaning=b,where=X+c) for a,b,c in state],
      observe_at=list(observe),hook_needed=None)))

p("C01","Every peak-table column holds the quantity its name states",
 "In the table returned by Polycrystal.diffract, and in the extended table returned by Detector.render and Detector.peaks_detector_intersection, the list of column names has exactly one name per column and every column holds, row by row, the quantity its name states (grain index, phase number, h k l, squared structure factor modulus, diffraction time, G at time 0, G and K_out=k+G at the diffraction time, source position, Lorentz and polarization factor, grain volume, 2theta, Scherrer width, running peak index; then zd, yd, incident angle, frame, intensity factor). All quantities of a row belong to the same reflection of the same grain.",
 ["inputs","configurations"],"all polycrystals (any number of phases, elements, reflections), beams, motions, detectors",
 "Tests look at a few columns of small single or two phase samples; a swapped, stale or misaligned column keeps its shape and plausible magnitude.",
 ["polycrystal.py","detector.py"],[("Polycrystal._compute_peaks / diffract build the table by concatenation","polycrystal.py"),("Detector.peaks_detector_intersection appends columns","detector.py")],
 [("peaks","2-D tensor, one row per reflection","polycrystal.py"),("columns","names of the columns","polycrystal.py")],["peaks_dict['peaks']","peaks_dict['columns']"])
p("C02","Reported reflections are exactly the solutions of the rotating Laue equation",
 "For each grain and reflection the reported diffraction times are precisely the roots t in the closed interval [0,1] of the elastic condition |k + R(t)G0| = |k| during the rotation, both roots being reported when both qualify, each paired with the grain, plane and G0 it belongs to. No root outside [0,1] and no imaginary root is ever reported.",
 ["inputs"],"all wave vectors, rotation axes, rotation angles in (0,pi), G vectors",
 "Tests sample a few geometries and tolerate missing solutions; a dropped branch, a sign error in one coefficient or an open/closed interval change only shows for particular geometries.",
 ["laue.py","polycrystal.py"],[("half-angle quadratic","laue.py:_find_solutions_to_tangens_half_angle_equation"),("rho factors","polycrystal.py:_compute_peaks")],(),["diffraction_times column"])
p("C03","G vectors are U*B*hkl of the row's own grain and phase",
 "The undeformed-frame scattering vector of every row equals orientation times B matrix times (h,k,l), where orientation and strain are those of the element named in the row, B is built from the unit cell of that element's phase, and (h,k,l) and structure factor are those of the row. This holds for any phase map, including interleaved phases.",
 ["inputs"],"all meshes, phase maps, orientation and strain fields",
 "With homogeneous samples or one phase an index mix-up is invisible.",
 ["polycrystal.py","laue.py","utils.py"],[("grain_indices / planes gathers","polycrystal.py:_compute_peaks"),("_get_G","laue.py"),("_instantiate_eB","polycrystal.py")])
p("C04","Rigid body motion is rotation about its origin plus translation, linear in time",
 "RigidBodyMotion applied to points at time t rotates them right-handed by angle*t about the axis through the motion's origin and then adds translation*t, identically for one point, many points with one or one-per-point time, and groups of points with one time per group. rotate() rotates free vectors (no origin, no translation), translate() only translates, inverse() undoes the rotation sense and translation about the same origin, and angle outside (0,pi) or a non-unit axis is rejected.",
 ["inputs"],"all axes, angles, translations, origins, times and supported array layouts",
 "Tests mostly use zero origins or a single layout, so a layout-dependent error remains invisible.",
 ["motion.py"],[("RigidBodyMotion.__call__/rotate/translate/inverse","motion.py"),("_RodriguezRotator","motion.py")])
p("C05","Transforming a polycrystal moves geometry, orientation and strain together",
 "Polycrystal.transform(motion,t) applies the motion to the lab mesh, left-multiplies every orientation by the rotation of angle*t and conjugates every strain tensor with the same rotation, so that lab-frame state stays mutually consistent after any sequence of transforms. The sample-frame mesh, orientations and strains and the reference lattice of the grains never change.",
 ["histories","inputs"],"all sequences of transform calls",
 "Tests check single transforms; inconsistent frames show up only after sequences.",
 ["polycrystal.py","mesh.py"],[("Polycrystal.transform","polycrystal.py"),("TetraMesh.update","mesh.py")])
p("C06","All derived mesh geometry follows when a mesh is moved",
 "After TetraMesh.update, rotate or translate, in any order and number, nodes, face normals, element centroids, bounding sphere centres and the mesh centroid are all those of the moved body: points are rotated about the motion origin and translated, normals only rotated, connectivity, radii and volumes unchanged. No operation loses the effect of an earlier one.",
 ["histories","inputs"],"all sequences of update/rotate/translate",
 "Tests move a mesh once and look at coordinates or centroids, not all fields after sequences.",
 ["mesh.py"],[("TetraMesh.translate/rotate/update","mesh.py")])
p("C07","Simulation calls do not modify what the caller passed in",
 "Diffracting, rendering, moving points, building detectors, beams, motions, phases and structure factors and saving never modify in place any array, list, dictionary or object handed in by the caller (peak dictionaries, beams, motions, vertex arrays, element data); the documented mutators only change their own object.",
 ["histories","inputs"],"all call sequences of the public API",
 "A test rarely compares its inputs before and after; the damage appears only at the second use.",
 ["polycrystal.py","detector.py","motion.py","beam.py","mesh.py","utils.py","laue.py"],[("out-of-place tensor operations and dict copies","detector.py:peaks_detector_intersection")])
p("C08","A diffraction result is a snapshot",
 "What diffract returns does not change when the polycrystal is transformed, diffracted again or rendered afterwards: rendering an earlier result later gives the pattern of the sample as it was when diffracted.",
 ["histories"],"all interleavings of diffract, transform and render",
 "Needs a history with late rendering; tests render at once.",
 ["polycrystal.py","detector.py"],[("peaks_dict construction","polycrystal.py:diffract")])
p("C09","Saved objects come back complete",
 "For Beam, Detector, RigidBodyMotion, Polycrystal and TetraMesh, save(path) writes exactly one data file whose name is path with the class extension (added once if missing) without altering the object, and load of that file restores every attribute the object needs; load rejects paths with the wrong extension. Paths with dots in directory names are handled. The mesh file written beside a polycrystal holds the sample mesh and each element's own strain components, Euler angles and phase.",
 ["inputs","histories"],"all objects and paths",
 "Tests save default objects in plain temp names.",
 ["beam.py","detector.py","motion.py","polycrystal.py","mesh.py"],[("save/load pairs","polycrystal.py")])
p("C10","Automatic rendering draws every peak exactly once",
 "With method='auto' every peak is rendered by exactly one of the macro, micro and nano renderers for any thresholds, selected by its grain volume, and the three contributions are summed; a named method sends all peaks to that renderer and no other.",
 ["inputs","configurations"],"all volumes, thresholds, methods",
 "Tests use samples where only one class is populated and default thresholds.",
 ["detector.py"],[("mask partition in Detector.render","detector.py:render")])
p("C11","Each peak is deposited in the frame of its own diffraction time",
 "For F frames the interval [0,1] is divided into F equal bins and every peak gets one frame index in 0..F-1, that of the bin containing its time, with times at the ends clamped inside; every renderer adds a peak's intensity only to that frame. The returned stack always has F frames of the detector's pixel shape, F<1 being treated as 1.",
 ["inputs","configurations"],"all times, frame counts, renderers",
 "Tests use one or a few frames and check totals.",
 ["detector.py"],[("bucketize/clamp","detector.py:peaks_detector_intersection"),("frame masks","detector.py:_render_*")])
p("C12","Peak intensity is the product of the enabled factors and the grain volume",
 "The intensity factor of a peak is the product of the squared structure factor, polarization factor and Lorentz factor, each included exactly when its own detector switch is on, and what the point renderers (micro, nano) deposit for it scales with that factor times its own grain volume and nothing else. The macro renderer scales with the same factor times the illuminated volume.",
 ["inputs","configurations"],"all 8 switch combinations, all peaks, all renderers",
 "Only some combinations are tested and only for relative changes.",
 ["detector.py"],[("intensity_factors","detector.py:peaks_detector_intersection"),("renderers","detector.py")])
p("C13","Only physically visible peaks survive filtering, and all of those do",
 "diffract keeps exactly the reflections whose source point lies inside the beam, and the detector stage keeps exactly those whose ray meets the detector in front of the source within its closed rectangle and whose intensity factor is finite and positive; filters apply to whole rows.",
 ["inputs"],"all peaks, beams and detectors",
 "Boundary rows, NaN rows and backward rays rarely occur in tests.",
 ["polycrystal.py","detector.py","beam.py"],[("masks","detector.py:peaks_detector_intersection"),("illumination mask","polycrystal.py:diffract")])
p("C14","Detector coordinates, pixels and ray intersections agree with the three corners",
 "For any three orthogonal corners, zd runs from corner 0 towards corner 2 and yd towards corner 1 with the stated pixel sizes (z first in every pair), pixel_coordinates[i,j] is corner0 + i*pz*zhat + j*py*yhat, the normal is the unit cross product of zhat and yhat, a ray is intersected with that plane (NaN when behind the source) and expressed in that frame with the incidence angle in degrees, and the wrapping cone is half the widest angle to any of the four corners.",
 ["inputs","configurations"],"all detector positions, orientations, pixel specs, rays",
 "Tests use detectors at x=const with square pixels, where axis swaps cancel.",
 ["detector.py"],[("Detector.__init__, _get_pixel_coordinates, _get_intersection, contains, _get_wrapping_cone","detector.py")])
p("C15","Rendering kernels conserve intensity",
 "The point spread kernels are normalised: the Gaussian post-kernel sums to one and is convolved with symmetric padding, every micro peak's weights and every nano peak's uncropped kernel sum to one before being scaled with the peak's intensity, the sub-pixel deposit splits each kernel value into four weights that sum to one at the four surrounding pixels, and pixels outside the detector are dropped, not wrapped or clamped. A rendered spot is therefore centred on its own peak's position in z and in y, is symmetric about it, has its own peak's width (nano: the Scherrer width as seen on the tilted detector, in pixels), does not depend on how peaks are batched or ordered, and the spots of several peaks add up.",
 ["inputs","configurations"],"all widths, positions and pixel grids",
 "Total-intensity tests use loose tolerances and central peaks.",
 ["detector.py"],[("_generate_gaussian_kernel,_render_gauss_peaks,_airy_kernel_batch,_deposit_kernels_batch,_conv2d_gaussian_kernel","detector.py")])
p("C16","verbose=False is silent",
 "With verbose=False, diffract, render, peaks_detector_intersection and configure_device print nothing and raise no warnings of their own, on every path and for every method; render without an explicit verbose inherits the choice stored by diffract.",
 ["configurations","inputs"],"all inputs and methods, verbose=False",
 "Output-producing paths depend on rare data (invalid peaks, oversized kernels).",
 ["detector.py","polycrystal.py","cuda.py","utils.py"],[("self._verbose guards","detector.py")])
p("C17","Rendered frames have the requested precision for every method",
 "Detector.render returns frames whose dtype is render_dtype when given and otherwise that of the peak table, for every method and also when no peak or only some grain classes are present.",
 ["configurations","inputs"],"all methods, dtypes and class populations",
 "Tests check one method with peaks present.",
 ["detector.py"],[("render_dtype threading","detector.py:render")])
p("C18","Diffraction is deterministic",
 "diffract, peak intersection, and the micro and nano renderers use no random numbers, clock, or other hidden global input, so identical inputs always give identical results; mesh movement, motion, beam, detector and phase code is equally free of them. Randomness is confined to the sample templates and the small-box branch of the macro renderer.",
 ["inputs","histories"],"all inputs",
 "A repeat-run test only samples one path.",
 ["polycrystal.py","detector.py","laue.py","motion.py","beam.py","mesh.py","phase.py","structure_factors.py"],[("absence of RNG on the call graph","utils.py")])
p("C19","Invalid requests are refused, valid ones are not",
 "A non-orthogonal polarization, non-convex beam vertices, rotation angle outside (0,pi), non-unit axis, a pure translation for a time outside [0,1], orientation/strain of wrong shape, missing phase map for several phases, both or neither of n_pixels and pixel_size, unknown render method or device name, wrong load extension, missing template parameter, unfeasible strain and empty Bragg range each raise instead of producing a result. The guard is evaluated on the value actually used.",
 ["inputs","configurations"],"all invalid inputs of the listed kinds",
 "Few of the refusals are tested, and only with one example each.",
 ["beam.py","motion.py","polycrystal.py","detector.py","cuda.py","templates.py","utils.py"],[("asserts and raises","polycrystal.py")])
p("C20","The s3dxrd template builds exactly the geometry its parameters describe",
 "templates.s3dxrd requires every documented key and returns a beam along +x with the given side lengths, wavelength and y polarization covering source to detector, a detector plane at the detector distance whose rectangle has number-of-pixels times pixel-size sides and contains the beam axis at the given centre pixel, and a motion with the given axis and step and no translation.",
 ["inputs","configurations"],"all parameter dictionaries, in particular non-square pixels and off-centre detectors",
 "Tests use square detectors and centred beams where y/z mix-ups cancel.",
 ["templates.py"],[("_get_detector_from_params,_get_beam_from_params,_get_motion_from_params","templates.py")])
p("C21","Reflection lists follow the current wavelength and Bragg bounds",
 "Every diffract call regenerates each phase's reflection list for that call's wavelength and Bragg interval (sin(theta)/lambda bounds, low bound before high) and, when a structure file is given, the structure factors for exactly that list; reflections with vanishing structure factor are removed together with their indices and the remaining factors stay attached to their own reflections. Without a structure file all factors are one.",
 ["inputs","histories"],"all phases, wavelengths, bounds, repeated calls",
 "Stale or misaligned lists only show on repeated calls or with unsorted factors.",
 ["phase.py","polycrystal.py"],[("Phase._setup_diffracting_planes","phase.py"),("filter in _compute_peaks","polycrystal.py")])
p("C22","Structure factors follow the kinematic formula",
 "The batched structure factors equal, for every reflection, the sum over atoms and symmetry operations of site population times Debye-Waller factor times (f(s)+f'+i f'') times exp(2 pi i hkl.(R x + t)), with isotropic factor exp(-8 pi^2 U s^2) or anisotropic exp(-h beta h) as declared per atom, real part first.",
 ["inputs"],"all unit cells, space groups, atom lists and ADP kinds",
 "The tests compare a single isotropic structure.",
 ["structure_factors.py","phase.py"],[("compute_structure_factors_batch","structure_factors.py")])
p("C23","A beam's derived quantities always describe its current vertices and inputs",
 "Beam.wave_vector points along the given direction with length 2*pi/wavelength, the polarization is normalised and orthogonal to it, and vertices, centroid and half-spaces are replaced together whenever the vertices are set; a point counts as inside exactly when it is strictly inside all half-spaces.",
 ["inputs","histories"],"all beams and vertex updates",
 "Tests use one beam direction and set vertices once.",
 ["beam.py"],[("Beam.__init__, set_beam_vertices, _contains","beam.py")])
p("C24","Lorentz, polarization and Scherrer factors follow their formulas",
 "The Lorentz factor is 1/(sin 2theta |sin eta|) with eta the angle between rotation axis and scattering component normal to the beam (infinite within half a degree of its poles), the polarization factor is 1-(k_out.p)^2 with unit k_out, and the Scherrer width is 0.9*lambda/(D cos theta) with D the diameter in Angstrom of the sphere with the grain's volume in cubic micron.",
 ["inputs"],"all wave vectors, axes, polarizations and volumes",
 "Tests evaluate a few values.",
 ["scattering_factors.py"],[("_lorentz,_polarization,_scherrer","scattering_factors.py")])
p("C25","Lattice deformation follows the Green strain in the crystal frame",
 "The B matrix of a strained grain is inverse(F) times the reference B with F the upper triangular factor satisfying F^T F = 2E+1, E being the lab strain rotated into the crystal frame by that grain's own orientation; a strain with negative metric eigenvalue is refused, and converting back gives the same strain.",
 ["inputs"],"all strains, orientations, unit cells",
 "Tests use few strain tensors.",
 ["utils.py","polycrystal.py"],[("_lab_strain_to_B_matrix,_epsilon_to_b,_b_to_epsilon","utils.py")])
p("C26","Selected device and torch default device always agree",
 "After configure_device, whatever the default device was before, get_selected_device and the default device of newly created tensors are the same, equal to the returned value: cuda only if requested (or automatic) and available, otherwise cpu; an unknown name raises and changes nothing.",
 ["configurations","histories"],"all names, availability states and call sequences",
 "The CI has no GPU, so only one side of every branch is exercised.",
 ["cuda.py"],[("configure_device","cuda.py")])
p("C27","Mesh element quantities are those of its nodes",
 "For every tetrahedral mesh the element centroids are the mean of the four nodes, the faces are the four node triples, face normals are unit and point out of the element, the element volumes of the mesh and the volumes used for intensities are |det|/6 regardless of node order, and the mesh centroid is the mean of the element centroids; the bounding sphere candidates are centred equidistantly from the segment, triangle or tetrahedron they are built from.",
 ["inputs"],"all node coordinates and connectivities",
 "Tests use a handful of well shaped tetrahedra.",
 ["mesh.py","utils.py"],[("TetraMesh._expand_mesh_data and helpers","mesh.py"),("_compute_tetrahedra_volumes, _circumsphere_of_*","utils.py")])
p("C28","Macro intensity is the illuminated hull volume spread by path length",
 "For each peak the macro renderer takes that peak's own element, moves its nodes to the peak's diffraction time, clips it with the beam, and distributes over the hull's projected pixel box weights proportional to the chord lengths along the scattered ray, normalised to the hull's volume, for every pixel of the detector (also the last row and column) and each peak in its own frame. A small hull (at most four pixels) puts its volume on the pixels it projects to, a hull no pixel ray meets is spread over its projection, a hull the beam misses or that projects outside the detector contributes nothing, parts outside are dropped (never wrapped to the other side), the result does not depend on the length of the scattering vector or on the order of the peaks, and non-finite weights never reach the frame.",
 ["inputs"],"all peaks, hulls, boxes",
 "Tests check totals for a few large grains.",
 ["detector.py","utils.py"],[("_render_projected_volumes,_project_convex_hull","detector.py"),("_clip_line_with_convex_polyhedron","utils.py")])
p("C29","Sample templates assemble consistent polycrystals",
 "polycrystal_from_odf and get_uniform_powder_sample create exactly one orientation per mesh element, give every element the phase built from the supplied cell, space group and structure file, pass each element's own centroid to the user's orientation density and strain functions and store the returned strain for that element, each orientation being drawn from that element's own density weighted with the orientation bin volumes, and the powder sample has the requested number of grains inside the bounding radius, each with its own random orientation.",
 ["inputs"],"all template arguments",
 "Tests use constant ODF and strain functions.",
 ["templates.py"],[("polycrystal_from_odf,get_uniform_powder_sample,_sample_ODF","templates.py")])
p("C35","Generated sample meshes have the shape that was asked for",
 "TetraMesh.generate_mesh_from_levelset samples the level set function on a regular grid spanning [-R,R] in all three directions (R the bounding radius) with a spacing no coarser than max_cell_circumradius, extracts the surface at level zero with the spacing of that grid, hands it to the mesher in the world coordinates of the level set with its triangles unchanged, and returns the nodes and tetrahedra of the mesher, cells being limited by the requested circumradius; a level set without surface or a mesher that fails is a ValueError. polycrystal_from_odf meshes a closed surface whose points lie on the upright cylinder of the requested height and radius centred at the origin, enclosing it, with a cell limit proportional to the volume per crystal.",
 ["inputs"],"all level set functions, radii, cell sizes, cylinder dimensions and crystal numbers",
 "Tests mesh one sphere and one cylinder and look at shapes of arrays; a shift of a cell, a scale error in one direction or a coarser grid stays unnoticed.",
 ["mesh.py","templates.py"],[("TetraMesh.generate_mesh_from_levelset","mesh.py"),("polycrystal_from_odf","templates.py")])
p("C36","Stand-alone geometry helpers compute what they document",
 "Called on their own, the geometry helpers return for every argument what they document: scattering vectors U B hkl of all grains and planes, the Bragg angle arcsin(|G| wavelength/(4 pi)), its sine and |G|; the centre equally far from all given points and in their span, the six node distances of a tetrahedron, membership of a closed interval; the forward intersection of a ray with the detector plane (none if parallel or behind) and fractional pixel coordinates (none outside). The sampling of an element's motion through the beam covers time 0 to 1 evenly in steps of at most one degree and half the smallest bounding radius, and drops an element at a sample exactly when its bounding sphere is outside a facet of the backwards moved beam by more than its own radius.",
 ["inputs"],"all vectors, matrices, point sets, rays, motions",
 "Tests call a few of these with one value.",
 ["laue.py","utils.py","detector.py","beam.py"],[("_get_G,_get_bragg_angle,_get_sin_theta_and_norm_G","laue.py"),("_get_candidate_spheres","beam.py"),("_ray_detector_intersection,_world_to_pixel_coords","detector.py")])
p("C30","Bounding spheres enclose their element and are minimal",
 "The element bounding sphere contains all four nodes of its element and no smaller sphere does.",["inputs"],"all tetrahedra","numeric minimisation over a continuum of shapes",
 ["mesh.py"],[("_compute_mesh_spheres","mesh.py")])
p("C31","Beam clipping yields the true intersection volume",
 "The hull Beam._intersect returns for an element and a beam is their geometric intersection: the element itself when it lies inside the beam, otherwise the hull of the common points of all half-spaces of the element and all half-spaces of the beam (up to the six decimals they are rounded to), taken about a point strictly inside all of them; none is returned exactly when element and beam have no volume in common.",
 ["inputs"],"all tetrahedra, all convex beams","Tests clip a few boxes; most elements never reach the linear program that looks for a common point.",
 ["beam.py"],[("_intersect,_find_feasible_point","beam.py")])
p("C32","CPU and GPU give the same pattern",
 "The same simulation on cpu and cuda gives the same peaks and frames up to rounding.",["configurations"],"both devices","no GPU in CI",
 ["cuda.py","detector.py"],[("device handling","cuda.py")])
p("C33","Sampled orientations follow the orientation density",
 "Orientations drawn by the template are distributed according to the user's density.",["inputs"],"all densities","a statement about distributions",
 ["templates.py"],[("_sample_ODF","templates.py")])
p("C34","Micro and nano patterns converge to the macro pattern",
 "For grains at the method boundaries the three renderers agree within the detector resolution.",["inputs"],"all grains","an approximation statement on numerical patterns",
 ["detector.py"],[("renderers","detector.py")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P), max(len(q["title"]) for q in P))
