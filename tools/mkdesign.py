import json,os,re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
kf=json.load(open('known_findings.json'))['findings']
P=[json.loads(l) for l in open('properties.jsonl')]
PER={
'C01':('diffract.py, detect.py','`Polycrystal.diffract`, `Detector.render` (each method), `peaks_detector_intersection` on a polycrystal with a symbolic phase map, 1–3 phases, with and without structure file','every column of the returned table, per representative row, equals the term its name states; the row space is the filter (closed time interval, inside beam / on detector); names and width agree; table returned by render equals the detector stage for every method'),
'C02':('diffract.py','the call chain diffract → laue half angle solver; rotator and wave vector symbolic','row space = {(grain, plane, root) : root real and in [0,1]} with the two roots of the quadratic in tan(θ/2) built from rho factors; the linear case (leading coefficient 0) by guarded interpretation; the elastic equation itself evaluated on the roots'),
'C03':('diffract.py','as C01, with interleaved phases and per-element strain','G columns = U_e · B(strain_e, cell_phase(e)) · hkl, all index maps (element → row, phase → block) composed symbolically'),
'C04':('motion.py','`RigidBodyMotion.__call__/rotate/translate/inverse`, constructor, rotator; layouts: one point, (N,3)+scalar/array time, (N,M,3)+array','term equal to R(angle t)(x−o)+o+translation t; attributes of inverse; refusal of bad axis/angle in C19'),
'C05':('motion.py','sequences of one to three `transform` calls; symbolic motions','lab mesh, orientations, strains (conjugation) and unchanged sample state'),
'C06':('motion.py','all sequences up to length 2 (thorough: 3) of update/rotate/translate','every mesh attribute of a moved body'),
'C07':('caller.py','every public constructor and method; two uses in a row, views and shared storage tracked by the ownership part of the heap','no mutation event reaches an object reachable from the caller’s arguments; values after equal the snapshot before'),
'C08':('caller.py','diffract, then transform/diffract/render, then read or render the first result','the first result’s terms are unchanged, and rendering it reads nothing of the polycrystal’s later state'),
'C09':('storage.py','save/load pairs with a symbolic file system (`Disk`), paths with dots, with and without extension, transformed polycrystals','files written (name, class of content), every attribute read later by the class is present and equal, object untouched; xdmf fields per element'),
'C10':('render.py','`Detector.render` for all methods with symbolic limits','three masks form a partition (boundary convention: a volume exactly on a limit may go to either side, but to exactly one); each mask reaches its renderer; contributions added'),
'C11':('detect.py, drawn.py','frame column, and deposits of the three renderers','bin index term; deposit’s frame argument equals own row’s frame; stack shape; F<1'),
'C12':('detect.py, drawn.py','8 switch combinations × renderers','factor term; deposits linear in factor × own volume (macro: × illuminated volume)'),
'C13':('diffract.py, detect.py','masks of diffract and detector stage','mask terms as predicates, with degenerate lanes (NaN, inf, zero, boundary, behind the source)'),
'C14':('detect.py','constructor, pixel grid, `_get_intersection`, `contains`, wrapping cone; by size or by count, scalar or pair','terms; concrete detectors for floor/round of lengths; NaN behind'),
'C15':('drawn.py','gaussian kernel, post convolution, micro deposit, airy kernels, nano deposit; concrete small scenes in the term domain (field interpretation) plus symbolic batches','total weight, centre, symmetry, width, independence of batch and order, dropping outside'),
'C16':('effects.py','all output events on the call graph','no print/warn/log event with a feasible path condition under verbose=False, except the documented ones; inheritance of the flag'),
'C17':('effects.py','dtype part of the product domain, methods × dtypes × empty/populated','dtype of the returned frames'),
'C18':('caller.py','rng/clock/global read events on the call graphs named','none reachable, outside of macro small boxes and templates; second call gives the same terms'),
'C19':('refusals.py','constructors and entry points, symbolic arguments','path condition of the raise events equals the specified refusal predicate (both directions: refuses exactly)'),
'C20':('templates.py','`templates.s3dxrd` with a symbolic parameter dictionary','beam box, wave vector, detector corners, motion; one missing key at a time'),
'C21':('diffract.py','histories of one and two diffract calls, with bounds/wavelength changed one at a time; mosflm or not; structure file or not','arguments of genhkl, pairing of hkl and factors, filter of zeros, ones'),
'C22':('crystal.py','`StructureFactor` batched computation over atoms × operations × reflections as reductions over symbolic spaces','term equal to the kinematic sum (real, imaginary)'),
'C23':('formulas.py','Beam constructor and vertex setter; sequences of sets','attributes equal to those of the current vertices, strict containment'),
'C24':('formulas.py','`_lorentz,_polarization,_scherrer` for one and many','terms incl. poles, angles above 90 degrees'),
'C25':('formulas.py','`utils` strain functions and their use in Polycrystal','B term; refusal; there and back; diagonal, zero and uniaxial tensors'),
'C26':('formulas.py','`cuda.configure_device`: name × availability × sequence × default set by others','selected = default = returned'),
'C27':('formulas.py','mesh expansion and `utils` geometry for symbolic nodes','terms, circumcentre equations'),
'C28':('drawn.py','`_render_projected_volumes`, `_project_convex_hull`, `_clip_line_with_convex_polyhedron` with a model of the hull library (volume, planes) and symbolic / small concrete scenes','deposited weights and their total'),
'C29':('templates.py','`polycrystal_from_odf`, `get_uniform_powder_sample`, `_sample_ODF`, user callbacks as uninterpreted functions','arguments of callbacks, per element assembly, counts'),
'C31':('clip.py','`Beam._intersect` on 40+ concrete element/beam scenes given as exact rational coordinates in the term domain; linprog and qhull have their mathematical meaning (exact vertex enumeration)','the returned hull’s half-spaces and vertices equal the exact intersection; none iff no common volume; interior point strictly inside'),
'C35':('meshing.py','level set meshing and the cylinder of `polycrystal_from_odf`, with symbolic radius/cell size; marching cubes, pygalmesh as models','grid, spacing, surface in world coordinates, cell limit, errors'),
'C36':('helpers.py','laue/utils/detector/beam helpers called alone','terms, as in the statement'),
}
out=[]
a=out.append
a('''# Static verification of xrd_simulator – design

## 1. Method

One engine (`/verif/engine`, pure Python, about 7 100 lines) reads the syntax trees of `/repo/xrd_simulator` on every run and
interprets them **abstractly**; the package is never imported and none of its code is executed, concretely or symbolically, and no solver is used.
Per entry point it builds a *value graph* (gated SSA: both branches of a condition are
analysed and joined with `Phi(condition, a, b)`; loops over symbolic sequences become one representative iteration, or a recurrence; no path enumeration).
The abstract domain is a product of

* **index spaces and shapes** – an array of unknown length is one representative element over a symbolic space (mesh elements, reflections, peaks of a mask, products, slices, concatenations). Gathers, masks, `cat`, `reshape`, broadcasting are maps between spaces, so a misaligned row is a different term and not merely a different shape;
* **values** – hash-consed terms for every scalar (real arithmetic), with quantifiers and reductions over spaces;
* **ownership** – heap locations, views and shared storage (who may be changed by an in-place operation);
* **effects** – ordered events with their path condition: raise, print, warn, rng, clock, file, global, default device, in-place mutation, deposit;
* **dtype / device / library** of every array (a numpy routine given a torch tensor is an event).

Two terms are equal when they get the same **value number**. Numbering is by random interpretation (Gulwani and Necula): atoms are mapped to random numbers,
spaces to small random finite models, predicates to random truth states, and the *graph* is folded. Lanes: generic; guarded (values that satisfy a path condition);
concrete (terms with floor/round, small exact scenes); special (zeros, ones, equal entries, one-point spaces, NaN/inf/zero denominators).
A difference found in a lane is a definite witness; equality in all lanes holds with overwhelming probability (Schwartz–Zippel for the rational parts, more than 40 lanes).
A size compared with a constant (`len(x) > 100000`) that the specification does not mention is explored with both outcomes. The ordinary analysis takes an array of symbolic
length for one of several rows (a branch `len(x) == 1` is not entered, `squeeze()` keeps the axis); C04, C05, C06, C14, C25, C27 and C36 are therefore analysed a second time with
*one row of everything*: such branches are entered, `squeeze()` drops the axis, and values are compared in interpretations whose spaces all have one point.
(The same pass over the checks that follow peaks through filters costs minutes and decides little, as the number of peaks is not a fact of the code: one-row bugs behind a filter can be missed there.)

External routines (torch, numpy, scipy, xfab, pygalmesh, meshio, dill, …) are models in `engine/extern.py, ext_fns.py, ext_index.py` or in the spec that needs them; they are given their documented mathematical meaning
(e.g. `linprog`: a maximiser of the stated program; `ConvexHull`: exact hull). An operation without a model gives an *unknown* value.

### Verdict rule
An obligation is PROVED, VIOLATED or UNDECIDED. Only a **definite mismatch** is a violation: two different terms, both built only from modelled operations, under a feasible guard.
Anything that touches an unknown value, an unmodelled operation, or an engine exception is UNDECIDED: it is listed in the evidence and raises no alarm. On the present tree
all obligations of all checks are PROVED, none undecided.
A function that is renamed, split, inlined or moved is followed by interpretation from the public entry points; only names which the existing tests pin (e.g. `laue._get_G`) are used directly, and one that is missing is UNDECIDED.

### What a violation names
The source line of the operation that built the offending term (or of the event), the computed and the specified term, and the obligation; the replay file holds the same as JSON.

### What this reaches that the tests do not
Obligations are over all meshes, peaks, phase maps, parameters, switch settings, and over call sequences, because lengths and values are symbolic. A bug that only shows with two interleaved phases, non-square pixels,
a moved mesh, a second call or an angle over 90 degrees changes the term and is seen without having to think of that input.

### Limits, stated once
* real arithmetic: floating point rounding, overflow and precision of float32 are not modelled (dtype is, as a fact: C17);
* models of external libraries are trusted; concurrency does not occur in the package;
* concrete scenes (C15, C28, C31, parts of C14, C20, C35) are finite sets of exact inputs folded through the value graph: they are bounds of those checks, named per check below;
* histories are bounded to the lengths given per property; the state after each step is compared for *all* values, so a longer history adds only repetition unless state is kept in a new place (which the ownership facts of C07/C08/C18 look at);
* sequences whose length matters (loop to convergence) are represented by recurrences; if their result cannot be numbered they are undecided.

## 2. Properties

Oracle in every case: the specification terms in `checks/specs/<file>`, written from documentation, docstrings and physics, not copied from the code.
Quick = thorough in method; `--thorough` uses more lanes, longer histories and more scenes. Cost: 1–35 s per check on one core, about 4.5 min for all in sequence, memory below 1 GB.
''')
ev={}
for i in PER:
    try: ev[i]=json.load(open('evidence/%s.json'%i))['coverage']
    except Exception: ev[i]={}
for p in P:
    i=p['id']
    if i not in PER: continue
    f,what,oracle=PER[i]
    a('### %s %s\n*Spec:* `%s`. *Analysed:* %s. *Decides:* %s. *Covered on this tree:* %s obligations over %s functions.\n'%(i,p['title'],f,what,oracle,ev[i].get('obligations','?'),ev[i].get('functions_analysed','?')))
NA=[x for x in json.load(open('MANIFEST.json'))['not_applicable']]
a('### Not applicable\n')
for x in NA:
    t=[p['title'] for p in P if p['id']==x['property']][0]
    a('* **%s %s** – %s'%(x['property'],t,x['reason']))
a('''
## 3. Genuine defects found and repaired

All were confirmed with the failing input against the real code, and each repair is one `fix:` commit (all pass the unedited tests). `tools/reverts.py` reverts
each one in a scratch copy and confirms that the check reports it again.

| property | commit | what failed |
|---|---|---|''')
for k in kf: a('| %s | %s | %s |'%(k['property'],k['commit'],re.sub(r'^fixed: property=\S+ \S+ ','',k['what'])))
a('''
No defect is left as an open known finding. Suspicions that were looked at and *not* made into findings (they are not decided by a property, or are documented behaviour): `polycrystal_from_odf` hands torch tensors to callbacks documented with numpy;
nano spots use the z pixel size for both directions of the kernel grid when the pixels are not square and the kernel size is set from it; `linprog(time_limit=0.1)` makes clipping depend on machine load; `TetraMesh.update` leaves the cached `_mesh.points` alone.

## 4. Planted bugs

Each was written from property text and code, confirmed by tests and a demonstration (`tools/plant.py`), then run against the checks. Caught = the check of its own property exits 1.

| seed | property | needs | caught by |
|---|---|---|---|''')
for d,r in sorted((d,r) for r in ('seeded','seeded_more') if os.path.isdir(r) for d in os.listdir(r)):
    m=json.load(open('%s/%s/meta.json'%(r,d))); a('| %s | %s | %s | %s |'%(d,m['property'],m['needs'],m['property']))
a('''
Beyond these, several hundred small mutants were written by hand or generated (`tools/mutants.py`, `tools/automut.py`: operators, constants, indices, swapped arguments, dropped statements) during the work. Those that were missed and change behaviour
led to: special-value lanes (behaviour that differs only for zero/equal/one-element inputs), numeric-only lanes, time domain of `translate`, default device set by others (C26), strain scenes (C25), frames of empty classes (C17), C31, C35 and C36 as a whole.

## 5. False alarms

Every claimed check must stay quiet on behaviour-preserving edits. `tools/refac.py` applies sets of refactorings (helper extracted, loop vectorised, vectorised code written as a loop, statements reordered, einsum for matmul,
`np.where` for masks, torch for numpy and back, renamed privates, early return, comprehension for append, dictionary dispatch, …; about 150 edits over all modules) and runs all checks. Alarms found and how they were settled:

* C23: `Beam._contains` written with `max(distance) < 0` – max/min comparisons are now canonicalised to quantifiers;
* C26: device check written via `str(device)` / `torch.device` objects – more of the torch device model;
* `beam keeps its vertices when a non-convex set is refused` was required by an early C23/C19; neither documentation nor property text promises it, so the requirement was removed;
* C10: a volume exactly on a limit may belong to either class (both conventions accepted), as long as it is drawn once;
* `None == None`, comparisons of values without model, truth of unknown objects: facts that fall back on a default now make the obligation UNDECIDED instead of VIOLATED.

## 6. Tools

`checks/run.py C01 … | all [--thorough]` (the registered commands), `tools/mkprops.py` → properties.jsonl, `tools/mkmanifest.py` → MANIFEST.json, `tools/plant.py` (seeds), `tools/mutants.py`, `tools/automut.py`, `tools/refac.py`, `tools/reverts.py`.
No setup is needed beyond `python3-vt`. Nothing under /repo is written; the checks use `VERIF_REPO` (default /repo).
''')
open('DESIGN.md','w').write('\n'.join(out))
