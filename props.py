"""Which harness runs decide which property."""
from vlib import Job
COMMON_ASSUMPTIONS=[
 "arithmetic is exact (mathematical reals; source constants are the exact binary values); rounding, overflow and denormals are outside the encoding",
 "the iterative SVD of Eigen is replaced by its contract (U, V orthogonal, U S V^T = F) or by arbitrary values where the property does not depend on it",
 "console output, timers and directory creation have no effect on the simulated state"]
def tv(q,t):
    return lambda tier: t if tier=="thorough" else q
V2=["2q","2c"]; V3=["3q","3c"]; VA=["2q","2c","3q","3c"]; VQ=["2q","2c","3q"]
def simple(file,entry,qv,tvv,**kw):
    def f(tier): return [Job(file,entry,tvv if tier=="thorough" else qv,**kw)]
    return f
def multi(*fs):
    def f(tier):
        r=[]
        for g in fs: r+=g(tier)
        return r
    return f
FREE="1 time step of simulate(), 2 interacting particles in neighbouring cells plus one fast distant particle, dx=0.5; 2D: every coordinate symbolic inside each kernel piece and at its kinks; 3D: coordinates along one axis symbolic at a time; "
PROPS={}
def prop(pid,**kw): PROPS[pid]=kw
prop("C01",jobs=simple("h_cons.cpp","h_momentum",VQ,VA,time=240,bounds=FREE+"velocities, affine matrices, stresses, mass, volume, gravity, dt, flip ratio symbolic; 1 thread (USL) and 2 threads (MUSL)",required=["stepped"]),assumptions=["no boundary objects"])
prop("C02",jobs=simple("h_cons.cpp","h_affine",VQ,VA,time=240,bounds=FREE+"velocity gradient, translation, deformation gradients, mass, gravity, dt, blending symbolic",required=["stepped"]),assumptions=["no boundary objects, no internal stress"])
prop("C03",jobs=simple("h_cons.cpp","h_angular",VQ,VA,time=240,bounds=FREE+"APIC; velocities, affine matrices, symmetric stresses, gravity, mass, dt symbolic",required=["stepped"]),assumptions=["no boundary objects"])
prop("C04",jobs=simple("h_cons.cpp","h_blend",VQ,VA,time=240,bounds=FREE+"three runs (pure, pure, blended) from the same symbolic state; blending coefficient in [0.01,1]",required=["stepped"]),assumptions=["no boundary objects"])
prop("C05",jobs=simple("h_cons.cpp","h_symmetry",VQ,VA,time=240,bounds=FREE+"two runs, coordinates transposed (2D: x-y; 3D: x-y, y-z) and particles renumbered; flip ratio 7/8, AFLIP 3/4, APIC",required=["stepped"]),assumptions=["no boundary objects"])
V23=["2q","3q"]
prop("C06",jobs=simple("h_grid.cpp","h_follow",V23,VA,time=240,bounds="2 steps of simulate() with dt=1, dx=0.5; 2 isolated particles, each or both moving up to 2.4 cells per step along any one axis, extent 13 cells or symbolic between 12.5 and 13.5 cells; coordinates exactly on a kernel kink or at least 1e-9 half cells from it",required=["moved"]),assumptions=["no internal forces","quick tier: quadratic splines and a fixed selection of scheme combinations"])
prop("C07",jobs=multi(simple("h_time.cpp","h_steps",["2q"],["2q","3q"],time=240,bounds="whole runs of 1-2 frames and at most 8 steps; 2 isolated particles with symbolic speeds, density, stiffness, frame rate, both CFL numbers symbolic",required=["ran"]),
  simple("h_time.cpp","h_gravity",["2q"],["2q","3q"],time=120,bounds="3 steps of symbolic size, symbolic gravity and ramp time, PIC/FLIP and APIC, USL and MUSL",required=["ran"]),
  simple("h_time.cpp","h_cfl",V23,V23,time=120,bounds="first step, 3 isolated particles, two with symbolic velocity vectors (3D: two components each), all limits symbolic",required=["stepped"])),assumptions=["no boundary objects"])
NODE="one grid node with symbolic position, velocity and step size; "
prop("C08",jobs=multi(simple("h_contact.cpp","h_plate",V23,V23,time=120,bounds=NODE+"all plate types, 3 contact conditions, friction zero/symbolic/from the grid, plate position, edges and velocity symbolic",required=["done"]),
  simple("h_contact.cpp","h_object",V23,V23,time=120,bounds=NODE+"ground and two inclined planes, symbolic offset and friction",required=["done"]),
  simple("h_contact.cpp","h_multi",V23,V23,time=120,bounds=NODE+"two boundaries of three (inclined plane, ground, moving plate)",required=["done"])),assumptions=["friction laws of plates under SlipStick while separating are only checked for not reversing and not accelerating"])
prop("C09",jobs=simple("h_contact.cpp","h_platemove",V23,V23,time=120,bounds="2 steps of simulate(), all plate types, symbolic position, edges, velocity, reduction factor, loading phase, step size",required=["moved"]),assumptions=["plate far from the particles"])
prop("C10",jobs=lambda tier: simple("h_terrain.cpp","h_terrain",V23,V23,time=120,bounds="one symbolic point, |x|<=1, -1<=y<=3, symbolic gate height and ground level",required=["bump","curve","gate","ground","ramp"])(tier)+simple("h_terrain.cpp","h_silo",["3q"],["3q"],time=120,bounds="one symbolic point, |x|,|z|<=3, -2<=y<=3, symbolic outlet",required=["silo"])(tier),assumptions=["object_vdb is outside (needs OpenVDB)","exp is an uninterpreted positive monotone function with its sign/product axioms; sinh, cosh, tanh are defined by it"])
ONE="one step of one particle at rest with stored deformation U exp(h) V^T, principal Hencky strains |h|<=1 (distinct), U, V rotations (3D: about one axis, thorough: two); dt, USL/MUSL symbolic; "
prop("C11",jobs=multi(simple("h_plast.cpp","h_hencky",V23,V23,time=120,bounds=ONE+"E in [1,10], nu in [0.05,0.45]",required=["done"]),
  simple("h_plast.cpp","h_neohooke",V23,V23,time=120,bounds="one step of one particle at rest, arbitrary deformation gradient with entries |F|<=1.5 and 0.1<J<3, E, nu, dt symbolic",required=["done"])),assumptions=[])
MCC="one step of one particle at rest with given trial pressure in [-300,600] and shear stress in [0.5,600] (E=2500, nu=0.25), rotations, dt, history symbolic, USL/MUSL; any converged iteration number between 1 and the limit (state before the last iteration arbitrary), plus the exact first iteration; 3D quick: one deviatoric direction, thorough three; "
prop("C12",jobs=multi(simple("h_plast.cpp","h_vm",V23,V23,time=120,bounds=ONE+"yield stress, history symbolic",required=["elastic","plastic"]),
  simple("h_plast.cpp","h_vmvisc",V23,V23,time=160,bounds=ONE+"yield stresses, tension cap, viscosity, history symbolic; softening only for elastic and capped states; linear viscosity",required=["cap","elastic","shear"]),
  simple("h_mcc.cpp","h_vmnewton",V23,V23,time=120,bounds=MCC+"softening rate 0 or 2 from a fixed history, viscous exponent 1 or 2, both viscosity formulations; yield stresses in [20,100]",required=["shear"])),assumptions=["non-convergence of the iteration and viscous exponents other than 1 and 2 are outside"])
prop("C13",jobs=multi(simple("h_plast.cpp","h_dp",V23,V23,time=120,bounds=ONE+"friction, cohesion, history symbolic",required=["tip","elastic","shear"]),
  simple("h_plast.cpp","h_dpsoft",V23,V23,time=120,bounds=ONE+"friction, cohesion, softening, history, volume correction symbolic; 3D quick: three deviatoric directions",required=["tip","elastic","shear"]),
  simple("h_plast.cpp","h_dpvisc",V23,V23,time=200,bounds=ONE+"friction, cohesion, viscosity, history, volume correction symbolic; 3D quick: three deviatoric directions",required=["tip","elastic","shear"]),
  simple("h_mcc.cpp","h_dpnewton",V23,V23,time=120,bounds=MCC+"viscous exponent 2, both viscosity formulations, friction, cohesion symbolic; volume correction 0 or 1/64",required=["shear"])),assumptions=["non-convergence of the iteration and viscous exponents other than 1 and 2 are outside"])
prop("C14",jobs=multi(simple("h_plast.cpp","h_dpmui",V23,V23,time=120,bounds=ONE+"friction limits, cohesion, history symbolic; tip and elastic states",required=["tip","elastic"]),
  simple("h_plast.cpp","h_dpmuiflow",V23,V23,time=120,bounds=ONE+"flowing states parametrised by pressure and mobilised friction (5% to 95% of the range), friction limits, reference inertial number, cohesion, volume gain symbolic; grain size and density fixed; 3D: three deviatoric directions",required=["flow"])),assumptions=["volume correction non-negative for flowing states","strain rate of states returned to the tip is not checked"])
prop("C15",jobs=multi(simple("h_mcc.cpp","h_mccexpl",V23,V23,time=300,bounds=MCC+"no, explicit exponential and explicit sinh hardening (xi=4, fixed volumetric history), M, beta, p0 symbolic",required=["elastic","plastic"]),
  simple("h_mcc.cpp","h_mccimpl",V23,V23,time=200,bounds=MCC+"implicit exponential hardening (xi=4, p0=64, fixed volumetric history), M, beta symbolic; implicit sinh hardening for elastic states only",required=["elastic","plastic"]),
  simple("h_mcc.cpp","h_mccvisc",["2q"],V23,time=300,bounds=MCC+"no hardening, Duvaut-Lions and Perzyna (exponent 1; thorough: 2), M, beta, p0, viscous time symbolic",required=["elastic","plastic"])),assumptions=["non-convergence of the iteration is outside","step sizes of the inner line search are arbitrary","normality of the plastic flow (which root the Newton iteration converges to) is not decided"])
prop("C16",jobs=multi(simple("h_pbc.cpp","h_seam",["2q","3q"],VA,time=240,bounds="1 step of simulate(), dx=0.5, domain of 16 cells; the same two particles across the seam and five cells inside; positions along x from a list (other quantities symbolic), or symbolic with motion across x only; USL/MUSL, PIC/FLIP, AFLIP, APIC",required=["stepped"]),
  simple("h_pbc.cpp","h_wrap",["2q"],["2q","3q"],time=240,bounds="3 steps of uniform motion with symbolic speed up to 2.2 cells per step, through either side",required=["moved"])),assumptions=["domain length a multiple of the grid spacing and at least 8 cells"])
prop("C17",jobs=multi(simple("h_threads.cpp","h_step",V23,VA,time=240,bounds="1 step of simulate(), 3 particles, 1 thread against 2 and 3 threads in every (quick: one reversed) order of the threads, symbolic state; periodic or not, friction transfer on or off",required=["stepped"]),
  simple("h_threads.cpp","h_flow",V23,VA,time=240,bounds="1 step, 3 particles at rest, five plastic models, symbolic strain and history; 1 thread against 2 and 3 threads",required=["stepped"])),assumptions=["threads interleave at the granularity of barrier-separated phases; any unordered conflicting access is reported as a race, so this is without loss of generality for race-free code"])
prop("C18",jobs=multi(simple("h_sample.cpp","h_regular",V23,V23,time=120,bounds="domain lengths in [0.5,1.25], grid spacing in [0.5,0.75], 1 or 2 particles per cell and direction, density symbolic, all crop shapes (3D cropped: 1 per cell)",required=["full","cropped"]),
  simple("h_sample.cpp","h_poisson",V23,V23,time=120,bounds="1 to 3 points at arbitrary places of the domain in place of the Poisson sampler; domain lengths, density, particles per cell symbolic; all crop shapes",required=["full","cropped"])),assumptions=["the Poisson disk sampler (external library) returns arbitrary points of the box it is given","sampling inside OpenVDB level sets is outside"])
prop("C19",jobs=multi(simple("h_save.cpp","h_frames",V23,V23,time=240,bounds="2 frames of simulate(), 2 particles (and periodic images), grid output on, symbolic step, mass, velocities, deformation and gravity",required=["saved"]),
  simple("h_save.cpp","h_plastic",V23,V23,time=120,bounds="1 frame, saved history columns of 2 particles under 7 plastic model/output combinations, symbolic history and stress",required=["saved"]),
  simple("h_save.cpp","h_average",V23,V23,time=120,bounds="3 particles, symbolic stresses, deformations and plastic volume strains",required=["averaged"])),assumptions=["the PLY writer (external library) is replaced by a stand-in that records the arrays it is given","text formatting and rounding of the written numbers are outside"])
NOT_APPLICABLE={}
