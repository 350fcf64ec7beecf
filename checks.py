"""The checks, one per property: which specifications are model-checked, what is driven, what judges it."""
CHECKS = {}
def check(pid, level="model_checking", rule="", assumptions=()):
    def deco(fn):
        CHECKS[pid] = dict(run=fn, level=level, rule=rule, assumptions=assumptions)
        return fn
    return deco

@check("P01", rule="worlds of boxes/triangles x aggregate x leaf size x rays; distinct records, non-trivial when there is more than one primitive")
def p01(c):
    c.mc("AccelModel", min_states=1000)
    if not c.quick:
        c.mc("AccelModel", "AccelModelBig", min_states=100000)
    t = c.drive("accel")
    c.judge("P01", t, min_records=500)

@check("P02", rule="layout families x sizes x split methods x leaf limits; distinct records, non-trivial when there is more than one primitive")
def p02(c):
    c.mc("AccelModel", min_states=1000)
    t = c.drive("accel")
    c.judge("P02", t, min_records=500)

@check("P07", rule="films (resolution, crop, filter kind and widths) x sequences of samples and splats inside, outside and on pixel borders")
def p07(c):
    c.mc("FilmModel", min_states=500)
    t = c.drive("film", env=dict(MODE="P07"))
    c.judge("P07", t, min_records=200)

@check("P08", rule="resolutions x crop fractions x filter widths; families of adjacent crops")
def p08(c):
    c.mc("FilmModel", min_states=500)
    t = c.drive("film", env=dict(MODE="P08"))
    c.judge("P08", t, min_records=500)

@check("P10", rule="films with accumulated samples and splats, full and cropped, splat scales, existing files")
def p10(c):
    t = c.drive("film", env=dict(MODE="P10"))
    c.judge("P10", t, min_records=150)

@check("P09", rule="recorded event programs of 2-3 concurrent updates (filters, positions), all interleavings; failing updates", 
       assumptions=("an update is atomic between two consecutive lock, read and write events on pixels",))
def p09(c):
    t = c.drive("filmrace")
    c.explore("FilmSched", t, min_records=100)

@check("P30", rule="filter kinds x parameters x offsets in the support (borders, centre, knots), single values and arrays")
def p30(c):
    t = c.drive("filters")
    c.judge("P30", t, min_records=500)

@check("P11", rule="pixel ranges x strata x jitter x shutter x requested patterns x random streams (constant 0, constant just below 1, mixed, random)")
def p11(c):
    c.mc("SamplerModel", min_states=1000)
    t = c.drive("sampler", env=dict(MODE="P11"))
    c.judge("P11", t, min_records=100)

@check("P12", rule="pixel ranges x tile counts; windows of every tile, and the pixels visited by running them in a random order")
def p12(c):
    c.mc("SamplerModel", min_states=1000)
    t = c.drive("sampler", env=dict(MODE="P12"))
    c.judge("P12", t, min_records=300)

@check("P13", rule="batches of samples x radiance kinds x hit x ray weight x accepted/rejected, enumerated by TLC from RenderModel, plus longer random runs")
def p13(c):
    s1, n1 = c.gen("RenderModel", "scen1")
    s2, n2 = c.gen("RenderModel", "scen2", cfg="RenderModel2")
    with open(s1, "a") as f:
        f.write(open(s2).read())
    t = c.drive("render", scen=s1)
    c.judge("P13", t, min_records=300)

@check("P14", rule="products of 1-5 elementary transforms x operands of every kind (points, vectors, normals, arrays, boxes, rays, ray differentials)")
def p14(c):
    t = c.drive("geometry", env=dict(MODE="P14"))
    c.judge("P14", t, min_records=500)

@check("P15", rule="pose pairs (rotation about any axis, up to just below a half turn) x times before, at, between and after the ends; motion bounds; quaternions",
       assumptions=("poses have no reflection and positive diagonal scale, so that their decomposition is unique",))
def p15(c):
    t = c.drive("geometry", env=dict(MODE="P15"))
    c.judge("P15", t, min_records=250)

@check("P16", rule="boxes (full, flat, point, empty, touching, equal) and rays (parallel to 0-2 axes, bounded intervals, grazing)")
def p16(c):
    t = c.drive("geometry", env=dict(MODE="P16"))
    c.judge("P16", t, min_records=500)

@check("P36", rule="chains of ray operations and every kind of affine operation")
def p36(c):
    t = c.drive("geometry", env=dict(MODE="P36"))
    c.judge("P36", t, min_records=500)

@check("P17", rule="spheres, cylinders, disks (whole and partial) under random placements (rotated, scaled, mirrored) x rays towards, past, along the axis, with cut-off intervals",
       assumptions=("rays grazing within 1e-9 of tangency or 1e-6 of a clipping limit may go either way",))
def p17(c):
    t = c.drive("shapes", env=dict(MODE="P17"))
    c.judge("P17", t, min_records=800)

@check("P18", rule="meshes of 1-6 faces with shared vertices, with and without uv, normals, tangents, alpha; rays through, beside and cut off",
       assumptions=("rays within 1e-7 of an edge or of the plane may go either way",))
def p18(c):
    t = c.drive("shapes", env=dict(MODE="P18"))
    c.judge("P18", t, min_records=700)

@check("P37", rule="shapes under rigid placements x random numbers and reference points inside and outside; shape sets of 1-4 triangles")
def p37(c):
    t = c.drive("shapes", env=dict(MODE="P37"))
    c.judge("P37", t, min_records=300)

@check("P38", rule="differential geometries with and without auxiliary rays; frames, spherical coordinates and face-forward flips")
def p38(c):
    t = c.drive("shapes", env=dict(MODE="P38"))
    c.judge("P38", t, min_records=500)

@check("P19", rule="every manifold control mesh on 4-5 vertices (TLC), wheels and fans of valence 2-9, grids, double pyramids, a torus, disconnected pieces x 0-2 levels (3 thorough)",
       assumptions=("control meshes are manifold and consistently oriented", "normals are compared where the two tangents span a plane"))
def p19(c):
    c.mc("LoopModel", min_states=40)
    if not c.quick:
        c.mc("LoopModel", "LoopModelBig", min_states=500)
    s, _ = c.gen("LoopModel", "s4", cfg="LoopGen4")
    if not c.quick:
        s5, _ = c.gen("LoopModel", "s5", cfg="LoopGen5")
        with open(s, "a") as f:
            f.write(open(s5).read())
    t = c.drive("loop", scen=s)
    c.judge("P19", t, min_records=60)

@check("P27", rule="all tables over {0,1,3} up to length 4 (thorough 6) x random numbers on a grid, random tables with zero bins and rows, random numbers 0, 1-2^-53, bin borders")
def p27(c):
    scen, n = c.gen("SamplingModel", "scen.ndjson", cfg="SamplingModel" if c.quick else "SamplingModelBig")
    t = c.drive("sampling", scen=scen, env=dict(MODE="P27"))
    c.judge("P27", t, min_records=n)

@check("P28", rule="each warp at random and extreme random numbers: domain, area element measured by differences, strip fractions over a grid; heuristics over densities and counts",
       assumptions=("the area element is measured by central differences of step 2^-16, strip fractions on a 40x40 grid (tolerance 3%)",))
def p28(c):
    t = c.drive("sampling", env=dict(MODE="P28"))
    c.judge("P28", t, min_records=500)

@check("P20", rule="sets of 0-5 stand-in components of every type x masks (integers and flag objects) x frames with tilted geometric normals x random numbers; adapters")
def p20(c):
    t = c.drive("scatter", env=dict(MODE="P20"))
    c.judge("P20", t, min_records=1000)

@check("P21", rule="random and axis-aligned normals, tangents and directions; helper frames and spherical coordinates")
def p21(c):
    t = c.drive("scatter", env=dict(MODE="P21"))
    c.judge("P21", t, min_records=1000)

@check("P22", rule="Fresnel kinds x indices x cosines; mirrors and refractions from both sides; rough models x parameters x direction pairs and random numbers",
       assumptions=("area elements of sampled directions are measured by central differences of step 2^-16",))
def p22(c):
    t = c.drive("scatter", env=dict(MODE="P22"))
    c.judge("P22", t, min_records=1000)

@check("P03", rule="worlds of boxes and triangles (up to 30 primitives, thorough 150) in grids built with and without refinement x rays in general and axis-parallel directions from inside and outside, finite and infinite intervals")
def p03(c):
    c.mc("GridModel", "GridModel" if c.quick else "GridModelBig", min_states=10000)
    t = c.drive("accel", env=dict(MODE="P03"))
    c.judge("P03", t, min_records=500)

@check("P04", rule="TLC-generated schedules of 2-3 queries with at most one preemption (thorough two) over cells of leaves, refinable and failing primitives, switched at calls on primitives and locks; random schedules switched at every line of the aggregate package",
       assumptions=("threads switch at lock operations, calls on primitives and source lines of the aggregate package",))
def p04(c):
    c.mc("GridLazy", min_states=5000)
    s, _ = c.gen("GridLazy", "s2", cfg="GridLazyGen" if c.quick else "GridLazyGen2")
    s3, _ = c.gen("GridLazy", "s3", cfg="GridLazyGen3")
    with open(s, "a") as f:
        f.write(open(s3).read())
    t = c.drive("gridrace", scen=s)
    c.judge("P04", t, min_records=500)

@check("P05", rule="all refinement trees up to 5 nodes (thorough 6) from TLC x plain, shape-backed and instanced primitives; creation histories; hit records through aggregates of quadrics and meshes")
def p05(c):
    c.mc("RefineModel", "RefineModel" if c.quick else "RefineModelBig", min_states=1000)
    s, _ = c.gen("RefineModel", "trees", cfg="RefineGen" if c.quick else "RefineGenBig")
    t = c.drive("prims", scen=s, env=dict(MODE="P05"))
    c.judge("P05", t, min_records=1000)

@check("P06", rule="quadrics and meshes under 1-3 nested, still or moving instances, in lists and hierarchies, at times before, in and after the motion; rays to and beside the moved surface",
       assumptions=("rays grazing within 1e-9 of tangency or 1e-6 of a limit may go either way", "the bound of moving geometry may be short by 2e-3 of its size, the step of the motion"))
def p06(c):
    t = c.drive("prims", env=dict(MODE="P06"))
    c.judge("P06", t, min_records=800)

@check("P24", rule="scenes of quadrics, meshes and (moving) instances in every aggregate x segments and directions ending on, before and behind surfaces x clearances x times; repeated and interleaved queries",
       assumptions=("surfaces within 1e-6 of an end of the segment may count either way",))
def p24(c):
    t = c.drive("prims", env=dict(MODE="P24"))
    c.judge("P24", t, min_records=500)

@check("P33", rule="image sizes (power of two or not, thin) x wrap modes x texel types x point, isotropic, trilinear and anisotropic lookups; image files of several modes; every texture kind on lattice, border and random coordinates; mappings near and across their seams",
       assumptions=("lookups whose elliptical weight falls within 1e-7 of a step of the weight table are not judged",))
def p33(c):
    t = c.drive("textures", env=dict(MODE="P33"))
    c.judge("P33", t, min_records=500)

@check("P23", rule="every light kind x placements x profile images (square, wide, tall, none) x receiving points inside, on the edge of and outside cones and on both sides of emitters x random numbers; directions leaving the light; power",
       assumptions=("directions within 1e-7 of the border of a projected image, and random numbers within 1e-9 of a step of a distribution, are not judged",))
def p23(c):
    t = c.drive("lights", env=dict(MODE="P23"))
    c.judge("P23", t, min_records=500)

@check("P31", rule="operators x kinds of spectra x component values incl. zero, negative, nan; creation from every kind of source; tables of 1-20 irregular, unsorted wavelengths x windows inside, across and outside; built-in colour tables; colours in every channel order")
def p31(c):
    c.mc("SpectraModel", min_states=500)
    t = c.drive("spectra", env=dict(MODE="P31"))
    c.judge("P31", t, min_records=1000)

@check("P29", rule="camera kinds x placements (still, moving) x screen windows x fields of view x film sizes x film positions on, in and beside the film x lens radii, lens samples, focal distances x times and shutters")
def p29(c):
    t = c.drive("cameras", env=dict(MODE="P29"))
    c.judge("P29", t, min_records=500)

@check("P32", rule="homogeneous, grid and exponential regions and aggregates of 1-3 of them x placements with rotation and scale x points in, near and outside x rays from inside and outside with finite and infinite intervals x step lengths and offsets; phase functions; measured liquids",
       assumptions=("points and ray steps within 1e-9 of the border of an extent, and rays touching an extent within 1e-8, are not judged",))
def p32(c):
    c.mc("VolumeModel", min_states=100)
    t = c.drive("volumes", env=dict(MODE="P32"))
    c.judge("P32", t, min_records=500)

@check("P25", rule="every case of one light estimate (light kind, which factor is dark, what the surface sample meets) from TLC; points under 0-4 lights of every kind with 1-3 samples each x strategies x media x random numbers; lights selected by power")
def p25(c):
    c.mc("TransportModel", min_states=5000)
    s, _ = c.gen("IntegratorGen", "est", cfg="IntegratorEst")
    t = c.drive("integrators", scen=s, env=dict(MODE="P25"))
    c.judge("P25", t, min_records=800)

@check("P26", rule="every scattering history of up to 3 bounces (thorough 4) and every tree of mirrored and refracted rays up to depth 3 from TLC, with bounce limits below, at and above; long random paths through the roulette; lights, emission and media at random")
def p26(c):
    c.mc("TransportModel", min_states=5000)
    s, _ = c.gen("IntegratorGen", "paths", cfg="IntegratorPath" if c.quick else "IntegratorPathBig")
    s2, _ = c.gen("IntegratorGen", "trees", cfg="IntegratorTree")
    open(s, "a").write(open(s2).read())
    t = c.drive("integrators", scen=s, env=dict(MODE="P26"))
    c.judge("P26", t, min_records=500)

@check("P39", rule="scenes of up to 5 objects (ground, balls, cylinders, sheets, solids; whole and partial, rotated, scaled, mirrored, moving) x materials x lights x integrators x recursion limits x aggregates x cameras, lens and shutter, every sample of small frames")
def p39(c):
    c.mc("RayTraceModel", "RayTraceModel" if c.quick else "RayTraceModelBig", min_states=500)
    s, _ = c.gen("RayTraceModel", "scenes", cfg="RayTraceGen" if c.quick else "RayTraceGenBig")
    t = c.drive("rendering", scen=s)
    c.judge("P39", t, min_records=100)

@check("P34", rule="every parameter class of every material and every mixture of up to 3 (thorough 4) of them from TLC x textures varying over the surface x geometric and shading frames, handedness, footprints, flat and sloped bump maps x directions on both sides; measured files and tables")
def p34(c):
    s, n = c.gen("MaterialModel", "mats", cfg="MaterialModel" if c.quick else "MaterialModelBig")
    t = c.drive("materials", scen=s)
    c.judge("P34", t, min_records=500)

@check("P35", rule="every history of 3 and 4 calls over the whole alphabet and of 5 over blocks, transforms, attributes and names from TLC (quick: an eighth of the longer ones); random histories of up to 40 calls with the state compared after every call; parameter lists; repeated initialisation")
def p35(c):
    c.mc("InterfaceModel", min_states=50000)
    if not c.quick:
        c.mc("InterfaceModel", "InterfaceModelDeep", min_states=50000)
    s, _ = c.gen("InterfaceModel", "h4", cfg="InterfaceGen")
    for g in ("InterfaceGen3", "InterfaceGen5"):
        s2, _ = c.gen("InterfaceModel", g, cfg=g)
        open(s, "a").write(open(s2).read())
    t = c.drive("interface", scen=s)
    c.judge("P35", t, min_records=2000)

@check("P40", rule="whole numbers, halves, numbers across 18 magnitudes and both sides of the comparison thresholds; powers of two and their neighbours; arrays and spectra")
def p40(c):
    t = c.drive("util")
    c.judge("P40", t, min_records=1500)
