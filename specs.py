"""Registry: property id -> (level, harnesses)."""
from jax import H, VERIF
import os
import itertools

SC = ["lib/scalar/scalarField.cpp", "lib/cosmos/cosmos.cpp", "lib/utils/parse.cpp", "lib/utils/memAlloc.cpp"]
MD = ("base.cpp", "mpi.cpp", "fft_stub.cpp")


def grid(**k):
    ks = list(k)
    return [dict(zip(ks, v)) for v in itertools.product(*[list(x) if isinstance(x, (list, tuple, range)) else [x] for x in k.values()])]


SPECS = {}

# ---- folding -------------------------------------------------------------------------------------
FOLDQ = grid(cplx=[0, 1], dbl=[0, 1], what=range(8), n=8, lz=3, ng=1) + grid(cplx=1, dbl=0, what=[0, 2, 5], n=8, lz=3, ng=2)
FOLDD = grid(cplx=1, dbl=0, what=[4, 5], n=8, lz=10, ng=1)
FOLDT = FOLDQ + grid(cplx=[0, 1], dbl=[0, 1], what=range(8), n=16, lz=[4], ng=[1, 2], th=3) + grid(cplx=0, type=1, dbl=[0, 1], what=[0, 1, 2, 3], n=8, lz=3, ng=[1, 2])
SPECS["C01"] = ("model_checking", [
    H("fold", "fold.cpp", SC + ["lib/scalar/folder.cpp"], MD, FOLDQ, FOLDT, note="n=8,16; Lz=3,4; Ng=1,2; every element of m, v, m2 symbolic"),
    H("fold_deep", "fold.cpp", SC + ["lib/scalar/folder.cpp"], MD, FOLDD, note="slabs deeper than Ng*n1 slices (Lz=10, n1=8, Ng=1)"),
])

# ---- saxion kernel ---------------------------------------------------------------------------------
SXQ = grid(pot=range(12), dbl=1, n=4, lz=2, ng=1, symc=[0, 2]) + grid(pot=range(12), dbl=0, n=8, lz=2, ng=1, symc=0)
SXQ += grid(pot=[0, 8], dbl=1, n=8, lz=2, ng=2, symc=0) + grid(pot=1, dbl=0, n=24, lz=1, ng=3, symc=0) + grid(pot=2, dbl=1, n=16, lz=1, ng=4, symc=0) + grid(pot=0, dbl=0, n=16, lz=1, ng=2, symc=0)      # wider stencils
SXQ += grid(pot=[3, 7], dbl=1, n=4, lz=3, ng=1, symc=0, v0=[0, 1], v1=[2, 3], by=1, bz=2) + grid(pot=[0, 5], dbl=0, n=8, lz=3, ng=1, v0=[0, 1], v1=[2, 3], by=[1, 3], bz=2)  # slice ranges, ragged blocks
SXT = SXQ + grid(pot=range(12), dbl=1, n=4, lz=2, ng=1, symc=1, deti=1) + grid(pot=[0, 8], dbl=1, n=[12], lz=1, ng=3, symc=0) + grid(pot=[0], dbl=1, n=16, lz=1, ng=4, symc=0) + grid(pot=range(12), dbl=0, n=16, lz=2, ng=2, symc=0, deti=[0, 1])
SXT += grid(pot=[0, 9], dbl=[0, 1], n=8, lz=4, ng=1, v0=[0, 1, 2], v1=[3, 4], by=[1, 2, 3], bz=[1, 2, 3], th=[1, 3])
SPECS["C02"] = ("model_checking", [
    H("saxprop", "saxprop.cpp", [], ("base.cpp",), SXQ, SXT, note="n=4,8 (double), 8,16 (single); depth 1-4; Ng=1-4; all sites symbolic, scalars symbolic when symc>0"),
])

# ---- axion kernels ---------------------------------------------------------------------------------
THQ = grid(pot=range(6), dbl=1, n=8, lz=2, ng=1, mod=[0, 1]) + grid(pot=range(6), dbl=0, n=16, lz=1, ng=1, mod=[0, 1]) + grid(pot=[1, 2], dbl=1, n=8, lz=1, ng=1, mod=[0, 1], symc=[1, 2])
THQ += grid(pot=1, dbl=1, n=16, lz=1, ng=2, mod=[0, 1]) + grid(pot=1, dbl=0, n=32, lz=1, ng=2, mod=[0, 1]) + grid(pot=2, dbl=1, n=24, lz=1, ng=3, mod=[0, 1]) + grid(pot=1, dbl=1, n=8, lz=3, ng=1, v0=[0, 1], v1=[2, 3], by=1, bz=2) + grid(pot=0, dbl=0, n=16, lz=3, ng=1, v0=1, v1=3, by=[1, 3], bz=2)
THQ += grid(what=1, dbl=[0, 1], n=16, lz=3, ng=1, by=[1, 3], bz=2)
SPECS["C03"] = ("model_checking", [
    H("thetaprop", "thetaprop.cpp", [], ("base.cpp",), THQ, note="n=8,16; depth 1-3; Ng=1,2"),
])

# ---- non-relativistic kernels and the gravity source ---------------------------------------------------
PXQ = grid(what=[0, 1, 2, 3, 4, 5, 7], dbl=1, n=8, lz=2, ng=1, by=[1, 2], symc=0) + grid(what=[0, 1, 2, 3, 4, 5, 7], dbl=0, n=16, lz=2, ng=1, by=[1, 2], symc=0) + grid(what=[0, 1, 2], dbl=1, n=8, lz=1, ng=1, symc=1, sign=[1, -1])
PXQ += grid(what=6, dbl=1, n=4, lz=2, ng=1, symc=[0, 1]) + grid(what=6, dbl=0, n=8, lz=2, ng=1, by=[1, 2]) + grid(what=0, dbl=1, n=8, lz=2, ng=1, nexp=1) + grid(what=[0, 1, 3, 6], dbl=1, n=8, lz=3, ng=1, v0=[0, 1], v1=[2, 3], bz=2) + grid(what=[0, 4], dbl=1, n=16, lz=3, ng=2) + grid(what=0, dbl=0, n=32, lz=1, ng=2) + grid(what=0, dbl=1, n=24, lz=1, ng=3) + grid(what=4, dbl=0, n=32, lz=1, ng=2) + grid(what=7, dbl=1, n=8, lz=2, ng=1, src=1) + grid(what=7, dbl=0, n=16, lz=2, ng=1, src=1)
SPECS["C04"] = ("model_checking", [
    H("paxnax", "paxnax.cpp", [], ("base.cpp",), PXQ, note="n=4..16; depth 1-3; Ng=1,2"),
])

# ---- halo exchange ---------------------------------------------------------------------------------
def ranked(n):
    r = []
    for k in range(n):
        d = ["-DScalar=ScalarK%d" % k, "-DfIndex=fIndexK%d" % k]
        r += [("lib/scalar/scalarField.cpp", d), (os.path.join(VERIF, "harness/ghost_rank.cpp"), d + ["-DRANK=%d" % k]), (os.path.join(VERIF, "models/fft_stub.cpp"), d)]
    return r
GHQ = grid(ranks=[1, 2, 3], what=[0, 2], how=[0, 1], type=[0, 1], dbl=1, n=4, lz=2, ng=1, ord=[0, 3]) + grid(ranks=[2, 3], what=[0, 2], how=[0, 1], type=[0, 1, 2], dbl=0, n=4, lz=4, ng=2, ord=[1, 2], split=[0, 1])
GHQ += grid(ranks=[1, 2, 3], what=[0, 1], how=[0, 1], type=2, dbl=[0, 1], n=4, lz=3, ng=[1, 2], ord=0) + grid(ranks=3, what=[0, 2], how=1, type=[0, 1, 2], dbl=1, n=4, lz=4, ng=3, ngr=[1, 2], ord=[0, 3]) + grid(ranks=1, what=[0, 2], how=2, type=[0, 1, 2], dbl=[0, 1], n=4, lz=3, ng=[1, 2]) + grid(ranks=2, what=9, n=4, dbl=1)
GHT = GHQ + grid(ranks=[1, 2, 3], what=[0, 2], how=[0, 1], type=[0, 1, 2], dbl=[0, 1], n=8, lz=[3, 4], ng=[1, 2, 3], ord=range(6), split=[0, 1])
H_GHOST = H("ghost", "ghost.cpp", ranked(3) + SC[1:], ("base.cpp", "mpi.cpp"), GHQ, GHT, note="1-3 ranks; n=4; depth 2,4; Ng 1,2")
SPECS["C05"] = ("model_checking", [H_GHOST])

# ---- whole integrator steps --------------------------------------------------------------------------
STQ = grid(kind=0, pot=[0, 2, 3, 4], frw=[0, 1], dbl=1, n=4, lz=2) + grid(kind=3, pot=[0, 3], dbl=1, n=4, lz=2) + grid(kind=0, dbl=1, n=8, lz=[2, 3], ng=2) + grid(kind=[0, 3], dbl=1, n=4, lz=[1, 3]) + grid(kind=[0, 5], pot=0, dbl=0, n=8, lz=2) + grid(kind=5, dbl=1, n=4, lz=[1, 2, 3])
STQ += grid(kind=1, pot=[0, 1], frw=[0, 1], dbl=1, n=8, lz=2) + grid(kind=1, dbl=0, n=16, lz=1, chk=4) + grid(kind=1, pot=1, dbl=1, n=16, lz=3, ng=2, chk=8) + grid(kind=2, dbl=1, n=8, lz=1) + grid(kind=4, frw=[0, 1], dbl=1, n=8, lz=[1, 2]) + grid(kind=4, dbl=0, n=16, lz=1, chk=4)
STT = STQ + grid(kind=[0, 3], pot=[0, 2, 3, 4], dbl=1, n=4, lz=2, steps=2) + grid(kind=[0, 3], pot=2, nl=1, sy=1, dbl=1, n=4, lz=1) + grid(kind=[0], dbl=[0, 1], n=8, lz=4, ng=[1, 2], th=3) + grid(kind=[1, 2, 4], dbl=1, n=8, lz=[2, 3], steps=[1, 2]) + grid(kind=5, dbl=1, n=8, lz=[2, 4], ng=2, steps=[1, 2])
IGQ = grid(kind=[0, 3], integ=[1, 2, 3, 4]) + grid(kind=1, integ=[1, 2, 3, 4], n=8) + grid(kind=0, integ=[1, 4], nl=1, sy=[1, 2], pot=2)
IGT = IGQ + grid(kind=[0, 3], integ=[1, 2, 3, 4], dbl=0, n=8, lz=[1, 3], ng=[1, 2], chk=3) + grid(kind=1, integ=[1, 2, 3, 4], n=16, dbl=0, lz=1, steps=2, chk=4)
SPECS["C06"] = ("model_checking", [
    H("step", "step.cpp", SC + ["lib/propagator/propagator.cpp", "lib/scalar/folder.cpp"], MD, STQ, STT, note="n=4..16, depth 1-4, Ng 1,2; fields symbolic at every site with potentials that are linear in the field (nonlinear terms: C02-C04); 1-2 steps"),
    H("integ", "step.cpp", SC + [("lib/propagator/propagator.cpp", ["-DUSE_PROP_MLEAP", "-DUSE_PROP_LEAP", "-DUSE_PROP_OM2"]), "lib/scalar/folder.cpp"], MD, IGQ, IGT, note="the integrators that are off by default: two and four leaps, Omelyan 2 and 4; complex field (both memory layouts) and angle"),
])

# ---- energies --------------------------------------------------------------------------------------
EN = ["lib/energy/energy.cpp", "lib/energy/energyXeon.cpp", "lib/energy/energyThetaXeon.cpp", "lib/energy/energyPaxionXeon.cpp", "lib/energy/energyNaxionXeon.cpp", "lib/scalar/folder.cpp"]
ENQ = grid(kind=0, pot=range(13), dbl=1, n=4, en=3, shift=[0, 1]) + grid(kind=0, pot=range(13), dbl=0, n=8, en=3, zz2=1) + grid(kind=0, pot=[0, 2, 3], dbl=1, n=4, en=[1, 4, 5, 6, 7], msk=[0, 2])
ENQ += grid(kind=0, pot=[3, 5], dbl=0, n=8, en=[1, 4, 5, 6, 7], msk=[0, 1], zz2=1, shift=1) + grid(kind=0, pot=4, dbl=1, n=8, lz=3, ng=2, en=3, frw=1) + grid(kind=0, pot=0, dbl=0, n=8, en=3, shift=1)
ENQ += grid(kind=[1, 2], dbl=0, n=16, lz=1, en=[1, 3], frw=1) + grid(kind=[1, 2], dbl=1, n=8, lz=2, en=3, ng=[1, 2]) + grid(kind=3, dbl=1, n=8, lz=2, ng=[1, 2], en=3) + grid(kind=3, dbl=0, n=16, lz=[1, 2], ng=1, en=3) + grid(kind=3, dbl=0, n=16, lz=4, ng=4, nsym=8, en=3)
ENQ += grid(kind=4, dbl=1, n=4, pot=[0, 3], en=[1, 5], msk=0) + grid(kind=4, dbl=0, n=8, pot=[2], en=[4, 5], msk=1, zz2=1)
ENQ += grid(kind=0, pot=[0, 3], dbl=1, n=4, en=[3, 7], msk=2, ranks=2, rank=1) + grid(kind=0, pot=3, dbl=0, n=8, lz=1, en=3, ranks=3, rank=2, zz2=1) + grid(kind=[1, 2], dbl=1, n=8, en=3, ng=2, ranks=2) + grid(kind=3, dbl=1, n=8, en=3, ranks=3, rank=1) + grid(kind=4, dbl=1, n=4, en=[1, 5], ranks=2)
ENT = ENQ + grid(kind=0, pot=range(13), dbl=0, n=16, lz=2, en=3, zz2=1, th=3) + grid(kind=[1, 2], dbl=0, n=16, lz=3, ng=[1, 2], en=3, th=3) + grid(kind=0, pot=range(13), dbl=1, n=8, lz=3, en=7, msk=2, zz2=1) + grid(kind=3, dbl=0, n=16, lz=4, ng=2, en=3)
DCQ = grid(have=0, dbl=[0, 1], n=8, ng=[1, 2], sax=1) + grid(have=1, dbl=[0, 1], low=[0, 1], sax=[0, 1])
SPECS["C07"] = ("model_checking", [
    H("energy", "energy.cpp", SC + EN, MD, ENQ, ENT, note="n=4,8,16, Lz 1-4, Ng 1-4; every site of field and velocity symbolic; symbolic mask bits at two sites; as one of 2-3 processes with the neighbours' slices and the others' sums symbolic"),
    H("dcontrast", "dcontrast.cpp", SC + EN + ["lib/energy/dContrast.cpp"], MD, DCQ, DCQ, note="n=4,8; two symbolic densities per map"),
])

# ---- histogram ---------------------------------------------------------------------------------------
BINQ = grid(data=3, free=3, nb=3, what=[0, 1], dbl=1) + grid(data=5, free=3, nb=3, pin=1, what=[0, 1], dbl=[0, 1]) + grid(data=4, free=2, nb=5, pin=1, what=0, dbl=[0, 1]) + grid(data=5, free=3, what=2, dbl=[0, 1]) + grid(data=6, free=2, nb=3, pin=1, pad=3, dat=2, dbl=1) + grid(data=8, free=2, nb=3, pin=1, pad=4, dat=3, dbl=[0, 1], th=3) + grid(data=4, free=[2, 3], nb=3, ranks=2, rank=1, wide=1, dbl=[0, 1]) + grid(data=4, free=2, nb=5, ranks=3, wide=1, dbl=1) + grid(data=3, free=3, what=2, ranks=2, dbl=[0, 1]) + grid(data=6, free=2, nb=3, pin=1, pad=3, dat=2, ranks=2, wide=1)
BINT = BINQ + grid(data=9, free=2, pin=1, pad=3, dat=2, ranks=4) + grid(data=4, free=2, pin=1, ranks=2) + grid(data=5, free=3, nb=5, pin=1, what=[0, 1], dbl=[0, 1]) + grid(data=7, free=4, nb=3, pin=1, what=[0, 1], dbl=[0, 1], th=3) + grid(data=9, free=3, nb=5, pin=1, what=0, dbl=1, th=4)
SPECS["C11"] = ("model_checking", [
    H("binner", "binner.cpp", SC, MD, BINQ, BINT, note="3-9 data of which up to 4 symbolic, 3 and 5 bins, padded rows, 2-4 threads; as one of 2-4 processes with the others' extremes and shares symbolic"),
])

# ---- strings and walls -------------------------------------------------------------------------------
STRQ = grid(dbl=1, n=4, lz=2, site=[0, 3, 13, 31], bg=[0, 1]) + grid(dbl=1, n=4, lz=2, site=[12, 19], pos=1, mask=1, bg=9) + grid(dbl=1, n=4, lz=[1, 3], site=15, ng=[1, 2], pos=1, bg=2) + grid(dbl=0, n=8, lz=1, site=[7, 27, 63], bg=[0, 1], pos=1) + grid(dbl=0, n=8, lz=2, site=127, ng=2, bg=9, mask=1) + grid(dbl=[0, 1], n=8, lz=1, site=20, fold=0, bg=3) + grid(dbl=1, n=4, lz=2, site=5, site2=6, bg=9)
STRQ += grid(dbl=1, n=4, lz=2, site=[5, 37], ranks=2, rank=1, pos=[0, 1], bg=[0, 9]) + grid(dbl=0, n=8, lz=1, site=[27, 91], ranks=3, rank=2, ng=2, pos=1, bg=1)
STRT = STRQ + grid(dbl=1, n=4, lz=2, site=37, site2=17, ranks=2, rank=1, pos=1, bg=9) + grid(dbl=1, n=4, lz=2, site=range(32), bg=[3, 4]) + grid(dbl=0, n=8, lz=1, site=range(0, 64, 3), bg=5) + grid(dbl=1, n=4, lz=2, site=5, site2=[6, 9, 21, 10], bg=[0, 9]) + grid(dbl=1, n=4, lz=2, site=3, site2=0, site3=[7, 19], bg=9) + grid(dbl=0, n=8, lz=2, site=[31, 63, 127], site2=[0, 64], bg=6, ng=[1, 2])

# ---- masks ---------------------------------------------------------------------------------------------
MKQ = grid(mask=[2, 4], out=[0, 1], site=[5, 63], fold=[0, 1]) + grid(mask=[8, 16, 64], out=[0, 1], site=[5, 60], rad=[3, 4], bg=[0, 1]) + grid(mask=[8, 16], site=21, cal=[4, -4], rad=[5, 10, 18]) 
MKQ += grid(mask=32, out=[0, 1], site=[5, 60], rad=[2, 3], bg=0) + grid(mask=[512, 1024], out=[0, 1, 2], site=5, rad=[2, 3], cum=[0, 1]) + grid(mask=[512, 1024], out=2, site=60, rad=[2, 4], bg=1) + grid(mask=2048, out=2, site=5, bg=[0, 1])
MKQ += grid(mask=[8, 16, 64], n=6, ranks=3, lz=2, rank=[1, 2], site=[5, 41], rad=[2, 3]) + grid(mask=[512, 1024], n=6, ranks=3, lz=2, rank=[0, 1], site=43, rad=[2, 4])
MKQ += grid(mask=[2, 8, 16, 64], n=4, site=5, rad=4, bg=1, th=4) + grid(mask=[512, 1024], n=4, site=5, rad=4, bg=1, th=4, out=2)
MKT = MKQ + grid(mask=[8, 16, 32, 64], site=range(0, 64, 13), rad=[2, 3, 4], bg=[2, 3]) + grid(mask=[8, 64], site=5, site2=[6, 22], rad=3, bg=[0, 4]) + grid(mask=[512, 1024], out=[0, 2], site=range(0, 64, 13), rad=[2, 4], cum=[0, 1], bg=5) + grid(mask=512, out=2, site=5, site2=[6, 53], rad=3)
MKT += grid(mask=[2, 4, 8, 16, 64], dbl=0, n=8, site=77, rad=[3, 5], bg=[0, 2]) + grid(mask=[2, 4], dbl=0, n=8, site=500, fold=1) + grid(mask=[8, 16, 64, 512, 1024], n=6, ranks=3, lz=2, rank=[0, 1, 2], site=[0, 17, 71], rad=[2, 3, 4], bg=6, out=[0, 1])
SPECS["C25"] = ("model_checking", [
    H("masks", "masks.cpp", SC + ["lib/spectrum/spectrum.cpp", "lib/utils/kgvops.cpp", "lib/scalar/folder.cpp", "lib/fft/fftCode.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), MKQ, MKT, note="4^3 (8^3 single, thorough; 6^2x2 as one of three processes): every combination of flags at one or two sites on a concrete pattern of flags, smoothed values and modes of a few sites symbolic, energies and angles of the axiton masks symbolic; four threads"),
])

# ---- string length, velocity, energy -------------------------------------------------------------------
SLQ = grid(what=3, q=range(8), sy=[15, 3, 10]) 
SLQ += grid(what=0, dbl=1, n=4, lz=2, site=[0, 21], bg=[0, 1], fold=[0, 1]) + grid(what=0, dbl=1, n=4, lz=2, site=5, var=range(1, 64)) + grid(what=0, dbl=0, n=8, lz=1, site=27, bg=2, ng=2)
SLQ += grid(what=[0, 1, 2], dbl=1, n=4, lz=2, site=21, bg=3, ranks=[3, 4], rank=1) + grid(what=[0, 1, 2], dbl=1, n=4, lz=2, site=37, bg=3, ranks=3, rank=2)
SLQ += grid(what=1, dbl=1, n=4, lz=2, site=[0, 21], bg=[0, 1], fold=[0, 1], frw=[1, 2]) + grid(what=1, dbl=0, n=8, lz=1, site=27, bg=2, ng=2)
SLQ += grid(what=2, dbl=1, n=4, lz=2, site=[0, 21], bg=[0, 1], fold=[0, 1], frw=[1, 2]) + grid(what=2, dbl=0, n=8, lz=1, site=27, bg=2, ng=2)
SLT = SLQ + grid(what=[0, 1, 2], dbl=1, n=4, lz=2, site=range(0, 32, 3), bg=[4, 5]) + grid(what=[0, 1, 2], dbl=1, n=4, lz=[1, 3], site=0, site2=[1, 5], bg=[6, 7], fold=1, ng=2) + grid(what=0, dbl=1, n=4, lz=2, site=[21, 26], oz=1, ox=3, oy=1, var=range(1, 64))
SLT += grid(what=[0, 1, 2], dbl=1, n=4, lz=2, site=[5, 37, 47], bg=[8, 9], ranks=3, rank=[0, 1, 2]) + grid(what=[0, 1, 2], dbl=0, n=8, lz=2, site=[63, 127], bg=[10, 11], fold=[0, 1])
SPECS["C24"] = ("model_checking", [
    H("strlen", "strlen.cpp", SC + ["lib/strings/length.cpp", "lib/scalar/folder.cpp"], MD, SLQ, SLT, note="4^2 x 1-3 and 8^2 x 1-2; one (quick) or up to two (thorough) complex sites and their velocities symbolic on concrete backgrounds; flags where the background winds, every pattern of a cube's six faces, or (velocity, energy) any; 1, 3, 4 processes; one plaquette with four symbolic corners"),
])
SPECS["C08"] = ("model_checking", [
    H("strings", "strings.cpp", SC + ["lib/strings/strings.cpp", "lib/strings/stringXeon.cpp", "lib/scalar/folder.cpp"], MD, STRQ, STRT, note="n=4 (double), 8 (single), depth 1-3, Ng 1-3; one, two or three symbolic complex sites on concrete backgrounds with and without defects; as one of 2-3 processes with the slice above its neighbour's"),
])

# ---- cosmology ---------------------------------------------------------------------------------------
COQ = grid(what=0, frw=1, nq=[0, 1, 2, 4, 6], nr=[1, 2], reg=[0, 1, 2, 3]) + grid(what=0, frw=2, nq=[1, 2, 3], reg=[0, 1, 2, 3]) + grid(what=0, frw=0, nq=3, reg=0) + grid(what=0, frw=1, grav=1, nq=[0, 1, 2, 3], nr=1, reg=[0, 1, 2, 3])
COQ += grid(what=1, nq=[1, 2, 4], reg=[0, 2], zr=[0, 100]) + grid(what=2, kind=[0, 1, 2, 3], pq=[1, 2], lz=[0, 2], frw=[1, 2]) + grid(what=2, kind=0, grav=1)
COQ += grid(what=3, kind=[0, 1, 2, 3], nq=[0, 2], frw=[0, 1], pq=[1, 2]) + grid(what=3, kind=[0, 1], reg=1, nq=2) + grid(what=3, kind=[1, 2], pin=2, grav=1, nq=0) + grid(what=3, kind=[1, 2], pin=2, frw=2, nq=0)
COQ += [c for c in grid(what=4, frw=1, nq=[1, 2], nn=[0, 1, 2], z0hi=[0, 1], z1hi=[0, 1], back=[0, 1]) if not (c["back"] and not c["z0hi"] and c["z1hi"]) and not (not c["back"] and c["z0hi"] and not c["z1hi"])] + grid(what=4, frw=0, nq=4, nn=[0, 2], z1hi=[0, 1]) + grid(what=4, frw=2, nq=1, nn=[0, 1], z1hi=[0, 1])
COT = COQ + grid(what=0, frw=1, nq=[0, 1, 2, 3, 4, 5, 6], nr=[0, 1, 2, 3, 4, 5, 6], reg=2) + grid(what=0, frw=3, nq=[1, 2], reg=[0, 1, 2, 3]) + grid(what=4, frw=1, nq=[0, 3], nn=[0, 1], z1hi=[0, 1])
SPECS["C10"] = ("model_checking", [
    H("cosmo", "cosmo.cpp", SC, MD, COQ, COT, dbl=1, note="time, mass scale, thresholds, coupling, box size and step factor symbolic; integer expansion and mass exponents"),
])

# ---- power spectra -----------------------------------------------------------------------------------
SPLUT = grid(what=3, iA=3, iB=4, iE=2, iC=7, flip=[0, 1], sg=range(4), nr=[1, 2]) + grid(what=3, iA=[0, 24], iB=[0, 24], iE=[0, 4], iC=[0, 19], flip=[0, 1]) + grid(what=3, iA=24, iB=24, iE=4, iC=19, dbl=0)
SPQ = (grid(what=0) + grid(what=0, nb=3, n=6, th=3) + grid(what=1, dbl=[0, 1], half=[0, 1]) + grid(what=1, twice=1, ng=2) + grid(what=1, n=6, nb=4, nsym=20)
       + grid(what=2, ax=1, nrt=[1, 3, 4, 10, 15], dbl=[0, 1], mask=[1, 1024], nsym=2) + grid(what=2, ax=1, nrt=15, ng=2, spec=0, nsym=2) + grid(what=2, ax=1, nrt=15, n=8, fold=1, nsym=2)
       + grid(what=2, ax=0, nrt=[1, 2, 4, 16, 32, 64], mask=[1, 2, 4, 8], nsym=1) + grid(what=2, ax=0, nrt=[1, 2, 16, 32], mask=[16, 32], nsym=1) + grid(what=2, ax=0, nrt=[1, 2, 4, 16, 32, 64], mask=8, dbl=0, ng=2, nsym=1)
       + grid(what=2, ax=0, nrt=[2, 32], spec=0, nb=3, th=3, nsym=1) + grid(what=2, ax=0, nrt=[1, 2], n=8, fold=1, nsym=1) + SPLUT
       + [dict(what=4, sub=q, dbl=d, n=n, ranks=r, rank=k, ng=g, nb=b) for q in range(5) for d, n, r, g, b in ((1, 4, 2, 1, -1), (0, 8, 4, 2, 4), (1, 6, 3, 1, 3)) for k in range(r)] + [dict(what=4, sub=q, dbl=1, n=8, ranks=2, rank=1, fold=1) for q in (3, 4)])
SPT = SPQ + grid(what=0, n=[6, 8], nb=[-1, 3, 9], th=3) + grid(what=1, n=8, nsym=100, half=[0, 1], dbl=[0, 1]) + grid(what=2, ax=1, nrt=[1, 3, 15], n=[6, 8], mask=[1, 1024], nsym=6, th=3) + grid(what=2, ax=1, nrt=15, n=8, fold=1, dbl=[0, 1], nsym=6, ng=2) \
    + grid(what=2, ax=0, nrt=[1, 2, 4, 16, 32, 64], mask=[1, 2, 4, 8], n=[6, 8], nsym=2, ng=[1, 2]) + grid(what=2, ax=0, nrt=[1, 2, 16, 32], mask=[16, 32], n=[6, 8], nsym=1) + grid(what=3, iA=[1, 12, 23], iB=[1, 12, 23], iE=[1, 3], iC=[1, 10, 18], flip=[0, 1], sg=range(4), nr=2, dbl=[0, 1])
SPECS["C12"] = ("model_checking", [
    H("spectrum", "spectrum.cpp", SC + ["lib/spectrum/spectrum.cpp", "lib/utils/kgvops.cpp", "lib/scalar/folder.cpp", "lib/fft/fftCode.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), SPQ, SPT, note="field values of the symbolic sites; every mode of the cubic lattice; exact DFT in place of FFTW"),
])

# ---- conversions -------------------------------------------------------------------------------------
CVQ = (grid(what=0, ax=[0, 1], idx=[1, 2, 3], dbl=[0, 1], n=8, ng=[1, 2]) + grid(what=1, idx=[1, 2, 3], dbl=[0, 1]) + grid(what=2, dbl=[0, 1], nsym=[0, 3])
       + grid(what=3, frw=[1, 2], dbl=[0, 1], fold=[0, 1], n=8, ng=[1, 2]) + grid(what=3, frw=1, grav=1) + grid(what=3, frw=1, low=1)
       + grid(what=4, frw=[1, 2], dbl=[0, 1], ng=[1, 2]) + grid(what=4, frw=1, grav=1)
       + grid(what=5, ax=1, frw=[0, 1, 2], dbl=[0, 1], fold=[0, 1], n=8) + grid(what=5, ax=1, frw=1, grav=1, ng=2)
       + grid(what=7, ax=1, frw=[1, 2], fold=[0, 1], dbl=[0, 1], n=8, pat=range(6), nsym=2) + grid(what=7, ax=1, frw=[0, 1], fold=1, pat=[4, 5], n=8, ng=2, nsym=1000))
CVQ = CVQ + grid(what=7, ax=1, dbl=[0, 1], n=8, fold=[0, 1], pat=[1, 5], ranks=2, rank=[0, 1]) + grid(what=7, ax=1, dbl=1, pat=[0, 3], ranks=3, rank=1, knb=[0, 2], ng=2) + grid(what=2, nsym=3, dbl=1, n=4, lz=[1, 2], ranks=2, rank=[0, 1])
CVT = CVQ + grid(what=0, ax=[0, 1], idx=[1, 2], dbl=[0, 1], n=16, lz=5, th=3) + grid(what=2, dbl=[0, 1], nsym=range(7), lz=3, n=6) + grid(what=3, frw=[0, 1, 2], dbl=[0, 1], fold=[0, 1], n=16, lz=3, zt=3) + grid(what=4, frw=[0, 1, 2], dbl=[0, 1], n=8, lz=5, zt=3, th=3) + grid(what=5, ax=1, frw=[0, 1, 2], dbl=[0, 1], fold=[0, 1], n=16, lz=3, zt=3) \
    + grid(what=7, ax=1, frw=[0, 1, 2], fold=[0, 1], dbl=[0, 1], n=[8, 16], lz=[2, 5], pat=range(12), nsym=[3, 1000], th=3)
SPECS["C09"] = ("model_checking", [
    H("conv", "conv.cpp", SC + ["lib/scalar/%s.cpp" % x for x in "scaleField scaleXeon normField normXeon normCore normCoreXeon thetaScalar thetaXeon theta2Cmplx theta2CmplxXeon theta2Paxion theta2PaxionXeon theta2Naxion theta2NaxionXeon mendTheta mendThetaXeon folder".split()], MD, CVQ, CVT, note="field values, shift and factor symbolic; expansion exponents 0-2 and the matter correction; mending and cores also as one of 2-3 processes"),
])

# ---- checkpoints -------------------------------------------------------------------------------------
CKQ = grid(ft=[0, 1, 2, 3], dbl=[0, 1], pr=[-1, 0, 1], ranks=[1, 2], restart=[0, 1]) + grid(ft=0, pq=[0, 1, 2], qcd=range(6), damp=[0, 1, 2], evol=[0, 1, 2]) + grid(ft=[0, 1], frw=[0, 1, 2], lz2=[0, 1], cov=[0, 1], par=0) + grid(ft=[0, 3], par=1, lz2=[0, 1]) + grid(ft=0, ct=range(7), sm=range(10)) + grid(ft=[0, 1], fold=1, dbl=[0, 1], n=8, ng=[1, 2], restart=[0, 1])
CKT = CKQ + grid(ft=[0, 1, 3], dbl=[0, 1], pr=[-1, 0, 1], ranks=[1, 2, 3, 4], n=8, lz=[2, 3], ng=[1, 2, 3], fold=[0, 1])
SPECS["C13"] = ("model_checking", [
    H("conf", "h5conf.cpp", SC + ["lib/io/readWrite.pHdf5.cpp", "lib/scalar/folder.cpp"], ("base.cpp", "mpi.cpp", "fft_stub.cpp", "hdf5_model.cpp"), CKQ, CKT, note="4^2x2 to 8^2x3 lattices, 1-4 MPI ranks; every site of m and v, the ICs and (par) the physics parameters symbolic"),
])

# ---- measurement files -------------------------------------------------------------------------------
MEQ = grid(what=range(11), ft=[0, 1, 2, 3], dbl=[0, 1], ranks=[1, 2]) + grid(what=11, ft=[0, 1], dbl=[0, 1]) + grid(what=[0, 1, 2], ft=[0, 1], red=1, ranks=[1, 2], n=8) + grid(what=7, ft=[0, 1], fold=[0, 1], sl=[0, 1, 2, 3], ranks=2, n=8, dbl=[0, 1], ng=[1, 2]) + grid(what=8, ft=[0, 1], fold=[0, 1], sl=[0, 3, 7], ranks=[1, 2], n=8, dbl=[0, 1], ng=[1, 2]) + grid(what=9, sl=1, ft=[0, 1], dbl=[0, 1]) + grid(what=1, sl=1)
MET = MEQ + grid(what=[0, 1, 2, 3, 7, 8], ft=[0, 1], dbl=[0, 1], ranks=[3, 4], n=8, lz=[3, 4], ng=[1, 3], sl=[0, 5])
SPECS["C14"] = ("model_checking", [
    H("meas", "h5meas.cpp", SC + ["lib/io/readWrite.pHdf5.cpp", "lib/scalar/folder.cpp"], ("base.cpp", "mpi.cpp", "fft_stub.cpp", "hdf5_model.cpp"), MEQ, MET, note="4^2x2 to 8^2x4 lattices, 1-4 ranks; every real datum symbolic"),
])

# ---- reduction, projection, smoothing -----------------------------------------------------------------
RDQ = (grid(what=0, ft=0, inpl=[0, 1], flt=[0, 1, 2], dbl=[0, 1]) + grid(what=0, ft=1, inpl=[0, 1], flt=[0, 1, 2]) + grid(what=0, ft=1, inpl=1, dbl=0) + grid(what=0, ft=1, inpl=0, dbl=0, n=8, rn=8) + grid(what=0, ft=[0, 1], n=8, lz=4, rn=4, fold=1, ng=2) + grid(what=0, ft=[0, 1], n=6, lz=4, rn=4, rz=3) + grid(what=0, ft=1, n=6, lz=6, rn=3, rz=4)
       + grid(what=1, ft=[0, 1], fft=[0, 1], flt=[0, 1, 2], dbl=[0, 1]) + grid(what=1, ft=[0, 1], fft=[0, 1], n=6, lz=4, rn=4, rz=3) + grid(what=1, ft=1, n=8, lz=4, rn=4, rz=2) + grid(what=1, rn=2, rz=4)
       + grid(what=2, ft=[0, 1, 2], flt=[0, 1], ranks=[1, 3], st=range(4), dbl=[0, 1], ng=[1, 2]) + grid(what=3, it=[1, 2], dbl=[0, 1], lz=[1, 2, 4], ng=[1, 2, 3], n=4, th=3) + grid(what=3, n=6))
RKQ = [dict(what=4, ft=ft, en=en, fft=q, inpl=ip, dbl=d, ranks=r, rank=k, n=n, lz=lz, rn=rn, rz=rz, ng=g) for ft in (0, 1) for en, q, ip in ((0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)) for d, r, n, lz, rn, rz, g in ((1, 2, 4, 2, 2, 1, 1), (0, 2, 8, 3, 4, 2, 2), (1, 3, 6, 4, 4, 3, 1)) for k in range(r)]
RKT = [dict(what=4, ft=ft, en=en, fft=q, inpl=ip, dbl=d, ranks=r, rank=k, n=n, lz=lz, rn=rn, rz=rz, ng=2) for ft in (0, 1) for en, q, ip in ((0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1)) for d in (0, 1) for r, n, lz, rn, rz in ((1, 8, 8, 5, 3), (4, 8, 4, 6, 3), (2, 12, 6, 8, 4)) for k in range(r)]
RDQ += RKQ
RDT = RDQ + RKT + grid(what=0, ft=[0, 1], n=6, lz=4, rn=[3, 4, 5], rz=3) + grid(what=0, ft=[0, 1], n=6, lz=4, rn=4, rz=3, inpl=0) + grid(what=1, ft=[0, 1], fft=[0, 1], n=6, lz=4, rn=[3, 4, 5], rz=[3, 4]) + grid(what=3, it=[1, 2, 3], n=[4, 8], lz=[3, 4], ng=[1, 2])
SFQ = grid(ax=[0, 1], st=range(5), flt=[0, 1, 2], dbl=[0, 1]) + [dict(ax=1, st=st, flt=fl, flt2=(fl + 1) % 3, dbl=d, n=n, ranks=r, rank=k, lz=lz, ng=2, th=2) for st in (0, 1, 3) for fl in (0, 1, 2) for d, n, r, lz in ((1, 4, 2, 2), (1, 6, 3, 2), (0, 8, 2, 1)) for k in range(r)]
SFT = SFQ + [dict(ax=ax, st=st, flt=fl, dbl=d, n=8, ranks=r, rank=k, lz=8 // r, ng=2, th=3) for ax in (0, 1) for st in (0, 1) for fl in (0, 1, 2) for d in (0, 1) for r in (1, 4) for k in range(r)]
SPECS["C15"] = ("model_checking", [
    H("reduce", "reduce.cpp", SC + ["lib/reducer/reducer.cpp", "lib/projector/projector.cpp", "lib/gen/smoothXeon.cpp", "lib/scalar/folder.cpp", "lib/fft/fftCode.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), RDQ, RDT, note="up to 8x8x4 and 6^3, every site symbolic; filters concrete; every process of 1-4 for reductions (transform opaque, its input checked) and 1-3 for projections"),
    H("smoothf", "smoothf.cpp", SC + ["lib/spectrum/spectrum.cpp", "lib/utils/kgvops.cpp", "lib/scalar/folder.cpp", "lib/fft/fftCode.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), SFQ, SFT, note="4^3 to 8^3 and 6^2x2 as each of 1-4 processes; every energy and every mode symbolic; two filters in a row, concrete lengths"),
])

# ---- evolution before the start ------------------------------------------------------------------
PPQ = grid(lt=[0, 1, 2], pre=[0, 1, 2], gam=[0, 1], core=[0, 1]) + grid(lt=[0, 2], pre=2, study=1, wdz=[8, 24], coe=[2, 3]) + grid(lt=2, pre=0, frw=[0, 2], dbl=[0, 1]) + grid(lt=0, dbl=0, gam=[0, 1])
PPT = PPQ + grid(lt=[0, 1, 2], pre=[0, 1, 2], wdz=[4, 6], coe=[2, 4], study=[0, 1], dbl=[0, 1])
SPECS["C26"] = ("model_checking", [
    H("preprop", "preprop.cpp", SC + ["lib/gen/prepropa.cpp", "lib/scalar/scaleField.cpp", "lib/scalar/scaleXeon.cpp", "lib/scalar/folder.cpp"], MD, PPQ, PPT, note="4^2x2 and 8^2x2; coupling, damping, field symbolic; up to some ten steps, their number decided by the solver"),
])

# ---- gravitational potential -----------------------------------------------------------------------
GVQ = (grid(what=0, dbl=1, fold=[0, 1], ng=[1, 2], th=[1, 3]) + grid(what=0, dbl=[0, 1], n=8, ns=[6, 8], fold=[0, 1]) + grid(what=1, dbl=1, fold=[0, 1]) + grid(what=1, dbl=0, n=8, fold=[0, 1]) + grid(what=2, dbl=1, ranks=[1, 2, 4], fold=[0, 1], n=4) + grid(what=2, dbl=0, n=8, ns=8, ranks=[1, 2])
       + [dict(what=3, dbl=d, fold=f, n=8, ns=6, ranks=r, rank=k) for d in (0, 1) for f in (0, 1) for r in (1, 2, 4) for k in range(r)] + [dict(what=3, hyb=1, dbl=d, fold=f, ref=2, n=8, ns=6, ranks=r, rank=k) for d in (0, 1) for f in (0, 1) for r in (1, 2) for k in range(r)] + grid(what=3, hyb=1, dbl=[0, 1], fold=1, ref=4, n=16, ns=6))
GVT = GVQ + grid(what=0, dbl=1, n=8, ns=0, fold=[0, 1]) + grid(what=0, dbl=0, n=16, ns=8, fold=[0, 1]) + grid(what=1, dbl=1, n=8, ns=8, fold=[0, 1], ng=[1, 2]) + [dict(what=3, hyb=h, dbl=d, fold=1, ref=rf, n=16, ns=8, ranks=r, rank=k, ng=g) for h in (0, 1) for d in (0, 1) for rf in (2, 4) for r in (1, 2, 4) for k in range(r) for g in (1, 2)]
SPECS["C17"] = ("model_checking", [
    H("gravi", "gravi.cpp", SC + ["lib/fft/fftCode.cpp", "lib/scalar/scaleField.cpp", "lib/scalar/scaleXeon.cpp"] + EN, ("base.cpp", "mpi.cpp", "fftw_model.cpp"), GVQ, GVT, note="4^3 (every site symbolic) to 16^3 (6-8 symbolic sites); modes of every rank of 1, 2, 4; Ng 1, 2"),
])

# ---- spectral propagation --------------------------------------------------------------------------
SKQ = (grid(what=0, dbl=[0, 1], pot=range(10), symc=[0, 1]) + grid(what=0, dbl=[0, 1], pot=0, n=8, lz=3, th=3) + grid(what=1, dbl=[0, 1], symc=[0, 1]) + grid(what=1, dbl=[0, 1], n=16, lz=1) + grid(what=2, dbl=[0, 1], lz=[2, 4])
       + [dict(what=3, dbl=0, n=n, lz=lz, ranks=r, rank=k, symc=1) for n, lz, r in ((4, 4, 1), (8, 4, 1), (8, 4, 2), (8, 2, 4)) for k in range(r)] + [dict(what=3, dbl=1, n=4, lz=4)])
SKT = SKQ + [dict(what=3, dbl=0, n=n, lz=lz, ranks=r, rank=k, symc=1) for n, lz, r in ((8, 8, 1), (12, 6, 2), (16, 4, 4)) for k in range(r)] + grid(what=0, dbl=[0, 1], pot=range(10), n=8, lz=2, symc=1)
SPQ = grid(what=0, sax=[0, 1], dbl=[0, 1], ord=[0, 1, 2]) + grid(what=0, sax=0, dbl=1, n=4, lz=2) + grid(what=1, sax=[0, 1], dbl=[0, 1]) + grid(what=1, sax=[0, 1], dbl=1, n=4, lz=2) + grid(what=2, sax=[0, 1], dbl=1) + grid(what=2, sax=1, dbl=0) + grid(what=2, sax=0, dbl=0, n=8, lz=2) + grid(what=2, sax=0, dbl=1, qcd=1) + grid(what=3, sax=0, dbl=0) + [dict(what=4, sax=x, dbl=d, n=n, lz=lz, ranks=r, rank=k, ng=g) for x in (0, 1) for d in (0, 1) for n, lz, r, g in ((4, 2, 2, 1), (8, 2, 4, 2), (6, 4, 3, 1)) for k in range(r) if x or d or n != 6]
SPT = SPQ + grid(what=2, sax=[0, 1], dbl=1, steps=2) + grid(what=3, sax=0, dbl=0, steps=2) + grid(what=0, sax=[0, 1], dbl=1, n=8, lz=4) + grid(what=1, sax=[0, 1], dbl=1, n=8, lz=4)
SPECS["C18"] = ("model_checking", [
    H("speck", "speck.cpp", [], ("base.cpp", "mpi.cpp"), SKQ, SKT, note="site kernels on 4^2 x 2 to 16^2 x 4 points, every site, velocity and Laplacian value a symbol; model numbers symbolic where marked; ten potential/damping/evolution combinations"),
    H("specp", "specp.cpp", SC + [("lib/propagator/propagator.cpp", []), "lib/propagator/laplacian.cpp", "lib/scalar/folder.cpp", "lib/scalar/fourier.cpp", "lib/fft/fftCode.cpp", "lib/scalar/scaleField.cpp", "lib/scalar/scaleXeon.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), SPQ, SPT, note="4^3 and 4^2 x 2 (thorough 8^2 x 4), every site a symbol; one step of RKN4 (thorough two), massless or constant-force potentials, and the angle with its sine; one rank; FFTW stood in for by an exact transform"),
])

# ---- initial conditions -------------------------------------------------------------------------------
SRD = ["-include", os.path.join(VERIF, "models/symrand.h")]
CFQ = (grid(sv=[0, 5, 6, 12], dbl=[0, 1]) + grid(sv=[7, 8, 11, 9, 3, 4], dbl=[0, 1]) + grid(sv=[3, 4, 9], dbl=1, ranks=2, rank=[0, 1]) + grid(sv=[3, 4, 9], dbl=1, n=4, lz=8) + grid(sv=[8, 11], dbl=1, kkk=1, lz=2)
       + grid(sv=[1, 2], dbl=[0, 1], r8=3) + grid(sv=10, dbl=[0, 1], kmax=[1, 2], lz=2))
CFT = CFQ + grid(sv=[0, 3, 4, 5, 6, 7, 8, 9, 11, 12], dbl=[0, 1], n=8, field=[0, 1, 2], ng=2) + grid(sv=[3, 4, 7, 8, 9], dbl=[0, 1], n=8, lz=2, ranks=4, rank=[0, 1, 2, 3]) + grid(sv=1, n=8, r8=[1, 3, 5], zc4=[1, 9, 17, 29], dbl=1) + grid(sv=2, n=12, r8=[1, 3], zc4=[6, 10, 18], dbl=1) + grid(sv=10, n=8, kmax=[1, 2, 4], dbl=1)
MCQ = (grid(mt=[0, 1, 2, 4, 8, 16, 1040, 2048, 4096], dbl=1) + grid(mt=[0, 1, 4, 8, 16, 2048], dbl=0) + grid(mt=8192, dbl=[0, 1]) + grid(mt=[4, 8], zero=1, dbl=[0, 1]) + grid(mt=[0, 8], real=1, zero=[0, 1], dbl=1) + grid(mt=[2, 4, 1040], ranks=2, rank=[0, 1], zero=1, dbl=1)
       + grid(mt=[0, 16], n=6, fixed=1, dbl=[0, 1]) + grid(mt=[0, 4], n=8, kmax=[1, 2], dbl=1) + grid(mt=[2048, 8], n=8, ranks=4, rank=[0, 1, 2, 3], dbl=1) + grid(mt=[0, 8], n=8, lz=4, dbl=1) + grid(mt=[1, 2048], n=4, lz=8, ranks=2, rank=[0, 1], dbl=1))
MCT = MCQ + grid(mt=[0, 1, 2, 4, 8, 16, 1040, 2048, 4096], n=[6, 8], zero=[0, 1], dbl=[0, 1]) + grid(mt=[0, 1, 8], n=8, lz=[2, 4, 16], ng=2, dbl=1) + grid(mt=8192, n=8, dbl=1)
GCQ = (grid(type=0, sv=[0, 5, 6, 8], dbl=1) + grid(type=0, sv=[5, 6], kick=1, frw=2, dbl=[0, 1]) + grid(type=0, sv=[0, 6], mink=1, dbl=1) + grid(type=0, sv=0, ranks=2, rank=[0, 1], dbl=1) + grid(type=1, dbl=[0, 1]) + grid(type=1, n=6, kmax=2, ns=4, dbl=1) + grid(type=[2, 5], dbl=[0, 1]) + grid(type=[1, 5], n=4, lz=8, ns=8, dbl=1) + grid(type=3, ns=3, n=6, lz=2, ng=2, dbl=1)
       + grid(type=5, kick=1, dbl=1) + grid(type=3, ns=3, extrav=[0, 1], kick=[0, 1], dbl=[0, 1]) + grid(type=[1, 2, 5], ranks=2, rank=[0, 1], dbl=1) + grid(type=3, ns=3, ranks=2, rank=[0, 1], extrav=[0, 1], dbl=1) + grid(type=4, ns=4, ng=[1, 2], dbl=[0, 1]) + grid(type=4, ns=4, frw=2, dbl=1) + grid(type=[0, 2, 5], prep=1, dbl=[0, 1]) + grid(type=[0, 2, 5], prep=1, frw=2, dbl=1) + grid(type=0, sv=[0, 5], siter=[1, 2], prep=[0, 1], dbl=[0, 1]) + grid(type=5, kmax=0, z4=[1, 5, 7], prep=0, dbl=[0, 1]) + grid(type=[2, 5], siter=1, z4=[7, 9], dbl=1) + grid(type=5, kmax=0, siter=1, z4=9, dbl=1) + grid(type=5, kmax=0, z4=[1, 10, 14], prep=1, dbl=1))
GCT = GCQ + grid(type=[1, 2, 3, 5], n=6, ns=4, kmax=2, dbl=[0, 1], ng=2) + grid(type=[1, 2, 3, 5], n=8, ns=3, lz=2, ranks=4, rank=[0, 1, 2, 3], dbl=1) + grid(type=0, sv=[0, 5, 6, 8], n=8, lz=4, ng=2, kick=1, dbl=1)
SPQ = grid(sax=[0, 1], dbl=[0, 1], frw=[1, 2]) + grid(sax=1, siter=1, core=1, dbl=[0, 1]) + grid(sax=[0, 1], ng=2, lz=2, th=1) + grid(sax=1, flat=1, th=1, dbl=[0, 1]) + grid(hot=[1, 2], dbl=[0, 1], frw=[1, 2])
SPT = SPQ + grid(sax=[0, 1], n=6, lz=[2, 6], dbl=[0, 1], th=[2, 3])
SPECS["C19"] = ("model_checking", [
    H("conf", "conf.cpp", SC + [("lib/gen/randXeon.cpp", SRD)], MD, CFQ, CFT, eps=1e-6, note="4^3 points to 4^2 x 8, every site; amplitude, width and every random draw a symbol"),
    H("mom", "mom.cpp", SC + [("lib/gen/momConf.cpp", SRD)], MD, MCQ, MCT, eps=1e-6, note="every mode of 4^3 to 8^3 lattices, every random draw, table entry, critical momentum and prescribed zero mode a symbol"),
    H("gen", "gen.cpp", SC + [("lib/gen/genConf.cpp", SRD), ("lib/gen/randXeon.cpp", SRD), ("lib/gen/momConf.cpp", SRD), "lib/gen/smoothXeon.cpp", "lib/fft/fftCode.cpp", "lib/scalar/scaleField.cpp", "lib/scalar/scaleXeon.cpp", "lib/scalar/normField.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/theta2Cmplx.cpp", "lib/scalar/theta2CmplxXeon.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), GCQ, GCT, eps=1e-6, note="4^3 points; random draws and transform outputs symbols; the transform itself replaced by fresh values after its input is checked"),
    H("spax", "spax.cpp", SC + [("lib/gen/genConf.cpp", SRD), ("lib/gen/randXeon.cpp", SRD), "lib/gen/smoothXeon.cpp", "lib/fft/fftCode.cpp", "lib/scalar/scaleField.cpp", "lib/scalar/scaleXeon.cpp", "lib/scalar/normField.cpp", "lib/scalar/normXeon.cpp", "lib/scalar/theta2Cmplx.cpp", "lib/scalar/theta2CmplxXeon.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp"), SPQ, SPT, eps=1e-6, note="start from tabulated spectra: every table entry and transform output a symbol"),
])

# ---- SIMD sine and cosine -----------------------------------------------------------------------------
TRQ = grid(fn=[0, 1], dbl=1, q=[-9, -5, -1, 3, 7]) + grid(fn=[0, 1], dbl=1, q=[1000, -100000, 8388500, 8388620, -8388700, 16777300, -16777400, 50331660], stride=[3, -5]) + grid(fn=[0, 1], dbl=0, q=[-12, -4, 4]) + grid(fn=[0, 1], dbl=0, q=[-1000, 500], stride=7, w=499800)
TRT = TRQ + grid(fn=[0, 1], dbl=1, q=range(-101, 101, 4)) + grid(fn=[0, 1], dbl=1, q=[a * 2 ** k + o for a in (1, -1) for k in range(8, 27) for o in (30, -40)], stride=[1, 4]) + grid(fn=[0, 1], dbl=0, q=range(-100, 100, 8)) + grid(fn=[0, 1], dbl=0, q=[-1000, -444, 211, 900], stride=[3, -4], w=499800)
SPECS["C16"] = ("model_checking", [
    H("trig", "trig.cpp", SC, MD, TRQ, TRT, dbl=1, tol=1e-5, note="x = q pi + y (cosine: (q + 1/2) pi + y), q a listed integer up to 2^26 (double) or 1000 (single) in size, y any real with |y| < 0.49999 pi (single, large q: 0.4998 pi); AVX2 + FMA bodies, exact arithmetic"),
])

# ---- command line ----------------------------------------------------------------------------------------
CLI = ["-include", os.path.join(VERIF, "models/cli.h")]
CLQ = grid(what=0, o1=range(32)) + [dict(what=1, lz=lz, ms=ms, lo=lo, first=f, fr=fr) for lz, fr in ((0, 1), (2, 1), (4, 1), (0, 0), (3, 1), (0, 3)) for ms in (0, 1) for lo in (0, 1) for f in (0, 1) if ms or not lo or (lz, fr) != (4, 1)]
CLQ += grid(what=2, k=range(23), v=[2, 5]) + grid(what=2, g=range(47))
CLQ += [dict(what=3, b=b, k=k) for b, n in ((0, 1), (1, 32), (2, 23), (3, 1), (4, 1)) for k in range(n) if (b, k) not in ((2, 13), (2, 14), (2, 15))]   # --redmp, --redmpwkb and --p3D may stand alone
CLQ += grid(what=4, vb=[-9, -1, 0, 1, 2, 3, 4, 7]) + grid(what=4, zg=[-1, 2], lg=[0, 1, 2], dv=[0, 1], vb=[2])
CLQ += grid(what=0, fidx=[3], o1=range(32)) + grid(what=0, o1=[14], o2=[29]) + grid(what=0, o1=[29], o2=[14])
CLQ += grid(what=5, o1=[*range(12), *range(20, 27), 40]) + grid(what=5, o1=[26], bare=1) + grid(what=5, o1=[40], o2=[40]) + grid(what=6, o1=[0, 1], o2=[0, 1, 2])
CLQ += [dict(what=5, o1=a, o2=b, bare=1) for a in range(20, 27) for b in range(20, 27) if a != b]
CLS = {(6, 31), (31, 6)}                                  # two names for one value
CLT = CLQ + [dict(what=5, o1=a, o2=b) for a in [*range(12), *range(20, 27), 40] for b in [*range(12), *range(20, 27), 40] if a != b and not (a in (6, 7, 11) and b in (6, 7, 11))] + [dict(what=0, o1=a, o2=b, fidx=f) for a in range(32) for b in range(32) for f in (-1, 3) if a != b and (a, b) not in CLS]
SPECS["C20"] = ("model_checking", [
    H("cli", "cli.cpp", ["lib/scalar/scalarField.cpp", "lib/cosmos/cosmos.cpp", ("lib/utils/parse.cpp", CLI), "lib/utils/memAlloc.cpp"], MD, CLQ, CLT, eps=1e-9, note="one numeric option (quick) or every ordered pair (thorough), fresh or restarted, values symbols; the derived tension, resolution, start time and logarithm; every switch; refused lines; process grid, verbosity, log"),
])

# ---- WKB evolution ---------------------------------------------------------------------------------
WKI = ["-include", os.path.join(VERIF, "models/wkb.h")]
WKQ = grid(cs=range(8), dbl=[0, 1]) + grid(two=1, cs=[0, 1, 2, 4, 5, 7], dbl=[0, 1]) + grid(two=0, cs=3, dbl=1, nofile=1, ng=2) + grid(two=1, cs=[3, 5, 6], dbl=1, ng=2) + grid(two=[0, 1], fold=1, cs=2, dbl=[0, 1], n=8) + grid(two=[0, 1], cs=2, ranks=2, rank=[0, 1])
WKT = WKQ + grid(two=[0, 1], cs=[1, 2, 4, 5, 7], dbl=[0, 1], n=8, ranks=[1, 2], rank=0, fold=[0, 1], ng=2) + grid(cs=range(8), n=8, ranks=4, rank=[0, 1, 2, 3], dbl=1)
SPECS["C21"] = ("model_checking", [
    H("wkb", "wkb.cpp", SC + [("lib/WKB/WKB.cpp", WKI), "lib/fft/fftCode.cpp", "lib/scalar/folder.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp", "gsl.cpp"), WKQ, WKT, eps=1e-5, note="every mode of 4^3 and 8^3, every rank of 1 and 2; eight intervals x mass laws; both variants; field values, mode amplitudes and transform outputs symbols"),
])

# ---- measurement calls ------------------------------------------------------------------------------
MBI = ["-include", os.path.join(VERIF, "models/measbin.h")]
MEQ = grid(type=[0, 1], meas=[0, 1, 2, 4, 8, 256, 512, 1024, 4096, 16384, 65536, 131072, 262144, 524288, 1048575 - 16 - 8192], dbl=1)
MEQ += grid(type=[2, 3], meas=[1, 8, 256, 512, 16384, 65536, 65536 + 1 + 256], dbl=1) + grid(type=0, meas=[32, 64, 96, 128, 192, 8192], dbl=1) + grid(type=[0, 1, 2], meas=[7, 8, 1544], ng=[1, 2], dbl=[0, 1])
MEQ += grid(type=[0, 1], meas=[1, 4097], maty=[1, 16, 1024, 2048, 3072, 65536, 68661], idx=[0, 3], dbl=1) + grid(type=[0, 1], meas=[1, 65536], mom=1, dbl=[0, 1])
MEQ += grid(type=0, meas=[8192, 65536, 196608, 73728], mask=[2, 4, 8, 16, 32, 64, 127], nr=[0, 1, 2], dbl=1) + grid(type=1, meas=[8192, 65536, 73728, 16384], mask=[512, 1024, 2048, 3585], nr=[0, 1, 2], dbl=1)
MEQ += grid(type=[0, 1], meas=[65536, 196608], nrt=[1, 2, 4, 8, 16, 32, 64, 128, 255], massless=[0, 1], dbl=1) + grid(type=0, meas=73728, mask=9, nr=3, strmeas=[0, 4], only=[0, 1], z2=[0, 1], cum=[0, 1], dbl=1)
MEQ += grid(type=[0, 1], meas=[1024, 524288, 525312], red=[2, 4, 0], dbl=[0, 1]) + grid(type=[0, 1], meas=[65536, 262144], idx=[0, 1, 10], dbl=1)
MET = MEQ + grid(type=[0, 1], meas=[1048575 - 16, 1048575 - 16 - 4096 - 262144, 8 + 512 + 1024 + 16384, 73728 + 7 + 16384], mask=[127, 3585], nr=[0, 1, 3], maty=[0, 68661], idx=[0, 5], ng=[1, 2], dbl=[0, 1]) + grid(type=[0, 1], meas=65536 + 131072 + 262144, mask=[127, 3585], nrt=range(0, 256, 5), nr=2, dbl=1)
MET += grid(type=[0, 1, 2, 3], meas=[1 << b for b in (0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 17, 18, 19)], mask=[0, 1, 8, 512], n=8, lz=[4, 8], ng=2, mom=[0, 1], dbl=1) + grid(type=0, meas=73728, mask=[9, 127], nr=3, strmeas=[0, 1, 2, 3, 4, 7], only=[0, 1], z2=[0, 1], cum=[0, 1], dbl=[0, 1])
SPECS["C22"] = ("model_checking", [
    H("meas", "meas.cpp", SC + [("lib/meas/measa.cpp", MBI)], MD, MEQ, MET, eps=1e-6, note="measurement request by request; every field value, energy and the scale factor a symbol; histograms, spectra, transforms and file writers are recorded"),
])

# ---- snapshots for other codes -------------------------------------------------------------------
GAQ = grid(vel=[0, 1], site=[5, 511]) + grid(disp=1, vel=[0, 1], wild=[0, 1], site=[0, 63])
GAQ += grid(ranks=2, rank=[0, 1], disp=[0, 1], site=[0, 5, 255]) + grid(ranks=4, rank=range(4), disp=1, wild=1, site=70) + grid(ng=1, site=9) + grid(realn=0, disp=[0, 1])
GAT = GAQ + grid(disp=[0, 1], wild=[0, 1], site=[1, 7, 8, 56, 200, 448, 504], bg=[0, 1]) + grid(ranks=[2, 4], rank=[0, 1], disp=[0, 1], wild=[0, 1], vel=[0, 1], site=[7, 56, 63, 120], bg=[0, 1])
SPECS["C27"] = ("model_checking", [
    H("gadget", "gadget.cpp", SC + [("lib/gadget/gadget_output.cpp", SRD), "lib/io/readWrite.pHdf5.cpp", "lib/scalar/folder.cpp", "lib/reducer/reducer.cpp", "lib/fft/fftCode.cpp"], ("base.cpp", "mpi.cpp", "fftw_model.cpp", "hdf5_model.cpp"), GAQ, GAT, note="8^3"),
])

# ---- axiton tracker ---------------------------------------------------------------------------------
TKQ = grid(folds=[0, 63, 56, 7, 21, 42], pat=[5, 10, 15, 0], dbl=[0, 1]) + grid(folds=[0, 63], usev=1, vpat=[0, 3, 12], pat=[0, 6], dbl=1) + grid(nmax=[-1, 1, 3], dbl=1, pat=15) + grid(late=0, dbl=1) + grid(dflt=1, folds=[0, 63], dbl=[0, 1])
TKQ += grid(ranks=4, rank=[0, 1, 3], g0=[0, 2], g2=[0, 1], pat=[0, 15], pat2=[0, 3], folds=[0, 63], dbl=1) + grid(ng=2, folds=[0, 63], n=16, dbl=[0, 1]) + grid(ng=2, folds=[0, 63], n=4, dbl=1)
TKT = TKQ + grid(folds=range(0, 64, 5), pat=range(16), pat2=[0, 3, 7, 12], dbl=[0, 1]) + grid(folds=[0, 63, 21], usev=1, vpat=range(16), pat=range(0, 16, 3), dbl=[0, 1])
SPECS["C23"] = ("model_checking", [
    H("track", "track.cpp", SC + ["lib/axiton/tracker.cpp"], MD, TKQ, TKT, eps=1e-6, note="three searches and readings; four sites' amplitudes relative to the threshold, thresholds and scale factor symbols"),
])
