"""Properties -> jobs (harness builds). Each job is one harness program run over its whole space."""
import os
from concurrent.futures import ThreadPoolExecutor
import build as B

WRAP = ["-Wl,--wrap=malloc", "-Wl,--wrap=calloc", "-Wl,--wrap=realloc", "-Wl,--wrap=free"]


def build(job):
    b = B.Build(job.get("variant", "asan"))
    lib = [b.scotch()]
    for l in job.get("libs", []):
        lib.insert(0, l(b))
    pr = job.get("progs", [])
    if pr:
        b.program(pr[0][0], *pr[0][1:])
        with ThreadPoolExecutor(B.JOBS) as ex:
            list(ex.map(lambda p: b.program(p[0], *p[1:]), pr[1:]))
    srcs = ["harness/" + s for s in job["src"]] + ["mc/mc.c"] + (["mc/gspace.c"] if job.get("gspace", True) else []) + job.get("more", [])
    flags = list(job.get("flags", []))
    ld = list(job.get("ldflags", []))
    if job.get("wrap"):
        flags.append("-DMC_WRAP")
        ld += WRAP
    return b.harness(job["name"], srcs, lib, flags=flags, ldflags=ld, nosan=job.get("nosan", ()))


def thr(name, src, **k):
    """Job built for schedule exploration: memory accesses and sync operations are visible to the scheduler."""
    d = dict(name=name, src=src, variant="thr", more=["mc/explore.c"], nosan=("mc/mc.c", "mc/gspace.c", "mc/explore.c"), flags=["-DMC_TSANHOOKS"],
             ldflags=["-Wl,--wrap=memcpy", "-Wl,--wrap=memset", "-Wl,--wrap=memmove"])
    d.update(k)
    return d


def thra(name, src, **k):
    """Same with AddressSanitizer; only sync operations are scheduling points."""
    d = dict(name=name, src=src, variant="thra", more=["mc/explore.c"])
    d.update(k)
    return d


def pt(name, src, **k):
    """Job whose processes run over the MPI stand-in."""
    d = dict(name=name, src=src, variant="pt", more=["mc/explore.c", "mc/mpi/mpi.c", "mc/dspace.c"], libs=[lambda b: b.ptscotch()], flags=["-DSCOTCH_PTSCOTCH"])
    d.update(k)
    return d


PROPS = {}


def P(pid, jobs, bounds, assumptions=()):
    PROPS[pid] = dict(jobs=jobs, bounds=bounds, assumptions=list(assumptions))


P("C01", [dict(name="check", src=["h_check.c"])],
  "all array contents over [base-1,base+4] for graphs of <=3 vertices and 4 arcs; all single-entry changes of all labelled graphs of <=4 vertices (<=5 thorough) in 4 layouts x 3 bases x 4 load settings; all element/node meshes of <=3x3 (3x4 thorough)")
ORDB = ("all labelled graphs of <=5 vertices (6 thorough), all graphs up to isomorphism of 6 and 7 vertices, structured families of up to a few hundred vertices, x 48 strategy shapes and 48 predefined strategies, "
        "with array layouts, base values, loads and labels alternated over the space")
P("C07", [dict(name="order", src=["h_order.c"], env={"MC_SET": "7"}), dict(name="witness", src=["h_witness.c"], env={"MC_SET": "7"})],
  ORDB + "; partial orderings of all vertex subsets of all labelled graphs of <=4 vertices (5 thorough)", ["sequential execution (threaded runs: C28)", "strictly positive vertex loads"])
P("C08", [dict(name="order", src=["h_order.c"], env={"MC_SET": "8"})], ORDB, ["sequential execution", "strategies that keep separators whole"])
P("C02", [dict(name="io", src=["h_io.c"], env={"MC_SET": "2"})],
  "all labelled graphs of <=4 vertices (5 sampled by residue in quick, all in thorough) x 4 array layouts x 3 bases x 3 vertex load kinds x 3 edge load kinds x 3 label kinds, each loaded under 4 bases x 4 load flags, rebased and saved again; families of up to 280 vertices")
P("C03", [dict(name="io", src=["h_io.c"], env={"MC_SET": "3"})],
  "all incidences of <=3x3 (3x4 thorough) x 2 bases x elements/nodes first x 4 layouts x load kinds, each loaded under 3 bases; 24 structured meshes", ["meshes without vertex labels"])
ARCHB = ("all complete targets of <=17 terminals, all weight vectors of <=5 terminals, hypercubes of <=5 dimensions, all 2D (<=6x6), 3D (<=4^3) and X-D meshes and tori, all tree targets of <=3 levels, 2-4 sons and 3 link costs, "
         "labelled trees with all permutations of small levels, decompositions (types 0 and 2) of all connected labelled graphs of <=4 vertices over all terminal subsets, of atlas graphs and families, and sub-targets for all subsets (all orders for small ones) of 18 machines; larger in thorough")
for _p, _b in (("C14", "all domains reachable from the root and all pairs of domains, of "), ("C15", "all pairs of terminals and all pairs of domains, of "), ("C16", "whole targets and all their domains, of ")):
    P(_p, [dict(name="arch", src=["h_arch.c"], more=["mc/aspace.c"], env={"MC_SET": _p[1:]})], _b + ARCHB)

P("C10", [dict(name="map", src=["h_map.c"], more=["mc/aspace.c"], env={"MC_SET": "10"})],
  "all labelled graphs of <=4 vertices (5 thorough) x 22 targets of every kind x 40 strategies (explicit shapes and predefined flags), atlas graphs of 5-7 vertices and families by residue classes; all assignments of {free, each terminal} as fixed and as old parts of all labelled graphs of <=3 vertices x 6 targets, patterned ones on larger graphs", ["sequential execution (threaded runs: C28)"])
P("C12", [dict(name="map", src=["h_map.c"], more=["mc/aspace.c"], env={"MC_SET": "12"})],
  "all labelled graphs of <=4 vertices (5 thorough) x all assignments to <=3 terminals x 18 targets x 3 label kinds, layouts, bases and loads alternated; families", ["complete mappings"])

for _p, _b in (("C17", "all labelled graphs of <=5 vertices x layouts, bases, vertex and edge load kinds x merging flag x all minimum sizes x 6 ratios x several random states x direct / context use, and all pairings of vertices given as matchings; all graphs of 6-7 vertices up to isomorphism, families of up to 300 vertices"),
               ("C18", "all labelled graphs of <=4 vertices (5 thorough) x all vertex subsets in all orders, by list and by part, direct and through contexts; all graphs up to isomorphism of 5-6 (7) vertices; patterns on families"),
               ("C19", "all labelled graphs of <=5 vertices (6 thorough) x 4 layouts x up to 24 random states, all graphs of 6-7 vertices up to isomorphism, families"),
               ("C20", "all labelled graphs of <=4 vertices (5 thorough) x vertex and edge load kinds x 6 random states, all graphs of up to 7 vertices up to isomorphism, families"),
               ("C22", "all labelled graphs of <=4 vertices (5 thorough) x 4 layouts x 3 bases x 5 vertex load kinds x 3 edge load kinds; all meshes of <=3x3 (3x4) x layouts x bases x numbering orders; families")):
    P(_p, [dict(name="gops", src=["h_gops.c"], env={"MC_SET": _p[1:]})], _b, ["sequential execution (threaded runs: C28)"])

P("C09", [dict(name="mesh", src=["h_mesh.c"], env={"MC_SET": "9"})],
  "all incidences of up to 12 element-node pairs (16 thorough, larger ones by residue) x 2 bases x elements/nodes first x 4 layouts, loads alternated, x 32 strategy shapes, direct and through contexts; 24 structured meshes", ["sequential execution", "strategies that keep separators whole for the block tree part", "strictly positive node loads"])
P("C21", [dict(name="mesh", src=["h_mesh.c"], env={"MC_SET": "21"})],
  "all incidences of up to 12 element-node pairs (16 thorough, larger ones by residue) x 2 bases x elements/nodes first x 4 layouts, loads alternated, node graph and dual graphs of thresholds 1-4; 24 structured meshes")
P("C13", [dict(name="part", src=["h_part.c"], env={"MC_SET": "13"})],
  "all labelled graphs of <=4 vertices (5 by residue in quick, all in thorough), all graphs of 6-7 vertices up to isomorphism and families by residue, x 1-16 parts x 21 strategies, layouts, bases, loads and labels alternated, direct and through contexts", ["sequential execution (threaded runs: C28)"])
P("C11", [dict(name="part", src=["h_part.c"], env={"MC_SET": "11"})],
  "all labelled graphs of <=4 vertices (5-6 by residue), all graphs of up to 7 vertices up to isomorphism and families by residue, x 2-8 parts x 5 predefined balanced strategies x 5 imbalance ratios x 3 random states", ["unit vertex loads", "sequential execution"])
P("C27", [thr("thread", ["h_thread.c"], gspace=False)],
  "pools of 1-4 threads (5 thorough), spawned or imported; every sequence of up to 2 (3) launches among plain, mutex, barrier, reduction at either root, scan and nested split tasks; every schedule with up to 3 departures (1-2 for larger ones, +1 thorough) from the default one over all lock, wait, wake, create, join operations and racy memory accesses; spurious wake-ups; every single thread creation failure",
  ["sequentially consistent memory"])
P("C28", [thr("thralg", ["h_thralg.c"], env={"MC_SET": "28"})],
  "all labelled graphs of <=4 vertices, all graphs of 5 (6 thorough) vertices up to isomorphism, small structured families x coarsening, matching, partitioning, fixed partitioning, ordering and overlap partitioning strategies x 2-4 threads x deterministic or not; every schedule with up to 2 (matching, coarsening; 3 thorough) or 1 departures (others; for the longest ones at most 2500 schedules, and the default schedule only for most cases in quick) from the default one over all lock, wait, wake, atomic operations and racy memory accesses",
  ["sequentially consistent memory"])
P("C29", [thr("thralg", ["h_thralg.c"], env={"MC_SET": "29"})],
  "pairs of calls among 23 operation/strategy kinds on pairs of small graphs, each in its own context (sometimes itself multi-threaded), every schedule with up to 1 departure (default schedule only for most pairs in quick) over sync operations and racy memory accesses",
  ["sequentially consistent memory", "distinct contexts with their own random state"])
P("C40", [dict(name="struct", src=["h_struct.c"], gspace=False)],
  "all sequences of up to 4-5 (5-6 thorough) insertions, moves, removals, flushes, relocations and queries on gain tables of 2-5 elements over up to 7 gains, linear and logarithmic; all sequences of up to 3-4 (4-5) operations on Fibonacci heaps of 1-10 (12) elements from up to 256 key patterns, drained at the end; all permutations of <=8 (9) items, all arrays of <=9 (11) items over 3 values and <=15 (18) over 2 values, patterned arrays of up to 600 items for every sort")
P("C23", [dict(name="strat", src=["h_strat.c"], wrap=True)],
  "for the 5 strategy kinds of the sequential library: all strings of up to 4 (5 thorough) tokens over about 22 tokens each; all truncations, removals, exchanges, replacements and insertions of one character among 45 at every position of 7 large strategies; about 2000 compositions (sequence, selection, condition, multilevel) judged by results on 3 graphs or a mesh; every combination of the 12 strategy flags (a third in quick) x 5 builders x 3 ratios; conditions: all comparisons of arithmetic expressions up to depth 2 and all logical formulas up to depth 2 against a reference evaluator",
  ["numeric parameters of at most 6 significant digits"])
P("C36", [dict(name="metis%d" % v, src=["h_metis.c"], flags=["-DMETISV=%d" % v, "-DSCOTCH_METIS_VERSION=%d" % v], libs=[lambda b, v=v: b.metis(v)]) for v in (5, 3)],
  "all labelled graphs of <=5 vertices, graphs of 6 and 7 vertices up to isomorphism, structured families, x numberings 0/1 x vertex and edge weights x 1-4 parts (8 on grids) x 13 entry points (v3, v5, stubs, Fortran) x weight flags, communication sizes, target weights and imbalance; all single-entry damages of small graphs; "
  "all element/node meshes of <=3x3 (<=4x3 sampled by residue in quick) x numberings x common nodes 1-3 x 1-4 parts, and grid meshes", ["sequential execution", "options other than the numbering (and the objective of METIS_PartMeshDual) are documented as ignored"])
P("C37", [dict(name="esm", src=["h_esm.c", "esm_int.c"], libs=[lambda b: b.esmumps()], flags=["-iquote", os.path.join(B.SRC, "esmumps")])],
  "all labelled graphs of <=5 vertices (6 thorough), atlas graphs of 6 and 7 vertices, structured families of up to 700 vertices (3000 thorough); both ESMUMPS entry points in C and Fortran with unit and varied weights and packed or gapped input; 22 orderings strategies per graph for the symbolic factorisation", ["sequential execution"])
P("C30", [pt("dgraph", ["h_dgraph.c"])],
  "all labelled graphs of <=4 vertices (5 thorough) x all distributions over 1-4 processes x bases, layouts, loads, labels, unused global numbers and ghost arrays alternated; all single-entry changes of the arrays of all labelled graphs of <=3 vertices (4 thorough) over all distributions on 1-3 processes; families of up to 150 vertices on 1-6 processes", ["MPI as modelled by the exploring stand-in: all matching orders with a bounded number of departures, eager and late sends, loose and strict collectives, both reduction orders"])
MPIA = ["MPI as modelled by the exploring stand-in: all matching orders with a bounded number of departures, eager and late sends, loose and strict collectives, both reduction orders"]
P("C31", [pt("dgraph2", ["h_dgraph2.c"])],
  "all labelled graphs of <=4 vertices (5 thorough) x all distributions over 1-4 processes x bases, layouts, loads, labels, unused global numbers alternated: gather from everywhere to everywhere and to each root, scatter from each root, redistribution to all part arrays (a ninth of those beyond 27) x 4 vertex orders x extra room, induced graphs of all vertex subsets, band graphs of all seed sets x widths 0-3; families of up to 120 vertices on 2-6 processes", MPIA)
P("C32", [pt("dgraph5", ["h_dgraph5.c"]), pt("dgraph5p", ["h_dgraph5.c"], variant="ptp", env={"MC_SET": "1"})],
  "all labelled graphs of <=4 vertices (5 thorough) x all distributions over 1-3 processes (4 thorough) x 24 ordering strategies (default, 5 predefined, 18 explicit; all for <=2 vertices, 8 for 3, 2 for 4 in quick) x bases, layouts, loads, labels, unused global numbers alternated: ordering computed twice on the same object, permutation, distributed tree, gathering to each process with whole and partial outputs, three kinds of files from some process, refused requests; families of up to 150 vertices on 2-8 processes; collective and point-to-point exchanges", MPIA)
P("C33", [pt("dgraph6", ["h_dgraph6.c"], more=["mc/explore.c", "mc/mpi/mpi.c", "mc/dspace.c", "mc/aspace.c"]), pt("dgraph6p", ["h_dgraph6.c"], more=["mc/explore.c", "mc/mpi/mpi.c", "mc/dspace.c", "mc/aspace.c"], variant="ptp", env={"MC_SET": "1"})],
  "all labelled graphs of <=4 vertices (5 thorough) x all distributions over 1-3 processes (4 thorough) x 21 mapping strategies (default, 7 predefined incl. clustering, 13 explicit; all for <=2 vertices, 8 for 3, 2 for 4 in quick) x 12 complete, weighted complete and variable targets (others: refused by all) x bases, layouts, loads, labels, unused global numbers alternated: array calls and mapping objects, mapping file from some process, all figures and the report, refused requests; families of up to 150 vertices on 2-8 processes; collective and point-to-point exchanges", MPIA)

P("C34", [pt("dgraph3", ["h_dgraph3.c"]), pt("dgraph3p", ["h_dgraph3.c"], variant="ptp", env={"MC_SET": "1"})],
  "all labelled graphs of <=4 vertices (5 thorough) x all distributions over 1-5 processes x bases, layouts, loads, labels, unused global numbers alternated, all atlas graphs of 5-7 vertices (a fifth of those of 6, a few of those of 7 in quick) over 2-8 processes, families of up to 130 vertices on 2-8 processes: coarsening, folded, duplicated or not, merging isolated vertices or not, over up to 4 levels; growing from all assignments of free, seed of either color and barrier (by residue) x all distances; collective and point-to-point exchanges", MPIA)
P("C35", [pt("dgraph4", ["h_dgraph4.c"])],
  "all labelled graphs of <=4 vertices (5 thorough) over 1-5 processes x loads, labels, bases: centralised files loaded from each process and from all x 3 base choices x 4 load flags (by residue in quick); all distributions (half of those of 4 vertices in quick), with layouts and unused numbers alternated, saved, read back by an independent reader, loaded under bases and flags and saved again; 6 kinds of bad requests; families of up to 150 vertices on 2-8 processes", MPIA)

GENP = [(n,) for n in "gmk_m2 gmk_m3 gmk_hy gmk_ub2 gmk_msh mmk_m2 mmk_m3 amk_m2 amk_hy amk_ccc amk_fft2 amk_p2 amk_grf acpl".split()]
P("C38", [dict(name="gen", src=["h_gen.c"], progs=GENP)],
  "every generator program x all 2D dimensions up to 5x5 (8x8 thorough), 3D up to 3^3 (5^3), larger ones by hand x all bases, torus, stencil, inversion and geometry options, output files or streams, option orders and cases; hypercubes and de Bruijn graphs of dimension 1-10, meshes up to 5x5 and 4^3; "
  "grid targets up to 8x8 (11x11) by each method, hypercubes of dimension 1-8 (10), cube-connected cycles 1-7 (8), FFT 1-6 (7), weighted paths, each compiled by acpl; amk_grf over all vertex subsets of all connected labelled graphs of <=4 (5) vertices; gmk_msh over all incidences of <=3x3, primal and dual of thresholds 1-4")

CLIP = [(n,) for n in "gtst gmap gord gotst gmtst gbase gscat gcv mcv mord mtst atst gmk_msh amk_grf acpl".split()] + [
    ("gpart", ["gmap.c"], ["-DSCOTCH_COMPILE_PART"]), ("gout", ["gout_c.c", "gout_o.c"])]
OOM = lambda k: [dict(name="oom", src=["h_oom.c"], more=["mc/aspace.c"], wrap=True, env={"MC_SET": str(k)}, flags=["-DMETISV=5", "-DSCOTCH_METIS_VERSION=5", "-iquote", os.path.join(B.SRC, "esmumps")], libs=[lambda b: b.metis(5), lambda b: b.esmumps()])]
P("C25", OOM(25), "about 60 scenarios (every public call on sequential graphs, meshes, architectures, mappings, orderings, strategies, contexts, METIS and esmumps interfaces, in the documented order and with objects re-used, computed twice and freed in several orders), on all unlabelled graphs of <=6 (thorough 7) vertices x 3 layouts / loads / labels, all meshes of <=3x3, the families, and every target architecture of the atlas: number of live blocks after release equals number before, the caller's arrays (put in guarded blocks) keep their content")
P("C26", OOM(26), "same scenarios on all unlabelled graphs of <=4 (thorough 6) vertices, families of <=30 (100) vertices, every 41st mesh of <=3x3 (every 4th) and mesh families, every target architecture: for every index k up to the number of requests of the scenario, the k-th request for memory (malloc, calloc or growing realloc) is refused once; the call ends with an error or a valid result, nothing is leaked or touched after release, the objects can still be freed, inputs are unchanged and the same call succeeds afterwards")
P("C04", [dict(name="damage", src=["h_damage.c"], more=["mc/aspace.c"], wrap=True)], "about 160 seed files (source graphs and meshes with every combination of loads and labels, Chaco, Matrix Market and Harwell-Boeing files, geometries, mappings, orderings, random states, every architecture of the atlas and hand-made decompositions), each cut after every byte, with every token replaced by each of 23 values, lost, repeated or exchanged with its neighbours, every byte replaced by each of 11, every byte or line lost, repeated or moved, and, for short files, every pair of tokens replaced by each pair of 6 values; each loaded with every base value and flag: the call either fails with a message and leaves nothing allocated, or the object passes the check routine and an independent one (arcs both ways, permutation and inverse, domain tree whose sizes and weights add up, symmetric distances), can be saved again, and released without leak; any invalid memory access or endless loop is a violation")
P("C05", [dict(name="format%d" % k, src=["h_format.c"], wrap=True, env={"MC_SET": str(k)}) for k in (1, 2, 3, 4, 5)],
  "independent writers produce, for every graph on at most 4 vertices (with loads, labels, bases), the atlas of 5 and the families, all 108 Chaco layouts (comments, separators, header forms, flags, missing last newline, carriage returns); for every pattern with diagonal of at most 3 rows and a stride of the 65536 of 4 rows, Matrix Market files in 360 layouts x 5 base strings (all field and symmetry headers, orders, duplicates, comments longer than a line, dense format refused) and Harwell-Boeing files in 2048 layouts (8 Fortran formats for each section, matrix types, right-hand sides, padding, values, rank in a file of several matrices); for all meshes up to 4x3, the elemental Harwell-Boeing layouts; geometry files of every dimension, order and excess lines: the imported object is compared arc by arc with what was described and passes the check; exports are imported back and compared")
P("C06", [thra("stream", ["h_stream.c", "st_fc.c", "st_fc_compress.c", "st_fc_decompress.c"], wrap=True, flags=["-iquote", os.path.join(B.VERIF, "harness")])],
  "the stream sources compiled over pipes kept in memory (capacities 4096, 65536; 8192 thorough) whose every operation is a scheduling point x formats plain, gz, bz2, xz, lzma x 24 stream sizes around the buffer and pipe boundaries x constant, text and random content x reads, writes, closes after every characteristic position, truncated and damaged files, several members, members that fill the internal buffers exactly, named files and standard streams, two names for one stream, three streams at a time; every schedule with up to 2 departures (small sizes; 4 thorough) or 1 (2 thorough) from the default one, bounded at 8 to 400 (500 to 20000 thorough) schedules per case",
  ["pipes, SIGPIPE and blocking are modelled as POSIX has them"])
P("C24", [dict(name="random%d" % k, src=["h_random.c"], wrap=True, env={"MC_SET": str(k), "SCOTCH_PTHREAD_NUMBER": "1"}) for k in (1, 2)],
  "every history of at most 4 (thorough 5) operations out of 20 (draws, resets, seeds, process number, save, load, cloning into two contexts, seeding, resetting, re-creating and setting options of contexts, partitioning, ordering and colouring unbound or bound to either context), then every ordered pair of 25 computations (mapping, overlap, fixed, remapping, target decomposition, orderings, mesh ordering, colouring, coarsening, syntax error...) in 10 surroundings; the state of a generator is identified by what was done since it was last seeded (cloned and saved states carry this history): every result, drawn value and saved state is compared with all results seen from the same state and with the same operations done alone right after seeding")
P("C39", [dict(name="cli%d" % k, src=["h_cli.c"], progs=CLIP, env={"MC_SET": str(k)}) for k in (1, 2, 3)],
  "real command-line programs (built with ASAN from the sources of the tree), run as processes on every graph of the unlabelled atlas up to 5 (thorough 6) vertices and the families, with bases, weights and labels cycled: gtst, gbase, gscat, gcv, gord + gotst, gmap / gpart + gmtst with every option of a table of 10 + 22 option sets, whose outputs are compared byte for byte with the same calls done in-process on the library and whose figures are recomputed independently (dense symbolic factorization for gotst); edges re-read from every gout format; all small meshes through mtst, mord and mcv; distances recomputed for atst; every unknown option letter, invalid option values, missing files, every truncation of every input file and every number of it replaced by 5 values: clean ending, and error status where the input is unusable")
