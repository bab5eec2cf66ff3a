import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":s} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
GEN="algorithm/modifiedgenetic.go"; SIM="algorithm/simple.go"
p("C01","Reported best fitness never regresses",
  "For both search algorithms and any deterministic fitness function (including ones with negative values or ties), the reported best fitness after each generation is at least the best fitness reported after the previous one, and the first reported value is the true fitness of some initial member.",
  ["histories","schedules","inputs"],"every fitness landscape, population size and cutoff (1 <= cutoff <= size/2), mutator, completion order of the worker tasks and number of generations",
  "The existing test only takes a couple of generations of one landscape under whatever schedule the machine happened to produce; a regression needs a particular completion order, tie or sign of the fitness values.",
  [GEN,SIM],[("elites copied unmutated",GEN+":newGeneration"),("sort by fitness",GEN+":updateFitnesses"),("elites copied unmutated",SIM+":newGeneration")],
  ["population","fitnesses","stats.BestFitness"],["Step return","Stats()"])
p("C02","Reported best point group is real and maximal",
  "After construction and after every generation, the reported best point group evaluates to exactly the reported best fitness, and that fitness is the maximum over all members evaluated in that generation. A caller overwriting the point group it received never influences the generations that follow or the results reported after them.",
  ["histories","schedules","inputs"],"every fitness landscape, sizes, mutator and completion order, including callers that overwrite the returned point group between generations",
  "Whether the reported group and the reported number belong together depends on the order in which concurrent results arrive and on which member wins, which a sampled run fixes arbitrarily.",
  [GEN,SIM],[("best.Set(population[0])",GEN+":updateFitnesses"),("best.Set(population[0])",SIM+":updateFitnesses")],
  ["best","population","fitnesses"],["Best()","Stats()"])
p("C03","Elites survive unchanged; offspring are elites plus their reported mutations",
  "In every generation the `cutoff` fittest members of the previous generation are carried over point for point, and every other evaluated member equals one of those elites with exactly the mutations passed to its evaluation applied: same number of points, mutated indices hold the reported new coordinates, old coordinates are those of the elite, and all other points are untouched.",
  ["histories","schedules","inputs"],"every population, size and cutoff (1 <= cutoff <= size/2), mutator output (none, one or many mutations per member) and completion order, over any number of generations",
  "Population buffers are swapped and reused between generations, so aliasing or bookkeeping slips show only after specific multi-generation histories; tests only look at the final fitness.",
  [GEN,SIM],[("population/newPopulation swap",GEN+":newGeneration"),("population/newPopulation swap",SIM+":newGeneration")],
  ["population","newPopulation","mutations"],["fitness function argument"])
p("C04","Beneficial mutations are combined per elite, fittest wins per point",
  "In the modified genetic algorithm, after evaluating a generation, each elite that had offspring strictly fitter than itself gets exactly one extra member: the elite with, for each point index mutated by those fitter offspring, the mutation of the fittest such offspring (any of them on ties) applied and reported; elites without such offspring get none, and no mutation from another elite's offspring is ever applied.",
  ["schedules","histories","inputs"],"every assignment of fitness values, overlapping mutation sets, size and cutoff, and every completion order of the offspring evaluations",
  "The outcome is computed incrementally in completion order, so correctness quantifies over all interleavings of results; a unit test cannot steer the order.",
  [GEN],[("setBeneficial",GEN+":setBeneficial"),("combineMutations",GEN+":combineMutations"),("getBase",GEN+":getBase")],
  ["beneficialMutations","mutations","fitnesses"],["fitness function argument for the combined members"])
p("C05","Every generation finishes; each member evaluated once, results attributed right",
  "For any completion order of the concurrent evaluations, every generation terminates, evaluates each of its members exactly once, and ranks each member by the value its own evaluation returned (so the survivors are the members with the highest values); the generation counter then grows by exactly one.",
  ["schedules","histories"],"every interleaving of worker completions (in order, reversed, random, one straggler), sizes, cutoffs and worker-pool widths",
  "Quantifies over goroutine schedules; the test suite sees one schedule per run and cannot tell a misattributed result from a bad mutation.",
  [GEN,SIM],[("result channel",GEN+":calculateFitnesses"),("result channel",SIM+":calculateFitnesses")],
  ["fitnesses","result channel","stats.Generation"],["fitness function call/return","Stats()"])
p("C06","Evaluation context follows its member through sorting and reproduction",
  "With one fitness function per member, each member is evaluated by exactly one function at a time, distinct members of a generation use distinct functions, a carried-over elite keeps the function that last evaluated it, and every offspring's function is told, before it is evaluated, that its base is the function that evaluated its elite's current points.",
  ["histories","schedules"],"every sequence of rankings (including ties), sizes, cutoffs, completion orders and both algorithms, through the parallel evaluator",
  "The association is an invariant of the whole history of sorts, swaps and buffer swaps; when it breaks the fitness values stay plausible, so output assertions do not notice.",
  ["algorithm/evaluator/parallel.go",GEN,SIM],[("Swap","algorithm/evaluator/parallel.go:Swap"),("SetBase","algorithm/evaluator/parallel.go:SetBase"),("sort Swap",GEN+":Swap"),("sort Swap",SIM+":Swap")],
  ["evaluators permutation","population permutation"],["CacheFunction.SetBase / Calculate calls"])
p("C07","Incremental fitness equals from-scratch fitness",
  "For the built-in triangle and polygon fitness functions, the fitness obtained by updating a base's geometry with the reported mutations equals (up to floating-point summation order) the fitness a fresh function computes for the same points, after any number of generations, whenever the points determine a unique triangulation.",
  ["histories","inputs"],"all images, point groups (including duplicates and points on the border), mutation lists and lineages of base/offspring updates; triangle variant restricted to point sets without four cocircular points, where the triangulation is not unique",
  "Errors come from particular histories of removals and insertions (shared points, moves onto the same pixel, moved twice); tests only evaluate one fresh group.",
  ["fitness/triangles.go","fitness/polygons.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go"],
  [("incremental update","fitness/triangles.go:Calculate"),("incremental update","fitness/polygons.go:Calculate")],
  ["Triangulation","Base"],["Calculate return value"])
p("C08","Caching never changes a fitness value",
  "For the built-in fitness functions run through the parallel evaluator, the value returned for a point group is the same (up to floating-point summation order) for every cache size (down to a single entry) and every cache content left behind by earlier evaluations, including hash collisions.",
  ["histories","inputs","configurations"],"all cache sizes, images, generations and evaluation orders",
  "A wrong hit needs two different shapes to collide in the cache after a certain history; with the default cache of four million entries tests practically never see a collision.",
  ["fitness/cache.go","algorithm/evaluator/parallel.go","fitness/triangles.go","fitness/polygons.go"],
  [("lookup + Equals","fitness/triangles.go:Calculate"),("Equals/Hash","fitness/cache.go"),("write back","algorithm/evaluator/parallel.go:Update")],
  ["cache","nextCache","TriangleCache"],["Calculate return value"])
p("C09","The cache being written is never the one running evaluations read",
  "While any evaluation of a generation may still be running, results are stored only into a cache that no running evaluation was given to read, and each function is afterwards given the cache its generation's results were stored in; this holds for every completion order.",
  ["schedules","histories"],"every interleaving of completions, updates and generation switches, sizes and cutoffs, both algorithms",
  "It is a data-race freedom property over all schedules: the race detector and tests only judge the schedule that happened.",
  ["algorithm/evaluator/parallel.go",GEN,SIM],[("double buffer swap","algorithm/evaluator/parallel.go:Prepare"),("write","algorithm/evaluator/parallel.go:Update")],
  ["cache","nextCache"],["CacheFunction.SetCache / Calculate / Cache calls"])
p("C10","Fitness is one minus normalised colour variance, for every block size",
  "The built-in fitness of a point group is 1 - D/(255*255*3*w*h), where D sums over the shapes the squared deviation of the image colours of the pixels rasterised for that shape from their mean, plus, for triangles, 255*255*3 for each unit of image area outside the triangulation (rounding of stored squares aside). The result does not depend on the block size used for speed, even when blocks are larger than the image or its shapes.",
  ["inputs","configurations"],"all images, sizes, point groups and block sizes",
  "Tests pin one number for one image, seed and block size; the equality is over all inputs and between two rasterisation paths.",
  ["fitness/triangles.go","fitness/polygons.go","fitness/pixels.go","rasterize/blocks.go"],
  [("variance sum","fitness/triangles.go:Calculate"),("block sums","fitness/pixels.go:fromImageN")],
  ["pixelData","pixelDataN"],["Calculate return value"])
p("C11","Incremental triangulation is Delaunay after any history",
  "After any sequence of insertions and removals of points within the image (up to 3000 pixels, including borders, lattices, collinear points and duplicates), the triangles reported are non-overlapping, non-degenerate, connect only current points, no current point lies strictly inside any triangle's circumcircle, and together with triangles attached to the surrounding super triangle they form a complete triangulation of the current points.",
  ["histories","inputs"],"every insert/remove sequence over integer points in [0,w]x[0,h]",
  "Removal ear-clipping and degenerate (cocircular, collinear, border) neighbourhoods arise only from particular multi-step histories; the single test inserts a few points once.",
  ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/grid.go","triangulation/incrdelaunay/geom.go"],
  [("Bowyer-Watson insertion","triangulation/incrdelaunay/delaunay.go:Insert"),("Devillers ear removal","triangulation/incrdelaunay/delaunay.go:Remove"),("circumcircle grid","triangulation/incrdelaunay/grid.go")],
  ["triangles","freeTriangles","grid"],["IterTriangles after each operation"])
p("C12","Point bookkeeping and queries agree with the multiset of points",
  "After any sequence of insertions and removals the incremental triangulation counts points with multiplicity, removing one copy of a duplicated point leaves the others, membership queries hold exactly for points currently present, and a nearest-point query inside the image returns a present point at minimum distance (when there is one).",
  ["histories","inputs"],"every insert/remove history with duplicates over points in the image, at every intermediate state",
  "Counting errors need specific duplicate/removal interleavings; no test removes a point.",
  ["triangulation/incrdelaunay/pointmap.go","triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/grid.go"],
  [("duplicate counting","triangulation/incrdelaunay/pointmap.go"),("queries","triangulation/incrdelaunay/delaunay.go:HasPoint/GetClosestTo")],
  ["pointMap","numPoints"],["NumPoints","HasPoint","GetClosestTo"])
p("C13","Copies of a triangulation or diagram are exact and independent",
  "Setting one triangulation (or Voronoi structure) to another made for the same image size, whatever the target held before, makes the target report exactly the same triangles, cells, counts and query answers, and afterwards operations on either one never change the other; later updates behave on the copy as they would on the original.",
  ["histories"],"every history of operations on both objects before and after copying, including reusing the same target many times and copying between larger and smaller states",
  "Aliased buffers reveal themselves only when a later operation on one object happens to touch shared memory; tests never copy.",
  ["triangulation/incrdelaunay/delaunay.go","triangulation/incrdelaunay/voronoi.go","triangulation/incrdelaunay/grid.go","triangulation/incrdelaunay/pointmap.go","triangulation/incrdelaunay/polygonmap.go"],
  [("Set","triangulation/incrdelaunay/delaunay.go:Set"),("Set","triangulation/incrdelaunay/voronoi.go:Set"),("grid Set","triangulation/incrdelaunay/grid.go:Set")],
  ["triangles","freeTriangles","grid","pointMap","polygon map"],["IterTriangles","IterPolygons","NumPoints","HasPoint"])
p("C14","Voronoi cells tile the image, one per distinct point, after any history",
  "After any sequence of insertions and removals (at least one point present), there is exactly one cell per distinct current point; each cell is a convex polygon inside the image all of whose locations are at least as near to its point as to any other, and the cells together cover the image exactly.",
  ["histories","inputs"],"every insert/remove sequence over integer points in [0,w]x[0,h] (up to 3000 pixels), borders, corners, collinear points and duplicates included",
  "Clipping cases (cells containing one or more corners, sites on borders) and stale cells after removals depend on the history; tests never check cells.",
  ["triangulation/incrdelaunay/voronoi.go","triangulation/incrdelaunay/polygonmap.go"],
  [("cell construction and clipping","triangulation/incrdelaunay/voronoi.go:processPoint"),("updates","triangulation/incrdelaunay/voronoi.go:Insert/Remove"),("one-shot variant","triangulation/incrdelaunay/voronoi.go:Voronoi")],
  ["polygon map","delaunay"],["IterPolygons","Voronoi()"])
p("C15","One-shot polygonation returns the rounded Voronoi cells",
  "Polygonating a non-empty point group for an image returns one polygon per distinct rounded point; each is that point's Voronoi region clipped to the image with vertices rounded to the nearest pixel corner and consecutive repeats dropped, so every vertex lies within the image bounds.",
  ["inputs"],"all point groups with coordinates in [0,1] and image sizes up to 3000 pixels",
  "The clipped cells' corner cases depend on the arrangement of all points; there is no test of polygonation.",
  ["polygonation/polygonate.go","triangulation/incrdelaunay/voronoi.go"],
  [("rounding and de-duplication","polygonation/polygonate.go:Polygonate"),("cells","triangulation/incrdelaunay/voronoi.go:Voronoi")],
  None,["Polygonate result"])
p("C16","One-shot triangulation is a Delaunay triangulation over the convex hull",
  "Triangulating a point group for an image returns non-degenerate, non-overlapping triangles whose vertices are the points scaled to the image and rounded, such that no point lies strictly inside a circumcircle and the triangles exactly cover the convex hull of the points; no triangles are returned when all points are collinear.",
  ["inputs"],"all point groups in the unit square including duplicates, collinear and cocircular ones, and all image sizes up to 3000 pixels",
  "Quantifies over all point arrangements; the existing test triangulates one.",
  ["triangulation/triangulator.go"],[("scaling and rounding, index mapping","triangulation/triangulator.go:Triangulate")],None,["Triangulate result"])
p("C17","Line, block and pixel rasterisation cover the same pixels",
  "For every non-degenerate triangle and every block size, the pixels covered by the block rasteriser's blocks and lines are the same, each the same number of times, as those of the line rasteriser and of the pixel rasteriser; the same holds for polygons, whose pixels are those of their fan triangles.",
  ["inputs","configurations"],"all integer triangles/convex polygons and block sizes >= 1",
  "Equality of two algorithms over all triangles and block sizes; the tests compare only one triangle.",
  ["rasterize/lines.go","rasterize/blocks.go","rasterize/pixels.go","rasterize/polygon.go"],
  [("block walk","rasterize/blocks.go:normalTriangleBlocks"),("scanlines","rasterize/lines.go")],None,["rasteriser callbacks"])
p("C18","Rasterising a triangulation touches each pixel at most once with no gaps",
  "Each triangle is rasterised to exactly the pixels whose row crosses it and whose left corner lies between its two edges on that row (truncated to pixels), never outside its bounding box; hence adjacent triangles share no pixel and leave no gap, and the triangles of a triangulation cover each pixel of the image at most once and every pixel of a fully covered image exactly once.",
  ["inputs"],"all integer triangles and triangulations within an image",
  "Seam errors need particular slopes and shared edges; tests check one triangle's pixel count.",
  ["rasterize/lines.go","rasterize/pixels.go"],[("edge walking","rasterize/lines.go")],None,["rasteriser callbacks"])
p("C19","Rendered shapes carry the average colour of their pixels",
  "Rendering triangles or polygons on an image returns one entry per shape in the same order, with the same vertices normalised by the image size and the average image colour over the pixels the shape covers; a shape covering no pixel gets the average colour of the image pixels nearest to its vertices.",
  ["inputs"],"all images and shapes within the image, including slivers, degenerate shapes and shapes touching the right and bottom border",
  "Holds for all shapes and images; the test checks only the number of results for one image.",
  ["render/triangles.go","render/polygons.go","render/util.go","color/color.go","geom/triangle.go","geom/polygon.go"],
  [("averaging","render/triangles.go:TrianglesOnImage"),("averaging","render/polygons.go:PolygonsOnImage"),("average","color/color.go")],None,["returned data"])
p("C20","Imported images have every pixel's colour at its place",
  "Converting any image of the standard library's kinds (any colour model, stride or sub-image whose bounds do not start at the origin) yields data with the image's dimensions in which the colour at (x, y) is the image's 8-bit (alpha-premultiplied) colour of the pixel x columns and y rows from its top-left corner, divided by 255.",
  ["inputs"],"all images: sizes, bounds, colour models, sub-images",
  "The test only checks the size of an empty data object.",
  ["image/rgbdata.go"],[("ToData","image/rgbdata.go:ToData"),("NewData","image/rgbdata.go:NewData")],None,["RGBAt","Size"])
p("C21","Mutators report every change exactly and keep points in the unit square",
  "Mutating a point group changes only the points it reports, reports each changed point exactly once with its index and its exact old and new coordinates, keeps all coordinates within [0, 1] (for any finite amount and points that lie there), and never changes the number of points; a rate of 0 changes nothing and a rate of 1 reports every point.",
  ["inputs","histories"],"all point groups, rates, amounts (including ones that push points over the border) and random sequences",
  "Clamping and reporting errors need points near the border and many random draws; tests check one aggregate.",
  ["mutation/gaussian.go","mutation/random.go","normgeom/normpoint.go"],
  [("Mutate","mutation/gaussian.go:Mutate"),("Mutate","mutation/random.go:Mutate"),("Constrain","normgeom/normpoint.go:Constrain")],None,["point group after Mutate","callback"])
p("C22","Generators return n points in the unit square; spacing never gets worse",
  "The random and the spaced generator return exactly n points (n >= 0, for the spaced one n >= 1), all within the unit square; the spaced generator only ever moves points so that the moved point gets farther from its nearest neighbour, so the minimum distance between points is never smaller than that of the random points it started from.",
  ["inputs","histories"],"all n >= 1 (n >= 2 for distances), iteration counts and random sequences",
  "The minimum distance is a property of the whole random history; tests check only the number of points.",
  ["generator/random.go","generator/spaced.go"],[("annealing moves","generator/spaced.go:Generate"),("nearest neighbour","generator/spaced.go:closestTo")],None,["Generate result"])
p("C23","Seeded random numbers are reproducible and stay in range",
  "After seeding with the same value, any same sequence of calls to the library's random source produces the same numbers; bounded integers lie in [0, n) for 1 <= n < 2^32, fractions in [0, 1), 63-bit integers are non-negative, and normal values are finite.",
  ["histories","inputs"],"all seeds and call sequences mixing every kind of draw",
  "Quantifies over seeds and call histories; the test draws a single number.",
  ["random/random.go"],[("Seed","random/random.go:Seed"),("draws","random/random.go")],["generator state"],["returned numbers"])
p("C24","The fitness an algorithm reports is the quality of the rendered picture",
  "After any number of generations on any image, rendering the shapes (triangulation.Triangulate or polygonation.Polygonate, then render) of the algorithm's best points gives one colour average per shape such that 1 - BestFitness is the squared difference of picture and image, normalised by 255*255*3*w*h, where the fitness functions and the renderer place points and vertices on the same pixels; for triangles, area that isn't covered counts with the largest difference, as do slivers along the convex hull whose circumcircle reaches the surrounding super triangle. The number of points stays the same and the difference never increases.",
  ["inputs","histories"],"all images, point counts, generators, mutators, population sizes, cache and block sizes of both algorithms, including utils.DefaultAlgorithm; triangles where the triangulation is unique",
  "The fitness functions, the one-shot shapes and the renderer are separate implementations of scaling, rounding, triangulation and averaging, which must agree for every point; no test runs them together.",
  ["fitness/triangles.go","fitness/polygons.go","fitness/util.go","triangulation/triangulator.go","polygonation/polygonate.go","render/triangles.go","render/polygons.go","image/rgbdata.go","utils/default.go","algorithm/simple.go","algorithm/modifiedgenetic.go"],
  [("placing of points","fitness/util.go:createPoint"),("rounding","fitness/util.go:fastRound"),("default pipeline","utils/default.go:DefaultAlgorithm")],None,["Best and Stats","rendered shapes"])
p("C25","Utilities save and print the best points and fitness of every batch",
  "While utils.GenerateAlgorithmOutput runs an algorithm, after every batch of reps generations the output file holds exactly the JSON of the algorithm's best points (nothing of an earlier, longer group), and the -stats file has one complete line 'generation, fitness' for every finished batch, so that a program that is ended at any later time loses nothing of it; utils.RunAlgorithm prints the same lines. utils.GenerateTrace and utils.GenerateProfile run the algorithm, end, and leave a complete readable file.",
  ["histories","crash_points"],"all batch sizes, numbers of generations, point groups and fitnesses; ended before any generation",
  "No test runs these functions, two of which never return; what is on disk matters at every moment the program can be ended.",
  ["utils/output.go","utils/fitness.go","utils/trace.go","utils/profile.go"],
  [("saving a batch","utils/output.go:GenerateAlgorithmOutput"),("printing a batch","utils/fitness.go:RunAlgorithm"),("trace","utils/trace.go:GenerateTrace")],None,["files","standard output"])
p("C26","Runs are reproducible: scheduling, time and cache size don't matter",
  "With the same initial points, mutations and fitness functions, an algorithm evaluates the same members with the same mutations and fitnesses and reports the same best points and fitness in every generation, whatever the order in which concurrent evaluations finish, the time they take, the number of processors, the sizes of cache and blocks, and other algorithms that run at the same time. With the library's generators and mutators the same holds if math/rand's and the library's random sources were seeded with the same values. This holds until two different members of a generation are equally fit, and with the library's image functions for the simple algorithm (where points lie on a circle, the order of combined mutations chooses between triangulations).",
  ["schedules","histories"],"all completion orders, delays, processor counts, cache and block sizes, seeds, population sizes and numbers of generations of both algorithms",
  "A relation between several runs under schedules that a test can't choose; no test runs an algorithm twice.",
  ["algorithm/simple.go","algorithm/modifiedgenetic.go","algorithm/evaluator","generator","mutation","random/random.go","fitness"],
  [("results go to their member","algorithm/simple.go:calculateFitnesses"),("merging of mutations","algorithm/modifiedgenetic.go:setBeneficial"),("mutations are drawn in order","algorithm/simple.go:newGeneration"),("draws","random/random.go"),("initial points","generator/spaced.go:Generate")],None,["Calculate calls","Best and Stats"])
p("C27","Random numbers, mutations and points are distributed as configured",
  "The library's random source gives evenly distributed bounded integers (for every bound), words, 63-bit integers and fractions, and standard normal numbers, none depending on the one before. A mutator changes every point of a group with the configured rate (DefaultGaussianMethod: 2 of n points on average), whatever its place in the group, whether other points change and whether it changed before, and moves the X and Y of a changed point independently of each other by a normal distance with half the amount as its standard deviation (gaussian) or evenly within half the amount to either side (random), up to the border. The random generator's points are evenly distributed in the unit square.",
  ["inputs","histories"],"all bounds, rates, amounts, group sizes and seeds",
  "Distributions show only over thousands of draws; the tests check one draw, or that something changed.",
  ["random/random.go","mutation/gaussian.go","mutation/random.go","generator/random.go"],
  [("normal numbers","random/random.go:NormFloat64"),("bounded numbers","random/random.go:Intn"),("which points change, and how far","mutation/gaussian.go:Mutate"),("which points change, and how far","mutation/random.go:Mutate"),("random points","generator/random.go:randomPoints")],["generator state"],["returned numbers","point group after Mutate"])
p("C28","Geometry helpers are exact, and copied point groups are independent",
  "Whatever the coordinates: distances, squared distances and differences of points, the normalized coordinates of points, triangles and polygons, the area of a convex polygon, the triangles a polygon is split into (which cover it exactly once), average colours with their count, and coordinates brought back into the unit square are what their definitions say. An edge equals one with the same ends, a triangle has exactly its vertices (those it was made of, in order), a new image is black and has its size, and the super triangle has the whole image inside it. A copied point group never shares points with another; Set gives a group the other's points, and refuses groups of another length.",
  ["inputs","histories"],"all histories of copies, sets and writes; all coordinates and colours within the domain",
  "The tests call a helper once, with one input; whether copies share points shows only in what happens to them afterwards.",
  ["normgeom","geom","color/color.go","triangulation/triangulator.go","triangulation/incrdelaunay/geom.go"],
  [("copies and sets","normgeom/normpoint.go:Copy"),("distances","normgeom/normpoint.go:Dist"),("normalization","geom/point.go:ToNorm"),("splitting of polygons","geom/polygon.go:Triangulate"),("averages","color/color.go:Average"),("area","triangulation/triangulator.go:Area"),("super triangle","triangulation/incrdelaunay/geom.go:NewSuperTriangle")],["contents of point groups"],["returned values","contents of point groups"])
p("C29","Conversions depend on their inputs only, keep nothing, and can run together",
  "Triangulating, polygonating, rendering, importing, rasterising and scaling, and triangulations, Voronoi diagrams and fitness functions made for the call, give the same result for the same inputs, whatever was called before with whatever similar inputs and whatever other goroutines call at the same time. They leave their inputs (point groups, shapes, images) as they were, and a result belongs to its caller: later calls never change it, and overwriting it (or the inputs, to use them again with other contents) changes neither the other nor later results.",
  ["histories","schedules","inputs"],"all sequences and interleavings of calls; all results, whenever they are read",
  "A test calls a function once; what is kept between calls, shared by concurrent ones or changed in place shows only in histories.",
  ["triangulation/triangulator.go","polygonation","render","image","rasterize","geom","normgeom","triangulation/incrdelaunay","fitness"],
  [("scaled points","triangulation/triangulator.go:Triangulate"),("polygons","polygonation/polygonate.go:Polygonate"),("buffers of cells","triangulation/incrdelaunay/voronoi.go:Voronoi"),("colours","render/polygons.go:PolygonsOnImage"),("image data","image/rgbdata.go:ToData"),("lines","rasterize/lines.go:DDATriangleLines")],["buffers"],["returned shapes, colours and fitnesses","inputs after a call"])
p("C30","Long runs need bounded memory, goroutines and open files",
  "What a program holds is bounded by the sizes it works with (image, population, caches, points present), not by how long it runs: live memory, goroutines and open files don't grow steadily with the generations of an algorithm, the evaluations of a fitness function, the points inserted into, removed from and copied between triangulations and Voronoi diagrams, the calls of the conversions, generators and mutators, the algorithms made and dropped, or the batches written by utils.GenerateAlgorithmOutput.",
  ["histories"],"generations and operations without end",
  "Tests and benchmarks stop after few generations; what is lost a little in each becomes visible only by its steady growth (and by the 16-bit numbers of triangles running out).",
  ["triangulation/incrdelaunay","fitness","algorithm","utils/output.go","triangulation","polygonation","render"],
  [("slots of triangles","triangulation/incrdelaunay/delaunay.go:addTriangle"),("copied free slots","triangulation/incrdelaunay/delaunay.go:Set"),("caches","fitness/triangles.go:Calculate"),("beneficial mutations","algorithm/data.go:Clear"),("mutations of members","algorithm/modifiedgenetic.go:newGeneration"),("cells","triangulation/incrdelaunay/polygonmap.go")],["slots, caches, buffers, mutations"],["live memory","goroutines","open files"])
p("C31","Steps leave nothing running; statistics describe exactly the last step",
  "While an algorithm is created or stepped, its mutator and its evaluator's methods other than Get are called by one goroutine at a time; when the call returns, none of its evaluations is still running, and none begins before the next step. A step adds one to the reported generation and reports a time for it that covers everything the step called and isn't longer than the call of Step took; best points and statistics then stay as they are, however often they are asked for and whatever other algorithms do, until the algorithm's next step.",
  ["schedules","histories"],"evaluations that end in any order at any time, several algorithms that are stepped in turns or at the same time",
  "Tests never look at the time and run one algorithm alone; what is still running when a step returns, or is called by two goroutines at once, shows only in some schedules.",
  ["algorithm/modifiedgenetic.go","algorithm/simple.go","algorithm/algorithm.go"],
  [("step of the modified genetic algorithm","algorithm/modifiedgenetic.go:Step"),("step of the simple algorithm","algorithm/simple.go:Step"),("results are waited for","algorithm/modifiedgenetic.go:calculateFitnesses"),("statistics","algorithm/algorithm.go:Stats")],["running evaluations","statistics","time"],["Stats","Best","calls of mutator, evaluator and functions"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
