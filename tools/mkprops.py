"""writes properties.jsonl (run from /verif)"""
import json
P = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=False, state=None):
    a = {"files": ["ebsdtorch/" + f for f in files], "mechanism": [{"name": n, "where": "ebsdtorch/" + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


S = "s2_and_so3/"
p("C01", "Quaternion operations form the rotation group with rotation action",
  "Products, inverses, normalisation, standardisation, slerp and rotation of points by unit quaternions agree with the Hamilton algebra: products are associative and norm preserving, a quaternion times its inverse is the identity, q and -q act identically, rotation preserves lengths and composes like the product. "
  "Every reduced form (real part only, axis only, triple product) equals the corresponding part of the full product, for any broadcastable batch shapes, and the quaternion that is computed to take one direction to another really does so.",
  ["inputs"], "all unit quaternions, all points, all interpolation parameters in [0,1], including real parts that are zero or negative and antiparallel directions",
  "tests sample random quaternions; sign conventions, zero real parts, antiparallel directions and broadcasting only break on special values",
  [S + "quaternions.py"], [("Hamilton product and its partial forms", S + "quaternions.py:qu_prod_raw"), ("rotation action", S + "quaternions.py:qu_apply"), ("direction alignment", S + "quaternions.py:quaternion_rotate_sets_sphere")],
  ["return values of the quaternion functions"])
p("C02", "Rotation representations describe the same rotation",
  "Converting a rotation between quaternion, matrix, axis-angle and Rodrigues form never changes the rotation: every conversion agrees with the rotation matrix of the input and each round trip returns the starting rotation. Outputs are canonical (proper orthogonal matrices, unit axes, angle in [0, pi], non-negative real part) for any number of leading batch dimensions, and the caller's input is not modified.",
  ["inputs"], "every rotation with angle in [0, pi] including the identity, half turns and both quaternion signs; batch shapes of rank 0 to 2",
  "round-trip tests over random rotations almost never reach half turns, identity or zero components, where branch selection and sign recovery happen",
  [S + "orientations.py"], [("matrix to quaternion branch selection", S + "orientations.py:om2qu"), ("axis-angle conversions", S + "orientations.py:om2ax"), ("compositions", S + "orientations.py:qu2om")],
  ["return values of the conversions"])
p("C03", "Bunge Euler angles convert exactly and stay in their ranges",
  "A Bunge triplet and the quaternion, matrix, axis-angle or Rodrigues form it is converted to denote the same rotation, and converting any rotation to Bunge angles gives angles inside their canonical ranges that convert back to it, including the degenerate cases where the second angle is 0 or pi.",
  ["inputs"], "all triplets with phi1, phi2 in [0, 2pi], Phi in [0, pi]; all unit quaternions including gimbal-lock rotations",
  "gimbal lock and range wrap are measure-zero inputs random testing does not hit",
  [S + "orientations.py"], [("Bunge to quaternion", S + "orientations.py:bu2qu"), ("quaternion to Bunge", S + "orientations.py:qu2bu")], ["return values of the Bunge conversions"])
p("C04", "Homochoric and cubochoric maps are mutually inverse and sign equivariant",
  "Cubochoric to homochoric maps the cube onto the ball of equal volume, keeps the octant and axis order of its argument, is continuous at the centre, and the reverse conversion undoes it; quaternion to homochoric has the exact equal-volume radius and the axis of the rotation. Neither modifies its input.",
  ["inputs"], "all points of the cubochoric cube and of the homochoric ball including faces, edges, axes and the centre; all unit quaternions",
  "ties between coordinates, zero coordinates and boundary points are where sorting, sign copying and 0/0 repairs act",
  [S + "orientations.py"], [("cubochoric to homochoric", S + "orientations.py:cu2ho"), ("homochoric to cubochoric", S + "orientations.py:ho2cu"), ("quaternion to homochoric", S + "orientations.py:qu2ho")], ["return values of the conversions"])
p("C05", "The continuous 6D form always yields a proper rotation",
  "Any six numbers spanning a plane convert to a proper orthogonal matrix whose leading direction is that of the first triple, scaling either triple (and adding a multiple of the first to the second) does not change it, and a rotation that is converted to six numbers and back is unchanged, through matrices or quaternions.",
  ["inputs"], "all linearly independent 6D inputs in a bounded box; all rotations",
  "orthonormalisation errors show only for inputs that are not already orthonormal", [S + "orientations.py"],
  [("6D to matrix", S + "orientations.py:zh2om"), ("matrix to 6D", S + "orientations.py:om2zh")], ["return values of the conversions"])
p("C06", "Laue operator tables are the eleven rotation groups",
  "For each of the eleven Laue classes the listed symmetry operators are distinct unit quaternions with non-negative real part that form a group of the expected order, contain the generators the class requires and are the exact subgroup relations between classes; lower-symmetry classes with the same order are not confused.",
  ["inputs"], "all pairs of operators of all eleven classes and an arbitrary direction to which they are applied",
  "no test inspects the tables; one wrong sign corrupts only one class", [S + "laue_generators.py"],
  [("operator tables", S + "laue_generators.py:get_laue_mult")], ["returned operator tensors"])
p("C07", "Reduction to a fundamental zone picks an equivalent inside orientation",
  "Reducing an orientation to the fundamental zone of a Laue class returns a unit orientation with non-negative real part that is a symmetry operator times the input (orientations map sample to crystal directions), lies inside the zone as the membership test sees it, has the smallest rotation angle among equivalents, and does not depend on which equivalent was supplied. Membership accepts at least one equivalent of every orientation and no two distinct interior ones.",
  ["inputs"], "all unit quaternions for all eleven Laue classes, including zone boundaries up to tolerance", "zone faces are class specific planes; samples rarely land near each of them",
  [S + "laue_fz_ori.py", S + "laue_generators.py"], [("zone reduction", S + "laue_fz_ori.py:ori_to_fz_laue"), ("zone membership", S + "laue_fz_ori.py:ori_in_fz_laue"), ("equivalents", S + "laue_fz_ori.py:ori_equiv_laue")], ["return values"])
p("C09", "Disorientation is the symmetry-invariant minimum angle",
  "The disorientation of two orientations under their Laue classes is the minimum misorientation angle over all symmetry equivalents of both: it is zero for equivalents, symmetric in its arguments together with their classes, unchanged when either argument is replaced by an equivalent, and the same whichever of the batched, pairwise or reduced-to-zone routines computes it.",
  ["inputs"], "all pairs of unit quaternions for each pair of Laue classes within the listed bounds", "invariance under all pairs of operators is quadratic in the group order and needs every class", [S + "laue_fz_misori.py", S + "laue_fz_ori.py"],
  [("disorientation angle", S + "laue_fz_misori.py:disori_angle_laue")], ["return values"])
p("C10", "Directions reduce to one representative in each Laue sector",
  "Reducing a direction to the fundamental sector of a Laue class returns a symmetrically equivalent unit vector inside the sector as the membership test sees it, equal for all equivalents of the direction; the list of equivalents holds each operator image.",
  ["inputs"], "all unit vectors for all eleven Laue classes", "sector edges are class specific", [S + "laue_fz_s2.py"], [("sector reduction", S + "laue_fz_s2.py:s2_to_fz_laue"), ("sector membership", S + "laue_fz_s2.py:s2_in_fz_laue")], ["return values"])
p("C11", "Space group numbers map to the right Laue, point group and crystal system",
  "For each space group number the Laue class, point group, crystal system and Laue-group labels that every lookup in the library reports agree with the international tables and with each other, with correct behaviour at every interval end.",
  ["inputs", "configurations"], "all 230 space group numbers", "off-by-one errors at interval ends affect single groups", [S + "laue_generators.py", "utils/symmetry_classes.py", "crystallography/groups.py", "crystallography/unit_cell.py"],
  [("space group thresholds", S + "laue_generators.py:space_group_to_laue"), ("cell classification", "crystallography/unit_cell.py:Cell")], ["return values", "attributes of a constructed cell"])
p("C12", "The square-hemisphere projection is an equal-area bijection",
  "Mapping directions to the square and back returns the same direction (and the reverse), the image fills the square and the hemisphere exactly, areas scale by a constant, the centre and diagonals included; all copies of the projection in the library agree with each other up to their documented scale.",
  ["inputs"], "all points of the closed square and all unit vectors of the hemisphere", "diagonals, edges and the centre are special branches", [S + "sphere.py", "utils/rosca_lambert.py", "crystallography/kvectors.py", "simulation/monte_carlo.py"],
  [("forward and inverse map", "utils/rosca_lambert.py:rosca_lambert")], ["return values"])
p("C14", "Spherical coordinate and direction helpers are mutually consistent",
  "Cartesian-spherical conversions are inverse to each other with angles in their stated ranges, and sphere and rotation lattices, random rotations and the harmonic grid return unit elements with the requested count and layout.",
  ["inputs"], "all unit vectors and angles, all random draws, small grid sizes", "poles and wrap-around are special", [S + "sphere.py", S + "sampling.py", "harmonics/sht.py"], [("spherical conversions", S + "sphere.py:theta_phi_to_xyz")], ["return values"])
p("C15", "SE(3) exponential and logarithm are inverse and consistent",
  "The exponential of a twist is a rigid transform (proper rotation, bottom row 0 0 0 1) equal to the closed form, the logarithm undoes it for rotation angles below pi, matrix, vector and split rotation-translation routes agree, and small angles join the general formula to stated accuracy.",
  ["inputs"], "all twists with rotation angle in [0, pi), translations in a box", "the series/closed form switch and identity are special", ["lie_algebra/se3.py"], [("exponential", "lie_algebra/se3.py:se3_exp_map_om"), ("logarithm", "lie_algebra/se3.py:se3_log_map_om")], ["return values"])
p("C17", "Detector geometry projects every pixel along its true ray",
  "Each pixel of each detector shape projects to the unit direction given by the pattern centre, detector tilts, sample tilts and scan position, projection and back-projection are inverse, binned and masked geometries select the same rays and rigid transforms commute with projection.",
  ["inputs", "configurations"], "all pattern centres, tilts and scan positions within physical boxes; small detector shapes", "axis and sign conventions are exercised by tests at one geometry only", ["ebsd/geometry.py"], [("geometry model", "ebsd/geometry.py:EBSDGeometry")], ["return values"])
p("C18", "Pattern-centre parameters and rigid transforms are equivalent",
  "Converting manufacturer pattern-centre parameters and tilts to a rigid transform and back returns the parameters, the transform places the pattern centre and detector plane where the parameters say, and inputs stay unmodified.",
  ["inputs"], "all pattern centres and tilts within physical boxes", "sign and unit slips cancel at default values", ["ebsd/geometry.py"], [("conversion", "ebsd/geometry.py:bruker_geometry_to_SE3")], ["return values"])
p("C19", "Chunked nearest neighbours equal the exact brute-force answer",
  "For every metric, chunk sizes, number of neighbours and data, the neighbours returned are k distinct valid indices whose distances are the k best over the whole database in best-first order, independent of how either set is split into chunks.",
  ["inputs", "configurations"], "all data values; sizes up to the stated bound; all chunk sizes including ones that do not divide the sizes", "ragged last chunks, ties and k larger than a chunk need particular size combinations", ["utils/knn.py"], [("chunked search", "utils/knn.py:ChunkedKNN")], ["returned indices"])
p("C20", "Streaming statistics equal batch statistics for every split",
  "Mean, covariance and correlation accumulated over any sequence of batches equal the formulas on the concatenated data, whatever the split, the order of the batches and the reads in between. Each online principal-component batch is the published update (implicit Krasulina step with the squared projection norm; Oja step re-orthonormalised), the stored pseudo-inverse belongs to the stored components, and projecting and reconstructing is an orthogonal projection.",
  ["inputs", "histories"], "all data values; every split of a bounded number of rows into batches", "tests use one split", ["utils/pca_covmat.py", "utils/pca_online.py"], [("streaming covariance", "utils/pca_covmat.py:OnlineCovMatrix")], ["returned matrices"], state=[{"name": "running mean and scatter", "where": "ebsdtorch/utils/pca_covmat.py"}])
p("C21", "Pattern container bookkeeping loses and mixes nothing",
  "Reading, normalising, rescaling, subtracting backgrounds, binning or filtering patterns touches each scan position exactly once and independently of the others, keeps scan order and coordinates, masks map positions to rows consistently and per-position results written back are returned for the same position.",
  ["inputs", "histories"], "all pattern values; small scan shapes of 1 to 3 dimensions; any order of set and get", "index bookkeeping errors show only for particular shapes and sequences", ["ebsd/experiment_pats.py"], [("pattern container", "ebsd/experiment_pats.py:ExperimentPatterns")], ["returned tensors"], state=[{"name": "stored orientations and coordinates", "where": "ebsdtorch/ebsd/experiment_pats.py"}])
p("C22", "Master pattern lookup interpolates the right hemisphere everywhere",
  "Looking up a direction returns the value stored at that direction's grid node, interpolates between neighbouring nodes, uses the hemisphere of the direction, is continuous at the equator and invariant to positive scaling, and lookups over geometry and orientations equal the lookup of rotated directions.",
  ["inputs"], "all master pattern values on small grids, all unit directions", "grid corners, the equator and the centre are special", ["ebsd/master_pattern.py"], [("interpolation", "ebsd/master_pattern.py:MasterPattern")], ["returned intensities"])
p("C23", "Similarity measures satisfy their defining identities",
  "Mutual information (mutual_information, binned_nmi, batch_binned_nmi) counts every sample, range end points included, exactly once in the bin of its value and equals the entropy formula on the joint histogram for each pair of images on its own: symmetric, non-negative, zero for a constant image, unchanged by rescaling when values are spread over their range, and at most one where normalised. cmif returns, for every periodic shift and every pair of a batch, the same measure of the overlapped images, for even and odd sizes, few and many levels, constant and moving marginals.",
  ["inputs"], "all small images with values in range, small bin counts", "bin edges and maxima are special values", ["utils/mutual_information.py"], [("joint histogram", "utils/mutual_information.py:mutual_information")], ["return values"])
p("C24", "Adaptive histogram equalisation is a monotone local remapping",
  "Output keeps shape and the range [0, 1]; every pixel is its value looked up in the clipped cumulative histogram of its tile, interpolated between bin centres and between neighbouring tiles, with the image mirrored where tiles reach beyond it. Images of one value become images of one value, and images of a batch do not influence each other.",
  ["inputs"], "all small images", "needs all value orders", ["preprocessing/clahe.py"], [("tile lookup", "preprocessing/clahe.py:clahe_grayscale")], ["returned images"])
p("C25", "Neighbour averaging is a convex average over the window",
  "Each denoised pattern is a weighted average with non-negative weights that sum to one over exactly the scan neighbours inside the window: the published weights, falling with noise-normalised distance, scaled so that the pattern itself has the requested mean share of its 3 x 3 window. Scan borders use existing neighbours only, so a common offset image or a common scale of all patterns passes through unchanged, and copies of one pattern average to it.",
  ["inputs"], "all pattern values on small scan grids", "offsets and edges need all positions", ["preprocessing/nlpar.py"], [("averaging", "preprocessing/nlpar.py:nlpar")], ["returned patterns"])
p("C26", "The spherical harmonic transform is linear and exactly invertible",
  "Analysis after synthesis returns the coefficients at every bandwidth, synthesis agrees with the defining sum, real input gives conjugate-symmetric coefficients and the real and complex paths agree.",
  ["inputs"], "all coefficient vectors at bandwidths up to the bound", "tests use one bandwidth and random data", ["harmonics/sht.py"], [("transform", "harmonics/sht.py:SHT")], ["return values"])
p("C27", "Wigner d tables are complete, orthogonal and symmetric",
  "Compressed tables index every degree and order exactly once, symmetry lookups return the defining polynomial for all index signs, both implementations agree, and small-degree values equal the exact formula.",
  ["inputs"], "all rotation angles, all indices up to a bound", "an index slip affects few entries", ["harmonics/wigner_d_logspace.py", "harmonics/wigner_d_xnum.py"], [("index maps", "harmonics/wigner_d_logspace.py:lmn_wigner_d_half_pi_table")], ["return values"])
p("C28", "Crystal frames: metric, structure matrices and vector products agree",
  "For all seven crystal systems, lengths, dot products, angles, cross products and transformations computed in direct, reciprocal and Cartesian frames agree with each other, the reciprocal metric inverts the direct metric, volume is consistent and transforming there and back is the identity.",
  ["inputs", "configurations"], "all lattice parameters in a physical box for each crystal system; all vectors", "orthogonal cells hide transposition and sign errors", ["crystallography/unit_cell.py"], [("cell metrics", "crystallography/unit_cell.py:Cell")], ["return values"])
p("C29", "Symmetry operators and reflection families are complete",
  "Operator lists of a space group are closed and of the right order, the orbit of a position is exactly the set of its images, systematic absences are symmetric and the reflection list holds each allowed reflection inside the cutoff exactly once.",
  ["inputs", "configurations"], "space groups and index boxes within the bound", "tables are large", ["crystallography/groups.py", "crystallography/unit_cell.py", "crystallography/diffraction.py"], [("operators", "crystallography/unit_cell.py:Cell")], ["return values"])
p("C30", "Electron optics quantities are physical",
  "Wavelengths, refraction corrections, excitation errors and extinction quantities satisfy their defining relations for all voltages and geometries.",
  ["inputs"], "all voltages in range and all reciprocal vectors in a box", "tests do not cover", ["crystallography/diffraction.py"], [("diffraction", "crystallography/diffraction.py")], ["return values"])
p("C31", "Image tiling factors multiply to the size",
  "Factorising a size returns its prime factors in ascending order with the size as product. The two tiling factors are positive, multiply to the size and neither exceeds the other by more than the largest prime factor.", ["inputs"], "all sizes up to the bound", "primes and squares are special", ["utils/factorize.py"], [("factorisation", "utils/factorize.py:nearly_square_factors")], ["return values"])
p("C33", "Rotational cross-correlation equals the defining integral",
  "Correlating two band-limited functions at every grid rotation equals the inner product of one with the rotated other, and real and complex variants agree.", ["inputs"], "all coefficients up to a small bandwidth", "only peak location is tested", ["harmonics/sht_cc.py"], [("cross-correlation", "harmonics/sht_cc.py")], ["return values"])
p("C34", "Each Monte Carlo step keeps directions unit and energy falling",
  "For every random draw each electron keeps a unit direction, loses energy, is counted at most once and tallied in the bin of its exit energy and direction.", ["schedules", "inputs"], "all random draws of a bounded number of steps", "statistical tests average errors away", ["simulation/monte_carlo.py"], [("step", "simulation/monte_carlo.py")], ["returned tallies"])
p("C35", "Masks and resampling operate per pixel as defined",
  "Radial masks select exactly the pixels nearer than the radius (half of the shorter side when none is given) to a centre given in fractional coordinates. The Gaussian blur keeps the size of every image and gives each pixel the normalised Gaussian mean around it, mirrored at (or zero beyond) the border; blurred downsampling divides the size by the factor, keeps constants, is linear and treats rows, columns and directions alike.", ["inputs", "configurations"], "all images at small sizes", "even/odd sizes differ", ["preprocessing/radial_mask.py", "preprocessing/resampling.py", "preprocessing/bandpass.py"], [("mask", "preprocessing/radial_mask.py:get_radial_mask")], ["return values"])
p("C36", "Homographies compose and invert exactly",
  "Deformation parameters and homographies convert exactly, composition matches applying one after the other, and warping by the identity returns the image.", ["inputs"], "all parameters in a box", "second order terms vanish at tested values", ["ebsd/project_hrebsd.py"], [("homography", "ebsd/project_hrebsd.py")], ["return values"])
p("C37", "Orientation sampling stays inside the requested zone",
  "Uniform and cubochoric sampling return unit orientations inside the requested fundamental zone, a function of grid size only, with no duplicates.", ["inputs", "configurations"], "all random draws; small grid sizes", "boundary handling", [S + "sampling.py"], [("sampling", S + "sampling.py")], ["return values"])
p("C38", "Dictionary indexing returns the best dictionary entry for every pattern",
  "Every experimental pattern receives, best first and without repeats, the top_k dictionary orientations with the best similarity (largest dot product, smallest distance) over the whole dictionary, together with that similarity, and over several phases the phase and orientation of the best entry of all. "
  "The result does not depend on the chunk sizes, ragged or larger than the set, and is in the order of the patterns; masked pixels take no part, binning compares block means, the mean of the patterns is removed exactly when asked for, and the principal component variant ranks by the dot product on the requested number of leading components of the dictionary. "
  "Patterns are left as they are and indexing again replaces the results of an earlier run (average_pattern_center=False is not covered).",
  ["inputs", "configurations"], "all pattern intensities at small sizes, all chunk sizes, with and without mask, binning and mean, 1 to 3 matches, 1 to 4 components",
  "ragged and oversized chunks, masks and mean handling are combinations; the best entry changes with the intensities",
  ["ebsd/indexing.py", "ebsd/experiment_pats.py"], [("dictionary loop", "ebsd/indexing.py:dictionary_index_orientations"), ("compressed dictionary loop", "ebsd/indexing.py:pca_dictionary_index_orientations"), ("merging phases", "ebsd/experiment_pats.py:ExperimentPatterns.combine_indexing_results")], ["orientations, phases and metrics of the scan after indexing"])
p("C39", "Refinement never makes the result worse and writes back in place",
  "Orientation grid refinement evaluates the current orientation and its neighbours, keeps the best, and stores results for the pattern they belong to; geometry fitting returns the candidate with the lowest loss over all batches.", ["inputs", "histories"], "all similarity values", "batch offsets", ["ebsd/refining.py", "ebsd/fitting.py"], [("refinement", "ebsd/refining.py")], ["stored orientations"])
open("properties.jsonl", "w").write("".join(json.dumps(x) + "\n" for x in P))
print(len(P))
