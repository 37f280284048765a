S = 'src/shell.cc'; RB = 'src/rib.cc'; SH = 'src/shape.cc'
R_ = 'Assumes exact real arithmetic; bounds per entry in the evidence. '

prop('C01', 'Per-rib answers of a shell are complete, defined and in bounds',
  'A shell with any number of ribs answers every per-rib query with exactly one defined value per rib, both for single ribs and as lists, after every contact computation. This holds for any sequence of constructing, resizing and contact computations, and no query ever reads or writes outside the memory of the shell. Before the first contact computation the contact quantities are NaN.',
  ['inputs', 'histories'], 'every number of ribs (sampled sizes up to 24), every sequence construct / resize / compute of the stated length, both grounds and both methods, every height of the shell over the ground',
  'The tests use one shell of ten ribs built once; they do not resize, do not query before computing and check no value.',
  [S, 'src/enve/shell.hxx', RB], [('shell::resize', S), ('shell::setup', S), ('shell::contact* accessors', S)],
  R_ + 'Memory accesses of every path are checked against object bounds and initialisation.', [('m_out', 'per-rib contact outputs', 'src/enve/shell.hxx'), ('m_ribs', 'ribs', 'src/enve/shell.hxx')])
prop('C02', 'Whole-shell contact quantities are the right totals and averages of the ribs',
  'The total contact area and volume of a shell are the sums over its ribs. Its contact point, normal, friction and depth are averages weighted by the rib contact volume (the normal then made a unit vector), and the plain averages when no rib has contact volume. Every averaged quantity therefore lies between the smallest and the largest rib value.',
  ['inputs'], 'every assignment of contact point, normal, friction, depth, area and volume to up to six ribs, to 24 ribs for the sums and 18 for the averages',
  'No test compares an aggregated value with anything; a wrong weight or a swapped quantity prints a different number and still passes.',
  [S], [('shell::contactPoint/Normal/Friction/Depth/Area/Volume', S)], R_ + 'Per-rib outputs are unconstrained symbolic values.')
prop('C03', 'The ribs tile the shell width and follow its profile',
  'For every shape and every number of ribs, the ribs have equal width, lie side by side on the axle in increasing order, are centred in their strips and together cover the full width exactly. Each rib has the radius and the side slope angle of the shape at its centre, so ribs mirrored about the middle have equal radius and opposite angle. Resizing gives the same layout as constructing with that number.',
  ['inputs', 'histories', 'configurations'], 'every shape of degree (2,2), or (1..3,1..4) for symmetry, and every number of ribs up to 8 (24 after resizing)',
  'Tests print the ribs of one shape; nothing relates rib geometry to the shape.',
  [S, SH, RB], [('shell::resize', S), ('rib constructor', RB)], R_)
prop('C04', 'The shape profile is the stated superellipse on exactly its width',
  'The radius of a shape at a lateral position satisfies the superellipse equation of its semi-axes and degrees: it is symmetric, greatest in the middle, positive and non-increasing outwards. The reported slope is the derivative of the radius and the reported angle is the arctangent of the slope. Positions outside the half width, and only those, are refused.',
  ['inputs', 'configurations'], 'every pair of semi-axes, half width, lateral position; integer degrees 1..4 x 1..6 exactly and arbitrary real degrees in [1,20] for sign, symmetry, bound and monotonicity',
  'No test evaluates a shape against its equation, at the edges of its width or with unusual degrees.',
  [SH, 'src/enve/shape.hxx'], [('shape::surfaceRadius', SH), ('shape::surfaceDerivative', SH), ('shape::surfaceAngle', SH), ('shape::checkWidthBound', SH)], R_ + 'pow with real exponent is an uninterpreted monotone function with its defining axioms.')
prop('C05', 'Geometric contact of a rib with a flat ground is the exact disk-plane section',
  'A rib reports geometric contact with a flat ground exactly when the ground plane cuts its disk. The contact point is then the middle of the cut, in both planes; the normal and friction are those of the ground, the depth is the radius minus the distance of the cut from the centre, and area and volume are those of the cut strip and circular segment. The answer does not depend on which point or which scaling describes the plane, and depth and area never decrease as the rib is lowered.',
  ['inputs'], 'every rib radius, width, lateral position and pose, every ground plane and friction within the stated boxes',
  'The tests use one pose and one ground and check no output.',
  [RB, 'src/flat.cc', 'toolbox/src/intersection.cc'], [('rib::envelopGeometric (flat)', RB), ('acme::Intersection(plane, disk)', 'toolbox/src/intersection.cc')], R_ + 'A distance slack covers grazing within the tolerance of the code.')
prop('C06', 'Sampled contact of a rib finds the highest ground under all sampling lines',
  'A rib in sampling mode reports contact exactly when all its vertical sampling lines meet the ground and the tilted disk reaches below it. On a flat ground, or on triangles that cover the rib, the contact point is on the ground vertically under the rib centre, the normal is the upward ground normal, and depth, area and volume follow from that vertical distance and the tilted radius; overlapping triangles count by the highest. Where a sampling line leaves the mesh, or there is no ground, there is no contact.',
  ['inputs'], 'every rib, pose with the rib vertical above the horizon, ground plane or triangle (up to three overlapping layers) within the stated boxes',
  'Tests sample one pose per road and check no output; layer order and mesh edges are never exercised on purpose.',
  [RB, 'src/triangleground.cc', 'src/flat.cc', 'toolbox/src/intersection.cc'], [('rib::envelopSampling', RB), ('rib::samplingFlat / sampling on triangles', RB)], R_)
prop('C07', 'Geometric contact with a mesh is the volume-weighted sum of its sections',
  'In geometric mode a rib is in contact with a mesh exactly when some triangle cuts its disk and encloses some of it. For one triangle the contact point lies on the cut and on the bisector of its central angle, the normal points from there to the axle, area and volume are those of the cut and of the circular section it encloses, and a covering triangle gives the same contact as the flat ground in its plane, in every direction around the axle. Over several triangles areas and volumes add up and point and friction are volume weighted averages, whatever the order of the triangles; triangles that miss or only graze the disk change nothing, and no answer is ever undefined.',
  ['inputs'], 'every rib radius and width, every cut of the disk (chord with both ends, one end or no end inside) at every angle, up to two horizontal layers plus one grazing or missing triangle, within the stated boxes',
  'The tests compute contact on two roads and check no value; cuts that cross the rear of the wheel, grazing triangles and triangle order never occur on purpose.',
  [RB, 'src/triangleground.cc', 'toolbox/src/intersection.cc'], [('rib::envelopGeometric (triangles)', RB), ('acme::Intersection(triangle, disk)', 'toolbox/src/intersection.cc')], R_ + 'Cuts closer than about 1e-3 to grazing are outside the bounds; the rib plane is fixed; poses are covered by C05, C06 and C08.')

ME = 'src/mesh.cc'; TG = 'src/triangleground.cc'; FL = 'src/flat.cc'; IN = 'toolbox/src/intersection.cc'; TR = 'toolbox/src/AABBtree.cc'; BB = 'toolbox/src/aabb.cc'
prop('C08', 'A contact computation depends only on its own inputs',
  'The contact outputs of a shell depend only on its shape, number of ribs, pose, ground and method: whatever was computed before with the same shell object, it answers as a freshly built one. Every rib answers as a single rib of that radius, width and place would. A rib that does not touch the ground reports the point at its bottom, the vertical of the shell, and zero friction, depth, area and volume, and the computation returns true exactly when at least one rib touches the ground.',
  ['histories', 'inputs'], 'every pair of consecutive computations over flat ground, a mesh, or a mesh out of reach, with either method, every height and friction of the second, 1 to 3 ribs; a mesh left, replaced, emptied, exchanged for one with some facets moved, or ribs added between two computations',
  'The tests run one computation per shell, or print results along a path without comparing them with anything.',
  [S, RB, ME], [('shell::setup', S), ('rib::envelop', RB), ('shell::refineIntersection', S)], R_, [('m_candidates', 'triangles per rib of the last computation', 'src/enve/shell.hxx'), ('m_out', 'per-rib outputs', 'src/enve/shell.hxx')])
prop('C09', 'Restricting the ground to nearby triangles never changes the contact',
  'The contact of a shell with a mesh equals, rib by rib, the contact computed with every triangle of the mesh that lies within reach of the shell. The bounding box of the shell encloses all its ribs whatever its position and orientation and however wide it is, and neither the selection by boxes nor the selection per rib may lose, repeat or confuse triangles, whatever their order and their identifiers.',
  ['inputs', 'configurations'], 'every lateral, forward and vertical position of upright shells and every forward position of leaning wide ones over 3 to 5 flat facets of different place, height and order; every orientation for the box',
  'Tests cannot tell a lost triangle from a rib that is not in contact.',
  [S, ME, TR, BB], [('shell::updateBBox', S), ('shell::refineIntersection', S), ('mesh::intersection', ME), ('AABBtree::intersection', TR)], R_ + 'Facets are horizontal; the rib planes and disks keep about a millimetre away from facet edges, where tolerances decide.')
prop('C10', 'The box tree answers exactly like brute force over the boxes',
  'Intersecting two trees of axis aligned boxes finds every pair of boxes that share a point exactly once, in the order first tree, second tree, and no other pair; querying the tree for the closest object returns exactly the boxes that may contain it. The merged box of several boxes is the smallest one enclosing them, two boxes intersect exactly when they share a point, and the distances of a point from a box and from its farthest corner are the true ones, also for boxes without thickness and coincident boxes. A box given by any two corners lies between them, holds exactly the points between them, and shares with another box exactly what both hold.',
  ['inputs', 'configurations'], 'every placement along one axis of up to 3 x 2 boxes including touching, nested, coincident and flat ones; every query interval against 5 to 6 boxes in four arrangements; trees moved over each other, built twice or over fewer boxes; every pair of boxes; every point and box for the distances',
  'No test looks at the tree; a lost pair only makes a contact vanish.',
  [TR, BB], [('AABBtree::build/intersection/selectMinimumDistance', TR), ('aabb::intersects/merged/centerDistance/exteriorDistance', BB)], R_)
prop('C11', 'Contact frames are rigid frames on the ground and angles rebuild rotations',
  'The contact frame of a rib, and of the whole shell, is a right handed orthonormal frame at the contact point whose third axis is the contact normal and whose first axis is orthogonal to the axle, the second axis being on the side of the axle. The Euler angles of the shell rebuild its rotation in the documented order Z, X, Y, and the relative angles rebuild the rotation from the contact frame to the shell (for a single rib after adding its side angle to the first one). The lists hold one entry per rib, equal to the single answers.',
  ['inputs', 'configurations'], 'every heading and lean up to 60 degrees over four ground directions, every ground direction up to 60 degrees in two axes for the level shell, every rotation for the angles, up to 3 ribs',
  'Tests print frames of a few poses; orthonormality and the angle convention are never evaluated.',
  [S], [('shell::contactPointAffine', S), ('shell::relativeAngles', S), ('shell::eulerAngles', S)], R_)
prop('C12', 'Ground facets and planes face upward and keep what they were given',
  'A ground triangle has a unit normal orthogonal to it that points upward whatever the order of its vertices, the smallest box around its vertices, carrying its identifier, and the vertices, friction and identifier it was built with. A flat ground has the unit normal along the given direction, passes through the given point and keeps its friction. All ways of building them agree.',
  ['inputs'], 'every triangle with vertices in a box of 20 m that is neither degenerate nor vertical, every plane with upward normal, all constructors',
  'The tests build a few grounds and never look at them.',
  [TG, FL, 'toolbox/src/triangle.cc', 'toolbox/src/plane.cc', BB], [('triangleground::updateNormal/updateBBox', TG), ('flat constructors', FL)], R_)
prop('C13', 'Invalid input is refused, valid input never is',
  'Negative friction, a flat ground whose normal does not point upward, a shell without ribs and an unknown contact method are refused with an exception by every constructor and every contact computation that takes them; the two documented methods and every non-negative friction are accepted.',
  ['inputs', 'configurations'], 'every friction and normal component in [-2,2] for all nine constructors, nine method names near the valid ones for ribs and shells on both grounds',
  'No test passes invalid input.',
  [RB, S, TG, FL], [('ENVE_ASSERT in the constructors', TG), ('flat constructors', FL), ('rib::envelop', RB), ('shell::resize', S)], R_)
prop('C14', 'Copies and emptied meshes behave like freshly built ones',
  'A copied shape, rib, ground triangle, flat ground or mesh answers every query and contact computation exactly as the original, whatever it held before, and compares equal to it. A mesh without triangles, default constructed, cleared, or copied from an empty one, is a ground that nothing touches; no query on it reads outside memory.',
  ['inputs', 'histories'], 'every value of the copied parameters, meshes of 1 to 3 facets copied over 0 to 3, every forward position of a shell over them',
  'No test copies or clears anything.',
  [ME, TG, FL, RB, SH, TR], [('mesh::copy/clear', ME), ('triangleground::copy', TG), ('rib::copy', RB), ('shape::copy', SH), ('flat::copy', FL)], R_)
SF = 'sfun/src_sfun/enve_sfun_interface.cc'
prop('C15', 'A mesh file gives exactly the facets it describes or is refused',
  'Loading an RDF or OBJ file gives one facet per element line, in file order and numbered from 0, whose vertices are the named nodes (counted from 0 in RDF, from 1 in OBJ) moved by the given pose and whose friction is that of the element (RDF) or the given one (OBJ). Comment lines, blank lines, indentation, repeated spaces, carriage returns and a missing final newline make no difference. A file that is missing, of another extension, without facets, with a wrong number of fields, with text that is no number, with negative friction, or naming a node it has not listed is refused. A loaded file replaces what the mesh held, and all its facets can be found.',
  ['inputs', 'configurations'], 'every coordinate, friction and translation, three rotations, every node index in [-3, 8], twelve layouts of the text (one with lines before the first section), up to 5 nodes and 4 elements, twelve kinds of malformed file',
  'The tests load a few well formed roads and check nothing.',
  [ME], [('mesh::load (rdf)', ME), ('mesh::load (obj)', ME), ('mesh::split/tail/firstToken', ME)], R_ + 'The file is a text in memory: std::ifstream is replaced by a stand-in in the symbolic build, the native replay reads real files. Tabs inside lines are outside the claim.')
prop('C16', 'The Simulink interface reports exactly what the shell answers',
  'The output bus of the S-function holds the contact frames (column by column, as the input pose), depths and frictions that a shell of the given parameters computes on the mesh file named by the environment, for the shell and for each of its ribs; slots without a rib are not a number. When the shell is off the mesh, or on request, the same outputs come from a level plane of the given height and friction, and the flag tells whether the mesh (or the requested plane) was used. Nothing of an earlier call is left in a later one. An unset or unreadable mesh file and any method or selector other than 0 and 1 are refused.',
  ['inputs', 'histories', 'configurations'], 'every height and friction of the plane, every height of the shell, three orientations, each shape parameter arbitrary in turn, 1 to 3 and 20 ribs, sequences of two calls, both file kinds',
  'The one S-function test runs a single step and checks no output.',
  [SF, 'sfun/include_sfun/enve_sfun_types.h', S], [('enve_sfun_init', SF), ('enve_sfun_out', SF)], R_, [('MeshPtr/FlatPtr/ShellPtr', 'objects kept between calls', SF)])
AC = 'toolbox/src/'
PR = 'toolbox/src/parallel.cc'; OR = 'toolbox/src/orthogonal.cc'; CL = 'toolbox/src/collinear.cc'; CP = 'toolbox/src/coplanar.cc'; CO = 'toolbox/src/collection.cc'
prop('C17', 'A line, ray or segment meets a plane or triangle exactly where it crosses it',
  'Intersecting a line, ray or segment with a plane or a triangle yields a point exactly when the piece reaches the plane inside the triangle, including its edges and vertices and the ends of the piece, and then the point is the crossing, whatever the lengths of directions and normals. A piece parallel to the plane, in it or beside it, has no single crossing.',
  ['inputs'], 'every piece, plane and triangle with offsets up to 10, directions up to 3 per component, normals of length 0.1 to 10, three orientations',
  'Tests never intersect anything but the ground and a tyre.',
  [IN], [('acme::Intersection(line/ray/segment, plane/triangle)', IN)], R_ + 'Crossings within 1e-3 outside an edge or end, where tolerances decide, are outside the bounds.')
prop('C18', 'Chords of disks and balls have their ends on the rim',
  'A line, ray or segment in the plane of a disk, or anywhere near a ball, meets it exactly when it passes close enough and reaches it, and the result is the chord, cut at the ends of the ray or segment, whatever the length of its direction. Crossing the plane of a disk elsewhere gives the crossing when within the radius. A plane cuts a ball in the disk around the nearest point, and a disk in the chord from rim to rim, when near enough and not otherwise.',
  ['inputs'], 'every radius in [0.1, 5], every chord by its angle and distance, piece of length 0.1 to 4, normals of length 0.1 to 10, two or three orientations',
  'Tests never look at a chord; contact area and point are computed from them.',
  [IN], [('acme::Intersection(line/ray/segment, disk/ball)', IN), ('acme::Intersection(plane, disk)', IN), ('acme::Intersection(plane, ball)', IN)], R_ + 'Nearly tangent pieces, within tolerance of grazing, are outside the bounds.')
prop('C19', 'Straight pieces in one plane share their crossing or their common part',
  'Two coplanar lines, rays or segments that are not parallel share a point exactly when both reach the crossing of their lines, and it is that point. Two collinear ones share exactly the points both cover, as a line, ray or segment, the ray starting where the common part starts and pointing along it. Two parallel pieces apart from each other share nothing.',
  ['inputs'], 'every pair of kinds, every crossing by angle, lengths 0.1 to 4 and position, every pair of intervals on a line in either direction',
  'Tests never intersect two straight pieces on purpose.',
  [IN], [('acme::Intersection(line/ray/segment, line/ray/segment)', IN)], R_ + 'Ends closer than 1e-3 to each other or to the crossing, on the outer side, are outside the bounds.')
prop('C20', 'Flat pieces share the overlap of their cuts of one line, or what one plane holds',
  'Two planes that are not parallel share the line lying in both, three independent ones share their point, parallel ones coincide or share nothing. A plane cuts a triangle exactly when its vertices are on both sides, from edge to edge. Two triangles, a triangle and a disk, or two disks in different planes share exactly the overlap of what each cuts out of the common line of their planes. Two triangles in one plane meet exactly when they have a point in common, also when only their edges cross.',
  ['inputs'], 'every pair of planes by angle, position and length of the normals up to 5; every triangle by its cut of the line, every disk by its chord, placed freely along it; six pairs of coplanar triangles at every offset up to 6',
  'The contact of a rib with a facet is such a cut; tests compute contacts but check no value.',
  [IN], [('acme::Intersection(plane, plane[, plane])', IN), ('acme::Intersection(plane, triangle)', IN), ('acme::Intersection(triangle/disk, triangle/disk)', IN)], R_ + 'Planes closer than about 6 degrees to parallel, and cuts whose ends come closer than 1e-3, and offsets that bring coplanar triangles to touching, are outside the bounds.')
prop('C21', 'Points are on a piece exactly when they are',
  'A point is inside a line, ray, segment, plane, triangle, disk or ball exactly when it belongs to it, edges and ends included, and then intersecting it with the piece gives the point itself, otherwise nothing. Signed, plain and squared distances from a plane are the geometric ones whatever the length of the normal, and barycentric coordinates are those of the projection. Two points meet exactly when they are equal.',
  ['inputs'], 'every piece of size 0.2 to 4 with every point within a few sizes of it, in and off its line or plane, three orientations',
  'Tests never ask for membership.',
  [IN, AC + 'plane.cc', AC + 'triangle.cc', AC + 'disk.cc', AC + 'ball.cc', AC + 'line.cc', AC + 'ray.cc', AC + 'segment.cc'], [('isInside', AC + 'triangle.cc'), ('plane::signedDistance', AC + 'plane.cc'), ('acme::Intersection(point, *)', IN)], R_ + 'Points within 1e-3 outside a border or 0.05 off the plane are outside the bounds.')
prop('C22', 'Lengths, areas, volumes, normals, boxes and degeneracy are the true ones',
  'Segments, triangles, disks and balls report their true length, perimeter, area, volume, centre, normal, edges and plane; bounded pieces report the smallest box around their vertices, round ones a box that holds their rim and is no larger than that of the ball. A piece is degenerated exactly when it lost its dimension: no length, no area (also with three distinct vertices on one line), no radius or no direction.',
  ['inputs'], 'every vertex within a box of 10, every radius up to 5, triangles of size 0.2 to 3 in every vertex order and both orientations',
  'Tests never read a measure.',
  [AC + 'segment.cc', AC + 'triangle.cc', AC + 'disk.cc', AC + 'ball.cc', AC + 'plane.cc'], [('triangle::area/perimeter/normal/isDegenerated', AC + 'triangle.cc'), ('disk::area/perimeter/clamp', AC + 'disk.cc'), ('ball::volume/clamp', AC + 'ball.cc')], R_ + 'pi is the double constant; the volume of a ball is compared within 1e-9.')
prop('C23', 'Moving a piece or a collection moves its points and turns its directions',
  'Translating, rotating about an axis or transforming by a rigid transformation any entity, alone or in a collection, moves its points by the motion, turns its directions and normals without moving them, and keeps its kind and radius. Reversing turns the direction round and keeps the place; normalising keeps the direction and makes it of unit length.',
  ['inputs'], 'every position, direction, angle, translation and rotation matrix; the three axes and one skew axis; all nine kinds of entity',
  'Tests move nothing but the tyre pose.',
  [AC + a for a in ('point.cc', 'line.cc', 'ray.cc', 'plane.cc', 'segment.cc', 'triangle.cc', 'disk.cc', 'ball.cc', 'collection.cc')], [('translate/rotate/transform', AC + 'line.cc'), ('collection::rotate', CO)], R_)
prop('C24', 'Parallel, orthogonal, collinear, coplanar mean the same for all kinds and orders',
  'Lines, rays, segments, planes, triangles and disks are parallel, orthogonal, collinear or coplanar exactly when they geometrically are, whichever kind they are, whichever is given first, whichever way their directions point and however long these are; vectors are parallel or orthogonal to pieces likewise.',
  ['inputs', 'configurations'], 'every pair of kinds in both orders, lengths 0.2 to 3, parallel, orthogonal and every direction at least about 6 degrees away from both, in and off a common plane',
  'Tests never ask for a relation, although every entity intersection is chosen by them.',
  [PR, OR, CL, CP], [('acme::IsParallel', PR), ('acme::IsOrthogonal', OR), ('acme::IsCollinear', CL), ('acme::IsCoplanar', CP)], R_ + 'Angles between 0 and about 6 degrees, where tolerances decide, are outside the bounds.')
prop('C25', 'Intersecting two entities gives what their types share, in either order',
  'The intersection of two entities of unknown kind is what the function for their kinds and their relative position (collinear, coplanar or general) yields, as a new entity of the right kind, and none when they share nothing; the order of the two does not matter. Skew pieces share nothing. Exactly the pairs that are not supported are refused with an exception.',
  ['inputs', 'configurations'], 'all pairs of point, line, ray, segment, plane, triangle, disk and ball, collinear, coplanar and crossing, at every distance within 3, in both orders',
  'Tests never intersect entities of unknown kind.',
  [IN], [('acme::Intersection(entity, entity)', IN)], R_ + 'The functions for known kinds are the oracle here; C17 to C21 decide them. Triangles in one plane, whose common part is of no one kind, are not claimed.')
prop('C26', 'A collection answers for its entities: sorts, counts, removal, boxes, candidates',
  'For each sort of entity (kind, bounded or unbounded, degenerated) a collection contains it when one of its entities is of the sort, consists of it when each is, counts it exactly, and removing it keeps all others in order. Each bounded entity has its own box and unbounded ones are refused. The candidates for the intersection with another collection, a tree or boxes are exactly the pairs, or entities, whose boxes touch, once each, after every rebuild of the tree. The pairwise intersections of a collection are those of each entity with itself and the later ones, in order.',
  ['inputs', 'configurations', 'histories'], 'up to 4 entities of all nine kinds in four arrangements, any size against two tolerances, two collections of up to 2 placed freely along an axis, three kinds of changes before a rebuild',
  'Tests use no collection.',
  [CO, TR, BB], [('collection::contain/are/is/remove/count', CO), ('collection::clamp/buildAABBtree/intersection', CO)], R_, [('m_entities', 'entities', 'toolbox/src/acme/collection.hxx'), ('m_AABBtree', 'box tree', 'toolbox/src/acme/collection.hxx')])
prop('C27', 'A shell keeps its pose and has the surface of its shape',
  'A shell that is moved or turned does so along and about its own axes, one that is placed takes exactly that pose: after any sequence of such steps it reports the composed position, orientation, transformation and axes. Resizing never moves it, and a contact computation leaves it at the pose it was given, whether or not there is contact. Its radius, slope, angle, width and width check are those of its shape, and the transformation check tells rigid transformations from scaled or mirrored ones.',
  ['inputs', 'histories'], 'every translation and angle, every sequence of three steps out of move, turn about an axis, place, compute and resize; every semi-axis, width and lateral position for five pairs of degrees; every scale in [-3,3]',
  'Tests place a shell once and never ask where it is.',
  [S, SH], [('shell::translate/rotate/transform', S), ('shell::x/y/z', S), ('shell::surface*', S), ('shell::checkTransformation', S)], R_, [('m_affine', 'pose', 'src/enve/shell.hxx')])
prop('C28', 'Comparing two objects heeds every datum and the given tolerance',
  'Two lines, rays, planes, segments, triangles, disks, balls, boxes, shapes, ribs, flat grounds or ground triangles, and two numbers, compare as equal when all that defines them agrees well within the tolerance given (or the default one), and as different when any one of these data differs by clearly more, whichever of the two is asked.',
  ['inputs', 'configurations'], 'every object with data of size about one, every single datum (each coordinate, radius, width, degree, friction, number) off by 4 to 12 tolerances either way, or all data off by a fraction of it, four tolerances',
  'Tests compare nothing.',
  [FL, TG, SH, RB, AC + 'line.cc', AC + 'ray.cc', AC + 'plane.cc', AC + 'segment.cc', AC + 'triangle.cc', AC + 'disk.cc', AC + 'ball.cc', BB, AC + 'math.cc'], [('isApprox', FL), ('isApprox', TG), ('isApprox', SH), ('isApprox', RB), ('acme::IsApprox', AC + 'math.cc')], R_ + 'Differences between half and four times the tolerance are outside the bounds (vectors are compared relatively, numbers absolutely).')
prop('C29', 'However a piece is built, read, written or copied, it is the same piece',
  'Every way of building a line, ray, plane, segment, triangle, disk, ball or box (numbers, points, lists of points, a plane) gives the same piece, every way of reading it gives what it was built with, a copied, assigned or moved piece has the same data, and writing one datum changes that datum only. Pieces built from nothing are undefined (not a number) until they are given data, names and ranks tell the kinds, and a triangle refuses to name vertices or edges other than 0, 1 and 2.',
  ['inputs', 'configurations'], 'every coordinate, direction and radius up to 10, every index from -6 to 6, every constructor, accessor and writer',
  'Tests build few pieces, always the same way, and never read them back.',
  [AC + a for a in ('line.cc', 'ray.cc', 'plane.cc', 'segment.cc', 'triangle.cc', 'disk.cc', 'ball.cc', 'aabb.cc')], [('constructors and accessors', AC + 'triangle.cc'), ('constructors and accessors', AC + 'disk.cc'), ('aabb::min/max', BB)], R_)
