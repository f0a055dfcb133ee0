"""the properties; 'na' set means not claimed"""
INC = 'include/reactphysics3d/'
REAL = 'Real arithmetic in place of floating point. '
def p(id, title, statement, over, qtext, why, files, mech, note='', na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note, na=na))
P = []
p('M01', 'Quaternions, matrices, vectors and transforms follow rigid-motion algebra',
  'Rotating by a unit quaternion, by its matrix and by the mathematical rotation give the same vector; products compose right to left, inverses undo, conversion from a rotation matrix, Euler angles or a 4x4 matrix gives the same rotation, and interpolation runs from the first pose to the second. Matrix and vector operations (product, inverse, transpose, determinant, cross and dot product, unit and orthogonal vectors) equal their mathematical definition.',
  ['inputs'], 'every vector, unit quaternion, rotation, regular matrix and rigid transform',
  'Tests check a few fixed vectors and angles; the branches of the matrix conversion and the algebraic identities range over all inputs.',
  ['src/mathematics/Quaternion.cpp', INC + 'mathematics/Quaternion.h', INC + 'mathematics/Transform.h', 'src/mathematics/Transform.cpp', INC + 'mathematics/Matrix3x3.h', INC + 'mathematics/Matrix2x2.h', INC + 'mathematics/Vector3.h'],
  [('quaternion product and rotation', 'mathematics/Quaternion.h'), ('conversion from a matrix by the largest diagonal element', 'mathematics/Quaternion.cpp')],
  REAL + 'sin, cos and acos are uninterpreted with their basic identities.')
p('C01', 'The dynamic array is a sequence that owns its memory and elements exactly once',
  'Every operation of the array (add, insert a range, remove, replace by last, find, reserve, clear, copy, assign, compare) has the effect of the same operation on a finite sequence and leaves all other elements as they were. Memory accesses stay inside the current buffer, a replaced buffer is released once with its size, and every element is constructed and destroyed exactly once.',
  ['inputs', 'histories'], 'every array content, size, capacity and argument',
  'Tests use arrays of a few items; capacity boundaries, element lifetimes and large sizes range over all states.',
  [INC + 'containers/Array.h'], [('growth by doubling', 'Array::add/reserve'), ('compaction by memmove', 'Array::removeAt')],
  'All sizes below 2^40; element construction and destruction tracked by ghost state.')
p('C02', 'The double-ended queue and the stack keep their order and own elements once',
  'Adding and removing at either end of the queue, indexing, iteration, comparison, copy, assignment and clearing behave as on a finite sequence, and the stack returns items in reverse order of pushing, for every state of the ring of storage, including across growth. Memory accesses stay inside the buffer and every element is constructed and destroyed exactly once.',
  ['inputs', 'histories'], 'every content, size, capacity and position of the first element',
  'Tests use short fixed sequences; the position of the first element inside the buffer and the growth points range over all histories.',
  [INC + 'containers/Deque.h', INC + 'containers/Stack.h'], [('centred growth', 'Deque::reserve'), ('growth by doubling', 'Stack::allocate')],
  'All sizes below 2^40; element construction and destruction tracked by ghost state.')
p('M02', 'Geometric and number helpers equal their definition',
  'The closest point of a segment to a point and the closest pair of points of two segments (including degenerate and parallel ones) are optimal and lie on the segments; barycentric coordinates, plane intersections, projections and distances satisfy their defining equations; clamping, minimum and maximum are exact; power-of-two helpers and the pair numbering used as hash keys are exact and injective.',
  ['inputs'], 'every point, segment, plane and number, including degenerate segments',
  'The region case analysis (clamping of two parameters, parallel segments) has many branches that fixed samples do not reach.',
  [INC + 'mathematics/mathematics_functions.h', INC + 'mathematics/Vector3.h', 'src/mathematics/Vector3.cpp'],
  [('clamped closest points of two segments', 'computeClosestPointBetweenTwoSegments'), ('Szudzik pairing', 'pairNumbers')],
  REAL + 'Integer helpers are proved over bit vectors.')
p('B01', 'Axis-aligned boxes behave as sets of points',
  'Two boxes are reported as overlapping exactly when they have a common point; containment, union, inflation and scaling by positive factors are those of the point sets; the box of a triangle is the smallest one around it; the slab test and the ray cast report a hit exactly when some point of the ray in range lies in the box, and the ray cast returns the first such point.',
  ['inputs'], 'every box, point, triangle and ray without zero direction components in the slab test',
  'The branch combinations of three axes and two signs are far more than tests sample; every broad-phase decision rests on them.',
  [INC + 'collision/shapes/AABB.h', 'src/collision/shapes/AABB.cpp'], [('slab test', 'AABB::testRayIntersect, AABB::raycast'), ('union', 'AABB::mergeTwoAABBs')],
  REAL + 'The slab test is covered for directions without zero components (it uses IEEE infinities otherwise).')
p('A01', 'The pool allocator hands out disjoint aligned units and recycles them',
  'A small request is served by a 16-byte aligned unit at least as large as requested that is not in use: the first free unit of the heap of its size, or the first unit of a fresh block whose remaining units become free, each exactly once. A released unit becomes available again in the same heap; large requests go to the base allocator and back; all blocks and the table of blocks are released once with their size.',
  ['inputs', 'histories'], 'every request size, free list, number of blocks and table capacity',
  'Overlap, loss or double use of units shows only for particular size classes, block counts (table growth) and release orders.',
  [INC + 'memory/PoolAllocator.h', 'src/memory/PoolAllocator.cpp'], [('size to heap table', 'PoolAllocator::PoolAllocator'), ('chaining of a new block', 'PoolAllocator::allocate')],
  'All 128 size classes enumerated; the free list beyond the first unit is arbitrary.')
p('A02', 'The single-frame allocator gives disjoint pieces of its buffer',
  'Every allocation is 16-byte aligned and lies in a part of the buffer that no earlier allocation of the frame uses, or comes from the base allocator when the buffer is too small, in which case the buffer grows at the next reset. Releasing passes exactly the memory of the base allocator back to it with its size, and the buffer itself is released once with its size.',
  ['inputs', 'histories'], 'every buffer size, used amount, request size and address',
  'The boundary between the buffer and the fall-back path and the alignment padding depend on sizes and addresses tests do not control.',
  [INC + 'memory/SingleFrameAllocator.h', 'src/memory/SingleFrameAllocator.cpp', 'src/memory/MemoryAllocator.cpp'], [('bump allocation', 'SingleFrameAllocator::allocate'), ('range test', 'SingleFrameAllocator::release')],
  'Request sizes below 2^40.')
p('Z01', 'Collision shapes agree with the solid they stand for',
  'For spheres, boxes, capsules, triangles and scaled convex meshes: the support point is a point of the solid that is furthest in the direction asked for; the local bounds contain the solid and are tight; the point test is true exactly for the points of the solid; the volume and the principal moments of inertia are those of the solid; the face normals are outward unit normals and the vertices, edges and faces fit together.',
  ['inputs'], 'every shape size, margin, scale, mesh, direction and point',
  'Tests ask for a few points of a few sizes; the extreme point and tight bounds range over all directions, sizes and meshes, and every narrow-phase result rests on them.',
  ['src/collision/shapes/SphereShape.cpp', 'src/collision/shapes/BoxShape.cpp', 'src/collision/shapes/CapsuleShape.cpp', 'src/collision/shapes/ConvexMeshShape.cpp', 'src/collision/shapes/TriangleShape.cpp', INC + 'collision/shapes/BoxShape.h', INC + 'collision/shapes/CapsuleShape.h', INC + 'collision/shapes/SphereShape.h', INC + 'collision/shapes/TriangleShape.h', INC + 'collision/shapes/ConvexMeshShape.h'],
  [('support mapping', 'getLocalSupportPointWithoutMargin'), ('point test', 'testPointInside'), ('scaled mesh', 'ConvexMeshShape')],
  REAL + 'A convex mesh is any set of vertices and any set of planes.')
p('R01', 'Ray casts against a shape return the first point of the shape on the ray',
  'A ray cast against a sphere, a box, a capsule, a triangle or a scaled convex mesh reports a hit only at a point of the surface inside the range of the ray, with the fraction belonging to the point and the outward normal there; it reports the first such point (sphere, box, triangle, convex mesh), and no hit only if the ray does not enter the solid in its range. A triangle honours the side it is tested on.',
  ['inputs'], 'every ray, shape size, scale and mesh; rays shorter than the numeric tolerance excluded',
  'Hits next to the edges, rays starting inside, ranges ending before the surface, rays parallel to a face or axis: the case analysis is far larger than the samples of the tests.',
  ['src/collision/shapes/SphereShape.cpp', 'src/collision/shapes/BoxShape.cpp', 'src/collision/shapes/CapsuleShape.cpp', 'src/collision/shapes/ConvexMeshShape.cpp', 'src/collision/shapes/TriangleShape.cpp'],
  [('slab method', 'BoxShape::raycast'), ('end caps', 'CapsuleShape::raycastWithSphereEndCap'), ('clipping by face planes', 'ConvexMeshShape::raycast')],
  REAL + 'Capsule: hits are proved correct; that the first of several hits is returned is not proved.')
p('G01', 'A step moves every awake body by its forces, gravity, damping and velocity',
  'In a step every enabled body, at whatever index, gains velocity from its accumulated force and torque, its world inertia, its locked axes and gravity if enabled, is damped by its own factors, moves its centre of mass and turns by the solved velocity plus the position correction velocity, and takes the solved state over; its colliders follow with their local transform. Disabled bodies and colliders keep their state. Applied forces are cleared for all bodies after the step.',
  ['inputs', 'histories'], 'every number and order of bodies and colliders, every state and time step',
  'Tests step a few bodies and look at the outcome loosely; a mixed-up index, a missing factor or an update of a sleeping body shows only for particular states.',
  ['src/systems/DynamicsSystem.cpp', INC + 'systems/DynamicsSystem.h', INC + 'components/RigidBodyComponents.h', INC + 'components/TransformComponents.h', INC + 'components/ColliderComponents.h'],
  [('velocity integration', 'DynamicsSystem::integrateRigidBodiesVelocities'), ('position integration', 'DynamicsSystem::integrateRigidBodiesPositions'), ('take-over of the state', 'DynamicsSystem::updateBodiesState')],
  REAL + 'The map from entities to indices is a function inverse to the array of entities.')
p('K01', 'Calls on a rigid body have the documented effect and no other',
  'Forces and torques given in local or world space at any point add exactly the force and its moment about the centre of mass to a dynamic body, wake it and do nothing to other bodies; setting velocity, mass, inertia, centre of mass, damping, locked axes, gravity, pose, type, activity or sleep changes exactly the quantities that depend on it (inverse mass and inertia, centre of mass in the world, its velocity), also when waking the body moves its data.',
  ['inputs', 'histories'], 'every body state, type, argument and position of the data in memory',
  'Tests set single values on fresh bodies; the interplay of type, sleep, activity and the moved component data is a matter of history.',
  ['src/body/RigidBody.cpp', INC + 'body/RigidBody.h', 'src/body/Body.cpp', INC + 'components/RigidBodyComponents.h'],
  [('force at a point', 'RigidBody::applyWorldForceAtLocalPosition'), ('change of type', 'RigidBody::setType'), ('sleep', 'RigidBody::setIsSleeping')],
  REAL + 'Moving of the component data is covered by a ghost move of all fields to an arbitrary index.')
p('S01', 'Contacts only push, friction stays in its limit and impulses act oppositely',
  'Each contact iteration changes a contact impulse so that the approach velocity of the point (with bounce and penetration correction) stops, keeps it from pulling, keeps both friction impulses and the twist within friction coefficient times the sum of the contact impulses, and applies every impulse to both bodies with opposite sign through mass, inertia and locked axes. Set-up takes masses, arms, apparent masses, bounce and friction from the bodies and materials of the manifold. Impulses of the last step are stored and applied again once.',
  ['inputs', 'histories'], 'every state of both bodies, every manifold and all impulses of earlier steps',
  'Tests never look at single impulses; a wrong arm, sign, clamp or index changes the simulation only slightly or only for rare contacts.',
  ['src/systems/ContactSolverSystem.cpp', INC + 'systems/ContactSolverSystem.h'],
  [('iteration', 'ContactSolverSystem::solve'), ('warm start', 'ContactSolverSystem::warmStart'), ('set-up', 'ContactSolverSystem::initializeForIsland'), ('friction directions', 'ContactSolverSystem::computeFrictionVectors')],
  REAL + 'Both bodies differ. Manifolds with 1, 2 and 4 points and sequences of two manifolds are verified with the loops unrolled; other numbers of manifolds are not.')
p('N01', 'Sphere and capsule tests report exactly the overlaps, with fitting contacts',
  'For two spheres, a sphere and a capsule in either order, and two capsules at an angle, side by side and end to end: a collision is reported exactly when the distance of the inner points or segments is below the sum of the radii. A contact has the normal from the first to the second shape along the shortest connection, the depth by which the shapes overlap, and touching points that are the deepest point of each shape in the other one; two capsules side by side get a contact at both ends of the shared length. Tests of the batch before and after are not touched.',
  ['inputs'], 'all radii, heights, positions and orientations, including coinciding centres, axes that cross and centres on an axis',
  'Tests check a few axis-aligned configurations; wrong points, normals or depths for other orientations, orders or degenerate positions go unseen.',
  ['src/collision/narrowphase/SphereVsSphereAlgorithm.cpp', 'src/collision/narrowphase/SphereVsCapsuleAlgorithm.cpp', 'src/collision/narrowphase/CapsuleVsCapsuleAlgorithm.cpp', INC + 'collision/narrowphase/NarrowPhaseInfoBatch.h'],
  [('two spheres', 'SphereVsSphereAlgorithm::testCollision'), ('sphere and capsule', 'SphereVsCapsuleAlgorithm::testCollision'), ('two capsules', 'CapsuleVsCapsuleAlgorithm::testCollision'), ('contact', 'NarrowPhaseInfoBatch::addContactPoint')],
  REAL + 'The closest points, the distance to a line and the crossing of a plane are taken from their contracts, which M02 proves for the same functions. Capsule axes that are nearly but not exactly parallel (sine of the angle below 0.0032) are not covered; the side by side and end to end cases assume capsules higher than 0.02.')
p('D01', 'Component arrays stay packed and every entity keeps its own data',
  'Whatever bodies, colliders and joints are added, removed, enabled or disabled, in any order: each component array holds exactly its entities in places 0 to n-1 with the enabled ones first, every place belongs to the entity the map names, and each entity keeps the value of every field, also when the arrays grow. A new component has the given and the documented initial values; all arrays fit into their buffer.',
  ['histories', 'inputs'], 'every number of components, every order of entities, every operation (the invariant is preserved by each one)',
  'The nine classes copy up to 40 fields by hand in each of four functions; a field that is forgotten or mixed up shows only when a particular component is moved, and no test looks at all fields.',
  ['src/components/Components.cpp', 'src/components/RigidBodyComponents.cpp', 'src/components/BodyComponents.cpp', 'src/components/TransformComponents.cpp', 'src/components/ColliderComponents.cpp', 'src/components/JointComponents.cpp', 'src/components/BallAndSocketJointComponents.cpp', 'src/components/FixedJointComponents.cpp', 'src/components/HingeJointComponents.cpp', 'src/components/SliderJointComponents.cpp'],
  [('removal', 'Components::removeComponent'), ('insertion', 'Components::prepareAddComponent'), ('enabling', 'Components::setIsEntityDisabled'), ('move', 'RigidBodyComponents::moveComponentToIndex'), ('growth', 'RigidBodyComponents::allocate')],
  'The map from entities to indices is taken from the contract of a map; the copy of an Array from C01. Float rounding of the capacity (above 2^24 components) is not covered.')
p('T01', 'The broad-phase tree reports exactly the overlapping objects',
  'For every AABB tree (any number of objects, any shape, empty too): a query with a box reports exactly the objects whose fat boxes meet it, each once; a query with a range of objects reports exactly the pairs of one of them and an object whose fat boxes meet, each once; a ray offers each object whose fat box it enters before the nearest hit so far to the callback, once, cut at that hit, never one that it misses, and stops at the fraction zero. The fat box of an object is its box inflated by the given percentage and contains it after every update, and an object is reinserted exactly if its box leaves the fat box or if asked to. A rotation keeps every node linked, its height and box right, and raises the higher child of a node whose children differ by two levels. Free nodes form one list.',
  ['inputs', 'histories'], 'every tree in which the box of a node encloses those of its children, every order of visiting, every answer of the callback, every node that is rotated, taken or released',
  'A missed pair shows only for particular tree shapes; the tests build a handful of trees with four objects.',
  ['src/collision/broadphase/DynamicAABBTree.cpp', INC + 'collision/broadphase/DynamicAABBTree.h'],
  [('box', 'DynamicAABBTree::reportAllShapesOverlappingWithAABB'), ('pairs', 'DynamicAABBTree::reportAllShapesOverlappingWithShapes'), ('ray', 'DynamicAABBTree::raycast'), ('rotation', 'DynamicAABBTree::balanceSubTreeAtNode'), ('update', 'DynamicAABBTree::updateObject'), ('free nodes', 'DynamicAABBTree::allocateNode')],
  'The stack is taken as a bag of numbers (its contract is proved in C02), the box tests and unions from their definitions (B01). The loops of insertLeafNode and removeLeafNode that repair the path to the root are not proved, nor is the growth of the block of nodes.')
