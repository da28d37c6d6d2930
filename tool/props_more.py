prop("C03", "Coupled participants exchange matching message sequences",
     "In every coupling scheme the messages one participant sends are exactly the messages its partner receives: same data, same order, at initialisation, in every time window and in every iteration, including the window size of the first-participant method, the convergence flag and the last window. "
     "The second participant of a serial scheme receives new data after a window exactly when the coupling goes on or the window is repeated. "
     "Both sides take the same decision about convergence, so no participant waits for a message that is never sent.",
     ["histories", "configurations", "schedules"], "all histories of windows and convergence decisions, all combinations of initial data, window size methods and data directions, two and more participants",
     "a mismatch only shows as a deadlock or as swapped data for a particular combination of configuration and history",
     ["cplscheme/SerialCouplingScheme.cpp", "cplscheme/ParallelCouplingScheme.cpp", "cplscheme/MultiCouplingScheme.cpp", "cplscheme/BaseCouplingScheme.cpp"],
     [("serial protocol", "cplscheme/SerialCouplingScheme.cpp: exchangeFirstData, exchangeSecondData"), ("parallel protocol", "cplscheme/ParallelCouplingScheme.cpp: exchangeFirstData, exchangeSecondData"), ("multi protocol", "cplscheme/MultiCouplingScheme.cpp: exchangeFirstData, exchangeSecondData")],
     ["precice::m2n::M2N::send", "precice::m2n::M2N::receive"])
prop("C05", "Convergence is decided exactly as configured",
     "A window is judged converged exactly when the minimum number of iterations is reached and either all convergence measures hold, or a sufficient one holds while no strict one is violated; without measures it never converges before the iteration limit, and a strict measure that is violated at the limit terminates the simulation with an error. "
     "An absolute measure compares the norm of the change of the data with its limit, a relative one with the limit times the norm of the new data, a residual-relative one with the limit times the first residual of the same window.",
     ["inputs", "histories", "configurations"], "any number and order of measures, any data vectors, iteration counts and histories of windows",
     "the tests fix a few data vectors and at most two measures; order, strictness and later windows are not enumerated",
     ["cplscheme/BaseCouplingScheme.cpp", "cplscheme/impl/AbsoluteConvergenceMeasure.hpp", "cplscheme/impl/RelativeConvergenceMeasure.hpp", "cplscheme/impl/ResidualRelativeConvergenceMeasure.hpp"],
     [("decision", "cplscheme/BaseCouplingScheme.cpp: measureConvergence"), ("measures", "cplscheme/impl/ResidualRelativeConvergenceMeasure.hpp: measure")],
     ["precice::Participant::isTimeWindowComplete"])
prop("C06", "Meshes and partition information arrive unchanged",
     "A mesh sent to another participant or rank arrives with exactly its vertices, in order, with bitwise the same coordinates and the same global indices, and exactly its edges, triangles and tetrahedra between corresponding vertices, appended to what the receiving mesh already contains; "
     "bounding boxes, maps of bounding boxes per rank and maps of connections per rank arrive equal to what was sent, whether sent point to point or broadcast, and an empty mesh or map arrives empty.",
     ["inputs"], "all meshes of dimension 2 and 3 of any size with and without connectivity, all boxes and maps of boxes",
     "the tests send a few small meshes; the layout depends on the dimension, on the number of elements of each kind and on vertex identifiers",
     ["com/SerializedMesh.cpp", "com/SerializedPartitioning.cpp"],
     [("meshes", "com/SerializedMesh.cpp: serialize, addToMesh, send, receive"), ("partition", "com/SerializedPartitioning.cpp")],
     ["precice::com::serialize::SerializedMesh", "precice::com::serialize::SerializedBoundingBoxMap", "precice::com::serialize::SerializedConnectionMap"])
prop("C07", "Time-dependent data arrives sample by sample",
     "Serialising the samples of a coupling data and deserialising them on the other side reproduces every time stamp, every value and every gradient at its vertex and component, and replaces whatever the receiver had stored; "
     "all time steps of one value travel next to each other, so that distributing vertices between ranks keeps them together, and sender and receiver agree on the size of the message.",
     ["inputs"], "any number of vertices, components and time steps, with and without gradients",
     "index arithmetic over vertices, components and time steps; the tests use one or two time steps and a handful of values",
     ["com/SerializedStamples.cpp"],
     [("samples", "com/SerializedStamples.cpp: serialize, empty, deserializeInto")],
     ["precice::com::serialize::SerializedStamples"])
prop("C12", "Mesh operations and bounding boxes are exact",
     "A bounding box contains a point exactly when every coordinate lies within its closed bounds, overlaps another exactly when they share a point, and expanding or scaling yields the smallest box asked for; an empty box stays empty. "
     "Filtering a mesh keeps exactly the selected vertices, in order, with coordinates, global indices, ownership and tags, and exactly the elements all of whose vertices were kept. "
     "Adding a mesh appends all of it; vertex IDs are consecutive from zero; preprocessing only removes duplicate elements and adds the edges and triangles implied by larger ones.",
     ["inputs"], "all boxes of dimension 2 and 3, all meshes and all selections of vertices",
     "which elements survive depends on the combination of selected vertices and element order; the tests filter a few meshes",
     ["mesh/BoundingBox.cpp", "mesh/Mesh.cpp", "mesh/Filter.hpp", "mesh/Vertex.hpp"],
     [("boxes", "mesh/BoundingBox.cpp"), ("filter", "mesh/Filter.hpp: filterMesh"), ("meshes", "mesh/Mesh.cpp: addMesh, preprocess, computeBoundingBox")],
     ["precice::mesh::BoundingBox", "precice::mesh::filterMesh"])
NA = {}
