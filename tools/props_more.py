prop("C08", "Cameras project by their equations, and unprojecting undoes it",
     "Every camera model (perspective, orthographic, their field-of-view forms and the fisheye model) projects each point in front of it to the view, NDC and screen position given by its documented equations, for every batch, broadcast or overriding argument, explicit camera matrix and image size, and with or without the screen axis flip. "
     "Unprojecting a projected point with its depth gives the point back, in world or view coordinates, from screen or NDC input, with depth or scaled depth. "
     "Points are never modified and keep their shape.",
     ["inputs"], "all cameras with finite intrinsics and points away from the camera plane",
     "tests use a few cameras, mostly with shared parameters and no overriding arguments",
     ["pytorch3d/renderer/cameras.py", "pytorch3d/renderer/fisheyecameras.py", "pytorch3d/renderer/camera_utils.py"],
     [("projection matrices and unproject_points of the four camera classes", "pytorch3d/renderer/cameras.py"), ("distortion model and its Newton inverse", "pytorch3d/renderer/fisheyecameras.py")],
     "property-based testing: float64 reference of the equations, projection/unprojection round trip",
     "Batches of up to 3 cameras and 5 points at depth 1-10; the fisheye model with mild distortion.")
prop("C09", "Camera placement, batches and coordinate systems",
     "Camera centre, view transform, look-at rotation and translation, spherical camera position and viewing angles describe the same placement, for all distances, elevations, azimuths, targets and up directions not parallel to the view. "
     "After any history of indexing, joining, cloning and moving, each camera of a batch behaves as the camera it came from. "
     "Conversions between NDC, screen and image coordinates agree for every image size, square or not, and inconsistent arguments are rejected.",
     ["inputs", "histories"], "all placements, batches, histories and image sizes",
     "tests use fixed viewpoints and index one attribute at a time",
     ["pytorch3d/renderer/cameras.py", "pytorch3d/renderer/camera_utils.py", "pytorch3d/renderer/utils.py", "pytorch3d/renderer/fisheyecameras.py"],
     [("look_at_view_transform, camera_position_from_spherical_angles", "pytorch3d/renderer/cameras.py"), ("CamerasBase.__getitem__, join_cameras_as_batch", "pytorch3d/renderer/cameras.py, camera_utils.py")],
     "stateful property testing and a float64 reference of the placement",
     "Batches of up to 4 cameras, histories of up to 5 steps.")
prop("C10", "OpenCV and Pulsar camera conversions describe the same camera",
     "A camera converted from OpenCV parameters projects every point to the OpenCV pixel, for every rotation, translation, focal lengths, principal point and image size of each camera in the batch, and converting back gives the same parameters; likewise starting from a perspective camera. "
     "The Pulsar vector has the same position, rotation, focal length and principal point. "
     "Inconsistent batches and image sizes are rejected, and inputs are not modified.",
     ["inputs"], "all perspective cameras and image sizes",
     "tests use a few cameras with one shared image size",
     ["pytorch3d/utils/camera_conversions.py", "pytorch3d/renderer/camera_conversions.py"],
     [("_cameras_from_opencv_projection, _pulsar_from_opencv_projection", "pytorch3d/renderer/camera_conversions.py")],
     "property-based differential testing against the pinhole equation",
     "Batches of up to 3 cameras, image sides 2-700.")
prop("C11", "OBJ files load as written and survive saving and loading",
     "Any OBJ text (polygons of any size, absolute or negative indices, missing texture or normal indices, any statement order, whitespace and line endings) loads to the vertices, triangles, texture coordinates, normals and materials it states, from a path, an open file, bytes or text. "
     "Saving a mesh, with or without UV textures and normals, and loading it again gives the same mesh up to the requested decimal places. "
     "Malformed files are rejected with an error rather than loaded as something else.",
     ["inputs"], "all OBJ/MTL texts in the documented subset and all single meshes",
     "tests load a few hand-written files",
     ["pytorch3d/io/obj_io.py", "pytorch3d/io/mtl_io.py", "pytorch3d/io/pluggable.py", "pytorch3d/io/utils.py"],
     [("_parse_obj, _parse_face, _load_materials, _save", "pytorch3d/io/obj_io.py"), ("parse_mtl_text, material images and atlas", "pytorch3d/io/mtl_io.py")],
     "property-based testing: independent writer and parser models, round trip, mutated malformed files",
     "Files of up to a dozen vertices and faces and up to 3 materials; line continuations and face index 0 are not generated.")
prop("C12", "PLY files load as written and survive saving and loading",
     "Any PLY file (ASCII, little or big endian; any property types, orders and extra properties or elements; polygons; colours, normals and vertex colours of any numeric type) loads to the points, triangles, normals and colours it states, as a mesh and as a point cloud. "
     "Saving a mesh or a cloud in each supported encoding and loading it gives the same data. "
     "Truncated, inconsistent or malformed files are rejected with an error, never accepted or looped on.",
     ["inputs"], "all PLY headers and bodies in the documented subset",
     "tests load a few hand-written files with fixed property lists",
     ["pytorch3d/io/ply_io.py", "pytorch3d/io/pluggable.py"],
     [("_load_ply_raw_stream, _read_ply_element_struct, _try_read_ply_constant_list_ascii", "pytorch3d/io/ply_io.py"), ("_get_verts, _parse_heterogeneous_property_ascii, _save_ply", "pytorch3d/io/ply_io.py")],
     "property-based testing: independent writer model, round trip, mutated malformed files",
     "Files with up to 3 elements of up to a dozen rows.")
prop("C13", "OFF and glTF files load as written; formats are chosen as registered",
     "Any OFF text and any glTF or GLB scene in the documented subset (node trees with matrices or scale, rotation and translation, every component type, strided and offset accessors, colours, texture images, base colours) loads to the geometry and textures it states. "
     "Saving a mesh with vertex colours, face colours or a UV texture and loading it gives the same mesh, leaves the saved one alone, and writes a well-formed container; broken files are rejected. "
     "IO uses the latest registered interpreter which can handle a file and rejects unknown formats and wrong data.",
     ["inputs"], "all OFF texts, glTF scenes and meshes in the documented subset, all registration orders",
     "tests load a few hand-written files; the glTF tests need a GPU renderer",
     ["pytorch3d/io/off_io.py", "pytorch3d/io/experimental_gltf_io.py", "pytorch3d/io/pluggable.py", "pytorch3d/io/pluggable_formats.py"],
     [("_read_verts, _read_faces, _write_off_data", "pytorch3d/io/off_io.py"), ("_GLTFLoader._access_data, _make_node_transform, _GLTFWriter.save", "pytorch3d/io/experimental_gltf_io.py")],
     "property-based testing: independent writer models, round trip, mutated malformed files",
     "OFF files of up to 8 vertices, scenes of up to 5 nodes and 3 meshes; UV meshes whose texture faces differ from the geometry faces are not saved to GLB.")
prop("C15", "Mesh rasterization is an exact per-pixel search",
     "For every batch of meshes, image size, blur radius and faces per pixel, each pixel lists the nearest faces covering it (or within the blur radius) in front of the camera, by increasing depth, with their interpolated depth, barycentric coordinates (perspective-correct, clipped or not) and signed squared distance, and -1 in unused slots; back faces are dropped on request. "
     "The pure-Python version agrees. "
     "Gradients are the derivatives of these values.",
     ["inputs"], "all batches of meshes in NDC, image sizes and rasterization options",
     "tests use a few scenes, most of them compared with other implementations only on a GPU",
     ["pytorch3d/renderer/mesh/rasterize_meshes.py", "pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp", "pytorch3d/csrc/utils/geometry_utils.h"],
     [("RasterizeMeshesNaiveCpu, RasterizeMeshesBackwardCpu", "pytorch3d/csrc/rasterize_meshes/rasterize_meshes_cpu.cpp"), ("rasterize_meshes_python", "pytorch3d/renderer/mesh/rasterize_meshes.py")],
     "property-based testing: exhaustive float64 reference per pixel, numerical derivatives",
     "Up to 3 meshes of 10 faces on images up to 12 pixels a side; only the CPU kernels exist here.")
prop("C16", "Point rasterization and rendering are an exact per-pixel search",
     "For every batch of clouds, image size and number of points per pixel, with one radius or one per point, each pixel lists the nearest points whose disc covers it, by increasing depth, with their depth and squared distance, and -1 in unused slots; the pure-Python version agrees and gradients are the derivatives. "
     "A rendered image composites the features of these points with weight 1 - d2/r2 of the point's own radius, seen through any camera.",
     ["inputs"], "all batches of clouds, radii, cameras and image sizes",
     "tests use a few scenes and almost always one radius",
     ["pytorch3d/renderer/points/rasterize_points.py", "pytorch3d/renderer/points/rasterizer.py", "pytorch3d/renderer/points/renderer.py", "pytorch3d/csrc/rasterize_points/rasterize_points_cpu.cpp"],
     [("RasterizePointsNaiveCpu, RasterizePointsBackwardCpu", "pytorch3d/csrc/rasterize_points/rasterize_points_cpu.cpp"), ("_format_radius, rasterize_points_python", "pytorch3d/renderer/points/rasterize_points.py")],
     "property-based testing: exhaustive float64 reference per pixel, numerical derivatives",
     "Up to 3 clouds of 20 points on images up to 12 pixels a side.")
prop("C17", "A mesh seen through a camera equals ray casting",
     "For every camera model, pose, image size and mesh, also with faces behind the camera or crossing the near plane or the image border, each pixel of the mesh rasterizer sees exactly the faces its ray hits beyond the clipping distance, nearest first, with their depth and their barycentric coordinates in the original face; culling to the frustum or of faces never changes what is visible. "
     "Meshes without faces are allowed anywhere in the batch, and gradients through clipped faces are the derivatives.",
     ["inputs"], "all cameras and meshes, in particular faces crossing the near plane",
     "tests clip a handful of fixed triangles",
     ["pytorch3d/renderer/mesh/clip.py", "pytorch3d/renderer/mesh/rasterizer.py", "pytorch3d/renderer/mesh/rasterize_meshes.py"],
     [("clip_faces, convert_clipped_rasterization_to_original_faces", "pytorch3d/renderer/mesh/clip.py"), ("MeshRasterizer.transform and forward", "pytorch3d/renderer/mesh/rasterizer.py")],
     "property-based testing: float64 ray casting in view space, numerical derivatives",
     "Up to 3 meshes of 8 faces; distances of clipped faces to the pixel are not compared.")
prop("C18", "Compositing equals its documented sums, with exact gradients",
     "For all weights, features, repeated points and empty slots, alpha_composite, norm_weighted_sum and weighted_sum return the documented sums over the points of each pixel and their exact derivatives, also when weights are 0 or 1 or their sum vanishes. "
     "The compositor modules put the background colour exactly in the pixels without points.",
     ["inputs"], "all point indices, weights and features",
     "tests use a few hand-computed pixels",
     ["pytorch3d/renderer/compositing.py", "pytorch3d/renderer/points/compositor.py", "pytorch3d/csrc/compositing/alpha_composite_cpu.cpp", "pytorch3d/csrc/compositing/norm_weighted_sum_cpu.cpp", "pytorch3d/csrc/compositing/weighted_sum_cpu.cpp"],
     [("forward and backward kernels", "pytorch3d/csrc/compositing/*_cpu.cpp"), ("_add_background_color_to_images", "pytorch3d/renderer/points/compositor.py")],
     "property-based testing: float64 reference and its derivatives",
     "Images up to 5 pixels a side, 6 slots per pixel.")
prop("C19", "Blending equals its documented formulas and stays finite",
     "Hard, sigmoid and softmax blending of per-pixel face colours return the documented colours and alpha for every sigma, gamma, background (also per call and as tensor or tuple), depth range (shared or per image) and set of used slots, with the derivatives of the formulas. "
     "Results are finite for faces at any distance and depth, and pixels without a face are exactly background with zero alpha.",
     ["inputs"], "all fragments and blending parameters",
     "tests use a few fragments and parameters",
     ["pytorch3d/renderer/blending.py", "pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp"],
     [("softmax_rgb_blend, hard_rgb_blend", "pytorch3d/renderer/blending.py"), ("SigmoidAlphaBlendForwardCpu and Backward", "pytorch3d/csrc/blending/sigmoid_alpha_blend_cpu.cpp")],
     "property-based testing: float64 reference and its derivatives",
     "Images up to 4 pixels a side, 5 faces per pixel.")
prop("C20", "Textures give every pixel the colour of its own mesh and face",
     "For per-vertex features, UV maps (one or several per mesh, every padding, sampling and corner alignment) and atlases, sampling gives each fragment the colour defined by its mesh's own data at its barycentric coordinates, whatever the sizes of the other meshes of the batch, with the derivatives. "
     "Cloning, detaching, moving, indexing, extending, splitting and joining batches keeps each mesh's colours, and joining into one scene keeps every colour inside [0, 1]; inconsistent sizes are rejected.",
     ["inputs", "histories"], "all textures, batches, fragments and batching operations",
     "tests sample a few fragments and compare stored tensors after batching",
     ["pytorch3d/renderer/mesh/textures.py", "pytorch3d/renderer/mesh/utils.py", "pytorch3d/structures/meshes.py"],
     [("TexturesUV.sample_textures, join_scene, maps_padded", "pytorch3d/renderer/mesh/textures.py"), ("pack_unique_rectangles", "pytorch3d/renderer/mesh/utils.py")],
     "property-based testing: float64 reference of each fragment's colour before and after batching",
     "Batches of up to 4 meshes of up to 6 faces; UV coordinates outside [0, 1] are not joined into scenes.")
prop("C21", "Lighting and shading give every pixel its documented colour",
     "For every combination of shader, light, material, camera, texture and blending parameters, given at construction or per call and shared or one per mesh, each pixel is the documented lighting of the interpolated position, normal and colour of its own faces, blended as documented; depth shaders return the depth. "
     "Gradients, in particular of face and vertex normals, are the derivatives. "
     "Lights, materials and cameras in a batch never influence each other: indexing, gathering, cloning and setting one element keep the others.",
     ["inputs", "histories"], "all fragments, lights, materials, cameras and blending parameters",
     "tests shade single points or compare one reference image per shader",
     ["pytorch3d/renderer/mesh/shader.py", "pytorch3d/renderer/mesh/shading.py", "pytorch3d/renderer/lighting.py", "pytorch3d/renderer/materials.py", "pytorch3d/renderer/utils.py", "pytorch3d/renderer/mesh/renderer.py", "pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp"],
     [("diffuse, specular", "pytorch3d/renderer/lighting.py"), ("_apply_lighting, phong_shading, gouraud_shading, flat_shading", "pytorch3d/renderer/mesh/shading.py"), ("TensorProperties", "pytorch3d/renderer/utils.py")],
     "property-based testing: float64 reference of every pixel, numerical derivatives",
     "Fragments of up to 5 pixels a side and meshes of up to 6 faces; light at the angle where its highlight is switched off is not compared.")
prop("C22", "Rays and ray marching follow the cameras and the documented integrals",
     "For every camera and pixel set (grid, random, masked, Monte Carlo), each ray passes through exactly the camera's pixel it reports, its sample depths lie in the requested range in order (stratified ones in their own bins), and subsampling keeps pixels, masks and bounds. "
     "Ray marchers return the documented absorption-emission sums, and volume samplers the trilinear values of each volume's own grid at the ray points, so renderers with volumes or functions agree with integrating by hand.",
     ["inputs"], "all cameras, image sizes, ray counts, masks, densities and volumes",
     "tests use one camera configuration per sampler and compare a few shapes and images",
     ["pytorch3d/renderer/implicit/raysampling.py", "pytorch3d/renderer/implicit/raymarching.py", "pytorch3d/renderer/implicit/renderer.py", "pytorch3d/renderer/implicit/utils.py"],
     [("MultinomialRaysampler, _safe_multinomial, _xy_to_ray_bundle, _jiggle_within_stratas", "pytorch3d/renderer/implicit/raysampling.py"), ("EmissionAbsorptionRaymarcher", "pytorch3d/renderer/implicit/raymarching.py"), ("VolumeSampler", "pytorch3d/renderer/implicit/renderer.py")],
     "property-based testing: float64 reference of rays, trilinear sampling and marching",
     "Up to 4 cameras, images up to 9 pixels a side, 8 points per ray; fisheye cameras excluded.")
prop("C23", "sample_pdf inverts the cumulative distribution of its histogram",
     "For every set of bins and non-negative weights, any batch and any number of samples, sample_pdf returns points inside the bins which are the inverse of the cumulative distribution at evenly spaced (det) or uniform random values; the C++ and Python versions agree. "
     "Random samples are distributed as the histogram.",
     ["inputs"], "all histograms, batch sizes and numbers of samples",
     "tests compare two implementations on random weights of fixed sizes",
     ["pytorch3d/renderer/implicit/sample_pdf.py", "pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp"],
     [("SamplePdf, SamplePdfMain", "pytorch3d/csrc/sample_pdf/sample_pdf_cpu.cpp"), ("sample_pdf_python", "pytorch3d/renderer/implicit/sample_pdf.py")],
     "property-based testing: float64 inverse of the distribution, statistical test of the samples",
     "Up to 12 bins and 11 rows; only bounds are required within bins of weight below eps.")
prop("C26", "Neighbor searches equal an exhaustive search in each own cloud",
     "For every batch of clouds with lengths, K, dimension and norm, knn_points returns the K nearest points with distances, ball_query the first K points within the radius, knn_gather their features, and sample_farthest_points a greedy farthest-first selection; points beyond a cloud's length never matter and unused slots are padded as documented. "
     "Gradients of distances are the derivatives.",
     ["inputs"], "all clouds, lengths, K, norms, dimensions and ties",
     "tests compare with a naive version, most of them on a GPU only",
     ["pytorch3d/ops/knn.py", "pytorch3d/ops/ball_query.py", "pytorch3d/ops/sample_farthest_points.py", "pytorch3d/ops/utils.py", "pytorch3d/csrc/knn/knn_cpu.cpp", "pytorch3d/csrc/ball_query/ball_query_cpu.cpp", "pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp"],
     [("KNearestNeighborIdxCpu, KNearestNeighborBackwardCpu", "pytorch3d/csrc/knn/knn_cpu.cpp"), ("BallQueryCpu", "pytorch3d/csrc/ball_query/ball_query_cpu.cpp"), ("FarthestPointSamplingCpu", "pytorch3d/csrc/sample_farthest_points/sample_farthest_points_cpu.cpp"), ("wmean", "pytorch3d/ops/utils.py")],
     "property-based testing: exhaustive float64 search, numerical derivatives",
     "Up to 4 clouds of 12 points in 1 to 6 dimensions; only the CPU kernels exist here.")
prop("C27", "Chamfer distance equals its definition over each own cloud",
     "For every pair of batches of clouds (tensors with lengths or Pointclouds), weights, reductions, norm, one or both directions, with or without normals, chamfer_distance returns the documented sums over nearest neighbours and normal angles, and their derivatives. "
     "Values beyond a cloud's length have no influence, and inconsistent arguments are rejected.",
     ["inputs"], "all clouds, lengths, weights and combinations of options",
     "tests compare with a naive loop for a few option sets, many on a GPU only",
     ["pytorch3d/loss/chamfer.py"],
     [("_chamfer_distance_single_direction, _apply_batch_reduction", "pytorch3d/loss/chamfer.py")],
     "property-based testing: float64 definition and its derivatives",
     "Up to 4 pairs of clouds of 9 points; zero-length counterpart clouds with normals excluded.")
prop("C28", "Mesh losses, Laplacians and face normals equal their definitions",
     "For every batch of meshes, however their edges are shared and whatever the sizes of the other meshes, edge loss, normal consistency and uniform, cotangent and curvature Laplacian smoothing equal the documented means over edges, pairs of adjacent faces and vertices. "
     "The Laplacian matrices and face areas and normals hold the documented values entry by entry. "
     "Gradients are the derivatives.",
     ["inputs"], "all batches of meshes and target lengths",
     "tests compare with naive loops on random meshes of fixed sizes, many on a GPU only",
     ["pytorch3d/loss/mesh_edge_loss.py", "pytorch3d/loss/mesh_normal_consistency.py", "pytorch3d/loss/mesh_laplacian_smoothing.py", "pytorch3d/ops/laplacian_matrices.py", "pytorch3d/ops/mesh_face_areas_normals.py", "pytorch3d/csrc/face_areas_normals/face_areas_normals_cpu.cpp"],
     [("mesh_normal_consistency", "pytorch3d/loss/mesh_normal_consistency.py"), ("mesh_laplacian_smoothing", "pytorch3d/loss/mesh_laplacian_smoothing.py"), ("cot_laplacian", "pytorch3d/ops/laplacian_matrices.py")],
     "property-based testing: float64 definitions and their derivatives",
     "Up to 4 meshes of 12 faces; slivers and rows of non-positive cotangent sums excluded.")
prop("C29", "Point-to-mesh distances are distances to the closest point of the own mesh",
     "For every batch of points and triangles or segments, point_face, face_point, point_edge and edge_point distances are the squared distances to the closest triangle or segment (or point) of the same batch element with the index of it, triangles below the minimal area counting as their edges. "
     "The point-mesh losses are the documented means per element, and gradients are the derivatives.",
     ["inputs"], "all points, triangles, segments, sizes and minimal areas",
     "tests compare with a naive version on a few random batches, most of them on a GPU only",
     ["pytorch3d/loss/point_mesh_distance.py", "pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp", "pytorch3d/csrc/utils/geometry_utils.h"],
     [("HullHullDistanceForwardCpu, HullHullDistanceBackwardCpu", "pytorch3d/csrc/point_mesh/point_mesh_cpu.cpp"), ("PointTriangle3DistanceForward, PointLine3DistanceForward", "pytorch3d/csrc/utils/geometry_utils.h"), ("point_mesh_face_distance, point_mesh_edge_distance", "pytorch3d/loss/point_mesh_distance.py")],
     "property-based testing: float64 closest points and their derivatives",
     "Up to 4 elements of 6 points and 6 shapes; slivers, areas at the threshold and ties of gradients excluded.")
prop("C30", "Alignment returns the optimal transform between points or cameras",
     "For every set of corresponding points, weights and options, corresponding_points_alignment returns a rotation, translation and scale of least weighted squared distance (no reflection unless allowed). "
     "iterative_closest_point returns exactly what its documented iteration yields for each element; camera alignment optimises its documented objective; efficient_pnp recovers the pose of exact projections. "
     "Sizes of other batch elements never matter, and inconsistent arguments are rejected.",
     ["inputs"], "all corresponding sets, weights, noise, batches and iteration counts",
     "tests recover known transforms of a few random clouds, several on a GPU only",
     ["pytorch3d/ops/points_alignment.py", "pytorch3d/ops/cameras_alignment.py", "pytorch3d/ops/perspective_n_points.py", "pytorch3d/ops/utils.py"],
     [("corresponding_points_alignment, iterative_closest_point", "pytorch3d/ops/points_alignment.py"), ("_align_camera_extrinsics", "pytorch3d/ops/cameras_alignment.py"), ("efficient_pnp", "pytorch3d/ops/perspective_n_points.py")],
     "property-based testing: float64 optimum and step-by-step reference of the iteration",
     "Up to 4 clouds of 14 points in 2 to 4 dimensions; PnP with at least 6 points in front of the camera.")
prop("C31", "Subdivision, smoothing and surface sampling respect each mesh",
     "For every batch of meshes, SubdivideMeshes splits every face into the four of its edge midpoints (vertices, features, orientation, gradients), sharing one vertex per edge, and taubin_smoothing follows its documented iteration, keeping faces and isolated vertices. "
     "sample_points_from_meshes returns points on each own mesh with the normal and texture of the face they lie on, uniformly by area, and zeros for empty meshes.",
     ["inputs"], "all batches, rounds, features, textures and sample counts",
     "tests check single fixed meshes or statistics of one shape, many on a GPU only",
     ["pytorch3d/ops/subdivide_meshes.py", "pytorch3d/ops/mesh_filtering.py", "pytorch3d/ops/sample_points_from_meshes.py"],
     [("SubdivideMeshes", "pytorch3d/ops/subdivide_meshes.py"), ("taubin_smoothing", "pytorch3d/ops/mesh_filtering.py"), ("sample_points_from_meshes", "pytorch3d/ops/sample_points_from_meshes.py")],
     "property-based testing: float64 geometry, membership of samples, chi-square-like tests",
     "Batches of up to 4 meshes of 12 faces, two rounds, 4000 samples in the statistical test.")
prop("C32", "Graph convolutions and vertex feature sampling follow their definitions",
     "For every graph, GraphConv gives w0(x_i) plus the sum of w1(x_j) over the edges of i (into i if directed), with repeated edges and loops counted, and gradients to match. "
     "vert_align samples each feature map at each vertex's own element as grid_sample defines it, for meshes, point clouds and tensors, padded or packed, and rejects inputs that do not fit.",
     ["inputs"], "all graphs, maps, batches of different sizes, modes and paddings",
     "tests use one or two small graphs and random maps, several on a GPU only",
     ["pytorch3d/ops/graph_conv.py", "pytorch3d/ops/vert_align.py", "pytorch3d/csrc/gather_scatter"],
     [("GraphConv, gather_scatter_python", "pytorch3d/ops/graph_conv.py"), ("vert_align", "pytorch3d/ops/vert_align.py")],
     "property-based testing: float64 loops over edges and pixels, directional derivatives",
     "Up to 9 vertices and 14 edges; 3 maps of 5 x 5; the C++ gather_scatter exists on a GPU only.")
prop("C33", "box3d_overlap returns exact intersection volumes and IoUs",
     "For every pair of boxes with planar faces, in any position, box3d_overlap returns the volume of their intersection and its ratio to the union, whichever box comes first and whatever the other boxes of the batch. "
     "Boxes whose faces are not planar or have no area are rejected.",
     ["inputs"], "all pairs of boxes: general, tilted slightly, with common planes, nested, touching",
     "tests compare fixed pairs and one data set; the naive version is tested on a GPU only",
     ["pytorch3d/ops/iou_box3d.py", "pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp", "pytorch3d/csrc/iou_box3d/iou_utils.h"],
     [("box3d_overlap, _check_coplanar, _check_nonzero", "pytorch3d/ops/iou_box3d.py"), ("IoUBox3DCpu", "pytorch3d/csrc/iou_box3d/iou_box3d_cpu.cpp"), ("BoxIntersections, ClipTriByPlane", "pytorch3d/csrc/iou_box3d/iou_utils.h")],
     "property-based testing: float64 volume of an intersection of half-spaces",
     "Boxes of sides 0.03 to 8 with coordinates below about 10; volumes up to 1e-3 of the smaller box.")
prop("C34", "Points added to volumes cast exactly their votes",
     "For every cloud and volume, each unmasked point adds its trilinear weights (or one vote to the nearest voxel) and weighted features to the voxels of its own grid, votes outside are dropped, and features are averaged if asked for, with exact gradients for points, features and volumes. "
     "add_pointclouds_to_volumes does so in world coordinates and leaves its input volumes unchanged; python and C++ versions agree.",
     ["inputs"], "all clouds, masks, volumes, grid sizes, alignments and modes",
     "tests use one or two simple configurations, most of them on a GPU only",
     ["pytorch3d/ops/points_to_volumes.py", "pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp"],
     [("add_points_features_to_volume_densities_features, add_pointclouds_to_volumes", "pytorch3d/ops/points_to_volumes.py"), ("PointsToVolumesForwardCpu, PointsToVolumesBackwardCpu", "pytorch3d/csrc/points_to_volumes/points_to_volumes_cpu.cpp")],
     "property-based testing: float64 votes and numerical derivatives",
     "Up to 3 clouds of 7 points, volumes of 5 voxels a side; points on rounding ties excluded.")
prop("C35", "Normals and local frames of point clouds are those of their neighbours",
     "For every symmetric 3x3 matrix, symeig3x3 returns ascending eigenvalues with orthonormal eigenvectors, at every scale and multiplicity. "
     "estimate_pointcloud_local_coord_frames returns the eigen-decomposition of the covariance of each point's K nearest neighbours in its own cloud (right-handed, disambiguated as documented), and estimate_pointcloud_normals its first axis, never affected by padding or by other clouds.",
     ["inputs"], "all matrices, clouds of different sizes, scales, offsets and K",
     "tests use random matrices and one sphere, most of them on a GPU only",
     ["pytorch3d/common/workaround/symeig3x3.py", "pytorch3d/ops/points_normals.py", "pytorch3d/ops/utils.py"],
     [("symeig3x3", "pytorch3d/common/workaround/symeig3x3.py"), ("estimate_pointcloud_local_coord_frames, estimate_pointcloud_normals", "pytorch3d/ops/points_normals.py"), ("get_point_covariances", "pytorch3d/ops/utils.py")],
     "property-based testing: numpy eigen-decompositions in float64",
     "Clouds of up to 30 points; neighbourhoods with an ambiguous K-th neighbour excluded.")
prop("C44", "Isosurfaces and cubified voxels are the surfaces of their volumes",
     "For every volume and level, marching_cubes gives one vertex on each crossed grid edge at the interpolated position, and triangles which form the oriented boundary between the values above and below the level (checked by winding numbers); the naive version agrees. "
     "cubify gives exactly the outer faces of the occupied voxels, oriented outwards, each vertex once, for every alignment.",
     ["inputs"], "all volumes, sizes (dimensions of size 1 and very large ones), levels and batches",
     "tests compare a handful of cells and two sample volumes with stored results",
     ["pytorch3d/ops/marching_cubes.py", "pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp", "pytorch3d/ops/cubify.py"],
     [("marching_cubes, marching_cubes_naive", "pytorch3d/ops/marching_cubes.py"), ("MarchingCubesCpu", "pytorch3d/csrc/marching_cubes/marching_cubes_cpu.cpp"), ("HashVpair", "pytorch3d/csrc/marching_cubes/marching_cubes_utils.h"), ("cubify", "pytorch3d/ops/cubify.py")],
     "property-based testing: grid crossings, winding numbers and explicit voxel faces",
     "Volumes of up to 7 voxels a side, one of 3 x 3 x 2.9 million; values equal to the level also.")
prop("C38", "Configured systems are built exactly as their configuration says",
     "For every system of Configurable and Replaceable classes, default arguments obtained from a class, overridden through a (YAML) config in any subset, create the object whose every nested member has the chosen type and values, in every order of class definition and expansion, with defaults, tweaks, optional members and custom creation honoured. "
     "A config survives a round trip through YAML, removing unused components changes nothing that is built, unknown keys and types are rejected, and get_default_args describes functions.",
     ["inputs", "histories"], "all class hierarchies, configurations and orders of definition",
     "tests define a handful of fixed class systems",
     ["pytorch3d/implicitron/tools/config.py"],
     [("expand_args_fields, run_auto_creation, get_default_args, remove_unused_components", "pytorch3d/implicitron/tools/config.py"), ("registry", "pytorch3d/implicitron/tools/config.py")],
     "property-based testing: randomly generated class systems against an interpreter of their specification",
     "Up to 3 levels of nesting and 3 members per class; members whose name extends the name of a pluggable member by an underscore are excluded (ambiguous in the config format).")
prop("C39", "Dataset frames are the stored data, and cameras follow their crops",
     "For every frame on disk and every loading option, the loaded image, mask, depth, depth mask, points, metadata and boxes are those stored, cropped to the (expanded, clamped) box and resized as documented, also when the depth has another resolution. "
     "After any chain of crops and resizes the camera still projects every world point onto the image position showing it, and sizes and validity masks agree with the images. "
     "Batches hold exactly their frames' data in order, each frame mapped to its own point cloud.",
     ["inputs", "histories"], "all images, annotations, boxes, sizes, options and chains of operations",
     "tests load one small dataset with few options and check shapes",
     ["pytorch3d/implicitron/dataset/frame_data.py", "pytorch3d/implicitron/dataset/utils.py"],
     [("FrameData, GenericFrameDataBuilder.build", "pytorch3d/implicitron/dataset/frame_data.py"), ("resize_image, get_clamp_bbox, adjust_camera_to_bbox_crop_, adjust_camera_to_image_scale_", "pytorch3d/implicitron/dataset/utils.py")],
     "property-based testing: frames written to disk, NumPy model of the pixels and float64 pinhole camera in pixels",
     "Images up to 60 pixels a side, up to 3 operations after loading; EXR depth not covered.")

D = "pytorch3d/implicitron/dataset/"
prop("C40", "Dataset indices hold exactly the frames their lists and options select",
     "For every set of annotation files, subset lists and filtering options, the JSON and SQL indices and the dataset map providers hold exactly the selected frames, sequence by sequence and ordered as documented, and give each frame the stored annotation, whatever the way in which lists are stored. "
     "Subsets, joins, evaluation batches and sequence queries agree with those frames; annotations survive being written (plain, binary or gzipped) and read again.",
     ["inputs", "histories"], "all data sets, lists, options and subsets",
     "tests load a few fixed data sets of at most two categories with few options",
     [D + "json_index_dataset.py", D + "sql_dataset.py", D + "json_index_dataset_map_provider.py", D + "json_index_dataset_map_provider_v2.py", D + "sql_dataset_provider.py", D + "single_sequence_dataset.py", D + "types.py"],
     [("JsonIndexDataset", D + "json_index_dataset.py"), ("SqlIndexDataset", D + "sql_dataset.py"), ("JsonIndexDatasetMapProvider", D + "json_index_dataset_map_provider.py"), ("JsonIndexDatasetMapProviderV2", D + "json_index_dataset_map_provider_v2.py"),
      ("SqlIndexDatasetMapProvider", D + "sql_dataset_provider.py"), ("SingleSceneDatasetMapProviderBase", D + "single_sequence_dataset.py"), ("load_dataclass, dump_dataclass", D + "types.py")],
     "property-based testing: model of the selection over generated data sets on disk",
     "Up to 5 sequences of 6 frames in 3 categories; the v2 provider with known views and sequences without training frames excluded.")
prop("C41", "Samplers and loaders give batches composed as documented",
     "For every dataset and setting, each batch of SceneBatchSampler, DoublePoolBatchSampler and the data loader providers has the documented number of sequences and images per sequence, drawn from the documented sequences, frames, segments and pools, without repetition where none is allowed. "
     "Epochs have the documented length, conditioning frames come from the documented set, and random choices reach every allowed outcome with the documented frequency.",
     ["inputs", "histories"], "all datasets, options and random draws",
     "tests run a handful of options on two or three sequences",
     [D + "scene_batch_sampler.py", D + "data_loader_map_provider.py", D + "train_eval_data_loader_provider.py"],
     [("SceneBatchSampler", D + "scene_batch_sampler.py"), ("DoublePoolBatchSampler, SimpleDataLoaderMapProvider, SequenceDataLoaderMapProvider", D + "data_loader_map_provider.py"), ("TrainEvalDataLoaderMapProvider", D + "train_eval_data_loader_provider.py")],
     "property-based testing: invariants of every batch of an epoch, frequencies of choices",
     "Up to 7 sequences of 12 frames; frame numbers increase with timestamps; known-view conditioning needs unseen frames.")
R = "pytorch3d/implicitron/models/renderer/"
prop("C42", "Implicitron samples and renders rays as its models define",
     "For every camera, mask and setting, the ray samplers give rays through the documented pixels with the documented depths, the frustum Gaussians have the moments of their cones, and the ray marchers, refiner, multi-pass, LSTM and SDF renderers compute exactly the colours, depths, masks and weights their models define, ray by ray, in any shape of batch and chunk. "
     "Ray tracing finds the first crossing of a signed distance function; camera tools keep the documented centres, angles and scales.",
     ["inputs"], "all cameras, masks, ray shapes, implicit functions and options",
     "tests check shapes, or a sphere rendered by one configuration",
     [R + "base.py", R + "ray_sampler.py", R + "raymarcher.py", R + "ray_point_refiner.py", R + "multipass_ea.py", R + "ray_tracing.py", R + "sdf_renderer.py", R + "lstm_renderer.py", "pytorch3d/implicitron/tools/camera_utils.py"],
     [("conical_frustum_to_gaussian, ImplicitronRayBundle", R + "base.py"), ("AbstractMaskRaySampler, compute_radii", R + "ray_sampler.py"), ("AccumulativeRaymarcherBase", R + "raymarcher.py"), ("RayPointRefiner", R + "ray_point_refiner.py"),
      ("MultiPassEmissionAbsorptionRenderer", R + "multipass_ea.py"), ("RayTracing", R + "ray_tracing.py"), ("SignedDistanceFunctionRenderer", R + "sdf_renderer.py"), ("LSTMRenderer", R + "lstm_renderer.py"), ("volumetric_camera_overlaps, jitter_extrinsics", "pytorch3d/implicitron/tools/camera_utils.py")],
     "property-based testing: float64 models of every step, numerical integrals, analytic spheres",
     "Rays grazing surfaces excluded; the SDF renderer is exercised with one image per batch.")

I = "pytorch3d/implicitron/models/implicit_function/"
prop("C43", "Voxel grids represent one field, whatever is done to them",
     "For every full, CP or VM factorised grid, evaluation at any point is the interpolation of the dense grid which its factors compose, in local and in world coordinates; changing the resolution, cropping, saving and loading keep the field as documented, and grid points are the positions of the voxels. "
     "VoxelGridImplicitFunction decodes exactly those fields, its scaffold marks exactly the space above its threshold whatever the chunks, and filtering and cropping leave occupied space unchanged. "
     "The decoders are the networks their settings describe.",
     ["inputs", "histories"], "all grids, points, resolutions, boxes and networks",
     "tests use large cubic grids, aligned corners and boxes on voxels; scaffold filtering is tested on a GPU only",
     [I + "voxel_grid.py", I + "voxel_grid_implicit_function.py", I + "decoding_functions.py", I + "utils.py"],
     [("FullResolutionVoxelGrid, CPFactorizedVoxelGrid, VMFactorizedVoxelGrid, VoxelGridModule", I + "voxel_grid.py"), ("VoxelGridImplicitFunction", I + "voxel_grid_implicit_function.py"),
      ("MLPWithInputSkips, ElementwiseDecoder, TransformerWithInputSkips", I + "decoding_functions.py"), ("interpolate_line, interpolate_plane, interpolate_volume", I + "utils.py")],
     "property-based testing: dense float64 grids interpolated by explicit weights, networks in NumPy",
     "Up to 8 voxels a side; bicubic modes, even pooling kernels and boxes without volume excluded.")
prop("C24", "Splatting blends every pixel with its neighbours by layers",
     "For every set of shaded fragments (any number of images, layers and pixels, with or without background), SplatterBlender and SplatterPhongShader give each pixel the documented sum over the 3x3 splats of its neighbours: Gaussian weights around each splat's projected position, layers in front of, on and behind the pixel's surface told apart by depth, each normalised and composited over the background. "
     "The derivatives with respect to colours and surface positions are those of this sum, are finite, and lead to the vertices and the camera. "
     "One shader serves images of any sizes, and inputs are not modified.",
     ["inputs"], "all fragments, colours, cameras and image sizes",
     "tests check the private helper functions one by one on constant inputs, never the blender as a whole",
     ["pytorch3d/renderer/splatter_blend.py", "pytorch3d/renderer/mesh/shader.py", "pytorch3d/renderer/mesh/shading.py"],
     [("_compute_occlusion_layers, _compute_splatting_colors_and_weights, _offset_splats, _normalize_and_compose_all_layers", "pytorch3d/renderer/splatter_blend.py"), ("SplatterPhongShader.forward", "pytorch3d/renderer/mesh/shader.py")],
     "property-based testing: float64 reference of the splatting sums and their derivatives",
     "Up to 3 images of 7x7 pixels and 3 layers; surfaces exactly as deep as each other are not generated.")
M = "pytorch3d/implicitron/models/"
prop("C45", "Implicit functions see the right point, view and code",
     "For every set of points, source cameras and images, view pooling samples every feature exactly at the point's projection into each view of its own scene, and aggregates the valid views by the configured moments, maxima or angle weights, with the documented dimensions and exclusion of the target view. "
     "Radiance fields, scene representation networks, the signed distance field and the colouring network compute every ray point from its own position, direction, pooled features and code, in world or camera coordinates, in any shape of batch. "
     "Every key keeps its own code, also through saving and loading.",
     ["inputs", "histories"], "all points, cameras, features, settings and histories of keys",
     "tests check shapes, one aggregation of one image, or fixed constants",
     [M + "view_pooler/view_sampler.py", M + "view_pooler/feature_aggregator.py", M + "view_pooler/view_pooler.py", I + "neural_radiance_field.py", I + "scene_representation_networks.py", I + "idr_feature_field.py", I + "utils.py",
      M + "global_encoder/autodecoder.py", M + "global_encoder/global_encoder.py", M + "renderer/rgb_net.py"],
     [("ViewSampler, project_points_and_sample", M + "view_pooler/view_sampler.py"), ("feature aggregators", M + "view_pooler/feature_aggregator.py"), ("NeuralRadianceFieldBase", I + "neural_radiance_field.py"),
      ("SRNRaymarchFunction, SRNPixelGenerator, SRNRaymarchHyperNet", I + "scene_representation_networks.py"), ("IdrFeatureField", I + "idr_feature_field.py"), ("Autodecoder", M + "global_encoder/autodecoder.py"), ("RayNormalColoringNetwork", M + "renderer/rgb_net.py")],
     "property-based testing: float64 projections, explicit bilinear weights, moments and networks in NumPy",
     "MAX with fractional weights has no documented value; points within 0.2 of a camera plane only checked for finite gradients.")
V = "pytorch3d/implicitron/"
prop("C46", "Metrics, evaluations and statistics report what happened",
     "For every batch of images, masks, depths and rays (also packed, of several stages or partly missing), ViewMetrics, RegularizationMetrics, eval_batch and the metric functions are the documented functions of predictions and ground truth at the same pixels, restricted to masks and crops, with finite gradients and unmodified inputs. "
     "The evaluator hides the target view from the model, and its summaries are the averages of the batches of each subset, frame type and number of source views. "
     "After every history of updates, epochs, saves and loads, Stats reports the averages of exactly the values given in each epoch.",
     ["inputs", "histories"], "all predictions, masks, sets of available inputs and histories",
     "tests check a few metrics on one synthetic batch and never packed bundles, stages or statistics",
     [V + "models/metrics.py", V + "tools/metric_utils.py", V + "tools/image_utils.py", V + "evaluation/evaluate_new_view_synthesis.py", V + "evaluation/evaluator.py", V + "tools/stats.py"],
     [("ViewMetrics, RegularizationMetrics", V + "models/metrics.py"), ("calc_psnr, calc_mse, calc_bce, iou, eval_depth, huber, beta_prior", V + "tools/metric_utils.py"), ("mask_background", V + "tools/image_utils.py"),
      ("eval_batch, summarize_nvs_eval_results, aggregate_nvs_results", V + "evaluation/evaluate_new_view_synthesis.py"), ("ImplicitronEvaluator", V + "evaluation/evaluator.py"), ("AverageMeter, Stats", V + "tools/stats.py")],
     "property-based testing: the definitions in float64 NumPy, model of the history of statistics",
     "LPIPS excluded (its weights cannot be downloaded here); drawing of plots is only checked to give a file.")
prop("C47", "Whole Implicitron models render the same however they are asked",
     "For every configuration of GenericModel and OverfitModel (implicit function, renderer, ray sampler, encoders, aggregator, passes), rendering in evaluation does not depend on the chunk size, on the other targets of the batch, on the order of the source views or on the names of sequences, agrees between the two models with equal weights, and is the same after saving and loading. "
     "Losses are the weighted sums of their terms, preprocessing thresholds and masks as documented, image features are those of the configured stages and masks, and gradients reach every network. "
     "Checkpoint tools find, load and purge exactly the documented files.",
     ["inputs", "histories"], "all configurations, images, cameras, chunk sizes and histories of checkpoints",
     "tests instantiate a few default configurations and check shapes or that nothing raises",
     [M + "generic_model.py", M + "overfit_model.py", M + "base_model.py", M + "utils.py", M + "feature_extractor/resnet_feature_extractor.py", "pytorch3d/implicitron/tools/model_io.py", "pytorch3d/implicitron/tools/utils.py"],
     [("GenericModel.forward", M + "generic_model.py"), ("OverfitModel.forward", M + "overfit_model.py"), ("apply_chunked, chunk_generator, preprocess_input, weighted_sum_losses", M + "utils.py"),
      ("ResNetFeatureExtractor.forward", M + "feature_extractor/resnet_feature_extractor.py"), ("save_model, load_model, find_last_checkpoint, purge_epoch", "pytorch3d/implicitron/tools/model_io.py"), ("cat_dataclass", "pytorch3d/implicitron/tools/utils.py")],
     "property-based testing: metamorphic relations between renders of random model configurations",
     "Small networks and images; ray coordinates in the camera's frame, and IDR with several views, are left out (the library does not support them in whole models).")
Tl = "pytorch3d/implicitron/tools/"
prop("C48", "Geometry tools of Implicitron compute what they document",
     "For every set of cameras, images and masks, RGB-D images become the clouds of their masked pixels, clouds are rendered as composited discs at their projections, depth-based rendering shows the known views' cloud in the unseen ones, and depth cleanup keeps exactly the pixels whose depth a point confirms. "
     "Evaluation trajectories follow the documented curves in the rig's frame, upright and towards the scene; circles, best-fit planes, camera alignment, depth bounds and view overlaps are those of their definitions, for batches of any size.",
     ["inputs"], "all cameras of four types, clouds, masks, rigs and options",
     "tests check square images, single batches or that a trajectory has the right shape",
     [Tl + "point_cloud_utils.py", M + "model_dbir.py", Tl + "depth_cleanup.py", Tl + "eval_video_trajectory.py", Tl + "circle_fitting.py", Tl + "camera_utils.py", Tl + "rasterize_mc.py", Tl + "utils.py"],
     [("get_rgbd_point_cloud, render_point_cloud_pytorch3d", Tl + "point_cloud_utils.py"), ("ModelDBIR.forward", M + "model_dbir.py"), ("cleanup_eval_depth", Tl + "depth_cleanup.py"), ("generate_eval_video_cameras", Tl + "eval_video_trajectory.py"),
      ("fit_circle_in_2d, fit_circle_in_3d, get_rotation_to_best_fit_xy", Tl + "circle_fitting.py"), ("apply_camera_alignment, get_min_max_depth_bounds, volumetric_camera_overlaps", Tl + "camera_utils.py"), ("rasterize_mc_samples", Tl + "rasterize_mc.py")],
     "property-based testing: float64 projection and compositing, closed formulas of the curves",
     "Pixels at the edge of a disc excluded; trajectories of degenerate rigs excluded.")
prop("C14", "ShapeNet and R2N2 items are the stored models, seen as their metadata says",
     "For every directory tree, selection of categories and split, ShapeNetCore and R2N2 contain exactly the stored models of the kept categories at contiguous indices, each with its own vertices, faces, texture, label, images of the requested views, and calibration which projects it as the rendering metadata states (azimuth, elevation, distance). "
     "Binvox files give their filled voxels, aligned with the model and seen from the view; batches keep every item; render() draws the requested, or distinct random, models as separate renders would. "
     "Unknown names and indices are rejected.",
     ["inputs"], "all trees of both versions, splits, views, binvox grids and selections",
     "no test of these datasets runs without the data itself",
     ["pytorch3d/datasets/shapenet_base.py", "pytorch3d/datasets/shapenet/shapenet_core.py", "pytorch3d/datasets/r2n2/r2n2.py", "pytorch3d/datasets/r2n2/utils.py", "pytorch3d/datasets/utils.py"],
     [("ShapeNetCore.__init__, __getitem__", "pytorch3d/datasets/shapenet/shapenet_core.py"), ("R2N2.__getitem__, _handle_render_inputs", "pytorch3d/datasets/r2n2/r2n2.py, shapenet_base.py"),
      ("compute_extrinsic_matrix, read_binvox_coords, voxelize, align_bbox", "pytorch3d/datasets/r2n2/utils.py"), ("collate_batched_meshes", "pytorch3d/datasets/utils.py")],
     "property-based testing: generated data sets on disk, viewing equations in float64, differential rendering",
     "Trees of up to 4 categories of 5 models; projected voxels within rounding of a border are not compared.")
PU = "pytorch3d/csrc/pulsar/"
prop("C25", "Pulsar renders spheres by its documented blending, as its cameras see them",
     "For every set of spheres, perspective or orthographic camera (turned, of either handedness, with a shifted principal point), background, gamma, opacities and depth range, every pixel of Pulsar's image is the documented softmax blend of the spheres its ray passes through, and the recorded hits are the nearest of these. "
     "Gradients of positions, colours, radii, opacities and background are the derivatives of that blend, the camera's gradient points in the direction of descent, and batches, orders, capacities and unseen spheres change nothing. "
     "The points renderer shows every cloud of a batch where the given PyTorch3D camera projects it, and leaves the cameras alone.",
     ["inputs"], "all scenes, cameras and blending parameters",
     "tests compare a few stored images, mostly on a GPU",
     [PU + "include/renderer.h", PU + "include/renderer.draw.device.h", PU + "include/renderer.calc_signature.device.h", PU + "include/renderer.backward.device.h", PU + "include/renderer.calc_gradients.device.h",
      PU + "include/closest_sphere_tracker.device.h", PU + "pytorch/renderer.cpp", "pytorch3d/renderer/points/pulsar/renderer.py", "pytorch3d/renderer/points/pulsar/unified.py"],
     [("forward, backward", PU + "pytorch/renderer.cpp"), ("draw, calc_signature, calc_gradients", PU + "include/renderer.draw.device.h, renderer.calc_signature.device.h, renderer.calc_gradients.device.h"),
      ("Renderer.forward", "pytorch3d/renderer/points/pulsar/renderer.py"), ("PulsarPointsRenderer.forward", "pytorch3d/renderer/points/pulsar/unified.py")],
     "property-based testing: float64 ray against every sphere, with derivatives; metamorphic relations",
     "Images up to 14x14; exp is compared within the CPU code's documented approximation; pixels on the rim of a sphere excluded; half-pixel shift of orthographic rays as in the stored reference images.")
prop("C36", "The NeRF project renders by the NeRF equations, however images are chunked",
     "For every camera, image size and chunk size, the NeRF sampler's chunks are together exactly the rays of the pixels, cached or not, training rays are distinct pixels of that camera or random locations, and depths stay within their parts of the ray. "
     "Coarse and fine images are the quadrature of the field along these rays with depths resampled by the coarse weights, compared with the pixels of the given image. "
     "Data sets, evaluation trajectories and statistics are those stored, documented and given.",
     ["inputs", "histories"], "all cameras, image and chunk sizes, fields, data sets and histories",
     "tests check shapes of the rays and one comparison of ray marchers",
     ["projects/nerf/nerf/raysampler.py", "projects/nerf/nerf/implicit_function.py", "projects/nerf/nerf/raymarcher.py", "projects/nerf/nerf/nerf_renderer.py", "projects/nerf/nerf/utils.py", "projects/nerf/nerf/dataset.py",
      "projects/nerf/nerf/eval_video_utils.py", "projects/nerf/nerf/stats.py"],
     [("NeRFRaysampler, ProbabilisticRaysampler", "projects/nerf/nerf/raysampler.py"), ("NeuralRadianceField.forward", "projects/nerf/nerf/implicit_function.py"), ("RadianceFieldRenderer.forward", "projects/nerf/nerf/nerf_renderer.py"),
      ("get_nerf_datasets", "projects/nerf/nerf/dataset.py"), ("generate_eval_video_cameras", "projects/nerf/nerf/eval_video_utils.py"), ("Stats", "projects/nerf/nerf/stats.py")],
     "property-based testing: the field, its quadrature and resampling in float64; chunked against whole images",
     "Images up to 9x9 and small networks; one camera at a time in evaluation; fine pixels whose resampled depths depend on rounding excluded.")
prop("C37", "Interrupted trainings resume as if they had never stopped",
     "A training of the Implicitron trainer which is stopped at any iteration and started again continues from its last checkpoint and ends with the same model, optimizer state, data order and statistics as without the stop; it can also start from a chosen epoch, or afresh, and keeps exactly the configured checkpoints, validations and evaluations. "
     "In every epoch, resumed or not, the learning rate of every group is the configured one times the policy's factor, and every parameter is in the group which the most specific of the documented param_groups rules gives it. "
     "Gradients are clipped by their total norm.",
     ["inputs", "crash points", "histories"], "all stopping points, policies, optimizers, module trees and settings",
     "the test of resuming is skipped, and policies are only run from the first epoch",
     ["projects/implicitron_trainer/impl/optimizer_factory.py", "projects/implicitron_trainer/impl/training_loop.py", "projects/implicitron_trainer/impl/model_factory.py", "projects/implicitron_trainer/experiment.py",
      "pytorch3d/implicitron/tools/model_io.py"],
     [("ImplicitronOptimizerFactory.__call__, _get_param_groups", "projects/implicitron_trainer/impl/optimizer_factory.py"), ("ImplicitronTrainingLoop.run, load_stats, _checkpoint", "projects/implicitron_trainer/impl/training_loop.py"),
      ("ImplicitronModelFactory.__call__", "projects/implicitron_trainer/impl/model_factory.py"), ("Experiment.run", "projects/implicitron_trainer/experiment.py")],
     "fault injection into generated trainings, compared bit by bit with the uninterrupted one; rule interpreter",
     "Trainings of up to 5 epochs of a small network on the CPU, stopped inside of the model's forward pass.")
