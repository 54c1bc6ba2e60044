"""The properties: the one source of properties.jsonl and MANIFEST.json (python3 tools/props.py writes both)."""
import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, na=na))


TRUST = " Random search: no guarantee beyond the generated cases. Trusts the oracle in the check module, torch, numpy and the CPU build."

prop("C01", "Meshes: list, packed and padded views agree after every operation",
     "A Meshes batch built from lists or padded tensors, empty and differently sized meshes included, describes the same meshes through its list, packed and padded views, counts, index maps, edges, areas, normals and bounding boxes, and face and edge tables only ever refer to vertices of their own mesh. "
     "Every history of cloning, detaching, moving, indexing, splitting, extending, joining, offsetting, scaling and vertex updates leaves every view, whether computed before or after the step, equal to what a batch freshly built from the resulting geometry gives. "
     "Operations that return a new batch leave the old one unchanged.",
     ["inputs", "histories"], "all batches (0 to several meshes of 0 or more vertices and faces) and all sequences of operations, interleaved with reads that fill the caches",
     "tests walk a few fixed histories on non-empty random meshes and compare one cache at a time",
     ["pytorch3d/structures/meshes.py", "pytorch3d/structures/utils.py", "pytorch3d/csrc/face_areas_normals"],
     [("lazy _compute_packed/_compute_padded/_compute_edges_packed caches", "pytorch3d/structures/meshes.py"), ("offset_verts_/scale_verts_/update_padded cache handling", "pytorch3d/structures/meshes.py")],
     "stateful model-based property testing against a per-mesh reference model",
     "Random histories of up to 8 operations on up to 4 meshes, each view compared with a numpy model.")
prop("C02", "Pointclouds: list, packed and padded views agree after every operation",
     "A Pointclouds batch with any combination of normals and features, given as lists or padded tensors, describes the same clouds through its list, packed and padded views, counts, index maps and bounding boxes, with empty and differently sized clouds. "
     "Every history of cloning, detaching, moving, indexing, splitting, extending, joining, subsampling, offsetting, scaling and padded updates leaves every view equal to what a batch freshly built from the resulting points gives, keeps each point's normal and feature with it, and operations returning a new batch leave the old one unchanged. "
     "Inputs of inconsistent shapes are rejected.",
     ["inputs", "histories"], "all batches of clouds, with or without normals and features, and all operation sequences",
     "tests exercise each method once on fixed batches; caches filled before a mutation are hardly looked at",
     ["pytorch3d/structures/pointclouds.py", "pytorch3d/structures/utils.py"],
     [("lazy padded/packed caches and __init__ parsing of auxiliary inputs", "pytorch3d/structures/pointclouds.py")],
     "stateful model-based property testing against a per-cloud reference model",
     "Random histories of up to 8 operations on up to 4 clouds, each view compared with a numpy model.")
prop("C03", "Volumes: world and local coordinates, grids and views are consistent",
     "The coordinate grid of a volume batch gives, for each voxel, the world position which the world-to-local map sends to that voxel's place in [-1,1]^3, for every voxel size, translation, grid size (also different per element) and both corner conventions, and local-to-world and world-to-local are inverse. "
     "Cloning, detaching, moving, indexing and padded or list updates keep densities, features, grid sizes and geometry of each element. "
     "Inconsistent inputs are rejected.",
     ["inputs", "histories"], "all batches of volumes, geometries and histories of operations",
     "tests use a handful of sizes and mostly align_corners=True and equally sized grids",
     ["pytorch3d/structures/volumes.py"],
     [("VolumeLocator local_to_world transform and grid", "pytorch3d/structures/volumes.py")],
     "stateful property testing with a float64 reference of the voxel geometry",
     "Grids of 2-6 voxels per axis, up to 3 volumes.")
prop("C04", "Packing, padding and splitting are lossless inverses",
     "Converting between lists, padded and packed tensors, with any element shapes, sizes (0 included) and pad values, loses nothing: each conversion places every element where its documented layout says, fills the rest with the pad value, and converting back gives the original. "
     "The packed-to-padded tensor operators and their gradients do the same. "
     "Inconsistent sizes are rejected.",
     ["inputs"], "all ragged batches of tensors of any trailing shape and dtype",
     "tests use a few fixed shapes, without empty elements in most operators",
     ["pytorch3d/structures/utils.py", "pytorch3d/ops/packed_to_padded.py", "pytorch3d/csrc/packed_to_padded_tensor"],
     [("list_to_padded, padded_to_packed, packed_to_list", "pytorch3d/structures/utils.py"), ("packed_to_padded / padded_to_packed kernels", "pytorch3d/csrc/packed_to_padded_tensor")],
     "property-based testing: round trips and an element-wise layout oracle",
     "Ragged batches of up to 5 elements of up to 3 trailing dimensions.")
prop("C05", "Transform3d algebra: composition, inverse, points, normals, indexing",
     "Every transform built from translations, scales, rotations, axis rotations, explicit matrices and their composition and stacking maps points by the matrix it reports, in composition order, maps normals by the inverse transpose, and its inverse undoes it. "
     "This holds for single and batched transforms with broadcasting, after any history of composing, indexing, cloning, stacking and moving, in both float types, and none of these changes the transforms it started from.",
     ["inputs", "histories"], "all transforms, batch shapes and composition histories",
     "tests check fixed matrices and short chains",
     ["pytorch3d/transforms/transform3d.py"],
     [("compose/get_matrix/inverse/transform_points/transform_normals/__getitem__", "pytorch3d/transforms/transform3d.py")],
     "stateful property testing against float64 homogeneous matrices",
     "Chains of up to 8 operations on batches of up to 4.")
prop("C06", "Rotation conversions describe the same rotation",
     "Converting between rotation matrices, quaternions, axis-angle vectors, Euler angles of every convention and 6D vectors gives the same rotation, for every rotation including the identity, half turns and their neighbourhoods, in every batch shape and float type, with finite gradients; only Euler angles at gimbal lock are excepted. "
     "Quaternion products, inverses and application to points act as the rotations they stand for, and random generators give valid rotations.",
     ["inputs"], "all rotations, batch shapes, float types and Euler conventions",
     "tests use random rotations, which never come near the special angles",
     ["pytorch3d/transforms/rotation_conversions.py"],
     [("matrix_to_quaternion branch selection, small-angle series, half-turn handling", "pytorch3d/transforms/rotation_conversions.py")],
     "property-based differential testing against scipy's rotations",
     "Axis and angle classes drawn around the special cases.")
prop("C07", "SO3 and SE3 exponential and logarithm maps",
     "The exponential maps give the rotation or rigid motion of the matrix exponential, the logarithm maps are their inverses for rotation angles below pi, and hat and hat-inverse are inverse, for every batch and float type, zero and tiny angles included, with finite gradients. "
     "Relative angles and rotation-angle functions give the true angle or its cosine. "
     "The bounded arc cosine equals the arc cosine inside its bounds and continues linearly and with the matching slope outside; matrices that are no rotations or rigid motions in the module's layout are rejected.",
     ["inputs"], "all logarithms with angle in [0, pi), all scalars for the arc cosine",
     "tests sample random logarithms and a few fixed angles",
     ["pytorch3d/transforms/so3.py", "pytorch3d/transforms/se3.py", "pytorch3d/transforms/math.py"],
     [("Rodrigues formula with eps clamps, V matrix of SE3", "pytorch3d/transforms/so3.py, se3.py"), ("acos_linear_extrapolation", "pytorch3d/transforms/math.py")],
     "property-based differential testing against the matrix exponential, gradients by finite differences",
     "Angles from 0 and 1e-9 up to pi - 1e-3.")


EXTRA = os.path.join(VERIF, "tools", "props_more.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    checks, na, lines = [], [], []
    for p in sorted(P, key=lambda p: p["id"]):
        has = glob.glob(os.path.join(VERIF, "checks", p["id"].lower() + "_*.py"))
        if not has and not p["na"]:
            print("no check yet:", p["id"], p["title"])
            p["na"] = "No check built for it (yet); nothing in the property rules the technique out."
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)
        lines.append(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["tests"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"] or ["return values and gradients of the public functions"], hook_needed=None)))
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        else:
            c = f"/opt/venv/bin/python run.py {p['id']} --tier "
            checks.append(dict(property=p["id"], quick_cmd=c + "quick", thorough_cmd=c + "thorough",
                               evidence_file=f"evidence/{p['id']}.json", technique=p["technique"],
                               level="exploration", level_note=p["note"] + TRUST))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        f.writelines(json.dumps(x) + "\n" for x in lines)
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python run.py --setup", checks=checks, not_applicable=na,
                       notes="No hooks: the checks use the public API and the compiled extension of /repo's working tree."), f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not")


if __name__ == "__main__":
    main()
