From 65be42973272b8fd2bff646ff4b39c8948988f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:22 +0000
Subject: [PATCH 001/142] fix: wedge15, pyramid13, hexahedron24 and
 hexahedron1331 blocks could not be constructed

---
 src/meshio/_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 741831d..e05cbad 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -21,11 +21,14 @@ topological_dimension = {
     "quad9": 2,
     "tetra10": 3,
     "hexahedron27": 3,
+    "wedge15": 3,
     "wedge18": 3,
+    "pyramid13": 3,
     "pyramid14": 3,
     "vertex": 0,
     "quad8": 2,
     "hexahedron20": 3,
+    "hexahedron24": 3,
     "triangle10": 2,
     "triangle15": 2,
     "triangle21": 2,
@@ -67,6 +70,7 @@ topological_dimension = {
     "hexahedron512": 3,
     "hexahedron729": 3,
     "hexahedron1000": 3,
+    "hexahedron1331": 3,
     "wedge126": 3,
     "wedge196": 3,
     "wedge288": 3,
-- 
2.43.0


From 2db4b8313626b106faa1c75f189bc9437fc85397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:32 +0000
Subject: [PATCH 002/142] fix: cell data of several blocks was split at the
 wrong places in gmsh 2.2/4.0/4.1, hmf and xdmf

---
 src/meshio/_common.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92ef0e..d25a416 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -88,7 +88,9 @@ num_nodes_per_cell = {
 
 
 def cell_data_from_raw(cells, cell_data_raw):
-    cs = np.cumsum([len(c) for c in cells])[:-1]
+    # `cells` may be a list of CellBlocks or of (type, data) pairs
+    cs = np.cumsum([len(c[1]) if isinstance(c, (list, tuple)) else len(c) for c in cells])
+    cs = cs[:-1]
     return {name: np.split(d, cs) for name, d in cell_data_raw.items()}
 
 
-- 
2.43.0


From 527f4c5c6162fdcfa694e58616af3226ee3349f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:32 +0000
Subject: [PATCH 003/142] fix: ansys binary files declared double precision but
 stored the points in whatever type they had

---
 src/meshio/ansys/_ansys.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 364616a..5a658d8 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -413,7 +413,8 @@ def write(filename, mesh, binary=True):
             f"({key} (1 {first_node_index:x} {num_points:x} 1 {dim:x})(\n".encode()
         )
         if binary:
-            mesh.points.tofile(fh)
+            # section 3010 is double precision
+            mesh.points.astype(np.float64).tofile(fh)
             fh.write(b"\n)")
             fh.write(b"End of Binary Section 3010)\n")
         else:
-- 
2.43.0


From 431c4d26dc9aad1c755918ccf8d29d6aed08d667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:54 +0000
Subject: [PATCH 004/142] fix: integer arrays with several components were
 picked as labels and broke medit, avsucd, su2 and ugrid files

---
 src/meshio/_common.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index d25a416..a92125d 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -108,8 +108,10 @@ def _pick_first_int_data(data):
     keys = list(data.keys())
     candidate_keys = []
     for key in keys:
-        # works for point_data and cell_data
-        if data[key][0].dtype.kind in ["i", "u"]:  # int or uint
+        # works for point_data (array) and cell_data (list of arrays)
+        array = data[key][0] if isinstance(data[key], list) else data[key]
+        # one int or uint per entity
+        if array.dtype.kind in ["i", "u"] and array.ndim == 1:
             candidate_keys.append(key)
 
     if len(candidate_keys) > 0:
-- 
2.43.0


From 73be5e026ffbc50f010e21653e1855d7990f042b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:54 +0000
Subject: [PATCH 005/142] fix: avsucd files with cell data could not be read

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 5fdbfe6..6b76103 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -69,7 +69,7 @@ def read_buffer(f):
     # Read cell data
     if num_cell_data:
         cdata = _read_data(f, num_cells, cell_ids)
-        sections = np.cumsum([len(c[1]) for c in cells[:-1]])
+        sections = np.cumsum([len(c) for c in cells[:-1]])
         for k, v in cdata.items():
             cell_data[k] = np.split(v, sections)
 
-- 
2.43.0


From 92ded0e9aa26ec8310fe26939a341e38febd599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:54 +0000
Subject: [PATCH 006/142] fix: writing avsucd made the caller's 2-D mesh 3-D

---
 src/meshio/avsucd/_avsucd.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 6b76103..9f87c4a 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -145,12 +145,13 @@ def _read_data(f, num_entities, entity_ids):
 
 
 def write(filename, mesh):
+    points = mesh.points
     if len(mesh.points.shape) > 1 and mesh.points.shape[1] == 2:
         warn(
             "AVS-UCD requires 3D points, but 2D points given. "
             "Appending 0 third component."
         )
-        mesh.points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
+        points = np.column_stack([mesh.points, np.zeros_like(mesh.points[:, 0])])
 
     with open_file(filename, "w") as f:
         # Write meshio version
@@ -187,7 +188,7 @@ def write(filename, mesh):
         f.write(f"{num_nodes} {num_cells} {num_node_data_sum} {num_cell_data_sum} 0\n")
 
         # Write nodes
-        _write_nodes(f, mesh.points)
+        _write_nodes(f, points)
 
         # Write cells
         _write_cells(f, mesh.cells, material)
-- 
2.43.0


From 6bb6a1565a86753f3daf44ed765fb7b3e1cc586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 007/142] fix: dolfin-xml kept only the last block's cell data,
 even that of a discarded block

---
 src/meshio/dolfin/_dolfin.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index e43dbd5..bd6d85e 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -229,11 +229,14 @@ def write(filename, mesh):
     _write_mesh(filename, mesh.points, cell_type, mesh.cells)
 
     for name, lst in mesh.cell_data.items():
-        for data in lst:
-            fname = os.path.splitext(filename)[0]
-            cell_data_filename = f"{fname}_{name}.xml"
-            dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-            _write_cell_data(cell_data_filename, dim, np.array(data))
+        # one mesh function for all the cells which have been written
+        data = np.concatenate(
+            [d for c, d in zip(mesh.cells, lst) if c.type == cell_type]
+        )
+        fname = os.path.splitext(filename)[0]
+        cell_data_filename = f"{fname}_{name}.xml"
+        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        _write_cell_data(cell_data_filename, dim, data)
 
 
 register_format("dolfin-xml", [".xml"], read, {"dolfin-xml": write})
-- 
2.43.0


From a86a38801f0c74ef03df5b932a1d9c5dac113021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:14 +0000
Subject: [PATCH 008/142] fix: dolfin-xml cell data was not found again if its
 name has a dot or the file name has special characters

---
 src/meshio/dolfin/_dolfin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index bd6d85e..4c2923c 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -94,7 +94,7 @@ def _read_cell_data(filename):
     for f in os.listdir(dir_name):
         # Check if there are files by the name "<filename>_*.xml"; if yes,
         # extract the * pattern and make it the name of the data set.
-        out = re.match(f"{basename}_([^\\.]+)\\.xml", f)
+        out = re.fullmatch(f"{re.escape(basename)}_(.+)\\.xml", f)
         if not out:
             continue
         name = out.group(1)
-- 
2.43.0


From 305f68d5a34c497fb25932b2b7babb0b3d73e663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:13 +0000
Subject: [PATCH 009/142] fix: flac3d with faces could not be written, cell
 sets were shifted in the caller's mesh and wrong for several blocks

---
 src/meshio/flac3d/_flac3d.py | 78 ++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 38 deletions(-)

diff --git a/src/meshio/flac3d/_flac3d.py b/src/meshio/flac3d/_flac3d.py
index 45ea0d9..0c09719 100644
--- a/src/meshio/flac3d/_flac3d.py
+++ b/src/meshio/flac3d/_flac3d.py
@@ -156,7 +156,7 @@ def read_buffer(f, binary):
             (num_groups,) = struct.unpack("<I", f.read(4))
             for _ in range(num_groups):
                 name, slot, data = _read_cell_group_binary(f)
-                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data)
+                cell_sets[f"{flag}:{name}:{slot}"] = np.array(data, dtype=int)
     else:
         while True:
             line = f.readline()
@@ -190,13 +190,13 @@ def read_buffer(f, binary):
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data)
+                z_cell_sets[f"zone:{name}:{slot}"] = np.asarray(data, dtype=int)
 
             elif split[0] == "FGROUP":
                 name, slot, data = _read_cell_group_ascii(f, line)
                 # Watch out! data refers to the global cell_ids, so we need to
                 # adapt this later.
-                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data)
+                f_cell_sets[f"face:{name}:{slot}"] = np.asarray(data, dtype=int)
 
     cells = f_cells + z_cells
 
@@ -235,10 +235,11 @@ def read_buffer(f, binary):
 
     # cell_sets contains the indices into the global cell list. Since this is
     # split up into blocks, we need to split the cell_sets, too.
-    bins = np.cumsum([len(cb[1]) for cb in cell_blocks])
+    bins = np.cumsum([len(cb[1]) for cb in cell_blocks], dtype=int)
+    offsets = np.concatenate([[0], bins])
     for key, data in cell_sets.items():
         d = np.digitize(data, bins)
-        cell_sets[key] = [data[d == k] for k in range(len(cell_blocks))]
+        cell_sets[key] = [data[d == k] - offsets[k] for k in range(len(cell_blocks))]
 
     # assert len(cell_ids) == sum(len(block) for _, block in cell_blocks)
 
@@ -389,42 +390,44 @@ def split_f_z(mesh):
         if not all(item is None for item in value)
     }
 
-    # Right now, the zsets contain indices into the corresponding cell block.
-    # FLAC3D expects _global_ indices. Update.
-    cell_block_sizes = [len(cb) for cb in zcells]
-    for key, data in zsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    # TODO not sure if fcells and zcells share a common global index
-    cell_block_sizes = [len(cb) for cb in fcells]
-    for key, data in fsets.items():
-        gid = 0
-        for n, block in zip(cell_block_sizes, data):
-            block += gid
-            gid += n
-
-    for label, values in zsets.items():
-        zsets[label] = np.concatenate(values)
-    for label, values in fsets.items():
-        fsets[label] = np.concatenate(values)
-
-    # flac3d indices start at 1
-    for label, values in zsets.items():
-        zsets[label] += 1
-    for label, values in fsets.items():
-        fsets[label] += 1
+    # Right now, the sets contain indices into the corresponding cell block.
+    # FLAC3D expects _global_ indices, starting at 1. The faces are numbered after
+    # the zones.
+    num_zones = sum(len(cb) for cb in zcells)
+    zsets = {
+        key: _global_ids(mesh.cells, "zone", value, 1) for key, value in zsets.items()
+    }
+    fsets = {
+        key: _global_ids(mesh.cells, "face", value, 1 + num_zones)
+        for key, value in fsets.items()
+    }
 
     return zcells, fcells, zsets, fsets
 
 
+def _global_ids(cells, flag, cell_set, offset):
+    out = [np.array([], dtype=int)]
+    for cell_block, indices in zip(cells, cell_set):
+        if cell_block.type not in meshio_only[flag]:
+            continue
+        if indices is not None:
+            out.append(np.asarray(indices, dtype=int) + offset)
+        offset += len(cell_block)
+    return np.concatenate(out)
+
+
 def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
     """Write FLAC3D f3grid grid file."""
-    skip = [c.type for c in mesh.cells if c.type not in meshio_only["zone"]]
+    supported = _merge(meshio_only["zone"], meshio_only["face"])
+    skip = [c.type for c in mesh.cells if c.type not in supported]
     if skip:
-        warn(f'FLAC3D format only supports 3D cells. Skipping {", ".join(skip)}.')
+        warn(f'FLAC3D format only supports 2D and 3D cells. Skipping {", ".join(skip)}.')
+    reduced = [c.type for c in mesh.cells if supported.get(c.type, c.type) != c.type]
+    if reduced:
+        warn(
+            "FLAC3D format only supports linear cells. "
+            f'Skipping the mid-nodes of {", ".join(reduced)}.'
+        )
 
     # split into face/zone data
     zcells, fcells, zsets, fsets = split_f_z(mesh)
@@ -443,7 +446,7 @@ def write(filename, mesh: Mesh, float_fmt: str = ".16e", binary: bool = False):
         # inside the functions.
         gid = np.array(0)
         #
-        cells = _translate_zcells(mesh.points, mesh.cells)
+        cells = _translate_zcells(mesh.points, zcells)
         _write_cells(f, cells, "zone", binary, gid)
         _write_groups(f, mesh.cells, zsets, "zone", binary)
         #
@@ -567,10 +570,9 @@ def _translate_fcells(cells):
     """Reorder meshio cells to FLAC3D faces."""
     faces = []
     for cell_block in cells:
-        ctype, data = cell_block
-        assert ctype in meshio_only["face"]
+        assert cell_block.type in meshio_only["face"]
 
-        key = meshio_only["face"][ctype]
+        key = meshio_only["face"][cell_block.type]
         data = cell_block.data[:, meshio_to_flac3d_order[key]]
         faces.append((key, data))
 
-- 
2.43.0


From b0a3dd8fab851f433538637fdd763aabf9fcaf60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:00 +0000
Subject: [PATCH 010/142] fix: abaqus cell sets over several blocks came back
 with only their last part

---
 src/meshio/abaqus/_abaqus.py | 77 ++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 34 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 0dd8877..180c25b 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -115,8 +115,7 @@ def read_buffer(f):
     cell_ids = []
     point_sets = {}
     cell_sets = {}
-    cell_sets_element = {}  # Handle cell sets defined in ELEMENT
-    cell_sets_element_order = []  # Order of keys is not preserved in Python 3.5
+    cell_sets_element = {}  # Handle cell sets defined in ELEMENT, {name: {block: ids}}
     field_data = {}
     cell_data = {}
     point_data = {}
@@ -144,9 +143,8 @@ def read_buffer(f):
             )
             cells.append(CellBlock(cell_type, cells_data))
             cell_ids.append(ids)
-            if sets:
-                cell_sets_element.update(sets)
-                cell_sets_element_order += list(sets.keys())
+            for name, ids in sets.items():
+                cell_sets_element.setdefault(name, {})[len(cells) - 1] = ids
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
@@ -158,26 +156,26 @@ def read_buffer(f):
             params_map = get_param_map(line, required_keys=["ELSET"])
             set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["ELSET"]
-            cell_sets[name] = []
-            if set_ids.size:
-                for cell_ids_ in cell_ids:
-                    cell_sets_ = np.array(
-                        [
-                            cell_ids_[set_id]
-                            for set_id in set_ids
-                            if set_id in cell_ids_
-                        ],
+            # A set can be given in several pieces, and refer to other sets
+            pieces = [
+                {
+                    ic: np.array(
+                        [ids[set_id] for set_id in set_ids if set_id in ids],
                         dtype="int32",
                     )
-                    cell_sets[name].append(cell_sets_)
-            elif set_names:
-                for set_name in set_names:
-                    if set_name in cell_sets.keys():
-                        cell_sets[name].append(cell_sets[set_name])
-                    elif set_name in cell_sets_element.keys():
-                        cell_sets[name].append(cell_sets_element[set_name])
-                    else:
-                        raise ReadError(f"Unknown cell set '{set_name}'")
+                    for ic, ids in enumerate(cell_ids)
+                }
+            ]
+            for set_name in set_names:
+                if set_name in cell_sets.keys():
+                    pieces.append(dict(enumerate(cell_sets[set_name])))
+                elif set_name in cell_sets_element.keys():
+                    pieces.append(cell_sets_element[set_name])
+                else:
+                    raise ReadError(f"Unknown cell set '{set_name}'")
+            if name in cell_sets:
+                pieces.insert(0, dict(enumerate(cell_sets[name])))
+            cell_sets[name] = _merge_set_pieces(pieces, len(cells))
         elif keyword == "INCLUDE":
             # Splitting line to get external input file path (example: *INCLUDE,INPUT=wInclude_bulk.inp)
             ext_input_file = pathlib.Path(line.split("=")[-1].strip())
@@ -207,16 +205,16 @@ def read_buffer(f):
             line = f.readline()
 
     # Parse cell sets defined in ELEMENT
-    for i, name in enumerate(cell_sets_element_order):
-        # Not sure whether this case would ever happen
-        if name in cell_sets.keys():
-            cell_sets[name][i] = cell_sets_element[name]
-        else:
-            cell_sets[name] = []
-            for ic in range(len(cells)):
-                cell_sets[name].append(
-                    cell_sets_element[name] if i == ic else np.array([], dtype="int32")
-                )
+    for name, piece in cell_sets_element.items():
+        pieces = [piece]
+        if name in cell_sets:
+            pieces.insert(0, dict(enumerate(cell_sets[name])))
+        cell_sets[name] = _merge_set_pieces(pieces, len(cells))
+    # ELEMENT blocks may follow the ELSET
+    cell_sets = {
+        name: _merge_set_pieces([dict(enumerate(blocks))], len(cells))
+        for name, blocks in cell_sets.items()
+    }
 
     return Mesh(
         points,
@@ -229,6 +227,17 @@ def read_buffer(f):
     )
 
 
+def _merge_set_pieces(pieces, num_blocks):
+    """Union of sets of the form {block index: cell indices}."""
+    out = []
+    for ic in range(num_blocks):
+        arrays = [piece[ic] for piece in pieces if ic in piece]
+        arrays = np.concatenate(arrays) if arrays else np.array([], dtype="int32")
+        _, first = np.unique(arrays, return_index=True)
+        out.append(arrays[np.sort(first)])
+    return out
+
+
 def _read_nodes(f):
     points = []
     point_ids = {}
@@ -427,7 +436,7 @@ def write(
         offset = 0
         for ic in range(len(mesh.cells)):
             for k, v in mesh.cell_sets.items():
-                if len(v[ic]) > 0:
+                if v[ic] is not None and len(v[ic]) > 0:
                     els = [str(i + 1 + offset) for i in v[ic]]
                     f.write(f"*ELSET, ELSET={k}\n")
                     f.write(
-- 
2.43.0


From fa6ae9a327f1f4baf92a45c1f28d98b5dcabab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:00 +0000
Subject: [PATCH 011/142] fix: a comment line inside an abaqus NODE, ELEMENT or
 SET section ended it

---
 src/meshio/abaqus/_abaqus.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 180c25b..cafa09f 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -244,6 +244,8 @@ def _read_nodes(f):
     counter = 0
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
@@ -270,6 +272,8 @@ def _read_cells(f, params_map, point_ids):
     idx = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         line = line.strip()
@@ -389,6 +393,8 @@ def _read_set(f, params_map):
     set_names = []
     while True:
         line = f.readline()
+        if line.startswith("**"):  # comment
+            continue
         if not line or line.startswith("*"):
             break
         if line.strip() == "":
-- 
2.43.0


From 621eebe829977cd9728a10587db1e32f76fed82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 012/142] fix: gmsh 4.1 point data and periodic nodes did not
 follow their nodes when these are grouped by entity

---
 src/meshio/gmsh/_gmsh41.py |  8 ++++++++
 src/meshio/gmsh/common.py  | 13 +++++++++++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 3e305a1..c99a655 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -11,6 +11,7 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock, Mesh
 from .common import (
+    _align_point_data,
     _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
@@ -98,6 +99,13 @@ def read_buffer(f, is_ascii: bool, data_size):
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
+    point_data = _align_point_data(point_data, point_tags)
+    if periodic is not None:
+        inv_tags = np.full(np.max(point_tags, initial=-1) + 1, -1, dtype=int)
+        inv_tags[point_tags] = np.arange(len(point_tags))
+        for link in periodic:
+            link[3] = inv_tags[link[3]]
+
     # Add node entity information to the point data
     point_data.update({"gmsh:dim_tags": point_entities})
 
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 717e82e..abf6fe4 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -69,8 +69,8 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
         data = np.fromfile(f, count=num_items * (1 + num_components), sep=" ").reshape(
             (num_items, 1 + num_components)
         )
-        # The first entry is the node number
-        data = data[:, 1:]
+        # The first entry is the node number; sort by it
+        data = data[np.argsort(data[:, 0], kind="stable"), 1:]
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
@@ -89,6 +89,15 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     data_dict[string_tags[0]] = data
 
 
+def _align_point_data(point_data, point_tags):
+    # NodeData refers to the nodes by their tag; put it into the order of the points.
+    rank = np.argsort(np.argsort(point_tags, kind="stable"), kind="stable")
+    return {
+        key: values[rank] if len(values) == len(rank) else values
+        for key, values in point_data.items()
+    }
+
+
 # Translate meshio types to gmsh codes
 # http://gmsh.info//doc/texinfo/gmsh.html#MSH-file-format-version-2
 _gmsh_to_meshio_type = {
-- 
2.43.0


From e25b63d14b9fa4a8b8ae1fde032729896c61dcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:23 +0000
Subject: [PATCH 013/142] fix: gmsh 4.0 files with periodic links could not be
 read

---
 src/meshio/gmsh/_gmsh40.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 3d4270e..9304cf3 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -388,12 +388,15 @@ def _write_periodic(fh, periodic, float_fmt, binary):
     for dim, (stag, mtag), affine, slave_master in periodic:
         tofile(fh, [dim, stag, mtag], c_int)
         if affine is not None and len(affine) > 0:
-            tofile(fh, -1, c_long)
+            if binary:
+                tofile(fh, -1, c_long)
+            else:
+                fh.write(b"Affine ")
             tofile(fh, affine, c_double, fmt=float_fmt)
         slave_master = np.array(slave_master, dtype=c_int)
         slave_master = slave_master.reshape(-1, 2)
         slave_master = slave_master + 1  # Add one, Gmsh is 1-based
-        tofile(fh, len(slave_master), c_int)
+        tofile(fh, len(slave_master), c_long)
         tofile(fh, slave_master, c_int)
     if binary:
         fh.write(b"\n")
-- 
2.43.0


From 18512798ae734d2b3164bf973220d28a08e83f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:23 +0000
Subject: [PATCH 014/142] fix: gmsh 4.1 meshes with entities but no physical
 groups could not be written

---
 src/meshio/gmsh/_gmsh41.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index c99a655..a74669c 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -475,7 +475,7 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
         # If there is a corresponding cell block, write physical tags (if any)
         # and bounding entities (if any)
-        if matching_cell_block.size > 0:
+        if matching_cell_block.size > 0 and "gmsh:physical" in tag_data:
             # entity has a physical tag, write this
             # ASSUMPTION: There is a single physical tag for this
             physical_tag = tag_data["gmsh:physical"][matching_cell_block[0]][0]
-- 
2.43.0


From 917b1e0bacb34da0ba49249360557240007f62f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 015/142] fix: gmsh 4.x files in which only some entities have
 a physical group could not be read

---
 src/meshio/gmsh/_gmsh40.py | 6 ++++--
 src/meshio/gmsh/_gmsh41.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 9304cf3..28b0de9 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -191,13 +191,15 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
 
     cells = []
     cell_data = {}
+    has_physical = any(physical_tag for physical_tag, _, _, _ in data)
     for physical_tag, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
+            # 0 for cells which aren't part of a physical group
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index a74669c..bb7ab92 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -257,13 +257,15 @@ def _read_elements(
     ]
 
     cells = []
+    has_physical = any(physical_tag for physical_tag, _, _, _, _ in data)
     for physical_tag, bound_entity, geom_tag, key, values in data:
         cells.append(CellBlock(key, _gmsh_to_meshio_order(key, values)))
-        if physical_tag:
+        if has_physical:
             if "gmsh:physical" not in cell_data:
                 cell_data["gmsh:physical"] = []
+            # 0 for cells which aren't part of a physical group
             cell_data["gmsh:physical"].append(
-                np.full(len(values), physical_tag[0], int)
+                np.full(len(values), physical_tag[0] if physical_tag else 0, int)
             )
         if "gmsh:geometrical" not in cell_data:
             cell_data["gmsh:geometrical"] = []
-- 
2.43.0


From 498b2401c4938359899bf88822df1303e3436eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 016/142] fix: negative coordinates with many digits could not
 be written to nastran

---
 src/meshio/nastran/_nastran.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0e1313c..0445cbd 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -410,10 +410,13 @@ def _float_to_nastran_string(value, length=16):
         -0.1234 --> "-1.234E-1"
         3.1415926535897932 --> "3.14159265359E+0"
     """
-    out = np.format_float_scientific(value, exp_digits=1, precision=11).replace(
-        "e", "E"
-    )
-    assert len(out) <= 16
+    for precision in range(11, -1, -1):
+        out = np.format_float_scientific(
+            value, exp_digits=1, precision=precision
+        ).replace("e", "E")
+        if len(out) <= length:
+            break
+    assert len(out) <= length
     return out
     # The following is the manual float conversion. Keep it around for a while in case
     # we still need it.
-- 
2.43.0


From 9976ff48f010fa8af2f8cc9a4b6919599954ea1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 017/142] fix: reading a nastran file that ends right after
 BEGIN BULK never returned

---
 src/meshio/nastran/_nastran.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 0445cbd..97a0dbc 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -111,6 +111,8 @@ def read_buffer(f):
 
     while True:
         next_line = f.readline()
+        if not next_line:
+            raise ReadError("Premature EOF")
         # Blank lines or comments
         if len(next_line) < 4 or next_line.startswith(("$", "//", "#")):
             continue
-- 
2.43.0


From 0c9a79df16a689bd1d41f5244f9bdaffb278a3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 018/142] fix: large numbers lost their last digits in
 nastran's small field format

---
 src/meshio/nastran/_nastran.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 97a0dbc..be18497 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -387,7 +387,12 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
 
 def _float_rstrip(x, n=8):
-    return f"{x:f}".rstrip("0")[:n]
+    out = f"{x:f}".rstrip("0")[:n]
+    scientific = _float_to_nastran_string(x, n)
+    # Positional notation doesn't work for large or very small numbers
+    if "." not in out or abs(float(scientific) - x) < abs(float(out) - x):
+        return scientific
+    return out
 
 
 def _float_to_nastran_string(value, length=16):
-- 
2.43.0


From 74ccdf37516200434d254002ec078f15c15597c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:48 +0000
Subject: [PATCH 019/142] fix: nastran cells could not be written in free
 format

---
 src/meshio/nastran/_nastran.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index be18497..a242e14 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -310,7 +310,8 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
 
     if cell_format == "free":
         int_fmt, cell_info_fmt = "{:d}", "{:s},{:d},{:s},"
-        sjoin = ","
+        sjoin, cchar = ",", "+"
+        nipl1, nipl2 = 6, 14
     elif cell_format == "fixed-small":
         int_fmt, cell_info_fmt = "{:<8d}", "{:<8s}{:<8d}{:<8s}"
         sjoin, cchar = "", "+"
-- 
2.43.0


From dbea9fd4d559f6f0526b29c8f2ca16e68494e986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:07 +0000
Subject: [PATCH 020/142] fix: nastran's large field format was unreadable for
 cells, and second-order solids got names which only meshio knows

---
 src/meshio/nastran/_nastran.py | 41 ++++++++++++++++------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index a242e14..9217754 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -173,7 +173,7 @@ def read_buffer(f):
 
         # merge chunks according to large field format
         # large field format: 8 + 16 + 16 + 16 + 16 + 8
-        if chunks[0][0].startswith("GRID*"):
+        if chunks[0][0].strip().endswith("*"):
             new_chunks = []
             for c in chunks:
                 d = [c[0]]
@@ -214,10 +214,10 @@ def read_buffer(f):
         # strip chunks
         chunks = [chunk.strip() for chunk in chunks]
 
-        keyword = chunks[0]
+        keyword = chunks[0].rstrip("*")
 
         # Points
-        if keyword in ["GRID", "GRID*"]:
+        if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
             if len(pref) > 0:
@@ -351,8 +351,10 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
             cell_type = cell_block.type
             cells = cell_block.data
             nastran_type = meshio_to_nastran_type[cell_type]
+            # the fictive names are for internal use only
+            keyword = nastran_type.rstrip("_")
             if cell_format.endswith("-large"):
-                nastran_type += "*"
+                keyword += "*"
             if cell_refs is not None:
                 cell_refs_t = cell_refs[ict]
             else:
@@ -361,28 +363,23 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
                 if cell_refs is not None:
                     cell_ref = str(int(cell_refs_t[ic]))
                 cell_id += 1
-                cell_info = cell_info_fmt.format(nastran_type, cell_id, cell_ref)
+                cell_info = cell_info_fmt.format(keyword, cell_id, cell_ref)
                 cell1 = cell + 1
                 cell1 = _convert_to_nastran_ordering(cell1, nastran_type)
-                conn = sjoin.join(int_fmt.format(nid) for nid in cell1[:nipl1])
-
-                if len(cell1) > nipl1:
+                # split the nodes up into lines
+                splits = range(nipl1, len(cell1), nipl2 - nipl1)
+                lines = [
+                    sjoin.join(int_fmt.format(nid) for nid in nids)
+                    for nids in np.split(np.asarray(cell1), splits)
+                ]
+                f.write(cell_info + lines[0])
+                for k, conn in enumerate(lines[1:]):
                     if cell_format == "free":
-                        cflag1 = cflag3 = ""
-                        cflag2 = cflag4 = "+,"
-                    else:
-                        cflag1 = cflag2 = f"{cchar}1{cell_id:<6x}"
-                        cflag3 = cflag4 = f"{cchar}2{cell_id:<6x}"
-                    f.write(cell_info + conn + cflag1 + "\n")
-                    conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl1:nipl2])
-                    if len(cell1) > nipl2:
-                        f.write(cflag2 + conn + cflag3 + "\n")
-                        conn = sjoin.join(int_fmt.format(nid) for nid in cell1[nipl2:])
-                        f.write(cflag4 + conn + "\n")
+                        f.write("\n+," + conn)
                     else:
-                        f.write(cflag2 + conn + "\n")
-                else:
-                    f.write(cell_info + conn + "\n")
+                        cflag = f"{cchar}{k + 1:x}{cell_id:<6x}"
+                        f.write(cflag + "\n" + cflag + conn)
+                f.write("\n")
 
         f.write("ENDDATA\n")
 
-- 
2.43.0


From b80776626af2f66f0b7fc274fa34fc5fc8c99fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:11 +0000
Subject: [PATCH 021/142] fix: nastran references were attached to the wrong
 points and cells if not all of them have one

---
 src/meshio/nastran/_nastran.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 9217754..8943733 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -101,13 +101,11 @@ def read_buffer(f):
         if len(cells) > 0 and cells[-1][0] == cell_type:
             cells[-1][1].append(cell)
             cells_id[-1].append(cell_id)
-            if cell_ref is not None:
-                cell_refs[-1].append(cell_ref)
+            cell_refs[-1].append(cell_ref)
         else:
             cells.append((cell_type, [cell]))
             cells_id.append([cell_id])
-            if cell_ref is not None:
-                cell_refs.append([cell_ref])
+            cell_refs.append([cell_ref])
 
     while True:
         next_line = f.readline()
@@ -220,8 +218,7 @@ def read_buffer(f):
         if keyword == "GRID":
             point_id = int(chunks[1])
             pref = chunks[2].strip()
-            if len(pref) > 0:
-                point_refs.append(int(pref))
+            point_refs.append(int(pref) if len(pref) > 0 else None)
             points_id.append(point_id)
             points.append([_nastran_string_to_float(i) for i in chunks[3:6]])
 
@@ -268,10 +265,15 @@ def read_buffer(f):
     mesh = Mesh(points, cells)
     mesh.points_id = points_id
     mesh.cells_id = cells_id
-    if len(point_refs) > 0:
-        mesh.point_data["nastran:ref"] = np.array(point_refs)
-    if len(cell_refs) > 0:
-        mesh.cell_data["nastran:ref"] = [np.array(i) for i in cell_refs]
+    # Not all points and cells need to have a reference
+    if any(ref is not None for ref in point_refs):
+        mesh.point_data["nastran:ref"] = np.array(
+            [0 if ref is None else ref for ref in point_refs]
+        )
+    if any(ref is not None for refs in cell_refs for ref in refs):
+        mesh.cell_data["nastran:ref"] = [
+            np.array([0 if ref is None else ref for ref in refs]) for refs in cell_refs
+        ]
     return mesh
 
 
-- 
2.43.0


From 15295a63a8ce5b600dc684dd5d907fda8b00a8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:41 +0000
Subject: [PATCH 022/142] fix: permas did not restore the node order of
 triangle6, quad9, tetra10 and wedge15 cells

---
 src/meshio/permas/_permas.py | 59 +++++++++++++-----------------------
 1 file changed, 21 insertions(+), 38 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index dda02a3..0c8b989 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -57,6 +57,15 @@ permas_to_meshio_type = {
 meshio_to_permas_type = {v: k for k, v in permas_to_meshio_type.items()}
 
 
+# position of the meshio nodes in a PERMAS cell
+meshio_to_permas_order = {
+    "triangle6": [0, 3, 1, 4, 2, 5],
+    "tetra10": [0, 4, 1, 5, 2, 6, 7, 8, 9, 3],
+    "quad9": [0, 4, 1, 7, 8, 5, 3, 6, 2],
+    "wedge15": [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14],
+}
+
+
 def read(filename):
     """Reads a PERMAS dat file."""
     with open_file(filename, "r") as f:
@@ -155,7 +164,10 @@ def _read_cells(f, line0, point_gids):
             cells.append(idx)
             idx = []
     f.seek(last_pos)
-    return cell_type, np.array(cells)
+    cells = np.array(cells)
+    if cell_type in meshio_to_permas_order and len(cells) > 0:
+        cells = cells[:, np.argsort(meshio_to_permas_order[cell_type])]
+    return cell_type, cells
 
 
 def get_param_map(word, required_keys=None):
@@ -239,47 +251,18 @@ def write(filename, mesh):
         for k, x in enumerate(points):
             f.write(f"{k + 1} {x[0]} {x[1]} {x[2]}\n")
         eid = 0
-        tria6_order = [0, 3, 1, 4, 2, 5]
-        tet10_order = [0, 4, 1, 5, 2, 6, 7, 8, 9, 3]
-        quad9_order = [0, 4, 1, 7, 8, 5, 3, 6, 2]
-        wedge15_order = [0, 6, 1, 7, 2, 8, 9, 10, 11, 3, 12, 4, 13, 5, 14]
         for cell_block in mesh.cells:
             node_idcs = cell_block.data
             f.write("!\n")
             f.write("$ELEMENT TYPE=" + meshio_to_permas_type[cell_block.type] + "\n")
-            if cell_block.type == "tetra10":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tet10_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "triangle6":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in tria6_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "quad9":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in quad9_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            elif cell_block.type == "wedge15":
-                for row in node_idcs:
-                    eid += 1
-                    mylist = row.tolist()
-                    mylist = [mylist[i] for i in wedge15_order]
-                    nids_strs = (str(nid + 1) for nid in mylist)
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
-            else:
-                for row in node_idcs:
-                    eid += 1
-                    nids_strs = (str(nid + 1) for nid in row.tolist())
-                    f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
+            order = meshio_to_permas_order.get(cell_block.type)
+            for row in node_idcs:
+                eid += 1
+                mylist = row.tolist()
+                if order is not None:
+                    mylist = [mylist[i] for i in order]
+                nids_strs = (str(nid + 1) for nid in mylist)
+                f.write(str(eid) + " " + " ".join(nids_strs) + "\n")
         f.write("$END STRUCTURE\n")
         f.write("$EXIT COMPONENT\n")
         f.write("$FIN\n")
-- 
2.43.0


From 00abe959f19ad615d52fc58ed96474907e7397b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:46 +0000
Subject: [PATCH 023/142] fix: a comment line inside a permas COOR section
 ended it

---
 src/meshio/permas/_permas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 0c8b989..f5b0d75 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -129,8 +129,8 @@ def _read_nodes(f):
         last_pos = f.tell()
         line = f.readline()
         if line.startswith("!"):
-            break
-        if line.startswith("$"):
+            continue
+        if line.startswith("$") or line == "":
             break
         entries = line.strip().split(" ")
         gid, x = entries[0], entries[1:]
@@ -157,6 +157,8 @@ def _read_cells(f, line0, point_gids):
         line = f.readline()
         if line.startswith("$") or line == "":
             break
+        if line.startswith("!"):
+            continue
         line = line.strip()
         # the first item is just a running index
         idx += [point_gids[int(k)] for k in filter(None, line.split(" ")[1:])]
-- 
2.43.0


From fb8a91bff68246d2ca8ede9b4e528e1491e43e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:35 +0000
Subject: [PATCH 024/142] fix: writing ply changed the index type of the
 caller's cells

---
 src/meshio/ply/_ply.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4393cbc..61095d7 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -442,6 +442,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
+        # don't alter the mesh data
+        cells = list(mesh.cells)
+
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
         for cell_block in mesh.cells:
@@ -452,12 +455,11 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(f"element face {num_cells:d}\n".encode())
 
             # possibly cast down to int32
-            # TODO don't alter the mesh data
             has_cast = False
-            for k, cell_block in enumerate(mesh.cells):
+            for k, cell_block in enumerate(cells):
                 if cell_block.data.dtype == np.int64:
                     has_cast = True
-                    mesh.cells[k] = CellBlock(
+                    cells[k] = CellBlock(
                         cell_block.type, cell_block.data.astype(np.int32)
                     )
 
@@ -466,7 +468,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
             # assert that all cell dtypes are equal
             cell_dtype = None
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_dtype is None:
                     cell_dtype = cell_block.data.dtype
                 if cell_block.data.dtype != cell_dtype:
@@ -485,7 +487,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.tobytes())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
@@ -508,7 +510,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             fh.write(out.encode())
 
             # cells
-            for cell_block in mesh.cells:
+            for cell_block in cells:
                 if cell_block.type not in legal_cell_types:
                     warn(
                         f'cell_type "{cell_block.type}" is not supported by PLY format '
-- 
2.43.0


From 732f29e866e86e31d0e8726444248a79989060c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:40 +0000
Subject: [PATCH 025/142] fix: ply files with int16 and some other number types
 could not be read, and uchar was read as signed

---
 src/meshio/ply/_ply.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 61095d7..47a2b5f 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -29,6 +29,7 @@ ply_to_numpy_dtype = {
     "ushort": np.uint16,
     "int": np.int32,
     "int8": np.int8,
+    "int16": np.int16,
     "int32": np.int32,
     "int64": np.int64,
     "uint": np.uint32,
@@ -264,19 +265,7 @@ def _read_binary(
     cell_data_dtypes,
 ):
     ply_to_numpy_dtype_string = {
-        "uchar": "i1",
-        "uint": "u4",
-        "uint8": "u1",
-        "uint16": "u2",
-        "uint32": "u4",
-        "uint64": "u8",
-        "int": "i4",
-        "int8": "i1",
-        "int32": "i4",
-        "int64": "i8",
-        "float": "f4",
-        "float32": "f4",
-        "double": "f8",
+        key: np.dtype(value).str[1:] for key, value in ply_to_numpy_dtype.items()
     }
 
     # read point data
-- 
2.43.0


From cb1596b4cfc964477541d556326ca109f30b25f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:45 +0000
Subject: [PATCH 026/142] fix: ascii ply data with special characters in the
 name, or for one point only, could not be read

---
 src/meshio/ply/_ply.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 47a2b5f..6edc6e1 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -182,11 +182,13 @@ def _read_ascii(
     # Now read the data
     dtype = np.dtype(
         [
-            (name, ply_to_numpy_dtype[fmt])
-            for name, fmt in zip(point_data_names, point_data_formats)
+            # not the actual names, genfromtxt modifies them
+            (f"f{i}", ply_to_numpy_dtype[fmt])
+            for i, fmt in enumerate(point_data_formats)
         ]
     )
-    pd = np.genfromtxt(f, max_rows=num_verts, dtype=dtype)
+    pd = np.atleast_1d(np.genfromtxt(f, max_rows=num_verts, dtype=dtype))
+    pd = {name: pd[f"f{i}"] for i, name in enumerate(point_data_names)}
 
     # split off coordinate data and additional point data
     verts = []
-- 
2.43.0


From bb61ad3ac19686cb03e1913b965f3b61e5336eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:51 +0000
Subject: [PATCH 027/142] fix: binary ply files with vertex cells could not be
 read

---
 src/meshio/ply/_ply.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 6edc6e1..72ce377 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -371,7 +371,7 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
         block_buffer = buffer[byte_starts_ends[start] : byte_starts_ends[end]]
         cells_per_row = (row_lengths[start] - count_itemsize) // data_itemsize
         block_dtype = np.dtype(
-            [("count", count_dtype), ("data", data_dtype * cells_per_row)]
+            [("count", count_dtype), ("data", data_dtype, (cells_per_row,))]
         )
         cells = np.frombuffer(block_buffer, dtype=block_dtype)["data"]
 
-- 
2.43.0


From 859a6e7f73da522c377cbbf1f78a0f8f159450af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:58 +0000
Subject: [PATCH 028/142] fix: reading a ply file that ends within the header
 never returned

---
 src/meshio/ply/_ply.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 72ce377..8b4b571 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -67,7 +67,10 @@ def read(filename):
 def _next_line(f):
     # fast forward to the next significant line
     while True:
-        line = f.readline().decode().strip()
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file")
+        line = line.strip()
         if line and line[:7] != "comment":
             break
     return line
-- 
2.43.0


From c29cd306d8d6a6319be55f92869f78b7b3cb9d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:02 +0000
Subject: [PATCH 029/142] fix: ply files with two coordinates, or coordinates
 that do not come first, could not be read

---
 src/meshio/ply/_ply.py | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 8b4b571..2167a91 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -194,22 +194,10 @@ def _read_ascii(
     pd = {name: pd[f"f{i}"] for i, name in enumerate(point_data_names)}
 
     # split off coordinate data and additional point data
-    verts = []
-    k = 0
-    if point_data_names[0] == "x":
-        verts.append(pd["x"])
-        k += 1
-    if point_data_names[1] == "y":
-        verts.append(pd["y"])
-        k += 1
-    if point_data_names[2] == "z":
-        verts.append(pd["z"])
-        k += 1
-    verts = np.column_stack(verts)
+    verts = np.column_stack([pd[name] for name in ["x", "y", "z"] if name in pd])
 
     point_data = {
-        point_data_names[i]: pd[point_data_names[i]]
-        for i in range(k, len(point_data_names))
+        name: values for name, values in pd.items() if name not in ["x", "y", "z"]
     }
     cell_data = {}
 
@@ -281,7 +269,9 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
-    verts = np.column_stack([point_data["x"], point_data["y"], point_data["z"]])
+    verts = np.column_stack(
+        [point_data[name] for name in ["x", "y", "z"] if name in point_data_names]
+    )
     point_data = {
         name: point_data[name]
         for name in point_data_names
-- 
2.43.0


From 819eba89ac95257dedd2f13aa43401c5105fbcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:36 +0000
Subject: [PATCH 030/142] fix: ply face properties: binary ones could not be
 read, ascii ones were not kept with their cells

---
 src/meshio/ply/_ply.py | 61 +++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 19 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 2167a91..74e7bc6 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -4,7 +4,6 @@ I/O for the PLY format, cf.
 <https://web.archive.org/web/20161221115231/http://www.cs.virginia.edu/~gfx/Courses/2001/Advanced.spring.01/plylib/Ply.txt>.
 """
 
-import collections
 import datetime
 import re
 import sys
@@ -216,12 +215,11 @@ def _read_ascii(
                     n = int(data[i])
                     i += n + 1
                 else:
-                    cell_data[name] = collections.defaultdict(list)
+                    cell_data[name] = []
                     i += 1
 
         # go over the line
         i = 0
-        n = None
         for name, dtype in zip(cell_data_names, cell_dtypes):
             if name == "vertex_indices":
                 idx_dtype, value_dtype = dtype
@@ -235,14 +233,10 @@ def _read_ascii(
                 i += n + 1
             else:
                 dtype = ply_to_numpy_dtype[dtype]
-                # use n from vertex_indices
-                assert n is not None
-                cell_data[name][n] += [dtype(data[j]) for j in range(i, i + 1)]
+                cell_data[name].append(dtype(data[i]))
                 i += 1
 
-    cell_data = {
-        key: [np.array(v) for v in value.values()] for key, value in cell_data.items()
-    }
+    cell_data = _split_cell_data(cell_data, cell_blocks)
 
     return Mesh(verts, cell_blocks, point_data=point_data, cell_data=cell_data)
 
@@ -298,23 +292,52 @@ def _read_binary(
     buffer_position = 0
 
     cell_data = {}
-    for name, dt in zip(cell_data_names, dts):
-        if isinstance(dt, tuple):
+    if all(isinstance(dt, tuple) for dt in dts):
+        for name, dt in zip(cell_data_names, dts):
             buffer_increment, cell_data[name] = _read_binary_list(
                 buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
             )
-        else:
-            buffer_increment = np.dtype(dt).itemsize
-            cell_data[name] = np.frombuffer(
-                buffer[buffer_position : buffer_position + buffer_increment], dtype=dt
-            )[0]
-        buffer_position += buffer_increment
-
-    cells = cell_data.pop("vertex_indices", [])
+            buffer_position += buffer_increment
+        cells = cell_data.pop("vertex_indices", [])
+    else:
+        cells, cell_data = _read_binary_rows(buffer, cell_data_names, dts, num_cells)
 
     return Mesh(verts, cells, point_data=point_data, cell_data=cell_data)
 
 
+def _split_cell_data(cell_data, cell_blocks):
+    """Split the data of all cells up into blocks."""
+    splits = np.cumsum([len(block) for _, block in cell_blocks])[:-1]
+    return {key: np.split(np.array(v), splits) for key, v in cell_data.items()}
+
+
+def _read_binary_rows(buffer, names, dtypes, num_cells):
+    """Parse cells with additional scalar properties, one after the other."""
+    cell_blocks = []
+    cell_data = {
+        name: [] for name, dt in zip(names, dtypes) if not isinstance(dt, tuple)
+    }
+    at = 0
+    for _ in range(num_cells):
+        for name, dt in zip(names, dtypes):
+            if isinstance(dt, tuple):
+                n = int(np.frombuffer(buffer, dt[0], 1, at)[0])
+                at += np.dtype(dt[0]).itemsize
+                row = np.frombuffer(buffer, dt[1], n, at)
+                at += row.nbytes
+                if name != "vertex_indices":
+                    continue
+                if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
+                    cell_blocks.append((cell_type_from_count(n), []))
+                cell_blocks[-1][1].append(row)
+            else:
+                cell_data[name].append(np.frombuffer(buffer, dt, 1, at)[0])
+                at += np.dtype(dt).itemsize
+
+    cell_blocks = [(key, np.array(value)) for key, value in cell_blocks]
+    return cell_blocks, _split_cell_data(cell_data, cell_blocks)
+
+
 def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     """Parse a ply ragged list into a :class:`CellBlock` for each change in row
     length. The only way to know how many bytes the list takes up is to parse
-- 
2.43.0


From ff3b354d713835149bb7a4195837a18ba8edece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:01 +0000
Subject: [PATCH 031/142] fix: su2 meshes with boundary cells could not be
 written

---
 src/meshio/su2/_su2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index b925171..cfd86d1 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -338,7 +338,8 @@ def write(filename, mesh):
             f.write(f"MARKER_TAG= {tag}\n".encode())
             f.write(f"MARKER_ELEMS= {count}\n".encode())
 
-            for index, (cell_type, data) in enumerate(mesh.cells):
+            for index, cell_block in enumerate(mesh.cells):
+                cell_type, data = cell_block.type, cell_block.data
 
                 if cell_type not in types:
                     continue
-- 
2.43.0


From d8a5fc6eea9e5fc078f7b496ccb367c16cd69dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:06 +0000
Subject: [PATCH 032/142] fix: su2 files without volume cells could not be read

---
 src/meshio/su2/_su2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index cfd86d1..eb2dc88 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -116,6 +116,8 @@ def read_buffer(f):
             # translate_cells function from vtk reader
 
             num_elems = int(rest_of_line)
+            if num_elems == 0:
+                continue
             gen = islice(f, num_elems)
 
             # some files has an extra int column while other not
-- 
2.43.0


From e4ab93ce9621fe24d6be7fb4f13633ca4525ec5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:11 +0000
Subject: [PATCH 033/142] fix: su2 dropped cells of the wrong dimension without
 saying so

---
 src/meshio/su2/_su2.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index eb2dc88..f4a9a17 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -259,14 +259,6 @@ def write(filename, mesh):
         f.write(f"NPOIN= {num_points}\n".encode())
         np.savetxt(f, mesh.points)
 
-        # Through warnings about unsupported types
-        for cell_block in mesh.cells:
-            if cell_block.type not in meshio_to_su2_type:
-                warn(
-                    ".su2 does not support tags elements of type {}.\n"
-                    "Skipping ...".format(type)
-                )
-
         # Write `internal` cells
 
         types = None
@@ -276,6 +268,15 @@ def write(filename, mesh):
         else:
             types = ["tetra", "hexahedron", "wedge", "pyramid"]
 
+        # Throw warnings about unsupported types
+        boundary_types = ["line"] if dim == 2 else ["triangle", "quad"]
+        for cell_block in mesh.cells:
+            if cell_block.type not in types + boundary_types:
+                warn(
+                    f".su2 does not support elements of type {cell_block.type} "
+                    f"in {dim}D. Skipping ..."
+                )
+
         cells = [c for c in mesh.cells if c.type in types]
         total_num_volume_cells = sum(len(c.data) for c in cells)
         f.write(f"NELEM= {total_num_volume_cells}\n".encode())
-- 
2.43.0


From 9da38f1275c19e900726417e6cb289dc8df8fac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:17 +0000
Subject: [PATCH 034/142] fix: su2 keywords followed by a space were ignored

---
 src/meshio/su2/_su2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index f4a9a17..8b63ab2 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -74,7 +74,7 @@ def read_buffer(f):
             continue
 
         try:
-            name, rest_of_line = line.split("=")
+            name, rest_of_line = (item.strip() for item in line.split("="))
         except ValueError:
             warn(f"meshio could not parse line\n {line}\n skipping.....")
             continue
-- 
2.43.0


From 54ce969f967e260299c43336130470b6a77a379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:53 +0000
Subject: [PATCH 035/142] fix: tecplot files in which point and cell data have
 the same name could not be read

---
 src/meshio/tecplot/_tecplot.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 4acf2c3..adf3b35 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -203,14 +203,13 @@ def read_buffer(f):
         if zone_format == "FEBLOCK"
         else np.transpose(data)
     )
-    data = {k: v for k, v in zip(variables, data)}
 
     point_data, cell_data = {}, {}
-    for i, variable in zip(is_cell_centered, variables):
+    for i, variable, values in zip(is_cell_centered, variables, data):
         if i:
-            cell_data[variable] = [data[variable]]
+            cell_data[variable] = [values]
         else:
-            point_data[variable] = data[variable]
+            point_data[variable] = values
 
     x = "X" if "X" in point_data.keys() else "x"
     y = "Y" if "Y" in point_data.keys() else "y"
-- 
2.43.0


From cd28249b4440380a867df9fb175190b7340f9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:58 +0000
Subject: [PATCH 036/142] fix: tecplot wrote the wrong zone type if
 lower-dimensional cells came first, and failed on lines with other cells

---
 src/meshio/tecplot/_tecplot.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index adf3b35..db0a553 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -391,6 +391,19 @@ def write(filename, mesh):
                 ).format(c.type, ic)
             )
 
+    # A zone can only hold cells of one dimension, keep the highest
+    num_dims = [meshio_type_to_ndim[cell_type] for cell_type in cell_types]
+    for ic, ndim in zip(cell_blocks, num_dims):
+        if ndim < max(num_dims):
+            warn(
+                "Tecplot zones can only hold cells of one dimension. "
+                f"Skipping cell block {ic} ({mesh.cells[ic].type})."
+            )
+    cell_blocks = [
+        ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == max(num_dims)
+    ]
+    cell_types = [mesh.cells[ic].type for ic in cell_blocks]
+
     # Define cells and zone type
     cell_types = np.unique(cell_types)
     if len(cell_types) == 0:
@@ -405,16 +418,8 @@ def write(filename, mesh):
             ]
         )
     else:
-        # Check if the mesh contains 2D and 3D cells
-        num_dims = [meshio_type_to_ndim[mesh.cells[ic].type] for ic in cell_blocks]
-
-        # Skip 2D cells if it does
-        if len(np.unique(num_dims)) == 2:
-            warn("Mesh contains 2D and 3D cells. Skipping 2D cells.")
-            cell_blocks = [ic for ic, ndim in zip(cell_blocks, num_dims) if ndim == 3]
-
         # Convert 2D cells to quads / 3D cells to hexahedra
-        zone_type = "FEQUADRILATERAL" if num_dims[0] == 2 else "FEBRICK"
+        zone_type = "FEQUADRILATERAL" if max(num_dims) == 2 else "FEBRICK"
         cells = np.concatenate(
             [
                 mesh.cells[ic].data[:, meshio_to_tecplot_order_2[mesh.cells[ic].type]]
-- 
2.43.0


From dd195906d25e77243d68cb211c04bde3a2461dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:03 +0000
Subject: [PATCH 037/142] fix: reading a truncated tecplot file never returned

---
 src/meshio/tecplot/_tecplot.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index db0a553..6ffd1f3 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -357,17 +357,24 @@ def _parse_fezone(zone, variables):
     return num_nodes, num_cells, zone_format, zone_type, is_cell_centered
 
 
+def _read_data_line(f):
+    line = f.readline()
+    if not line:
+        raise ReadError("Unexpected end of file")
+    return [] if line.strip().startswith("#") else line.split()
+
+
 def _read_zone_data(f, num_data, num_cells, zone_format):
     data, count = [], 0
     while count < num_data:
-        line = readline(f).split()
+        line = _read_data_line(f)
         if line:
             data += [[float(x) for x in line]]
             count += len(line) if zone_format == "FEBLOCK" else 1
 
     cells, count = [], 0
     while count < num_cells:
-        line = readline(f).split()
+        line = _read_data_line(f)
         if line:
             cells += [[[int(x) for x in line]]]
             count += 1
-- 
2.43.0


From 1cb38b93f56d2204af3531b4ed837f96153061e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:08 +0000
Subject: [PATCH 038/142] fix: tecplot variable names on continuation lines
 were read in capitals

---
 src/meshio/tecplot/_tecplot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 6ffd1f3..75ed381 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -130,12 +130,12 @@ def read_buffer(f):
             # variable name is double quoted
             lines = [line]
             i = f.tell()
-            line = readline(f).upper()
+            line = readline(f)
             while True:
                 if line.startswith('"'):
                     lines += [line]
                     i = f.tell()
-                    line = readline(f).upper()
+                    line = readline(f)
                 else:
                     f.seek(i)
                     break
-- 
2.43.0


From 6181ea3e69270dd2a1a2104e671a1cba8cc8ac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:37 +0000
Subject: [PATCH 039/142] fix: tetgen files with several blocks of tetrahedra,
 or other cells before them, were wrong

---
 src/meshio/tetgen/_tetgen.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index c869496..997cb0f 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -156,13 +156,18 @@ def write(filename, mesh, float_fmt=".16e"):
         fh.write(f"# This file was created by meshio v{__version__}\n")
         if nattr > 0:
             fh.write("# attribute names: {}\n".format(", ".join(attr_keys)))
-        for id, c in enumerate(filter(lambda c: c.type == "tetra", mesh.cells)):
-            data = c.data
-            fh.write(f"{data.shape[0]} {4} {nattr}\n")
-            fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
-            for k, tet in enumerate(data):
+        # all tetrahedra go into one table
+        num_tets = sum(len(c) for c in mesh.cells if c.type == "tetra")
+        fh.write(f"{num_tets} {4} {nattr}\n")
+        fmt = " ".join((5 + nattr) * ["{}"]) + "\n"
+        index = 0
+        for id, c in enumerate(mesh.cells):
+            if c.type != "tetra":
+                continue
+            for k, tet in enumerate(c.data):
                 data = list(tet[:4]) + [mesh.cell_data[key][id][k] for key in attr_keys]
-                fh.write(fmt.format(k, *data))
+                fh.write(fmt.format(index, *data))
+                index += 1
 
 
 register_format("tetgen", [".ele", ".node"], read, {"tetgen": write})
-- 
2.43.0


From f4babfb95e8d3f0bfa25be22aedae63abc8f7c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:41 +0000
Subject: [PATCH 040/142] fix: tetgen files with real cell attributes could not
 be read

---
 src/meshio/tetgen/_tetgen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 997cb0f..7e8f286 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -73,15 +73,18 @@ def read(filename):
         if num_points_per_tet != 4:
             raise ReadError()
         cells = np.fromfile(
-            f, dtype=int, count=(5 + num_attrs) * num_tets, sep=" "
+            f, dtype=float, count=(5 + num_attrs) * num_tets, sep=" "
         ).reshape(num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
             flag = "" if k == 0 else str(k + 1)
-            cell_data["tetgen:ref" + flag] = [cells[:, 5 + k]]
+            attr = cells[:, 5 + k]
+            if np.all(attr == attr.astype(int)):
+                attr = attr.astype(int)
+            cell_data["tetgen:ref" + flag] = [attr]
         # remove the leading index column and the attributes
-        cells = cells[:, 1:5]
+        cells = cells[:, 1:5].astype(int)
         cells -= node_index_base
 
     return Mesh(
-- 
2.43.0


From 13b2e53bebba055fac806e4a75bb9f10b277624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:46 +0000
Subject: [PATCH 041/142] fix: reading a tetgen file without a header line
 never returned

---
 src/meshio/tetgen/_tetgen.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 7e8f286..55343f5 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -30,9 +30,7 @@ def read(filename):
 
     # read nodes
     with open(node_filename) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _read_header(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
             int(item) for item in line.split(" ") if item != ""
@@ -63,9 +61,7 @@ def read(filename):
 
     # read elements
     with open(ele_filename.as_posix()) as f:
-        line = f.readline().strip()
-        while len(line) == 0 or line[0] == "#":
-            line = f.readline().strip()
+        line = _read_header(f)
 
         num_tets, num_points_per_tet, num_attrs = (
             int(item) for item in line.strip().split(" ") if item != ""
@@ -92,6 +88,15 @@ def read(filename):
     )
 
 
+def _read_header(f):
+    # the first line which is not empty or a comment
+    for line in iter(f.readline, ""):
+        line = line.strip()
+        if line and line[0] != "#":
+            return line
+    raise ReadError("Unexpected end of file")
+
+
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
     if filename.suffix == ".node":
-- 
2.43.0


From d0aca75e0afd9e4a77d06fa930f141dedf398d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:51 +0000
Subject: [PATCH 042/142] fix: ugrid meshes with surface labels could not be
 written

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 6fa57c0..5f9e008 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -253,7 +253,7 @@ def _write_buffer(f, file_type, mesh):
                 f'Picking {labels_key}, skipping {", ".join(other)}.'
             )
         labels = (
-            mesh.cell_data[labels_key]
+            np.asarray(mesh.cell_data[labels_key][ugrid_meshio_id[key]])
             if labels_key
             else np.ones(ugrid_counts[key], dtype=int)
         )
-- 
2.43.0


From 18d86cbe258c88496fbf6c0906c024bd7717d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:56 +0000
Subject: [PATCH 043/142] fix: ascii ugrid coordinates were read in single
 precision

---
 src/meshio/ugrid/_ugrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 5f9e008..4007654 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -23,7 +23,7 @@ from .._mesh import CellBlock, Mesh
 # 64-bit versions described here
 # https://www.simcenter.msstate.edu/software/documentation/ug_io/ugc_l_file_formats.html
 file_types = {
-    "ascii": {"type": "ascii", "float_type": "f", "int_type": "i"},
+    "ascii": {"type": "ascii", "float_type": "f8", "int_type": "i"},
     "b8l": {"type": "C", "float_type": ">f8", "int_type": ">i8"},
     "b8": {"type": "C", "float_type": ">f8", "int_type": ">i4"},
     "b4": {"type": "C", "float_type": ">f4", "int_type": ">i4"},
-- 
2.43.0


From 1655ec3073b4a84e5e0db273496e18f8527f19eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:02 +0000
Subject: [PATCH 044/142] fix: ugrid fortran record markers did not give the
 length of the record

---
 src/meshio/ugrid/_ugrid.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 4007654..716f0e7 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -204,7 +204,7 @@ def _write_buffer(f, file_type, mesh):
     # it has to be before and after each record
     fortran_header = None
     if file_type["type"] == "F":
-        fortran_header = np.array([nitems.nbytes])
+        fortran_header = np.array([nitems.size * np.dtype(itype).itemsize])
         _write_section(f, file_type, fortran_header, itype)
 
     _write_section(f, file_type, nitems, itype)
@@ -214,9 +214,10 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.nbytes
-        for cell_block in mesh.cells:
-            fortran_header += cell_block.data.nbytes
+        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        for key, i in ugrid_meshio_id.items():
+            if i >= 0:
+                fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
         # boundary tags
         if ugrid_counts["triangle"] > 0:
             fortran_header += ugrid_counts["triangle"] * np.dtype(itype).itemsize
-- 
2.43.0


From 90a3ccfd90b4380cba099b6b8d570fca804fb7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:11 +0000
Subject: [PATCH 045/142] x

fix: writing vtk and vtu removed the sets of the caller's mesh
---
 src/meshio/_common.py     | 12 ++++++++++++
 src/meshio/vtk/_vtk_51.py |  5 ++++-
 src/meshio/vtu/_vtu.py    | 12 +++++++++++-
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_common.py b/src/meshio/_common.py
index a92125d..4a9b784 100644
--- a/src/meshio/_common.py
+++ b/src/meshio/_common.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 from xml.etree import ElementTree as ET
 
 import numpy as np
@@ -150,6 +151,17 @@ def is_in_any(string: str, strings: list[str]) -> bool:
     return False
 
 
+def shallow_copy(mesh):
+    """Mesh which shares the arrays, but not the containers they are in."""
+    out = copy.copy(mesh)
+    out.point_data = dict(mesh.point_data)
+    out.cell_data = {key: list(data) for key, data in mesh.cell_data.items()}
+    out.field_data = dict(mesh.field_data)
+    out.point_sets = dict(mesh.point_sets)
+    out.cell_sets = dict(mesh.cell_sets)
+    return out
+
+
 def join_strings(strings: list[str]) -> tuple[str, str]:
     """Join strings such that they can be uniquely split again afterwards."""
     possible_join_chars = ["-", "_", "#", "+", "/"]
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 2eb1db6..d354706 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -3,7 +3,7 @@ from functools import reduce
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import info, join_strings, replace_space, warn
+from .._common import info, join_strings, replace_space, shallow_copy, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._mesh import Mesh
@@ -511,6 +511,9 @@ def write(filename, mesh, binary=True):
     if not binary:
         warn("VTK ASCII files are only meant for debugging.")
 
+    # keep the sets of the caller's mesh when converting them to data
+    mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTK format cannot write point_sets. Converting them to point_data...",
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index be80904..6b7e527 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -12,7 +12,14 @@ import zlib
 import numpy as np
 
 from ..__about__ import __version__
-from .._common import info, join_strings, raw_from_cell_data, replace_space, warn
+from .._common import (
+    info,
+    join_strings,
+    raw_from_cell_data,
+    replace_space,
+    shallow_copy,
+    warn,
+)
 from .._exceptions import CorruptionError, ReadError
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -626,6 +633,9 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     else:
         points = mesh.points
 
+    # keep the data and sets of the caller's mesh when converting them
+    mesh = shallow_copy(mesh)
+
     if mesh.point_sets:
         info(
             "VTU format cannot write point_sets. Converting them to point_data...",
-- 
2.43.0


From 6c544a268dfed23801a7cd115da88bf2f2dfe2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:17 +0000
Subject: [PATCH 046/142] fix: vtk and vtu stored several point sets under a
 garbled name

---
 src/meshio/_mesh.py       | 7 +++++--
 src/meshio/vtk/_vtk_51.py | 2 +-
 src/meshio/vtu/_vtu.py    | 2 +-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index e05cbad..0e1c83b 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -346,7 +346,9 @@ class Mesh:
             self.cell_data[data_name] = intfun
             self.cell_sets = {}
 
-    def point_sets_to_data(self, join_char: str = "-") -> None:
+    def point_sets_to_data(
+        self, join_char: str = "-", data_name: str | None = None
+    ) -> None:
         # now for the point sets
         # Go for -1 as the default value. (NaN is not int.)
         default_value = -1
@@ -361,7 +363,8 @@ class Mesh:
                     f"Using default value {default_value}."
                 )
 
-            data_name = join_char.join(self.point_sets.keys())
+            if data_name is None:
+                data_name = join_char.join(self.point_sets.keys())
             self.point_data[data_name] = intfun
             self.point_sets = {}
 
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index d354706..3bf183d 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -521,7 +521,7 @@ def write(filename, mesh, binary=True):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 6b7e527..c41ee0d 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -643,7 +643,7 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
         )
         key, _ = join_strings(list(mesh.point_sets.keys()))
         key, _ = replace_space(key)
-        mesh.point_sets_to_data(key)
+        mesh.point_sets_to_data(data_name=key)
 
     if mesh.cell_sets:
         info(
-- 
2.43.0


From e12263c0751299f4ab6bc40a418cd706b3339072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:22 +0000
Subject: [PATCH 047/142] fix: file format vtk51 wrote version 4.2 files

---
 src/meshio/vtk/_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_main.py b/src/meshio/vtk/_main.py
index 1e8e717..0dad2d2 100644
--- a/src/meshio/vtk/_main.py
+++ b/src/meshio/vtk/_main.py
@@ -40,7 +40,7 @@ register_format(
     read,
     {
         "vtk42": _vtk_42.write,
-        "vtk51": _vtk_42.write,
+        "vtk51": _vtk_51.write,
         "vtk": _vtk_51.write,
     },
 )
-- 
2.43.0


From 7a06033dfea5cb4914baa2ded56f16bcc463a410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:27 +0000
Subject: [PATCH 048/142] fix: vtu names with special characters made the file
 invalid XML

---
 src/meshio/_cxml/etree.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_cxml/etree.py b/src/meshio/_cxml/etree.py
index f06c999..60b92c1 100644
--- a/src/meshio/_cxml/etree.py
+++ b/src/meshio/_cxml/etree.py
@@ -6,6 +6,8 @@
 # This etree here allows the writing method to write to the file directly, without
 # having to create a string representation first.
 
+from xml.sax.saxutils import quoteattr
+
 
 class Element:
     def __init__(self, name, **kwargs):
@@ -22,7 +24,7 @@ class Element:
         self.attrib[key] = value
 
     def write(self, f):
-        kw_list = [f'{key}="{value}"' for key, value in self.attrib.items()]
+        kw_list = [f"{key}={quoteattr(value)}" for key, value in self.attrib.items()]
         f.write("<{}>\n".format(" ".join([self.name] + kw_list)))
         if self.text:
             f.write(self.text)
-- 
2.43.0


From f29a8ffde1ed013055800da546ee3f4bf3c1af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:33 +0000
Subject: [PATCH 049/142] fix: wkt numbers in exponent notation were misread

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 588f504..5c10fbd 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,7 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)"
+float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From a143878a9dd8d2e74d041681e9e5d0ece9998f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:40 +0000
Subject: [PATCH 050/142] fix: point_data_to_sets named all sets 'set-key-...'
 instead of using the key

---
 src/meshio/_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 0e1c83b..57e3c3c 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -417,7 +417,7 @@ class Mesh:
         names = list(dict.fromkeys(names))
         if len(names) != len(tags):
             # alternative names
-            names = [f"set-key-{tag}" for tag in tags]
+            names = [f"set-{key}-{tag}" for tag in tags]
 
         # TODO there's probably a better way besides np.where, something from
         # np.unique or np.sort
-- 
2.43.0


From 5476108785cb67f5b3da78acbc62823df88f54b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:19 +0000
Subject: [PATCH 051/142] fix: xdmf mixed topologies with vertices or
 higher-order cells could not be read back

---
 src/meshio/xdmf/common.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index fb7fcf3..de5c432 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -1,5 +1,6 @@
 import numpy as np
 
+from .._common import num_nodes_per_cell
 from .._exceptions import ReadError
 from .._mesh import CellBlock
 
@@ -116,16 +117,11 @@ def translate_mixed_cells(data):
     # https://xdmf.org/index.php/XDMF_Model_and_Format#Arbitrary
     # https://gitlab.kitware.com/xdmf/xdmf/blob/master/XdmfTopologyType.hpp#L394
     xdmf_idx_to_num_nodes = {
-        1: 1,  # vertex
-        2: 2,  # line
-        4: 3,  # triangle
-        5: 4,  # quad
-        6: 4,  # tet
-        7: 5,  # pyramid
-        8: 6,  # wedge
-        9: 8,  # hex
-        11: 6,  # triangle6
+        idx: num_nodes_per_cell[cell_type]
+        for idx, cell_type in xdmf_idx_to_meshio_type.items()
     }
+    # polyvertices and polylines come with the number of their nodes
+    has_count = {1, 2}
 
     # collect types and offsets
     types = []
@@ -135,6 +131,10 @@ def translate_mixed_cells(data):
         xdmf_type = data[r]
         types.append(xdmf_type)
         offsets.append(r)
+        if xdmf_type == 1:  # vertex
+            if data[r + 1] != 1:  # polyvertex
+                raise ReadError("XDMF reader: Only supports single vertices for now")
+            r += 1
         if xdmf_type == 2:  # line
             if data[r + 1] != 2:  # polyline
                 raise ReadError("XDMF reader: Only supports 2-point lines for now")
@@ -150,7 +150,7 @@ def translate_mixed_cells(data):
     for start, end in zip(b[:-1], b[1:]):
         meshio_type = xdmf_idx_to_meshio_type[types[start]]
         n = xdmf_idx_to_num_nodes[types[start]]
-        point_offsets = offsets[start:end] + (2 if types[start] == 2 else 1)
+        point_offsets = offsets[start:end] + (2 if types[start] in has_count else 1)
         indices = np.array([np.arange(n) + o for o in point_offsets])
         cells.append(CellBlock(meshio_type, data[indices]))
 
-- 
2.43.0


From 89a89ff7fc81a24ffa4636d10b3cbbf86231a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:19 +0000
Subject: [PATCH 052/142] fix: writing mixed meshes with lines to an xdmf time
 series crashed

---
 src/meshio/xdmf/time_series.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index a3f8503..dc588f6 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -408,16 +408,19 @@ class TimeSeriesWriter:
             dim = total_num_cell_items + total_num_cells
             # Lines translate to Polylines, and one needs to specify the exact
             # number of nodes. Hence, prepend 2.
-            for c in cell_blocks:
-                if c.type == "line":
-                    c.data[:] = np.insert(c.data, 0, 2, axis=1)
-                    dim += len(c.data)
+            # Likewise for vertices, i.e., Polyvertices.
+            num_nodes = {"vertex": [1], "line": [2]}
+            dim += sum(len(c.data) for c in cell_blocks if c.type in num_nodes)
             dim = str(dim)
             cd = np.concatenate(
                 [
                     # prepend column with xdmf type index
                     np.insert(
-                        c.data, 0, meshio_type_to_xdmf_index[c.type], axis=1
+                        c.data,
+                        [0] * (1 + len(num_nodes.get(c.type, []))),
+                        [meshio_type_to_xdmf_index[c.type]]
+                        + num_nodes.get(c.type, []),
+                        axis=1,
                     ).flatten()
                     for c in cell_blocks
                 ]
-- 
2.43.0


From f2577f47e4aba31d46b5c5a114299e58bd97e5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:19 +0000
Subject: [PATCH 053/142] fix: hmf merged blocks of the same type and reordered
 ten or more blocks

---
 src/meshio/hmf/_hmf.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index b4af72f..d5d8a79 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -19,14 +19,16 @@ def read(filename):
         grid = domain["grid"]
 
         points = None
-        cells = {}
+        topologies = []
         point_data = {}
         cell_data_raw = {}
 
         for key, value in grid.items():
             if key[:8] == "Topology":
                 cell_type = value.attrs["TopologyType"]
-                cells[xdmf_to_meshio_type[cell_type]] = value[()]
+                topologies.append(
+                    (int(key[8:]), xdmf_to_meshio_type[cell_type], value[()])
+                )
 
             elif key == "Geometry":
                 # TODO is GeometryType really needed?
@@ -42,6 +44,10 @@ def read(filename):
                 for name, na in value.items():
                     point_data[name] = na[()]
 
+        # the keys of a group come in alphabetical order
+        topologies.sort(key=lambda topo: topo[0])
+        cells = [(cell_type, data) for _, cell_type, data in topologies]
+
         cell_data = cell_data_from_raw(cells, cell_data_raw)
 
         return meshio.Mesh(
-- 
2.43.0


From 514ef56673f17c0d749cfa3bfb4369d99a29a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:18 +0000
Subject: [PATCH 054/142] fix: cgns dropped cells other than tetrahedra without
 a word

---
 src/meshio/cgns/_cgns.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index fde2ae7..47113f1 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -6,6 +6,7 @@ TODO link to specification?
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import ReadError
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -77,6 +78,9 @@ def write(filename, mesh, compression="gzip", compression_opts=4):
 
     # write cells
     # TODO write cells other than tetra
+    skip = [c.type for c in mesh.cells if c.type != "tetra"]
+    if skip:
+        warn(f'CGNS writer only supports tetra cells. Skipping {", ".join(skip)}.')
     elems = zone1.create_group("GridElements")
     rnge = elems.create_group("ElementRange")
     for cell_block in mesh.cells:
-- 
2.43.0


From c4f972d0f12f175cdaad4d7662b764997471fdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 055/142] fix: vtu cell offsets overflowed for narrow
 connectivity types, and empty blocks crashed

---
 src/meshio/vtu/_vtu.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index c41ee0d..748d255 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -860,14 +860,11 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
             connectivity = np.concatenate(connectivity)
 
             # offset (points to the first element of the next cell)
-            offsets = [
-                v.data.shape[1]
-                * np.arange(1, v.data.shape[0] + 1, dtype=connectivity.dtype)
-                for v in mesh.cells
-            ]
-            for k in range(1, len(offsets)):
-                offsets[k] += offsets[k - 1][-1]
-            offsets = np.concatenate(offsets)
+            offsets = np.cumsum(
+                np.concatenate(
+                    [np.full(v.data.shape[0], v.data.shape[1]) for v in mesh.cells]
+                )
+            )
 
         # types
         types_array = []
-- 
2.43.0


From 437d29c16c62cb2a45a890acefff78b0ae52a876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 056/142] fix: writing vtu replaced cell blocks of other byte
 order in the caller's mesh

---
 src/meshio/vtu/_vtu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 748d255..5f13d83 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -682,6 +682,8 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     # Don't use byteswap to make sure that the dtype is changed; see
     # <https://github.com/numpy/numpy/issues/10372>.
     points = points.astype(points.dtype.newbyteorder("="), copy=False)
+    if not is_polyhedron_grid:
+        mesh.cells = list(mesh.cells)
     for k, cell_block in enumerate(mesh.cells):
         cell_type = cell_block.type
         data = cell_block.data
-- 
2.43.0


From 80ee1ee70651aeb1da1bc9376eb6ab638bee4f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 057/142] fix: xdmf binary data of non-native byte order was
 stored swapped

---
 src/meshio/xdmf/main.py        | 3 ++-
 src/meshio/xdmf/time_series.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 4d8c39d..5c5874f 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -384,7 +384,8 @@ class XdmfWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # the data items don't specify the byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index dc588f6..54e5973 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -328,7 +328,8 @@ class TimeSeriesWriter:
             self.data_counter += 1
             # write binary data to file
             with open(bin_filename, "wb") as f:
-                data.tofile(f)
+                # the data items don't specify the byte order
+                data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
 
         if self.data_format != "HDF":
-- 
2.43.0


From e4023d6420591db7d8707b2addb6c5da87170c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:48 +0000
Subject: [PATCH 058/142] fix: xdmf mixed topologies with uint64 connectivity
 were stored as floats

---
 src/meshio/xdmf/main.py        | 2 +-
 src/meshio/xdmf/time_series.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 5c5874f..699c47c 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -470,7 +470,7 @@ class XdmfWriter:
                                 ),
                                 meshio_type_to_xdmf_index[cell_block.type],
                             ),
-                            cell_block.data,
+                            cell_block.data.astype(int),
                         ]
                     ).flatten()
                     for cell_block in cells
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 54e5973..be3de1b 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -417,7 +417,7 @@ class TimeSeriesWriter:
                 [
                     # prepend column with xdmf type index
                     np.insert(
-                        c.data,
+                        c.data.astype(int),
                         [0] * (1 + len(num_nodes.get(c.type, []))),
                         [meshio_type_to_xdmf_index[c.type]]
                         + num_nodes.get(c.type, []),
-- 
2.43.0


From 1354b19bfc78ec141d7bed979ad19b3debee1d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:26 +0000
Subject: [PATCH 059/142] fix: writing an empty cell block to vtk 5.1 crashed

---
 src/meshio/vtk/_vtk_51.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 3bf183d..acb20d7 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -584,7 +584,7 @@ def _write_cells(f, cells, binary):
     for cell_block in cells:
         m, n = cell_block.data.shape
         offsets.append(np.arange(k + n, k + (m + 1) * n, n))
-        k = offsets[-1][-1]
+        k += m * n
     offsets = np.concatenate(offsets)
 
     if binary:
-- 
2.43.0


From b2e7b8b0a4d2db9227d95ffd492b9ab4b25cd71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 060/142] fix: cell_sets_dict shifts the members of blocks
 after one without an entry

---
 src/meshio/_mesh.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 57e3c3c..09848dd 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -287,14 +287,14 @@ class Mesh:
             sets_dict[key] = {}
             offsets = {}
             for members, cells in zip(member_list, self.cells):
-                if members is None:
-                    continue
                 if cells.type in offsets:
                     offset = offsets[cells.type]
-                    offsets[cells.type] += cells.data.shape[0]
+                    offsets[cells.type] += len(cells)
                 else:
                     offset = 0
-                    offsets[cells.type] = cells.data.shape[0]
+                    offsets[cells.type] = len(cells)
+                if members is None:
+                    continue
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From e6d46c213ad2df96c88e40ef22c9507c1e54b83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 061/142] fix: data_to_sets gives the entities outside every
 set (-1) the name of a set

---
 src/meshio/_mesh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index 09848dd..ac0c92c 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -387,7 +387,7 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
@@ -415,7 +415,7 @@ class Mesh:
         # remove duplicates and preserve order
         # <https://stackoverflow.com/a/7961390/353337>:
         names = list(dict.fromkeys(names))
-        if len(names) != len(tags):
+        if len(names) != len(tags) or -1 in tags:
             # alternative names
             names = [f"set-{key}-{tag}" for tag in tags]
 
-- 
2.43.0


From 394e073507a7c8bea920551b5270ad3279d0d822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:47 +0000
Subject: [PATCH 062/142] fix: convert -d fails on any mesh with data

---
 src/meshio/_cli/_convert.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/meshio/_cli/_convert.py b/src/meshio/_cli/_convert.py
index 1a2edd3..3410bf5 100644
--- a/src/meshio/_cli/_convert.py
+++ b/src/meshio/_cli/_convert.py
@@ -60,10 +60,12 @@ def convert(args):
         mesh.cell_sets_to_data()
 
     if args.int_data_to_sets:
-        for key in mesh.point_data:
-            mesh.point_data_to_sets(key)
-        for key in mesh.cell_data:
-            mesh.cell_data_to_sets(key)
+        for key, data in list(mesh.point_data.items()):
+            if data.dtype.kind in "iu" and data.ndim == 1:
+                mesh.point_data_to_sets(key)
+        for key, data in list(mesh.cell_data.items()):
+            if all(d.dtype.kind in "iu" and d.ndim == 1 for d in data):
+                mesh.cell_data_to_sets(key)
 
     # write it out
     kwargs = {"file_format": args.output_format}
-- 
2.43.0


From ffa7333044e6792f87031c32bc7486fac4314691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:09 +0000
Subject: [PATCH 063/142] fix: info does not flag cells that refer to the point
 just past the last one

---
 src/meshio/_cli/_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/_cli/_info.py b/src/meshio/_cli/_info.py
index dc269e7..546cbac 100644
--- a/src/meshio/_cli/_info.py
+++ b/src/meshio/_cli/_info.py
@@ -24,7 +24,7 @@ def info(args):
     # check if the cell arrays are consistent with the points
     is_consistent = True
     for cells in mesh.cells:
-        if np.any(cells.data > mesh.points.shape[0]):
+        if np.any(cells.data >= mesh.points.shape[0]):
             warn("Inconsistent mesh. Cells refer to nonexistent points.")
             is_consistent = False
             break
-- 
2.43.0


From b1eaee428847c713d938df19d022ea899a48eee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:51 +0000
Subject: [PATCH 064/142] fix: ascii, binary, compress and decompress rewrite a
 Gmsh file in ANSYS format

---
 src/meshio/_cli/_ascii.py      | 12 +++---------
 src/meshio/_cli/_binary.py     | 12 +++---------
 src/meshio/_cli/_compress.py   | 12 +++---------
 src/meshio/_cli/_decompress.py | 12 +++---------
 src/meshio/_helpers.py         |  7 ++++++-
 5 files changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/meshio/_cli/_ascii.py b/src/meshio/_cli/_ascii.py
index 45aff5a..520a1b7 100644
--- a/src/meshio/_cli/_ascii.py
+++ b/src/meshio/_cli/_ascii.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -20,16 +20,10 @@ def add_args(parser):
 
 
 def ascii(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # keep the format that the file is really in; several may share its extension
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_binary.py b/src/meshio/_cli/_binary.py
index ccf0635..e97636c 100644
--- a/src/meshio/_cli/_binary.py
+++ b/src/meshio/_cli/_binary.py
@@ -2,7 +2,7 @@ import os
 import pathlib
 
 from .. import ansys, flac3d, gmsh, mdpa, ply, stl, vtk, vtu, xdmf
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def binary(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # keep the format that the file is really in; several may share its extension
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_compress.py b/src/meshio/_cli/_compress.py
index 9103a0b..869120c 100644
--- a/src/meshio/_cli/_compress.py
+++ b/src/meshio/_cli/_compress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import ansys, cgns, gmsh, h5m, mdpa, ply, stl, vtk, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -26,16 +26,10 @@ def add_args(parser):
 
 
 def compress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # keep the format that the file is really in; several may share its extension
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_cli/_decompress.py b/src/meshio/_cli/_decompress.py
index 3c67dda..88762d7 100644
--- a/src/meshio/_cli/_decompress.py
+++ b/src/meshio/_cli/_decompress.py
@@ -3,7 +3,7 @@ import pathlib
 
 from .. import cgns, h5m, vtu, xdmf
 from .._common import error
-from .._helpers import _filetypes_from_path, read, reader_map
+from .._helpers import _read_file_and_format, reader_map
 
 
 def add_args(parser):
@@ -19,16 +19,10 @@ def add_args(parser):
 
 
 def decompress(args):
-    if args.input_format:
-        fmts = [args.input_format]
-    else:
-        fmts = _filetypes_from_path(pathlib.Path(args.infile))
-    # pick the first
-    fmt = fmts[0]
-
     size = os.stat(args.infile).st_size
     print(f"File size before: {size / 1024 ** 2:.2f} MB")
-    mesh = read(args.infile, file_format=args.input_format)
+    # keep the format that the file is really in; several may share its extension
+    mesh, fmt = _read_file_and_format(pathlib.Path(args.infile), args.input_format)
 
     # # Some converters (like VTK) require `points` to be contiguous.
     # mesh.points = np.ascontiguousarray(mesh.points)
diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6cc7dac..6a7c079 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -86,6 +86,11 @@ def _read_buffer(filename, file_format: str | None):
 
 
 def _read_file(path: Path, file_format: str | None):
+    return _read_file_and_format(path, file_format)[0]
+
+
+def _read_file_and_format(path: Path, file_format: str | None):
+    """Returns the mesh and the name of the format that accepted the file."""
     if not path.exists():
         raise ReadError(f"File {path} not found.")
 
@@ -100,7 +105,7 @@ def _read_file(path: Path, file_format: str | None):
             raise ReadError(f"Unknown file format '{file_format}' of '{path}'.")
 
         try:
-            return reader_map[file_format](str(path))
+            return reader_map[file_format](str(path)), file_format
         except ReadError as e:
             print(e)
 
-- 
2.43.0


From 9d475de170cd3d8397d6a4ecf99e785b90c723cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:51 +0000
Subject: [PATCH 065/142] fix: upper-case extensions choose another variant of
 Medit, UGRID, Netgen and TetGen files

---
 src/meshio/medit/_medit.py   | 4 ++--
 src/meshio/netgen/_netgen.py | 4 ++--
 src/meshio/tetgen/_tetgen.py | 8 ++++----
 src/meshio/ugrid/_ugrid.py   | 2 +-
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 272bd16..e243df8 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -19,7 +19,7 @@ from ._medit_internal import medit_codes
 
 def read(filename):
     with open_file(filename) as f:
-        if str(filename)[-1] == "b":
+        if str(filename)[-1] in "bB":
             mesh = read_binary_buffer(f)
         else:
             mesh = read_ascii_buffer(f)
@@ -298,7 +298,7 @@ def read_ascii_buffer(f):
 
 
 def write(filename, mesh, float_fmt=".16e"):
-    if str(filename)[-1] == "b":
+    if str(filename)[-1] in "bB":
         write_binary_file(filename, mesh)
     else:
         write_ascii_file(filename, mesh, float_fmt)
diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index cae1bd7..26296a3 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -108,7 +108,7 @@ for t, pmap in netgen_to_meshio_pmap.items():
 
 
 def read(filename):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "rt") as f:
@@ -350,7 +350,7 @@ def read_buffer(f):
 
 
 def write(filename, mesh, float_fmt=".16e"):
-    if str(filename).endswith(".vol.gz"):
+    if str(filename).lower().endswith(".vol.gz"):
         import gzip
 
         with gzip.open(filename, "wt") as f:
diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 55343f5..22e07e1 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -16,10 +16,10 @@ from .._mesh import CellBlock, Mesh
 
 def read(filename):
     filename = pathlib.Path(filename)
-    if filename.suffix == ".node":
+    if filename.suffix.lower() == ".node":
         node_filename = filename
         ele_filename = filename.parent / (filename.stem + ".ele")
-    elif filename.suffix == ".ele":
+    elif filename.suffix.lower() == ".ele":
         node_filename = filename.parent / (filename.stem + ".node")
         ele_filename = filename
     else:
@@ -99,10 +99,10 @@ def _read_header(f):
 
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
-    if filename.suffix == ".node":
+    if filename.suffix.lower() == ".node":
         node_filename = filename
         ele_filename = filename.parent / (filename.stem + ".ele")
-    elif filename.suffix == ".ele":
+    elif filename.suffix.lower() == ".ele":
         node_filename = filename.parent / (filename.stem + ".node")
         ele_filename = filename
     else:
diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 716f0e7..3e0f1f0 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -41,7 +41,7 @@ def determine_file_type(filename):
     file_type = file_types["ascii"]
     filename_parts = str(filename).split(".")
     if len(filename_parts) > 1:
-        type_suffix = filename_parts[-2]
+        type_suffix = filename_parts[-2].lower()
         if type_suffix in file_types.keys():
             file_type = file_types[type_suffix]
     return file_type
-- 
2.43.0


From 7e14596979970cf08884cfc23fdc9ad1e7707715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:19 +0000
Subject: [PATCH 066/142] fix: the registered PERMAS extensions .post.gz and
 .dato.gz are not compressed

---
 src/meshio/permas/_permas.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index f5b0d75..4c7297f 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -2,6 +2,8 @@
 I/O for PERMAS dat files.
 """
 
+import gzip
+
 import numpy as np
 
 from ..__about__ import __version__
@@ -66,9 +68,15 @@ meshio_to_permas_order = {
 }
 
 
+def _open(filename, mode):
+    if str(filename).lower().endswith(".gz"):
+        return gzip.open(filename, mode)
+    return open_file(filename, mode)
+
+
 def read(filename):
     """Reads a PERMAS dat file."""
-    with open_file(filename, "r") as f:
+    with _open(filename, "rt") as f:
         out = read_buffer(f)
     return out
 
@@ -244,7 +252,7 @@ def write(filename, mesh):
     else:
         points = mesh.points
 
-    with open_file(filename, "wt") as f:
+    with _open(filename, "wt") as f:
         f.write("!PERMAS DataFile Version 18.0\n")
         f.write(f"!written by meshio v{__version__}\n")
         f.write("$ENTER COMPONENT NAME=DFLT_COMP\n")
-- 
2.43.0


From c7b0d8fc78718d7a42f24eff77697a7e3fce5387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:45 +0000
Subject: [PATCH 067/142] fix: Medit refuses points in the byte order that the
 VTK reader returns

---
 src/meshio/medit/_medit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index e243df8..228bbb6 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -306,7 +306,9 @@ def write(filename, mesh, float_fmt=".16e"):
 
 def write_ascii_file(filename, mesh, float_fmt=".16e"):
     with open_file(filename, "wb") as fh:
-        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[mesh.points.dtype]
+        version = {np.dtype(c_float): 1, np.dtype(c_double): 2}[
+            mesh.points.dtype.newbyteorder("=")
+        ]
         # N. B.: PEP 461 Adding % formatting to bytes and bytearray
         fh.write(f"MeshVersionFormatted {version}\n".encode())
 
-- 
2.43.0


From 94338708de3aefb097c4c0b5cd17a7f480645246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:45 +0000
Subject: [PATCH 068/142] fix: Netgen takes vectors of integers for the index
 of a cell

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 26296a3..c178053 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -375,7 +375,7 @@ def write_buffer(f, mesh, float_fmt):
         # any other integer cell data?
         cells_index = None
         for values in mesh.cell_data.values():
-            if np.issubdtype(values[0].dtype, np.integer):
+            if np.issubdtype(values[0].dtype, np.integer) and values[0].ndim == 1:
                 cells_index = values
                 break
 
-- 
2.43.0


From a5a27919e390b50da2b925f8c80559b4a297ff8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 069/142] fix: Gmsh 4.1 files leave out entities that only
 cells refer to and cannot be read

---
 src/meshio/gmsh/_gmsh41.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index bb7ab92..ad163f8 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -406,10 +406,22 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
 
     fh.write(b"$Entities\n")
 
+    # Array of dimension and entity tag per cell. Will be compared with the
+    # similar not array.
+    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
+    for ci, cell_block in enumerate(cells):
+        cell_dim_tags[ci] = [
+            cell_block.dim,
+            tag_data["gmsh:geometrical"][ci][0],
+        ]
+
     # Array of entity tag (first row) and dimension (second row) per node.
     # We need to combine the two, since entity tags are reset for each dimension.
-    # Uniquify, so that each row in node_dim_tags represent a unique entity
-    node_dim_tags = np.unique(point_data["gmsh:dim_tags"], axis=0)
+    # Uniquify, so that each row in node_dim_tags represent a unique entity. Cell
+    # entities without nodes of their own have to be listed, too.
+    node_dim_tags = np.unique(
+        np.concatenate([point_data["gmsh:dim_tags"], cell_dim_tags]), axis=0
+    )
 
     # Write number of entities per dimension
     num_occ = np.bincount(node_dim_tags[:, 0], minlength=4)
@@ -421,15 +433,6 @@ def _write_entities(fh, cells, tag_data, cell_sets, point_data, binary):
     else:
         fh.write(f"{num_occ[0]} {num_occ[1]} {num_occ[2]} {num_occ[3]}\n".encode())
 
-    # Array of dimension and entity tag per cell. Will be compared with the
-    # similar not array.
-    cell_dim_tags = np.empty((len(cells), 2), dtype=int)
-    for ci, cell_block in enumerate(cells):
-        cell_dim_tags[ci] = [
-            cell_block.dim,
-            tag_data["gmsh:geometrical"][ci][0],
-        ]
-
     # We will only deal with bounding entities if this information is available
     has_bounding_elements = "gmsh:bounding_entities" in cell_sets
 
-- 
2.43.0


From a098d49e0a3d13a27e037be15d23aad54c8070c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 070/142] fix: MED refuses meshes read from a MED file when it
 has fewer component names than fields

---
 src/meshio/med/_med.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 0cdd35c..9242198 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -324,7 +324,7 @@ def write(filename, mesh):
         if name == "point_tags":  # ignore point_tags already written under FAS
             continue
         supp = "NOEU"  # nodal data
-        field_name = field_names[name_idx] if field_names else None
+        field_name = field_names[name_idx] if name_idx < len(field_names) else None
         name_idx += 1
         _write_data(fields, mesh_name, field_name, profile, name, supp, data)
 
@@ -345,7 +345,7 @@ def write(filename, mesh):
                 supp = "ELNO"
             else:  # general ELGA data defined at unknown Gauss points
                 supp = "ELGA"
-            field_name = field_names[name_idx] if field_names else None
+            field_name = field_names[name_idx] if name_idx < len(field_names) else None
             _write_data(
                 fields,
                 mesh_name,
-- 
2.43.0


From bdc32c240e678d16e345042e58d53383df25a0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 071/142] fix: H5M refuses every mesh that has cell data

---
 src/meshio/h5m/_h5m.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index 62a790a..e5f2e24 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -229,7 +229,7 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         "triangle": {"name": "Tri3", "type": 2},
         "tetra": {"name": "Tet4", "type": 5},
     }
-    for cell_block in mesh.cells:
+    for k, cell_block in enumerate(mesh.cells):
         key = cell_block.type
         data = cell_block.data
         if key not in meshio_to_h5m_type:
@@ -248,14 +248,13 @@ def write(filename, mesh, add_global_ids=True, compression="gzip", compression_o
         conn.attrs.create("start_id", global_id)
         global_id += len(data)
 
-    # add cell data
-    for cell_type, cd in mesh.cell_data.items():
-        if cd:
+        # add cell data
+        if mesh.cell_data:
             tags = elem_group.create_group("tags")
-            for key, value in cd.items():
+            for name, values in mesh.cell_data.items():
                 tags.create_dataset(
-                    key,
-                    data=value,
+                    name,
+                    data=values[k],
                     compression=compression,
                     compression_opts=compression_opts,
                 )
-- 
2.43.0


From 779d4e9d1dfe8110a57bc63422cc0e9548e2c369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:07 +0000
Subject: [PATCH 072/142] fix: PLY refuses or garbles arrays in the byte order
 that the VTK reader returns

---
 src/meshio/ply/_ply.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 74e7bc6..6ab8251 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -398,6 +398,10 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
     return byte_starts_ends[-1], blocks
 
 
+def _native_byteorder(array):
+    return array.astype(array.dtype.newbyteorder("="), copy=False)
+
+
 def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
     with open_file(filename, "wb") as fh:
@@ -433,8 +437,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             np.dtype(np.float32): "float",
             np.dtype(np.float64): "double",
         }
-        for k in range(mesh.points.shape[1]):
-            type_name = type_name_table[mesh.points.dtype]
+        points = _native_byteorder(mesh.points)
+        for k in range(points.shape[1]):
+            type_name = type_name_table[points.dtype]
             fh.write(f"property {type_name} {dim_names[k]}\n".encode())
 
         pd = []
@@ -445,12 +450,16 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                     f"Skipping {key}."
                 )
                 continue
+            value = _native_byteorder(value)
             type_name = type_name_table[value.dtype]
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
         # don't alter the mesh data
-        cells = list(mesh.cells)
+        cells = [
+            CellBlock(cell_block.type, _native_byteorder(cell_block.data))
+            for cell_block in mesh.cells
+        ]
 
         num_cells = 0
         legal_cell_types = ["vertex", "line", "triangle", "quad", "polygon"]
@@ -490,7 +499,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
 
         if binary:
             # points and point_data
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fh.write(out.tobytes())
 
             # cells
@@ -511,7 +520,7 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
             # vertices
             # np.savetxt(fh, mesh.points, "%r")  # slower
             # out = np.column_stack([mesh.points] + list(mesh.point_data.values()))
-            out = np.rec.fromarrays([coord for coord in mesh.points.T] + pd)
+            out = np.rec.fromarrays([coord for coord in points.T] + pd)
             fmt = " ".join(["{}"] * len(out[0]))
             out = "\n".join([fmt.format(*row) for row in out]) + "\n"
             fh.write(out.encode())
-- 
2.43.0


From e9fe36d724b6154c736a1ee6954bca8589aaae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:07 +0000
Subject: [PATCH 073/142] fix: UGRID writes unreadable files for
 two-dimensional points

---
 src/meshio/ugrid/_ugrid.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/meshio/ugrid/_ugrid.py b/src/meshio/ugrid/_ugrid.py
index 3e0f1f0..f75ea8d 100644
--- a/src/meshio/ugrid/_ugrid.py
+++ b/src/meshio/ugrid/_ugrid.py
@@ -182,7 +182,12 @@ def _write_buffer(f, file_type, mesh):
         "hexahedron": -1,
     }
 
-    ugrid_counts["points"] = mesh.points.shape[0]
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn("UGRID requires 3D points, but 2D points given. Appending 0 component.")
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
+    ugrid_counts["points"] = points.shape[0]
 
     for i, cell_block in enumerate(mesh.cells):
         key = cell_block.type
@@ -214,7 +219,7 @@ def _write_buffer(f, file_type, mesh):
         _write_section(f, file_type, fortran_header, itype)
 
         # start next record
-        fortran_header = mesh.points.size * np.dtype(ftype).itemsize
+        fortran_header = points.size * np.dtype(ftype).itemsize
         for key, i in ugrid_meshio_id.items():
             if i >= 0:
                 fortran_header += mesh.cells[i].data.size * np.dtype(itype).itemsize
@@ -226,7 +231,7 @@ def _write_buffer(f, file_type, mesh):
         fortran_header = np.array([fortran_header])
         _write_section(f, file_type, fortran_header, itype)
 
-    _write_section(f, file_type, mesh.points, ftype)
+    _write_section(f, file_type, points, ftype)
 
     for key in ["triangle", "quad"]:
         if ugrid_counts[key] == 0:
-- 
2.43.0


From 07116acf526ee1a31c3f6d541b166c0cae14c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:40 +0000
Subject: [PATCH 074/142] fix: WKT writes unreadable files for two-dimensional
 points

---
 src/meshio/wkt/_wkt.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 5c10fbd..2fa0f8d 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -82,9 +82,17 @@ def write_buffer(f, mesh):
 
     triangles = mesh.get_cells_type("triangle")
 
+    points = mesh.points
+    if points.shape[1] == 2:
+        warn(
+            "WKT requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        points = np.column_stack([points, np.zeros_like(points[:, 0])])
+
     f.write("TIN (")
     joiner = ""
-    for tri_points in mesh.points[triangles]:
+    for tri_points in points[triangles]:
         f.write(
             "{0}(({1}, {2}, {3}, {1}))".format(
                 joiner, *(arr_to_str(p) for p in tri_points)
-- 
2.43.0


From b0d860083181b415bbdaf334ff3cb4dab1db01bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:40 +0000
Subject: [PATCH 075/142] fix: Neuroglancer writes unreadable files for
 two-dimensional points

---
 src/meshio/neuroglancer/_neuroglancer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/neuroglancer/_neuroglancer.py b/src/meshio/neuroglancer/_neuroglancer.py
index ad48cc2..dab55a9 100644
--- a/src/meshio/neuroglancer/_neuroglancer.py
+++ b/src/meshio/neuroglancer/_neuroglancer.py
@@ -27,6 +27,12 @@ def write_buffer(f, mesh):
     :param meshio.Mesh mesh: Mesh object to write
     """
     vertices = np.asarray(mesh.points, "<f")
+    if vertices.shape[1] == 2:
+        warn(
+            "Neuroglancer requires 3D points, but 2D points given. "
+            "Appending 0 third component."
+        )
+        vertices = np.column_stack([vertices, np.zeros_like(vertices[:, 0])])
     skip = [c for c in mesh.cells if c.type != "triangle"]
     if skip:
         warn('Neuroglancer only supports triangle cells. Skipping {", ".join(skip)}.')
-- 
2.43.0


From 367a2580df8060f6eaae494eb7d6e88d9e15ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:23 +0000
Subject: [PATCH 076/142] fix: ANSYS refuses cells in the byte order that the
 VTK reader returns

---
 src/meshio/ansys/_ansys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 5a658d8..61d8739 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -441,6 +441,7 @@ def write(filename, mesh, binary=True):
         for cell_block in mesh.cells:
             cell_type = cell_block.type
             values = cell_block.data
+            values = values.astype(values.dtype.newbyteorder("="), copy=False)
             key = binary_dtypes[values.dtype] if binary else "12"
             last_index = first_index + len(values) - 1
             try:
-- 
2.43.0


From f7facff93f92401547d92eae4264f0cf1a0a0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:23 +0000
Subject: [PATCH 077/142] fix: Nastran writes unreadable files for point
 references stored as floats

---
 src/meshio/nastran/_nastran.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 8943733..f7ad780 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -342,7 +342,7 @@ def write(filename, mesh, point_format="fixed-large", cell_format="fixed-small")
         point_refs = mesh.point_data.get("nastran:ref", None)
         for point_id, x in enumerate(points):
             fx = [float_fmt(k) for k in x]
-            pref = str(point_refs[point_id]) if point_refs is not None else ""
+            pref = str(int(point_refs[point_id])) if point_refs is not None else ""
             string = grid_fmt.format(point_id + 1, pref, fx[0], fx[1], fx[2])
             f.write(string)
 
-- 
2.43.0


From 799eeed1c5ade8d33a032a4c68ded4a3c14358e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:23 +0000
Subject: [PATCH 078/142] fix: DOLFIN XML writes unreadable files for
 vector-valued cell data

---
 src/meshio/dolfin/_dolfin.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index 4c2923c..ecc50be 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -233,6 +233,10 @@ def write(filename, mesh):
         data = np.concatenate(
             [d for c, d in zip(mesh.cells, lst) if c.type == cell_type]
         )
+        if data.size != len(data):
+            warn(f"DOLFIN XML only supports scalar cell data. Skipping {name}.")
+            continue
+        data = data.reshape(len(data))
         fname = os.path.splitext(filename)[0]
         cell_data_filename = f"{fname}_{name}.xml"
         dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
-- 
2.43.0


From 8ff4c7903aa66d81797667eaf9abe7601fe62404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 079/142] fix: VTU refuses meshes whose field data, which it
 does not store, are no arrays

---
 src/meshio/vtu/_vtu.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 5f13d83..df8dbe0 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -709,8 +709,6 @@ def write(filename, mesh, binary=True, compression="zlib", header_type=None):
     for data in mesh.cell_data.values():
         for k, dat in enumerate(data):
             data[k] = dat.astype(dat.dtype.newbyteorder("="), copy=False)
-    for key, data in mesh.field_data.items():
-        mesh.field_data[key] = data.astype(data.dtype.newbyteorder("="), copy=False)
 
     def numpy_to_xml_array(parent, name, data):
         vtu_type = numpy_to_vtu_type[data.dtype]
-- 
2.43.0


From 6d5a82afe770f09fdbdaad68eda26aaf4acebd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:53 +0000
Subject: [PATCH 080/142] fix: TetGen writes unreadable files for vector-valued
 data

---
 src/meshio/tetgen/_tetgen.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 22e07e1..87dd25d 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -97,6 +97,16 @@ def _read_header(f):
     raise ReadError("Unexpected end of file")
 
 
+def _scalar_keys(data):
+    keys = []
+    for key, blocks in data.items():
+        if all(np.ndim(block) == 1 for block in blocks):
+            keys.append(key)
+        else:
+            warn(f"TetGen only supports scalar attributes. Skipping {key}.")
+    return keys
+
+
 def write(filename, mesh, float_fmt=".16e"):
     filename = pathlib.Path(filename)
     if filename.suffix.lower() == ".node":
@@ -114,7 +124,7 @@ def write(filename, mesh, float_fmt=".16e"):
     # write nodes
     with open(node_filename, "w") as fh:
         # identify ":ref" key
-        attr_keys = list(mesh.point_data.keys())
+        attr_keys = _scalar_keys({k: [v] for k, v in mesh.point_data.items()})
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
@@ -153,7 +163,7 @@ def write(filename, mesh, float_fmt=".16e"):
 
     # write cells
     with open(ele_filename, "w") as fh:
-        attr_keys = list(mesh.cell_data.keys())
+        attr_keys = _scalar_keys(mesh.cell_data)
         ref_keys = [k for k in attr_keys if ":ref" in k]
         if len(attr_keys) > 0:
             if len(ref_keys) > 0:
-- 
2.43.0


From 0cdfb41a089db104f4f6b5c652b4d55c36278cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:09 +0000
Subject: [PATCH 081/142] fix: PLY writes unreadable files for data names with
 spaces

---
 src/meshio/ply/_ply.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 6ab8251..1b50ea7 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -452,6 +452,9 @@ def write(filename, mesh: Mesh, binary: bool = True):  # noqa: C901
                 continue
             value = _native_byteorder(value)
             type_name = type_name_table[value.dtype]
+            if " " in key:
+                warn(f"PLY doesn't support spaces in names. Renaming {key}.")
+                key = key.replace(" ", "_")
             fh.write(f"property {type_name} {key}\n".encode())
             pd.append(value)
 
-- 
2.43.0


From fc056a5968bf6641951d060439400c6e1b0ef160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:14 +0000
Subject: [PATCH 082/142] fix: Gmsh 4.1 writes unreadable files for tags stored
 as floats

---
 src/meshio/gmsh/_gmsh41.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index ad163f8..6871eef 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -319,7 +319,8 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
     cell_data = {}
     for key, d in mesh.cell_data.items():
         if key in ["gmsh:physical", "gmsh:geometrical", "cell_tags"]:
-            tag_data[key] = d
+            # tags are integers, also if they come from a format that only has floats
+            tag_data[key] = [np.asarray(dd).astype(int) for dd in d]
         else:
             cell_data[key] = d
 
-- 
2.43.0


From bf8ffb3ceb5a314aad8977376a935ca0411d8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:14 +0000
Subject: [PATCH 083/142] fix: Netgen refuses unsigned cell indices

---
 src/meshio/netgen/_netgen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index c178053..74c1d21 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -218,7 +218,7 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
             if index is None:
                 continue
             if cell_block.dim == dim - codim:
-                indices = indices.union(set(index))
+                indices = indices.union(np.asarray(index).tolist())
 
         for idx in indices:
             data[idx] = f"cd{codim:d}_{idx:d}"
-- 
2.43.0


From c2243392a54d4626518ddfb45da352d120ade60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:45 +0000
Subject: [PATCH 084/142] fix: cell_sets_dict accepts set members given as
 plain lists

---
 src/meshio/_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/meshio/_mesh.py b/src/meshio/_mesh.py
index ac0c92c..ea5d323 100644
--- a/src/meshio/_mesh.py
+++ b/src/meshio/_mesh.py
@@ -295,6 +295,7 @@ class Mesh:
                     offsets[cells.type] = len(cells)
                 if members is None:
                     continue
+                members = np.asarray(members, dtype=int)
                 if cells.type in sets_dict[key]:
                     sets_dict[key][cells.type].append(members + offset)
                 else:
-- 
2.43.0


From 9ad437ae2e40d12943c0ce34b8e4d7774e20ce80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 085/142] fix: registering a format again does not leave it
 behind on deregistration

---
 src/meshio/_helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 6a7c079..9acb539 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -22,7 +22,8 @@ def register_format(
     for ext in extensions:
         if ext not in extension_to_filetypes:
             extension_to_filetypes[ext] = []
-        extension_to_filetypes[ext].append(format_name)
+        if format_name not in extension_to_filetypes[ext]:
+            extension_to_filetypes[ext].append(format_name)
 
     if reader is not None:
         reader_map[format_name] = reader
-- 
2.43.0


From 1a55bd257ce145bb8b211ec9eba4d6e8c8b89b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:51 +0000
Subject: [PATCH 086/142] fix: a write-only format does not keep other formats
 of the same extension from being tried

---
 src/meshio/_helpers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/_helpers.py b/src/meshio/_helpers.py
index 9acb539..b67be01 100644
--- a/src/meshio/_helpers.py
+++ b/src/meshio/_helpers.py
@@ -98,8 +98,12 @@ def _read_file_and_format(path: Path, file_format: str | None):
     if file_format:
         possible_file_formats = [file_format]
     else:
-        # deduce possible file formats from extension
+        # deduce possible file formats from extension; skip those that can only be
+        # written if there are others
         possible_file_formats = _filetypes_from_path(path)
+        possible_file_formats = [
+            fmt for fmt in possible_file_formats if fmt in reader_map
+        ] or possible_file_formats
 
     for file_format in possible_file_formats:
         if file_format not in reader_map:
-- 
2.43.0


From 3efe16982576807734330e5e0d37cce8ad338248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 087/142] fix: the HDF5 file of a time series is written next
 to the XDMF file

---
 src/meshio/xdmf/time_series.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index be3de1b..ff1c4c3 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -262,7 +262,8 @@ class TimeSeriesWriter:
         if self.data_format == "HDF":
             import h5py
 
-            self.h5_filename = self.filename.stem + ".h5"
+            # the reader looks for it next to the XDMF file
+            self.h5_filename = self.filename.with_suffix(".h5")
             self.h5_file = h5py.File(self.h5_filename, "w")
         return self
 
-- 
2.43.0


From f03d9d4c7347a494112342b9f7ba5406fdeb06fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:37 +0000
Subject: [PATCH 088/142] fix: a rejected time step does not leave an empty
 step in the file

---
 src/meshio/xdmf/time_series.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index ff1c4c3..1460fff 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -301,9 +301,9 @@ class TimeSeriesWriter:
         #     <DataItem Dimensions="8457 1" Format="HDF">maxwell.h5:/VisualisationVector/1</DataItem>
         #   </Attribute>
         # </Grid>
-        grid = ET.SubElement(self.collection, "Grid")
         if not self.has_mesh:
             raise WriteError()
+        grid = ET.SubElement(self.collection, "Grid")
         ptr = f'xpointer(//Grid[@Name="{self.mesh_name}"]/*[self::Topology or self::Geometry])'
         ET.SubElement(grid, "{http://www.w3.org/2003/XInclude}include", xpointer=ptr)
         ET.SubElement(grid, "Time", Value=str(t))
-- 
2.43.0


From 7399278a7d02a2481abfb21781dd444956e7c6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:46 +0000
Subject: [PATCH 089/142] fix: the binary files of an XDMF file are found
 wherever the program runs

---
 src/meshio/xdmf/main.py        | 6 ++++--
 src/meshio/xdmf/time_series.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 699c47c..c471e38 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -92,8 +92,10 @@ class XdmfReader:
             return data.reshape(dims)
 
         elif fmt == "Binary":
+            # The path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                pathlib.Path(self.filename).resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if fmt != "HDF":
@@ -386,7 +388,7 @@ class XdmfWriter:
             with open(bin_filename, "wb") as f:
                 # the data items don't specify the byte order
                 data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
-            return bin_filename
+            return os.path.basename(bin_filename)
 
         if self.data_format != "HDF":
             raise WriteError(f'Unknown data format "{self.data_format}"')
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 1460fff..9e4324b 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -199,8 +199,10 @@ class TimeSeriesReader:
                 sep=" ",
             ).reshape(dims)
         elif data_format == "Binary":
+            # The path is given with respect to the XDMF (XML) file.
             return np.fromfile(
-                data_item.text.strip(), dtype=xdmf_to_numpy_type[(data_type, precision)]
+                self.filename.resolve().parent / data_item.text.strip(),
+                dtype=xdmf_to_numpy_type[(data_type, precision)],
             ).reshape(dims)
 
         if data_format != "HDF":
@@ -328,7 +330,7 @@ class TimeSeriesWriter:
             bin_filename = f"{self.filename.stem}{self.data_counter}.bin"
             self.data_counter += 1
             # write binary data to file
-            with open(bin_filename, "wb") as f:
+            with open(self.filename.with_name(bin_filename), "wb") as f:
                 # the data items don't specify the byte order
                 data.astype(data.dtype.newbyteorder("="), copy=False).tofile(f)
             return bin_filename
-- 
2.43.0


From 8ec549f173da9b4b1858c50b60982f334621566b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:26 +0000
Subject: [PATCH 090/142] fix: CGNS files can be written without compression

---
 src/meshio/cgns/_cgns.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/meshio/cgns/_cgns.py b/src/meshio/cgns/_cgns.py
index 47113f1..87b53f3 100644
--- a/src/meshio/cgns/_cgns.py
+++ b/src/meshio/cgns/_cgns.py
@@ -44,8 +44,14 @@ def read(filename):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
-    f = h5py.File(filename, "w")
+    if compression is None:
+        compression_opts = None
 
+    with h5py.File(filename, "w") as f:
+        _write_base(f, mesh, compression, compression_opts)
+
+
+def _write_base(f, mesh, compression, compression_opts):
     base = f.create_group("Base")
 
     # TODO something is missing here
-- 
2.43.0


From 410a64672cd9fdb3f1c3cf35bebdf4a5e8eb0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:26 +0000
Subject: [PATCH 091/142] fix: Gmsh 4.1 refuses a mesh before it truncates the
 file

---
 src/meshio/gmsh/_gmsh41.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 6871eef..6504c44 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -324,6 +324,13 @@ def write(filename, mesh, float_fmt=".16e", binary=True):
         else:
             cell_data[key] = d
 
+    if "gmsh:dim_tags" not in mesh.point_data and len(mesh.cells) != 1:
+        # checked before the file is opened, such that an existing one is not lost
+        raise WriteError(
+            "Specify entity information (gmsh:dim_tags in point_data) "
+            + "to deal with more than one cell type. "
+        )
+
     with open(filename, "wb") as fh:
         file_type = 1 if binary else 0
         data_size = c_size_t.itemsize
@@ -593,13 +600,7 @@ def _write_nodes(fh, points, cells, point_data, float_fmt, binary):
         )
     else:
         # If entity information is not provided, we will assign the same entity for all
-        # nodes. This only makes sense if the cells are of a single type
-        if len(cells) != 1:
-            raise WriteError(
-                "Specify entity information (gmsh:dim_tags in point_data) "
-                + "to deal with more than one cell type. "
-            )
-
+        # nodes. This only makes sense if the cells are of a single type (see write()).
         dim = cells[0].dim
         tag = 0
         node_dim_tags = np.array([[dim, tag]])
-- 
2.43.0


From b66a573994803cbce48365fc9c096f3b4729820a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:22 +0000
Subject: [PATCH 092/142] fix: H5M files can be written without compression

---
 src/meshio/h5m/_h5m.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/h5m/_h5m.py b/src/meshio/h5m/_h5m.py
index e5f2e24..7c9400f 100644
--- a/src/meshio/h5m/_h5m.py
+++ b/src/meshio/h5m/_h5m.py
@@ -116,6 +116,9 @@ def read(filename):
 def write(filename, mesh, add_global_ids=True, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     f = h5py.File(filename, "w")
 
     tstt = f.create_group("tstt")
-- 
2.43.0


From cde846a8ee783c5da41c5eacf648174c71b8384c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 093/142] fix: reading a cut-off OFF, WKT, MDPA or ANSYS file
 does not hang

---
 src/meshio/ansys/_ansys.py | 33 +++++++++++++++++++++++----------
 src/meshio/mdpa/_mdpa.py   |  4 ++++
 src/meshio/off/_off.py     |  5 ++++-
 src/meshio/wkt/_wkt.py     |  4 +++-
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 61d8739..2e59202 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -19,12 +19,29 @@ from .._mesh import Mesh
 def _skip_to(f, char):
     c = None
     while c != char:
-        c = f.read(1).decode()
+        c = _read_char(f)
+
+
+def _read_char(f):
+    char = f.read(1).decode()
+    if not char:
+        raise ReadError("Unexpected end of file.")
+    return char
+
+
+def _read_data_line(f):
+    # the next line that isn't blank
+    line = "\n"
+    while line.strip() == "":
+        line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+    return line
 
 
 def _skip_close(f, num_open_brackets):
     while num_open_brackets > 0:
-        char = f.read(1).decode()
+        char = _read_char(f)
         if char == "(":
             num_open_brackets += 1
         elif char == ")":
@@ -61,16 +78,14 @@ def _read_points(f, line, first_point_index_overall, last_point_index):
     # be the current line already).
     last_char = line.strip()[-1]
     while last_char != "(":
-        last_char = f.read(1).decode()
+        last_char = _read_char(f)
 
     if out.group(1) == "":
         # ASCII data
         pts = np.empty((num_points, dim))
         for k in range(num_points):
             # skip ahead to the first line with data
-            line = ""
-            while line.strip() == "":
-                line = f.readline().decode()
+            line = _read_data_line(f)
             dat = line.split()
             if len(dat) != dim:
                 raise ReadError()
@@ -130,7 +145,7 @@ def _read_cells(f, line):
     if line.strip()[-1] != "(":
         c = None
         while True:
-            c = f.read(1).decode()
+            c = _read_char(f)
             if c == "(":
                 break
             if not re.match("\\s", c):
@@ -227,9 +242,7 @@ def _read_faces(f, line):
             # > type v0 v1 v2 c0 c1
             # >
             for k in range(num_cells):
-                line = ""
-                while line.strip() == "":
-                    line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 type_index = int(dat[0], 16)
                 if type_index == 0:
diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index afa39ec..4917149 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -109,6 +109,8 @@ def _read_nodes(f, is_ascii, data_size):
     num_nodes = 0
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file, expected 'End Nodes'.")
         if "End Nodes" in line:
             break
         num_nodes += 1
@@ -146,6 +148,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
     while True:
         line = f.readline().decode()
+        if not line:
+            raise ReadError("Unexpected end of file, expected 'End Elements'.")
         if line.startswith("End Elements") or line.startswith("End Conditions"):
             break
         # data[0] gives the entity id
diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index c3b670b..f657f65 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -31,7 +31,10 @@ def read_buffer(f):
 
     # fast forward to the next significant line
     while True:
-        line = f.readline().strip()
+        line = f.readline()
+        if not line:
+            raise ReadError("Unexpected end of file.")
+        line = line.strip()
         if line and line[0] != "#":
             break
 
diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 2fa0f8d..84a7f4d 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -10,7 +10,9 @@ from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 
-float_pattern = r"[+-]?(?:\d+\.?\d*|\d*\.?\d+)(?:[eE][+-]?\d+)?"
+# There is only one way to match a number; otherwise, the time it takes to find out that a
+# string is no TIN grows exponentially with its length.
+float_pattern = r"[+-]?(?:\d+(?:\.\d*)?|\.\d+)(?:[eE][+-]?\d+)?"
 float_re = re.compile(float_pattern)
 
 point_pattern = r"{0}\s+{0}\s+{0}(?:\s+{0})?".format(float_pattern)
-- 
2.43.0


From aa4551fbc2856b1ce3149374ad2434477e23436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 094/142] fix: Gmsh, VTK and Medit files that end early are not
 read as if they were complete

---
 src/meshio/_files.py       | 13 +++++++++++++
 src/meshio/gmsh/_gmsh22.py | 11 +++++++----
 src/meshio/gmsh/_gmsh40.py | 15 ++++++++-------
 src/meshio/gmsh/_gmsh41.py |  9 +++++----
 src/meshio/gmsh/common.py  |  5 +++--
 src/meshio/medit/_medit.py | 39 ++++++++++++++++++++------------------
 src/meshio/vtk/_vtk_42.py  | 34 ++++++++++++++++-----------------
 src/meshio/vtk/_vtk_51.py  | 34 ++++++++++++++++-----------------
 8 files changed, 91 insertions(+), 69 deletions(-)

diff --git a/src/meshio/_files.py b/src/meshio/_files.py
index 3f533e0..2b75651 100644
--- a/src/meshio/_files.py
+++ b/src/meshio/_files.py
@@ -1,5 +1,9 @@
 from contextlib import contextmanager
 
+import numpy as np
+
+from ._exceptions import ReadError
+
 
 def is_buffer(obj, mode):
     return ("r" in mode and hasattr(obj, "read")) or (
@@ -14,3 +18,12 @@ def open_file(path_or_buf, mode="r"):
     else:
         with open(path_or_buf, mode) as f:
             yield f
+
+
+def fromfile(f, dtype=float, count=-1, sep=""):
+    """Like numpy.fromfile(), but a file that ends before all items are read is an
+    error."""
+    out = np.fromfile(f, dtype=dtype, count=count, sep=sep)
+    if len(out) < count:
+        raise ReadError(f"Unexpected end of file (expected {count} items).")
+    return out
diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 56fbdb6..130fc9a 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -9,6 +9,7 @@ import numpy as np
 
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
 from .._exceptions import ReadError
+from .._files import fromfile
 from .._mesh import CellBlock, Mesh
 from .common import (
     _fast_forward_over_blank_lines,
@@ -102,14 +103,14 @@ def _read_nodes(f, is_ascii):
     line = f.readline().decode()
     num_nodes = int(line)
     if is_ascii:
-        points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
+        points = fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
         # The first number is the index
         point_tags = points[:, 0]
         points = points[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("x", c_double, (3,))]
-        data = np.fromfile(f, count=num_nodes, dtype=dtype)
+        data = fromfile(f, count=num_nodes, dtype=dtype)
         if not (data["index"] == range(1, num_nodes + 1)).all():
             raise ReadError()
         points = np.ascontiguousarray(data["x"])
@@ -174,6 +175,8 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         data = [int(k) for k in filter(None, line.split())]
         t = _gmsh_to_meshio_type[data[1]]
         num_nodes_per_elem = num_nodes_per_cell[t]
+        if len(data) < 3 + data[2] + num_nodes_per_elem:
+            raise ReadError("Unexpected end of line")
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
@@ -208,14 +211,14 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
     while num_elems < total_num_cells:
         # read element header
-        elem_type, num_elems0, num_tags = np.fromfile(f, count=3, dtype=c_int)
+        elem_type, num_elems0, num_tags = fromfile(f, count=3, dtype=c_int)
         t = _gmsh_to_meshio_type[elem_type]
         num_nodes_per_elem = num_nodes_per_cell[t]
 
         # read element data
         shape = (num_elems0, 1 + num_tags + num_nodes_per_elem)
         count = shape[0] * shape[1]
-        data = np.fromfile(f, count=count, dtype=c_int).reshape(shape)
+        data = fromfile(f, count=count, dtype=c_int).reshape(shape)
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 28b0de9..743f5ac 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -9,6 +9,7 @@ from functools import partial
 
 import numpy as np
 
+from .. import _files
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
@@ -88,7 +89,7 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
 
 def _read_entities(f, is_ascii: bool):
     physical_tags = tuple({} for _ in range(4))  # dims 0, 1, 2, 3
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     number = fromfile(f, c_ulong, 4)  # dims 0, 1, 2, 3
 
     for d, n in enumerate(number):
@@ -128,16 +129,16 @@ def _read_nodes(f, is_ascii):
                 idx += 1
     else:
         # numEntityBlocks(unsigned long) numNodes(unsigned long)
-        num_entity_blocks, _ = np.fromfile(f, count=2, dtype=c_ulong)
+        num_entity_blocks, _ = _files.fromfile(f, count=2, dtype=c_ulong)
 
         points = []
         tags = []
         for _ in range(num_entity_blocks):
             # tagEntity(int) dimEntity(int) typeNode(int) numNodes(unsigned long)
-            np.fromfile(f, count=3, dtype=c_int)
-            num_nodes = np.fromfile(f, count=1, dtype=c_ulong)[0]
+            _files.fromfile(f, count=3, dtype=c_int)
+            num_nodes = _files.fromfile(f, count=1, dtype=c_ulong)[0]
             dtype = [("tag", c_int), ("x", c_double, (3,))]
-            data = np.fromfile(f, count=num_nodes, dtype=dtype)
+            data = _files.fromfile(f, count=num_nodes, dtype=dtype)
             tags.append(data["tag"])
             points.append(data["x"])
 
@@ -153,7 +154,7 @@ def _read_nodes(f, is_ascii):
 
 
 def _read_elements(f, point_tags, physical_tags, is_ascii):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
 
     # numEntityBlocks(unsigned long) numElements(unsigned long)
     num_entity_blocks, _ = fromfile(f, c_ulong, 2)
@@ -209,7 +210,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
 
 
 def _read_periodic(f, is_ascii):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     periodic = []
     num_periodic = int(fromfile(f, c_int, 1)[0])
     for _ in range(num_periodic):
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 6504c44..644690c 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -7,6 +7,7 @@ from functools import partial
 
 import numpy as np
 
+from .. import _files
 from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data, warn
 from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock, Mesh
@@ -128,7 +129,7 @@ def _read_entities(f, is_ascii: bool, data_size):
     # is not difficult, but for the moment, the entropy of adding more data
     # does not seem warranted.
 
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     physical_tags = ({}, {}, {}, {})
     bounding_entities = ({}, {}, {}, {})
@@ -155,7 +156,7 @@ def _read_nodes(f, is_ascii: bool, data_size):
     # Note that entity tags are 1-offset within each dimension, thus it is
     # necessary to keep track of both tag and dimension of the entity
 
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
 
     # numEntityBlocks numNodes minNodeTag maxNodeTag (all size_t)
@@ -202,7 +203,7 @@ def _read_nodes(f, is_ascii: bool, data_size):
 def _read_elements(
     f, point_tags, physical_tags, bounding_entities, is_ascii, data_size, field_data
 ):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
 
     # numEntityBlocks numElements minElementTag maxElementTag (all size_t)
@@ -281,7 +282,7 @@ def _read_elements(
 
 
 def _read_periodic(f, is_ascii, data_size):
-    fromfile = partial(np.fromfile, sep=" " if is_ascii else "")
+    fromfile = partial(_files.fromfile, sep=" " if is_ascii else "")
     c_size_t = _size_type(data_size)
     periodic = []
     # numPeriodicLinks(size_t)
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index abf6fe4..eead6e1 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -7,6 +7,7 @@ from numpy.typing import ArrayLike
 
 from .._common import warn
 from .._exceptions import ReadError, WriteError
+from .._files import fromfile
 
 c_int = np.dtype("int32")
 c_double = np.dtype("float64")
@@ -66,7 +67,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     num_components = integer_tags[1]
     num_items = integer_tags[2]
     if is_ascii:
-        data = np.fromfile(f, count=num_items * (1 + num_components), sep=" ").reshape(
+        data = fromfile(f, count=num_items * (1 + num_components), sep=" ").reshape(
             (num_items, 1 + num_components)
         )
         # The first entry is the node number; sort by it
@@ -74,7 +75,7 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
-        data = np.fromfile(f, count=num_items, dtype=dtype)
+        data = fromfile(f, count=num_items, dtype=dtype)
         if not (data["index"] == range(1, num_items + 1)).all():
             raise ReadError()
         data = np.ascontiguousarray(data["values"])
diff --git a/src/meshio/medit/_medit.py b/src/meshio/medit/_medit.py
index 228bbb6..5fe2d3c 100644
--- a/src/meshio/medit/_medit.py
+++ b/src/meshio/medit/_medit.py
@@ -11,7 +11,7 @@ import numpy as np
 
 from .._common import _pick_first_int_data, warn
 from .._exceptions import ReadError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._helpers import register_format
 from .._mesh import Mesh
 from ._medit_internal import medit_codes
@@ -74,7 +74,7 @@ def read_binary_buffer(f):
     # the file version
     keytype = "i4"
 
-    code = np.fromfile(f, count=1, dtype=keytype).item()
+    code = fromfile(f, count=1, dtype=keytype).item()
 
     if code != 1 and code != 16777216:
         raise ReadError("Invalid code")
@@ -87,7 +87,7 @@ def read_binary_buffer(f):
         postype += swapped
         keytype = swapped + keytype
 
-    version = np.fromfile(f, count=1, dtype=keytype).item()
+    version = fromfile(f, count=1, dtype=keytype).item()
 
     if version < 1 or version > 4:
         raise ReadError("Invalid version")
@@ -109,14 +109,14 @@ def read_binary_buffer(f):
         ftype += "f8"
         postype += "i8"
 
-    field = np.fromfile(f, count=1, dtype=keytype).item()
+    field = fromfile(f, count=1, dtype=keytype).item()
 
     if field != 3:  # =  GmfDimension
         raise ReadError("Invalid dimension code : " + str(field) + " it should be 3")
 
-    np.fromfile(f, count=1, dtype=postype)
+    fromfile(f, count=1, dtype=postype)
 
-    dim = np.fromfile(f, count=1, dtype=keytype).item()
+    dim = fromfile(f, count=1, dtype=keytype).item()
 
     if dim != 2 and dim != 3:
         raise ReadError("Invalid mesh dimension : " + str(dim))
@@ -141,15 +141,15 @@ def read_binary_buffer(f):
         if field_code[0] == "GmfReserved":
             continue
 
-        np.fromfile(f, count=1, dtype=postype)
+        fromfile(f, count=1, dtype=postype)
 
         nitems = 1
         if field_code[1] == "i":
-            nitems = np.fromfile(f, count=1, dtype=itype).item()
+            nitems = fromfile(f, count=1, dtype=itype).item()
 
         field_template = field_code[2]
         dtype = np.dtype(_produce_dtype(field_template, dim, itype, ftype))
-        out = np.asarray(np.fromfile(f, count=nitems, dtype=dtype))
+        out = np.asarray(fromfile(f, count=nitems, dtype=dtype))
         if field_code[0] not in meshio_from_medit.keys():
             warn(f"meshio doesn't know {field_code[0]} type. Skipping.")
             continue
@@ -165,6 +165,9 @@ def read_binary_buffer(f):
             cells.append((meshio_type, out_view[:, :ncols] - 1))
             cell_data["medit:ref"].append(out_view[:, -1])
 
+    if points is None:
+        raise ReadError("Expected `GmfVertices`")
+
     return Mesh(points, cells, point_data=point_data, cell_data=cell_data)
 
 
@@ -218,7 +221,7 @@ def read_ascii_buffer(f):
             if dtype is None:
                 raise ReadError("Expected `MeshVersionFormatted` before `Vertices`")
             num_verts = int(f.readline())
-            out = np.fromfile(
+            out = fromfile(
                 f, count=num_verts * (dim + 1), dtype=dtype, sep=" "
             ).reshape(num_verts, dim + 1)
             points = out[:, :dim]
@@ -228,7 +231,7 @@ def read_ascii_buffer(f):
             # The first value is the number of elements
             num_cells = int(f.readline())
 
-            out = np.fromfile(
+            out = fromfile(
                 f, count=num_cells * (points_per_cell + 1), dtype=int, sep=" "
             ).reshape(num_cells, points_per_cell + 1)
 
@@ -238,41 +241,41 @@ def read_ascii_buffer(f):
         elif items[0] == "Corners":
             # those are just discarded
             num_corners = int(f.readline())
-            np.fromfile(f, count=num_corners, dtype=dtype, sep=" ")
+            fromfile(f, count=num_corners, dtype=dtype, sep=" ")
         elif items[0] == "Normals":
             # those are just discarded
             num_normals = int(f.readline())
-            np.fromfile(f, count=num_normals * dim, dtype=dtype, sep=" ").reshape(
+            fromfile(f, count=num_normals * dim, dtype=dtype, sep=" ").reshape(
                 num_normals, dim
             )
         elif items[0] == "NormalAtVertices":
             # those are just discarded
             num_normal_at_vertices = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_normal_at_vertices * 2, dtype=int, sep=" "
             ).reshape(num_normal_at_vertices, 2)
         elif items[0] == "SubDomainFromMesh":
             # those are just discarded
             num_sub_domain_from_mesh = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_sub_domain_from_mesh * 4, dtype=int, sep=" "
             ).reshape(num_sub_domain_from_mesh, 4)
         elif items[0] == "VertexOnGeometricVertex":
             # those are just discarded
             num_vertex_on_geometric_vertex = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_vertex_on_geometric_vertex * 2, dtype=int, sep=" "
             ).reshape(num_vertex_on_geometric_vertex, 2)
         elif items[0] == "VertexOnGeometricEdge":
             # those are just discarded
             num_vertex_on_geometric_edge = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_vertex_on_geometric_edge * 3, dtype=float, sep=" "
             ).reshape(num_vertex_on_geometric_edge, 3)
         elif items[0] == "EdgeOnGeometricEdge":
             # those are just discarded
             num_edge_on_geometric_edge = int(f.readline())
-            np.fromfile(
+            fromfile(
                 f, count=num_edge_on_geometric_edge * 2, dtype=int, sep=" "
             ).reshape(num_edge_on_geometric_edge, 2)
         elif items[0] == "Identifier" or items[0] == "Geometry":
diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index f3cb469..c04ae34 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -9,7 +9,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import warn
 from .._exceptions import ReadError, WriteError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._mesh import Mesh
 from .._vtk_common import (
     Info,
@@ -207,7 +207,7 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
@@ -217,7 +217,7 @@ def _read_section(f, info):
         dtype = np.ubyte
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        fromfile(f, count=num_items * nValues, dtype=dtype)
 
 
 def _read_subsection(f, info):
@@ -352,12 +352,12 @@ def _generate_points(axis):
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = np.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = np.fromfile(f, count=num_points, dtype=dtype)
+        coords = fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -367,12 +367,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = np.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = np.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -381,10 +381,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_int_data(f, is_ascii, num_items, dtype=np.dtype("int32")):
     if is_ascii:
-        c = np.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = np.fromfile(f, count=num_items, dtype=dtype)
+        c = fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -393,10 +393,10 @@ def _read_int_data(f, is_ascii, num_items, dtype=np.dtype("int32")):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = np.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = np.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode()
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -423,12 +423,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = np.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -447,12 +447,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = np.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=k * num_data, dtype=dtype)
+        data = fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -476,12 +476,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = np.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = np.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = np.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode()
             if line != "\n":
                 raise ReadError()
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index acb20d7..f05bb9d 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -5,7 +5,7 @@ import numpy as np
 from ..__about__ import __version__
 from .._common import info, join_strings, replace_space, shallow_copy, warn
 from .._exceptions import ReadError, WriteError
-from .._files import open_file
+from .._files import fromfile, open_file
 from .._mesh import Mesh
 from .._vtk_common import (
     Info,
@@ -180,7 +180,7 @@ def _read_section(f, info):
 
     elif info.section == "LOOKUP_TABLE":
         info.num_items = int(info.split[2])
-        np.fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
+        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
         # rgba = data.reshape((info.num_items, 4))
 
     elif info.section == "COLOR_SCALARS":
@@ -190,7 +190,7 @@ def _read_section(f, info):
         dtype = np.ubyte
         if info.is_ascii:
             dtype = float
-        np.fromfile(f, count=num_items * nValues, dtype=dtype)
+        fromfile(f, count=num_items * nValues, dtype=dtype)
 
 
 def _read_subsection(f, info):
@@ -324,12 +324,12 @@ def _generate_points(axis):
 def _read_coords(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        coords = np.fromfile(f, count=num_points, sep=" ", dtype=dtype)
+        coords = fromfile(f, count=num_points, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        coords = np.fromfile(f, count=num_points, dtype=dtype)
+        coords = fromfile(f, count=num_points, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -339,12 +339,12 @@ def _read_coords(f, data_type, is_ascii, num_points):
 def _read_points(f, data_type, is_ascii, num_points):
     dtype = np.dtype(vtk_to_numpy_dtype_name[data_type])
     if is_ascii:
-        points = np.fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
+        points = fromfile(f, count=num_points * 3, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        points = np.fromfile(f, count=num_points * 3, dtype=dtype)
+        points = fromfile(f, count=num_points * 3, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -353,10 +353,10 @@ def _read_points(f, data_type, is_ascii, num_points):
 
 def _read_int_data(f, is_ascii, num_items, dtype):
     if is_ascii:
-        c = np.fromfile(f, count=num_items, sep=" ", dtype=dtype)
+        c = fromfile(f, count=num_items, sep=" ", dtype=dtype)
     else:
         dtype = dtype.newbyteorder(">")
-        c = np.fromfile(f, count=num_items, dtype=dtype)
+        c = fromfile(f, count=num_items, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError("Expected newline")
@@ -365,10 +365,10 @@ def _read_int_data(f, is_ascii, num_items, dtype):
 
 def _read_cell_types(f, is_ascii, num_items):
     if is_ascii:
-        ct = np.fromfile(f, count=int(num_items), sep=" ", dtype=int)
+        ct = fromfile(f, count=int(num_items), sep=" ", dtype=int)
     else:
         # binary
-        ct = np.fromfile(f, count=int(num_items), dtype=">i4")
+        ct = fromfile(f, count=int(num_items), dtype=">i4")
         line = f.readline().decode()
         # Sometimes, there's no newline at the end
         if line.strip() != "":
@@ -395,12 +395,12 @@ def _read_scalar_field(f, num_data, split, is_ascii):
         raise ReadError()
 
     if is_ascii:
-        data = np.fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=num_data * num_comp, dtype=dtype)
+        data = fromfile(f, count=num_data * num_comp, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -419,12 +419,12 @@ def _read_field(f, num_data, split, shape, is_ascii):
     k = reduce((lambda x, y: x * y), shape)
 
     if is_ascii:
-        data = np.fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
+        data = fromfile(f, count=k * num_data, sep=" ", dtype=dtype)
     else:
         # Binary data is big endian, see
         # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
         dtype = dtype.newbyteorder(">")
-        data = np.fromfile(f, count=k * num_data, dtype=dtype)
+        data = fromfile(f, count=k * num_data, dtype=dtype)
         line = f.readline().decode()
         if line != "\n":
             raise ReadError()
@@ -448,12 +448,12 @@ def _read_fields(f, num_fields, is_ascii):
         dtype = np.dtype(vtk_to_numpy_dtype_name[data_type.lower()])
 
         if is_ascii:
-            dat = np.fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, sep=" ", dtype=dtype)
         else:
             # Binary data is big endian, see
             # <https://vtk.org/Wiki/VTK/Writing_VTK_files_using_python#.22legacy.22>.
             dtype = dtype.newbyteorder(">")
-            dat = np.fromfile(f, count=shape0 * shape1, dtype=dtype)
+            dat = fromfile(f, count=shape0 * shape1, dtype=dtype)
             line = f.readline().decode()
             if line != "\n":
                 raise ReadError()
-- 
2.43.0


From c727769bf6d83348fe08e5e3078d565983cb019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 095/142] fix: PLY files that end early are not read as if they
 were complete

---
 src/meshio/ply/_ply.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 1b50ea7..980cd53 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -226,6 +226,8 @@ def _read_ascii(
                 n = ply_to_numpy_dtype[idx_dtype](data[i])
                 dtype = ply_to_numpy_dtype[value_dtype]
                 idx = dtype(data[i + 1 : i + n + 1])
+                if len(idx) != n:
+                    raise ReadError("Unexpected end of line")
                 if len(cell_blocks) == 0 or len(cell_blocks[-1][1][-1]) != n:
                     cell_blocks.append((cell_type_from_count(n), [idx]))
                 else:
@@ -263,6 +265,8 @@ def _read_binary(
     point_data = np.frombuffer(
         f.read(num_verts * np.dtype(dtype).itemsize), dtype=dtype
     )
+    if len(point_data) != num_verts:
+        raise ReadError("Unexpected end of file")
     verts = np.column_stack(
         [point_data[name] for name in ["x", "y", "z"] if name in point_data_names]
     )
@@ -363,6 +367,8 @@ def _read_binary_list(buffer, count_dtype, data_dtype, num_cells, endianness):
 
     # Row `i` is given by `buffer[byte_starts_ends[i]: byte_starts_ends[i+1]]`.
     byte_starts_ends = np.fromiter(parse_ragged(0, num_cells), np.intp, num_cells + 1)
+    if byte_starts_ends[-1] > len(buffer):
+        raise ReadError("Unexpected end of file")
 
     # Next, find where the row length changes and list the (start, end) row ids
     # of each homogeneous block into `block_bounds`.
-- 
2.43.0


From 588aa40efd37ea0619f3b1c583d8c3e3f2d0d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 096/142] fix: SU2 and Netgen files that end early are not read
 as if they were complete

---
 src/meshio/netgen/_netgen.py | 11 +++++++++--
 src/meshio/su2/_su2.py       | 16 ++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 74c1d21..6dd21a8 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__
 from .._common import warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import Mesh
@@ -236,7 +237,7 @@ def _write_codim_domain_data(f, mesh, cells_index, dim, codim):
 
 
 def read_buffer(f):
-    points = []
+    points = None
     cells = []
     cells_index = []
     field_data = {}
@@ -263,8 +264,11 @@ def read_buffer(f):
 
         elif line == "points":
             num_points = int(f.readline())
+            points = []
             if num_points > 0:
-                points = np.loadtxt(f, max_rows=num_points)
+                points = np.loadtxt(f, max_rows=num_points, ndmin=2)
+                if len(points) != num_points:
+                    raise ReadError("Unexpected end of file")
                 if dimension != 3:
                     points = points[:, :dimension]
 
@@ -322,6 +326,9 @@ def read_buffer(f):
         else:
             raise RuntimeError(f"Unknown Netgen mesh token: {line}")
 
+    if points is None:
+        raise ReadError("Expected points")
+
     # convert to numpy arrays
     # subtract one (netgen counts 1-based)
     # apply permutation of vertex numbers
diff --git a/src/meshio/su2/_su2.py b/src/meshio/su2/_su2.py
index 8b63ab2..da5b893 100644
--- a/src/meshio/su2/_su2.py
+++ b/src/meshio/su2/_su2.py
@@ -3,7 +3,7 @@ I/O SU2 mesh format
 <https://su2code.github.io/docs_v7/Mesh-File/>
 """
 
-from itertools import chain, islice
+from itertools import islice
 
 import numpy as np
 
@@ -96,6 +96,8 @@ def read_buffer(f):
             first_line = np.array(first_line, dtype=ftype)
 
             extra_columns = first_line.shape[0] - dim
+            if extra_columns < 0:
+                raise ReadError(f"Expected {dim} coordinates per point")
 
             num_verts = int(rest_of_line.split()[0]) - 1
             points = np.fromfile(
@@ -118,12 +120,13 @@ def read_buffer(f):
             num_elems = int(rest_of_line)
             if num_elems == 0:
                 continue
-            gen = islice(f, num_elems)
+            lines = list(islice(f, num_elems))
+            if len(lines) != num_elems:
+                raise ReadError(f"Expected {num_elems} elements for {name} field")
 
             # some files has an extra int column while other not
             # We do not need it so make sure we will skip it
-            first_line_str = next(gen)
-            first_line = first_line_str.split()
+            first_line = lines[0].split()
             nnodes = su2_type_to_numnodes[int(first_line[0])]
             has_extra_column = False
             if nnodes + 1 == len(first_line):
@@ -133,10 +136,7 @@ def read_buffer(f):
             else:
                 raise ReadError(f"Invalid number of columns for {name} field")
 
-            # reset generator
-            gen = chain([first_line_str], gen)
-
-            cell_array = " ".join([line.rstrip("\n") for line in gen])
+            cell_array = " ".join([line.rstrip("\n") for line in lines])
             cell_array = np.fromiter(cell_array.split(), dtype=itype)
 
             cells_, _ = _translate_cells(cell_array, has_extra_column)
-- 
2.43.0


From 8533a240af099c9ff5752e7a55670a4136dc579b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:12 +0000
Subject: [PATCH 097/142] fix: incomplete lines of AVS-UCD and Tecplot files
 are not accepted

---
 src/meshio/avsucd/_avsucd.py   | 3 +++
 src/meshio/tecplot/_tecplot.py | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index 9f87c4a..dc9b201 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -7,6 +7,7 @@ import numpy as np
 
 from ..__about__ import __version__ as version
 from .._common import _pick_first_int_data, warn
+from .._exceptions import ReadError
 from .._files import open_file
 from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
@@ -131,6 +132,8 @@ def _read_data(f, num_entities, entity_ids):
 
     for _ in range(num_entities):
         line = f.readline().strip().split()
+        if len(line) < 1 + sum(data_size):
+            raise ReadError("Unexpected end of data line")
         eid = entity_ids[int(line[0])]
         j = 0
         for i, dsize in enumerate(data_size):
diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index 75ed381..b67f475 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -7,7 +7,7 @@ I/O for Tecplot ASCII data format, cf.
 import numpy as np
 
 from ..__about__ import __version__ as version
-from .._common import warn
+from .._common import num_nodes_per_cell, warn
 from .._exceptions import ReadError, WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -217,7 +217,10 @@ def read_buffer(f):
     points = np.column_stack((point_data.pop(x), point_data.pop(y)))
     if z:
         points = np.column_stack((points, point_data.pop(z)))
-    cells = [(tecplot_to_meshio_type[zone_type], cells - 1)]
+    cell_type = tecplot_to_meshio_type[zone_type]
+    if cells.shape[1] != num_nodes_per_cell[cell_type]:
+        raise ReadError(f"Unexpected number of nodes per cell ({cells.shape[1]})")
+    cells = [(cell_type, cells - 1)]
 
     return Mesh(points, cells, point_data, cell_data)
 
-- 
2.43.0


From d701015f75c33750f87a28d889c67dd5f1bfda0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 098/142] fix: DOLFIN XML: mesh functions on triangles in space
 have dimension 2

---
 src/meshio/dolfin/_dolfin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/meshio/dolfin/_dolfin.py b/src/meshio/dolfin/_dolfin.py
index ecc50be..b863080 100644
--- a/src/meshio/dolfin/_dolfin.py
+++ b/src/meshio/dolfin/_dolfin.py
@@ -239,7 +239,8 @@ def write(filename, mesh):
         data = data.reshape(len(data))
         fname = os.path.splitext(filename)[0]
         cell_data_filename = f"{fname}_{name}.xml"
-        dim = 2 if mesh.points.shape[1] == 2 or all(mesh.points[:, 2] == 0) else 3
+        # the dimension of the cells, not of the space they are in
+        dim = 3 if cell_type == "tetra" else 2
         _write_cell_data(cell_data_filename, dim, data)
 
 
-- 
2.43.0


From 94d7ed92894e11b73a24e68a2d743e10cc4916dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:36 +0000
Subject: [PATCH 099/142] fix: Gmsh 4.0: number the elements from 1, as the
 element data do

---
 src/meshio/gmsh/_gmsh40.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 743f5ac..32247d1 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -315,7 +315,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         np.array([len(cell_blocks), total_num_cells], dtype=c_ulong).tofile(fh)
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             node_idcs = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
 
@@ -350,7 +350,7 @@ def _write_elements(fh, cell_blocks: list[CellBlock], binary: bool):
         total_num_cells = sum(len(cell_block) for cell_block in cell_blocks)
         fh.write(f"{len(cell_blocks)} {total_num_cells}\n".encode())
 
-        consecutive_index = 0
+        consecutive_index = 1
         for cell_block in cell_blocks:
             cell_type = cell_block.type
             cell_data = _meshio_to_gmsh_order(cell_block.type, cell_block.data)
-- 
2.43.0


From 95548e62bdb38788bec5bec2aace79961f59a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:26 +0000
Subject: [PATCH 100/142] fix: Netgen: order of the mid-edge nodes of 20-node
 hexahedra

---
 src/meshio/netgen/_netgen.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/meshio/netgen/_netgen.py b/src/meshio/netgen/_netgen.py
index 6dd21a8..d86d509 100644
--- a/src/meshio/netgen/_netgen.py
+++ b/src/meshio/netgen/_netgen.py
@@ -88,14 +88,14 @@ netgen_to_meshio_pmap = {
         9,
         11,
         8,
-        16,
-        19,
-        18,
-        17,
         14,
         13,
         15,
         12,
+        16,
+        19,
+        18,
+        17,
     ],
 }
 
-- 
2.43.0


From dc1ebc1ca23beb91f21b270a9992817246385048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:00 +0000
Subject: [PATCH 101/142] fix: Abaqus: lower-case element types, blanks around
 items, NODE and NSET blocks in pieces, C3D4H

---
 src/meshio/abaqus/_abaqus.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index cafa09f..daab1d6 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -80,7 +80,7 @@ abaqus_to_meshio_type = {
     # "HEX27": "hexahedron27",
     #
     "C3D4": "tetra",
-    "C3D4H": "tetra4",
+    "C3D4H": "tetra",
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
@@ -133,7 +133,9 @@ def read_buffer(f):
 
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
-            points, point_ids, line = _read_nodes(f)
+            # there can be several NODE blocks
+            new_points, point_ids, line = _read_nodes(f, point_ids)
+            points = np.concatenate([points, new_points]) if len(points) else new_points
         elif keyword == "ELEMENT":
             if point_ids is None:
                 raise ReadError("Expected NODE before ELEMENT")
@@ -149,8 +151,11 @@ def read_buffer(f):
             params_map = get_param_map(line, required_keys=["NSET"])
             set_ids, _, line = _read_set(f, params_map)
             name = params_map["NSET"]
+            members = [point_ids[point_id] for point_id in set_ids]
+            # A set can be given in several pieces
+            previous = list(point_sets.get(name, []))
             point_sets[name] = np.array(
-                [point_ids[point_id] for point_id in set_ids], dtype="int32"
+                list(dict.fromkeys(previous + members)), dtype="int32"
             )
         elif keyword == "ELSET":
             params_map = get_param_map(line, required_keys=["ELSET"])
@@ -238,10 +243,10 @@ def _merge_set_pieces(pieces, num_blocks):
     return out
 
 
-def _read_nodes(f):
+def _read_nodes(f, point_ids=None):
     points = []
-    point_ids = {}
-    counter = 0
+    point_ids = {} if point_ids is None else point_ids
+    counter = len(point_ids)
     while True:
         line = f.readline()
         if line.startswith("**"):  # comment
@@ -251,7 +256,7 @@ def _read_nodes(f):
         if line.strip() == "":
             continue
 
-        line = line.strip().split(",")
+        line = line.strip().strip(",").split(",")
         point_id, coords = line[0], line[1:]
         point_ids[int(point_id)] = counter
         points.append([float(x) for x in coords])
@@ -261,7 +266,7 @@ def _read_nodes(f):
 
 
 def _read_cells(f, params_map, point_ids):
-    etype = params_map["TYPE"]
+    etype = params_map["TYPE"].upper()
     if etype not in abaqus_to_meshio_type.keys():
         raise ReadError(f"Element type not available: {etype}")
 
@@ -279,7 +284,7 @@ def _read_cells(f, params_map, point_ids):
         line = line.strip()
         if line == "":
             continue
-        idx += [int(k) for k in filter(None, line.split(","))]
+        idx += [int(k) for k in line.split(",") if k.strip()]
 
     # Check for expected number of data
     if len(idx) % num_data != 0:
@@ -400,7 +405,7 @@ def _read_set(f, params_map):
         if line.strip() == "":
             continue
 
-        line = line.strip().strip(",").split(",")
+        line = [item.strip() for item in line.strip().strip(",").split(",")]
         if line[0].isnumeric():
             set_ids += [int(k) for k in line]
         else:
-- 
2.43.0


From 48bf79632fddf490d2fc860d2a40bef3e24da55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:00 +0000
Subject: [PATCH 102/142] fix: Gmsh: NodeData and Periodic refer to nodes by
 tag; blank lines in 4.0 files

---
 src/meshio/gmsh/_gmsh22.py |  6 +++++-
 src/meshio/gmsh/_gmsh40.py | 12 ++++++++----
 src/meshio/gmsh/common.py  | 19 +++++++++++++++++++
 3 files changed, 32 insertions(+), 5 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 130fc9a..2f9dd81 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -12,12 +12,14 @@ from .._exceptions import ReadError
 from .._files import fromfile
 from .._mesh import CellBlock, Mesh
 from .common import (
+    _align_point_data,
     _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
+    _periodic_from_tags,
     _read_data,
     _read_physical_names,
     _write_data,
@@ -73,6 +75,9 @@ def read_buffer(f, is_ascii, data_size):
     if has_additional_tag_data:
         warn("The file contains tag data that couldn't be processed.")
 
+    if point_tags is not None:
+        point_data = _align_point_data(point_data, point_tags)
+        periodic = _periodic_from_tags(periodic, point_tags)
     cell_data = cell_data_from_raw(cells, cell_data_raw)
 
     # merge cell_tags into cell_data
@@ -259,7 +264,6 @@ def _read_periodic(f):
             snode, mnode = (int(s) for s in line.split())
             slave_master.append([snode, mnode])
         slave_master = np.array(slave_master, dtype=c_int).reshape(-1, 2)
-        slave_master -= 1  # Subtract one, Python is 0-based
         periodic.append([edim, (stag, mtag), affine, slave_master])
     _fast_forward_to_end_block(f, "Periodic")
     return periodic
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 32247d1..348a101 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -14,11 +14,14 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
+    _align_point_data,
+    _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
     _gmsh_to_meshio_type,
     _meshio_to_gmsh_order,
     _meshio_to_gmsh_type,
+    _periodic_from_tags,
     _read_data,
     _read_physical_names,
     _write_data,
@@ -41,9 +44,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
     physical_tags = None
     periodic = None
     while True:
-        line = f.readline().decode()
-        if not line:
-            # EOF
+        # fast-forward over blank lines
+        line, is_eof = _fast_forward_over_blank_lines(f)
+        if is_eof:
             break
         if line[0] != "$":
             raise ReadError
@@ -74,6 +77,8 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
             # skip environment
             _fast_forward_to_end_block(f, environ)
 
+    point_data = _align_point_data(point_data, point_tags)
+    periodic = _periodic_from_tags(periodic, point_tags)
     cell_data = cell_data_from_raw(cells, cell_data_raw)
     cell_data.update(cell_tags)
 
@@ -232,7 +237,6 @@ def _read_periodic(f, is_ascii):
             else:
                 affine = None
         slave_master = fromfile(f, c_int, num_nodes * 2).reshape(-1, 2)
-        slave_master = slave_master - 1  # Subtract one, Python is 0-based
         periodic.append([edim, (stag, mtag), affine, slave_master])
 
     _fast_forward_to_end_block(f, "Periodic")
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index eead6e1..0267138 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -99,6 +99,25 @@ def _align_point_data(point_data, point_tags):
     }
 
 
+def _periodic_from_tags(periodic, point_tags):
+    # $Periodic refers to the nodes by their tag, too.
+    if periodic is None:
+        return None
+    index = {int(tag): k for k, tag in enumerate(point_tags)}
+    return [
+        [
+            edim,
+            tags,
+            affine,
+            np.array(
+                [[index.get(int(t), int(t) - 1) for t in pair] for pair in slave_master],
+                dtype=slave_master.dtype,
+            ).reshape(-1, 2),
+        ]
+        for edim, tags, affine, slave_master in periodic
+    ]
+
+
 # Translate meshio types to gmsh codes
 # http://gmsh.info//doc/texinfo/gmsh.html#MSH-file-format-version-2
 _gmsh_to_meshio_type = {
-- 
2.43.0


From 3f0cad6d4e77d54931212ddc7b01fec5d7cc96d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:00 +0000
Subject: [PATCH 103/142] fix: MDPA: respect node ids, comments and blank lines

---
 src/meshio/mdpa/_mdpa.py | 58 +++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 27 deletions(-)

diff --git a/src/meshio/mdpa/_mdpa.py b/src/meshio/mdpa/_mdpa.py
index 4917149..6fef109 100644
--- a/src/meshio/mdpa/_mdpa.py
+++ b/src/meshio/mdpa/_mdpa.py
@@ -99,34 +99,35 @@ def read(filename):
 
 
 def _read_nodes(f, is_ascii, data_size):
-    # Count the number of nodes. This is _extremely_ ugly; we first read the _entire_
-    # file until "End Nodes". The crazy thing is that first counting the lines, then
-    # skipping back to pos, and using fromfile there is _faster_ than accumulating the
-    # points into a list and converting them to a numpy array afterwards. A point count
-    # would be _really_ helpful here, but yeah, that's a fallacy of the format.
-    # <https://github.com/KratosMultiphysics/Kratos/issues/5365>
-    pos = f.tell()
-    num_nodes = 0
+    point_ids = {}
+    points = []
     while True:
-        line = f.readline().decode()
-        if not line:
+        line = _read_line(f)
+        if line is None:
             raise ReadError("Unexpected end of file, expected 'End Nodes'.")
-        if "End Nodes" in line:
+        if line.startswith("End Nodes"):
             break
-        num_nodes += 1
-    f.seek(pos)
+        items = line.split()
+        if len(items) != 4:
+            raise ReadError(f"Expected id and 3 coordinates, got '{line}'.")
+        point_ids[int(items[0])] = len(points)
+        points.append([float(item) for item in items[1:]])
+    points = np.array(points, dtype=float).reshape(-1, 3)
+    return points, point_ids
 
-    points = np.fromfile(f, count=num_nodes * 4, sep=" ").reshape((num_nodes, 4))
-    # The first number is the index
-    points = points[:, 1:]
 
-    line = f.readline().decode()
-    if line.strip() != "End Nodes":
-        raise ReadError()
-    return points
+def _read_line(f):
+    # the next line that is not blank, without comments
+    while True:
+        line = f.readline().decode()
+        if not line:
+            return None
+        line = line.split("//")[0].strip()
+        if line:
+            return line
 
 
-def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
+def _read_cells(f, cells, is_ascii, cell_tags, environ=None, point_ids=None):
     if not is_ascii:
         raise ReadError("Can only read ASCII cells")
 
@@ -147,8 +148,8 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
                     break
 
     while True:
-        line = f.readline().decode()
-        if not line:
+        line = _read_line(f)
+        if line is None:
             raise ReadError("Unexpected end of file, expected 'End Elements'.")
         if line.startswith("End Elements") or line.startswith("End Conditions"):
             break
@@ -163,8 +164,10 @@ def _read_cells(f, cells, is_ascii, cell_tags, environ=None):
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
-        # Subtract one to account for the fact that python indices are 0-based.
-        cells[-1][1].append(np.array(data[-num_nodes_per_elem:]) - 1)
+        # The nodes are referred to by their id
+        cells[-1][1].append(
+            np.array([point_ids[k] for k in data[-num_nodes_per_elem:]])
+        )
 
         # Using the property id as tag
         if t not in cell_tags:
@@ -286,6 +289,7 @@ def read_buffer(f):
 
     # Initialize the optional data fields
     points = []
+    point_ids = {}
     cells = []
     field_data = {}
     cell_data = {}
@@ -310,11 +314,11 @@ def read_buffer(f):
         environ = line.strip()
 
         if environ.startswith("Begin Nodes"):
-            points = _read_nodes(f, is_ascii, data_size)
+            points, point_ids = _read_nodes(f, is_ascii, data_size)
         elif environ.startswith("Begin Elements") or environ.startswith(
             "Begin Conditions"
         ):
-            _read_cells(f, cells, is_ascii, cell_tags, environ)
+            _read_cells(f, cells, is_ascii, cell_tags, environ, point_ids)
 
     # We finally prepare the cells
     has_additional_tag_data = _prepare_cells(cells, cell_tags)
-- 
2.43.0


From f4d681450358f02ed6001f4f836ab95853af332b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 104/142] fix: Nastran: reals with D exponent

---
 src/meshio/nastran/_nastran.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index f7ad780..69889ed 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -462,8 +462,10 @@ def _nastran_string_to_float(string):
     try:
         return float(string)
     except ValueError:
-        string = string.strip()
-        return float(string[0] + string[1:].replace("+", "e+").replace("-", "e-"))
+        string = string.strip().upper().replace("D", "E")
+        if "E" not in string:
+            string = string[0] + string[1:].replace("+", "E+").replace("-", "E-")
+        return float(string)
 
 
 def _chunk_line(line: str) -> tuple[list[str], bool]:
-- 
2.43.0


From 87265ed0d2538b82eaef1099ddac11d887a79ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 105/142] fix: OBJ: negative vertex indices count back from the
 last vertex

---
 src/meshio/obj/_obj.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index d520818..fcaaaa3 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -52,6 +52,8 @@ def read_buffer(f):
             pass
         elif split[0] == "f":
             dat = [int(item.split("/")[0]) for item in split[1:]]
+            # negative indices count from the last vertex
+            dat = [k if k > 0 else len(points) + 1 + k for k in dat]
             if len(face_groups) == 0 or (
                 len(face_groups[-1]) > 0 and len(face_groups[-1][-1]) != len(dat)
             ):
-- 
2.43.0


From a31562ce081210b51e1a2a3e290ad562f2e12a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 106/142] fix: OFF: comments between the data, any blanks in
 the header

---
 src/meshio/off/_off.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/meshio/off/_off.py b/src/meshio/off/_off.py
index f657f65..51f3f5c 100644
--- a/src/meshio/off/_off.py
+++ b/src/meshio/off/_off.py
@@ -40,14 +40,16 @@ def read_buffer(f):
 
     # This next line contains:
     # <number of vertices> <number of faces> <number of edges>
-    num_verts, num_faces, _ = line.split(" ")
+    num_verts, num_faces, _ = line.split("#")[0].split()
     num_verts = int(num_verts)
     num_faces = int(num_faces)
 
-    verts = np.fromfile(f, dtype=float, count=3 * num_verts, sep=" ").reshape(
-        num_verts, 3
-    )
-    data = np.fromfile(f, dtype=int, count=4 * num_faces, sep=" ").reshape(num_faces, 4)
+    # comments can be anywhere
+    items = [item for line in f for item in line.split("#")[0].split()]
+    split = 3 * num_verts
+    verts = np.array(items[:split], dtype=float).reshape(num_verts, 3)
+    data = np.array(items[split : split + 4 * num_faces], dtype=int)
+    data = data.reshape(num_faces, 4)
     if not np.all(data[:, 0] == 3):
         raise ReadError("Can only read triangular faces")
     cells = [CellBlock("triangle", data[:, 1:])]
-- 
2.43.0


From a6f8a6342201d43da978ee5c2b417af681e8fe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 107/142] fix: PERMAS: several blanks between items

---
 src/meshio/permas/_permas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/permas/_permas.py b/src/meshio/permas/_permas.py
index 4c7297f..38f3bb5 100644
--- a/src/meshio/permas/_permas.py
+++ b/src/meshio/permas/_permas.py
@@ -140,7 +140,7 @@ def _read_nodes(f):
             continue
         if line.startswith("$") or line == "":
             break
-        entries = line.strip().split(" ")
+        entries = line.split()
         gid, x = entries[0], entries[1:]
         point_gids[int(gid)] = index
         points.append([float(xx) for xx in x])
@@ -169,7 +169,7 @@ def _read_cells(f, line0, point_gids):
             continue
         line = line.strip()
         # the first item is just a running index
-        idx += [point_gids[int(k)] for k in filter(None, line.split(" ")[1:])]
+        idx += [point_gids[int(k)] for k in line.rstrip("!").split()[1:]]
         if not line.endswith("!"):
             cells.append(idx)
             idx = []
-- 
2.43.0


From e2013b8c26f722c381722d4c376d3f1fe89d5401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 108/142] fix: PLY: vertex_index is another name for
 vertex_indices

---
 src/meshio/ply/_ply.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 980cd53..4476973 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -136,7 +136,11 @@ def read_buffer(f):
                     m = re.match("property (.+) (.+)", line)
                     assert m is not None
                     cell_data_dtypes.append(m.groups()[0])
-                cell_data_names.append(m.groups()[-1])
+                name = m.groups()[-1]
+                if name == "vertex_index":
+                    # the other common name
+                    name = "vertex_indices"
+                cell_data_names.append(name)
                 line = _next_line(f)
         else:
             raise ReadError(
-- 
2.43.0


From c4afb9ef7bdffd75de61b51c95302f3c0bfe3f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 109/142] fix: STL: blank lines in ASCII files

---
 src/meshio/stl/_stl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/stl/_stl.py b/src/meshio/stl/_stl.py
index 8be0eed..95e3d2d 100644
--- a/src/meshio/stl/_stl.py
+++ b/src/meshio/stl/_stl.py
@@ -65,7 +65,7 @@ def iter_loadtxt(
 
         for line in infile:
             line = line.decode().strip()
-            if line.startswith(comments):
+            if line == "" or line.startswith(comments):
                 continue
             # remove all text
             items = line.split()[-3:]
-- 
2.43.0


From c672cc80de28553c73070e897fd62deb1ebc5b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 110/142] fix: TetGen: comments between the data, tabs in the
 header

---
 src/meshio/tetgen/_tetgen.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/meshio/tetgen/_tetgen.py b/src/meshio/tetgen/_tetgen.py
index 87dd25d..ff689d6 100644
--- a/src/meshio/tetgen/_tetgen.py
+++ b/src/meshio/tetgen/_tetgen.py
@@ -33,14 +33,12 @@ def read(filename):
         line = _read_header(f)
 
         num_points, dim, num_attrs, num_bmarkers = (
-            int(item) for item in line.split(" ") if item != ""
+            int(item) for item in line.split()
         )
         if dim != 3:
             raise ReadError("Need 3D points.")
 
-        points = np.fromfile(
-            f, dtype=float, count=(4 + num_attrs + num_bmarkers) * num_points, sep=" "
-        ).reshape(num_points, 4 + num_attrs + num_bmarkers)
+        points = _read_table(f, num_points, 4 + num_attrs + num_bmarkers)
 
         node_index_base = int(points[0, 0])
         # make sure the nodes are numbered consecutively
@@ -64,13 +62,11 @@ def read(filename):
         line = _read_header(f)
 
         num_tets, num_points_per_tet, num_attrs = (
-            int(item) for item in line.strip().split(" ") if item != ""
+            int(item) for item in line.split()
         )
         if num_points_per_tet != 4:
             raise ReadError()
-        cells = np.fromfile(
-            f, dtype=float, count=(5 + num_attrs) * num_tets, sep=" "
-        ).reshape(num_tets, 5 + num_attrs)
+        cells = _read_table(f, num_tets, 5 + num_attrs)
         # read cell (region) attributes, the first is "ref", the others are "ref2",
         # "ref3", ...
         for k in range(num_attrs):
@@ -91,12 +87,19 @@ def read(filename):
 def _read_header(f):
     # the first line which is not empty or a comment
     for line in iter(f.readline, ""):
-        line = line.strip()
-        if line and line[0] != "#":
+        line = line.split("#")[0].strip()
+        if line:
             return line
     raise ReadError("Unexpected end of file")
 
 
+def _read_table(f, num_rows, num_columns):
+    # everything after a # is a comment
+    items = [item for line in f for item in line.split("#")[0].split()]
+    data = np.array(items[: num_rows * num_columns], dtype=float)
+    return data.reshape(num_rows, num_columns)
+
+
 def _scalar_keys(data):
     keys = []
     for key, blocks in data.items():
-- 
2.43.0


From 3ab00263a0db7303c0a12e6166bf16fa31faa1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 111/142] fix: VTK 5.1: OFFSETS and CONNECTIVITY are not
 case-sensitive

---
 src/meshio/vtk/_vtk_51.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index f05bb9d..0699d79 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -146,7 +146,7 @@ def _read_section(f, info):
         except UnicodeDecodeError:
             line = ""
 
-        assert line.startswith("OFFSETS")
+        assert line.upper().startswith("OFFSETS")
         # vtk DataFile Version 5.1 - appearing in Paraview 5.8.1 outputs
         # No specification found for this file format.
         # See the question on ParaView Discourse Forum:
@@ -157,7 +157,7 @@ def _read_section(f, info):
         offsets = _read_int_data(f, info.is_ascii, info.num_offsets, dtype)
 
         line = f.readline().decode()
-        assert line.startswith("CONNECTIVITY")
+        assert line.upper().startswith("CONNECTIVITY")
         dtype = np.dtype(vtk_to_numpy_dtype_name[line.split()[1]])
         connectivity = _read_int_data(f, info.is_ascii, info.num_items, dtype)
         info.connectivity = connectivity
-- 
2.43.0


From 0b8079de10bd7d046271063f6799811217cedfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 112/142] fix: WKT: keywords are not case-sensitive

---
 src/meshio/wkt/_wkt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/wkt/_wkt.py b/src/meshio/wkt/_wkt.py
index 84a7f4d..a4f2a63 100644
--- a/src/meshio/wkt/_wkt.py
+++ b/src/meshio/wkt/_wkt.py
@@ -24,7 +24,7 @@ triangle_pattern = r"\(\s*\(\s*({})\s*\)\s*\)".format(
 triangle_re = re.compile(triangle_pattern)
 
 tin_pattern = rf"TIN\s*\((?:\s*{triangle_pattern}\s*,?)*\s*\)"
-tin_re = re.compile(tin_pattern)
+tin_re = re.compile(tin_pattern, re.IGNORECASE)
 
 
 def read_str(s):
-- 
2.43.0


From 54b0434be477bf659dc89d5764b9670ccf9eac27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 113/142] fix: XDMF: topology types are not case-sensitive,
 Hex_1000

---
 src/meshio/xdmf/common.py      |  9 ++++++++-
 src/meshio/xdmf/main.py        | 10 +++++-----
 src/meshio/xdmf/time_series.py |  6 +++---
 3 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/meshio/xdmf/common.py b/src/meshio/xdmf/common.py
index de5c432..6ed667e 100644
--- a/src/meshio/xdmf/common.py
+++ b/src/meshio/xdmf/common.py
@@ -60,10 +60,17 @@ meshio_to_xdmf_type = {
     "hexahedron343": ["Hexahedron_343", "Hex_343"],
     "hexahedron512": ["Hexahedron_512", "Hex_512"],
     "hexahedron729": ["Hexahedron_729", "Hex_729"],
-    "hexahedron1000": ["Hexahedron_1000", "Hex_100"],
+    "hexahedron1000": ["Hexahedron_1000", "Hex_1000"],
     "hexahedron1331": ["Hexahedron_1331", "Hex_1331"],
 }
 xdmf_to_meshio_type = {v: k for k, vals in meshio_to_xdmf_type.items() for v in vals}
+_lowercase_xdmf_to_meshio_type = {v.lower(): k for v, k in xdmf_to_meshio_type.items()}
+
+
+def cell_type_from_xdmf(topology_type):
+    # topology types are not case-sensitive
+    return _lowercase_xdmf_to_meshio_type[topology_type.lower()]
+
 
 
 # Check out
diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index c471e38..ceb400d 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -16,12 +16,12 @@ from .._helpers import register_format
 from .._mesh import CellBlock, Mesh
 from .common import (
     attribute_type,
+    cell_type_from_xdmf,
     dtype_to_format_string,
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
     translate_mixed_cells,
-    xdmf_to_meshio_type,
     xdmf_to_numpy_type,
 )
 
@@ -171,7 +171,7 @@ class XdmfReader:
                     raise ReadError(message)
 
                 topology_type = c.attrib["TopologyType"]
-                if topology_type == "Mixed":
+                if topology_type.lower() == "mixed":
                     cells = translate_mixed_cells(
                         np.fromstring(
                             data_items[0].text,
@@ -182,7 +182,7 @@ class XdmfReader:
                     )
                 else:
                     data = self._read_data_item(data_items[0])
-                    cells.append(CellBlock(xdmf_to_meshio_type[topology_type], data))
+                    cells.append(CellBlock(cell_type_from_xdmf(topology_type), data))
 
             elif c.tag == "Geometry":
                 if "GeometryType" in c.attrib:
@@ -271,10 +271,10 @@ class XdmfReader:
                 else:
                     cell_type = c.attrib["TopologyType"]
 
-                if cell_type == "Mixed":
+                if cell_type.lower() == "mixed":
                     cells = translate_mixed_cells(data)
                 else:
-                    cells.append(CellBlock(xdmf_to_meshio_type[cell_type], data))
+                    cells.append(CellBlock(cell_type_from_xdmf(cell_type), data))
 
             elif c.tag == "Geometry":
                 if "Type" in c.attrib and "GeometryType" in c.attrib:
diff --git a/src/meshio/xdmf/time_series.py b/src/meshio/xdmf/time_series.py
index 9e4324b..c75839d 100644
--- a/src/meshio/xdmf/time_series.py
+++ b/src/meshio/xdmf/time_series.py
@@ -13,12 +13,12 @@ from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock
 from .common import (
     attribute_type,
+    cell_type_from_xdmf,
     dtype_to_format_string,
     meshio_to_xdmf_type,
     meshio_type_to_xdmf_index,
     numpy_to_xdmf_dtype,
     translate_mixed_cells,
-    xdmf_to_meshio_type,
     xdmf_to_numpy_type,
 )
 
@@ -112,10 +112,10 @@ class TimeSeriesReader:
                 else:
                     cell_type = c.attrib["TopologyType"]
 
-                if cell_type == "Mixed":
+                if cell_type.lower() == "mixed":
                     cells = translate_mixed_cells(data)
                 else:
-                    cells.append(CellBlock(xdmf_to_meshio_type[cell_type], data))
+                    cells.append(CellBlock(cell_type_from_xdmf(cell_type), data))
 
             elif c.tag == "Geometry":
                 if "GeometryType" in c.attrib:
-- 
2.43.0


From 168c4fe73441282339786e3e3580994d66699e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 114/142] fix: Tecplot: tabs in VARLOCATION

---
 src/meshio/tecplot/_tecplot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/tecplot/_tecplot.py b/src/meshio/tecplot/_tecplot.py
index b67f475..9b91ed4 100644
--- a/src/meshio/tecplot/_tecplot.py
+++ b/src/meshio/tecplot/_tecplot.py
@@ -273,7 +273,7 @@ def _read_zone(line):
     # If zone contains VARLOCATION, process it and remove the key/value pair
     if ivar >= 0:
         i1, i2 = line.find("("), line.find(")")
-        zone["VARLOCATION"] = line[i1 : i2 + 1].replace(" ", "")
+        zone["VARLOCATION"] = "".join(line[i1 : i2 + 1].split())
         line = line[:ivar] + line[i2 + 1 :]
 
     # Split remaining key/value pairs separated by '='
-- 
2.43.0


From 6d9d0655f2bfa5c6472e4da1866f5f994c5e55f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:01 +0000
Subject: [PATCH 115/142] fix: Ansys: blank lines between the cells

---
 src/meshio/ansys/_ansys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index 2e59202..ba3143d 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -171,7 +171,7 @@ def _read_cells(f, line):
             # ASCII cells
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 if len(dat) != num_nodes_per_cell:
                     raise ReadError()
-- 
2.43.0


From c6763addfc75d9ef9098760feaea800a09936e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:40 +0000
Subject: [PATCH 116/142] fix: Exodus: TETRA4 and TET4 are tetra

---
 src/meshio/exodus/_exodus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 60fce58..2814c6a 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -53,9 +53,9 @@ exodus_to_meshio_type = {
     "HEX20": "hexahedron20",
     "HEX27": "hexahedron27",
     #
+    "TET4": "tetra",
+    "TETRA4": "tetra",
     "TETRA": "tetra",
-    "TETRA4": "tetra4",
-    "TET4": "tetra4",
     "TETRA8": "tetra8",
     "TETRA10": "tetra10",
     "TETRA14": "tetra14",
-- 
2.43.0


From 518b3904cc71381881078e679a5f98614ba5054c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:09 +0000
Subject: [PATCH 117/142] fix: AVS-UCD: files with a single point

---
 src/meshio/avsucd/_avsucd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/avsucd/_avsucd.py b/src/meshio/avsucd/_avsucd.py
index dc9b201..920a51c 100644
--- a/src/meshio/avsucd/_avsucd.py
+++ b/src/meshio/avsucd/_avsucd.py
@@ -79,7 +79,7 @@ def read_buffer(f):
 
 def _read_nodes(f, num_nodes):
     if num_nodes > 0:
-        data = np.genfromtxt(f, max_rows=num_nodes)
+        data = np.atleast_2d(np.genfromtxt(f, max_rows=num_nodes))
     else:
         data = np.empty((0, 3))
     points_ids = {int(pid): i for i, pid in enumerate(data[:, 0])}
-- 
2.43.0


From 0c479394a84e68bbd4858ed08276880f40a0fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:50 +0000
Subject: [PATCH 118/142] fix: Abaqus: tetrahedra are written as C3D4

---
 src/meshio/abaqus/_abaqus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index daab1d6..2de1dd0 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -79,8 +79,8 @@ abaqus_to_meshio_type = {
     "C3D20RH": "hexahedron20",
     # "HEX27": "hexahedron27",
     #
-    "C3D4": "tetra",
     "C3D4H": "tetra",
+    "C3D4": "tetra",  # the last one is the one written
     # "TETRA8": "tetra8",
     "C3D10": "tetra10",
     "C3D10H": "tetra10",
-- 
2.43.0


From f7e95574e449f890b960751b01dd445b385a8e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 119/142] fix: VTU: cell data of polyhedra in the order of the
 blocks

---
 src/meshio/vtu/_vtu.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index df8dbe0..3d834bf 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -46,6 +46,8 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
 
     cells = {}
     cell_data = {}
+    # the block of each cell
+    keys = []
 
     # The data format for face-cells is:
     # num_faces_cell_0,
@@ -83,6 +85,7 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
         num_nodes_this_cell = np.unique(np.hstack([v for v in faces_this_cell])).size
 
         key = f"polyhedron{num_nodes_this_cell}"
+        keys.append(key)
         if key not in cells.keys():
             cells[key] = []
         cells[key].append(faces_this_cell)
@@ -91,15 +94,9 @@ def _polyhedron_cells_from_data(offsets, faces, faceoffsets, cell_data_raw):
     # This is potentially a reordering, compared to the ordering in faces.
     # Cell data must be reorganized accordingly.
 
-    # Start of the cell-node relations
-    start_cn = np.hstack((0, offsets))
-    size = np.diff(start_cn)
-
-    # Loop over all cell sizes, find all cells with this size, and store
-    # cell data.
-    for sz in np.unique(size):
-        # Cells with this number of nodes.
-        items = np.where(size == sz)[0]
+    # Loop over all blocks, find all cells in it, and store cell data.
+    for key in cells:
+        items = np.where(np.array(keys) == key)[0]
 
         # Store cell data for this set of cells
         for name, d in cell_data_raw.items():
-- 
2.43.0


From fc85132d59128837ae6c9fd2d7b19e90d5e7e8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:08 +0000
Subject: [PATCH 120/142] fix: VTK 4.2: cell data of files with polygons;
 Lagrange cells

---
 src/meshio/vtk/_vtk_42.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index c04ae34..2de47fb 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -510,13 +510,19 @@ def translate_cells(connectivity, types, cell_data_raw):
     # `data` is a one-dimensional vector with
     # (num_points0, p0, p1, ... ,pk, numpoints1, p10, p11, ..., p1k, ...
     # or a tuple with (offsets, connectivity)
-    has_polygon = np.any(types == meshio_to_vtk_type["polygon"])
+    # cells with a custom number of points
+    custom_types = [
+        vtk_type
+        for vtk_type, name in vtk_to_meshio_type.items()
+        if name == "polygon" or name.startswith("VTK_LAGRANGE")
+    ]
+    has_custom = np.any(np.isin(types, custom_types))
 
     cells = []
     cell_data = {}
-    if has_polygon:
+    if has_custom:
         numnodes = np.empty(len(types), dtype=int)
-        # If some polygons are in the VTK file, loop over the cells
+        # If some polygons or the like are in the VTK file, loop over the cells
         numcells = len(types)
         offsets = np.empty(len(types), dtype=int)
         offsets[0] = 0
@@ -529,7 +535,7 @@ def translate_cells(connectivity, types, cell_data_raw):
         if not np.all(numnodes == connectivity[offsets]):
             raise ReadError()
 
-        # TODO: cell_data
+        block_starts = []
         for idx, vtk_cell_type in enumerate(types):
             start = offsets[idx] + 1
 
@@ -541,6 +547,10 @@ def translate_cells(connectivity, types, cell_data_raw):
 
             cell = connectivity[cell_idx]
 
+            if vtk_cell_type not in vtk_to_meshio_type:
+                raise ReadError(
+                    f"File contains cells that meshio cannot handle (type {vtk_cell_type})"
+                )
             cell_type = vtk_to_meshio_type[vtk_cell_type]
 
             if (
@@ -554,6 +564,10 @@ def translate_cells(connectivity, types, cell_data_raw):
             else:
                 # open up a new cell block
                 cells.append((cell_type, [cell]))
+                block_starts.append(idx)
+
+        for name, d in cell_data_raw.items():
+            cell_data[name] = np.split(d, block_starts[1:])
     else:
         # Infer offsets from the cell types. This is much faster than manually going
         # through the data array. Slight disadvantage: This doesn't work for cells with
-- 
2.43.0


From 96d99f1af727bf322891ea818130459faaade7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:20 +0000
Subject: [PATCH 121/142] fix: VTK color tables and color scalars no longer
 disturb the data that follows

---
 src/meshio/vtk/_vtk_42.py | 22 ++++++++++++++--------
 src/meshio/vtk/_vtk_51.py | 22 ++++++++++++++--------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/meshio/vtk/_vtk_42.py b/src/meshio/vtk/_vtk_42.py
index 2de47fb..8036c39 100644
--- a/src/meshio/vtk/_vtk_42.py
+++ b/src/meshio/vtk/_vtk_42.py
@@ -206,18 +206,13 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # rgba; num_items still belongs to the active POINT/CELL_DATA
+        _skip_colors(f, info.is_ascii, int(info.split[2]) * 4)
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
-        num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.is_ascii, info.num_items * nValues)
 
 
 def _read_subsection(f, info):
@@ -494,6 +489,17 @@ def _read_fields(f, num_fields, is_ascii):
     return data
 
 
+def _skip_colors(f, is_ascii, count):
+    # colors are numbers between 0 and 1 in ASCII files, bytes in binary files
+    if is_ascii:
+        fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        fromfile(f, count=count, dtype=np.ubyte)
+        line = f.readline().decode()
+        if line != "\n":
+            raise ReadError()
+
+
 def _skip_meta(f):
     # skip possible metadata
     # https://vtk.org/doc/nightly/html/IOLegacyInformationFormat.html
diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 0699d79..79d413d 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -179,18 +179,13 @@ def _read_section(f, info):
         info.num_items = int(info.split[1])
 
     elif info.section == "LOOKUP_TABLE":
-        info.num_items = int(info.split[2])
-        fromfile(f, count=info.num_items * 4, sep=" ", dtype=float)
-        # rgba = data.reshape((info.num_items, 4))
+        # rgba; num_items still belongs to the active POINT/CELL_DATA
+        _skip_colors(f, info.is_ascii, int(info.split[2]) * 4)
 
     elif info.section == "COLOR_SCALARS":
         nValues = int(info.split[2])
         # re-use num_items from active POINT/CELL_DATA
-        num_items = info.num_items
-        dtype = np.ubyte
-        if info.is_ascii:
-            dtype = float
-        fromfile(f, count=num_items * nValues, dtype=dtype)
+        _skip_colors(f, info.is_ascii, info.num_items * nValues)
 
 
 def _read_subsection(f, info):
@@ -466,6 +461,17 @@ def _read_fields(f, num_fields, is_ascii):
     return data
 
 
+def _skip_colors(f, is_ascii, count):
+    # colors are numbers between 0 and 1 in ASCII files, bytes in binary files
+    if is_ascii:
+        fromfile(f, count=count, sep=" ", dtype=float)
+    else:
+        fromfile(f, count=count, dtype=np.ubyte)
+        line = f.readline().decode()
+        if line != "\n":
+            raise ReadError()
+
+
 def _skip_meta(f):
     # skip possible metadata
     # https://vtk.org/doc/nightly/html/IOLegacyInformationFormat.html
-- 
2.43.0


From 64f2e180a5515fc714a85c1a1026925e15fcd0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:20 +0000
Subject: [PATCH 122/142] fix: VTK 5.1: data types as VTK itself names them,
 and 4-byte int

---
 src/meshio/vtk/_vtk_51.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index 79d413d..b7a53ea 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -14,11 +14,19 @@ from .._vtk_common import (
     vtk_cells_from_data,
 )
 
-# VTK 5.1 data types
+# VTK 5.1 data types; VTK itself still uses the old names where it can
 vtk_to_numpy_dtype_name = {
+    "unsigned_char": "uint8",
+    "char": "int8",
+    "unsigned_short": "uint16",
+    "short": "int16",
+    "unsigned_int": "uint32",
+    "int": "int32",
+    "unsigned_long": "uint64",
+    "long": "int64",
+    "vtkidtype": "int64",
     "float": "float32",
     "double": "float64",
-    "int": "int",
     "vtktypeint8": "int8",
     "vtktypeint16": "int16",
     "vtktypeint32": "int32",
-- 
2.43.0


From 60c28fa359debf1cde3808a010a0c5d9abcd9e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:20 +0000
Subject: [PATCH 123/142] fix: VTK 5.1: structured grids and points,
 rectilinear grids can be read

---
 src/meshio/vtk/_vtk_51.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/meshio/vtk/_vtk_51.py b/src/meshio/vtk/_vtk_51.py
index b7a53ea..8d9bb24 100644
--- a/src/meshio/vtk/_vtk_51.py
+++ b/src/meshio/vtk/_vtk_51.py
@@ -252,7 +252,9 @@ def _check_mesh(info):
             for i in range(3)
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "RECTILINEAR_GRID":
         axis = [
             info.dataset["X_COORDINATES"],
@@ -260,9 +262,13 @@ def _check_mesh(info):
             info.dataset["Z_COORDINATES"],
         ]
         info.points = _generate_points(axis)
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
     elif info.dataset["type"] == "STRUCTURED_GRID":
-        info.connectivity, info.types = _generate_cells(dim=info.dataset["DIMENSIONS"])
+        info.connectivity, info.offsets, info.types = _generate_cells(
+            dim=info.dataset["DIMENSIONS"]
+        )
 
 
 def _generate_cells(dim):
@@ -307,7 +313,10 @@ def _generate_cells(dim):
         cells[:, 8] = cells[:, 7] - 1
         cell_types = np.full(ele_no, 12, dtype=int)
 
-    return cells.reshape(-1), cell_types
+    # the first column holds the number of points per cell
+    num_nodes = cells.shape[1] - 1
+    offsets = num_nodes * np.arange(1, ele_no + 1)
+    return cells[:, 1:].reshape(-1), offsets, cell_types
 
 
 def _generate_points(axis):
-- 
2.43.0


From 95d5ae89af897e20695442c5b6c1f787f179ddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:41 +0000
Subject: [PATCH 124/142] fix: HMF can be written without compression

---
 src/meshio/hmf/_hmf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/meshio/hmf/_hmf.py b/src/meshio/hmf/_hmf.py
index d5d8a79..3b2c7d2 100644
--- a/src/meshio/hmf/_hmf.py
+++ b/src/meshio/hmf/_hmf.py
@@ -65,6 +65,9 @@ def write_points_cells(filename, points, cells, **kwargs):
 def write(filename, mesh, compression="gzip", compression_opts=4):
     import h5py
 
+    if compression is None:
+        compression_opts = None
+
     warn("Experimental file format. Format can change at any time.")
     with h5py.File(filename, "w") as h5_file:
         h5_file.attrs["type"] = "hmf"
-- 
2.43.0


From 0cfdd7595d6b3383d326edc02c0ff7cd04eff239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:05 +0000
Subject: [PATCH 125/142] fix: VTU: cells and cell data of all pieces

---
 src/meshio/vtu/_vtu.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 3d834bf..7335652 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -148,16 +148,19 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
             out_cells.append(CellBlock(tp, c))
 
     else:
+        cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
-            cls, cell_data = vtk_cells_from_data(
+            cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
                 cls["types"].ravel(),
                 cdr,
             )
 
-        for c in cls:
-            out_cells.append(CellBlock(c.type, c.data + offset))
+            for c in cls:
+                out_cells.append(CellBlock(c.type, c.data + offset))
+            for name, d in piece_cell_data.items():
+                cell_data.setdefault(name, []).extend(d)
 
     return out_cells, cell_data
 
-- 
2.43.0


From 2f9623c2f54aca5eaf828f04d2048f22b36d4420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:02 +0000
Subject: [PATCH 126/142] fix: VTU: appended raw arrays are found by their
 offsets in the file

---
 src/meshio/vtu/_vtu.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index 7335652..caf5927 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -221,19 +221,20 @@ def _parse_raw_binary(filename):
     assert appended_data_tag is not None
     appended_data_tag.set("encoding", "base64")
 
+    # Look the arrays up by their offsets in the file; the new offsets are different.
+    da_tags = {}
+    for da_tag in root.findall(".//DataArray[@offset]"):
+        da_tags.setdefault(int(da_tag.get("offset")), []).append(da_tag)
+
     compressor = root.get("compressor")
     if compressor is None:
         arrays = ""
         i = 0
         while i < len(data):
-            # The following find() runs into issues if offset is padded with spaces, see
-            # <https://github.com/nschloe/meshio/issues/1135>. It works in ParaView.
-            # Unfortunately, Python's built-in XML tree can't handle regexes, see
-            # <https://stackoverflow.com/a/38810731/353337>.
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
-            if da_tag is None:
+            if i not in da_tags:
                 raise RuntimeError(f"Could not find .//DataArray[@offset='{i}']")
-            da_tag.set("offset", str(len(arrays)))
+            for da_tag in da_tags[i]:
+                da_tag.set("offset", str(len(arrays)))
 
             block_size = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
             arrays += base64.b64encode(
@@ -249,9 +250,9 @@ def _parse_raw_binary(filename):
         arrays = ""
         i = 0
         while i < len(data):
-            da_tag = root.find(f".//DataArray[@offset='{i}']")
-            assert da_tag is not None
-            da_tag.set("offset", str(len(arrays)))
+            assert i in da_tags
+            for da_tag in da_tags[i]:
+                da_tag.set("offset", str(len(arrays)))
 
             num_blocks = int(np.frombuffer(data[i : i + dtype.itemsize], dtype)[0])
             num_header_items = 3 + num_blocks
-- 
2.43.0


From bbded9eb5d34f18da0c56a311fe85cc601230c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:20 +0000
Subject: [PATCH 127/142] fix: VTU: pieces without points and cells

---
 src/meshio/vtu/_vtu.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/meshio/vtu/_vtu.py b/src/meshio/vtu/_vtu.py
index caf5927..73e520a 100644
--- a/src/meshio/vtu/_vtu.py
+++ b/src/meshio/vtu/_vtu.py
@@ -150,6 +150,10 @@ def _organize_cells(point_offsets, cells, cell_data_raw):
     else:
         cell_data = {}
         for offset, cls, cdr in zip(point_offsets, cells, cell_data_raw):
+            if len(cls["types"]) == 0:
+                # piece without cells
+                continue
+
             cls, piece_cell_data = vtk_cells_from_data(
                 cls["connectivity"].ravel(),
                 cls["offsets"].ravel(),
@@ -498,6 +502,9 @@ class VtuReader:
         byte_string = base64.b64decode(data[:num_header_chars])
         header = np.frombuffer(byte_string, header_dtype)
 
+        if num_blocks == 0:
+            return np.empty((0,), dtype=dtype)
+
         # num_blocks = header[0]
         # max_uncompressed_block_size = header[1]
         # last_compressed_block_size = header[2]
@@ -543,7 +550,7 @@ class VtuReader:
 
         if fmt == "ascii":
             # ascii
-            if c.text.strip() == "":
+            if c.text is None or c.text.strip() == "":
                 # https://github.com/numpy/numpy/issues/18435
                 data = np.empty((0,), dtype=dtype)
             else:
-- 
2.43.0


From 03ad2273dfb916bdf6036fdac8caa31f5b75d5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 128/142] fix: XDMF2: mixed topologies in HDF5 and binary files

---
 src/meshio/xdmf/main.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index ceb400d..7f763ea 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -172,14 +172,8 @@ class XdmfReader:
 
                 topology_type = c.attrib["TopologyType"]
                 if topology_type.lower() == "mixed":
-                    cells = translate_mixed_cells(
-                        np.fromstring(
-                            data_items[0].text,
-                            int,
-                            int(data_items[0].get("Dimensions")),
-                            " ",
-                        )
-                    )
+                    data = self._read_data_item(data_items[0])
+                    cells = translate_mixed_cells(data.astype(int))
                 else:
                     data = self._read_data_item(data_items[0])
                     cells.append(CellBlock(cell_type_from_xdmf(topology_type), data))
-- 
2.43.0


From 615c7ef3f2e5e21a4690caeafacdf98e9b734345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:10 +0000
Subject: [PATCH 129/142] fix: XDMF: data items that refer to other data items

---
 src/meshio/xdmf/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/meshio/xdmf/main.py b/src/meshio/xdmf/main.py
index 7f763ea..6f17647 100644
--- a/src/meshio/xdmf/main.py
+++ b/src/meshio/xdmf/main.py
@@ -38,6 +38,7 @@ class XdmfReader:
         parser = ET.XMLParser()
         tree = ET.parse(self.filename, parser)
         root = tree.getroot()
+        self.root = root
 
         if root.tag != "Xdmf":
             raise ReadError()
@@ -52,7 +53,7 @@ class XdmfReader:
 
         return self.read_xdmf3(root)
 
-    def _read_data_item(self, data_item, root=None):
+    def _read_data_item(self, data_item):
         import h5py
 
         if "Reference" in data_item.attrib:
@@ -60,7 +61,7 @@ class XdmfReader:
             xpath = (data_item.text if reference == "XML" else reference).strip()
             if xpath.startswith("/"):
                 return self._read_data_item(
-                    root.find(".//" + "/".join(xpath.split("/")[2:])), root
+                    self.root.find("./" + "/".join(xpath.split("/")[2:]))
                 )
             raise ValueError(f"Can't read XPath {xpath}.")
 
-- 
2.43.0


From 9d3aa0818b396d3b7b77d7a48d9750f03196b195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:31 +0000
Subject: [PATCH 130/142] fix: PLY: faces with several lists

---
 src/meshio/ply/_ply.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/meshio/ply/_ply.py b/src/meshio/ply/_ply.py
index 4476973..12a95b3 100644
--- a/src/meshio/ply/_ply.py
+++ b/src/meshio/ply/_ply.py
@@ -212,15 +212,10 @@ def _read_ascii(
 
         if k == 0:
             # initialize the cell data arrays
-            i = 0
             cell_data = {}
             for name, dtype in zip(cell_data_names, cell_dtypes):
-                if name == "vertex_indices":
-                    n = int(data[i])
-                    i += n + 1
-                else:
+                if not isinstance(dtype, tuple):
                     cell_data[name] = []
-                    i += 1
 
         # go over the line
         i = 0
@@ -237,6 +232,9 @@ def _read_ascii(
                 else:
                     cell_blocks[-1][1].append(idx)
                 i += n + 1
+            elif isinstance(dtype, tuple):
+                # skip other lists, e.g., texture coordinates
+                i += int(data[i]) + 1
             else:
                 dtype = ply_to_numpy_dtype[dtype]
                 cell_data[name].append(dtype(data[i]))
@@ -297,16 +295,13 @@ def _read_binary(
     # `bytearray()` call here redundantly copies so that the final output arrays
     # are writeable.
     buffer = memoryview(bytearray(f.read()))
-    buffer_position = 0
 
-    cell_data = {}
-    if all(isinstance(dt, tuple) for dt in dts):
-        for name, dt in zip(cell_data_names, dts):
-            buffer_increment, cell_data[name] = _read_binary_list(
-                buffer[buffer_position:], dt[0], dt[1], num_cells, endianness
-            )
-            buffer_position += buffer_increment
-        cells = cell_data.pop("vertex_indices", [])
+    if cell_data_names == ["vertex_indices"]:
+        count_dtype, data_dtype = dts[0]
+        _, cells = _read_binary_list(
+            buffer, count_dtype, data_dtype, num_cells, endianness
+        )
+        cell_data = {}
     else:
         cells, cell_data = _read_binary_rows(buffer, cell_data_names, dts, num_cells)
 
-- 
2.43.0


From f61b5b1c9f875dcbcaab3ca19e0888bf5271847a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:12 +0000
Subject: [PATCH 131/142] fix: Exodus: element variables belong to their block

---
 src/meshio/exodus/_exodus.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/meshio/exodus/_exodus.py b/src/meshio/exodus/_exodus.py
index 2814c6a..d3c0a7d 100644
--- a/src/meshio/exodus/_exodus.py
+++ b/src/meshio/exodus/_exodus.py
@@ -84,6 +84,7 @@ def read(filename):  # noqa: C901
         pd = {}
         cd = {}
         cells = []
+        block_ids = []
         ns_names = []
         # eb_names = []
         ns = []
@@ -106,6 +107,7 @@ def read(filename):  # noqa: C901
             elif key[:7] == "connect":
                 meshio_type = exodus_to_meshio_type[value.elem_type.upper()]
                 cells.append((meshio_type, value[:] - 1))
+                block_ids.append(0 if len(key) == 7 else int(key[7:]) - 1)
             elif key == "coord":
                 points = nc.variables["coord"][:].T
             elif key == "coordx":
@@ -150,10 +152,6 @@ def read(filename):  # noqa: C901
             elif key.startswith("node_ns"):  # Expected keys: node_ns1, node_ns2
                 ns.append(value[:] - 1)  # Exodus is 1-based
 
-        # merge element block data; can't handle blocks yet
-        for k, value in cd.items():
-            cd[k] = np.concatenate(list(value.values()))
-
         # Check if there are any <name>R, <name>Z tuples or <name>X, <name>Y, <name>Z
         # triplets in the point data. If yes, they belong together.
         single, double, triple = categorize(point_data_names)
@@ -166,15 +164,14 @@ def read(filename):  # noqa: C901
         for name, idx0, idx1, idx2 in triple:
             point_data[name] = np.column_stack([pd[idx0], pd[idx1], pd[idx2]])
 
-        cell_data = {}
-        k = 0
-        for _, cell in cells:
-            n = len(cell)
-            for name, data in zip(cell_data_names, cd.values()):
-                if name not in cell_data:
-                    cell_data[name] = []
-                cell_data[name].append(data[k : k + n])
-            k += n
+        # variables need not be given for all element blocks
+        cell_data = {
+            cell_data_names[idx]: [
+                blocks[block] if block in blocks else np.full(len(cell), np.nan)
+                for block, (_, cell) in zip(block_ids, cells)
+            ]
+            for idx, blocks in sorted(cd.items())
+        }
 
         point_sets = {name: dat for name, dat in zip(ns_names, ns)}
 
-- 
2.43.0


From 23a4fb4d38fcf0ebc54e2f2fea7749a023ca43a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:12 +0000
Subject: [PATCH 132/142] fix: Gmsh: node and element data belong to the tags
 they are given for

---
 src/meshio/gmsh/_gmsh22.py | 24 ++++++++++++++++--------
 src/meshio/gmsh/_gmsh40.py | 15 +++++++++------
 src/meshio/gmsh/_gmsh41.py | 13 +++++++------
 src/meshio/gmsh/common.py  | 34 +++++++++++++++++++---------------
 4 files changed, 51 insertions(+), 35 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 2f9dd81..9da79a0 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -12,7 +12,7 @@ from .._exceptions import ReadError
 from .._files import fromfile
 from .._mesh import CellBlock, Mesh
 from .common import (
-    _align_point_data,
+    _align_data,
     _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
@@ -43,6 +43,7 @@ def read_buffer(f, is_ascii, data_size):
     point_data = {}
     periodic = None
     point_tags = None
+    cell_ids = []
     has_additional_tag_data = False
     while True:
         # fast-forward over blank lines
@@ -60,7 +61,7 @@ def read_buffer(f, is_ascii, data_size):
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            has_additional_tag_data, cell_tags = _read_cells(
+            has_additional_tag_data, cell_tags, cell_ids = _read_cells(
                 f, cells, point_tags, is_ascii
             )
         elif environ == "Periodic":
@@ -76,9 +77,9 @@ def read_buffer(f, is_ascii, data_size):
         warn("The file contains tag data that couldn't be processed.")
 
     if point_tags is not None:
-        point_data = _align_point_data(point_data, point_tags)
+        point_data = _align_data(point_data, point_tags)
         periodic = _periodic_from_tags(periodic, point_tags)
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw(cells, _align_data(cell_data_raw, cell_ids))
 
     # merge cell_tags into cell_data
     for tag_name, tag_dict in cell_tags.items():
@@ -132,9 +133,9 @@ def _read_cells(f, cells, point_tags, is_ascii):
     has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
-        _read_cells_ascii(f, cells, cell_tags, total_num_cells)
+        cell_ids = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
     else:
-        _read_cells_binary(f, cells, cell_tags, total_num_cells)
+        cell_ids = _read_cells_binary(f, cells, cell_tags, total_num_cells)
 
     # override cells in-place
     cells[:] = [(key, _gmsh_to_meshio_order(key, values)) for key, values in cells]
@@ -171,10 +172,11 @@ def _read_cells(f, cells, point_tags, is_ascii):
                 output_cell_tags["gmsh:geometrical"] = {}
             output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
 
-    return has_additional_tag_data, output_cell_tags
+    return has_additional_tag_data, output_cell_tags, cell_ids
 
 
-def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
+def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int):
+    cell_ids = []
     for _ in range(total_num_cells):
         line = f.readline().decode()
         data = [int(k) for k in filter(None, line.split())]
@@ -182,6 +184,7 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         num_nodes_per_elem = num_nodes_per_cell[t]
         if len(data) < 3 + data[2] + num_nodes_per_elem:
             raise ReadError("Unexpected end of line")
+        cell_ids.append(data[0])
 
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
@@ -210,10 +213,12 @@ def _read_cells_ascii(f, cells, cell_tags, total_num_cells: int) -> None:
         cells[k] = (c[0], np.array(c[1], dtype=c_int) - 1)
     # Cannot convert cell_tags[key] to numpy array: There may be a different number of
     # tags for each cell.
+    return np.array(cell_ids, dtype=int)
 
 
 def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     num_elems = 0
+    cell_ids = [np.array([], dtype=int)]
     while num_elems < total_num_cells:
         # read element header
         elem_type, num_elems0, num_tags = fromfile(f, count=3, dtype=c_int)
@@ -228,6 +233,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
         if len(cells) == 0 or t != cells[-1][0]:
             cells.append((t, []))
         cells[-1][1].append(data[:, -num_nodes_per_elem:])
+        cell_ids.append(data[:, 0])
 
         if t not in cell_tags:
             cell_tags[t] = []
@@ -243,6 +249,8 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     for key in cell_tags:
         cell_tags[key] = np.vstack(cell_tags[key])
 
+    return np.concatenate(cell_ids)
+
 
 def _read_periodic(f):
     periodic = []
diff --git a/src/meshio/gmsh/_gmsh40.py b/src/meshio/gmsh/_gmsh40.py
index 348a101..a6c65b4 100644
--- a/src/meshio/gmsh/_gmsh40.py
+++ b/src/meshio/gmsh/_gmsh40.py
@@ -14,7 +14,7 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError
 from .._mesh import CellBlock, Mesh
 from .common import (
-    _align_point_data,
+    _align_data,
     _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
@@ -59,7 +59,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
         elif environ == "Nodes":
             points, point_tags = _read_nodes(f, is_ascii)
         elif environ == "Elements":
-            cells, cell_tags = _read_elements(f, point_tags, physical_tags, is_ascii)
+            cells, cell_tags, cell_ids = _read_elements(
+                f, point_tags, physical_tags, is_ascii
+            )
         elif environ == "Periodic":
             periodic = _read_periodic(f, is_ascii)
         elif environ == "NodeData":
@@ -77,9 +79,9 @@ def read_buffer(f, is_ascii: bool, data_size) -> Mesh:
             # skip environment
             _fast_forward_to_end_block(f, environ)
 
-    point_data = _align_point_data(point_data, point_tags)
+    point_data = _align_data(point_data, point_tags)
     periodic = _periodic_from_tags(periodic, point_tags)
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw(cells, _align_data(cell_data_raw, cell_ids))
     cell_data.update(cell_tags)
 
     return Mesh(
@@ -189,7 +191,8 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
     itags = -np.ones(m, dtype=int)
     itags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    cell_ids = np.concatenate([d[:, 0] for _, _, _, d in data] + [[]])
     data = [
         (physical_tag, geom_tag, tpe, itags[d[:, 1:]])
         for physical_tag, geom_tag, tpe, d in data
@@ -211,7 +214,7 @@ def _read_elements(f, point_tags, physical_tags, is_ascii):
             cell_data["gmsh:geometrical"] = []
         cell_data["gmsh:geometrical"].append(np.full(len(values), geom_tag, int))
 
-    return cells, cell_data
+    return cells, cell_data, cell_ids
 
 
 def _read_periodic(f, is_ascii):
diff --git a/src/meshio/gmsh/_gmsh41.py b/src/meshio/gmsh/_gmsh41.py
index 644690c..22a841f 100644
--- a/src/meshio/gmsh/_gmsh41.py
+++ b/src/meshio/gmsh/_gmsh41.py
@@ -12,7 +12,7 @@ from .._common import cell_data_from_raw, num_nodes_per_cell, raw_from_cell_data
 from .._exceptions import ReadError, WriteError
 from .._mesh import CellBlock, Mesh
 from .common import (
-    _align_point_data,
+    _align_data,
     _fast_forward_over_blank_lines,
     _fast_forward_to_end_block,
     _gmsh_to_meshio_order,
@@ -69,7 +69,7 @@ def read_buffer(f, is_ascii: bool, data_size):
         elif environ == "Nodes":
             points, point_tags, point_entities = _read_nodes(f, is_ascii, data_size)
         elif environ == "Elements":
-            cells, cell_tags, cell_sets = _read_elements(
+            cells, cell_tags, cell_sets, cell_ids = _read_elements(
                 f,
                 point_tags,
                 physical_tags,
@@ -97,10 +97,10 @@ def read_buffer(f, is_ascii: bool, data_size):
 
     if cells is None:
         raise ReadError("$Element section not found.")
-    cell_data = cell_data_from_raw(cells, cell_data_raw)
+    cell_data = cell_data_from_raw(cells, _align_data(cell_data_raw, cell_ids))
     cell_data.update(cell_tags)
 
-    point_data = _align_point_data(point_data, point_tags)
+    point_data = _align_data(point_data, point_tags + 1)
     if periodic is not None:
         inv_tags = np.full(np.max(point_tags, initial=-1) + 1, -1, dtype=int)
         inv_tags[point_tags] = np.arange(len(point_tags))
@@ -251,7 +251,8 @@ def _read_elements(
     inv_tags = np.full(np.max(point_tags) + 1, -1, dtype=int)
     inv_tags[point_tags] = np.arange(len(point_tags))
 
-    # Note that the first column in the data array is the element tag; discard it.
+    # Note that the first column in the data array is the element tag.
+    cell_ids = np.concatenate([d[:, 0] for _, _, _, _, d in data] + [[]])
     data = [
         (physical_tag, bound_entity, geom_tag, tpe, inv_tags[d[:, 1:] - 1])
         for physical_tag, bound_entity, geom_tag, tpe, d in data
@@ -278,7 +279,7 @@ def _read_elements(
                 cell_sets["gmsh:bounding_entities"] = []
             cell_sets["gmsh:bounding_entities"].append(bound_entity)
 
-    return cells, cell_data, cell_sets
+    return cells, cell_data, cell_sets, cell_ids
 
 
 def _read_periodic(f, is_ascii, data_size):
diff --git a/src/meshio/gmsh/common.py b/src/meshio/gmsh/common.py
index 0267138..024e633 100644
--- a/src/meshio/gmsh/common.py
+++ b/src/meshio/gmsh/common.py
@@ -70,15 +70,13 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
         data = fromfile(f, count=num_items * (1 + num_components), sep=" ").reshape(
             (num_items, 1 + num_components)
         )
-        # The first entry is the node number; sort by it
-        data = data[np.argsort(data[:, 0], kind="stable"), 1:]
+        # The first entry is the node or element number
+        index, data = data[:, 0].astype(int), data[:, 1:]
     else:
         # binary
         dtype = [("index", c_int), ("values", c_double, (num_components,))]
         data = fromfile(f, count=num_items, dtype=dtype)
-        if not (data["index"] == range(1, num_items + 1)).all():
-            raise ReadError()
-        data = np.ascontiguousarray(data["values"])
+        index, data = data["index"], np.ascontiguousarray(data["values"])
 
     _fast_forward_to_end_block(f, tag)
 
@@ -87,16 +85,22 @@ def _read_data(f, tag, data_dict, data_size, is_ascii):
     if data.shape[1] == 1:
         data = data[:, 0]
 
-    data_dict[string_tags[0]] = data
-
-
-def _align_point_data(point_data, point_tags):
-    # NodeData refers to the nodes by their tag; put it into the order of the points.
-    rank = np.argsort(np.argsort(point_tags, kind="stable"), kind="stable")
-    return {
-        key: values[rank] if len(values) == len(rank) else values
-        for key, values in point_data.items()
-    }
+    data_dict[string_tags[0]] = (index, data)
+
+
+def _align_data(data, tags):
+    # NodeData and ElementData refer to the nodes and elements by their tag; put it into
+    # the order of the points and cells. It need not be given for all of them.
+    out = {}
+    order = np.argsort(tags, kind="stable")
+    sorted_tags = np.asarray(tags)[order]
+    for key, (index, values) in data.items():
+        k = np.searchsorted(sorted_tags, index)
+        if np.any(k == len(order)) or np.any(sorted_tags[k] != index):
+            raise ReadError(f"Data '{key}' given for unknown nodes or elements.")
+        out[key] = np.full((len(order), *values.shape[1:]), np.nan)
+        out[key][order[k]] = values
+    return out
 
 
 def _periodic_from_tags(periodic, point_tags):
-- 
2.43.0


From 2a640e62583cdb8fb4d8ee5cd854611df55df26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 133/142] fix: Gmsh 2.2: elements without tags

---
 src/meshio/gmsh/_gmsh22.py | 36 ++++++++++--------------------------
 1 file changed, 10 insertions(+), 26 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index 9da79a0..b8d2303 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -130,7 +130,6 @@ def _read_cells(f, cells, point_tags, is_ascii):
     # The first line is the number of elements
     line = f.readline().decode()
     total_num_cells = int(line)
-    has_additional_tag_data = False
     cell_tags = {}
     if is_ascii:
         cell_ids = _read_cells_ascii(f, cells, cell_tags, total_num_cells)
@@ -151,26 +150,15 @@ def _read_cells(f, cells, point_tags, is_ascii):
 
     # restrict to the standard two data items (physical, geometrical)
     output_cell_tags = {}
-    for cell_type in cell_tags:
-        physical = []
-        geometrical = []
-        for item in cell_tags[cell_type]:
-            if len(item) > 0:
-                physical.append(item[0])
-            if len(item) > 1:
-                geometrical.append(item[1])
-            if len(item) > 2:
-                has_additional_tag_data = True
-        physical = np.array(physical, dtype=c_int)
-        geometrical = np.array(geometrical, dtype=c_int)
-        if len(physical) > 0:
-            if "gmsh:physical" not in output_cell_tags:
-                output_cell_tags["gmsh:physical"] = {}
-            output_cell_tags["gmsh:physical"][cell_type] = physical
-        if len(geometrical) > 0:
-            if "gmsh:geometrical" not in output_cell_tags:
-                output_cell_tags["gmsh:geometrical"] = {}
-            output_cell_tags["gmsh:geometrical"][cell_type] = geometrical
+    num_tags = [len(item) for items in cell_tags.values() for item in items]
+    has_additional_tag_data = max(num_tags, default=0) > 2
+    for k, name in enumerate(["gmsh:physical", "gmsh:geometrical"]):
+        if max(num_tags, default=0) > k:
+            # A zero tag is equivalent to no tag
+            output_cell_tags[name] = {
+                cell_type: [item[k] if len(item) > k else 0 for item in items]
+                for cell_type, items in cell_tags.items()
+            }
 
     return has_additional_tag_data, output_cell_tags, cell_ids
 
@@ -237,7 +225,7 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
 
         if t not in cell_tags:
             cell_tags[t] = []
-        cell_tags[t].append(data[:, 1 : num_tags + 1])
+        cell_tags[t].extend(data[:, 1 : num_tags + 1])
 
         num_elems += num_elems0
 
@@ -245,10 +233,6 @@ def _read_cells_binary(f, cells, cell_tags, total_num_cells):
     for k, c in enumerate(cells):
         cells[k] = (c[0], np.vstack(c[1]) - 1)
 
-    # collect cell tags
-    for key in cell_tags:
-        cell_tags[key] = np.vstack(cell_tags[key])
-
     return np.concatenate(cell_ids)
 
 
-- 
2.43.0


From f3594109086563e717bc0a5d6dc4fef35f5b0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 134/142] fix: Gmsh 2.2: nodes of a binary file need not be
 numbered consecutively

---
 src/meshio/gmsh/_gmsh22.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/meshio/gmsh/_gmsh22.py b/src/meshio/gmsh/_gmsh22.py
index b8d2303..5fd11fd 100644
--- a/src/meshio/gmsh/_gmsh22.py
+++ b/src/meshio/gmsh/_gmsh22.py
@@ -117,8 +117,6 @@ def _read_nodes(f, is_ascii):
         # binary
         dtype = [("index", c_int), ("x", c_double, (3,))]
         data = fromfile(f, count=num_nodes, dtype=dtype)
-        if not (data["index"] == range(1, num_nodes + 1)).all():
-            raise ReadError()
         points = np.ascontiguousarray(data["x"])
         point_tags = data["index"]
 
-- 
2.43.0


From 1dae60c62198377464d319da729da151f166979c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:41 +0000
Subject: [PATCH 135/142] fix: Nastran: elements with optional entries after
 the nodes

---
 src/meshio/nastran/_nastran.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meshio/nastran/_nastran.py b/src/meshio/nastran/_nastran.py
index 69889ed..8f2e96a 100644
--- a/src/meshio/nastran/_nastran.py
+++ b/src/meshio/nastran/_nastran.py
@@ -238,8 +238,12 @@ def read_buffer(f):
                 # where the last three floats specify the orientation vector.
                 # This information is removed.
                 cell = chunks[3:5]
-            else:
+            elif keyword in nastran_solid_types or keyword == "CPYRAM":
                 cell = chunks[3:]
+            else:
+                # The nodes can be followed by optional data, e.g., the material angle.
+                cell_type = nastran_to_meshio_type[keyword]
+                cell = chunks[3 : 3 + num_nodes_per_cell[cell_type]]
 
             # remove empty chunks
             cell = [item for item in cell if item != ""]
-- 
2.43.0


From e1c94c3411977ad8c05aa575768ebd752f1b3b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:01 +0000
Subject: [PATCH 136/142] fix: Abaqus: sets made of several sets, ranges, and
 numbers

---
 src/meshio/abaqus/_abaqus.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 2de1dd0..fd6be43 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -149,9 +149,13 @@ def read_buffer(f):
                 cell_sets_element.setdefault(name, {})[len(cells) - 1] = ids
         elif keyword == "NSET":
             params_map = get_param_map(line, required_keys=["NSET"])
-            set_ids, _, line = _read_set(f, params_map)
+            set_ids, set_names, line = _read_set(f, params_map)
             name = params_map["NSET"]
             members = [point_ids[point_id] for point_id in set_ids]
+            for set_name in set_names:
+                if set_name not in point_sets:
+                    raise ReadError(f"Unknown point set '{set_name}'")
+                members += list(point_sets[set_name])
             # A set can be given in several pieces
             previous = list(point_sets.get(name, []))
             point_sets[name] = np.array(
@@ -405,18 +409,19 @@ def _read_set(f, params_map):
         if line.strip() == "":
             continue
 
-        line = [item.strip() for item in line.strip().strip(",").split(",")]
-        if line[0].isnumeric():
-            set_ids += [int(k) for k in line]
+        items = [item.strip() for item in line.strip().strip(",").split(",")]
+        if "GENERATE" in params_map:
+            # first, last, increment
+            if len(items) not in [2, 3]:
+                raise ReadError(items)
+            first, last, step = (int(k) for k in (items + ["1"])[:3])
+            set_ids += range(first, last + 1, step)
         else:
-            set_names.append(line[0])
-
-    set_ids = np.array(set_ids, dtype="int32")
-    if "GENERATE" in params_map:
-        if len(set_ids) != 3:
-            raise ReadError(set_ids)
-        set_ids = np.arange(set_ids[0], set_ids[1] + 1, set_ids[2], dtype="int32")
-    return set_ids, set_names, line
+            # a line can have numbers and names of other sets
+            set_ids += [int(k) for k in items if k.isnumeric()]
+            set_names += [k for k in items if not k.isnumeric()]
+
+    return np.array(set_ids, dtype="int32"), set_names, line
 
 
 def write(
-- 
2.43.0


From a3b184d602740dd9106da40f0036d2b332b3637a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:21 +0000
Subject: [PATCH 137/142] fix: Abaqus: node sets named in NODE

---
 src/meshio/abaqus/_abaqus.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index fd6be43..274d543 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -134,7 +134,14 @@ def read_buffer(f):
         keyword = line.partition(",")[0].strip().replace("*", "").upper()
         if keyword == "NODE":
             # there can be several NODE blocks
+            params_map = get_param_map(line)
             new_points, point_ids, line = _read_nodes(f, point_ids)
+            if "NSET" in params_map:
+                previous = list(point_sets.get(params_map["NSET"], []))
+                members = list(range(len(points), len(points) + len(new_points)))
+                point_sets[params_map["NSET"]] = np.array(
+                    previous + members, dtype="int32"
+                )
             points = np.concatenate([points, new_points]) if len(points) else new_points
         elif keyword == "ELEMENT":
             if point_ids is None:
-- 
2.43.0


From 6d7fca77c032b787ed29cfdd07f613f84197af9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:47 +0000
Subject: [PATCH 138/142] fix: Abaqus: sets given in ELEMENT and in ELSET

---
 src/meshio/abaqus/_abaqus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/meshio/abaqus/_abaqus.py b/src/meshio/abaqus/_abaqus.py
index 274d543..e8413a2 100644
--- a/src/meshio/abaqus/_abaqus.py
+++ b/src/meshio/abaqus/_abaqus.py
@@ -185,9 +185,9 @@ def read_buffer(f):
             for set_name in set_names:
                 if set_name in cell_sets.keys():
                     pieces.append(dict(enumerate(cell_sets[set_name])))
-                elif set_name in cell_sets_element.keys():
+                if set_name in cell_sets_element.keys():
                     pieces.append(cell_sets_element[set_name])
-                else:
+                elif set_name not in cell_sets.keys():
                     raise ReadError(f"Unknown cell set '{set_name}'")
             if name in cell_sets:
                 pieces.insert(0, dict(enumerate(cell_sets[name])))
-- 
2.43.0


From cad6bc914b5cb70bbf1e14de96ccf596d6e92758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:23 +0000
Subject: [PATCH 139/142] fix: MED: fields and families given on some cell
 types only, families without groups

---
 src/meshio/med/_med.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/meshio/med/_med.py b/src/meshio/med/_med.py
index 9242198..c58941c 100644
--- a/src/meshio/med/_med.py
+++ b/src/meshio/med/_med.py
@@ -94,8 +94,15 @@ def read(filename):
         if "FAM" in med_cell_type_group:
             tags = med_cell_type_group["FAM"][()]
             if "cell_tags" not in cell_data:
-                cell_data["cell_tags"] = []
-            cell_data["cell_tags"].append(tags)
+                cell_data["cell_tags"] = [None] * len(med_cells)
+            cell_data["cell_tags"][len(cells) - 1] = tags
+
+    # cells without family number belong to family 0
+    if "cell_tags" in cell_data:
+        cell_data["cell_tags"] = [
+            np.zeros(len(data), dtype=int) if tags is None else tags
+            for (_, data), tags in zip(cells, cell_data["cell_tags"])
+        ]
 
     # Information for cell tags
     cell_tags = {}
@@ -111,6 +118,14 @@ def read(filename):
         profiles = f["PROFILS"] if "PROFILS" in f else None
         _read_data(fields, profiles, cell_types, point_data, cell_data, field_data)
 
+    # fields needn't be given on all cell types
+    for name, data in cell_data.items():
+        given = next(d for d in data if d is not None)
+        cell_data[name] = [
+            np.full((len(c), *given.shape[1:]), np.nan) if d is None else d
+            for (_, c), d in zip(cells, data)
+        ]
+
     # Construct the mesh object
     mesh = Mesh(
         points, cells, point_data=point_data, cell_data=cell_data, field_data=field_data
@@ -201,6 +216,9 @@ def _read_families(fas_data):
     families = {}
     for _, node_set in fas_data.items():
         set_id = node_set.attrs["NUM"]  # unique set id
+        if "GRO" not in node_set:  # family without subsets
+            families[set_id] = []
+            continue
         n_subsets = node_set["GRO"].attrs["NBR"]  # number of subsets
         nom_dataset = node_set["GRO"]["NOM"][()]  # (n_subsets, 80) of int8
         name = [None] * n_subsets
-- 
2.43.0


From 947b92991964445290cea44ce630c070944f8262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:15 +0000
Subject: [PATCH 140/142] fix: SVG: announce the cells that are not drawn

---
 src/meshio/svg/_svg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/meshio/svg/_svg.py b/src/meshio/svg/_svg.py
index c361692..7ccb84f 100644
--- a/src/meshio/svg/_svg.py
+++ b/src/meshio/svg/_svg.py
@@ -4,6 +4,7 @@ from xml.etree import ElementTree as ET
 
 import numpy as np
 
+from .._common import warn
 from .._exceptions import WriteError
 from .._helpers import register_format
 
@@ -71,6 +72,7 @@ def write(
 
     for cell_block in mesh.cells:
         if cell_block.type not in ["line", "triangle", "quad"]:
+            warn(f"SVG does not support {cell_block.type} cells. Skipping.")
             continue
 
         if cell_block.type == "line":
-- 
2.43.0


From 9da6483f82cd37c160d3526200adc30d3561a2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:15 +0000
Subject: [PATCH 141/142] fix: OBJ: vertices with weight or color, texture
 coordinates and normals not given per vertex

---
 src/meshio/obj/_obj.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/meshio/obj/_obj.py b/src/meshio/obj/_obj.py
index fcaaaa3..7079094 100644
--- a/src/meshio/obj/_obj.py
+++ b/src/meshio/obj/_obj.py
@@ -8,6 +8,7 @@ import datetime
 import numpy as np
 
 from ..__about__ import __version__
+from .._common import warn
 from .._exceptions import WriteError
 from .._files import open_file
 from .._helpers import register_format
@@ -42,7 +43,8 @@ def read_buffer(f):
         split = strip.split()
 
         if split[0] == "v":
-            points.append([float(item) for item in split[1:]])
+            # there may be a weight or a color after the coordinates
+            points.append([float(item) for item in split[1:4]])
         elif split[0] == "vn":
             vertex_normals.append([float(item) for item in split[1:]])
         elif split[0] == "vt":
@@ -80,10 +82,13 @@ def read_buffer(f):
     texture_coords = np.array(texture_coords)
     vertex_normals = np.array(vertex_normals)
     point_data = {}
-    if len(texture_coords) > 0:
-        point_data["obj:vt"] = texture_coords
-    if len(vertex_normals) > 0:
-        point_data["obj:vn"] = vertex_normals
+    # texture coordinates and normals are lists of their own; they are point data only if
+    # there is one for each point
+    for name, data in [("obj:vt", texture_coords), ("obj:vn", vertex_normals)]:
+        if len(data) == len(points) > 0:
+            point_data[name] = data
+        elif len(data) > 0:
+            warn(f"OBJ: {len(data)} entries of {name} for {len(points)} points. Skipping.")
 
     # convert to numpy arrays
     face_groups = [np.array(f) for f in face_groups]
-- 
2.43.0


From 7d34a0808488f31f327c8654b0bf57d606ab76be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:15 +0000
Subject: [PATCH 142/142] fix: ANSYS: face sections whose parenthesis stands on
 a line of its own

---
 src/meshio/ansys/_ansys.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/meshio/ansys/_ansys.py b/src/meshio/ansys/_ansys.py
index ba3143d..ac4626e 100644
--- a/src/meshio/ansys/_ansys.py
+++ b/src/meshio/ansys/_ansys.py
@@ -266,7 +266,7 @@ def _read_faces(f, line):
             # read cell data
             data = np.empty((num_cells, num_nodes_per_cell), dtype=int)
             for k in range(num_cells):
-                line = f.readline().decode()
+                line = _read_data_line(f)
                 dat = line.split()
                 # The body of a regular face section contains the grid connectivity, and
                 # each line appears as follows:
-- 
2.43.0

