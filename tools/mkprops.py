#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line).  Kept as a script only so
that the long texts stay readable; run it after editing."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

FMT = "src/meshio/"
ALLF = [FMT + x for x in (
    "_helpers.py", "_mesh.py", "_common.py", "abaqus/_abaqus.py", "ansys/_ansys.py", "avsucd/_avsucd.py",
    "cgns/_cgns.py", "dolfin/_dolfin.py", "exodus/_exodus.py", "flac3d/_flac3d.py", "gmsh/_gmsh22.py",
    "gmsh/_gmsh40.py", "gmsh/_gmsh41.py", "gmsh/common.py", "h5m/_h5m.py", "hmf/_hmf.py", "mdpa/_mdpa.py",
    "med/_med.py", "medit/_medit.py", "nastran/_nastran.py", "netgen/_netgen.py",
    "neuroglancer/_neuroglancer.py", "obj/_obj.py", "off/_off.py", "permas/_permas.py", "ply/_ply.py",
    "stl/_stl.py", "su2/_su2.py", "tecplot/_tecplot.py", "tetgen/_tetgen.py", "ugrid/_ugrid.py",
    "vtk/_vtk_42.py", "vtk/_vtk_51.py", "vtu/_vtu.py", "wkt/_wkt.py", "xdmf/main.py")]

prop("C01", "Write-then-read keeps every point and every cell",
 "Writing a mesh made of cell types a format supports, in any of that format's variants, and reading the file back gives the same points in the same order (to the digits the format stores; 2-D points gain a zero third coordinate where the format is 3-D only) and, for each cell type, the same cells in the same order with the same node order. Formats whose nature is to regroup cells by type, to drop shared-vertex identity (STL, WKT) or to normalise orientation (FLAC3D) differ by exactly that and nothing else.",
 ["inputs", "configurations"],
 "every format variant (file version, ASCII/binary, compression, word size) x every mesh over the supported cell types: any number, order and repetition of blocks, any node numbering, unreferenced or coincident points, 2-D or 3-D, positive/negative/huge/tiny coordinates",
 "The suite round-trips about a dozen fixed meshes per format, mostly one block of one type with coordinates in [0,1]; repeated blocks, interleaved types, high-order types, big indices and extreme coordinates are not reached.",
 ALLF, [("node-order permutations", "gmsh/common.py, vtk/_vtk_42.py, vtu/_vtu.py, permas, nastran, _vtk_common.py"),
        ("block grouping/merging on read", "_common.cell_data_from_raw, vtk, vtu, gmsh, su2, ugrid, netgen"),
        ("number formatting", "float_fmt in each ASCII writer"), ("binary record layout", "ugrid, ansys, medit, ply, stl, gmsh, vtk")],
 ["meshio.write/read, Mesh.write, the per-format read/write functions"])

prop("C02", "Point and cell data stay attached to their point or cell",
 "For every format that stores point or cell data, each array written comes back under its own name with the same number of components and the same values, and every row stays attached to the point or cell it belonged to, in every block. No array gains, loses, swaps or shifts rows, whatever the mixture of cell types, number of arrays, component count or number type the format can express.",
 ["inputs", "configurations"],
 "every format variant with data support x any number of named arrays of 1..9 components, integer or float of several widths, over meshes with several blocks of equal and different types",
 "Tests add one or two random arrays to single-block meshes and compare mostly array sums or same-shaped blocks; misalignment between blocks or arrays that need several blocks of the same type or interleaved types never shows.",
 ALLF, [("cell data flattening and splitting", "_common.raw_from_cell_data, cell_data_from_raw; vtk/vtu/xdmf/gmsh/avsucd/exodus/med/tecplot/hmf/dolfin"),
        ("padding of vectors", "vtk, vtu, xdmf"), ("dtype tables", "vtk, vtu, xdmf, ply, gmsh")])

prop("C03", "Tags, named groups and sets survive the formats that carry them",
 "Where a format carries entity labels - integer region tags or references per point or cell, physical groups with their names and dimensions, node sets, element sets, periodic links, object groups - the labels written come back on exactly the same points and cells with the same names and values. Missing labels come back as the format's documented default, never as another entity's label.",
 ["inputs", "configurations"],
 "every label-carrying format (Gmsh, MED, Medit, Netgen, Nastran, TetGen, UGRID, SU2, AVS-UCD, Abaqus, Exodus, FLAC3D, VTK/VTU, OBJ, Tecplot-free) x sets and tags over one or several blocks, overlapping, empty, partial",
 "The suite has a handful of set/tag fixtures, each on a one- or two-block mesh; sets that span blocks, miss blocks or overlap, and tags combined with other data, are not sampled.",
 [FMT + x for x in ("abaqus/_abaqus.py", "exodus/_exodus.py", "flac3d/_flac3d.py", "gmsh/common.py", "gmsh/_gmsh22.py", "gmsh/_gmsh41.py", "med/_med.py", "medit/_medit.py", "netgen/_netgen.py", "nastran/_nastran.py", "su2/_su2.py", "tetgen/_tetgen.py", "ugrid/_ugrid.py", "avsucd/_avsucd.py", "vtk/_vtk_51.py", "vtu/_vtu.py", "_common.py")],
 [("tag column selection", "_common._pick_first_int_data and its users"), ("set offsets", "abaqus, flac3d, _mesh"), ("physical groups", "gmsh/common.py, _gmsh22.py, _gmsh41.py")])

prop("C04", "Writing never changes the mesh it is given",
 "A write - successful or rejected, to any format and variant, through any entry point - leaves the caller's mesh exactly as it was: points, cell blocks, point, cell and field data, point and cell sets, their values, shapes, number types and key order. Writing the same mesh again, to the same or another format, therefore sees the same mesh.",
 ["inputs", "configurations", "histories"],
 "every format variant x every mesh, including 2-D points, 2-component vectors, big-endian or read-only arrays, wide integers and sets",
 "The tests compare what was read back, and only rarely look at the source mesh after the write.",
 ALLF, [("in-place padding/casting/conversion before output", "vtk, vtu, avsucd, ply, flac3d, _mesh.*_sets_to_data")])

prop("C05", "No cell is lost or altered in silence",
 "When a mesh contains cells that a format cannot represent, the write either raises an error or announces the omission on the console, and what is then read back is exactly the representable cells with their own data and labels; a write that says nothing has stored every cell. A rejected write never leaves the caller believing it succeeded.",
 ["inputs", "configurations"],
 "every format variant x every one of the known cell types, alone and mixed with supported ones in any position",
 "Tests only write meshes each format supports; the unsupported x format matrix and mixtures are not sampled at all.",
 ALLF, [("per-format type tables and skip/warn branches", "every writer")])

prop("C06", "All variants of a format carry the same mesh",
 "For one mesh, all the ways one format can store it - ASCII or binary, compressed or not, each supported file version, word size or byte order, given as path string, path object or open buffer where supported - read back as the same mesh, differing only in numeric precision the variant documents and in version-specific extras. The command-line and format-specific entry points read and write the same thing as the generic ones.",
 ["inputs", "configurations"],
 "every pair of variants of one format x every mesh both support",
 "Each parametrised test looks at one variant on its own meshes; nothing compares variants with each other.",
 ALLF, [("variant switches", "keyword arguments of each writer; version dispatch in gmsh/main.py, vtk/_main.py"), ("path/buffer dispatch", "_helpers.py, _files.py")])

prop("C07", "The format used is the one named, or the one the file name implies",
 "Reading and writing use the explicitly named format, else a format registered for the file's (possibly multi-part, case-insensitive) extension, trying the candidates until one accepts the file; an unknown format, unknown extension, missing file or a mesh whose block shapes contradict their type is reported as an error and nothing is written. Registering and deregistering formats changes exactly that mapping and nothing else.",
 ["inputs", "configurations", "histories"],
 "every sequence of register/deregister/read/write calls x file names with any number of dots and any case x string, path object and buffer arguments",
 "Tests call register_format only at import time and use each extension once with the right format.",
 [FMT + "_helpers.py", FMT + "_files.py", FMT + "_mesh.py"],
 [("extension table and reader/writer maps", "_helpers.register_format, deregister_format"), ("candidate loop", "_helpers.read, _read_file"), ("write dispatch and shape check", "_helpers.write")])

prop("C08", "A mesh object is consistent and its views agree with it",
 "A mesh can be built only when every data array has as many rows as the points or cells it describes; its per-type views, type lookups, copies and dictionary forms show exactly the cells, data and set members of the blocks, in block order, for any mix of repeated types and missing set entries. A copy is independent of the original.",
 ["inputs"],
 "every combination of blocks, data arrays, sets (with absent entries) and accessor, valid or off by one",
 "Unit tests construct two or three small meshes with distinct types per block.",
 [FMT + "_mesh.py", FMT + "_common.py"],
 [("constructor checks", "Mesh.__init__"), ("per-type views", "cells_dict, cell_data_dict, cell_sets_dict, get_cells_type, get_cell_data"), ("copy", "Mesh.copy")])

prop("C09", "Sets and integer data convert into one another without loss",
 "Turning point or cell sets into one integer array marks exactly the members of each set with that set's number and everything else with -1 (or the stated default), and turning an integer array into sets puts each index into the set of its value; converting there and back gives the same sets. Other sets and other data are untouched.",
 ["inputs"],
 "every family of disjoint sets over any blocks, every integer array, several arrays and sets at once, any join character",
 "One test converts one hand-written family.",
 [FMT + "_mesh.py", FMT + "_cli/_convert.py"],
 [("conversions", "Mesh.cell_sets_to_data, point_sets_to_data, cell_data_to_sets, point_data_to_sets")])

prop("C10", "The command line does to files what the library does to meshes",
 "Each command-line operation has exactly its documented effect: convert stores the input's mesh in the output (with only the requested changes: the ASCII variant, a number format, sets turned into integer data or back), info reports what the file holds and flags cells that refer to points that do not exist and points no cell uses, compress, decompress, ascii and binary rewrite a file in place into the other representation of the same mesh. Files not named on the command line are untouched, and failures give a non-zero exit or an exception, not a damaged input.",
 ["inputs", "configurations", "histories"],
 "every subcommand and option x input/output format pair x sequence of in-place rewrites",
 "CLI tests run each subcommand once on one small mesh and check little but the return code.",
 [FMT + "_cli/" + x for x in ("_main.py", "_convert.py", "_info.py", "_compress.py", "_decompress.py", "_ascii.py", "_binary.py")],
 [("subcommands", "_cli/*")])

prop("C11", "A time series gives back every step it was given",
 "A series written as one mesh and any number of steps reads back with the same mesh and, for step k, the k-th time and exactly the point and cell data written for that step, in the writing order and for every storage mode, wherever the files are and however often or in whatever order steps are read. Misuse (a step written or read before the mesh, a step that does not exist, an unknown storage mode) is an error and leaves the rest of the series intact.",
 ["inputs", "histories", "configurations"],
 "every history of writer and reader calls x storage mode x step contents x file location and working directory",
 "One test writes two or three steps of one mesh in one directory and reads them once in order.",
 [FMT + "xdmf/time_series.py", FMT + "xdmf/common.py"],
 [("writer state", "TimeSeriesWriter"), ("reader state", "TimeSeriesReader")])

prop("C12", "A cut-off file is never taken for a complete one",
 "Reading a file that was cut short (a crash or a partial copy) terminates and either raises an error or returns the complete mesh; it never returns normally with cells, points or data missing or changed, for formats whose files declare how much they contain (of a file made of sections that each declare their size, whole trailing sections may be missing).",
 ["crash_points", "inputs"],
 "every format with declared counts x every cut position (each line of text files, sampled byte offsets of binary files)",
 "No test reads a damaged file.",
 ALLF, [("counted reads", "np.fromfile/np.frombuffer and line loops of each reader")])

prop("C13", "Files mean what their format says they mean",
 "A file written by the library, decoded by the rules of its published format independently of the library's own reader, describes the mesh that was written: declared counts match the content, indices have the format's base, node order follows the format's numbering, type codes are the format's, sections appear in legal order.",
 ["inputs", "configurations"],
 "every format with a public textual or simple binary layout x every mesh over supported types",
 "Round-trip tests cannot see a writer and reader that agree on a wrong convention.",
 ALLF, [("type codes and node orders", "_vtk_common.py, gmsh/common.py, xdmf/common.py, abaqus, nastran, su2, ugrid, medit tables")])

prop("C14", "Every legal way to write a file is read the same",
 "Files that say the same thing in another way the format allows - comments, blank lines, extra spaces, line breaks at other places, letter case, gaps or other order in identifiers, optional sections, alternative section order or keywords, encodings, versions, pieces, structured grids and shared data as other programs write them - read as the same mesh, and as the mesh the file describes.",
 ["inputs"],
 "every reader of a text format x combinations of legal variations of a generated file",
 "Tests read a few sample files each written by one program in one style.",
 ALLF, [("tokenising and section dispatch", "read loops of the text readers")])

prop("C15", "Conversions compose and history does not matter",
 "The outcome of an operation depends only on its inputs: reading a file twice, or after any other reads and writes in the same process, gives the same mesh; writing over an existing file leaves nothing of the old content; a chain of conversions through formats that can all represent the mesh ends with the mesh it began with.",
 ["histories", "inputs"],
 "every sequence of reads, writes and conversions over any formats in one process, including overwriting larger files and failing calls in between",
 "Each test performs one write and one read in a fresh directory.",
 ALLF, [("module-level tables and caches", "all modules"), ("file opening modes and side files", "xdmf .h5/.bin, dolfin data files, tetgen .node/.ele")])

prop("C16", "Only values matter, not how arrays are stored in memory",
 "The same mesh given as C- or Fortran-ordered, strided, reversed, read-only or opposite-byte-order arrays, with any integer width for connectivity and 32- or 64-bit floats, is written with the same values by every format; if a format cannot store a number type it refuses, rather than store other numbers.",
 ["inputs", "configurations"],
 "every format variant x memory layout x connectivity and coordinate number type",
 "Tests only pass freshly made C-contiguous native int64/float64 arrays.",
 ALLF, [("tofile/tobytes/byte reinterpretation", "vtk, vtu, gmsh, medit, ugrid, ansys, stl, ply, xdmf writers")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
