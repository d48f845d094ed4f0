#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

prop("C01", "Saving and loading keeps mesh structure, names, order and index arrays",
 "Writing any list of valid meshes to TMF and reading it back gives the same number of meshes in the same order with the same names, where each mesh has exactly the same arrays present, each with the same number of elements in the same order, and every triangle index array (vertex, normal, UV, tangent) identical element for element. This holds whichever of the single/multi-mesh and sync/async entry points is used, whether or not index arrays are equal to one another, and however many elements they have.",
 ["inputs", "configurations"], "every list of valid meshes (any subset of arrays, any index values and lengths, shared or distinct index arrays, empty arrays, any UTF-8 name up to 65535 bytes) and every precision setting",
 "The tests save two or three fixed models with the default settings; index width, segment splitting and shared-index merging depend on the values and on how arrays relate, so only generated index patterns reach them all.",
 ["src/tmf_exporter.rs", "src/tmf_importer.rs", "src/tmf.rs", "src/vertices.rs", "src/lib.rs"],
 [("equal index arrays are merged into a shared segment", "src/tmf_exporter.rs merge_segments, src/tmf.rs DecodedSegment::merge"), ("index arrays are split where that saves bits", "src/tmf_exporter.rs opt_tris"), ("vertex arrays are split", "src/tmf_exporter.rs opt_vertices"), ("segments are appended in file order", "src/tmf.rs DecodedSegment::apply"), ("index coding", "src/vertices.rs save_triangles, src/tmf_importer.rs read_default_triangles")],
 ["TMFMesh::write_tmf / read_tmf and their _one/_async variants, then the getters"])

prop("C02", "Vertex positions deviate by at most the requested part of the shortest edge",
 "After a save and load, every coordinate of every vertex differs from the original by at most the requested vertex precision times the length of the mesh's shortest non-degenerate edge (times 0.1 when the mesh has no such edge), up to floating-point rounding. This holds for any position, size, orientation and proportion of the mesh, and loaded vertices stay inside the bounding box of the original. (Known exception, recorded as a finding: the length of an edge can change by more than that, though the documentation promises it doesn't.)",
 ["inputs", "configurations"], "every mesh of finite vertices whose extent fits the float type (any number of vertices, any triangles including degenerate ones, flat, elongated, off-centre, clustered) and every vertex precision",
 "The tests load one or two well-behaved models and mostly check that loading works; the bound depends on bounding boxes, edge lengths and bit counts that need many differently proportioned meshes.",
 ["src/vertices.rs", "src/tmf_exporter.rs"],
 [("bits per axis from bounding box and shortest edge", "src/vertices.rs save_tmf_vertices"), ("shortest edge", "src/tmf_exporter.rs calc_shortest_edge"), ("dequantisation", "src/vertices.rs read_tmf_vertices"), ("splitting into several segments, each with its own box", "src/tmf_exporter.rs opt_vertices")],
 ["get_vertices before saving and after loading"])

prop("C03", "Normals stay unit length and within the requested angle",
 "After a save and load every unit normal is again of unit length (within 0.1%), and differs from the original by at most the requested angle (with fast_trig, plus that feature's documented loss of accuracy), for every direction and every requested precision in degrees or radians. (Known exception, recorded as a finding: normals close to the z axis deviate more than requested.)",
 ["inputs", "configurations"], "every unit vector (all octants, axes, near axes, near octant borders) and every normal precision from 90 degrees to a few thousandths of a degree, with and without fast_trig",
 "Tests check random normals at one precision with a tolerance that is not the requested one; the bound must hold for every direction and bit count.",
 ["src/normals.rs", "src/utilis.rs"],
 [("angle and z quantisation", "src/normals.rs normal_to_encoding / normal_from_encoding"), ("bits from angle", "src/normals.rs from_deg_dev / from_rad_dev"), ("approximate sine", "src/utilis.rs fsin")],
 ["get_normals before saving and after loading"])

prop("C04", "UV coordinates deviate by at most the requested number of pixels",
 "After a save and load every UV coordinate in [0,1] is again in [0,1] and differs from the original by at most the requested deviation in pixels of a texture of the given resolution, and the coordinates 0 and 1 are kept exactly whenever at least one bit is saved.",
 ["inputs", "configurations"], "every UV array with values in [0,1] (including exact 0, 1 and values on rounding boundaries) and every pair of texture resolution and pixel deviation",
 "Tests use one precision and random UVs; rounding boundaries, end points and extreme precisions need generated values.",
 ["src/uv.rs"], [("bits from resolution and deviation", "src/uv.rs UvPrecisionMode::form_texture_resolution"), ("quantisation", "src/uv.rs save_uvs / read_uvs")],
 ["get_uvs before saving and after loading"])

prop("C05", "Tangents keep handedness and stay within the requested angle",
 "After a save and load the direction of every tangent is of unit length and within the requested tangent angle of the original (with the same exceptions as for normals), its handedness keeps its sign, and tangents and their index array are kept whether or not other arrays are present. The tangent precision is independent of the normal precision.",
 ["inputs", "configurations"], "every tangent array (all directions, both handedness signs) and every pair of tangent and normal precisions",
 "Tests only save random tangents with the default precision and a loose tolerance.",
 ["src/tangents.rs", "src/normals.rs"], [("encoding", "src/tangents.rs save_tangents / read_tangents"), ("precision", "src/tangents.rs TangentPrecisionMode")],
 ["get_tangents / get_tangent_triangles before saving and after loading"])

prop("C06", "Custom data survives saving with its name, kind, order and precision",
 "Custom data added under a name of 1 to 255 bytes can be looked up by that name before saving and after loading, with the same kind and number of elements: indices and integers exactly equal, floats within the given precision, RGBA channels in [0,1] within the given precision. Of several arrays under one name, the first added is the one found, also after loading; an absent name is never found, and empty or longer names are refused without changing the mesh.",
 ["inputs", "histories"], "every sequence of additions of every kind of custom data (any values, lengths, precisions, names including duplicates and length limits) and every lookup",
 "Tests use four short fixed arrays with distinct names; widths, spans, precisions, duplicates and name limits are unbounded.",
 ["src/custom_data.rs", "src/lib.rs"], [("coding of each kind", "src/custom_data.rs CustomData::write / CustomDataSegment::read"), ("names", "src/custom_data.rs CustomDataSegment::new"), ("lookup", "src/lib.rs lookup_custom_data"), ("order of segments", "src/tmf_exporter.rs merge_segments")],
 ["add_custom_data / lookup_custom_data / as_index, as_intiger, as_float, as_color_rgba"])

prop("C07", "verify accepts exactly the valid meshes, and those always save and load",
 "Mesh verification succeeds if and only if every index array has its data array and only contains indices smaller than that array's length (for vertices, normals and UVs), every normal has unit length within 0.1%, and every UV is within [0,1]; otherwise the error names a problem the mesh really has, or several when several kinds of data are invalid. Every mesh of finite vertices that verifies can be saved and loaded, and what is loaded verifies again.",
 ["inputs"], "every mesh, valid or broken in any combination of ways, including boundary indices (length-1, length), empty arrays, and non-finite values",
 "Tests contain only a handful of invalid meshes, none at the boundary; the claim is an equivalence over all meshes.",
 ["src/verify.rs", "src/lib.rs", "src/tmf_exporter.rs"], [("per array checks", "src/verify.rs verify_vertices / verify_normals / verify_uvs"), ("index bounds", "src/verify.rs indices_inside_array"), ("composite error", "src/verify.rs verify_tmf_mesh")],
 ["TMFMesh::verify, then write_tmf / read_tmf / verify"])

prop("C08", "Reading arbitrary bytes as TMF never crashes nor exhausts memory",
 "For every byte string, reading it as a TMF file returns either meshes or an error: it does not panic, abort, overflow or read out of bounds, and the memory it uses is bounded by a constant plus a multiple of the number of bytes supplied (arrays declared to take zero bits per element excepted). Meshes it does return can be inspected, verified and dropped safely.",
 ["inputs"], "every byte string: random, structured with arbitrary field values, and valid files with any bytes changed, removed, inserted or spliced, in both layouts of the format",
 "Tests feed only well-formed files (the fuzz targets of the repository are not run by them); damage must be handled wherever it occurs.",
 ["src/tmf_importer.rs", "src/tmf.rs", "src/vertices.rs", "src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/custom_data.rs", "src/unaligned_rw.rs"],
 [("length limits", "src/lib.rs MAX_SEG_SIZE"), ("segment reading", "src/tmf.rs EncodedSegment::read"), ("precision checks in each array reader", "src/vertices.rs, src/normals.rs, src/uv.rs, src/tangents.rs, src/custom_data.rs"), ("index range checks", "src/vertices.rs offset_index")],
 ["TMFMesh::read_tmf on arbitrary bytes, under a counting allocator"])

prop("C09", "Truncated TMF data is rejected, and reading consumes exactly one file",
 "Every strict prefix of a valid TMF file, and every file in which a data segment holds less data than its element count needs, is rejected with an error instead of giving a partial mesh. Reading a complete file consumes exactly its bytes, so files written one after another to a stream are read back one after another, whatever follows them.",
 ["inputs", "crash_points"], "every valid file cut at every byte, every segment with its payload shortened, and every sequence of concatenated files with arbitrary trailing bytes",
 "No test cuts a file or reads from a shared stream.",
 ["src/tmf_importer.rs", "src/tmf.rs", "src/unaligned_rw.rs", "src/read_extension.rs"], [("exact reads", "src/read_extension.rs ReadExt"), ("segment length is enforced", "src/tmf.rs EncodedSegment::read"), ("end of bit array", "src/unaligned_rw.rs read_to_internal_storage")],
 ["TMFMesh::read_tmf on prefixes and on streams, position of the reader afterwards"])

prop("C10", "I/O faults surface as errors, and odd but legal I/O changes nothing",
 "If the sink fails at any point while a TMF or OBJ file is written, the write returns an error and what the sink accepted before is a prefix of the complete output; if the source fails at any point while a file is read, the read returns an error and never a partial result. Short reads and writes and interrupted calls never change the bytes written or the meshes read.",
 ["fault_sequences", "inputs"], "every mesh list and every sequence of short, interrupted, zero-length and failing calls of the sink or source, with the failure at every byte position",
 "Tests only use files and in-memory buffers that never fail nor split an operation.",
 ["src/tmf_exporter.rs", "src/tmf.rs", "src/tmf_importer.rs", "src/obj.rs", "src/read_extension.rs"], [("write_all / read_exact everywhere", "src/tmf.rs EncodedSegment::write, src/read_extension.rs"), ("buffered OBJ writer is flushed", "src/obj.rs write_obj")],
 ["write_tmf, write_obj, read_tmf, read_from_obj with instrumented Read/Write objects"])

prop("C11", "Headers, versions, limits and single-mesh calls are gated with right errors",
 "A file is read only if it starts with the TMF magic and does not require a newer reader version, whatever version wrote it, and unsupported or unknown compression, over-long segments or element counts and too high precisions are each refused with the matching error. The single-mesh calls return the mesh only if the file has exactly one, with distinct errors for none and for several, and a mesh with a name or segment count the format can't hold is refused when saving.",
 ["inputs"], "every combination of magic, version fields, compression codes, lengths, counts, precisions, mesh counts, names and entry points",
 "Tests never present a wrong magic, another version, another compression or an over-long field.",
 ["src/tmf_importer.rs", "src/tmf.rs", "src/lib.rs", "src/tmf_exporter.rs"], [("magic and version", "src/tmf_importer.rs read_tmf_header"), ("compression", "src/tmf.rs CompressionType::from_u8, DecodedSegment::decode"), ("single mesh", "src/lib.rs read_tmf_one / read_tmf_one_async"), ("name length", "src/tmf_exporter.rs write_mesh_name")],
 ["error variants returned by read_tmf, read_tmf_one, their async variants and write_tmf"])

prop("C12", "Files follow the TMF format exactly, for both the current and older layout",
 "Every file written is a well-formed version 0.2 file that an independent implementation of the format decodes to the same meshes, with every quantised value the nearest one the declared precision can represent. Every well-formed file of version 0.2 or 0.1 - any bit widths, any split of an array into segments, any shared-index mask, unknown segments in between - is read as the format defines: arrays are concatenated in file order and unknown segments ignored.",
 ["inputs", "configurations"], "every mesh list written, and every well-formed file an independent encoder can produce in both layouts",
 "Tests only read what the same version of the library wrote, so a change made on both sides, or a broken reader of files by other versions and writers, goes unseen.",
 ["src/tmf.rs", "src/tmf_importer.rs", "src/tmf_exporter.rs", "src/vertices.rs", "src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/custom_data.rs", "TMF_SPEC.md"], [("segment header widths by version", "src/tmf_importer.rs SegTypeWidth / SegLenWidth"), ("base index only since 0.2", "src/tmf_importer.rs read_traingle_min"), ("segment types", "src/tmf.rs SectionType"), ("shared masks", "src/tmf.rs SharedSegmentKind")],
 ["bytes written by write_tmf; meshes read from independently encoded bytes"])

prop("C13", "reorder_data keeps the surface and only drops unused elements",
 "Reordering a mesh leaves every triangle corner with exactly the same vertex, normal and UV as before and the same number of corners, keeps no element twice nor any that no triangle uses, lays the elements out in order of first use, leaves tangents, custom data and kinds of data without indices alone, and doing it again changes nothing. The result verifies if the original did.",
 ["inputs"], "every valid mesh, with any subset of arrays, unused and repeated elements, and any index patterns",
 "One test checks one model; per-corner equality has to hold for every index pattern.",
 ["src/utilis.rs", "src/lib.rs"], [("index map", "src/utilis.rs optimize_triangle_indices"), ("applied to each pair of arrays", "src/lib.rs reorder_data")],
 ["getters and get_*_buffer before and after reorder_data"])

prop("C14", "unify_index_data keeps every corner and makes all index arrays equal",
 "Unifying a mesh whose present index arrays have the same length leaves every triangle corner with exactly the same vertex, normal, UV and tangent, makes the index arrays of all of them identical, creates no combination of elements that did not occur nor any twice, does not touch custom data, absent arrays or kinds of data without elements, and changes nothing if the index arrays were already equal. Unified meshes verify if the original did and survive saving and loading with index arrays still equal.",
 ["inputs"], "every valid mesh with any subset of vertices, normals, UVs and tangents with index arrays of one length, including repeated corners, unused elements and arrays that are equal in part",
 "Tests cover one model without tangents; each combination of present arrays takes its own path.",
 ["src/unify_data.rs", "src/lib.rs"], [("corner combinations", "src/unify_data.rs unfiy_data_common"), ("choice of arrays to merge", "src/unify_data.rs smart_merge_data_2/3/4"), ("result is written back", "src/lib.rs unify_index_data")],
 ["getters before and after unify_index_data"])

prop("C15", "Exporting to OBJ and importing again gives the same named meshes",
 "Writing any list of named, valid meshes with faces to OBJ and importing that file gives the same meshes in the same order with the same names, where every corner of every triangle has exactly the same vertex, normal and UV, and attributes a mesh did not have are still absent. A mesh without faces exported alone keeps its vertices, and between other meshes does not disturb them; a mesh OBJ can't represent is refused with an error.",
 ["inputs"], "every list of valid meshes with any subset of normals and UVs, index arrays in any relation, any finite coordinates, any one-line names",
 "Tests export fixed models and mostly do not read them back; index offsets between meshes and absent attributes need generated lists.",
 ["src/obj.rs", "src/model_importer.rs", "src/utilis.rs"], [("index offsets across meshes", "src/obj.rs write_obj / save_obj"), ("face syntax per attribute set", "src/obj.rs save_obj, load_face"), ("pruning of other meshes' elements", "src/utilis.rs fast_prune, src/model_importer.rs next_mesh / finish")],
 ["write_obj / write_obj_one, then read_from_obj / read_from_obj_one"])

prop("C16", "OBJ import reads every corner, attribute and object as the file says",
 "For every well-formed OBJ text of triangles, importing gives one mesh per object that has faces, with the object's name and, for each face in order, the vertices, UVs and normals its corners refer to, for every corner form (v, v/t, v//n, v/t/n), spacing, line ending, comment and unsupported line. A file whose indices or numbers are malformed is refused with an error rather than read as something else.",
 ["inputs"], "every well-formed triangulated OBJ text from a grammar covering corner forms, objects, interleaving, white space, comments and ignored statements, and malformed variants of it",
 "Tests import a few exporter-made files that all use one form.",
 ["src/obj.rs", "src/model_importer.rs"], [("line parser", "src/obj.rs parse_line"), ("corner parser", "src/obj.rs load_face"), ("object switch", "src/model_importer.rs next_mesh / finish")],
 ["read_from_obj compared with an independent parser"])

prop("C17", "Importing arbitrary bytes as OBJ never crashes",
 "For every byte string, importing it as OBJ returns either meshes or an error: it does not panic, abort or overflow, with or without triangulation, and never refuses a file because of lines it does not understand. Meshes it returns can be inspected, verified, and (when they verify) saved.",
 ["inputs", "configurations"], "every byte string: random bytes and text, and well-formed OBJ text with any tokens changed, removed or repeated, including huge, zero and negative indices",
 "Tests import only well-formed files.",
 ["src/obj.rs", "src/model_importer.rs", "src/triangulation.rs", "src/utilis.rs"], [("line and number parsing", "src/obj.rs parse_line, load_vec2, load_vec3, load_index"), ("face arity", "src/model_importer.rs push_face"), ("pruning with indices out of range", "src/utilis.rs fast_prune")],
 ["read_from_obj, then verify, getters and write_tmf"])

prop("C18", "Triangulation turns a convex polygon into a cover of n-2 triangles",
 "With triangulation enabled, importing a convex polygon with n corners gives exactly n-2 triangles that use only its corners, each with the UV and normal of that corner, cover the polygon without overlap with the polygon's orientation, and use each side of the polygon exactly once; triangles and other polygons in the same file are unaffected. Without it, such faces are refused with an error.",
 ["inputs", "configurations"], "every convex polygon (4 to dozens of corners, any plane, scale and starting corner, nearly collinear corners) alone and among other faces",
 "No test checks what triangulation produces.",
 ["src/triangulation.rs", "src/model_importer.rs"], [("ear clipping", "src/triangulation.rs triangulate"), ("arity dispatch", "src/model_importer.rs push_face")],
 ["read_from_obj of polygons; the resulting index arrays and buffers"])

prop("C19", "A mesh is a faithful container: setters, getters, appends, buffers agree",
 "After any sequence of set, append, clone, normalize and custom-data calls, every getter returns exactly what a plain record of the same operations holds: setters return the previous array, appends extend an array or create it, arrays don't affect each other, and clones are independent. The vertex, normal and UV buffers hold exactly the element of each index in order, and are absent if an array is absent or any index is out of range; normalize scales every finite non-zero normal to unit length keeping its direction.",
 ["histories", "inputs"], "every sequence of container operations with any arrays (including empty and out-of-range ones) on one mesh and its clones",
 "Each operation is tested at most once in isolation, on well-formed data.",
 ["src/lib.rs", "src/normals.rs", "src/utilis.rs"], [("accessors and appends", "src/lib.rs set_*, get_*, append_*"), ("buffers", "src/lib.rs get_vertex_buffer, get_normal_buffer, get_uv_buffer"), ("normalisation", "src/utilis.rs normalize")],
 ["return values of every operation and all getters after each step"])

prop("C20", "Saved size stays within the compression the precision settings promise",
 "A saved mesh takes no more space than the format needs: each index array at most the number of bits of its largest index per element, vertex, normal and UV index arrays equal to one another stored only once, each vertex coordinate at most the bits its axis needs for the requested precision, and normals, UVs, tangents and custom data at most the bits their precision needs, plus a fixed overhead per segment. After unifying index data, vertex, normal and UV index arrays take one copy in all.",
 ["inputs", "configurations"], "every valid mesh and precision setting, including arrays with equal, partly equal and split-worthy index arrays",
 "Tests do not check the size of what is saved; losing the compression that is the format's purpose would pass them.",
 ["src/tmf_exporter.rs", "src/vertices.rs", "src/tmf.rs", "src/custom_data.rs"], [("index width", "src/vertices.rs calc_prec, save_triangles"), ("sharing", "src/tmf_exporter.rs merge_segments"), ("splitting only when it pays", "src/tmf_exporter.rs opt_tris, opt_vertices")],
 ["length and declared widths of the bytes written by write_tmf"])

prop("C21", "Results don't depend on call variant, thread, repetition or feature set",
 "Saving the same meshes with the same settings always gives the same bytes and never changes the meshes, and reading the same bytes always gives the same meshes - in the synchronous, asynchronous, single- and multi-mesh variants, from several threads at once, and with or without the tokio runtime, byte reader and fast trigonometry features (which may only change normals and tangents, within their documented accuracy).",
 ["configurations", "schedules", "inputs"], "every mesh list, every TMF file valid or damaged, every entry point, concurrent use, and the default versus all-features builds",
 "Each feature set is tested on its own; nothing compares them or runs calls concurrently.",
 ["src/lib.rs", "src/tmf_importer.rs", "src/tmf_exporter.rs", "src/normals.rs", "src/utilis.rs", "src/unaligned_rw.rs"], [("runtime selection", "src/lib.rs runtime_agnostic_block_on"), ("parallel decoding keeps order", "src/tmf_importer.rs import_mesh"), ("approximate sine", "src/utilis.rs fsin")],
 ["bytes and meshes from each variant and from a second process built with the other features"])

prop("C22", "Bit-packed arrays read back exactly what was written, bit for bit",
 "Any sequence of values written with any widths from 0 to 64 bits through the unaligned writer gives exactly the bytes of their concatenation, most significant bit first, padded with zeros to a whole byte, and reading with the same sequence of widths - one at a time, as single bits, in pairs, or in triples - gives the same values back. Reading past the end is an error, never made-up data, and how the source splits its reads doesn't matter.",
 ["inputs", "histories", "configurations"], "every sequence of widths, values and read operations, and every way of splitting source reads",
 "Tests use ascending widths and a few fixed patterns, and never pairs of unequal widths, 64-bit values or split reads.",
 ["src/unaligned_rw.rs"], [("reader", "src/unaligned_rw.rs UnalignedReader::read_unaligned, read_bit, read2_unaligned, read3_unaligned, read_pair_unaligned"), ("writer", "src/unaligned_rw.rs UnalignedWriter::write_unaligned, Drop")],
 ["UnalignedWriter output bytes; UnalignedReader results"])

prop("C23", "Saving a loaded mesh again loses nothing more",
 "Saving a loaded mesh again with the same settings and loading it gives identical index arrays, names, normals, tangents, UVs and custom integers, colours and floats (up to floating-point rounding), vertices still within the requested deviation of the loaded ones, and a file that does not keep growing; so apart from vertices any number of load and save cycles stays at what the first one gave.",
 ["histories", "inputs"], "every valid mesh and precision setting, over several generations of saving and loading",
 "No test saves a loaded mesh again and compares.",
 ["src/normals.rs", "src/uv.rs", "src/tangents.rs", "src/custom_data.rs", "src/vertices.rs"], [("stable quantisation", "src/unaligned_rw.rs to_fixed_point"), ("precision recovered from the file", "src/custom_data.rs CustomDataSegment::read")],
 ["getters after the first and after later generations"])

prop("C24", "Index-width and float-precision features keep reading and writing correctly",
 "Built with 64-bit or 16-bit indices and/or double precision, the library reads every file the default build reads to the same indices and (up to the coarser type's rounding) the same values, writes files the default build reads back within the requested precision, and refuses, rather than wraps, indices its type can't hold. Verifying, reordering, unifying and OBJ import and export give the same results in all of them, within what their index type can hold.",
 ["configurations", "inputs"], "every mesh list and file, for the long_indices, short_indices and double_precision features and their combinations",
 "These features are never built by the tests.",
 ["src/lib.rs", "src/vertices.rs", "src/normals.rs", "src/custom_data.rs", "src/tmf_importer.rs"], [("type selection", "src/lib.rs IndexType, FloatType"), ("index conversion", "src/vertices.rs offset_index"), ("float decoding", "src/vertices.rs read_tmf_vertices, src/normals.rs, src/uv.rs")],
 ["meshes and files from each build, exchanged between processes"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
