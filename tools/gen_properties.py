#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays in one readable place)."""
import json
P=[]
S="ifc_rs/src/"
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    a={"files":[S+f if not f.startswith("ifc_rs_verify") else f for f in files],
       "mechanism":[{"name":n,"where":S+w if not w.startswith("ifc_rs_verify") else w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":S+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Reading a file exposes exactly the attribute values written in it",
"After reading a file, every attribute exposed for an instance of a supported entity kind equals the value at that attribute's position in the record: strings, numbers, enumeration values, booleans, timestamps, identifiers, references and lists (length and order) are unchanged, '$' reads as omitted and '*' as inherited. An instance whose record has the attribute layout the library supports for its kind is available under that kind and under its own number, never under another kind or as an opaque record.",
["inputs"],"every supported entity kind, every combination of omitted/inherited/present attributes, list lengths and value ranges, in every file context",
"Each entity has one or two sample records with mostly omitted attributes and the tests compare printed text with the same text, so an attribute read into the wrong field, or a list truncated or reordered, is invisible when printing mirrors the mistake.",
["objects","geometry","relations","units","materials","properties","parser","meta/datamap/deserialize.rs"],
[("per-entity record readers","objects/*/deserialize.rs"),("dispatch over entity kinds","meta/datamap/deserialize.rs"),("optional / inherited / list readers","parser/optional.rs, parser/list.rs")],
["public fields of the typed instances obtained from the file's data section"])

p("P02","Written records carry exactly the stored attribute values in schema order",
"The text written for a file holds each stored instance exactly once, under its own number, as one record with the entity keyword of its kind and the stored attribute values in schema order, so that an independent STEP reader recovers the same values. Omitted attributes are written as '$' and inherited ones as '*'; the 'standard case' variants of a kind are written under the plain keyword.",
["inputs"],"every supported entity kind with arbitrary attribute values, and whole files of them",
"The tests compare output with the very text that was parsed; no test reads the output with anything but this crate's own reader.",
["objects","geometry","relations","units","materials","properties","meta/datamap/serialize.rs","parser"],
[("per-entity record writers","objects/*/serialize.rs"),("data section writer","meta/datamap/serialize.rs")],
["Display of the file and of its data section"])

p("P03","Read-write-read is lossless and writing reaches a fixed point",
"Reading any accepted well-formed file, writing it and reading the result again succeeds and yields the same header, the same set of instance numbers, and for each number the same kind and attribute values. Writing that second reading produces byte-for-byte the text of the first writing.",
["inputs"],"every accepted file: any mix of supported and unsupported records, layouts, header values",
"A handful of example files are round-tripped; the property quantifies over all files.",
["lib.rs","meta","parser","objects","geometry","relations","units","materials","properties"],
[("file reader and writer","lib.rs"),("section readers/writers","meta/")],
["text produced by writing the file"])

p("P04","Records of unsupported kinds survive unchanged and disturb nothing",
"A record the library has no typed support for is kept under its own number and written back with its text unchanged, including any semicolons, quotes or comment-like text inside its string values. Its presence does not change how any other instance of the file is read, looked up or written.",
["inputs"],"arbitrary well-formed records with unknown keywords, and with known keywords but a shape the library does not model, at any place in a file",
"One test reads one unknown record; string content, position and neighbours are not varied.",
["parser/dummy.rs","meta/datamap/deserialize.rs"],
[("catch-all record reader","parser/dummy.rs"),("dispatch order","meta/datamap/deserialize.rs")],
["text of the opaque record; neighbours' values"])

p("P05","Meaning does not depend on layout, comments or instance order",
"Adding or removing spaces, tabs, line breaks and comments between the tokens of a file's data records, or permuting the instances of the data section (forward references included), changes neither the values read nor the text written back.",
["inputs"],"all placements of whitespace and comments at the token boundaries the reader accepts, and all permutations of the records of a file",
"Tests contain a few fixed layouts, mostly one record per line without comments.",
["parser/mod.rs","parser/comma.rs","parser/list.rs","meta/datamap/deserialize.rs","objects","geometry","relations","units","materials","properties"],
[("space/comment skipping","parser/mod.rs"),("comma separators","parser/comma.rs"),("list reader","parser/list.rs")],
["equality of written text between a file and its re-laid-out variant"])

p("P06","Text values survive exactly",
"A text value set through the API or read from a file is the same sequence of characters after writing and reading back, whatever it contains: apostrophes, commas, semicolons, parentheses, comment openers, leading/trailing blanks, German umlauts and other non-ASCII letters. The written form is a correct STEP string literal: it is delimited by apostrophes, apostrophes inside are doubled, and German umlauts in data records are written in their encoded form.",
["inputs"],"all strings without a literal STEP escape sequence of their own, in every text attribute, list element and header field",
"Three tests cover ASCII words and one umlaut string.",
["parser/string.rs","meta/header","values/label.rs","values/identifier.rs"],
[("string literal reader/writer and umlaut tables","parser/string.rs")],
["text attributes of instances and of the header"])

p("P07","Real numbers survive exactly",
"Reading a real gives the nearest double to its decimal text, and writing any finite double (attribute, coordinate, measure or property value) produces a valid STEP real literal - always with a decimal point, exponent marked E - that reads back as the identical double.",
["inputs"],"all finite doubles including subnormals, huge and tiny magnitudes, negative zero and 17-digit values; all STEP real spellings",
"About eight fixed numbers are tested.",
["parser/real.rs","parser/geometry.rs","values/real.rs","values/thermal_transmittance.rs","units/measure/plane_angle.rs"],
[("real formatter","parser/real.rs"),("vector reader","parser/geometry.rs")],
["real attributes, points, directions, point lists, property values"])

p("P08","Each enumeration literal denotes its own value, in both directions",
"Every enumeration literal of the IFC schema that the library supports reads as the variant that carries its name and that variant is written as exactly that literal; distinct variants have distinct literals and a literal is accepted only in full. Booleans and logicals read their long and short spellings to the same value and are written in a spelling denoting that value.",
["inputs"],"every variant of every supported enumeration, boolean and logical, in every attribute that uses it",
"Only one or two variants per enumeration appear in tests; a pair of swapped or misspelled literals round-trips unnoticed.",
["objects","geometry","units","materials","parser/bool.rs"],
[("literal tables","objects/walltype/type_enum.rs, units/name.rs, units/unit_enum.rs and siblings"),("boolean reader","parser/bool.rs")],
["variants of public enums and their written form"])

p("P09","Integers, timestamps and instance numbers survive exactly",
"Any 64-bit integer attribute, any representable timestamp and any instance number is read to exactly the value written and is written back as the same decimal digits (a point in time is written as the whole second it lies in); instance numbers need not be dense or ordered and the same number always denotes the same instance.",
["inputs"],"all i64 integers, timestamps within the calendar range, and instance numbers up to the machine word",
"Tests use small literals only.",
["parser/integer.rs","parser/timestamp.rs","id/plain.rs","id/typed.rs","geometry/dimension_count.rs","units/dimensional_exponents.rs"],
[("integer/timestamp/id readers","parser/integer.rs, parser/timestamp.rs, id/plain.rs")],
["integer attributes, creation dates, instance numbers"])

p("P10","Global identifiers keep their 22-character form and are fresh when created",
"A valid 22-character IFC global identifier is read and written back character for character, distinct identifiers stay distinct, and text that is no such identifier is not turned into one. A newly created identifier is a valid 22-character identifier, the standard IFC base-64 encoding of a random (version 4) UUID, and differs from every other one created.",
["inputs","histories"],"all valid 22-character identifiers; all sequences of created identifiers",
"Five fixed identifiers are tested and no uniqueness over histories.",
["id/ifc_uuid.rs","objects/shared/root.rs"],
[("base-64 codec","id/ifc_uuid.rs"),("generation","id/ifc_uuid.rs")],
["global id attribute of rooted instances"])

p("P11","Header values are read and written faithfully",
"Reading a header exposes exactly its description entries (name and items), implementation level, file name, timestamp (to the second), author and organisation lists (length and order), preprocessor, originating system, authorisation and schema identifiers, and writing a header produces text from which the same values are recovered by an independent reader. The schema version read is the one named in the file.",
["inputs"],"all header values of the accepted form, all supported schema names and layouts",
"Two or three fixed headers are tested.",
["meta/header/mod.rs","meta/header/deserialize.rs","meta/header/serialize.rs","meta/version.rs","meta/footer"],
[("header reader","meta/header/deserialize.rs"),("header writer","meta/header/serialize.rs")],
["public header fields; written header text"])

p("P12","References of the wrong kind are reported, correct ones accepted",
"Reading a file in which every checked reference points to an existing instance of an allowed kind (or to a record of an unsupported kind) succeeds. If exactly one checked reference - in a single attribute, in any position of a list, own or inherited - points to an instance of a supported but disallowed kind or to no instance at all, reading returns an error that names the referring instance, and does not crash.",
["inputs"],"every referring attribute of every supported kind, every wrong target kind, every position, in arbitrary surrounding graphs",
"Tests exercise a few attributes with one wrong target; there are about seventy referring attributes and some seventy possible target kinds.",
["traits/ifc_type.rs","lib.rs","ifc_rs_verify_derive/src/lib.rs","ifc_rs_verify_derive/src/field.rs","ifc_rs_verify_derive/src/data_type.rs","objects","geometry","relations","units","materials","properties"],
[("generated reference checks","ifc_rs_verify_derive/src/field.rs"),("verification pass after reading","lib.rs"),("allowed-kind annotations","relations/*.rs, geometry/**, objects/**")],
["result of reading the file"])

p("P13","No input text makes reading crash or hang",
"For any text whatsoever, reading it as a file terminates with either a file or an error - no crash, no endless loop - and a file that was accepted can be written. Reading from disk gives the same outcome as reading the same text from memory, and an unreadable or non-text file is reported as an error.",
["inputs"],"all byte strings/texts, in particular mutated and truncated IFC files and out-of-range numbers",
"Tests only read well-formed files; robustness quantifies over all malformed ones.",
["lib.rs","meta","parser","traits/ifc_type.rs"],
[("error reporting of the readers","lib.rs"),("conversion of numbers, timestamps, ids","parser/timestamp.rs, meta/header/deserialize.rs")],
["result of from_str/from_file"])

p("P14","Structurally damaged files are reported, never silently shortened",
"A file cut off anywhere before its closing marker, missing a section keyword or record terminator at the end of a section, with a mangled header, or followed by extra content is rejected with an error. A file that is accepted contains every instance number that occurs as a record in its data section - nothing is silently dropped.",
["inputs","fault_sequences"],"every truncation point and structural deletion/insertion of every generated file",
"No test feeds a damaged file.",
["lib.rs","meta/datamap/deserialize.rs","meta/header/deserialize.rs","meta/footer/deserialize.rs"],
[("section framing","meta/datamap/deserialize.rs, meta/footer/deserialize.rs"),("whole-input parse","lib.rs")],
["result of reading a damaged file"])

p("P15","The instance store behaves as a map from numbers to typed instances",
"Through any sequence of insertions, automatic-number insertions, removals, replacements, in-place edits and lookups, the instance store agrees with a plain map from numbers to instances: an automatically chosen number was never in use and is one above the highest in use, insertion returns the replaced instance, removal the removed one, and existing instances are never disturbed. Enumerating the instances of a kind yields exactly the stored instances of that kind in increasing number order, and writing lists all instances in increasing number order.",
["histories"],"all operation sequences on the store, including stores built from parsed files",
"No test performs more than a couple of insertions.",
["meta/datamap/mod.rs","id/typed.rs","id/plain.rs"],
[("store operations","meta/datamap/mod.rs")],
["return values and contents of the store after each step"],
[("instance store","ordered map from number to boxed instance","meta/datamap/mod.rs")])

p("P16","Constructors and setters store exactly what they are given",
"An instance built through the public constructors and setters holds exactly the values supplied, each in its own attribute, with every attribute not supplied omitted (or at its documented default); later setter calls replace or append as documented and never alter other attributes. The written record of such an instance carries exactly those values.",
["inputs","histories"],"every constructor, every setter, all argument values and all orders and subsets of setter calls",
"Tests build a few instances with one fixed setter order and do not check most setters at all.",
["objects","objects/shared","geometry","relations","units","materials","properties","values"],
[("builder traits","objects/shared/*.rs"),("constructors and setters","objects/*/mod.rs and siblings")],
["written record of the constructed instance"])

p("P17","Sub-objects passed by value are stored once and referenced correctly",
"When an API accepts either an existing reference or a sub-object by value, a reference is used as is and adds nothing to the file, while a value is added as exactly one new instance with exactly the given content and the new reference points to it. All instances present before stay untouched.",
["inputs","histories"],"every API taking a reference-or-value argument, both forms, in any pre-existing store",
"Tests use one form per API and do not compare the rest of the store.",
["id/id_or.rs","objects/shared","geometry","relations","units","materials","properties","ifc_builder/materials.rs"],
[("reference-or-value resolution","id/id_or.rs")],
["store contents before and after the call"])

p("P18","Whatever the builder is asked to build, the resulting file is valid",
"For every sequence of calls to the high-level project builder with finite numbers and non-zero directions, the produced text is accepted by the library's own reader, including its reference checks, and reading and writing it again reproduces it. Every record has the attributes of its kind and every reference in it resolves, global identifiers are pairwise distinct, and exactly one project with its units and context exists. The project and every site, building, storey, space, element and type in it carries the project's owner history, which names the given person, organisation and application.",
["histories","inputs"],"all builder call sequences: any number of sites, buildings, storeys, materials, types, walls, slabs, roofs, windows, openings, spaces, shading devices, property sets and transforms with arbitrary names and dimensions",
"Three or four fixed example buildings are compared with snapshots.",
["ifc_builder","objects","relations","geometry"],
[("builder","ifc_builder/*.rs"),("relation emission on drop","ifc_builder/storey.rs, building.rs, site.rs, project.rs")],
["text returned by the builder"])

p("P19","The built model has the requested spatial structure",
"The file produced by the builder contains exactly the requested sites, buildings, storeys and spaces with their names and elevations, aggregated project-site-building-storey-space as they were requested and each under exactly one parent. Every wall, slab, roof, window and shading device is contained in exactly the storey it was created in, once, and the extractor reports it there.",
["histories"],"all builder call sequences with several sites/buildings/storeys and elements",
"Example buildings have one site, one building and one or two storeys.",
["ifc_builder/project.rs","ifc_builder/site.rs","ifc_builder/building.rs","ifc_builder/storey.rs","ifc_builder/spaces.rs","relations/rel_aggregates.rs","relations/rel_contained_in_spatial_structure.rs"],
[("aggregation and containment relations","ifc_builder/{project,site,building,storey}.rs")],
["aggregation and containment relations of the built file"])

p("P20","Built elements are related to exactly their type and material",
"In the file produced by the builder every wall, slab, roof, window, shading device and space is defined by exactly the type it was created with (which has the given name and predefined type), and every material definition is associated with exactly the elements and types it was given for. Layers, layer sets, layer set usages, constituents and constituent sets carry the names, thicknesses, directions and members supplied, in order.",
["histories"],"all assignments of types and materials to elements and creation orders",
"Examples use one or two types and materials.",
["ifc_builder/storey.rs","ifc_builder/materials.rs","ifc_builder/walls.rs","ifc_builder/slabs.rs","ifc_builder/roofs.rs","ifc_builder/windows.rs","ifc_builder/shading_devices.rs","ifc_builder/spaces.rs","ifc_builder/project.rs"],
[("type and material bookkeeping","ifc_builder/storey.rs, ifc_builder/project.rs")],
["type, material relations of the built file"])

p("P21","Built geometry and placements have the requested positions and dimensions",
"For every element created by the builder, the placement chain and the swept solid in the produced file evaluate to the requested position, profile (dimensions or points, in order), extrusion direction and depth, in the coordinate frame of the host the element was created in.",
["inputs","histories"],"all positions, dimensions, directions, point lists and nesting of placements",
"Snapshot examples use a few round numbers, often symmetric ones where swapped dimensions or axes cannot be seen.",
["ifc_builder","geometry/product_definition_shape/mod.rs","geometry/extruded_area_solid.rs","geometry/local_placement/mod.rs","traits/relative_placement.rs"],
[("shape construction","geometry/product_definition_shape/mod.rs"),("placement construction","geometry/local_placement/mod.rs, traits/relative_placement.rs")],
["placements and shape items of the built file"])

p("P22","A transform moves exactly its element and what is attached to it",
"Applying a transform through the builder replaces the element's shape by a mapped copy that evaluates to the transformed original solid: translation, rotation and (if any) scale as requested, each representation keeping its identifier. Openings and windows attached to a wall or slab transformed through its own builder move along with it (the last transform given counts), a transform through the storey builder moves just the named element, and no other element's geometry changes.",
["inputs","histories"],"all translations and rotations, elements with any number of openings and windows, any number of sibling elements",
"One snapshot per element kind with a single transform.",
["ifc_builder/transforms.rs","ifc_builder/walls.rs","ifc_builder/slabs.rs","relations/mapped_item.rs","relations/representation_map.rs","geometry/non_uniform_transformations.rs","geometry/transform_base.rs"],
[("transform application","ifc_builder/transforms.rs")],
["mapped items and their targets in the built file"])

p("P23","Extractor queries return exactly what the file's relations say",
"For any file, each extractor query (projects, relations between two kinds, contained structures, voids, materials, constituents, element types) returns exactly the instances its relations designate - all of them, none twice unless related twice, none belonging to another element - in the order of the file. Queries on an element without such relations return an empty result where the API offers one.",
["inputs"],"all relation graphs: many-to-many, multiple relation instances, unrelated and opaque targets",
"One example file with one project, one wall and one slab is queried.",
["ifc_extractor/mod.rs","objects/mod.rs"],
[("relation scans","ifc_extractor/mod.rs")],
["results of the extractor's queries"])

p("P24","Shape and placement readers report the instances' own geometry",
"The geometry reading helpers (shapes of a product, items of a shape, profile, axis, transform and mapped item views, polyline and profile points) return exactly the values of the referenced instances, in order, with omitted parts reported as absent. They never mix up two- and three-dimensional variants or the different axes.",
["inputs"],"all geometry graphs: 2D/3D variants, optional parts present or absent, direct and mapped items",
"A few fixed geometries are read, with default axes where x and z cannot be confused.",
["geometry/axis/mod.rs","geometry/extruded_area_solid.rs","geometry/rectangle_profile_def/mod.rs","geometry/arbitrary_closed_profile_def/mod.rs","geometry/transform_base.rs","geometry/non_uniform_transformations.rs","geometry/uniform_transformations.rs","geometry/polyline/mod.rs","geometry/shape_representation/mod.rs","relations/mapped_item.rs","objects/shared/product.rs","traits/ifc_mapped_type.rs"],
[("mapping views","traits/ifc_mapped_type.rs and its implementations")],
["values returned by the mapping views"])

p("P25","Edits are local and writing is deterministic",
"Changing, adding or removing one instance through the API changes only that instance's record in the written text; all other records and the header stay byte-identical. Two stores with the same content are written identically however they were assembled.",
["histories"],"all edits of arbitrary files; all insertion orders of the same content",
"No test edits a file and compares the rest.",
["meta/datamap","lib.rs"],
[("ordered store and writer","meta/datamap/mod.rs, meta/datamap/serialize.rs")],
["difference of written texts before and after an edit"])

p("P26","Openings void and windows fill exactly the element they were created in",
"In the file produced by the builder every opening created on a wall or slab voids exactly that element, once, and every window created with an opening fills exactly that opening and no other, whatever the number and order of openings and windows on each element. Openings without a window stay unfilled, and the extractor reports for each element exactly its own openings.",
["histories"],"all interleavings of openings and windows over several walls, slabs and storeys",
"Examples use one opening and one window per wall.",
["ifc_builder/openings.rs","ifc_builder/windows.rs","ifc_builder/walls.rs","ifc_builder/slabs.rs","ifc_builder/storey.rs","relations/rel_voids_element.rs","relations/rel_fills_element.rs"],
[("opening/window bookkeeping","ifc_builder/storey.rs")],
["void and fill relations of the built file"])

p("P27","Built property sets hold the given properties for the given objects",
"A property set created through the builder has the given name and exactly the given single properties - name, description, typed value and order - and is related to exactly the objects it was requested for. Every typed property value (label, identifier, boolean, real, thermal transmittance) is written under its own type name and reads back as the same type and value.",
["inputs","histories"],"all property names, typed values, object sets and numbers of properties",
"One property set with two labels is tested.",
["ifc_builder/properties.rs","properties","values","relations/rel_defines_by_properties.rs"],
[("property set builder","ifc_builder/properties.rs"),("typed values","values/core.rs")],
["property sets, single values and their relations"])

p("P28","Writing to a sink is complete or reported",
"Writing a model to any text or byte sink - a string, a file, a pipe, a device that becomes full or fails once - delivers exactly the text of the model or reports an error: success is never reported when part of the text did not arrive, what arrived before a failure is a beginning of the text, a failure without cause is not reported, and the model can be written again completely afterwards. The same holds for the header, the data section and the footer written on their own.",
["inputs","crash_points"],"every model and every point (chunk or byte) at which the sink fails, for good or once",
"The tests only write to strings, which never fail.",
["lib.rs","meta/header/serialize.rs","meta/datamap/serialize.rs","meta/footer/serialize.rs"],
[("writers of the file and its sections","lib.rs, meta/header/serialize.rs, meta/datamap/serialize.rs, meta/footer/serialize.rs")],
["result of writing and bytes that arrived at the sink"])

p("P29","Models do not influence each other, nor do surroundings",
"Reading, querying, editing and writing a model depends on that model alone: whatever else was read, rejected, edited, built or written before or at the same time, in the same or in other threads, and whatever time zone, locale, working directory or other environment the process runs in, the outcome - values, error messages, written text - is the same. Times put into new files are the actual points in time in every environment.",
["histories","schedules"],"all interleavings of operations on several models in one or more threads; environments",
"Each test handles one model in one environment.",
["lib.rs","meta","parser","ifc_extractor/mod.rs","ifc_builder/project.rs"],
[("reading and writing without shared state","lib.rs"),("times","parser/timestamp.rs, meta/header/mod.rs")],
["transcripts of interleaved and isolated runs"])

p("P30","Records that do not fit are never read as something else",
"A record with a supported keyword whose attributes have unsuitable values, the wrong number, the wrong order, or numbers beyond any range makes the file rejected, is kept verbatim as an opaque record, or keeps every one of its values: nothing is clipped, dropped, defaulted, saturated or reinterpreted silently, and the rest of the file is unaffected. (Exception documented by the library: a dimension count other than the plain 1, 2 and 3 is read as inherited.)",
["inputs"],"all files with records of supported keywords with arbitrary values in arbitrary attributes",
"Tests read only records that fit.",
["parser","lib.rs","geometry","objects"],
[("readers of attributes","parser"),("choice between typed and opaque records","parser/mod.rs, parser/dummy.rs, lib.rs")],
["written file"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
