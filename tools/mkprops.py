#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
S = "ifc_rs/src/"
prop("P01", "Globally unique ids survive encoding and decoding",
 "Every 128-bit globally unique id is written as exactly 22 characters of the IFC base-64 alphabet, the first being 0-3, following the published bit layout. Reading such a text gives the same id back, and every valid text is written back unchanged, so two different ids never share a text.",
 ["inputs"], "all 2^128 ids / all valid 22-character texts",
 "The unit tests check one GUID from the IFC documentation; a wrong shift, mask or alphabet slot shows only for particular bit patterns.",
 [S+"id/ifc_uuid.rs"], [("base-64 packing and unpacking", S+"id/ifc_uuid.rs encode_base16_to_base64 / decode_base16_to_base64"), ("alphabet lookup", S+"id/ifc_uuid.rs ALPHABET")],
 ["GUID attribute of a record parsed and printed", "fresh GUIDs in objects created by the API"])
prop("P02", "Text attributes survive being written and read",
 "A name, label or description given through the API is written as a quoted string in which only German umlauts and sharp s are replaced by their IFC escape (and an apostrophe is doubled), and reading that string gives the original text back; a complete umlaut escape given through the API denotes that umlaut. Reading a quoted string found in a file and writing it again keeps every other character and escape sequence as it was.",
 ["inputs"], "all texts up to the stated lengths, including empty text, control characters, backslashes, partial and complete escapes, multi-byte characters at every position",
 "Tests use a handful of fixed plain-ASCII names; interactions between escapes, partial escapes and neighbouring characters are not sampled.",
 [S+"parser/string.rs", S+"parser/mod.rs"], [("umlaut escape table", S+"parser/string.rs UMLAUTE_MAP"), ("quoted-word reader", S+"parser/mod.rs p_quote_word")],
 ["StringPrimitive conversion, Display and parse through any record with a text attribute"])
prop("P03", "Every supported record kind is read and written without loss",
 "For every supported record kind, reading a well-formed record and writing it again yields the same record: the same keyword (a STANDARDCASE spelling counts as the plain kind) and every attribute in its position with its value (text, reference, number, enumeration, list, omitted or inherited mark) unchanged. Reading the written record again changes nothing further.",
 ["inputs"], "every supported record kind x every admissible combination of attribute forms with symbolic contents (texts, ids, GUIDs, integers, enumeration members, list sizes)",
 "The unit tests round-trip one or two fixed sample records per kind, with most optional attributes omitted; swapped, dropped or duplicated attributes that are equal in the sample go unnoticed.",
 [S+"objects", S+"geometry", S+"relations", S+"materials", S+"properties", S+"units", S+"values"], [("hand-written parser per record", "deserialize.rs / IFCParse impls"), ("hand-written printer per record", "serialize.rs / Display impls")],
 ["IFC::from_str(file).to_string()"])
prop("P04", "Loading and saving a file keeps every record",
 "A loaded file that is saved contains exactly the records it was loaded with: each id once, in ascending id order, each with its own content, and records of unsupported kinds verbatim (when a file gives an id twice, one of the two contents is kept). Loading the saved text again gives the same saved text.",
 ["inputs"], "files with up to the stated number of records, symbolic ids (any order, any magnitude), mixes of supported, unsupported and malformed records",
 "Tests load three files with records in ascending order and compare at most the whole text of generated files.",
 [S+"lib.rs", S+"meta/datamap/deserialize.rs", S+"meta/datamap/serialize.rs", S+"parser/dummy.rs"], [("ordered record map", S+"meta/datamap/mod.rs DataMap"), ("opaque records", S+"parser/dummy.rs Dummy")],
 ["IFC::from_str and Display of IFC"])
prop("P05", "Loading never panics, whatever the text",
 "Loading any text either yields a model, which can then be saved, or an error; it never panics, overflows or runs forever. This includes truncated files, dangling or circular references, out-of-range numbers, ids and dates, characters outside ASCII anywhere, and unbalanced quotes, brackets or comments.",
 ["inputs"], "valid files with symbolic bytes, truncated or mutated tails, and out-of-range values in every primitive position",
 "Tests only load well-formed input.",
 [S+"lib.rs", S+"parser", S+"meta/header/deserialize.rs"], [("total parser combinators", S+"parser/mod.rs"), ("verification after parsing", "ifc_rs_verify_derive/src/field.rs")],
 ["IFC::from_str"])
prop("P06", "Files whose references point at the wrong kind of record are rejected",
 "Loading succeeds only if every reference attribute of every supported record designates a record of a kind allowed for that attribute or a record of an unsupported kind; otherwise, and when the reference designates no record at all, loading reports an error. A file all of whose references are of an allowed kind is never rejected.",
 ["inputs"], "every reference attribute of every supported kind x every kind of target record (symbolic target id)",
 "Tests have a few positive files and almost no negative ones; each attribute has its own allowed set, attached by an attribute macro, and a missing or wrong annotation changes nothing in valid files.",
 ["ifc_rs_verify_derive/src", S+"traits/ifc_type.rs", S+"lib.rs"], [("derived verification", "ifc_rs_verify_derive/src/field.rs"), ("allowed kinds per attribute", "#[ifc_types(..)] / TypedId<T> fields")],
 ["Result of IFC::from_str"])
prop("P07", "The record store keeps its contents over any history of operations",
 "Inserting a new value always yields an id not in use, at least 1 and greater than every id present, and leaves all other entries as they were (as long as the largest possible id is not in use); explicit insertion, removal, lookup and membership behave like a map from ids to values. Listing the records of a kind yields exactly the entries of that kind, each once, in ascending id order, with the value stored under that id.",
 ["histories", "inputs"], "all operation sequences up to the stated length over symbolic ids and several record kinds, from an arbitrary initial map",
 "Tests only ever append to an empty map.",
 [S+"meta/datamap/mod.rs", S+"id"], [("id allocation", S+"meta/datamap/mod.rs insert_new"), ("type filter", S+"meta/datamap/mod.rs find_all_of_type / id_of")],
 ["DataMap public methods"])
prop("P08", "Whatever the builder produces can be loaded again, unchanged",
 "For every sequence of builder calls, the text it produces loads without error, every reference in it resolves to an allowed record, and saving the loaded model gives the identical text.",
 ["histories", "inputs"], "call sequences over project, site, building, storey, materials, types, elements, openings, properties and transforms up to the stated length, with symbolic names and measures",
 "Tests run one fixed call sequence per builder with fixed dimensions and names.",
 [S+"ifc_builder"], [("builders with deferred relations", S+"ifc_builder/*.rs Drop impls"), ("project text", S+"ifc_builder/project.rs build")],
 ["IfcProjectBuilder::build followed by IFC::from_str"])
prop("P09", "Everything built is linked exactly once into the model",
 "Every site, building, storey, element, opening and space created with the builder appears in exactly one decomposition, containment or voiding relation, under the parent it was created on (a window is contained in its storey once and fills its opening once, and the opening voids its host once), and elements are associated with exactly the type, material and property set they were created with, each once.",
 ["histories"], "builder call sequences with up to the stated number of siblings on each level and elements per material/type, interleaved across storeys and element kinds",
 "Tests only check that the generated text parses; a lost, duplicated or misdirected relation still parses.",
 [S+"ifc_builder"], [("relations emitted on drop", S+"ifc_builder/storey.rs, building.rs, site.rs, project.rs"), ("material relations", S+"ifc_builder/project.rs material_to_*")],
 ["relations found in the built file with IfcExtractor and DataMap"])
prop("P10", "Model queries return exactly what the relations say",
 "Asking for the parts of an object, the elements contained in a structure, the openings of an element, its type or its materials returns exactly the records named by the relations of that kind whose relating or related side is that object, in ascending order of the relations' ids and in list order within each, and nothing from relations of other objects. Materials are the layers (through the layer set usage) or constituents of the associated sets; the type is that of the first such relation.",
 ["inputs"], "models with up to the stated number of relations and symbolic relating/related ids, including several relations for one object and one relation for several objects",
 "The examples query one fixed model in which each relation occurs once.",
 [S+"ifc_extractor/mod.rs"], [("relation scans", S+"ifc_extractor/mod.rs")],
 ["IfcExtractor methods"])
prop("P11", "Enumeration values keep their identity",
 "Every enumeration value a record may carry is read from exactly one keyword form, is written with that keyword, and two different keywords never denote the same value; a word that is not one of the (supported) keywords is not accepted as any value.",
 ["inputs"], "every enumeration attribute x every keyword in its list x arbitrary words up to the stated length",
 "Tests read only two or three members of each enumeration.",
 [S+"units/name.rs", S+"units/prefix.rs", S+"units/unit_enum.rs", S+"units/derived_unit_enum.rs", S+"objects", S+"materials", S+"geometry"], [("keyword tables", "strum derives and hand-written tables in *_enum.rs")],
 ["records carrying the enumeration, parsed and printed"])
prop("P12", "Numbers keep their value",
 "Record ids, integers and timestamps are written with exactly the value that was read or given, over their whole range; numbers out of range are never wrapped (the record is kept as it is or the file is rejected). Finite real numbers are written in a form that reads back to the same value, or to that value rounded to 15 significant digits when it carries more decimals than the format keeps.",
 ["inputs"], "all ids (64 bit), all integers (64 bit), all representable timestamps, all finite reals",
 "Tests use small positive integers and short decimals.",
 [S+"parser/real.rs", S+"parser/integer.rs", S+"parser/timestamp.rs", S+"id/plain.rs", S+"values"], [("real formatting", S+"parser/real.rs format_real_primitive"), ("decimal readers", "winnow dec_int / dec_uint / float")],
 ["records carrying the number, parsed and printed"])
prop("P13", "Layout and comments do not change what is read",
 "Spaces, tabs, line breaks and comments around any keyword, separator, bracket or record do not change the records that are read, and never join or split records.",
 ["inputs"], "each gap between tokens of header and data section x symbolic layout text up to the stated length (whitespace, comments with arbitrary contents)",
 "Tests contain one header with one comment and conventional line breaks.",
 [S+"parser/mod.rs", S+"meta/datamap/deserialize.rs", S+"meta/header/deserialize.rs"], [("layout skipping", S+"parser/mod.rs p_space_or_comment_surrounded")],
 ["IFC::from_str(..).to_string() compared with the compact layout"])
prop("P14", "Header information survives loading and saving",
 "The view definitions with their items, file name, time stamp (converted to UTC), authors, organizations, preprocessor, originating system, authorization and schema list read from a header are all written back with the same values in the same places, and the schema is recognised whatever its accepted spelling.",
 ["inputs"], "symbolic contents of every header attribute, list sizes up to the stated bound, all schema spellings, all timestamps in the supported form",
 "Tests compare a few fixed headers, mostly with empty entries.",
 [S+"meta/header"], [("header reader", S+"meta/header/deserialize.rs"), ("header writer", S+"meta/header/serialize.rs")],
 ["IFC::from_str(..).header and Display"])
prop("P15", "Lists keep their elements, number and order",
 "Lists of references, points, reals or texts keep every element, in order, however long they are, and omitted ($), inherited (*) and given attributes are never confused with one another.",
 ["inputs"], "list lengths from 0 up to the stated bound in every list attribute with symbolic elements; all three forms in every optional attribute",
 "Samples have lists of one to four elements.",
 [S+"parser/list.rs", S+"parser/optional.rs"], [("list reader/writer", S+"parser/list.rs"), ("optional attribute", S+"parser/optional.rs")],
 ["records with list or optional attributes, parsed and printed"])
prop("P16", "A record's keyword alone decides its kind",
 "A well-formed record is stored as the kind its keyword names and as nothing else, however similar other keywords are; a record with an unknown keyword or with attributes that do not fit its keyword is kept as an opaque record, never as a different kind and never dropped.",
 ["inputs"], "every supported keyword, every keyword differing from one in a symbolic character or suffix, and records with missing or surplus attributes",
 "Tests parse records through the parser of the expected kind, so the choice among kinds is barely exercised.",
 [S+"objects/mod.rs", S+"geometry/mod.rs", S+"relations/mod.rs", S+"units/mod.rs", S+"materials/mod.rs", S+"properties/mod.rs"], [("ordered alternatives", "alt((..::parse_any()..)) in the mod.rs files")],
 ["DataMap::find_all_of_type after IFC::from_str"])
prop("P17", "Setting an attribute changes that attribute and nothing else",
 "Each constructor and fluent setter puts the given value into the attribute it is named after, leaves every other attribute of the object unchanged, and, when given an object instead of an id, stores that object as a new record and refers to it; setters of lists append in order. (By design, setting the owning user or application of an owner history also records it as the last modifying one.)",
 ["inputs", "histories"], "every setter of every record kind with symbolic values, from default and from fully set objects",
 "Tests use a few setters and look only at the attributes they expect.",
 [S+"objects", S+"materials", S+"geometry", S+"units", S+"relations", S+"properties"], [("fluent setters", "*Builder traits and impls in objects/shared and per record")],
 ["printed record before and after the setter"])
prop("P18", "Built geometry has the requested dimensions and position",
 "Walls, slabs, roofs, windows, openings, shading devices and spaces built from parameters carry exactly the requested height, length, thickness (the sum of the material layers), outline and placement, relative to the parent they were created on.",
 ["inputs"], "symbolic dimensions and coordinates, up to the stated number of material layers and outline points, every builder entry point",
 "Tests use fixed dimensions and check only that the output parses.",
 [S+"ifc_builder/walls.rs", S+"ifc_builder/slabs.rs", S+"ifc_builder/roofs.rs", S+"ifc_builder/windows.rs", S+"ifc_builder/openings.rs", S+"ifc_builder/spaces.rs", S+"ifc_builder/shading_devices.rs", S+"ifc_builder/materials.rs"], [("shape construction", S+"ifc_builder/*.rs"), ("layer thickness", S+"ifc_builder/materials.rs calculate_material_layer_set_thickness")],
 ["records of the built model"])
prop("P19", "Transforming an element wraps its shape and touches nothing else",
 "Applying a transform keeps the element's original representations, each reachable through one mapped item, in order and with identifier and context kept, and attaches exactly the given translation and axes to each; openings and windows attached to the element move along with it (their mapping origin is their own local placement, which the translation is taken relative to); other elements and their shapes stay unchanged.",
 ["inputs", "histories"], "symbolic transforms, one to several representations, repeated transforms, several elements",
 "Tests apply one fixed transform and check only that the output parses.",
 [S+"ifc_builder/transforms.rs", S+"relations/mapped_item.rs", S+"relations/representation_map.rs"], [("mapped representation", S+"ifc_builder/transforms.rs")],
 ["records of the built model"])
prop("P20", "Resolving an object's references yields the referenced records",
 "The views that resolve the references of an axis, a profile, a solid, a mapped item, a transform, a polyline, a product's shapes, a representation's items or a context's parent return exactly the records named by the corresponding attributes, attribute by attribute, in list order, and report an omitted attribute as absent.",
 ["inputs"], "records with symbolic reference ids into models with several candidates of each kind, each optional attribute given or omitted",
 "Tests print such views for a fixed file without checking them.",
 [S+"geometry", S+"relations", S+"objects/shared"], [("mappings()", "IfcMappedType impls"), ("shapes(), items()", S+"objects/shared/product.rs, "+S+"geometry/shape_representation/mod.rs")],
 ["IfcMappedType::mappings and related accessors"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
