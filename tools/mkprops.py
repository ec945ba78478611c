import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None,
      **({"state":[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}))))
p("C01","Encryption and decryption are exact inverses in Sketchware's cipher format",
 "Decrypting what was encrypted gives back exactly the original bytes, for every byte string including the empty one. The ciphertext is AES-128 in CBC mode with PKCS#7 padding under Sketchware's fixed key and IV, so its length is always the smallest multiple of 16 greater than the plaintext length. The file-based variants and loading a whole encrypted project give the same bytes as the in-memory functions, write only the requested output file, and keep each of the six data files in its own slot.",
 ["inputs"],"every plaintext (bytes and length), every set of six data files",
 "No test touches the crypto functions at all; even a test could only sample a few lengths and contents.",
 ["src/lib.rs","src/parser/mod.rs"],
 [("encrypt_sw / decrypt_sw_encrypted","src/lib.rs"),("file variants","src/lib.rs"),("RawSketchwareProject::from_encrypted*","src/parser/mod.rs")],
 ["encrypt_sw","decrypt_sw_encrypted","decrypt_sw_file","encrypt_sw_file","encrypt_sw_file_to_file","RawSketchwareProject::from_encrypted","RawSketchwareProject::from_encrypted_wo_res"])
p("C02","Damaged encrypted input yields an error, never a crash or bogus data",
 "Decrypting an arbitrary byte string never panics. Input whose length is not a positive multiple of the block size, or whose padding is invalid, or (when loading a project) whose plaintext is not UTF-8, is reported as an error; any other input yields its unpadded plaintext.",
 ["inputs"],"every ciphertext byte string and length",
 "Malformed ciphertexts are an unbounded space and no test feeds any.",
 ["src/lib.rs","src/parser/mod.rs"],[("decrypt_sw_encrypted error mapping","src/lib.rs"),("from_encrypted UTF-8 check","src/parser/mod.rs")],
 ["decrypt_sw_encrypted","RawSketchwareProject::from_encrypted"])
p("C03","Parsing any text returns a result and never crashes or hangs",
 "For every input text, well formed or not, each public text parser (the six data files, every single record and pool parser, block headers, block specs and arguments, colour hex strings, dates inside a project record) terminates and returns either a value or an error. It never panics, overflows an index or loops.",
 ["inputs"],"every UTF-8 input text to every public parser",
 "The tests only parse well-formed samples; crashes hide in truncated headers, empty tokens, multi-byte characters and short dates.",
 ["src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/project.rs","src/parser/serde_util.rs","src/api/block.rs","src/color.rs"],
 [("header slicing","src/parser/logic.rs Logic::parse"),("date slicing","src/parser/serde_util.rs date_to_timestamp"),("spec token slicing","src/api/block.rs BlockContent::parse*")],
 ["Parsable::parse of every type","BlockContent::parse","BlockContent::parse_wo_params","BlockContent::apply_args","Color::parse_hex"])
p("C04","The logic file survives a write/read round trip unchanged",
 "Writing a logic model to text and parsing it back gives an equal model: every screen, variable, list variable, component, event, more-block declaration and block container with every block, in the same order within its pool, including pools that are empty or absent. The sections of a logic file are read the same in whatever order they come. Canonical logic text is reproduced byte for byte by parsing and writing it.",
 ["inputs"],"every logic model whose names contain no newline or '.java_' (and no ':' in more-block ids), whose screens each have at least one pool or container, and whose containers do not bear a pool's name; any number of screens/pools/containers, any field values",
 "The tests write back one fixed sample; interactions of empty pools, several screens and containers are combinatorial.",
 ["src/parser/logic.rs"],[("Logic::reconstruct stitching","src/parser/logic.rs"),("Logic::parse section dispatch","src/parser/logic.rs"),("pool/record parse and reconstruct","src/parser/logic.rs")],
 ["Logic::parse","Logic::reconstruct","pool parse/reconstruct"])
p("C05","The view file survives a write/read round trip unchanged",
 "Writing a view model to text and parsing it back gives an equal model: every layout with all its views and every floating action button, in the same order and with every view field intact, for any number of layouts and buttons, including empty layouts. The sections of a view file are read the same in whatever order they come. Canonical view text is reproduced byte for byte.",
 ["inputs"],"every view model whose layout names contain no newline or '.', any number of layouts, views and FABs, any field values",
 "The only round-trip sample has one layout and one FAB; every multi-layout project is outside it.",
 ["src/parser/view.rs"],[("View::reconstruct separators","src/parser/view.rs"),("View::parse header loop, Layout::parse_iter","src/parser/view.rs"),("AndroidView serde model","src/parser/view.rs models")],
 ["View::parse","View::reconstruct","Layout::parse","Layout::reconstruct","AndroidView::parse","AndroidView::reconstruct"])
p("C06","The file, library and resource lists survive a write/read round trip",
 "Writing a file list, a library list or a resource list to text and parsing it back gives an equal model, with every entry in its own section and in the same order, including empty sections, and whatever the order of the sections in the text. Canonical text of each of the three is reproduced byte for byte.",
 ["inputs"],"every file, library and resource model, any section sizes, any field values",
 "Tests cover one sample per file with all sections filled; empty sections and unusual strings are not reached.",
 ["src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs"],
 [("File::parse/reconstruct","src/parser/file.rs"),("Library::parse/reconstruct","src/parser/library.rs"),("Resource::parse/reconstruct","src/parser/resource.rs")],
 ["File","Library","Resource parse/reconstruct"])
p("C07","Project metadata survives a write/read round trip, dates included",
 "Writing a project record to text and parsing it back gives an equal record: ids and version codes, names, all five colours, flags, and the creation time to the second for every date with a four-digit year. Text that is not a real calendar date or not a number is rejected with an error, and canonical project text is reproduced byte for byte.",
 ["inputs"],"every project record with a creation date in years 0000-9999",
 "No test touches the project file; date formatting depends on every digit position and calendar rule.",
 ["src/parser/project.rs","src/parser/serde_util.rs"],[("date_to_timestamp","src/parser/serde_util.rs"),("string_to_u16","src/parser/serde_util.rs"),("Project serde model","src/parser/project.rs")],
 ["Project::parse","Project::reconstruct"])
p("C08","Coded values in data files decode to their meaning and re-encode identically",
 "Every coded value in the data files (activity option flags, keyboard, orientation, theme, file type, variable types, sizes, gravity, choice/spinner/text/input/IME modes, image scale types, numeric and textual booleans, signed 32-bit colours) decodes to its documented meaning, and writing that meaning yields the same code again. Codes outside the defined set of an enumeration are rejected with an error rather than mapped to something else. Colour components taken from a colour and put back give the same colour.",
 ["inputs"],"every code value of every coded field (full width of the field)",
 "Tests sample a handful of codes; a swapped or dropped code elsewhere passes them all.",
 ["src/color.rs","src/parser/file.rs","src/parser/view.rs","src/parser/serde_util.rs","src/parser/logic.rs"],
 [("ActivityOptions::from_num/as_num","src/parser/file.rs"),("serde_repr enums","src/parser/file.rs, src/parser/view.rs"),("Color","src/color.rs"),("Size, Gravity","src/parser/view.rs"),("bool_to_one_zero, bool_to_str","src/parser/serde_util.rs")],
 ["FileItem","AndroidView","Variable","Color","ActivityOptions","Gravity"])
p("C09","Block programs survive conversion to the flat form and back",
 "Converting a tree of blocks to Sketchware's flat block list and back gives an equal tree: same blocks in the same order, same opcodes, colours, types and texts, every argument (literal or nested block) in its position and both nested stacks intact, at any nesting. In the flat list every block has its own id and every link (next, nested stack, argument reference) points at the block it stands for.",
 ["inputs","programs"],"every block tree (any shape and nesting of arguments and stacks) whose literals are representable in the flat form",
 "The one test only prints the result (its equality assertion is commented out); tree shapes are unbounded.",
 ["src/api/block.rs"],[("Blocks -> BlockContainer (id assignment, links)","src/api/block.rs to_block_container"),("BlockContainer -> Blocks","src/api/block.rs TryFrom")],
 ["Blocks::try_from(BlockContainer)","Into<BlockContainer> for Blocks"])
p("C10","Flat block lists are read exactly as linked, and broken links are errors",
 "Reading a flat block list starts at its first block and follows next, nested-stack and argument links exactly as written, whatever the ids and whatever order the blocks are listed in. A link to a missing block, a block reached twice (including any cycle), a non-numeric id, an unknown block type, or too few or malformed arguments is reported as an error; reading never panics and always terminates.",
 ["inputs","programs"],"every flat block list (ids, links, order, parameters), well formed or not",
 "Link graphs are combinatorial; the test has one fixed well-formed list and checks nothing about it.",
 ["src/api/block.rs"],[("parse_block/parse_blocks consuming id map","src/api/block.rs"),("BlockConversionError","src/api/block.rs")],
 ["Blocks::try_from(BlockContainer)"])
p("C11","Block specs and arguments are parsed, bound and printed faithfully",
 "Parsing a block spec splits it into texts and typed, optionally named parameters, and printing it gives the same spec text again. Arguments are bound to parameters strictly left to right with each value typed by its parameter ('@id' being a block reference); binding while parsing and binding afterwards agree, and too few arguments or an ill-typed one is an error. Putting blocks in for references asks for each reference once, by its id, from left to right, and changes nothing else (a true or false block in a boolean parameter becomes that value); a block that is not there is an error naming its id.",
 ["inputs"],"every spec made of space-separated texts and parameters %s/%b/%d[.name], %m.name, and every argument list",
 "Tests never inspect parsed specs; token and argument combinations are unbounded.",
 ["src/api/block.rs"],[("BlockContent::parse, parse_wo_params, apply_args, apply_blocks, take_args, to_string","src/api/block.rs")],
 ["BlockContent"])
p("C12","View trees survive flattening and rebuilding",
 "Flattening a view tree to Sketchware's flat layout list and rebuilding it gives the same tree: every view once, same parents, same sibling order, same properties. In the flat list every child names its parent's id and its parent's type, top-level views name the root, and parents always come before their children; rebuilding reports a missing or unknown parent as an error. Looking a view up by id finds it exactly when it is in the tree, at any depth.",
 ["inputs","programs"],"every view tree with distinct ids (none of them 'root'), any shape; every flat list for the error part",
 "No test covers the API view layer at all; tree shapes are unbounded.",
 ["src/api/view.rs"],[("flatten_views","src/api/view.rs"),("parse_raw_layout, find_id_mut","src/api/view.rs")],
 ["flatten_views","parse_raw_layout","View::find_id"])
p("C13","Typed view properties reflect the data file and edits reach the output",
 "A typed view exposes exactly the fields of the underlying record for its type code, and writing an unmodified view gives back the original record (apart from its parent link). Every edit of an exposed property, including changing the view's type, appears in the written record, while every field that is not exposed, and the type code of unrecognised views, is carried over unchanged.",
 ["inputs"],"every view record (all type codes and field values) and every edit of the exposed properties",
 "No test covers the API view layer; 18 view kinds times their fields.",
 ["src/api/view.rs"],[("ViewType::from_view / get_type_id / apply_values_to_view","src/api/view.rs"),("From<AndroidView> for View, flatten_views","src/api/view.rs")],
 ["View","ViewType","flatten_views"])
p("C14","Code tables of the editing API are mutually inverse",
 "Component kinds, event kinds, block type codes, block categories (colours) and view kinds map one-to-one onto the codes used in the data files: reading a code and writing it back gives the same code, type name and parameters, distinct kinds never share a code, and a code without a meaning is an error.",
 ["inputs"],"every code value (all 256 numeric codes, every type string, every colour)",
 "No test covers these tables beyond a few block types that are only printed.",
 ["src/api/component.rs","src/api/screen.rs","src/api/block.rs","src/api/view.rs"],
 [("ComponentKind::from_parser_component/into_parser_component","src/api/component.rs"),("EventType","src/api/screen.rs"),("BlockType, BlockCategory","src/api/block.rs"),("ViewType::from_view/get_type_id","src/api/view.rs")],
 ["ComponentKind","EventType","BlockType","BlockCategory","ViewType"])
p("C15","Screens keep their variables, components, events and code through the API",
 "Converting a screen's logic to the editing API and back keeps every variable, list variable, component, event and more-block, in order, with each event's and more-block's code attached to the right owner. The screen-creation code is available as an onCreate event exactly when the screen has such code, and is written back as code only, never as a listed event.",
 ["inputs"],"every screen logic whose block containers all belong to a declared event, a more-block or onCreate",
 "No test converts a screen; ownership by composed names and the onCreate special case are only reachable with varied names.",
 ["src/api/screen.rs","src/api/mod.rs"],[("Screen::from_parsed","src/api/screen.rs"),("to_screen_logic","src/api/mod.rs"),("Event::get_block_container_id","src/api/screen.rs")],
 ["Screen::from_parsed","From<api::SketchwareProject> for parser::SketchwareProject"])
p("C16","A whole project survives the trip through the editing API",
 "Converting a parsed project to the editing API and back keeps metadata, colours, screens, custom views, enabled libraries, resources and resource files, and an editing-API project written to the six data files and read again equals the original. Each screen gets the layout, logic and floating action button that belong to its own name, including screens that had no logic or layout yet.",
 ["inputs","configurations"],"every consistent project (any screens, custom views, library switches, resources, with or without resource files)",
 "No test builds a whole project; cross-file matching by name and optional parts are combinatorial.",
 ["src/api/mod.rs","src/parser/mod.rs"],[("TryFrom<ParsedSketchwareProject>","src/api/mod.rs"),("From<SketchwareProject> for ParsedSketchwareProject","src/api/mod.rs"),("view_name_to_logic","src/api/mod.rs"),("parse_from / TryInto<RawSketchwareProject>","src/parser/mod.rs")],
 ["api::SketchwareProject","parser::SketchwareProject","RawSketchwareProject"])
p("C17","The resource registry never loses, overwrites or misfiles a resource",
 "After any sequence of adding, removing and looking up resources, each id refers to at most one resource and lookups return exactly what was last stored under that id with its type; adding under a taken id fails and changes nothing, whatever type the existing resource has. Resource files are assigned to images, sounds, fonts or the custom icon by their declared type or folder, and a listed resource without a matching file, a nonexistent file or a file in an unknown folder is an error.",
 ["inputs","histories"],"every history of registry operations; every list of resource files and file-existence outcome",
 "No test touches resources; histories and id collisions across types are combinatorial.",
 ["src/api/mod.rs","src/parser/mod.rs"],[("Resources::put_resource/get_resource/remove_resource","src/api/mod.rs"),("TryFrom<Vec<ResourceFileWrapper>> for ResourceFiles","src/parser/mod.rs")],
 ["Resources","ResourceFiles"])
p("C18","Inconsistent or malformed projects are rejected, not silently altered",
 "Converting a project to the editing API fails with an error when a custom view has no layout, an optional library's enabled flag is neither Y nor N, a component or event has an unknown type, a more-block spec or event code cannot be read, or a view names an unknown parent. Parsing a data file fails with an error when a record of a section is malformed, a required library section is missing or cut off, or a section header of the logic, view, file or resource file cannot be understood. In these cases nothing is dropped or replaced by a default.",
 ["inputs","configurations"],"every project containing at least one such inconsistency, at any position",
 "Tests contain no malformed input at all.",
 ["src/api/mod.rs","src/api/screen.rs","src/parser/*.rs"],[("error variants of every parse/conversion","src/api/mod.rs, src/api/screen.rs, src/parser")],
 ["TryFrom<parser::SketchwareProject>","Parsable::parse"])
p("C19","Loading a raw project reads each of the six data files into its own part",
 "Whatever the way of loading (parse_from, parse, parse_wo_res), a raw project loads exactly when each of its six data files can be read alone and its resource files are usable, and each part of the loaded project is exactly what its own data file says alone. Otherwise the error names a data file that cannot be read, or the resource files if all data files can. Writing a loaded project gives, per data file, exactly what writing that part alone gives, keeps the resource files (or their absence), and names the part that cannot be written.",
 ["inputs","faults"],"every six texts, readable or not in any combination, every list of resource files or none",
 "No test loads a whole project; mixed-up slots and misattributed faults only show with six different files and faults in each.",
 ["src/parser/mod.rs"],[("SketchwareProject::parse_from / parse / parse_wo_res","src/parser/mod.rs"),("TryInto<RawSketchwareProject>","src/parser/mod.rs"),("SketchwareProjectParseError","src/parser/mod.rs")],
 ["parser::SketchwareProject","RawSketchwareProject::new","RawSketchwareProject::new_wo_res","SketchwareProjectParseError","SketchwareProjectReconstructionError"])
p("C20","Whatever a parser accepts can be written, and says the same when read again",
 "For every text a data-file or record parser accepts, canonical or not (any spacing, key order, number spelling, escapes, section order, repeated or cut sections), the resulting model can be written without error, and reading the written text gives an equal model (for the logic file, apart from the order of screens); writing that again gives the same text. In particular accepting a text never yields a model that the crate cannot itself represent.",
 ["inputs"],"every text accepted by a parser",
 "The tests only use canonical samples; what lenient parsing accepts beyond them is unbounded.",
 ["src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/parser/project.rs","src/parser/serde_util.rs"],
 [("Parsable::parse / reconstruct of every type","src/parser"),("date_to_timestamp","src/parser/serde_util.rs")],["Parsable::parse","Parsable::reconstruct"])
p("C21","An error points at the part that is at fault",
 "When reading a data file or converting a project fails, the error says where. Data files: the kind of section, the screen or container, the header or resource section, the index of the bad record within its section, or its line in the file (counted from 0 in the file, resource and library lists and for logic section headers, from 1 in the view file), and, where the error carries a text or a view, the text of that very record and the view before it. Conversion: the screen (layout and class name) or custom view; the container or more-block; the component or event with its type; the view and the parent it names; the block, nested stack, missing block, bad id, block type, unknown spec word or bad value; the library and its flag; the resource, its full name and type; the path; the taken id, also in the message. Writing: the layout and view, or the button, that cannot be written. Faults inside the block of an argument are outside this claim: they are reported as that block missing.",
 ["inputs","faults"],"every single fault, at every place in a file or project",
 "The tests contain no error at all; whether a position is right depends on everything before it in the file.",
 ["src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/api/block.rs","src/api/screen.rs","src/api/mod.rs","src/api/view.rs"],
 [("Logic::parse line counting","src/parser/logic.rs"),("Library::parse line counting","src/parser/library.rs"),("View::parse / LayoutParseError","src/parser/view.rs"),("BlockConversionError","src/api/block.rs"),("ScreenConstructionError","src/api/screen.rs"),("APISketchwareProjectConversionError, ResourceAdditionError","src/api/mod.rs")],
 ["LogicParseError","ViewParseError","FileParseError","LibraryParseError","ResourceParseError","BlockConversionError","APISketchwareProjectConversionError","ResourceAdditionError","ResourceFilesParseError","ViewReconstructionError"])
p("C22","An edit through the editing API changes exactly what was edited",
 "Open a project in the editing API, change one thing (a setting, colour, library or its texts, resource, icon, screen setting, view or its place in the tree, button, variable, list variable, component, event, more-block, block, argument or nested stack, screen or custom view: set, added, removed, renamed or moved) and convert it back: the resulting model differs from the one without the edit in the records that say the edited thing, which say exactly the new state, and in nothing else; all other records keep their content and order, code moves with its event or more-block, and what was removed takes its own records with it. Data files that the edit does not concern are written as the same text, and reading the written project gives the edited project.",
 ["inputs","histories"],"every single edit of a project that uses every part, at every place, with every value",
 "No test edits anything; stale copies (view.raw, id keys next to ids, code keys derived from names) only show when an edit is written back and compared with everything around it.",
 ["src/api/mod.rs","src/api/screen.rs","src/api/view.rs","src/api/block.rs","src/api/component.rs","src/api/library.rs"],
 [("From<api::SketchwareProject> for parser::SketchwareProject","src/api/mod.rs"),("Screen::into_parser_data","src/api/screen.rs"),("View::into_android_view / flatten","src/api/view.rs"),("Blocks to BlockContainer, BlockContent::get_args_mut","src/api/block.rs"),("Resources::put_resource/remove_resource","src/api/mod.rs")],
 ["api::SketchwareProject","From<api::SketchwareProject> for parser::SketchwareProject","TryInto<RawSketchwareProject>"])
p("C23","A project built from scratch or loaded from encrypted files is the same after writing, encrypting and loading it again",
 "A project put together with the editing API (its constructors, builders and empty values, or parts of a loaded project), written to the six data files, encrypted, loaded with the encrypted loader, read and converted again equals the project that was put together (an empty nested stack counting as none): settings, colours, libraries, screens with their layout, button, variables, components, events, more-blocks and code, custom views, resources with their files and the icon. The encrypted loader gives exactly the six texts that were encrypted, each in its own place, and keeps the resource files. Constructors and builders give exactly the values they were handed and documented defaults for the rest: blocks and nests, contents and arguments, components by number of parameters, colours, empty views, screens, resources and code, random resource ids.",
 ["inputs","histories"],"every project the constructors can build within the bounds, and every edit of one, through any number of write/encrypt/load rounds",
 "No test builds a project or runs the whole pipeline; a wrong slot, default or nest only shows when everything is put together and comes back.",
 ["src/api/mod.rs","src/api/block.rs","src/api/screen.rs","src/api/view.rs","src/parser/mod.rs","src/parser/logic.rs","src/parser/view.rs","src/color.rs","src/lib.rs"],
 [("RawSketchwareProject::from_encrypted / from_encrypted_wo_res","src/parser/mod.rs"),("api::SketchwareProject::new","src/api/mod.rs"),("Block::new / new_1substack / new_2substack, BlockContent::builder","src/api/block.rs"),("Component::new_*","src/parser/logic.rs"),("AndroidView::new_empty","src/parser/view.rs"),("ResourceFileWrapper::make_random_id","src/parser/mod.rs"),("Color::from_argb, from_rgb","src/color.rs")],
 ["api::SketchwareProject::new","RawSketchwareProject::from_encrypted","Block::new","BlockContentBuilder","Component::new_1param","Color::from_argb"])
p("C24","An error that is shown names what is at fault",
 "Shown together with its chain of causes (as an application prints it), every error the library returns has a finite chain of non-empty messages that together name what is at fault: the data file of a project (on reading and on writing), the section or record kind, the screen, container, custom view, library or resource, the line or the record's number, the rejected text, type, id or value, and the file that is missing; an error that wraps another one (the JSON reader's or writer's, the cipher's, an I/O failure, a nested code or layout failure) keeps that error in its chain of causes, through any number of nested stacks.",
 ["inputs"],"every name, number, id, type and rejected text within the bounds, for every kind of error, built directly and produced by real failures",
 "The tests format no error; a message that names another field, or a cause that is dropped, is only noticed by the user who has to find the broken line.",
 ["src/parser/mod.rs","src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/api/mod.rs","src/api/block.rs","src/api/screen.rs","src/api/view.rs","src/api/component.rs","src/lib.rs"],
 [("the error types' messages and sources","src/parser/mod.rs"),("LogicParseError, *PoolParseError, LogicReconstructionError","src/parser/logic.rs"),("ViewParseError, LayoutParseError","src/parser/view.rs"),("APISketchwareProjectConversionError","src/api/mod.rs"),("BlockConversionError, BlockContentParseError","src/api/block.rs"),("CryptoError","src/lib.rs")],
 ["Display and Error::source of SketchwareProjectParseError, SketchwareProjectReconstructionError, APISketchwareProjectConversionError, BlockConversionError, CryptoError and the errors they wrap"])
p("C25","A section or record means the same alone as within its file",
 "Each section of a logic or view file (variable, list, component, event and more-block pools, block containers, layouts) read alone by its own parser, from text or from a sequence of lines, gives what the file's parser finds in that section, and is refused alone exactly when the file holding it is refused because of it; reading from lines takes the lines up to and including the first empty one and no more. Each record of a list is what the record's own parser reads alone, and a list is readable exactly when all its records are. The written text of a file holds each section and record as it is written alone, whatever stands around it.",
 ["inputs"],"every section text without empty lines, every record text without a line break, readable or not, alone and among other sections",
 "The tests read parts and files from different samples; that a file's parser and the part's public parser agree on every text, malformed ones included, is never compared.",
 ["src/parser/logic.rs","src/parser/view.rs","src/parser/file.rs","src/parser/library.rs","src/parser/resource.rs","src/util.rs"],
 [("*Pool::parse_iter, BlockContainer::parse_iter","src/parser/logic.rs"),("Layout::parse_iter","src/parser/view.rs"),("File, Library and Resource record loops","src/parser/file.rs")],
 ["VariablePool::parse_iter and the other pools'","Layout::parse_iter","Logic::parse","View::parse","record parse/reconstruct"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
