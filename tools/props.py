prop('C01', 'Tag files store every structure exactly as its definition lays it out',
     'Every structure is read from and written to a tag file with each of its persistent fields at the offset, with the type and in the byte order of its definition, and every such field is both read and written. '
     'The value found at a field\'s place reaches that field and no other, and the reported structure size is the defined one.',
     ['inputs'], 'every structure and field of every tag group, for every stored value',
     'Tests decode a handful of structures from one sample tag; about 480 structures with 2,800 fields exist and any one of them can be off by one field without a test noticing.',
     [CG, JS, PRM + '/parse.rs'], [('generated readers and writers', CG), ('definition loader', 'src/ringhopper-definitions/src/types/parse.rs'), ('simple value adaptor', PRM + '/parse.rs')],
     ['bytes of a saved tag file', 'fields of a loaded tag'],
     'abstract evaluation of the generated MIR bodies against an independent model of the definitions', TRUST)

prop('C02', 'Cache files are read with every field at its defined place',
     'Reading a structure out of a cache file takes every field that exists in caches from its defined distance to the structure\'s address, in the same domain of the same map, with its defined type and in little-endian order, and stores it in that field. '
     'Fields that caches store minus one are restored to the defined value for every stored number.',
     ['inputs'], 'every structure and field present in cache files, for every address and stored value',
     'No test reads a structure from a cache file at all.',
     [CG, JS, PRM + '/parse.rs'], [('generated cache readers', CG), ('simple value adaptor', PRM + '/parse.rs')], ['fields of a tag extracted from a cache'],
     'abstract evaluation of the generated MIR bodies against an independent model of the definitions', TRUST)

prop('C03', 'Cache-only data stays out of tag files and tag-only data out of caches',
     'A field or flag that exists only in caches is never taken from, nor written with content into, a tag file: reading gives its default, and it is stored as the empty value. '
     'A field or flag that exists only in tag files is never taken from a cache.',
     ['inputs'], 'every cache-only or tag-only field and flag, for every stored value',
     'The tests never put anything into a cache-only field of a tag file and look at what comes back.',
     [CG, JS], [('generated readers and writers', CG)], ['bytes of a saved tag file', 'fields of a loaded tag'],
     'abstract evaluation of the generated MIR bodies against an independent model of the definitions', TRUST)

prop('C04', 'Every primitive value is stored in its published form and survives a rewrite',
     'Each primitive value (numbers, vectors, colours, planes, matrices, angles, references, headers, fixed strings, padding, bounds, arrays) occupies exactly the bytes, offsets and bit positions the file format gives it, in whichever byte order is asked for. '
     'Its reported stored size equals the bytes it occupies, and writing a value that was read emits exactly the bytes that were read, each byte once.',
     ['inputs'], 'every primitive type, byte order and stored bit pattern',
     'Tests cover strings, data blobs and a few vectors with sample values, mostly in one byte order.',
     [PRM + '/parse.rs', PRM + '/primitive.rs', PRM + '/primitive/data.rs', PRM + '/primitive/vector.rs', PRM + '/primitive/color.rs', PRM + '/primitive/plane.rs', PRM + '/primitive/string.rs', PRM + '/tag.rs'],
     [('leaf codecs', PRM + '/parse.rs'), ('composite codecs', PRM + '/primitive')], ['bytes of a saved tag file'],
     'symbolic-free abstract evaluation of codec bodies (byte and bit provenance) against a frozen format table', TRUST + ' Widening of 32-bit floats to 64 bits and back is taken as value preserving; converting an unknown text encoding is outside.')

prop('C05', 'Enum numbers and flag bits map one-to-one onto their definitions',
     'Every enumerator is stored as, and read from, its defined number, and converts to and from its defined name; every flag is stored in and read from exactly its defined bit, and bits of no persistent flag are written as zero. '
     'A number that no enumerator has is never turned into one when converting numbers.',
     ['inputs'], 'every enumerator and flag of every enum and flag set, for every stored number',
     'No test enumerates the 1,400 enumerators or 600 flags.',
     [CG, JS, PRM + '/dynamic.rs'], [('generated enum and flag codecs', CG)], ['bytes of a saved tag file', 'fields of a loaded tag', 'values accepted and shown by property access'],
     'abstract evaluation with bit-provenance domain against an independent model of the definitions', TRUST)

prop('C12', 'Group names, codes and engines form one consistent table',
     'Every tag group has exactly one four-character code, one name and one definition, and looking a group up by its code or its name finds exactly that group and nothing else for any other text or number. '
     'Parent groups are the defined ones and every chain of parents ends. Every engine is listed once, with its own and inherited properties as its definition gives them, and is found by its name.',
     ['inputs'], 'every group, code, name, engine and every text or number looked up',
     'Tests look up two or three groups; the tables are sorted and searched by binary search, so one misplaced row hides another.',
     ['src/ringhopper-structs/src/lib.rs', PRM + '/tag.rs', PRM + '/primitive/tag_group.rs', 'src/ringhopper-engines/src/lib.rs', CG], [('group table and lookups', PRM), ('engine table', 'src/ringhopper-engines/src')],
     ['which file a tag is loaded from', 'which engine rules apply'],
     'table extraction from compiler-evaluated constants and abstract evaluation of lookups, compared with the JSON definitions', TRUST)

prop('C20', 'Property access by name reaches exactly the named field, flag, value or element',
     'For every structure, the names it lists, the value each name gives for reading and for changing, and the metadata each name reports all belong to the same defined field. '
     'Enumerators set by name become that enumerator. An index beyond the last element gives nothing, and any other index gives the element at it.',
     ['inputs'], 'every structure, field, enumerator, name and index',
     'Tests read a few fields by path; a swapped pair of fields in one of 480 structures, or only in the changing accessor, is invisible to them.',
     [CG, JS, PRM + '/dynamic.rs', PRM + '/primitive.rs'], [('generated dynamic access', CG), ('access to arrays and reflexives', PRM)],
     ['values shown and changed by the property editor'],
     'abstract evaluation of generated accessors for an unknown name or index, guards compared with the definitions', TRUST)

prop('C18', 'Defaulting fills unset fields with their defined defaults and undoing reverts it',
     'Setting the defaults of a tag gives each field that has a defined default, and is empty, exactly that default and leaves every other field alone; unsetting empties exactly the fields at their default. '
     'For groups with special rules (lights, particles, models, shader map scales, lens flares, sounds, objects and so on) both directions follow the rule of the group. Groups with defaults are reported as such.',
     ['inputs'], 'every structure and group with defaults and every value of the fields involved',
     'Tests cover the lens flare rule only; 40 groups with 90 defaulted fields and 12 special rules have none.',
     [RH + '/tag/default.rs', RH + '/tag/default', CG, JS], [('generated defaulting code', CG), ('special rules', RH + '/tag/default'), ('table of rules by group', RH + '/tag/default.rs')],
     ['fields of a tag after setting or unsetting defaults'],
     'abstract interpretation with trace partitioning over comparison atoms, compared with decision tables and JSON definitions', TRUST + ' How the gain of sound permutations propagates between permutations is outside; each iteration of a loop is taken to visit its own element.')

prop('C25', 'Lists, blobs and arrays keep every element, in order, and nothing else',
     'Reading a list from a tag file or cache gives exactly as many elements as its header counts, each from the next element\'s place; writing emits the real count and then every element in order. '
     'Blobs and text of a tag consume and emit exactly their stored length, and the place where following data starts moves by exactly what was consumed.',
     ['inputs'], 'every element count, blob length, element type and nesting',
     'Tests store a few short lists; an element skipped only when lists are nested, or a cursor moved too late, needs particular shapes.',
     [PRM + '/primitive/data.rs', PRM + '/primitive/array.rs', PRM + '/primitive/string.rs', PRM + '/primitive/tag_reference.rs'],
     [('reflexive codec', PRM + '/primitive/data.rs'), ('array codec', PRM + '/primitive/array.rs')], ['bytes of a saved tag file', 'lists and blobs of a loaded tag'],
     'abstract interpretation with loop induction (affine progressions, trip counts, accumulation) over container codecs generic in the element type', TRUST)

prop('C17', 'Base-structure access follows the object hierarchy of the definitions',
     'A group is taken for an object exactly when the object group is among its parents, and asking a tag for its object, unit, item, device, basic object or model part gives that embedded part exactly when the definitions give its group one. '
     'The shared and the changing accessor give the same part.',
     ['inputs'], 'every group and every base part, shared and changing',
     'No test asks more than one group for its base part.',
     [RH + '/tag/object.rs', RH + '/tag/model.rs', JS], [('base accessors', RH + '/tag/object.rs'), ('model accessors', RH + '/tag/model.rs')],
     ['which rules (nudging, verification, extraction) are applied to a tag', 'fields they change'],
     'type-directed abstract evaluation of each accessor on a tag of each group, compared with the JSON definitions', TRUST)

prop('C16', 'Operations on any tag treat a tag of each group as that group',
     'Nudging, bludgeoning, verifying, extracting, recovering and converting never take a tag for a structure of another group, and each has handling of its own exactly for the groups it exists for. '
     'A conversion is offered exactly between the specified groups, gives a tag of the target group and carries over the shared base part.',
     ['inputs'], 'every group and every operation, every pair of groups for conversion',
     'Tests convert no tag and dispatch on two groups; one wrong row of a dispatch table fails only for tags of that group.',
     [RH + '/tag/nudge.rs', RH + '/tag/bludgeon.rs', RH + '/tag/verify.rs', RH + '/map.rs', RH + '/tag/recover.rs', RH + '/tag/convert.rs'],
     [('dispatch by group', RH + '/tag'), ('extraction fix-ups', RH + '/map.rs'), ('conversion table', RH + '/tag/convert.rs')],
     ['result of running an operation on a tag'],
     'type-directed abstract evaluation of each dispatcher on a tag of each group, following closures, function pointers and constant tables', TRUST)

prop('C13', 'Comparing two tags reports exactly the values that differ',
     'Comparing two tags records a difference for a value exactly when the two whole values differ (floats at stored precision), for every kind of value a tag can hold, and never fails on any of them. '
     'Every field of every structure and every common element of every list is compared, and lists of different length are reported; only fields that exist only in caches are left out, and only unless asked for.',
     ['inputs'], 'every kind of value, every pair of tags of one group, both option settings',
     'Tests compare no tags; a kind of value compared in part, or a loop that ends early, shows only on tags that differ there.',
     [RH + '/tag/compare.rs', PRM + '/dynamic.rs', PRM + '/primitive'],
     [('value comparison', RH + '/tag/compare.rs'), ('equality of primitives', PRM + '/primitive')],
     ['differences reported by the compare command'],
     'type-directed abstract evaluation of the comparison dispatcher for each kind of value, judging recorded differences by their branch facts', TRUST)

prop('C09', 'A tag file loads only if header, group, checksum and extent are all right',
     'A tag file is loaded only if its header constants, its group and the version of that group are right, the checksum of everything after the header matches (unless checks are relaxed or the file disables it) and no data is left over; the tag has the structure of that group, and the group of the path it was opened by. '
     'No file is refused for any other reason once its contents parse, and every file saved passes these checks itself.',
     ['inputs'], 'every tag group and every file content',
     'Tests load one valid tag; wrong checksums, groups, versions or leftover data are not tried for any of the 83 groups.',
     [PRM + '/tag.rs', PRM + '/crc32.rs', CG, RH + '/tag/tree.rs'],
     [('header and checksum gate', PRM + '/tag.rs'), ('checksum', PRM + '/crc32.rs'), ('opening by path', RH + '/tag/tree.rs')],
     ['whether a damaged or misnamed tag file is opened', 'whether a saved tag can be opened again'],
     'path-sensitive abstract evaluation of the loader and writer for each group with each condition assumed violated in turn; the checksum step and table are read off its loop', TRUST)

prop('C08', 'Unchecked access never leaves its data and unchecked text is text',
     'Whenever data of a cache file or resource map, or a fixed-length string, is accessed without a bounds check, the range lies within that data, whatever the file says: it was checked against that very data when it was stored. '
     'Bytes taken for text without checking are valid text, and numbers taken to be nonzero without checking are nonzero.',
     ['inputs'], 'every content of a cache file, resource map or string field',
     'Out-of-bounds access behind unsafe code shows only on files with hostile ranges; tests load no map at all.',
     [RH + '/map/gearbox.rs', RH + '/map/xbox.rs', RH + '/map/resource.rs', RH + '/map/util.rs', RH + '/map/extract.rs', RH + '/tag/bitmap.rs', PRM + '/primitive/string.rs'],
     [('stored ranges', RH + '/map'), ('resource lookups', RH + '/map/resource.rs'), ('fixed-length strings', PRM + '/primitive/string.rs')],
     ['memory safety on malformed maps', 'crash or garbage on malformed maps'],
     'ownership analysis of unsafe accesses: each unchecked range is traced to every store of it and proved in bounds there by abstract evaluation and linear arithmetic over the branch facts', TRUST)

prop('C06', 'A damaged map never makes loading it or reading its tags panic',
     'Whatever bytes a map or resource map consists of, parsing its header, opening it, indexing its resource maps and reading a tag of it ends in a value or an error: no overflow, index, slice, unwrap or unreachable code panics, and no memory is reserved for a number of things before the map is found to hold them. '
     'Steps that rely on the map having been checked as a whole (placing BSP tags by ID, patching up Custom Edition sounds, fetching checksummed regions) are judged elsewhere, not here.',
     ['inputs'], 'every content of a map or resource map',
     'Tests load no map at all; each panic needs a file damaged in one specific field.',
     [RH + '/map', CG, PRM + '/primitive', PRM + '/map.rs'],
     [('header parsing', RH + '/map/header.rs'), ('map loading', RH + '/map/util.rs'), ('resource maps', RH + '/map/resource.rs'), ('map readers of every structure', CG)],
     ['crash on a damaged map instead of an error', 'memory exhaustion by a small map'],
     'abstract evaluation of every reader and loader with linear arithmetic: each overflow, index, unwrap, allocation and unreachable arm must be proved impossible from the branches leading to it', TRUST)

prop('C07', 'A damaged tag file never makes reading it panic',
     'Whatever bytes a tag file consists of, loading it as a tag of any group ends in a tag or an error: no overflow, index, slice, unwrap or unreachable code panics on the way, for any field of any structure. '
     'No memory is reserved for a number of elements before the file is found to hold them.',
     ['inputs'], 'every content of a tag file of every group',
     'Tests read one small valid tag; each panic needs a file damaged in one specific field.',
     [PRM + '/tag.rs', PRM + '/parse.rs', PRM + '/primitive', CG],
     [('loader', PRM + '/tag.rs'), ('readers of primitive values', PRM + '/primitive'), ('readers of every structure', CG)],
     ['crash on a damaged tag instead of an error', 'memory exhaustion by a small tag'],
     'abstract evaluation of every reader with linear arithmetic: each overflow, index, unwrap, allocation and unreachable arm must be proved impossible from the branches leading to it', TRUST)

prop('C10', 'A cache file opens only if consistent, and holds what the file says',
     'A cache file opens only with a valid header of an engine whose cache version and build it names (or an earlier build it stands for, or the default of the version if no build is enforced), tag data and tag array in bounds, every tag at its own index with a valid path of its own, exactly one scenario, data for every BSP tag, external tags that the engine allows and the resource maps given agree on, model and vertex data in bounds and, if strict and not disabled, the right checksum over its regions. '
     'What is then kept (tags, IDs, addresses, base address, BSP, model, vertex and tag data ranges, resource maps, checksums) is what the file says at its specified place.',
     ['inputs'], 'every content of a cache file of every engine',
     'Tests load no cache file; each condition is one field of a large file, and skipping it still opens every good map.',
     [RH + '/map/util.rs', RH + '/map/header.rs', RH + '/map/gearbox.rs', RH + '/map/xbox.rs'],
     [('engine matching', RH + '/map/header.rs'), ('tag array, scenario and BSPs', RH + '/map/util.rs'), ('external tags, model data, checksum', RH + '/map/gearbox.rs'), ('Xbox maps', RH + '/map/xbox.rs')],
     ['whether a protected or damaged map opens', 'which tags a map lists and where their data is taken from'],
     'abstract evaluation of each step with every condition assumed violated in turn (no violation may lead to success) and comparison of the stored terms with the specified fields', TRUST)

prop('C11', 'Lookups in an open map give the data and tags the map has there',
     'In an open map, each domain is the specified part of the specified file at its base address, present exactly where the map has it, and data or text at an address is exactly the bytes at that address of that domain (of the tag data, for an address outside a BSP), or nothing if not all of it is there. '
     'A tag looked up by ID, path, reference or index is that very tag, a resource looked up by index or path is that very resource, and a resource map holds one resource per entry with the path and data the entry names.',
     ['inputs'], 'every domain, address, size, ID, path and index, in every map and resource map',
     'Tests load no map; a lookup off by its base, in the wrong domain or with a skipped fallback is wrong only for some addresses.',
     [RH + '/map/gearbox.rs', RH + '/map/xbox.rs', RH + '/map/resource.rs', PRM + '/map.rs'],
     [('domains', RH + '/map/gearbox.rs'), ('domains of Xbox maps', RH + '/map/xbox.rs'), ('lookup by address, index, reference', PRM + '/map.rs'), ('resources', RH + '/map/resource.rs')],
     ['data read for a tag of a map', 'whether a tag or resource is found'],
     'abstract evaluation of each lookup for every domain, comparing every outcome with the specified term and requiring that contrary outcomes are impossible', TRUST)

prop('C14', 'A tag path made from text is legal, normalised and relative; nothing else is one',
     'Making a tag path from text succeeds only if every character is allowed and no part of it is reserved, empty or leaves the tags directory, and gives that text in lower case with one kind of separator; references stored in tag files are held to the same rules. '
     'No tag path is built or changed in any other way, and its parts, group, file system form and printed form are made of exactly that text and group. '
     'Splitting a path at its last dot gives the text before it and the group named after it, and equality of references compares paths and groups.',
     ['inputs'], 'every text, every character, every group, every place that builds or changes a tag path',
     'Tests try a few names; a path that escapes the tags directory or differs only in case or separator is one input out of all texts.',
     [PRM + '/primitive/path.rs'],
     [('path construction', PRM + '/primitive/path.rs'), ('references in tag files', PRM + '/primitive/path.rs')],
     ['whether a path is accepted', 'text of the path', 'file written or read for it'],
     'evaluation of the constructor for classes of characters and components over its syntax of conditions, and a search for any other construction or mutation site of a path', TRUST)

prop('C15', 'Tags are found, listed, stored and cached under their own path, where told',
     'A tag is read from the first directory that has it, listed once under its own path and group, and written only to the copy-on-write directory if there is one, otherwise to where it was found or else to the directory told; writing is skipped, and reported so, only if that content is already there. '
     'A caching tree opens each tag once, keeps it under its own path, and saves exactly what it holds when it is told to or when each write demands it. '
     'Trees that wrap others hand on each request unchanged.',
     ['inputs', 'histories'], 'every tag, every combination of directories, copy-on-write, cached and changed state',
     'Tests use one directory and a few files; a wrong directory, a stale cache entry or a skipped write shows only in particular combinations.',
     [RH + '/tag/tree.rs'],
     [('directories', RH + '/tag/tree.rs'), ('caching', RH + '/tag/tree.rs'), ('iteration and filters', RH + '/tag/tree.rs')],
     ['files read and written', 'tags listed', 'whether a write was done'],
     'abstract evaluation of each tree operation under every combination of what it asks about, comparing every read, write, cache entry and handed-on request with the specified one', TRUST)

prop('C21', 'Renaming tags moves exactly those asked for and mends every reference',
     'Renaming moves exactly the tags that pass the filter and whose path has the text to replace (at its start if so asked), each to its path with that text replaced, and is refused before anything is moved if a new path is illegal, exists or is taken twice (if references only are changed: if it does not exist). '
     'If a tag cannot be moved, every tag already moved is moved back and an error is returned; otherwise every reference in any tag of the tree that names an old path names its new path afterwards, once, and no other reference changes. '
     'Each tag is looked at by exactly one thread, changed tags are saved, and tags that could not be opened or saved are reported.',
     ['inputs', 'faults'], 'every tree, text, filter and number of threads; every failing step of moving, opening or saving',
     'Tests rename a few tags that all exist; a lost tag or a stale reference needs a failing move, a read-only field or two renamed tags.',
     [RH + '/tag/dependency.rs'],
     [('renaming', RH + '/tag/dependency.rs'), ('walk through references', RH + '/tag/dependency.rs')],
     ['files after a renaming', 'references of tags after a renaming', 'errors returned'],
     'abstract evaluation of renaming under each answer of the tree and each failure; a pass through a list that can be completed without the required step is a violation', TRUST + ' Moves to paths that differ only in what the file system ignores are outside.')

prop('C22', 'Dependency queries see every reference and every tag needed, and no others',
     'Walking through the references of a tag visits each reference in each field, nested structure and list element once, and nothing else. '
     'The groups a tag can refer to are those of the definitions; the dependencies of a tag, everything a map needs (with the tags its engine requires), and the tags that refer to a tag are exactly those found by following references, and a tag that is missing or cannot be opened is an error unless broken references are allowed. '
     'Changing the group of references changes exactly those of the given group, where the field allows the new one and (if set) the tag exists.',
     ['inputs'], 'every structure, field and list length; every tree of tags, cyclic or broken; every group and engine',
     'Tests build a small tree; a reference missed in one nested list, or a broken tag passed over, shows only for that structure or tree.',
     [RH + '/tag/dependency.rs', PRM + '/tag.rs', CG + '/lib.rs'],
     [('queries', RH + '/tag/dependency.rs'), ('walk through fields', PRM + '/tag.rs'), ('table of groups', CG + '/lib.rs')],
     ['sets of dependencies', 'tags that refer to a tag', 'errors for missing tags'],
     'abstract evaluation of the walks with each kind of field, tag and failure; a pass through a list that can be completed without the required step is a violation; the generated table is compared with the definitions', TRUST)

prop('C23', 'A command works on each matching tag exactly once and reports each result',
     'A command given a path works on exactly that tag, and given a filter works on each tag that passes it exactly once, whether with one job or with several, and ends only when all of that work is done. '
     'Each piece of work is counted once in total and under its own result, a failure is always told, and working on no tag at all is an error. '
     'The result of writing a tag counts as done if it was written, as skipped if it was not, and as failed if it was an error.',
     ['inputs', 'schedules'], 'every set of matching tags, number of jobs and result of the work on each',
     'No test runs a command on tags; a tag skipped or done twice needs a particular number of jobs or order of threads.',
     [INV + '/threading.rs'],
     [('running work on tags', INV + '/threading.rs')],
     ['tags worked on', 'counts and failures reported', 'exit of the command'],
     'abstract evaluation of the dispatcher and of the thread body with the work as an unknown function, for each number of jobs and each result; captured counters are traced by identity', TRUST)

na('C30', 'Pixels survive swizzling, mipmap generation and format conversion',
   'Swizzling a bitmap and undoing it gives back every pixel, each generated mipmap level is the average of the level above it, and a change of pixel format alters a channel by no more than its precision.',
   ['inputs'], 'every size, depth, number of faces and pixel format',
   'Tests convert a few small pictures; an index that is wrong for one odd size or a cube map shows only there.',
   [RH + '/tag/bitmap/swizzle.rs', RH + '/tag/bitmap.rs', RH + '/data/bitmap.rs'], [('swizzling', RH + '/tag/bitmap/swizzle.rs')],
   ['pixels of a converted bitmap'],
   'Equality of arrays computed by index and rounding arithmetic in data-dependent loops over runtime dimensions: no sound static argument in reach bounds it; it needs testing or a proof of the arithmetic.')

na('C31', 'Recovered script text compiles back to the script it came from',
   'The source text recovered from the compiled scripts of a scenario compiles to the same syntax tree.',
   ['inputs'], 'every compiled script', 'No test compiles scripts.',
   [RH + '/tag/scenario.rs', RH + '/tag/recover.rs'], [('recovering scripts', RH + '/tag/scenario.rs')], ['text of recovered scripts'],
   'It compares with the script compiler of the game, which is not part of the code; from the source alone there is nothing to decide it against.')

na('C32', 'Nudging a number gives back the decimal it was authored with',
   'Nudging a number that lost precision when it was stored gives the shortest decimal that is stored as the same number, and leaves any other number alone.',
   ['inputs'], 'every stored number', 'Tests nudge a few numbers; rounding differs from number to number.',
   [RH + '/tag/nudge.rs'], [('nudging', RH + '/tag/nudge.rs')], ['nudged numbers'],
   'It is a statement on floating-point rounding and shortest decimal text for each of the numbers; static analysis in reach has no theory of either.')

na('C33', 'A tag built in memory, saved and loaded again is an equal tag',
   'Saving any tag and loading it again gives a tag equal to the one saved, as far as its values can be stored.',
   ['inputs'], 'every value of every field of every structure', 'Tests save and load a few tags.',
   [PRM + '/tag.rs', CG + '/lib.rs'], [('saving and loading', PRM + '/tag.rs')], ['values of a loaded tag'],
   'The layout, primitive and list parts are decided by C01, C03, C04, C05 and C25; equality of whole values depends on rounding of numbers kept in memory at more precision than they are stored, which these cannot bound.')
