import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
p("C01","Written objects read back byte for byte under their SHA-1",
 "Writing any byte string to a repository's object database returns the SHA-1 of exactly those bytes, and from then on reading that id through any handle, in this process or a later one, streams back exactly those bytes; when the bytes are a well-formed object, parsing the id yields that object. The stored file is an ordinary loose object (objects/xx/yyyy…, one zlib stream) that git itself reads as the same object. Writing bytes that are already stored succeeds, returns the same id and leaves the stored object intact.",
 ["inputs","histories"],"all byte strings (empty, tiny, larger than every internal buffer, incompressible) and all sequences of writes, rewrites, reads and reopenings",
 "One proptest writes random byte strings below 1000 bytes to a fresh directory and reads each once through the same handle; sizes past one buffer, rewrites, histories, other handles and the on-disk form git depends on are never tried.",
 ["src/object/database/loose.rs","src/object/database.rs","src/object/database/reader.rs","src/parse/buffer.rs","src/object.rs"],
 [("SHA-1 over the written bytes","src/object.rs Id::from_hash"),("zlib encode, path objects/xx/y","src/object/database/loose.rs write_object"),("packed-then-loose lookup","src/object/database.rs read_object")],
 ["ObjectDatabase::write_object","ObjectDatabase::read_object(..).reader()","ObjectDatabase::parse_object","files under objects/","git cat-file"])
p("C02","A failed or interrupted write never leaves a damaged object behind",
 "Whatever happens while an object is being written — the process dies at any system call, a disk write stops short or fails, another writer stores the same object at the same time — a reader of that id sees either no object or the complete object, never a partial one, and no other object is affected. A write that reports success has stored the complete object, and after a failed or interrupted write, writing the same bytes again succeeds and makes the object readable.",
 ["crash_points","fault_sequences","schedules"],"every system call of a write as a point of death or failure (full, short and failing writes), and every such point as the moment at which a second writer or reader runs",
 "No test injects a failing or short write, a crash or a second writer; the tests only ever see writes that run to completion.",
 ["src/object/database/loose.rs"],
 [("creation and publication of the object file","src/object/database/loose.rs write_object"),("error propagation from the compressor","src/object/database/loose.rs write_object")],
 ["ObjectDatabase::write_object","ObjectDatabase::read_object","files under objects/"])
p("C03","Every object in a valid pack reads back with its exact kind and content",
 "For every valid pack and index pair, reading any object in it yields exactly the kind and bytes that were packed, whether it is stored whole or as a chain of offset or reference deltas of any depth, at any offset, in any order of entries, whatever its size and compression. The result does not depend on which objects were read before, how often, or through which reading method.",
 ["inputs","programs","histories"],"all packs built from any set of commits, trees, blobs and tags with any representation per entry (whole, offset delta, reference delta), pack version 2 or 3, index version 1 or 2, and any order of reads",
 "One test reads one undeltified commit out of one fixed pack and checks only that it parses; no delta, no second read, no blob or tree and no content is compared.",
 ["src/object/database/packed/pack.rs","src/object/database/packed/delta.rs","src/object/database/packed.rs","src/object/database/reader.rs","src/parse/buffer.rs"],
 [("delta chain walk and cache","src/object/database/packed/pack.rs find_chain/read_object"),("entry header and offset decoding","src/object/database/packed/pack.rs read_pack_object_header/read_delta_offset"),("delta application","src/object/database/packed/delta.rs apply_delta")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object(..).reader()"],
 [("object cache","decoded objects by pack offset","src/object/database/packed/pack.rs PackFile.cache")])
p("C04","Looking up an id finds exactly the object stored under that id",
 "Looking up an id returns the object stored under exactly that id, whichever pack (index version 1 or 2, any number of entries, offsets beyond 4 GiB) or loose file holds it; an id that is stored nowhere, however close to a stored one, is reported as not found with that id. A stored object is never reported as not found and an absent one is never answered with another object's data.",
 ["inputs","configurations"],"all sets of ids spread in any way over loose files and any number of packs, all index versions and offset encodings, and all present and absent ids including neighbours of present ones",
 "The index tests look up four ids in one hand-written three-entry table per version; no lookup of an absent neighbour, no first-byte boundary, no several packs and no real 64-bit offset is tried.",
 ["src/object/database/packed/index.rs","src/object/database/packed.rs","src/object/database.rs","src/object/database/loose.rs"],
 [("fan-out and binary search","src/object/database/packed/index.rs find_offset"),("64-bit offset table","src/object/database/packed/index.rs offsets"),("search over packs","src/object/database/packed.rs try_read_object"),("packed, loose, packed lookup order","src/object/database.rs read_object")],
 ["ObjectDatabase::read_object","ObjectDatabase::parse_object","ReadObjectError::is_not_found","ReadObjectError::id"])
p("C05","Deltas rebuild exactly their target; ill-formed deltas are refused",
 "Every well-formed delta (any mix of copies and inserts, in any legal encoding of offsets, sizes and lengths) applied to its base yields exactly the bytes the git delta format defines, with the kind of the base. A delta that declares the wrong base size or result size, copies outside its base, ends in the middle of an instruction or contains the reserved instruction is refused with an error.",
 ["inputs","programs"],"all base contents and all instruction sequences, in every encoding of operands, including zero operands, the 64 KiB default size and multi-byte offsets; and all single-fault variants of them",
 "No test applies a delta at all.",
 ["src/object/database/packed/delta.rs","src/object/database/packed/pack.rs","src/parse/buffer.rs"],
 [("instruction decoding","src/object/database/packed/delta.rs read_command"),("size checks","src/object/database/packed/delta.rs apply_delta"),("variable-length sizes","src/object/database/packed/delta.rs read_delta_header_len")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object(..).reader()"])
p("C06","Malformed object storage is refused without crash, hang or memory blow-up",
 "Whatever bytes lie in loose object files, pack files and pack index files, every lookup returns an object or an error: it never panics, aborts, overflows the stack, runs forever or allocates memory out of proportion to the data actually present. In particular deltas that refer to each other in a cycle, declared sizes and counts far beyond the data, small files that expand to far more than they declare, files without the signature and version of a pack or index, and truncated tables or tables that contradict themselves or their pack are reported as errors, not taken for the absence of objects.",
 ["inputs"],"all contents of loose object, pack and index files, in particular valid files with any bytes changed, cut, inserted or duplicated, and hand-made hostile structures; all ids looked up in them",
 "Only the reference parser is ever run on random bytes; object, pack and index readers see a handful of well-formed files.",
 ["src/object/database/packed/index.rs","src/object/database/packed/pack.rs","src/object/database/packed/delta.rs","src/object/database/reader.rs","src/object/parse.rs","src/parse/buffer.rs","src/parse/parser.rs","src/object/commit.rs","src/object/tree.rs","src/object/tag.rs"],
 [("bounds and size checks","src/object/database/packed/index.rs parse"),("delta loop check","src/object/database/packed/pack.rs find_chain"),("bounded buffering","src/parse/buffer.rs fill_buf_to"),("header limits","src/object/parse.rs read_object_header")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object","Debug output of returned objects"])
p("C07","Damaged object data is never handed out as intact",
 "If the stored data of an object is damaged — any byte of its loose file or of its compressed data in a pack changed, the file cut short, more or less content than its declared size — parsing it either returns an error or exactly the original object, never a different one. A pack whose index belongs to a different pack (different object count or pack checksum) is not used to answer lookups.",
 ["inputs","fault_sequences"],"all objects, all single-byte changes and truncations of the stored form, all declared sizes other than the true one, and all pairings of an index with a pack it was not built for",
 "No test reads a damaged object; the length check is tested only on a stub reader that returns the exact number of bytes.",
 ["src/parse/buffer.rs","src/object/parse.rs","src/object/database/reader.rs","src/object/database/packed.rs","src/object/database/packed/pack.rs"],
 [("exact length check after the body","src/parse/buffer.rs read_to_end"),("reading past the body to the end of the zlib stream (checksum)","src/parse/buffer.rs read_to_end"),("count and id comparison of index and pack","src/object/database/packed.rs Entry::open")],
 ["ObjectDatabase::parse_object"])
p("C08","Commits are decoded exactly",
 "For every well-formed commit, the tree id, the list of parent ids in order, author, committer, encoding and message reported are exactly those in the object, whatever other headers (signatures, merge tags, extra author lines, multi-line values) it carries and whatever bytes its message contains.",
 ["inputs"],"all commits with any number of parents, any identities, any extra headers with continuation lines, with or without encoding, and any message bytes, stored loose or packed",
 "One hand-written commit with one parent and one extra header is parsed in the unit test, and one commit made by git is compared for names only.",
 ["src/object/commit.rs","src/object/signature.rs","src/parse/parser.rs"],
 [("header scan","src/object/commit.rs parse"),("line and id parsing","src/parse/parser.rs parse_prefix_line, parse_hex_id_line")],
 ["Commit::tree","Commit::parents","Commit::author","Commit::committer","Commit::encoding","Commit::message","Debug output"])
p("C09","Trees are decoded exactly",
 "For every well-formed tree, the entries reported are exactly the entries stored, in stored order and with the exact number, each with its exact mode, file name bytes and id.",
 ["inputs"],"all trees, from empty to thousands of entries, with every git file mode, any name bytes other than NUL and '/', and any id bytes (including ids containing spaces, newlines and NULs)",
 "One two-entry tree is parsed in the unit test and one single-entry tree is compared with libgit2.",
 ["src/object/tree.rs","src/parse/parser.rs"],
 [("entry scan","src/object/tree.rs parse"),("entry accessors","src/object/tree.rs TreeEntry")],
 ["Tree::entries","TreeEntry::mode","TreeEntry::filename","TreeEntry::id","Debug output"])
p("C10","Tags are decoded exactly",
 "For every well-formed annotated tag, the target id, target kind, tag name, tagger (if there is one) and message reported are exactly those in the object, whatever further headers it carries.",
 ["inputs"],"all tags of every target kind, any name bytes, with or without tagger and with any message bytes or none",
 "One tag made by git, with a tagger and a one-line ASCII message, is compared with libgit2; target kind, absent tagger and message are not looked at.",
 ["src/object/tag.rs","src/object/signature.rs","src/parse/parser.rs"],
 [("header scan","src/object/tag.rs parse"),("kind names","src/object/parse.rs ObjectKind::from_bytes")],
 ["Tag::object","Tag::kind","Tag::tag","Tag::tagger","Tag::message","Debug output"])
p("C11","Author, committer and tagger identities are reported exactly",
 "For every identity as git writes it — a name and an email in any encoding, with the surrounding punctuation git and libgit2 drop (white space, control characters and . , : ; < > \" \\ ') already absent or to be dropped, a decimal timestamp and a signed time zone — the name, email, timestamp and time zone reported are exactly the bytes recorded, less only that surrounding punctuation. Digits, letters and other characters inside or at the edges of names and emails are never lost, and a missing timestamp or time zone is reported as absent.",
 ["inputs"],"all names and emails of any bytes (UTF-8 or not) without '<', '>' and newlines, with any such punctuation around them, all timestamps and time zones, in commits and tags",
 "Three fixed ASCII identities of the same person are parsed.",
 ["src/object/signature.rs"],
 [("identity pattern","src/object/signature.rs Signature::regex")],
 ["Signature::name","Signature::email","Signature::timestamp","Signature::timezone"])
p("C12","Objects with missing or malformed fields are refused, never misread",
 "Parsing a stored object succeeds only if its header names a known kind and its exact size and its body has that kind's required structure: a commit its tree, author, committer lines and the blank line before the message, with 40-digit hex ids; a tag its object, type and tag lines; a tree only complete entries with octal modes. Anything else yields an error rather than an object with invented, shifted or dropped fields.",
 ["inputs"],"all single-fault variants (line dropped, reordered, id shortened, lengthened or non-hex, entry cut, mode non-octal, header kind or size wrong or unterminated) of all well-formed objects",
 "The unit tests reject three malformed object headers; no malformed commit, tree or tag is ever parsed.",
 ["src/object/commit.rs","src/object/tree.rs","src/object/tag.rs","src/object/parse.rs","src/parse/parser.rs"],
 [("required fields","src/object/commit.rs parse, src/object/tag.rs parse"),("id and length validation","src/parse/parser.rs parse_hex_id_line"),("header parsing","src/object/parse.rs parse_object_header")],
 ["ObjectDatabase::parse_object"])
p("C13","Object ids and abbreviated ids convert and compare lawfully",
 "Every 20-byte id prints as 40 lower-case hex digits that parse back (in either case) to the same id; text of any other length or with any other character is rejected, and ids order as their bytes do. Every abbreviation of 4 to 40 hex digits (an even number) prints back as given, others are rejected, and comparing an abbreviation with ids sorts it before all ids it is a prefix of (equal only when complete) and otherwise as its bytes compare, consistently in both directions. Hashing any byte string into an id gives its SHA-1.",
 ["inputs"],"all ids, all strings, all byte strings hashed, and all pairs of abbreviation and id",
 "One unit test compares one two-byte abbreviation with seven ids; nothing tests conversions or rejection.",
 ["src/object.rs"],
 [("hex conversion","src/object.rs Id::from_hex, ShortId::from_hex"),("prefix comparison","src/object.rs ShortId::cmp_id, Id::cmp_short"),("SHA-1","src/object.rs Id::from_hash")],
 ["Id","ShortId","ParseIdError"])
p("C14","Reference files are decoded exactly and bad ones refused",
 "A reference file holding a 40-digit hex id decodes as a direct reference to that id, and one holding 'ref: ' and a name decodes as a symbolic reference to exactly that name, whatever line ending or trailing white space follows and whatever blank or comment lines precede; the same bytes decode the same way from memory, from any reader and from the repository. Content that is empty, or whose id has a wrong length or a non-hex character, is refused with an error, a name that has no file is reported as not found, and no bytes make decoding panic.",
 ["inputs"],"all byte strings as file content, all valid reference contents with every line ending and leading comment, all reference names",
 "Fixed examples of each form are parsed, and random bytes are only checked not to panic; nothing compares the decoded id or name over generated references or through files.",
 ["src/reference/parser.rs","src/reference/direct.rs","src/reference/symbolic.rs","src/reference/database.rs","src/reference.rs"],
 [("line selection and classification","src/reference/parser.rs parse"),("file lookup","src/reference/database.rs read_reference_file")],
 ["Reference::from_bytes","Reference::from_reader","ReferenceDatabase::reference","ReferenceDatabase::head","Reference::name","Reference::target"])
p("C15","Resolving a reference reaches the object it leads to, or reports an error",
 "Resolving a reference follows symbolic references (at least the five levels git allows) to the direct reference they end in and returns the object with exactly that id. If the chain is cyclic, ends in a missing or malformed reference, or names an object that is not in the repository, resolving reports an error; it never crashes, runs forever or returns another object.",
 ["inputs","configurations"],"all graphs of reference files: chains of any length, cycles of any length, dangling and malformed ends, names in any directory depth, present and absent objects",
 "No test resolves any reference.",
 ["src/reference/symbolic.rs","src/reference/direct.rs","src/reference.rs","src/reference/database.rs"],
 [("recursive resolution","src/reference/symbolic.rs peel"),("object lookup","src/reference/direct.rs object")],
 ["Reference::peel","ReferenceTarget::peel","Symbolic::peel","Direct::object"])
p("C16","Listing references yields exactly the loose references that exist",
 "Listing branches, tags or remote-tracking references yields the full name of every reference file below refs/heads, refs/tags or refs/remotes at any depth, each exactly once, and nothing else (no directories, no lock files, nothing from elsewhere); the combined listing is exactly these three together. A directory that is absent or empty, as in a new repository, yields an empty list rather than an error, and every listed name can be looked up.",
 ["configurations","histories"],"all trees of reference files and directories under refs/, including absent and empty directories, deep nesting, any legal name bytes, references of other categories and lock files of writers in progress",
 "The one test that lists references prints the result and asserts nothing.",
 ["src/reference/database.rs"],
 [("directory walk","src/reference/database.rs get_file_paths_from_dir"),("path to name","src/reference/database.rs reference_name_from_file")],
 ["ReferenceDatabase::reference_names","head_reference_names","tag_reference_names","remote_reference_names"])
p("C17","Reference lookups never leave the repository",
 "Looking up or resolving a reference never opens a file outside the repository's .git directory, whatever name the caller passes and whatever name a symbolic reference file contains: absolute names and names with parent-directory components are refused with an error.",
 ["inputs"],"all names, passed directly or stored in HEAD or other reference files, that would lead outside when joined to a path: absolute, '..' at any position and depth, mixed with legal components",
 "No test uses a name other than plain well-formed ones.",
 ["src/reference/database.rs","src/reference/symbolic.rs"],
 [("name to path","src/reference/database.rs read_reference_file")],
 ["ReferenceDatabase::reference","ReferenceDatabase::parse_reference","ReferenceDatabase::read_reference_file","Reference::peel","file opens (recorded)"])
p("C18","A shared handle gives every thread the right object",
 "When any number of threads read and write objects through one shared database handle (or several handles on one repository) at the same time, every read returns exactly the object stored under its id and every write stores exactly its bytes, as if each call ran alone; no call panics or deadlocks, and absent ids stay absent.",
 ["schedules"],"all interleavings of reads of loose, packed and deltified objects, first reads that load packs, and writes of distinct and identical objects, by two or more threads",
 "No test uses more than one thread.",
 ["src/object/database/packed.rs","src/object/database/packed/pack.rs","src/object/database/loose.rs"],
 [("file position guarded by a lock","src/object/database/packed/pack.rs PackFile.file"),("concurrent maps of packs and decoded objects","src/object/database/packed.rs packs, src/object/database/packed/pack.rs cache"),("single refresh at a time","src/object/database/packed.rs refresh")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object","ObjectDatabase::write_object"],
 [("pack file reader","one shared file position and buffer per pack","src/object/database/packed/pack.rs PackFile.file"),("pack map","packs loaded so far","src/object/database/packed.rs packs")])
p("C19","Objects stay readable while other processes repack the repository",
 "While other processes add packs, pack loose objects and delete them, repack and delete old packs, or add loose objects, an object that is stored somewhere in the repository is found by every open handle: always if it is loose, or lies in a pack that was in place when the handle first looked anything up (even if that pack has been deleted since), and otherwise at the latest once two seconds have passed since a pack holding it appeared. What is found is always the object's exact content.",
 ["histories"],"all histories of packing, unpacking, repacking, pruning of duplicate copies, writing, waiting and reading, through several long-lived and fresh handles",
 "Every test opens one handle on a repository that never changes afterwards.",
 ["src/object/database/packed.rs","src/object/database.rs","src/object/database/loose.rs"],
 [("rescan of the pack directory on a miss","src/object/database/packed.rs refresh"),("retry of packs after loose","src/object/database.rs read_object")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object"],
 [("last rescan time","limits rescans to one per two seconds","src/object/database/packed.rs last_refresh")])
p("C20","Short, interrupted and failing file reads never change what is read",
 "However the operating system splits up or interrupts the reads of object, pack, index and reference files, every lookup of an object or reference and every listing of references gives the same result as with undisturbed reads. When opening, reading or listing a file fails with an I/O error, the lookup or listing reports an error or still gives the exact result (never not-found for something that is stored, never a wrong or shortened object or list), and the same handle answers correctly again once the fault is gone.",
 ["fault_sequences"],"all ways to cut reads into short reads and interruptions, and an I/O error at any system call of a lookup, for loose, packed and deltified objects and references, followed by further lookups through the same handle",
 "Interrupted and short reads are tested only on a stub below two internal functions; no whole lookup is ever disturbed and no lookup follows a failed one.",
 ["src/parse/buffer.rs","src/object/database/packed/pack.rs","src/object/database/packed.rs","src/object/database/reader.rs","src/object/database/loose.rs","src/reference/parser.rs"],
 [("retry on interruption, partial fills","src/parse/buffer.rs read_until, read_exact, read_to_end"),("state reset by seek","src/parse/buffer.rs seek"),("error mapping","src/object/database/loose.rs read_object")],
 ["ObjectDatabase::parse_object","ObjectDatabase::read_object","ReferenceDatabase::reference"])
p("C21","A damaged storage file never hides objects stored in other files",
 "If a pack, a pack index or a loose object file is damaged, truncated, empty or lacks its partner file, every object that has no copy in the damaged files stays readable with its exact content, in whatever order files are found and lookups are made, and so does an object whose copy in a damaged file can no longer be read but which has another copy in an intact one. Only objects whose every copy lies in damaged files may become unreadable.",
 ["inputs","fault_sequences"],"all repositories with several packs and loose objects, all kinds of damage to any one file, and all orders of lookups",
 "Every repository in the tests is intact.",
 ["src/object/database/packed.rs","src/object/database.rs"],
 [("loading of packs","src/object/database/packed.rs refresh"),("fallback to loose objects","src/object/database.rs read_object")],
 ["ObjectDatabase::parse_object"])
p("C22","Opening recognises exactly the directories that hold a repository",
 "Opening a path succeeds exactly when it has a .git directory, and the handle then reads objects and references of that repository and no other, even if the working directory of the process changes; a path without one (missing, a file, or .git being a file) is reported as not found with that path. Opening neither needs nor creates anything inside .git.",
 ["configurations"],"all directory layouts: bare, nested and sibling repositories, missing and partial .git contents, paths given with any spelling",
 "All tests open freshly made complete repositories; failure is never tried.",
 ["src/repository.rs"],
 [("check for the .git directory","src/repository.rs open")],
 ["Repository::open","OpenError"])
p("C23","Reading changes nothing; writing an object adds only that object",
 "No lookup, listing or resolution, successful or not, creates, deletes or alters any file of the repository. Writing an object adds that object's file and nothing else, whether or not the object was already stored, leaves every other file's content alone, and leaves no temporary files behind, even when it fails.",
 ["histories","fault_sequences"],"all sequences of reads, listings, resolutions and writes, of present, absent and damaged objects, on all kinds of repository, with failing writes",
 "No test looks at the files of the repository after an operation, except one modification time.",
 ["src/object/database/loose.rs","src/object/database/packed.rs","src/reference/database.rs"],
 [("write path","src/object/database/loose.rs write_object"),("read-only opens","src/object/database/loose.rs read_object, src/object/database/packed/pack.rs open")],
 ["files of the repository before and after"])
p("C24","Nothing stays open or allocated once what needed it is gone",
 "However many lookups, streams (read to the end, dropped part-way or never read), writes, listings and resolutions are made, successful or failing at any point, and however packs come, go and are damaged meanwhile, the process holds open at most one file per open stream and one per pack that an open handle has met; closing the streams and handles closes every file and leaves no thread behind. Repeating the same operations, on one handle or on new ones, does not use more and more memory.",
 ["histories","fault_sequences"],"all histories of operations and failures over handles, streams and packs, of any length",
 "A leak shows only after many operations, or after a failure at a certain point; tests make a few successful ones and end.",
 ["src/object/database/packed.rs","src/object/database/packed/pack.rs","src/object/database/loose.rs","src/object/database/reader.rs","src/reference/database.rs"],
 [("one open file per pack","src/object/database/packed.rs refresh"),("files closed on error","src/object/database/packed.rs Entry::open, src/object/database/loose.rs write_object"),("objects remembered once","src/object/database/packed/pack.rs cache")],
 ["/proc/self/fd","allocated bytes"])
p("C25","What a lookup returned stays exact, whatever happens afterwards",
 "A decoded object and an open stream are snapshots: whatever is looked up, written, removed or replaced by renaming in the repository afterwards, and after the handle itself is gone, every accessor of the object, asked in any order, any number of times, on any thread and on copies, gives the same exact answer, its iterators yield exactly as many items as they announce at every point, and the stream yields the object's exact remaining bytes however the reads are cut up (empty reads and reads after the end included) and interleaved with other streams and lookups.",
 ["histories","schedules"],"all histories of reads of several streams and questions to several objects, interleaved with each other and with changes of the repository",
 "Tests read one object at a time, at once and to the end, from files that stay.",
 ["src/object/database/reader.rs","src/object/database/packed/pack.rs","src/object/commit.rs","src/object/tree.rs","src/object/tag.rs"],
 [("streams own what they read from","src/object/database/reader.rs"),("decoded objects own their bytes","src/object/parse.rs read_object_body"),("shared content of cached pack objects","src/object/database/packed/pack.rs cache")],
 ["ObjectDatabase::read_object","ObjectDatabase::parse_object","Object accessors"])
p("C26","Errors say what failed and why; printing shows the value and never fails",
 "The error of a failed object lookup carries, and prints in lower-case hex, the id that was asked for; it is 'not found' only if every file that might hold the object could be consulted, and never 'ambiguous' for a full id. When a system call fails, its error number is found by following the error's causes, and for lookups of objects and references the printed chain names the file; a pack or index that is broken as a whole is named; opening a place without a repository names that path. Printing an id, object, entry, identity, reference or error in any form never panics, and ids, objects, entries, identities and references print the values their accessors report.",
 ["inputs","fault_sequences"],"all failures of all operations at any point, all damage, all content of objects and references",
 "Tests never look at an error, and print only what compares unequal.",
 ["src/object/database.rs","src/object/database/packed.rs","src/object/database/loose.rs","src/object.rs","src/reference/database.rs","src/repository.rs","src/object/commit.rs","src/object/tag.rs","src/object/tree.rs"],
 [("error carries id and cause","src/object.rs ReadObjectError"),("mapping of missing files","src/object/database/loose.rs read_object"),("errors with paths","src/object/database/packed.rs, src/reference/database.rs"),("Debug from accessors","src/object/commit.rs, src/object/tag.rs, src/object/tree.rs")],
 ["ReadObjectError","reference::Error","OpenError","WriteError","Debug and Display"])
p("C27","What an operation costs is in proportion to what it has to touch",
 "Opening reads no object, pack or index, however large the repository. A lookup reads each index at most once per handle; of packs it reads only the entries the object is built from, and of a loose object no more of the file than the stream has been read, up to buffering. Looking up absent ids on a handle that knows the packs touches no pack or index, and looks for new packs at most every two seconds. Memory for a decoded object is a small multiple of the sizes of the object and its bases, and a small constant for streaming a loose object or writing an object of any size. Listing references opens no reference file, and resolving one opens only the files on its chain. Processor time is linear in the size of what is read.",
 ["inputs","histories"],"all sizes and shapes of objects, packs, indexes and repositories, and all histories of operations on a handle",
 "Tests use tiny repositories, where reading everything many times over goes unnoticed.",
 ["src/object/database/packed.rs","src/object/database/packed/pack.rs","src/object/database/packed/index.rs","src/object/database/loose.rs","src/parse/buffer.rs","src/reference/database.rs"],
 [("lazy indexes, refresh interval","src/object/database/packed.rs"),("seek to the entry","src/object/database/packed/pack.rs"),("streaming","src/object/database/loose.rs read_object, write_object"),("buffered parsing","src/parse/buffer.rs")],
 ["bytes read and written","system calls","allocated bytes","processor time"])
open("properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
