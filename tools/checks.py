# property -> (technique, level, level_note)
CHECKS = {
 'C01': ('stateful property-based testing against a map model, differential reading by the harness and by git', 'exploration',
         'Random histories of writes and reads with shrinking; trusts the harness SHA-1 and zlib, cross-checked by git.'),
 'C03': ('property-based testing: generated packs and lookup orders, read back and compared with what was packed', 'exploration',
         'Packs are built by an independent writer in the harness and by git; bounded sizes and chain depths.'),
 'C04': ('property-based testing: generated stores and indexes against a map model, with near-miss ids', 'exploration',
         'Offsets beyond 4 GiB are reached with sparse pack files.'),
 'C05': ('property-based testing: generated deltas against a reference delta interpreter, with ill-formed mutations', 'exploration',
         'The reference interpreter follows the git delta format and is cross-checked by git.'),
 'C06': ('structured mutation fuzzing of loose objects, packs and indexes with resource oracles (panic, CPU, allocation)', 'exploration',
         'Hangs are judged by a CPU-time budget and allocation by a counting allocator.'),
 'C07': ('property-based fault injection: damaged object files, compared with the original objects', 'exploration',
         'Damage that leaves the inflated content complete is allowed to read back as the original.'),
 'C08': ('property-based testing: generated commits against the field values they were built from', 'exploration', 'Structured generator with unusual headers and byte content.'),
 'C09': ('property-based testing: generated trees against the entries they were built from', 'exploration', 'Structured generator.'),
 'C10': ('property-based testing: generated tags against the field values they were built from', 'exploration', 'Structured generator.'),
 'C11': ('property-based testing: generated identities against a reference decoder', 'exploration', 'Structured generator over the whole byte range.'),
 'C12': ('property-based mutation testing of objects against a reference grammar', 'exploration', 'The grammar requires only what the property names.'),
 'C13': ('property-based testing of algebraic laws of ids and abbreviations', 'exploration', 'Laws and an independent SHA-1.'),
 'C14': ('property-based testing and fuzzing: generated and random reference files decoded through every route, against their source values', 'exploration',
         'Covers file layouts git and its ports write, plus arbitrary bytes.'),
 'C15': ('model-based property testing: generated reference graphs resolved and compared with a walk of the graph', 'exploration', 'Chains up to 60 levels.'),
 'C16': ('property-based testing: generated reference directories listed and compared with the set created', 'exploration', 'A share is cross-checked with git for-each-ref.'),
 'C17': ('property-based testing with file opens recorded at the libc boundary', 'exploration', 'Only open and openat are recorded, as the standard library uses.'),
 'C02': ('property-based fault injection: generated writes with every system call of each interrupted, failed or raced in turn', 'fault_enumeration',
         'Every mutating libc call of each generated write is tried; process death, not power loss.'),
 'C22': ('property-based testing: generated directory layouts opened by generated paths, against the layout', 'exploration', 'Layouts of up to four nested or neighbouring sites.'),
 'C23': ('stateful property-based testing with full file-system snapshots and injected write failures', 'exploration', 'Content, modes, inodes and, for reads, modification times are compared.'),
 'C19': ('stateful property-based testing: generated histories of another process moving objects, stepped between and inside lookups on a controlled clock, against a model', 'exploration',
         'Interleaving is at the system calls of the lookup; one arm uses git itself as the other process.'),
 'C20': ('property-based fault injection: reads cut, interrupted and failed at the libc boundary under generated histories of lookups', 'fault_enumeration',
         'Up to 40 failing calls per lookup are enumerated; longer lookups are sampled.'),
 'C21': ('property-based fault injection: generated repositories with damaged and stray files, against the set of objects that must survive', 'exploration',
         'Damage that leaves a file valid by its own checks exempts the objects in that file.'),
 'C18': ('stateful property-based testing with real threads: generated programs per thread on shared handles, delays injected at the libc boundary, against a model', 'exploration',
         'Schedules are sampled, not enumerated; a failing case is replayed many times.'),
 'C24': ('stateful property-based testing: generated histories with injected failures, against the files held open and bytes allocated', 'exploration',
         'Open files are read from /proc/self/fd, allocation from a counting allocator; content remembered from packs is allowed.'),
 'C25': ('stateful property-based testing: generated histories over kept objects and half-read streams, against their exact content', 'exploration',
         'Files are removed or replaced by rename, never rewritten in place.'),
 'C26': ('property-based fault injection and fuzzing: generated failures, damage and values, against what errors and printed forms must tell', 'exploration',
         'File names are demanded for lookups of objects and references, not for listings and writes.'),
 'C27': ('stateful property-based testing with bytes, calls, memory and time measured at the libc and allocator boundary, against bounds computed from the generated sizes', 'exploration',
         'Bounds leave generous room for buffering and constant factors.'),
}

# how many times the built-in case counts the quick check runs, for about 15 s on eight cores
SCALE = {'C01': 2.5, 'C02': 1.3, 'C03': 2, 'C04': 5, 'C05': 4, 'C06': 1.5, 'C07': 3, 'C08': 6, 'C09': 1.5, 'C10': 6, 'C11': 6,
         'C12': 3.5, 'C13': 20, 'C14': 2, 'C15': 3, 'C16': 3.5, 'C17': 3.5, 'C18': 2, 'C19': 1.5, 'C20': 3, 'C21': 2, 'C22': 5,
         'C23': 3.5, 'C24': 3, 'C25': 4, 'C26': 1.5}
