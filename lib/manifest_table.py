"""property: (level, technique, level note)"""
E, F = 'exploration', 'fault_enumeration'
RT = 'Runtime monitoring on the library built from /repo by its own makefile; says nothing about executions not run. Trusts the harness, the compiler and the kernel. '
TECH = {
    'C01': (E, 'random multi-threaded histories through every entry point, online reference model of live objects with pattern-filled contents', RT + 'Sizes up to 64 MiB, up to 32 threads, several build configurations.'),
    'C02': (E, 'random realloc histories against a reference model (full old usable contents compared, old address checked)', RT),
    'C03': (E, 'every byte of each fresh allocation inspected in random histories that dirty all memory', RT),
    'C04': (E, 'probing reads through the old address right after each release', RT + 'Single-threaded runs, where no reuse can intervene.'),
    'C05': (E, 'fork-per-case misuse injection in evolved heaps, process end and message as oracle, with valid controls', RT),
    'C06': (E, 'fork-per-case sized deallocation with right and wrong sizes, process end as oracle', RT),
    'C07': (E, 'canary corruption in child processes, canary bytes of many slabs observed, with controls', RT),
    'C08': (E, 'writes after free in child processes and exhaustive reuse of the slots, with controls', RT),
    'C14': (E, 'fork storms with busy threads and delays inside locks; children check objects, use all size classes, inject misuse, nest forks; random choices of the processes compared', RT + 'Forks are stopped at the points the scheduler happens to give.'),
    'C15': (E, 'ThreadSanitizer on the allocator\'s sources under threads calling every entry point (including concurrent first calls), and pattern checks, hand-over and hang detection with delays inside locks on the library', RT + 'ThreadSanitizer sees the races of the executions that happened; the sources are compiled with a smaller address space.'),
    'C16': (F, 'fault injection by interposed kernel calls and real limits (data, address space, mappings, full tables) with model, sentinel and ownership monitors', RT),
    'C17': (F, 'injected kernel errors and disturbed writes of the report in child processes, end and output as oracle', RT),
    'C09': (E, 'online monitor of the number of frees between release and reuse of each address, and of when freed ranges are unmapped', RT + 'Single-threaded histories, where the order of frees is known.'),
    'C10': (E, 'probing reads around every large allocation, slab run and zero-size allocation in random histories; guard sizes compared', RT),
    'C11': (E, 'event log of every address handed out with its thread and size class, checked for overlap between classes, arenas and large mappings', RT),
    'C12': (E, 'statistics over positions, slots, canaries and guard sizes observed in many processes', RT + 'Thresholds are set so that a false alarm has a probability below 1e-9.'),
    'C13': (E, 'keystream compared with a reference ChaCha8 over recorded system randomness, exhaustive count of 16-bit draws for every bound, and the whole library driven by a fixed random source with single bits flipped', RT + 'The first part is built from random.c, chacha.c and util.c.'),
    'C19': (E, 'footprint (accessible memory and address space) measured against live data in long histories; effects of malloc_trim monitored', RT),
    'C21': (E, 'size queries compared with the reference model and with probed accessibility: every interior offset of every size class, foreign and stale pointers, inside other operations and with busy threads', RT),
    'C22': (E, 'usable sizes of every small request and around every large size class by every entry point, and in random histories, compared with the documented table', RT),
    'C28': (F, 'errno monitored around every release in random histories with injected kernel failures', RT),
    'C18': (E, 'snapshots of the mappings, scans of globals and of all memory of the program for pointers to the state, protection key rights read after every call and state probed', RT + 'Sealing is monitored where the machine has protection keys.'),
    'C20': (E, 'malloc_info and mallinfo2 parsed and compared with a reference model after single calls, at points of rest of many threads, and with interposed protection changes', RT),
    'C23': (E, 'seccomp filter with exactly the documented calls and arguments around random histories and misuse, and interposed calls checked against a model of the ranges owned', RT),
    'C30': (F, 'fork-per-case first calls of every entry point, before constructors and in races of many threads (also under ThreadSanitizer), with every kernel call of initialization made to fail', RT + 'The races are those the scheduler gave with delays between the steps of initialization.'),
    'C24': (F, 'every form of new and delete in random histories, with impossible requests, failing kernel calls and new-handlers of every behaviour; calls, exceptions and memory judged', RT),
    'C25': (E, 'UndefinedBehaviorSanitizer build of the library under all workloads, AddressSanitizer with all live objects closed to the allocator, MemorySanitizer with their contents undefined', RT + 'AddressSanitizer does not know the objects inside memory mapped by the allocator.'),
    'C26': (E, 'the harnesses of the other properties on libraries built with every option off, at its bounds and in random combinations', RT + 'Sizes of configurations are limited by the address space and memory of the machine.'),
    'C27': (E, 'sources built as for Android with a software model of memory tagging: tag memory, hostile random tags, every access of the allocator checked against the tags, pointers and memory compared with a model of the slots', RT + 'Trusts the model of the tagging instructions; no hardware with memory tagging is at hand.'),
    'C29': (E, 'sources built as for Android: per-arena and per-bin queries compared with a reference model in random histories and after calls of many threads, threads watched while the allocator is disabled', RT + 'Bionic is replaced by stand-ins.'),
    'C31': (E, 'labels kept in a model of the kernel\'s names and compared with the use of the memory after every call and for the whole address space of the allocator; every label refused', RT + 'The kernel here has no names for memory: they are modelled.'),
}
NOT = {}
