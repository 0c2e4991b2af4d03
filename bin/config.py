import os
# what each check builds and how long it searches
VARIANTS = {
    'main': {},                                                         # asserts on, ASan + UBSan
    'ndebug': dict(opt='-O2', flags=['-DNDEBUG']),
    # the library under ThreadSanitizer, every edge of it a scheduling point; the harness is not instrumented
    'tsan': dict(san=['-fsanitize=thread'], ld='clang', libs=['-lstdc++', '-lm', '-Wl,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release,--wrap=__cxa_guard_abort'], # our own operator new
         core_san=[], opt='-O1', flags=['-fsanitize-coverage=trace-pc-guard,no-prune', '-fsanitize-ignorelist=' + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'sim', 'tsan.ignore')]),
}
COST = {'deep_a': 30, 'deep_b': 30, 'zoo_c': 20, 'zoo_d': 19, 'zoo_e': 18, 'zoo_b': 17, 'zoo_f': 16, 'zoo_g': 15, 'zoo_a': 14, 'zoo_h': 12, 'zoo_i': 11}
ASSUME = ['compiled with clang 18, -std=c++20 unless the variant says otherwise, ASan+UBSan as additional oracles',
          'the reference codec (sim/val.cpp) and the simulated sources, sinks and heap are correct']
REAL = ['all of /repo/src/cxon that the engines instantiate (headers, compiled from the working tree)', 'libstdc++ containers, std::from_chars/to_chars']
ALL = 'abcdefghi'
PROPS = {
    'P01': dict(eng=['eng_p01'], zoo=ALL, write=1, quick=dict(main=(400000, 45)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='documents, sources, truncation points and damage',
        rule='A run picks a type, a format, a value, an encoding of it and a source by seed, and reads every (short) or several truncations; or damages the document first.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the source (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting)']),
    'P02': dict(eng=['eng_p02'], zoo=ALL, read=0xFF, write=1, quick=dict(main=(250000, 45)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='documents, damage, sources and pieces',
        rule='A run picks a type, a format, a value, an encoding, damage and what follows by seed, and reads it from every kind of source.', nontrivial='the document is longer than one byte.',
        real=REAL + ['std::istreambuf_iterator'], stubs=['the sources (exactly sized heap block, checked iterators, simulated stream, stream buffer refilled in pieces)', 'operator new (counting)']),
    'P03': dict(eng=['eng_p03'], zoo=ALL, read=0, write=0x43, quick=dict(main=(300000, 40)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='values and range capacities',
        rule='A run picks a type, a format and a value by seed, and writes it into ranges of every capacity (short output) or of capacities around and below the exact one.', nontrivial='the output is longer than one byte.',
        real=REAL, stubs=['the output range (exactly sized heap block / checked forward iterators)', 'operator new (counting)']),
    'P04': dict(eng=['eng_p04'], zoo=ALL, read=0, write=0x3D, quick=dict(main=(300000, 40)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='values, sinks and refusal points',
        rule='A run picks a type, a format, a value, a kind of sink and how it refuses by seed, and refuses at every point (short output) or at several points.', nontrivial='the output is longer than one byte.',
        real=REAL, stubs=['the sink (simulated: append, good, throwing, output iterator)', 'operator new (counting)']),
    'P05': dict(eng=['eng_p05'], zoo=ALL, read=0xFD, write=1, quick=dict(main=(150000, 45)), thorough=dict(main=(8000000, 500), ndebug=(5000000, 300)), search='documents, points of failure and histories of the target',
        rule='A run picks a type, a document (half of them damaged), a source and the point at which an allocation, the memory as a whole or the source fails, by seed; the target is then destroyed, or cleaned and read into again.', nontrivial='the read has a point at which something can fail.',
        real=REAL, stubs=['the sources (checked iterators, simulated stream, simulated streambuf)', 'operator new (counting, failing)']),
    'P06': dict(eng=['eng_p06'], zoo='hi', read=0x3F, write=1, quick=dict(main=(1500000, 40)), thorough=dict(main=(60000000, 500), ndebug=(30000000, 300)), search='JSON documents, damage and sources',
        rule='A run picks a node type, a document (written by the library, by an independent encoder, or derived from the grammar with deviations), damage and a source by seed.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting)']),
    'P07': dict(eng=['eng_p07'], zoo='hi', read=0x3F, write=1, quick=dict(main=(1500000, 40)), thorough=dict(main=(60000000, 500), ndebug=(30000000, 300)), search='CBOR documents, damage and sources',
        rule='A run picks a node type, a document (written by the library, by an independent encoder, or derived from the grammar with deviations), damage and a source by seed.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting)']),
    'P22': dict(eng=['eng_p22', 'zoo'], zoo=[], lib=['st_equal_k', 'st_apos_k', 'st_raw_k', 'st_space_k', 'st_every_k', 'st_open_k', 'st_script_k', 'st_equal_c', 'st_equal_d', 'st_equal_h', 'st_apos_b', 'st_apos_d', 'st_apos_f', 'st_apos_h', 'st_open_d', 'st_open_e', 'st_open_h', 'st_raw_b', 'st_raw_d', 'st_raw_f', 'st_raw_h', 'st_space_c', 'st_space_d', 'st_space_e', 'st_space_f', 'st_space_h', 'st_script_c', 'st_script_d', 'st_script_e', 'st_every_b', 'st_every_c', 'st_every_d', 'st_every_e', 'st_every_f', 'st_every_h', 'st_trust_b', 'st_trust_h', 'st_plain_b', 'st_plain_d'], read=0x19, write=0x47, quick=dict(main=(600000, 40)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='formats, values, encodings, damage, sources and sinks',
        rule='A run picks a customised format, a type and one of the histories of P01, P02, P03, P06, P10, P17 and P18 (round trip, other encodings, sources, cuts, damage, bounded output, documents off the grammar, documents of other formats, records with members unknown, missing or repeated) by seed.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the sources and sinks (exactly sized heap block, checked iterators, simulated stream, ranges, appenders)', 'operator new (counting)']),
    'P23': dict(eng=['eng_p23', 'zoo'], zoo=[], lib=['mem_a', 'mem_b', 'mem_c', 'mem_d'], read=0x1D, write=0, quick=dict(main=(400000, 35)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 300)), search='histories of targets on several memory resources, documents, sources and points of failure',
        rule='A run picks a type and a history by seed: targets are made on one of three memory resources, read, copied, moved, swapped, edited and destroyed; resources run out of memory and go away. Or it reads a plain pointer with an allocator passed to the call.', nontrivial='a document is read.',
        real=REAL + ['std::pmr containers of libstdc++'], stubs=['the memory resources and the allocator (checked, failing)', 'the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting, failing)']),
    'P19': dict(eng=['eng_p19'], lib=['env20', 'env11'], per_file=dict(env11=['-std=c++11', '-Dcxon=cxon11']), locale=True, read=0, write=0, quick=dict(main=(700000, 35)), thorough=dict(main=(20000000, 600), ndebug=(4000000, 400)), search='documents, environments and the moments at which they change',
        rule='A run picks a type, a document and a source by seed, reads and writes it in a clean environment and in a changed one (locale, C++ locale, errno, stack contents, history), as C++20 and as C++11.', nontrivial='every run compares a changed environment with a clean one.',
        real=REAL + ['the C++11 build of the library with its own number conversions', 'setlocale, strtod, snprintf of glibc'], stubs=['the locale (decimal comma, compiled by localedef)', 'the sources and sinks (simulated)'], state='what was written (by hash)'),
    'P20': dict(eng=['eng_p20'], zoo=[], lib=['cap_a', 'cap_b'], read=0, write=0, quick=dict(main=(500000, 35)), thorough=dict(main=(8000000, 600), ndebug=(4000000, 400)), search='sizes around capacities, encodings and deliveries',
        rule='A run picks a target of fixed capacity or a token and its limit, a size around it, a content and an encoding of it, by seed, and delivers it in four ways.', nontrivial='every run checks four reads against the size.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)'], state='target or token, limit, and side of it (below, at, one above, far above)'),
    'P08': dict(eng=['eng_p08'], zoo=ALL, plain=['sched'], read=0x90, write=0x25, quick=dict(main=(100000, 45)), thorough=dict(main=(8000000, 600), ndebug=(4000000, 400)), search='conversations, interleavings, pieces, delays and broken connections',
        rule='A run picks a format, the messages of both sides, how each is written and read, the capacity, pieces and delays of the connection, where it breaks, and the schedule of the two sides, by seed.', nontrivial='the two sides alternated (and, where connections break, more than one was needed).',
        real=REAL + ['std::istreambuf_iterator'], stubs=['the connection (bounded, pieces, delays, cuts)', 'the scheduler (real threads, one running at a time, switched at seeded points)', 'operator new (counting)'], state='schedules (by hash)'),
    'P09': dict(eng=['eng_p09'], zoo=ALL, read=0xFF, write=0x2F, quick=dict(main=(100000, 45)), thorough=dict(main=(8000000, 600), ndebug=(4000000, 400)), search='histories of a log: documents, syncs, crashes, full disks and recoveries',
        rule='A run picks a format, the documents of up to four lives of a log, how each is written, when it is synced, where the machine stops or the disk is full, what of the unsynced tail survives, and how it is read again, by seed.', nontrivial='the log has more than one document, or a torn tail was found.',
        real=REAL + ['std::istreambuf_iterator'], stubs=['the disk (synced prefix survives, unsynced tail is torn, fills up)', 'the sources and sinks (simulated)', 'operator new (counting, failing)'], state='contents of the log after recovery (by hash)'),
    'P10': dict(eng=['eng_p10'], zoo=ALL, quick=dict(main=(600000, 40)), thorough=dict(main=(20000000, 600), ndebug=(10000000, 400)), search='values, encodings, sources and sinks',
        rule='A run picks a type, a format, a value, a sink, a source and re-encodings by seed.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['sources and sinks (simulated iterators, streams, ranges, appenders)', 'operator new (counting)']),
    'P11': dict(eng=['eng_p11'], zoo='hij', read=0x3F, quick=dict(main=(300000, 40)), thorough=dict(main=(30000000, 500), ndebug=(15000000, 300)), search='values, routes, and failures of senders and receivers',
        rule='A run picks a value, a route (formats, node types, sources and sinks) and failures of the processes on it by seed.', nontrivial='always.',
        real=REAL, stubs=['sources and sinks (simulated)', 'operator new (counting, failing)'], state='messages with their route (by hash)'),
    'P12': dict(eng=['eng_p12'], zoo=ALL, lib=['msg'], plain=['sched'], fresh=True, read=0x91, write=0x87, quick=dict(tsan=(30000, 50)), thorough=dict(tsan=(2000000, 900)), search='scripts of threads, interleavings and faults in one of them',
        rule='A run picks one or two types, two to four threads with one to three operations each (read an own value, write an own value, write the shared constant one), a failure in some of them, and the schedule, by seed; it runs in a process of its own, so that it is the first to use the code.', nontrivial='at least one thread was preempted.',
        real=REAL, stubs=['the scheduler (real threads, one running at a time, switched at seeded points: every edge of library code, allocation and source or sink access)', 'sources and sinks (simulated)', 'operator new (counting, failing)'], state='results of operations (by hash)',
        assume=['ThreadSanitizer sees the threads as unordered: the hand-over between them is not instrumented']),
    'P13': dict(eng=['eng_p13'], zoo='', lib=['deep_a', 'deep_b', 'deep_c'], quick=dict(main=(60000, 40)), thorough=dict(main=(20000000, 500), ndebug=(10000000, 300)), search='nesting profiles, depth limits and sources',
        rule='A run picks a node type, a format, a depth limit and a nesting profile (a path of mixed constructs with siblings around it, or a bomb, or a deep member to skip) by seed.', nontrivial='the document nests.',
        real=REAL, stubs=['the sources (exactly sized heap block, simulated stream)'], state='documents (by hash)'),
    'P14': dict(eng=['eng_p14'], zoo=ALL, read=0x1F, write=1, quick=dict(main=(400000, 40)), thorough=dict(main=(20000000, 500), ndebug=(10000000, 300)), search='false lengths, targets and sources',
        rule='A run picks a type, a document whose lengths are damaged (or that consists of claims only) and a source by seed; the heap is metered and limited.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (metered, limited)']),
    'P15': dict(eng=['eng_p15'], zoo=ALL, lib=['tidy_a'], read=0x1F, write=0x81, quick=dict(main=(250000, 35)), thorough=dict(main=(20000000, 500), ndebug=(10000000, 300)), search='values, texts, layouts, sinks and refusal points',
        rule='A run picks a type and a value (or a text of one with any white space, or a damaged one, or one of another format), a layout, a sink and where it refuses by seed.', nontrivial='the layout adds white space.',
        real=REAL, stubs=['the sources and sinks (simulated)', 'operator new (counting)']),
    'P16': dict(eng=['eng_p16'], zoo='', lib=['hist_a', 'hist_b'], quick=dict(main=(400000, 40)), thorough=dict(main=(30000000, 500), ndebug=(15000000, 300)), search='histories of nodes, allocators and allocation failures',
        rule='A run picks a node type with an allocator policy and, step by step, the operation on five slots, their operands and the allocation that fails, by seed.', nontrivial='always.',
        real=REAL, stubs=['the allocators (with identity, propagating or not)', 'operator new (counting, failing)'], state='contents of the slots (kinds, sizes, allocators)'),
    'P21': dict(eng=['eng_p21'], zoo='', lib=['agree_a', 'agree_b'], quick=dict(main=(300000, 35)), thorough=dict(main=(30000000, 500), ndebug=(15000000, 300)), search='histories of nodes and indexes, encodings and allocation failures',
        rule='A run picks a kind of node and, step by step, what happens to five of them (new content, read from an encoding of another, copied, moved, changed in one place) and to indexes keyed by them, and the allocation that fails, by seed.', nontrivial='always.',
        real=REAL + ['std::set, std::map, std::unordered_set and std::unordered_map of libstdc++'], stubs=['operator new (counting, failing)'], state='kinds of the nodes compared, and their order'),
    'P17': dict(eng=['eng_p17'], zoo=ALL, read=0x1F, write=1, quick=dict(main=(500000, 45)), thorough=dict(main=(30000000, 600), ndebug=(15000000, 400)), search='documents, damage and sources',
        rule='A run picks a type, a format, a value, an encoding and damage (or a document of another type) by seed, and reads it from one source.', nontrivial='the document is longer than one byte.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting)']),
    'P18': dict(eng=['eng_p18'], zoo='k', read=0x7F, write=1, quick=dict(main=(400000, 30)), thorough=dict(main=(30000000, 500), ndebug=(15000000, 300)), search='records of senders that differ from the receiver, in series',
        rule='A run picks a record type, a format and one to four messages by seed: which members are sent in which order, with what skipped, unknown or repeated members between them, encoded how, and where one is cut.', nontrivial='always.',
        real=REAL, stubs=['the sources (exactly sized heap block, checked iterators, simulated stream)', 'operator new (counting)'], state='states of the receiver (by hash)'),
}

NA = {
}
