"""What each property's check is built from and how it is run."""
CHECKS = {
    'P01': dict(engine='sched', src=['p01.cpp'], level='model_checking',
                bounds='all programs of 1-2 operations by 2 threads, 1 by 3, selected by 4; capacities 1-2 (thorough 3); preemption bound 2-3; expiring timed waits and spurious wake-ups counted'),
    'P02': dict(engine='sched', src=['p02.cpp'], level='model_checking',
                bounds='all programs of 3 operations by 2 threads, 2 by 3, and 1 by 3 beside a producer-consumer; initial contents 0-2; preemption bound 3-4 (thorough 4-5)'),
    'P03': dict(engine='sched', src=['p03.cpp'], level='model_checking',
                bounds='all programs of 1-3 operations by 2 threads (thorough 4), 1-2 by 3, selected by 4; initial counts 0-2; preemption bound 2-3 (thorough 3-4); one spurious wake-up (thorough 1-2)'),
    'P04': dict(engine='sched', src=['p04.cpp'], level='model_checking',
                bounds='1-4 threads (thorough 5), 1-4 rounds, reconfigured up to twice; preemption bound 0-4; one spurious wake-up'),
    'P05': dict(engine='sched', src=['p05.cpp'], level='model_checking',
                bounds='1-3 threads (thorough 4), 1-2 uses each (thorough 3), 0-2 runs that throw, with and without destruction code, in clean and in used memory; preemption bound 2-6'),
    'P10': dict(src=['p10.cpp'], level='model_checking',
                bounds='all trees of up to 6 nodes (thorough 7) over 2-3 keys, each with every lookup path of up to 4 keys and every operation on every node; all operation sequences of length 4 (thorough 5); all ordered pairs of trees of up to 5 nodes (thorough 6) cascaded in four ways'),
    'P11': dict(src=['p11.cpp'], level='model_checking',
                bounds='all directed graphs of up to 3 nodes with self loops in every insertion order, of 4 nodes with up to 6 edges (thorough: all 65536) in 12 (thorough 24) orders, of 5 nodes with up to 5 edges (thorough: all 2^20); all operation sequences of length 3 (thorough 4) over 3 names from four starting graphs'),
    'P32': dict(src=['p32.cpp'], level='exploration', rule='distinct values and texts',
                bounds='all values of the 8 and 16 bit types; values within 40 of every power of 2 and of 10 of the wider types; floating point boundary values and their neighbours; all texts of up to 4 characters (thorough 5) over 11 characters, and of up to 2 (thorough 4) more after the leading digits of each limit; five bases'),
    'P30': dict(src=['p30.cpp'], level='exploration', rule='distinct code points (one in 32), sequences and byte strings',
                bounds='every code point; all sequences of up to 3 (thorough 4) of 17 boundary values; all byte strings of up to 4 (thorough 5) of 25 boundary bytes'),
    'P31': dict(src=['p31.cpp'], level='exploration', rule='distinct texts',
                bounds='all texts of up to 5 characters (thorough 6) of 5-8 one to four byte characters, each with all arguments of up to 3 (thorough 4) characters; all replacements in texts of up to 6 (thorough 7); four regular expressions on all texts of up to 6 (thorough 7)'),
    'P36': dict(src=['p36.cpp'], level='exploration', rule='distinct contents and splits', libs=['-lcrypto', '-lz'], flags=['-fno-sanitize=alignment'],
                bounds='four content patterns of every length up to 420 (thorough 1200) bytes and around 4096, 65536 and one and two read buffers, as text, stream, slow stream and file; every split in two of up to 290 (thorough 420) bytes; all triples of 18 boundary pieces; SHA3 and Keccak of all widths, reuse and HMAC of every length up to 330 (thorough 600)'),
    'P37': dict(src=['p37.cpp'], level='model_checking',
                bounds='all sequences of up to 7 (thorough 9) calls, four ways of leaving the scope; the movable version 6 (thorough 8) calls and moves, two ways'),
    'P38': dict(src=['p38.cpp'], level='exploration', rule='distinct printed texts and instants',
                bounds='floating point values of 61 decimal exponents and 10 mantissas with neighbours, both signs, 0-7 (thorough 12) decimals; all integers around the powers of 1000, 1024, 10 and 2; every second of 25 (thorough 111) hours with 21 fractions, both signs; 0-20 (thorough 40) bytes with every line length up to 45 and group size up to 9; every day of several years around leap days and century ends'),
    'P33': dict(src=['p33.cpp'], level='model_checking', libs=['-lzip', '-lz'],
                bounds='all sequences of up to 4 (thorough 5) of 19 operations and 2 session ends; 20 content sizes around the buffers put in three ways; all names of up to 5 characters over slash, blank and a letter; every call on a closed archive; every truncation and 4 (thorough 10) changes of every byte of a small archive'),
    'P34': dict(src=['p34.cpp'], level='fault_enumeration', libs=['-lz'], rule='distinct contents and damaged archives',
                bounds='four content patterns of every length up to 150 (thorough 600) bytes and around eight buffer sizes, three ways of compressing, four of decompressing, and archives of other writers; every truncation and 9 (thorough 255) changes of every byte of four small archives'),
    'P35': dict(src=['p35.cpp'], level='model_checking',
                bounds='all byte strings of up to 4 (thorough 5) of 6 bytes and all texts of up to 4 (thorough 5) of 10 characters of one to four bytes; multi-byte characters at every offset around 14 buffer sizes; all directory trees of up to 4 (thorough 5) entries; all histories of 6 (thorough 8) writes, directory creations and removals of one path; path construction over 4 components'),
    'P27': dict(src=['p27.cpp'], level='exploration', rule='distinct texts',
                bounds='all texts of up to 6 (thorough 7) of the 9 significant characters after a scheme and two slashes, of up to 5 (thorough 6) in four other places; well formed and broken characters of several bytes in 12 places; all combinations of 4 schemes, 4 users, 6 hosts, 13 ports, 7 paths, 4 queries and 4 fragments; lengths around the limit'),
    'P28': dict(src=['p28.cpp'], level='exploration', rule='distinct paths, bases and references', libs=['-lzip', '-lz'],
                bounds='normalisation of all paths of up to 8 (thorough 9) pieces; all references of up to 5 (thorough 6) pieces against 160 http, 17 file and archive bases and the entries of an archive; file URIs of all paths of up to 4 (thorough 5) pieces'),
    'P29': dict(src=['p29.cpp'], level='exploration', rule='distinct texts',
                bounds='all texts of up to 7 (thorough 8) of 7 characters, of up to 5 (thorough 6) of 12 escapes and characters; every two characters after a percent sign; all texts of up to 4 (thorough 5) of 10 characters encoded in three ways; all parameter strings of up to 7 (thorough 8) of 7 pieces'),
    'P16': dict(src=['p16.cpp'], level='exploration', rule='distinct command lines and numbers',
                bounds='all command lines of up to 4 (thorough 5) of 13-15 arguments, three styles, with, without and with optional final values, parsed first and again; all numbers of up to 5 (thorough 6) of 9 characters and values within 3 of the limits; help texts for a grid of widths'),
    'P12': dict(src=['p12.cpp'], level='exploration', rule='distinct texts',
                bounds='12 names by 16 values in 126 layouts, alone, nested and with a continuation at each of 5 (thorough 12) places; all trees of up to 4 (thorough 5) nodes and 3 levels of 8 leaves in 5 layouts'),
    'P13': dict(src=['p13.cpp'], level='exploration', rule='distinct texts',
                bounds='all texts of up to 5 (thorough 6) of 12 characters, 7 (thorough 8) of 6, 6 (thorough 7) of two sets of 9 pieces, and of up to 5 (thorough 6) more within longer texts; all byte strings of up to 5 (thorough 6) of 11 bytes'),
    'P14': dict(src=['p14.cpp'], level='model_checking',
                bounds='all texts of up to 6 (thorough 7) of 7 characters and 4 (thorough 5) of 12; all histories of 5 (3 over lists of four tokens; thorough 5) calls over all lists of up to 4 (thorough 5) tokens of 5 kinds in all 8 whitespace modes; all histories of 5 (thorough 6) of 20 operations over four lists'),
    'P08': dict(src=['p08.cpp', 'p08a.cpp', 'p08b.cpp', 'p08c.cpp', 'p08d.cpp', 'p08e.cpp', 'p08f.cpp'], level='model_checking',
                bounds='all configurations of three nodes: absent or in the parent, the child or both, lazy, eager or thread-local, every set of dependencies (also on themselves), shared; the same without thread-local for const promoted, weak and unique dependencies; three nodes over three injectors, each in at most one of them (thorough: in any); thorough: all configurations of four lazy or eager nodes with at most three dependencies each in one injector; bindings given twice in five ways; the injector injected in four forms'),
    'P09': dict(src=['p09.cpp', 'p09i.cpp', 'p09m.cpp'] + ['p09m_%d.cpp' % k for k in range(10)], opt='-O0', level='model_checking',
                bounds='all sets of shared and const shared, reference and const reference, value and unique, unique with and without deleter bindings unnamed and named over three injectors, with both names over two (thorough three), and of five names over two; prototype children; 0-150 (thorough 0-400) and 22 other numbers up to 5000 of named bindings; all kinds together in one injector (thorough two, and two names); 15 types of members with all sets of 6 bindings in parent and child; 24 ways of binding with all patterns of up to four requests; ten injection macros with 0 to 16 dependencies, each of them absent once'),
'P07': dict(src=['p07.cpp'], level='model_checking',
                bounds='all acyclic graphs of three lazy or eager nodes bound in every order with all patterns of up to two later requests; all sequences of up to 3 (thorough 4) of 7 registrations divided in four ways over configurations and a child, created in four ways, the calls of a constructor in 8 combinations; every place at which a creation or a later request throws in a chain of three'),'P06': dict(engine='sched', src=['p06.cpp'], level='model_checking',
                bounds='13 requests on an injector with lazy, dependent, named, thread-local and new-instance bindings, alone and in parent and child: all pairs by 2 threads, first 0-2 constructions throwing; all pairs of two requests by 2 threads; all triples by 3; preemption bound 2-3 (thorough 3-4)'),'P15': dict(src=['p15.cpp'], level='model_checking', libs=['-lzip', '-lz'],
                bounds='one property with every combination of 8 specifications in two files and in the code and 6 values, at three depths beside five kinds of siblings; 16 types with their limits as values and defaults in two places; all ways of spreading four properties over up to three value files; all chains of 3 (thorough 4) includes in four relative places within or outside composites; nine constructors and six patterns of use'),'P17': dict(src=['p17.cpp'], balau=['logging'], level='model_checking', libs=['-lzip', '-lz'], leaks=0,
                bounds='all single configurations of five namespaces with 3-5 (thorough: all 8) choices each, every level alone, in letter cases; all pairs of configurations of three namespaces with 4 choices (thorough 5, and triples); loggers obtained before in five patterns; two routes; reset, failed and locked configurations; 12 loggers, five levels, twelve ways to log'),
    'P18': dict(src=['p18.cpp'], balau=['logging'], level='model_checking', libs=['-lzip', '-lz'], leaks=0,
                bounds='all formats of up to three (thorough: four) of 26 tokens; all messages of up to six (thorough: eight) characters over braces and text with up to three parameters; all inheritance patterns of formats over five namespaces with loggers obtained before in four patterns'),
    'P19': dict(src=['p19.cpp'], balau=['logging'], level='model_checking', libs=['-lzip', '-lz'], leaks=0,
                bounds='all 64 subsets of the stream options of a namespace with subsets for its ancestor (thorough: all) and three (thorough: six) for the root; standard, shared, quoted and eleven kinds of invalid streams in every option; all flush settings of four namespaces; all pairs (thorough: triples) of 32 configurations; files in all combinations of seven circumstances'),
        'P21': dict(engine='sched', src=['p21.cpp'], level='model_checking', libs=['-lboost_serialization', '-lrt'],
                bounds='objects of 1-3 messages, 1-3 producers, 1-2 consumers, up to 3 operations each, capacities 1-3, through one handle, handles opened by name, and open-or-create by every thread; preemption bound 0-2 (thorough 1-3), one expiring timed wait (thorough 2); every object size up to 5 messages; all operation sequences of length 5 (thorough 6) by one thread in three time zones'),
        'P22': dict(src=['p22.cpp'], level='model_checking', libs=['-lrt'],
                bounds='all sequences of 4 operations (thorough 6) of creating, opening, opening read-only, opening or creating, writing, destroying, moving and assigning over two names and three handles, for both kinds; two processes taking every combination of three turns, with seven ways of sharing; 14 sizes; names of up to 200 characters more'),
        'P23': dict(src=['p23.cpp'], level='model_checking', engine='plain',
                bounds='all 256 return values and 8 beyond, exit codes, 23 signals (thorough: all exit codes, and the real-time signals), by three ways to fork, seen by every call; all sequences of 5 calls (thorough 7) and events (end, stop, continue) about one child of five kinds, of 4 (thorough 6) about two; all subsets of three ended children'),
        'P25': dict(src=['p25.cpp'], opt='-O0', level='exploration', rule='distinct operand pairs, exception behaviours and expectations', bounds='all pairs of 5-10 boundary values of eight number types with up to 6 deltas; all pairs of texts of up to 3 (thorough 4) of 4 characters, with line ends, tabs, long texts and wide characters; all pairs of vectors, lists and sets of up to 2-3 (thorough 4) elements of four types; every assertion kind, each in its 4-8 forms; 12 behaviours of a function against 9 exception types, 4 kinds of expectation and 3 values; a class hierarchy of 6'),
        'P26': dict(src=['p26.cpp'], balau=['testing'], level='exploration', rule='distinct selections', bounds='8 tests in three groups against all patterns of up to 4 (thorough 5) of 4 characters behind 7 group patterns; 12 tests with special characters in their names against 27 patterns in 4 groups; all pairs of 9 patterns separated in 6 ways, and triples; all 63 sets of 6 tests; with and without namespaces, in every execution model'),
        'P24': dict(src=['p24.cpp'], balau=['testing'], level='fault_enumeration', rule='distinct plans', shards=16, bounds='all sequences of up to 3 (thorough 4) of 4-9 behaviours without isolation, 1-3 workers; with isolation all 15 behaviours alone, all pairs of 11 (thorough 15), all triples of 3 (thorough 5), with 1-8 workers; every order of ending of three concurrent tests; 4-6 behaviours of set-up and of tear-down; every set of models of a group; up to 204-300 tests'),
        'P40': dict(src=['p40.cpp'], balau=['testing', 'logging'], level='exploration', rule='distinct reports, runs and sequences of writes', bounds='all sequences of up to 5 (thorough 6) outcomes; every byte and 24 other pieces alone, doubled and within a text, and all pairs (thorough triples) of 40 pieces, as messages and as names; long texts, 3000 tests; whole runs of up to 3 tests in every execution model; all sequences of up to 4 (thorough 5) values of 8 kinds to seven combinations of writers'),
    'P20': dict(engine='sched', src=['p20.cpp'], balau=['logging'], level='model_checking', rule='distinct executions (event histories) of the real logging system', bounds='two or three threads, one to two operations each; preemptions up to 2 (thorough 3) for loggers and logging, 1 (thorough 2) with configuration', technique='stateless model checking of the real logging system under a controlled scheduler, every schedule in a process of its own; happens-before race detection in every schedule'),
    'P39': dict(src=['p39.cpp'], balau=['logging', 'mime', 'Balau/Network/Utilities/BalauLogger.cpp'], level='exploration', opt='-O0', rule='distinct paths and log calls', bounds='every standard extension in every case after 17 kinds of path; all paths of up to 7 (thorough 8) of five characters over few types; all pairs of levels, all ways to log with up to two parameters, three loggers made in three ways'),
    'P41': dict(src=['p41.cpp'], level='exploration', rule='distinct ranges and seeds', bounds='all pairs of 16-28 boundary values of ten number types as ranges, 48 (thorough 256) seeds, 32 (thorough 64) numbers each; ranges of 1-10 (thorough 25) representable values, all of which must occur; normal distributions of 20 parameters and 64 seeds'),
    'P42': dict(src=['p42.cpp'], level='exploration', opt='-O0', libs=['-ldl'], rule='distinct environments', bounds='seven functions, each in 12 values of HOME, 7 of the XDG variable (25 of two variables for the runtime directory), 31 user database answers (entries of 14 sizes, names, directories, none, errors) and three pairs of names; each called twice, also after the environment has changed'),
    'P43': dict(src=['p43.cpp'], level='exploration', opt='-O0', rule='distinct contents', bounds='all sequences of up to 4 (thorough 5) of three values, with all of up to 3, in four combinations of containers; all texts of up to 5 (thorough 6) of six characters; 8 sets of 200 UUIDs, all pairs'),
    'P44': dict(src=['p44.cpp'], level='exploration', opt='-O0', rule='distinct assertions and exceptions', bounds='seven forms of assertion with both values of the condition and messages of up to three (thorough four) of seven pieces, each in a process of its own; eight kinds of exceptions with every such message, all pairs'),
    'P45': dict(engine='sched', src=['p45.cpp'], balau=['testing'], level='model_checking', rule='distinct executions (event histories) of the real test runner', bounds='one to three tests of one or two groups that pass, fail, throw or are ignored, failing set-up and tear-down code, by two or three worker threads; preemption bound 0-2 (thorough 1-3)', trust='Trusts the scheduler runtime (lib/vsched.cpp), the compiler\'s instrumentation and the harness.')}
