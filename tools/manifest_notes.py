TECH_DEFAULT = 'TLA+ specification checked with TLC; TLC trace validation of the recorded answers of the real library'
NOTE_DEFAULT = ('Every code point 0..10FFFF is observed through both receivers and validated against the TLA+ definition; '
                'trusts the pinned conversion of UCD 15.1.0 (spec/data) and TLC.')
TECH['P01'] = ('TLA+ UAX #29 rules and iterator automaton model-checked with TLC; automaton replayed in lockstep against '
               'the real iterator; recorded segmentations validated by TLC')
NOTE['P01'] = ('Exhaustive over class words up to length 5 (6 thorough) with varying members, every scalar value in '
               'class-distinguishing contexts, pumped contexts up to 65538 repetitions, random texts; automaton = rules '
               'for all class texts up to length 4 (5 thorough).')
TECH['P02'] = 'TLA+ iterator protocol machine; TLC validates recorded drives of the real iterator (next, size_hint, adaptors, after exhaustion)'
NOTE['P02'] = 'Exhaustive short class words and short texts over eleven alphabets consumed in every way; sampled drives recorded call by call; long clusters.'
TECH['P03'] = 'TLA+ locality theorem model-checked with TLC; recorded splits and joins of real segmentations validated by TLC'
NOTE['P03'] = 'Automaton-state and boundary contexts exhausted at class level; members and long texts sampled.'
for p, f in (('N01', 'NFD'), ('N02', 'NFKD'), ('N03', 'NFC'), ('N04', 'NFKC')):
    TECH[p] = ('TLA+ definition of %s and the streaming machine model-checked equal with TLC on character alphabets; TLC validates '
               'recorded results of the real function' % f)
    NOTE[p] = ('Every scalar value in fixed and seeded random contexts, all primary composite pairs and class words, seeded random '
               'families, runs of up to thousands of marks; arbitrary texts are sampled.')
TECH['N05'] = 'TLA+ rewriting machine of canonical equivalence explored by TLC and replayed into the library; recorded laws validated by TLC'
NOTE['N05'] = 'Every scalar value in contexts plus sampled texts; equivalence classes explored exhaustively from each seed text.'
NOTE['N06'] = 'Runs of marks of every combining class, up to 4100 long, repeated and neighbouring characters, and mixed texts in all four forms; sampled beyond that.'
NOTE['N07'] = 'All 11172 syllables, all modern L V T and LV T, all triples over 21 critical jamo, seeded jamo texts.'
NOTE['N08'] = 'All code points for comp_ex/ce, every excluded character and primary composite in contexts, random texts for stability.'
NOTE['N09'] = 'Every scalar value at a split point in fixed and seeded contexts; sampled pairs of texts elsewhere.'
NOTE['U06'] = 'All code points exhaustively for the four properties; identifier closure under the four forms on sampled texts.'
NOTE['U11'] = 'Every value of every enumeration, names checked in both directions.'
NOTE['U12'] = 'Every u32 through the constructor, every char through the conversion, every printed form.'
TECH['U13'] = 'TLA+ order relation on version triples; TLC validates recorded comparisons, fields and ordering laws'
NOTE['U13'] = 'Boundary and seeded random triples; the ordering laws are checked over all recorded pairs.'
NOTE['U14'] = 'Every code point through both receivers; about 80 cross-property laws evaluated by TLC on the recorded answers alone.'
TECH['T01'] = 'TLA+ definition of two-stage lookup; TLC validates recorded lookups of the real type'
NOTE['T01'] = 'Block sizes 1..2^24, nine element/index type combinations, up to 530000 blocks and 4.3 million entries; all positions of small tables, boundaries and samples of large ones.'
TECH['T02'] = ('TLA+ table-builder machine model-checked lossless with TLC; tables made by the real generator and compiled from its emitted '
               'source are read back by TLC over the whole code space')
NOTE['T02'] = 'Block sizes dividing 0x110000; seeded random and adversarial range lists; each table checked for all 1114112 code points.'
TECH['T03'] = 'TLA+ interval machine; TLC validates recorded call histories of the real Python classes'
NOTE['T03'] = 'Seeded random histories; every Missing list of three appends within four points.'
TECH['T04'] = ('The generator is run in scratch copies; the library compiled from its output is observed over all code points and validated by '
               'TLC against the TLA+ specification; the generated test cases are validated likewise')
NOTE['T04'] = 'The bundled data 15.1.0 only; exhaustive over code points.'
TECH['T05'] = 'The printed Rust is compiled in a scratch crate; its rows are validated by TLC against the TLA+ alias relation'
NOTE['T05'] = 'Exhaustive over the bundled aliases.'
TECH['H01'] = 'TLA+ history machine (answers depend on the call alone); TLC validates recorded interleaved and threaded sessions against fresh-process references'
NOTE['H01'] = 'Seeded random sessions on one and several threads, sweeps of every query in several orders and threads; schedules sampled.'
TECH['T06'] = 'TLA+ machine of the data script model-checked with TLC; TLC validates recorded runs of the real script against stand-in converters'
NOTE['T06'] = 'All .env files of up to 3 line kinds on the model; seeded histories of runs of the real script; files read by the other scripts recorded by an audit hook.'
TECH['T07'] = ('Synthetic data sets run through the real generator; the library compiled from its output is observed over all code points and validated by '
               'TLC against the TLA+ specification reading the same data')
NOTE['T07'] = 'Seeded data sets (one in the quick tier, several in the thorough tier); each exhaustively over code points. Segmentation is not compared on them.'
TECH['T08'] = 'Seeded alias data; the printed Rust is compiled in a scratch crate; a TLA+ machine that reads each alias character by character gives the identifier, TLC compares the rows'
NOTE['T08'] = 'Alias data is sampled (sizes 1 to 400, several shapes).'
