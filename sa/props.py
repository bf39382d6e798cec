"""What each property's check runs, and how it is described in the evidence."""
AI = 'Abstract interpretation of the LLVM IR compiled from the current sources: '

PROPS = {
    'V01': dict(
        engine=[('lib', 'V01')], level='proof', min_obligations=100,
        min_counts={'parse_cases': 30, 'encode_outcomes': 50},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR)',
        rule='Every outcome of the varint functions satisfies the RFC 3284 section 2 definition; every memory access in bounds; no signed overflow.',
        explains=AI + 'for inputs of every length the parsing loop is analysed to a fixpoint for safety and result discipline; for every encoding of at most one byte more than the longest valid one, and for every value to be encoded, the result is compared with the base-128 definition as a linear identity over the bytes.'),
    'C01': dict(
        engine=[('lib', 'C01')], level='proof', min_obligations=150,
        min_counts={'configurations': 6, 'decode_outcomes': 60, 'encode_outcomes': 30},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR)',
        rule='Address decoding returns the RFC 3284 section 5.3 value or a documented error, advances the cursor by exactly the bytes used, updates the caches as the RFC says; the encoder emits what the decoder inverts.',
        explains=AI + 'Init/Decode are analysed with symbolic cache sizes and arbitrary cache contents, encoder and decoder are compared on six concrete cache configurations with arbitrary addresses.'),
    'C02': dict(
        engine=[('lib', 'C02')], level='proof', min_obligations=1500,
        min_counts={'default_table_steps': 300, 'any_table_steps': 10},
        technique='abstract interpretation of the table and its reader over LLVM IR, against the generated RFC table',
        rule='For each of the 256 opcodes the reader delivers exactly the instructions, sizes and modes of the RFC 3284 section 5.6 default table, in order; for an arbitrary table it delivers the entry of the opcode byte, reads explicit sizes exactly when the entry says size 0, and never reads outside the section.',
        explains=AI + 'each opcode is one case; table entries of the custom table, sizes and buffer lengths are arbitrary.'),
    'H01': dict(
        engine=[('lib', 'H01')], level='proof', min_obligations=120,
        min_counts={'indicator_outcomes': 1000, 'segments_accepted': 100, 'sections_accepted': 4},
        technique='abstract interpretation of the window-header parser over LLVM IR, all indicator bytes enumerated',
        rule='A window header is accepted exactly when RFC 3284 section 4.2/4.3 (plus the documented checksum extension) allows it, yields the encoded values, and is reported incomplete exactly when the data ends early.',
        explains=AI + 'each indicator byte is one case; every other header byte, the dictionary size, the target size and the amount of data available are arbitrary.'),
    'C03': dict(
        engine=[('lib', 'C03')], level='proof', min_obligations=150,
        min_counts={'bad_entry_outcomes': 10, 'variants_accepted': 60, 'variants_rejected': 90},
        technique='abstract interpretation of the table validation over LLVM IR, with an arbitrary table and an arbitrary bad opcode',
        rule='A table with an ill-formed entry at any opcode is rejected whatever the rest holds; of the tables that differ from the default in one entry exactly those are accepted that are well-formed and keep an explicit-size opcode for ADD, RUN and each COPY mode.',
        explains=AI + 'part one: all 1536 table bytes, the opcode with the bad entry and the largest mode are arbitrary (the loop is analysed to a fixpoint with the reads of the bad entry singled out); part two: one entry of the default table replaced, enumerated.'),
    'R01': dict(
        engine=[('lib', 'R01')], level='proof', min_obligations=200,
        min_counts={'updates': 256},
        technique='abstract interpretation of the hash functions over LLVM IR, results compared as polynomials modulo 2^23',
        rule='After Init (once or twice) the hash of every window is below 2^23 and UpdateHash(hash of window, first byte, next byte) is the hash of the window shifted by one.',
        explains=AI + 'the 17 bytes are arbitrary, the removed byte is one case per value (it indexes the table built by Init); the two results are linear expressions over the bytes and compared modulo 2^23.'),
    'E02': dict(
        engine=[('lib', 'E02')], level='proof', min_obligations=1000,
        min_counts={'first_instructions': 340, 'pairs': 30000, 'combined': 200, 'triples': 1400},
        technique='abstract interpretation of the writer and its instruction map over LLVM IR, against the generated RFC table',
        rule='What the writer emits for an instruction, alone or after another one, is an opcode (new, or replacing the previous one by an opcode for both) whose type, mode and size are those of the instruction according to the code table, followed by an explicit size exactly if the opcode has none, followed by the argument in the right section.',
        explains=AI + 'the instruction map is built by the analysed constructor; every single-instruction opcode of the table is followed by every kind of second instruction; data, addresses, large sizes and everything written before are arbitrary. The default table and one custom table with explicit sizes in compound opcodes, both layouts.'),
    'W01': dict(
        engine=[('lib', 'W01')], level='proof', min_obligations=30,
        min_counts={'headers': 4, 'windows': 50, 'outputs': 60},
        technique='abstract interpretation over LLVM IR; fixpoint over all sequences of writer calls',
        rule='Every Output writes Win_Indicator, source segment, the delta length that equals the bytes that follow, the target length that equals the total of the instruction sizes, three section lengths, the checksum if and only if added, and the three sections; nothing for an empty window; addresses of a window are encoded with a fresh cache.',
        explains=AI + 'most-general client: Add, Run, Copy, AddChecksum, Init and Output in any order, any number of times, with any arguments (sections and target below 2^28 bytes), to a fixpoint; both layouts.'),
    'D01': dict(
        engine=[('lib', 'D01')], level='proof', min_obligations=250,
        min_counts={'scenarios': 50, 'accepted': 40, 'rejected': 40, 'complete': 20},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR) of the streaming decoder',
        rule='Every load, store, memcpy, string operation and cursor in the decoding of windows stays inside its object, for every byte sequence and chunking; the source segment lies inside its source.',
        explains=AI + 'DecodeChunk is analysed from StartDecoding, for first and later windows, each indicator, both formats and layouts, complete and incomplete data, and from the states left by any number of earlier calls with incomplete data (fixpoint); all bytes, lengths, the dictionary and the limits are arbitrary. The opcode reader, address cache and integers enter by their contracts, decided by C02, C01 and V01.'),
    'D02': dict(
        engine=[('lib', 'D02')], level='proof', min_obligations=400,
        min_counts={'scenarios': 50, 'complete': 20},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR) with a ghost monitor of the instruction semantics',
        rule='Each instruction appends exactly its size to the decoded target: ADD the next bytes of the data section, RUN its next byte repeated, COPY the bytes of source segment plus target window at the decoded address; opcodes, data and addresses are read at the position reached in their section; the cache is fresh for each window; an instruction that lacks data is put back untouched.',
        explains=AI + 'a monitor follows every append to the decoded target, every opcode and address read, in all decoding scenarios (first and later windows, indicators, formats, layouts, chunkings).'),
    'D03': dict(
        engine=[('lib', 'D03')], level='proof', min_obligations=400,
        min_counts={'scenarios': 80, 'accepted': 40, 'rejected': 40, 'finishes': 40},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR) with a ghost monitor of window completeness',
        rule='A window counts as complete exactly if its declared length was decoded, nothing is left over in its sections, no error occurred and the checksum (if any) matches; a delta is rejected only for a defect; FinishDecoding succeeds exactly after a complete window.',
        explains=AI + 'every return of DecodeChunk and FinishDecoding, in all decoding scenarios, is compared with what the monitor says about the window.'),
    'D04': dict(
        engine=[('lib', 'D04')], level='proof', min_obligations=400,
        min_counts={'scenarios': 80, 'suspended': 4, 'incomplete': 20},
        technique='abstract interpretation (relational dataflow over LLVM IR), fixpoint over all chunkings',
        rule='Each call parses from the first byte not used by earlier calls, keeps exactly the unused bytes, and the output is the decoded target, each byte once, in order and complete at the end of each successful call.',
        explains=AI + 'states between calls are joined to a fixpoint, so any number of chunks of any length is covered; a monitor compares the start of parsing, the bytes kept and every byte range output with the specification.'),
    'D05': dict(
        engine=[('lib', 'D05')], level='proof', min_obligations=80,
        min_counts={'scenarios': 40, 'rejected': 20},
        technique='abstract interpretation (relational dataflow to a fixpoint over LLVM IR)',
        rule='Nothing is decoded beyond the declared window length, of a window beyond the maximum window size, or beyond the maximum file size; such a window is rejected.',
        explains=AI + 'both limits are arbitrary; the total of earlier windows is the exact sum of their lengths.'),
    'D06': dict(
        engine=[('lib', 'D06')], level='proof', min_obligations=500,
        min_counts={'scenarios': 16, 'closed_states': 2, 'open_states': 2, 'complete': 30, 'finishes': 150, 'one_shot': 8},
        technique='abstract interpretation over LLVM IR; fixpoint over all sequences of uses of one decoder object',
        rule='Between FinishDecoding (or a failed call) and StartDecoding every call fails and outputs nothing; after StartDecoding the decoder satisfies the specification of a fresh one (rules of D01 to D05), whatever it was used for before.',
        explains=AI + 'the decoder states left by complete, incomplete, rejected and absent deltas in any number and order are joined to a fixpoint; from them every call order is tried, and decoding is compared with the monitor of D01-D05.'),
    'D07': dict(
        engine=[('lib', 'D07')], level='proof', min_obligations=400,
        min_counts={'header_cases': 200, 'headers_accepted': 80, 'headers_rejected': 400},
        technique='abstract interpretation of the file-header parser over LLVM IR, all splits and indicator bytes enumerated',
        rule='A file header is accepted exactly if it is D6 C3 C4, 00 or 53, and an indicator without the secondary-compressor bit; a wrong byte is an error as soon as it is there, an incomplete header is kept unchanged, windows are read from the sixth byte on.',
        explains=AI + 'every way to split the five bytes over calls and every indicator byte is one case; the bytes themselves and what follows are arbitrary.'),
    'E01': dict(
        engine=[('lib', 'E01'), ('lib', 'B01')], level='proof', min_obligations=350,
        min_counts={'scenarios': 23, 'chunks': 100, 'matches offered': 10},
        technique='abstract interpretation over LLVM IR with a ghost monitor of the position encoded; fixpoint over the matching loop',
        rule='The instructions given to the writer for a chunk are consecutive and add up to the chunk: each ADD holds the next bytes of the chunk, each COPY refers to data a match search found equal to the next bytes, in the dictionary or in the part of the chunk already encoded; then the window is output, once. The dictionary used is the encoder\'s own copy.',
        explains=AI + 'streaming encoder and engine, all flag combinations, with and without target matching; chunk, dictionary (up to 2^30 bytes each), hash values and results of the match search are arbitrary within the contract of FindBestMatch, which is decided as well (see B01); the matching loop is analysed to a fixpoint, as are sequences of calls.'),
    'E03': dict(
        engine=[('lib', 'E03')], level='proof', min_obligations=150,
        min_counts={'scenarios': 16, 'starts': 50, 'finishes': 20, 'refused': 50, 'one_shot': 20},
        technique='abstract interpretation over LLVM IR; fixpoint over all sequences of encoder calls',
        rule='The header is written by StartEncoding, for the flags asked for, if and only if the writer accepts the dictionary; chunks are encoded and the writer finished only between StartEncoding and FinishEncoding; a checksum of exactly the chunk is added if and only if asked for; Encode is the three calls in order and fails if one fails.',
        explains=AI + 'most-general client over StartEncoding, EncodeChunk, FinishEncoding in any order and number, and over VCDiffEncoder::Encode; the writer is arbitrary (every return value tried).'),
    'J01': dict(
        engine=[('lib', 'J01')], level='proof', min_obligations=1500,
        min_counts={'byte_values': 128, 'instructions': 1000, 'outputs': 300, 'finishes': 300, 'verified': 4},
        technique='abstract interpretation over LLVM IR with a ghost JSON parser on the text written; fixpoint over all sequences of writer calls',
        rule='What the JSON writer outputs between Init and FinishEncoding is one JSON array: for each ADD and RUN a string whose characters are the bytes, for each COPY its address and its size as numbers; dictionary and chunks are accepted exactly if they are ASCII.',
        explains=AI + 'most-general client over Init, Add, Copy, Run, Output and FinishEncoding; data of any length and contents, an arbitrary position singled out with each of the 128 byte values in turn.'),
    'L01': dict(
        engine=[('cli', 'L01')], level='proof', min_obligations=350,
        min_counts={'scenarios': 35, 'successes': 17, 'failures': 30},
        technique='abstract interpretation over LLVM IR of the whole command-line program, with a ghost monitor of files and data',
        rule='On every path of main, with every stdio, flag and library call failing or succeeding: exit code 0 exactly if nothing failed; then all input was passed on, all output written and flushed (or compared to the end), and flags and dictionary were passed as given.',
        explains=AI + 'main is analysed for each command, with and without file names; file contents and sizes, buffer size, flags, amounts read and produced and the outcome of each call are arbitrary; the read/write loops are analysed to a fixpoint.'),
    'T01': dict(
        engine=[('lib', 'T01')], level='proof', min_obligations=200,
        min_counts={'functions': 250, 'roots': 15, 'tainted values': 40, 'writes': 200},
        technique='interprocedural taint and effect analysis over LLVM IR (shared memory is not written)',
        rule='No store, memory intrinsic or mutating external call reachable from the public encoder and decoder classes has a destination in static storage, in the dictionary shared by encoders or in anything reached from them, unless it is atomic, under a lock or in the initialiser of a function-local static; the rolling hash table is published after it is filled.',
        explains='Flow-insensitive fixpoint over all functions reachable from the methods of VCDiffStreamingEncoder, VCDiffStreamingDecoder, VCDiffEncoder and VCDiffDecoder, with virtual calls resolved through the tables of virtual functions; pointers to static variables and to the dictionary are followed through calls, members and memory, and every write in those functions is an obligation.'),
    'B01': dict(
        engine=[('lib', 'B01')], level='proof', min_obligations=150,
        min_counts={'scenarios': 7, 'matches offered': 10, 'table sizes': 30, 'tables': 20, 'additions': 6, 'extensions': 2},
        technique='abstract interpretation over LLVM IR with ghost stretches of equal bytes; fixpoint over the search and extension loops',
        rule='Hash tables hold -1 or numbers of blocks that were added, after Init and after every addition; every access lies inside tables and data; every match FindBestMatch offers covers the candidate block, lies inside the data searched and the target, goes through a block that was added, and is covered by stretches found equal by the comparisons made.',
        explains=AI + 'data, target, hash values and table contents are arbitrary; additions and searches start from tables with arbitrary entries of the kind the rule allows (so every history of additions is covered); the two functions that extend a match are analysed on their own, with an arbitrary position, and enter the search by what was shown for them.'),
}
