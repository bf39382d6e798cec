#!/usr/bin/env python3
"""The property catalogue; run it to regenerate properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

def P(id, title, statement, over, text, why, files, mechanism, observe=None, na=None, note=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          observe_at=observe or [], hook_needed=None))
    return d, na, note

CATALOG = [
 P('V01', 'Variable-length integers encode and decode exactly as RFC 3284 defines',
   'For both integer widths, parsing any byte sequence either yields exactly the base-128 value its bytes encode and advances past exactly those bytes, or reports an error (no terminating byte within the maximum number of bytes of the width, or a value beyond the signed maximum), or reports end of data when the bytes stop before the integer does; on failure the position is not moved. Encoding any non-negative value, to a buffer or appended to a string, writes the unique shortest encoding, the reported length equals the number of bytes written, and parsing it gives the value back. No byte outside the given range is read or written.',
   ['inputs'], 'every byte sequence of every length, every non-negative value of 32 and 64 bits',
   'Tests sample about a dozen values; the space of encodings, truncation points and overflow boundaries is 2^70.',
   ['src/varint_bigendian.cc', 'src/varint_bigendian.h'],
   [('VarintBE::Parse', 'src/varint_bigendian.cc'), ('VarintBE::Encode', 'src/varint_bigendian.cc'), ('VarintBE::Length', 'src/varint_bigendian.cc'), ('VarintBE::EncodeInternal', 'src/varint_bigendian.cc')],
   note='All encodings and values covered; the value identity is decided for each encoding length separately (all lengths up to one byte beyond the maximum), longer input by the loop fixpoint.'),
 P('C01', 'COPY address cache: decoding follows RFC 3284 5.3 and inverts encoding',
   'For any cache sizes that initialisation accepts, any cache contents and any bytes, decoding a COPY address gives exactly the address that the mode (SELF, HERE, NEAR, SAME) stands for when that lies in [0, here), otherwise an error, or end of data when bytes are missing; the position advances past exactly the bytes used on success and is unmoved at end of data; and the caches are updated with each decoded address as the RFC prescribes. An address encoded by the encoder side, written as the returned mode and value say, decodes back to the same address and leaves both caches equal. Initialisation accepts exactly cache sizes that are non-negative and fit the mode byte, clears the caches, and no access leaves the caches or the input.',
   ['inputs', 'histories', 'configurations'], 'every address, every mode byte, every cache content reachable by any sequence of addresses, every cache configuration',
   'Tests use the default 4/3 caches plus a few sizes and a few hundred addresses; the invariants must hold for arbitrary custom configurations coming from untrusted delta files.',
   ['src/addrcache.cc', 'src/addrcache.h'],
   [('VCDiffAddressCache::DecodeAddress', 'src/addrcache.cc'), ('VCDiffAddressCache::EncodeAddress', 'src/addrcache.cc'), ('VCDiffAddressCache::UpdateCache', 'src/addrcache.cc'), ('VCDiffAddressCache::Init', 'src/addrcache.cc')],
   note='Decode and Init with symbolic cache sizes; the encode/decode inversion for six concrete size pairs.'),
 P('C02', 'Opcodes are read exactly as the code table in force defines them',
   'With the default code table, each of the 256 opcodes yields exactly the instructions, sizes and modes that RFC 3284 section 5.6 lists, in order. With any other valid table, each opcode yields the first and then the second instruction of its entry (skipping NOOPs), reading an explicit size exactly when the entry gives size 0; a missing size is end of data with the position put back to the start of that instruction, a malformed one is an error, putting an instruction back makes the same instruction be read again, and nothing outside the instruction section is read.',
   ['inputs', 'configurations'], 'every opcode, every table content, every section length and content',
   'Tests read selected opcodes from the default table and one or two custom tables; a wrong table entry or a wrong resume point only shows for specific opcodes and truncation points.',
   ['src/codetable.cc', 'src/codetable.h', 'src/decodetable.cc', 'src/decodetable.h'],
   [('kDefaultCodeTable', 'src/codetable.cc'), ('VCDiffCodeTableReader::GetNextInstruction', 'src/decodetable.cc'), ('VCDiffCodeTableReader::UnGetInstruction', 'src/decodetable.h'), ('VCDiffCodeTableReader::UseCodeTable', 'src/decodetable.cc')],
   note='Default table decided opcode by opcode against a table generated from the RFC; other tables with arbitrary contents.'),
 P('H01', 'Window headers are accepted exactly as the format allows',
   'A delta window header is accepted exactly when the format allows it: at most one of the source and target flags, the target flag only where permitted, a source segment lying inside its source, lengths and checksum well-formed, no compressed sections, and header plus section lengths adding up to the declared delta length. When accepted, every value returned is the encoded one and exactly the header bytes are consumed; when the data ends early the result is end of data; anything else is an error, and no byte beyond the data is read.',
   ['inputs', 'configurations'], 'every header byte sequence, truncation point, dictionary size, amount already decoded',
   'Tests mutate one or two fields of one sample header; the acceptance rules are conjunctions of comparisons on 31-bit and 63-bit quantities, wrong only at boundaries.',
   ['src/headerparser.cc', 'src/headerparser.h'],
   [('ParseWinIndicatorAndSourceSegment', 'src/headerparser.cc'), ('ParseWindowLengths', 'src/headerparser.cc'), ('ParseDeltaIndicator', 'src/headerparser.cc'), ('ParseSectionLengths', 'src/headerparser.cc'), ('ParseSourceSegmentLengthAndPosition', 'src/headerparser.cc')],
   note='All indicator bytes enumerated; all other header values arbitrary.'),
 P('C03', 'Exactly the well-formed custom code tables are accepted',
   'A custom code table is accepted only if, for every opcode and both of its instructions, the instruction type is known, a NOOP has size 0, a mode other than 0 occurs on COPY only and no mode exceeds the largest one; and only if ADD, RUN and COPY in every mode each have an opcode of their own (second instruction NOOP) with explicit size. A table that satisfies all of this is accepted.',
   ['inputs'], 'every 1536-byte table, every opcode, every largest mode',
   'Tests corrupt a handful of entries; the table comes from an untrusted delta file and a missed entry at one opcode goes unnoticed until a crafted table uses it.',
   ['src/codetable.cc'],
   [('VCDiffCodeTableData::Validate', 'src/codetable.cc'), ('VCDiffCodeTableData::ValidateOpcode', 'src/codetable.cc')],
   note='Rejection of a bad entry: every table, every opcode. Completeness (every needed opcode present) and acceptance: tables that differ from the default table in one entry.'),
 P('R01', 'The rolling hash of a shifted window equals the hash computed afresh',
   'For every 17 consecutive bytes, updating the hash of the first 16 with the byte that leaves and the byte that enters gives exactly the hash of the last 16, and every hash lies below 2^23 (the range that the hash table index is computed from); setting up the hasher again changes nothing.',
   ['inputs'], 'every 17-byte sequence', 'A wrong entry of the removal table affects one byte value only; tests hash a few random buffers, and a wrong update only makes the encoder miss matches silently.',
   ['src/rolling_hash.h'],
   [('RollingHash::UpdateHash', 'src/rolling_hash.h'), ('RollingHash::Init', 'src/rolling_hash.h'), ('RollingHash::Hash', 'src/rolling_hash.h'), ('RollingHashUtil', 'src/rolling_hash.h')],
   note='Window size 16, the one the library uses.'),
 P('E02', 'The opcodes written stand for exactly the instructions given',
   'Whatever sequence of ADD, RUN and COPY instructions the writer is given, the opcodes and sizes it writes stand, according to the code table in use, for exactly those instructions in that order: an opcode is only replaced by a compound opcode whose first half is the instruction already written and whose second half is the new one with its size and mode, an explicit size is written exactly when the opcode has none, and each instruction\'s argument (the data of an ADD, the byte of a RUN, the address of a COPY encoded relative to dictionary size plus bytes encoded so far) is written once, to the section it belongs to.',
   ['inputs', 'histories', 'configurations'], 'every pair of consecutive instructions, all sizes, modes and arguments, both layouts',
   'Tests check a few sequences; there are 256 opcodes times the second instruction, and a wrong lookup corrupts only the deltas that contain that pair.',
   ['src/encodetable.cc', 'src/instruction_map.cc', 'src/instruction_map.h', 'src/codetable.cc'],
   [('VCDiffCodeTableWriter::EncodeInstruction', 'src/encodetable.cc'), ('VCDiffInstructionMap', 'src/instruction_map.cc'), ('VCDiffCodeTableWriter::Copy', 'src/encodetable.cc')],
   note='All pairs over the default table (triples after a compound opcode); one custom table. Sizes above 19 as one case.'),
 P('W01', 'Written windows declare exactly what they contain',
   'Every window the VCDIFF writer outputs, after any sequence of calls, consists of: the indicator (checksum flag exactly if a checksum was added), the whole dictionary as source segment, a delta length equal to the number of bytes after it, a target length equal to the sum of the sizes of the instructions, an uncompressed indicator, three section lengths equal to the sections that follow, the checksum given, and the data, instruction and address sections in that order and complete; a window without instructions writes nothing, each window starts with empty sections and a fresh address cache, and the file header is the one for the extensions in use.',
   ['inputs', 'histories', 'configurations'], 'every sequence of writer calls with any arguments',
   'Tests write one or two windows; carried-over state or a wrong length for some size class only shows in longer sequences.',
   ['src/encodetable.cc', 'src/google/encodetable.h'],
   [('VCDiffCodeTableWriter::Output', 'src/encodetable.cc'), ('VCDiffCodeTableWriter::CalculateLengthOfTheDeltaEncoding', 'src/encodetable.cc'), ('VCDiffCodeTableWriter::Init', 'src/encodetable.cc'), ('VCDiffCodeTableWriter::WriteHeader', 'src/encodetable.cc')],
   note='Any number of windows and instructions by fixpoint; total sizes below 2^28.'),
 P('D01', 'Decoding any data never touches memory outside its buffers',
   'Whatever bytes a delta consists of, however they are split into chunks, whatever the dictionary and the limits: decoding reads only the chunk given, the data kept from earlier chunks, the dictionary and the target decoded so far, writes only the decoder\'s own state and the output, and follows no pointer into data that an earlier call has given back.',
   ['inputs', 'histories', 'configurations'], 'every delta (valid or not), every chunking, every dictionary',
   'The decoder handles untrusted input; tests and fuzzers sample it, one missed bound is an exploitable hole.',
   ['src/vcdecoder.cc', 'src/headerparser.cc', 'src/decodetable.cc'],
   [('VCDiffDeltaFileWindow::DecodeWindow', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::DecodeBody', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::SetUpWindowSections', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::UpdateInterleavedSectionPointers', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::DecodeChunk', 'src/vcdecoder.cc')],
   note='Windows of all kinds, any chunking by fixpoint; later windows follow a first window of one ADD. Default code table.'),
 P('D02', 'ADD, RUN and COPY decode to exactly the bytes the format defines',
   'Each instruction of a window appends exactly its size to the target: an ADD the next unused bytes of the data section, a RUN its next unused byte repeated, a COPY the bytes at its address in the source segment followed by the target window decoded so far (overlapping copies repeat). The source segment is the stretch of dictionary or earlier target that the header names, addresses are decoded relative to source segment length plus bytes decoded with a cache reset for each window, and an instruction that does not fit the window or lacks data adds nothing at all.',
   ['inputs', 'histories', 'configurations'], 'every window, instruction, size, address, source segment and chunking',
   'Tests decode a few hand-made windows; off-by-one errors in copies that straddle segment and target, overlap, or resume in mid-window need specific sizes and addresses.',
   ['src/vcdecoder.cc', 'src/decodetable.cc', 'src/addrcache.cc'],
   [('VCDiffDeltaFileWindow::DecodeAdd', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::DecodeRun', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::DecodeCopy', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::DecodeBody', 'src/vcdecoder.cc')],
   note='Instructions in any order and number by fixpoint; opcodes by the contract of C02, addresses by that of C01.'),
 P('D03', 'A delta is accepted exactly if its windows are complete and consistent',
   'Decoding reports success for a window only if exactly the declared number of bytes was decoded, no instruction, data or address bytes are left over, and the checksum, where there is one, equals that of the whole target window; a window with a malformed instruction, an address out of range, an instruction too long for the window or sections that end early is rejected; a window without such a defect is never rejected. Finishing succeeds exactly if the last window is complete.',
   ['inputs', 'histories', 'configurations'], 'every window of every delta, every chunking',
   'Silently accepting a truncated or corrupt delta gives a wrong file; which defect slips through depends on exact lengths that samples do not hit.',
   ['src/vcdecoder.cc'],
   [('VCDiffDeltaFileWindow::DecodeBody', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::DecodeWindow', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::FinishDecoding', 'src/vcdecoder.cc')],
   note='An interleaved window whose instructions end early although all its bytes are there may stay incomplete (FinishDecoding fails) instead of being rejected at once. Windows whose source segment plus target length reaches 2^31 may be rejected.'),
 P('D04', 'Splitting a delta into chunks never changes what is decoded',
   'However a delta is split into chunks, each call goes on at the first byte that earlier calls have not used, keeps exactly the bytes it could not use yet, and the decoded target is output in order, each byte once and all of it by the end of each successful call; the next window is read right after the previous one, its target segment may lie in the target decoded so far exactly if that is configured.',
   ['inputs', 'histories', 'configurations'], 'every delta, every chunking, every flush point',
   'The number of chunkings is exponential in the length of the delta; tests try fixed chunk sizes on one sample.',
   ['src/vcdecoder.cc'],
   [('VCDiffStreamingDecoderImpl::DecodeChunk', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::AppendNewOutputText', 'src/vcdecoder.cc'), ('ParseableChunk', 'src/headerparser.h'), ('VCDiffDeltaFileWindow::UpdateInterleavedSectionPointers', 'src/vcdecoder.cc')],
   note='Any number of chunks of any length (fixpoint).'),
 P('D05', 'The size limits set by the caller are never exceeded',
   'No window decodes to more than its declared length; no window declared longer than the maximum target window size, and no window that would take the target beyond the maximum target file size, is decoded at all: it is rejected, and nothing of it reaches the output.',
   ['inputs', 'histories', 'configurations'], 'every delta, every pair of limits, every number of windows',
   'The limits protect callers against hostile deltas that expand enormously; whether a limit is off by one or not added up over windows shows only at exact sizes.',
   ['src/vcdecoder.cc'],
   [('VCDiffStreamingDecoderImpl::TargetWindowWouldExceedSizeLimits', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::ReadHeader', 'src/vcdecoder.cc')],
   note='Limits arbitrary, set before decoding.'),
 P('D06', 'Errors stick, calls out of order fail, a reused decoder is like new',
   'A streaming decoder that has not been started, has been finished, or has reported an error refuses every further chunk and FinishDecoding (both return false and output nothing) until StartDecoding is called again. After StartDecoding it decodes exactly as a new decoder would, whatever it was used for before (complete, incomplete or rejected deltas, in any number): no data, limit count, window state, format version or dictionary is carried over; the limits set by the caller stay. VCDiffDecoder::Decode gives exactly the result of StartDecoding, one DecodeChunk of the whole delta and FinishDecoding, and fails if one of them does.',
   ['histories', 'inputs', 'configurations'], 'every history of uses of one decoder object, every chunk',
   'Tests reuse a decoder after one or two kinds of use; state carried over shows only for particular pairs of deltas.',
   ['src/vcdecoder.cc'],
   [('VCDiffStreamingDecoderImpl::Reset', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::StartDecoding', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::FinishDecoding', 'src/vcdecoder.cc'), ('VCDiffDeltaFileWindow::Reset', 'src/vcdecoder.cc')],
   note='Histories by fixpoint over: nothing, one or two windows, incomplete, rejected and too long deltas. Default code table.'),
 P('D07', 'A delta file is recognised by its header, however it is split',
   'Decoding fails as soon as a byte of the file header is there that differs from D6 C3 C4, from the versions 00 and 53 (\'S\'), or has the secondary-compressor bit set in the header indicator; no other header is rejected. An incomplete header is kept unchanged for the next call, whatever the split; windows are read from the byte after the header; nothing is output before. Finishing after an incomplete header fails, and succeeds after a complete header or no data at all.',
   ['inputs', 'histories'], 'every sequence of header bytes and every split of it over calls',
   'Tests try a few wrong bytes with whole-file and byte-wise decoding; a mistake in the handling of partial headers needs a particular split.',
   ['src/vcdecoder.cc', 'src/headerparser.cc'],
   [('VCDiffStreamingDecoderImpl::ReadDeltaFileHeader', 'src/vcdecoder.cc'), ('VCDiffStreamingDecoderImpl::DecodeChunk', 'src/vcdecoder.cc')],
   note='All splits of the five bytes; header bits other than compressor and code table are left open by the implementation.'),
 P('E01', 'The instructions written for a chunk reproduce exactly the chunk',
   'For every dictionary, chunk and flag combination, the sequence of ADD and COPY instructions the encoder gives to the code table writer for a chunk is consecutive and complete: each ADD carries exactly the next bytes of the chunk, each COPY names an address in the dictionary or in the part of the chunk already encoded whose bytes were found equal to the next bytes of the chunk, the sizes add up to the chunk size, and the window is output exactly once after them (never for an empty chunk). No byte outside chunk and dictionary is read. The encoder works on its own copy of the dictionary, so the caller may reuse the buffer.',
   ['inputs', 'configurations', 'histories'], 'every dictionary, chunk, flag combination and order of calls',
   'Tests encode a few texts; a mistake at the end of a chunk, for overlapping matches or for long matches needs particular data.',
   ['src/vcdiffengine.cc', 'src/vcencoder.cc', 'src/blockhash.cc'],
   [('VCDiffEngine::EncodeInternal', 'src/vcdiffengine.cc'), ('VCDiffEngine::EncodeCopyForBestMatch', 'src/vcdiffengine.cc'), ('VCDiffEngine::VCDiffEngine', 'src/vcdiffengine.cc')],
   note='FindBestMatch by its contract (analysed with it, see B01); chunk and dictionary at most 2^30 bytes; allocation succeeds.'),
 P('E03', 'Encoder calls follow the protocol; header, checksum and flags as asked',
   'StartEncoding succeeds exactly if the writer accepts the dictionary, and then writes the header once, for the extensions asked for; EncodeChunk and FinishEncoding succeed only between StartEncoding and FinishEncoding, and write nothing otherwise; a chunk the writer refuses is not encoded. A checksum, that of exactly the chunk, is added to each window if and only if the checksum extension was asked for. VCDiffEncoder::Encode replaces the output by the result of the three calls for the whole target and reports failure if any of them fails.',
   ['histories', 'inputs', 'configurations'], 'every sequence of calls, every flag combination, every answer of the writer',
   'Tests call in the documented order and few wrong orders; protocol mistakes need particular histories.',
   ['src/vcencoder.cc'],
   [('VCDiffStreamingEncoderImpl::StartEncoding', 'src/vcencoder.cc'), ('VCDiffStreamingEncoderImpl::EncodeChunk', 'src/vcencoder.cc'), ('VCDiffStreamingEncoderImpl::FinishEncoding', 'src/vcencoder.cc'), ('VCDiffEncoder::EncodeToInterface', 'src/vcencoder.cc')],
   note='Writer arbitrary. Encoding chunks after a second StartEncoding that failed is left open.'),
 P('J01', 'The JSON output is one valid array that says exactly the instructions',
   'With the JSON format, the output of an encoding with at least one window is one well-formed JSON array: per ADD and RUN one string that, unescaped, is exactly the bytes of the instruction (all control characters, quotes and backslashes escaped), per COPY the address and then the size as two numbers, separated by single commas, opened once and closed once, whatever the number of windows and however often the encoder is reused. A dictionary or chunk is accepted exactly if all its bytes are 7-bit ASCII.',
   ['inputs', 'histories'], 'every data, every sequence of instructions, windows and encodings',
   'Tests compare a few deltas; a missing escape or a comma too many shows for particular bytes or call orders only.',
   ['src/jsonwriter.cc', 'src/google/jsonwriter.h'],
   [('JSONCodeTableWriter::JSONEscape', 'src/jsonwriter.cc'), ('JSONCodeTableWriter::Output', 'src/jsonwriter.cc'), ('JSONCodeTableWriter::FinishEncoding', 'src/jsonwriter.cc'), ('JSONCodeTableWriter::IsAscii', 'src/jsonwriter.cc')],
   note='Output below 2^50 bytes; bytes above 127 are refused before they reach the writer.'),
 P('L01', 'The command-line tool exits 0 exactly if all its output is complete',
   'vcdiff exits with 0 only if it read the whole dictionary and input, passed every byte of the input to the encoder or decoder once and in order, every library call succeeded, and all that the library produced was written to the output file or stdout, once, in order, and has left the stdio buffer; for "test" only if the decoded data equals the target file to its end. Any failure to open, read, write, flush, encode or decode, a wrong command, a missing dictionary and a zero buffer size give a nonzero exit code; without failure the exit code is 0 and the program ends (also for empty input). The flags (format, checksum, JSON, target matching, limits, VCD_TARGET) reach the library as given.',
   ['inputs', 'crash_points', 'configurations'], 'every file contents and sizes, every failure of every I/O or library call, every flag value',
   'Tests run the tool on a few files with disks that never fail.',
   ['src/vcdiff_main.cc'],
   [('main', 'src/vcdiff_main.cc'), ('VCDiffFileBasedCoder::Encode', 'src/vcdiff_main.cc'), ('VCDiffFileBasedCoder::Decode', 'src/vcdiff_main.cc'), ('VCDiffFileBasedCoder::DecodeAndCompare', 'src/vcdiff_main.cc'), ('VCDiffFileBasedCoder::WriteOutput', 'src/vcdiff_main.cc')],
   note='stdio and gflags behave as documented; files do not change while they are read; limits up to 2^31-1; failing memory allocation ends the program.'),
 P('T01', 'Encoders and decoders in different threads do not write shared memory',
   'A HashedDictionary, once Init() has returned, may be used by any number of encoders in different threads at the same time, and encoders and decoders in different threads do not affect each other: nothing that an encoder or decoder does writes static storage, the shared dictionary, its hash tables or the decoder\'s dictionary without synchronisation. Static tables built on first use are initialised in a thread-safe way.',
   ['schedules', 'histories'], 'every interleaving of threads that each use their own encoder or decoder',
   'A data race shows only under some schedules; the tests use one thread.',
   ['src/vcencoder.cc', 'src/vcdecoder.cc', 'src/vcdiffengine.cc', 'src/blockhash.cc', 'src/encodetable.cc', 'src/instruction_map.cc', 'src/codetable.cc'],
   [('BlockHash::FindBestMatch', 'src/blockhash.cc'), ('VCDiffEngine::Encode', 'src/vcdiffengine.cc'), ('VCDiffInstructionMap::GetDefaultInstructionMap', 'src/instruction_map.cc'), ('RollingHash::Init', 'src/rolling_hash.h')],
   note='RollingHash::Init (called by HashedDictionary::Init only, before the dictionary is shared) is exempt except for the order of publication; releasing a member that a class may or may not own is not judged.'),
 P('B01', 'Every match the block hash offers is a stretch of equal bytes in bounds',
   'For every data, target, hash value and history of additions, FindBestMatch only offers matches that are true: the bytes from the source offset on, for the size given, lie inside the data searched and equal those from the target offset on; the match contains the candidate block, does not reach past the target data given, and goes through a block that was added before (so a match in the target itself starts before the place encoded). No access leaves the hash tables or the data, whatever the hash value and the size of the data, and adding blocks stops at the index given and the last whole block.',
   ['inputs', 'histories'], 'every data, target, hash value, table size and sequence of additions',
   'Tests search a few texts; hash collisions, chains at their limits, matches that touch the ends of the data and data sizes around block multiples need particular inputs.',
   ['src/blockhash.cc', 'src/blockhash.h'],
   [('BlockHash::FindBestMatch', 'src/blockhash.cc'), ('BlockHash::AddBlock', 'src/blockhash.cc'), ('BlockHash::CalcTableSize', 'src/blockhash.cc'), ('BlockHash::MatchingBytesToLeft', 'src/blockhash.cc'), ('BlockHash::Init', 'src/blockhash.cc')],
   note='Data and target below 2^31 bytes; hash values arbitrary (rolling hash: R01); that the best of the matches offered is kept is decided with E01.'),
 P('N01', 'Decoding an encoded target gives the target back',
   'For every dictionary, every target and every choice of format flags and chunking, decoding the encoder\'s output against the same dictionary yields the target byte for byte.',
   ['inputs', 'configurations', 'histories'], 'every dictionary, target, flag combination and chunking',
   'Round-trip tests sample a few inputs.',
   ['src/vcencoder.cc', 'src/vcdecoder.cc', 'src/vcdiffengine.cc'],
   [('VCDiffEngine::Encode', 'src/vcdiffengine.cc'), ('VCDiffStreamingDecoderImpl', 'src/vcdecoder.cc')],
   na='End-to-end equality of two byte strings through hashing, matching and a whole format is a numerical round trip over unbounded runtime data; no static argument in reach carries it end to end. Its parts that are visible per function are claimed separately (V01, C01, C02, H01 and others).'),
 P('N02', 'Deltas of similar files are small',
   'For a target that shares long runs with the dictionary, the delta is much shorter than the target.',
   ['inputs'], 'every dictionary and target', 'Quality of a heuristic match search depends on the data.',
   ['src/blockhash.cc', 'src/vcdiffengine.cc'], [('BlockHash::FindBestMatch', 'src/blockhash.cc')],
   na='Compression ratio is a quantitative property of runtime data, not of the shape of the code.'),
]

def main():
    root = os.path.dirname(HERE)
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for d, na, note in CATALOG:
            f.write(json.dumps(d) + '\n')
    checks, nas = [], []
    for d, na, note in CATALOG:
        i = d['id']
        if na:
            assert i not in PROPS, i
            nas.append(dict(property=i, reason=na))
        else:
            p = PROPS[i]
            checks.append(dict(property=i, quick_cmd='python3 sa/run.py %s' % i,
                               thorough_cmd='python3 sa/run.py %s --thorough' % i,
                               evidence_file='evidence/%s.json' % i,
                               technique=p['technique'], level=p['level'], level_note=note or p['explains']))
    assert {c['property'] for c in checks} == set(PROPS), set(PROPS) ^ {c['property'] for c in checks}
    m = dict(version=1, setup_cmd='make -s -j8 -C engine', checks=checks, not_applicable=nas,
             notes='No hooks in /repo. Every check compiles /repo/src to LLVM IR afresh and analyses it; nothing of open-vcdiff is executed.')
    json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
    for d, na, note in CATALOG:
        assert len(d['title']) <= 80, (d['id'], len(d['title']))

if __name__ == '__main__':
    main()
