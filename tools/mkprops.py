#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
W = "src/writer/"
ALLDATA = [W + "data.rs"] + [W + "data/" + n + ".rs" for n in
           "boolean long float double timestamp decimal string binary struct_ list map union".split()]
SCALAR = [W + "data/" + n + ".rs" for n in "boolean long float double timestamp decimal string binary".split()]
STATS = [W + "statistics.rs"] + [W + "statistics/" + n + ".rs" for n in
         "common boolean long double decimal timestamp string binary generic".split()]
ENC = [W + "encoder/" + n + ".rs" for n in "boolean_rle byte_rle int_rle_v1 varint".split()]
COMP = [W + "compression.rs"] + [W + "compression/" + n + ".rs" for n in "common no_compression snappy zstd".split()]

P = []
def p(id, title, statement, over, quant, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Scalar columns read back exactly as they were written",
  "A finished file, decoded by the rules of the ORC v0 (0.12) format, yields for every boolean, integer, date, float, double, decimal, timestamp, string, char, varchar and binary column exactly the sequence of values and nulls that was written to it, in order. "
  "This holds over the whole domain of each type (64-bit integers, 128-bit decimals, every nanosecond 0-999999999, arbitrary bytes and text, every float bit pattern) and for every length, repetition and delta pattern of the values. "
  "Each value stream decodes to exactly the number of values its column holds, with nothing missing and nothing left over.",
  ["inputs", "histories"],
  "every sequence of values and nulls written to a scalar column, across row groups and stripes, for every codec",
  "The six unit tests encode about 30 hand-picked short sequences with single encoders and compare bytes; no test produces a file or decodes anything, so run/literal hand-over at 128/130 values, 64/128-bit extremes, nanosecond packing and stream hand-over across stripes are never exercised.",
  SCALAR + ENC, [("run-length encoders for bytes, bits and integers", W + "encoder/"), ("per-type value streams", W + "data/*.rs write()"), ("nanosecond packing", W + "data/timestamp.rs write_nanos")],
  [("run_len / buf / delta", "pending run or literal group", W + "encoder/int_rle_v1.rs, byte_rle.rs"), ("buf, cnt", "bits not yet packed into a byte", W + "encoder/boolean_rle.rs")],
  ["bytes handed to the sink by Writer::finish"])

p("C02", "Nested columns reassemble to the rows written",
  "Structs, lists, maps and unions, nested to any depth and null at any level, read back as the rows that were written: each list or map receives exactly its own elements in order, each union row the value of its own variant, and a null parent consumes nothing from its children. "
  "The children of one stripe never borrow or lose elements to another stripe.",
  ["inputs", "histories"],
  "every schema built from struct, list, map and union over scalar types, every pattern of nulls, lengths and tags",
  "No test constructs a nested schema; correct pairing of parent and child streams depends on the combination of null patterns, lengths, tags and stripe boundaries.",
  [W + "data/struct_.rs", W + "data/list.rs", W + "data/map.rs", W + "data/union.rs", W + "data.rs", W + "stripe.rs"],
  [("length, tag and present streams of the parents", W + "data/{struct_,list,map,union}.rs"), ("child columns rebuilt for every stripe", W + "stripe.rs finish")],
  [("num_child_values, child_counts", "children owed by the parent in this stripe", W + "data/{list,map,union}.rs")],
  ["finished file"])

p("C03", "Compression keeps content and respects the declared block size",
  "For every codec, level and block size, each section of the file (stream, index, footer, metadata) is a sequence of well-formed chunks whose payloads decompress and concatenate to exactly the bytes an uncompressed file would hold there. "
  "No chunk expands to more than the block size declared in the postscript, whatever the sizes of the values written, no payload is longer than its content, and a chunk is flagged as stored uncompressed exactly when its payload is the raw bytes. "
  "The declared codec and block size are the configured ones.",
  ["inputs", "configurations"],
  "every codec, block size and sequence of write sizes relative to the block size",
  "No test uses Snappy or Zstd at all; block hand-over depends on how write sizes line up with the block capacity and on whether a block happens to be compressible.",
  COMP + ["src/buffer.rs"], [("block splitting and chunk headers", W + "compression.rs CompressionStream"), ("fallback to the original bytes when compression does not shrink", W + "compression.rs finish_block")],
  [("buf, output, output_block_info", "current block, finished blocks", W + "compression.rs")], ["finished file"])

p("C04", "File layout is exact and self-describing",
  "A finished file starts with the magic, ends with the postscript and its length byte, and every byte in between belongs to exactly one part: the stripes follow one another from the end of the header without gap or overlap, inside a stripe the streams tile the index and data areas in the listed order, and metadata and footer lie where the postscript says. "
  "Every recorded offset, length and row total equals the true one, for any number of stripes, columns and rows including none.",
  ["inputs", "histories", "configurations"],
  "every schema, configuration and sequence of batches, including empty files and empty columns",
  "No test writes a file, so no recorded length, offset or total is ever compared with the bytes.",
  [W + "stripe.rs", "src/writer.rs", W + "count_write.rs", W + "data/common.rs"] + ALLDATA,
  [("position bookkeeping around every section", W + "count_write.rs, " + W + "stripe.rs finish, src/writer.rs finish"), ("stream list collected while writing", W + "data/*.rs write_*_streams")],
  [("offset, num_rows, stripe_infos", "where the next stripe starts and what was written", W + "stripe.rs, src/writer.rs")], ["finished file"])

p("C05", "The file declares the schema and configuration it was created with",
  "The type tree stored in the file is the declared schema: same kinds, field names, precision, scale and maximum lengths, same child order, columns numbered in pre-order. "
  "Every stripe lists one encoding per column, only streams of existing columns and of kinds that belong to the column's type, and one statistics entry per column; the row index stride and the fixed fields (format version 0.12, writer version 6, magic) are the documented ones.",
  ["inputs", "configurations"],
  "every schema (all kinds, any nesting and width) and configuration",
  "No test looks at the footer; numbering and per-column lists are only right if all column types agree on the traversal order.",
  ["src/writer.rs", "src/schema.rs", W + "stripe.rs", W + "data.rs"] + ALLDATA,
  [("type tree construction", "src/writer.rs make_types"), ("column numbering at construction", W + "data.rs Data::new"), ("stripe footer", W + "stripe.rs write_footer")],
  [("column_id", "pre-order number", W + "data/*.rs")], ["finished file"])

p("C06", "Stripe and file statistics summarise exactly their rows",
  "For every column the statistics stored for a stripe describe exactly the cells of that stripe, and those stored for the file exactly the cells of the whole file, including the last, incomplete row group: the number of non-null values, whether a null occurs, and by type the exact minimum, maximum, sum, total length or count of true values. "
  "Bounds and sums use the type's own order and form (dates as date statistics, timestamps in milliseconds since the Unix epoch, decimals as decimal text, strings in byte order); a sum is omitted only if it overflowed, and floating bounds are promised for data without NaN.",
  ["inputs", "histories"],
  "every sequence of cells of every type and every division into row groups, stripes and batches",
  "No test produces statistics; they are merged incrementally over three levels, and an error at a merge point shows only for particular divisions of the data.",
  STATS + ALLDATA + [W + "stripe.rs", "src/writer.rs"],
  [("three-level merge", W + "data/*.rs finish_row_group, " + W + "stripe.rs finish, src/writer.rs merge_statistics"), ("rendering", W + "statistics.rs to_proto")],
  [("row_group_stats, stripe_stats, stripe_infos", "partial summaries", W + "data/*.rs, " + W + "stripe.rs")], ["finished file"])

p("C07", "Row-group statistics summarise exactly their row group",
  "The statistics stored in the k-th row index entry of a column describe exactly the cells the k-th row group of that column contains - count of non-null values, null flag, and exact minimum, maximum, sum or total length in the column's type - and nothing from the neighbouring row groups or stripes.",
  ["inputs", "histories", "configurations"],
  "every sequence of cells, every row index stride, every division into stripes",
  "No test reads a row index; wrong resets or boundaries show only at particular combinations of stride, null pattern and stripe boundary.",
  STATS + ALLDATA, [("statistics reset at each row group boundary", W + "data/*.rs finish_row_group")],
  [("row_group_stats, row_index_entries", "open group and finished groups", W + "data/*.rs")], ["finished file"])

p("C08", "Row index positions let a reader resume at the row group",
  "For every column and every row index entry, a reader that seeks each of the column's streams to the recorded position - chunk start, offset in the chunk, values and bits to skip - decodes exactly the cells of that row group, in whatever encoder and compression state the boundary fell. "
  "The entry lists positions for precisely the streams stored in that stripe, in the order the format prescribes.",
  ["inputs", "histories", "configurations"],
  "every sequence of cells, stride, codec and block size, hence every encoder state at a group boundary",
  "No test uses the row index; whether a position is right depends on the pending run, literal, bit and block state at the boundary.",
  ALLDATA + ENC + [W + "compression.rs"],
  [("position capture at each boundary", W + "data/*.rs finish_row_group"), ("position of each encoder", W + "encoder/*.rs position, " + W + "compression.rs position")],
  [("row_group_position", "positions at the start of the open group", W + "data/*.rs")], ["finished file"])

p("C09", "Row groups divide every stripe by the configured stride",
  "In every stripe, the row index of a column has one entry per started group of `stride` rows, the k-th entry standing for the k-th group of `stride` consecutive rows of the stripe, and a new stripe starts a new group. "
  "The groups cover all cells of the stripe, and no entry is missing, empty or longer than the stride.",
  ["inputs", "histories", "configurations"],
  "every stride, every schema, every number of rows and division into batches and stripes",
  "No test sets a stride or reads an index; boundary cases (multiples of the stride, stripes ending inside a group, nested columns) need many combinations.",
  ALLDATA, [("group counter", W + "data/*.rs check_row_group")],
  [("row_group_stats.num_values", "cells in the open group", W + "data/*.rs")], ["finished file"])

p("C10", "Batches are never divided and stripes close as configured",
  "Every batch of rows lands whole in exactly one stripe, stripes keep the order of the batches, and no stripe is empty. "
  "The open stripe is handed to the sink at the first batch boundary at which the encoded data it holds exceeds the configured stripe size and never earlier, otherwise when the file is finished; between calls the sink holds the header and complete stripes only.",
  ["histories", "configurations"],
  "every sequence of batches (including empty ones) and every stripe size",
  "No test writes a batch; the decision depends on accumulated sizes over many batches.",
  ["src/writer.rs", W + "stripe.rs"] + ALLDATA, [("size estimate against the limit after each batch", "src/writer.rs write_batch"), ("stripe hand-over and reset", W + "stripe.rs finish")],
  [("num_rows, data", "rows and cells of the open stripe", W + "stripe.rs")], ["sink length after each call", "finished file"])

p("C11", "Misaligned or invalid writes are refused, aligned ones accepted",
  "A batch or finish is accepted if and only if every column holds exactly the cells its parents require for the rows announced so far (rows for the root, non-null structs for struct fields, summed lengths for list and map children, tag counts for union variants); otherwise the call is refused, so no file with columns out of step and no silently dropped cells can result, however large the counts. "
  "A union tag without a variant is refused and leaves no trace in the file.",
  ["inputs", "histories"],
  "every schema, every combination of per-column cell counts and announced rows",
  "No test announces a wrong count; each column type has its own count rule and mistakes cancel except in particular combinations.",
  ALLDATA + [W + "stripe.rs", "src/writer.rs"], [("recursive count check", W + "data/*.rs verify_row_count"), ("tag range check", W + "data/union.rs write")],
  [("num_child_values, child_counts, num_rows", "what is owed", W + "data/{list,map,union}.rs, " + W + "stripe.rs")], ["outcome of write_batch/finish", "finished file"])

p("C12", "Output does not depend on how the sink accepts bytes",
  "For the same calls, the bytes delivered are the same whether the sink takes each buffer whole, accepts only part of it per call, or is interrupted and has to be retried; every recorded length and offset stays true. "
  "A successful finish has delivered the last byte and flushed the sink afterwards.",
  ["fault_sequences", "histories"],
  "every pattern of partial acceptance and interruption at every write the library makes",
  "The tests write into growing vectors only, which always accept everything.",
  ["src/writer.rs", W + "count_write.rs", W + "compression.rs", W + "stripe.rs", W + "data/common.rs"],
  [("counting wrapper", W + "count_write.rs"), ("complete writes", "src/writer.rs, " + W + "compression.rs finish")],
  [("count", "bytes delivered so far", W + "count_write.rs")], ["calls the sink receives"])

p("C13", "A sink failure is reported and never ends in a successful file",
  "If the sink fails at any point, or accepts nothing, the call in progress returns an error, the bytes delivered so far are a prefix of the file that would have been written, and no later call on that writer reports success. "
  "Without a failure no call reports one.",
  ["crash_points", "fault_sequences"],
  "a failure at every byte and at every sink call of a run, including the final flush, followed by any further calls",
  "No test injects an error.",
  ["src/writer.rs", W + "stripe.rs", W + "count_write.rs", W + "compression.rs"] + ALLDATA,
  [("error propagation", "src/writer.rs write_batch/finish, " + W + "stripe.rs finish"), ("writer unusable after a failed hand-over", "src/writer.rs")],
  [("current_stripe, stripe_infos", "half-written stripe", "src/writer.rs")], ["return values", "bytes the sink received"])

p("C14", "The file depends only on what each column was given",
  "Two runs that give every column the same cells in the same stripes with the same configuration produce identical bytes, however the writes to different columns are interleaved (parents before or after their children), however the rows of a stripe are divided into batches, and whatever other writers exist in the process.",
  ["schedules", "histories"],
  "every interleaving of column writes, division into batches and interleaving of several writers",
  "No test compares two runs.",
  ["src/writer.rs", W + "stripe.rs"] + ALLDATA, [("columns share no state but the parent/child counts", W + "data/*.rs")],
  [], ["finished file"])

p("C15", "Null bookkeeping is consistent",
  "In every stripe a column carries a present-bit stream exactly when one of its cells in that stripe is null, its value streams hold entries for the non-null cells only, and its positions mention the present stream exactly when it is stored. "
  "The null flags in row-group, stripe and file statistics are set exactly when a null occurs in the cells they cover, independently of other stripes and columns.",
  ["inputs", "histories"],
  "every pattern of nulls over rows, row groups, stripes and columns",
  "No test writes a null.",
  ALLDATA + STATS + ["src/writer.rs", W + "stripe.rs"], [("present stream written on demand", W + "data/*.rs write_data_streams"), ("null flag", W + "statistics/common.rs has_null")],
  [("num_values, num_present", "cells and non-null cells", W + "statistics/*.rs")], ["finished file"])

p("C16", "Alternative ways of writing the same value agree",
  "A timestamp given in seconds since the Unix epoch and the same instant given relative to 2015-01-01 produce the same file, as do a decimal given as 64-bit or as 128-bit integer, a null given through the typed column or through the generic handle, and columns reached through any accessor. "
  "The Unix-epoch reading of a stored timestamp is its stored seconds plus 1420070400.",
  ["inputs", "histories"],
  "every value in the common domain of the entry points, in every mixture",
  "No test calls the alternative entry points.",
  [W + "data/timestamp.rs", W + "data/decimal.rs", W + "data.rs"] + ALLDATA, [("epoch shift", W + "data/timestamp.rs write_nanos_epoch"), ("two decimal entry points", W + "data/decimal.rs"), ("generic null dispatch", W + "data.rs write_null")],
  [], ["finished file"])

p("C17", "A configuration is honoured or refused",
  "A writer can be created if and only if the format can express what was asked for: Snappy and Zstandard block sizes from 1 to 8388607 bytes (23 bits of a chunk header), Zstandard levels from 1 to 22, unions of at most 256 variants (one tag byte), wherever in the schema they are. "
  "Anything else is refused before a byte reaches the sink. "
  "Whatever is accepted is honoured: in whatever order and however often the settings were given, the last one of each sort (row index stride, stripe size, codec with its block size, which for a codec chosen anew is the default) governs the chunks, row groups and stripes of the file, which declares it and reads back in full.",
  ["configurations"],
  "every sequence of configuration calls with every value, and every number of variants",
  "The tests use one fixed configuration each; limits are only crossed by values nobody tries, and the order of calls matters only if settings interfere.",
  ["src/writer.rs", W + "stripe.rs", W + "data/union.rs"] + COMP, [("block size and level checks", W + "compression/{snappy,zstd,common}.rs"), ("variant limit", W + "data/union.rs"), ("builder calls", "src/writer.rs Config")],
  [("Config", "stride, codec, stripe size", "src/writer.rs")], ["outcome of Config calls and Writer::new", "finished file"])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(path, "w") as f:
    for q in P:
        q["anchors"]["files"] = sorted(set(q["anchors"]["files"]))
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
