prop("P01", "Numeric column statistics equal the exact statistics of the values",
     "For a column profiled in one pass, the reported minimum, maximum, sum, mean, variance, standard deviation, "
     "skewness, kurtosis, number of zeros and number of negatives equal the exact statistics of the values that fit "
     "the column's type (of the string lengths for text), up to floating-point rounding. Nulls and values of another "
     "type do not contribute. With bias correction enabled variance, skewness and kurtosis are the bias-corrected "
     "estimators, with it disabled the biased ones, and they are NaN where too few values define them.",
     ["inputs", "configurations"],
     "every column of integers, decimals or strings (with nulls and misfits mixed in), bias correction on or off",
     "the tests pin a handful of literal columns; a formula wrong only for negative values, particular sizes, values "
     "written with signs or exponents, or one bias setting passes them",
     [PR + "numerical_column_stats.py", PR + "int_column_profile.py", PR + "float_column_profile.py",
      PR + "text_column_profile.py"],
     [("incremental moments and their bias correction", PR + "numerical_column_stats.py NumericStatsMixin"),
      ("value filtering per type", PR + "int_column_profile.py, float_column_profile.py update")],
     "property-based testing against exact rational arithmetic",
     "Random columns up to 40 cells (bulk up to 3000) judged against exact rational moments; assumes float64 rounding "
     "tolerances and judges higher moments only for well-conditioned data.")

prop("P02", "Profiling data in batches gives the same result as profiling it at once",
     "However the rows of a data set are cut into consecutive batches and fed to update_profile, the report describes "
     "the whole data set: counts, null information, data type, categories, min/max/sum/mean and higher moments, "
     "vocabulary, formats, precision, unique and duplicate rows are those of a single-pass profile (up to "
     "floating-point rounding).",
     ["inputs", "histories"],
     "every table with integer, decimal, text, categorical, date and mixed columns and every way to cut its rows into "
     "consecutive batches, including one-row, constant and all-null batches",
     "tests update a few fixed frames once or twice; the merge formulas and the 'unset' sentinels only go wrong for "
     "particular batch contents (zero extremes, constant or null batches, unequal sizes)",
     [PR + "profile_builder.py", PR + "numerical_column_stats.py", PR + "float_column_profile.py",
      PR + "categorical_column_profile.py", PR + "text_column_profile.py", PR + "datetime_column_profile.py"],
     [("streaming updates of every statistic", PR + "numerical_column_stats.py _get_*/_update_*"),
      ("per-batch base statistics", PR + "profile_builder.py StructuredColProfiler.update_profile")],
     "metamorphic property-based testing: batched history against one pass",
     "Random tables to 24 rows (bulk columns to thousands) and 1-4 random cuts; histogram-derived values are the "
     "subject of P07, order of P11.")

prop("P03", "Merging profiles equals profiling the concatenated data",
     "Adding two profiles of the same schema gives a profile whose report equals the report of one profile built over "
     "both data sets together (up to floating-point rounding and the approximation of histograms), for any number of "
     "operands, any association and mixed with updates, and for a list of profiles merged by workers (merge_profile_list). The merge does not depend on the order of the operands except "
     "for order-dependent fields such as sampled values and positions.",
     ["inputs", "histories"],
     "every pair or sequence of tables of one schema, including empty-of-values, constant and all-null operands, and "
     "every tree of merges and updates over them",
     "tests merge a few fixed pairs; merge formulas differ from update formulas and go wrong only for particular "
     "operand contents or merge-then-update histories",
     [PR + "profile_builder.py", PR + "column_profile_compilers.py", PR + "numerical_column_stats.py",
      PR + "categorical_column_profile.py", PR + "base_column_profilers.py"],
     [("profile addition", PR + "profile_builder.py __add__"), ("column addition", PR + "*_column_profile.py __add__")],
     "metamorphic property-based testing: merge trees against one pass",
     "Random tables cut into 2-5 segments, merged/updated along random trees, against one pass; commutativity checked "
     "separately.")

prop("P04", "Reading, diffing, merging and saving never change their operands",
     "Producing a report, diffing, merging or saving profiles leaves every operand profile exactly as it was, and a "
     "merged profile shares no state with its operands: later updates of one do not change the report of the other. "
     "The caller's data, option and report-option objects come back unchanged.",
     ["inputs", "histories", "configurations"],
     "every pair of profiles, every short sequence of report/diff/merge/save operations on them, in every output "
     "format and under every sketching and optional-metric configuration",
     "tests assert the result of an operation, hardly ever that its operands survived it; aliasing shows only after a "
     "later update",
     [PR + "profile_builder.py", PR + "profiler_utils.py",
      PR + "categorical_column_profile.py", PR + "numerical_column_stats.py"],
     [("copies taken by merges", PR + "profile_builder.py __add__, " + PR + "numerical_column_stats.py _add_helper"),
      ("report assembly", PR + "profile_builder.py report")],
     "property-based testing of operation sequences with before/after snapshots",
     "Random profile pairs and up to 4 operations with report snapshots around each; covers reports, options and "
     "input data, not private attributes.")

prop("P05", "Null counts, null types, null positions and row null ratios are exact",
     "A cell counts as null exactly when its text matches, in full and with the given flags, one of the null patterns "
     "that apply to its column (the defaults, or null_values plus column_null_values). null_count, null_types, "
     "null_types_index (the row positions per null form), sample_size, row_has_null_ratio and row_is_null_ratio then "
     "describe exactly the profiled rows, for any batching and merging, any index labels and any "
     "column order of the batches.",
     ["inputs", "histories", "configurations"],
     "every table of texts, numbers and missing objects, every set of null patterns, every batching or merge, every "
     "kind of index (default, continued, gapped, reversed, string, duplicated)",
     "tests use the default patterns on default indices; overlapping or shifted indices between batches, flags, and "
     "per-column patterns interact only in combination",
     [PR + "profile_builder.py", PR + "profiler_options.py"],
     [("null detection and position sets", PR + "profile_builder.py clean_data_and_get_base_stats"),
      ("row null sets", PR + "profile_builder.py _update_row_statistics")],
     "property-based testing against a reference model of null matching",
     "Tables up to 3 columns x 4 batches x 7 rows under 8 pattern sets, judged by re.fullmatch over the cells.")

prop("P06", "Row, unique-row and duplicate-row counts are exact (or within sketch error)",
     "row_count and samples_used equal the number of rows profiled over all updates and merges. With full hashing "
     "unique_row_ratio and duplicate_row_count are those of the multiset of rows (as texts), whether or not a duplicate "
     "lies in another batch or operand; with HyperLogLog they are within the error of the configured "
     "register count and agree with each other.",
     ["inputs", "histories", "configurations"],
     "every multiset of rows, every batching and merge tree, both hashing methods and register counts",
     "tests count duplicates in fixed frames within one batch; hash state carried over batches, merges and reordered "
     "columns is what breaks",
     [PR + "profile_builder.py"],
     [("row hashing", PR + "profile_builder.py _update_row_statistics"),
      ("merging of hashes and sketches", PR + "profile_builder.py StructuredProfiler.__add__")],
     "property-based testing against a set model, with sketch error bounds",
     "Rows drawn from small pools (to 36 rows) and bulk (to 6000); HLL judged at 6 standard errors.")

prop("P07", "Histogram, quantiles, median, mode and MAD are true within bin resolution",
     "The histogram of a column holds exactly its values: the counts sum to their number, the edges ascend from "
     "min to max, the number of bins is the one the user set, and every cumulative count is right up to a displacement "
     "of one bin per update. Quantiles, median, median absolute deviation and modes agree with the sorted values within "
     "that resolution after any updates and merges, quantiles ascend, and the report gives num_quantile_groups - 1 of "
     "them.",
     ["inputs", "histories", "configurations"],
     "every column of ints, decimals or strings, every batching and merge, every bin setting and number of quantiles",
     "tests compare fixed data; re-binning when the range grows or profiles are merged loses or misplaces counts only "
     "for particular ranges",
     [PR + "numerical_column_stats.py", PR + "histogram_utils.py", PR + "profiler_utils.py"],
     [("re-binning of stored histograms", PR + "numerical_column_stats.py _assimilate_histogram, _add_helper"),
      ("values read from a histogram", PR + "numerical_column_stats.py _get_percentile, _estimate_mode_from_histogram")],
     "property-based testing against sorted data with explicit resolution bounds",
     "Columns to 60 values (bulk to 1500), up to 4 segments; displacement budgets per update and merge are stated in "
     "the evidence.")

prop("P08", "Categorical statistics are exact, or within the bounds of the count-min sketch",
     "unique_count, unique_ratio, categories, categorical_count, gini_impurity and unalikeability are those of the "
     "multiset of non-null values, for any batching and merging; categorical_count lists the top_k_categories most "
     "frequent in descending order. A column is categorical exactly when it has at most 10 distinct values or a unique "
     "ratio of at most 0.2. The stop condition ends categorical profiling as soon as, and only when, it is met. With a "
     "count-min sketch every heavy hitter is listed and estimates are between the true count and the error bound.",
     ["inputs", "histories", "configurations"],
     "every multiset of strings, every batching and merge tree, every top-k, stop-condition and sketch setting",
     "tests count fixed columns in one or two batches; thresholds, ties and merges of limited or sketched columns are "
     "sampled at single points",
     [PR + "categorical_column_profile.py"],
     [("category counting and merging", PR + "categorical_column_profile.py _update_categories, __add__"),
      ("stop condition", PR + "categorical_column_profile.py _update_stop_condition"),
      ("sketching", PR + "categorical_column_profile.py _get_categories_cms, _merge_categories_cms")],
     "property-based testing against a counter model, a state machine of the stop condition and sketch bounds",
     "Up to 4 batches of 30 values; sketches judged at 4 times the configured error with confidence 0.999.")

prop("P09", "Type ratios and the inferred data type follow from the cells",
     "data_type_representation gives, per enabled type, the fraction of non-null cells that fit it: integers are "
     "numbers without fractional part in any notation, floats any number, dates any text in a documented format, "
     "everything is text. data_type is the first of datetime, int, float, text that fits every cell (text is 'string' "
     "up to 255 characters), whatever the batching or merging; disabled types are never reported.",
     ["inputs", "histories", "configurations"],
     "every column of numbers in any notation, dates, near-dates, texts and nulls, every batching or merge, every "
     "choice of disabled types",
     "tests classify literal columns; one cell of another type, an odd notation or one batch of another type is "
     "what matters",
     [PR + "column_profile_compilers.py", PR + "int_column_profile.py", PR + "float_column_profile.py",
      PR + "datetime_column_profile.py", PR + "text_column_profile.py"],
     [("cell classification", PR + "numerical_column_stats.py is_int, is_float"),
      ("type selection", PR + "column_profile_compilers.py ColumnPrimitiveTypeProfileCompiler")],
     "property-based testing against a reference classifier",
     "Batches of up to 50 cells (date detection samples larger ones), 1-4 batches or operands.")

prop("P10", "Date columns report their formats and their earliest and latest dates",
     "A column whose cells are all dates in documented formats (with or without day suffixes) is a datetime column; "
     "format lists exactly the formats in use, each once; min and max are the cells that denote the earliest and "
     "latest instant across all formats, batches and merges.",
     ["inputs", "histories"],
     "every column mixing any of the 16 formats and nulls, every batching and merge",
     "tests check a few dates of each format; extremes that lie in another format or batch than the rest, and May, "
     "are corner cases",
     [PR + "datetime_column_profile.py"],
     [("format matching and extremes", PR + "datetime_column_profile.py _get_datetime_profile, _update_datetime"),
      ("merging", PR + "datetime_column_profile.py __add__")],
     "property-based testing against strptime as the model",
     "Dates 1970-2068 in up to 3 formats, 1-4 batches; texts that fit several formats may be credited to any of them.")

prop("P11", "The reported order of a column is right",
     "For a column profiled at once, order is 'constant value', 'ascending', 'descending' or 'random' exactly as its "
     "non-null values compare (as numbers if all are numbers, else as strings). Over batches or merges: unordered or "
     "opposite batches give random; a column that is monotone throughout, with a non-constant batch, keeps its order; "
     "two batches of one direction give that order when their ranges are disjoint and random when they overlap, and so "
     "do several whose ranges are pairwise disjoint.",
     ["inputs", "histories"],
     "every column of numbers or strings and every way to batch or merge it",
     "tests use a few sequences; touching ranges, equal values and number-versus-string comparison are boundary cases",
     [PR + "order_column_profile.py"],
     [("order of a batch", PR + "order_column_profile.py _get_data_order"),
      ("combination", PR + "order_column_profile.py _merge_order")],
     "property-based testing against an exact order oracle and combination rules",
     "Columns to 16 values in up to 4 batches; three or more piecewise batches whose ranges overlap are only judged by direction.")

prop("P12", "Vocabulary and decimal precision are exact",
     "The vocabulary of a text column is the set of characters of its non-null cells. The precision statistics of a "
     "float column (min, max, mean, variance, standard deviation, margin of error, sample size) are those of the "
     "significant figures of its cells, rounded to the largest precision, for any batching, merging and sample ratio.",
     ["inputs", "histories", "configurations"],
     "every text column, every float column in plain or exponent notation with signs, leading and trailing zeros, any "
     "batching or merge",
     "tests list a few literals; zeros, signs, points without digits and unequal batches are where the regular "
     "expression or the merge goes wrong",
     [PR + "float_column_profile.py", PR + "text_column_profile.py"],
     [("significant figures", PR + "float_column_profile.py _get_float_precision"),
      ("vocabulary", PR + "text_column_profile.py _update_vocab")],
     "property-based testing against a reference count of significant figures",
     "1-4 batches of up to 12 cells; uppercase exponents are out of scope.")

prop("P13", "Correlation, chi-squared and null-replication metrics are exact",
     "The correlation matrix holds the Pearson correlation of the numeric (selected) columns over all rows profiled in "
     "any batches or merges in which it is defined (at least two rows, no constant column), NaN elsewhere; in one pass nulls count as the column mean. The chi-squared matrix holds the "
     "p-value of homogeneity of each pair of categorical columns, 1 on the diagonal, NaN elsewhere. Null replication "
     "metrics hold the exact class priors, sums and means of the other columns. Column order of batches does not matter.",
     ["inputs", "histories", "configurations"],
     "every table of numeric, categorical and text columns, every batching and merge, reordered columns",
     "tests check a few matrices; merge formulas with text columns, reordered columns or disabled bias correction were "
     "never exercised",
     [PR + "profile_builder.py", PR + "profiler_utils.py"],
     [("correlation updates and merges", PR + "profile_builder.py _update_correlation, _merge_correlation"),
      ("chi-squared test", PR + "profiler_utils.py perform_chi_squared_test_for_homogeneity"),
      ("null replication", PR + "profile_builder.py _update_null_replication_metrics")],
     "property-based testing against numpy and scipy references",
     "2-4 columns, 1-4 batches; correlation with nulls over several batches, single-row and constant batches are out "
     "of scope (approximate by design).")

prop("P14", "A diff is first minus second, unchanged exactly when equal",
     "Every statistic of profile1.diff(profile2) is the first report's value minus the second's, 'unchanged' exactly when "
     "they are equal, and a pair of both where subtraction makes no sense; sets are split into only-first, shared, "
     "only-second. The t-test and chi-squared results are scipy's, PSI is never negative and 0 on equal data. Columns of "
     "different schemas are not compared; the schema difference lists exactly the columns of one side only. Diff changes "
     "neither profile.",
     ["inputs", "configurations"],
     "every pair of profiles of the same or different schemas",
     "tests diff a few hand-built profiles; sign errors, NaN, ties and empty sides show only for particular pairs",
     [PR + "profiler_utils.py", PR + "profile_builder.py", PR + "numerical_column_stats.py",
      PR + "categorical_column_profile.py"],
     [("difference helpers", PR + "profiler_utils.py find_diff_of_numbers, find_diff_of_lists_and_sets, find_diff_of_dicts"),
      ("t-test and PSI", PR + "numerical_column_stats.py _perform_t_test, _calculate_psi"),
      ("chi-squared", PR + "categorical_column_profile.py diff"),
      ("schemas", PR + "profile_builder.py StructuredProfiler.diff")],
     "property-based testing against differences recomputed from both reports and scipy",
     "Tables of up to 3 columns and about 20 rows.")

prop("P15", "Options do what they say, and bad options are rejected",
     "Setting an option by path or wildcard changes exactly the options it names. A value the documentation calls "
     "invalid is reported when validating instead of surfacing later, and options which validate can be profiled with. Turning a statistic off removes it from the report "
     "and leaves every statistic that does not need it as it was; presets only change what they list. The caller's "
     "options object is not modified by profiling.",
     ["configurations", "inputs"],
     "every combination of option settings over generated tables",
     "tests toggle options one at a time on fixed data; interactions between disabled statistics grow combinatorially",
     [PR + "profiler_options.py", PR + "profile_builder.py", PR + "numerical_column_stats.py"],
     [("set and validate", PR + "profiler_options.py BaseOption.set, validate, _validate_helper"),
      ("disabled statistics", PR + "numerical_column_stats.py __calculations, report"),
      ("presets", PR + "profiler_options.py ProfilerOptions presets")],
     "property-based testing over generated option sets: metamorphic toggles and a reference rule for each option's domain",
     "Combinations of up to 6 toggles; validity rules restated from the documentation.")

prop("P16", "Every report format shows the same facts",
     "The pretty, compact, serializable and flat outputs of report() and diff() agree with the unformatted one: the same "
     "keys (minus documented omissions), the same values after the documented formatting, and serializable output "
     "survives json.dumps and json.loads. omit_keys removes exactly the keys it names, with wildcards, and nothing else.",
     ["inputs", "configurations"],
     "every profile and every list of omitted keys",
     "tests format a handful of reports; sets, NaN, empty and nested values occur only for particular data",
     [PR + "helpers/report_helpers.py", PR + "profile_builder.py"],
     [("formats", PR + "helpers/report_helpers.py _prepare_report, flat_dict"),
      ("omission", PR + "helpers/report_helpers.py _prepare_report omit_keys")],
     "property-based testing with the unformatted report as reference (differential) and a reference omission rule",
     "Column names without dots.")

prop("P17", "A saved profile loads as the same profile and goes on alike",
     "Profiler.load(profile.save()), by pickle or JSON, gives a profile of the same class with the same report, options "
     "and source description. From then on updates, merges, diffs and further save/load cycles of the loaded profile give "
     "what the original would give. Saving does not change the saved profile.",
     ["inputs", "histories", "configurations"],
     "every profile, history before saving and continuation after loading",
     "tests compare a loaded profile with fixed expectations; types lost in serialization only bite in later operations",
     [PR + "profile_builder.py", PR + "json_encoder.py", PR + "json_decoder.py", PR + "profiler_options.py",
      PR + "categorical_column_profile.py"],
     [("pickle", PR + "profile_builder.py StructuredProfiler.save, BaseProfiler.load"),
      ("JSON", PR + "json_encoder.py ProfileEncoder, load_from_dict of each class")],
     "stateful property-based testing: save/load inserted in a history, differential against the unsaved original",
     "Tables of up to 3 columns and 14 rows; sketches (HLL, CMS) by pickle only, as JSON has no form for them.")

prop("P18", "Sampling and parallel work never distort the statistics",
     "A batch is profiled on min(n, the requested samples) distinct rows, chosen uniformly and the same for every column; "
     "with min_true_samples further chunks are added until enough values are found and no longer. Every statistic "
     "describes exactly those rows, and the samples shown are up to five of them. A seed makes the choice reproducible whatever else uses random numbers. Working with "
     "several processes, with workers that fail or results that are lost, gives the report of a single process.",
     ["inputs", "schedules", "faults", "configurations"],
     "every table, sample size, seed and pattern of failing workers",
     "tests mock the pool or sample once; bias, misaligned rows and lost work show only over many samples and schedules",
     [PR + "profile_builder.py", PR + "profiler_utils.py", PR + "column_profile_compilers.py", "dataprofiler/rng_utils.py"],
     [("row sampling", PR + "profiler_utils.py shuffle_in_chunks, partition"),
      ("sample size", PR + "profile_builder.py _get_sample_size, clean_data_and_get_base_stats"),
      ("pool", PR + "profiler_utils.py generate_pool; " + PR + "column_profile_compilers.py BaseCompiler.update_profile")],
     "property-based testing: power-of-two columns reveal the sampled rows; differential runs with injected worker faults",
     "Up to 40 rows for row identification, 9000 for the size rule; uniformity at six standard deviations over 250 seeds.")

prop("P19", "Columns match by name; what does not fit is refused without a trace",
     "Data whose columns come in another order (or, in updates, in another letter case) gives the profile that the "
     "original order would give, including correlations, unique rows and null metrics, also through merges. Data or "
     "profiles with missing, additional, renamed or differently duplicated columns, incompatible options or unsupported "
     "types are refused with an error, and the profile afterwards reports and continues as if nothing had been tried.",
     ["inputs", "histories", "faults"],
     "every permutation of columns, every refused operation at any point of a history",
     "tests try a few mismatches and do not compare the state afterwards; partial updates are silent",
     [PR + "profile_builder.py", PR + "column_profile_compilers.py"],
     [("schema mapping", PR + "profile_builder.py _get_and_validate_schema_mapping, _update_profile_from_chunk"),
      ("merge checks", PR + "profile_builder.py _add_error_checks")],
     "stateful property-based testing: metamorphic column permutations and injected invalid operations against a twin",
     "Up to 4 columns and 14 rows; option mismatches tried: type profilers and row hashing.")

prop("P20", "A text profile counts every character and word of its lines",
     "An unstructured profile reports each character and word of the non-blank lines it was given with its exact count "
     "(punctuation stripped, stop words dropped, case folded as configured, the top k when asked), the number of lines, "
     "of blank lines and the size, through updates from any accepted container, merges, diffs and save/load. A subsample "
     "is as large as asked for, counts no line twice and continues until enough lines hold text.",
     ["inputs", "histories", "configurations"],
     "every sequence of lines, containers, options and operations",
     "tests profile fixed sentences; merges of different options, repeated labels and empty profiles are not sampled",
     [PR + "unstructured_text_profile.py", PR + "profile_builder.py", PR + "column_profile_compilers.py"],
     [("counts", PR + "unstructured_text_profile.py TextProfiler._update_vocab, _update_words, __add__, diff"),
      ("lines", PR + "profile_builder.py UnstructuredProfiler._clean_data_and_get_base_stats")],
     "stateful property-based testing against a reference counter, for updates, merges, diffs and pickles",
     "Up to 6 lines per update, 5 operations; files of up to 8 lines. The data labeler is off (see P29).")

RD = "dataprofiler/data_readers/"

prop("P21", "Reading a delimited file gives the table that was written",
     "For every table of text cells (with delimiters, quotes, line breaks, empty cells, any script), every delimiter, quote "
     "character and header row, CSVData reads back exactly the rows, columns and cells, from a path, a buffer or a string, in "
     "every given encoding. selected_columns, sample_nrows, records, batches and reload give the documented part or form of "
     "the same table: whole rows, none twice, each equally likely. Profiling the file profiles the table.",
     ["inputs", "configurations", "histories"],
     "every table and every combination of reading options",
     "tests read fixture files and look at shapes; quoting, sampling and reloading interact in ways fixtures do not hold",
     [RD + "csv_data.py", RD + "data_utils.py", RD + "base_data.py", RD + "structured_mixins.py"],
     [("loading", RD + "csv_data.py CSVData._load_data_from_file, _load_data_from_str; " + RD + "data_utils.py read_csv_df"),
      ("sampling", RD + "data_utils.py rsample, reservoir"), ("reloading", RD + "csv_data.py CSVData.reload")],
     "property-based testing: round trip through the csv module's writer, differential profile, uniformity over seeds",
     "Up to 4 columns and 14 rows; uniformity at six standard deviations over 300 seeds.")

prop("P22", "JSON, AVRO, Parquet and text files are read as what was written",
     "Rows written as a JSON array, pretty-printed or as JSON lines (blank and broken lines ignored), as AVRO or as Parquet "
     "with any number of row groups come back with every row, every (flattened) key and every value, from a path, buffer or "
     "string. Payload and metadata, selected columns, samples, records and json formats hold the same cells. Text comes back "
     "whole, in pieces of the requested length.",
     ["inputs", "configurations"],
     "every table or document and every combination of reading options",
     "tests load fixtures and compare shapes or a few cells; nesting, gaps, layouts and sources are not combined",
     [RD + "json_data.py", RD + "avro_data.py", RD + "parquet_data.py", RD + "text_data.py", RD + "data_utils.py"],
     [("json", RD + "json_data.py JSONData._load_data_from_str, _load_data_from_file, _get_data_as_flattened_dataframe"),
      ("rows", RD + "data_utils.py read_json, json_to_dataframe, read_parquet_df, sample_parquet"),
      ("text", RD + "text_data.py TextData._get_data_as_text")],
     "property-based testing: round trip through json, fastavro and pyarrow writers",
     "Up to 9 rows and 4 columns, nesting depth 2; integers up to 2^53 (pandas reads columns with gaps as floats).")

prop("P23", "Files are recognised by their content, from a path or a buffer",
     "dp.Data recognises well-formed delimited, JSON, AVRO, Parquet and text files by what they hold, not by their extension, in "
     "every encoding with a byte order mark, ASCII or UTF-8, and reads them as what was written, with the delimiter and header "
     "they have. A path, a BytesIO, a StringIO, a URL and an S3 object of the same content give the same type and data or the same error; looking at a "
     "buffer or reading it does not use it up. A requested data_type which the file is not is refused, and the options passed stay as "
     "they are. Batches partition the rows.",
     ["inputs", "histories", "configurations"],
     "every well-formed file of these formats, and for the agreement of sources every text",
     "tests detect fixtures by path; agreement of sources and repeated reading hold for any content",
     [RD + "data.py", RD + "csv_data.py", RD + "json_data.py", RD + "data_utils.py", RD + "filepath_or_buffer.py", RD + "base_data.py"],
     [("factory", RD + "data.py Data.__new__"), ("recognition", RD + "csv_data.py CSVData.is_match, _guess_delimiter_and_quotechar, "
      "_guess_header_row; " + RD + "json_data.py JSONData.is_match"),
      ("encoding and buffers", RD + "data_utils.py detect_file_encoding; " + RD + "filepath_or_buffer.py FileOrBufferHandler")],
     "property-based testing: round trip through independent writers, differential over sources and repeated reads",
     "Recognition is heuristic: judged on varied tables with a lower case header, a numeric column and at least five rows.")

prop("P24", "Graphs are read from edge lists as written and profiled as they are",
     "GraphData reads an edge list into exactly the nodes (numbers with their sign, or names), edges and numeric attributes written, "
     "whichever columns hold source and destination, from path or buffer, and again on reload. The profile of every undirected "
     "graph states its nodes, edges, average degree and the size of its largest component; each edge attribute is categorical if "
     "some value is whole, else continuous; histograms count every value; the named distribution has the stated likelihood and "
     "none of the closed-form candidates a better one. Diff and save/load agree with the reports.",
     ["inputs", "histories"],
     "every graph with numeric edge attributes, connected or not, with gaps, loops and repeated edges",
     "tests profile three graphs of five edges; named nodes, gaps, single edges and large graphs raised errors",
     [RD + "graph_data.py", PR + "graph_profiler.py"],
     [("reading", RD + "graph_data.py GraphData._format_data_networkx, is_match, csv_column_names, check_integer"),
      ("profile", PR + "graph_profiler.py GraphProfiler.update and its _get_* functions"),
      ("history", PR + "graph_profiler.py GraphProfiler.diff, save, load")],
     "property-based testing against a reference graph (union-find, recount) and scipy likelihoods",
     "Up to 14 edges (large: 900). Moments of the fitted distribution are a known finding (fixed values in the repository's test).")

LB = "dataprofiler/labelers/"

prop("P25", "Pattern and column-name labelers label exactly what their rules say",
     "A RegexModel gives every character the labels whose patterns match there (encapsulated, case as set) and the default label "
     "where none does, one row per character and one column per label index, in any number of samples; its postprocessors turn these "
     "into the label of the highest priority, an even split, one of the matching labels, or the cell's most frequent label. A "
     "ColumnNameModel gives each name the best matching label above its threshold and nothing to names on its negative list. "
     "The same answers come from lists, arrays, series and frames, and after saving and loading; inputs stay unchanged.",
     ["inputs", "histories"],
     "every label mapping, pattern set, encapsulator, priority order and text",
     "tests use one or two labels and short mocks; gaps in the label indices, empty samples and saved labelers failed",
     [LB + "regex_model.py", LB + "column_name_model.py", LB + "data_processing.py", LB + "base_data_labeler.py"],
     [("patterns", LB + "regex_model.py RegexModel.predict"), ("post", LB + "data_processing.py RegexPostProcessor, StructRegexPostProcessor"),
      ("names", LB + "column_name_model.py ColumnNameModel.predict; data_processing.py ColumnNameModelPostprocessor"),
      ("kept", LB + "base_data_labeler.py save_to_disk, load_from_disk")],
     "property-based testing against a direct re-implementation of the rules (re.finditer per label, rapidfuzz per name), round-trip of saved labelers",
     "Up to 5 labels and 230 samples; a default label with patterns of its own is outside (its order dependence is as documented).")

prop("P26", "Characters keep their labels through splitting, flattening and rejoining",
     "Whatever the lengths of the texts, the maximum sample length, the separator, the batch size and the way of splitting, the char "
     "preprocessors put every character of every text, in order, into samples no longer than the maximum, cut at separators unless asked otherwise, and the postprocessors give "
     "every character of every text back the label and confidence the model gave it, and nothing else. Labels for training arrive at "
     "their characters; word-level, named-entity and cell results follow from the labels of the characters by the stated rules; "
     "processors are equal after saving and loading.",
     ["inputs"],
     "every list of texts and processor parameters",
     "tests split a handful of texts; empty cells, arrays, last characters and separators without length lost their labels",
     [LB + "data_processing.py"],
     [("split", LB + "data_processing.py CharPreprocessor._process_batch_helper, find_nearest_sentence_break_before_ind; StructCharPreprocessor"),
      ("join", LB + "data_processing.py CharPostprocessor.match_sentence_lengths, convert_to_NER_format, _word_level_argmax; StructCharPostprocessor"),
      ("train", LB + "data_processing.py CharEncodedPreprocessor.process")],
     "property-based testing with uniquely identifiable characters (alignment oracle) and re-implementations of the aggregation rules",
     "Up to 9 texts of up to 60 characters; one-word texts keep their labels in word-level results and are excluded there.")

prop("P27", "A labeler labels a text alike however it is given, batched, kept or trained",
     "Every labeler (default structured and unstructured, or with any small network) gives one label and one row of confidences per "
     "character (per cell), confidences sum to one, and the answer for a text depends neither on the other texts, the batch size, the "
     "container, a request for confidences, nor saving and loading. After labels are added or replaced, its mapping is what was asked "
     "for and predictions use it; fit trains for the epochs asked on batches covering exactly the data given; pipelines give what their "
     "labelers give.",
     ["inputs", "histories"],
     "every list of texts, batch size and sequence of label changes, saves, loads and fits",
     "tests mock the model or predict a fixed handful of texts; the interplay of history and prediction is not sampled",
     [LB + "base_data_labeler.py", LB + "data_labelers.py", LB + "base_model.py", LB + "character_level_cnn_model.py", LB + "char_load_tf_model.py",
      LB + "data_processing.py"],
     [("predict", LB + "base_data_labeler.py BaseDataLabeler.predict; character_level_cnn_model.py CharacterLevelCnnModel.predict"),
      ("labels", LB + "base_model.py BaseModel.set_label_mapping, add_label; base_data_labeler.py add_label, set_labels"),
      ("fit", LB + "base_data_labeler.py TrainableDataLabeler.fit; character_level_cnn_model.py fit"),
      ("kept", LB + "base_data_labeler.py save_to_disk, load_from_disk")],
     "property-based testing: metamorphic relations between predictions, model of the label mapping over histories, recording stub models for fit",
     "Networks of a few units plus the shipped ones; comparisons to 1e-4. Saving a CharLoadTFModel is a known finding.")

prop("P28", "Validation reports exactly the rows which the rules describe",
     "Validator.validate reports, for every column and rule of its configuration, exactly the rows whose value is within the given range "
     "(ends included) or in the given list, by index label for pandas and by position for dask frames of any partitioning, whatever was "
     "validated before; the report has those columns and no others. A configuration which is missing or names a rule or frame type that the "
     "validator does not know is refused with an error instead of being validated.",
     ["inputs", "histories"],
     "every frame, rule and sequence of validations",
     "tests validate one frame per validator",
     ["dataprofiler/validators/base_validators.py"],
     [("validate", "dataprofiler/validators/base_validators.py Validator.validate, is_in_range, is_in_list")],
     "property-based testing against a row-by-row reference over sequences of validations",
     "Up to 3 validations of up to 12 rows per case; missing values only in pandas frames.")

prop("P29", "Profiles count the labels which the labeler gives, over every history",
     "With the labeler enabled, the profile of a column reports the average confidences, the share of cells voting for each label and "
     "the labels within the stated margin of the best, computed from the labeler's answers for exactly the sampled non-null cells of all "
     "updates and merges, for any label mapping; of texts it reports label counts per character, postprocessed character and word. "
     "At most the maximal sample is labelled and no cell twice. Diff and saved profiles agree with the reports.",
     ["inputs", "histories"],
     "every table, list of texts, label mapping and sequence of updates, merges and saves",
     "tests use mocked labelers with two labels; gaps in mappings and merges with empty columns failed",
     [PR + "data_labeler_column_profile.py", PR + "unstructured_labeler_profile.py", PR + "column_profile_compilers.py"],
     [("columns", PR + "data_labeler_column_profile.py DataLabelerColumn._update_predictions, __add__, avg_predictions, label_representation, data_label, diff"),
      ("texts", PR + "unstructured_labeler_profile.py UnstructuredLabelerProfile.update, _update_word_level, __add__"),
      ("compilers", PR + "column_profile_compilers.py ColumnDataLabelerCompiler, UnstructuredCompiler")],
     "property-based testing against label counts computed from the text with a pattern labeler, over generated histories",
     "Up to 16 rows and 8 texts; the last unlabelled word of a text is a known finding.")

prop("P30", "Plots draw what the profile reports",
     "plot_histograms draws one titled panel for every int or float column asked for (by name, also integers and any case, by index, or "
     "all), in the order of the profile, with one bar per bin of the reported histogram at its edges and of its count. "
     "plot_missing_values_matrix and plot_col_missing_values draw, for every column, rectangles of one colour per null type which cover "
     "exactly the rows reported to be of that null type on a background as tall as the rows profiled, with one legend entry per null type.",
     ["inputs", "histories"],
     "every table, selection of columns and pattern of missing values",
     "tests mock the plotting or count panels; gaps between null rows and the order of panels were wrong",
     ["dataprofiler/reports/graphs.py"],
     [("histograms", "dataprofiler/reports/graphs.py plot_histograms, plot_col_histogram"),
      ("missing values", "dataprofiler/reports/graphs.py plot_missing_values_matrix, plot_col_missing_values")],
     "property-based testing: the patches of the drawn figure are read back and compared with the report and the cells",
     "Up to 5 columns and 20 rows, up to 6 null types; the Agg backend only.")

prop("P31", "Scores of a labeler are those of the labels given and expected",
     "evaluate_accuracy reports for every label which is not omitted the precision, recall, F1 score and support counted over all "
     "characters, the macro average over the labels which occur, the micro average (or accuracy, if no label is omitted) and the average "
     "weighted by support, writes the confusion matrix asked for, and prints the same numbers. The FBetaScore and F1Score metrics give the "
     "score of everything seen since the last reset, however batched, for every average, beta, threshold and sample weight.",
     ["inputs", "histories"],
     "every pair of label sequences, set of omitted labels and sequence of metric updates",
     "tests evaluate two or three fixed sequences; labels without support, padding and counting in chunks are corner cases",
     [LB + "labeler_utils.py", LB + "classification_report_utils.py"],
     [("report", LB + "labeler_utils.py evaluate_accuracy, f1_report_dict_to_str; classification_report_utils.py"),
      ("metric", LB + "labeler_utils.py FBetaScore, F1Score")],
     "property-based testing against counts of true and false positives and negatives",
     "Up to 6 labels and 45 characters, plus sequences of one to two million labels; metrics to 1e-5 (single precision).")

prop("P32", "A profile depends on the cells, not on what holds them",
     "Structured data is profiled by the text of its cells: a data frame of numbers, booleans, dates, decimals, categories or sparse "
     "columns, with missing cells, gives the report of the same cells as text; a list of cells or rows, a Series, a frame with any row "
     "labels or column names, and the Data object of a reader give the report of the same table as a data frame, at once, over several "
     "batches of different kinds and after merges. Profiling leaves the frame and its types as they are.",
     ["inputs", "histories", "configurations"],
     "every table and every container, column type and row labelling that can hold it",
     "tests profile text frames and a few numeric ones; each pandas type turns into text in its own way",
     [PR + "profile_builder.py"],
     [("cells to text", PR + "profile_builder.py StructuredColProfiler.clean_data_and_get_base_stats"),
      ("containers", PR + "profile_builder.py BaseProfiler.update_profile, StructuredProfiler._update_profile_from_chunk")],
     "metamorphic property-based testing: typed or held data against the text table",
     "Up to 10 rows and 4 columns; pandas' <NA> and NaT are texts, not nulls, by default.")

prop("P33", "The parts of a labeler keep the parameters they are given and refuse others",
     "Every preprocessor, model and postprocessor of a labeler reports exactly the parameters which it was given at construction and by "
     "set_params, singly or together; a call with a value which the parameter cannot take, or with a name it does not have, is refused with "
     "an error and changes nothing; what get_parameters returns, the dictionary of the caller and other parts built from it stay "
     "independent of the part. Parts are equal exactly when their parameters are, and a saved part loads with the same parameters. Labels "
     "are added, replaced and numbered as asked for over every history, and a labeler passes parameters on to the part they are meant for.",
     ["inputs", "histories"],
     "every part, set of parameters and sequence of reads, changes and refused changes",
     "tests set each parameter once from the defaults; refused calls after changes, several parameters at once and shared dictionaries are not tried",
     [LB + "data_processing.py", LB + "base_model.py", LB + "base_data_labeler.py", LB + "regex_model.py", LB + "column_name_model.py",
      LB + "character_level_cnn_model.py"],
     [("parameters", LB + "data_processing.py BaseDataProcessor, _validate_parameters; base_model.py BaseModel.get_parameters, set_params"),
      ("labels", LB + "base_model.py BaseModel.add_label, set_label_mapping; character_level_cnn_model.py set_label_mapping"),
      ("labeler", LB + "base_data_labeler.py BaseDataLabeler.set_params")],
     "stateful property-based testing against a dictionary model of the parameters",
     "Up to 6 calls of up to 4 parameters; only values which the documentation clearly allows or excludes; TensorFlow models are not built.")
