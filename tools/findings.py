#!/usr/bin/env python3
"""Writes known_findings.json: 'fixed' entries are looked up in /repo's log by subject; 'known' entries are literal."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [  # subject, property, what failed
    ("keep a min/max of 0 when a numeric column is updated in batches", "P02",
     "batches [0,3] then [5] reported min 5 instead of 0"),
    ("weigh batches by their own size when updating the precision variance", "P02",
     "precision variance of unequal batches differed from one pass"),
    ("keep the string/text distinction when merging text columns", "P03",
     "merging two text columns of long strings reported type string"),
    ("report the same kurtosis for constant data however it is batched", "P02",
     "merged constant batches reported kurtosis 0.0, one pass -3.0"),
    ("do not extend the caller's omit_keys list in compact reports", "P04",
     "report({'output_format': 'compact', 'omit_keys': L}) appended to L"),
    ("diff against a column without any value no longer divides by zero", "P04",
     "diff of a categorical column with an all-null one raised ZeroDivisionError"),
    ("report a merged profile whose histogram bin count is set by the user", "P04",
     "KeyError 'suggested_bin_count' on report() of a merge with bin_count_or_method=7"),
    ("bin both histograms over the same edges before calculating PSI", "P04",
     "IndexError / non-zero self PSI in diff with a small custom bin count"),
    ("updating the correlation with a batch of nulls no longer divides by zero", "P04",
     "update_profile with an all-null batch raised ZeroDivisionError when correlation is on"),
    ("null replication sums of integer batches can take a float running sum", "P04",
     "update_profile raised a numpy casting error with null replication metrics on"),
    ("merge null replication metrics of profiles with datetime columns", "P04",
     "AttributeError 'sum' merging profiles with a datetime column and null replication metrics on"),
    ("keep the histogram when merging with a column that has none", "P04",
     "merge with an all-null column aliased the histogram and lost median, mode and later updates"),
    ("keep the number of quantiles set by the user when merging columns", "P07",
     "merge of profiles with num_quantiles=4 reported 999 quantiles"),
    ("updating a merged column no longer corrupts its histogram", "P07",
     "merge then update multiplied bin edges by bin counts"),
    ("merging profiles which use HyperLogLog leaves the first one as it was", "P04",
     "p + q changed p's unique row count"),
    ("a merged count-min-sketch column can be updated and merged again", "P04",
     "(p + q) + p raised TypeError with category.cms on"),
    ("keep top_k_categories when merging categorical columns", "P08",
     "merge of profiles with top_k_categories=2 reported every category"),
    ("apply the regex flags given for null values", "P05", "null_values {'N/A': 0} also matched 'n/a'"),
    ("look up column null values by the position of the column in the profile", "P05",
     "column_null_values were applied to another column when a batch came with reordered columns"),
    ("null_ratio covers all batches and both operands of a merge", "P14",
     "diff of null_ratio described the last batch only"),
    ("forget the index shift of a batch when the next one needs none", "P05",
     "row null ratios wrong with min_true_samples and a later batch with a fresh index"),
    ("profile data whose index has duplicate labels correctly", "P05",
     "duplicate index labels: cells counted twice, null rows lost"),
    ("count unique rows with HyperLogLog when columns share a name", "P06",
     "duplicate column names raised with hashing_method hll"),
    ("recognize duplicate rows in batches with reordered columns", "P06",
     "a batch with reordered columns counted its duplicate rows as unique"),
    ("report a median of 0 between two bins", "P07", "median of [-1, 1] reported as the mode of a neighbouring bin"),
    ("report quantiles when fewer than four groups can be formed", "P07",
     "num_quantiles 2 or 3 raised IndexError in report()"),
    ("recognize dates in May in formats which have no full month variant", "P10",
     "a column with the only %b-%d-%y date in May, e.g. May-01-00 alone in its batch, was not a date"),
    ("sample at least one value for the precision of a float column", "P12",
     "a batch too small for precision.sample_ratio made report() raise on NaN"),
    ("merge the correlation of profiles with non-numeric or reordered columns", "P13",
     "p + q raised ValueError (broadcast) with correlation on and a text column in the data"),
    ("merge null replication metrics of profiles with reordered columns", "P13",
     "null replication metrics mixed columns up when the second operand has another column order"),
    ("update null replication metrics with batches of reordered columns", "P13",
     "null replication metrics mixed columns up after an update with reordered columns"),
    ("report a statistic that is NaN in both profiles as unchanged", "P14",
     "p.diff(p) reported nan instead of unchanged for the variance of a single value"),
    ("leave enabled statistics in a report that removes the disabled ones", "P15",
     "remove_disabled_flag dropped all but precision and vocab of float and text columns, and nothing of int columns"),
    ("report invalid row statistics options when validating", "P15",
     "row_statistics.unique_count.hashing_method='x' passed validation"),
    ("update a profile of one row whose variance is disabled", "P15",
     "update_profile of a one-row profile with variance off and correlation on raised ZeroDivisionError"),
    ("validate the vocab and words options of the text profiler", "P15",
     "text.vocab.is_enabled='yes' passed validation"),
    ("print differences with lists of different lengths in the pretty format", "P16",
     "diff in the pretty format raised ValueError for [only-first, shared, only-second] lists of different lengths"),
    ("accept wildcards for both top levels in omit_keys", "P16", "omit_keys ['*.*'] raised IndexError"),
    ("keep the stored histogram apart from the reported one", "P04",
     "a report made between two updates changed the histogram that later reports chose"),
    ("update the correlation of a merged profile with a batch without values", "P04",
     "merge then update with a batch of nulls raised IndexError when correlation is on"),
    ("save profiles with integer column names as JSON", "P17", "TypeError: keys must be str, ... not int64"),
    ('keep column names like "0" as strings when loading a JSON profile', "P17",
     "a profile of columns '0', '1' could not be updated after loading: the names had become integers"),
    ("pickle the correlation, null replication metrics and sampling ratio of a profile", "P17",
     "the report of a loaded pickle had no correlation matrix"),
    ("load null values with regex flags and column null values from JSON", "P17",
     "loading a JSON profile made with column_null_values raised in option validation"),
    ("load the null replication metrics of a JSON profile by column position", "P17",
     "the report of a loaded JSON profile had no null_replication_metrics"),
    ("diff columns of different types when categories are disabled", "P17", "diff raised KeyError 'statistics'"),
    ("pickle profiles which use a count-min sketch", "P17", "save raised TypeError with category.cms on"),
    ("recognize duplicate rows of merged profiles with reordered columns", "P19",
     "merging profiles of the same rows with columns in another order counted every row twice as unique"),
    ("update a profile with columns whose names differ in case", "P19",
     "an update with column 'A' instead of 'a' failed half way and left counts of some columns updated"),
    ("count the lines of text whose index labels repeat", "P20", "an unstructured profile of a Series with repeated index "
     "labels, Series(['aa','bb',''], index=[0,0,1]), reported 2 empty lines; with mixed labels it raised TypeError"),
    ("drop both sides' stop words when merging text profiles", "P20", "merging a text profile with stop words {x, foo} and "
     "one with {foo} kept the second one's count of 'x', and dropped it in the other order"),
    ("diff text profiles of different case sensitivity by lower case words", "P20", "diff of a case sensitive profile of "
     "'Foo foo' with an insensitive one compared one of the two counts"),
    ("report and merge unstructured profiles which have no data", "P20", "Profiler([], profiler_type='unstructured').report() "
     "raised AttributeError; merging it with another profile raised TypeError"),
    ("read csv values with the quote character of the file", "P21", "CSVData(path, options={'delimiter': ' ', 'quotechar': \"'\"}) "
     "split the quoted value 'd e f' into three columns"),
    ("reload csv data with the options which are given", "P21", "CSVData.reload(path, options={'delimiter': '|'}) read with the "
     "delimiter, quote character and header row of the previous file"),
    ("read csv files with lines which hold nothing but their delimiter", "P21", "a tab separated file with a line of two "
     "empty cells raised IndexError"),
    ("sample whole records of a csv file", "P21", "sample_nrows cut values with line breaks apart, so that parts of rows were read "
     "as rows"),
    ("read the json lines after a blank line", "P22", "JSONData(data='{\"a\": 1}\\n\\n{\"a\": 2}') read one row"),
    ("select keys of a json payload which has metadata", "P22", "selected_keys=['a'] of {'data': [{'a': 1}], 'm': 3} raised KeyError"),
    ("flatten the nested objects of json lines", "P22", "JSON lines with nested objects were read as cells like "
     "\"OrderedDict({'b': 1})\", where the same rows in an array gave a column a.b"),
    ("split json text into lines at line ends only", "P22", "JSON lines given as a string lost rows whose values hold U+2028"),
    ("split csv records at line ends only", "P21", "records of a table whose cells hold U+2028, U+0085 or a form feed had a line break "
     "instead"),
    ("keep the nodes of an edge out of its attributes", "P24", "an edge list 'source_node,target_node\\nalice,bob' raised ValueError: "
     "could not convert string to float"),
    ("read signed numbers as integer nodes", "P24", "the node -5 of an edge list was read as the text '-5'"),
    ("ignore the blank lines of an edge list", "P24", "an edge list which ends with a blank line raised an error"),
    ("reload graph data from what is given", "P24", "GraphData.reload(path, None, options) read with the columns of the previous file, "
     "reload(None, graph, None) read the previous file again"),
    ("fit the attributes of large graphs", "P24", "Profiler(graph) of some hundred edges with a fractional attribute raised "
     "UnboundLocalError"),
    ("skip the distributions which cannot be fitted", "P24", "Profiler(graph) whose fractional attribute is constant, or has one edge, "
     "raised FitError"),
    ("predict nothing with a regex model which is given nothing", "P25", "RegexModel.predict([]) returned one empty prediction"),
    ("predict with the compiled patterns a regex model accepts", "P25", "RegexModel with re.compile patterns, which its validation accepts, "
     "raised TypeError on predict"),
    ("compare regex postprocessors by what they do", "P25", "a labeler with a RegexPostProcessor or StructRegexPostProcessor did not equal "
     "itself after saving and loading; arrays as priority order raised ValueError"),
    ("save regex postprocessors whose priority order is an array", "P25", "RegexPostProcessor(priority_order=np.array(..)) raised TypeError "
     "on save_to_disk"),
    ("encode labelled data given as arrays", "P26", "CharEncodedPreprocessor.process(data, labels=array, ..) raised ValueError or TypeError"),
    ("give no label to cells without characters wherever they are", "P26", "StructCharPostprocessor gave the cells of ['ab', ''] the labels "
     "['X', 'None'] (text), those of ['', 'ab'] [None, 'X'], and raised ValueError without cells"),
    ("give the last character of a text the label of its word", "P26", "with use_word_level_argmax the last character of 'hello John' kept "
     "its own label"),
    ("char postprocessors equal themselves after saving and loading", "P26", "CharPostprocessor() != the same after save_to_disk and load_from_disk"),
    ("keep the labels of flattened samples without a separator", "P26", "CharPreprocessor(flatten_split=1, flatten_separator='') lost the labels "
     "of the sample being flattened: inhomogeneous shape"),
    ("profile graphs whose edges have different attributes", "P24", "Profiler(graph) with edges {w: 1} and {w: 1, v: 2} raised ValueError"),
    ("report only the columns of the last validation", "P28", "Validator.validate of a second configuration kept the columns of the first in its report"),
    ("average the predictions of the labels whose indices have gaps", "P29", "avg_predictions named the averages after other labels where the "
     "labeler's indices have gaps"),
    ("merge the labels of a column with those of an empty column", "P29", "merging a column profile with cells and one without raised AttributeError "
     "(NoneType) if the labeler is enabled"),
    ("plot the histograms of columns named by integers", "P30", "plot_histograms(column_names=[0]) raised a ValueError"),
    ("plot the histograms in the order of the profile", "P30", "the sorted columns were not the ones plotted"),
    ("draw every run of missing values at its own height", "P30", "nulls in rows [0, 1, 5, 9] drew a rectangle of negative height"),
    ("keep the storage options of the caller when reading from S3", "P23",
     "the credentials were removed from the caller's options, so that the next file was read without them"),
    ("read S3 objects whose key contains '#' or '?'", "P23", "the key was cut at the first '#' or '?'"),
    ("merge the chi-squared matrix with that of a profile of nulls", "P13",
     "a profile of nulls plus one with the columns in another order gave the matrix of the other order"),
    ("correlate the selected columns whose names hold capitals", "P13",
     "correlation.columns=['A', 'B'] gave no correlation and made the next update fail"),
    ("keep the order of the rows when nulls are removed", "P11",
     "the order of a sampled column, or of a frame which was sorted or filtered, was that of its row labels in a set"),
    ("profile categorical columns with missing cells and sparse columns", "P32",
     "a categorical column with a missing cell, or a sparse column, ended in an error"),
    ("serialize reports of columns named by dates or booleans", "P16",
     "the serializable report of a column named by a date could not be written as json"),
    ("reject correlation without the variances it is computed from", "P15",
     "correlation with the variance of the numbers disabled was accepted and ended in a KeyError"),
    ("keep the columns without numbers when correlating", "P13",
     "null replication metrics together with correlation lost the text columns, or ended in an error"),
    ("merge null replication metrics when a column holds nothing in one profile", "P13",
     "the sums and means of the other column became NaN"),
    ("give the labelers back to the profiles which merge_profile_list merged", "P29",
     "report() of a merged operand raised AttributeError"),
    ("merge a list of profiles which label a column that is empty in one", "P29", "merge_profile_list raised AttributeError"),
    ("CharEncodedPreprocessor accepted an encoding_map which is not dict[str, int]", "P33", "encoding_map={'a': 'x'} was accepted"),
    ("get_parameters of a processor with a list of names gave away the live parameters", "P33",
     "clearing get_parameters(['encoding_map'])['encoding_map'] emptied the map of the processor"),
    ("labeler models shared and extended the parameters dict of the caller", "P33",
     "two models built from one dict shared every later set_params; defaults were written into the dict"),
    ("ColumnNameModel parameters could not be set one by one and were not validated as documented", "P33",
     "set_params(include_label=False) raised KeyError; entries without a label, or with an unknown one, were accepted"),
    ("a CharPostprocessor whose separators were set as a list was unequal to its saved copy", "P33",
     "set_params(separators=[',']), save, load: not equal"),
    ("report all modes when top_k_modes is None", "P15", "TypeError while reporting ties and while merging"),
    ("reject None as the number of quantiles", "P15", "num_quantiles=None was accepted and profiling raised TypeError"),
    ("reject settings which no count-min sketch can be made with", "P15",
     "cms_confidence 0.0 or 1.0 and cms_relative_error 0.0 were accepted and ended the process"),
    ("correlate when a column without numbers is selected twice", "P15", "correlation.columns=['a', 'a'] raised KeyError for a text column"),
]
KNOWN = [
    dict(id="last-word", property="P29", sub="last", key="the last unlabelled word of a text is not counted",
         what="UnstructuredLabelerProfile._update_word_level counts the last word of a text only if it has a label, so ['a.AA0'] counts one "
              "word; the repository's own test (test_unstructured_labeler_profile.py test_profile) expects these counts, so the repair "
              "would break it"),
    dict(id="graph-fit-moments", property="P24", sub="profile", key="moments of the parameter tuple",
         what="GraphProfiler._get_continuous_distribution reports the moments of distribution.stats((loc, scale)), so mean, variance, "
              "skew and kurtosis are lists which do not describe the fitted distribution; the repository's own test "
              "(test_graph_profiler.py) expects these values, so the repair would break it"),
    dict(id="tf-model-save", property="P27", sub="tf", key="CharLoadTFModel is not saved",
         what="CharLoadTFModel.save_to_disk calls model.save(directory), which Keras 3 (required by requirements-ml.txt) refuses with "
              "ValueError: Invalid filepath extension; the repository's own test (test_char_tf_load_model.py) expects the call with the "
              "directory itself, so the repair would break it"),
]  # dict(id, property, sub, key, what)


def main():
    log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h\t%s"], text=True).splitlines()
    by = {}
    for line in log:
        h, s = line.split("\t", 1)
        if s.startswith("fix: "):
            by[s[5:]] = h
    fixed = []
    for subj, pid, what in FIXED:
        fixed.append("fixed: property=%s %s %s" % (pid, by.pop(subj), what))
    assert not by, by
    exec_known = KNOWN
    with open(os.path.join(HERE, "known_findings.json"), "w") as f:
        json.dump({"known": exec_known, "fixed": fixed}, f, indent=1)
        f.write("\n")
    print(len(fixed), "fixed,", len(exec_known), "known")


if __name__ == "__main__":
    main()
