"""Writes /verif/properties.jsonl (kept as code so that it stays valid and easy to edit)."""
import json, os

E = "src/qp/ensemble.py"
F = "src/qp/factory.py"
D = "src/qp/dict_utils.py"
G = "src/qp/pdf_gen.py"
U = "src/qp/utils.py"
REPS = ["src/qp/hist_pdf.py", "src/qp/interp_pdf.py", "src/qp/quant_pdf.py", "src/qp/mixmod_pdf.py",
        "src/qp/packed_interp_pdf.py", "src/qp/spline_pdf.py", "src/qp/sparse_pdf.py", "src/qp/scipy_pdfs.py"]
QC = ["src/qp/quantile_pdf_constructors/cdf_spline_derivative.py", "src/qp/quantile_pdf_constructors/dual_spline_average.py",
      "src/qp/quantile_pdf_constructors/piecewise_constant.py", "src/qp/quantile_pdf_constructors/piecewise_linear.py"]
MM = ["src/qp/metrics/concrete_metric_classes.py", "src/qp/metrics/metrics.py", "src/qp/metrics/brier.py", "src/qp/metrics/pit.py",
      "src/qp/metrics/base_metric_classes.py"]
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


prop("P01", "A file gives back exactly the ensemble last written to it",
     "Reading a file (hdf5, hf5, h5, pq, fits or fit) returns an ensemble of the same representation with the same shared parameters, the same parameters per distribution, the same ancillary columns and the same densities and CDFs as the ensemble last written to that file. "
     "This holds whatever was written to that file name or to other files before, for any number of distributions and any optional settings of the representation. "
     "Writing and reading change neither the ensemble nor any other file.",
     ["histories", "inputs", "configurations"],
     "every history of writes, overwrites, reads and re-writes of read ensembles over several files and formats, with ensembles of every representation, with and without ancillary data",
     "The tests write one ensemble per representation to a fresh file name and read it once; they never overwrite, rarely carry ancillary data, and do not interleave files.",
     [E, F, G] + REPS,
     [("split into tables when writing", "Ensemble.build_tables, Ensemble.write_to"), ("rebuild when reading", "Factory.read, Factory.from_tables, Factory._build_data_dict"),
      ("what a representation stores", "the _addmetadata/_addobjdata calls in each representation's constructor")],
     [("tables on disk", "meta, data and ancil tables of one ensemble", "Ensemble.build_tables")])

prop("P02", "After a crash during a write, a file is old, new or unreadable",
     "If the process dies at any point while an ensemble is being written, later reading that file either raises an error or returns exactly the new ensemble or exactly the one the file held before, including its ancillary data. "
     "It never returns a mixture or an ensemble with parts missing, and other files are untouched. "
     "Writing again after the crash succeeds and the file then reads back as written.",
     ["crash_points", "histories", "configurations"],
     "every prefix of the sequence of file system operations of a write (the last one possibly torn), fresh files and overwrites, with and without ancillary data before and after, every supported format",
     "No test kills a write; the number of crash points of one small write is between 10 and 60 per format.",
     [E, F],
     [("order in which tables are written", "Ensemble.build_tables"), ("removal of what the file held before", "Ensemble.write_to"), ("missing tables accepted on reading", "Factory.read, Factory.from_tables")],
     [("tables on disk", "tables present so far; a file counts as an ensemble once its metadata table is there", "Ensemble.write_to")])

prop("P03", "A write that meets I/O errors raises or really is complete",
     "If file operations fail (disk full, I/O error, permission) or transfer less than asked while an ensemble is written, the write either raises an error or leaves a file that reads back exactly as the ensemble. "
     "Whatever happens the ensemble in memory is unchanged, the file never reads back as something that is neither the old nor the new ensemble, and once the faults stop the same write succeeds.",
     ["fault_sequences", "histories", "configurations"],
     "every kind of fault at every file operation of a write, single and repeated, for the formats written through the real file system calls",
     "No test injects an I/O error.",
     [E, F],
     [("write path", "Ensemble.write_to, Factory.write_dict"), ("order of tables", "Ensemble.build_tables")])

prop("P04", "A damaged or failing file is reported, never read as other data",
     "If a file was cut short, lost one of its parts, or fails while being read, reading it raises an error or returns exactly the ensemble that was written. "
     "Testing whether a file holds an ensemble answers yes or no and never raises, and answers yes for an intact file. "
     "A failed read leaves nothing behind: reading the intact file afterwards returns the right ensemble.",
     ["fault_sequences", "inputs"],
     "every truncation point, every missing table, every failing or short read operation, every supported format",
     "The tests read intact files only, and try one non-table file.",
     [F],
     [("missing tables accepted or not", "Factory.read, Factory.from_tables"), ("file test", "Factory.is_qp_file"), ("metadata only read", "Factory.read_metadata")])

prop("P05", "Chunked and parallel writing give the same file as writing at once",
     "Writing an ensemble to an hdf5 file in chunks, by one process or by several ranks of a parallel job that write disjoint row ranges, gives a file that reads back exactly as if the whole ensemble had been written at once, ancillary data included. "
     "The order of the chunks, their sizes and the interleaving of the ranks make no difference.",
     ["schedules", "inputs", "configurations"],
     "every partition of the rows into chunks, every order of writing them, every number of ranks and interleaving of their operations, every representation",
     "The only chunked test writes one interpolated ensemble in equal chunks in order, from one process.",
     [E, F],
     [("allocation of the full size", "Ensemble.initializeHdf5Write, Ensemble._get_allocation_kwds"), ("chunk write", "Ensemble.writeHdf5Chunk"), ("metadata", "Ensemble.finalizeHdf5Write")])

prop("P06", "An unfinished chunked file never passes for a complete ensemble",
     "Until chunked writing has been finalised, the file is not recognised as holding an ensemble, and reading or iterating it raises an error. "
     "This holds for a job that is killed at any point before finalisation, whatever chunks it has already written.",
     ["crash_points", "histories"],
     "every crash point of a chunked write, between and inside its file operations",
     "The chunked-writing test always runs to completion.",
     [E, F],
     [("metadata written last", "Ensemble.initializeHdf5Write, Ensemble.finalizeHdf5Write"), ("recognition", "Factory.is_qp_file, Factory.read, Factory.iterator")])

prop("P07", "Chunked iteration delivers every row exactly once, across all ranks",
     "Iterating over an hdf5 file in chunks delivers ensembles which together hold every distribution and its ancillary data exactly once, each chunk being exactly the rows of the announced range, of the announced size, and in increasing order. "
     "With several parallel ranks the chunks of all ranks together cover every row exactly once, whatever the chunk size and the number of ranks.",
     ["inputs", "configurations", "schedules"],
     "every file length, chunk size, number of ranks and rank, representation, and interleaving of the ranks' iterations",
     "The tests iterate one file with one chunk size and a single rank or two.",
     [F, E],
     [("ranges", "Factory.iterator"), ("length of the file", "Factory.data_length"), ("chunk construction", "Factory._build_data_dict")])

prop("P08", "Chunks stay valid and iterations do not disturb one another",
     "An ensemble delivered by chunked iteration keeps its distributions and ancillary data, unaffected by continuing, finishing or abandoning the iteration, by changes made to other chunks, and by other iterations of the same or other files in progress. "
     "Two iterations in progress each deliver what they would alone, and after all are finished or abandoned the file can be read, rewritten and deleted.",
     ["schedules", "histories"],
     "every interleaving of steps of several iterations, reads, changes to delivered chunks and abandonment",
     "The tests consume each chunk before asking for the next and run one iteration at a time.",
     [F, E],
     [("per-chunk dictionaries", "Factory.iterator"), ("sharing between ensembles", "Ensemble.__init__, Ensemble.set_ancil, Ensemble.add_to_ancil")])

prop("P09", "A dictionary file gives back every ensemble under its own name",
     "Writing a dictionary of ensembles to a file and reading it back returns the same names, each with an ensemble equal in representation, parameters and ancillary data to the one stored under it. "
     "The ensembles may differ in representation, size and ancillary data, the file may have held another dictionary before, and nothing stored under one name leaks into another.",
     ["inputs", "histories"],
     "every dictionary of one to several ensembles of any mix of representations, sizes and names, and every history of overwriting",
     "One test writes two ensembles of the same kind and compares a few values.",
     [F],
     [("write", "Factory.write_dict"), ("read", "Factory.read_dict, Factory.from_tables")])

prop("P10", "Looking into a file agrees with reading it and changes nothing",
     "For any file written by the library, the metadata read on its own equals the metadata of the ensemble that reading returns, the reported number of rows equals its number of distributions, and the file is recognised as holding an ensemble. "
     "Files that hold no ensemble are not recognised. "
     "None of these queries, in any order and between writes, changes a file or keeps it from being rewritten.",
     ["histories", "inputs"],
     "every interleaving of inspections, reads and (over)writes of several files of every supported format, with foreign files among them",
     "The tests query the metadata and the length of a single file once.",
     [F],
     [("metadata", "Factory.read_metadata"), ("length", "Factory.data_length"), ("recognition", "Factory.is_qp_file")])

prop("P11", "Data of an older version is converted, once, however it is read",
     "If the class of a representation has a reader method for the version of the stored data (or a default one), then reading that data gives the ensemble made from what the reader method returns for it. "
     "This is so for a whole file, for its chunks (by one or several ranks), for dictionaries of ensembles and for tables passed in memory, in any order, after reads that failed half way, and in processes that run different versions. "
     "Data of the current version, and files that were read, are left as they are; an ensemble that was read from older data is written in the current version.",
     ["histories", "configurations", "fault_sequences", "crash_points"],
     "every deployment of processes with older and newer versions of representations made by users, which write, read, exchange and migrate data, are upgraded, crash and are interrupted",
     "No test registers a reader method; all stored data has the version of the class that reads it.",
     [F, G, D],
     [("reader methods", "Pdf_gen.reader_method, Pdf_gen._add_reader_method"), ("all ways of reading", "Factory.from_tables, Factory.read, Factory.iterator, Factory.read_dict")],
     [("version of the data", "pdf_version in the meta table", "Pdf_gen._addclassmetadata")])

prop("H01", "Selecting, appending and concatenating act on rows like on a list",
     "Selecting a row, a range of rows or the rows given by a list of indices or a mask, appending an ensemble and concatenating ensembles give an ensemble whose distributions and ancillary rows are exactly those of the corresponding list operation, in the same order, with the same shared parameters. "
     "Ensembles of different representations, or whose shared parameters clearly differ, are refused. "
     "This holds for any sequence of these operations, including on the results of earlier ones and on ensembles read from files.",
     ["histories", "inputs"],
     "every sequence of selection, append, concatenation and file round trip on ensembles of every representation, compared with a model that is a plain list of rows",
     "The tests apply each operation once to a fresh ensemble.",
     [E, F, D],
     [("row selection", "Ensemble.__getitem__, slice_dict"), ("append", "Ensemble.append, Ensemble.update_objdata"), ("concatenation", "Factory.concatenate, concatenate_dicts")])

prop("H02", "No operation changes another ensemble or the caller's data",
     "Every operation changes at most the ensemble it is invoked on: all other ensembles, also those made from it by selection, concatenation or conversion or those it was made from, keep their distributions and ancillary data. "
     "Arrays and dictionaries the caller passed in (parameters, ancillary tables, evaluation points) are never modified.",
     ["histories", "inputs"],
     "every sequence of creating, selecting, appending, concatenating, converting, updating, attaching ancillary data, evaluating, sampling and writing over several ensembles that share their origin",
     "The tests look only at the result of the operation under test, not at the other live objects.",
     [E, F, D, G] + REPS,
     [("sharing of dictionaries", "Ensemble.set_ancil, Ensemble.add_to_ancil, Ensemble.build_tables, Ensemble.metadata, Ensemble.objdata"), ("normalisation of inputs", "constructors of the representations")])

prop("H03", "An operation that fails changes nothing",
     "If updating, appending to, or attaching ancillary data to an ensemble, or concatenating, converting, selecting or writing, raises an error, then every ensemble involved still has the distributions and ancillary data it had before. "
     "The same operation with valid arguments then succeeds with the same result as if the failed attempt had not happened.",
     ["histories", "fault_sequences"],
     "every kind of invalid argument (mismatched lengths, missing or extra columns, incompatible metadata, unknown names) and injected failure at any step of the history",
     "The tests check that errors are raised, not what the ensemble is afterwards.",
     [E, F, D],
     [("validate before changing", "Ensemble.update, Ensemble.update_objdata, Ensemble.append, Ensemble.set_ancil, Ensemble.add_to_ancil")])

prop("H04", "Gridded values and modes are those of the current ensemble and grid",
     "Evaluation on a grid, the mode on a grid and partial moments always equal what a fresh ensemble with the same contents gives for the grid passed in. "
     "No earlier evaluation on another grid, of the same length or not, no change of the ensemble and no change of the caller's grid array afterwards makes a difference.",
     ["histories"],
     "every sequence of gridded evaluations, modes, partial moments and metrics on a few grids, mixed with updates, appends and in-place changes of the grids",
     "The tests ask for one grid, at most twice, on an ensemble that does not change.",
     [E, "src/qp/metrics/metrics.py"],
     [("cache", "Ensemble.gridded"), ("invalidation", "Ensemble.update"), ("users of the cache", "Ensemble.mode, Ensemble.moment_partial, calculate_moment, calculate_kld, calculate_rmse, calculate_brier")],
     [("last grid and values", "cached result of the last gridded evaluation", "Ensemble._gridded")])

prop("H05", "A value does not depend on what else is asked, before or in the same call",
     "The density, CDF, quantile, survival function and inverse survival function of a distribution at a point are the same whether the point is asked alone, with others, in any order, with repetitions or as a table of points per distribution, and whether the distribution is evaluated alone, in a selection or with the whole ensemble. "
     "They are also the same whatever was evaluated before on the same ensemble. "
     "For mixture models the quantiles are interpolated on a grid common to the ensemble, and may differ by that interpolation error.",
     ["schedules", "histories", "inputs"],
     "every way of splitting a set of (row, point) requests of several clients into calls and of ordering the calls, every representation",
     "The tests evaluate whole ensembles at sorted grids and compare different methods with each other only there.",
     [U, G] + REPS + QC,
     [("case analysis of the shape of a request", "get_eval_case and the evaluate_* functions in utils"), ("lazily built tables", "_compute_ycumul and similar in the representations"), ("dispatch", "_pdf, _cdf and _ppf of each representation")])

prop("H06", "An interrupted evaluation leaves the ensemble as good as new",
     "If an evaluation, a gridded evaluation, a selection, a conversion, sampling or a metric is interrupted at any point by an exception (interrupt, out of memory), the ensemble afterwards gives the same results as one that was never interrupted. "
     "Repeating the interrupted call gives the right result.",
     ["crash_points", "histories", "fault_sequences"],
     "every point of the library's code at which an asynchronous exception or allocation failure can arrive, for every representation, on ensembles whose internal tables are or are not built yet",
     "No test interrupts a call.",
     [E, U, G] + REPS + QC,
     [("lazily built tables", "the properties ycumul, splines and similar in the representations and quantile constructors"), ("cache", "Ensemble.gridded")],
     [("lazily built tables", "None until the first evaluation that needs them", "constructors of hist, interp, packed_interp, quant and its PDF constructors")])

prop("H07", "Conversions depend only on the distributions and arguments",
     "Converting an ensemble to another representation gives the same result whatever was done before with the source, its copies or other ensembles, whether done through the ensemble or the library function, and on an equal ensemble read back from a file. "
     "The source is unchanged, and converting a selection of rows gives the selection of the converted rows.",
     ["histories", "inputs"],
     "every sequence of conversions between representations with their options, mixed with evaluations and file round trips; conversions by sampling are seeded",
     "The tests convert a fresh ensemble once per target representation and check statistical closeness.",
     [E, F, "src/qp/conversion_funcs.py", "src/qp/sparse_rep.py"],
     [("conversion", "Ensemble.convert_to, Factory.convert, the extract_* functions"), ("method tables", "Pdf_gen.creation_method, Pdf_gen.extraction_method, dict_utils.get_val_or_default")])

prop("E01", "What is registered is found under its name, and nothing else changes",
     "A representation that was added to the factory can be created, converted to, written and read under its name, with the creation, extraction and reader methods registered for it (the default one for a method that is not registered); the first registration of a name or of a method stays. "
     "A registration that is refused (a name that is taken, no name) or cut short changes nothing about other representations: each name, class and method that was there is found as before, and built-in representations give the same answers as without it. "
     "Likewise a metric that is defined is listed and created under its name after an update of the list, and all others stay.",
     ["histories", "configurations", "fault_sequences"],
     "every history of registrations of classes derived from built-in ones, of methods and of metrics, some refused or interrupted, between uses of these and of the built-in ones",
     "The tests look at the registry as it is after importing qp; none adds a class, adds a method to one, or has a registration fail.",
     [F, G, D, "src/qp/metrics/factory.py", "src/qp/ensemble.py"],
     [("registration", "Factory.add_class, Pdf_gen.add_method_dicts, Pdf_gen.add_mappings"), ("look-up", "Pdf_gen.creation_method, extraction_method, reader_method, dict_utils.get_val_or_default, set_val_or_default"),
      ("metrics", "MetricFactory.update_metrics, list_metrics, create_metric")],
     [("known classes", "class by name, and its maps of methods", "Factory, Pdf_gen._creation_map, _extraction_map, _reader_map")])

prop("T01", "Threads sharing an ensemble get the answers they would get alone",
     "When several threads evaluate densities, CDFs, quantiles and moments of the same ensemble, or select rows from it, each call returns what it returns on an ensemble no other thread uses. "
     "This holds for every interleaving, also when none of the ensemble's internal tables has been built yet.",
     ["schedules"],
     "every interleaving of two to four threads at the granularity of the library's source lines, every representation",
     "The tests are single-threaded.",
     [E, U, G] + REPS + QC,
     [("lazily built tables", "the properties ycumul, splines and similar in the representations and quantile constructors"), ("evaluation", "_pdf, _cdf and _ppf of each representation")],
     [("lazily built tables", "published once complete", "constructors of hist, interp, packed_interp, quant and its PDF constructors")])

prop("T02", "Threads asking for different grids each get values for their own grid",
     "When several threads ask the same ensemble for gridded values, modes, partial moments or grid-based metrics, with the same or different grids, each gets the values for the grid it asked for, paired with that grid. "
     "This holds for every interleaving of the threads.",
     ["schedules"],
     "every interleaving of two to four threads at the granularity of the library's source lines",
     "The tests are single-threaded.",
     [E, "src/qp/metrics/metrics.py"],
     [("cache", "Ensemble.gridded"), ("users", "Ensemble.mode, Ensemble.moment_partial, calculate_moment, calculate_kld, calculate_rmse")],
     [("last grid and values", "cached result of the last gridded evaluation", "Ensemble._gridded")])

prop("T03", "Threads working on separate ensembles do not influence each other",
     "When several threads create, convert, select, concatenate, append, evaluate, read or write ensembles of their own, possibly made from one common source, each gets exactly the results it would get alone. "
     "This holds for every interleaving.",
     ["schedules", "histories"],
     "every interleaving of two to four threads at the granularity of the library's source lines, every mix of representations",
     "The tests are single-threaded.",
     [E, F, D, G, U, "src/qp/conversion_funcs.py"] + REPS,
     [("state shared by all ensembles", "the factory, the method tables of the representation classes, module-level values"), ("per-ensemble state", "Pdf_gen.__init__, Ensemble.__init__")])

prop("R01", "Seeded sampling depends on the seed and the ensemble only",
     "Samples drawn with a given seed from a given ensemble are the same whatever was drawn, evaluated or done before in the process, in whichever order several clients draw, and from an equal ensemble read back from a file. "
     "Goodness-of-fit metrics that draw samples with a given seed are likewise reproducible, and a random generator passed in is the only one used and advances like in a fresh run.",
     ["schedules", "histories"],
     "every interleaving of seeded and unseeded draws, reseeding of the global generator, evaluations and file round trips by several clients",
     "The tests draw once and check the shape or a statistic.",
     [E, G, "src/qp/metrics/concrete_metric_classes.py", "src/qp/metrics/metrics.py", "src/qp/conversion_funcs.py"],
     [("sampling", "Ensemble.rvs, Pdf_rows_gen._rvs"), ("sampling metrics", "calculate_goodness_of_fit"), ("conversions by sampling", "extract_samples, extract_hist_samples and similar")])

prop("R02", "Only unseeded sampling touches the process's random state",
     "Evaluating, selecting, appending, concatenating, writing, reading, iterating, gridding, seeded sampling and metrics that do not sample leave the process's global random state exactly as it was. "
     "A user's own random sequence is therefore the same with or without these operations in between.",
     ["histories", "schedules"],
     "every interleaving of library operations with draws of a user's own sequence from the global generator",
     "No test looks at the global random state.",
     [E, F, G] + REPS + ["src/qp/metrics/metrics.py"],
     [("sampling", "Ensemble.rvs, Pdf_rows_gen._rvs"), ("everything else", "the whole library after import")])

prop("M01", "Streaming scores equal the one-shot score for any split of the data",
     "Accumulating the Brier score or the conditional density loss chunk by chunk and finalising gives the value of evaluating all distributions at once. "
     "This holds for any split into chunks, also of a single distribution, for chunks delivered by a file, in any order and from any number of workers.",
     ["schedules", "inputs"],
     "every partition of the rows over workers and chunks, every order of delivery of the partial results",
     "The tests use equal chunks of one ensemble in order.",
     MM,
     [("partial sums", "BrierMetric.accumulate, CDELossMetric.accumulate, Brier.accumulate"), ("combination", "BrierMetric.finalize, CDELossMetric.finalize")])

prop("M02", "Streaming point statistics and PIT approximate the one-shot result",
     "The bias, the interquartile and median-deviation widths, the outlier rate and the PIT distribution computed from partial digests agree with the value computed from all data at once, to within the resolution of the digest. "
     "This holds for any split of the data into chunks, any order of delivery, and also when the values are passed as a stream of chunks in a single call.",
     ["schedules", "inputs"],
     "every partition of the points over workers and chunks, every order of delivery of the partial results",
     "The tests use one chunk, or equal chunks in order, and do not look at the value obtained from the stream.",
     ["src/qp/metrics/point_estimate_metric_classes.py"] + MM,
     [("partial digests", "PointToPointMetricDigester.accumulate, PITMetric.accumulate"), ("combination", "PointToPointMetricDigester.finalize, DistToPointMetricDigester.finalize"), ("stream", "PointToPointMetric.eval_from_iterator")])

prop("M03", "Metrics do not depend on what was computed before on the same ensembles",
     "Moments, divergences, root-mean-square errors, Brier and density-loss scores, outlier rates, risk-based point estimates and PIT values of given ensembles are the same in whatever order and how often they are computed, with whichever limits and resolutions in between, and after the ensembles have been used in any other way. "
     "Computing a metric changes neither ensemble, nor the truth values passed in, nor the metric object.",
     ["histories", "schedules"],
     "every order of metric computations by several clients over shared ensembles and metric objects, interleaved with changes of grid and updates of other ensembles",
     "The tests compute each metric once on fresh ensembles.",
     MM + ["src/qp/metrics/array_metrics.py", "src/qp/metrics/factory.py", E],
     [("shared cache", "Ensemble.gridded"), ("metric objects", "the metric classes and MetricFactory"), ("functions", "calculate_*")])

NA = [
    ("N01", "CDFs increase from 0 to 1 and are inverted by the quantile function",
     "For every representation the CDF is non-decreasing between 0 and 1, agrees with the integral of the density, and the quantile function is its inverse where the density is positive.",
     "every set of parameters and every point", "The tests evaluate a handful of ensembles on one grid.", REPS, [("evaluation", "_pdf, _cdf, _ppf of each representation")]),
    ("N02", "Converting between representations preserves the distribution",
     "The distribution obtained by a conversion approximates the source to within the resolution of the target representation.",
     "every pair of representations, resolution and distribution", "The tests compare one test ensemble per pair with a loose tolerance.", ["src/qp/conversion_funcs.py"], [("conversion", "extract_* functions")]),
    ("N03", "Packing loses no more than its stated precision",
     "Unpacking packed values gives the originals to within the step of the packing for linear and logarithmic packing.",
     "every table of values and floor", "The tests pack one table per scheme.", ["src/qp/packing_utils.py"], [("packing", "linear_pack_from_rowmax, log_pack_from_rowmax")]),
    ("N04", "Metrics satisfy their defining identities",
     "A divergence of an ensemble with itself is zero and never negative, Brier scores lie between 0 and 2, and the PIT of truths drawn from the ensemble itself is uniform.",
     "every ensemble and grid", "The tests compute each on a few ensembles.", MM, [("metrics", "calculate_kld, calculate_brier, PIT")]),
    ("N05", "Moments and quantiles agree with those of the represented distribution",
     "Mean, variance, median and moments of an ensemble are those of the distributions it represents, within the tolerance of the integration.",
     "every representation and set of parameters", "The tests compare a few against scipy.", [E, G], [("moments", "Ensemble.mean and similar, Pdf_rows_gen.moment")]),
    ("N06", "Construction normalises and validates its inputs",
     "Constructors normalise densities and weights and reject inconsistent parameters.",
     "every set of parameters", "The tests try a few invalid inputs.", REPS, [("constructors", "__init__ of each representation")]),
]
for i, t, s, q, w, f, m in NA:
    prop(i, t, s, ["inputs"], q, w, f, m)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as fh:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        fh.write(json.dumps(p) + "\n")
print(len(P), "properties")
