FIXED["fix: failing reads of an hdf5 file could go unnoticed"] = [
    ("P04", "after an I/O error read_metadata gave None for columns, read could give an ensemble with None for an ancillary column, iterator left out the ancillary data"),
]
FINDINGS += [
    ("P04", "pytables-after-a-failed-read", "h5: after one read failed with EIO, PyTables keeps the file open in its registry and answers later reads of the intact file from the damaged state"),
    ("P04", "astropy-short-read", "fits/fit: astropy takes a read that transfers fewer bytes than asked for the end of a table, and returns another table"),
]
FIXED["fix: mixture densities were wrong for one distribution and some infinite points"] = [
    ("H05", "pdf, cdf and sf of a mixmod ensemble of one distribution at points among which some were infinite gave one component's values instead of the sum"),
]
FIXED["fix: a file with a part of the metadata could be read as another ensemble"] = [
    ("P02", "hdf5: a write interrupted between two metadata columns left a file that read back with the default of the settings not yet written (pdf_constructor_name of quant)"),
    ("P06", "hdf5: a chunked write that stopped in the middle of the finalisation left a file that read back with the default pdf_constructor_name"),
]
FIXED["fix: seeded conversion to a mixture depended on the global random state"] = [
    ("R01", "convert_to(qp.mixmod_gen, random_state=seed) gave other mixtures depending on the global random state: the fit started from global random values"),
    ("R02", "the same conversion advanced the global generator although a seed was given"),
]
FIXED["fix: one distribution given by quantiles could not be sampled"] = [
    ("R01", "rvs of a quant ensemble of one distribution (a selected row, say) raised ValueError instead of giving the samples"),
]
FIXED["fix: chunks of a file of an older version were not converted"] = [
    ("P11", "iterator() gave the data of a file of an older version unconverted (other distributions, or TypeError), read() gave it converted"),
]
