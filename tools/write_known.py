"""Writes /verif/known_findings.txt: the genuine defects met, repaired or not."""
import os, subprocess

FINDINGS = [
    ("P03", "hdf5-library-lost-a-write", "hdf5/hf5: when exactly one write of raw data fails (ENOSPC, EIO) HDF5 notices while h5py drops the dataset object, which ignores errors; write_to returns and the bytes of that one write are missing"),
    ("P03", "hdf5-library-crash", "hdf5/hf5: write_to raises as it has to, but the HDF5 library then dies of SIGSEGV while the file object it could not flush is freed; the file on disk is never taken for an ensemble"),
]
# commit subject -> [(property, what failed)]
FIXED = {
    "fix: evaluate at the requested points in the requested order": [("H05", "pdf/cdf/ppf/sf at unsorted points were returned in sorted order, isf was wrong for every representation by rows")],
    "fix: quant pdf() returned the first row's values for every row": [("H05", "quant pdf with the spline constructors was that of the first row for all rows")],
    "fix: publish lazily built tables only once they are complete": [("T01", "a thread evaluating while another builds the tables met half built ones"), ("H06", "an interrupted first evaluation left half built tables behind")],
    "fix: gridded() returned values for another grid": [("H04", "changing the grid array in place returned the values cached for its former contents"), ("T02", "a thread could get the values of another thread's grid")],
    "fix: a failed update() left the ensemble half updated": [("H03", "update() with ancil of the wrong length changed the distributions and kept the old ancil")],
    "fix: add_to_ancil() changed other ensembles and failed without ancil": [("H02", "add_to_ancil changed the caller's dict and ensembles sharing it")],
    "fix: chunks from iterator() lost their ancillary data": [("P07", "chunks of a file with ancil came without"), ("P08", "all chunks shared one dict, which the next chunk changed")],
    "fix: a partially written file was read as an ensemble without ancil": [("P02", "pq/h5: a crash between the tables left a file that read as a complete ensemble without ancil")],
    "fix: overwriting a file could leave tables of the ensemble it held before": [("P01", "pq/h5: an ensemble without ancil written over one with ancil read back with the old ancil"), ("P02", "the same after a crash, with old and new tables mixed")],
    "fix: eval_from_iterator() returned the metric of the last chunk only": [("M02", "every chunk but the last was ignored")],
    "fix: streaming Brier and PIT metrics failed on a chunk of one distribution": [("M01", "accumulating a chunk of one distribution raised"), ("M02", "the same for PIT")],
    "fix: picking one row dropped the row axis of its ancillary data": [("H01", "ens[i] with ancil could not be written, appended, concatenated or sliced")],
    "fix: append() and concatenate() failed for splines made by a conversion": [("H01", "the creation function of the conversion was called with the arguments of the representation")],
    "fix: histogram conversion by sampling failed with as many rows as bins": [("H07", "converting a selection with as many rows as bins raised or mixed rows")],
    "fix: mixture quantiles failed for a table of points, and so did sampling": [("H05", "ppf of a mixmod ensemble raised for a table of points per distribution"), ("R01", "rvs of a mixmod ensemble always raised")],
    "fix: write_to() lost the suffix of a file name with another dot in it": [("P01", "an ensemble written to a.b.hdf5 ended up in a file a.b")],
    "fix: hdf5 files lost the pdf constructor of quantile ensembles": [("P01", "a quantile ensemble read back from hdf5 had the default pdf constructor and other densities")],
    "fix: an ensemble read from a fits file could not be written to parquet": [("P01", "write_to raised for byte-swapped columns")],
}
extra = os.path.join(os.path.dirname(os.path.abspath(__file__)), "fixed_more.py")
if os.path.exists(extra):
    exec(open(extra).read())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True, check=True).stdout.splitlines()
commit = {ln.split(" ", 1)[1]: ln.split(" ", 1)[0] for ln in log}
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w") as f:
    for p, sig, text in FINDINGS:
        f.write(f"finding: property={p} signature={sig} {text}\n")
    missing = [s for s in commit if s.startswith("fix:") and s not in FIXED]
    assert not missing, missing
    for s, items in FIXED.items():
        for p, text in items:
            f.write(f"fixed: property={p} {commit[s]} {text}\n")
