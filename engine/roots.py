"""Which functions carry the obligations of each property (callees are added automatically)."""
DSC = ["DataStructure(list)", "DataStructure(list)+errors", "DataStructure(lists)", "DataStructure(lists)+errors"]
WEIGHTS = ["getFractionWeights", "fractionWeightFunction", "getFractionSquaredWeights", "fractionSquaredWeightFunction", "getGaussianWeights", "gaussianWeightFunction"]
LAGS = ["addCorrelationData", "cleanCorrelationData", "_calculateStandardCorrelation", "calculateStandardCorrelation"]
SET = ["setMaxLag", "getMaxLag", "setMinLag", "getMinLag", "setLagResolution", "getLagResolution", "setAlpha", "getAlpha"]
COR = ["CorrelationIterator", "naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT"] + WEIGHTS + ["findCorrelation"] + LAGS + ["clearCorrelation", "correlations", "lag_timeseries", "Correlator.normalised_timeseries", "Correlator.values"] + SET + ["getMDatapoints", "getNDatasets", "Correlator"]
WHAT = ["EmptyDataStructureException::what", "BadDataFileReadException::what", "BadDataInputException::what"]
READ = ["data_2d", "normalised_data_2d", "err_2d", "timeseries", "normalised_timeseries", "mean_data", "median_time", "max_time"]
FILE = ["DataStructure(filename)", "SACF(filename)"]
SACFS = ["SACF(list)", "SACF(list,errors)", "SACF(lists)", "SACF(lists,errors)"]
FIND = ["find_correlation[%s,%s]" % (s, w) for s in ("natural", "fast") for w in ("fractional", "fractional_squared", "gaussian")] + ["find_correlation[default]"]
AUTO = [x.replace("find_", "auto") for x in FIND]

B = lambda *a: ["Python " + x for x in a]
BINDS = {
    "C01": B("DataStructure(list)", "DataStructure(list)+errors", "DataStructure(lists)", "DataStructure(lists)+errors", "DataStructure.data", "DataStructure.errors", "DataStructure.timeseries",
             "Correlator.values", "DataStructure.N_datasets", "DataStructure.M_datapoints", "Correlator.M_datapoints"),
    "C02": B("DataStructure(list)", "DataStructure(list)+errors", "DataStructure(lists)", "DataStructure(lists)+errors", "exceptions"),
    "C03": B("DataStructure.normalised_data", "DataStructure.mean_data"),
    "C04": B("DataStructure.normalised_timeseries", "DataStructure.median_time", "DataStructure.max_time", "Correlator.normalised_timeseries"),
    "C05": B("DataStructure(filename)", "exceptions"),
    "C06": B("Correlator") + ["Python Correlator.%s%s" % (a, b) for a in ("max_lag", "min_lag", "lag_resolution", "alpha") for b in ("", " =")],
    "C07": B("Correlator.lag_timeseries", "Correlator.calculateStandardCorrelation", "Correlator.addCorrelationData", "Correlator.cleanCorrelationData"),
    "C08": B("Correlator.naturalSelectionFunctionIdx", "Correlator.deltaT", "CorrelationIterator.selection_indices", "CorrelationIterator.delta_t", "CorrelationIterator.shifted_timeseries"),
    "C09": B("Correlator.fastSelectionFunctionIdx", "Correlator.deltaT", "CorrelationIterator.selection_indices", "CorrelationIterator.delta_t", "CorrelationIterator.shifted_timeseries"),
    "C10": B("Correlator.getFractionWeights", "Correlator.getFractionSquaredWeights", "Correlator.getGaussianWeights", "Correlator.fractionWeightFunction",
             "Correlator.fractionSquaredWeightFunction", "Correlator.gaussianWeightFunction", "CorrelationIterator.weights"),
    "C11": B("Correlator", "Correlator.findCorrelation", "Correlator.correlations", "Correlator.calculateStandardCorrelation", "CorrelationIterator", "CorrelationIterator.correlation", "CorrelationIterator.k", "CorrelationIterator.k ="),
    "C12": B("Correlator.calculateStandardCorrelation", "Correlator.correlations"),
    "C13": B("Correlator.findCorrelation", "Correlator.correlations", "Correlator.N_datasets", "Correlator.lag_timeseries", "Correlator.calculateStandardCorrelation"),
    "C15": B("Correlator", "Correlator.calculateStandardCorrelation"),
    "C17": B("Correlator.calculateStandardCorrelation", "Correlator.addCorrelationData", "Correlator.cleanCorrelationData"),
}
BINDS["C14"] = BINDS["C16"] = sorted({x for v in BINDS.values() for x in v} | set(B("Correlator.clearCorrelation")))

ROOTS = {
    "C01": DSC + SACFS + ["data_2d", "err_2d", "timeseries", "Correlator.values", "getMDatapoints"],
    "C02": DSC + SACFS + WHAT,
    "C03": DSC + SACFS + ["normalised_data_2d", "mean_data"],
    "C04": DSC + SACFS + ["normalised_timeseries", "median_time", "max_time", "Correlator.normalised_timeseries"],
    "C05": FILE + WHAT[1:2] + ["lemma: valid DataStructure(filename)", "lemma: file and lists"],
    "C06": SET + ["Correlator", "set_up_correlation"] + AUTO,
    "C07": LAGS + ["lag_timeseries", "CorrelationIterator"] + FIND + AUTO,
    "C08": ["naturalSelectionFunctionIdx", "deltaT"],
    "C09": ["fastSelectionFunctionIdx", "deltaT"],
    "C10": WEIGHTS + AUTO,
    "C11": FIND + AUTO + ["findCorrelation", "Correlator", "CorrelationIterator", "correlations"] + LAGS,
    "C12": ["naturalSelectionFunctionIdx", "deltaT", "findCorrelation", "Correlator", "calculateStandardCorrelation"] + WEIGHTS,
    "C13": FIND + AUTO + ["findCorrelation", "correlations", "lag_timeseries", "Correlator", "getNDatasets", "CorrelationIterator"] + LAGS,
    "C14": SACFS + FILE + FIND + AUTO + ["set_up_correlation"] + DSC + COR + READ + WHAT,
    "C15": ["Correlator", "calculateStandardCorrelation"] + DSC,
    "C16": SACFS + FILE + FIND + AUTO + ["set_up_correlation"] + DSC + COR + READ + WHAT,
    "C17": LAGS + FIND + AUTO,
}
for _p, _b in BINDS.items():
    ROOTS[_p] = ROOTS[_p] + _b

VALID = ["lemma: valid DataStructure(list)", "lemma: valid DataStructure(list)+errors", "lemma: valid DataStructure(lists)", "lemma: valid DataStructure(lists)+errors", "lemma: valid DataStructure(filename)"]
LEMMAS = {"C01": VALID, "C04": VALID, "C10": ["lemma: weights"], "C11": ["lemma: estimator"], "C12": ["lemma: zero lag"], "C13": ["lemma: independence", "lemma: valid correlator"],
          "C14": VALID + ["lemma: valid correlator"], "C15": ["lemma: value offset", "lemma: value scale", "lemma: time origin", "lemma: time scale", "lemma: independence"],
          "C16": ["lemma: repeatable"], "C17": ["lemma: paths agree"]}
for _p, _l in LEMMAS.items():
    ROOTS[_p] = ROOTS[_p] + _l
