"""What each property's check runs (see vp.py)."""

CHECKS = {
    "C01": dict(
        models=[dict(module="MCCorrespondence")],
        traces=[dict(driver="corr", mode=m, module="TraceCorrespondence", cfg="TraceCorrValid", shards=k)
                for m, k in (("small", 6), ("errors", 1), ("dense", 4), ("curves", 6))],
        note="all pairs of maps up to 2x2/1x4 (thorough 2x3), random up to 12x12, curves up to 70x70",
        assumptions=["tolerances whose square is exactly an eligible squared distance only where doubles are exact"],
    ),
    "C02": dict(
        models=[dict(module="MCCorrespondence"),
                dict(module="MCCorrespondence", cfg="MCCorrespondence6", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="corr", mode=m, module="TraceCorrespondence", cfg="TraceCorrOptimal", shards=k)
                for m, k in (("small", 6), ("dense", 4), ("curves", 6))],
        note="exact optimum for up to 7 matchable pixels per side; certified deficit bound (vertex cover checked by TLC) above",
        assumptions=["above 7 matchable pixels per side the solver is randomised: deficit up to 3 + 5% accepted"],
    ),
    "C03": dict(
        models=[dict(module="MCThinning"), dict(module="MCThinning", cfg="MCThinning4", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="thin", mode="all", module="TraceThinning", shards=6),
                dict(driver="thin", mode="random", module="TraceThinning", shards=6)],
        note="all images up to 3x3 (quick) or 4x4 (thorough) model-checked and executed; random ones up to 64x64",
        assumptions=["images up to 64x64; exhaustive up to 3x3 (quick) / 4x4 (thorough)"],
    ),
    "C04": dict(
        models=[dict(module="MCNms"), dict(module="MCNms", cfg="MCNms34", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="nms", mode="nms", module="TraceNms", shards=6),
                dict(driver="nms", mode="fast", module="TraceNms", cfg="TraceFastNms", shards=6)],
        note="random strength/orientation maps up to 14x14; pixels whose comparison lies within the specification's own rounding may go either way",
        assumptions=["comparisons within rounding of the scaled integer arithmetic are accepted either way",
                     "single-precision inputs of the convenience function only bound the result"],
    ),
    "C05": dict(
        models=[dict(module="MCCounting"), dict(module="MCCounting", cfg="MCCounting23", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="count", mode="single", module="TraceCounting", shards=6),
                dict(driver="count", mode="nms", module="TraceCounting", shards=2)],
        note="random images up to 36x36 against the exact maximum matching computed by the specification (exact when at most 7 pixels per side are matchable)",
        assumptions=["larger graphs: the solver's small randomised deficit is accepted (3 + 5%)",
                     "with suppression of non-maxima the suppressed map recorded from the real routine is the input"],
    ),
    "C06": dict(
        models=[dict(module="MCCounting", cfg="MCCountingMulti")],
        traces=[dict(driver="count", mode="multi", module="TraceCounting", shards=6)],
        note="one to four annotators, images up to 36x36; the union of matched detections is checked against all optimal matchings",
        assumptions=["larger graphs: bounds instead of the exact family of optimal matchings"],
    ),
    "C07": dict(
        models=[dict(module="MCCounting"), dict(module="MCCounting", cfg="MCCounting23", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="count", mode="internal", module="TraceCounting", shards=6)],
        note="random predictions, ground truths and segmentations incl. distances equal to the tolerance",
        assumptions=["segmentations are boolean arrays as the dataset code passes them"],
    ),
    "C08": dict(
        models=[dict(module="MCAggregate"), dict(module="MCAggregate", cfg="MCAggregate2"),
                dict(module="MCAggregate", cfg="MCAggregate3", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="agg", mode="counts", module="TraceAggregate", cfg="TraceAggScores", shards=6)],
        note="synthetic count tables (1-9 thresholds, 1-6 samples, counts to 6000); scores compared at 1e-6",
        assumptions=["rates compared at about 1e-6; ties decided only where doubles are exact"],
    ),
    "C09": dict(
        models=[dict(module="MCAggregate"), dict(module="MCAggregate", cfg="MCAggregate2"),
                dict(module="MCAggregate", cfg="MCAggregate3", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="agg", mode="counts", module="TraceAggregate", cfg="TraceAggAreas", shards=6)],
        note="synthetic count tables; recalls exactly on an inner integration level may fall on either side",
        assumptions=["areas compared at 6e-6"],
    ),
    "C21": dict(
        models=[dict(module="MCProgress"), dict(module="MCProgress", cfg="MCProgressBar")],
        traces=[dict(driver="prog", mode="history", module="TraceProgress", shards=6,
                     generate=dict(module="GenProgress", simulate=dict(quick=(100, 700), thorough=(1500, 700)))),
                dict(driver="prog", mode="track", module="TraceProgress", shards=6)],
        conform="replaying TLC-generated operation histories on the real classes under a controlled clock and validating the results",
        note="histories of 24 operations on two timers, two check points and two bars; tracking helpers for all small task lists",
        assumptions=["the clock is replaced by a controlled one (time, monotonic, perf_counter)"],
    ),
    "C11": dict(
        models=[dict(module="MCPool"), dict(module="MCPool", cfg="MCPool5")],
        traces=[dict(driver="pool", mode=m, module="TraceTasks", shards=6,
                     generate=dict(module="GenPool", simulate=dict(quick=(40, 600), thorough=(600, 600))))
                for m in ("schedule", "metrics")]
               + [dict(driver="pool", mode="bulk", module="TraceTasks", shards=6)],
        conform="replaying TLC-generated schedules on the real pool by gating its tasks; the recorded runs are checked against "
                "the abstract task list the pool specification refines",
        note="all schedules of 0-4 tasks on 1-2 workers model-checked (thorough 5 tasks, 3 workers), random ones up to 7 tasks, 4 workers replayed; runs of up to 700 tasks recorded",
        assumptions=["workers do not die (a killed worker process is outside the property)"],
    ),
    "C22": dict(
        models=[dict(module="MCLogging")],
        traces=[dict(driver="logg", mode="history", module="TraceLogging", shards=8,
                     generate=dict(module="GenLogging", simulate=dict(quick=(60, 500), thorough=(800, 500))))],
        conform="replaying TLC-generated request/message histories on the real loggers (a fresh process each) and validating what reached which sink",
        note="all configuration orders of five names model-checked; random histories of 16 operations over eight names replayed",
        assumptions=["parents are asked for before their children (asking for a child first doubles its messages by Python's propagation)"],
    ),
    "C25": dict(
        models=[dict(module="MCPaths")],
        traces=[dict(driver="paths", mode="history", module="TracePaths", shards=6,
                     generate=dict(module="GenPaths", simulate=dict(quick=(60, 540), thorough=(600, 540))))],
        conform="replaying TLC-generated histories of path operations inside a scratch folder; results and folder contents validated after each",
        note="all trees over five paths model-checked; random histories of 26 operations with nested, hidden and linked entries replayed",
        assumptions=["file names are ASCII", "links are not chained and do not form cycles"],
    ),
    "C14": dict(
        models=[dict(module="MCBoundary"), dict(module="MCBoundary", cfg="MCBoundary2"),
                dict(module="MCBoundary", cfg="MCBoundary33", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="bdry", mode="plain", module="TraceBoundary", shards=6),
                dict(driver="bdry", mode="pool", module="TraceBoundary", shards=6)],
        note="all label maps of 2x4 with two labels and an ignored one model-checked; random maps up to 16x16 executed on loop, pool, both back-ends and the transform",
        assumptions=["integer radii", "ignored planes do not overlap (they come from one label map)", "precise distances (quality 0)"],
    ),
    "C15": dict(
        models=[dict(module="MCBoundary", cfg="MCBoundaryInst")],
        traces=[dict(driver="bdry", mode="inst", module="TraceBoundary", shards=6),
                dict(driver="bdry", mode="pool", module="TraceBoundary", shards=6)],
        note="all 2x3 label maps with two instances model-checked; random maps with labels below and above ten and a hundred, stray instances",
        assumptions=["integer radii", "planes are numbered by label (as in all callers)"],
    ),
    "C16": dict(
        models=[dict(module="MCCodec")],
        traces=[dict(driver="codec", mode="codec", module="TraceCodec", shards=6)],
        note="every class pattern of up to 9 classes at every byte offset model-checked; random stacks of 1-32 classes through memory, png, tif and bin files",
        assumptions=["planes are binary"],
    ),
    "C17": dict(
        models=[dict(module="MCLabels"), dict(module="MCLabels", cfg="MCLabels3", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="labels", mode="labels", module="TraceLabels", shards=6)],
        note="all 1x3 maps with every small table, numbering and border model-checked; random maps, planes, tables and instance lists executed",
        assumptions=["training indices of a plane table are 0..n-1 (as in both datasets)", "fewer than 1000 instances per category"],
    ),
    "C12": dict(
        models=[dict(module="MCEvaluator")],
        traces=[dict(driver="evalr", mode="settings", module="TraceEvaluator", shards=8,
                     generate=dict(module="GenEvaluator", cfg="GenSettings", simulate=dict(quick=(30, 400), thorough=(300, 600))))],
        conform="replaying TLC-generated call histories on the real evaluators over a synthetic data set; settings, sample lists and run results "
                "validated against the specification after every call",
        note="all histories of up to four calls on each evaluator model-checked; random histories of nine calls replayed on six evaluators",
        assumptions=["evaluators keep a reference to the list they are given (a caller must not change it afterwards)"],
    ),
    "C13": dict(
        models=[dict(module="MCEvaluator")],
        traces=[dict(driver="evalr", mode="pairing", module="TraceEvaluator", shards=8,
                     generate=dict(module="GenEvaluator", cfg="GenPairing", simulate=dict(quick=(30, 400), thorough=(300, 600))))],
        conform="replaying TLC-generated call histories on the real evaluators over a synthetic data set in which every file has counts of its own",
        note="all histories of up to four calls on each evaluator model-checked; random histories of seven calls replayed on six evaluators",
        assumptions=["sample and category counts in the synthetic data identify the file they came from (sizes differ between neighbouring files)"],
    ),
    "C20": dict(
        models=[dict(module="MCArgs"), dict(module="MCCli"), dict(module="MCArgs", cfg="MCArgs6", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="cli", mode="thresholds", module="TraceThresholds", shards=2),
                dict(driver="cli", mode="cli", module="TraceCli", shards=8)],
        conform="running the command-line evaluators (entry points and functions) on a synthetic data set; every written table, folder and "
                "refusal is validated against the specification's run of the same call",
        note="all texts of up to five characters and every option combination of six commands model-checked; random command lines executed",
        assumptions=["threshold counts and values are positive (zero or negative ones are outside the property)",
                     "a malformed text and an out-of-range category are not combined in one call"],
    ),
    "C10": dict(
        models=[dict(module="MCResults"), dict(module="MCResults", cfg="MCResults3", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="results", mode="results", module="TraceResults", shards=8)],
        conform="histories of saves, whole evaluations and plots in one folder executed on the real code; every file, table, printed line, legend "
                "entry and curve is validated against the specification's disk",
        note="all histories of up to two (thorough: three) writes over categories, partial results and evaluations model-checked; random histories executed",
        assumptions=["scores are numbers in [0, 1] (no NaN)", "sample and class names contain no line breaks or vertical bars"],
    ),
    "C23": dict(
        models=[dict(module="MCPipeline"), dict(module="MCPipeline", cfg="MCPipelineBig", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="pipe", mode="pipe", module="TracePipeline", shards=8)],
        note="all 2x2 packed maps, scales and segmentations of a small family and all 3x3 label maps model-checked; random images, sizes, scales, "
             "categories and options executed from real files",
        assumptions=["BSDS images are evaluated at full size (the scale argument is unimplemented there)",
                     "the outcome of non-maximum suppression is taken from the code (its rule is C04's)",
                     "thresholds do not coincide with a prediction level k/255"],
    ),
    "C19": dict(
        models=[dict(module="MCConvertCity"), dict(module="MCConvertCity", cfg="MCConvertCityWide", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="city", mode="convert", module="TraceConvertCity", shards=8)],
        note="all orders of the pieces of small trees with every 1x4 (thorough: 2x3) label map model-checked; random trees converted once or twice "
             "with random options and worker counts, every written file decoded and compared",
        assumptions=["the label maps are what the data set's own polygon renderer draws", "image names are unique within a tree"],
    ),
    "C24": dict(
        models=[dict(module="MCPipeline"), dict(module="MCPipeline", cfg="MCPipelineBig", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="otf", mode="otf", module="TraceOtf", shards=8)],
        note="all 3x3 label maps over three labels with and without an instance model-checked; random label and instance maps, categories, scales and "
             "protocols evaluated on the fly, and, at full scale, also from the converted tree, image by image and through both evaluators",
        assumptions=["where resampling lands exactly between two source pixels at a non-dyadic ratio either neighbour may be taken (not generated)",
                     "thresholds do not coincide with a prediction level k/255"],
    ),
    "C18": dict(
        models=[dict(module="MCConvertSbd"), dict(module="MCConvertSbd", cfg="MCConvertSbdWide", tiers=("thorough",), timeout=1800)],
        traces=[dict(driver="sbdconv", mode="sbd", module="TraceConvertSbd", shards=8)],
        note="every interior of two (thorough: three) pixels, instance map and conversion order of small trees model-checked; random samples converted "
             "one by one and as whole trees by the conversion script, every written file decoded and compared",
        assumptions=["category lists are stored as unsigned bytes and every instance's category is among the present ones",
                     "an image holds fewer than 1000 instances of one category"],
    ),
    "C26": dict(
        models=[dict(module="MCGroundTruth"), dict(module="MCGroundTruth", cfg="MCGroundTruth3", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="gtload", mode="gtload", module="TraceGroundTruth", shards=4)],
        note="every file of a few 1x2 maps with either reader model-checked; random BSDS and SBD files written and read back",
        assumptions=["at least two pixels per side (the newer reader drops axes of one)", "MATLAB 5 files (the 7.3 format cannot be written here)"],
    ),
    "C27": dict(
        models=[dict(module="MCBatch"), dict(module="MCBatch", cfg="MCBatchWide")],
        traces=[dict(driver="batch", mode="batch", module="TraceBatch", shards=4)],
        conform="runs over real folders of results (with existing pictures, unreadable inputs and inputs added in between) executed on the real "
                "code; the output tree after every step is validated against the specification's history",
        note="all histories of two runs over up to four inputs, with aborted runs, model-checked; random histories of up to three runs executed",
        assumptions=["the suppressed picture itself is C04's rule (taken from the code)",
                     "which inputs a stopped run still reached is not fixed (directory order)"],
    ),
    "C28": dict(
        models=[dict(module="MCCompare"), dict(module="MCCompare", cfg="MCCompareWide", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="compare", mode="compare", module="TraceCompare", shards=6)],
        note="all small trees of references and counterparts in any order model-checked; random trees compared through the function and the script",
        assumptions=["references and counterparts are PNG images of the same size"],
    ),
    "C29": dict(
        models=[dict(module="MCSession"), dict(module="MCSession", cfg="MCSession4", tiers=("thorough",), timeout=1500)],
        traces=[dict(driver="session", mode="session", module="TraceSession", shards=6,
                     generate=dict(module="GenSession", simulate=dict(quick=(9, 255), thorough=(120, 255))))],
        conform="replaying TLC-generated sessions (calls in several variants, forks, fresh processes) on real processes; every keyed observation compared with the first of its key",
        note="sessions over the matching, counting, thinning, suppression, boundary, coding, scoring, evaluation and conversion calls on dense maps",
        assumptions=["one machine and one build: results of different builds are not compared"],
    ),
}
