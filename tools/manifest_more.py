COD = ("TLA+ specification spec/Codec.tla (quantiser, chunk bounds, byte layout): TLC enumerates the cases, checks the design model "
       "CodecModel and judges every recorded execution of the real encoders and decoders")
CN = "scenes of up to 1025 gaussians over the value patterns of spec/CodecGen.tla, stratified sample executed"
LAY = "TLA+ specification spec/Layout.tla of the uncompressed file: TLC enumerates scenes and judges every file written and scene loaded"
PLY = ("TLA+ specification spec/Ply.tla (what header and body denote): TLC enumerates edited headers, exhaustively for one edit and as random "
       "walks of up to three, and judges the answer of every reader to every file")
MORE = {
    "C25": ("TLA+ specification spec/Grads.tla (which Gaussian of which source every row came from, and the derivatives of the unit conversions; GradsModel explores when a "
            "packed base may be used): TLC walks sources, operations and losses and judges every gradient, trackability and trained value of the real code", "model_checking",
            "random walks of up to 7 operations over two sources of 1 to 4 gaussians, degrees 0 to 3; derivatives within 1/128 (they are rational at the chosen values); CPU only"),
    "C24": ("TLA+ specification spec/Loads.tla (files, buffers and scenes as separate things; the exact frame of every operation): TLC walks histories of loads, edits, "
            "saves and damage and judges what every file, buffer and scene holds after each step of the real code", "model_checking",
            "random walks of up to 6 operations over 3 files, 3 buffers and 3 scenes, 0 to 300 gaussians"),
    "C23": ("TLA+ specification spec/Calls.tla (calls are functions of their arguments, whatever else runs; CallsModel explores shared buffers, caches and borrowed state "
            "under threads and interrupts): TLC generates calls, schedules and interrupts and judges every answer and every scene of the real code", "model_checking",
            "2 to 3 threads, single preemptions at every step of a call and round-robin turns of 1 to 1000 steps; a step is a line of Python code of gsply (not inside compiled kernels)"),
    "C22": ("TLA+ specification spec/Exact.tla (cells of a number type, rounding only where asked): TLC walks operands of mixed types and layouts and up to "
            "three moving operations and judges every number and type the real containers show", "model_checking",
            "random walks of spec/ExactGen.tla (6400 quick, 90000 thorough), containers of 0 to 4 gaussians, 16 values in five number types"),
    "C21": ("TLA+ specification spec/Shapes.tla (which shapes are a scene; store exactly it or refuse; ShapesModel checks the design): TLC enumerates "
            "misshapen arrays and judges what every entry point stored or left behind", "model_checking",
            "up to six arrays misshapen in ten ways, 0 to 257 gaussians, 21 entry points, stratified sample executed"),
    "C09": ("TLA+ specifications spec/Container.tla (mask layers in histories of container operations) and spec/Masks.tla (what one mask call answers, "
            "by name and position): TLC enumerates the cases and histories and judges every answer of the real code", "model_checking",
            "up to 7 layers, 300 gaussians and all strategies and selections of names in spec/MasksGen.tla, stratified sample executed in quick"),
    "C19": ("TLA+ specification spec/Accel.tla (kernel compiler faults, fallback, kernel cache; AccelModel interleaves threads): TLC enumerates and "
            "walks histories of faults and judges every recorded history and interleaving of the real code", "model_checking",
            "histories of up to 6 calls; interleavings at every third traced line (quick), every line (thorough); torch.compile replaced by a stand-in"),
    "C20": ("TLA+ specification spec/Act.tla over tabulated curves (spec/Curves.tla, functional equations checked by CurvesModel): TLC enumerates "
            "the cases and judges every element the real functions computed", "model_checking",
            "inputs on the grids of spec/Act.tla, relative tolerance 1e-5; stratified sample of layouts, dtypes and limits executed"),
    "C17": ("TLA+ specification spec/Detect.tla (labels from integer statistics; DetectModel checks the rule): TLC enumerates profiles around every "
            "threshold and judges the label of every entry point", "model_checking", "profiles of up to 333 gaussians, stratified sample executed"),
    "C04": ("TLA+ specification spec/Torn.tla (a reader of a file cut at any byte answers the complete scene or refuses; TornModel checks the write "
            "order): TLC enumerates the files, every prefix is read by the real readers and judged by TLC; spec/Crash.tla replays the recorded system calls of every writer and judges what "
            "each reader makes of the target at every moment of a save (CrashModel checks the ways of saving)", "model_checking",
            "every length of files up to 700 bytes, boundaries and a spread of lengths of longer ones (quick)"),
    "C13": ("TLA+ specification spec/Sog.tla (what a SOG bundle denotes, which bundles are refused): TLC enumerates bundles and faults and judges "
            "the real reader's answers", "model_checking", "bundles of spec/SogGen.tla, stratified sample executed"),
    "C15": ("TLA+ specification spec/Route.tla (file system state, routing of save entry points, failing writes): TLC enumerates and walks histories "
            "of saves and judges every recorded history of the real code", "model_checking",
            "histories of up to 8 saves over 4 paths with write faults at chosen byte counts"),
    "C05": (PLY, "model_checking", "12 canonical headers under 13 families of edits (all single edits in the thorough tier, a stratified sample in quick)"),
    "C01": (LAY, "model_checking", "scenes of spec/LayoutGen.tla (0 to 66000 gaussians, degrees 0 to 3), stratified sample executed"),
    "C02": (COD, "model_checking", CN),
    "C03": (COD, "model_checking", CN),
    "C14": (COD, "model_checking", CN),
}
