REPLAY = ("TLA+/TLC: exhaustive exploration of the registry machine, every "
          "transition replayed on the library, plus simulated long histories")
REPLAY_NOTE = (
    "Every transition of the bounded state graph (all calls incl. rejected "
    "ones in every reachable state) and random long histories agree with the "
    "library in outcome, name resolution, tree shape, lookups and rendering. "
    "Trusts TLC, the replay driver and that behaviour does not depend on the "
    "concrete names and numbers beyond the bounds.")
TREES = ("TLA+/TLC: exhaustive frame trees over a catalogue with theorems "
         "checked and every lookup replayed; random histories executed on "
         "the specification and on the library")
HIST = ("TLA+/TLC: random call histories executed on the specification "
        "(exact rational arithmetic) and on the library, outcomes compared")
KIN_NOTE = (
    "Every compared call agrees with the specification's exact value (to "
    "1e-7), timestamps, shape and outcome. Bounded: small trees, integer "
    "ticks, rational rotations; rotations between samples are only "
    "specified for constant-rate sequences. Trusts TLC, the concretisation "
    "of rationals and ticks, and numpy comparison.")
VEL = ("TLA+/TLC: theorems about velocity composition checked exactly on all "
       "frame trees over a catalogue; trees and random histories evaluated "
       "symbolically by the specification and compared with the library")
VEL_NOTE = (
    "Every compared velocity agrees with the specification's symbolic value "
    "(2e-6 relative plus 2e-4 of the angular terms, which the library "
    "differentiates numerically), its timestamps, shape, labels and outcome. "
    "Bounded: small trees, constant-rate rotations, integer ticks; filtering "
    "options (cutoff, effective outlier thresholds) are not specified. Trusts "
    "TLC, term evaluation and numpy comparison.")
ALG = ("TLA+/TLC: algebraic theorems checked exactly on all small operands, "
       "every one replayed on the library; random calls in all layouts "
       "evaluated by the specification and compared")
ALG_NOTE = (
    "Every compared call agrees with the exact value of the specification "
    "(1e-8; rotations up to the sign of the quaternion). Where the optimum "
    "(mean, best fit) is irrational the specification gives the quadratic "
    "form and a lower bound, and the largest eigenvalue is computed "
    "numerically. Bounded: small integers and rationals, arrays up to four "
    "dimensions. Trusts TLC and numpy comparison.")
OPTI = ("TLA+/TLC: all arrangements of columns, units and rotation orders "
        "enumerated with the theorem that the imported data do not depend on "
        "them; exports written to files and imported in every format")
OPTI_NOTE = (
    "Every import agrees with the specification in bodies, positions, "
    "orientations and timestamps in all three formats. Bounded: up to four "
    "bodies, a set of exact angles. Trusts TLC and the file writer.")
ROS = ("TLA+/TLC: message packing, tree export with TF queries, broadcasters "
       "and path markers specified on top of the lookup specification; small "
       "trees enumerated, random histories evaluated by the specification and "
       "compared with the messages received by stand-ins of the ROS libraries")
ROS_NOTE = (
    "Every message agrees with the specification in frames, stamps and values "
    "(1e-7). ROS is not installed: rospy, tf2 and the message classes are "
    "replaced by stand-ins, which are trusted. Bounded: small trees, integer "
    "ticks. Trusts TLC and the stand-ins.")
PUB = ("TLA+/TLC: algorithm model of the publishing loops checked for "
       "refinement of the contract and for liveness over all interleavings; "
       "its schedules replayed on the code under a controlled scheduler and "
       "the recorded traces judged by the contract in TLC")
PUB_NOTE = (
    "Every schedule of the bounded model (two spins, two stops, shutdown, a "
    "publish in between, up to a bounded number of loop steps) is run on the "
    "real threads, gated at the calls to rospy, and its trace is judged by "
    "the specification. Trusts TLC, the stand-ins for rospy and the gates.")
BAG = ("TLA+/TLC: histories of calls on bags, readers, writers and caches "
       "enumerated and checked; a sample of them and random histories are "
       "executed on the library with a stand-in for rosbag and compared")
BAG_NOTE = (
    "Every call on readers and writers agrees with the specification "
    "(values 1e-12, stored values 5e-5, stamps 1 us). rosbag is not installed "
    "and replaced by a stand-in, which is trusted; netCDF files are real. "
    "Bounded: up to three bags, six topics, short histories.")
PLOT = ("TLA+/TLC: sequences of plots over a catalogue enumerated with "
        "theorems about what the view shows; they and random histories are "
        "drawn with matplotlib and artists and limits compared")
PLOT_NOTE = (
    "Artists agree with the specification in their coordinates (1e-7), the "
    "limits contain everything drawn and keep equal scale. Bounded: small "
    "static trees, arrays of up to four rows, eight plots. Trusts TLC and "
    "matplotlib's artists.")
PLAY = ("TLA+/TLC: all transitions of the controls and histories of masters "
        "enumerated, progress checked under fairness; they and random "
        "histories are executed on the library and compared")
PLAY_NOTE = (
    "Every published index, widget state, registration and master agrees "
    "with the specification (intervals 1 ms). ipywidgets, rospy and "
    "roslaunch are not installed and replaced by stand-ins, which are "
    "trusted. Bounded: up to 12 samples exhaustively, 30 in random "
    "histories; masters up to 7 calls.")
SMOOTH = ("TLA+/TLC: the suppression algorithm model checked against the "
          "undisturbed motion on all patterns of corrections; these and "
          "random recordings evaluated by TLC and compared with the library")
SMOOTH_NOTE = (
    "Where Smooth.tla says the velocity is known the library's estimate "
    "equals it (2e-5 relative; 2e-3 for filtered oscillations), for every "
    "form of calling it. Bounded: patterns on 8 samples exhaustively, up to "
    "60 samples (500 for filters) in random recordings; cutoffs far from "
    "the frequencies of the motion.")
REQUEST = ("TLA+/TLC: all small requests enumerated with their verdict and "
           "theorems that it depends neither on the sign of axes nor on "
           "layout or naming; every request made on the library and outcome, "
           "shape, inputs and frames compared")
REQUEST_NOTE = (
    "Every request with a verdict is accepted or rejected as specified, an "
    "accepted one yields the specified shape, and none changes its input or "
    "the frames. Exhaustive over shapes of up to two (thorough: three) "
    "dimensions, one value of every kind of misfit.")
CLAIMS = {
    "C01": (REPLAY, REPLAY_NOTE),
    "C02": (REPLAY, REPLAY_NOTE),
    "C03": (REPLAY, REPLAY_NOTE),
    "C04": (TREES, KIN_NOTE),
    "C05": (TREES, KIN_NOTE),
    "C06": (HIST, KIN_NOTE),
    "C07": (TREES, KIN_NOTE),
    "C08": (TREES, KIN_NOTE),
    "C09": (TREES, KIN_NOTE),
    "C10": (HIST, KIN_NOTE),
    "C11": (HIST, KIN_NOTE),
    "C12": (HIST, KIN_NOTE),
    "C13": (HIST, KIN_NOTE),
    "C14": (VEL, VEL_NOTE),
    "C15": (VEL, VEL_NOTE),
    "C16": (VEL, VEL_NOTE),
    "C17": (ALG, ALG_NOTE),
    "C18": (ALG, ALG_NOTE),
    "C19": (ALG, ALG_NOTE),
    "C20": (HIST, KIN_NOTE),
    "C21": (OPTI, OPTI_NOTE),
    "C22": (ROS, ROS_NOTE),
    "C23": (PUB, PUB_NOTE),
    "C24": (BAG, BAG_NOTE),
    "C25": (PLOT, PLOT_NOTE),
    "C26": (PLAY, PLAY_NOTE),
    "C27": (SMOOTH, SMOOTH_NOTE),
    "C28": (REQUEST, REQUEST_NOTE),
}
NOT_APPLICABLE = {}
