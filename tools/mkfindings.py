#!/usr/bin/env python3
"""Writes /verif/known_findings.json."""
import json, os
F = []
def fixed(prop, commit, what):
    F.append({"id": f"F-{commit}-{prop}", "property": prop, "status": "fixed",
              "entry": f"fixed: property={prop} {commit} {what}"})
def open_(id, prop, key, what, detail):
    F.append({"id": id, "property": prop, "status": "open", "key": key,
              "what": what, "detail": detail})
fixed("C02", "2c69b32", "a frame whose construction failed (e.g. wrong translation shape) stayed attached to the requested parent")
fixed("C02", "53f981f", "register_frame with a missing or taken name left the rejected frame attached to its parent")
fixed("C03", "3a13539", "registering a frame again with update=True detached it from its parent")
fixed("C01", "480ff16", "deregister() of a frame whose name belongs to another frame removed the other frame's entry")
fixed("C17", "8c9312b", "qmean returned an eigenvector of the wrong eigenvalue for some sets (and per batch element)")
fixed("C17", "90ec2a3", "rotate_vectors with non-unit quaternions scaled the result")
fixed("C17", "99fd9c9", "rotate_vectors permuted the remaining axes for axis != -1 on arrays with 3 or more dimensions")
fixed("C14", "27a5796", "datetime64 timestamps with a unit other than ns gave velocities off by powers of ten and wrong interpolation")
fixed("C14", "5825480", "estimate_linear_velocity/estimate_angular_velocity failed for array-like timestamps")
fixed("C11", "708d1e9", "axis=0 and single points were mishandled by functions accepting arrays")
fixed("C11", "3e41ef1", "transform_* mixed up values for several combinations of axis and time_axis")
fixed("C16", "1e54812", "velocity transforms failed or mixed values with extra dimensions or another axis order")
fixed("C19", "e39c962", "estimators required a time dimension of labelled arrays that have none")
fixed("C19", "8811bbb", "shortest_arc_rotation of antiparallel vectors was not a rotation between them")
fixed("C19", "c48b85e", "best_fit_rotation returned a reflection for planar/noisy sets")
fixed("C18", "2db8dd9", "cartesian_to_spherical gave NaN at the origin")
fixed("C08", "44e8b42", "a continuous frame (or stamped array) with a single sample made every lookup fail with IndexError")
fixed("C10", "6ff57a6", "a stamped quaternion array with extra dimensions lost them (or raised) if no timestamps overlapped")
fixed("C12", "6ff57a6", "a labelled array with time-dependent coordinates could not be transformed if no timestamps overlapped")
fixed("C17", "5a5f61d", "rotate_vectors, qmul and from_euler_angles permuted the remaining axes if the component axis was not the last of three or more")
fixed("C17", "34911b6", "qmean failed or mixed up axes if the quaternion axis was not the last")
fixed("C17", "408e81e", "qinterp compared datetimes of different units without converting them")
fixed("C17", "e1a4f1c", "qinv, qmul, qmean and qinterp failed for lists")
fixed("C18", "036680a", "coordinate conversions failed for lists")
fixed("C19", "036680a", "estimators failed for lists")
fixed("C21", "2418ac4", "lengths in millimetres were not converted to metres")
fixed("C21", "1a05fdc", "axis columns in another order than X, Y, Z were mixed up")
fixed("C21", "f7e6fbe", "samples in which a body was missing got the identity as orientation (from_euler_angles lost NaN)")
fixed("C22", "173c4e5", "TF messages for timestamps that are not datetime64[ns] were stamped with the value divided by 1e9")
fixed("C22", "d300ea2", "publish(idx=0) published the current sample instead of the first")
fixed("C22", "35827fa", "an incoming TF message made the broadcaster publish the next sample instead of the nearest (IndexError after the last)")
fixed("C22", "5726e7d", "twist messages carried no stamp")
fixed("C22", "900923c", "the TF cache was exactly as long as the data, so the first sample could be dropped")
fixed("C22", "7270bc0", "path markers of static frames and of frames with few samples failed")
fixed("C22", "cab864b", "markers of type ARROW and with an integer scale failed")
fixed("C23", "fa9b128", "loops of publishers did not end when stopped (stop before the loop started was lost; subscribing broadcasters and static ones blocked in rospy.spin)")
fixed("C23", "348ca4f", "a non-blocking spin did not return the thread that runs the loop")
fixed("C24", "0c4a600", "RosbagReader.export failed for an output file given as a string")
fixed("C24", "74aaf3f", "exported values beyond 214748 were silently replaced by NaN")
fixed("C24", "79e2243", "datasets whose timestamps are not datetime64[ns] were written with wrong stamps")
fixed("C24", "e56556c", "datasets whose first dimension is not time were rejected or written with exchanged axes")
open_("K-C24-cache", "C24", "cache shared",
      "load_dataset(cache=True) returns the data of another bag in the same folder, or of another topic that differs only in '/' and '_', if that was cached first",
      "The cache file is cache/<topic>.nc in the folder of the bag, a documented location that the existing tests rely on (tests/test_ros.py), so it cannot be renamed; it does not identify the bag, and topics such as /a/b and /a_b have the same name. MCBag.tla refutes the design (CacheShared).")
fixed("C25", "e7b093e", "plotting a frame set the limits of z on the y axis, so the frame could be out of view")
fixed("C25", "e119c5c", "vectors, quaternions and every plot but the first on the same axes could be out of view")
fixed("C26", "9016f46", "the backward button of play_publisher did nothing at the last sample")
fixed("C26", "7eb9a8e", "the interval of play_publisher was wrong for timestamps that are not datetime64[ns], and lists were rejected")
fixed("C08", "2c4cdfe", "an invalid (NaN) sample of a frame or array made the transforms at neighbouring valid samples invalid too (also C10)")
fixed("C27", "b0c03f9", "outlier_thresh failed or compared the wrong norms for arrays with other dimensions, or another spatial or time axis")
fixed("C08", "9f39448", "interpolated rotations and angular velocities were wrong if the quaternions of consecutive samples had opposite signs, which is the same rotation (also C10, C14, C15, C16, C17, C27)")
json.dump({"findings": F}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w"), indent=1)
