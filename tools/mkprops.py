#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the statements stay readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Resumed propagation equals from-scratch propagation after every call history",
  "Propagating a resonant deep-space satellite with a reused integration state returns exactly the prediction, or the error, that a from-scratch propagation returns for the same time and compatibility mode. "
  "This holds after every sequence of earlier calls accepted on that state: forward or backward in time, repeated and nearby times, mixed compatibility modes, calls that returned an error, calls that were refused, and roll-back to an earlier copy of the state. "
  "A satellite that needs no integration state gives the same result through both entry points.",
  ["histories", "fault_sequences"],
  "all sequences of propagation requests, refusals, errors, saved and restored state copies, over all element sets",
  "The tests only ever propagate with a fresh state; the single documentation example with a reused state runs 7 forward steps of one satellite and checks nothing.",
  ["src/deep_space.rs", "src/lib.rs"],
  [("integrator loop resumes at the stored step and extrapolates from it without storing the extrapolation", "src/deep_space.rs ResonanceState::integrate"),
   ("from-scratch entry point builds a new state for every call", "src/lib.rs Constants::propagate")],
  [("ResonanceState", "integration time, mean motion and resonance longitude reached so far", "src/deep_space.rs")],
  ["Constants::propagate_from_state", "Constants::propagate"])

p("C02", "Integration state moves in 720 min steps and refuses times it has passed",
  "A new integration state reports time zero, and after every accepted request its reported time is the multiple of 720 minutes furthest from the epoch among all accepted requests, never beyond the requested time and never moving back. "
  "A request closer to the epoch than the reported time, or on the other side of the epoch from it, is refused by a panic, and so is passing a state to a satellite that needs none or omitting it for one that does; every other request is accepted. "
  "A refused request leaves the integration state unchanged.",
  ["histories", "fault_sequences"],
  "all sequences of requests in both time directions, with misuse and refused requests in between",
  "No test reuses an integration state, triggers a refusal, or reads the reported integration time.",
  ["src/deep_space.rs", "src/lib.rs"],
  [("monotonicity guard before any mutation", "src/deep_space.rs ResonanceState::integrate"),
   ("state presence assertions", "src/lib.rs Constants::propagate_from_state, src/deep_space.rs deep_space_orbital_elements")],
  [("t", "integration time, a signed multiple of 720 min", "src/deep_space.rs ResonanceState")],
  ["ResonanceState::t", "panics of Constants::propagate_from_state"])

p("C03", "Concurrent callers get exactly what they would get alone",
  "Any number of threads may at the same time parse elements, initialise propagators, and propagate through shared elements and shared propagators. "
  "Under every interleaving each call returns exactly what it returns when it runs alone, and no call waits forever.",
  ["schedules", "histories"],
  "all interleavings, at the granularity of individual memory accesses, of calls from several threads on shared and separate satellites",
  "Every test is single-threaded on its own data; the documented promise that constants can be used by different threads in parallel is never exercised.",
  ["src/propagator.rs", "src/lib.rs", "src/deep_space.rs", "src/near_earth.rs", "src/tle.rs"],
  [("propagation takes the constants by shared reference and mutates only the caller's own state", "src/lib.rs Constants::propagate_from_state"),
   ("no global or thread-local mutable data", "whole crate")],
  None, ["return values of all public functions", "Send and Sync of the public types"])

p("C04", "A call's outcome never depends on earlier calls, failures or panics",
  "Every call has the outcome it would have as the first call in a fresh process, after any history of other calls: successful ones, rejected inputs, propagation errors, refused requests, calls on other satellites, and panics of, or calls re-entering the library from, the caller-supplied sidereal time function. "
  "A panic of that function reaches the caller, and the value it returns is used for the propagator being initialised and for no other.",
  ["histories", "fault_sequences"],
  "all histories of calls with failures, refusals, panics and re-entrancy injected at any point",
  "Each test makes a few successful calls and compares them with fixed values; none repeats a call after failures, panics or calls for other satellites.",
  ["src/lib.rs", "src/deep_space.rs", "src/near_earth.rs", "src/tle.rs", "src/model.rs"],
  [("functions of their arguments only, no global data", "whole crate"),
   ("sidereal time function taken by value for one initialisation", "src/lib.rs Constants::new, src/deep_space.rs constants")],
  None, ["return values and panics of all public functions"])

p("C05", "Every propagation finishes in bounded work, whatever the clock reading",
  "Every initialisation and every propagation finishes within a fixed amount of work plus a fixed amount per 720 minutes between epoch and target time, for every element set and every time including NaN and infinities. "
  "A time that is not finite yields an error, never a prediction, a panic or a hang. "
  "The next valid request on the same integration state is answered as if the bad reading had not been made.",
  ["inputs", "fault_sequences"],
  "all element sets and request sequences with invalid and extreme clock readings injected between valid ones",
  "Tests use only finite times of at most a few thousand minutes and valid elements, so no loop is ever driven to an unusual exit.",
  ["src/deep_space.rs", "src/lib.rs"],
  [("integrator loop exit test", "src/deep_space.rs ResonanceState::integrate"),
   ("Kepler iteration cap", "src/lib.rs Constants::propagate_from_state"),
   ("range check on the propagated eccentricity rejects NaN", "src/near_earth.rs, src/deep_space.rs")],
  None, ["Constants::new", "Constants::propagate", "Constants::propagate_from_state"])

p("C06", "OMM ingest is exact under any stream fragmentation and refuses damaged messages",
  "An OMM message, or list of messages, read from memory or from a byte stream yields exactly the element sets it encodes, in order, with numbers given either as JSON numbers or as strings, however the stream is fragmented or interrupted. "
  "A stream that ends early or fails, or a message in which any mandatory field is missing, duplicated, of the wrong type, out of range or unreadable, yields an error and never a partial or altered list. "
  "Neither reading a damaged message nor initialising a propagator from an accepted one ever panics.",
  ["inputs", "fault_sequences", "schedules"],
  "all messages, all ways of splitting and interrupting their delivery, all truncation points and byte or field damage",
  "Three well-formed messages are parsed from string literals; the streaming path that the examples rely on is never run by a test because it needs a network, and no damaged message is tried.",
  ["src/tle.rs"],
  [("number-or-string field readers", "src/tle.rs u64_or_string, u8_or_string, f64_or_string"),
   ("derived deserialisation without defaults", "src/tle.rs Elements")],
  None, ["serde_json::from_str, from_slice and from_reader into Elements and Vec<Elements>"])

p("C07", "TLE catalogue ingest returns every complete set in order or an error",
  "Parsing a multi-line catalogue with two or three lines per object returns exactly one element set per complete group of lines, in order, each built from its own lines and, with three lines, carrying the title line that precedes them; a trailing incomplete group is ignored and the line ending style does not matter. "
  "If any group is not a valid pair for one object, because lines were lost, repeated, reordered, merged or cut, the whole catalogue is refused with an error. "
  "Halves of different objects are never combined and parsing never panics.",
  ["inputs", "fault_sequences"],
  "all catalogues and all sequences of line loss, duplication, reordering, truncation and interleaving in delivery",
  "Two catalogues of two well-formed objects each are parsed, and only the number of results is checked.",
  ["src/tle.rs"],
  [("line grouping", "src/tle.rs parse_2les, parse_3les"),
   ("line number, length, catalogue number and checksum checks", "src/tle.rs Elements::from_lines")],
  None, ["parse_2les", "parse_3les"])

p("C08", "Damaged TLE lines are refused, intact ones are read exactly, nothing panics",
  "A pair of intact TLE lines yields exactly the values in its columns. "
  "A pair in which either line has the wrong length, line number, separators, checksum or classification, disagreeing catalogue numbers, or unreadable numeric columns is refused with an error whose message names a line and columns at fault; in particular replacing any digit by another digit is always refused. "
  "No sequence of bytes makes the parser, or the initialisation and propagation of what it accepts, panic.",
  ["inputs", "fault_sequences"],
  "all TLE lines and all damage by bit flips, byte substitution, loss, insertion, truncation and torn merges of two versions",
  "Fewer than forty well-formed TLEs are parsed by the tests; no damaged line is ever given to the parser.",
  ["src/tle.rs"],
  [("validation and column parsing", "src/tle.rs Elements::from_lines, parse_decimal_point_assumed")],
  None, ["Elements::from_tle"])

p("C09", "A propagator restored from storage after a crash predicts identically",
  "A propagator that is serialised, stored and restored, in any serde format that preserves doubles and any number of times, gives exactly the predictions and errors of the original for every time and mode, and needs an integration state exactly if the original does. "
  "A stored copy with any part missing or cut short is refused, never completed with default values.",
  ["crash_points", "histories", "fault_sequences"],
  "all propagators, all crash points between writing, syncing and replacing the stored copy, all torn or partial copies",
  "No test serialises a propagator.",
  ["src/propagator.rs", "src/third_body.rs", "src/model.rs"],
  [("derived Serialize and Deserialize on the constants and everything they contain", "src/propagator.rs, src/third_body.rs, src/model.rs")],
  None, ["Serialize and Deserialize of Constants, Constants::propagate, Constants::initial_state"])

p("C10", "Stored elements, orbits, geopotentials and predictions survive a crash unchanged",
  "Element sets, orbits, geopotential models and predictions that are serialised, stored and restored come back with every field unchanged, and a stored element set is a valid OMM message with the standard field names. "
  "A stored copy with any mandatory part missing or cut short is refused, never completed with default values.",
  ["crash_points", "histories", "fault_sequences"],
  "all values of the stored types, all crash points while storing them, all torn or partial copies",
  "Tests only read OMM messages; nothing is ever written or read back.",
  ["src/tle.rs", "src/propagator.rs", "src/model.rs"],
  [("derived Serialize and Deserialize with OMM field names", "src/tle.rs Elements, Classification; src/propagator.rs Orbit, Prediction; src/model.rs Geopotential")],
  None, ["Serialize and Deserialize of Elements, Orbit, Geopotential and Prediction"])

p("C11", "Initialisation and propagation need no heap memory",
  "With no heap memory available, initialising a propagator, obtaining and reusing an integration state, propagating in either mode and converting between dates and minutes give the same results, and the same errors with the same messages, as with plentiful memory.",
  ["fault_sequences", "inputs"],
  "all element sets and times, with every allocation failing during the calls",
  "The no-alloc builds are compiled but never run, and no test limits memory.",
  ["src/lib.rs", "src/near_earth.rs", "src/deep_space.rs", "src/third_body.rs", "src/model.rs", "src/tle.rs"],
  [("no allocating type outside the parsers", "whole crate")],
  None, ["Constants::new", "Constants::from_elements", "Constants::propagate", "Constants::propagate_from_state"])

p("C12", "Parsing under memory exhaustion never returns a wrong or partial result",
  "When an allocation fails at any point while TLE catalogues or OMM messages are parsed, or elements are copied or written out, the process stops in the standard out-of-memory abort or the call returns its complete and correct result; it never returns a shortened list, a set with missing strings, or another wrong value.",
  ["fault_sequences", "inputs"],
  "all inputs and every position of the failing allocation, single or persistent",
  "No test makes an allocation fail.",
  ["src/tle.rs"],
  [("only infallible collections are used", "src/tle.rs parse_2les, parse_3les, Elements::from_lines")],
  None, ["parse_2les", "parse_3les", "Elements::from_tle", "serde_json into and out of Elements"])

p("C13", "Wall-clock tracking stays coherent under clock jumps, skew and overflow",
  "For every clock reading the minutes since epoch equal the exact elapsed time to double precision, and converting minutes back gives the reading to within the resolution of the value; differences or minutes (including NaN) that cannot be represented are reported as errors, never wrapped, saturated or replaced. "
  "The two expressions for years since J2000 advance with the clock by one per 365.25 days of 86400 seconds, to double precision, over the years 1901 to 2099. "
  "A tracker that follows a jumping clock and renews its integration state when refused gives for each reading exactly the from-scratch prediction.",
  ["inputs", "histories", "fault_sequences"],
  "all epochs and all sequences of clock readings with forward and backward jumps, skew, stalls and out-of-range values",
  "The conversions between dates and minutes are not called by any test; years since J2000 are checked for three dates.",
  ["src/tle.rs"],
  [("nanosecond difference with overflow check", "src/tle.rs datetime_to_minutes_since_epoch, minutes_since_epoch_to_datetime"),
   ("calendar arithmetic", "src/tle.rs julian_years_since_j2000 and its AFSPC variant")],
  None, ["Elements::datetime_to_minutes_since_epoch", "Elements::minutes_since_epoch_to_datetime", "Elements::epoch", "Elements::epoch_afspc_compatibility_mode"])

p("C20", "Printing or storing into a failing sink reports the failure, nothing else",
  "When an error message, the Debug form of a public value, or its stored form (through serde) is written into a sink that fills up, closes or fails at any point, the call reports the failure; it never panics and never reports success. "
  "What the sink took is then a beginning of the complete text. A sink that takes everything, in pieces of whatever size and with interruptions, gets the complete text and success is reported. "
  "The complete text is not empty and the same every time, also when the sink itself prints the value meanwhile, and after an earlier sink failed or panicked.",
  ["inputs", "fault_sequences", "histories"],
  "all errors and public values, all forms, every point at which the sink fails, all piece sizes and interruptions, nested and repeated printing",
  "No test prints an error or makes a writer fail.",
  ["src/tle.rs", "src/lib.rs", "src/gp.rs", "src/propagator.rs", "src/model.rs"],
  [("every Display implementation is one write whose result is returned", "src/gp.rs, src/lib.rs, src/tle.rs impl Display"),
   ("derived Debug and Serialize implementations", "src/*.rs")],
  None, ["Display, Debug and Serialize of Error, TleError, ElementsError, KozaiElementsError, OutOfRangeEpochEccentricity, the two date conversion errors, Elements, Constants, Orbit, Geopotential, Prediction"])

p("C21", "Reading takes work proportional to what was delivered, whatever it is",
  "Reading a TLE catalogue, a pair of lines, an OMM message or a list of them always ends, and takes work at most proportional to the number of bytes delivered: for sound and damaged deliveries, for floods of objects, blank lines, unknown, repeated or nested fields, for endless lines, names and numbers, and over streams with short reads, interruptions and failures.",
  ["inputs", "fault_sequences"],
  "all deliveries of any length to any reader, from memory or over a stream",
  "The tests read a few hundred bytes at a time and measure nothing.",
  ["src/tle.rs"],
  [("one pass over the lines with a bounded buffer", "src/tle.rs parse_2les, parse_3les"),
   ("fixed columns of two lines of 69 bytes", "src/tle.rs Elements::from_lines"),
   ("numbers given as strings are parsed once", "src/tle.rs u64_or_string, u8_or_string, f64_or_string")],
  None, ["parse_2les", "parse_3les", "Elements::from_tle", "serde_json into Elements"])

# Not simulation targets: listed under not_applicable in MANIFEST.json.
p("C14", "Predictions agree with the reference SGP4 implementation",
  "In AFSPC compatibility mode every prediction agrees with the reference AFSPC SGP4 implementation to better than 1e-6 km and 1e-9 km/s, and fails exactly when the reference fails.",
  ["inputs"], "all element sets and times",
  "The tests compare 33 satellites at a few hundred times.",
  ["src/lib.rs", "src/near_earth.rs", "src/deep_space.rs", "src/third_body.rs"],
  [("transcribed SGP4 equations", "src/*.rs")])
p("C15", "Builds with and without the standard library agree",
  "The build for environments without the standard library gives the same results as the default build up to the rounding of elementary functions.",
  ["configurations", "inputs"], "all feature sets, element sets and times",
  "The no-std test configuration links std's floating point functions.",
  ["src/lib.rs", "src/model.rs", "src/deep_space.rs"],
  [("cfg(feature = \"std\") alternatives", "src/*.rs")])
p("C16", "Initialisation refuses element sets outside the model's domain",
  "Initialisation fails with the corresponding error exactly for non-positive mean motion (Kozai or Brouwer) and for eccentricity outside [0, 1[, and succeeds otherwise.",
  ["inputs"], "all element sets",
  "No test initialises from invalid elements.",
  ["src/lib.rs"], [("range checks", "src/lib.rs Orbit::from_kozai_elements, Constants::new")])
p("C17", "The same element set given as TLE and as OMM yields the same propagator",
  "Element sets with the same content read from a TLE and from an OMM message give the same orbital values and, to rounding, the same predictions.",
  ["inputs"], "all element sets representable in both formats",
  "One satellite is present in both formats and is not compared.",
  ["src/tle.rs"], [("two parsers into one structure", "src/tle.rs")])
p("C18", "Compatibility mode matters only for Lyddane deep-space orbits",
  "The AFSPC compatibility flag of a propagation changes the prediction only for orbits with a period above 225 minutes and an inclination below 0.2 rad.",
  ["inputs"], "all element sets and times",
  "The tests always set the flag.",
  ["src/deep_space.rs"], [("flag is read only in the Lyddane branch", "src/deep_space.rs deep_space_orbital_elements")])
p("C19", "Out-of-range orbits are reported as typed errors, never as predictions",
  "A prediction is returned only if the propagated eccentricity is in range and the semi-latus rectum is not negative; otherwise the error carries the requested time.",
  ["inputs"], "all element sets and times",
  "Two failing satellites are tested.",
  ["src/near_earth.rs", "src/deep_space.rs", "src/lib.rs"], [("range checks", "src/near_earth.rs, src/deep_space.rs, src/lib.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
