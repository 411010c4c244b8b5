#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/openclsim/model/"
C = "src/openclsim/core/"
P = "src/openclsim/plugins/"
K = "src/openclsim/critical_path/"
ALL = ["schedules", "inputs", "histories", "configurations", "fault_sequences"]
SIM = "seeded deterministic simulation with fault injection; "

# id, title, statement, over, text, why, files, mechanism [(name, where)], observe, technique, note
ROWS = [
 ("C01", "Material is conserved",
  "Content never appears or disappears: every change of the level of a container is made by a transfer between its origin and its destination, or by an explicit put or get of the user. Each transfer takes an amount from the origin exactly once and delivers exactly that amount to the destination, so the total of every kind of content over all containers plus what is in transfer stays constant.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every model, schedule, interference by puts, gets and breakdowns, at every instant of the run, interrupted runs included",
  "tests compare final levels of a few hand written models; conservation has to hold at every event of every interleaving, with retries, rounding and outside interference",
  [C + "processor.py", C + "events_container.py", C + "container.py", M + "shift_amount_activity.py"],
  [("check of the moved amount, one get and one put per transfer", C + "processor.py"), ("level bookkeeping", C + "events_container.py")],
  ["container levels after every simulator step", "object logs"],
  "per-step conservation invariant", "every level change of every container is attributed to the process that made it"),
 ("C02", "Levels stay within empty and capacity",
  "The level of every content of every container is at least zero and at most its capacity at every moment. When less is available or free than a transfer wants, it waits or moves less, but never overdraws the origin or overfills the destination.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "every moment of every run, with several transfers competing for the last content or space",
  "tests reach the limits with one or two vessels in a fixed order; races for the last content appear only under particular interleavings and resource delays",
  [C + "events_container.py", C + "processor.py", M + "shift_amount_activity.py"],
  [("wait for content and space, re-check after each resource", M + "shift_amount_activity.py"), ("wait again before get and put", C + "processor.py")],
  ["container levels"], "per-step bounds invariant with contention", "levels are looked at after every step of the kernel"),
 ("C03", "A transfer moves the right amount",
  "A transfer moves the smallest of the amount asked for, what the origin holds and what the destination has room for, decided while it waits for its turn and never more than asked. A transfer that asks for a specific amount which is available and fits moves exactly that amount, and a transfer goes ahead when its amount is available and fits.",
  ["schedules", "inputs", "histories"],
  "all requested amounts, levels, capacities, kinds of content and competing transfers",
  "tests use a handful of amounts in uncontended models",
  [C + "processor.py", M + "shift_amount_activity.py"],
  [("determine_processor_amount", C + "processor.py"), ("re-determination after an abort", M + "shift_amount_activity.py")],
  ["level changes", "process state"], "reference model of the amount against recorded transfers", "the oracle accepts the amount at any moment between getting its turn and taking the content"),
 ("C04", "Reservations equal level plus pending transfers",
  "At any settled moment the reservation level that a user can read next to each content level equals the current level plus what the registered transfers still have to deliver minus what they still have to take. After all transfers are done both are equal.",
  ["schedules", "inputs", "histories"],
  "every instant at which the clock is about to advance, in every run",
  "one test looks at reservations of a single shift; the invariant spans registration, retries and partial transfers",
  [M + "shift_amount_activity.py", C + "processor.py", C + "events_container.py"],
  [("make_container_reservation", M + "shift_amount_activity.py"), ("compensation of what was not moved", C + "processor.py")],
  ["reservation levels"], "invariant between levels, reservations and open transfers", "transfers that were registered and not finished count as pending"),
 ("C05", "Resource capacity and exclusive use",
  "An activity that moves something or transfers content holds a slot of every object it uses from before it acts until it is finished, plugin waits included. An object never serves more activities at the same time than it has slots, and nobody holds a slot of an object that it does not use.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all moves and transfers, any number of slots, outside users of the slots (breakdowns) at any time",
  "tests have a single contended site with one fixed order of arrival",
  [M + "base_activities.py", M + "move_activity.py", M + "shift_amount_activity.py", C + "resource.py"],
  [("_request_resource/_release_resource", M + "base_activities.py")],
  ["resource users and queues"], "holder timeline invariant", "ownership is attributed through the process that made the request"),
 ("C06", "Slots are released unless they are to be kept",
  "When an activity finishes it gives back the slots of all objects it used, except those it was told to keep for its group. A kept slot stays with the group without interruption until an activity of the group that uses the object finishes without keeping it; waiting and retrying do not give it away, and an activity of the group uses the kept slot instead of waiting for another.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "all combinations of keep lists, groups, retries and competitors",
  "two tests keep one vessel; no test has competitors for a kept object while the owner has to retry",
  [M + "base_activities.py", M + "shift_amount_activity.py", M + "move_activity.py"],
  [("keep_resources", M + "base_activities.py")],
  ["resource users"], "holder timeline invariant per group", "groups used by concurrent activities are not judged"),
 ("C07", "Every execution leaves a complete, correct record",
  "Each finished execution of an activity has exactly one START and one STOP in its own log, with its waits before and after in matching pairs, under its own id, and composite activities record the start and end of every execution of their parts. Moves, transfers and additional logs appear with the same id, states and times in the logs of exactly the objects involved, and nothing else does.",
  ["schedules", "inputs", "histories"],
  "all activities and objects, executions that overlap on one object included",
  "tests compare a few literal logs; overlapping executions on shared objects are not sampled",
  [C + "log.py", M + "base_activities.py", M + "basic_activity.py", M + "move_activity.py", M + "parallel_activity.py", M + "sequential_activity.py", M + "while_activity.py", C + "processor.py", C + "movable.py"],
  [("log_entry_v1", C + "log.py")],
  ["logs of objects and activities"], "grammar of logs and cross-check of object logs", "entries of one instant may come in any order"),
 ("C08", "Activities take exactly as long as they should",
  "The time between START and STOP of a basic activity is its duration, and that of a transfer is its duration or what its (possibly level dependent) loading or unloading rate and manoeuvring time say for the amount and the levels concerned. Only missing content or space can make a transfer longer.",
  ["inputs", "schedules", "histories"],
  "all durations, rates, rate functions, amounts and levels",
  "tests use constant rates and few amounts",
  [C + "processor.py", M + "basic_activity.py", M + "shift_amount_activity.py"],
  [("LoadingFunction/UnloadingFunction", C + "processor.py")],
  ["logs", "level changes"], "reference durations against recorded times", "rate functions of the simulator are asymmetric in their two arguments"),
 ("C09", "A sequence runs its activities in order, back to back",
  "A sequential activity runs each of its activities exactly once, in the given order, each one from the moment the previous one is finished. It starts with the first and ends with the last.",
  ["inputs", "schedules", "histories"],
  "all nestings of sequences in and around the other activities",
  "tests have flat sequences of two or three activities",
  [M + "sequential_activity.py", M + "base_activities.py"],
  [("register_sequential_subprocesses", M + "base_activities.py")],
  ["logs", "processes"], "structural reference model", "executions are matched by registration order"),
 ("C10", "A parallel activity starts all at once and ends with the last",
  "A parallel activity runs each of its activities exactly once and lets all of them begin at its own START. It ends exactly when the last of them is finished, whatever their order, durations or waits.",
  ["inputs", "schedules", "histories"],
  "all nestings of parallel activities in and around the other activities",
  "tests have flat parallel activities",
  [M + "parallel_activity.py", M + "base_activities.py"],
  [("register_parallel_subprocesses", M + "base_activities.py")],
  ["logs", "processes"], "structural reference model", "executions are matched by registration order"),
 ("C11", "Loops run the right number of iterations",
  "A repeat activity runs its activities the given number of times and a while activity runs them until its condition has occurred at the end of an iteration, at least once; iterations follow each other without a gap. A condition that occurred during an iteration ends the loop after it, however deeply the condition is nested, and a condition that has not occurred never does.",
  ["inputs", "schedules", "histories"],
  "all conditions (levels, times, activities, events, nested and/or), all nestings",
  "tests use one level of conditions on a container",
  [M + "while_activity.py", M + "base_activities.py", M + "single_run_process.py"],
  [("ConditionProcessMixin", M + "while_activity.py")],
  ["logs", "processes", "levels"], "iteration reference model", "conditions that change in the very instant an iteration ends by outside action may count either way"),
 ("C12", "Activities wait for their start event, and only for that",
  "An activity begins at the first moment at which it is its turn and its start event, any combination of times, levels, finished activities and events, has occurred; not before and not later. If it had to wait, the wait is recorded from the moment it was its turn until the event occurred, and if not, no wait is recorded.",
  ["inputs", "schedules", "histories", "fault_sequences"],
  "all start event expressions in all positions, with outside events at any time",
  "tests have single expressions on single activities",
  [M + "base_activities.py"],
  [("parse_expression, delayed_process", M + "base_activities.py")],
  ["logs", "levels", "processes"], "reference semantics of expressions over the history", "within one instant either order counts"),
 ("C13", "Container events fire exactly when the level is reached",
  "Whoever waits for a container to be full, empty, or above or below a level is woken at the first moment at which the level satisfies the condition, at once if it already does. Nobody is woken without that, and no number of crossings or earlier waits makes a later one miss its own.",
  ["schedules", "histories", "inputs"],
  "all sequences of level changes and subscriptions, shared and repeated",
  "tests have one subscription per container",
  [C + "events_container.py"],
  [("get_container_event, update_container_events", C + "events_container.py")],
  ["subscriber processes", "levels"], "subscription model over the level history", "within one instant either order counts"),
 ("C14", "Plugins act around every execution",
  "In each execution the hooks of all plugins of an activity are called once before START and once after STOP, in priority order, and get the true times of the execution. Time that a plugin needs is recorded as a wait around the activity and never inside it, and a delay plugin adds its percentage of the duration after the activity.",
  ["inputs", "schedules", "configurations"],
  "all combinations and priorities of plugins on all kinds of activities and repetitions",
  "tests have one plugin on a basic activity",
  [M + "base_activities.py", P + "delay.py", P + "weather.py"],
  [("pre_process/post_process", M + "base_activities.py")],
  ["logs", "hook calls"], "plugin life cycle model", "two stall plugins of the simulator record their calls"),
 ("C15", "Weather-bound work starts in the first workable window",
  "With weather criteria an activity starts at the first moment from which the weather stays within its limits for the required window, the window delay taken into account, and the wait for it is recorded. It never starts in weather that does not allow it, and it never waits when it need not, also beyond the end of the data where the data repeats.",
  ["inputs", "schedules"],
  "all datasets (start, spacing, gaps), limits, windows and moments of asking",
  "tests use one dataset and two windows",
  [P + "weather.py"],
  [("process_data, check_constraint", P + "weather.py")],
  ["logs"], "independent window model", "windows that fit exactly may or may not count"),
 ("C16", "Movement: position, distance and speed",
  "A mover is at its old place until a move ends and at the destination from then on, in its state and in its log, and nothing else changes places. A move takes the given duration, or the great circle distance (or the length of its route or path) over the speed that belongs to its load and engine order at departure, and transfers take place only where all their parties are.",
  ["inputs", "schedules", "histories"],
  "all positions, routes, loads, engine orders and kinds of movers, several at a time",
  "tests sail one vessel between two sites and never over a route",
  [C + "movable.py", C + "locatable.py", M + "move_activity.py"],
  [("compute_duration, compute_distance", C + "movable.py")],
  ["geometries", "logs"], "reference geometry and speed model", "speed functions are linear in the fill degree"),
 ("C17", "Runs are reproducible",
  "The same model gives the same history, whatever the hash seed of the interpreter, the memory addresses of its objects and the ids that were generated for them. Runs in different processes agree as well.",
  ["schedules", "configurations", "inputs"],
  "all models, hash orders, ids and interpreters",
  "tests run each model once per process",
  [M + "helpers.py", M + "base_activities.py", C + "identifiable.py", C + "events_container.py"],
  [("ordered registration", M + "helpers.py")],
  ["logs", "levels"], "differential simulation over hash seeds, ids and fresh interpreters", "logs are compared per object"),
 ("C18", "Pausing and observing do not change a simulation",
  "Running a simulation in any number of pieces, step by step, or with looks at its logs, tables, levels and states in between gives the same history as running it in one go. The environment that records critical path data behaves exactly like a plain one.",
  ["schedules", "histories", "inputs"],
  "all placements of pauses, steps and observations",
  "tests run to the end in one go",
  [M + "base_activities.py", C + "log.py", "src/openclsim/plot/log_dataframe.py", K + "dependencies_from_simpy_step.py"],
  [("passive accessors", C + "log.py"), ("CriticalPathEnvironment.step", K + "dependencies_from_simpy_step.py")],
  ["logs", "levels"], "differential simulation over pause and observation schedules", "asking a container for a new event is not an observation"),
 ("C19", "The origin of the clock does not matter",
  "Shifting the start of the simulated clock, and all times in the model with it, shifts the history and changes nothing else. The time zone of the machine has no influence.",
  ["inputs", "configurations"],
  "all models with exactly representable times, origins up to today's epoch and several time zones",
  "tests use two origins, each with its own expectations",
  [C + "log.py", M + "base_activities.py", P + "weather.py"],
  [("timestamps", C + "log.py")],
  ["logs", "levels"], "differential simulation over clock origins and time zones", "numbers are dyadic, so that shifting them is exact"),
 ("C20", "Simulations in one process are independent",
  "Simulations that are built and run in the same process, in any interleaving and with the same names and ids, do not influence each other.",
  ["schedules", "histories"],
  "all pairs of models and interleavings of their steps, failing ones included",
  "tests run one model at a time",
  [M + "base_activities.py", C + "events_container.py", C + "log.py", P + "weather.py"],
  [("no shared mutable defaults", M + "base_activities.py")],
  ["logs", "levels"], "differential simulation of interleaved worlds", "two worlds at a time"),
 ("C21", "Errors in a simulation are never lost",
  "An error in an activity, wherever it is nested, comes out of the run at that instant, and no activity that contains the failing one is recorded as finished. Expressions that make no sense, references to activities that do not exist and transfers whose parties are apart are refused with an error instead of being ignored.",
  ["fault_sequences", "inputs", "schedules"],
  "all positions, iterations and kinds of errors",
  "tests never raise inside a nested activity",
  [M + "base_activities.py", M + "while_activity.py", M + "parallel_activity.py", M + "sequential_activity.py", M + "shift_amount_activity.py"],
  [("failing events propagate", M + "base_activities.py")],
  ["the exception from the run", "processes"], "fault injection in hooks, expressions and placements", "of two errors in one instant either may come out first"),
 ("C22", "The recorded history is truthful and append-only",
  "Log entries carry the time at which they were made (waits: the time they describe) and the level and position that the object had then. Entries are never changed, removed or reordered afterwards.",
  ["histories", "schedules", "inputs"],
  "all entries of all logs at all later moments",
  "tests look at logs once, at the end",
  [C + "log.py", C + "container.py", C + "locatable.py"],
  [("get_state", C + "log.py")],
  ["logs"], "frozen copies of every entry compared with the log at the end and with the state at the time", "entries are copied at the end of the event that made them"),
 ("C23", "Work makes progress whenever it can",
  "When the clock advances, every unfinished activity has a reason: it is busy for the time it needs, its turn or its start event has not come, a plugin makes it wait, a slot it needs is taken, or content or space is missing. Nothing waits for something that is already there, and no run spins without advancing.",
  ["schedules", "inputs", "fault_sequences", "histories"],
  "every advance of the clock in every run, also after faults have ended",
  "tests would only notice by a wrong end time of the few sampled models",
  [M + "base_activities.py", M + "shift_amount_activity.py", C + "processor.py", M + "while_activity.py"],
  [("events and conditions", M + "base_activities.py")],
  ["processes", "queues", "levels"], "bounded progress check at every advance of the clock", "deadlock by circular keeping of slots is legal"),
 ("C24", "The critical path is the set of longest chains",
  "The activities marked critical are exactly those that lie on a longest chain of dependent recorded activities (all of which end at the same time), however many chains there are and however they share activities. Length and number of the chains do not matter. A history that makes no sense (negative durations, missing columns, dependencies on nothing or that do not meet in time) is refused.",
  ["inputs", "histories"],
  "all recorded histories and dependency lists",
  "tests look at four models with one or two chains",
  [K + "simulation_graph.py", K + "base_cp.py"],
  [("longest paths in the graph of activities", K + "simulation_graph.py")],
  ["critical path table"], "simulated projects against an independent longest path computation", "times are multiples of a quarter, rounding is not judged"),
 ("C25", "Dependencies are real",
  "Every dependency that is found links an activity that ended at the very moment at which the dependent one began, in the recorded history. Dependencies by matching records are exactly those of the documented rule; those traced through the simulator include every hand-over in a sequence.",
  ["histories", "schedules"],
  "all recorded histories",
  "tests compare numbers of dependencies of four models",
  [K + "dependencies_from_recorded_activities.py", K + "dependencies_from_simpy_step.py"],
  [("matching of times and objects", K + "dependencies_from_recorded_activities.py"), ("cause and effect of events", K + "dependencies_from_simpy_step.py")],
  ["dependency list"], "simulated runs against an independent derivation", "model based dependencies are an unimplemented stub"),
 ("C26", "Tables, exports and charts agree with the logs",
  "The log tables, ranges, activity and concept exports, recorded activity tables, step and Gantt charts show exactly what was recorded: every entry or interval once, with the right activity, times, levels and object, for paused runs too. Exporting writes what is returned, and a failing write is reported and changes nothing.",
  ["histories", "inputs", "fault_sequences"],
  "all recorded histories, cut off at any moment, and write errors at any point",
  "tests only check that some tables can be made",
  ["src/openclsim/io.py", "src/openclsim/plot/log_dataframe.py", "src/openclsim/plot/step_chart.py", "src/openclsim/plot/vessel_planning.py", K + "base_cp.py"],
  [("get_log_dataframe", "src/openclsim/plot/log_dataframe.py"), ("get_ranges_dataframe", "src/openclsim/io.py")],
  ["data frames, figures, files"], "tables against the recorded history, faulty files", "drawing itself is a stub"),
 ("C27", "Registration order does not matter and names are unique",
  "Activities that do not compete behave the same in whatever order, and in however many calls, they are registered, and each registered activity is started exactly once. Two activities with the same name in one registration, nested or not, are refused.",
  ["inputs", "schedules"],
  "all models and orders",
  "tests use one order",
  [M + "helpers.py", M + "base_activities.py"],
  [("register_processes", M + "helpers.py")],
  ["logs", "processes"], "differential simulation over registration orders", "activities without competition and coincidences"),
 ("C28", "Core objects keep their promises when driven directly",
  "User processes that call the core objects themselves, without activities, get the same promises: a move takes distance over speed times engine order (or the given duration), the position changes on arrival and both ends are logged under the caller's activity id; a transfer takes its content as soon as it is there, works as long as its loading or unloading function says, delivers as soon as it fits, corrects its reservation and is logged with all parties and waits; level events come when the level is reached; questions (position, distance, amount, state) are answered truthfully; calls that make no sense are refused with an error and leave no trace.",
  ["inputs", "schedules", "histories"],
  "all scripts of all user processes and all orders in which they run",
  "tests call each core method once, alone, with fixed numbers",
  [C + "processor.py", C + "movable.py", C + "events_container.py", C + "container.py", C + "log.py", C + "locatable.py", C + "identifiable.py"],
  [("Processor.process", C + "processor.py"), ("Movable.move", C + "movable.py"), ("container events", C + "events_container.py")],
  ["levels", "positions", "logs", "return values"], "simulated user processes with attributed level changes and positions against a reference model", "one process moves each ship; amounts are multiples of 1/2"),
 ("C29", "Catalogues of the package list its public parts",
  "The package exports its public classes under their documented names and finds its own source and notebook folders.",
  ["configurations"], "all installations", "trivial facts of packaging", ["src/openclsim/__init__.py", "src/openclsim/utils.py"],
  [("exports", "src/openclsim/core/__init__.py")], [], None,
  "no concurrency, time, I/O or multi-party behaviour: importing names and joining paths has no schedule or fault to simulate"),
]


def main():
    import sys

    claimed = {r[0] for r in ROWS if r[9]}
    skip = set(sys.argv[1:])  # not built yet
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for r in ROWS:
            f.write(json.dumps({
                "id": r[0], "title": r[1], "statement": r[2],
                "quantifier": {"over": r[3], "text": r[4]},
                "why_tests_cant": r[5],
                "anchors": {
                    "files": r[6],
                    "mechanism": [{"name": n, "where": w} for n, w in r[7]],
                    "observe_at": r[8], "hook_needed": None,
                },
            }) + "\n")
    checks, na = [], []
    for r in ROWS:
        if r[0] not in claimed:
            na.append({"property": r[0], "reason": r[10]})
        elif r[0] in skip:
            na.append({"property": r[0], "reason": "the check is under construction"})
        else:
            checks.append({
                "property": r[0],
                "quick_cmd": "python3 check.py %s" % r[0],
                "thorough_cmd": "python3 check.py %s --tier thorough" % r[0],
                "evidence_file": "evidence/%s.json" % r[0],
                "technique": SIM + r[9],
                "level": "exploration",
                "level_note": "Seeded search over generated models, schedules and faults on the real code; finds violations, proves none absent. " + r[10][0].upper() + r[10][1:] + ".",
            })
    doc = {
        "version": 1,
        "setup_cmd": "python3 tools/setup_check.py",
        "checks": checks,
        "not_applicable": na,
        "notes": "No hooks in /repo: the environment passed to OpenCLSim is the seam. replay.py reproduces a violation from its file.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
