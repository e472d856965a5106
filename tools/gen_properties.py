#!/usr/bin/env python3
"""Writes properties.jsonl. The texts live here so they stay easy to edit."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=False):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

F3, F2, CS, MH = "src/fmi3Functions.c", "src/fmi2Functions.c", "src/cosimulation.c", "include/model.h"
def M(*n): return [x + "/model.c" for x in n]

p("C01", "FMI 3 calls are accepted exactly in the modes that permit them",
  "For every FMI 3 FMU and interface type, a call that the current mode permits (with valid arguments) succeeds and moves the instance to the documented next mode, and a call that the current mode forbids returns Error, is reported through the log callback unless error logging is off, changes no variable and leaves the instance terminated. A terminated instance can still be read, reset and freed, and works again normally after a reset.",
  ["histories", "configurations"], "all finite sequences of FMI 3 calls on Model Exchange, Co-Simulation (with and without Event Mode) and Scheduled Execution instances of every model",
  "The number of call sequences grows exponentially with length; the existing tests run one legal sequence per model and never make an illegal call.",
  [F3, MH], [("per-function permitted-mode masks", F3 + ": MASK_fmi3*"), ("mode check at function entry", F3 + ": BEGIN_FUNCTION / allowedState"), ("error status moves instance to terminated", F3 + ": CALL")],
  ["return status of every call", "log callback", "variable values read back after each rejected call", "acceptance of probing calls in the next mode"],
  [("state", "current mode of the instance", MH + ": ModelInstance.state")])

p("C02", "FMI 2 calls are accepted exactly in the modes that permit them",
  "For every FMI 2 FMU and interface type, a call that the current mode permits (with valid arguments) succeeds and moves the instance to the documented next mode, and a call that the current mode forbids returns Error, is reported through the logger unless error logging is off, changes no variable and leaves the instance terminated. A terminated instance can still be read, reset and freed, and works again normally after a reset.",
  ["histories", "configurations"], "all finite sequences of FMI 2 calls on Model Exchange and Co-Simulation instances of every model",
  "Sequences are unbounded and the existing tests only make legal calls in one fixed order.",
  [F2, MH], [("per-function permitted-mode masks", F2 + ": MASK_fmi2*"), ("mode check at function entry", F2 + ": BEGIN_FUNCTION / allowedState")],
  ["return status of every call", "logger callback", "variable values read back after each rejected call"],
  [("state", "current mode of the instance", MH + ": ModelInstance.state")])

p("C03", "No call history with valid buffers causes memory errors or undefined behaviour",
  "Whatever sequence of interface calls an importer makes, legal or not, with buffers of exactly the announced sizes, the FMU never reads or writes outside its own memory or the caller's buffers, never uses uninitialised memory, never executes undefined behaviour and never crashes or hangs. This includes wrong counts, unknown value references, NULL arrays, over-long strings and extreme numbers (simulated times up to about 1000 s).",
  ["histories", "inputs"], "all call sequences and all argument values of the FMI 2 and FMI 3 interfaces of every model, with caller buffers of exactly the stated length",
  "Unit tests do not observe out-of-bounds or uninitialised accesses that happen to have no visible effect, and cannot enumerate argument combinations.",
  [F3, F2, CS, MH] + M("BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("count checks before array accesses", MH + ": ASSERT_NVALUES; */model.c getters and setters"), ("string and binary size limits", "Feedthrough/model.c: setString, setBinary"), ("path assembly", "Resource/model.c: calculateValues")],
  ["AddressSanitizer/UndefinedBehaviorSanitizer reports", "memcheck reports", "process exit status"])

p("C04", "Values that were set are read back exactly and drive exactly their own output",
  "In every FMU the value last accepted for a variable is what later reads return, bit for bit, for all data types and extreme values, independent of order, grouping and repetition of variables in a call. In Feedthrough every output always equals the last accepted value of its own input, before, during and after stepping, and setting one variable never changes another independent one.",
  ["inputs", "histories"], "all values of all types (floats incl. NaN payloads, infinities, denormals; integer extremes; strings and binaries up to the maximum size) and all interleavings of set, get and step",
  "Value domains and orderings are far too large to list; the tests compare a few values of one scenario.",
  [F3, F2] + M("Feedthrough", "StateSpace", "Dahlquist", "VanDerPol", "BouncingBall", "Roberts", "Stair", "Clocks"),
  [("lazy recomputation flag", F3 + ": GET_VARIABLES/SET_VARIABLES isDirtyValues"), ("input to output copy", "Feedthrough/model.c: calculateValues")],
  ["values returned by every getter after each set or step"],
  [("isDirtyValues", "outputs must be recomputed before the next read", MH + ": ModelInstance.isDirtyValues")])

p("C05", "Malformed get and set requests are rejected with Error and reported",
  "A get or set request, also for clocks and intervals, with an unknown value reference, a reference of another type, too few or too many values, or a missing array returns Error and reports it through the log callback unless error logging is off; a get request that is well formed never fails in a readable mode. A single-variable set that is rejected for any of these reasons other than surplus values leaves every variable unchanged.",
  ["inputs"], "all value references (declared and undeclared), all typed accessors, all counts of references and values",
  "There are hundreds of reference/type/count combinations per model and version; the tests use none of the invalid ones.",
  [F3, F2, CS, MH] + M("BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("value count checks", F3 + ": GET_VARIABLES/SET_VARIABLES index != nValues"), ("unknown reference default case", "*/model.c: switch default in getters and setters"), ("type not available fallbacks", CS + ": GET_NOT_ALLOWED/SET_NOT_ALLOWED")],
  ["return status", "log callback", "values before and after"])

p("C06", "Constants, fixed parameters and value limits are enforced",
  "A variable can only be set when its kind and the current mode allow it: constants and calculated variables never, the dimensions of StateSpace only in (re)configuration, fixed parameters of a Model Exchange instance only before the end of initialization, discrete inputs and tunable parameters of a Model Exchange instance not in continuous-time mode. Values beyond a documented limit (enumeration items, string and binary length, array dimensions, counter maximum) are rejected; a rejected set returns Error and the old value stays in force.",
  ["inputs", "histories", "configurations"], "all variables of all models crossed with all interface types, modes and boundary values",
  "It is a product of variables, modes and boundary values that scenario tests do not enumerate.",
  M("BouncingBall", "Dahlquist", "Feedthrough", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("per-variable state checks", "*/model.c: setFloat64, setInt32, setUInt64, ..."), ("limits", "Feedthrough/model.c: STRING_MAX_LEN, BINARY_MAX_LEN, enumeration range; StateSpace/model.c: M_MAX, N_MAX, R_MAX; Stair/model.c: counter")],
  ["status of set calls in every mode", "values read back"])

p("C07", "Restoring a saved FMU state reproduces the past exactly",
  "After restoring a saved state, the instance has the same mode, time, variables, event information and future behaviour as it had when the state was saved, whatever happened in between (steps, events, resets, errors, termination). Saving never disturbs the instance, a saved state can be restored any number of times, and it also carries over to another instance of the same FMU and interface type.",
  ["histories"], "all histories before the save, all histories between save and restore and all continuations, for every model, version and interface type",
  "The guarantee is about all continuations from all reachable states; a test can only try a handful.",
  [CS, F3, F2], [("state copy out", CS + ": getFMUState"), ("field by field restore", CS + ": setFMUState")],
  ["all readable variables, states, derivatives, event indicators, mode probes and statuses of two runs of the same continuation"],
  [("ModelInstance", "all internal state of an instance", MH + ": ModelInstance")])

p("C08", "Serialized FMU states round-trip losslessly",
  "Serializing a saved state into a buffer of the announced size and deserializing it yields a state that restores exactly the same behaviour, also after the original state and instance were freed and also into a different instance; neither operation changes the instance or the source. Buffers of a wrong size are rejected with Error and never overrun.",
  ["histories", "inputs"], "all reachable states of every model and all buffer sizes",
  "Reachable states are unbounded, and losing one field only shows in particular continuations.",
  [F3, F2, CS], [("serialized size and byte copy", F3 + "/" + F2 + ": Serialize/DeSerializeFMUState"), ("restore", CS + ": setFMUState")],
  ["announced size", "status", "buffer guard zones", "behaviour after restore"])

p("C09", "A reset instance is indistinguishable from a new one",
  "After a reset, from any mode and after any history including errors, termination, events and reconfiguration, an instance behaves in every later call sequence exactly like a newly instantiated one with the same arguments.",
  ["histories"], "all histories before the reset and all call sequences after it, for every model, version and interface type",
  "Stale fields only show for particular combinations of past and future that fixed scenarios do not combine.",
  [CS, F3, F2] + M("BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("reset of generic fields", CS + ": reset"), ("model start values", "*/model.c: setStartValues")],
  ["lock-step comparison of reset and new instance: statuses, values, event information, log messages"])

p("C10", "Instances of an FMU never influence each other",
  "Any number of instances of the same FMU, driven in any interleaving or concurrently from different threads (each instance by one thread at a time, not always the same), each behave exactly as if they were alone, and receive only their own log messages and callbacks. Concurrent use of separate instances is free of data races.",
  ["schedules", "histories"], "all interleavings and thread schedules of calls on several instances, including creation, reset and destruction of siblings",
  "Hidden shared state only shows for particular interleavings or schedules; the tests use one instance at a time.",
  [CS, F3, F2] + M("BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("all state lives in the instance", MH + ": ModelInstance"), ("allocation per instance", CS + ": createModelInstance")],
  ["per-instance traces compared with a solo run", "ThreadSanitizer reports", "environment pointer of each callback"])

p("C11", "A co-simulation step keeps the communication-time contract",
  "A step that starts at the current communication point, has positive size and stays within the stop time advances internal time monotonically to within one internal step of the requested point and not beyond it, up to the documented relative tolerance of 1e-5, and reports the reached time; the next step must start where the last one ended. Times are up to about 1000 s, where the tolerance is well above rounding. Steps from another point, with zero or negative size or past the stop time are rejected with Error without advancing time.",
  ["inputs", "histories"], "all sequences of step sizes, start times and stop times (also not multiples of the internal step), for every co-simulation FMU of both versions",
  "Sequences of step sizes form a continuum; rounding and boundary cases arise only for unusual values.",
  [F3, F2, CS], [("argument checks and solver loop", F3 + ": fmi3DoStep; " + F2 + ": fmi2DoStep"), ("tolerant comparison", CS + ": isClose"), ("time grid", CS + ": doFixedStep")],
  ["status, last successful time, time variable before and after each step"],
  [("nextCommunicationPoint", "where the next step must start", MH), ("nSteps", "number of internal steps done", MH)])

p("C12", "Co-simulation results follow the model equations for every step pattern",
  "After any accepted sequence of co-simulation steps the variables equal the documented model equations integrated with the explicit Euler method on the FMU's fixed internal time grid, including all events and input or parameter changes made between steps. The result at a grid time does not depend on how the interval was divided into communication steps, nor on early return or Event Mode being enabled.",
  ["inputs", "histories", "configurations"], "all parameter and start values in range, all divisions of the time axis into steps, all input changes between steps",
  "The tests run one step size with default values per model and do not check the numbers.",
  [CS, F3, F2] + M("BouncingBall", "Dahlquist", "VanDerPol", "Stair", "StateSpace", "Roberts", "Feedthrough"),
  [("explicit Euler step and event detection", CS + ": doFixedStep"), ("step loop", F3 + ": fmi3DoStep; " + F2 + ": fmi2DoStep"), ("equations", "*/model.c: calculateValues, eventUpdate")],
  ["variables after each step against an independent reference integration"])

p("C13", "Model Exchange evaluations agree with the model equations and each other",
  "For any time, continuous state, input and parameter values, derivatives, outputs, event indicators, nominal values and counts returned by a Model Exchange instance are those of the documented equations, independent of the order and number of evaluations. States that were set are the states that are read, and the dedicated functions agree with the variables of the same quantity. An event update announces changed states exactly when the model's event changes them, and no change of nominal values, termination or time event that the model does not have.",
  ["inputs", "histories"], "all states, parameters and inputs in range and all orders of set and evaluation calls, including the differential-algebraic variant of Roberts",
  "Stale cached values and wrong terms only show for particular values and call orders.",
  [F3, F2] + M("BouncingBall", "Dahlquist", "VanDerPol", "StateSpace", "Roberts", "Feedthrough", "Stair"),
  [("equations", "*/model.c: calculateValues, getDerivatives, getEventIndicators"), ("state access", "*/model.c: getContinuousStates, setContinuousStates")],
  ["derivatives, states, indicators and variables against an independent evaluation"])

p("C14", "FMI 2, FMI 3, Model Exchange and Co-Simulation forms of a model agree",
  "For the same parameters, inputs and experiment, the Model Exchange form integrated by the importer with the co-simulation step size, the co-simulation form, and the FMI 2 and FMI 3 builds of a model produce the same trajectory, events and termination time.",
  ["configurations", "inputs"], "all pairs of interface forms of each model, all parameter values and communication step patterns",
  "Each test observes one form at a time; agreement between forms for arbitrary parameters is never compared.",
  [F3, F2, CS] + M("BouncingBall", "Dahlquist", "VanDerPol", "Stair", "Feedthrough", "Resource", "Roberts", "StateSpace"),
  [("two step loops", F3 + ": fmi3DoStep; " + F2 + ": fmi2DoStep"), ("version conditional code", "*/model.c, " + CS + ": #if FMI_VERSION")],
  ["variable traces of all forms at common times"])

p("C15", "Every bounce of the ball is detected and handled exactly once",
  "For any start height above the floor, velocity, gravity, restitution and stepping pattern, the ball's velocity is reversed and multiplied by the restitution coefficient exactly once per impact, as soon as the internal grid shows it at or below the floor while falling, and the ball comes to rest for good when the rebound speed falls below the stop velocity. Each handled impact is announced as changed continuous states, nothing is announced otherwise, and height never remains below the floor after event handling.",
  ["inputs", "histories"], "all start values and parameters, all step patterns, plain and event-mode co-simulation, model exchange with arbitrary event iteration, both versions",
  "Missed, doubled or late events depend on how impacts fall relative to steps; the tests run one trajectory and do not inspect it.",
  M("BouncingBall") + [CS, F3, F2], [("impact handling", "BouncingBall/model.c: eventUpdate"), ("zero crossing detection", CS + ": doFixedStep"), ("event indicator", "BouncingBall/model.c: getEventIndicators")],
  ["height and velocity traces", "event information", "event-handling flag"],
  [("prez", "event indicators at the last check", MH)])

p("C16", "Time events fire exactly once, on time, and the stair ends at ten",
  "The stair counter starts at its start value and rises by exactly one at each announced event time, one second apart, however the time axis is divided and however often event updates are repeated; the next event time is always announced correctly. Reaching ten requests termination of the simulation at that moment and not before, in every interface form.",
  ["histories", "inputs", "configurations"], "all start counters, all step patterns and event iterations, both versions, all interface forms",
  "Doubled, skipped or late events depend on rounding and repeated updates; the tests do not inspect the counter.",
  M("Stair") + [CS, F3, F2], [("counter and next event time", "Stair/model.c: eventUpdate"), ("time event detection", CS + ": doFixedStep"), ("termination", F3 + ": fmi3DoStep; " + F2 + ": fmi2DoStep")],
  ["counter, event information, termination flag or status after each call"])

p("C17", "Early return and Event Mode of co-simulation report every event",
  "With early return allowed, a co-simulation step that meets an event stops at the internal step of the event, flags early return, reports the reached time and accepts the next step only from there; with Event Mode used, an event that needs handling is flagged and left to the importer, otherwise it is handled internally. Without early return permission a step never returns early, and steps without events always run to the end and raise no flag. Without early return, a request to terminate may be reported one internal step later.",
  ["inputs", "histories", "configurations"], "all step patterns and parameter values for the four combinations of early return and Event Mode",
  "It depends on where events fall within steps; the two examples use one step size and only record values.",
  [F3, CS] + M("BouncingBall", "Stair", "Feedthrough"), [("step loop", F3 + ": fmi3DoStep"), ("mode after initialization", F3 + ": fmi3ExitInitializationMode")],
  ["event-handling, early-return, termination flags and reported time of each step against a reference integration"])

p("C18", "Directional and adjoint derivatives are the true Jacobian products",
  "Directional derivatives equal the Jacobian of the model's unknowns (state derivatives, residuals and event indicators as declared) with respect to the knowns times the seed, adjoint derivatives equal the transposed product, for any point, any subset and order of variables and any seed, and both agree with numerical differentiation of the model itself. Combinations that are not supported are rejected with Error. Output derivatives of the ball equal its velocity and acceleration.",
  ["inputs"], "all states and parameters, all ordered selections of unknowns and knowns (with repetitions), all seed vectors, both versions",
  "The Jacobian is a function over a continuum and the selections are combinatorial; the tests never call it.",
  M("VanDerPol", "Roberts") + [F3, F2], [("partial derivatives", "*/model.c: getPartialDerivative"), ("products", F3 + ": fmi3GetDirectionalDerivative, fmi3GetAdjointDerivative; " + F2 + ": fmi2GetDirectionalDerivative")],
  ["sensitivities against closed form, finite differences and the adjoint identity"])

p("C19", "StateSpace obeys its equations for every size and every reconfiguration",
  "For all dimensions from 0 up to the maximum of 5, chosen before or during the simulation, array variables have the announced number of elements, values that were set are read back element by element, state count follows the dimension, and derivatives and outputs equal A*x+B*u and C*x+D*u; the initial state is the start vector. Dimensions can only be changed in configuration or reconfiguration mode, larger ones are rejected, and the simulation continues correctly after each change.",
  ["inputs", "configurations", "histories"], "all combinations of the three dimensions, all matrix and vector values, all sequences of reconfigurations and steps in all interface forms",
  "The example uses square default matrices with one change; non-square cases and sequences of changes are never run.",
  M("StateSpace") + [F3, CS], [("array access", "StateSpace/model.c: getFloat64, setFloat64"), ("equations", "StateSpace/model.c: calculateValues"), ("mode changes", F3 + ": fmi3EnterConfigurationMode, fmi3ExitConfigurationMode"), ("state count", CS + ": configurate")],
  ["all variables, counts, derivatives and statuses against an independent linear model"])

p("C20", "Scheduled execution loses no clock tick under any preemption",
  "For every sequence of partition activations, and for every preemption of a running partition by a higher-priority one outside its locked sections, each activation is counted exactly once in its own and in the total counter, and lock and unlock callbacks are paired and never nested. Without preemption, the output clock ticks at exactly the documented totals and is reported once, the countdown clock announces its interval once when due, and outputs follow the documented formulas.",
  ["schedules", "histories"], "all activation sequences and all preemption points, down to single machine instructions, of lower-priority partitions",
  "Lost updates need preemption at particular instructions; the example is not even run by the tests.",
  M("Clocks") + [F3], [("partition bodies with lock sections", "Clocks/model.c: activateModelPartition1..3"), ("output clock and countdown interval", "Clocks/model.c: getClock, getInterval")],
  ["tick counters, output clock, intervals, sequence of lock, unlock and clock-update callbacks"])

p("C21", "Only valid instantiations succeed",
  "Instantiation succeeds exactly if the instance name is not empty, the token is the one declared by the model description and the FMU supports the requested interface type and Event Mode; otherwise it returns no instance and reports the reason for bad names, tokens and Event Mode. A new instance is in its initial mode and keeps no reference to the caller's strings.",
  ["inputs", "configurations"], "all names, tokens, paths, flags and interface types for every model and version",
  "Inputs are arbitrary strings and flags; the tests only make valid calls.",
  [CS, F3, F2], [("name and token checks", CS + ": createModelInstance"), ("interface guards", F3 + ": fmi3Instantiate*")],
  ["returned instance", "log callback", "behaviour after the caller's strings are overwritten and freed"])

p("C22", "Logging reports errors completely and only what was asked for",
  "Every call that fails with Error because of an illegal call sequence, invalid argument or rejected value produces at least one error message through the callback, with the caller's environment, the error status and the error category, and the text intact whatever characters it contains; successful calls produce no error messages. Functions a model does not implement may fail silently. Debug logging can be switched per category, unknown categories are rejected, and a disabled category produces no messages.",
  ["histories", "inputs"], "all call sequences, all combinations of log settings and all message contents including percent signs and long texts",
  "Message content and settings combine freely with all error paths; the tests produce no errors.",
  [CS, F3, F2], [("formatting and dispatch", CS + ": logMessage, logError, logEvent"), ("switches", CS + ": setDebugLogging")],
  ["arguments of each log callback"])

p("C23", "Resource reads its file wherever the FMU was extracted",
  "The Resource FMU outputs the code of the first character of its resource file for every legal resource location: any directory name, percent-encoded characters and both URI forms in FMI 2, plain paths in FMI 3, before and after initialization and independent of the working directory. If the location is missing, not a file URI, too long or the file cannot be opened, calls that need it return Error with a message and nothing is overrun.",
  ["inputs"], "all directory names and contents, location forms and lengths",
  "Paths are arbitrary strings; the tests use one.",
  M("Resource"), [("location decoding and file access", "Resource/model.c: calculateValues")],
  ["value of the output, status, log messages, sanitizer reports, open file descriptors"])

p("C24", "Intermediate updates are reported once per internal step, in order",
  "During co-simulation the intermediate update callback of an instance is called exactly once for each internal step, with its own environment, strictly increasing times on the internal grid and correct capability flags, and values read inside the callback are those of that step. Requests for early return from the callback do not disturb the step when early return is not offered.",
  ["histories", "inputs"], "all step patterns and callback behaviours for all co-simulation FMUs",
  "The tests pass no callback or ignore it.",
  [CS, F3], [("callback in each internal step", CS + ": doFixedStep")],
  ["arguments and number of callbacks per step", "values read inside the callback against the reference"])

p("C25", "The model description and the binary tell the same story",
  "For every FMU, each variable of the model description can be read with its declared type and size and has its declared start value in a new instance, the declared settable variables can be set before initialization, the token and the interface types instantiate, and declared states, derivatives, event indicators, log categories, nominals, reinitialized states, internal step sizes and capabilities are those of the binary. Only continuous variables change between events. No unknown changes with a variable outside its declared dependencies, also in the DAE formulation, and no clocked variable with a clock to which it does not belong. The description does not contradict itself (units, types, references, start values, model structure, default experiment), nor the one of the other FMI version in its default experiment. Shipped reference results exist under the name given by their manifest and are reproduced by the co-simulation form.",
  ["configurations"], "all variables, attributes and capability flags of all model descriptions of both versions",
  "The existing suite validates the XML alone; nothing compares it with the binary's behaviour.",
  ["*/FMI2.xml", "*/FMI3.xml", "*/config.h", "*/*_out.csv"] + M("BouncingBall", "Clocks", "Dahlquist", "Feedthrough", "Resource", "Roberts", "Stair", "StateSpace", "VanDerPol"),
  [("start values", "*/model.c: setStartValues"), ("value references and capabilities", "*/config.h")],
  ["typed reads and writes of every declared variable", "counts of states and indicators", "state and serialization calls"])

p("C26", "Balanced use leaks nothing",
  "After every history, in which each created instance and saved state is freed by the importer, the FMU and the import library hold no memory and no open files, and repeated cycles do not let memory grow.",
  ["histories"], "all call histories ending with freeing all instances and states, including failed instantiations, errors, repeated saves into the same state and failed resource access",
  "Leaks have no functional effect and lie mostly on error paths.",
  [CS, F3, F2, "src/FMI.c", "src/FMI2.c", "src/FMI3.c"] + M("Resource"),
  [("instance and state ownership", CS + ": createModelInstance, freeModelInstance, getFMUState"), ("file handles", "Resource/model.c"), ("importer instance", "src/FMI.c: FMICreateInstance, FMIFreeInstance")],
  ["LeakSanitizer", "allocation balance and open descriptors around each history"])

p("C27", "Running out of memory is reported, never fatal",
  "If any memory request of the FMU or of the import library fails, the call returns Error (or no instance) or completes correctly without it, nothing crashes, nothing leaks, the affected instance can still be reset or freed, and other instances are not affected. Blocks obtained from the memory functions of the import library are cleared, keep their contents when resized, and stay valid when a resize fails.",
  ["fault_sequences"], "each single allocation and each suffix of allocations in representative histories failing",
  "Allocation failures do not occur in tests.",
  [CS, F3, F2], [("allocation checks", CS + ": createModelInstance, s_reallocate, logMessage; " + F3 + "/" + F2 + ": DeSerializeFMUState")],
  ["statuses and process survival under an interposed allocator that fails the n-th request", "allocation balance"])

p("C28", "The import library forwards every call unchanged and tracks the mode",
  "Each importer call forwards its arguments to the FMU function of the same name of the loaded binary exactly once and returns its status and results unchanged, with call logging on or off; the tracked mode follows the calls that succeed, and the status recorded in the instance never improves and is never worse than a status that was returned. Messages of the FMU reach the importer's callback unchanged. Loading fails cleanly when the library or a required function is missing.",
  ["inputs", "histories", "configurations"], "all importer functions with arbitrary arguments, all statuses returned by the FMU, logging on and off, incomplete libraries",
  "The examples use a small subset of the functions with an FMU that always succeeds.",
  ["src/FMI.c", "src/FMI2.c", "src/FMI3.c", "include/FMI.h", "include/FMI2.h", "include/FMI3.h"],
  [("forwarding wrappers", "src/FMI2.c, src/FMI3.c: CALL, CALL_ARGS, CALL_ARRAY"), ("symbol loading", "src/FMI2.c, src/FMI3.c: loadSymbols")],
  ["a recording FMU that logs every received argument and returns scripted results"])

p("C29", "Call logs of the import library are complete and exact",
  "For every call made with logging enabled exactly one message is delivered, which names the function, lists all arguments with their exact values (arrays element by element or by address) and carries the returned status, whatever its length; building it always terminates and never touches memory outside its buffer.",
  ["inputs", "histories"], "all array lengths, string lengths and binary sizes, in particular message lengths around the internal buffer sizes",
  "Truncation, overflow or endless growth only occur at particular message lengths.",
  ["src/FMI.c", "src/FMI2.c", "src/FMI3.c"], [("growing message buffer", "src/FMI.c: FMIAppendToLogMessageBuffer, FMIAppendArrayToLogMessageBuffer"), ("call logging", "src/FMI2.c, src/FMI3.c")],
  ["text passed to the function-call callback against an independent rendering"])

p("C30", "Paths are converted to URIs and binary paths correctly",
  "Converting any file path to a URI yields a percent-encoded form that decodes to the same path and consists of URI characters only, or an error if the buffer is too small; the buffer is never overrun. The binary path of an FMU is the platform folder below the given directory, with or without trailing separator, or an error if it does not fit.",
  ["inputs"], "all byte strings as paths and all buffer sizes",
  "Paths and sizes are unbounded; the tests use one plain path.",
  ["src/FMI.c"], [("percent encoding", "src/FMI.c: FMIPathToURI"), ("platform path", "src/FMI.c: FMIPlatformBinaryPath")],
  ["produced strings decoded independently", "guard zones around the buffer"])

p("C31", "An FMU compiled from its own sources behaves as its binary",
  "Every FMU carries sources that compile as its build description says (FMI 3: buildDescription.xml, FMI 2: the SourceFiles of the model description), define every FMI function with the prefix of the model identifier and none without it, and answer every history of calls with the same statuses, values and log messages as the binary of the FMU, whatever conforming compiler and optimization level was used.",
  ["histories", "configurations"], "all histories of calls on every model, FMI version and interface type, for source code builds by different compilers",
  "Histories are unbounded and dependence on uninitialized memory or undefined evaluation order shows only in some builds; the tests compile one model from sources and step it once.",
  [F3, F2, CS, "include/fmi3Functions.h", "include/fmi2Functions.h"] + M("BouncingBall", "Feedthrough", "StateSpace"), [("function prefix", F3 + ": FMI3_FUNCTION_PREFIX, " + F2 + ": FMI2_FUNCTION_PREFIX"), ("description of the sources", "*/buildDescription.xml, */FMI2.xml: SourceFiles")],
  ["answers and log messages of both forms under the same calls", "exported symbols of the source build"])

p("C32", "An FMU behaves through the import library as when called directly",
  "Every history of calls made on an FMU through the import library, with the call log on or off, gets the same statuses, values, messages and intermediate updates as when it is made on the FMU directly. Any number of imported instances, of one or several FMUs, interleaved or used concurrently from different threads (each by one thread at a time), behave as if each were alone, without data races.",
  ["histories", "schedules", "configurations"], "all histories of calls on every model, FMI version and interface type, all interleavings of several imported instances",
  "The examples import one instance for one fixed simulation; interference between instances needs particular histories or schedules.",
  ["src/FMI.c", "src/FMI2.c", "src/FMI3.c", "include/FMI.h"], [("forwarding", "src/FMI2.c, src/FMI3.c: CALL_ARGS, FMI3Instantiate*"), ("callbacks", "src/FMI2.c: cb_logMessage2, src/FMI3.c: cb_logMessage3"), ("per-instance log buffer", "src/FMI.c: FMIAppendToLogMessageBuffer")],
  ["answers and messages of the same history directly and through the library", "data races between imported instances"])

p("C33", "Calls leave the importer's process and constant arguments untouched",
  "No call of an FMU or of the import library changes the state of the process it runs in: working directory, environment, locale, floating-point rounding, traps and exception handling, signals, timers, limits, the generator behind rand(), open files, threads and children are after every history as they were before; nothing is printed on the standard streams and no file is written. Arrays, strings and serialized states handed over as constant arguments are unchanged when the call returns.",
  ["histories", "inputs", "configurations"], "all histories of calls on every model, FMI version and interface type, directly and through the import library, with and without log callback",
  "A side effect shows only to an importer that depends on the state concerned, after a particular call; no test looks at the process.",
  [F3, F2, CS, "src/FMI.c", "src/FMI2.c", "src/FMI3.c"] + M("Resource"), [("log output", CS + ": logMessage"), ("file access", "Resource/model.c: calculateValues"), ("restoring states", F3 + ", " + F2 + ": DeserializeFMUState"), ("loading", "src/FMI2.c, src/FMI3.c: loadSymbols")],
  ["snapshots of the process state around every history", "captured standard streams", "copies of all constant arguments"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
