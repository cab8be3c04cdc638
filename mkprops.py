import json
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,obs):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/openclsim/"+f for f in files],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None)))
p("C01","Shifting conserves material",
 "For every set of activities and every interleaving of them, the material in all containers plus the material under way between the start and the end of a shift equals the initial total at every moment. What one shift takes out of its origin at its start is exactly what it puts into its destination at its end, and nothing but shifts changes a container.",
 ["schedules","inputs"],"all initial levels, capacities, requested amounts and durations, and every order in which concurrent shifts interleave",
 "Tests run a few fixed fleets with one set of numbers each; the total over all containers at every step of an arbitrary interleaving is never compared.",
 ["core/processor.py","core/events_container.py","model/shift_amount_activity.py"],
 [("container level","amount held per material","core/events_container.py EventsContainer.items")],
 [("Processor.process get/put","core/processor.py"),("EventsContainer.put/get","core/events_container.py")],
 ["container.get_level of every object after every simulation step","START/STOP entries of shift activities"])
p("C02","Containers never run negative or over capacity",
 "No container level ever drops below zero or rises above its capacity, for any number of activities competing for the same sites and vessels and any order of events. A shift that could not fit or has nothing to take waits or is refused instead.",
 ["schedules","inputs"],"all levels, capacities, amounts, durations and interleavings of activities sharing sites",
 "The bounds are only enforced by the waiting loop before a shift; tests check end levels of scenarios in which the loop mostly passes at once.",
 ["model/shift_amount_activity.py","core/processor.py","core/events_container.py"],
 [("container level","amount held","core/events_container.py")],
 [("wait for content and space, then re-check after the resources are granted","model/shift_amount_activity.py main_process_function")],
 ["container.get_level / get_capacity after every step"])
p("C03","A shift moves the right amount in the right time",
 "A shift that can go ahead at once moves exactly the smallest of the requested amount, the content of the origin and the free space of the destination at its start, and is refused with an error when the origin is empty or the destination full at the moment of the attempt; one that has to wait moves the amount settled at the attempt, never more than there is and fits. With rates it takes amount divided by rate plus the manoeuvring time (given in minutes); with a rate function it takes what that function gives for the content before and after, of the material being shifted, plus manoeuvring.",
 ["inputs","histories"],"all amounts, rates, manoeuvring times, levels and capacities, and all histories leading to them",
 "Tests use single numeric examples; min() ties, partial loads, rate functions on multi-containers and unloading with a rate function are not covered.",
 ["core/processor.py","model/shift_amount_activity.py"],
 [("amount","requested amount or None for as much as possible","model/shift_amount_activity.py")],
 [("determine_processor_amount","core/processor.py"),("LoadingFunction.loading, UnloadingFunction.unloading","core/processor.py")],
 ["container levels before and after","START/STOP timestamps of the shift"])
p("C04","Reservations announce planned shifts and settle to reality",
 "When a shift is registered, its planned amount is at once visible as reserved in its destination and taken from the reservable content of its origin, each per material. When shifts complete, the reservation is corrected to what was really moved, so that with no shift pending the reservation level of every container equals its actual level.",
 ["schedules","histories"],"all plans of shifts with full or partial amounts, in every order of registration and completion",
 "One test file follows a single vessel with convenient numbers; partial loads and interleaved corrections are not covered.",
 ["model/shift_amount_activity.py","core/processor.py","core/events_container.py"],
 [("<id>_reservations","level a container will have once all planned shifts are done","core/events_container.py")],
 [("make_container_reservation","model/shift_amount_activity.py"),("check_possible_shift correction","core/processor.py")],
 ["container.get_level('default_reservations')"])
p("C05","Container conditions fire exactly when they become true",
 "A condition on a container level (more than, at least, less than, at most, full, empty) is signalled as soon as a put or get makes the level satisfy it and never while it has not been satisfied since it was requested. Asking for a condition that does not hold always returns a signal that is still pending, whatever was asked or fired before that moment.",
 ["histories","inputs"],"all sequences of puts, gets and condition requests with all levels, thresholds and operators",
 "Tests step through two or three puts with fixed thresholds; the caching and re-arming of signals depends on the whole history of requests.",
 ["core/events_container.py"],
 [("pending condition signals","cached per material, level and operator","core/events_container.py _container_events")],
 [("get_container_event, update_container_events","core/events_container.py")],
 ["triggered/processed of the returned events after each step"])
p("C06","Materials in one container do not affect each other",
 "In containers that hold several materials, a shift of one material changes only that material, waits only for its content and space, and its amount and duration depend on that material's level and capacity alone. The other materials' levels, reservations and pending conditions are as if the shift did not exist.",
 ["inputs","schedules"],"all levels and capacities of each material and all interleavings of shifts of different materials",
 "Multi-container tests shift fixed amounts one after another and compare the end levels only.",
 ["core/events_container.py","core/container.py","core/processor.py","model/shift_amount_activity.py"],
 [("per-material level","keyed by container id","core/events_container.py")],
 [("id_ handed through activity, processor and container","model/shift_amount_activity.py, core/processor.py")],
 ["get_level per material after every step","logged container level per material"])
p("C07","A resource is never used by more activities than it has places",
 "At no moment do more activities that need the same vessel, crane or site (moving it, shifting with it, or shifting from or to it) run at the same time than that object has resources, so that with one resource their start-stop intervals never overlap. This holds whatever structure the activities are nested in and in whatever order they become ready.",
 ["schedules"],"all durations, start times and nesting of activities competing for shared objects",
 "Tests show one hand-picked conflict; whether a request is missed on some path depends on the interleaving.",
 ["model/base_activities.py","model/shift_amount_activity.py","model/move_activity.py","core/resource.py"],
 [("requested_resources","requests an activity group currently holds","model/base_activities.py")],
 [("_request_resource/_release_resource","model/base_activities.py")],
 ["START/STOP intervals of activities that share an object"])
p("C08","Every claimed resource is given back and every activity finishes",
 "When all activities that can run have run, every one of them has completed, no object is still claimed unless the plan asked to keep it, and nobody is waiting for an object that is free (shifts that claim the same objects in opposite roles can block each other: a listed finding). A group that asks to keep an object over several activities holds it without interruption until the activity that lets it go.",
 ["schedules","configurations"],"all durations and orders of competing activities, with and without shared requests and kept objects",
 "Deadlocks and leaked claims only show for particular orders of requests; tests contain a handful of such orders.",
 ["model/base_activities.py","model/shift_amount_activity.py","model/move_activity.py"],
 [("requested_resources, keep_resources","claims shared by a group of activities","model/base_activities.py")],
 [("_release_resource","model/base_activities.py")],
 ["resource.count and resource.queue after the run","completion of each activity","intervals of a group holding an object against those of competitors"])
p("C09","Sequences run their parts in order without gaps",
 "In a sequence every part starts exactly when its predecessor has finished (or later only because its own start condition, resources or plugins make it wait), the sequence starts with its first part and stops with its last. This holds at every nesting depth and in every repetition.",
 ["inputs","configurations"],"all durations (including zero) and all nestings of sequential, parallel and repeated activities up to the bound",
 "Tests check single nestings with fixed durations.",
 ["model/sequential_activity.py","model/base_activities.py","model/while_activity.py"],
 [("start_event_parent","event on which a part waits for its predecessor","model/base_activities.py")],
 [("register_sequential_subprocesses","model/base_activities.py"),("SequentialActivity.main_process_function","model/sequential_activity.py")],
 ["START/STOP timestamps of the sequence and its parts"])
p("C10","Parallel parts start together and are joined",
 "All parts of a parallel activity become startable at the moment it starts, it stops exactly when its last part has stopped, and the end it records for each part is the time that part really ended, its delay included. This holds for any durations, ties included, and at every nesting depth.",
 ["inputs","configurations"],"all durations, ties and nestings",
 "Tests use fixed durations; ties and parts that finish during the same event need particular values.",
 ["model/parallel_activity.py","model/base_activities.py"],
 [("stop events of parts","list that is shortened as parts end","model/parallel_activity.py")],
 [("ParallelActivity.main_process_function","model/parallel_activity.py")],
 ["START/STOP timestamps and labelled sub-process entries"])
p("C11","Loops run the prescribed number of times",
 "A repeat activity runs its parts exactly the given number of times; a while activity runs them at least once and stops after the first pass at whose end its stop condition has been fulfilled, and not before. Every pass runs all parts in order, back to back, also when loops are nested in sequences, parallels or other loops.",
 ["inputs","histories"],"all repetition counts within the bound, all durations, levels and stop conditions",
 "Tests use one repetition count or one fill level; off-by-one errors at other counts, at exact fill levels or in nested loops are not sampled.",
 ["model/while_activity.py","model/base_activities.py","model/helpers.py"],
 [("repetitions, condition event","loop control","model/while_activity.py")],
 [("ConditionProcessMixin.main_process_function","model/while_activity.py"),("register_processes for the next pass","model/helpers.py")],
 ["number and timestamps of START/STOP entries of the parts","container levels at the end"])
p("C12","Activities start exactly when their start condition is met",
 "An activity with a start condition (a time, completion of other activities, a container level, or any and/or combination of these) starts at the first moment at which the condition has been fulfilled since the activity was registered and its turn in the enclosing structure has come, and never earlier. A time in the past does not delay it.",
 ["inputs","schedules"],"all times, durations, levels and all combinations of conditions up to the bound",
 "Tests check single conditions with fixed times; combinations and orders in which the parts of a condition come true are not covered.",
 ["model/base_activities.py","core/events_container.py"],
 [("start_event","condition expression","model/base_activities.py")],
 [("parse_expression, delayed_process","model/base_activities.py")],
 ["START timestamps against the times at which the conditions became true"])
p("C13","Time advances exactly by the planned durations",
 "Every activity occupies exactly its planned duration between its start and its stop, and when nothing waits the project takes exactly the sum (or, in parallel, the maximum) of the durations. Moving the start of the simulation in time moves every recorded event by the same amount and changes nothing else.",
 ["inputs","configurations"],"all durations, start times of the simulation and structures within the bound",
 "Tests fix the simulation start at a handful of dates and compare a few timestamps.",
 ["model/basic_activity.py","model/move_activity.py","model/shift_amount_activity.py","core/processor.py","core/movable.py","core/log.py"],
 [("env.now","simulation clock in seconds since 1970","simpy")],
 [("timeouts of the activities","model/*.py")],
 ["START/STOP timestamps","env.now at the end"])
p("C14","Registration takes every activity exactly once, in any order",
 "Registering a plan schedules every activity and sub-activity exactly once, independent of the order in which activities that refer to each other are listed, and apart from who comes first among activities that become ready for the same object at the same moment the simulated result does not depend on that order. Plans in which two activities carry the same name, or that refer to activities that do not exist or to each other in a circle (a listed finding), are rejected with an error before any time passes rather than run partially.",
 ["configurations","programs"],"all orders and dependency graphs of a plan up to the bound",
 "Tests register their plans in one order each.",
 ["model/helpers.py","model/base_activities.py"],
 [("registry","activities by name and id","model/base_activities.py")],
 [("register_processes","model/helpers.py"),("register_process","model/base_activities.py")],
 ["number of runs per activity","START times under permuted registration"])
p("C15","Every activity log is well formed",
 "In the log of every activity, starts and stops of the activity itself alternate, each start is followed by its stop not earlier than the start, waiting entries are balanced in the same way and never overlap the run, and every run that completes is logged exactly once. The same holds for what activities log on the vessels and sites they use.",
 ["schedules","inputs"],"all durations, waits, nestings and interleavings within the bound",
 "Tests compare complete logs of a few fixed scenarios.",
 ["core/log.py","model/basic_activity.py","model/move_activity.py","model/shift_amount_activity.py","model/sequential_activity.py","model/parallel_activity.py","model/while_activity.py","model/base_activities.py"],
 [("logbook","list of entries","core/log.py")],
 [("log_entry_v1 calls around every run","model/*.py")],
 ["log of activities, vessels and sites"])
p("C16","Log entries carry the true time and the true state",
 "Every log entry is stamped with the simulation time in UTC at which what it tells happened (a wait is entered once it is over, with the times at which it began and ended), whatever the time zone of the machine, and starts and stops record the container levels and the position the object had at that very moment. The tabular form of a log contains exactly these entries in the order in which they were made.",
 ["inputs","configurations"],"all simulation times, local time zones, levels and positions",
 "Tests run in one time zone and look at few of the recorded states.",
 ["core/log.py","core/container.py","core/locatable.py"],
 [("ObjectState","container level and geometry at the time of logging","core/log.py")],
 [("log_entry_v1, get_state, log","core/log.py")],
 ["log entries against levels observed by the harness at the same step"])
p("C17","What an activity does is mirrored on the objects involved",
 "For every run of a move, the vessel's log shows the same start and stop under the same activity; for every run of a shift, the logs of the processor, origin and destination each show it once. Extra logs given to an activity receive its starts, stops and waits with the same times, and a structural activity records the start and stop of each of its parts under that part's reference.",
 ["inputs","schedules"],"all durations, waits and structures within the bound, also when one object plays two roles",
 "Tests compare selected logs in fixed scenarios.",
 ["core/processor.py","core/movable.py","model/basic_activity.py","model/base_activities.py","model/sequential_activity.py","model/parallel_activity.py","model/while_activity.py"],
 [("activity_id","activity on whose behalf an object logs","core/log.py")],
 [("log_entry_v1 on processor, origin, destination and extra logs","core/processor.py, model/basic_activity.py")],
 ["logs of activities against logs of the objects"])
p("C18","Moves take distance over speed and end at the destination",
 "A move without a given duration takes the geodesic (or route) distance from where the vessel is to the destination divided by its speed, where the speed reflects the fill degree over everything the vessel carries and the engine order of the move. Afterwards, and not before, the vessel is at the destination.",
 ["inputs","histories"],"all speeds, engine orders, load states and sequences of destinations within the bound",
 "Tests check single moves at full engine order and one load; the load and position when a later move starts depend on the history.",
 ["core/movable.py","core/locatable.py","model/move_activity.py"],
 [("geometry","current position","core/locatable.py")],
 [("Movable.move, compute_duration, v","core/movable.py")],
 ["START/STOP timestamps of moves","geometry of the vessel at every step"])
p("C19","Material is only shifted between objects at the same place",
 "A shift runs only while its processor and its destination are each within 100 m of its origin, and otherwise fails with an error before any material is moved. Two objects count as being at the same place exactly when their geodesic distance is less than the tolerance, in either direction of asking.",
 ["inputs"],"all distances between the objects",
 "Tests place objects either at the same point or kilometres apart.",
 ["core/locatable.py","model/shift_amount_activity.py","core/processor.py"],
 [("geometry","current position","core/locatable.py")],
 [("is_at","core/locatable.py"),("assertions before shifting","model/shift_amount_activity.py, core/processor.py")],
 ["error or success of a shift, container levels"])
p("C20","Weather-restricted work starts in the earliest workable window",
 "An activity with a weather restriction starts at the earliest moment, not before it is otherwise ready, from which the limiting quantity stays within its limit for longer than the required window, each recorded value holding until the next and the record repeating (up to nine times) after its end, and not at all earlier; if it is ready within such a window it does not wait. The wait is recorded as waiting on weather.",
 ["inputs"],"all time series within the bound on length, limits of both kinds, window lengths, delays and ready times",
 "Tests use one recorded wave series and a few limits; window boundaries relative to arbitrary ready times are not explored.",
 ["plugins/weather.py"],
 [("weather windows","intervals in which the criterion holds","plugins/weather.py")],
 [("process_data, check_constraint, pre_process","plugins/weather.py")],
 ["START and waiting entries of the activity"])
p("C21","Delays stretch an activity by the given percentage",
 "An activity with a delay of p percent is followed by a recorded delay of exactly p percent of the time the activity itself took (waiting before it not counted), during which it still holds its resources and its successors do not start. Without a percentage nothing changes.",
 ["inputs","configurations"],"all durations, percentages and activity kinds within the bound",
 "Tests use one percentage on a fixed duration.",
 ["plugins/delay.py","model/base_activities.py"],
 [("delay_factor","fraction of the duration","plugins/delay.py")],
 [("post_process, delay_processing","plugins/delay.py, model/base_activities.py")],
 ["waiting entries and START of successors"])
p("C22","Plugins run once per run, in order of priority",
 "Every plugin attached to an activity is applied exactly once before and once after every run of the activity, lower priority numbers first and equal ones in order of attachment, and is told when preparation and the run itself began. This holds for every kind of activity, in loops, and whatever waits the plugins add.",
 ["configurations","inputs"],"all sets of plugins, priorities, waits and activity kinds within the bound",
 "Tests attach one or two plugins in one order.",
 ["model/base_activities.py"]+["model/"+x for x in ("basic_activity.py","move_activity.py","shift_amount_activity.py","sequential_activity.py","parallel_activity.py","while_activity.py")],
 [("plugins","sorted list","model/base_activities.py")],
 [("register_plugin, pre_process, post_process","model/base_activities.py")],
 ["calls received by recording plugins, timestamps of the activity"])
p("C23","The exported activity tree is the real tree",
 "The exported list of activities contains every activity of the plan exactly once with its own id, name and class, the depth at which it really sits and, for every nested activity, its direct parent, so that the tree can be rebuilt from the list. The exported relations to vessels and sites are those of the activities.",
 ["configurations","programs"],"all activity trees up to the bound, given as single activity, list or dict",
 "Tests do not check the export at all.",
 ["io.py"],[("tree list","dict of columns","io.py")],
 [("get_tree_as_list, get_activities, get_activity_resources, get_concepts","io.py")],
 ["returned columns"])
p("C24","Exported time ranges match the log",
 "For every activity on an object's log, the exported ranges are exactly its runs in order, each label (an activity itself, a part of it) on its own: one row per start with its own stop, the time between them in seconds and the container levels at both ends; a last run without stop is kept open. The activity log of a plan contains these rows for every activity with its name and class.",
 ["inputs","histories"],"all logs with up to the bounded number of activities and runs",
 "Tests do not check the export at all.",
 ["io.py","plot/log_dataframe.py"],[("ranges","one row per run","io.py")],
 [("get_ranges_dataframe, get_activity_log, get_log_dataframe","io.py, plot/log_dataframe.py")],
 ["returned data frames"])
p("C25","The planning chart shows what was logged",
 "The planning chart draws, for every object and activity, one bar from each logged start to the matching stop of the same label on that object's row under that activity's name, and nothing else; its time axis spans the first to the last logged moment. The table behind it has one row per log entry, each with the time, state, activity, object state and label of that same entry.",
 ["inputs","histories"],"all logs up to the bound with arbitrary times, ties included",
 "Tests only call the plotting function for some scenarios.",
 ["plot/vessel_planning.py","plot/log_dataframe.py"],[("traces","one per activity","plot/vessel_planning.py")],
 [("get_gantt_chart, get_segments, get_log_dataframe","plot/vessel_planning.py, plot/log_dataframe.py")],
 ["returned figure data"])
p("C26","The step chart shows the logged container levels",
 "For every given object and every material it holds, the step chart draws one line through exactly the logged moments and the level of that material logged at each of them.",
 ["inputs","histories"],"all logs up to the bound",
 "Tests only call the plotting function.",
 ["plot/step_chart.py","plot/log_dataframe.py"],[("lines","one per object and material","plot/step_chart.py")],
 [("get_step_chart","plot/step_chart.py")],
 ["line data of the returned figure"])
p("C27","Critical means: on a longest path through the simulation",
 "Given recorded activities and dependencies between them, an activity that takes time is marked critical exactly when it lies on some chain of dependent activities whose total duration is the longest of all chains and that ends when the latest such chain ends. All such chains are found, ties included. The resulting table (and chart) holds every run recorded on an object, and every critical run that only its activity recorded, once.",
 ["inputs","configurations"],"all durations and dependency graphs up to the bound",
 "Tests check a few fixed graphs; ties and near-ties between chains are what the marking has to get right.",
 ["critical_path/simulation_graph.py","critical_path/base_cp.py"],
 [("critical edges","marked edges of the graph","critical_path/simulation_graph.py")],
 [("get_list_critical_activities","critical_path/simulation_graph.py"),("get_critical_path_df","critical_path/base_cp.py")],
 ["is_critical column, list of critical activities"])
p("C28","Dependencies inferred from the records follow their rule",
 "From the records alone, an activity is taken to depend on exactly those other activities on a common object that end at the moment it starts, and if one of these was waiting then on every other recorded activity that ends at that moment. No activity depends on itself and each dependency is listed once.",
 ["inputs","histories"],"all recorded timetables up to the bound",
 "Tests compare the list for fixed simulations.",
 ["critical_path/dependencies_from_recorded_activities.py"],
 [("dependency list","pairs of recorded activities","critical_path/dependencies_from_recorded_activities.py")],
 [("get_dependency_list","critical_path/dependencies_from_recorded_activities.py")],
 ["returned list"])
p("C29","Dependencies traced in the simulator are real and complete",
 "The dependencies found by following the simulation's events connect every time-consuming step exactly to the time-consuming step whose end set it off, so that the cause ends when the effect starts and, in plans without start times, every chain leads back to the start of the simulation without gaps. Tracing does not change the simulated result.",
 ["schedules","inputs"],"all durations and interleavings within the bound",
 "Tests compare fixed simulations.",
 ["critical_path/dependencies_from_simpy_step.py"],
 [("cause-effect list","which event scheduled which","critical_path/dependencies_from_simpy_step.py")],
 [("CriticalPathEnvironment.step, get_dependency_list","critical_path/dependencies_from_simpy_step.py")],
 ["returned list, logs of the run with and without tracing"])
p("C30","Recorded activities are a faithful reading of all logs",
 "The table of recorded activities has exactly one row per run or wait on every object and activity, with its own start, end, duration and state, the right object and name, and one identity per run (same activity, same start, same end) shared by all objects on which that run was recorded and by nothing else; only for structural activities, which also log their parts, is the pairing in order of time (a listed finding).",
 ["inputs","histories"],"all logs up to the bound, repeated runs and ties included",
 "Tests compare fixed simulations.",
 ["critical_path/base_cp.py","plot/log_dataframe.py"],
 [("recorded activities","table","critical_path/base_cp.py")],
 [("combine_logs, reshape_log, add_unique_activity","critical_path/base_cp.py")],
 ["returned table"])
p("C31","Simulations are reproducible and independent of each other",
 "Running the same plan twice, or running another simulation before or between its steps in the same process, gives the same logs and levels. Objects and activities created with default arguments never share state, and registries of different simulations do not mix.",
 ["histories","configurations"],"all plans within the bound and all preceding simulations",
 "Each test runs one simulation in a fresh state and looks at that one only.",
 ["model/base_activities.py","model/basic_activity.py","model/single_run_process.py","model/helpers.py","core/container.py","core/log.py"],
 [("default arguments, registries, caches","state that could leak","model/*.py, core/*.py")],
 [("constructors","model/*.py, core/*.py")],
 ["logs and levels of both runs"])
p("C32","The single-run helper is the sail-load-sail-unload cycle",
 "The ready-made transport cycle behaves exactly like the loop of sailing empty, loading, sailing filled and unloading composed by hand, with the given start and stop conditions, and by default runs, once at least, until the origin is empty or the destination is full. Each trip moves as much as fits.",
 ["inputs"],"all levels, capacities, rates and travel times within the bound",
 "One test runs it with one set of numbers.",
 ["model/single_run_process.py"],[("stop_event","default stop condition","model/single_run_process.py")],
 [("single_run_process","model/single_run_process.py")],
 ["logs and levels against a trip-by-trip calculation"])
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"])); assert x["statement"].count(". ")<=2,x["id"]
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import sys
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
