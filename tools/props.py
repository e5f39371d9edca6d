P('P11', 'Chromosomes stay valid and mean the schedule they came from',
  'Turning a schedule into a chromosome keeps its order, crews and contractors, and evaluating the chromosome gives a schedule with '
  'exactly those crews and contractors. Every crossover and mutation leads from valid chromosomes (topological order, priority groups in '
  'order, crews within limits and contractor capacities, permitted contractors, valid borders and zone statuses) to valid ones, leaves the '
  'parents untouched and changes only its own part. The library\'s own check accepts exactly the chromosomes that obey its rules.',
  ['inputs', 'histories', 'configurations'],
  'all projects, specifications, contractors and zones; all sequences of crossovers and mutations with all random choices',
  'The tests apply each operator a few times to one synthetic project; a broken operator shows only on particular graphs and random choices.',
  ['sampo/scheduler/genetic/operators.py', 'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/genetic/utils.py',
   'sampo/scheduler/genetic/schedule_builder.py'],
  [('order crossover and mutation', 'sampo/scheduler/genetic/operators.py mate_scheduling_order / mutate_scheduling_order'),
   ('crews and contractors', 'sampo/scheduler/genetic/operators.py mutate_resources / mate_resources'),
   ('conversion', 'sampo/scheduler/genetic/converter.py')],
  'Exhaustive for the specification on a six-work project for 2-4 operator steps; operator histories on random projects are validated '
  'step by step. Zone mutation only with the zones part switched on explicitly, as the library does not use it.',
  'TLA+ operators on chromosomes (Genome) model-checked by TLC; histories of the real operators validated against it',
  observe=['create_toolbox -> toolbox operators', 'convert_schedule_to_chromosome', 'convert_chromosome_to_schedule'])
P('P12', 'The genetic search returns the best it has evaluated and keeps its deadline',
  'The genetic scheduler returns a schedule with the best goal value among all individuals it evaluated (for several goals: ones that do not '
  'dominate each other). With a deadline, if any evaluated individual meets it, the returned schedules meet it and are the best among those '
  'that do; otherwise the earliest one found is returned. Individuals are judged by the makespan and resources of the schedule they stand for, populations '
  'and generations stay within the given numbers, the terms of the specification hold in the result, and the same seed gives the same run.',
  ['inputs', 'histories', 'configurations'],
  'all projects, seeds, population sizes, goals, deadlines, generation schemes and selection modes',
  'The tests run the search once per configuration and look only at whether a schedule is returned.',
  ['sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/genetic/base.py', 'sampo/scheduler/genetic/operators.py',
   'sampo/backend/default.py', 'sampo/utilities/resource_usage.py', 'sampo/scheduler/resources_in_time/average_binary_search.py'],
  [('search', 'sampo/scheduler/genetic/schedule_builder.py build_schedules_with_cache'),
   ('goals', 'sampo/scheduler/genetic/operators.py FitnessFunction classes')],
  'Exhaustive for the specification over abstract individuals (populations of 2, 2-3 generations, any offspring); every evaluation of the '
  'real search is recorded through a computational backend and validated. Pareto selection is held to the full front only while the front '
  'fits the population. The number of generations may be one more than asked when the deadline is met by all at once.',
  'TLA+ machine of the two-stage search (Evolve) model-checked by TLC; recorded runs of the real search validated against it',
  observe=['GeneticScheduler.schedule', 'GeneticScheduler.upgrade_pop', 'SAMPO.backend.compute_chromosomes'])
P('P13', 'Restructured graphs mean the same as the original ones',
  'graph_restructuring returns a graph with finish-start and inseparable edges only, in which each work is a chain of stages that together '
  'have its volume and amounts of every requirement and otherwise its attributes; a timing of the works obeys the new edges exactly when it '
  'obeys the original start-start, finish-finish, lagged and finish-start edges. Priorities never decrease along edges, and the original graph is not changed.',
  ['inputs', 'configurations'],
  'all acyclic graphs with all edge types, lags (zero, positive, negative, above the volume), volumes and requirements, with and without lag optimisation',
  'The tests restructure one hand-made graph and count nodes; what an edge means needs every combination of edge types and lags.',
  ['sampo/structurator/base.py', 'sampo/schemas/works.py', 'sampo/utilities/priority.py', 'sampo/schemas/graph.py'],
  [('splitting into stages', 'sampo/structurator/base.py split_node_into_stages'),
   ('edges of stages', 'sampo/structurator/base.py fill_parents_to_new_nodes')],
  'For the specification: equivalence of the timings of all three-work projects with up to two edges within a horizon. For the code: the '
  'restructured graph must equal the one the specification defines. Shares are dyadic so that volumes are exact; at most one edge of a type per pair of works.',
  'TLA+ definition of restructuring (Restruct) shown to preserve meaning by TLC; graphs restructured by the code compared with it',
  observe=['graph_restructuring', 'WorkGraph.nodes', 'GraphNode.edges_to'])
SCH = ['sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/heft/base.py',
       'sampo/scheduler/topological/base.py', 'sampo/scheduler/genetic/converter.py',
       'sampo/scheduler/genetic/schedule_builder.py', 'sampo/scheduler/timeline/momentum_timeline.py',
       'sampo/scheduler/timeline/just_in_time_timeline.py']
SCHED_TECH = 'TLA+ machine Sched model-checked by TLC on all tiny instances; schedules of all real schedulers replayed on it'
SCHED_NOTE = ('Exhaustive for the specification within small constants (two real works, one kind, two contractors, horizon 4-5); '
              'for the code: every schedule of the explored instances is validated row by row. Assumes the projection of '
              'Schedule rows is faithful; instances are bounded (<=13 works, <=5 kinds, <=4 contractors).')
SCHED_WHY = ('The tests assert a few fixed or randomly built projects and mostly compare makespans or run the library\'s own '
             'validator; the guarantee is over every graph, contractor set, specification and scheduler.')
P('P01', 'No work starts before its predecessors have finished (plus the lag)',
  'In every schedule returned by any scheduler (HEFT, HEFT-between, topological, LFT, their randomized variants and the genetic '
  'one with either generation scheme), each work starts no earlier than the finish of every predecessor plus the lag of the '
  'connecting finish-start edge. This holds whatever priorities, specifications, chains and contractors the project has.',
  ['inputs', 'schedules', 'configurations'],
  'all acyclic work graphs with finish-start, lagged and inseparable edges, all contractor sets that can do the work, all '
  'specifications, all schedulers and seeds', SCHED_WHY, SCH,
  [('start time = max over predecessors of finish + lag', 'sampo/schemas/graph.py GraphNode.min_start_time'),
   ('placing in topological order', 'sampo/scheduler/generic.py build_scheduler'),
   ('precedence test of the parallel scheme', 'sampo/scheduler/timeline/just_in_time_timeline.py')],
  SCHED_NOTE, SCHED_TECH, observe=['Scheduler.schedule -> Schedule.works'])
P('P02', 'A contractor never has more workers busy than it employs',
  'At every instant of every schedule, the workers of one kind bound to running works of one contractor number at most the '
  'workers of that kind this contractor has; a crew of an inseparable chain counts as bound from the start of its first to the '
  'end of its last stage. The same holds jointly for two projects scheduled one after the other on one shared timeline.',
  ['inputs', 'schedules', 'configurations'],
  'all projects and contractor sets, all schedulers and seeds, every instant of the schedule',
  SCHED_WHY + ' Over-commitment needs particular overlaps of works.', SCH,
  [('slot search over the events of a worker kind', 'sampo/scheduler/timeline/momentum_timeline.py _find_earliest_time_slot'),
   ('stack of release times', 'sampo/scheduler/timeline/just_in_time_timeline.py _find_min_start_time / update_timeline')],
  SCHED_NOTE, SCHED_TECH, observe=['Scheduler.schedule -> Schedule.works'])
P('P03', 'A schedule is complete and framed by its start and finish works',
  'A returned schedule contains every work of the graph exactly once and nothing else. The project start work stands exactly at '
  'the requested start time, nothing starts before it, every work ends no earlier than it starts and no later than the finish '
  'work, and the reported execution time is the latest finish.',
  ['inputs', 'schedules', 'configurations'], 'all projects, requested start times, schedulers and seeds', SCHED_WHY, SCH + ['sampo/schemas/schedule.py'],
  [('first/last node handling', 'sampo/scheduler/generic.py build_scheduler'), ('execution time', 'sampo/schemas/schedule.py execution_time')],
  SCHED_NOTE, SCHED_TECH, observe=['Schedule.works', 'Schedule.execution_time'])
P('P04', 'Crews respect the requirements and working times are the estimated ones',
  'Every scheduled work that needs workers gets all of them from one contractor that employs them, for each required kind '
  'between the required minimum and maximum, and nobody else. Its working time is what the work estimator in use predicts for '
  'that crew (for an inseparable chain handled by the parallel genetic scheme: the stages together), and works without '
  'requirements take no time.',
  ['inputs', 'schedules', 'configurations'], 'all projects, contractor sets, estimators, schedulers and seeds', SCHED_WHY,
  SCH + ['sampo/schemas/time_estimator.py', 'sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/resource'],
  [('borders of a crew', 'sampo/scheduler/utils/multi_contractor.py get_worker_borders'),
   ('working time', 'sampo/schemas/time_estimator.py DefaultWorkEstimator.estimate_time')],
  SCHED_NOTE + ' The default estimator is restated in exact rationals; one unit of slack only where the exact quotient is '
  'integral (binary floating point may round up).', SCHED_TECH, observe=['ScheduledWork.workers', 'ScheduledWork.start_end_time'])
P('P05', 'Schedulers honour the schedule specification of every work',
  'If the specification restricts the contractors of a work, one of them does it; where it assigns a number of workers of a '
  'kind, the crew has exactly that many; where it assigns the time, the work (or its whole chain) takes exactly that time. '
  'A work marked independent shares its kinds of workers of its contractor with no other running work.',
  ['inputs', 'schedules', 'configurations'],
  'all projects and satisfiable specifications (full or partial crews, any contractor subset, time, independence), all schedulers '
  'and seeds', SCHED_WHY, SCH + ['sampo/schemas/schedule_spec.py', 'sampo/scheduler/base.py'],
  [('applying the crew', 'sampo/scheduler/base.py optimize_resources_using_spec'),
   ('contractor filter', 'sampo/schemas/schedule_spec.py WorkSpec.filter_contractors'),
   ('distribution of assigned time', 'sampo/scheduler/timeline/utils.py')],
  SCHED_NOTE, SCHED_TECH, observe=['Scheduler.schedule -> Schedule.works'])
P('P06', 'Stages of an inseparable chain are done by one crew without a break',
  'All stages of an inseparable chain are done in their order by the same crew of the same contractor. A stage starts exactly '
  'when the previous one ends, except that it may wait for a predecessor outside the chain, and the crew is not used elsewhere '
  'in between.',
  ['inputs', 'schedules', 'configurations'], 'all projects with chains of any length, all schedulers and seeds', SCHED_WHY, SCH,
  [('scheduling of a whole chain', 'sampo/scheduler/timeline/momentum_timeline.py _schedule_with_inseparables'),
   ('head nodes', 'sampo/scheduler/utils/__init__.py get_head_nodes_with_connections_mappings')],
  SCHED_NOTE, SCHED_TECH, observe=['Scheduler.schedule -> Schedule.works'])
P('P07', 'Timelines answer availability queries soundly, and earliest-slot queries exactly',
  'For any history of placements: the Momentum timeline returns the earliest moment, not before the predecessors and the asked '
  'minimum, at which the crew stays free for the whole work, and the just-in-time timeline the earliest moment at which enough '
  'workers have been released. A moment reported as possible can be used without over-committing anybody, a query changes '
  'nothing, and a placement occupies exactly the crew and interval it was made for.',
  ['inputs', 'histories'], 'all sequences of queries and placements of crews (also independent works, chains, late placements '
  'leaving gaps) on all contractor sets',
  'The tests place a handful of works on one synthetic project; a wrong slot needs particular overlaps of earlier placements.',
  ['sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py', 'sampo/scheduler/timeline/base.py'],
  [('slot search', 'sampo/scheduler/timeline/momentum_timeline.py _find_earliest_time_slot'),
   ('event list update', 'sampo/scheduler/timeline/momentum_timeline.py update_timeline'),
   ('release stack', 'sampo/scheduler/timeline/just_in_time_timeline.py update_timeline')],
  'Exhaustive for the specification for all sequences of 3-4 placements of small crews; behaviours sampled by TLC from the '
  'specification are replayed into both timelines and random histories recorded from them are validated. The just-in-time '
  'timeline is allowed to be conservative in its moment query.',
  'TLA+ machine Timeline (reservations, event list, release bag) model-checked by TLC; its behaviours replayed into both timelines',
  observe=['Timeline.find_min_start_time_with_additional', 'Timeline.can_schedule_at_the_moment', 'Timeline.schedule'])
P('P08', 'Zones have the required status while works use them',
  'While a work runs, every access zone it has a requirement for is in the required status. Status changes are reported as '
  'access cards with the work they precede, take at least their configured cost, never happen while a work with a requirement '
  'for that zone runs, and never begin before time 0; works with opposite requirements never overlap, and zones with a '
  'configured end status are switched to it before the finish work.',
  ['inputs', 'schedules', 'histories', 'configurations'],
  'all zone configurations (statuses, cost matrices, end statuses), all projects with zone requirements, all schedulers, and all '
  'histories of queries and placements on the zone timeline',
  'The only test schedules one synthetic graph and prints its duration; it asserts nothing about zones.',
  ['sampo/scheduler/timeline/zone_timeline.py', 'sampo/schemas/zones.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py',
   'sampo/scheduler/genetic/converter.py', 'sampo/scheduler/timeline/momentum_timeline.py',
   'sampo/scheduler/timeline/just_in_time_timeline.py'],
  [('slot search', 'sampo/scheduler/timeline/zone_timeline.py _find_earliest_time_slot'),
   ('moment query', 'sampo/scheduler/timeline/zone_timeline.py can_schedule_at_the_moment'),
   ('status events and access cards', 'sampo/scheduler/timeline/zone_timeline.py update_timeline / append_statuses')],
  'Exhaustive for the specification for 3-4 works on one zone; schedules and recorded zone-timeline histories are validated against '
  'it. Only DefaultZoneStatuses; a requirement of status 0 is read as no requirement, and configurations with such '
  'requirements have one cost for all changes.',
  'TLA+ machine Zones model-checked by TLC; access cards and works of real schedules and timeline histories validated against it',
  observe=['ScheduledWork.zones_pre', 'ScheduledWork.start_end_time', 'ZoneTimeline'])
P('P09', 'Materials are on the platform when a work starts, within stocks and vehicles',
  'When a work starts, its platform holds every material the work needs: what was there initially, plus what was delivered, minus '
  'what other works took. Deliveries are reported with the work, are completed before it starts, take at least the travel time by '
  'the roads, never fill a platform above its capacity, never take more from a depot than it stores, and never use more vehicles '
  'of a depot at once than it has. Queries change nothing and a promised delivery time is kept.',
  ['inputs', 'schedules', 'histories', 'configurations'],
  'all landscapes (platforms, depots, roads, vehicles), all material requirements, all schedulers, all histories of queries and '
  'deliveries on the supply timeline',
  'The tests schedule one synthetic landscape and assert almost nothing about stocks; errors need particular sequences of deliveries.',
  ['sampo/scheduler/timeline/hybrid_supply_timeline.py', 'sampo/scheduler/timeline/platform_timeline.py', 'sampo/schemas/landscape.py',
   'sampo/scheduler/timeline/momentum_timeline.py', 'sampo/scheduler/timeline/just_in_time_timeline.py'],
  [('supply of a platform from a depot', 'sampo/scheduler/timeline/hybrid_supply_timeline.py _supply_resources'),
   ('stock of a platform', 'sampo/scheduler/timeline/platform_timeline.py get_material_for_delivery / update_timeline')],
  'Exhaustive for the specification for 3-4 works on one platform with two materials; schedules and recorded histories are '
  'validated against it. Stocks are generous (no depot runs dry in the explored schedules). Two findings on projects with '
  'inseparable chains are recorded as known.',
  'TLA+ machine Supply model-checked by TLC; deliveries of real schedules and supply-timeline histories validated against it',
  observe=['ScheduledWork.materials', 'ScheduledWork.start_end_time', 'HybridSupplyTimeline'])
P('P10', 'The schedule validator accepts exactly the schedules that obey its rules',
  'validate_schedule returns silently exactly for schedules in which every work of the graph is scheduled, no work of another graph '
  'appears, each work starts no earlier than its predecessors (of any edge type) finish, contractors named by the specification are '
  'respected, service works take no time, every scheduled worker count lies within the limits of a requirement of its work, and at '
  'no instant a contractor has more workers of a kind busy than it employs. Otherwise it raises.',
  ['inputs'], 'all schedules of all projects: those of the schedulers and any altered ones, in any order of rows',
  'The tests damage a handful of schedules in four ways; acceptance of a wrong schedule needs a particular coincidence of times.',
  ['sampo/utilities/validation.py'],
  [('rules', 'sampo/utilities/validation.py validate_schedule'),
   ('capacity sweep', 'sampo/utilities/validation.py check_all_allocated_workers_do_not_exceed_capacity_of_contractors')],
  'The sweep is exhaustive for the specification on all plans of up to three rows; verdicts of the real validator on schedules and '
  'randomly damaged schedules are compared with the specification. Lags, assigned crews and durations are not rules of the '
  'validator, so they are not part of the property; a work appears at most once per plan.',
  'TLA+ acceptance rules (Validate) with the event sweep model-checked by TLC; verdicts of the real validator compared by TLC',
  observe=['validate_schedule'])
P('P14', 'Editing a work graph keeps its other works and their order',
  'Deleting a work removes its whole inseparable chain and nothing else, and works that were connected only through it stay in order. Inserting a '
  'work or another graph adds exactly the requested works and edges (types and lags included). Copying, renumbering, saving and loading, pickling and deep '
  'copying change nothing but the ids asked to be changed. The attributes of every work survive, and the graphs operated on are left untouched.',
  ['inputs', 'histories'], 'all work graphs with all edge types and lags, and all sequences of edits, copies and renumberings of them',
  'The tests delete one fixed work and insert one fixed work and compare neighbour counts; lost edges need chains, weak edges or repeated edits.',
  ['sampo/structurator/delete_graph_node.py', 'sampo/structurator/insert_wu.py', 'sampo/structurator/graph_insertion.py',
   'sampo/structurator/light_modifications.py', 'sampo/structurator/prepare_wg_copy.py', 'sampo/scheduler/utils/obstruction.py',
   'sampo/schemas/graph.py', 'sampo/schemas/works.py'],
  [('edits', 'sampo/structurator/*.py'), ('serialized form', 'sampo/schemas/graph.py _serialize / _deserialize / __setstate__')],
  'Exhaustive for the specification: every edit of every graph of four works, every two edits of two works; random histories of edits of real '
  'graphs are validated step by step. Names given to inserted works do not clash with existing ids.',
  'TLA+ edit operations on graphs (Graph) model-checked by TLC for order preservation; histories of the real operations validated by TLC',
  observe=['delete_graph_node', 'insert_work_unit', 'graph_in_graph_insertion', 'work_graph_ids_simplification', 'WorkGraph.dump/load'])
P('P15', 'A work graph is one consistent order of its works after any history',
  'After construction and after any sequence of edits, copies and queries: the nodes are listed in an order compatible with every edge, from the start '
  'to the finish, each once; predecessors and successors, chains, start-start neighbours, the index by id and the adjacency matrix all describe the same current '
  'edges; and everything reached from a graph belongs to that graph, even when another graph uses the same ids.',
  ['inputs', 'histories'], 'all orders of constructing nodes and adding edges with queries in between, and all histories of edits and copies',
  'The tests look at a few finished graphs; stale or foreign answers appear only when queries and changes of several graphs interleave.',
  ['sampo/schemas/graph.py', 'sampo/structurator/prepare_wg_copy.py'],
  [('edges and cached neighbours', 'sampo/schemas/graph.py GraphNode'), ('order, index and matrix', 'sampo/schemas/graph.py WorkGraph._to_adj_matrix')],
  'Random interleavings of construction, queries and edits (several thousand graphs with up to 15 works and all edge types) are validated against the specification '
  'of a consistent graph; well-formedness under edits is model-checked exhaustively on small graphs.',
  'TLA+ consistency rules of a work graph (Graph, GraphTrace) checked by TLC on projections recorded from real graphs',
  observe=['WorkGraph.nodes', 'GraphNode.parents/children/get_inseparable_chain', 'WorkGraph.dict_nodes', 'WorkGraph.adj_matrix'])
P('P16', 'Saving and loading returns an equal object, any number of times',
  'Saving an object (to a dictionary, a text or a file) and loading it gives an object with the same fields, contents and answers; the saved form can be '
  'loaded any number of times, saving does not change the object, later changes of the object do not change forms saved before, and copies (own, deep, pickled) '
  'are equal and independent. This holds for graphs, schedules, projects, works, requirements, resources, contractors, zones, intervals and times. Productivity '
  'and the equipment, materials and object of a scheduled work are not saved.',
  ['inputs', 'histories'], 'all objects of every serializable class with any field values, and all histories of saves, loads, copies and changes',
  'The tests save and load one object of some classes once and compare a few fields.',
  ['sampo/schemas/serializable.py', 'sampo/schemas/graph.py', 'sampo/schemas/schedule.py', 'sampo/schemas/scheduled_work.py', 'sampo/schemas/works.py',
   'sampo/schemas/resources.py', 'sampo/schemas/contractor.py', 'sampo/schemas/requirements.py', 'sampo/schemas/interval.py', 'sampo/schemas/project.py'],
  [('saved forms', 'sampo/schemas/serializable.py AutoJSONSerializable, JSONSerializable, StrSerializable'), ('objects', 'sampo/schemas/*.py')],
  'Histories of 3-7 operations on four objects and three saved forms of 19 classes, random field values; exhaustive only for the specification. '
  'The order of rows with equal starts in the table of a schedule is compared as listed by the object.',
  'TLA+ machine of objects and saved forms (Store) model-checked by TLC; histories of real saves, loads and copies validated step by step',
  observe=['dumpd/loadd/dumps/loads/dump/load', 'copy.deepcopy', 'pickle', 'fields of loaded objects'])
P('P17', 'The schedule table lists every work once, and uniting stages keeps the work',
  'A schedule built from scheduled works with their graph lists each exactly once, by start time and parents first among equal starts, with the columns of the '
  'work; its length is the latest finish. Uniting the stages of a cut work (also in the dated table) gives one row per original work: from the start of its first '
  'stage to the finish of its last one, with the original id and names, the volumes and costs of the stages summed; uniting twice changes nothing more, '
  'and the source schedule stays as it was. The pure table omits exactly the service works.',
  ['inputs'], 'all schedules of restructured graphs, in any order of the given works, with any ties of times, works cut into any number of stages',
  'The tests only read a table of a fixed graph; ties of times, stages of zero length and sums need particular schedules.',
  ['sampo/schemas/schedule.py', 'sampo/utilities/schedule.py', 'sampo/schemas/project.py'],
  [('table', 'sampo/schemas/schedule.py from_scheduled_works / order_nodes_by_start_time'), ('united stages', 'sampo/utilities/schedule.py fix_split_tasks')],
  'Exhaustive for the specification with 3-4 rows; about a thousand random tables per quick run are validated against it. Ids of original works do not contain '
  'the stage separator; the duration column of united rows is not claimed before they are rebuilt as a schedule.',
  'TLA+ ordering and uniting of rows (Table) model-checked by TLC; tables recorded from real schedules validated against it',
  observe=['Schedule.full_schedule_df', 'Schedule.unite_stages', 'Schedule.merged_stages_datetime_df', 'Schedule.pure_schedule_df'])
P('P18', 'Works are considered by the ranks of their rules, groups and edges respected',
  'Heads of inseparable chains inherit exactly the edges of their chains. HEFT considers heads by priority group, then by decreasing length of the longest path to '
  'the end; the LFT rule by group and latest finish time; the randomized and topological rules in an order that respects groups and edges. The LFT scheduler gives '
  'each head the acceptable contractor with the least share of duration and assignments so far. A critical path is a longest path. Correcting priorities lowers '
  'each work to the least priority among the works after it, in time that does not grow with the number of paths.',
  ['inputs'], 'all work graphs, requirements, priorities, contractors and specifications',
  'The tests check that some schedulers run and that orders are topological; wrong ranks still give valid schedules.',
  ['sampo/scheduler/utils/__init__.py', 'sampo/scheduler/utils/critical_path.py', 'sampo/scheduler/utils/time_computaion.py', 'sampo/scheduler/heft/prioritization.py',
   'sampo/scheduler/lft/prioritization.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/topological/base.py', 'sampo/utilities/priority.py'],
  [('ranks', 'sampo/scheduler/utils/critical_path.py ford_bellman'), ('latest times', 'sampo/scheduler/lft/prioritization.py map_lft_lst'),
   ('priorities', 'sampo/utilities/priority.py')],
  'The relaxation, the random choice and the correction are model-checked on all graphs of 3-4 heads; orders, ranks and paths of about a thousand random projects '
  'are validated against the specification. Durations come from an estimator with exact integer times; order among equal ranks is free.',
  'TLA+ ranks, rules and orders (Rank) model-checked by TLC; orders and ranks computed by the code validated against it',
  observe=['get_head_nodes_with_connections_mappings', 'ford_bellman', 'prioritization', 'map_lft_lst', 'critical_path_graph', 'check_and_correct_priorities',
           'LFTScheduler.schedule_with_cache'])
P('P19', 'Scheduling is a function of its inputs and leaves them as they were',
  'The same scheduler, parameters and seed on equal graphs, specifications, contractors and landscapes gives the same schedule: again in the same process, after '
  'other projects or refused runs, from a reused scheduler, and in another process with another hash seed. Scheduling, restructuring, validating, copying and reading '
  'change none of the objects they are given, nor the schedules returned before.',
  ['inputs', 'histories', 'configurations'], 'all projects and schedulers, all histories of runs that share objects, all hash seeds',
  'The tests build fresh objects for every run and never compare two runs; leaks and hash-dependent orders need histories and several processes.',
  ['sampo/scheduler/base.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/topological/base.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/genetic/base.py',
   'sampo/scheduler/timeline/*.py', 'sampo/structurator/base.py', 'sampo/schemas/schedule_spec.py'],
  [('inputs', 'graph, specification, contractors, landscape'), ('memory of schedulers', 'sampo/scheduler/*/base.py'), ('random streams', 'rand / seed arguments')],
  'Exhaustive for the specification with two schedulers and two projects; histories of 5-8 operations on random projects, each run in two processes with different '
  'hash seeds. The priorities of the graph given to a pipeline are corrected in place (that is what the correction is for).',
  'TLA+ function of inputs with histories (Pure) model-checked by TLC; recorded histories of two processes validated step by step',
  observe=['Scheduler.schedule', 'graph_restructuring', 'validate_schedule', 'contents of graphs, specifications, contractors, landscapes and schedules'])
P('P20', 'Projects are refused exactly when they cannot be done',
  'A project can be done if and only if for every work (head of a chain) some permitted contractor has, of every required kind, at least the larger of the minimum and the '
  'crew assigned in the specification. Every scheduler, the genetic search with and without a deadline, the deadline search over resources and the pipeline return a '
  'schedule for exactly these projects and raise NoSufficientContractorError for all others; without any contractor they raise ValueError.',
  ['inputs', 'configurations'], 'all projects, contractors and specifications, feasible or not, all schedulers',
  'The tests schedule feasible projects and one empty contractor; being off by one worker, lacking a kind or a forbidden contractor are not sampled.',
  ['sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/generic.py', 'sampo/scheduler/lft/base.py', 'sampo/scheduler/genetic/base.py',
   'sampo/scheduler/resources_in_time/average_binary_search.py', 'sampo/pipeline/default.py'],
  [('search for contractors', 'sampo/scheduler/utils/multi_contractor.py'), ('pipeline check', 'sampo/pipeline/default.py contractors_can_perform_work_graph')],
  'Exhaustive for the specification with three works, two kinds and two contractors; random projects spoiled in one to three respects go through the real schedulers. '
  'Zones, materials and places do not make projects infeasible here (P08, P09).',
  'TLA+ players that staff works (Feasible) model-checked by TLC against the criterion; outcomes of real runs validated against it',
  observe=['Scheduler.schedule', 'AverageBinarySearchResourceOptimizingScheduler.schedule_with_cache', 'SchedulingPipeline...finish'])
P('P21', 'The pipeline gives a valid schedule under every setting and optimiser',
  'Without local optimisers the pipeline returns what the scheduler gives for the graph of the lag strategy (the shorter of both for AUTO), shifted to the given start. '
  'Order optimisers, stacked on any areas, keep a permutation of the heads that respects every edge and touch only their area, and the schedule optimisers see that order; '
  'after schedule optimisers, stacked on any areas, the schedule is still a valid schedule of the same works: edges, capacities, limits, specification, chains and the '
  'project start hold. The project lists every stage once in its raw schedule and every work of the user once in its schedule.',
  ['inputs', 'configurations'], 'all projects, schedulers, lag strategies, start times and stacks of local optimisers on any areas',
  'The tests run each optimiser once on the first half of the order, print the result and check nothing.',
  ['sampo/pipeline/default.py', 'sampo/pipeline/delegating.py', 'sampo/schemas/apply_queue.py', 'sampo/scheduler/utils/local_optimization.py'],
  [('pipeline', 'sampo/pipeline/default.py schedule / finish'), ('optimisers', 'sampo/scheduler/utils/local_optimization.py')],
  'Swapping is model-checked on graphs of five works with any area, dividing crews for all limits up to 4; a thousand random pipelines per quick run are validated. '
  'The specification refers to works that restructuring does not cut; zones and materials do not go through the schedule optimisers here.',
  'TLA+ swaps and divided crews (Pipeline, Split) model-checked by TLC; orders and schedules of real pipelines validated against it and the Sched machine',
  observe=['SchedulingPipeline.create()...finish()', 'optimize_local', 'lag_optimize', 'time_shift', 'ScheduledProject'])
P('P22', 'Tables of works and contractors become the projects they describe',
  'A table of works, in any documented form, gives a graph of exactly its works with their names, volumes, groups, requirements and links (predecessors, kinds, lags); '
  'history adds or corrects links only as the rows of the history say, with the kind and the least lag that most pairs of occurrences show. Of a loop only its weakest '
  'link is dropped and nothing else is lost. A table of contractors gives these contractors with these people. Writing a graph as a table and reading it gives the same '
  'graph. Works that a structure estimator adds to a work get that work as parent, once, by their probability, and nothing else changes.',
  ['inputs'], 'all tables of works, histories and contractors, all documented column sets and both settings of the reader',
  'The tests parse a few fixed files and look at the sizes; combinations of history, loops, partial columns and odd ids are not sampled.',
  ['sampo/userinput/parser/csv_parser.py', 'sampo/userinput/parser/history.py', 'sampo/userinput/parser/general_build.py', 'sampo/pipeline/preparation.py',
   'sampo/utilities/name_mapper.py', 'sampo/structurator/insert_wu.py', 'sampo/schemas/structure_estimator.py', 'sampo/schemas/graph.py'],
  [('tables', 'sampo/userinput/parser/csv_parser.py'), ('history', 'sampo/userinput/parser/history.py'), ('loops', 'sampo/userinput/parser/general_build.py break_loops_in_input_graph')],
  'Exhaustive for loops of graphs of 3-4 works with weights and for histories of two works on two sites; about a thousand random tables per quick run. Contractors '
  'generated when no table is given are only claimed to be able to do the works. Which of equally weak links is dropped is free.',
  'TLA+ reading of tables, history and loops (Input) model-checked by TLC; graphs read by the code validated against it',
  observe=['CSVParser.read_graph_info', 'CSVParser.work_graph_and_contractors', 'PreparationPipeline', 'WorkGraph.to_frame', 'DefaultStructureEstimator.restruct'])
P('P23', 'Building blocks keep the contracts the schedulers rely on',
  'Linked lists, sorted lists, priority queues, apply queues and Time behave as their abstract types: removal while iterating keeps the other elements, their order and the '
  'tail; sorted lists stay sorted and stable, replace, merge and extract the right element; Time saturates at infinity, never overflows and compares, adds and divides as '
  'numbers do; interval distributions never leave their borders, and give integers when asked for and the same numbers for the same seed.',
  ['histories', 'inputs'], 'all sequences of operations and values of these types',
  'The tests check a few operations in fixed orders; equal keys, saturation and removal at the ends need chosen histories.',
  ['sampo/utilities/linked_list.py', 'sampo/utilities/collections_util.py', 'sampo/utilities/priority_queue.py', 'sampo/schemas/sorted_list.py', 'sampo/schemas/time.py',
   'sampo/schemas/interval.py', 'sampo/schemas/apply_queue.py'],
  [('containers', 'sampo/schemas/sorted_list.py, sampo/utilities/linked_list.py'), ('numbers', 'sampo/schemas/time.py, sampo/schemas/interval.py')],
  'Exhaustive for short histories of the containers and for numbers around the limits; random histories of the real containers and numbers are validated step by step.',
  'TLA+ abstract containers and saturating numbers (Blocks) model-checked by TLC; histories of the real ones validated against it',
  observe=['LinkedList', 'ExtendedSortedList', 'PriorityQueue', 'Time', 'Interval*'])
P('P24', 'Estimates and measures of schedules are what they say',
  'The default estimator gives the time that the slowest kind of the crew needs for the volume, with the loss in communication of its formula, and infinity for crews '
  'that cannot do the work. Productivity is as set, per contractor and kind, within its borders when drawn, and the same for the same seed. Peaks, sums and costs of resource usage of a '
  'schedule are those of its rows, for any subset of kinds; genetic goals are these numbers, times the part by which a deadline is missed.',
  ['inputs'], 'all works, crews, productivities and schedules',
  'The tests check fixed schedules of one size; peaks at touching works, unused kinds and non-monotone crews are not sampled.',
  ['sampo/schemas/time_estimator.py', 'sampo/schemas/works.py', 'sampo/utilities/resource_usage.py', 'sampo/scheduler/genetic/operators.py', 'sampo/schemas/scheduled_work.py'],
  [('times of works', 'sampo/schemas/time_estimator.py'), ('usage', 'sampo/utilities/resource_usage.py')],
  'Exhaustive for small crews and schedules of three rows; random estimates and schedules are validated. Rounding of exact quotients is free by one unit.',
  'TLA+ arithmetic of crews and usage (Measures) model-checked by TLC; results of the code validated against it',
  observe=['DefaultWorkEstimator', 'resources_peaks_sum', 'resources_sum', 'resources_costs_sum', 'FitnessFunction.evaluate'])
P('P25', 'Searches for crews, contractors and deadlines find what they look for',
  'Dividing an interval finds the minimum of every function that falls and then grows. Crew optimisers keep the borders, leave fixed amounts alone and give the average, the '
  'minimum per kind or the given crew; the search over contractors gives the earliest finish, the smaller contractor among equals, or refuses. The deadline search returns a '
  'schedule that keeps the deadline whenever the least or the fullest crews do, with a specification that gives the same valid schedule, and leaves the '
  'specification of the user alone.',
  ['inputs'], 'all functions, borders, contractors, projects and deadlines',
  'The tests run one deadline on one graph; borders and ties of searches and unreachable deadlines are not sampled.',
  ['sampo/utilities/base_opt.py', 'sampo/scheduler/resource/*.py', 'sampo/scheduler/utils/multi_contractor.py', 'sampo/scheduler/resources_in_time/average_binary_search.py'],
  [('interval', 'sampo/utilities/base_opt.py'), ('deadline', 'sampo/scheduler/resources_in_time/average_binary_search.py')],
  'Exhaustive for functions with one minimum and values up to 7-9 and for the bisection of the deadline; about two thousand searches of the real code are validated.',
  'TLA+ bisections and choices (Search, Deadline) model-checked by TLC; searches of the code validated against it and the Sched machine',
  observe=['dichotomy_int', 'dichotomy_float', 'ResourceOptimizer.optimize_resources', 'run_contractor_search', 'AverageBinarySearchResourceOptimizingScheduler'])
P('P26', 'Landscapes answer from their roads: nearest depots, shortest routes',
  'Depots of a place are listed by length of the shortest way to them; a route is a shortest way over the roads that may be used, takes the shortest of several roads between '
  'two nodes, leads from one to the other in order, and is empty when there is none. Neighbours, roads, capacities and vehicles agree with what was given, from either end of a '
  'road; ids are unique; works stand at the nodes they were given to, alone or in lists; depots are no places of works.',
  ['inputs'], 'all graphs of roads, bandwidths, depots and works',
  'The tests build one connected landscape; parallel roads, roads of length 0, ties and unreachable places are not sampled.',
  ['sampo/schemas/landscape.py', 'sampo/schemas/landscape_graph.py', 'sampo/schemas/resources.py'],
  [('roads', 'sampo/schemas/landscape.py LandscapeConfiguration'), ('nodes', 'sampo/schemas/landscape_graph.py')],
  'Exhaustive for routes of small graphs with lengths 0, 1, 3; about a thousand random landscapes per quick run. Which of equally long routes is taken is free.',
  'TLA+ shortest ways over roads (Roads) model-checked by TLC; answers of real landscapes validated against it',
  observe=['LandGraphNode', 'LandGraph', 'LandscapeConfiguration.get_sorted_holders', 'LandscapeConfiguration.get_route', 'setup_landscape'])
P('P27', 'Synthetic projects keep their borders and follow their seed',
  'Synthetic graphs have a start and a finish, works in order and unique ids; they keep the given number of clusters, lower or upper border of works and way of joining clusters; '
  'a cluster larger than the upper border gives a small graph of 30-50. Contractors made for a graph can do all its works, drawn ones have the given kinds and proportions; '
  'materials, names and sampled works keep their borders. Landscapes have one place per chain with room, reachable depots, vehicles that carry. The same seed gives the same in '
  'every process.',
  ['inputs', 'histories'], 'all seeds, borders, modes and graphs that are extended',
  'The tests generate a few graphs and check sizes; the seed in other processes and borders of unusual combinations are not sampled.',
  ['sampo/generator/**', 'sampo/utilities/sampler/*.py'],
  [('clusters', 'sampo/generator/pipeline/project.py get_graph'), ('contractors', 'sampo/generator/environment/*.py'), ('landscape', 'sampo/generator/environment/landscape.py')],
  'Exhaustive for clusters under all combinations of small borders; about nine hundred generations per quick run, each in two processes. The ids of start and finish are not '
  'claimed to follow the seed, nor contractors that take no random generator.',
  'TLA+ borders of generated projects (Gen) model-checked by TLC; what two processes generate validated against it and the Supply machine',
  observe=['SimpleSynthetic', 'get_contractor', 'get_contractor_by_wg', 'extend_names', 'Sampler', 'synthetic landscape'])
P('P28', 'Hybrid cycles and backends keep populations valid and return their best',
  'Every individual of a first population, of a population made by heuristics and of one handed on by a cycle is valid and stands for a schedule that keeps the specification. '
  'Heuristics give one individual per schedule, with its order and crews. Every computational backend gives individuals the same values, in the order they were given, and the '
  'same first population for any number of processes. A cycle hands each population on in turn, stops when the best value has not changed for the given number of looks, and '
  'returns a best individual of its last population, or the valid schedule it stands for, from the given time.',
  ['inputs', 'histories'], 'all projects, cycles of population schedulers, goals, schemes and numbers of processes',
  'The tests run one cycle on one graph and look for no error; values, order of hand-over and what backends remember of other projects are not checked.',
  ['sampo/hybrid/*.py', 'sampo/backend/*.py', 'sampo/scheduler/genetic/*.py'],
  [('population', 'sampo/hybrid/cycle.py CycleHybridScheduler'), ('backend', 'sampo/backend/*.py')],
  'Exhaustive for cycles of up to three schedulers over small populations; about two hundred cycles and runs of backends per quick run. Which of equally good individuals is '
  'returned is free.',
  'TLA+ cycle of population schedulers (Hybrid) model-checked by TLC; recorded cycles and backends validated against it, Genome and the Sched machine',
  observe=['CycleHybridScheduler.run', 'HeuristicPopulationScheduler.schedule', 'ComputationalBackend.compute_chromosomes', 'generate_first_population'])
P('P29', 'Blocks shared out among agents keep their order and get the best offer',
  'Blocks are taken in an order of the block graph and begin after all their parents have ended; an agent offers what it can do given only the blocks it got; the manager takes the '
  'earliest finish, weighted by a trust that falls with each broken promise, or the agent predicted; exactly the winner is given the block. All blocks together respect '
  'precedence, crews and contractors of their agents, also with obstructions. A block graph and its copy agree, as one work graph it keeps all works and precedence; generated '
  'block graphs have the requested shape.',
  ['inputs', 'histories'], 'all block graphs, agents, schedulers, managers and obstructions',
  'No test of the package runs without torch: no auction is run at all by the tests that pass here.',
  ['sampo/scheduler/multi_agency/*.py', 'sampo/scheduler/utils/obstruction.py'],
  [('agents', 'sampo/scheduler/multi_agency/multi_agency.py'), ('blocks', 'sampo/scheduler/multi_agency/block_graph.py')],
  'Exhaustive for three blocks and two agents; about three hundred managed block graphs per quick run. torch, ray and sklearn are not installed: empty modules stand in for their '
  'names, the networks are parameters of the manager. Downtime statistics are not claimed.',
  'TLA+ auction of blocks (Agency) model-checked by TLC; recorded auctions validated against it and the Sched machine',
  observe=['Manager.manage_blocks', 'StochasticManager.run_auction', 'NeuralManager.run_auction', 'Agent.offer', 'BlockGraph.to_work_graph', 'generate_block_graph'])
