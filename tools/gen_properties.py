#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os
OUT = []
I = 'include/soro/'
S = 'src/'
def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

P('P01', 'The track graph realises exactly the driveable connections of the track plan',
  'For every well-formed infrastructure description, two track elements are direct neighbours in the loaded graph, in a given direction of travel, exactly if the description says a train can drive from one straight onto the other there: along a section in the order of its chainage, through a switch between its start and its stem or branch, over a crossing between the two ends of a track, over the diagonals of a slip crossing that has them, over a line switch, a chainage jump and a station border. No connection is missing, invented, or placed on the wrong side of an element.',
  ['inputs', 'configurations'], 'All well-formed ISS track plans, with any arrangement of sections, switches, crossings, slips, line switches, chainage jumps and borders.',
  'The tests load two fixed sample plans and check a few neighbours by hand; they never compare the whole graph with the plan and never see another plan.',
  [S+'infrastructure/graph/graph_creation.cc', S+'infrastructure/parsers/iss/parse_iss.cc', S+'infrastructure/parsers/iss/parse_track_element.cc', S+'infrastructure/graph/element.cc'],
  [('node wiring per element type', S+'infrastructure/graph/graph_creation.cc'), ('partner resolution', S+'infrastructure/parsers/iss/parse_iss.cc')],
  ['infrastructure.graph_.nodes_[..].next_node_ / branch_node_', 'infrastructure.graph_.elements_'],
  [('graph_', 'sections, elements and directed nodes', I+'infrastructure/graph/graph.h')])

P('P02', 'Driving backwards undoes driving forwards, and element queries agree with graph',
  'In the loaded graph every step a train can make in one direction can be undone by the step an opposing train can make: if one directed node leads to another, the mirror image of the second leads to the mirror image of the first, and the listed predecessors are exactly the inverse of the listed successors. What an element says about its neighbours, its orientation, its position on each line and the distance to a neighbour agrees with the graph it is part of, and distances along a path add up to the chainage travelled.',
  ['inputs', 'configurations'], 'All loaded infrastructures and all pairs of nodes and elements in them.',
  'Tests check selected elements of one sample; agreement must hold for every node of every plan.',
  [S+'infrastructure/graph/graph_creation.cc', S+'infrastructure/graph/element.cc', I+'infrastructure/graph/element.h', I+'infrastructure/graph/node.h', I+'infrastructure/path/length.h', I+'infrastructure/path/is_path.h'],
  [('reverse edges', S+'infrastructure/graph/graph_creation.cc'), ('element accessors', S+'infrastructure/graph/element.cc'), ('path length', I+'infrastructure/path/length.h')],
  ['node.reverse_edges_', 'element.neighbours()/rising()/get_km()/nodes()', 'path::length/is_path'])

P('P03', 'A section lists its elements in driving order, both ways',
  'For every loaded section, the elements are reported sorted by chainage with one element per end of the section, the rising direction visits exactly the elements relevant to rising trains from the lowest to the highest chainage, and the falling direction visits exactly the elements relevant to falling trains in the opposite order. Iterating a section from any of its elements in either direction yields precisely the rest of that order.',
  ['inputs', 'configurations'], 'All sections of all well-formed track plans, including sections with elements at equal chainage and sections with no directed element.',
  'The tests check one or two sections of a fixed sample.',
  [I+'infrastructure/graph/section.h', S+'infrastructure/graph/graph_creation.cc', S+'infrastructure/parsers/iss/parse_iss.cc'],
  [('sorting of section elements', S+'infrastructure/graph/graph_creation.cc'), ('section iteration', I+'infrastructure/graph/section.h')],
  ['section.elements_ / rising_order_ / falling_order_', 'section iteration functions'])

P('P04', 'Every station route is the driveable path its description defines',
  'Every loaded station route is a connected driveable path that begins at its declared start and ends at its declared end, follows at every switch the leg its course declares, and lies in the station it belongs to. Its reported main signals, halt positions, runtime checkpoint, omitted elements, speed limits, attributes and start and end conditions are exactly those of the description, at the position on the path where they occur.',
  ['inputs', 'configurations'], 'All station routes of all well-formed descriptions, including routes over several sections, switches driven trailing and facing, and routes starting or ending at signals, halts, borders, bumpers and track ends.',
  'The tests look at a few routes of one sample and compare two indices.',
  [S+'infrastructure/station/station_route.cc', S+'infrastructure/parsers/iss/parse_station_route.cc', I+'infrastructure/station/station_route.h', S+'infrastructure/parsers/iss/parse_iss.cc'],
  [('path construction from course', S+'infrastructure/station/station_route.cc'), ('route parsing', S+'infrastructure/parsers/iss/parse_iss.cc')],
  ['infrastructure.station_routes_', 'station_route accessors'])

P('P05', 'Iterating part of a station route reports its exact state at every node',
  'Iterating any part of a station route reports exactly the nodes of that part, in driving order, and says of each whether the route omits it and which additional speed limit of the route applies at it. The answer for a node does not depend on where the iteration was started or stopped, and speed limits and omissions never move to another node.',
  ['inputs', 'configurations'], 'All station routes and all [from, to) positions within them, with arbitrary sets of omitted elements and extra speed limits (including several of them, adjacent, at the ends, or at the same node).',
  'The tests compare full iterations of sample routes that carry few omitted nodes and speed limits.',
  [S+'infrastructure/station/station_route.cc', I+'infrastructure/station/station_route.h', I+'infrastructure/path/iterate.h' if os.path.exists('/repo/include/soro/infrastructure/path/iterate.h') else S+'infrastructure/station/station_route.cc'],
  [('route iteration', S+'infrastructure/station/station_route.cc')],
  ['station_route.from_to()/from_fixed_node_to..()/to()'])

P('P06', 'Station routes continue exactly where their end meets a start across a border',
  'One station route is reported as successor of another exactly if the first ends at a station boundary and the element on the other side of that boundary is where the second starts in the neighbouring station, travelling the same way; the predecessor relation is exactly the inverse of the successor relation. Routes ending inside a station or at the end of the track have no successor.',
  ['inputs', 'configurations'], 'All pairs of station routes of all well-formed infrastructures.',
  'One sample graph is tested for having edges at all.',
  [S+'infrastructure/station/station_route_graph.cc', I+'infrastructure/station/station_route_graph.h'],
  [('successor computation', S+'infrastructure/station/station_route_graph.cc')],
  ['station_route_graph.successors()/predecessors()'])

P('P07', 'The interlocking offers every signal-to-signal route exactly once and no other',
  'The generated interlocking routes are exactly the driveable chains of station-route pieces that run from one stop location (a main signal, or an end of the station-route network) to the next main signal or end of the network without a main signal in between, leaving out routes only trains with another control system may use. Each appears exactly once and begins and ends at stop locations.',
  ['inputs', 'configurations'], 'All well-formed infrastructures.',
  'The tests count routes and check first and last elements on one sample.',
  [S+'infrastructure/interlocking/get_interlocking.cc', S+'infrastructure/interlocking/interlocking_route.cc', I+'infrastructure/interlocking/interlocking_route.h'],
  [('route generation', S+'infrastructure/interlocking/get_interlocking.cc')],
  ['infrastructure.interlocking_.routes_'])

P('P08', 'An interlocking route iterates as one seamless path and knows what it contains',
  'Iterating an interlocking route yields one connected driveable path from its start to its end, equal to the concatenation of its station-route pieces with nothing repeated or lost at the joints, and its reported size is the number of nodes iterated. Iterating from a later position or up to an earlier one yields exactly the corresponding part, and the route answers whether it contains a node, an element or another route consistently with that path.',
  ['inputs', 'configurations'], 'All interlocking routes of all well-formed infrastructures and all positions in them.',
  'Tests check path connectivity on one sample plan.',
  [S+'infrastructure/interlocking/interlocking_route.cc', I+'infrastructure/interlocking/interlocking_route.h'],
  [('route iteration', S+'infrastructure/interlocking/interlocking_route.cc')],
  ['interlocking_route.iterate()/from()/to()/size()/contains()/first_node()/last_node()'])

P('P09', 'Interlocking indexes name exactly the routes they should',
  'For every stop location the index of routes starting there lists exactly the interlocking routes that start there, the index of routes ending there exactly those that end there, and for every station route the index of interlocking routes lists exactly those that use it. The ids handed out for stop locations and routes are dense, unique and consistent in both directions.',
  ['inputs', 'configurations'], 'All well-formed infrastructures.',
  'The existing tests look at totals on one sample.',
  [S+'infrastructure/interlocking/get_interlocking.cc', I+'infrastructure/interlocking/interlocking.h'],
  [('index construction', S+'infrastructure/interlocking/get_interlocking.cc')],
  ['interlocking subsystem maps'])

P('P10', 'Two routes exclude each other exactly if they compete for the same track',
  'Two interlocking routes are reported as mutually exclusive exactly if both need a common point of the track (a switch, a crossing, a main signal, a halt, a border, a bumper or a track end on the part they use), where merely ending where the other begins is no conflict; the relation is symmetric. The result is the same however many threads compute it and in whatever order they run. The exported file has one line per route, naming exactly the excluded routes that come before it, so that every excluded pair is in the file once; without an infrastructure to read the exporter fails and writes nothing.',
  ['inputs', 'configurations', 'schedules'], 'All well-formed infrastructures, all pairs of routes, all thread counts and interleavings of the parallel computation.',
  'The tests check one sample with whatever schedule happened; they cannot compare with an independent definition.',
  [S+'infrastructure/exclusion/exclusion_elements.cc', S+'infrastructure/exclusion/get_exclusion_graph.cc', S+'infrastructure/exclusion/get_exclusion.cc', 'tools/export_exclusion_graph/src/export_exclusion_graph.cc'],
  [('exclusion elements', S+'infrastructure/exclusion/exclusion_elements.cc'), ('exclusion graph', S+'infrastructure/exclusion/get_exclusion_graph.cc')],
  ['infrastructure.exclusion_.exclusion_graph_', 'get_exclusion_elements()', 'the file export_exclusion_graph writes'])

P('P11', 'The exclusion set behaves as a set of route ids',
  'Whatever sequence of insertions, unions, intersections, differences and other set operations is applied, an exclusion set contains exactly the ids a mathematical set would contain, and its membership test, iteration, count, ordering and equality agree with those contents. Two sets with the same ids behave identically regardless of how they were built.',
  ['histories', 'inputs'], 'All sequences of operations over any number of sets, including empty sets, disjoint ranges, ids at block boundaries and sets that shrink.',
  'The tests run a handful of fixed scenarios; wrong results need particular alignments and histories.',
  [I+'infrastructure/exclusion/exclusion_set.h', S+'infrastructure/exclusion/exclusion_set.cc'],
  [('offset bit storage', S+'infrastructure/exclusion/exclusion_set.cc')],
  ['soro::infra::exclusion_set public operations'],
  [('bits_/first_/last_', 'stored window of the bit set', I+'infrastructure/exclusion/exclusion_set.h')])

P('P12', 'Exclusion groups cover the conflicts exactly, and routes know their groups',
  'The exclusion groups attached to an infrastructure are exactly the groups given with it, each a set of routes that pairwise exclude each other, and a route lists exactly the groups it belongs to, in a fixed order. Two routes share a group only if they exclude each other.',
  ['inputs', 'configurations'], 'All infrastructures and all group files for them.',
  'One sample file is read in the tests; membership in both directions is never compared.',
  [S+'infrastructure/exclusion/get_exclusion.cc', S+'infrastructure/exclusion/read_cliques.cc', I+'infrastructure/exclusion/exclusion.h'],
  [('group file reader', S+'infrastructure/exclusion/read_cliques.cc'), ('inversion route -> groups', S+'infrastructure/exclusion/get_exclusion.cc')],
  ['infrastructure.exclusion_.exclusion_sets_ / irs_to_exclusion_sets_'])

P('P13', 'The ordering graph serialises trains on conflicting routes in planned order',
  'The ordering graph of a timetable has, for every asked trip running in the chosen interval and passing a main signal, one node per route usage in driving order chained together. Usages of different trips whose routes share an exclusion group are connected by a path from the one beginning earlier to the one beginning later (in either direction if they begin at once). The graph is free of cycles and of edges another path implies, every edge joins consecutive usages of a trip or usages sharing a group in planned order, and incoming and outgoing edges mirror each other. The next node of a node is the next usage of the same trip, and the graph checks for exclusion paths and for cycles answer truly.',
  ['inputs', 'configurations', 'schedules'], 'All infrastructures, timetables (with any number of usages beginning at the same time), selected trains and time intervals.',
  'The tests check acyclicity and a few properties on one sample; completeness of the ordering needs an independent definition.',
  [S+'simulation/ordering/ordering_graph.cc', I+'simulation/ordering/ordering_graph.h', S+'simulation/ordering/check_exclusion_paths.cc'],
  [('graph construction', S+'simulation/ordering/ordering_graph.cc')],
  ['ordering_graph.nodes_ / trip_to_nodes_'])

P('P14', 'Following the ordering graph is safe and never deadlocks',
  'If trains claim routes in the order the ordering graph prescribes, claiming a route only after all predecessors released theirs, then in no interleaving do two trains hold mutually exclusive routes at once, and no reachable situation leaves a train waiting forever. In every complete run each trip uses all its routes in order.',
  ['schedules', 'inputs', 'histories'], 'All interleavings of train moves permitted by the ordering graphs built for any timetable.',
  'The tests never execute the trains; only a state space exploration covers all interleavings.',
  [S+'simulation/ordering/ordering_graph.cc', I+'simulation/ordering/ordering_graph.h', S+'infrastructure/exclusion/get_exclusion_graph.cc'],
  [('ordering edges', S+'simulation/ordering/ordering_graph.cc')],
  ['ordering_graph.nodes_', 'exclusion graph'])

P('P15', 'Removing transitive edges keeps reachability and only reachability',
  'Removing the transitive edges of an acyclic ordering graph leaves exactly the same pairs of nodes connected by paths as before, keeps incoming and outgoing edges mirror images, adds no edge, and leaves no edge that another path already implies.',
  ['inputs', 'histories'], 'All acyclic graphs.',
  'The tests use two or three fixed graphs.',
  [S+'simulation/ordering/remove_transitive_edges.cc'],
  [('edge removal', S+'simulation/ordering/remove_transitive_edges.cc')], ['remove_transitive_edges()'])

P('P16', 'A cycle is reported exactly if there is one',
  'Asking a directed graph for a cycle, or whether it has one, answers yes exactly if some node can reach itself over at least one edge; a returned cycle is a genuine closed walk of the graph along existing edges and a shortest one of those through its start. Asking for all cycles gives, for every node that lies on a cycle, a shortest cycle through it, and nothing for the others.',
  ['inputs'], 'All finite directed graphs, including self loops, disconnected parts and nodes only reachable through others.',
  'The tests use a few hand-made graphs.',
  [S+'simulation/ordering/get_cycle.cc', I+'utls/graph/has_cycle.h'],
  [('cycle search', S+'simulation/ordering/get_cycle.cc'), ('cycle test', I+'utls/graph/has_cycle.h')], ['get_cycle()', 'has_cycle()'])

P('P17', 'Graph traversal visits what is reachable, once, in the promised order',
  'Breadth-first and depth-first traversal from a start node visit exactly the nodes reachable from it, each reachable edge once and each node once, breadth-first in order of distance and depth-first continuing at the node found last, and stop exactly where the caller asks; the start itself is not handed out again when a cycle leads back to it. This holds also for graphs with cycles.',
  ['inputs'], 'All finite directed graphs, start nodes and stop conditions.',
  'The tests use small acyclic samples.',
  [I+'utls/graph/traversal.h'], [('traversal', I+'utls/graph/traversal.h')], ['bfs()/dfs() of utls/graph/traversal.h'])

P('P18', 'Service calendars answer for every day as a set of days',
  'A service calendar contains exactly the days it was told to contain: building it from a first day and a day mask, setting days, union, lookup of any day, iteration over all or between two days, and the first and last service day give what the same operation on sets of days gives. Calendars anchored at different first days but with the same days are equivalent.',
  ['inputs', 'histories'], 'All sequences of operations on calendars with any first day and any days set, within the supported length.',
  'The tests use a few fixed calendars.',
  [I+'timetable/bitfield.h', S+'timetable/bitfield.cc'], [('bit storage with first date', S+'timetable/bitfield.cc')],
  ['soro::tt::bitfield'])

P('P19', 'Exactly the trips that run in the asked interval are listed',
  'For every train and every time interval, the listed departures are exactly the service days of the train (midnights) on which its run, from its first departure to its last arrival, overlaps the closed interval, in increasing order and without duplicates; without an interval they are all service days, and trips() lists one trip per service day. The first absolute departure, last absolute arrival and the event interval of a day are the times of the plan counted from that day, so a departure after midnight belongs to the service day it was planned for and days outside the calendar never yield a trip.',
  ['inputs'], 'All trains, calendars and intervals, including intervals that start or end on an event, and runs past midnight.',
  'Tests check some sample trains and windows.',
  [S+'timetable/train.cc', I+'timetable/train.h', S+'timetable/timetable.cc', I+'timetable/interval.h'],
  [('departure enumeration', S+'timetable/train.cc')], ['train.departures()/trips()', 'timetable departures'])

P('P20', 'The loaded timetable says what the timetable files say',
  'For every folder of well-formed timetable files (whatever else the folder holds), the loaded timetable contains, each once and numbered consecutively, only construction trains of released train elements that the system supports, each with the number, rolling stock (weight and top speed), length, freight category, service days (with their included and excluded special days), and stops and timed passing points with kind, arrival, departure and minimum dwell times the file states, times after midnight carried over to the next day, dwells rounded to seconds. A train element is taken over as a whole or not at all; one whose trains are all supported, whose station routes follow each other, and which can be expressed in exactly one evident way by interlocking routes is not left out, and unsupported ones do not affect the others. The span of the timetable runs from the earliest departure to the latest arrival. Files for another version of the infrastructure (name or number) are refused.',
  ['inputs', 'configurations'], 'All well-formed timetable files over all infrastructures.',
  'Tests load sample timetables and spot-check counts and a few trains.',
  [S+'timetable/parsers/kss/parse_kss_timetable.cc', S+'timetable/timetable.cc'],
  [('KSS reader', S+'timetable/parsers/kss/parse_kss_timetable.cc')], ['timetable.trains_'])

P('P21', 'A train keeps its planned path when expressed in interlocking routes',
  'The interlocking routes assigned to a train follow each other (each begins at the node the previous one ends at) and contain the drive over the station routes of its timetable, in order and without detour. Iterating a train yields exactly that drive, from its first planned stop to its last, and meets each planned stop (at the halt for its freight or passenger category) and each timed passing point once, in the order of the plan. The first and last station route and the start node are those of the plan. Loading always ends: a train that cannot be expressed is left out.',
  ['inputs', 'configurations'], 'All trains of all supported timetables.',
  'Tests check sample trains for connectivity only.',
  [S+'timetable/parsers/station_route_to_interlocking_route.cc', S+'timetable/train.cc', S+'timetable/sequence_point.cc'],
  [('route transformation', S+'timetable/parsers/station_route_to_interlocking_route.cc'), ('train iteration', S+'timetable/train.cc')],
  ['train.path_', 'train.iterate()', 'sequence_point accessors'])

P('P22', 'Computed running times respect the plan, the track and the train',
  'The computed run of a train tells a time for exactly those nodes of its drive that are of an asked kind and not left out by the route, in the order of the drive and at non-decreasing times. It begins at the planned departure; at every planned stop the train stands still, and leaves at the planned departure or, if that is later, after the minimum dwell time following its arrival, never before either. In between it drives each interval of its drive as fast as the allowed speed, its own top speed, its forces and the braking before the next lower speed or stop permit: it gains speed until the allowed speed is reached, holds it, and brakes just in time, so the times are those this takes, and no allowed speed is exceeded.',
  ['inputs', 'configurations'], 'All trains, infrastructures, start times and observed element types; trains that gain at most about 1 m/s in half a second, and at least 2 m between a place where the allowed speed changes and the next.',
  'Tests compare a few running times with recorded ones.',
  [S+'runtime/runtime.cc', S+'runtime/runtime_physics.cc', S+'runtime/interval.cc', I+'runtime/runtime.h'],
  [('run computation', S+'runtime/runtime.cc'), ('times of single nodes', S+'runtime/runtime.cc')], ['runtime_calculation()'])

P('P23', 'Speed intervals cut the path exactly at every change of the allowed speed',
  'The intervals computed for a train cover its drive from the first to the last stop: they end exactly at the main signals, the planned stops and the places where the allowed speed changes, those at one and the same distance together, at the distances the chainages give. The allowed speed of an interval is the one last set before it: by a speed limit of the line or of the station route that applies to the train, from its place on or, if announced by signal, from the last main signal before it (or the start) on; before the first change it is that of the nearest limit behind the start, or the default of the infrastructure. It is lowered only where the train could not otherwise brake to the next lower speed or stop, and by no more than 1 m/s beyond what that needs. The speed at the end of an interval is the one the next begins with. Every planned stop lies at the end of its interval, and every node of an asked kind is noted, with its distance, in the interval it lies in.',
  ['inputs', 'configurations'], 'All trains and infrastructures with any placement of speed limits (without a length), halts and observed elements.',
  'Tests only check sample trains.',
  [S+'runtime/interval.cc', I+'runtime/interval.h', S+'timetable/train.cc'], [('interval computation', S+'runtime/interval.cc'), ('applicable limits', S+'timetable/train.cc')], ['get_interval_list()'])

P('P24', 'Train movements obey mass, force and braking exactly',
  'Accelerating, braking and holding speed are continuous movements in steps of half a second that begin at time and distance zero with the given speed. In each step of an acceleration the speed grows by what pulling force minus resistance of the whole train does to its mass (rotating masses counting six percent), and every step covers its mean speed times its duration; the forces and the top speed are those the rolling stock descriptions give for that speed, summed over all vehicles. An acceleration ends only because the target speed, the top speed or the end of the way is reached and never goes beyond the way; braking slows at the constant rate, never covers more than the exact braking distance, and ends exactly at the target speed after exactly that distance; holding speed covers the given distance exactly. Asking a vehicle for its pull at a speed beyond its curve, or asking to brake to a higher speed, is refused visibly.',
  ['inputs'], 'All entry speeds, target speeds, distances and trains made of described vehicles.',
  'Fixed examples only.',
  [S+'runtime/runtime_physics.cc', I+'runtime/runtime_physics.h', S+'rolling_stock/train_physics.cc', I+'rolling_stock/train_physics.h', I+'rolling_stock/train_series.h'],
  [('phase computation', S+'runtime/runtime_physics.cc'), ('forces', S+'rolling_stock/train_physics.cc')], ['accelerate(), brake(), coast()', 'train_physics::tractive_force() / resistive_force() / max_speed()'])

P('P25', 'Discrete probability distributions conserve mass and position',
  'Every operation on a discrete distribution places each portion of probability at the exact value it belongs to: inserting a value or a value at a key sets that portion and no other, whether the key lies before, inside or after the values so far, lookup and iteration give each key its own portion, and sums are the sums of the portions.',
  ['inputs', 'histories'], 'All sequences of operations on distributions of any granularity.',
  'Few fixed distributions are tested.',
  [I+'simulation/dpd.h', I+'simulation/granularity.h'], [('offset storage of probabilities', I+'simulation/dpd.h')], ['dpd operations'])

P('P26', 'Instants, dates and durations convert without loss and order consistently',
  'Adding and subtracting durations, splitting an instant into its day and its time of day, building an instant from a calendar date, comparing instants and printing them all agree with the proleptic Gregorian calendar in UTC, for every instant before or after the epoch. Conversions back and forth give the same instant, and invalid instants stay distinguishable from all valid ones.',
  ['inputs'], 'All representable instants, dates and durations, including leap days, centuries, negative times and midnight boundaries.',
  'Tests check a few dates.',
  [I+'base/time.h', I+'utls/unixtime.h', S+'utls/unixtime.cc', S+'base/time.cc' if os.path.exists('/repo/src/base/time.cc') else I+'base/time.h'],
  [('instant arithmetic', I+'utls/unixtime.h'), ('time helpers', I+'base/time.h')], ['unixtime operations', 'time helpers'])

P('P27', 'Generators yield their sequence exactly once, lazily, in order',
  'Consuming a generator yields exactly the values its body yields, once each, in order, running the body no further than needed for the values asked for; a generator that delegates to others yields their values in place, to any depth. Abandoning, moving or destroying a generator at any point releases everything its body holds exactly once, and an exhausted generator stays exhausted; an error raised by the body of a recursive generator reaches the consumer.',
  ['schedules', 'programs', 'histories'], 'All generator bodies (values, nesting, errors) and all consumer schedules (advance, stop early, move, destroy).',
  'The tests consume a handful of fixed generators, always to the end.',
  [I+'utls/coroutine/generator.h', I+'utls/coroutine/recursive_generator.h', I+'utls/coroutine/iterator.h', I+'utls/coroutine/coro_map.h', I+'utls/coroutine/collect.h'],
  [('coroutine state machine', I+'utls/coroutine/recursive_generator.h'), ('iterator protocol', I+'utls/coroutine/iterator.h')],
  ['generator/recursive_generator iteration', 'coro_map()', 'collect()'])

P('P28', 'Sequence helpers return exactly what their definition says',
  'The helpers that cut, merge, intersect, slice, search and overlap sequences return exactly the elements their definition selects, in the defined order and multiplicity, for empty, equal, disjoint and arbitrarily interleaved inputs. They never read or write outside the sequences given to them.',
  ['inputs'], 'All finite input sequences and predicates.',
  'The tests use a few short vectors per helper.',
  [I+'utls/algo/remove_after.h', I+'utls/algo/remove_until.h', I+'utls/algo/slice.h', I+'utls/algo/merge_unique.h', I+'utls/algo/multi_set_merge.h', I+'utls/algo/sort_and_intersect.h', I+'utls/algo/overlap.h'],
  [('sequence algorithms', I+'utls/algo/')], ['functions in utls/algo'])

P('P29', 'Containers keep their contract under every sequence of operations',
  'The priority queue always hands out a largest element according to its order and loses none; the sorted vector stays sorted and holds exactly what was inserted; the offset-indexed container maps each index to the value stored for it; the optional holds a value exactly after one was put in, and copies, moves and swaps like a value; index-based iterators and iterator ranges visit exactly the addressed elements in order; the constant map finds exactly its keys.',
  ['histories', 'inputs'], 'All operation sequences on all these containers.',
  'The tests exercise few fixed sequences; several containers have no test.',
  [I+'utls/container/priority_queue.h', I+'utls/container/sorted_vector.h', I+'utls/container/offset_container.h', I+'utls/container/optional.h', I+'utls/container/id_iterator.h', I+'utls/container/it_range.h', I+'utls/container/constexpr_map.h'],
  [('containers', I+'utls/container/')], ['container public operations'])

P('P30', 'Element kinds are classified and named consistently',
  'Every kind of track element has exactly one place in each classification: the kinds with a direction, with track-changing, connecting or end roles are told apart consistently, each tag of an infrastructure description means exactly one kind, in the direction its suffix names, and a loaded element answers the classification questions as its kind does. Sets of kinds contain exactly the kinds put in.',
  ['inputs'], 'All kinds and all sets of kinds.',
  'There are no tests of the classification.',
  [I+'infrastructure/graph/type.h', S+'infrastructure/graph/type.cc', I+'infrastructure/graph/type_set.h'],
  [('classification', S+'infrastructure/graph/type.cc')], ['functions of type.h', 'type_set operations'])

P('P31', 'Text becomes the number it denotes, and numbers only narrow if they fit',
  'Parsing integers and fixed point numbers from text gives exactly the number written, for every length, sign and separator the formats allow, and fails visibly on text that is not such a number (in builds with assertions, and always for the variants that report failure). Splitting text yields the pieces between separators, comparing and searching text never look past its end, and converting a number to a narrower type succeeds exactly if the value is representable there.',
  ['inputs'], 'All strings and all integer values and type pairs.',
  'Tests use a few literals.',
  [I+'utls/parse_int.h', I+'utls/parse_fp.h', I+'utls/string.h', I+'utls/narrow.h'],
  [('parsers', I+'utls/parse_fp.h'), ('checked narrowing', I+'utls/narrow.h')], ['parse_int()', 'parse_fp()', 'split()', 'narrow()/fits()'])

P('P32', 'Physical quantities and typed numbers obey the arithmetic of their values',
  'Typed numbers and physical quantities compare, add, subtract and scale as the plain numbers they wrap (quantities are equal within a hundredth of their unit), products and quotients of quantities have the unit physics gives them, conversions between units are exact, and the undefined value is distinguishable from all defined ones. No operation changes an operand it should only read.',
  ['inputs'], 'All values and all unit combinations the interface allows.',
  'Compile-time tests cover the type lists only; a few unit conversions are tested.',
  [I+'utls/strong_types/strong_type.h', I+'utls/strong_types/fraction.h', I+'utls/strong_types/type_list.h', I+'si/units.h', I+'simulation/kilometer_per_hour.h'],
  [('typed arithmetic', I+'utls/strong_types/strong_type.h'), ('unit algebra', I+'utls/strong_types/type_list.h')], ['si quantities', 'strong types', 'kilometer_per_hour'])

P('P33', 'Polynomials and piecewise functions evaluate to their mathematical value',
  'A polynomial evaluates as the mathematical polynomial does, in the typed units its coefficients imply, and a piecewise function evaluates at each point with the piece that covers it, including at the boundaries between pieces; it fails visibly beyond its last piece, and is called continuous exactly if its pieces meet without a gap.',
  ['inputs'], 'All coefficients, pieces and points for which arithmetic is exact.',
  'Few fixed evaluations.',
  [I+'utls/math/polynomial.h', I+'utls/math/piecewise_function.h'], [('polynomial arithmetic', I+'utls/math/polynomial.h')], ['polynomial evaluation', 'piecewise_function evaluation'])

P('P34', 'Coordinates keep their place through arithmetic and conversion',
  'Distances between places are symmetric, non-negative, zero only for the same place and the great-circle distance; moving a place goes the given distance along the given bearing; converting between geographic, Cartesian and polar coordinates and back gives the same place; bounding boxes contain their places; missing coordinates are recognisable; and a file of station coordinates gives each station exactly the place written for it, and every other station (all of them, if there is no file) none.',
  ['inputs'], 'All coordinates.',
  'A few conversions are tested at best.',
  [I+'utls/coordinates/gps.h', S+'utls/coordinates/gps.cc', I+'utls/coordinates/cartesian.h', S+'infrastructure/parsers/parse_station_coords.cc'],
  [('conversion', S+'utls/coordinates/gps.cc')], ['gps and cartesian operations', 'station coordinate parser'])

P('P35', 'Every failure is reported as the distinct error it is',
  'Each error condition of a component has its own non-empty message and its own category, an error compares equal to its own condition and to no other, and never equals success. Results that carry either a value or an error report exactly the one they carry. Counts of collected errors equal the errors that occurred, and violated assertions surface as failures in checked builds.',
  ['inputs', 'fault_sequences'], 'All error codes of all components.',
  'No tests compare the error codes with each other.',
  [I+'base/error.h', S+'rolling_stock/rolling_stock_error.cc', S+'timetable/timetable_error.cc', S+'timetable/parsers/route_transform_error.cc', S+'timetable/parsers/kss/kss_error.cc', I+'utls/result.h'],
  [('error categories', I+'base/error.h')], ['std::error_code of each component', 'result<T>'])

P('P36', 'Bytes written to a file are the bytes read back',
  'Writing a buffer to a file and reading it back yields the same bytes in the same order for every size, including empty files and files with any byte values, and replaces what was in the file before. Reading a file as text yields its exact contents.',
  ['inputs', 'histories'], 'All buffer contents, sizes and sequences of writes and reads.',
  'Not tested directly.',
  [I+'utls/file/binary_buffer_to_file.h', I+'utls/file/file_to_binary_buffer.h', I+'utls/file/loaded_file.h'],
  [('file helpers', I+'utls/file/')], ['file helper functions'])

P('P37', 'Shorthand wrappers do what the underlying operation does',
  'The shorthand versions of searching, counting, copying, sorting, accumulating and set operations give exactly the result of the operation they abbreviate on the same range and predicate, including positions for absent elements. The tuple and range helpers visit, select and convert every element in order and only those.',
  ['inputs'], 'All ranges, predicates and tuples.',
  'Only the tuple slice has a test.',
  [I+'utls/std_wrapper/', I+'utls/tuple/', I+'utls/ranges/to.h', I+'utls/template/'],
  [('wrappers', I+'utls/std_wrapper/')], ['functions in std_wrapper, tuple, ranges'])

P('P38', 'Infrastructure statistics count what is there',
  'The statistics reported for a set of infrastructure files (elements per kind, sections including the one each pair of borders forms, stations, total number of elements) equal what a count over the description yields.',
  ['inputs', 'configurations'], 'All well-formed infrastructures.',
  'Not tested.',
  [S+'infrastructure/parsers/iss/get_infra_stats.cc', I+'infrastructure/infra_stats.h', I+'utls/statistics.h'],
  [('counting', S+'infrastructure/parsers/iss/get_infra_stats.cc')], ['infra_stats'])

P('P39', 'Element attributes, rolling stock and lines are loaded as described',
  'Every attribute the description gives a track element (chainage on its line, name, speed, effect position, affected control systems, slope) and every attribute of a traction unit (weight, length, top speed, tractive force, braking) is available unchanged, in the documented unit, on the loaded object; each line knows its sections.',
  ['inputs', 'configurations'], 'All well-formed descriptions.',
  'Tests check a few attributes in one sample.',
  [S+'infrastructure/parsers/iss/parse_track_element.cc', S+'rolling_stock/parse_train_series.cc', S+'infrastructure/line.cc', S+'infrastructure/regulatory_data.cc', S+'infrastructure/parsers/iss/parse_helpers.cc', I+'infrastructure/parsers/iss/iss_string_literals.h'],
  [('attribute parsing', S+'infrastructure/parsers/iss/parse_track_element.cc'), ('rolling stock parsing', S+'rolling_stock/parse_train_series.cc')],
  ['element data', 'rolling_stock', 'lines'])

P('P40', 'The drawing places every station and element where the input says',
  'Loading an infrastructure with layout enabled assigns every station and every element exactly one position and terminates, also when the file with station coordinates is missing or names only some stations. A station with given coordinates lies there; one without lies at the weighted mean of the nearest stations with coordinates that can be reached over stations without (closer ones weigh more: greatest number of steps + 1 - steps, and twice if directly joined by more than four tracks), beside the only one (0.1 degree west per step), or at the default place (8.0, 47.0) if there is none. The elements of a station form the picture the input draws, to scale (ten metres per unit), centred on the station and turned as one (by a multiple of five degrees) so that its borders look towards the stations they lead to; the track elements of a section lie on the straight line between its ends, evenly spread and in driving order.',
  ['inputs', 'configurations'], 'All well-formed infrastructures and station coordinate files.',
  'No test looks at a coordinate.',
  [S+'infrastructure/layout/layout.cc', S+'infrastructure/layout/layout_to_gps.cc', S+'infrastructure/parsers/parse_station_coords.cc'],
  [('layout', S+'infrastructure/layout/layout.cc'), ('station coordinates', S+'infrastructure/parsers/parse_station_coords.cc')],
  ['get_layout()', 'layout_to_gps()', 'parse_station_coords()', 'infrastructure::element_positions_', 'station_positions_'])

P('P41', 'The simulation graph knows what each node waits for',
  'The simulation graph of a timetable holds, train by train in the order of the timetable, consecutively numbered nodes that each follow the one before of the same train, and knows each train\'s range of nodes. For any set of order edges between nodes: the successors (predecessors) of a node are the next (previous) node of its train, if there is one, and then the nodes ordered after (before) it, each as often as ordered; a node is finished exactly if its exit is distributed, ready exactly if all its predecessors are finished; a path from one node to another is reported exactly if the successors lead there. The later of two independent times is distributed as their maximum: each pair of values counts with the product of its probabilities at the later value.',
  ['inputs', 'histories'], 'All timetables, order edges and progress of the simulation (builds without assertions: executing a simulation is not implemented).',
  'Not tested at all.',
  [S+'simulation/sim_graph.cc', I+'simulation/sim_graph.h'],
  [('simulation graph', S+'simulation/sim_graph.cc')], ['sim_node', 'sim_graph', 'simulation_result', 'fold_max()'])

W = 'web/server/src/'
P('P42', 'The web server answers every documented address with what is loaded',
  'For every infrastructure and timetable it offers, the web server answers each question of its interface (names of infrastructures, stations and timetables; bounding box; station, station route, interlocking route, exclusion set, element by id; timetable by name) with exactly what the loaded infrastructure or timetable holds, each list complete and without repetition and each path in driving order. Names, ids and addresses that do not exist are answered 404; every question gets exactly one answer, valid JSON where it has a body, and no question ends the server.',
  ['inputs', 'configurations', 'histories'], 'All well-formed infrastructures and timetables on offer (none, one or several), with or without station coordinates; all ids and names, existing or not.',
  'The server has no test of its interface at all.',
  [W+'soro_server.cc', W+'modules/infrastructure/infrastructure_module.cc', W+'modules/infrastructure/serve_element.cc', W+'modules/infrastructure/serve_station.cc', W+'modules/infrastructure/serve_station_route.cc', W+'modules/infrastructure/serve_interlocking_route.cc', W+'modules/infrastructure/serve_exclusion_set.cc', W+'modules/infrastructure/serve_bounding_box.cc', W+'modules/timetable/timetable_module.cc', W+'modules/timetable/serve_timetable.cc'],
  [('routing of addresses', W+'soro_server.cc'), ('answers', W+'modules/infrastructure/')], ['HTTP answers of soro_server'])

P('P43', 'Everything that has a name is found under it, and nothing else',
  'The search of the web server knows every station under its short and full name, every station route, interlocking route, main signal, switch and halt (each of its identifiers) under its own name, and every element under its id (filled to three digits); each found thing carries its own kind, id and the smallest box around the places of its elements. A search for the exact name of something yields everything of that name and nothing else. A search for fewer than three characters is answered 400, one in an unknown infrastructure 404.',
  ['inputs', 'configurations'], 'All well-formed infrastructures; all names in them, unknown names, and short ones (matching of similar names is left to the search library and not claimed).',
  'Not tested.',
  [W+'modules/search/search_module.cc', W+'modules/search/serve_search.cc'],
  [('search index', W+'modules/search/search_module.cc'), ('answers', W+'modules/search/serve_search.cc')], ['get_search_module()', 'GET /infrastructure/{}/search'])

P('P44', 'The ordering graph shown in the browser is the ordering graph of the timetable',
  'Asked for the ordering graph of a timetable in an interval (and of certain trains), the web server shows exactly the nodes and edges of the ordering graph the library computes for these parameters: each node with its train, its interlocking route and its offset from the first node of its trip, each trip with a place of its own that respects the order of first departures, the number of trips and the length of the longest one. An interval or train list that is no valid one is answered 400, an unknown infrastructure or timetable 404.',
  ['inputs', 'configurations'], 'All timetables on offer, all intervals (also empty, reversed and beyond the timetable) and sets of trains.',
  'Not tested.',
  [W+'modules/ordering/serve_ordering_graph.cc', W+'modules/ordering/ordering_module.cc'],
  [('ordering graph answer', W+'modules/ordering/serve_ordering_graph.cc')], ['GET /infrastructure/{}/timetable/{}/ordering'])

P('P45', 'The map shows each station, element and track once and joined as in reality',
  'The map the web server writes for its tiles is valid and holds every station and every element exactly once, at its place and under its name, with ids used once. Each pair of neighbouring elements of a station is joined by exactly one track, each pair of neighbouring elements of different stations by exactly one chain of points that leads from one to the other, close to both and without leaps; nothing else is joined.',
  ['inputs', 'configurations'], 'All well-formed infrastructures with any coordinates, including elements and stations at the same place.',
  'The two tests of the export (not built here) look at one sample and count.',
  [W+'modules/tiles/osm_export/osm_export.cc', W+'modules/tiles/osm_export/interpolation.cc'],
  [('export', W+'modules/tiles/osm_export/osm_export.cc'), ('interpolation', W+'modules/tiles/osm_export/interpolation.cc')], ['export_to_osm()'])

C = 'web/client/src/'
P('P46', 'The browser shows what belongs to the current selection',
  'Whatever the user selects, and in whatever order the server\'s answers arrive or fail: the timetables offered are those of the selected infrastructure; the range of time is taken over only from the selected timetable; the routes highlighted are exactly those chosen in the selected infrastructure and not dropped since; search results, the details of a station and the ordering graph drawn are those of the latest question, never of an earlier one answered late. Every action asks the server exactly the documented address of the selected infrastructure, timetable, range and trains, and nothing that is not selected.',
  ['schedules', 'histories'], 'All sequences of user actions the pages offer and all orders in which answers arrive, are refused or are lost.',
  'Tests (vitest) render components with fixed states; no test lets an answer come late.',
  [C+'stores/sidebar-store.ts', C+'util/SoroClient.ts', C+'util/HttpClient.ts', C+'components/sidebar/search/extended-search.vue', C+'components/sidebar/station/station.vue', C+'components/ordering/ordering-graph.vue'],
  [('selection and routes', C+'stores/sidebar-store.ts'), ('search', C+'components/sidebar/search/extended-search.vue'), ('station', C+'components/sidebar/station/station.vue'), ('ordering graph', C+'components/ordering/ordering-graph.vue')],
  ['state of the sidebar store', 'requests to the server', 'drawn ordering graph'])

P('P47', 'The maps and settings of the browser keep to what the user chose',
  'Each tab shows a map of the selected infrastructure on which exactly the kinds of elements checked in its legend are visible, in the directions checked (rising, falling), with exactly the highlighted routes, whatever happens meanwhile (another theme, another tab, another infrastructure, a late answer). Its legend is kept between visits, tab by tab; resetting it always returns to the initial choice. A map moves to the box of its own infrastructure or to a chosen search result, never to the box of an earlier infrastructure. Clicking on a station selects it, anything else does not. The theme is the preferred one or, if that is the system\'s, follows the system at once; preference, colour and layout are those of the last visit.',
  ['histories', 'schedules'], 'All sequences of actions over one or several visits and all orders of answers.',
  'Tests (vitest) check single steps with replaced maps.',
  [C+'components/infrastructure/infrastructure-map.vue', C+'components/infrastructure/map-style.ts', C+'components/infrastructure/add-icons.ts', C+'stores/settings-store.ts', C+'stores/golden-layout-store.ts'],
  [('map and legend', C+'components/infrastructure/infrastructure-map.vue'), ('style', C+'components/infrastructure/map-style.ts'), ('settings', C+'stores/settings-store.ts')],
  ['layers and filters of the map', 'localStorage', 'theme'])

G = 'tools/generate-osm/'
P('P48', 'Railway data put on OpenStreetMap lines keeps line, place and identity',
  'The program generate-osm writes the tracks of all lines that have a relation with route=tracks or railway and a four-digit ref, with their nodes, ways and tags as they were, all ways of a line in one bright colour of its own, and every element the railway\'s data names for one of these lines exactly once, as a new node with the kind, direction, name and values of the data. It lies at the node of the map that carries its signal or switch reference if there is exactly one such signal (or such a switch); otherwise, if at least two places of its line are known from which the tracks lead on, at the node its kilometrage stands for or at one of the two nodes next to that. It is part of every way the node it lies at is part of, right beside it, and ways that met before still meet. Stations and halts are marked and, like halts and signals, listed with their names and places under the id of their node. With an additional map, all this is added to it and nothing of it is lost; without railway data the lines alone are written, again from those generated before if asked so.',
  ['inputs', 'histories'], 'All maps whose lines are chains of ways (in either direction, also meeting head to head, with tracks branching off) and all railway data for them, in several files and sections, with rising or falling kilometrage, in all modes of the program one after the other.',
  'The Go tests ask single functions about hand-made maps of a few nodes; nothing runs the program as a whole.',
  [G+'main.go', G+'db-utils/db-mapper.go', G+'db-utils/db-parser.go', G+'db-utils/find-nodes/find-new-node.go', G+'db-utils/find-nodes/find-closest-match.go', G+'db-utils/find-nodes/find-best-osm-node.go', G+'db-utils/find-nodes/find-next-way.go',
   G+'db-utils/mapper/map-signals.go', G+'db-utils/mapper/map-switches.go', G+'db-utils/mapper/map-misc.go', G+'db-utils/mapper/map-halts.go', G+'osm-utils/osm-toolbox.go', G+'osm-utils/generate-stations.go', G+'combine-lines/combine-lines.go'],
  [('known places', G+'db-utils/mapper/map-signals.go'), ('places told from known ones', G+'db-utils/find-nodes/find-new-node.go'), ('new nodes on ways', G+'osm-utils/osm-toolbox.go')],
  ['finalOsm.xml', 'finalOsm.json'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for p in OUT:
        for fn in p['anchors']['files']:
            if not os.path.exists('/repo/' + fn): print('missing', p['id'], fn)
        f.write(json.dumps(p) + '\n')
